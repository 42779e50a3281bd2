import build
import comp
import mir
from comp import For

META = {
    "id": "P44",
    "title": "A format yields exactly the text its fragments call for",
    "statement": "Formatting a record gives, in order, one text for each field its tag, occurrence and condition select, "
                 "unless that text is empty. A value fragment is prefix, value (without its first '@' if asked) and suffix of each "
                 "subfield it names, up to its bound; `<$>` joins parts up to the first empty one, `<*>` all of them. A fragment's or "
                 "group's modifiers then strip the first '@', trim, remove blanks, lower and raise the case of its text, in that order.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, every format expression and every format option",
    "why": "Formats nest without limit and fields have any number of subfields; tests format a handful of fields of one record.",
    "files": ["src/fmt/mod.rs"],
    "mechanism": [["FormatExt::format for RecordRef and StringRecord", "src/fmt/mod.rs"],
                  ["fmt_field of Format, Fragments, Group, Value, List; Modifier::modify", "src/fmt/mod.rs"]],
    "technique": "comprehension extraction: abstract interpretation of MIR into list comprehensions, compared with a specification",
    "rule": "every function is turned into the comprehension it computes (iterator chains and loops alike, counters as lists of "
            "ticks), with the conditions under which a round adds what or ends the loop; for every exit and every round the "
            "addition must be the one specified under the conditions settled there, and the specification's conditions must be settled.",
    "assumptions": "Library text operations (replacen, trim, replace, to_lowercase, to_uppercase) do what they are documented to do; "
                   "what a condition or a tag test computes and what an expression is parsed into is decided by other properties.",
}
FP = "pica_record::fmt::"


def p(n):
    return ("p", n)


def t(*x):
    return ("t",) + x


def k(x):
    return ("k", x)


def X(x):
    return ("x", x)


S, FLD, OPT = p("self"), p("field"), p("options")


def f(x, n):
    return ("f", x, n)


MODS = [("strip_overread_char", lambda x: t("replacen", x, k("@"), k(""), k(1))), ("trim", lambda x: t("trim", x)),
        ("remove_ws", lambda x: t("replace", x, k(" "), k(""))), ("lowercase", lambda x: t("to_lowercase", x)),
        ("uppercase", lambda x: t("to_uppercase", x))]
HOLE = ("hole",)


def inside(x, pat):
    """what stands in the hole of a pattern, None if x has another form"""
    if pat == HOLE:
        return x
    if not isinstance(x, tuple) or not isinstance(pat, tuple) or len(x) != len(pat):
        return None
    got = None
    for a, b in zip(x, pat):
        if isinstance(b, tuple) and comp.mentions(b, HOLE):
            got = inside(a, b)
            if got is None:
                return None
        elif a != b:
            return None
    return got


def modified(r, q, cmp):
    """the text before the modifiers that are set"""
    m = f(S, "modifier")
    for name, op in reversed(MODS):
        if q(f(m, name), "whether the modifier '%s' is set" % name):
            x = inside(r, op(HOLE))
            if x is None:
                cmp.no("%s where the modifier '%s' is to be applied last" % (comp.show(r), name))
                return None
            r = x
    return r


def segs(r):
    return r[1] if r[0] == "L" else (("x", r),)


class Lazy(build.Build):
    """the values of a lazy iterator that is returned are what is built"""
    OUT = ("out",)

    def special(self, a, st, c, n, v):
        if c.path == mir.SINK:
            if self.OUT not in self.get(st):
                return [(st, ("s", (), "tuple"))]
            self.add(st, self.OUT, [("e", self.term(a, st, v[0]))])
            return [(st, ("s", (), "tuple"))]
        return None

    def init(self):
        return ((), ((self.OUT, 0, ((),)),))

    def exit(self, a, st, v, node):
        build.Build.exit(self, a, st, self.mkacc(self.OUT), node)


def run(ctx):
    prog = ctx.prog

    def fn(path):
        g = [h for h in prog.fns.values() if h.path == path and h.body]
        if not g:
            raise mir.MissingAnchor(path)
        return g[0]

    def inline(h):
        # helpers of the module are part of the function that uses them
        return h.path.startswith((FP, "<" + FP)) and h.name not in ("fmt_field", "format", "from")

    def judge(path, what, spec, rename=None, **kw):
        g = fn(path)
        b = build.run(ctx, g, inline=inline, counters=True, stops=True, **kw)
        n = comp.Norm(b, rename=rename)
        done = set()
        for at, r, tr in n.exits():
            if (at, r) in done:
                continue
            done.add((at, r))
            cmp = comp.Cmp(ctx)
            q = comp.Q(cmp, at)
            try:
                ok = spec(q, r, cmp, n, at)
            except comp.Undet as e:
                ctx.violation("%s:undetermined" % path, "%s returns without %s being settled: %s" % (what, e, comp.show(r)), tr)
                continue
            if not ok:
                ctx.violation("%s:result" % path, "%s: %s" % (what, cmp.why), tr)
        return b, n

    def equal(want):
        return lambda q, r, cmp, n, at: r == want(q) or cmp.no("%s where %s is expected" % (comp.show(r), comp.show(want(q))))

    # which fragment formats itself
    judge(FP + "Fragments::fmt_field", "a fragment",
          equal(lambda q: t("fmt_field", f(("v", S, q(S, "the kind of fragment")), "0"), FLD, OPT)))

    # a group
    def group(q, r, cmp, n, at):
        r = modified(r, q, cmp)
        if r is None:
            return False
        fr = f(S, "fragments")
        kind = [(x, v) for x, v in q.at.items() if v in ("Value", "List", "Group")]
        ok = [t("fmt_field", f(("v", x, v), "0"), FLD, OPT) for x, v in kind] + [t("fmt_field", x, FLD, OPT) for x in (fr, f(fr, "0"))]
        return r in ok and comp.mentions(r, fr) or cmp.no("%s where the text of the fragments is expected" % comp.show(r))
    judge(FP + "Group::fmt_field", "a group", group)

    value(ctx, judge)

    # a list of fragments
    def listed(q, r, cmp, n, at):
        kind = q(S, "the kind of list")
        parts = f(("v", S, kind), "0")

        def part(fr, q):
            text = t("fmt_field", fr, FLD, OPT)
            stop, none = q.known(t("stops", fr)), q.known(t("is_empty", text))
            if kind == "Cons":
                if stop:
                    raise comp.Undet("why the parts that follow are left out")
                return [] if none else [X(text)]
            if none is None:
                raise comp.Undet("whether the part is empty")
            if none != bool(stop):
                raise comp.Undet("why the parts that follow %s" % ("are left out" if stop else "an empty one are used"))
            return [] if none else [X(text)]
        return cmp.list(segs(r), [For(parts, part, "the parts")], at)
    judge(FP + "List::fmt_field", "a list of fragments", listed)

    # a field
    def whole(q, r, cmp, n, at):
        text = t("fmt_field", f(S, "fragments"), FLD, OPT)
        if q(t("is_empty", text), "whether the text is empty"):
            want = ("e", "None", ())
        else:
            want = ("e", "Some", (("0", text),))
        return r == want or cmp.no("%s where %s is expected" % (comp.show(r), comp.show(want)))
    judge(FP + "Format::fmt_field", "a formatted field", whole)
    records(ctx, judge)
    ctx.floor("exits_compared", 60)
    ctx.floor("parts_compared", 60)


def in_bounds(b, q):
    """whether the number of values so far is within the bound"""
    bounds = f(S, "bounds")
    end = f(bounds, "end")
    neg = {"Lt": ("Ge", 1, 0), "Ge": ("Lt", 0, 1)}
    swap = {"Gt": "Lt", "Le": "Ge"}
    for x, v in q.at.items():
        if v not in (0, 1):
            continue
        if x[:3] == ("t", "contains", bounds) and len(x) == 4 and x[3][0] == "cur":
            return bool(v), x[3][1]
        if x[0] == "op" and x[1] in ("Lt", "Ge", "Gt", "Le"):
            op, l, r = x[1:]
            if op in swap:
                op, l, r = swap[op], r, l
            if l[0] == "cur" and r == end:
                return bool(v) == (op == "Lt"), l[1]
    return None, None


def value(ctx, judge):
    """prefix, value and suffix of the subfields asked for, up to the bound"""
    counters = set()
    seen = {}

    def round_(sf, q):
        b = seen["b"]
        stop = q.known(t("stops", sf))
        wanted = q.known(t("contains", f(S, "codes"), t("code", sf)))
        room, cnt = in_bounds(b, q)
        if cnt is not None:
            counters.add(cnt)
        if wanted is None and room is not False:
            raise comp.Undet("whether the code is asked for")
        if stop and room is not False:
            raise comp.Undet("why the subfields that follow are left out")
        if wanted is False or room is False:
            return []
        if room is None:
            raise comp.Undet("whether there is room for another value")
        v = t("value", sf)
        if q(f(OPT, "strip_overread_char"), "whether '@' is to be stripped"):
            v = t("replacen", v, k("@"), k(""), k(1))
        out = []
        for n in ("prefix", "suffix"):
            a = f(S, n)
            if n == "suffix":
                out.append(X(v))
            if q(a, "whether there is a %s" % n) == "Some":
                out.append(X(f(("v", a, "Some"), "0")))
        return out

    def ticks(sf, q):
        used = round_(sf, q)
        # the count is of no use after the last round
        return None if q.known(t("stops", sf)) else [("e", k(1))] if used else []

    def spec(q, r, cmp, n, at):
        seen["b"] = n.b
        r = modified(r, q, cmp)
        return r is not None and cmp.list(segs(r), [For(t("subfields", FLD), round_, "the subfields")], at)
    b, n = judge(FP + "Value::fmt_field", "a value", spec)
    # the count of values is that of the subfields used
    tr = []
    for c in sorted(counters, key=repr):
        ctx.count("counters")
        if b.started.get(c) != {()}:
            ctx.violation(FP + "Value::fmt_field:start", "the count of values does not start at none", tr)
        for key, d in b.summary.items():
            if c not in d:
                continue
            s = n.segs(("list", ("for", key, c)), frozenset())
            cmp = comp.Cmp(ctx)
            if not cmp.list(s, [For(t("subfields", FLD), ticks, "the subfields")], {}):
                ctx.violation(FP + "Value::fmt_field:count", "the count of values is not that of the subfields used: %s" % cmp.why, tr)
    ctx.floor("counters", 1)


def records(ctx, judge):
    fmt = p("format")

    def used(fld, q):
        m = f(fmt, "subfield_matcher")
        conds = [(t("is_match", f(fmt, "tag_matcher"), t("tag", fld)), "whether the tag matches"),
                 (t("is_match", f(fmt, "occurrence_matcher"), t("occurrence", fld)), "whether the occurrence matches")]
        sub = q.known(m)
        if sub == "Some":
            conds.append((t("is_match", f(("v", m, "Some"), "0"), t("subfields", fld), OPT), "whether the condition on the subfields holds"))
        elif sub != "None":
            conds.append((f(m, "?"), "whether the condition on the subfields holds"))
        if q.known(t("stops", fld)):
            raise comp.Undet("why the fields that follow are left out")
        if not q.all(*conds):
            return []
        v = t("fmt_field", fmt, fld, OPT)
        return [("e", f(("v", v, "Some"), "0"))] if q(v, "whether there is a text") == "Some" else []
    judge("<pica_record::primitives::record::RecordRef<'_> as %sFormatExt>::format" % FP, "formatting a record",
          lambda q, r, cmp, n, at: cmp.list(segs(r), [For(t("fields", S), used, "the fields of the record")], at), drain=True, cls=Lazy)
    rec = t("format", f(S, "0"), fmt, OPT)

    def every(x, q):
        if q.known(t("stops", x)):
            raise comp.Undet("why the texts that follow are left out")
        return [("e", x)]

    def lossy(x):
        # writing out a text of bytes
        return x[2] if x[0] == "t" and x[1] in ("from_utf8_lossy", "to_str_lossy", "into_string_lossy") and len(x) == 3 else x
    judge("<pica_record::record::StringRecord<'_> as %sFormatExt>::format" % FP, "formatting a text record",
          lambda q, r, cmp, n, at: cmp.list(segs(r), [For(rec, every, "the texts of the record in bytes")], at), drain=True, cls=Lazy, rename=lossy)
