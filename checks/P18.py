"""Constructors, conversions, accessors and comparisons of the primitives."""
import re
import ai, build, comp, mir

P = "pica_record::primitives::"
META = {
    "id": "P18",
    "title": "Building, converting and comparing records keeps every part",
    "statement": "Building a subfield, field or record from its parts fails exactly if a tag, occurrence, code or value among them "
                 "is rejected, and otherwise it and its conversion from borrowed to owned form hold every given part unchanged, "
                 "in the given order. Its accessors return these parts (the level of a tag being given by its first digit: 0 main, "
                 "1 local, 2 copy). Two of them, borrowed or owned, are equal exactly if all of their parts are.",
    "over": ["inputs"],
    "for_all": "every tag, occurrence, subfield code and value, and any number of subfields and fields",
    "why": "Deduplication, tests of equality and everything built through the library rely on it; tests compare a few records "
           "that differ in one part.",
    "files": ["src/primitives/tag.rs", "src/primitives/occurrence.rs", "src/primitives/subfield.rs", "src/primitives/field.rs",
              "src/primitives/record.rs"],
    "mechanism": [["constructors", "src/primitives/field.rs: FieldRef::new; src/primitives/record.rs: RecordRef::new"],
                  ["conversions", "src/primitives/field.rs: From<FieldRef> for Field"],
                  ["comparisons", "src/primitives/field.rs: PartialEq<Field> for FieldRef"]],
    "technique": "abstract interpretation of the MIR to symbolic results (comprehension extraction)",
    "rule": "For every exit of a constructor, conversion, accessor or comparison of the primitives, the symbolic result is compared "
            "with what the property demands under the conditions of that exit: a conversion's or successful constructor's value "
            "has, in each part, the corresponding part of the source, lists taken over element by element without condition and in "
            "order; a constructor fails only if one of its parts is rejected and succeeds only if none is; an accessor's "
            "result is its part; a comparison is true only if each part is known to be equal and false only if one is known to differ.",
    "assumptions": ["conversions between byte and text containers of the standard library and bstr keep the bytes; their "
                    "comparisons compare them", "which tags and occurrences are rejected is decided by the parser (P38)"],
}
TYPES = {"tag": ["TagRef", "Tag"], "occurrence": ["OccurrenceRef", "Occurrence"], "subfield": ["SubfieldCode", "SubfieldValueRef",
         "SubfieldValue", "SubfieldRef", "Subfield"], "field": ["FieldRef", "Field"], "record": ["RecordRef", "Record"]}
HOME = {t: P + m + "::" + t for m, ts in TYPES.items() for t in ts}
MADE = {"new", "from_bytes", "parse"}
# accessor -> what it returns, of self
S = ("p", "self")


def f(t, n):
    return ("f", t, n)


ACC = {
    "FieldRef::tag": f(S, "tag"), "FieldRef::occurrence": f(S, "occurrence"), "FieldRef::subfields": f(S, "subfields"),
    "SubfieldRef::code": f(S, "0"), "SubfieldRef::value": f(S, "1"), "Subfield::code": f(S, "0"), "Subfield::value": f(S, "1"),
    "RecordRef::fields": f(S, "0"), "Tag::as_bytes": f(S, "0"), "OccurrenceRef::as_bytes": f(S, "0"),
    "Occurrence::as_bytes": f(S, "0"), "SubfieldCode::as_byte": f(S, "0"), "SubfieldValueRef::as_bytes": f(S, "0"),
    "SubfieldValue::as_bytes": f(S, "0"),
}


class B(build.Build):
    def special(self, a, st, c, n, v):
        if n in ("eq", "ne") and len(v) == 2 and ("PartialEq" in c.path or "PartialEq" in c.rpath):
            t = ("op", "Eq", self.term(a, st, v[0]), self.term(a, st, v[1]))
            return [(st, self.mk(t if n == "eq" else ("op", "Ne") + t[2:]))]
        if n == "transpose" and len(v) == 1 and v[0][:2] == ("e", "None"):
            return [(st, ("e", "Ok", (("0", v[0]),)))]
        return None


def run(ctx):
    prog = ctx.prog
    every = [g for g in prog.fns.values() if g.is_fn and g.body and P in g.path]
    eqs, froms, news, accs = [], [], [], {}
    ty = r"&*(?:'\w+ )?" + re.escape(P) + r"\w+::(\w+)(?:<.*?>)?"
    for g in every:
        m = re.match(r"^<" + ty + r" as core::cmp::PartialEq(?:<(.*)>)?>::eq$", g.path)
        if m and m.group(1) in HOME:
            n = re.match("^" + ty + "$", m.group(2)) if m.group(2) else m
            eqs.append((g, m.group(1), n.group(1) if n and n.group(1) in HOME else None))
            continue
        m = re.match(r"^<" + ty + r" as core::convert::From<" + ty + r">>::from$", g.path)
        if m and m.group(1) in HOME and m.group(2) in HOME:
            froms.append((g, m.group(1), m.group(2)))
            continue
        m = re.match(r"^" + re.escape(P) + r"\w+::(\w+)(?:::<.*?>)?::(\w+)$", g.path)
        if m and m.group(1) in HOME:
            if m.group(2) == "new":
                news.append((g, m.group(1)))
            accs[m.group(1) + "::" + m.group(2)] = g
    own = {g.path for g, *x in eqs + froms + news} | {g.path for k, g in accs.items() if k.rsplit("::", 1)[-1] in ("from_bytes", "level")}

    def helper(h):
        return h.path not in own and (h.path.startswith(P) or h.path.startswith("<" + P)) and "::parse::" not in h.path \
            and h.path.rsplit("::", 1)[-1] not in ("fmt", "deref", "clone", "hash", "into_iter", "from", "into", "eq", "ne", "write_to")

    def extract(g, **kw):
        return build.run(ctx, g, inline=helper, cls=B, **kw)

    def parts(t):
        a = prog.adt(HOME[t])
        return [(n, y) for n, y, *v in a["variants"][0]["fields"]]

    def say(g, key, msg, tr):
        ctx.violation("%s:%s" % (g.path, key), "%s: %s" % (g.path, msg), tr)

    # -- conversions

    def whole(n, t, src, at):
        """t is the part src, unchanged"""
        if t == src:
            return True
        if isinstance(t, tuple) and t[:1] == ("e",):
            if src in at:
                return at[src] == t[1] and all(whole(n, x, ("f", ("v", src, t[1]), k), at) for k, x in t[2])
            return False
        if isinstance(t, tuple) and t[:1] == ("s",):
            # taken apart and put together
            return bool(t[2]) and all(whole(n, x, ("f", src, k), at) for k, x in t[2])
        try:
            return n.segs(t, frozenset(at.items())) == (("x", src),)
        except (IndexError, KeyError, TypeError):
            return False

    def fits(n, t, want, src, at):
        """t is a `want` with the parts of src"""
        if t == src:
            return []
        if not (isinstance(t, tuple) and t[:1] == ("s",) and t[1].split("<")[0] == HOME[want]):
            return ["returns %s" % comp.show(t)]
        bad = []
        for k, x in t[2]:
            if not whole(n, x, ("f", src, k), at):
                bad.append("part %s is %s instead of that of what is converted" % (k, comp.show(x)))
        return bad

    for g, to, frm in froms:
        b = extract(g)
        n = comp.Norm(b)
        for at, r, tr in b.results:
            ctx.count("conversion_exits")
            a = known(at)
            srcs = {x for x in params(r, at)}
            src = ("p", next(iter(srcs))) if len(srcs) == 1 else None
            if src is None:
                say(g, "source", "returns %s" % comp.show(r), tr)
                continue
            for m in fits(n, r, to, src, a):
                say(g, "parts", m, tr)
        ctx.count("conversions")

    # -- constructors

    def made(t):
        """the raw parts if t is what a constructor makes of them"""
        if isinstance(t, tuple) and t[:1] == ("t",) and t[1] in MADE:
            return tuple(x for x in t[2:] if x[:1] != ("k",))
        return None

    def refused(at):
        """parts that are known to be rejected"""
        out = []
        for t, v in at:
            if v == "Err" and t[:2] == ("t", "transpose") and t[2][:2] == ("e", "Some"):
                t = t[2][2][0][1]
            if v == "Err" and made(t) is not None:
                out.append(t)
            elif t[:2] == ("t", "exists") and (v == 1) == (t[4] == "Err") and made(t[3]) is not None and t[4] in ("Err", "Ok"):
                out.append(t)
        return out

    def unwrapped(t, at):
        """t is the result of a successful construction"""
        if isinstance(t, tuple) and t[:1] == ("f",) and t[2] == "0" and t[1][:1] == ("v",) and t[1][2] == "Ok":
            return made(t[1][1])
        return None

    def new_list(b, t, raw, at):
        """every raw part makes an element, in order, and the first that is rejected ends it"""
        if isinstance(t, tuple) and t[:1] == ("list",) and len(t) == 2 and t[1][0] == "for" and t[1][1][1] == raw:
            key, p = t[1][1], t[1][2]
            it = ("item", key)
            rows = b.summary.get(key, {}).get(p, ())
            if not rows:
                return "takes over nothing"
            for ra, c in rows:
                d = known(ra)
                stop = d.get(("t", "stops", it), 0)
                mk = [(x, v) for x, v in d.items() if made(x) is not None and v in ("Ok", "Err") and all(
                    y == it or y[:2] == ("f", it) for y in made(x))]
                ok = [x for x, v in mk if v == "Ok"]
                if stop:
                    if not any(v == "Err" for x, v in mk) or c:
                        return "stops although the part is not rejected"
                    continue
                if len(c) != 1 or c[0][0] != "e" or len(mk) != 1 or not ok:
                    return "a part adds [%s]" % ", ".join(comp.seg(x) if x[0] in "ex" else x[0] for x in c)
                e = c[0][1]
                if e != ("f", ("v", ok[0], "Ok"), "0"):
                    return "a part adds %s" % comp.show(e)
                raws = made(ok[0])
                if raws != (it,) and raws != tuple(("f", it, str(i)) for i in range(len(raws))):
                    return "a part is made of (%s)" % ", ".join(comp.show(x) for x in raws)
            return None
        return "%s where an element for each of %s is expected" % (comp.show(t), comp.show(raw))

    def rawpart(b, t, raw, y, at):
        """t is made of the raw part"""
        if y.startswith("alloc::vec::Vec") or t[:1] == ("list",):
            return new_list(b, t, raw, at)
        if "option::Option" in y.split("<")[0]:
            if t[:1] == ("f",) and t[2] == "0" and t[1][:1] == ("v",) and t[1][2] == "Ok" and t[1][1][:2] == ("t", "transpose"):
                # an optional outcome turned inside out
                x = t[1][1][2]
                t = ("e", "Some", (("0", ("f", ("v", x[2][0][1], "Ok"), "0")),)) if x[:2] == ("e", "Some") else x
            if t[:1] == ("e",) and raw in at:
                if at[raw] != t[1]:
                    return "is %s if the given part is %s" % (t[1], at[raw])
                return None if t[1] == "None" else rawpart(b, t[2][0][1], ("f", ("v", raw, "Some"), "0"), "", at)
            return "is %s" % comp.show(t)
        u = unwrapped(t, at)
        if u == (raw,) or t == raw:
            return None
        return "is %s instead of the given one" % comp.show(t)
    def true_for(name):
        """the characters for which a closure is true"""
        g = [h for h in prog.fns.values() if h.body and "closure:" + h.key == name]
        if len(g) != 1:
            return None
        out, b = set(), build.run(ctx, g[0], cls=B)
        x = ("p", b.g.locals[b.g.args[-1]][1] or str(b.g.args[-1]))
        for at, r, tr in b.results:
            for a, v in outcomes(known(at), r):
                ks = None
                if isinstance(a.get(x), int):
                    ks = {a[x]}
                for t, w in a.items():
                    if t[:2] == ("op", "Eq") and x in t[2:] and w == 1:
                        ks = consts([z for z in t[2:] if z != x][0])
                if v is None or v and ks is None:
                    return None
                out |= ks if v else set()
        return out

    for g, ty_ in news:
        b = extract(g, stops=True)
        ctx.count("constructors")
        names = order(b.g)
        ps = parts(ty_)
        for at, r, tr in b.results:
            ctx.count("constructor_exits")
            a = known(at)
            bad = refused(at)
            leaf = ty_ in ("SubfieldCode", "SubfieldValueRef")
            if made(r) is not None:
                if made(r) != tuple(("p", x) for x in names):
                    say(g, "parts", "is made of %s" % ", ".join(comp.show(x) for x in made(r)), tr)
                continue
            if r[:2] not in (("e", "Ok"), ("e", "Err")):
                say(g, "result", "returns %s" % comp.show(r), tr)
                continue
            if r[1] == "Err":
                if leaf:
                    if judge(ty_, at, ("p", names[0]), true_for) is not False:
                        say(g, "refuses", "refuses what is not known to be invalid", tr)
                elif not bad:
                    say(g, "refuses", "fails although no part is rejected", tr)
                continue
            if bad:
                say(g, "accepts", "succeeds although a part is rejected", tr)
                continue
            if leaf and judge(ty_, at, ("p", names[0]), true_for) is not True:
                say(g, "accepts", "accepts what is not known to be valid", tr)
            v = r[2][0][1]
            u = unwrapped(v, a)
            if u is not None:
                if u != tuple(("p", x) for x in names):
                    say(g, "parts", "is made of %s" % ", ".join(comp.show(x) for x in u), tr)
                continue
            # put together from another, made of the same parts
            if v[:1] != ("s",) or v[1].split("<")[0] != HOME[ty_]:
                say(g, "result", "returns %s" % comp.show(v), tr)
                continue
            d = dict(v[2])
            src = [x[1][1] for x in d.values() if isinstance(x, tuple) and x[:1] == ("f",) and unwrapped(x[1], a) == tuple(("p", z) for z in names)]
            for (k, y), raw in zip(ps, names):
                if k not in d:
                    say(g, "parts", "part %s is missing" % k, tr)
                    continue
                if src and d[k][:1] == ("f",) and d[k][2] == k and unwrapped(d[k][1], a) == tuple(("p", z) for z in names):
                    continue
                m = rawpart(b, d[k], ("p", raw), y, a)
                if m:
                    say(g, "parts", "part %s %s" % (k, m), tr)

    # -- accessors
    for name, want in ACC.items():
        if name not in accs:
            raise mir.MissingAnchor("accessor " + name)
        g = accs[name]
        b = extract(g)
        n = comp.Norm(b)
        ctx.count("accessors")
        for at, r, tr in b.results:
            if not whole(n, r, want, known(at)):
                say(g, "returns", "returns %s instead of %s" % (comp.show(r), comp.show(want)), tr)
    for name in ("TagRef::level", "FieldRef::level", "FieldRef::contains", "RecordRef::is_empty"):
        if name not in accs:
            raise mir.MissingAnchor("accessor " + name)
        g = accs[name]
        b = extract(g)
        ctx.count("accessors")
        for at, r, tr in b.results:
            m = DERIVED[name](known(at), r)
            if m:
                say(g, "returns", m, tr)

    # -- comparisons
    def truth(at, x, y, k, yt):
        """whether part k is known to be equal"""
        A, C = (f(x, k) if k is not None else x), (f(y, k) if y is not None and y[0] != "=" else y[1])
        return equal(at, A, C, yt)

    def equal(at, A, C, yt):
        for t, v in at.items():
            if t[:1] == ("op",) and t[1] in ("Eq", "Ne") and set(t[2:]) == {A, C} and v in (0, 1):
                return bool(v) == (t[1] == "Eq")
            if t[:2] in (("t", "eq"), ("t", "equals")) and set(t[2:]) == {A, C} and v in (0, 1):
                return bool(v)
        if A in at and C in at and at[A] in ("Some", "None") and at[C] in ("Some", "None"):
            if at[A] != at[C]:
                return False
            if at[A] == "None":
                return True
            return equal(at, ("f", ("v", A, "Some"), "0"), ("f", ("v", C, "Some"), "0"), yt)
        # side by side
        ln = None
        for t, v in at.items():
            if t[:1] == ("op",) and t[1] in ("Eq", "Ne") and set(t[2:]) == {("t", "len", A), ("t", "len", C)} and v in (0, 1):
                ln = bool(v) == (t[1] == "Eq")
        if ln is False:
            return False
        for t, v in at.items():
            if t[:2] == ("t", "exists") and t[2][:1] == ("zip",) and set(t[2][1:]) == {A, C} and t[3][:1] == ("op",) and t[3][1] in ("Eq", "Ne") \
                    and all(z[:1] == ("f",) and z[1] == ("it",) or z[:1] == ("it",) or z[:1] == ("item",) for z in t[3][2:]):
                differ = (t[4] == 0) == (t[3][1] == "Eq")
                if differ and v == 1:
                    return False
                if differ and v == 0 and ln:
                    return True
        return None
    direct = set()
    for g, x, y in eqs:
        b = extract(g)
        names = order(b.g)
        A, C = ("p", names[0]), ("p", names[1])
        ctx.count("comparisons")
        ps = [k for k, t in parts(x)]
        for at, r, tr in b.results:
            ctx.count("comparison_exits")
            for a, v in outcomes(known(at), r):
                if v is None:
                    say(g, "result", "returns %s" % comp.show(r), tr)
                    break
                rev = equal(a, A, C, "")
                if y and rev is not None:
                    # left to the comparison the other way round
                    if rev != v:
                        say(g, "differs", "returns the opposite of the comparison it relies on", tr)
                    continue
                direct.add((x, y))
                know = {k: equal(a, f(A, k), f(C, k) if y else C, "") for k in ps}
                if v and not all(z is True for z in know.values()):
                    say(g, "equal:%s" % ",".join(k for k in ps if know[k] is not True),
                        "true without part %s being equal" % ", ".join(k for k in ps if know[k] is not True), tr)
                if not v and not any(z is False for z in know.values()):
                    say(g, "different", "false although no part is known to differ", tr)
    for g, x, y in eqs:
        if y and (x, y) not in direct and (y, x) not in direct:
            ctx.violation("%s:circular" % g.path, "%s relies on a comparison that relies on it" % g.path)
    ctx.floor("comparisons", 12)
    ctx.floor("conversions", 6)
    ctx.floor("constructors", 9)


def known(at):
    """what something is says more than what it is not"""
    return dict(sorted(at, key=lambda x: not isinstance(x[1], tuple)))


def params(r, at):
    out = set()

    def go(t):
        if isinstance(t, (tuple, frozenset)):
            if isinstance(t, tuple) and t[:1] == ("p",) and len(t) == 2:
                out.add(t[1])
                return
            for x in t:
                go(x)
    go(r)
    if not out:
        go(at)
    return out


def order(g):
    """names of the parameters"""
    return [g.locals[l][1] or str(l) for l in g.args]


def outcomes(at, r):
    """(conditions, truth) of a result"""
    if r == ("k", 0) or r == ("k", 1):
        return [(at, bool(r[1]))]
    if r[:2] == ("op", "Not"):
        return [(a, None if v is None else not v) for a, v in outcomes(at, r[2])]
    if r[:1] == ("op",) and r[1] in ("Eq", "Ne") or r[:1] == ("t",) and r[1] in ("eq", "equals", "exists"):
        return [({**at, r: v}, bool(v)) for v in (0, 1)] if r not in at else [(at, bool(at[r]))]
    return [(at, None)]


CTRL = {30, 31}


def judge(ty, at, x, true_for):
    """whether the text is known to be valid"""
    if ty == "SubfieldCode":
        for t, v in at:
            if t == ("t", "is_ascii_alphanumeric", x) and v in (0, 1):
                return bool(v)
        return None
    free = set()
    for t, v in at:
        ks = None
        if t[:2] == ("t", "contains") and len(t) == 4 and t[2] == x:
            ks = true_for(t[3][1]) if t[3][:1] == ("s",) and str(t[3][1]).startswith("closure:") else consts(t[3])
        elif t[:2] == ("t", "exists") and t[2] in (x, ("t", "chars", x), ("t", "bytes", x)):
            if t[3] == ("it",):
                ks = {t[4]} if isinstance(t[4], int) else None
            elif t[3][:2] == ("op", "Eq") and t[4] == 1 and ("it",) in t[3][2:]:
                ks = consts([z for z in t[3][2:] if z != ("it",)][0])
        if ks and ks <= CTRL and v in (0, 1):
            if v:
                return False
            free |= ks
    return True if free == CTRL else None


def consts(t):
    if t[:1] == ("k",):
        return {t[1]} if isinstance(t[1], int) else {ord(c) for c in t[1]} if isinstance(t[1], str) and not t[1].startswith("fn:") else None
    if t[:1] == ("L",):
        r = [consts(s[1]) for s in t[1] if s[0] == "e"]
        return set().union(*r) if len(r) == len(t[1]) and all(r) else None
    if t[:2] == ("s", "array"):
        r = [consts(z) for _, z in t[2]]
        return set().union(*r) if all(r) else None
    return None


LEVELS = {48: "Main", 49: "Local", 50: "Copy"}


def tag_level(at, r):
    if r[:1] != ("e",):
        return "returns %s" % comp.show(r)
    ok = [v for t, v in at.items() if t[:1] == ("t",) and t[1] in ("index", "get", "first") and any(
        x in (("p", "self"), f(("p", "self"), "0")) for x in t[2:3]) and all(x == ("k", 0) for x in t[3:])]
    for v in ok:
        left = {v} if isinstance(v, int) else set(LEVELS) - set(v[1:])
        if {LEVELS.get(x) for x in left} == {r[1]}:
            return None
    return "returns %s where the first digit is %s" % (r[1], ", ".join(repr(chr(v)) if isinstance(v, int) else str(v) for v in ok) or "not known")


def field_level(at, r):
    s = ("p", "self")
    return None if r in (("t", "level", f(s, "tag")), ("t", "level", ("t", "tag", s))) else "returns %s instead of its tag's level" % comp.show(r)


def contains(at, r):
    s = ("p", "self")
    for a, v in outcomes(at, r):
        if v is None:
            return "returns %s" % comp.show(r)
        ok = False
        for t, w in a.items():
            if t[:2] == ("t", "exists") and t[2] in (f(s, "subfields"), ("t", "subfields", s)) and t[3][:2] in (("op", "Eq"), ("op", "Ne")) \
                    and ("p", "code") in t[3][2:] and any(z in (("t", "code", ("it",)), f(("it",), "0"), f(("t", "code", ("it",)), "0"),
                                                              f(f(("it",), "0"), "0")) for z in t[3][2:]) \
                    and (t[4] == 1) == (t[3][1] == "Eq"):
                ok = bool(w) == v
        if not ok:
            return "is %s without a subfield with the code being known to be %s" % (v, "there" if v else "missing")
    return None


def empty(at, r):
    e = ("t", "is_empty", f(("p", "self"), "0"))
    return None if r == e or (r == ("k", 1) and at.get(e) == 1) or (r == ("k", 0) and at.get(e) == 0) or \
        r == ("op", "Eq", ("t", "len", f(("p", "self"), "0")), ("k", 0)) else "returns %s" % comp.show(r)


DERIVED = {"TagRef::level": tag_level, "FieldRef::level": field_level, "FieldRef::contains": contains, "RecordRef::is_empty": empty}
