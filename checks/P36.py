import re
import ai, mir, quant

META = {
    "id": "P36",
    "title": "A path expression yields exactly the values it describes, in record order",
    "statement": "Evaluating a path on a record yields, in the order of the record and each once, exactly the values of those "
                 "subfields whose code is in one of the path's code lists, of those fields whose tag and occurrence match the "
                 "path and whose subfields satisfy its predicate, if it has one. The first value of a path is the first of "
                 "these.",
    "over": ["inputs"],
    "for_all": "every record, every path and every comparison option",
    "why": "Hashing, partitioning, frequencies, allow lists and the identifier of a record all rest on it; tests look at a few "
           "paths on one record.",
    "files": ["src/path.rs"],
    "mechanism": [["PathExt::path and first", "src/path.rs"]],
    "technique": "truth-table analysis with nested-loop summaries (abstract interpretation of MIR; lazy iterators made explicit)",
    "rule": "the returned iterator is unfolded into loops and driven to its end: a subfield's value is emitted iff tag, "
            "occurrence, predicate (when present) and membership of its code in some list are all established true for it and "
            "its own field; a subfield or field is left without emission only if one of them is established false; nothing is "
            "cut off, reversed or emitted twice.",
}
ORDER = re.compile(r"Iterator::(rev|skip|take|step_by|skip_while|take_while|map_while|chain|cycle|zip|last|max|min|peekable)$|::sort")


class Mon:
    """mon: (level-0 done?, field atoms | None, subfields of it done?, subfield atoms | None, emitted)"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return (False, None, False, None, False)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    # -- truth of what is known
    def field(self, st, d):
        d = dict(d)
        has = None
        for t, v in st.ass.items():
            if t[0] == "f" and t[2] == "subfield_matcher":
                has = v
        p = True if has == "None" else d.get("sub")
        return quant.and3(d.get("tag"), d.get("occ"), p)

    def subdone(self, a, st):
        top, f, sd, s, em = st.mon
        if s is None:
            return
        self.ctx.count("values_visited")
        code = dict(s).get("code")
        x = quant.and3(self.field(st, f or ()), code)
        if em and x is not True:
            self.bad(a, "emitted", "a value is yielded although it is not established that %s"
                     % ("the code is listed" if code is not True else "its field matches the path"))
        if not em and x is not False:
            self.bad(a, "dropped", "a value is left out although tag, occurrence, predicate and code may all match")
        st.mon = (top, f, sd, None, False)

    def fielddone(self, a, st):
        self.subdone(a, st)
        top, f, sd, s, em = st.mon
        if f is None:
            return
        if not sd and self.field(st, f) is not False:
            self.bad(a, "field", "a field is left out although tag, occurrence and predicate may all match")
        st.mon = (top, None, False, None, False)
        for t in [t for t in st.ass if t[0] == "f" and t[2] == "subfield_matcher"]:
            del st.ass[t]

    def what(self, a, st, v):
        ls = ai.labels(v, st)
        if "subs" in ls and "sub" not in ls:
            return "subs"
        if "fields" in ls and "field" not in ls:
            return "fields"
        if "codes" in ls:
            return "codes"
        return None

    def begin(self, a, st, what):
        top, f, sd, s, em = st.mon
        if what == "fields":
            self.fielddone(a, st)
            st.mon = (False, frozenset(), False, None, False)
            return frozenset(["field"])
        if what == "subs":
            self.subdone(a, st)
            top, f, sd, s, em = st.mon
            st.mon = (top, f, False, frozenset(), False)
            return frozenset(["sub"])
        return frozenset(["list"])

    def over(self, a, st, what, cut):
        if what == "fields":
            self.fielddone(a, st)
            st.mon = (not cut,) + st.mon[1:]
        elif what == "subs":
            self.subdone(a, st)
            top, f, sd, s, em = st.mon
            st.mon = (top, f, not cut, None, False)
        elif what == "codes" and not cut:
            top, f, sd, s, em = st.mon
            if s is not None and "code" not in dict(s):
                st.mon = (top, f, sd, s | {("code", False)}, em)

    def new_item(self, a, st, v):
        src = a.val(st, a.operand(st, v["from"][0]))
        w = self.what(a, st, src)
        tag = ("cb", v["call"].get("bid"), v["ai"])
        ls = ai.labels(src, st)
        if w:
            ls = ls | self.begin(a, st, w)
        a.kill(st, tag)
        return ("o", tag, ls)

    def exhausted(self, a, st, t):
        src = a.val(st, a.operand(st, t["src"]))
        self.over(a, st, self.what(a, st, src), "cut" in ai.labels(src, st))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) for x in v]
        if c.path == quant.NEXTI:
            w = self.what(a, st, v[0])
            if w:
                s0, s1 = st.copy(), st.copy()
                self.over(a, s0, w, "cut" in ls[0])
                tag = ("call", c.site, c.path)
                ls1 = ls[0] | self.begin(a, s1, w)
                a.kill(s1, tag)
                return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", ("o", tag, ls1)),)))]
        if c.path == mir.SINK:
            top, f, sd, s, em = st.mon
            if s is None or "sub" not in ls[0]:
                self.bad(a, "what", "something is yielded that is not the value of a subfield")
            elif v[0][1][0] != "value" and v[0][1] != ("value",):
                self.bad(a, "what", "something other than the value of the subfield is yielded")
            if em:
                self.bad(a, "twice", "a value is yielded twice")
            s2 = st.copy()
            s2.mon = (top, f, sd, s, True)
            return [(s2, ("s", (), "tuple"))]
        if ORDER.search(c.path) and any("fields" in l for l in ls):
            self.bad(a, "order", "%s does not keep all values in the order of the record" % n)
        top, f, sd, s, em = st.mon
        if n in ("fields", "iter") and "rec" in ls[0] and "fields" not in ls[0]:
            return [(st, ("o", ("call", c.site, c.path), ls[0] | {"fields"}))]
        if n == "subfields" and "field" in ls[0] and "sub" not in ls[0]:
            return [(st, ("o", ("subs", v[0][1]), ls[0] | {"subs"}))]
        if n == "value" and "sub" in ls[0]:
            return [(st, ("o", ("value",), ls[0]))]
        if n == "code" and "sub" in ls[0]:
            return [(st, ("o", ("code",), ls[0]))]
        if n in ("tag", "occurrence") and "field" in ls[0]:
            return [(st, ("o", (n,), ls[0]))]
        if n in ("as_bstr", "as_bytes", "as_ref", "as_slice") and v[0][1] == ("value",):
            return [(st, v[0])]
        if n == "is_match" and len(v) > 1:
            w = "tag" if "TagMatcher" in c.path else "occ" if "OccurrenceMatcher" in c.path else \
                "sub" if "SubfieldMatcher" in c.path else None
            if w is None:
                return None
            need = {"tag": ("tag",), "occ": ("occurrence",)}.get(w)
            good = v[1][1] == need if need else v[1][1][0] == "subs"
            if not good or "field" not in ls[1] or "path" not in ls[0]:
                self.bad(a, "subject", "the %s matcher of the path is not applied to the field at hand" % w)
            self.ctx.count("atoms_visited")
            d = dict(f or ())
            if w in d:
                return [(st, ("k", int(d[w])))]
            out = []
            for b in (True, False):
                x = st.copy()
                x.mon = (top, (f or frozenset()) | {(w, b)}, sd, s, em)
                out.append((x, ("k", int(b))))
            return out
        if n in ("contains", "eq", "ne") and any(x[1] == ("code",) for x in v if x[0] == "o") and any("codes" in l for l in ls):
            self.ctx.count("atoms_visited")
            if s is None:
                return None
            inner = not any("list" in l for l in ls)
            out = []
            for b in (True, False):
                x = st.copy()
                if b or inner:
                    x.mon = (top, f, sd, frozenset(y for y in s if y[0] != "code") | {("code", b)}, em)
                out.append((x, ("k", int(b != (n == "ne")))))
            return out
        return None

    def exit(self, a, st, v, node):
        self.ctx.count("exits_compared")
        if not st.mon[0]:
            self.bad(a, "stops", "the fields of the record are not visited to their end", node)


class Deleg:
    """implementations on top of another one: its values, one for one"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return (0, False)       # (emitted for the current value, at the end)

    bad = Mon.bad

    def new_item(self, a, st, v):
        src = a.val(st, a.operand(st, v["from"][0]))
        if "vals" in ai.labels(src, st):
            self.close(a, st)
            st.mon = (1, False)
            tag = ("cb", v["call"].get("bid"), v["ai"])
            a.kill(st, tag)
            return ("o", tag, frozenset(["v"]))
        return None

    def close(self, a, st):
        if st.mon[0] == 1:
            self.bad(a, "dropped", "a value is left out")

    def exhausted(self, a, st, t):
        src = a.val(st, a.operand(st, t["src"]))
        self.close(a, st)
        st.mon = (0, "vals" in ai.labels(src, st) and "cut" not in ai.labels(src, st))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        if c.path == mir.SINK:
            if st.mon[0] != 1 or "v" not in v[0][2] if v[0][0] == "o" else True:
                self.bad(a, "what", "something is yielded that is not a value of the path")
            st.mon = (2, False)
            return [(st, ("s", (), "tuple"))]
        if ORDER.search(c.path) and any("vals" in ai.labels(x, st) for x in v):
            self.bad(a, "order", "%s does not keep all values in the order of the record" % n)
        if n == "path" and len(v) == 3:
            if "rec" not in ai.labels(v[0], st) or v[1][1] != ("p", "path"):
                self.bad(a, "subject", "the path is evaluated on another record, or another path is")
            self.ctx.count("delegations_visited")
            return [(st, ("o", ("call", c.site, c.path), frozenset(["vals"])))]
        return None

    def exit(self, a, st, v, node):
        self.ctx.count("exits_compared")
        if not st.mon[1]:
            self.bad(a, "stops", "not all values of the path are yielded", node)


class First:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return None

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        if n == "path" and len(v) == 3:
            good = v[0][1] == ("rec",) and v[1][1] == ("p", "path")
            return [(st, ("o", ("values", good), frozenset()))]
        if c.path == quant.NEXTI and v[0][0] == "o" and v[0][1][0] == "values":
            return [(st, ("o", ("first", v[0][1][1], st.mon is None), frozenset()))] if st.copy() else None
        if v and v[0][0] == "o" and v[0][1][0] == "values" and ai.MODELS.get(c.path) is None:
            st.mon = "changed"
        return None

    def exit(self, a, st, v, node):
        self.ctx.count("exits_compared")
        v = a.val(st, v)
        if v[1] != ("first", True, True):
            self.ctx.violation(self.f.path + ":first", "%s does not return the first value of the path" % self.f.path, a.trace(node))


def run(ctx):
    prog = ctx.prog
    impls = [f for f in sorted(prog.fns.values(), key=lambda f: f.key) if f.crate == "pica_record" and f.name == "path"
             and f.body and f.j.get("impl_trait", "").endswith("path::PathExt")]
    n = 0
    for f in impls:
        names = [l[1] for l in f.body["locals"][1:f.body["argc"] + 1]]
        if f.body["argc"] != 3:
            raise mir.MissingAnchor("PathExt::path(self, path, options)")
        init = {1: ("o", ("rec",), frozenset(["rec"])), 2: ("o", ("p", "path"), frozenset(["path"])),
                3: ("o", ("p", "options"), frozenset()),
                "heap": {("f", ("p", "path"), "codes"): ("o", ("codes",), frozenset(["codes"]))}}
        own = "StringRecord" not in f.j["impl_self"]
        g = ctx.flat(f, inline=lambda h: h.path.startswith("pica_record::path") and h.name != "path", drain=True)
        m = (Mon if own else Deleg)(ctx, f)
        a = ai.AI(prog, g, m, init=init)
        a.run()
        ctx.unit(f.path)
        ctx.count("implementations")
        ctx.count("states", a.nstates)
        n += own
    if n != 1:
        raise mir.MissingAnchor("PathExt for records")
    f = next((f for f in prog.fns.values() if f.crate == "pica_record" and f.name == "first" and f.body
              and f.path.startswith("pica_record::path::PathExt")), None)
    if f is None:
        raise mir.MissingAnchor("PathExt::first")
    g = ctx.flat(f, inline=lambda h: False)
    a = ai.AI(prog, g, First(ctx, f), init={1: ("o", ("rec",), ai.EMPTY), 2: ("o", ("p", "path"), ai.EMPTY)})
    a.run()
    ctx.unit(f.path)
    ctx.floor("implementations", 2)
    ctx.floor("values_visited", 1)
    ctx.floor("atoms_visited", 4)
    ctx.floor("exits_compared", 3)
