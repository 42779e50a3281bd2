import re
import ai, mir, quant

META = {
    "id": "P46",
    "title": "A rule of check fails exactly if a value offends, and lists those that do",
    "statement": "A rule that tests values (allow, iso639-2b, jelc, datetime, isni, unicode) tests every value its path selects under "
                 "the rule's options (unicode: of every subfield), fails exactly if one does not pass, and reports exactly these, in "
                 "their order, joined by ', '; unicode also fails on invalid records, without a message. A filter rule fails "
                 "exactly if its expression matches (inverted: does not). A link rule reports, for each record, exactly the "
                 "source values that are no target value of any record the target's filter admits.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, every number of selected values, every outcome of each test, and every setting of a rule",
    "why": "Rules combine several tests per value and any number of values; tests check few records with one or two values.",
    "files": ["crates/pica-cli/src/commands/check/checks/allow.rs", "crates/pica-cli/src/commands/check/checks/datetime.rs",
              "crates/pica-cli/src/commands/check/checks/filter.rs", "crates/pica-cli/src/commands/check/checks/isni.rs",
              "crates/pica-cli/src/commands/check/checks/iso639.rs", "crates/pica-cli/src/commands/check/checks/jelc.rs",
              "crates/pica-cli/src/commands/check/checks/link.rs", "crates/pica-cli/src/commands/check/checks/unicode.rs"],
    "mechanism": [["check of Allow, DateTime, Filter, Isni, Iso639, Jel and Unicode", "crates/pica-cli/src/commands/check/checks"],
                  ["Link::preprocess, check, finish", "crates/pica-cli/src/commands/check/checks/link.rs"]],
    "technique": "abstract interpretation of MIR: typestate of the loop over the values, with each test a two-valued atom",
    "rule": "on every path through the loop over the values the tests must have settled whether the value passes, and the value must "
            "have been added to the list of offenders exactly if it does not; the loop must reach its end; what is returned must agree "
            "with whether there were offenders. The tests' operands (allow list, code list, format, offset, prefix, normal form) are "
            "compared with the ones specified.",
    "assumptions": "what the code lists contain, how the digits of an ISNI are weighted, and what strptime, is_nfc and the like compute is not "
                   "decided here; an ISNI passes if it has 16 digits and its last one equals the computed one.",
}
SELF = ("p", "self")
V = ("value",)
KEY = ("key",)
LAST = ("digit", V, 15)
OPTF = ("strsim_threshold", "case_ignore")
PASS = {"to_string", "to_owned", "to_vec", "into", "from", "clone", "cloned", "copied", "as_bstr", "as_ref", "deref", "borrow", "as_bytes", "as_slice",
        "to_bstring", "as_str", "to_str_lossy", "into_owned", "as_bstring", "from_utf8_lossy", "to_str_unchecked", "from_utf8_unchecked"}
ITER = {"iter", "into_iter", "by_ref", "deref", "as_ref", "as_slice", "borrow", "cloned", "copied", "iter_mut"}
NEW = {"new", "with_capacity", "default", "coll_new"}
NF = {"is_nfc": "Nfc", "is_nfkc": "Nfkc", "is_nfd": "Nfd", "is_nfkd": "Nfkd"}
NAMES = ("outer", "loop", "cur", "push", "any", "L", "bad", "inv", "match", "n", "some", "all", "any2", "out2", "wrote")


def fs(*x):
    return frozenset(x)


def f(x, *names):
    for n in names:
        x = ("f", x, n)
    return x


def opt(x):
    return ("f", ("v", x, "Some"), "0")


class Mon:
    """outer, loop: the loops over fields (or records) and values (0 not begun, 1 under way, 2 at its end); cur: a value is at hand; push: how
    often it was added; any: some value offended; L: the list of offenders; bad: lists that got something else"""

    def __init__(self, ctx, fn, kind):
        self.ctx, self.f, self.kind = ctx, fn, kind
        self.path = {"preprocess": f(SELF, "target", "path"), "source": f(SELF, "source", "path")}.get(kind, f(SELF, "path"))
        self.nested = kind in ("Unicode", "finish")

    def init(self):
        return self.pack(dict(outer=0, loop=0, cur=0, push=0, any=0, L=None, bad=fs(), inv=None, match=None, n=0, some=0, all=0, any2=0, out2=0, wrote=0))

    def pack(self, m):
        return tuple(m[n] for n in NAMES)

    def get(self, st):
        return dict(zip(NAMES, st.mon))

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    # ---- does the value at hand offend?
    def cmp(self, st, x, y, want):
        """truth of x want y, as far as it is known"""
        for t, b in st.ass.items():
            if t[0] == "op" and len(t) == 4 and b in (0, 1):
                for (p, q), flip in (((t[2], t[3]), False), ((t[3], t[2]), True)):
                    if (p, q) == (x, y):
                        o = {"Ge": "Le", "Le": "Ge", "Lt": "Gt", "Gt": "Lt"}.get(t[1], t[1]) if flip else t[1]
                        if want == "Ge" and o == "Gt" and b or want == "Ge" and o == "Le" and not b:
                            return True
                        neg = {"Ge": "Lt", "Lt": "Ge", "Gt": "Le", "Le": "Gt"}.get(o)
                        if o == want:
                            return bool(b)
                        if neg == want:
                            return not b
        return None

    def verdict(self, st):
        k = self.kind
        if k in ("Allow", "Iso639", "Jel", "finish"):
            b = st.ass.get(("in", V))
            return None if b is None else not b
        if k == "source":
            b = st.ass.get(("in", V))
            return True if b is None else None if b else True
        if k == "DateTime":
            ge = self.cmp(st, f(SELF, "offset"), ("len", V), "Ge")
            p = st.ass.get(("strp", V))
            return True if ge or p == "Err" else False if ge is False and p == "Ok" else None
        if k == "Unicode":
            b = st.ass.get(("nf", V))
            return None if b is None else not b
        if k == "Isni":
            pre = st.ass.get(f(SELF, "prefix"))
            if pre is None:
                return None
            if pre == "Some":
                sw = st.ass.get(("sw", V))
                if sw is None:
                    sw = {"Some": 1, "None": 0}.get(st.ass.get(("strip", V)))
                if sw is None:
                    return None
                if not sw:
                    return False
            for t, b in st.ass.items():
                if t[0] == "len" and t[1] == V and len(t) == 3 and b == 16:
                    break
                if t[0] == "ne" and t[1][0] == "len" and t[1][1] == V and len(t[1]) == 3 and 16 in b:
                    return True
            else:
                return None
            for t, b in st.ass.items():
                if t[0] == "op" and t[1] in ("Eq", "Ne") and b in (0, 1) and LAST in t:
                    return bool(b) == (t[1] == "Ne")
                if t == LAST:
                    return False
                if t[0] == "ne" and t[1] == LAST:
                    return True
            return None

    # ---- loops
    def fold(self, a, st, m):
        if not m["cur"]:
            return
        m["cur"], pushed = 0, m["push"]
        m["push"] = 0
        if self.kind == "preprocess":
            m["all"] = int(bool(m["all"] and pushed))
            return
        off = self.verdict(st)
        if self.kind == "source" and st.ass.get(("in", V)) == 1:
            off = bool(pushed)
        if off is None:
            self.bad(a, "untested", "passes a value without having tested it")
        elif pushed != int(off):
            self.bad(a, "offender", "adds a value that passes" if pushed and not off else "adds a value %d times" % pushed if pushed
                     else "does not report a value that does not pass")
        m["any"] = int(bool(m["any"] or off))

    def fold2(self, a, st, m):
        if m["outer"] != 1:
            return
        if m["loop"] != 2 and not (m["loop"] == 0 and self.kind == "Unicode"):
            self.bad(a, "inner", "does not go through all values")
        if self.kind == "Unicode" and m["loop"] == 0:
            self.bad(a, "inner", "does not go through all subfields of a field")
        if self.kind == "finish":
            if m["any"] != m["wrote"]:
                self.bad(a, "finding", "has no finding for a record with unresolved links" if m["any"] else "has a finding for a record without unresolved links")
            m.update(any=0, wrote=0, L=None, bad=fs())
        m["loop"] = 0

    def step(self, a, st, k, more):
        self.ctx.count("steps_visited")
        m = self.get(st)
        self.fold(a, st, m)
        if k == "outer":
            self.fold2(a, st, m)
            m["outer"] = 1 if more else 2
        else:
            if self.kind == "preprocess" and m["loop"] != 1:
                m["all"] = 1
            m["loop"] = 1 if more else 2
            if self.kind == "preprocess" and not more:
                m["out2"] = int(bool(m["out2"] or m["all"]))
        if more and k == "values":
            m.update(cur=1, push=0, n=1)
        for t in [t for t in st.ass if t[0] == "op" or t[0] == "ne" and t[1][0] == "op"]:
            del st.ass[t]
        a.kill(st, V)
        st.mon = self.pack(m)

    def kindof(self, a, st, x):
        x = a.val(st, x)
        x = a._deepread(st, x) if x[0] == "r" else x
        if x[0] != "o":
            return None
        if x[1] in (("values",), ("flat",)) or x[1] == ("copy",) or x[1][0] == "list" and x[1] == self.get(st)["L"] and self.kind == "preprocess":
            return "values"
        if x[1] == ("fields",) or x[1] == f(SELF, "unseen"):
            return "outer"
        return None

    def item(self, k):
        if k == "outer" and self.kind == "Unicode":
            return ("o", ("field",), fs("field"))
        if k == "outer":
            return ("s", (("0", ("o", ("uppn",), fs("uppn"))), ("1", ("o", ("values",), fs("values")))), "tuple")
        return ("o", ("sub",) if self.kind == "Unicode" else V, fs("value"))

    def new_item(self, a, st, v):
        k = self.kindof(a, st, a.operand(st, v["from"][0]))
        if k:
            self.step(a, st, k, True)
            self.flat(a, st, a.operand(st, v["from"][0]), True)
            return self.item(k)
        if self.kind == "Isni":
            x = a.val(st, a.operand(st, v["from"][0]))
            x = a._deepread(st, x) if x[0] == "r" else x
            if "value" in ai.labels(x, st) and a._t(x) != ("bytes", st.ass.get(f(SELF, "prefix")) == "None"):
                self.bad(a, "digits", "takes the digits from something else than the value without its prefix")

    def exhausted(self, a, st, t):
        k = self.kindof(a, st, a.operand(st, t["src"]))
        if k:
            self.step(a, st, k, False)
            self.flat(a, st, a.operand(st, t["src"]), False)

    def flat(self, a, st, x, more):
        """the one loop over all subfields of all fields"""
        x = a.val(st, x)
        x = a._deepread(st, x) if x[0] == "r" else x
        if x[0] == "o" and x[1] == ("flat",):
            m = self.get(st)
            m["outer"] = 1 if more else 2
            m["loop"] = 2
            st.mon = self.pack(m)

    # ---- events
    def opts(self, a, v):
        d = dict(v[1][1]) if v[0] == "o" and v[1][0] == "opts" else {k: a._t(x) for k, x in v[1]} if v[0] == "s" else {}
        for n in OPTF:
            if d.get(n) != f(SELF, n):
                self.bad(a, "options", "does not use the rule's %s" % n.replace("_", "-"))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        raw = [a.val(st, x) for x in c.args]
        v = [a._deepread(st, x) if x[0] == "r" else x for x in raw]
        t = [x[1] if x[0] == "o" else None for x in v]
        t0 = t[0] if t else None
        m = self.get(st)
        ctx = self.ctx
        if re.search(r"(Matcher|Query)Options\b", c.path) and n in ("new", "default") or n == "default" and re.search(r"(Matcher|Query)Options$", c.dty):
            return [(st, ("o", ("opts", ()), ai.EMPTY))]
        if n in OPTF and t0 and t0[0] == "opts" and len(v) == 2:
            return [(st, ("o", ("opts", tuple(sorted((dict(t0[1]) | {n: a._t(v[1])}).items()))), ai.EMPTY))]
        if n == "path" and t0 == ("p", "record") and len(v) == 3:
            ctx.count("paths_visited")
            self.opts(a, v[2])
            if t[1] != self.path:
                self.bad(a, "path", "tests the values of another path")
            return [(st, ("o", ("values",), fs("values")))]
        if n == "fields" and t0 == ("p", "record"):
            return [(st, ("o", ("fields",), fs("fields")))]
        if n == "subfields" and t0 == ("field",):
            return [(st, ("o", ("values",), fs("values")))]
        if n == "value" and t0 == ("sub",):
            return [(st, ("o", V, fs("value")))]
        if c.path == quant.NEXTI and v:
            k = self.kindof(a, st, v[0])
            if k:
                s = st.copy()
                self.step(a, s, k, False)
                self.step(a, st, k, True)
                self.flat(a, s, v[0], False)
                self.flat(a, st, v[0], True)
                return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", self.item(k)),)))]
        if n == "is_match" and v:
            want = opt(f(SELF, "target", "matcher")) if self.kind == "preprocess" else f(SELF, "matcher")
            if t0 != want or t[1] != ("p", "record"):
                self.bad(a, "matcher", "matches something else than the rule's expression against the record")
            if len(v) > 2:
                self.opts(a, v[2])
            s = st.copy()
            st.mon, s.mon = self.pack(dict(m, match=1)), self.pack(dict(m, match=0))
            return [(st, ("k", 1)), (s, ("k", 0))]
        if n == "validate" and t0 == ("p", "record"):
            s = st.copy()
            st.mon, s.mon = self.pack(dict(m, inv=0)), self.pack(dict(m, inv=1))
            return [(st, ai.ok(("s", (), "tuple"))), (s, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        # atoms
        if n == "contains" and len(t) == 2 and t[1] == V:
            want = {"Allow": f(SELF, "values"), "finish": f(SELF, "seen"), "source": f(SELF, "seen")}.get(self.kind)
            if want and t0 == want or self.kind in ("Iso639", "Jel") and t0 and "checks::%s::CODES" % ("iso639" if self.kind == "Iso639" else "jelc") in repr(t0):
                return [(st, ("o", ("in", V), fs("value")))]
            self.bad(a, "list", "looks a value up in another list")
        if n == "strptime" and len(t) == 2:
            if t0 != f(SELF, "format") or t[1] != ("tail", V):
                self.bad(a, "strptime", "tests something else than the value from its offset against the format")
            return [(st, ("o", ("strp", V), fs("value")))]
        if n == "index" and t0 == V and len(v) == 2 and v[1][0] == "s":
            d = dict(v[1][1])
            if set(d) == {"start"} and a._t(d["start"]) == ("plen",):
                return [(st, ("o", opt(("strip", V)), fs("value")))]
            if set(d) == {"start"} and a._t(d["start"]) == f(SELF, "offset"):
                return [(st, ("o", ("tail", V), fs("value")))]
        if n == "index" and t0 and t0[0] == "list" and self.kind == "Isni" and v[1][0] == "k":
            return [(st, ("o", ("digit", V, v[1][1]), fs("value")))]
        if n == "is_empty" and t0 == ("tail", V):
            return [(st, ("o", ("op", "Ge", f(SELF, "offset"), ("len", V)), ai.EMPTY))]
        if n in ("get", "split_at", "split_at_checked") and t0 == V and len(v) == 2:
            d = dict(v[1][1]) if v[1][0] == "s" else {}
            tail = ("o", ("tail", V), fs("value"))
            if n != "get" and t[1] == f(SELF, "offset"):
                tail = ("s", (("0", ("o", ("head", V), ai.EMPTY)), ("1", tail)), "tuple")
            elif n != "get" or set(d) != {"start"} or a._t(d["start"]) != f(SELF, "offset"):
                return None
            if n == "split_at":
                return [(st, tail)]
            out, ge = [], self.cmp(st, f(SELF, "offset"), ("len", V), "Ge")
            s = st.copy()
            if st.assume(("op", "Le", f(SELF, "offset"), ("len", V)), 1):
                out.append((st, ("e", "Some", (("0", tail),))))
            if ge is not False and s.assume(("op", "Le", f(SELF, "offset"), ("len", V)), 0):
                out.append((s, ("e", "None", ())))
            return out
        if n in ("starts_with", "strip_prefix") and t0 == V and len(v) == 2:
            if t[1] != opt(f(SELF, "prefix")):
                self.bad(a, "prefix", "tests a value for another prefix")
            if n == "starts_with":
                return [(st, ("o", ("sw", V), fs("value")))]
            return [(st, ("o", ("strip", V), fs("value")))]
        nf = NF.get(n)
        if c.path == "?" and v and t[-1] == V:
            g = a.val(st, a.operand(st, c.t["fo"])) if c.t.get("fo") else None
            g = a._deepread(st, g) if g and g[0] == "r" else g
            nf = NF.get(str(g[1]).rsplit("::", 1)[-1]) if g and g[0] == "k" else None
            nf = nf or "?"
        if nf and t and t[-1] == V:
            want = st.ass.get(opt(f(SELF, "normalization")))
            if want != nf:
                self.bad(a, "form", "tests a value for another normal form")
            return [(st, ("o", ("nf", V), fs("value")))]
        if n == "len" and t0 == opt(f(SELF, "prefix")):
            return [(st, ("o", ("plen",), ai.EMPTY))]
        if self.kind == "Isni" and n in ("iter", "into_iter", "bytes") and t0 in (V, opt(("strip", V))):
            return [(st, ("o", ("bytes", t0 == V), fs("value")))]
        if n == "len" and t0 is not None:
            if t0 == V:
                return [(st, ("o", ("len", V), ai.EMPTY))]
            if t0[0] == "list" and t0 not in m["bad"] and (t0 == m["L"] or m["loop"] == 2):
                return [(st, ("k", 0) if not m["any"] and not m["push"] else ("o", ("mlen",), ai.EMPTY))]
            if t0[0] == "list":
                return [(st, ("o", ("len", V, t0), ai.EMPTY))]
        if n in ("to_str", "from_utf8") and t0 == V:
            return [(st, ai.ok(v[0]))]
        if n in PASS and t0 and (t0 in (V, KEY, opt(("oppn",)), ("uppn",), ("tail", V)) or rooted(t0)):
            return [(st, v[0])]
        if n == "flat_map" and t0 == ("fields",) and self.kind == "Unicode" and v[1][0] == "s" and subfields(ctx, v[1]):
            return [(st, ("o", ("flat",), fs("values")))]
        if n in ITER and self.kindof(a, st, v[0] if v else ai.TOP) if v else False:
            return [(st, v[0])]
        if self.kind == "source":
            x = self.entry(a, st, c, n, v, t, m)
            if x is not None:
                return x
        # lists
        if n in NEW and (re.match(r"^[\w:]*Vec<", c.dty) or c.path == mir.COLL_NEW):
            return [(st, ("o", ("list", c.site), fs("list")))]
        if n in ("push", "coll_push", "insert") and len(t) == 2 and t0 is not None:
            return self.push(a, st, m, n, t0, v, t)
        if n == "is_empty" and t0 is not None and (t0[0] == "list" or t0 == ("values",)):
            if self.kind == "preprocess":
                return [(st, ("k", int(not m["n"])))] if m["loop"] == 2 else None
            return [(st, ("k", int(not (m["any"] or m["push"]) if m["L"] in (None, t0) else 1)))]
        if n == "join" and t0 is not None and t0[0] == "list":
            return [(st, ("o", ("joined", t0, v[1][1] if len(v) > 1 and v[1][0] == "k" else "?"), fs("joined")))]
        return None

    def push(self, a, st, m, n, t0, v, t):
        unit = ("s", (), "tuple") if n != "insert" else ("o", ("new?",), ai.EMPTY)
        if self.kind == "preprocess" and n in ("insert", "coll_push", "push") and t0 == f(SELF, "seen"):
            if t[1] != V:
                self.bad(a, "target", "remembers something else than a target value")
            m.update(push=1, some=1)
            st.mon = self.pack(m)
            return [(st, unit)]
        if t0[0] != "list":
            return None
        if self.kind == "finish" and v[1][0] == "s":
            d = [a.val(st, x) for _, x in v[1][1]]
            d = [a._deepread(st, x) if x[0] == "r" else x for x in d]
            if len(d) != 2 or d[0][:2] != ("o", ("uppn",)) or not self.message(a, m, d[1]):
                self.bad(a, "finding-text", "has a finding that is not the record's PPN and unresolved links")
            m["wrote"] = min(m["wrote"] + 1, 2)
        elif t[1] == V:
            if m["L"] not in (None, t0):
                self.bad(a, "lists", "adds values to two lists")
            m["L"] = t0
            if self.kind == "preprocess":
                m["n"] = 1
            else:
                m["push"] = min(m["push"] + 1, 2)
        elif "value" in ai.labels(v[1], st) or v[1][0] != "o":
            m["bad"] = m["bad"] | {t0}
        st.mon = self.pack(m)
        return [(st, unit)]

    def entry(self, a, st, c, n, v, t, m):
        if n == "ppn" and t[0] == ("p", "record"):
            return [(st, ("o", ("oppn",), fs("ppn")))]
        if n in ("unwrap_or_default", "unwrap_or", "unwrap_or_else", "unwrap") and (
                t[0] == ("oppn",) or v[0][0] == "e" and (v[0][1] == "None" or a._t(v[0][2][0][1]) in (opt(("oppn",)), KEY))):
            return [(st, ("o", KEY, fs("ppn")))]
        if n == "entry" and t[0] == f(SELF, "unseen"):
            if t[1] != KEY and (t[1] != opt(("oppn",)) and (st.ass.get(("oppn",)) != "None" or "ppn" in ai.labels(v[1], st))):
                self.bad(a, "key", "records a value under something else than the PPN")
            return [(st, ("o", ("entry", 0), ai.EMPTY))]
        if n in ("and_modify", "or_insert_with") and t[0] and t[0][0] == "entry" and v[1][0] == "s" and str(v[1][2]).startswith("closure:"):
            r = recorded(self.ctx, v[1])
            if n == "and_modify":
                return [(st, ("o", ("entry", 1 if r == "push" else 2), ai.EMPTY))]
            if r == "value" and t[0][1] == 1:
                m["push"] = min(m["push"] + 1, 2)
                st.mon = self.pack(m)
            return [(st, ("o", ("elist", r), ai.EMPTY))]
        if n in ("or_default", "or_insert_with", "or_insert") and t[0] == ("entry", 0):
            return [(st, ("o", ("elist", "new"), ai.EMPTY))]
        if n == "push" and t[0] == ("elist", "new"):
            if t[1] == V:
                m["push"] = min(m["push"] + 1, 2)
                st.mon = self.pack(m)
            return [(st, ("s", (), "tuple"))]

    def message(self, a, m, x):
        return x[0] == "e" and x[1] == "Some" and a._t(x[2][0][1]) == ("joined", m["L"], ", ") and m["L"] not in m["bad"]

    def exit(self, a, st, v, node):
        self.ctx.count("exits_visited")
        m = self.get(st)
        self.fold(a, st, m)
        k = self.kind
        if k == "preprocess":
            mt = st.ass.get(f(SELF, "target", "matcher"))
            want = 1 if mt == "None" else m["match"] if mt == "Some" else None
            if m["some"] and not want:
                self.bad(a, "admits", "remembers target values of a record that the target's filter does not admit", node)
            if m["n"] and want != 0 and not (m["out2"] and want):
                self.bad(a, "remembers", "does not remember all target values", node)
            if not m["n"] and m["loop"] != 2 and want != 0:
                self.bad(a, "all", "does not look at the target values", node)
            return
        if k == "finish":
            if m["outer"] != 2:
                self.bad(a, "all", "does not go through all records with links", node)
            return
        v = a.val(st, v)
        d = dict(v[1]) if v[0] == "s" else {}
        flag, msg = a.val(st, d.get("0", ai.TOP)), a.val(st, d.get("1", ai.TOP))
        if k == "Filter":
            if flag[0] == "o" and flag[1][0] == "op" and flag[1][1] in ("Eq", "Ne") and m["match"] is not None:
                o = [x for x in flag[1][2:] if x != ("k", m["match"])]
                if o == [f(SELF, "invert_match")]:
                    if (flag[1][1] == "Ne") != 1:
                        self.bad(a, "filter", "fails otherwise than if the expression matches", node)
                    return self.nomsg(a, msg, node)
            for s, b in a.branch_bool(st, flag):
                inv = s.ass.get(f(SELF, "invert_match"))
                if m["match"] is None or inv is None or (m["match"] != inv) != b:
                    self.bad(a, "filter", "fails otherwise than if the expression matches", node)
            return self.nomsg(a, msg, node)
        if k == "Unicode" and m["inv"]:
            if flag != ("k", 1) or msg[:2] != ("e", "None"):
                self.bad(a, "invalid", "does not fail without a message on an invalid record", node)
            return
        if k == "Unicode":
            nrm = st.ass.get(f(SELF, "normalization"))
            if m["inv"] is None:
                self.bad(a, "valid", "does not test whether the record is valid", node)
            if nrm != "None" and m["outer"] != 2:
                self.bad(a, "all", "does not go through all fields", node)
        elif m["loop"] != 2:
            self.bad(a, "all", "does not go through all values", node)
        if k == "source":
            if flag != ("k", 0) or msg[:2] != ("e", "None"):
                self.bad(a, "early", "fails before all records have been read", node)
            return
        if flag[0] == "k":
            if bool(flag[1]) != bool(m["any"]):
                self.bad(a, "fails", "fails although no value offends" if flag[1] else "does not fail although a value offends", node)
        else:
            self.bad(a, "fails", "fails on something else than whether a value offends", node)
        if m["any"] and not self.message(a, m, msg):
            self.bad(a, "message", "has a message that is not the offending values", node)
        if not m["any"] and msg[:2] != ("e", "None"):
            self.bad(a, "message", "has a message although no value offends", node)

    def nomsg(self, a, msg, node):
        if msg[:2] != ("e", "None"):
            self.bad(a, "message", "has a message", node)


def rooted(t):
    while isinstance(t, tuple) and t and t[0] in ("f", "v"):
        t = t[1]
    return t == SELF


def recorded(ctx, clo):
    """what a closure does with the value it captures: pushes it to its parameter, or returns a list of it"""
    f = ctx.prog.fns.get(clo[2][8:])
    if f is None or not f.body:
        return None

    class Rec:
        def __init__(self):
            self.out = set()

        def init(self):
            return 0

        def call(self, a, st, c):
            n = c.path.rsplit("::", 1)[-1]
            v = [a.val(st, x) for x in c.args]
            if n == "box_assume_init_into_vec_unsafe" and st.mon >= 4:
                st.mon -= 4
                return [(st, ("o", ("made",), fs("value")))]
            if n == "push" and len(v) == 2:
                st.mon = min(2, st.mon + ("value" in ai.labels(v[1], st)))
                return [(st, ("s", (), "tuple"))]
            return None

        def stmt(self, a, st, p, v, sp, blk):
            if v["r"] == "agg" and v.get("kind") == "array" and len(v["ops"]) == 1 and "value" in ai.labels(a.operand(st, v["ops"][0]), st):
                st.mon = 4

        def exit(self, a, st, v, node):
            self.out.add("push" if st.mon == 1 else "value" if st.mon == 0 and "value" in ai.labels(v, st) | ai.labels(a.val(st, v), st) else None)
    m = Rec()
    a = ai.AI(ctx.prog, ctx.flat(f, inline=lambda h: False), m, init={1: clo})
    a.run()
    ctx.unit(f.path)
    return m.out.pop() if len(m.out) == 1 else None


def subfields(ctx, clo):
    """a closure gives the subfields of its argument"""
    f = ctx.prog.fns.get(clo[2][8:])
    if f is None or not f.body:
        return False

    class Sub:
        def __init__(self):
            self.out = set()

        def init(self):
            return 0

        def call(self, a, st, c):
            n = c.path.rsplit("::", 1)[-1]
            v = [a.val(st, x) for x in c.args]
            v = [a._deepread(st, x) if x[0] == "r" else x for x in v]
            if n == "subfields" and v[0][:2] == ("o", ("field",)):
                return [(st, ("o", ("values",), ai.EMPTY))]
            if n in ITER and v and v[0][:2] == ("o", ("values",)):
                return [(st, v[0])]

        def exit(self, a, st, v, node):
            self.out.add(a.val(st, v)[:2])
    m = Sub()
    a = ai.AI(ctx.prog, ctx.flat(f, inline=lambda h: False), m, init={1: clo, 2: ("o", ("field",), ai.EMPTY)})
    a.run()
    ctx.unit(f.path)
    return m.out == {("o", ("values",))}


def trim(a, st, bid):
    t = ("mlen",)
    st.ass.setdefault(("ne", t), fs(0))


def short(a, st, p, v):
    """a checksum is not followed further than that it is one"""
    if v["r"] == "bin" and v["op"] in ("Rem", "Sub", "Add", "Mul") and a.val(st, st.read(p))[0] == "o":
        st.write(p, ("o", ("sum",), ai.EMPTY))


def run(ctx):
    prog = ctx.prog
    todo = [("%s::%s::check" % (x.lower() if x not in ("Jel",) else "jelc", x), x) for x in
            ("Allow", "DateTime", "Filter", "Isni", "Iso639", "Jel", "Unicode")] + \
           [("link::Link::preprocess", "preprocess"), ("link::Link::check", "source"), ("link::Link::finish", "finish")]
    for path, kind in todo:
        fn = prog.fn("pica::commands::check::checks::" + path)
        g = ctx.flat(fn, inline=lambda h: h.crate == "pica", collect=True, foreign=True, reduce=True)
        heap = {f(SELF, "unseen"): ("o", f(SELF, "unseen"), fs("unseen"))}
        a = ai.AI(prog, g, Mon(ctx, fn, kind), init={"heap": heap})
        a.trim = trim
        if kind == "Isni":
            a.post = short
        a.run()
        ctx.unit(fn.path)
        ctx.count("rules")
        ctx.count("states", a.nstates)
    ctx.floor("rules", 10)
    ctx.floor("paths_visited", 7)
