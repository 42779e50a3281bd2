import re
import ai, cmds, mir

META = {
    "id": "P43",
    "title": "explode splits a record into its levels and loses no field",
    "statement": "Exploding a record at main level yields it unchanged. At local level it yields, in order, one record per local "
                 "part (a run of local fields with the copy fields behind it): the main fields followed by the part's fields; at "
                 "copy level one record per run of copy fields with the same occurrence within a part: the main fields, the part's "
                 "local fields and the run. Each such record is put together complete, in record order and once, and it, not the record "
                 "it comes from, is what filters apply to (records whose main fields come first).",
    "over": ["inputs", "configurations"],
    "for_all": "every record whose main fields come first, at every level",
    "why": "Where a part ends shows only from the field behind it, so fields get lost, doubled or carried into the next part in "
           "constellations of levels and occurrences that the tests' few records do not have.",
    "files": ["crates/pica-cli/src/commands/explode.rs", "src/primitives/tag.rs"],
    "mechanism": [["process_main, process_local, process_copy, Explode::execute", "crates/pica-cli/src/commands/explode.rs"],
                  ["TagRef::level, Level", "src/primitives/tag.rs"]],
    "technique": "abstract interpretation of MIR: list contents over all level sequences",
    "rule": "the splitting functions are run to a fixpoint over every sequence of levels and occurrence changes; a list's abstract "
            "content is the sequence of classes of fields (main, local part, copy run) it holds completely; each list handed out must be "
            "the one the definition calls for, exactly once per part; execute must choose the function by the level, write each "
            "field of each piece, then a line feed, into an empty buffer before it is read as a record, and filter and write the latter.",
}
DEBUG = False
PIECES = re.compile(r"^alloc::vec::Vec<alloc::vec::Vec<&.*FieldRef")
NEXT = "core::iter::traits::iterator::Iterator::next"
KEEPS = ("iter", "into_iter", "deref", "as_slice", "as_ref", "borrow", "clone", "cloned", "copied", "to_vec", "to_owned", "by_ref", "as_mut",
         "as_mut_slice", "deref_mut", "index", "into_boxed_slice", "into_vec", "collect", "from", "into", "from_iter", "fuse", "peekable",
         "as_deref", "iter_mut", "as_mut_vec", "concat", "flatten", "box_new", "new_uninit", "box_assume_init_into_vec_unsafe", "unwrap_or_default")
GATE = re.compile(r"utils::FilterSet::check$|record::RecordMatcher::is_match$|ByteRecordWrite::write_byte_record$")
LIST = frozenset(["list"])
FLD = frozenset(["fld"])


def lst(parts):
    parts = tuple(parts)
    if "bad" in parts or len(parts) > 5:
        parts = ("bad",)
    return ("o", ("L", tuple(parts)), LIST)


class Split:
    """mon: (current level, level behind it if looked up, its occurrence is the same,
    main fields seen, locals seen in this part, copies seen in this run, first of its class, part handed out,
    part before not handed out yet, locals in the part before, the occurrence is absent)"""
    NAMES = ("cur", "nxt", "same", "M", "L", "C", "first", "em", "owed", "oldL", "none", "out")

    def __init__(self, ctx, f, mode):
        self.ctx, self.f, self.mode = ctx, f, mode

    def init(self):
        return (None, "?", None, 0, 0, 0, 0, 0, 0, 0, None, 0)

    def get(self, st):
        return dict(zip(self.NAMES, st.mon))

    def put(self, st, m):
        st.mon = tuple(m[n] for n in self.NAMES)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.mode, k), "%s (at %s level): %s" % (self.f.path, self.mode, m), a.trace(node or a.cur))

    # ---- the input
    def looked(self, a, st):
        """states in which it is known what comes next"""
        m = self.get(st)
        if m["nxt"] != "?":
            return [st]
        out = []
        for n in ("None", "Main", "Local", "Copy"):
            if n == "Main" and m["cur"] not in (None, "Main") or n == "None" and m["cur"] is None:
                continue
            for same in ((0, 1) if n == "Copy" and m["cur"] == "Copy" else (0,)):
                s = st.copy()
                self.put(s, dict(m, nxt=n, same=same))
                out.append(s)
        return out

    def cls(self, level):
        if self.mode == "Main":
            return "F"
        if level == "Main":
            return "M"
        return "G" if self.mode == "Local" else level[0]

    def has(self, m):
        """is the part at hand not empty"""
        return {"Main": m["cur"] is not None, "Local": m["L"] or m["C"], "Copy": m["C"]}[self.mode]

    def advance(self, a, st):
        m = self.get(st)
        if m["cur"] == "end":
            self.bad(a, "twice", "goes through the fields a second time")
            return None
        n, same = m["nxt"], m["same"]
        if n == "None":
            self.put(st, dict(m, cur="end", nxt="None", same=None))
            self.rename(st, lambda p: p)
            return None
        new = self.mode != "Main" and m["cur"] == "Copy" and (n == "Local" or self.mode == "Copy" and n == "Copy" and not same)
        old = ()
        if new:
            if m["owed"]:
                self.bad(a, "lost", "does not hand out a part")
            m["owed"] = int(not m["em"])
            m["em"] = 0
            m["C"] = 0
            old = ("C", "G")
            if n == "Local":
                old = ("C", "L", "G")
                m["oldL"] = m["L"]
                m["L"] = 0
            else:
                m["oldL"] = 0
        elif m["em"] and self.cls(n) != "M":
            self.bad(a, "early", "hands out a part before its last field")
        k = self.cls(n)
        if k == "G":
            first = not (m["L"] or m["C"])
        else:
            first = m["cur"] is None if k == "F" else not m[k]

        def part(p):
            if p in old:
                return p + "-old"
            if p.endswith("-old"):
                return "bad" if new else p
            if p == k:
                return p + "-"
            return "bad" if p == k + "-" else p
        self.rename(st, part)
        self.occs(st, "cur" if n == "Copy" and same else "prev" if n == "Copy" and m["cur"] == "Copy" else "stale")
        if not (n == "Copy" and same):
            m["none"] = 0 if n == "Copy" and m["cur"] == "Copy" and m["none"] == 1 else None
        if n != "Copy":
            m["none"] = None
        m[n[0]] = 1
        self.put(st, dict(m, cur=n, nxt="?", same=None, first=int(first)))
        return ("o", ("fld", "cur"), FLD)

    def each(self, st, f):
        def val(v):
            if v[0] == "o":
                return f(v)
            if v[0] == "s":
                return (v[0], tuple((n, val(x)) for n, x in v[1])) + tuple(v[2:])
            if v[0] == "e":
                return (v[0], v[1], tuple((n, val(x)) for n, x in v[2])) + tuple(v[3:])
            return v
        for d in (st.env, st.heap):
            for l in list(d):
                w = val(d[l])
                if w is not d[l]:
                    d[l] = w

    def rename(self, st, part):
        def f(v):
            if v[1][0] == "L":
                return lst(part(p) for p in v[1][1])
            if v[1][0] == "fld" and v[1][1] != "next":
                return ("o", ("fld", "old"), FLD)
            if v[1] == ("fld", "next"):
                return ("o", ("fld", "cur"), FLD)
            return v
        self.each(st, f)

    def occs(self, st, cur):
        """cur: what the occurrence that was the current one is to the new one; older ones are known only by comparison"""
        ks = set()

        def see(v):
            if v[1][0] == "occ":
                ks.add(v[1][1])
            return v
        self.each(st, see)
        to = {"next": "cur", "cur": cur, "prev": "prev" if cur == "cur" else "stale", 8: 8}
        old = [k for k in ("cur", "prev") if to[k] == "stale"] + sorted(k for k in ks if isinstance(k, int) and k < 8)
        to.update((k, min(i, 8)) for i, k in enumerate(k for k in old if k in ks))

        def f(v):
            return ("o", ("occ", to[v[1][1]]), v[2]) if v[1][0] == "occ" else v
        self.each(st, f)

    def settle(self, st, k, to):
        def f(v):
            return ("o", ("occ", to), v[2]) if v[1] == ("occ", k) and k < 8 else v
        self.each(st, f)

    # ---- what is handed out
    def emit(self, a, st, parts):
        self.ctx.count("parts_visited")
        m = self.get(st)
        if m["out"] == "full":
            self.bad(a, "again", "hands out the record more than once")
        if self.mode == "Main":
            if parts != ("ALL",) and (parts != ("F",) or m["nxt"] != "None"):
                self.bad(a, "whole", "does not hand out all fields of the record, in order")
            self.put(st, dict(m, em=1, out="full"))
            return
        main = ("M",) if m["M"] else ()
        body = ("L", "C") if self.mode == "Copy" else ("G",)
        cur = main + tuple(p for p in body if p == "G" or m[p])
        old = main + (("G-old",) if self.mode == "Local" else ("L-old", "C-old") if m["oldL"] else ("L", "C-old") if m["L"] and m["cur"] == "Copy" else ("C-old",))
        if m["owed"]:
            if parts != old:
                self.bad(a, "part", "hands out something else than the main fields and the fields of the part: %s" % self.tell(parts, old))
            m["owed"] = 0
        elif not self.has(m):
            self.bad(a, "empty", "hands out a record for a part without fields")
        elif m["em"]:
            self.bad(a, "again", "hands out a part twice")
        else:
            if parts != cur:
                self.bad(a, "part", "hands out something else than the main fields and the fields of the part: %s" % self.tell(parts, cur))
            m["em"] = 1
        self.put(st, dict(m, out=1))

    def tell(self, got, want):
        w = {"M": "main fields", "L": "local fields", "C": "copy fields", "G": "the part's fields", "F": "all fields", "ALL": "all fields",
             "bad": "fields it should not or without some it should hold"}

        def t(p):
            q = p.replace("-old", "").rstrip("-")
            return w[q] + (" (of the part before)" if p.endswith("-old") else " (but for the last)" if p.endswith("-") else "")
        return "%s instead of %s" % (", ".join(map(t, got)) or "nothing", ", ".join(map(t, want)) or "nothing")

    def exit(self, a, st, v, node):
        self.ctx.count("exits_visited")
        m = self.get(st)
        if v[0] == "o" and v[1] == ("L", ()) and not m["out"]:
            v = ("o", ("R",), LIST)
        if v[0] != "o" or v[1] != ("R",):
            self.bad(a, "return", "does not return what was handed out", node)
        if self.mode == "Main":
            if not m["em"]:
                self.bad(a, "lost", "does not hand out the record", node)
        elif m["cur"] != "end" and m["nxt"] != "None":
            self.bad(a, "stops", "stops before the last field", node)
        elif m["owed"] or self.has(m) and not m["em"]:
            self.bad(a, "lost", "does not hand out the last part", node)

    # ---- operations
    def content(self, a, st, v):
        v = a._deepread(st, v) if v[0] == "r" else v
        if v[0] == "s" and len(v) > 2 and v[2] in ("array", "tuple") or v[0] == "s" and all(str(n).isdigit() for n, _ in v[1]):
            out = ()
            for _, x in v[1]:
                y = a._deepread(st, x) if x[0] == "r" else x
                if y[0] == "o" and y[1] == ("fld", "cur"):
                    y = lst(self.added(self.get(st), out))
                    out = y[1][1]
                    continue
                p = self.content(a, st, y)
                if p is None:
                    return None
                out += p
            return out
        if v[0] == "o" and v[1][0] == "L":
            return v[1][1]
        if v[0] == "o" and v[1] == ("all",):
            return ("ALL",)
        return None

    def added(self, m, parts):
        k = self.cls(m["cur"])
        if parts and parts[-1] == k + "-":
            return parts[:-1] + (k,)
        if m["first"] and not any(p in (k, k + "-") for p in parts):
            return parts + (k,)
        return parts + ("bad",)

    def iseq(self, st, x, y):
        """outcomes of comparing two values: [(state, bool)]"""
        m = self.get(st)
        if x[0] == "e" and y[0] == "e":
            if x[1] != y[1]:
                return [(st, 0)]
            if not x[2]:
                return [(st, 1)]
            return self.iseq(st, x[2][0][1], y[2][0][1])
        if x[0] == "o" and y[0] == "o" and x[1][0] == "occ" and y[1][0] == "occ":
            ks = {x[1][1], y[1][1]}
            if ks == {"cur"} or ks == {"next"}:
                return [(st, 1)]
            if ks in ({"cur", "prev"}, {"cur", "next"}):
                return [(st, 0)]
            s = st.copy()
            n = [k for k in ks if isinstance(k, int)]
            if "cur" in ks and n:
                self.settle(s, n[0], "prev")
                self.settle(st, n[0], "cur")
            return [(s, 0), (st, 1)]
        if y[0] == "e":
            x, y = y, x
        if x[0] == "e" and y[0] == "o" and y[1] == ("occ", "cur"):
            if x[1] == "None":
                out = []
                for b in (0, 1):
                    if m["none"] in (None, b):
                        s = st.copy()
                        self.put(s, dict(m, none=b))
                        out.append((s, b))
                return out
            return self.iseq(st, x[2][0][1], y)
        return [(st.copy(), 0), (st, 1)]

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        raw = [a.val(st, x) for x in c.args]
        v = [a._deepread(st, x) if x[0] == "r" else x for x in raw]
        t0 = v[0][1] if v and v[0][0] == "o" else ()
        if n == "fields" and len(v) == 1:
            return [(st, ("o", ("all",), LIST))]
        if t0 == ("all",):
            if n == "next":
                self.ctx.count("steps_visited")
                out = []
                for s in self.looked(a, st):
                    f = self.advance(a, s)
                    out.append((s, ("e", "Some", (("0", f),)) if f else ("e", "None", ())))
                return out
            if n in ("peek", "peek_mut", "first"):
                out = []
                for s in self.looked(a, st):
                    if n == "first" and self.get(s)["cur"] is not None:
                        return None
                    out.append((s, ("e", "None", ()) if self.get(s)["nxt"] == "None" else ("e", "Some", (("0", ("o", ("fld", "next"), FLD)),))))
                return out
            if n == "collect" and self.get(st)["cur"] is not None:
                return [(st, lst(("bad",)))]
            if n in KEEPS:
                return [(st, ("o", ("all",), LIST) if n not in ("collect", "to_vec") else lst(("ALL",)))]
            if n in ("is_empty",):
                return [(st, ("k", 0))]
        if t0[:1] == ("fld",):
            m = self.get(st)
            if n == "tag" or n in ("as_ref", "deref", "clone", "borrow", "copied", "cloned"):
                return [(st, v[0])]
            if n == "level":
                lv = {"cur": m["cur"], "next": m["nxt"]}.get(t0[1])
                if lv not in ("Main", "Local", "Copy"):
                    return None
                return [(st, ("e", lv, ()))]
            if n == "occurrence":
                k = t0[1].rstrip("+")
                if k == "next":
                    k = ("cur" if m["same"] else "next") if (m["cur"], m["nxt"]) == ("Copy", "Copy") else 8
                elif k == "cur" and m["cur"] != "Copy" or k in ("old", "some"):
                    k = 8
                return [(st, ("o", ("occ", k), ai.EMPTY))]
        if n in ("eq", "ne") and len(v) == 2 and (any(x[0] == "o" and x[1][0] == "occ" for x in v) or all(x[0] == "e" for x in v)
                                                 or any("occ" in str(x) for x in v)):
            return [(s, ("k", int(b == (n == "eq")))) for s, b in self.iseq(st, v[0], v[1])]
        if n in ("is_none", "is_some") and t0 == ("occ", "cur"):
            return [(s, ("k", int(b == (n == "is_none")))) for s, b in self.iseq(st, v[0], ("e", "None", ()))]
        if n in ("new", "with_capacity", "default") and "Vec" in c.path + a.g.locals[c.t["d"][0]][0]:
            return [(st, lst(()))]
        if not v:
            return None
        p = self.content(a, st, v[0])
        q = [self.content(a, st, x) for x in v]

        def upd(x):
            if raw[0][0] == "r":
                st.write((raw[0][1], raw[0][2]), x)
            elif c.args[0][0] == "r":
                st.write((c.args[0][1], c.args[0][2]), x)
        if n == "push" and len(v) == 2 and (p is not None or t0 == ("R",)):
            if q[1] is not None:
                if p == () and not self.get(st)["out"] or t0 == ("R",):
                    self.emit(a, st, q[1])
                    upd(("o", ("R",), LIST))
                    return [(st, a.fresh(st, c))]
                self.bad(a, "records", "collects what is handed out in more than one place")
            elif p is not None:
                upd(lst(self.added(self.get(st), p) if v[1][0] == "o" and v[1][1] == ("fld", "cur") else p + ("bad",)))
                return [(st, a.fresh(st, c))]
        if t0 == ("R",):
            if n in ("is_empty", "len", "reserve", "shrink_to_fit"):
                return None
            if n not in KEEPS:
                self.bad(a, "records", "calls %s on what was handed out" % n)
            return [(st, v[0])]
        if p is None and n not in ("chain", "into_vec", "concat", "from", "box_assume_init_into_vec_unsafe"):
            return None
        if n in ("clear", "drain", "take", "truncate") and (n != "truncate" or v[1] == ("k", 0)) and (n != "drain" or "RangeFull" in str(c.args) + c.rpath + str(c.t.get("f"))):
            upd(lst(()))
            return [(st, lst(p) if n != "clear" else a.fresh(st, c))]
        if n == "replace" and q[1] is not None:
            upd(lst(q[1]))
            return [(st, lst(p))]
        if n in ("extend", "extend_from_slice", "append") and len(v) == 2 and q[1] is not None:
            upd(lst(p + q[1]))
            if n == "append":
                r = raw[1] if raw[1][0] == "r" else c.args[1]
                if r[0] == "r":
                    st.write((r[1], r[2]), lst(()))
            return [(st, a.fresh(st, c))]
        if n == "chain" and len(v) == 2 and None not in q:
            return [(st, lst(p + q[1]))]
        if n == "is_empty":
            return [(st, ("k", int(not p)))]
        if n == "len" and not p:
            return [(st, ("k", 0))]
        if n in ("first", "last"):
            k = {"C-": "cur+", "C-old": "prev+"}.get(p[-1], "some") if p and n == "last" and self.get(st)["cur"] == "Copy" else "some"
            return [(st, ("e", "Some", (("0", ("o", ("fld", k), FLD)),)) if p else ("e", "None", ()))]
        if n in KEEPS:
            if p is None:
                p = self.boxed(a, st, v[0])
            if p is None:
                return None
            if isinstance(p, tuple) and p[:1] == ("one",):
                self.emit(a, st, p[1])
                return [(st, ("o", ("R",), LIST))]
            if PIECES.search(a.g.locals[c.t["d"][0]][0]) and not c.t["d"][1] and n in ("into_vec", "box_assume_init_into_vec_unsafe", "from", "into", "to_vec", "collect"):
                self.emit(a, st, p)
                return [(st, ("o", ("R",), LIST))]
            return [(st, lst(p))]
        if n in ("reserve", "capacity", "shrink_to_fit", "len"):
            return None
        if raw[0][0] == "r" or c.args[0][0] == "r":
            l = c.t["args"][0]
            if l[0] in "cm" and a.g.locals[l[1][0]][0].startswith("&mut"):
                upd(lst(p + ("bad",)))
        return None

    def boxed(self, a, st, v):
        """vec![list]: a boxed array that holds one list"""
        if v[0] == "o":
            vs = [x for t, x in st.heap.items() if t[0] in "fd" and t[1] == v[1] or cmds.tag_has(t, v[1])]
            import loop
            vs = vs or [x for t, x in st.heap.items() if loop.root(t) == v[1]]
            v = vs[0] if len(vs) == 1 else v
        if v[0] == "s" and len(v[1]) == 1:
            p = self.content(a, st, v[1][0][1])
            if p is not None:
                return ("one", p)
        return None


class Exec:
    """mon: (pieces: none, some or all gone through; the buffer: any, empty, in a field, all fields, line; field not written yet)"""

    def __init__(self, ctx, f, splits):
        self.ctx, self.f, self.splits = ctx, f, splits
        self.pairs = set()

    def init(self):
        return ("none", "any", 0)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("execute:%s" % k, "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def split(self, a, st, c, path, arg):
        self.ctx.count("splits_visited")
        if st.mon[0] != "none":
            self.bad(a, "left", "leaves pieces of a record")
        if arg is None or "rec" not in ai.labels(arg, st):
            self.bad(a, "record", "splits something else than the record read")
        lv = {v for t, v in st.ass.items() if cmds.tag_ends(t, "level")}
        if len(lv) != 1 or not isinstance(list(lv)[0], str):
            self.bad(a, "level", "splits a record without regard to the level asked for")
        else:
            self.pairs.add((lv.pop(), path))
        st.mon = ("some", "any", 0)
        return [(st, ("o", ("pieces",), frozenset(["pieces"])))]

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        v = [a._deepread(st, x) if x[0] == "r" else x for x in v]
        t0 = v[0][1] if v and v[0][0] == "o" else ()
        pc, buf, due = st.mon
        if cmds.NEXT.search(c.path):
            if pc != "none":
                self.bad(a, "left", "leaves pieces of a record")
            st.mon = ("none", "any", 0)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            return [(st.copy(), ("e", "None", ())), (st.copy(), ("e", "Some", (("0", ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),))),))),
                    (st, ("e", "Some", (("0", ("e", "Ok", (("0", ("o", ("rec",), frozenset(["rec"]))),))),)))]
        if "fo" in c.t:
            fo = a.operand(st, c.t["fo"])
            fo = a._deepread(st, fo) if fo[0] == "r" else fo
            p = [f for f in self.splits if fo[0] == "k" and str(fo[1]) == "fn:" + f.path]
            if p:
                return self.split(a, st, c, p[0].path, v[0] if v else None)
            return None
        p = [f for f in self.splits if f.path in (c.path, c.rpath)]
        if p:
            return self.split(a, st, c, p[0].path, v[0])
        if t0 == ("pieces",):
            if n == "next":
                s = st.copy()
                self.nopiece(a, s)
                return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", self.piece(a, st)),)))]
            if n in KEEPS or n in ("drain", "filter_map"):
                return [(st, v[0])]
            if n not in ("len", "is_empty"):
                self.bad(a, "pieces", "calls %s on the pieces of a record" % n)
        if t0 == ("piece",):
            if n == "next":
                s = st.copy()
                self.nofield(a, s)
                return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", self.field(a, st)),)))]
            if n in KEEPS:
                return [(st, v[0])]
        if t0 == ("field",):
            if n == "write_to":
                if not due:
                    self.bad(a, "twice", "writes a field of a piece twice")
                st.mon = (pc, buf, 0)
                self.here(a, st, c, v[1] if len(v) > 1 else None)
                return [(st, ai.ok(("s", (), "tuple")))]
            if n in ("deref", "clone", "as_ref", "borrow", "copied", "cloned"):
                return [(st, v[0])]
        if GATE.search(c.path) and len(v) > 1 and "rec2" not in ai.labels(v[1], st):
            self.bad(a, "gate", "%s something else than the pieces of a record" % ("writes" if n.startswith("write") else "filters"))
        vec = bool(c.t["args"]) and c.t["args"][0][0] in "cm" and "Vec<u8>" in a.g.locals[c.t["args"][0][1][0]][0]
        if n in ("new", "with_capacity", "default") and not c.t["d"][1] and a.g.locals[c.t["d"][0]][0].startswith("alloc::vec::Vec<u8"):
            st.mon = (pc, "empty", due)
            return [(st, ("o", ("buf",), frozenset(["buf"])))]
        if t0 == ("buf",) or vec and "buf" in ai.labels(v[0], st):
            if n == "clear" or n == "truncate" and v[1] == ("k", 0):
                st.mon = (pc, "empty", due)
                return [(st, a.fresh(st, c))]
            if n in ("push", "extend_from_slice", "write_all", "extend", "write"):
                b = v[1]
                if b[0] == "s" and len(b[1]) == 1:
                    b = b[1][0][1]
                b = b[1] if b[0] == "k" else None
                if b in (10, (10,), "\n") and buf == "all":
                    st.mon = (pc, "line", due)
                else:
                    self.bad(a, "line", "writes something else than a line feed behind the fields of a piece" if buf in ("all", "line") else
                             "writes something else than the fields of a piece")
                return [(st, a.fresh(st, c))]
            if n in ("from_bytes", "try_from", "try_into"):
                self.ctx.count("reads_visited")
                if buf != "line":
                    self.bad(a, "incomplete", "reads a record that is not the fields of the piece and a line feed")
                st.mon = ("some", "line", 0)
                return [(st, ai.ok(("o", ("rec2",), frozenset(["rec2"]))))]
            if n in KEEPS + ("as_bytes", "as_bstr", "as_mut_vec"):
                return [(st, v[0])]
            if n not in ("len", "is_empty", "reserve", "capacity"):
                self.bad(a, "buffer", "calls %s on the buffer of a piece" % n)
        return None

    def piece(self, a, st):
        self.ctx.count("steps_visited")
        if st.mon[0] == "piece":
            self.bad(a, "unread", "does not look at a piece of a record")
        st.mon = ("piece", st.mon[1], 0)
        return ("o", ("piece",), frozenset(["piece"]))

    def nopiece(self, a, st):
        if st.mon[0] == "piece":
            self.bad(a, "unread", "does not look at a piece of a record")
        st.mon = ("none", "any", 0)

    def field(self, a, st):
        pc, buf, due = st.mon
        if due:
            self.bad(a, "field", "does not write a field of a piece")
        if buf not in ("empty", "fields"):
            self.bad(a, "clear", "writes a piece behind what the buffer holds" if buf == "any" else "writes a piece twice")
        st.mon = (pc, "fields", 1)
        return ("o", ("field",), frozenset(["field"]))

    def nofield(self, a, st):
        self.field(a, st)
        st.mon = (st.mon[0], "all", 0)

    def new_item(self, a, st, v):
        x = a.operand(st, v["from"][0])
        x = a._deepread(st, x) if x[0] == "r" else x
        if x[0] == "o" and x[1] in (("piece",), ("pieces",)):
            return self.field(a, st) if x[1] == ("piece",) else self.piece(a, st)

    def exhausted(self, a, st, t):
        x = a.operand(st, t["src"])
        x = a._deepread(st, x) if x[0] == "r" else x
        if x[0] == "o" and x[1] in (("piece",), ("pieces",)):
            (self.nofield if x[1] == ("piece",) else self.nopiece)(a, st)

    def here(self, a, st, c, w):
        if w is None or "buf" not in ai.labels(w, st):
            self.bad(a, "elsewhere", "writes a field of a piece somewhere else than into the buffer")

    def exit(self, a, st, v, node):
        self.ctx.count("ends_visited")


def level(ctx):
    """a field's level is what the first byte of its tag says"""
    prog = ctx.prog
    fs = [f for f in prog.find(r"TagRef::<'a>::level$|TagRef.*::level$") if f.body]
    if not fs:
        raise mir.MissingAnchor("TagRef::level")
    for f in fs:
        res = {}

        class Lv:
            def init(self):
                return None

            def call(self, a, st, c):
                n = c.path.rsplit("::", 1)[-1]
                v = [a.val(st, x) for x in c.args]
                if n in ("index", "get", "first", "byte_at") and (len(v) == 1 or v[1] == ("k", 0)) or n in ("nth",) and v[1] == ("k", 0):
                    r = ("o", ("i", ("tag",), 0), ai.EMPTY)
                    return [(st, r if n == "index" else ("e", "Some", (("0", r),)))]
                return None

            def exit(self, a, st, v, node):
                ks = {x for t, x in st.ass.items() if isinstance(x, int) and t[0] == "i"}
                res.setdefault(v[1] if v[0] == "e" else "?", set()).update(ks or {None})
        g = ctx.flat(f, inline=lambda h: h.crate == f.crate)
        m = Lv()
        ai.AI(prog, g, m, keep=lambda t: True).run()
        ctx.count("levels_visited", len(res))
        ctx.unit(f.path)
        want = {"Main": {48}, "Local": {49}, "Copy": {50}}
        if res != want:
            ctx.violation("level", "%s: does not map the first byte of a tag to its level: %s" % (f.path, res), [])


def names(ctx):
    """the level's names on the command line"""
    prog = ctx.prog
    fs = [f for f in prog.find(r"tag::Level as core::str::traits::FromStr>::from_str$|FromStr for .*Level.*from_str$|Level.*from_str$")
          if f.body and f.crate == "pica_record"]
    if not fs:
        raise mir.MissingAnchor("the parser of level names")
    for f in fs:
        res = {}

        class Nm:
            def init(self):
                return None

            def call(self, a, st, c):
                v = [a.val(st, x) for x in c.args]
                k = [x[1] for x in v if x[0] == "k" and isinstance(x[1], str)]
                if c.path.endswith("::eq") and k:
                    s = st.copy()
                    s.mon = k[0]
                    return [(st, ("k", 0)), (s, ("k", 1))]

            def exit(self, a, st, v, node):
                if v[0] == "e" and v[1] == "Ok":
                    x = v[2][0][1]
                    res.setdefault(x[1] if x[0] == "e" else "?", set()).add(st.mon)
        ai.AI(prog, ctx.flat(f, inline=lambda h: h.crate == f.crate), Nm()).run()
        ctx.count("names_visited", len(res))
        ctx.unit(f.path)
        if res != {"Main": {"main"}, "Local": {"local"}, "Copy": {"copy"}}:
            ctx.violation("names", "%s: does not read main, local and copy as these levels: %s" % (f.path, res), [])


def run(ctx):
    prog = ctx.prog
    ex = [f for f in cmds.executes(prog) if cmds.cmdname(f) == "explode"]
    if not ex:
        raise mir.MissingAnchor("the explode command")
    fs = [f for f in prog.fns.values() if f.body and f.crate == "pica" and PIECES.search(f.body["locals"][0][0]) and not f.is_closure]
    if not fs:
        raise mir.MissingAnchor("the functions that split a record")
    for f in ex:
        keys = {h.key for h in fs}
        g = ctx.flat(f, inline=lambda h: h.crate == "pica" and h.key not in keys and "explode" in h.path)
        m = Exec(ctx, f, fs)
        a = ai.AI(prog, g, m, keep=lambda t: cmds.tag_ends(t[1] if t[0] == "ne" else t, "level"))
        a.K = 40
        a.run()
        ctx.unit(f.path)
        ctx.count("states", a.nstates)
        if DEBUG:
            print(f.path, a.nstates, m.pairs)
        byname = {h.path: h for h in fs}
        for lv in ("Main", "Local", "Copy"):
            if not any(x == lv for x, _ in m.pairs):
                ctx.violation("execute:no-%s" % lv, "%s: does not split records at %s level" % (f.path, lv), [])
        for lv, p in sorted(m.pairs):
            one(ctx, byname[p], lv)
    level(ctx)
    names(ctx)
    ctx.floor("steps_visited", 20)
    ctx.floor("parts_visited", 6)
    ctx.floor("reads_visited", 1)
    ctx.floor("levels_visited", 3)
    ctx.floor("names_visited", 3)


def one(ctx, f, mode):
    g = ctx.flat(f, inline=lambda h: h.crate == "pica")
    m = Split(ctx, f, mode)
    a = ai.AI(ctx.prog, g, m, keep=lambda t: False)
    a.K = 1000
    a.run()
    ctx.unit("%s at %s level" % (f.path, mode))
    ctx.count("states", a.nstates)
    if DEBUG:
        print(f.path, mode, a.nstates)
