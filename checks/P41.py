import re
import ai, cmds, loop, mir, peg

META = {
    "id": "P41",
    "title": "select writes and frequency counts exactly the rows the query yields",
    "statement": "For every accepted record, `select` writes the rows the query yields in order and each once, leaving out exactly "
                 "those that are empty in every column, with --no-empty-columns those with an empty column, and with --unique "
                 "those already written. `frequency` adds one for each row not empty in every column, with --unique only "
                 "for the first of equal rows of a record. Both evaluate the query given, with the given separator, squash "
                 "and merge settings.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, query and combination of the row options",
    "why": "The options interact: which rows count as seen, empty or new depends on their order within and across records, which "
           "tests with one option and one file do not vary.",
    "files": ["crates/pica-cli/src/commands/select.rs", "crates/pica-cli/src/commands/frequency.rs"],
    "mechanism": [["rows of a record", "crates/pica-cli/src/commands/select.rs"],
                  ["frequency table", "crates/pica-cli/src/commands/frequency.rs"]],
    "technique": "typestate over the loop over rows with a truth table of row conditions (abstract interpretation of MIR)",
    "rule": "at the end of each row's step the row has been written (counted) once iff the conditions the options name say so, "
            "for every combination of row emptiness, repetition and options; a written row is remembered under --unique, in "
            "select for the whole run, in frequency from an empty set per record; all rows of a record are dealt with before "
            "the next is read.",
}
NEXT = "core::iter::traits::iterator::Iterator::next"
SETOP = re.compile(r"(Hash|BTree|Index)Set\b")
MAPOP = re.compile(r"(Hash|BTree|Index)Map\b|map::(Entry|OccupiedEntry|VacantEntry)|[eE]ntry::<")
WRITE = re.compile(r"csv::writer::Writer::<W>::(write_record|write_byte_record|serialize)$|::write_byte_record$")


class Mon(loop.LoopMon):
    # rows: None/open/done; row facts (None if no row): anyempty, allempty, seen; done count; inserted; set state
    extra0 = (None, None, None, None, 0, False, "empty", False)
    R, ANY, ALL, SEEN, DONE, INS, SET, ABS = range(4, 12)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[getattr(self, k)] = v
        st.mon = tuple(m)
        return st

    def reset(self, extra):
        # the set of rows seen: kept over records
        s = extra[6]
        return (None, None, None, None, 0, False, "dirty" if s != "empty" else s, False)

    def opt(self, st, name):
        for t, v in st.ass.items():
            if cmds.tag_ends(t, name):
                return bool(v)
        return None

    def due(self, st):
        """must the current row be written or counted? None if not determined"""
        m = st.mon

        def neg(x):
            return None if x is None else not x
        un, ne = self.opt(st, "unique"), self.opt(st, "no_empty_columns") if self.cmd == "select" else False
        conds = [neg(m[self.ALL]),
                 True if ne is False else neg(m[self.ANY]) if ne else (True if m[self.ANY] is False else None),
                 True if un is False else neg(m[self.SEEN]) if un else (True if m[self.SEEN] is False else None)]
        if any(c is False for c in conds):
            return False
        return None if None in conds else True

    def settle(self, a, st, node=None):
        m = st.mon
        if m[self.R] != "row":
            return
        self.ctx.count("rows_settled")
        d = self.due(st)
        what = "%s%s%s" % ("empty" if m[self.ALL] else "with an empty column" if m[self.ANY] else "without empty columns" if
                           m[self.ANY] is False else "not empty", ", seen before" if m[self.SEEN] else ", new" if
                           m[self.SEEN] is False else "", " (--unique)" if self.opt(st, "unique") else "")
        verb = "written" if self.cmd == "select" else "counted"
        if d is None:
            self.bad(a, "undecided", "a row (%s) is %s without looking at every condition the options name" % (
                what, verb if m[self.DONE] else "left out"), node)
        elif d and m[self.DONE] == 0:
            self.bad(a, "missing", "a row (%s) is not %s" % (what, verb), node)
        elif not d and m[self.DONE]:
            self.bad(a, "superfluous", "a row (%s) is %s" % (what, verb), node)
        if m[self.DONE] and self.opt(st, "unique") and m[self.SEEN] is not True and not m[self.INS]:
            self.bad(a, "forgotten", "a row %s under --unique is not remembered" % verb, node)

    def on_read(self, a, st):
        self.settle(a, st)
        if st.mon[0] == "rec" and all(self.accepted(st)) and st.mon[self.R] != "done":
            self.bad(a, "rows", "goes on to the next record before all rows of an accepted one are dealt with")

    def enter(self, a, st, tag, ls):
        self.settle(a, st)
        if "cut" in ls or "changed" in ls:
            self.bad(a, "part", "only some of the rows are gone through, or in another order")
        self.ctx.count("rows_visited")
        a.kill(st, tag)
        self.put(st, R="row", ANY=None, ALL=None, SEEN=None, DONE=0, INS=False, ABS=False)
        return ("o", tag, frozenset(["row"]))

    def done(self, a, st, ls):
        self.settle(a, st)
        self.put(st, R="done" if "cut" not in ls else "part", ANY=None, ALL=None, SEEN=None, DONE=0, INS=False, ABS=False)

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        ls = ai.labels(src, st) | ai.labels(a.val(st, src), st)
        tag = ("cb", v["call"].get("bid"), v["ai"])
        if "rows" in ls:
            return self.enter(a, st, tag, ls)
        a.kill(st, tag)
        return ("o", tag, ls)

    def exhausted(self, a, st, t):
        src = a.operand(st, t["src"])
        ls = ai.labels(src, st) | ai.labels(a.val(st, src), st)
        if "rows" in ls:
            self.done(a, st, ls)

    def fact(self, st, k, inv=False):
        """both outcomes of a row condition"""
        out = []
        i = getattr(self, k)
        for b in (True, False):
            if st.mon[i] in (None, b):
                s = st.copy()
                m = list(s.mon)
                m[i] = b
                if k == "ALL" and b:
                    if m[self.ANY] is False:
                        continue
                    m[self.ANY] = True
                if k == "ANY" and not b:
                    if m[self.ALL] is True:
                        continue
                    m[self.ALL] = False
                s.mon = tuple(m)
                out.append((s, ("k", int(b != inv))))
        return out

    def elemfn(self, a, st, v):
        """truth table of a predicate of a column: {empty?: result}"""
        f = self.ctx.prog.fns.get(v[2][8:]) if v[0] == "s" and v[2].startswith("closure:") else None
        if f is None and v[0] == "k" and isinstance(v[1], str) and v[1].endswith("::is_empty"):
            return {True: True, False: False}
        if f is None:
            return None
        r = {}
        for b in (True, False):
            m = Elem(b)
            g = self.ctx.flat(f, inline=lambda h: h.crate == "pica")
            ai.AI(self.ctx.prog, g, m, init={1: a._deepread(st, v), 2: ("o", ("col",), frozenset(["col"]))}).run()
            if len(m.out) != 1 or list(m.out)[0][0] != "k":
                return None
            r[b] = bool(list(m.out)[0][1])
        return r

    def on_call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) | ai.labels(y, st) for x, y in zip(c.args, v)]
        if n in ("squash", "merge", "separator") and "QueryOptions" in c.path and len(v) == 2:
            if not (v[1][0] == "o" and cmds.tag_ends(v[1][1], n)):
                self.bad(a, "option-" + n, "the query is not evaluated with the --%s setting given" % n)
            return [(st, ("o", ("opts", c.site), ls[0] | {"o:" + n}))]
        if re.search(r"query::(Query::new)$", c.path) and "QueryOptions" not in c.path:
            if not any("expr" in x for x in ls):
                self.bad(a, "query-text", "the query does not come from the expression given")
            q = ("o", ("thequery",), frozenset(["query"]))
            return [(st.copy(), ai.ok(q)), (st, ("e", "Err", (("0", ai.mk(("qerr",))),)))]
        if n == "query" and c.path.startswith("pica_record::") and len(v) == 3 and "rec" in ls[0]:
            self.ctx.count("queries")
            if "query" not in ls[1]:
                self.bad(a, "query", "the record is not asked for the query given")
            for o in ("squash", "merge", "separator"):
                if "o:" + o not in ls[2]:
                    self.bad(a, "option-" + o, "the query is not evaluated with the --%s setting given" % o)
            return [(st, ("o", ("rows",), frozenset(["rows"])))]
        if n in ("saturating_add", "wrapping_add") and c.path.startswith("core::num") and "slot0" in ls[0]:
            return [(st, ("o", ("op", "Add", v[0][1] if v[0][0] == "o" else v[0], v[1]), ls[0]))]
        if ls and "rows" in ls[0]:
            if c.path == NEXT:
                s = st.copy()
                self.done(a, s, ls[0])
                return [(s, ("e", "None", ())),
                        (st, ("e", "Some", (("0", self.enter(a, st, ("call", c.site, c.path), ls[0])),)))]
            if n in ("into_inner", "iter", "into_iter", "deref", "as_slice", "to_vec", "clone"):
                return [(st, v[0])]
            if n in ("rev",) or re.match(r"sort|dedup|reverse|swap", n):
                self.bad(a, "part", "the rows are reordered or thinned out by `%s`" % n)
        if ls and "row" in ls[0] and st.mon[self.R] == "row":
            if n in ("iter", "into_iter", "deref", "as_slice") and len(v) == 1:
                return [(st, ("o", v[0][1], ls[0]))]
            op = c.t["args"][0]
            if op[0] in "cm" and re.match(r"&(ReErased |'\S+ )?mut ", self.loop.ty(op[1][0])) and not c.path.startswith("core::iter") \
                    and n not in ("deref_mut", "as_mut_slice", "as_mut", "borrow_mut") and st.mon[self.DONE] == 0 \
                    and not c.path.startswith("csv"):
                self.bad(a, "changed", "the row at hand is changed by `%s` before it is %s" % (
                    n, "written" if self.cmd == "select" else "counted"))
            if n in ("any", "all") and len(v) == 2 and c.path.startswith("core::iter"):
                t = self.elemfn(a, st, v[1])
                if t is None or "cut" in ls[0]:
                    return None
                if t[True] == t[False]:
                    return None
                # any(empty) / all(empty) and their negations
                return self.fact(st, {("any", True): "ANY", ("all", True): "ALL", ("any", False): "ALL",
                                      ("all", False): "ANY"}[(n, t[True])], not t[True])
        if SETOP.search(c.path) and n in ("new", "with_capacity", "default"):
            return self.setop(a, st, c, n, ls)
        if v and SETOP.search(c.path) and n in ("contains", "insert", "remove", "clear", "replace", "get", "take", "retain", "drain"):
            return self.setop(a, st, c, n, ls)
        if v and MAPOP.search(c.path):
            return self.mapop(a, st, c, n, v, ls)
        if WRITE.search(c.path) and len(v) == 2 and self.cmd == "select":
            if st.mon[0] != "rec":
                return None     # the header
            return self.effect(a, st, c, "row" in ls[1] and "cut" not in ls[1])
        return None

    def effect(self, a, st, c, isrow):
        self.ctx.count("effects_visited")
        if st.mon[self.R] != "row":
            self.bad(a, "outside", "a row is %s outside the loop over the rows" % ("written" if self.cmd == "select" else "counted"))
        elif not isrow:
            self.bad(a, "other", "something else than the row at hand is %s" % ("written" if self.cmd == "select" else "counted"))
        elif st.mon[self.DONE]:
            self.bad(a, "twice", "a row is %s twice" % ("written" if self.cmd == "select" else "counted"))
        s = self.put(st.copy(), DONE=1)
        if self.cmd == "select":
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return s

    def inloop(self, st):
        return st.mon[0] in ("rec", "err")

    def setop(self, a, st, c, n, ls):
        if n in ("new", "with_capacity", "default"):
            if not self.inloop(st):
                return None
            if self.cmd == "frequency" and st.mon[self.R] != "row":
                self.put(st, SET="empty")
            return [(st, ("o", ("set", c.site), frozenset(["fresh"])))]
        if n == "clear":
            if self.inloop(st) and (self.cmd == "select" or st.mon[self.R] == "row"):
                self.bad(a, "forgets", "rows remembered for --unique are forgotten before the %s ends" % (
                    "run" if self.cmd == "select" else "record"))
            self.put(st, SET="empty")
            return [(st, ("s", (), "tuple"))]
        if n in ("contains", "insert"):
            if "row" not in ls[1]:
                return None
            if self.cmd == "select" and "fresh" in ls[0]:
                self.bad(a, "forgets", "rows of earlier records are not remembered for --unique")
            if "cut" in ls[1] or "changed" in ls[1]:
                self.bad(a, "seen-key", "something else than the row at hand is remembered for --unique")
            if self.cmd == "frequency" and st.mon[self.SET] == "dirty":
                self.bad(a, "seen-across", "rows of an earlier record count as repeated")
            out = []
            for s, k in self.fact(st, "SEEN"):
                seen = k == ("k", 1)
                if n == "insert":
                    # insert reports whether the row was new; from here on it is remembered
                    s = self.put(s, INS=True, SET="used")
                    k = ("k", int(not seen))
                out.append((s, k))
            return out
        if n in ("remove", "take", "retain", "drain", "replace"):
            self.bad(a, "forgets", "rows remembered for --unique are forgotten or replaced by `%s`" % n)
        return None

    def mapop(self, a, st, c, n, v, ls):
        if self.cmd != "frequency":
            return None
        if n == "entry" and len(v) == 2:
            self.isrow = "row" in ls[1] and "cut" not in ls[1]
            if not self.isrow:
                self.bad(a, "key", "the count is kept under something else than the row at hand")
            return [(st, ("o", ("entry", c.site), frozenset(["entry"])))]
        if ls and "entry" in ls[0]:
            k = None
            if n == "or_default":
                k = 0
            elif n == "or_insert" and v[1][0] == "k":
                k = v[1][1]
            elif n in ("or_insert_with", "or_insert_with_key"):
                k = self.ret(a, st, v[1])
            if n.startswith("or_"):
                if k not in (0, 1):
                    self.bad(a, "start", "counts do not start from nothing")
                if "mod" in ls[0]:
                    st = self.effect(a, st, c, True)
                    if k != 1:
                        self.bad(a, "amount", "the first of equal rows does not count as one")
                    return [(st, ("o", ("slot", c.site), frozenset(["slotx"])))]
                return [(st, ("o", ("slot", c.site), frozenset(["slot%s" % k])))]
            if n == "and_modify":
                if not self.increments(a, st, v[1]):
                    self.bad(a, "amount", "a row does not count as one")
                return [(st, ("o", ("entry", c.site), ls[0] | {"mod"}))]
        if n in ("get_mut", "contains_key", "get") and len(ls) == 2 and "row" in ls[1]:
            if "cut" in ls[1]:
                self.bad(a, "key", "the count is kept under something else than the row at hand")
            s = self.put(st.copy(), ABS=True)
            slot = ("o", ("slot", c.site), frozenset(["slot0"]))
            if n == "contains_key":
                return [(s, ("k", 0)), (st, ("k", 1))]
            return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", slot),)))]
        if n == "insert" and len(v) == 3:
            if "row" not in ls[1] or "cut" in ls[1]:
                self.bad(a, "key", "the count is kept under something else than the row at hand")
            if not self.one(v[2], st.mon[self.ABS]):
                self.bad(a, "amount", "a row does not count as one")
            return [(self.effect(a, st, c, True), ("o", ("old", c.site), ai.EMPTY))]
        return None

    def one(self, v, absent=False):
        """the value of a slot increased by one (one itself for a key not there yet)"""
        if absent:
            return v == ("k", 1)
        t = v[1] if v[0] == "o" else ()
        if not (isinstance(t, tuple) and len(t) == 4 and t[:2] == ("op", "Add")):
            return False
        return any(x == ("k", 1) and isinstance(y, tuple) and cmds.tag_has(y, "slot") or x == ("k", 1) and y[:1] == ("slot",)
                   for x, y in ((t[2], t[3]), (t[3], t[2])))

    def ret(self, a, st, v):
        f = self.ctx.prog.fns.get(v[2][8:]) if v[0] == "s" and v[2].startswith("closure:") else None
        if f is None:
            return 0 if v[0] == "k" and str(v[1]).endswith("::default") else None
        m = Elem(False)
        ai.AI(self.ctx.prog, self.ctx.flat(f, inline=lambda h: h.crate == "pica"), m, init={1: v}).run()
        return list(m.out)[0][1] if len(m.out) == 1 and list(m.out)[0][0] == "k" else None

    def increments(self, a, st, v):
        f = self.ctx.prog.fns.get(v[2][8:]) if v[0] == "s" and v[2].startswith("closure:") else None
        if f is None:
            return False
        m = Incr(self)
        ai.AI(self.ctx.prog, self.ctx.flat(f, inline=lambda h: h.crate == "pica"), m,
              init={1: v, 2: ("o", ("slot", 0), frozenset(["slot0"]))}).run()
        return m.res == {1}

    def stmt(self, a, st, p, v, sp, blk):
        loop.LoopMon.stmt(self, a, st, p, v, sp, blk)
        if self.cmd != "frequency" or st.mon[0] != "rec" or not p[1]:
            return
        ls = ai.labels(st.read((p[0], ())), st)
        if any(x.startswith("slot") for x in ls) and v["r"] in ("use", "bin"):
            st.mon = self.effect(a, st, None, True).mon
            if "slot0" not in ls or not (v["r"] == "use" and self.one(a.operand(st, v["o"]))):
                self.bad(a, "amount", "a row does not count as one")

    def cutoff(self, a, st, bid):
        """the table is final once the loop is left with nothing pending"""
        return self.cmd == "frequency" and bid not in self.loop.body and st.mon[0] != "idle" and \
            (st.mon[0] != "rec" or st.mon[self.R] == "done" or False in self.accepted(st))

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        self.settle(a, st, node)
        if st.mon[0] == "rec" and all(self.accepted(st)) and st.mon[self.R] != "done":
            self.bad(a, "rows", "ends before all rows of an accepted record are dealt with", node)


class Incr:
    """writes of a closure through its counter: {number of increments by one at exit} or a stray write"""

    def __init__(self, top):
        self.top, self.res = top, set()

    def init(self):
        return 0

    def call(self, a, st, c):
        return None

    def stmt(self, a, st, p, v, sp, blk):
        if p[1] and "slot0" in ai.labels(st.read((p[0], ())), st):
            st.mon = st.mon + 1 if v["r"] == "use" and self.top.one(a.operand(st, v["o"])) else 9

    def exit(self, a, st, v, node):
        self.res.add(st.mon)


class Elem:
    def __init__(self, empty):
        self.empty, self.out = empty, set()

    def init(self):
        return None

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        ls = ai.labels(a.val(st, c.args[0]), st) if c.args else ai.EMPTY
        if n == "is_empty" and "col" in ls:
            return [(st, ("k", int(self.empty)))]
        if n == "len" and "col" in ls and self.empty:
            return [(st, ("k", 0))]
        if n == "len" and "col" in ls:
            return [(st.copy(), ("k", 1)), (st, ("k", 1 << 40))]
        return None

    def exit(self, a, st, v, node):
        self.out.add(a.val(st, v))


def run(ctx):
    prog = ctx.prog
    fs = {cmds.cmdname(f): f for f in cmds.executes(prog)}
    for n in ("select", "frequency"):
        f = fs.get(n)
        if f is None:
            raise mir.MissingAnchor("command " + n)
        rx = re.compile("|".join((loop.RX.pattern, WRITE.pattern, r"QueryExt::query$", r"Outcome.*::into_inner$")))
        g = ctx.flat(f, inline=loop.inliner(prog, rx, ("unique", "no_empty_columns")), plain=("iter",))
        m = Mon(ctx, f, g)
        a = ai.AI(prog, g, m, init={"heap": {("f", ("p", "self"), "query"): ("o", ("f", ("p", "self"), "query"), frozenset(["expr"]))}},
                  keep=lambda t: loop.keep_default(t) or cmds.tag_ends(t[1] if t[0] == "ne" else t, "unique")
                  or cmds.tag_ends(t[1] if t[0] == "ne" else t, "no_empty_columns"))
        a.run()
        ctx.unit(f.path)
        ctx.count("states", a.nstates)
    ctx.floor("rows_visited", 2)
    ctx.floor("queries", 2)
    ctx.floor("effects_visited", 2)
    ctx.floor("rows_settled", 8)
