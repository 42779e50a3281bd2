import re
import ai, cmds, emit, loop, mir

META = {
    "id": "P40",
    "title": "count and describe tally every field and subfield of accepted records once",
    "statement": "For every accepted record, `count` adds one to its number of records, the number of the record's fields to "
                 "its number of fields and the number of all its subfields to its number of subfields, and it writes the total "
                 "asked for (--records, --fields, --subfields) or all three in this order, as CSV or TSV, or labelled. "
                 "`describe` adds, for every subfield of every field that remains, exactly one under that field's tag and that "
                 "subfield's code.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, however many fields and subfields it has, and every output option",
    "why": "A tally that skips a field, counts one twice or is written under another name is only visible for records of a "
           "particular shape; tests count two files.",
    "files": ["crates/pica-cli/src/commands/count.rs", "crates/pica-cli/src/commands/describe.rs"],
    "mechanism": [["totals", "crates/pica-cli/src/commands/count.rs"],
                  ["frequencies of codes by tag", "crates/pica-cli/src/commands/describe.rs"]],
    "technique": "symbolic tally analysis: contributions of the nested loops to each counter (abstract interpretation of MIR)",
    "rule": "each counter's contribution per record is derived from the additions to it at record, field and subfield level "
            "(one, the length of the field or subfield list, or a sum over a loop that runs to its end and adds the same in "
            "every round); on every path it is the same quantity, the one its place in the output stands for. In describe, "
            "the addition is to the entry of the subfield's code in the table of the field's tag.",
    "assumptions": ["totals do not overflow", "the table written by describe is laid out by the data-frame library"],
}
NEXT = "core::iter::traits::iterator::Iterator::next"
MAPOP = re.compile(r"(Hash|BTree|Index)Map\b|map::(Entry|OccupiedEntry|VacantEntry)|[eE]ntry::<")
RX = re.compile("|".join((loop.RX.pattern, r"RecordRef.*::fields$", r"FieldRef.*::(subfields|tag)$", r"SubfieldRef.*::code$",
                          r"Write::write_fmt$")))
INT = re.compile(r"[ui](8|16|32|64|128|size)$")
TABLE = ("table", ())
Z, C0, C1, A1, C2, A2 = range(6)
NEW = (None,) * 6


def add(old, q):
    return q if old is None else "more than one addition"


def combine(acc, cur, skip):
    cur = cur or "none"
    if skip and cur == "none":
        return acc
    return cur if acc is None or acc == cur else "uneven"


class Tally(loop.LoopMon):
    # mon[4]: contributions by place; F, S: state of the loops over fields and subfields; an empty loop was met; output
    extra0 = ((), None, None, False, ())
    ACC, F, S, EMPTY, OUT = range(4, 9)

    def __init__(self, ctx, f, g):
        loop.LoopMon.__init__(self, ctx, f, g)
        self.kinds, self.wanted, self.resets, self.births = {}, {}, {}, set()
        self.zeros = {p[0] for b in g.blocks for (p, v, sp) in (b["s"] if b else ())
                      if not p[1] and v["r"] == "use" and v["o"][0] == "k" and INT.match(g.locals[p[0]][0])}

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    # -- state
    def accs(self, st):
        return {k: list(v) for k, v in st.mon[self.ACC]}

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            if k == "ACC":
                v = tuple(sorted(((p, tuple(e)) for p, e in v.items()), key=repr))
            m[getattr(self, k)] = v
        st.mon = tuple(m)

    def reset(self, extra):
        return ((), None, None, False, extra[4])

    def level(self, st):
        return 2 if st.mon[self.S] == "iter" else 1 if st.mon[self.F] == "iter" else 0

    # -- loops
    def sub_end(self, st, d):
        for e in d.values():
            e[A2] = combine(e[A2], e[C2], False)
            e[C2] = None

    def sub(self, st):
        d = self.accs(st)
        if st.mon[self.S] == "iter":
            self.sub_end(st, d)
        else:
            for e in d.values():
                e[C2] = e[A2] = None
        self.put(st, ACC=d, S="iter")

    def sub_done(self, st):
        d = self.accs(st)
        it = st.mon[self.S] == "iter"
        if it:
            self.sub_end(st, d)
            for e in d.values():
                if e[A2] == "one":
                    e[C1] = add(e[C1], "nsf")
                elif e[A2] not in (None, "none"):
                    e[C1] = e[A2]
                e[C2] = e[A2] = None
        self.put(st, ACC=d, S="done" if it else "empty", EMPTY=st.mon[self.EMPTY] or not it)

    def field_end(self, st, d):
        for e in d.values():
            if st.mon[self.S] == "iter" and (e[C2] or e[A2] not in (None, "none")):
                e[C1] = "a part of the subfields"
            e[A1] = combine(e[A1], e[C1], st.mon[self.S] == "empty")
            e[C1] = e[C2] = e[A2] = None

    def field(self, st):
        d = self.accs(st)
        if st.mon[self.F] == "iter":
            self.field_end(st, d)
        else:
            for e in d.values():
                e[C1] = e[A1] = e[C2] = e[A2] = None
        self.put(st, ACC=d, F="iter", S=None)

    def field_done(self, st):
        d = self.accs(st)
        it = st.mon[self.F] == "iter"
        if it:
            self.field_end(st, d)
            for e in d.values():
                q = {"one": "nf", "nsf": "ns", None: None, "none": None}.get(e[A1], e[A1])
                if q:
                    e[C0] = add(e[C0], q)
                e[A1] = None
        self.put(st, ACC=d, F="done" if it else "empty", S=None, EMPTY=st.mon[self.EMPTY] or not it)

    def record_end(self, a, st):
        if st.mon[0] != "rec" or not all(self.accepted(st)):
            return
        self.ctx.count("records_tallied")
        d = self.accs(st)
        part = st.mon[self.F] == "iter"
        for p in set(d) | set(self.kinds):
            e = d.get(p, list(NEW))
            if part and (e[C1] or e[A1] not in (None, "none")):
                k = "a part of the fields"
            elif e[Z] is not None:
                continue    # a helper that starts anew for every record
            else:
                k = e[C0] or "none"
            if k == "none" and st.mon[self.EMPTY]:
                continue
            ks = self.kinds.setdefault(p, {})
            ks.setdefault(k, a.trace(a.cur))
        # counters met later contributed nothing here
        self.nothing = getattr(self, "nothing", 0) + (not d and not st.mon[self.EMPTY])

    def on_read(self, a, st):
        self.record_end(a, st)

    # -- quantities
    def quantity(self, st, v, lv):
        if v == ("k", 1):
            return "one"
        if v[0] == "o":
            t = v[1]
            if t[0] == "q":
                return t[1]
            p = self.accof(t)
            e = self.accs(st).get(p)
            if e is not None and e[Z] == lv:
                return e[(C0, C1, C2)[lv]] or "none"
        if v == ("k", 0):
            return "none"
        return "another amount"

    def accof(self, t):
        return t[1] if isinstance(t, tuple) and t and t[0] == "acc" else None

    def sum_of(self, t, acc):
        """(counter, addend) of an addition to the counter"""
        while isinstance(t, tuple) and t and t[0] in ("f", "i", "cast"):
            t = t[1]
        if isinstance(t, tuple) and len(t) == 4 and t[0] == "op" and t[1].startswith("Add"):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                p = self.accof(x)
                if p == acc:
                    return p, y
        return None, None

    def contribute(self, st, p, q):
        lv = self.level(st)
        d = self.accs(st)
        e = d.setdefault(p, list(NEW))
        # the first addition in a later round: the rounds before added nothing
        ok = {0: ("one", "nf", "ns"), 1: ("one", "nsf"), 2: ("one",)}[lv]
        if q == "none":
            return
        i = (C0, C1, C2)[lv]
        e[i] = add(e[i], q if q in ok else "another amount")
        self.put(st, ACC=d)
        self.ctx.count("additions_visited")

    def key(self, st, p):
        q = st.resolve(p)
        return q if q[0] != "tag" else ("tag", q[1])

    def stmt(self, a, st, p, v, sp, blk):
        loop.LoopMon.stmt(self, a, st, p, v, sp, blk)
        self.old = a.val(st, st.read(p)) if v["r"] in ("use", "bin") else None

    def post(self, a, st, p, v):
        """births of counters, additions to them, and other assignments"""
        w = a.val(st, st.read(p))
        if w[0] == "s":
            k = self.key(st, p)
            fs = tuple((n, ("o", ("acc", k + (n,)), ai.EMPTY) if x == ("k", 0) else x) for n, x in w[1])
            if v["r"] == "agg" and fs != w[1] and w[2] != "tuple" and not str(w[2]).startswith("closure"):
                st.write(p, ("s", fs, w[2]))
            return
        if v["r"] not in ("use", "bin"):
            return
        k = self.key(st, p)
        old = self.accof(self.old[1]) if self.old[0] == "o" else None
        if old is None and self.old[0] == "o" and self.old[1][0] == "l" and k in self.births:
            old = k         # its value was read for the last time above
        if w == ("k", 0) and (k[0] in self.zeros and not k[1] or old is not None):
            q = old if old is not None else k
            if old is not None and st.mon[0] != "idle":
                self.resets.setdefault(q, a.trace(a.cur))
            if st.mon[0] == "rec":
                d = self.accs(st)
                d[q] = list(NEW)
                d[q][Z] = self.level(st)
                self.put(st, ACC=d)
            self.births.add(q)
            st.write(p, ("o", ("acc", q), ai.EMPTY))
            return
        if old is None:
            return
        q, x = self.sum_of(w[1], old) if w[0] == "o" else (None, None)
        if q == old:
            if st.mon[0] == "rec":
                self.contribute(st, q, self.quantity(st, x if x[0] == "k" else ("o", x, ai.EMPTY), self.level(st)))
            else:
                self.resets.setdefault(q, a.trace(a.cur))
            st.write(p, ("o", ("acc", q), ai.EMPTY))
        elif (k == old or p[1]) and not (w[0] == "o" and self.accof(w[1]) == old) and st.mon[0] != "idle":
            self.resets.setdefault(old, a.trace(a.cur))

    # -- parts of the record
    def part(self, a, st, ls, tag):
        if "cut" in ls or "changed" in ls:
            self.bad(a, "part", "only some of the %s are gone through" % ("fields" if "fields" in ls else "subfields"))
        a.kill(st, tag)
        if "fields" in ls:
            self.field(st)
            self.ctx.count("items_visited")
            return ("o", tag, frozenset(["field"]))
        self.sub(st)
        self.ctx.count("items_visited")
        return ("o", tag, frozenset(["sub"]))

    def over(self, st, ls):
        (self.field_done if "fields" in ls else self.sub_done)(st)

    def src(self, a, st, o):
        x = a.operand(st, o)
        return ai.labels(x, st) | ai.labels(a.val(st, x), st)

    def new_item(self, a, st, v):
        if not v["from"]:
            return None
        ls = self.src(a, st, v["from"][0])
        tag = ("cb", v["call"].get("bid"), v["ai"])
        if ls & {"fields", "subs"}:
            return self.part(a, st, ls, tag)
        a.kill(st, tag)
        return ("o", tag, ls)

    def exhausted(self, a, st, t):
        ls = self.src(a, st, t["src"])
        if ls & {"fields", "subs"}:
            self.over(st, ls)

    def on_call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) | ai.labels(y, st) for x, y in zip(c.args, v)]
        l0 = ls[0] if ls else ai.EMPTY
        cut = l0 & {"cut", "changed"}
        if len(v) == 1 and n == "fields" and "rec" in l0:
            return [(st, ("o", ("fields",), frozenset(["fields"]) | cut))]
        if len(v) == 1 and n == "subfields" and "field" in l0:
            return [(st, ("o", ("subs", v[0][1]), frozenset(["subs"]) | cut))]
        if len(v) == 1 and n == "tag" and "field" in l0:
            return [(st, ("o", ("tagof", v[0][1]), frozenset(["tagkey"])))]
        if len(v) == 1 and n == "code" and "sub" in l0:
            return [(st, ("o", ("codeof", v[0][1]), frozenset(["codekey"])))]
        if l0 & {"fields", "subs"} and "rec" not in l0:
            if c.path == NEXT:
                s = st.copy()
                self.over(s, l0)
                return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", self.part(a, st, l0, ("call", c.site, c.path))),)))]
            if n == "len":
                return [(st, ("o", ("q", ("nf" if "fields" in l0 else "nsf") if not cut else "a part"), ai.EMPTY))]
            if n in ("iter", "into_iter", "deref", "as_slice", "as_ref", "borrow", "by_ref", "clone"):
                return [(st, v[0])]
        if l0 & {"tagkey", "codekey"} and not MAPOP.search(c.path) and n not in emit.IDENT | {"hash", "fmt"}:
            return [(st, ("o", ("call", c.site, c.path), l0 | {"changed"}))]
        return self.special(a, st, c, n, v, ls)

    def special(self, a, st, c, n, v, ls):
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        self.record_end(a, st)
        self.finished(a, st, node)

    def finished(self, a, st, node):
        pass


class Count(Tally):
    disp = None
    OPTS = ("records", "fields", "subfields", "csv", "tsv", "no_header")

    def special(self, a, st, c, n, v, ls):
        r = self.text.fmtcall(a, st, c)
        if r is not None:
            return r
        if n == "write_fmt" and len(v) == 2:
            st = st.copy()
            self.put(st, OUT=st.mon[self.OUT] + tuple(self.text.pieces(a, st, v[1])))
            return [(st, ai.ok(emit.UNIT)), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if n == "write_all" and len(v) == 2:
            st = st.copy()
            self.put(st, OUT=st.mon[self.OUT] + (v[1],))
            return [(st, ai.ok(emit.UNIT)), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return None

    def cutoff(self, a, st, bid):
        """behind the loop only the totals and the options count"""
        if bid not in self.loop.body and st.mon[0] not in ("idle", "over"):
            if st.mon[0] == "rec":
                self.record_end(a, st)
            st.mon = ("over", None, None, None, (), None, None, False, st.mon[self.OUT])
            st.ass = {t: v for t, v in st.ass.items() if t[:2] == ("f", ("p", "self")) and t[2] in self.OPTS}
        return False

    def opt(self, st, n):
        for t, v in st.ass.items():
            if t[0] == "f" and t[2] == n and cmds.tag_ends(t, n) and t[1] == ("p", "self"):
                return bool(v)
        return None

    def finished(self, a, st, node):
        toks = []
        for p in st.mon[self.OUT]:
            if p[0] == "k" and isinstance(p[1], (tuple, str)):
                toks += list(p[1] if isinstance(p[1], tuple) else p[1].encode())
            elif p[0] == "k":
                toks.append(("zero",) if p[1] == 0 else ("?",))
            else:
                q = self.accof(p[1]) if p[0] == "o" else None
                toks.append(("acc", q) if q is not None else ("?",))
        on = [o for o in self.OPTS[:5] if self.opt(st, o)]
        R, F, S = ("one",), ("nf",), ("ns",)

        def lit(s):
            return list(s.encode())
        if len(on) > 1:
            return      # the options exclude each other
        o = on[0] if on else None
        if o in ("records", "fields", "subfields"):
            want = [{"records": R, "fields": F, "subfields": S}[o]] + lit("\n")
        elif o in ("csv", "tsv"):
            s = "," if o == "csv" else "\t"
            h = self.opt(st, "no_header")
            want = [R] + lit(s) + [F] + lit(s) + [S] + lit("\n")
            if h is not True:
                want = lit("records%sfields%ssubfields\n" % (s, s)) + want
            if h is None:
                self.bad(a, "header", "the header does not depend on --no-header", node)
        else:
            want = lit("records: ") + [R] + lit("\nfields: ") + [F] + lit("\nsubfields: ") + [S] + lit("\n")
        self.ctx.count("outputs_compared")
        if len(toks) != len(want) or any(isinstance(x, int) != isinstance(y, int) or isinstance(x, int) and x != y
                                         for x, y in zip(toks, want)):
            self.bad(a, "layout", "%s: writes %s" % ("--" + o if o else "without options", self.show(toks)), node)
            return
        for x, y in zip(toks, want):
            if isinstance(x, int) or x == ("zero",):
                continue
            if x == ("?",):
                self.bad(a, "number", "writes something else than a total", node)
            else:
                self.wanted.setdefault((x[1], y[0]), (a.trace(node), o))

    def show(self, toks):
        return repr("".join(chr(x) if isinstance(x, int) else "<n>" for x in toks))


class Describe(Tally):
    def special(self, a, st, c, n, v, ls):
        if not MAPOP.search(c.path) or not ls:
            return None
        if n == "entry" and len(v) == 2:
            if "tagkey" in ls[1] and "bytag" not in ls[0]:
                self.check_key(a, ls[1])
                return [(st, ("o", ("entry", c.site), frozenset(["entry", "t"])))]
            if "bytag" in ls[0]:
                if "codekey" not in ls[1]:
                    self.bad(a, "key", "a subfield is not counted under its code")
                self.check_key(a, ls[1])
                return [(st, ("o", ("entry", c.site), frozenset(["entry", "c"])))]
            if st.mon[0] == "rec":
                self.bad(a, "key", "a field is not entered under its tag")
        if "entry" in ls[0]:
            if "t" in ls[0] and n.startswith("or_"):
                return [(st, ("o", ("slot", c.site), frozenset(["bytag"])))]
            if "c" in ls[0] and n == "and_modify":
                if not self.incr(a, st, v[1]):
                    self.bad(a, "amount", "a subfield does not count as one")
                return [(st, ("o", ("entry", c.site), ls[0] | {"mod"}))]
            if "c" in ls[0] and n.startswith("or_"):
                k = v[1][1] if n == "or_insert" and v[1][0] == "k" else 0 if n == "or_default" else None
                if "mod" in ls[0]:
                    st = st.copy()
                    self.contribute(st, TABLE, "one" if k == 1 else "another amount")
                    return [(st, ("o", ("done", c.site), ai.EMPTY))]
                return [(st, ("o", ("slot", c.site), frozenset(["slot%s" % k])))]
        if n in ("get_mut",) and ls[0] & {"bytag"} or n == "get_mut" and len(ls) == 2 and "tagkey" in ls[1]:
            t = "tagkey" in ls[1] and "bytag" not in ls[0]
            self.check_key(a, ls[1])
            if not t and "codekey" not in ls[1]:
                self.bad(a, "key", "a subfield is not counted under its code")
            return [(st.copy(), ("e", "None", ())),
                    (st, ("e", "Some", (("0", ("o", ("slot", c.site), frozenset(["bytag" if t else "slot0"]))),)))]
        return None

    def check_key(self, a, ls):
        if "changed" in ls or "cut" in ls:
            self.bad(a, "key", "a table or entry is kept under a changed tag or code")

    def incr(self, a, st, v):
        import P41
        return P41.Mon.increments(self, a, st, v)

    def one(self, v, absent=False):
        import P41
        return P41.Mon.one(self, v, absent)

    def stmt(self, a, st, p, v, sp, blk):
        ls = ai.labels(st.read((p[0], ())), st) if p[1] else ai.EMPTY
        if st.mon[0] == "rec" and any(x.startswith("slot") for x in ls) and v["r"] in ("use", "bin"):
            ok = "slot0" in ls and v["r"] == "use" and self.one(a.operand(st, v["o"]))
            self.contribute(st, TABLE, "one" if ok else "another amount")
            return
        Tally.stmt(self, a, st, p, v, sp, blk)

    def cutoff(self, a, st, bid):
        if bid in self.loop.body or st.mon[0] == "idle":
            return False
        if st.mon[0] == "rec":
            self.cur_end(a, st)
        return True

    def cur_end(self, a, st):
        self.record_end(a, st)


def analyse(ctx, f, cls, keep, extra=()):
    prog = ctx.prog
    own = loop.inliner(prog, RX)
    g = ctx.flat(f, inline=lambda h: own(h) and h.crate == "pica", sums=True)
    m = cls(ctx, f, g)
    if cls is Count:
        m.text = emit.Text()
        m.text.disp = emit.Display(prog)
    a = ai.AI(prog, g, m, keep=keep)
    a.run()
    ctx.unit(f.path)
    ctx.count("states", a.nstates)
    return m


NAME = {"one": "1 per record", "nf": "the number of its fields", "ns": "the number of its subfields", "none": "nothing"}


def run(ctx):
    prog = ctx.prog
    fs = {cmds.cmdname(f): f for f in cmds.executes(prog)}
    for n in ("count", "describe"):
        if n not in fs:
            raise mir.MissingAnchor("command " + n)
    m = analyse(ctx, fs["count"], Count, lambda t: loop.keep_default(t) or any(
        (t[1] if t[0] == "ne" else t) == ("f", ("p", "self"), o) for o in Count.OPTS))
    bad = 0
    for (p, want), (tr, o) in sorted(m.wanted.items(), key=repr):
        ks = dict(m.kinds.get(p, {}))
        ctx.count("totals_compared")
        if p in m.resets:
            ks["something else"] = m.resets[p]
        if not ks:
            ks["none"] = tr
        for k in sorted(ks):
            if k != want:
                ctx.violation("count:%s" % want, "%s: the total written as %s%s adds up %s for a record" % (
                    m.f.path, {"one": "records", "nf": "fields", "ns": "subfields"}[want], " with --%s" % o if o else "",
                    NAME.get(k, k)), ks[k])
    ctx.floor("outputs_compared", 6)
    ctx.floor("totals_compared", 3)
    d = analyse(ctx, fs["describe"], Describe, loop.keep_default)
    ks = d.kinds.get(TABLE, {})
    if not ks:
        ctx.violation("describe:none", "%s: subfields are not counted" % d.f.path, [])
    for k in sorted(ks):
        if k != "ns":
            ctx.violation("describe:uneven", "%s: the table of a record grows by %s" % (d.f.path, NAME.get(k, k)), ks[k])
    ctx.floor("records_tallied", 4)
    ctx.floor("items_visited", 4)
    ctx.floor("additions_visited", 4)
