"""sample: the reservoir holds a prefix first, then every record replaces a slot drawn for it."""
import re
import ai, cmds, loop, mir
from P04 import WRITE
from P35 import ARITH

META = {
    "id": "P48",
    "title": "sample keeps min(n, SAMPLE_SIZE) accepted records, each slot replaced as drawn",
    "statement": "The first SAMPLE_SIZE accepted records fill the sample; for every later one a number is drawn from 0 up to the "
                 "number of records accepted before it, and it replaces the sample's record at that place, or none if there is "
                 "no such place. Every record kept is written exactly once, as it was read, and nothing else is written; so no "
                 "rejected or invalid record is sampled and no record twice.",
    "over": ["inputs", "configurations", "histories"],
    "for_all": "every sequence of accepted, rejected and skipped invalid records and every sequence of numbers drawn",
    "why": "The sample is random: a test sees one sequence of drawn numbers, or samples as many records as there are.",
    "files": ["crates/pica-cli/src/commands/sample.rs"],
    "mechanism": [["reservoir sampling", "crates/pica-cli/src/commands/sample.rs: Sample::execute"]],
    "technique": "path-sensitive typestate analysis with constant propagation (abstract interpretation of inlined MIR)",
    "rule": "With the sample size bound to a small constant (1..3; thorough 1..4), any outcome of reading and filtering and any number "
            "drawn: each accepted record is stored once at the next place while there is room, afterwards at the place drawn for it "
            "iff that is one of the sample's; what is stored is the text of the record at hand; after the input's end each place is "
            "parsed and written once before the command succeeds.",
    "level_note": "sample sizes up to 4 and the records up to two past the sample size are covered; larger values share the code",
    "assumptions": ["the random number generator draws from the range it is given"],
}
NEWRES = re.compile(r"(Vec|VecDeque)<(alloc::vec::Vec<u8|alloc::boxed::Box<\[u8\]|bstr::bstring::BString|alloc::string::String)")
BUFTY = re.compile(r"^(alloc::vec::Vec<u8|bstr::bstring::BString|alloc::string::String)")
TOBYTES = re.compile(r"record::ByteRecord(::)?<'_?\w*>::write_to$|record::ByteRecord::write_to$")
DRAW = re.compile(r"^rand::.*::(random_range|gen_range|random_below)$|Distribution.*::sample$")
RES = ("o", ("res",), frozenset(["res"]))
ITEM, PARSED = ("o", ("item",), frozenset(["item"])), ("o", ("parsed",), frozenset(["item"]))
BUF0, MIXED = ("o", ("buf0",), ai.EMPTY), ("o", ("mixed",), ai.EMPTY)
VIEW = {"iter", "into_iter", "iter_mut", "as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "by_ref", "rev", "borrow",
        "borrow_mut", "into_boxed_slice", "to_vec", "clone", "to_owned", "into", "from", "into_vec", "as_bytes", "must_use", "cloned"}
SHRINK = {"truncate", "pop", "remove", "swap_remove", "clear", "drain", "retain", "retain_mut", "dedup", "split_off", "pop_front",
          "pop_back", "take", "insert", "append", "resize"}


def unit():
    return ("s", (), "tuple")


class Mon(loop.LoopMon):
    # accepted so far, times stored, number drawn, writes of the current place, places written, all written
    extra0 = (0, 0, None, None, 0, False)
    N, STORED, DREW, CUR, OUT, DONE = range(4, 10)
    size = 1

    def bad(self, a, k, m, node=None):
        self.ctx.violation("sample:%s" % k, "%s: with a sample size of %d %s" % (self.f.path, self.size, m), a.trace(node or a.cur))

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[getattr(self, k)] = v
        st.mon = tuple(m)
        return st

    def reset(self, extra):
        return (extra[0], 0, None) + extra[3:]

    def settle(self, a, st, node=None):
        m = st.mon
        if m[0] != "rec":
            return
        n, stored, drew = m[self.N:self.CUR]
        if not all(self.accepted(st)):
            if stored:
                self.bad(a, "rejected", "a record that was not accepted is stored", node)
            return
        self.ctx.count("records_settled")
        if n < self.size:
            if stored != 1:
                self.bad(a, "fill", "the accepted record number %d is %s" % (n, "stored more than once" if stored else "not stored"), node)
        elif drew is None:
            self.bad(a, "undrawn", "no number is drawn for the accepted record number %d" % n, node)
        elif stored != int(drew < self.size):
            self.bad(a, "replace", "the accepted record number %d, for which %d is drawn, is %s" % (
                n, drew, "not stored" if not stored else "stored" if stored == 1 else "stored more than once"), node)
        st.mon = m[:4] + (n + 1, 0, None) + m[self.CUR:]

    def fill(self, st):
        return min(st.mon[self.N] + (st.mon[self.STORED] if st.mon[self.N] < self.size else 0), self.size)

    def store(self, a, st, v, place):
        """something is put into the reservoir at a place, or at its end (None)"""
        n, stored, drew = st.mon[self.N:self.CUR]
        self.ctx.count("stores_visited")
        if st.mon[0] != "rec":
            self.bad(a, "late", "the sample is changed when no record is at hand")
            return
        if v != ("o", ("bytes", n), frozenset(["bytes"])):
            self.bad(a, "content", "something else than the text of the record at hand is stored")
        if place is None:
            if n >= self.size:
                self.bad(a, "grow", "the accepted record number %d is added to a full sample" % n)
        elif n < self.size or place != drew:
            self.bad(a, "place", "the accepted record number %d is stored at place %d, which was not drawn for it" % (n, place))
        self.put(st, STORED=min(stored + 1, 2))

    def text(self, a, st, v):
        v = a._deepread(st, v)
        while v[0] == "s" and len(v[1]) == 1:
            v = a._deepread(st, v[1][0][1])
        return v

    # -- writing the sample
    def begin(self, a, st):
        self.settle(a, st)
        if st.mon[0] in ("rec", "err"):
            self.bad(a, "stops-early", "the sample is written although the input is not exhausted")

    def leave(self, a, st):
        if st.mon[self.CUR] == 0:
            self.bad(a, "unwritten", "a record of the sample is not written")
        self.put(st, CUR=None)

    def step(self, a, st):
        """the next place of the sample; None: there cannot be one more"""
        if st.mon[self.CUR] is None and not st.mon[self.OUT]:
            self.begin(a, st)
        self.leave(a, st)
        if st.mon[self.OUT] >= min(st.mon[self.N], self.size):
            return None
        self.put(st, CUR=0, OUT=st.mon[self.OUT] + 1)
        return ITEM

    def finished(self, a, st):
        if st.mon[self.CUR] is None and not st.mon[self.OUT]:
            self.begin(a, st)
        self.leave(a, st)
        if st.mon[self.OUT] < min(st.mon[self.N], self.size):
            st.dead = True
        self.put(st, DONE=True)

    def new_item(self, a, st, v):
        if self.text(a, st, a.operand(st, v["from"][0])) == RES:
            x = self.step(a, st)
            if x is None:
                st.dead = True
                return ITEM
            return x

    def exhausted(self, a, st, t):
        if self.text(a, st, a.operand(st, t["src"])) == RES:
            self.finished(a, st)

    def call(self, a, st, c):
        if cmds.NEXT.search(c.path):
            self.settle(a, st)
            if st.mon[self.N] > self.size + 2:
                return []
        return loop.LoopMon.call(self, a, st, c)

    def on_call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        dty = c.t.get("dty") or ""
        if n in ("new", "with_capacity", "default", "collect") and NEWRES.match(dty.replace("alloc::vec::", "", 1).replace("alloc::collections::vec_deque::", "", 1)):
            if st.mon[0] == "rec" or c.site in self.loop.body:
                self.bad(a, "forgets", "the sample is not kept for the whole run")
            self.ctx.count("reservoirs_visited")
            return [(st, RES)]
        if n in ("new", "with_capacity", "default") and BUFTY.match(dty):
            return [(st, BUF0)]
        v = [self.text(a, st, x) for x in c.args]
        if TOBYTES.search(c.path) and len(v) == 2:
            s = st.copy()
            n0 = st.mon[self.N]
            ok = "rec" in ai.labels(v[0], st) and v[0][0] == "o" and v[0][1][0] == "rec" and v[1] == BUF0
            ref = c.args[1]
            x = ("o", ("bytes", n0), frozenset(["bytes"])) if ok else MIXED
            if v[1][0] == "o" and v[1][1][:1] == ("slot",):
                self.store(a, s, MIXED, v[1][1][1])
            elif ref[0] == "r":
                p = (ref[1], ref[2])
                while s.read(p)[0] == "r":
                    p = s.read(p)[1:3]
                s.write(p, x)
            return [(s, ai.ok(unit())), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if n == "new" and "RangeInclusive" in c.path and len(v) == 2:
            return [(st, ("s", (("start", v[0]), ("end", v[1]), ("exhausted", ("k", 0))), "range"))]
        if n in ("next", "into_iter") and v and v[0][0] == "s" and str(v[0][2]).endswith("ops::range::Range"):
            if n == "into_iter":
                return [(st, v[0])]
            lo, hi = [self.text(a, st, x) for _, x in v[0][1]]
            if lo[0] == hi[0] == "k" and c.args[0][0] == "r":
                if lo[1] >= hi[1]:
                    return [(st, ("e", "None", ()))]
                st.write(c.args[0][1:3], ("s", (("start", ("k", lo[1] + 1)), ("end", hi)), v[0][2]))
                return [(st, ("e", "Some", (("0", lo),)))]
        if DRAW.search(c.path):
            return self.draw(a, st, c, v)
        if v and v[0] == RES:
            if n == "len":
                return [(st, ("k", self.fill(st)))]
            if n == "is_empty":
                return [(st, ("k", int(not self.fill(st))))]
            if n in ("push", "push_back", "coll_push") and len(v) == 2:
                self.store(a, st, v[1], None)
                return [(st, unit())]
            if n in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut", "swap_remove") and len(v) == 2 and v[1][0] == "k":
                if st.mon[0] != "rec" and v[1][1] < self.fill(st):
                    if v[1][1] == st.mon[self.OUT]:
                        self.step(a, st)
                    if v[1][1] == st.mon[self.OUT] - 1 and st.mon[self.CUR] is not None:
                        return [(st, ITEM if not n.startswith("get") or "un" in n else ("e", "Some", (("0", ITEM),)))]
                slot = ("o", ("slot", v[1][1]), frozenset(["res"]))
                if v[1][1] >= self.fill(st):
                    if n.startswith("get") and "un" not in n:
                        return [(st, ("e", "None", ()))]
                    self.bad(a, "bounds", "place %d is used when the sample holds %d records" % (v[1][1], self.fill(st)))
                    return []
                return [(st, slot if not n.startswith("get") or "un" in n else ("e", "Some", (("0", slot),)))]
            if n in VIEW and len(v) == 1:
                return [(st, RES)]
            if n == "next":
                s = st.copy()
                self.finished(a, s)
                out = [] if s.dead else [(s, ("e", "None", ()))]
                x = self.step(a, st)
                return out + ([] if x is None else [(st, ("e", "Some", (("0", x),)))])
            if n in SHRINK and c.path.split("::")[0] in ("alloc", "core"):
                self.bad(a, "shrink", "records are taken from or put into the sample by `%s`" % n)
        if n in ("replace", "write") and c.path.startswith("core::mem") and len(v) == 2 and v[0][0] == "o" and v[0][1][:1] == ("slot",):
            self.store(a, st, v[1], v[0][1][1])
            return [(st, MIXED)]
        if n == "swap" and c.path.startswith("core::mem") and len(v) == 2 and any(x[0] == "o" and x[1][:1] == ("slot",) for x in v):
            i = 0 if v[0][0] == "o" and v[0][1][:1] == ("slot",) else 1
            self.store(a, st, v[1 - i], v[i][1][1])
            return [(st, unit())]
        if n in ("clone_from", "clone_into") and v[0][0] == "o" and v[0][1][:1] == ("slot",) and len(v) == 2:
            self.store(a, st, v[1], v[0][1][1])
            return [(st, unit())]
        if n in VIEW and len(v) == 1 and v[0][0] == "o" and (v[0][1][0] in ("bytes", "buf0") or v[0] in (ITEM, PARSED)):
            return [(st, v[0])]
        if n in ("from_bytes", "try_from", "new") and len(v) == 1 and v[0] == ITEM:
            return [(st, ai.ok(PARSED) if "Result" in dty else PARSED)]
        if n == "random_bool" or n == "sample" and c.path.startswith("rand"):
            return None
        if WRITE.search(c.path):
            self.ctx.count("writes_visited")
            s = st.copy()
            if v[1] != PARSED or st.mon[self.CUR] is None:
                self.bad(a, "other", "something else than a record of the sample is written")
            elif st.mon[self.CUR]:
                self.bad(a, "twice", "a record of the sample is written twice")
            self.put(s, CUR=1)
            return [(s, ai.ok(unit())), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if len(v) == 2 and c.path.startswith("core::") and n in ARITH and all(x[0] == "k" and isinstance(x[1], int) for x in v):
            return [(st, ARITH[n](v[0][1], v[1][1]))]
        return None

    def draw(self, a, st, c, v):
        lo, hi = None, None
        r = a._deepread(st, c.args[1]) if len(c.args) > 1 else ai.TOP
        n = st.mon[self.N]
        if r[0] == "s":
            d = {k: a.val(st, x) for k, x in r[1]}
            lo, hi = d.get("start", ("k", 0)), d.get("end")
            inc = "Inclusive" in str(r[2]) or "exhausted" in d
            if hi is None:
                hi = d.get("last", ai.TOP)
                inc = True
            if lo[0] != "k" or hi[0] != "k":
                lo = hi = None
            else:
                lo, hi = lo[1], hi[1] + (1 if inc else 0)
        self.ctx.count("draws_visited")
        if st.mon[self.DREW] is not None:
            self.bad(a, "redraw", "more than one number is drawn for a record")
        if hi is None:
            self.bad(a, "range", "the range from which a number is drawn is not known")
            return None
        if lo != 0 or hi != n + 1:
            short = lo == 0 and hi == n
            self.bad(a, "short-range" if short else "range", "a number from %d to %d is drawn for the accepted record number %d (numbered from 0), not one from "
                     "0 to %d" % (lo, hi - 1, n, n))
        return [(self.put(st.copy(), DREW=x), ("k", x)) for x in range(lo, max(hi, lo))]

    def stmt(self, a, st, p, v, sp, blk):
        q = st.resolve(p)
        if q[0] == "tag" and q[1][:1] == ("slot",):
            self.store(a, st, self.text(a, st, a.rvalue(st, v, p) if v["r"] != "use" else a.operand(st, v["o"])), q[1][1])

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        if st.mon[0] in ("rec", "err"):
            self.bad(a, "stops-early", "the command ends although the input is not exhausted", node)
        if st.mon[self.CUR] is not None and st.mon[self.OUT] == min(st.mon[self.N], self.size):
            self.finished(a, st)
        if not st.mon[self.DONE] and st.mon[self.N]:
            self.bad(a, "unfinished", "the command ends before the whole sample is written", node)


def one(ctx, item):
    key, size = item
    prog = ctx.prog
    f = prog.fns[key]
    heap = {("f", ("p", "self"), "sample_size"): ("k", size)}
    for n, ty, _ in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]:
        if ty.endswith("cli::FilterOpts"):
            heap[("f", ("f", ("p", "self"), n), "limit")] = ("k", 0)
    rx = re.compile("|".join((loop.RX.pattern, WRITE.pattern, TOBYTES.pattern, DRAW.pattern)))
    own = loop.inliner(prog, rx, ("sample_size", "limit"))
    g = ctx.flat(f, inline=lambda h: (own(h) or "commands::sample::" in h.path) and not TOBYTES.search(h.path), reduce=True)
    m = Mon(ctx, f, g)
    m.size = size
    a = ai.AI(prog, g, m, keep=loop.keep_default, fold=True, init={"heap": heap})
    a.run()
    ctx.count("states", a.nstates)
    ctx.count("analyses")
    ctx.unit("%s SAMPLE_SIZE %d" % (f.path, size))


def run(ctx):
    fs = {cmds.cmdname(f): f for f in cmds.executes(ctx.prog)}
    if "sample" not in fs:
        raise mir.MissingAnchor("command sample")
    names = {x[0] for x in ctx.prog.adts[fs["sample"].j["impl_self"]]["variants"][0]["fields"]}
    if "sample_size" not in names:
        raise mir.MissingAnchor("option sample_size of sample")
    ctx.parallel([(fs["sample"].key, n) for n in (range(1, 4) if ctx.tier == "quick" else range(1, 5))], one)
    ctx.floor("records_settled", 6)
    ctx.floor("stores_visited", 6)
    ctx.floor("draws_visited", 3)
    ctx.floor("writes_visited", 3)
    ctx.floor("ok_exits", 3)
