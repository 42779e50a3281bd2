import re
import ai, cmds, loop, mir
import P04

META = {
    "id": "P35",
    "title": "slice and split put each accepted record where its position says",
    "statement": "slice writes exactly the accepted records at the positions from --start up to, not including, --end (or "
                 "--start plus --length), numbered from 0 over the accepted records; with --length it never writes more than "
                 "that. split fills every chunk but the last with exactly CHUNK_SIZE accepted records, in order, and numbers "
                 "the chunk files from 0.",
    "over": ["inputs", "configurations"],
    "for_all": "every sequence of accepted, rejected and skipped invalid records, every range and chunk size",
    "why": "Off-by-one errors show only for particular mixtures of rejected, invalid and accepted records around the borders "
           "of the range or chunk; tests use one file without invalid records.",
    "files": ["crates/pica-cli/src/commands/slice.rs", "crates/pica-cli/src/commands/split.rs"],
    "mechanism": [["range and position counter", "crates/pica-cli/src/commands/slice.rs"],
                  ["chunk rollover", "crates/pica-cli/src/commands/split.rs"]],
    "technique": "path-sensitive typestate analysis with constant propagation (abstract interpretation of inlined MIR)",
    "rule": "with start, end, length and chunk size bound to small constants (0..3; thorough 0..4) and any outcome of reading "
            "and filtering: slice reaches a write for an accepted record iff its ordinal lies in the range and stops only "
            "when no later ordinal does; split replaces its writer exactly after CHUNK_SIZE writes, under the next number.",
    "level_note": "constants up to 4 and the records up to two past the last border are covered; larger values share the code",
}


class Mon(loop.LoopMon):
    # ordinal of the current accepted record (None: not yet accepted), accepted so far, written, chunk fill, chunk number
    extra0 = (0, False, 0, -1)
    lo = hi = 0
    size = 0
    bound = 0

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def reset(self, extra):
        return (extra[0], False) + extra[2:]

    def settle(self, a, st, node=None):
        n, written = st.mon[4:6]
        if st.mon[0] != "rec":
            return
        acc = all(self.accepted(st))
        if written and not acc:
            self.bad(a, "rejected", "writes a record that was not accepted", node)
        if acc and self.cmd == "slice":
            want = n >= self.lo and (self.hi is None or n < self.hi)
            if want and not written:
                self.bad(a, "missing", "with %s the accepted record number %d is not written" % (self.opts, n), node)
            if written and not want:
                self.bad(a, "outside", "with %s the accepted record number %d is written" % (self.opts, n), node)
        if acc:
            st.mon = st.mon[:4] + (n + 1, False) + st.mon[6:]

    def call(self, a, st, c):
        if cmds.NEXT.search(c.path):
            self.settle(a, st)
            if st.mon[4] > self.bound:
                return []
        return loop.LoopMon.call(self, a, st, c)

    def on_call(self, a, st, c):
        if P04.WRITE.search(c.path):
            self.ctx.count("writes_visited")
            s = st.copy()
            n, w, fill, num = st.mon[4:]
            if self.cmd == "split":
                if fill >= self.size:
                    self.bad(a, "overfull", "with a chunk size of %d a further record is written to a full chunk" % self.size)
                fill = min(fill + 1, 9)
            s.mon = s.mon[:4] + (n, True, fill, num)
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if P04.CREATE.search(c.path) and self.cmd == "split":
            self.ctx.count("chunks_visited")
            n, w, fill, num = st.mon[4:]
            if num >= 0 and fill != self.size:
                self.bad(a, "short", "with a chunk size of %d a new chunk is begun after %d records" % (self.size, fill))
            ls = set()
            for x in c.args:
                ls |= {l for l in ai.labels(x, st) | ai.labels(a.val(st, x), st) if l.startswith("num:")}
            if ls != {"num:%d" % (num + 1)}:
                self.bad(a, "name", "chunk number %d gets a file name made with %s" % (num + 1, sorted(l[4:] for l in ls) or "no number"))
            s = st.copy()
            s.mon = s.mon[:4] + (n, w, 0, num + 1)
            v = ai.mk(("call", c.site, c.path))
            a.kill(s, v[1])
            return [(s, ai.ok(v)), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        name = c.path.rsplit("::", 1)[-1]
        if name in ("to_string", "new_display", "new_debug") and c.args:
            v = a.val(st, c.args[0])
            if v[0] == "k" and isinstance(v[1], int):
                return [(st, ("o", ("num", v[1]), frozenset(["num:%d" % v[1]])))]
            return None
        if len(c.args) == 1 and c.path.startswith("core::ops::range::Range") and name == "is_empty":
            d = dict(a.val(st, c.args[0])[1]) if a.val(st, c.args[0])[0] == "s" else {}
            lo, hi = [a.val(st, d[n]) if n in d else ai.TOP for n in ("start", "end")]
            if lo[0] == "k" and hi[0] == "k":
                return [(st, ("k", int(lo[1] >= hi[1])))]
        if len(c.args) == 2 and c.path.startswith("core::"):
            x, y = a.val(st, c.args[0]), a.val(st, c.args[1])
            if c.path.startswith("core::ops::range::Range") and name == "contains" and x[0] == "s":
                d = {n: a.val(st, v) for n, v in x[1]}
                lo, hi = d.get("start", ("k", 0)), d.get("end")
                if y[0] == "k" and lo[0] == "k" and (hi is None or hi[0] == "k"):
                    top = hi is not None and (y[1] > hi[1] if "RangeInclusive" in c.path else y[1] >= hi[1])
                    return [(st, ("k", int(y[1] >= lo[1] and not top)))]
            if x[0] == "k" and y[0] == "k" and isinstance(x[1], int) and isinstance(y[1], int):
                f = ARITH.get(name)
                if f:
                    return [(st, f(x[1], y[1]))]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        early = st.mon[0] in ("rec", "err")
        self.settle(a, st, node)
        n = st.mon[4]
        if early and (self.cmd == "split" or self.hi is None or n < self.hi):
            self.bad(a, "stops-early", "with %s the command ends after %d accepted records although the input is not "
                     "exhausted" % (self.opts, n), node)


def some(x):
    return ("e", "Some", (("0", ("k", x)),))


ARITH = {"saturating_add": lambda a, b: ("k", min(a + b, 2 ** 64 - 1)), "wrapping_add": lambda a, b: ("k", (a + b) % 2 ** 64),
         "checked_add": lambda a, b: some(a + b), "saturating_sub": lambda a, b: ("k", max(a - b, 0)),
         "is_multiple_of": lambda a, b: ("k", int(a % b == 0 if b else a == 0)),
         "rem": lambda a, b: ("k", a % b) if b else None, "div": lambda a, b: ("k", a // b) if b else None,
         "add": lambda a, b: ("k", a + b), "min": lambda a, b: ("k", min(a, b)), "max": lambda a, b: ("k", max(a, b)),
         "div_ceil": lambda a, b: ("k", -(-a // b)) if b else None}


def one(ctx, item):
    key, opts = item
    prog = ctx.prog
    f = prog.fns[key]
    names = {x[0] for x in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]}
    heap = {}
    for n, x in opts:
        if n not in names:
            raise mir.MissingAnchor("option %s of %s" % (n, f.path))
        heap[("f", ("p", "self"), n)] = ("k", x)
    for n, ty, _ in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]:
        if ty.endswith("cli::FilterOpts"):
            heap[("f", ("f", ("p", "self"), n), "limit")] = ("k", 0)
    rx = re.compile("|".join((loop.RX.pattern, P04.WRITE.pattern, P04.CREATE.pattern)))
    g = ctx.flat(f, inline=loop.inliner(prog, rx, tuple(n for n, _ in opts) + ("limit",)))
    m = Mon(ctx, f, g)
    o = dict(opts)
    m.opts = ", ".join("--%s %d" % x for x in opts if x[1]) or "no options"
    if m.cmd == "slice":
        m.lo = o["start"]
        m.hi = o["end"] or (o["start"] + o["length"] if o["length"] else None)
        m.bound = max(m.lo, m.hi or 0) + 1
    else:
        m.size = o["chunk_size"]
        m.bound = 2 * m.size + 1
    a = ai.AI(prog, g, m, keep=loop.keep_default, fold=True, init={"heap": heap})
    a.run()
    ctx.count("states", a.nstates)
    ctx.count("analyses")
    ctx.unit("%s %s" % (f.path, m.opts))


def run(ctx):
    fs = {cmds.cmdname(f): f for f in cmds.executes(ctx.prog)}
    for n in ("slice", "split"):
        if n not in fs:
            raise mir.MissingAnchor("command " + n)
    R = range(4) if ctx.tier == "quick" else range(5)
    items = [(fs["slice"].key, (("start", s), ("end", e), ("length", n)))
             for s in R[:-1] for e in R for n in R if not (e and n) and (not e or e <= R[-1])]
    items += [(fs["split"].key, (("chunk_size", n),)) for n in R[1:]]
    ctx.parallel(items, one)
    ctx.floor("analyses", 20)
    ctx.floor("writes_visited", 20)
    ctx.floor("chunks_visited", 8)
