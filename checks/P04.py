import re
import ai, cmds, loop, mir
import P05

META = {
    "id": "P04",
    "title": "Records that are passed through are written byte for byte, to every output",
    "statement": "A record that concat, filter, sample, slice, split or partition passes on unchanged is written with exactly "
                 "the bytes it was read with, as a whole and (partition aside) once per output; only --keep and --discard may "
                 "change it. Where a tee file was given, it receives exactly the records the main output receives.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, every pass-through command and every combination of outputs",
    "why": "Byte equality must survive any content (invalid UTF-8, odd field orders, empty values) along each of the write "
           "paths; tests compare a few well-formed files.",
    "files": ["src/record.rs", "src/writer.rs", "crates/pica-cli/src/commands"],
    "mechanism": [["ByteRecord::write_to prefers the bytes as read", "src/record.rs"],
                  ["write_byte_record implementations", "src/writer.rs"],
                  ["writer.write_byte_record(record)", "each pass-through command"]],
    "technique": "path-sensitive value-flow and typestate analysis (abstract interpretation of inlined MIR)",
    "rule": "library: on every success path the kept bytes are exactly the argument of from_bytes, writing hands exactly "
            "them to write_all once, and each record writer calls this once with its argument and its own stream. Commands: "
            "the argument of every write is the record just read (or one re-read from bytes it was completely written to), "
            "no operation but keep/discard had mutable access to it, it is written at most once per output, main and tee "
            "output together; filter and split write every accepted record, concat every record unless --unique is given.",
}
WRITE = re.compile(r"::write_byte_record$")
CREATE = re.compile(r"writer::WriterBuilder::from_path(_or_stdout)?$")
TOBYTES = re.compile(r"record::ByteRecord(::)?<'_?\w*>::write_to$|record::ByteRecord::write_to$")
FRESH = re.compile(r"alloc::(vec|collections::vec_deque)::\w+::<T>::(new|with_capacity)$")
FILL = re.compile(r"::(push|push_back|push_front|insert|extend|extend_from_slice|append|resize|resize_with)$")
FROMB = re.compile(r"record::ByteRecord.*::from_bytes$")
CHANGE = re.compile(r"record::ByteRecord.*::(keep|discard)$")
GATED = ("filter", "split")
EVERY = ("concat",)
PASS = ("concat", "filter", "sample", "slice", "split", "partition")


class Mon(loop.LoopMon):
    extra0 = (False, frozenset())     # (tee exists, outputs written)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def reset(self, extra):
        return (extra[0], frozenset())

    def on_regate(self, st):
        pass

    def isrec(self, v):
        return v[0] == "o" and v[1][0] == "rec"

    def on_call(self, a, st, c):
        if CREATE.search(c.path):
            tee = any(cmds.tag_has(x, "tee") for x in [a.val(st, y)[1] for y in c.args if a.val(st, y)[0] == "o"])
            self.ctx.count("outputs_visited")
            s = st.copy()
            if tee:
                s.mon = s.mon[:4] + (True, s.mon[5])
            v = ai.mk(("call", c.site, c.path), frozenset(["w:tee" if tee else "w:main"]))
            a.kill(s, v[1])
            return [(s, ("e", "Ok", (("0", v),))), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if WRITE.search(c.path):
            return self.write(a, st, c)
        if TOBYTES.search(c.path):
            v = a.val(st, c.args[0])
            if not self.isrec(v) or c.args[1][0] != "r":
                return None
            buf = a.val(st, c.args[1])
            if buf[0] != "o" or buf[1][0] not in ("call", "empty") or not re.search(r"::(new|with_capacity|default)$|^$", str(buf[1][-1])):
                self.bad(a, "buffer", "the record is added to a buffer that may hold other bytes")
            self.ctx.count("copies_visited")
            s = st.copy()
            s.write((c.args[1][1], c.args[1][2]), ("o", ("bytes", c.site), frozenset(["bytes"])))
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if c.path.endswith("Vec::<T, A>::clear") and c.args[0][0] == "r":
            s = st.copy()
            s.write((c.args[0][1], c.args[0][2]), ("o", ("empty", c.site, ""), ai.EMPTY))
            return [(s, ("s", (), "tuple"))]
        if FRESH.search(c.path):
            v = a.fresh(st, c, frozenset(["fresh"]))
            return [(st, v)]
        if FROMB.search(c.path):
            v = a.val(st, c.args[0])
            ls = ai.labels(v, st)
            if "fresh" in ls and not ls & {"filled", "bytes"}:
                return []       # an item of a collection nothing was put into
            if "bytes" in ls:
                good = "cut" not in ls and "changed" not in ls
                return [(st.copy(), ai.ok(("o", ("rec", c.site, "again"), frozenset(["rec"] + ([] if good else ["cut"]))))),
                        (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
            return None
        # mutable access to the record or to its bytes
        for o, x in zip(c.t["args"], c.args):
            ty = self.ty(a, o)
            v = a.val(st, x)
            if self.isrec(v) and re.search(r"&mut [\w:]*(Byte|String)?Record", ty) and ai.MODELS.get(c.path) is None \
                    and not CHANGE.search(c.path):
                self.bad(a, "changed", "%s changes the record before it is written" % c.path.rsplit("::", 1)[-1])
            if self.isrec(v) and CHANGE.search(c.path) and v is a.val(st, c.args[0]) and st.mon[5]:
                self.bad(a, "late", "the record is changed after it was written to one of the outputs")
            if v[0] == "o" and "fresh" in v[2] and "filled" not in v[2] and x[0] == "r" and ty.startswith("&mut") \
                    and FILL.search(c.path):
                st.write((x[1], x[2]), ("o", v[1], v[2] | {"filled"}))
            if v[0] == "o" and "bytes" in v[2] and re.match(r"&mut (\[u8\]|alloc::vec::Vec<u8>)", ty) \
                    and ai.MODELS.get(c.path) is None:
                self.bad(a, "changed", "%s changes the bytes of the record before they are written"
                         % c.path.rsplit("::", 1)[-1])
        return None

    def ty(self, a, o):
        if o[0] not in "cm":
            return ""
        p = o[1]
        return a.g.locals[p[0]][0] if not p[1] else ""

    def write(self, a, st, c):
        self.ctx.count("writes_visited")
        w = {l for l in ai.labels(c.args[0], st) | ai.labels(a.val(st, c.args[0]), st) if l.startswith("w:")}
        v = a.val(st, c.args[1])
        if len(w) != 1:
            self.bad(a, "output", "a record is written to an output of unknown origin")
        if not self.isrec(v):
            self.bad(a, "other", "what is written is not the record that was read")
        elif "cut" in v[2] and v[1][-1] == "again":
            self.bad(a, "other", "what is written is only part of the records kept, or of their bytes")
        s = st.copy()
        if st.mon[0] == "rec" and self.cmd != "partition" and v[1][-1] != "again":
            if w & st.mon[5]:
                self.bad(a, "twice", "the record is written to the same output twice")
            s.mon = s.mon[:5] + (s.mon[5] | w,)
        return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]

    def settle(self, a, st, node=None):
        """the command is through with the current record"""
        if st.mon[0] != "rec":
            return
        tee, done = st.mon[4:]
        if tee and done and len(done) != 2:
            self.bad(a, "tee", "the record is written to the %s output only" % ("main" if "w:main" in done else "tee"), node)
        if done or self.cmd not in GATED + EVERY:
            return
        if self.cmd in GATED and not all(self.accepted(st)):
            return
        if self.cmd in EVERY and any(v == 1 for t, v in st.ass.items() if cmds.tag_ends(t, "unique")):
            return
        self.bad(a, "lost", "the command goes on although the record was not written", node)

    def on_read(self, a, st):
        self.settle(a, st)

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        self.settle(a, st, node)


def keep(tag):
    t = tag[1] if tag[0] == "ne" else tag
    return loop.keep_default(tag) or cmds.tag_ends(t, "unique")


def one(ctx, key):
    prog = ctx.prog
    f = prog.fns[key]
    rx = re.compile("|".join((loop.RX.pattern, WRITE.pattern, CREATE.pattern, TOBYTES.pattern)))
    g = ctx.flat(f, inline=loop.inliner(prog, rx, ("unique", "tee")))
    m = Mon(ctx, f, g)
    a = ai.AI(prog, g, m, keep=keep)
    a.run()
    ctx.count("states", a.nstates)
    ctx.count("commands")
    ctx.unit(f.path)


def run(ctx):
    prog = ctx.prog
    fs = {cmds.cmdname(f): f for f in cmds.executes(prog)}
    for n in PASS:
        if n not in fs:
            raise mir.MissingAnchor("command " + n)
    library(ctx)
    ctx.parallel([fs[n].key for n in PASS], one)
    ctx.floor("commands", 6)
    ctx.floor("writes_visited", 9)
    ctx.floor("copies_visited", 1)
    ctx.floor("outputs_visited", 9)


# ---- library
class Out:
    """mon: tuple of what was handed to the output, in order (at most 3)"""

    def __init__(self, ctx, f, want, is_out, says):
        self.ctx, self.f, self.want, self.is_out, self.says = ctx, f, want, is_out, says

    def init(self):
        return ()

    def call(self, a, st, c):
        vs = [a.val(st, x) for x in c.args]
        if ai.MODELS.get(c.path) is None and any(self.is_out(v) for v in vs):
            ev = (c.path.rsplit("::", 1)[-1],) + tuple(v[1] for v in vs if not self.is_out(v) and v[0] in "os")
            s = st.copy()
            s.mon = (s.mon + (ev,))[:3]
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("library_exits")
        if st.mon != self.want:
            self.ctx.violation(self.f.path + ":writes", "%s %s; on one path it performs %s" % (self.f.path, self.says,
                               ", ".join(e[0] for e in st.mon) or "nothing"), a.trace(node))


def library(ctx):
    prog = ctx.prog
    wt = [f for f in prog.fns.values() if f.crate == "pica_record" and f.name == "write_to"
          and f.j.get("impl_self", "").startswith("pica_record::record::ByteRecord")]
    fb = [f for f in prog.fns.values() if f.crate == "pica_record" and f.name == "from_bytes"
          and f.j.get("impl_self", "").startswith("pica_record::record::ByteRecord")]
    if len(wt) != 1 or len(fb) != 1:
        raise mir.MissingAnchor("ByteRecord::write_to / from_bytes")
    rawf, recf = P05.names(prog)
    out = ("o", ("out",), frozenset(["out"]))
    for raw in (True, False):
        f = wt[0]
        if f.body["argc"] != 2:
            raise mir.MissingAnchor("ByteRecord::write_to(record, output)")
        want = (("write_all", ("raw",)),) if raw else (("write_to", ("rec",)),)
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not h.path.startswith("pica_record::primitives"))
        a = ai.AI(prog, g, Out(ctx, f, want, lambda v: v[1] == ("out",), "must hand the kept bytes, if there are any, "
                               "to write_all once and otherwise write the fields"), init={1: P05.value(prog, raw), 2: out})
        a.run()
        ctx.unit("%s raw=%s" % (f.path, raw))
    # the kept bytes are the argument
    f = fb[0]
    g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not h.path.startswith("pica_record::primitives"))

    class FB:
        def init(self):
            return None

        def call(self, a, st, c):
            return None

        def exit(self, a, st, v, node):
            v = a.val(st, v)
            if v[0] == "e" and v[1] == "Err":
                return
            ctx.count("library_exits")
            r = a.val(st, v[2][0][1]) if v[0] == "e" else v
            raw = a.val(st, dict(r[1]).get(rawf, ai.TOP)) if r[0] == "s" else ai.TOP
            x = a.val(st, raw[2][0][1]) if raw[0] == "e" and raw[1] == "Some" else None
            if x is None or x[1] != ("in",):
                ctx.violation(f.path + ":kept", "%s does not keep exactly the bytes it is given" % f.path, a.trace(node))
    a = ai.AI(prog, g, FB(), init={1: ("o", ("in",), ai.EMPTY)})
    a.run()
    ctx.unit(f.path)
    # writers of records
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.crate != "pica_record" or f.name != "write_byte_record" or not f.body \
                or not f.j.get("impl_trait", "").endswith("ByteRecordWrite"):
            continue
        n += 1
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and h.key != wt[0].key
                     and not h.path.startswith("pica_record::primitives"))
        CELL = P05.CELL
        me = ("o", ("me",), frozenset(["me"]))
        a = ai.AI(prog, g, Out(ctx, f, (("write_to", ("rec",)),), lambda v: v[0] == "o" and "me" in v[2],
                               "must write its argument, as a whole and once"),
                  init={1: me, 2: ("o", ("rec",), frozenset(["rec"]))})
        a.run()
        ctx.unit(f.path)
    ctx.count("record_writers", n)
    ctx.floor("record_writers", 2)
    ctx.floor("library_exits", 4)
