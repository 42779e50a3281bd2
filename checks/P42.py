import re
import ai, cmds, loop, mir

META = {
    "id": "P42",
    "title": "`invalid` writes exactly the lines that do not parse, unchanged",
    "statement": "For every input, `invalid` writes each line that does not parse as a record exactly once, byte for byte and in "
                 "order, and writes nothing else; it succeeds only after the input is read to its end.",
    "over": ["inputs", "fault_sequences"],
    "for_all": "every sequence of valid and invalid lines and every failing read",
    "why": "A buffer that is not emptied, or a line that is judged and written in different states, shows only for particular "
           "orders of valid and invalid lines.",
    "files": ["crates/pica-cli/src/commands/invalid.rs"],
    "mechanism": [["read, parse and write of a line", "crates/pica-cli/src/commands/invalid.rs"]],
    "technique": "typestate over the line buffer (abstract interpretation of MIR)",
    "rule": "the buffer is empty when a line is read into it, the line is parsed and, iff that fails, written as a whole before "
            "the next read; a successful return follows a read that found the end of input.",
    "assumptions": ["read_until appends one line, with its newline, to the buffer"],
}
BUF = "buf"


class Mon:
    """mon: (buffer: empty|line|eof|other, parsed: None/True/False, written)"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return ("empty", None, 0)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def settle(self, a, st, node=None):
        b, p, w = st.mon
        if b == "line" or b == "done":
            if p is None:
                self.bad(a, "unparsed", "goes on without having parsed a line", node)
            elif p is False and not w:
                self.bad(a, "missing", "a line that does not parse is not written", node)
            elif p is True and w:
                self.bad(a, "valid", "a line that parses is written", node)

    def whole(self, a, st, x):
        return a._deepread(st, a.val(st, x))[:2] == ("o", ("buf",)) and "cut" not in ai.labels(x, st) | ai.labels(a.val(st, x), st)

    def isbuf(self, a, st, x):
        if BUF in ai.labels(x, st) or BUF in ai.labels(a.val(st, x), st):
            return True
        return False

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n in ("read_until", "read_line", "skip_until") and "io::BufRead" in c.path or n == "read_until":
            self.ctx.count("reads")
            b, p, w = st.mon
            if b == "line":
                self.settle(a, st)
                self.bad(a, "buffer", "a line is read into a buffer that still holds the previous one")
            elif b == "done":
                self.settle(a, st)
            x = c.args[-1]
            d = c.args[1] if len(c.args) > 2 else None
            if d is not None and a.val(st, d) != ("k", 10):
                self.bad(a, "delimiter", "lines are not split at the newline")
            if x[0] == "r":
                st.write((x[1], x[2]), ("o", ("buf",), frozenset([BUF])))
            else:
                self.bad(a, "buffer", "the line is not read into a buffer of the command")
            out = []
            for k, v in (("eof", ai.ok(("k", 0))), ("line", None), ("err", ("e", "Err", (("0", ("o", ("ioerr", c.site), ai.EMPTY)),)))):
                s = st.copy()
                tag = ("call", c.site, c.path)
                a.kill(s, tag)
                s.mon = (k, None, 0)
                if k == "line":
                    s.assume_not(tag, [0])
                    v = ai.ok(("o", tag, ai.EMPTY))
                out.append((s, v))
            return out
        if n == "from_bytes" and c.path.startswith("pica_record::") and self.isbuf(a, st, c.args[0]):
            self.ctx.count("parses")
            b, p, w = st.mon
            if not self.whole(a, st, c.args[0]):
                self.bad(a, "part", "only part of the line is parsed")
            if b not in ("line",):
                self.bad(a, "parse-state", "parses a buffer that does not hold the line read last")
            r = []
            for o in (True, False):
                if p is not None and p != o:
                    continue
                s = st.copy()
                s.mon = (b, o, w)
                r.append((s, ("e", "Ok", (("0", ("o", ("rec", c.site), ai.EMPTY)),)) if o else
                          ("e", "Err", (("0", ("o", ("perr", c.site), ai.EMPTY)),))))
            return r
        if n in ("clear",) and c.args and c.args[0][0] == "r" and self.isbuf(a, st, c.args[0]):
            b, p, w = st.mon
            st.write((c.args[0][1], c.args[0][2]), ("o", ("buf",), frozenset([BUF])))
            st.mon = ("done" if b == "line" else b, p, w)
            return [(st, ("s", (), "tuple"))]
        if n in ("write_all", "write", "write_fmt", "write_byte_record", "write_vectored") and len(c.args) > 1:
            self.ctx.count("writes")
            b, p, w = st.mon
            if n != "write_all":
                self.bad(a, "write", "writes with `%s`, not the bytes of the line as a whole" % n)
            elif not self.isbuf(a, st, c.args[1]):
                self.bad(a, "other", "writes something else than the line read")
            elif not self.whole(a, st, c.args[1]):
                self.bad(a, "part", "writes only part of the line")
            elif b != "line":
                self.bad(a, "empty", "writes the buffer after the line was cleared from it")
            elif w:
                self.bad(a, "twice", "writes a line twice")
            elif p is True:
                self.bad(a, "valid", "a line that parses is written")
            s = st.copy()
            s.mon = (b, p, 1)
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ("o", ("ioerr", c.site), ai.EMPTY)),)))]
        # anything else that changes the buffer
        for i, x in enumerate(c.args):
            o = c.t["args"][i]
            if x[0] == "r" and o[0] in "cm" and not o[1][1] and a.g.locals[o[1][0]][0].startswith("&mut alloc::vec::Vec<u8>") \
                    and self.isbuf(a, st, x):
                self.bad(a, "changed", "the line is changed by `%s` before it is dealt with" % c.path)
        return None

    def exit(self, a, st, v, node):
        a.cur = node
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        b, p, w = st.mon
        self.settle(a, st, node)
        if b in ("line", "done"):
            self.bad(a, "early", "succeeds before the end of the input", node)
        if b == "err":
            self.bad(a, "error", "succeeds although a read failed", node)


def run(ctx):
    prog = ctx.prog
    f = next((f for f in cmds.executes(prog) if cmds.cmdname(f) == "invalid"), None)
    if f is None:
        raise mir.MissingAnchor("Invalid::execute")
    own = {h.key for h in prog.fns.values() if h.crate == "pica" and "invalid" in h.path}
    rel = cmds.relevant(prog, ("pica",), re.compile(r"read_until$|::from_bytes$"))
    g = ctx.flat(f, inline=lambda h: h.key in own and h.name != "fmt" or h.key in rel)
    a = ai.AI(prog, g, Mon(ctx, f), keep=lambda t: t[0] in ("call",) and "read_until" in str(t) or t[0] == "ne")
    a.run()
    ctx.unit(f.path)
    ctx.count("states", a.nstates)
    ctx.floor("reads", 1)
    ctx.floor("parses", 1)
    ctx.floor("writes", 1)
    ctx.floor("ok_exits", 1)
