import ai, cmds, mir

META = {
    "id": "P29",
    "title": "The reader yields exactly one item per input line, with its line number",
    "statement": "Every call for the next record consumes exactly one line of the input: it yields end-of-input only if no "
                 "bytes were left, the record if the line decodes, and an error otherwise (an I/O error is never classed as "
                 "a parse error, and only a parse error is skippable); no line is skipped, merged with or parsed after stale "
                 "bytes of another. Error messages for undecodable lines name that line's one-based number.",
    "over": ["inputs", "fault_sequences"],
    "for_all": "every byte stream, every I/O error, every sequence of calls on either record flavour",
    "why": "Tests read a few small well-formed files and one or two bad lines; the claim is about every stream and every "
           "failing read.",
    "files": ["src/reader.rs"],
    "mechanism": [["next_byte_record / next_string_record", "src/reader.rs"], ["ReadPicaError::skip_parse_err", "src/reader.rs"]],
    "technique": "path-sensitive abstract interpretation of the reader's MIR",
    "rule": "on every path through next_byte_record and next_string_record: exactly one read_until(newline) into a buffer "
            "cleared before; Err -> Some(Err(not Parse)); Ok(0) -> None; otherwise the buffer is parsed once and Ok -> "
            "Some(Ok), Err -> Some(Err); the line counter grows by one and the number shown is the counter after the read; "
            "skip_parse_err is true exactly for parse errors under the flag.",
    "assumptions": ["std::io::BufRead::read_until reads up to and including one delimiter"],
}
READ = "::read_until"
PARSE = ("::from_bytes",)


class Mon:
    def __init__(self, ctx, f, string):
        self.ctx, self.f, self.string = ctx, f, string
        self.key = "string" if string else "byte"

    # (cleared, reads, outcome, parse, utf8, shown)
    def init(self):
        return (False, 0, None, None, None, frozenset())

    def bad(self, a, what, msg, node=None):
        self.ctx.violation("%s:%s" % (self.key, what), "%s: %s" % (self.f.path, msg), a.trace(node or a.cur))

    def call(self, a, st, c):
        cl, n, out, pr, u8, sh = st.mon
        nm = c.path.rsplit("::", 1)[-1]
        if nm == "clear" and "Vec" in c.path:
            st.mon = (True,) + st.mon[1:]
            return None
        if c.path.endswith(READ):
            self.ctx.count("reads_visited")
            if not cl:
                self.bad(a, "stale", "reads a line into a buffer that still holds earlier bytes")
            if a.val(st, c.args[1]) != ("k", 10):
                self.bad(a, "delimiter", "does not read up to a newline")
            if n:
                self.bad(a, "skips", "reads a second line in one call")
                return []
            res = []
            a.havoc_muts(st, c)
            for o in ("err", "eof", "line"):
                s = st.copy()
                s.mon = (False, 1, o, pr, u8, sh)
                if o == "err":
                    v = ("e", "Err", (("0", ("o", ("ioerr",), ai.EMPTY)),))
                elif o == "eof":
                    v = ("e", "Ok", (("0", ("k", 0)),))
                else:
                    t = ("call", c.site, "n")
                    s.assume_not(t, (0,))
                    v = ("e", "Ok", (("0", ("o", t, ai.EMPTY)),))
                res.append((s, v))
            return res
        if nm == "from_bytes" and "ByteRecord" in c.path:
            if pr is not None:
                self.bad(a, "reparse", "parses twice in one call")
            res = []
            for o in ("ok", "err"):
                s = st.copy()
                s.mon = (cl, n, out, o, u8, sh)
                res.append((s, ("e", "Ok" if o == "ok" else "Err",
                                (("0", ("o", ("rec",) if o == "ok" else ("perr",), frozenset([o]))),))))
            return res
        if "StringRecord" in (c.rpath + c.self_ty) and nm in ("try_from", "try_into", "from_byte_record"):
            res = []
            for o in ("ok", "err"):
                s = st.copy()
                s.mon = (cl, n, out, pr, o, sh)
                res.append((s, ("e", "Ok" if o == "ok" else "Err",
                                (("0", ("o", ("srec",) if o == "ok" else ("uerr",), frozenset([o]))),))))
            return res
        if "fmt::rt::Argument" in c.path:
            v = a.val(st, c.args[0])
            if v[0] == "o" and v[1][0] == "op":
                st.mon = (cl, n, out, pr, u8, sh | {v[1]})
            return None
        return None

    def exit(self, a, st, v, node):
        self.ctx.count("exits")
        cl, n, out, pr, u8, sh = st.mon
        v = a.val(st, v)
        if n != 1:
            self.bad(a, "no-read", "returns without having read a line", node)
            return
        inner = a.val(st, ai.getf(v[2], "0")) if v[0] == "e" and v[1] == "Some" else None
        want_line = ("op", "Add", ("f", ("p", "self"), "line"), ("k", 1))
        plus = {t for t, x in st.heap.items() if x[0] == "o" and x[1] == ("op", "Add", t, ("k", 1)) and t[0] == "f"}
        if out == "eof":
            if not (v[0] == "e" and v[1] == "None"):
                self.bad(a, "eof", "does not signal the end of the input when no bytes are left", node)
            return
        if v[0] == "e" and v[1] == "None":
            self.bad(a, "drops", "signals the end of the input after reading %s"
                     % ("an I/O error" if out == "err" else "a line"), node)
            return
        if inner is None or inner[0] != "e":
            self.bad(a, "opaque", "item returned cannot be determined", node)
            return
        if len(plus) != 1:
            self.bad(a, "count", "the line counter does not grow by exactly one per line", node)
        fail = out == "err" or pr == "err" or u8 == "err"
        if fail != (inner[1] == "Err"):
            self.bad(a, "masks", "returns %s although the line %s" % (inner[1], "failed" if fail else "was decoded"), node)
            return
        if not fail and self.string and u8 is None:
            self.bad(a, "unchecked", "yields a string record that was not checked for valid UTF-8", node)
        if fail:
            e = a.val(st, ai.getf(inner[2], "0"))
            if out == "err" and e[0] == "e" and e[1] == "Parse":
                self.bad(a, "class", "an I/O error is classed as a parse error", node)
            if pr == "err" and not (e[0] == "e" and e[1] == "Parse"):
                self.bad(a, "class", "an undecodable line is not reported as a parse error", node)
            if out == "line":
                want = {("op", "Add", t, ("k", 1)) for t in plus}
                if not (sh & want):
                    self.bad(a, "number", "the error for an undecodable line does not name its line number", node)


def run(ctx):
    prog = ctx.prog
    for name, string in (("next_byte_record", False), ("next_string_record", True)):
        fs = prog.methods(r"reader::Reader<", name)
        if len(fs) != 1:
            raise mir.MissingAnchor("Reader::" + name)
        f = fs[0]
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not (h.name in ("from_bytes", "try_from")))
        m = Mon(ctx, f, string)
        a = ai.AI(prog, g, m)
        a.run()
        ctx.unit(f.path)
        ctx.count("states", a.nstates)
    skip(ctx)
    ctx.floor("reads_visited", 2)
    ctx.floor("exits", 6)


def skip(ctx):
    prog = ctx.prog
    f = prog.method(r"pica_record::reader::ReadPicaError", "skip_parse_err")
    g = ctx.flat(f, inline=lambda h: h.crate == "pica_record")
    vs = [v["name"] for v in prog.adt("pica_record::reader::ReadPicaError")["variants"]]
    flag = g.locals[g.args[1]][1]
    for v in vs:
        for b in (0, 1):
            a = ai.AI(prog, g, None, init={flag: ("k", b), g.locals[g.args[0]][1]: ("e", v, ())})
            a.run()
            for st, r, node in a.exits:
                r = a.val(st, r)
                ctx.count("skip_cases")
                if r != ("k", int(b and v == "Parse")):
                    ctx.violation("skip:%s" % v, "%s: %s with skip_invalid=%s gives %s" % (f.path, v, bool(b), r[1:2]))
    ctx.unit(f.path)
    ctx.floor("skip_cases", 6)
