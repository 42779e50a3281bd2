import re
import ai, cmds, loop, mir
from emit import *
from P17 import SUB, OCC

META = {
    "id": "P19",
    "title": "Converted and printed records carry every field and subfield",
    "statement": "For every record, `convert` to binary, import or plain form and `print` write, in order and exactly once "
                 "each, every field's tag, a slash and its occurrence if and only if it has one, and every subfield's code "
                 "and value, with the separators of the format. Plain form doubles each dollar sign of a value and changes "
                 "nothing else; print passes values only through the requested transliteration; binary and import form keep "
                 "them as they are.",
    "over": ["inputs"],
    "for_all": "every record",
    "why": "Tests convert a few files; a dropped occurrence, value or separator in rarer records goes unseen.",
    "files": ["crates/pica-cli/src/commands/convert", "crates/pica-cli/src/commands/print.rs"],
    "mechanism": [["write_byte_record of the binary, import and plain writers", "crates/pica-cli/src/commands/convert"],
                  ["Print::execute", "crates/pica-cli/src/commands/print.rs"]],
    "technique": "token-stream typestate: abstract interpretation of MIR against a regular grammar per format",
    "rule": "the literal bytes and record parts handed to the output for one record form, on every path without an error, a "
            "word of the format's grammar; in print the stream of a record is empty or complete when the next record is "
            "read or the loop is left.",
}
HEAD = seq(part("tag"), OCC)


def record(pre, fpre, head, sub, fpost, post):
    f = seq(ev("F+"), lit(fpre), HEAD, lit(head), star(seq(ev("S+"), sub)), ev("S-"), lit(fpost))
    return seq(lit(pre), star(f), ev("F-"), lit(post))


FORMATS = {
    "binary": record("", "", " ", SUB, "\x1e", "\x1d"),
    "import": record("'\x1d\n", "\x1e", " ", SUB, "\n", ""),
    "plain": record("", "", " ", seq(lit("$"), part("code"), part("value", "$→$$")), "\n", ""),
}
PRINT = record("", "", "", seq(lit(" $"), part("code"), lit(" "), part("value", "translit")), "\n", "\n")


class Print(Emit):
    """tokens between two reads; mon[3]: is a record at hand"""

    def fresh_record(self, a, st, node=None):
        if not st.mon[1] and st.mon[0]:
            if not self.nfa.accepts(st.mon[0], self.ok(st)):
                self.bad(a, "stops", "a record ends where the format has %s" % " or ".join(
                    show(x) for x in self.nfa.expected(st.mon[0], self.ok(st))[:6]), node)
        st.mon = self.init()

    def other(self, a, st, c, n, v):
        if cmds.NEXT.search(c.path):
            self.fresh_record(a, st)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            err = ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),))
            rec = ("e", "Ok", (("0", ("o", ("rec", c.site), frozenset(["rec"]))),))
            return [(st.copy(), ("e", "None", ())), (st.copy(), ("e", "Some", (("0", err),))),
                    (st, ("e", "Some", (("0", rec),)))]
        if loop.CHECK.search(c.path) or loop.MATCH.search(c.path):
            return [(st.copy(), ("k", 0)), (st, ("k", 1))]
        if re.search(r"ops::function::Fn(Mut|Once)?::call(_mut|_once)?$", c.path) and len(v) == 2 and v[1][0] == "s" \
                and len(v[1][1]) == 1:
            f = v[0]
            arg = a.val(st, v[1][1][0][1])
            if f[0] == "o" and f[1][0] == "call" and f[1][2].endswith("::translit"):
                return [(st, self.op1("translit", arg))]
            return [(st, self.op1("?", arg))]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] in ("Err", "Break"):
            return
        self.ctx.count("exits_compared")
        self.fresh_record(a, st, node)


def run(ctx):
    prog = ctx.prog
    disp = Display(prog)
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.name != "write_byte_record" or not f.body or f.crate != "pica" or "convert" not in f.path:
            continue
        m = re.search(r"convert::(\w+)::", f.path)
        if not m or m.group(1) not in FORMATS:
            continue
        seen.add(m.group(1))
        g = ctx.flat(f, inline=lambda h: h.crate in ("pica_record", "pica") and h.name != "fmt")
        import P05
        ra, rb = P05.names(prog)
        # the parts decide: the raw bytes are not looked at
        v = ("s", ((ra, ("o", ("raw",), ai.EMPTY)), (rb, ("o", ("rec",), frozenset(["rec"])))), P05.TY)
        a = ai.AI(prog, g, Emit(ctx, f, g, Nfa(FORMATS[m.group(1)]), disp), init={1: ("o", ("p", "self"), ai.EMPTY), 2: v})
        a.run()
        ctx.unit(f.path)
        ctx.count("states", a.nstates)
        ctx.count("formats")
    if seen != set(FORMATS):
        raise mir.MissingAnchor("writers of %s" % sorted(set(FORMATS) - seen))
    f = next((f for f in cmds.executes(prog) if cmds.cmdname(f) == "print"), None)
    if f is None:
        raise mir.MissingAnchor("Print::execute")
    own = loop.inliner(prog, re.compile(r"primitives::|io::write::Write::|" + loop.RX.pattern))
    g = ctx.flat(f, inline=lambda h: own(h) or h.crate == "pica_record" and re.search(
        r"primitives|^pica_record::record::|pica_record::record::\w+Record", h.path) and h.name not in ("fmt",)
        and not re.search(r"matcher|parse|is_match", h.path) and not cmds.NEXT.search(h.path) and h.name != "from_bytes")
    m = Print(ctx, f, g, Nfa(PRINT), disp)
    a = ai.AI(prog, g, m, keep=lambda t: ai_keep(t))
    a.run()
    ctx.unit(f.path)
    ctx.count("states", a.nstates)
    ctx.count("formats")
    ctx.floor("formats", 4)
    ctx.floor("items_visited", 8)
    ctx.floor("tokens_visited", 100)
    ctx.floor("exits_compared", 4)


def ai_keep(t):
    return cmds.tag_has(t, "occurrence")
