import re

import ai, cmds, mir
import P29

META = {
    "id": "P01",
    "title": "A record that cannot be read is never dropped silently",
    "statement": "In every command that reads records, a record that cannot be read ends the command with an error, unless "
                 "the failure is a parse error and the user asked to skip invalid records (--skip-invalid or the "
                 "skip-invalid configuration); with that request, an unparseable record never makes the command fail. An I/O "
                 "error while reading always ends the command with an error.",
    "over": ["inputs", "fault_sequences", "configurations"],
    "for_all": "every command, every input, every failing read, every option and configuration combination",
    "why": "Tests feed one invalid file to some commands; silent loss must be excluded for each command, each kind of "
           "error and each option combination.",
    "files": ["crates/pica-cli/src/commands", "src/reader.rs"],
    "mechanism": [["if result.skip_parse_err(skip_invalid) { continue }", "each command's record loop"],
                  ["ReadPicaError::skip_parse_err", "src/reader.rs"]],
    "technique": "path-sensitive typestate analysis (abstract interpretation of inlined MIR)",
    "rule": "ESP-style typestate over each command's inlined control-flow graph: after a reader call "
            "yields Some(Err(e)), the only way to read again or to return Ok is a path on which e is the "
            "parse variant and a skip-invalid flag (option or configuration) is known true; "
            "on such a path the command must not fail; the reader itself must turn every failed line read or parse into Some(Err).",
}


def err_tag(nxt):
    return ("f", ("v", ("f", ("v", nxt, "Some"), "0"), "Err"), "0")


class Mon:
    def __init__(self, ctx, f):
        self.ctx = ctx
        self.f = f

    def init(self):
        return ("idle",)

    def roots(self, mon):
        return [mon[1]] if mon[0] == "err" else []

    def skip_flag(self, st):
        """1 if some skip flag is known true, 0 if all known false, None otherwise"""
        vals = {t: v for t, v in st.ass.items() if cmds.tag_ends(t, "skip_invalid")}
        if any(v == 1 for v in vals.values()):
            return 1
        return 0

    def settle(self, a, st, what, node):
        if st.mon[0] != "err":
            return
        e = st.mon[1]
        if st.ass.get(e) == "Parse" and self.skip_flag(st):
            return
        kind = st.ass.get(e)
        self.ctx.violation(
            "%s:swallowed" % cmds.cmdname(self.f),
            "%s: a record read error (%s) reaches %s without being reported%s"
            % (self.f.path, kind or "any kind", what,
               "" if self.skip_flag(st) else "; no skip-invalid flag is set on this path"),
            a.trace(node))

    def call(self, a, st, c):
        if cmds.NEXT.search(c.path):
            self.ctx.count("read_sites_visited")
            self.settle(a, st, "the next read", a.cur)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            out = []
            s0 = st.copy()
            s0.mon = ("eof",)
            out.append((s0, ("e", "None", ())))
            s1 = st.copy()
            s1.mon = ("err", err_tag(tag))
            out.append((s1, ("e", "Some", (("0", ("e", "Err", (("0", ("o", err_tag(tag), ai.EMPTY)),))),))))
            s2 = st.copy()
            s2.mon = ("rec",)
            out.append((s2, ("e", "Some", (("0", ("e", "Ok", (("0", ("o", ("rec", c.site), frozenset(["rec"]))),))),))))
            return out
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Ok":
            self.settle(a, st, "a successful exit", node)
            self.ctx.count("ok_exits")
        elif v[0] == "e" and v[1] == "Err":
            self.ctx.count("err_exits")
            if st.mon[0] == "err" and st.ass.get(st.mon[1]) == "Parse" and self.skip_flag(st):
                self.ctx.violation("%s:skip-not-honoured" % cmds.cmdname(self.f),
                                   "%s: fails on an unparseable record although skip-invalid is set"
                                   % self.f.path, a.trace(node))
        else:
            self.settle(a, st, "an exit whose outcome is not an error", node)


def keep(tag):
    if tag[0] == "ne":
        tag = tag[1]
    if cmds.tag_ends(tag, "skip_invalid"):
        return True
    r = tag
    while isinstance(r, tuple) and r and r[0] in ("f", "v", "d", "not", "isv"):
        r = r[1]
    return isinstance(r, tuple) and r[0] == "call" and bool(cmds.NEXT.search(r[2]))


def run(ctx):
    prog = ctx.prog
    ctx.parallel([f.key for f in cmds.executes(prog)
                  if any(cmds.NEXT.search(mir.callee_paths(t)[0]) for g in prog.reachable([f])
                         if g.crate == "pica" for t in mir.calls(g))], one)
    ctx.floor("commands", 13)
    # the reader is where a failed line could vanish before any command sees it
    P29.run(ctx)


def one(ctx, key):
    prog = ctx.prog
    f = prog.fns[key]
    rel = cmds.relevant(prog, ("pica",), re.compile(r"::next_(byte|string)_record$|::skip_parse_err$"),
                        ("skip_invalid",))
    rel |= {h.key for h in prog.fns.values() if h.name == "skip_parse_err"}
    g = ctx.flat(f, inline=lambda h: h.key in rel)
    m = Mon(ctx, f)
    a = ai.AI(prog, g, m, keep=keep)
    a.run()
    ctx.count("commands")
    ctx.count("states", a.nstates)
    ctx.unit("%s (%d blocks, %d states)" % (f.path, len(g.blocks), a.nstates))
