import ai, cmds, loop, mir

META = {
    "id": "P07",
    "title": "--limit N yields exactly the first N accepted records",
    "statement": "In every command with a --limit option, no more than N accepted records take effect when the limit is "
                 "N > 0, and the command does not stop before it has accepted N records or reached the end of the input; "
                 "a limit of 0 means no limit.",
    "over": ["inputs", "configurations"],
    "for_all": "every input, every position of accepted records, every combination with other options",
    "why": "Tests use one limit on one file per command; off-by-one and option interplay depend on the sequence of accepted "
           "and rejected records.",
    "files": ["crates/pica-cli/src/commands", "crates/pica-cli/src/cli.rs"],
    "mechanism": [["if limit > 0 && count >= limit { break }", "each command's record loop"]],
    "technique": "path-sensitive typestate analysis with constant propagation (abstract interpretation of inlined MIR)",
    "rule": "constant propagation plus typestate over each command's record loop, with the limit option bound to the "
            "constants 0, 1 and 2 (thorough: up to 5): no construct with a lasting effect is reached for more than LIMIT "
            "accepted records, and a successful exit is reached only at the end of the input unless exactly LIMIT "
            "records were accepted; with LIMIT = 0 only at the end of the input.",
    "assumptions": ["a unit is an accepted record; for slice and partition it is a written record, as documented",
                    "slice may also stop at the end of its range"],
}
UNIT_WRITE = ("slice", "partition")


class Mon(loop.LoopMon):
    extra0 = (0, False)
    L = 0

    def bump(self, a, st):
        n, done = st.mon[4:]
        n = min(n + 1, max(self.L, 1) + 1)
        st.mon = st.mon[:4] + (n, True)
        if self.L and n > self.L:
            self.ctx.violation("%s:limit-exceeded" % self.cmd,
                               "%s: with a limit of %d a further record takes effect after %d accepted records"
                               % (self.f.path, self.L, self.L), a.trace(a.cur))

    def on_call(self, a, st, c):
        if self.cmd in UNIT_WRITE and st.mon[0] == "rec" and c.path.endswith("::write_byte_record"):
            self.bump(a, st)
            self.ctx.count("units_visited")
        return None

    def on_effect(self, a, st, what, c):
        if self.cmd in UNIT_WRITE:
            return
        chk, mm = self.accepted(st)
        if chk and mm and not st.mon[5]:
            self.ctx.count("units_visited")
            self.bump(a, st)

    def on_regate(self, st):
        st.mon = st.mon[:5] + (False,)

    def reset(self, extra):
        return (extra[0], False)

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        if st.mon[0] in ("rec", "err") and self.cmd != "slice":
            if not self.L or st.mon[4] < self.L:
                self.ctx.violation("%s:stops-early" % self.cmd,
                                   "%s: with a limit of %d the command stops after %d accepted records although the "
                                   "input is not exhausted" % (self.f.path, self.L, st.mon[4]), a.trace(node))


def limit_tags(prog, f):
    adt = prog.adts[f.j["impl_self"]]
    out = []
    for n, t, _ in adt["variants"][0]["fields"]:
        if n == "limit":
            out.append(("f", ("p", "self"), "limit"))
        elif t.endswith("cli::FilterOpts"):
            out.append(("f", ("f", ("p", "self"), n), "limit"))
    return out


def run(ctx):
    prog = ctx.prog
    adt = prog.adt("pica::cli::FilterOpts")
    if not any(x[0] == "limit" for x in adt["variants"][0]["fields"]):
        raise mir.MissingAnchor("limit option")
    ctx.parallel([(f.key, L) for f in loop.filtering(prog)
                  for L in ((0, 1, 2) if ctx.tier == "quick" else (0, 1, 2, 3, 4, 5))], one)
    ctx.floor("analyses", 13 * 3)


def one(ctx, item):
    prog = ctx.prog
    f = prog.fns[item[0]]
    tags = limit_tags(prog, f)
    if not tags:
        raise mir.MissingAnchor("limit of %s" % f.path)
    g = ctx.flat(f, inline=loop.inliner(prog, fields=("limit",)))
    m = Mon(ctx, f, g)
    m.L = item[1]
    a = ai.AI(prog, g, m, keep=loop.keep_default, fold=True,
              init={"heap": {t: ("k", m.L) for t in tags}})
    a.run()
    ctx.count("states", a.nstates)
    ctx.count("analyses")
    ctx.unit("%s LIMIT=%d" % (f.path, m.L))
