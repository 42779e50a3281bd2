import ai, cmds, loop, mir

META = {
    "id": "P06",
    "title": "Record filters gate every command's work, on every path",
    "statement": "In every command that offers record filters (allow list, deny list, filter expression), a record that "
                 "the allow/deny lists exclude or that does not satisfy the given filter expression (under --invert-match: "
                 "that does satisfy it) contributes nothing: it is not written, counted, collected, numbered or reported. "
                 "Every record the filters accept is handed on to the command's processing before the next record is read.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, every combination of options, every position in the input",
    "why": "Tests run a few filter options against a few records per command; that no path around the gates exists "
           "holds for all inputs and option combinations or not at all.",
    "files": ["crates/pica-cli/src/commands", "crates/pica-cli/src/cli.rs", "crates/pica-cli/src/utils.rs"],
    "mechanism": [["allow/deny check and expression match before any effect", "each command's execute()"],
                  ["FilterOpts::matcher / FilterSet::check", "crates/pica-cli/src/cli.rs, utils.rs"]],
    "technique": "path-sensitive typestate analysis (abstract interpretation of inlined MIR)",
    "rule": "typestate over each filtering command's inlined control-flow graph: after a record is read, every "
            "construct whose effect outlives the record (write through, call with a mutable borrow of, or assignment "
            "to state that lives across records, output to a stream) is reached only with the allow/deny set known "
            "to accept this record and the filter expression, where one was given, known to match "
            "(negated under an invert flag); and the next read is reached from an accepted record only through a call "
            "that takes the record or modifies the state that lives across records.",
    "assumptions": ["progress display is not an effect", "a buffer that is cleared inside the loop is scratch space"],
}


class Mon(loop.LoopMon):
    extra0 = (False,)

    def on_effect(self, a, st, what, c):
        self.ctx.count("effects_visited")
        chk, mm = self.accepted(st)
        if chk and mm:
            self.effects.add(what)
            # slice only numbers the records in front of its range
            if c is not None or self.cmd == "slice":
                st.mon = st.mon[:4] + (True,)
            return
        why = []
        if not chk:
            why.append("the allow/deny lists were not consulted" if st.mon[1] is None else "the record is excluded by the allow/deny lists")
        if not mm:
            why.append("the filter expression was not evaluated" if st.mon[2] is None else "the record does not satisfy the filter expression")
        self.ctx.violation("%s:ungated" % self.cmd,
                           "%s: %s although %s" % (self.f.path, what, " and ".join(why)), a.trace(a.cur) if hasattr(a, "cur") else [])

    def on_call(self, a, st, c):
        if st.mon[0] == "rec" and not st.mon[4] and all(self.accepted(st)):
            if any("rec" in ai.labels(x, st) for x in c.args):
                st.mon = st.mon[:4] + (True,)
        return None

    def reset(self, extra):
        return (False,)

    def on_regate(self, st):
        st.mon = st.mon[:4] + (False,)

    def on_read(self, a, st):
        if st.mon[0] == "rec" and all(self.accepted(st)) and not st.mon[4]:
            self.ctx.violation("%s:accepted-but-skipped" % self.cmd,
                               "%s: reads the next record although the filters accepted the current one and nothing "
                               "was done with it" % self.f.path, a.trace(a.cur))


def run(ctx):
    ctx.parallel([f.key for f in loop.filtering(ctx.prog)], one)
    ctx.floor("commands", 13)


def one(ctx, key):
    prog = ctx.prog
    f = prog.fns[key]
    g = ctx.flat(f, inline=loop.inliner(prog))
    m = Mon(ctx, f, g)
    m.effects = set()
    if not m.loop.reads:
        ctx.violation("%s:no-read" % m.cmd, "%s offers record filters but reads no records" % f.path)
        return
    a = ai.AI(prog, g, m, keep=loop.keep_default)
    a.run()
    if not m.effects:
        ctx.violation("%s:no-effect" % m.cmd, "%s: no effect of an accepted record found" % f.path)
    ctx.count("commands")
    ctx.count("states", a.nstates)
    ctx.count("effect_kinds", len(m.effects))
    ctx.unit("%s: %s" % (f.path, "; ".join(sorted(m.effects))))
