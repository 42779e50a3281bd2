"""main: which command runs with which configuration, and the exit status."""
import re
import ai, cmds, mir

META = {
    "id": "P11",
    "title": "pica runs the command asked for with the config named, and its status tells",
    "statement": "pica runs exactly one command, on the configuration read from the file given with --config (a new one for that path "
                 "if there is no such file) or, without the option, on the one discovered; if that cannot be read, nothing is run. "
                 "It exits with the code the command returns; if the command fails because nobody reads its output any more, it "
                 "exits with 0, and on any other failure with 2 and the error on standard error.",
    "over": ["inputs", "configurations", "fault_sequences"],
    "for_all": "every command, every kind of error it can return, and every outcome of reading the configuration",
    "why": "Tests provoke a few of the errors a command can return; a closed pipe is met with one command, if at all.",
    "files": ["crates/pica-cli/src/main.rs", "crates/pica-cli/src/error.rs"],
    "mechanism": [["main, run, is_broken_pipe", "crates/pica-cli/src/main.rs"]],
    "technique": "typestate analysis of main by abstract interpretation of the MIR, with every error a command can return",
    "rule": "main, with all it calls in its file unfolded, is run on every result of a command: a code, or an error of each variant, "
            "nested ones included, whose kind is a broken pipe or not; every path must run one command at most, hand it the "
            "configuration of the path taken, and return the code that belongs to the result.",
    "assumptions": ["each command's variant holds that command's arguments (guaranteed by the types)",
                    "an error is taken for a failure to write if it is, or a CSV error or an error of check's writers wraps, an I/O error"],
}
IOE, CSVE = "core::io::error::Error|std::io::error::Error|std::io::Error|core::io::Error", "csv::error::Error|csv::Error"
PATH = ("o", ("cfgpath",), frozenset(["cfgpath"]))
CODE = ("o", ("code",), frozenset(["code"]))
CONF = frozenset(["conf"])


def errors(prog, adt, depth=0):
    """every shape of an error -> [(value, class)]"""
    out = []
    for v in adt["variants"]:
        pay = [x[1] for x in v["fields"]]
        names = [x[0] for x in v["fields"]]
        inner = [(("o", ("err", v["name"], depth), frozenset(["err"])), "other")]
        if len(pay) == 1:
            t = pay[0]
            if re.search(IOE, t):
                inner = [(("o", ("ioerr",), frozenset(["err", "ioerr"])), "io")]
            elif re.search(CSVE, t):
                inner = [(("o", ("csverr",), frozenset(["err", "csverr"])), "csv")]
            elif t in prog.adts and len(prog.adts[t]["variants"]) > 1 and t.startswith("pica::commands::") and depth < 3:
                inner = errors(prog, prog.adts[t], depth + 1)
        for x, k in inner:
            # errors of the reader are not about the output
            out.append((("e", v["name"], tuple((n, x) for n in names)), k))
    return out


class Mon:
    """mon: (config path given, config read, config at hand, command run, class of its failure, csv kind, kind, reported)"""
    P, READ, CONF, RUN, CLASS, CSV, KIND, SAID = range(8)

    def __init__(self, ctx, f, shapes):
        self.ctx, self.f, self.shapes = ctx, f, shapes

    def init(self):
        return (None, None, None, None, None, None, None, False)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("main:%s" % k, "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[getattr(self, k)] = v
        st.mon = tuple(m)
        return st

    def lab(self, a, st, x):
        return ai.labels(x, st) | ai.labels(a._deepread(st, x), st)

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        m = st.mon
        if n in ("parse", "parse_from", "try_parse") and "clap" in c.path:
            self.ctx.count("command_lines")
            out = []
            for given in (False, True):
                s = self.put(st.copy(), P=given)
                t = ("args", given)
                s.heap[("f", t, "config")] = ("e", "Some", (("0", PATH),)) if given else ("e", "None", ())
                out.append((s, ("o", t, ai.EMPTY)))
            return out
        if n in ("from_path", "new", "discover") and "pica::config::Config" in c.rpath + c.path:
            self.ctx.count("configs_visited")
            if m[self.RUN]:
                self.bad(a, "late", "a configuration is read after the command has run")
            if n == "discover":
                if m[self.P] is not False:
                    self.bad(a, "ignored", "the configuration is discovered although a file is named")
            elif m[self.P] is not True or "cfgpath" not in self.lab(a, st, c.args[0]):
                self.bad(a, "path", "a configuration is %s for another path than the one named" % ("read" if n == "from_path" else "made"))
            if n == "new":
                if m[self.READ] != "missing":
                    self.bad(a, "fresh", "a new configuration is made although it is not known that the file named does not exist")
                return [(self.put(st, CONF="new"), ("o", ("conf",), CONF))]
            out = [(self.put(st.copy(), CONF="read", READ="read"), ai.ok(("o", ("conf",), CONF)))]
            for k in ("missing", "broken") if n == "from_path" else ("broken",):
                out.append((self.put(st.copy(), READ=k, CONF=None), ("e", "Err", (("0", ("o", ("cfgerr",), frozenset(["cfgerr"]))),))))
            return out
        if n in ("from_residual", "from", "into") and len(c.args) == 1 and "CliError" in (c.t.get("dty") or "") and "cfgerr" in self.lab(a, st, c.args[0]):
            v = a._deepread(st, c.args[0])
            x = a._deepread(st, v[2][0][1]) if v[0] == "e" else v
            if n != "from_residual":
                return [(st, x if x[0] == "e" else ("e", "IO", (("0", x),)))]
            return [(st, ("e", "Err", (("0", x if x[0] == "e" else ("e", "IO", (("0", x),))),)))]
        if n == "execute" and self.iscmd(c):
            self.ctx.count("commands_visited")
            if m[self.RUN]:
                self.bad(a, "twice", "a second command is run")
            if m[self.CONF] is None:
                self.bad(a, "unread", "a command is run although its configuration could not be read")
            if len(c.args) > 1 and "Completions" not in c.rpath and "conf" not in self.lab(a, st, c.args[1]):
                self.bad(a, "config", "a command is not run on the configuration")
            out = [(self.put(st.copy(), RUN="ok"), ai.ok(CODE))]
            for v, k in self.shapes:
                out.append((self.put(st.copy(), RUN="err", CLASS=k), ("e", "Err", (("0", v),))))
            return out
        if n in ("kind", "into_kind", "raw_os_error") and len(c.args) == 1:
            l = self.lab(a, st, c.args[0])
            if "cfgerr" in l and n == "kind":
                return [(st, ("e", "NotFound" if m[self.READ] == "missing" else "InvalidData", ()))]
            if "csverr" in l and "ioerr" not in l:
                out = []
                for k in ("Io", "Utf8"):
                    if m[self.CSV] in (None, k):
                        s = self.put(st.copy(), CSV=k)
                        if s.assume(("csvkind",), k):
                            out.append((s, ("o", ("csvkind",), frozenset(["err", "ioerr"]))))
                return out
            if "ioerr" in l and n == "kind":
                self.ctx.count("kinds_visited")
                return [(self.put(st.copy(), KIND=k), ("e", k, ())) for k in ("BrokenPipe", "PermissionDenied", "NotFound") if m[self.KIND] in (None, k)]
        if n == "is_io_error" and "csverr" in self.lab(a, st, c.args[0]):
            return [(self.put(st.copy(), CSV=k), ("k", int(k == "Io"))) for k in ("Io", "Utf8") if m[self.CSV] in (None, k)]
        if n == "from" and "ExitCode" in (c.self_ty + c.rpath) or n == "from" and "ExitCode" in (c.t.get("dty") or ""):
            v = a.val(st, c.args[0])
            return [(st, v if v[0] == "k" else ("o", ("exit", c.site), ai.EMPTY))]
        if n == "exit" and "process" in c.path:
            self.done(a, st, a.val(st, c.args[0]))
            return []
        if n in ("new_display", "new_debug"):
            if {"err", "cfgerr"} & self.lab(a, st, c.args[0]):
                return [(st, ("o", ("shown",), frozenset(["shown"])))]
        if n == "to_string" and {"err", "cfgerr"} & self.lab(a, st, c.args[0]):
            return [(st, ("o", ("shown",), frozenset(["shown", "err"])))]
        if n in ("_eprint", "write_fmt", "writeln") and any("shown" in self.lab(a, st, x) for x in c.args):
            if n == "_eprint" or "Stderr" in c.self_ty + str(c.t.get("f", {}).get("args", "")):
                self.put(st, SAID=True)
            return [(st, ("s", (), "tuple") if n == "_eprint" else ai.ok(("s", (), "tuple")))]
        return None

    def iscmd(self, c):
        return c.rpath in self.cmds or c.path in self.cmds

    def exit(self, a, st, v, node):
        self.done(a, st, a.val(st, v), node)

    def done(self, a, st, v, node=None):
        m = st.mon
        self.ctx.count("exits")
        if m[self.RUN] == "ok":
            if v != CODE:
                self.bad(a, "code", "the exit code is not the one the command returned", node)
            return
        if m[self.RUN] is None and m[self.CONF] is not None:
            self.bad(a, "nothing", "no command is run although the configuration was read", node)
            return
        # a failure
        pipe = False
        if m[self.RUN] == "err":
            maybe = m[self.CLASS] == "io" or m[self.CLASS] == "csv" and m[self.CSV] != "Utf8"
            if maybe and m[self.KIND] is None:
                self.bad(a, "pipe", "a failing write (%s) exits without its kind having been looked at" % m[self.CLASS], node)
                return
            pipe = maybe and m[self.KIND] == "BrokenPipe"
        what = "a broken pipe" if pipe else "a failure (%s)" % (m[self.CLASS] or "configuration")
        if v[0] != "k" or v[1] != (0 if pipe else 2):
            self.bad(a, "status", "%s exits with %s" % (what, v[1] if v[0] == "k" else "an unknown code"), node)
        if not pipe and not m[self.SAID]:
            self.bad(a, "silent", "%s is not reported on standard error" % what, node)


def run(ctx):
    prog = ctx.prog
    f = prog.find_one(r"^pica::main$") if hasattr(prog, "find_one") else next(iter(prog.find(r"^pica::main$")), None)
    if f is None:
        raise mir.MissingAnchor("main")
    execs = cmds.executes(prog)
    names = {h.path for h in prog.fns.values() if h.name == "execute" and h.path.startswith("pica::commands::")}
    adt = prog.adts.get("pica::error::CliError")
    if adt is None:
        raise mir.MissingAnchor("CliError")
    shapes = errors(prog, adt)
    ctx.count("error_shapes", len(shapes))
    keep = ("from_path", "new", "discover", "save")
    g = ctx.flat(f, inline=lambda h: h.crate == "pica" and not h.path.startswith(("pica::commands", "pica::cli", "<"))
                 and not (h.name in keep and "config" in h.path),
                 collect=True, sums=True)
    m = Mon(ctx, f, shapes)
    m.cmds = names
    a = ai.AI(prog, g, m, keep=lambda t: True)
    a.run()
    ctx.count("states", a.nstates)
    ctx.unit(f.path)
    ctx.floor("error_shapes", 8)
    ctx.floor("commands_visited", 15)
    ctx.floor("kinds_visited", 2)
    ctx.floor("configs_visited", 3)
    ctx.floor("exits", 8)
