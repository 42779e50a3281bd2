"""the config subcommand and the configuration file."""
import re
import ai, build, mir

META = {
    "id": "P25",
    "title": "config sets, unsets and prints the named option, and what is saved is reloaded",
    "statement": "Setting an option stores the parsed value under that option, leaves the other one as it was, and saves; unsetting "
                 "puts its default and saves; otherwise the value of the option is printed and nothing is changed or saved. An "
                 "unknown option or a value that cannot be parsed is an error that changes nothing. Saving writes the whole "
                 "configuration to the path it was made for or read from, and every failure of reading or writing is reported.",
    "over": ["inputs", "configurations", "fault_sequences"],
    "for_all": "every option, value and stored configuration, and every failing read or write",
    "why": "Tests set one value and look at one option of the result; they do not look at the other option or at failing writes.",
    "files": ["crates/pica-cli/src/commands/config.rs", "crates/pica-cli/src/config.rs", "crates/pica-cli/src/translit.rs"],
    "mechanism": [["Config::execute", "crates/pica-cli/src/commands/config.rs"],
                  ["new, from_path, discover, save", "crates/pica-cli/src/config.rs"],
                  ["text of a normal form", "crates/pica-cli/src/translit.rs: Display, FromStr"]],
    "technique": "abstract interpretation of MIR: effects of each path on the options, the file and the output",
    "rule": "for each option name and each combination of value and switches, every path is followed to its end, and what it stored, "
            "saved, printed and returned is compared with what is specified; the same for saving and loading, with each operation on "
            "the file succeeding or failing. The text a normal form is printed as is the one it is parsed from.",
    "assumptions": ["the derived (de)serialisation of the two options agree", "what str::parse makes of a switch's text is true or false"],
}
OPTS = {"skip-invalid": "skip_invalid", "normalization": "normalization"}
OLD = ("o", ("old",), frozenset(["old"]))
FLAG = ("o", ("flag",), frozenset(["flag"]))
NEW = ("o", ("parsed",), frozenset(["parsed"]))
GIVEN = ("o", ("given",), frozenset(["given"]))
IDENT = {"to_string", "to_owned", "clone", "as_str", "deref", "as_ref", "borrow", "into", "from", "new_display", "must_use", "as_deref", "into_string",
         "trim_unused"}


class Mon:
    """mon: (parse: None/True/False, saves, prints)"""

    def __init__(self, ctx, f, name, other, world):
        self.ctx, self.f, self.name, self.other, self.world = ctx, f, name, other, world

    def init(self):
        return (None, 0, ())

    def bad(self, a, k, m, node=None):
        self.ctx.violation("config:%s" % k, "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def field(self, a, st, n):
        v = st.heap.get(("f", ("p", self.cfg), n))
        return self.flatval(a, st, v) if v is not None else None

    def flatval(self, a, st, v):
        v = a._deepread(st, v)
        if v[0] == "e" and v[2]:
            v = ("e", v[1], tuple((k, self.flatval(a, st, x)) for k, x in v[2]))
        return v

    def now(self, a, st):
        return {n: self.field(a, st, n) for n in OPTS.values()}

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [self.flatval(a, st, x) for x in c.args]
        p, s, out = st.mon
        if n in ("eq", "ne") and len(v) == 2 and all(x[0] == "k" and isinstance(x[1], str) for x in v):
            return [(st, ("k", int((v[0] == v[1]) == (n == "eq"))))]
        if n in ("parse", "from_str") and len(v) == 1 and v[0] == GIVEN:
            self.ctx.count("parses_visited")
            d = c.t.get("dty") or ""
            want = "bool" if self.name == "skip-invalid" else "NormalizationForm"
            if want not in d:
                self.bad(a, "type", "the value of %s is not parsed as %s" % (self.name, want))
            r = []
            for ok in (True, False):
                if p in (None, ok):
                    x = st.copy()
                    x.mon = (ok, s, out)
                    r.append((x, ai.ok(NEW) if ok else ("e", "Err", (("0", ("o", ("perr",), ai.EMPTY)),))))
            return r
        if n == "save" and "pica::config::Config" in c.path + c.rpath:
            self.ctx.count("saves_visited")
            self.check(a, st)
            r = []
            for ok in (True, False):
                x = st.copy()
                x.mon = (p, "ok" if ok else "failed", out) if not s else (p, "twice", out)
                r.append((x, ai.ok(("s", (), "tuple")) if ok else ("e", "Err", (("0", ("o", ("ioerr",), ai.EMPTY)),))))
            return r
        if n == "_print":
            self.ctx.count("prints_visited")
            st.mon = (p, s, out + (v[0],))
            return [(st, ("s", (), "tuple"))]
        if n == "new" and "fmt::Arguments" in c.path and len(v) == 2:
            el = [self.flatval(a, st, x) for _, x in v[1][1]] if v[1][0] == "s" else [v[1]]
            return [(st, ("s", (("fmt", v[0]),) + tuple((str(i), x) for i, x in enumerate(el)), "fmt"))]
        if n in ("from_str", "new_const") and "fmt::Arguments" in c.path and len(v) == 1:
            return [(st, ("s", (("fmt", v[0]),), "fmt"))]
        if n in ("as_ref", "as_mut", "cloned", "copied", "clone", "as_deref") and len(v) == 1 and v[0][0] == "e":
            return [(st, v[0])]
        if n in IDENT and len(v) == 1 and (v[0][0] in "ok"):
            return [(st, v[0])]
        if n in ("map_or", "map_or_else", "unwrap_or_else", "unwrap_or", "map") and v[0][0] == "e" and v[0][1] in ("Some", "None"):
            some = v[0][1] == "Some"
            f = v[-1]
            if n == "map" and some and f[0] == "k" and str(f[1]).startswith("fn:"):
                return [(st, v[0])]
            if n == "map" and not some:
                return [(st, v[0])]
            if n == "unwrap_or":
                return [(st, v[0][2][0][1] if some else v[1])]
        if n == "take" and len(v) == 1 and "Option" in c.path:
            x = c.args[0]
            if x[0] == "r":
                st.write((x[1], x[2]), ("e", "None", ()))
            elif x[0] == "o" and x[1] in [("f", ("p", self.cfg), o) for o in OPTS.values()]:
                st.heap[x[1]] = ("e", "None", ())
            else:
                return None
            return [(st, v[0])]
        if n == "index" and len(v) == 2 and "RangeFull" in repr(v[1]) and v[0][0] in "ok":
            return [(st, v[0])]
        return None

    def want(self, st):
        """(options afterwards, saved?, printed, success)"""
        before = dict(self.world["cfg"])
        f = OPTS.get(self.name)
        if f is None or self.world["value"] and st.mon[0] is not True:
            return before, False, None, False
        if self.world["value"]:
            before[f] = NEW if f == "skip_invalid" else ("e", "Some", (("0", NEW),))
            return before, True, None, True
        if self.world["unset"]:
            before[f] = ("k", 0) if f == "skip_invalid" else ("e", "None", ())
            return before, True, None, True
        x = before[f]
        x = ("k", "None") if x == ("e", "None", ()) else x[2][0][1] if x[0] == "e" else x
        return before, False, x, True

    def check(self, a, st, node=None):
        o = self.want(st)[0]
        for n, x in self.now(a, st).items():
            if x != o[n]:
                self.bad(a, "value", "%s: %s is not what it should be" % (self.what(), n), node)

    def what(self):
        return "%s %s" % ("setting" if self.world["value"] else "unsetting" if self.world["unset"] else "reading", self.name)

    def exit(self, a, st, v, node):
        self.ctx.count("exits")
        p, s, out = st.mon
        o, saved, shown, good = self.want(st)
        v = a.val(st, v)
        self.check(a, st, node)
        ok = not (v[0] == "e" and v[1] == "Err")
        if ok and v[0] != "e":
            self.bad(a, "opaque", "%s returns something that cannot be determined" % self.what(), node)
        if bool(s) != saved or s == "twice":
            self.bad(a, "saved", "%s %s" % (self.what(), "saves" if s else "does not save"), node)
        if ok != (good and s != "failed"):
            self.bad(a, "result", "%s %s" % (self.what(), "succeeds" if ok else "fails"), node)
        if ok:
            x = v[2][0][1] if v[2] else None
            if x is None or a.val(st, x) != ("k", 0):
                self.bad(a, "code", "%s does not return the code for success" % self.what(), node)
        if shown is None and out:
            self.bad(a, "prints", "%s prints something" % self.what(), node)
        if shown is not None and ok:
            if len(out) != 1 or not self.line(out[0], shown):
                self.bad(a, "prints", "%s does not print the value on a line of its own" % self.what(), node)

    def line(self, x, shown):
        if x[0] != "s" or len(x[1]) != 2:
            return x[0] == "s" and len(x[1]) == 1 and shown == ("k", "None") and x[1][0][1] in (("k", "None\n"),)
        return x[1][0][1] == ("k", (192, 1, 10, 0)) and x[1][1][1] == shown


def command(ctx):
    prog = ctx.prog
    f = prog.method(r"pica::commands::config::Config", "execute")
    adt = prog.adts.get("pica::config::Config")
    if adt is None or not set(OPTS.values()) <= {x[0] for x in adt["variants"][0]["fields"]}:
        raise mir.MissingAnchor("options of the configuration")
    cfg = f.body["locals"][2].get("name") if isinstance(f.body["locals"][2], dict) else None
    g = ctx.flat(f, inline=lambda h: h.crate == "pica" and not h.path.startswith("<") and h.name != "save", sums=True)
    cfg = g.locals[g.args[1]][1]
    me = g.locals[g.args[0]][1]
    for name in list(OPTS) + ["no-such-option"]:
        for value in (0, 1):
            for unset, sett, get in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
                # what clap lets through
                if value and (unset or get) or not value and sett:
                    continue
                for old in (("e", "None", ()), ("e", "Some", (("0", OLD),))):
                    w = {"value": value, "unset": unset, "cfg": {"skip_invalid": FLAG, "normalization": old}}
                    m = Mon(ctx, f, name, None, w)
                    m.cfg = cfg
                    heap = {("f", ("p", cfg), n): x for n, x in w["cfg"].items()}
                    vals = {"get": ("k", get), "set": ("k", sett), "unset": ("k", unset), "name": ("k", name),
                            "value": ("e", "Some", (("0", GIVEN),)) if value else ("e", "None", ())}
                    heap.update({("f", ("p", me), n): x for n, x in vals.items()})
                    a = ai.AI(prog, g, m, keep=lambda t: True, init={"heap": heap})
                    a.run()
                    ctx.count("states", a.nstates)
                    ctx.count("settings")
    ctx.unit(f.path)


DEFAULTS = {"skip_invalid": ("k", 0), "normalization": ("e", "None", ())}


class New:
    def init(self):
        return ()

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        d = c.t.get("dty") or ""
        if n == "default" and not c.args:
            if d == "bool":
                return [(st, ("k", 0))]
            if d.startswith("core::option::Option"):
                return [(st, ("e", "None", ()))]
            if d == "pica::config::Config":
                return [(st, ("s", (("path", ("o", ("nopath",), ai.EMPTY)),) + tuple(DEFAULTS.items()) + (("__non_exhaustive", ("s", (), "tuple")),), d))]
        v = [a._deepread(st, x) for x in c.args]
        if len(v) == 1 and v[0][:2] == ("o", ("path",)) and n in File.SAME:
            return [(st, v[0])]
        return None


class Text:
    """what is written to a formatter; comparisons of constant texts"""

    def init(self):
        return ""

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a._deepread(st, x) for x in c.args]
        if n in ("eq", "ne") and len(v) == 2 and all(x[0] == "k" and isinstance(x[1], str) for x in v):
            return [(st, ("k", int((v[0] == v[1]) == (n == "eq"))))]
        if n in ("from_str", "new_const", "as_ref", "deref", "as_str") and len(v) == 1 and v[0][0] == "k":
            return [(st, v[0])]
        if n in ("write_fmt", "write_str", "pad", "fmt") and len(v) == 2:
            # `pad` and `fmt` take the formatter last
            x = v[1] if v[1][0] == "k" else v[0]
            st.mon = st.mon + (x[1] if x[0] == "k" and isinstance(x[1], str) else "?")
            return [(st, ai.ok(("s", (), "tuple")))]
        return None


def forms(ctx):
    prog = ctx.prog
    adt = prog.adts.get("pica::translit::NormalizationForm")
    if adt is None:
        raise mir.MissingAnchor("NormalizationForm")
    show = prog.method(r"pica::translit::NormalizationForm", "fmt", r"fmt::Display")
    read = prog.method(r"pica::translit::NormalizationForm", "from_str", r"FromStr")
    vs = [v["name"] for v in adt["variants"]]
    texts = {}
    for v in vs:
        g = ctx.flat(show, inline=lambda h: h.crate == "pica")
        a = ai.AI(prog, g, Text(), keep=lambda t: True, init={g.locals[g.args[0]][1]: ("e", v, ())})
        a.run()
        texts[v] = {st.mon for st, _, _ in a.exits}
        ctx.count("forms")
    for t in sorted({x for y in texts.values() for x in y} | {"no-such-form"}):
        g = ctx.flat(read, inline=lambda h: h.crate == "pica")
        a = ai.AI(prog, g, Text(), keep=lambda t: True, init={g.locals[g.args[0]][1]: ("k", t)})
        a.run()
        want = [v for v in vs if t in texts[v]]
        for st, r, node in a.exits:
            ctx.count("forms_parsed")
            r = a.val(st, r)
            got = a.val(st, r[2][0][1]) if r[0] == "e" and r[1] == "Ok" else None
            if [got[1]] != want if got is not None and got[0] == "e" else bool(want):
                ctx.violation("form:%s" % (want or ["other"])[0], "%s: the text `%s` of a normal form is not parsed as that form" % (read.path, t), a.trace(node))
            if got is None and (r[0] != "e" or r[1] != "Err"):
                ctx.violation("form:opaque", "%s: what `%s` is parsed as cannot be determined" % (read.path, t), a.trace(node))
    for v in vs:
        if len(texts[v]) != 1 or "?" in "".join(texts[v]):
            ctx.violation("form:text", "%s: the text of a normal form cannot be determined" % show.path)
    ctx.unit(show.path)
    ctx.unit(read.path)


# -- the file
IOCALLS = {"create", "write_all", "read_to_string", "create_dir_all", "from_str", "to_string", "write", "flush", "open", "sync_all", "to_writer"}


class File:
    """mon: (operations done, in order, with outcome)"""
    SAME = {"as_ref", "into", "from", "to_path_buf", "to_owned", "clone", "as_bytes", "deref", "as_str", "as_path", "borrow", "into_bytes",
            "must_use", "as_slice", "new"}

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return ()

    def bad(self, a, k, m, node=None):
        self.ctx.violation("file:%s:%s" % (self.f.name, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a._deepread(st, x) for x in c.args]
        m = st.mon

        def forks(op, val):
            s = st.copy()
            s.mon = m + ((op, False),)
            st.mon = m + ((op, True),)
            return [(st, ai.ok(val)), (s, ("e", "Err", (("0", ("o", ("err",), frozenset(["err"]))),)))]
        if n in self.SAME and len(v) == 1 and v[0][0] == "o" and v[0][1] in (("path",), ("text",), ("content",), ("parent",)):
            return [(st, v[0])]
        if c.path.startswith(("toml", "<toml")) and n in ("to_string", "to_string_pretty"):
            self.ctx.count("serialised")
            self.whole(a, st, c)
            return forks("serialise", ("o", ("content",), frozenset(["content"])))
        if c.path.startswith("toml") and n in ("from_str", "from_slice"):
            if v[0] != ("o", ("text",), frozenset(["text"])):
                self.bad(a, "text", "something else than the text of the file is parsed")
            return forks("parse", ("o", ("cfg",), frozenset(["cfg"])))
        if n in ("read_to_string", "read") and "fs" in c.path:
            if v[0][:2] != ("o", ("path",)):
                self.bad(a, "read", "another file than the one named is read")
            return forks("read", ("o", ("text",), frozenset(["text"])))
        if n == "parent" and v[0][:2] == ("o", ("path",)):
            s = st.copy()
            return [(st, ("e", "Some", (("0", ("o", ("parent",), frozenset(["parent"]))),))), (s, ("e", "None", ()))]
        if n in ("is_dir", "exists") and v[0][:2] == ("o", ("parent",)):
            s = st.copy()
            s.mon = m + (("isdir", False),)
            st.mon = m + (("isdir", True),)
            return [(st, ("k", 1)), (s, ("k", 0))]
        if n == "create_dir_all":
            if v[0][:2] != ("o", ("parent",)):
                self.bad(a, "dir", "another directory than the file's is made")
            return forks("mkdir", ("s", (), "tuple"))
        if n == "create" and "File" in c.path:
            self.ctx.count("creates_visited")
            if v[0][:2] != ("o", ("path",)):
                self.bad(a, "create", "another file than the one the configuration belongs to is written")
            return forks("create", ("o", ("file",), frozenset(["file"])))
        if n == "write" and "fs" in c.path and len(v) == 2:
            if v[0][:2] != ("o", ("path",)) or v[1][:2] != ("o", ("content",)):
                self.bad(a, "create", "something else than the configuration is written, or to another file")
            self.ctx.count("creates_visited")
            r = forks("write", ("s", (), "tuple"))
            for s, _ in r:
                s.mon = s.mon[:-1] + (("create", True),) + s.mon[-1:]
            return r
        if n == "write_all":
            if v[1][:2] != ("o", ("content",)):
                self.bad(a, "content", "something else than the whole configuration is written")
            return forks("write", ("s", (), "tuple"))
        if n in ("write", "set_len", "seek") and "file" in ai.labels(v[0], st):
            self.bad(a, "content", "the configuration is not written as a whole (`%s`)" % n)
        if n in ("flush", "sync_all", "sync_data"):
            return forks("flush", ("s", (), "tuple"))
        if n == "unwrap" or n == "expect":
            x = v[0]
            if x[0] == "e" and x[1] == "Err":
                if m and m[-1][0] != "serialise":
                    self.bad(a, "panic", "a failure to %s panics" % m[-1][0])
                return []
        return None

    def whole(self, a, st, c):
        v = a._deepread(st, c.args[0])
        if v[:2] != ("o", ("p", "self")):
            self.bad(a, "partial", "something else than the configuration itself is serialised")

    def exit(self, a, st, v, node):
        self.ctx.count("exits")
        v = a.val(st, v)
        m = st.mon
        failed = [k for k, ok in m if not ok and k != "isdir"]
        ok = not (v[0] == "e" and v[1] == "Err")
        if v[0] != "e":
            self.bad(a, "opaque", "what is returned cannot be determined", node)
            return
        if ok and failed:
            self.bad(a, "masked", "succeeds although a step failed (%s)" % failed[0], node)
        if not ok and not failed:
            self.bad(a, "fails", "fails although no step failed", node)
        if not ok:
            return
        done = [k for k, o in m if o]
        if self.f.name == "save":
            if "write" not in done or "create" not in done or "serialise" not in done or done.count("write") != 1 or done.count("create") != 1:
                self.bad(a, "unsaved", "succeeds without having written the configuration once", node)
            elif ("isdir", False) in m and "mkdir" not in done:
                self.bad(a, "nodir", "does not make the directory of the file", node)
        else:
            x = a.val(st, v[2][0][1])
            if x[:2] == ("o", ("cfg",)):
                p = st.heap.get(("f", ("cfg",), "path"))
                p = a._deepread(st, p) if p is not None else None
                extra = [t for t in st.heap if t[:2] == ("f", ("cfg",)) and t[2] != "path"]
            else:
                fl = dict(x[1]) if x[0] == "s" else {}
                p = a._deepread(st, fl["path"]) if "path" in fl else None
                extra = [n for n in OPTS.values() if n not in fl or a._deepread(st, fl[n])[:2] != ("o", ("f", ("cfg",), n))]
            if "read" not in done or "parse" not in done or extra:
                self.bad(a, "content", "does not yield the options read from the file", node)
            if p is None or p[:2] != ("o", ("path",)):
                self.bad(a, "path", "the configuration read is not tied to the path it was read from", node)


def files(ctx):
    prog = ctx.prog
    PATH = ("o", ("path",), frozenset(["path"]))
    for n in ("save", "from_path"):
        f = prog.method(r"pica::config::Config", n)
        g = ctx.flat(f, inline=lambda h: h.crate == "pica" and not h.path.startswith("<"), sums=True)
        init = {"heap": {("f", ("p", "self"), "path"): PATH}} if n == "save" else {g.locals[g.args[0]][1]: PATH}
        m = File(ctx, f)
        a = ai.AI(prog, g, m, keep=lambda t: True, init=init)
        a.run()
        ctx.count("states", a.nstates)
        ctx.unit(f.path)
    # a new configuration; the one of the user
    f = prog.method(r"pica::config::Config", "new")
    g = ctx.flat(f, inline=lambda h: h.crate == "pica" and not h.path.startswith("<"), sums=True)
    a = ai.AI(prog, g, New(), keep=lambda t: True, init={g.locals[g.args[0]][1]: PATH})
    a.run()
    for st, v, node in a.exits:
        ctx.count("news")
        v = a.val(st, v)
        fl = {k: a._deepread(st, x) for k, x in v[1]} if v[0] == "s" else {}
        if fl.get("path", ("?",))[:2] != ("o", ("path",)):
            ctx.violation("new:path", "%s: a new configuration is not tied to the path given" % f.path, a.trace(node))
        for x, d in DEFAULTS.items():
            if fl.get(x) != d:
                ctx.violation("new:%s" % x, "%s: a new configuration does not have the default for %s" % (f.path, x), a.trace(node))
    ctx.unit(f.path)
    f = prog.method(r"pica::config::Config", "discover")
    for at, t, _ in build.run(ctx, f).results:
        ctx.count("discoveries")
        at = dict(at)
        isf = [v for k, v in at.items() if k[:2] == ("t", "is_file") or k[:2] == ("t", "exists")]
        p = [k[2] for k, v in at.items() if k[:2] == ("t", "is_file") or k[:2] == ("t", "exists")]
        if not isf:
            none = any(v == "None" for v in at.values())
            if not none:
                ctx.violation("discover:unseen", "%s: yields a configuration without having looked whether there is a file" % f.path, [])
        elif isf[0] and t != ("t", "from_path", p[0]) or not isf[0] and t != ("e", "Ok", (("0", ("t", "new", p[0])),)):
            ctx.violation("discover:which", "%s: the configuration is not read from the file if it is there (and new, for its path, otherwise)" % f.path, [])
    ctx.unit(f.path)


def run(ctx):
    command(ctx)
    files(ctx)
    forms(ctx)
    ctx.floor("forms", 4)
    ctx.floor("forms_parsed", 5)
    ctx.floor("settings", 20)
    ctx.floor("exits", 40)
    ctx.floor("saves_visited", 4)
    ctx.floor("prints_visited", 4)
    ctx.floor("parses_visited", 2)
    ctx.floor("creates_visited", 1)
    ctx.floor("serialised", 1)
    ctx.floor("news", 1)
    ctx.floor("discoveries", 3)
