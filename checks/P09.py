import re
import ai, cmds, mir
from names import Ext, tags

META = {
    "id": "P09",
    "title": "Every output is opened, extended and compressed as asked",
    "statement": "In every command, an output file that is opened is created if missing; with --append what it held is kept and "
                 "what is written goes behind it, without (or in a command without that option) it is replaced. Records are "
                 "written compressed exactly if --gzip is given or the file's name ends in `.gz`. Standard output is used exactly "
                 "if no output file is given.",
    "over": ["configurations", "inputs"],
    "for_all": "every command and every combination of --output, --tee, --append and --gzip",
    "why": "Each command opens its outputs its own way, and main output, tee, partitions and chunks combine with each option; "
           "tests try few of the combinations, mostly on files that do not exist yet.",
    "files": ["src/writer.rs", "crates/pica-cli/src/commands"],
    "mechanism": [["WriterBuilder::from_path, from_path_or_stdout, gzip, append", "src/writer.rs"],
                  ["writer creation in each command", "crates/pica-cli/src/commands"]],
    "technique": "abstract interpretation of MIR: open-mode typestate under the options' path conditions",
    "rule": "every command is analysed with all functions inlined from which an output is opened; at each open, the flags set "
            "(create, truncate, append) must be the ones called for by the value of --append settled on that path; each record "
            "writer put on a file or standard output must be the compressing one exactly under the settled values of --gzip and "
            "of the test of the name; opened paths come from the output options, standard output from their absence.",
    "assumptions": "std::fs::OpenOptions and flate2 behave as documented.",
}
OO = "std::fs::OpenOptions::"
OPEN = re.compile(r"^std::fs::(OpenOptions::open|File::create|File::create_new|File::options|OpenOptions::new)$|^std::io::stdio::(stdout|_print)$|"
                  r"writer::(Plain|Gzip)Writer.*::new$")
OPENS = re.compile(OPEN.pattern + r"|^std::fs::OpenOptions::\w+$")
WRAP = re.compile(r"writer::(Plain|Gzip)Writer(::)?<.*>::new$")
FLAGS = ("write", "create", "truncate", "append", "create_new", "read")
OUT = ("output", "tee", "outdir")


def ahead(g):
    """blocks from which an output may still be opened"""
    to = {}
    for i, b in enumerate(g.blocks):
        for j in mir.succs(b["t"]) if b else ():
            to.setdefault(j, []).append(i)
    work = [i for i, b in enumerate(g.blocks) if b and OPENS.search((b["t"].get("f") or {}).get("path", ""))]
    out = set(work)
    while work:
        for i in to.get(work.pop(), ()):
            if i not in out:
                out.add(i)
                work.append(i)
    return out


class Mon(Ext):
    """mon: (flags set on the open options at hand, outputs in use so far)"""

    def __init__(self, ctx, f, fields, g):
        self.ctx, self.f, self.fields = ctx, f, fields
        self.ahead = ahead(g)
        self.cmd = cmds.cmdname(f)

    def init(self):
        return (), frozenset()

    def trim(self, a, st, bid):
        """what was settled about the options, once no output can be opened any more"""
        if bid not in self.ahead:
            for t in [t for t in st.ass if not any(cmds.tag_ends(t[1] if t[0] == "ne" else t, n) for n in ("output", "tee"))]:
                del st.ass[t]
            st.mon = (), st.mon[1]

    def exit(self, a, st, v, node):
        if not (v[0] == "e" and v[1] == "Ok"):
            return
        self.ctx.count("exits_visited")
        for n in ("output", "tee"):
            k = self.known(a, st, n) if n in self.fields else "None"
            if k is None and n in st.mon[1]:
                continue
            if (n in st.mon[1]) != (k == "Some"):
                self.bad(a, n, "finishes %s" % (
                    "without having opened the output named by --%s" % n if k != "None" else "with an output opened as named by the absent --%s" % n), node)
        if "output" in self.fields and ("stdout" in st.mon[1]) == ("output" in st.mon[1]):
            self.bad(a, "neither", "finishes with %s standard output and the output file in use" % (
                "both" if "stdout" in st.mon[1] else "neither"), node)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def known(self, a, st, name):
        """the value of an option on this path, None if not settled"""
        if name not in self.fields:
            return 0
        vs = {v for t, v in st.ass.items() if cmds.tag_ends(t, name) and t[1] == ("p", "self")}
        return vs.pop() if len(vs) == 1 else None

    def path(self, v, ls):
        return v[0] == "o" and ("target" in ls or "path" in ls or any(cmds.tag_has(v[1], n) for n in OUT))

    def from_option(self, v, ls, names=OUT):
        return any(cmds.tag_has(v[1], n) for n in names) if v[0] == "o" else \
            v[0] == "s" and any(self.from_option(x, ls, names) for _, x in v[1])

    def opened(self, a, st, c, v, ls, flags):
        self.ctx.count("opens_visited")
        if not (self.from_option(v, ls) or "target" in ls):
            self.bad(a, "path", "opens an output that none of the output options names")
        want = self.known(a, st, "append")
        if want is None:
            self.bad(a, "append-ignored", "opens an output without regard to --append")
        else:
            if flags.get("append", 0) != want:
                self.bad(a, "append", "opens an output %s append mode %s --append" % (("without", "with") if want else ("in", "without")))
            if not want and flags.get("truncate", 0) != 1 and not flags.get("create_new"):
                self.bad(a, "truncate", "does not empty an existing output without --append")
            if want and flags.get("truncate", 0) != 0:
                self.bad(a, "truncate", "empties an existing output with --append")
        if flags.get("create", 0) != 1:
            self.bad(a, "create", "does not create a missing output")
        if flags.get("create_new", 0):
            self.bad(a, "create-new", "fails for an output that exists")
        if not (flags.get("write") or flags.get("append")):
            self.bad(a, "write", "does not open the output for writing")
        st.ass.pop(self.GZ + (v,), None)
        s = st.copy()
        s.mon = (), st.mon[1] | {n for n in OUT if self.from_option(v, ls, (n,))}
        return [(s, ai.ok(("o", ("file", v), frozenset(["file"])))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) | ai.labels(y, st) for x, y in zip(c.args, v)]
        if c.path in (OO + "new", "std::fs::File::options"):
            st.mon = (), st.mon[1]
            return [(st, ("o", ("oo", c.site), frozenset(["oo"])))]
        if c.path.startswith(OO) and n in FLAGS:
            out = []
            for s, b in a.branch_bool(st, c.args[1]):
                s = s.copy()
                s.mon = tuple(sorted(dict(s.mon[0], **{n: int(b)}).items())), s.mon[1]
                out.append((s, c.args[0]))
            return out
        if c.path == OO + "open":
            return self.opened(a, st, c, v[1], ls[1], dict(st.mon[0]))
        if c.path == "std::fs::File::create":
            return self.opened(a, st, c, v[0], ls[0], {"write": 1, "create": 1, "truncate": 1})
        if c.path in ("std::io::stdio::stdout", "std::io::stdio::_print"):
            self.ctx.count("stdouts_visited")
            k = self.known(a, st, "output")
            if k != "None":
                self.bad(a, "stdout", "uses standard output although %s" % ("an output file is given" if k else "it is not settled that no output file is given"))
            st.mon = st.mon[0], st.mon[1] | {"stdout"}
            return [(st, ("o", ("stdout",), frozenset(["stdout"])))]
        m = WRAP.search(c.path)
        if m:
            self.ctx.count("wraps_visited")
            gz = self.known(a, st, "gzip")
            if "file" in ls[0]:
                ext = [st.ass.get(self.GZ + (t[1],)) for t in tags(v[0]) if t[0] == "file"]
                ext = ext[0] if len(ext) == 1 else None
                want = 1 if gz == 1 or ext == 1 else 0 if gz == 0 and ext == 0 else None
            elif "stdout" in ls[0]:
                want = gz
            else:
                self.bad(a, "sink", "records go neither to the file opened nor to standard output")
                return None
            if want is None:
                self.bad(a, "gzip-ignored", "creates a record writer without regard to %s" % (
                    "--gzip" if gz is None else "the name of the file"))
            elif (m.group(1) == "Gzip") != bool(want):
                self.bad(a, "gzip", "records are written %s although %s" % (
                    ("compressed", "neither --gzip is given nor does the name end in .gz") if not want else ("uncompressed", "--gzip is given or the name ends in .gz")))
            return None
        r = self.names(a, st, c, n, v, ls)
        if r is not None:
            return r
        if n == "default" and c.self_ty == "bool":
            return [(st, ("k", 0))]
        if n == "join" and "Path" in c.path and len(v) == 2 and v[0][0] == "o" and cmds.tag_has(v[0][1], "outdir"):
            return [(st, ("o", ("target", c.site), frozenset(["target"])))]
        return None


def run(ctx):
    prog = ctx.prog
    todo = []
    for f in cmds.executes(prog):
        adt = prog.adts.get(f.j["impl_self"])
        if adt is None:
            raise mir.MissingAnchor("options of %s" % f.path)
        fields = {x[0]: x[1] for x in adt["variants"][0]["fields"]}
        if set(fields) & set(OUT):
            todo.append(f.key)

    ctx.parallel(todo, one)
    for w, gz in (("GzipWriter", True), ("PlainWriter", False)):
        adt = ctx.prog.adts.get("pica_record::writer::" + w)
        if adt is None:
            raise mir.MissingAnchor(w)
        if any("flate2::" in x[1] for v in adt["variants"] for x in v["fields"]) != gz:
            ctx.violation(w, "%s %s" % (w, "does not compress" if gz else "compresses"))
    ctx.floor("commands", 15)
    ctx.floor("opens_visited", 20)
    ctx.floor("stdouts_visited", 10)
    ctx.floor("wraps_visited", 20)


def one(ctx, key):
    prog = ctx.prog
    f = prog.fns[key]
    fields = {x[0] for x in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]}
    rel = cmds.relevant(prog, ("pica", "pica_record"), OPEN, types=re.compile(r"pica_record::writer::WriterBuilder"))
    g = ctx.flat(f, inline=lambda h: (h.key in rel and "config" not in h.path) or
              h.name == "default" and h.crate == "pica_record" and h.derived, foreign=True)
    a = ai.AI(prog, g, Mon(ctx, f, fields, g), keep=keep, maxstates=200000)
    a.run()
    ctx.unit(f.path)
    ctx.count("commands")
    ctx.count("states", a.nstates)


def keep(t):
    t = t[1] if t[0] == "ne" else t
    return t[:1] in (Ext.GZ, Ext.DASH) or any(cmds.tag_ends(t, n) for n in ("append", "gzip", "output", "tee"))
