import re
import ai, cmds, mir

META = {
    "id": "P02",
    "title": "A failed read, write or open never ends in success",
    "statement": "Whenever opening, reading, writing, flushing or finishing a file or stream reports an error, the function "
                 "it happened in reports an error too, and so the command fails: no such error is dropped, replaced by a "
                 "default or turned into the end of the data. The only exceptions are a missing configuration file and "
                 "invalid records skipped on request.",
    "over": ["inputs", "fault_sequences"],
    "for_all": "every operation that can fail, in every state of the program",
    "why": "Tests run on healthy disks and pipes; an error can strike at every single operation, and the loss is silent.",
    "files": ["src/reader.rs", "src/writer.rs", "src/record.rs", "crates/pica-cli/src"],
    "mechanism": [["the ? operator on every fallible call", "all commands, readers and writers"]],
    "technique": "fault-injecting abstract interpretation: every fallible call may fail, error must reach the exit (MIR)",
    "rule": "in every function of the library and the commands, for each call whose result may carry an I/O, CSV, XML, "
            "data-frame or command error: on every path on which it fails, the function returns an error (or a value that "
            "carries it) or panics; a path on which the function goes on to a successful return is a violation.",
    "assumptions": ["errors reading single records are decided by P01", "standard output errors in print macros panic",
                    "the operating system reports its errors (close errors are not observable)"],
}

ERR = re.compile(r"(^|<)(std|core|alloc)::io::error::Error|csv::error::Error|pica::error::CliError|check::writer::Error|"
                 r"FilterSetError|PolarsError|quick_xml::|toml::(de|ser)::\w*::?Error|core::fmt::Error|IntoInnerError|"
                 r"ReadPicaError|notify|serde_json::error")
# results that are no I/O: looking things up, comparing, text handling in memory
PURE = re.compile(r"DataFrame::column$|::cast$|::str$|Column::\w+$|core::fmt::|fmt::Write|::fmt$")
MEMORY = re.compile(r"^&mut (core::io::cursor::Cursor<|std::io::cursor::Cursor<|std::io::Cursor<)?(&mut )*alloc::(vec::Vec<u8>|string::String)>?$|"
                    r"^&mut .*Sha256|^&mut sha2::")
NOTFOUND = re.compile(r"NotFound")


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def err_type(ty):
    m = re.match(r"core::result::Result<(.*)>$", ty)
    if m:
        a = split_args(m.group(1))
        return a[1] if len(a) == 2 else None
    m = re.match(r"core::option::Option<(core::result::Result<.*>)>$", ty)
    return err_type(m.group(1)) if m else None


class Mon:
    """mon: frozenset of failed calls whose error is still owed"""

    def __init__(self, ctx, f, g):
        self.ctx, self.f, self.g = ctx, f, g
        self.ret = g.locals[0][0]

    def init(self):
        return frozenset()

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n in ("map_err", "or", "or_else", "ok_or", "ok_or_else", "branch", "from_residual", "from", "into", "unwrap",
                 "expect", "ok", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map", "and_then", "as_ref", "as_mut",
                 "transpose", "clone", "expect_err", "unwrap_err", "err", "and", "inspect_err", "to_owned") or \
                cmds.NEXT.search(c.path):
            return None
        if n == "kind" and c.args:
            v = a.val(st, c.args[0])
            for l in ai.labels(v, st):
                if l.startswith("err:"):
                    return [(st, ("o", ("kind", c.site), frozenset([l])))]
            return None
        if (n in ("eq", "ne") or c.path.startswith("core::cmp::PartialEq")) and len(c.args) == 2:
            k = [l for x in c.args for l in ai.labels(a.val(st, x), st) if l.startswith("err:")]
            if k:
                isnf = any(self.notfound(a, st, x) for x in c.args)
                s1, s0 = st.copy(), st.copy()
                hit, miss = (s1, s0) if n == "eq" else (s0, s1)
                if isnf:
                    hit.mon = frozenset(x for x in hit.mon if "err:" + x not in k)
                return [(s1, ("k", 1)), (s0, ("k", 0))]
        d = c.t["d"]
        ty = self.g.locals[d[0]][0] if not d[1] else ""
        e = err_type(ty)
        if not e or not ERR.search(e) or PURE.search(c.path) or PURE.search(c.rpath):
            return None
        if any(MEMORY.search(t) for t in self.sinks(a, st, c)):
            return None         # writing to memory cannot fail
        self.ctx.count("fallible_visited")
        self.sites.add((c.span, c.path.rsplit("::", 2)[-2] + "::" + n))
        opt = ty.startswith("core::option::Option<")
        sid = "%s" % c.path
        a.kill(st, ("call", c.site, c.path))
        ls = frozenset().union(ai.EMPTY, *[ai.labels(x, st) for x in c.args])
        ls = frozenset(l for l in ls if not l.startswith("err:"))
        out = []

        def wrap(v):
            return ("e", "Some", (("0", v),)) if opt else v
        s = st.copy()
        a.havoc_muts(s, c)
        out.append((s, wrap(("e", "Ok", (("0", ("o", ("call", c.site, c.path), ls)),)))))
        s = st.copy()
        a.havoc_muts(s, c)
        s.mon = s.mon | {sid}
        out.append((s, wrap(("e", "Err", (("0", ("o", ("err", c.site), frozenset(["err:" + sid]))),)))))
        if opt:
            out.append((st.copy(), ("e", "None", ())))
        return out

    def sinks(self, a, st, c):
        for o in c.t["args"]:
            if o[0] in "cm" and not o[1][1]:
                yield self.g.locals[o[1][0]][0]

    def notfound(self, a, st, x):
        v = a.val(st, x)
        return NOTFOUND.search(str(v)) is not None

    def exit(self, a, st, v, node):
        if not st.mon or self.f.path == "pica::main":
            return              # the exit status is decided by P11
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Some" and v[2]:
            v = a.val(st, v[2][0][1])
        if v[0] == "e" and v[1] == "Err":
            return
        ls = ai.labels(v, st)
        for s in sorted(st.mon):
            if "err:" + s in ls:
                continue
            self.ctx.violation("%s:%s" % (self.f.path, s),
                               "%s: an error of %s is lost: the function still returns %s"
                               % (self.f.path, s, v[1] if v[0] == "e" else "normally"), a.trace(node))


def run(ctx):
    fs = [f.key for f in sorted(ctx.prog.fns.values(), key=lambda f: f.key)
          if f.crate in ("pica", "pica_record") and f.body and not f.derived and
          any(ERR.search(err_type(b["l"][0]) or "") for b in [{"l": l} for l in f.body["locals"]])]
    ctx.parallel(fs, one)
    ctx.floor("functions", 80)
    ctx.floor("sites", 200)


def one(ctx, key):
    f = ctx.prog.fns[key]
    g = ctx.flat(f, inline=lambda h: False, callbacks=False)
    m = Mon(ctx, f, g)
    m.sites = set()
    a = ai.AI(ctx.prog, g, m, keep=lambda t: False)
    a.run()
    ctx.count("functions")
    ctx.count("sites", len(m.sites))
    ctx.count("states", a.nstates)
    ctx.unit("%s: %d fallible calls" % (f.path, len(m.sites)))
