import re
import ai, cmds, loop, mir
from names import Ext

META = {
    "id": "P10",
    "title": "Every input is read, in the given order, to its end, from where its name says",
    "statement": "Every command reads the inputs it is given one after another in the given order, each once and up to its end, "
                 "unless --limit or the range of `slice` ends the work before. A file whose name ends in `.gz` is decompressed with all "
                 "its gzip members, the name `-` means standard input, and every other file is read as it is. With an expression file "
                 "`filter` takes its first argument for an input as well.",
    "over": ["inputs", "configurations", "histories"],
    "for_all": "every command reading records, every list of inputs",
    "why": "Each command has its own loop over its inputs with its own ways out; tests mostly give one plain file, and a command "
           "that stops after the first of several inputs or its first gzip member still writes plausible output.",
    "files": ["src/reader.rs", "crates/pica-cli/src/commands"],
    "mechanism": [["ReaderBuilder::from_path", "src/reader.rs"], ["the input loop of each command", "crates/pica-cli/src/commands"],
                  ["fn reader", "crates/pica-cli/src/commands/invalid.rs"]],
    "technique": "abstract interpretation of MIR: typestate of the input loop under path conditions",
    "rule": "every command with input arguments is analysed with the opening functions inlined: the loop runs over the list as given; at "
            "each step the input before has been opened once and read until the reader reported its end; decompression, plain reading "
            "and standard input happen exactly under the settled outcomes of the tests of the name; success without having stepped to "
            "the end of the list needs a comparison with the limit (or of `slice`'s range) settled on that path.",
    "assumptions": "flate2::MultiGzDecoder reads all members of a gzip file; a record reader returns None only at the end of its input (P29).",
}
READ = re.compile(cmds.NEXT.pattern + r"|BufRead::read_until$|BufRead::read_line$")
SRC = re.compile(cmds.NEXT.pattern + r"|^std::fs::File::open$|flate2::.*GzDecoder.*::new$|^std::io::stdio::stdin$|read_until$")
LIST = ("o", ("files",), frozenset(["files"]))
STEPS = ("into_iter", "iter", "by_ref", "cloned", "copied", "deref", "as_slice", "as_ref", "iter_mut", "drain", "collect", "to_vec", "clone", "into_boxed_slice", "into_vec")


INRANGE = ("inrange",)
NOFILTER, GIVENDASH = ("nofilter",), ("givendash",)


def names_dash(v):
    """the one-element list `-`"""
    while v[0] == "s" and len(v[1]) == 1:
        v = v[1][0][1]
    return v == ("k", "-")


class Mon(Ext):
    """mon: (list, phase, source, reading); phase: start, item, open, end, done"""

    def __init__(self, ctx, f, fields):
        self.ctx, self.f, self.fields = ctx, f, fields
        self.cmd = cmds.cmdname(f)

    def init(self):
        return "given", "start", ""

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def path(self, v, ls):
        return v[0] == "o" and "path" in ls

    def list_of(self, a, st, v):
        """what list of inputs a value is: given, first, only; None for other values"""
        v = a._deepread(st, v) if v[0] == "r" else v
        if v[0] == "o":
            if v[1] == ("f", ("p", "self"), "filenames"):
                return "given"
            if v[1][0] == "list":
                return st.mon[0] if v[1][1] == "taken" else v[1][1]
            if "files" in v[2] and v[1][0] != "path":
                return "?"
        return None

    def rebuild(self, a, st, c, n, v, ls):
        """the list of inputs put together anew: `filter` with an expression file"""
        if st.mon[1] != "start":
            return None
        if n in ("into", "from", "to_owned", "clone", "to_string") and v and v[0][0] == "o" and cmds.tag_ends(v[0][1], "filter"):
            return [(st, ("o", ("firstarg",), frozenset(["firstarg"])))]
        if n == "is_empty" and v and v[0][0] == "o" and cmds.tag_ends(v[0][1], "filter"):
            return [(s, ("k", int(b))) for s, b in a.branch_bool(st, ("o", NOFILTER, ai.EMPTY))]
        if n in ("eq", "ne") and len(v) == 2 and "given" in [self.list_of(a, st, x) for x in c.args]:
            y = [x for x in c.args if self.list_of(a, st, x) is None]
            if y and names_dash(a._deepread(st, y[0])):
                return [(s, ("k", int(b == (n == "eq")))) for s, b in a.branch_bool(st, ("o", GIVENDASH, ai.EMPTY))]
        k = [self.list_of(a, st, x) for x in c.args]
        to = None
        if n == "insert" and len(v) == 3 and "Vec" in c.path and k[0] and c.args[0][0] == "r":
            to = {"given": "first", "none": "only"}.get(k[0], "?") if v[1] == ("k", 0) and "firstarg" in ls[2] else "?"
        elif n == "clear" and k[0]:
            to = "none"
        elif n == "push" and k[0] == "none" and "firstarg" in ls[1]:
            to = "only"
        elif n in ("extend", "append") and len(v) == 2 and k[0] and c.args[0][0] == "r":
            to = {("only", "given"): "first", ("none", "given"): "given"}.get(tuple(k[:2]), "?")
        elif n in ("push", "pop", "remove", "swap", "reverse", "sort", "truncate", "retain", "dedup", "clear", "swap_remove") and k[:1] != [None] and k:
            to = "?"
        if to is not None:
            if c.args[0][0] == "r":
                st.write((c.args[0][1], c.args[0][2]), ("o", ("list", to), frozenset(["files"])))
            return [(st, a.fresh(st, c))]
        if n == "chain" and k[:2] == ["only", "given"]:
            return [(st, ("o", ("list", "first"), frozenset(["files"])))]
        if n == "new" and "Vec::" in c.path:
            return [(st, ("o", ("list", "none"), frozenset(["files"])))]
        if n == "once" and "firstarg" in ls[0] or "into_vec" in n and v and self.boxed(st, v[0]):
            return [(st, ("o", ("list", "only"), frozenset(["files"])))]
        return None

    def boxed(self, st, v):
        """does a boxed array hold the first argument and nothing else"""
        if v[0] == "o":
            vs = [x for t, x in st.heap.items() if loop.root(t) == v[1]]
            v = vs[0] if len(vs) == 1 else v
        return v[0] == "s" and len(v[1]) == 1 and v[1][0][1][0] == "o" and v[1][0][1][1] == ("firstarg",)

    def given(self, a, st, k):
        """is the list gone through the one called for"""
        if "expr_file" not in self.fields:
            return k == "given"
        d = {v for t, v in st.ass.items() if cmds.tag_ends(t, "expr_file")}
        if d == {"None"}:
            return k == "given"
        e, f = st.ass.get(NOFILTER), st.ass.get(GIVENDASH)
        return d == {"Some"} and (e == 1 and k == "given" or e == 0 and (f == 0 and k == "first" or f == 1 and k == "only"))

    def next(self, a, st, c):
        ls, ph, src = st.mon
        self.ctx.count("steps_visited")
        if ph == "start":
            k = self.list_of(a, st, c.args[0])
            if ls == "?" or not self.given(a, st, k):
                self.bad(a, "list", "does not go through the inputs called for" + (", but through the arguments as given" if k == "given" else ""))
        if ph == "item":
            self.bad(a, "skipped", "steps to the next input without having read the one before")
        if ph == "open":
            self.bad(a, "left", "leaves an input before its end")
        if ph == "done":
            self.bad(a, "again", "goes through its inputs again")
        for t in [t for t in st.ass if t[:1] in (self.GZ, self.DASH)]:
            if t[1][1:2] == (("path",),):
                del st.ass[t]
        s = st.copy()
        s.mon = ls, "done", ""
        st.mon = ls, "item", ""
        return [(st, ("e", "Some", (("0", ("o", ("path",), frozenset(["path"]))),))), (s, ("e", "None", ()))]

    def facts(self, st):
        p = ("o", ("path",), frozenset(["path"]))
        return st.ass.get(self.GZ + (p,)), st.ass.get(self.DASH + (p,))

    def source(self, a, st, c, kind, v, ls):
        """an input is opened, or decompression put on it"""
        lst, ph, src = st.mon
        self.ctx.count("opens_visited")
        gz, dash = self.facts(st)
        if kind in ("file", "stdin"):
            if ph != "item":
                self.bad(a, "twice", "opens an input a second time")
            if kind == "file" and "path" not in ls:
                self.bad(a, "path", "opens something else than the input at hand")
            if kind == "file" and not (gz == 1 or dash == 0) or kind == "stdin" and not (gz != 1 and dash == 1):
                self.bad(a, kind, "opens %s %s" % ("standard input" if kind == "stdin" else "a file", (
                    "although the name is not `-`" if dash == 0 or gz == 1 else "without having tested the name") if kind == "stdin" else
                    "although the name is `-`" if dash == 1 else "without having tested whether the name is `-`"))
        elif gz != 1:
            self.bad(a, "gz", "decompresses an input %s" % ("although its name does not end in .gz" if gz == 0 else "whatever its name"))
        s = st.copy()
        s.mon = lst, "open", kind
        return s

    def read(self, a, st, c):
        ls, ph, src = st.mon
        self.ctx.count("reads_visited")
        gz, dash = self.facts(st)
        for t in [t for t in st.ass if t[:1] in (self.GZ, self.DASH) or t == INRANGE or t[0] == "reached"]:
            del st.ass[t]
        if ph not in ("open", "end"):
            self.bad(a, "unopened", "reads before an input is opened")
        elif src == "file" and gz != 0:
            self.bad(a, "not-gz", "reads %s without decompressing it" % ("a .gz file" if gz else "an input without having tested whether its name ends in .gz"))

    def exit(self, a, st, v, node):
        if not (v[0] == "e" and v[1] == "Ok"):
            return
        self.ctx.count("exits_visited")
        if st.mon[1] != "done" and not self.ended(st):
            self.bad(a, "stops", "ends in success without having read all inputs, and not by a limit", node)

    def ended(self, st):
        """was a limit (or the range of a slice) compared with since the last read"""
        self.collapse(st)
        r = {t[1] for t in st.ass if t[0] == "reached"}
        return bool(r - {"start"}) or "start" in r and st.ass.get(INRANGE) == 0

    def collapse(self, st):
        for t in [t for t in st.ass if ofend(t)]:
            for n in reached(t, st.ass[t]):
                st.ass[("reached", n)] = 1
            del st.ass[t]

    def trim(self, a, st, bid):
        self.collapse(st)
        for t in [t for t in st.ass if not self.mine(t) or st.mon[1] != "start" and (
                t in (NOFILTER, GIVENDASH) or cmds.tag_ends(t[1] if t[0] == "ne" else t, "expr_file"))]:
            del st.ass[t]

    def mine(self, t):
        u = t[1] if t[0] == "ne" else t
        return keep(t) or u[0] == "call" and READ.search(str(u[2]))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) | ai.labels(y, st) for x, y in zip(c.args, v)]
        if n == "next" and v and self.list_of(a, st, c.args[0]):
            return self.next(a, st, c)
        if n == "contains" and v and "start" in self.fields:
            return [(s, ("k", int(b))) for s, b in a.branch_bool(st, ("o", INRANGE, ai.EMPTY))]
        r = self.rebuild(a, st, c, n, v, ls)
        if r is not None:
            return r
        if n == "map" and len(v) == 2 and v[1][0] == "k" and re.search(r"::(from|into|as_ref|new|as_path|as_os_str|clone|to_owned)$", str(v[1][1])):
            n = "iter"
        if st.mon[1] == "start" and n not in STEPS and any(
                self.list_of(a, st, x) and o[0] in "cm" and a.g.locals[o[1][0]][0].startswith("&mut") for o, x in zip(c.t["args"], c.args)):
            st.mon = ("?",) + st.mon[1:]
        if n in STEPS and v:
            k = self.list_of(a, st, v[0])
            if k:
                if st.mon[1] == "start" and st.mon[0] != "?":
                    st.mon = (k,) + st.mon[1:]
                    k = "taken"
                return [(st, ("o", ("list", k), frozenset(["files"])))]
        if cmds.NEXT.search(c.path):
            self.read(a, st, c)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            out = []
            for ph, x in (("end", ("e", "None", ())),
                          ("open", ("e", "Some", (("0", ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),))),))),
                          ("open", ("e", "Some", (("0", ("e", "Ok", (("0", ("o", ("rec", c.site), frozenset(["rec"]))),))),)))):
                s = st.copy()
                s.mon = st.mon[0], ph, "read"
                out.append((s, x))
            return out
        if n in ("read_until", "read_line") and "BufRead" in c.path:
            self.read(a, st, c)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            a.havoc_muts(st, c)
            out = []
            for ph, x in (("end", ("k", 0)), ("open", ("o", tag, ai.EMPTY))):
                s = st.copy()
                s.mon = st.mon[0], ph, "read"
                if ph == "open":
                    s.ass[("ne", tag)] = (0,)
                out.append((s, ai.ok(x)))
            return out + [(st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if c.path == "std::fs::File::open" and "config" not in c.fn:
            if "path" not in ls[0]:
                return None
            s = self.source(a, st, c, "file", v[0], ls[0])
            return [(s, ai.ok(("o", ("file",), frozenset(["file"])))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if c.path == "std::io::stdio::stdin":
            return [(self.source(a, st, c, "stdin", None, ()), ("o", ("stdin",), frozenset(["stdin"])))]
        if re.search(r"flate2::.*Decoder.*::new$", c.path):
            if "MultiGzDecoder" not in c.path:
                self.bad(a, "members", "decompresses with %s, which is not made to read all members of a gzip file" % c.path)
            if "file" in ls[0]:
                return [(self.source(a, st, c, "gz", None, ls[0]), ("o", ("gz",), frozenset(["gz"])))]
        return self.names(a, st, c, n, v, ls)


def run(ctx):
    prog = ctx.prog
    todo = []
    for f in cmds.executes(prog):
        adt = prog.adts.get(f.j["impl_self"])
        if adt is None:
            raise mir.MissingAnchor("options of %s" % f.path)
        if "filenames" in {x[0] for x in adt["variants"][0]["fields"]}:
            todo.append(f.key)
    ctx.parallel(todo, one)
    ctx.floor("commands", 16)
    ctx.floor("opens_visited", 48)
    ctx.floor("reads_visited", 16)
    ctx.floor("steps_visited", 32)


def one(ctx, key):
    prog = ctx.prog
    f = prog.fns[key]
    fields = {x[0] for x in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]}
    rel = cmds.relevant(prog, ("pica", "pica_record"), SRC)
    g = ctx.flat(f, inline=lambda h: h.key in rel and not cmds.NEXT.search("::" + h.name) and "config" not in h.path, foreign=True)
    m = Mon(ctx, f, fields)
    a = ai.AI(prog, g, m, keep=keep, maxstates=200000)
    a.K = 1
    a.run()
    ctx.unit(f.path)
    ctx.count("commands")
    ctx.count("states", a.nstates)
    if DEBUG:
        print(f.path, a.nstates)


DEBUG = False


ENDS = ("limit", "start", "end", "length")


def ofend(t):
    """a comparison with what may end the work"""
    return t[0] == "op" and any(cmds.tag_has(t, n) for n in ENDS)


def reached(t, v):
    """which of the bounds the outcome of a comparison says has been reached"""
    if len(t) != 4 or t[1] not in ("Ge", "Gt", "Eq", "Le", "Lt", "Ne"):
        return []
    x, y = t[2], t[3]
    out = []
    for n in ENDS:
        a, b = cmds.tag_has(x, n), cmds.tag_has(y, n)
        if n != "start" and "k" in (x[0], y[0]):
            continue
        if a != b and ((t[1] in (("Ge", "Gt") if b else ("Le", "Lt")) or t[1] == "Eq") if v else
                       (t[1] in (("Lt", "Le") if b else ("Gt", "Ge")) or t[1] == "Ne")):
            out.append(n)
    return out


def keep(t):
    t = t[1] if t[0] == "ne" else t
    return t[:1] in (Ext.GZ, Ext.DASH) or t in (NOFILTER, GIVENDASH, INRANGE) or t[0] == "reached" or ofend(t) or cmds.tag_ends(t, "expr_file")
