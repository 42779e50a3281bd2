import re
import ai, cmds, loop, mir
import P04

META = {
    "id": "P39",
    "title": "`partition` puts a record into the file of each of its values, once",
    "statement": "For every accepted record and every distinct value its path expression yields, `partition` writes the record "
                 "exactly once to the file of that value and to no other (a --limit reached on the way ends the run). The file "
                 "is in the output directory and named by the template with every placeholder replaced by the value; one value "
                 "has one file, opened once.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, path expression, template and sequence of values",
    "why": "A value that occurs twice in one record, or again after others, is where records go missing or are written twice; "
           "tests use values that occur once.",
    "files": ["crates/pica-cli/src/commands/partition.rs"],
    "mechanism": [["values, writer table and write", "crates/pica-cli/src/commands/partition.rs"]],
    "technique": "typestate over the loop over values with provenance of keys and names (abstract interpretation of MIR)",
    "rule": "the loop ranges over all values of the path of the current record with the path and matcher options given, made "
            "distinct; each value's step writes the record once to the writer stored in the table under exactly that value; a "
            "missing writer is opened at outdir.join(template with the placeholder replaced by the value) and stored.",
    "assumptions": ["sorting and then dropping adjacent duplicates leaves each value once"],
}
NEXT = "core::iter::traits::iterator::Iterator::next"
SETS = re.compile(r"(BTreeSet|HashSet)<")


class Mon(loop.LoopMon):
    # value at hand?, writes for it, values of this record: None/open/done, order of the values: raw/sorted/distinct,
    # is there a writer for the value: None/absent/present
    extra0 = (False, 0, None, None, None)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def reset(self, extra):
        return (False, 0, None, None, None)

    def closev(self, a, st, node=None):
        at, w, vs, od, pr = st.mon[4:]
        if at and w == 0:
            self.bad(a, "missing", "goes on to the next value without having written the record to the file of one", node)

    def on_read(self, a, st):
        if st.mon[0] == "rec" and all(self.accepted(st)):
            self.closev(a, st)
            if st.mon[6] != "done":
                self.bad(a, "values", "goes on to the next record before all values of an accepted one are dealt with")

    # the values of the record
    def enter(self, a, st, ls, tag, ty):
        self.closev(a, st)
        self.ctx.count("values_visited")
        if st.mon[7] != "distinct":
            self.bad(a, "duplicates", "a value that occurs twice in a record is taken twice")
        a.kill(st, tag)
        st.mon = st.mon[:4] + (True, 0, "open", st.mon[7], None)
        return ("o", tag, frozenset(["value"]))

    def done(self, a, st, ls):
        self.closev(a, st)
        if "cut" not in ls:
            st.mon = st.mon[:4] + (False, 0, "done", st.mon[7], None)

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        ls = ai.labels(src, st) | ai.labels(a.val(st, src), st)
        tag = ("cb", v["call"].get("bid"), v["ai"])
        if "vals" in ls:
            return self.enter(a, st, ls, tag, "")
        a.kill(st, tag)
        return ("o", tag, ls)

    def exhausted(self, a, st, t):
        src = a.operand(st, t["src"])
        ls = ai.labels(src, st) | ai.labels(a.val(st, src), st)
        if "vals" in ls:
            self.done(a, st, ls)

    def on_call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) | ai.labels(y, st) for x, y in zip(c.args, v)]
        if n == "path" and c.path.startswith("pica_record::") and len(v) >= 2 and "rec" in ls[0]:
            self.ctx.count("paths")
            if not cmds.tag_ends(v[1][1] if v[1][0] == "o" else (), "path"):
                self.bad(a, "path", "the values are not those of the path expression given")
            if len(v) > 2 and not self.options(a, st, v[2]):
                self.bad(a, "options", "the path is not evaluated with the matcher options given")
            return [(self.order(st, "raw"), ("o", ("vals",), frozenset(["vals"])))]
        if ls and "vals" in ls[0]:
            if c.path == NEXT:
                s = st.copy()
                self.done(a, s, ls[0])
                return [(s, ("e", "None", ())),
                        (st, ("e", "Some", (("0", self.enter(a, st, ls[0], ("call", c.site, c.path), "")),)))]
            if re.match(r"sort(_unstable)?$", n):
                return [(self.order(st, "sorted"), ("s", (), "tuple"))]
            if n == "dedup":
                # adjacent equal values only
                return [(self.order(st, "distinct") if st.mon[7] == "sorted" else st, ("s", (), "tuple"))]
            if n in ("collect", "from_iter"):
                return [(self.order(st, "distinct") if SETS.search(c.t.get("dty") or "") else st, v[0])]
            if n in ("unique",) and "Itertools" in c.path:
                return [(self.order(st, "distinct"), v[0])]
        # the table of writers
        if n == "entry" and len(v) == 2 and re.search(r"Map", c.path):
            self.ctx.count("lookups")
            self.key(a, st, v[1], ls[1])
            return [(self.known(st.copy(), "present"), ("e", "Occupied", (("0", ("o", ("entry", c.site), frozenset(["slot"]))),))),
                    (self.known(st, "absent"), ("e", "Vacant", (("0", ("o", ("entry", c.site), frozenset(["slot"]))),)))]
        if n in ("get_mut", "contains_key", "get", "insert") and len(v) >= 2 and re.search(r"Map\b", c.path):
            self.ctx.count("lookups")
            self.key(a, st, v[1], ls[1])
            if n == "insert":
                if "writer" not in ls[2]:
                    self.bad(a, "store", "something else than the writer opened is stored for a value")
                return [(self.known(st, "present"), ("e", "None", ()))]
            out = []
            for k in ("absent", "present"):
                if st.mon[8] in (None, k):
                    r = ("k", int(k == "present")) if n == "contains_key" else ("e", "None", ()) if k == "absent" else \
                        ("e", "Some", (("0", ("o", ("slot", c.site), frozenset(["slotwriter"]))),))
                    out.append((self.known(st.copy(), k), r))
            return out
        if ls and "slot" in ls[0]:
            if n in ("insert", "insert_entry", "or_insert"):
                if "writer" not in ls[1]:
                    self.bad(a, "store", "something else than the writer opened is stored for a value")
                return [(st, ("o", ("slot", c.site), frozenset(["slotwriter"])))]
            if n in ("get_mut", "into_mut", "get", "or_insert_with"):
                return [(st, ("o", ("slot", c.site), frozenset(["slotwriter"])))]
        if n == "replace" and c.path.startswith("alloc::str") and len(v) == 3:
            if v[1] != ("k", "{}"):
                self.bad(a, "placeholder", "another placeholder than `{}` is replaced")
            if "value" not in ls[2]:
                self.bad(a, "name", "the placeholder is not replaced by the value")
            return [(st, ("o", ("name",), frozenset(["name"]) | (ls[2] & {"value"})))]
        if n in ("replacen", "replace_range") and len(v) >= 3:
            self.bad(a, "placeholder", "not every placeholder is replaced")
        if n == "join" and "Path" in c.path and len(v) == 2:
            t = v[0][1] if v[0][0] == "o" else ()
            if cmds.tag_ends(t, "outdir") and "name" in ls[1]:
                return [(st, ("o", ("target",), frozenset(["target"])))]
            return None
        if P04.CREATE.search(c.path):
            self.ctx.count("opens")
            if not any("target" in l for l in ls):
                self.bad(a, "target", "a file is opened that is not the one of the value in the output directory")
            if not st.mon[4]:
                self.bad(a, "when", "a file is opened while no value is at hand")
            elif st.mon[8] != "absent":
                self.bad(a, "reopened", "a file is opened for a value although there may be a writer for it already")
            s = st.copy()
            tag = ("call", c.site, c.path)
            a.kill(s, tag)
            return [(s, ai.ok(("o", tag, frozenset(["writer"])))),
                    (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if P04.WRITE.search(c.path) and len(v) == 2:
            self.ctx.count("writes_visited")
            at, w, vs, od, pr = st.mon[4:]
            if not at:
                self.bad(a, "outside", "the record is written although no value is at hand")
            elif w:
                self.bad(a, "twice", "the record is written twice for one value")
            if "slotwriter" not in ls[0]:
                self.bad(a, "writer", "the record is not written to the writer stored for the value")
            if "rec" not in ls[1]:
                self.bad(a, "record", "what is written is not the record read")
            s = st.copy()
            s.mon = s.mon[:4] + (at, min(w + 1, 2), vs, od, pr)
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return None

    def options(self, a, st, v):
        return v[0] == "o" and cmds.tag_has(v[1], "filter_opts")

    def known(self, st, o):
        st.mon = st.mon[:8] + (o,)
        return st

    def order(self, st, o):
        st.mon = st.mon[:7] + (o, st.mon[8])
        return st

    def key(self, a, st, v, ls):
        v = a._deepread(st, v)
        if "value" not in ls or "cut" in ls:
            self.bad(a, "key", "the table of writers is not consulted for the value at hand")
        elif not ident(v):
            self.bad(a, "key", "different values can share an entry in the table of writers")

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        if st.mon[0] == "rec" and all(self.accepted(st)):
            at, w, vs, od, pr = st.mon[4:]
            if at and w == 0:
                self.bad(a, "stops", "ends before the record is written to the file of a value at hand", node)


ID = re.compile(r"(to_vec|to_owned|clone|into|from|as_ref|as_bytes|deref|into_owned|borrow|to_bstring)$")


def ident(v):
    """the value itself, unchanged"""
    if v[0] != "o":
        return v[0] == "s" and len(v[1]) == 1 and ident(v[1][0][1])
    t = v[1]
    return t[0] != "call" or t[2] == NEXT or bool(ID.search(t[2]))


def run(ctx):
    prog = ctx.prog
    f = next((f for f in cmds.executes(prog) if cmds.cmdname(f) == "partition"), None)
    if f is None:
        raise mir.MissingAnchor("Partition::execute")
    rx = re.compile("|".join((loop.RX.pattern, P04.WRITE.pattern, P04.CREATE.pattern, r"path::PathExt::path$", r"str::replace")))
    g = ctx.flat(f, inline=loop.inliner(prog, rx, ("outdir", "template")))
    m = Mon(ctx, f, g)
    a = ai.AI(prog, g, m, keep=loop.keep_default)
    a.run()
    ctx.unit(f.path)
    ctx.count("states", a.nstates)
    for k in ("values_visited", "paths", "lookups", "opens", "writes_visited", "ok_exits"):
        ctx.floor(k, 1)
