"""concat --unique and hash: what a record is known by."""
import re
import ai, cmds, loop, mir

META = {
    "id": "P47",
    "title": "concat --unique drops exactly the repeated records; hash names each by its key",
    "statement": "Without --unique, concat writes every record it reads; with it, it writes a record exactly if it has a key (by "
                 "default its PPN, on demand its SHA-256 digest) that no record written before has, in whichever input "
                 "that was. For every accepted record, hash writes one row: its PPN, which is empty if it has none, and "
                 "the digest of that same record as two lower-case hexadecimal digits for each of its bytes, in order.",
    "over": ["inputs", "configurations"],
    "for_all": "every sequence of inputs and records, with or without a PPN and with any repetition",
    "why": "Whether a record is a repetition depends on every record before it; tests concatenate a few files.",
    "files": ["crates/pica-cli/src/commands/concat.rs", "crates/pica-cli/src/commands/hash.rs"],
    "mechanism": [["deduplication", "crates/pica-cli/src/commands/concat.rs: Concat::execute, record_key"],
                  ["rows", "crates/pica-cli/src/commands/hash.rs: Hash::execute"]],
    "technique": "typestate analysis of the record loop by abstract interpretation of the MIR",
    "rule": "At the end of each record's step it has been written iff its key is known to be present and known not to be among "
            "those remembered, and a written record's key has been remembered, in a set made before the loop and never emptied; "
            "a hash row consists of the PPN and the digest of the record at hand, and there is one for each accepted record. A "
            "digest's text is one to which each of its bytes, in order, has added its two-digit hexadecimal form once.",
    "assumptions": ["the digest of a record is computed from its bytes (P05)"],
}
WRITE = re.compile(r"ByteRecordWrite::write_byte_record$")
CSV = re.compile(r"csv::writer::Writer::<W>::(write_record|write_byte_record|serialize|write_field)$")
SETOP = re.compile(r"(Hash|BTree|Index)Set\b")
STRNEW = re.compile(r"(?:String|Vec::<T>|<.*String.*>)::(new|with_capacity)$")
HEX2 = ("k", (195, 32, 0, 0, 105, 2, 0, 0))
SAME = {"to_string", "to_owned", "clone", "deref", "as_ref", "as_bstr", "as_bytes", "into", "from", "to_vec", "as_str", "borrow", "to_bstring",
        "into_string", "into_owned", "to_str_lossy", "as_slice", "as_byte_slice", "into_bytes", "must_use", "to_bytes", "into_boxed_str",
        "finalize"}
PPN, SHA, HEX = ("o", ("ppn",), frozenset(["ppn"])), ("o", ("sha",), frozenset(["sha"])), ("o", ("hex",), frozenset(["hex"]))
BYTE, ARG, TWO = ("o", ("byte",), frozenset(["byte"])), ("o", ("hexarg",), frozenset(["hexarg"])), ("o", ("two",), frozenset(["two"]))
KEYS = (PPN, HEX, SHA, ("k", ""))


class Mon(loop.LoopMon):
    # written rows or records, key seen before, key empty, key remembered, state of the text of the digest
    extra0 = (0, None, None, False, None)
    W, SEEN, EMPTY, INS, TXT = range(4, 9)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[getattr(self, k)] = v
        st.mon = tuple(m)
        return st

    def reset(self, extra):
        return self.extra0

    def on_read(self, a, st):
        self.settle(a, st)

    def settle(self, a, st, node=None):
        m = st.mon
        if m[0] != "rec":
            return
        self.ctx.count("records_settled")
        if self.cmd == "hash":
            if all(self.accepted(st)) and m[self.W] != 1:
                self.bad(a, "rows", "%s for an accepted record" % ("no row is written" if not m[self.W] else "more than one row is written"), node)
            return
        w = m[self.W]
        if not self.unique:
            if not w:
                self.bad(a, "missing", "without --unique a record is not written", node)
            return
        if w and m[self.SEEN] is not False:
            self.bad(a, "repeated", "a record is written %s" % (
                "although its key has been seen" if m[self.SEEN] else "without looking whether its key has been seen"), node)
        if w and m[self.EMPTY] is not False and self.strategy == "Idn":
            self.bad(a, "keyless", "a record %s is written" % (
                "without a key" if m[self.EMPTY] else "of which it is not known whether it has a key"), node)
        if w and not m[self.INS]:
            self.bad(a, "forgotten", "a record is written and its key is not remembered", node)
        if not w and m[self.SEEN] is not True and m[self.EMPTY] is not True:
            self.bad(a, "dropped", "a record whose key is not known to have been seen before is dropped", node)
        if not w and m[self.INS] and m[self.SEEN] is not True and m[self.EMPTY] is not True:
            self.bad(a, "marked", "the key of a record that is dropped is remembered", node)

    # -- values
    def text(self, a, st, v):
        v = a._deepread(st, v)
        while v[0] == "s" and len(v[1]) == 1:
            v = a._deepread(st, v[1][0][1])
        return v

    def fork(self, st, k, inv=False):
        out = []
        i = getattr(self, k)
        for b in (True, False):
            if st.mon[i] in (None, b):
                out.append((self.put(st.copy(), **{k: b}), ("k", int(b != inv))))
        return out

    def empty(self, st, v):
        if v == ("k", ""):
            return [(self.put(st, EMPTY=True), ("k", 1))]
        if v == PPN:
            return self.fork(st, "EMPTY")
        if v in (HEX, SHA):
            return [(self.put(st, EMPTY=False), ("k", 0))]
        return None

    def new_item(self, a, st, v):
        src = self.text(a, st, a.operand(st, v["from"][0]))
        tag = ("cb", v["call"].get("bid"), v["ai"])
        if src == SHA:
            self.round(st)
            return BYTE
        a.kill(st, tag)
        return ("o", tag, ai.labels(src, st) - {"sha", "ppn", "hex"})

    def round(self, st):
        """the next byte of the digest"""
        t = st.mon[self.TXT]
        self.put(st, TXT="due" if t in (None, "added") else "bad")

    def exhausted(self, a, st, t):
        src = self.text(a, st, a.operand(st, t["src"]))
        if src == SHA:
            self.finished(st)

    def finished(self, st):
        t = st.mon[self.TXT]
        if t is None:       # a digest is not empty
            st.dead = True
        self.put(st, TXT="full" if t == "added" else "bad")

    def add(self, a, st, o, x, value):
        """something is appended to a text"""
        ref = o
        t = st.mon[self.TXT]
        ok = x == TWO and t == "due"
        self.put(st, TXT="added" if ok else "bad")
        if value:
            return [(st, HEX)]
        if ref[0] == "r":
            st.write((ref[1], ref[2]), HEX)
        return [(st, ai.ok(("s", (), "tuple")))]

    def on_call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [self.text(a, st, x) for x in c.args]
        rec = st.mon[0] == "rec"
        if rec and n == "ppn" and len(v) == 1 and "rec" in ai.labels(v[0], st):
            self.ctx.count("keys_visited")
            return [(st.copy(), ("e", "Some", (("0", PPN),))), (self.put(st, EMPTY=True), ("e", "None", ()))]
        if rec and n == "sha256" and len(v) == 1 and "rec" in ai.labels(v[0], st):
            self.ctx.count("keys_visited")
            return [(self.put(st, TXT=None), SHA)]
        if n in ("unwrap_or_default", "unwrap_or", "map_or", "unwrap_or_else", "map_or_default") and v[0][0] == "e" and v[0][1] in ("Some", "None"):
            if n.startswith("unwrap"):
                if v[0][1] == "Some":
                    return [(st, self.text(a, st, v[0][2][0][1]))]
                if n == "unwrap_or_default" or n == "unwrap_or" and self.blank(v[1]) or n == "unwrap_or_else" and self.makes(v[1]):
                    return [(st, ("k", ""))]
            return None
        if n == "map" and len(v) == 2 and v[0][0] == "e" and v[0][1] in ("Some", "None") and v[1][0] == "k" \
                and str(v[1][1]).startswith("fn:") and v[1][1].rsplit("::", 1)[-1] in SAME:
            x = [(k, self.text(a, st, y)) for k, y in v[0][2]]
            if all(y in KEYS for _, y in x):
                return [(st, ("e", v[0][1], tuple(x)))]
        if STRNEW.search(c.path) or n == "default" and "String" in (c.t.get("dty") or ""):
            return [(st, ("k", ""))]
        if c.path == mir.COLL_NEW and rec and st.mon[self.TXT] is None:
            return [(st, HEX)]
        if n == "concat" and v == [HEX] or n == "join" and v == [HEX, ("k", "")]:
            return [(st, HEX)]
        if n == "box_assume_init_into_vec_unsafe":
            for _, x, _ in self.g.blocks[c.site]["s"]:
                if x["r"] == "agg" and x["kind"] == "array":
                    return [(st, ("s", tuple((str(i), self.text(a, st, a.operand(st, o))) for i, o in enumerate(x["ops"])), "array"))]
        if n == "is_empty" and len(v) == 1:
            return self.empty(st, v[0])
        if n in ("eq", "ne") and len(v) == 2 and self.blank(v[1]):
            r = self.empty(st, v[0])
            return [(s, ("k", k[1] ^ (n == "ne"))) for s, k in r] if r else None
        if n in SAME and len(v) == 1 and v[0] in KEYS + (TWO,):
            return [(st, v[0])]
        if n in ("iter", "into_iter", "as_slice", "as_ref", "deref", "by_ref", "copied", "cloned", "bytes") and len(v) == 1 and v[0] in (SHA, BYTE):
            return [(st, v[0])]
        # texts
        if n == "next" and v[:1] == [SHA] and c.path.startswith("core::iter"):
            s = st.copy()
            self.finished(s)
            self.round(st)
            return [(x, ("e", "None", ())) for x in (s,) if not x.dead] + [(st, ("e", "Some", (("0", BYTE),)))]
        if n == "new_lower_hex" and v == [BYTE]:
            return [(st, ARG)]
        if c.path.startswith("core::fmt::Arguments") and n == "new" and len(v) == 2:
            two = a._deepread(st, c.args[1])
            el = [self.text(a, st, x) for _, x in two[1]] if two[0] == "s" else [two]
            return [(st, TWO if v[0] == HEX2 and el == [ARG] else ("o", ("fmt", c.site), ai.EMPTY))]
        if n == "format" and len(v) == 1 and c.path.startswith("alloc::fmt"):
            return [(st, v[0] if v[0] == TWO else ("o", ("fmt", c.site), ai.EMPTY))]
        if rec and st.mon[self.TXT] in ("due", "added") and len(v) == 2 and n in (
                "add", "write_fmt", "push_str", "write_str", "coll_push", "push", "add_assign", "extend", "insert_str", "coll_add"):
            return self.add(a, st, c.args[0], v[1], n == "add")
        # the keys remembered
        if SETOP.search(c.path):
            if n in ("new", "with_capacity", "default"):
                if rec or c.site in self.loop.body:
                    self.bad(a, "forgets", "the keys seen are not remembered for the whole run")
                return [(st, ("o", ("set", c.site), frozenset(["set"])))]
            if n in ("contains", "insert", "get", "replace") and len(v) == 2 and rec and self.cmd == "concat":
                self.ctx.count("lookups_visited")
                want = {"Idn": (PPN, ("k", "")), "Hash": (HEX, SHA)}[self.strategy]
                if v[1] not in want or v[1] == HEX and st.mon[self.TXT] != "full":
                    self.bad(a, "key", "something else than the key of the record at hand is looked up or remembered")
                # whether an empty key has been seen is of no interest
                out = []
                for s, k in self.fork(st, "SEEN"):
                    if n in ("insert", "replace"):
                        k = ("k", 1 - k[1])
                        self.put(s, INS=True)
                    if n in ("get", "replace"):
                        k = ("e", "Some", (("0", v[1]),)) if s.mon[self.SEEN] else ("e", "None", ())
                    out.append((s, k))
                return out
            if n in ("clear", "remove", "retain", "drain", "take", "extract_if") or n == "insert_unique_unchecked":
                self.bad(a, "forgets", "keys remembered are forgotten by `%s`" % n)
        # rows and records
        if rec and WRITE.search(c.path) and self.cmd == "concat":
            self.ctx.count("writes_visited")
            if "rec" not in ai.labels(v[1], st) | ai.labels(c.args[1], st):
                self.bad(a, "other", "something else than the record at hand is written")
            s = self.put(st.copy(), W=1)
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if rec and CSV.search(c.path) and self.cmd == "hash":
            self.ctx.count("writes_visited")
            if n == "write_field":
                ok = st.mon[self.W] in (0, "half") and (
                    self.isppn(st, v[1]) if not st.mon[self.W] else v[1] == HEX and st.mon[self.TXT] == "full")
                if not ok:
                    self.bad(a, "row", "a row does not consist of the PPN and the digest of the record at hand")
                w = "half" if not st.mon[self.W] else "whole"
            elif st.mon[self.W] == "whole":
                w = 1
            else:
                row = a._deepread(st, c.args[1])
                el = [self.text(a, st, x) for _, x in row[1]] if row[0] == "s" else []
                if len(el) != 2 or not self.isppn(st, el[0]) or el[1] != HEX or st.mon[self.TXT] != "full":
                    self.bad(a, "row", "a row does not consist of the PPN and the digest of the record at hand")
                w = 1 if not st.mon[self.W] else 2
            s = self.put(st.copy(), W=w)
            return [(s, ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return None

    def isppn(self, st, v):
        return v == PPN or v == ("k", "") and st.mon[self.EMPTY] is True

    def makes(self, v):
        return v[0] == "k" and str(v[1]).startswith("fn:") and bool(STRNEW.search(v[1]) or v[1].endswith("Default::default"))

    def blank(self, v):
        return v in (("k", ""), ("k", ()))

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        self.settle(a, st, node)


def one(ctx, item):
    key, heap, unique, strategy = item
    prog = ctx.prog
    f = prog.fns[key]
    rx = re.compile("|".join((loop.RX.pattern, WRITE.pattern, CSV.pattern, r"::ppn$|::sha256$", SETOP.pattern)))
    g = ctx.flat(f, inline=loop.inliner(prog, rx, tuple(n for n, _ in heap)), collect=True, reduce=True)
    m = Mon(ctx, f, g)
    m.unique, m.strategy = unique, strategy
    h = {("f", ("p", "self"), n): v for n, v in heap}
    a = ai.AI(prog, g, m, keep=loop.keep_default, init={"heap": h})
    a.run()
    ctx.count("states", a.nstates)
    ctx.unit("%s %s" % (f.path, "--unique by " + strategy if unique else ""))


def run(ctx):
    fs = {cmds.cmdname(f): f for f in cmds.executes(ctx.prog)}
    for n in ("concat", "hash"):
        if n not in fs:
            raise mir.MissingAnchor("command " + n)
    names = {x[0] for x in ctx.prog.adts[fs["concat"].j["impl_self"]]["variants"][0]["fields"]}
    for n in ("unique", "unique_strategy"):
        if n not in names:
            raise mir.MissingAnchor("option %s of concat" % n)
    items = [(fs["hash"].key, (), False, "Idn"), (fs["concat"].key, (("unique", ("k", 0)),), False, "Idn")]
    items += [(fs["concat"].key, (("unique", ("k", 1)), ("unique_strategy", ("e", s, ()))), True, s) for s in ("Idn", "Hash")]
    ctx.parallel(items, one)
    ctx.floor("records_settled", 10)
    ctx.floor("lookups_visited", 2)
    ctx.floor("writes_visited", 4)
    ctx.floor("keys_visited", 4)
