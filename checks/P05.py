import re
import ai, mir

META = {
    "id": "P05",
    "title": "Changes to a record show in everything derived from it",
    "statement": "After a parsed record was changed through any of the library's operations, or handed out for changing, "
                 "writing, hashing and comparing it use the changed fields and no longer the bytes it was read from. A record "
                 "that was built from fields never claims to have such bytes.",
    "over": ["inputs", "histories"],
    "for_all": "every record and every sequence of operations on it",
    "why": "The stale bytes are only visible after particular sequences of read, change and use; tests try single ones.",
    "files": ["src/record.rs"],
    "mechanism": [["raw_data is reset on every mutable access", "src/record.rs"],
                  ["write_to / hash / eq prefer raw_data", "src/record.rs"]],
    "technique": "ownership and effect analysis of mutable access paths (abstract interpretation of MIR)",
    "rule": "every function that receives a record by mutable reference: on each path on which the parsed fields are "
            "borrowed mutably or assigned, the kept input bytes are None at the exit. Every construction site of a record "
            "stores either None or the very bytes the fields were parsed from. Every function reading the kept bytes falls "
            "back to the parsed fields when they are None.",
}
CELL = 10 ** 6
TY = "pica_record::record::ByteRecord"
MUT = re.compile(r"^&mut (pica_record::record::(ByteRecord|StringRecord)(<.*>)?)$")


def names(prog):
    """(field of the kept bytes, field of the parsed record), told by their types"""
    fs = {x[0]: x[1] for x in prog.adt(TY)["variants"][0]["fields"]}
    raw = [n for n, t in fs.items() if t.startswith("core::option::Option<") and "[u8]" in t]
    rec = [n for n, t in fs.items() if "RecordRef" in t]
    if len(raw) != 1 or len(rec) != 1 or len(fs) != 2:
        raise mir.MissingAnchor("ByteRecord has fields %s" % sorted(fs))
    return raw[0], rec[0]


def value(prog, raw):
    r = ("e", "Some", (("0", ("o", ("raw",), frozenset(["raw"]))),)) if raw else ("e", "None", ())
    a, b = names(prog)
    return ("s", ((a, r), (b, ("o", ("rec",), frozenset(["rec"])))), TY)


class Mut:
    """mon: have the parsed fields been handed out or changed?"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return False

    def is_rec(self, a, st, p):
        q = st.resolve(p)
        if q[0] == "tag":
            return False
        if q[0] == CELL and any(e != "*" and e[0] == "f" and e[2] == names(self.ctx.prog)[1] for e in q[1]):
            return True
        return False

    def stmt(self, a, st, p, v, sp, blk):
        if v["r"] in ("ref", "rawptr") and v.get("mut") and self.is_rec(a, st, v["p"]):
            st.mon = True
        if v["r"] == "use" or v["r"] == "agg":
            if self.is_rec(a, st, p):
                st.mon = True

    def call(self, a, st, c):
        return None

    def exit(self, a, st, v, node):
        self.ctx.count("exits")
        cell = st.env.get(CELL)
        r = None
        if cell and cell[0] == "s":
            d = dict(cell[1])
            if "0" in d and d["0"][0] == "s":
                d = dict(d["0"][1])
            r = d.get(names(self.ctx.prog)[0])
        x = a.val(st, r) if r else None
        orig = x is not None and x[0] == "e" and (x[1] == "None" or a.val(st, x[2][0][1])[1] == ("raw",))
        if not orig:
            self.ctx.violation(self.f.path + ":store", "%s stores other bytes in an existing record" % self.f.path,
                               a.trace(node))
        if st.mon:
            self.ctx.count("mutations_visited")
            if r is None or a.val(st, r)[0] != "e" or a.val(st, r)[1] != "None":
                self.ctx.violation(self.f.path + ":stale", "%s changes the fields or hands them out for changing, but keeps "
                                   "the bytes the record was read from" % self.f.path, a.trace(node))


class Use:
    """mon: labels that reached an output"""

    def __init__(self, ctx, f, raw):
        self.ctx, self.f, self.raw = ctx, f, raw

    def init(self):
        return frozenset()

    def call(self, a, st, c):
        ls = frozenset()
        for x in c.args:
            v = a.val(st, x)
            l = ai.labels(v, st)
            if v[0] == "s" and v[2] == TY:
                continue            # the whole record: decided where it is taken apart
            if v[0] == "o" and "rec" in l or v[0] == "o" and v[1] == ("raw",):
                ls = ls | (l & {"rec", "raw"})
            elif "raw" in l:
                ls = ls | {"part"}
        if ai.MODELS.get(c.path) is None:
            st.mon = st.mon | ls
        return None

    def exit(self, a, st, v, node):
        self.ctx.count("uses_visited")
        ls = ai.labels(v, st)
        seen = st.mon | ls
        if not self.raw and "rec" not in seen:
            self.ctx.violation(self.f.path + ":fields", "%s does not use the fields of a record without kept bytes"
                               % self.f.path, a.trace(node))


def run(ctx):
    prog = ctx.prog
    adt = prog.adt(TY)
    fields = rawf, recf = names(prog)
    vis = {x[0]: x[2] for x in adt["variants"][0]["fields"]}
    for n in fields:
        if "pub" in str(vis[n]).lower() and "restricted" not in str(vis[n]).lower():
            ctx.violation("public:" + n, "the field `%s` of a record can be changed from outside" % n, [])
    SR = prog.adt("pica_record::record::StringRecord")
    sname = SR["variants"][0]["fields"][0][0]
    fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.key)
           if f.crate == "pica_record" and f.body and f.is_fn and not f.derived]
    for f in fns:
        # -- mutable access
        for i in range(1, f.body["argc"] + 1):
            ty = re.sub(r"'\w+ ?", "", f.body["locals"][i][0])
            m = MUT.match(ty)
            if not m:
                continue
            v = value(prog, True)
            if m.group(2) == "StringRecord":
                v = ("s", ((sname, v),), "pica_record::record::StringRecord")
            g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not h.path.startswith("pica_record::primitives"))
            a = ai.AI(prog, g, Mut(ctx, f), init={i: ("r", CELL, ()), CELL: v})
            a.borrowed.add(CELL)
            a.run()
            ctx.count("mutators")
            ctx.unit(f.path)
        # -- construction
        built = [s for b in f.body["blocks"] for s in b["s"] if "d" in s and s["v"]["r"] == "agg" and s["v"].get("adt") == TY]
        if built:
            construct(ctx, f)
        # -- use
        reads = any(isinstance(j, list) and len(j) == 5 and j[0] == "f" and j[2] == rawf and TY in str(j[3])
                    for j in mir.walk(f.body))
        if reads and not any(MUT.match(re.sub(r"'\w+ ?", "", f.body["locals"][i][0])) for i in range(1, f.body["argc"] + 1)):
            for raw in (True, False):
                g = ctx.flat(f, inline=lambda h: False, callbacks=False)
                init = {}
                for i in range(1, f.body["argc"] + 1):
                    if TY in f.body["locals"][i][0]:
                        init[i] = value(prog, raw)
                a = ai.AI(prog, g, Use(ctx, f, raw), init=init)
                a.run()
            ctx.count("readers")
            ctx.unit(f.path)
    ctx.floor("mutators", 4)
    ctx.floor("mutations_visited", 2)
    ctx.floor("constructions", 2)
    ctx.floor("readers", 3)


def construct(ctx, f):
    g = ctx.flat(f, inline=lambda h: False, callbacks=False)

    class C:
        def init(self):
            return None

        def call(self, a, st, c):
            if c.path.endswith("RecordRef::<'a>::from_bytes") or re.search(r"RecordRef.*::from_bytes$", c.path):
                v = a.val(st, c.args[0])
                return [(st.copy(), ("e", "Err", (("0", ai.mk(("call", c.site, "err"))),))),
                        (st, ("e", "Ok", (("0", ("o", ("parsed", v[1]), ai.EMPTY)),)))]
            return None

        def stmt(self, a, st, p, v, sp, blk):
            if v["r"] == "agg" and v.get("adt") == TY:
                ctx.count("constructions")
                d = {n: a.val(st, a.operand(st, o)) for n, o in zip(v["fields"], v["ops"])}
                raw, rec = [d.get(n) for n in names(ctx.prog)]
                if raw and raw[0] == "e" and raw[1] == "None":
                    return
                src = a.val(st, raw[2][0][1]) if raw and raw[0] == "e" and raw[1] == "Some" else None
                if src is None or rec is None or rec[1] != ("parsed", src[1]):
                    ctx.violation(f.path + ":build", "%s builds a record whose kept bytes are not those its fields were "
                                  "parsed from" % f.path, [sp])
    a = ai.AI(ctx.prog, g, C())
    a.run()
    ctx.unit(f.path)
