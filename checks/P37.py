import re
import ai, cmds, mir
from emit import *
import P05

META = {
    "id": "P37",
    "title": "JSON and XML conversion carry every field and subfield in well-formed output",
    "statement": "For every record, `convert` to JSON emits one array of the record's fields in order, each an array of its tag, "
                 "its occurrence or null, and the code and value of every subfield in order; the records are separated by commas "
                 "inside one outer array. `convert` to XML emits one record element with, in order, a datafield element per "
                 "field carrying its tag and occurrence, and in it a subfield element per subfield carrying its code and its "
                 "escaped value.",
    "over": ["inputs"],
    "for_all": "every record and every number of records",
    "why": "Tests convert a few files; a dropped part, a missing comma or an unescaped value in rarer records goes unseen.",
    "files": ["crates/pica-cli/src/commands/convert/json.rs", "crates/pica-cli/src/commands/convert/xml.rs"],
    "mechanism": [["JsonWriter", "crates/pica-cli/src/commands/convert/json.rs"],
                  ["XmlWriter", "crates/pica-cli/src/commands/convert/xml.rs"]],
    "technique": "token-stream typestate: abstract interpretation of MIR against a regular grammar per format",
    "rule": "array and element constructions, their contents and the literal bytes handed to the output form, on every path "
            "without an error, a word of the format's grammar; the separator is written exactly when an earlier record was, "
            "and the record counter is raised for every record.",
    "assumptions": ["serde_json and quick_xml serialise and escape the values they are given"],
}
TEXT = lambda k, *o: part(k, *o)
OCCTXT = seq(lit("/"), part("occurrence"))


def json(first):
    def s(x):
        return seq(T("push", "in", "str"), x)
    f = seq(ev("F+"), T("new", "in"), s(part("tag")), alt(s(OCCTXT), seq(guard("noocc"), T("push", "in", "null"))),
            star(seq(ev("S+"), s(part("code")), s(part("value")))), ev("S-"), T("push", "out", "arr in"))
    return seq(T("new", "out"), star(f), ev("F-"), lit("" if first else ","), T("json", "arr out"))


def xml(occ):
    o = seq(T("attr", "occurrence"), part("occurrence"))
    o = alt(o, seq(T("attr", "occurrence"), OCCTXT), guard("noocc")) if occ else seq()
    f = seq(ev("F+"), T("open", "datafield"), T("attr", "tag"), part("tag"), o,
            star(seq(ev("S+"), T("open", "subfield"), T("attr", "code"), part("code"), part("value", "escaped"),
                     T("close", "subfield"))), ev("S-"), T("close", "datafield"))
    return seq(T("open", "record"), star(f), ev("F-"), T("close", "record"))


class Json(Emit):
    def where(self, st):
        return "in" if st.mon[3] else "out"

    def feed(self, a, st, toks):
        Emit.feed(self, a, st, toks)
        for t in toks:
            if t == ("ev", "F+"):
                st.mon = st.mon[:3] + (True,)
            elif t == ("ev", "F-"):
                st.mon = st.mon[:3] + (None,)

    def val(self, a, st, v):
        """kind and content of a JSON value"""
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "String":
            return "str", self.toks(a, st, v[2][0][1])
        if v[0] == "e" and v[1] == "Null":
            return "null", []
        if v[0] == "e" and v[1] == "Array":
            x = a.val(st, v[2][0][1])
            return "arr " + (x[1][1] if x[0] == "o" and x[1][0] == "vec" else "?"), []
        if v[0] in ("e",):
            return "?" + v[1], []
        return "str", self.toks(a, st, v)

    def toks(self, a, st, v):
        ps = self.pieces(a, st, v)
        out = []
        for p in ps:
            if p[0] == "e" and p[1] in ("Array", "String", "Null"):
                out.append(("json", self.val(a, st, p)[0]))
            else:
                out += Emit.toks(self, a, st, p)
        return out

    def other(self, a, st, c, n, v):
        if re.search(r"vec::Vec::<T>::(new|with_capacity)$", c.path) and "Value" in c.dty:
            w = self.where(st)
            self.feed(a, st, [("new", w)])
            return [(st, ("o", ("vec", w), ai.EMPTY))]
        if n == "push" and v[0][0] == "o" and v[0][1][0] == "vec":
            k, t = self.val(a, st, c.args[1])
            self.feed(a, st, [("push", v[0][1][1], k)] + t)
            return [(st, UNIT)]
        if v and v[0][0] == "o" and v[0][1][0] == "vec" and n not in ("deref", "len", "is_empty", "reserve"):
            self.bad(a, "array", "%s changes an array besides adding to it" % n)
        if n == "to_string" and v and v[0][0] == "e":
            return [(st, self.text([v[0]]))]
        return None

    def exit(self, a, st, v, node):
        Emit.exit(self, a, st, v, node)
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        cell = st.env.get(CELL)
        x = a.val(st, ai.getf(cell[1], self.counter) or ai.TOP) if cell and cell[0] == "s" else ai.TOP
        if x[0] == "k" and x[1] in (0, 1, 7):
            self.bad(a, "count", "a record is written but the record counter keeps its value", node)


CELL = 10 ** 6


class Xml(Emit):
    def elem(self, v):
        return v[0] == "s" and v[2] == "elem"

    def open(self, a, st, v):
        d = v[1]
        name = d[0][1]
        t = [("open", name[1] if name[0] == "k" else "?")]
        for k, x in d[1:]:
            t += [("attr", k)] + [("x", y[1], y[2]) if y[0] == "x" else y for y in self.toks(a, st, x)]
        self.feed(a, st, t)
        return name[1] if name[0] == "k" else "?"

    def other(self, a, st, c, n, v):
        if n == "create_element":
            return [(st, ("s", (("name", v[1]),), "elem"))]
        if n == "with_attribute" and self.elem(v[0]):
            x = v[1]
            if x[0] == "s" and len(x[1]) == 2:
                k = a.val(st, x[1][0][1])
                return [(st, ("s", v[0][1] + ((k[1] if k[0] == "k" else "?", a._deepread(st, x[1][1][1])),), "elem"))]
            return [(st, ("s", v[0][1] + (("?", ai.TOP),), "elem"))]
        if n == "new" and "BytesText" in c.path:
            return [(st, ("s", tuple((str(i), self.op1("escaped", p)) for i, p in enumerate(self.pieces(a, st, v[0]))), "text"))]
        if n in ("from_escaped",) and v:
            return [(st, self.op1("?", v[0]))]
        if n == "write_text_content" and self.elem(v[0]):
            name = self.open(a, st, v[0])
            self.feed(a, st, self.toks(a, st, v[1]) + [("close", name)])
            return self.done(st, c)
        if n == "write_empty" and self.elem(v[0]):
            name = self.open(a, st, v[0])
            self.feed(a, st, [("close", name)])
            return self.done(st, c)
        if c.path == mir.ENTER and self.elem(v[0]):
            self.open(a, st, v[0])
            return [(st, UNIT)]
        if c.path == mir.LEAVE and self.elem(v[0]):
            self.feed(a, st, [("close", v[0][1][0][1][1])])
            return self.done(st, c)
        if n in ("write_event", "write_inner_content", "write_cdata_content", "write_bom", "write_indent"):
            self.feed(a, st, [("call", n)])
        return None


def record(prog):
    ra, rb = P05.names(prog)
    return ("s", ((ra, ("o", ("raw",), ai.EMPTY)), (rb, ("o", ("rec",), frozenset(["rec"])))), P05.TY)


def inl(h):
    return h.crate in ("pica_record", "pica") and h.name != "fmt"


def find(prog, mod, name):
    r = [f for f in prog.fns.values() if f.name == name and f.body and f.crate == "pica" and "convert::%s::" % mod in f.path]
    if len(r) != 1:
        raise mir.MissingAnchor("%s of the %s writer" % (name, mod))
    return r[0]


def run(ctx):
    prog = ctx.prog
    disp = Display(prog)
    # -- JSON
    f = find(prog, "json", "write_byte_record")
    ty = prog.adt(f.j["impl_self"])
    ints = [x[0] for x in ty["variants"][0]["fields"] if x[1] in ("usize", "u64", "u32", "bool")]
    if len(ints) != 1:
        raise mir.MissingAnchor("record counter of the JSON writer")
    g = ctx.flat(f, inline=inl)
    for n0 in (0, 1, 7):
        m = Json(ctx, f, g, Nfa(json(n0 == 0)), disp)
        m.counter = ints[0]
        cell = ("s", tuple((x[0], ("k", n0) if x[0] == ints[0] else ("o", ("out",), ai.EMPTY))
                           for x in ty["variants"][0]["fields"]), f.j["impl_self"])
        a = ai.AI(prog, g, m, init={1: ("r", CELL, ()), CELL: cell, 2: record(prog)})
        a.borrowed.add(CELL)
        a.run()
        ctx.count("states", a.nstates)
    ctx.unit(f.path)
    ctx.count("writers")
    for name, rx in (("finish", lit("]")), ("new", lit("["))):
        h = find(prog, "json", name)
        g = ctx.flat(h, inline=inl)
        m = Emit(ctx, h, g, Nfa(rx), disp, what="file")
        a = ai.AI(prog, g, m)
        a.run()
        ctx.unit(h.path)
        ctx.count("writers")
    start(ctx, find(prog, "json", "new"), ints[0])
    # -- XML
    f = find(prog, "xml", "write_byte_record")
    g = ctx.flat(f, inline=inl)
    res = {}
    for strict in (True, False):
        sub = Sub(ctx)
        m = Xml(sub, f, g, Nfa(xml(strict)), disp)
        a = ai.AI(prog, g, m, init={2: record(prog)})
        a.run()
        res[strict] = sub
        ctx.count("states", a.nstates)
    if res[True].viol and not res[False].viol:
        ctx.violation(f.path + ":no-occurrence", "%s never writes the occurrence of a field" % f.path, res[True].viol[0][2])
    else:
        for x in res[True].viol:
            ctx.violation(*x)
    for k, n in res[True].n.items():
        ctx.count(k, n)
    ctx.unit(f.path)
    ctx.count("writers")
    ctx.floor("writers", 4)
    ctx.floor("items_visited", 4)
    ctx.floor("tokens_visited", 60)
    ctx.floor("exits_compared", 4)


def start(ctx, f, counter):
    """the counter starts at nothing"""
    for b in f.body["blocks"]:
        for s in b["s"]:
            v = s.get("v", {})
            if v.get("r") == "agg" and counter in (v.get("fields") or []):
                o = v["ops"][v["fields"].index(counter)]
                k = o.get("k", {}) if isinstance(o, dict) else {}
                ctx.count("counters")
                if k.get("int") != 0:
                    ctx.violation(f.path + ":start", "%s does not start with no record written" % f.path, [s["sp"]])


class Sub:
    def __init__(self, ctx):
        self.viol, self.n, self.ctx = [], {}, ctx

    def violation(self, k, m, t=None):
        if not any(x[0] == k for x in self.viol):
            self.viol.append((k, m, t or []))

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n
