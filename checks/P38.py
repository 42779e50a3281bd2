import re
import ai, mir, peg
from peg import Term, Unknown

META = {
    "id": "P38",
    "title": "Parsing accepts exactly the PICA+ grammar and keeps every part",
    "statement": "A byte string parses as a PICA+ record exactly if it is one or more fields and a newline, a field being tag "
                 "`[012][0-9][0-9][A-Z@]`, optionally a slash and two or three digits, a space, any number of subfields "
                 "(`\\x1f`, one ASCII letter or digit, bytes other than `\\x1e` and `\\x1f`) and `\\x1e`; the same language "
                 "decides tags, occurrences, subfields and values parsed alone. The parsed record has every field and "
                 "subfield of the input in order, each with its own tag, occurrence, code and value bytes.",
    "over": ["inputs"],
    "for_all": "every byte string",
    "why": "The parser is run on single samples by tests; that it neither rejects a legal string nor accepts another is a "
           "statement about all strings.",
    "files": ["src/primitives/parse.rs", "src/primitives/tag.rs", "src/primitives/occurrence.rs", "src/primitives/subfield.rs",
              "src/primitives/field.rs", "src/primitives/record.rs", "src/record.rs"],
    "mechanism": [["parse_record_ref and the parsers it is built from", "src/primitives/parse.rs"],
                  ["from_bytes and new of the primitive types", "src/primitives"],
                  ["ByteRecord::from_bytes", "src/record.rs"]],
    "technique": "parser-term extraction from MIR, exact regular-language equivalence and output-shape comparison",
    "rule": "the combinator term built by each parser function is decided by the next byte at every choice and denotes the "
            "specified language (product of subset automata, any difference reported with a witness string); the output of "
            "each term holds each captured part once, in its place; each constructor runs its term on the whole input and "
            "hands back its output.",
    "assumptions": ["the winnow combinators behave as documented"],
}

DIG = frozenset(range(48, 58))
ALNUM = frozenset(b for b in range(256) if peg.PRED["is_alphanum"](b))
C = lambda s: ("c", frozenset(s))
VALUE = ("rep", 0, None, ("c", frozenset(range(256)) - {0x1e, 0x1f}))
CODE = ("c", ALNUM)
TAG = ("cat", (C(b"012"), ("c", DIG), ("c", DIG), C(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ@")))
OCC = ("rep", 2, 3, ("c", DIG))
OPTOCC = ("rep", 0, 1, ("cat", (C(b"/"), OCC)))
SUB = ("cat", (C(b"\x1f"), CODE, VALUE))
SUBS = ("rep", 0, None, SUB)
FIELD = ("cat", (TAG, OPTOCC, C(b" "), SUBS, C(b"\x1e")))
FIELDS = ("rep", 1, None, FIELD)
RECORD = ("cat", (FIELDS, C(b"\n")))
LANG = {"TagRef": TAG, "OccurrenceRef": OCC, "SubfieldCode": CODE, "SubfieldValueRef": VALUE, "SubfieldRef": SUB,
        "FieldRef": FIELD, "RecordRef": RECORD}
# type -> parts of its value in order: (role, language of the part, nested type)
PARTS = {"TagRef": [("slice", TAG, None)], "OccurrenceRef": [("slice", OCC, None)], "SubfieldCode": [("byte", CODE, None)],
         "SubfieldValueRef": [("slice", VALUE, None)],
         "SubfieldRef": [(None, None, "SubfieldCode"), (None, None, "SubfieldValueRef")],
         "FieldRef": [(None, None, "TagRef"), ("opt", OPTOCC, "OccurrenceRef"), ("list", SUBS, "SubfieldRef")],
         "RecordRef": [("list", FIELDS, "FieldRef")]}
SELF = ("o", ("arg",), ai.EMPTY)


def word(w):
    return repr(w)[1:]


class Entry(peg.Mon):
    """mon: ((what, …), …) facts about the argument on this path"""

    def __init__(self, P):
        peg.Mon.__init__(self, P)
        self.exits = set()

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a._deepread(st, x) for x in c.args]

        def fact(f, val):
            s = st.copy()
            s.mon = st.mon + (f,)
            return (s, val)
        if c.path.endswith("Parser::parse"):
            t = self.peg.parser(v[0])
            return [fact(("parse", t.id, v[1] == SELF), ("e", "Ok", (("0", self.peg.out(t)),))),
                    fact(("reject", t.id, v[1] == SELF), ("e", "Err", (("0", ("o", ("perr",), ai.EMPTY)),)))]
        if c.path.startswith(peg.W):
            return peg.Mon.call(self, a, st, c)
        if v and v[0] == SELF:
            s = None
            if n in ("contains", "contains_str", "contains_byte", "any", "memchr", "find") and len(v) == 2:
                s = self.peg.set(v[1])
                yes, no = ("has", s), ("hasnot", s)
            elif n == "all" and len(v) == 2:
                s = peg.ALL - self.peg.set(v[1])
                yes, no = ("hasnot", s), ("has", s)
            if s is not None:
                if n in ("memchr", "find"):
                    return [fact(yes, ("e", "Some", (("0", ("o", ("pos",), ai.EMPTY)),))), fact(no, ("e", "None", ()))]
                return [fact(yes, ("k", 1)), fact(no, ("k", 0))]
            if n in ("as_ref", "into", "from", "as_bytes", "as_bstr", "borrow", "bytes", "chars", "iter", "into_iter",
                     "to_owned", "deref", "as_slice", "copied", "new"):
                return [(st, SELF)]
        return None

    def exit(self, a, st, v, node):
        self.exits.add((st.mon, a._deepread(st, v)))


def shape(ctx, P, key, ty, v):
    """does the value hold each part of the type, in its place?"""
    def bad(m):
        ctx.violation("%s:%s-parts" % (key, ty), "%s: %s of the parsed value: %s" % (key, ty, m))
    if v[0] != "s" or v[2].rsplit("::", 1)[-1] != ty:
        return bad("not built from the parsed input (%s)" % str(v)[:80])
    parts = PARTS[ty]
    if len(v[1]) != len(parts):
        return bad("%d parts" % len(v[1]))
    used = []
    for (fname, x), (role, lang, sub) in zip(v[1], parts):
        ctx.count("parts_compared")
        if role is None:
            shape(ctx, P, key, sub, x)
            continue
        # a character made of the byte parsed
        if x[0] != "o" or x[1][0] != role:
            bad("part `%s` is not the %s parsed (%s)" % (fname, role, str(x)[:60]))
            continue
        t = P.terms[x[1][1]]
        used.append(t.id)
        try:
            d = peg.differ(P.regex(t), lang)
        except Unknown as e:
            bad("part `%s`: %s" % (fname, e))
            continue
        if d:
            bad("part `%s` captures another piece of the input than it should (%s)" % (fname, word(d[0])))
            continue
        if sub:
            inner = t.a[0] if t.kind == "opt" else t.a[2]
            if t.kind not in ("opt", "rep"):
                bad("part `%s` is a %s" % (fname, t.kind))
                continue
            shape(ctx, P, key, sub, P.out(inner))


def language(ctx, P, key, ty, t):
    try:
        g = P.greedy(t, frozenset(), [])
        if g:
            ctx.violation("%s:%s-choice" % (key, ty), "%s: a repetition or alternative of the parser of %s is not decided by the "
                          "next byte (%s), so it can stop at the wrong place" % (key, ty, peg.showset(g[0][1])))
            return
        d = peg.differ(P.regex(t), LANG[ty])
    except Unknown as e:
        ctx.violation("%s:%s-unknown" % (key, ty), "%s: the language of the parser of %s cannot be read off: %s" % (key, ty, e))
        return
    ctx.count("languages_compared")
    if d:
        ctx.violation("%s:%s-language" % (key, ty), "%s: %s is %s by the parser of %s but %s in the grammar" % (
            key, word(d[0]), "accepted" if d[1] else "rejected", ty, "not" if d[1] else "legal"))


def entry(ctx, P, f, ty):
    key = f.path.replace("::<'a>", "").replace("::<'_>", "")
    m = Entry(P)
    parser = lambda h: any("&mut &" in l[0] for l in h.body["locals"][1:1 + h.body["argc"]])
    g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not parser(h) and h.name != "fmt", plain=("iter", "find", "count"))
    try:
        a = ai.AI(ctx.prog, g, m, init={1: SELF})
        a.run()
        if m.unknown:
            raise Unknown(m.unknown)
    except Unknown as e:
        ctx.violation("%s:unknown" % key, "%s: what is accepted cannot be read off: %s" % (key, e))
        return
    ctx.unit(f.path)
    ctx.count("constructors")
    ctx.count("states", a.nstates)
    oks = [(mon, v) for mon, v in m.exits if v[0] == "e" and v[1] == "Ok"]
    errs = [(mon, v) for mon, v in m.exits if v[0] == "e" and v[1] == "Err"]

    def bad(k, msg):
        ctx.violation("%s:%s" % (key, k), "%s: %s" % (key, msg))
    if len(oks) + len(errs) != len(m.exits):
        return bad("result", "returns something else than the outcome of parsing")
    if not oks:
        return bad("never", "accepts nothing")
    for mon, v in oks:
        v = v[2][0][1]
        if v[0] == "s" and v[2].rsplit("::", 1)[-1] == "ByteRecord" and ty == "RecordRef":
            d = dict(v[1])
            raw = [x for x in d.values() if x[0] == "e"]
            rec = [x for x in d.values() if x[0] == "s"]
            if len(rec) != 1 or len(d) != 2:
                return bad("result", "the record is not the one parsed")
            if raw != [("e", "Some", (("0", SELF),))] and raw != [("e", "None", ())]:
                bad("raw", "the bytes kept with the record are not the ones parsed (%s)" % str(raw)[:60])
            v = rec[0]
        ps = [x for x in mon if x[0] in ("parse", "reject")]
        if ps:
            if len(ps) != 1 or ps[0][0] != "parse" or len(mon) != 1:
                bad("accepts", "accepts although the parser rejected, or on a further condition")
                continue
            if not ps[0][2]:
                bad("input", "parses something else than its argument")
            language(ctx, P, key, ty, P.terms[ps[0][1]])
            shape(ctx, P, key, ty, v)
        else:
            no = frozenset().union(*[x[1] for x in mon if x[0] == "hasnot"])
            if ty != "SubfieldValueRef" or no != frozenset([0x1e, 0x1f]) or any(x[0] == "has" for x in mon):
                bad("accepts", "accepts without checking that the argument is legal%s" % (
                    " (excluded: %s)" % peg.showset(no) if no else ""))
            elif v[0] != "s" or v[1] != (("0", SELF),):
                bad("value", "the value is not the argument (%s)" % str(v)[:80])
            else:
                ctx.count("languages_compared")
                ctx.count("parts_compared")
    for mon, v in errs:
        if any(x[0] == "reject" and x[2] for x in mon):
            continue
        if ty == "SubfieldValueRef" and any(x[0] == "has" and x[1] <= {0x1e, 0x1f} for x in mon):
            continue
        bad("rejects", "rejects an argument that the grammar allows")


def code(ctx, P, f):
    """the constructor from one character, decided by running through them"""
    key = f.path
    ok = set()
    probe = list(range(0x300)) + [0x661, 0x966, 0x3b1, 0x416, 0x4e00, 0xff10, 0xff21, 0xff41, 0x10ffff] + \
        [256 + b for b in range(48, 123)]
    g = P.flat(f)
    for b in probe:
        m = peg.Const()
        ai.AI(ctx.prog, g, m, init={1: ("k", b)}).run()
        rs = {v[1] if v[0] == "e" else "?" for v in m.out}
        if rs == {"Ok"} and all(v[2][0][1] == ("s", (("0", ("k", b)),), v[2][0][1][2]) for v in m.out if v[2][0][1][0] == "s") \
                and all(v[2][0][1][0] == "s" for v in m.out):
            ok.add(b)
        elif rs != {"Err"}:
            ctx.violation("%s:unknown" % key, "%s: the outcome for character %#x cannot be read off (%s)" % (
                key, b, str(sorted(m.out))[:120]))
            return
    ctx.count("constructors")
    ctx.count("characters", len(probe))
    d = sorted(ok ^ set(ALNUM))
    if d:
        ctx.violation("%s:language" % key, "%s: %r is %s" % (key, chr(d[0]), "accepted" if d[0] in ok else "rejected"))
    ctx.count("languages_compared")


def run(ctx):
    prog = ctx.prog
    P = peg.Peg(prog)
    # every parser function that yields one of the types, wherever it is used
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.crate != "pica_record" or not f.body or f.is_closure or "primitives" not in f.path or f.body["argc"] != 1:
            continue
        if not re.match(r"&.*mut &", re.sub(r"'\w+ ", "", f.body["locals"][1][0])):
            continue
        mm = re.search(r"Result<(?:[\w:]*::)?(\w+?)(?:<'\w+>)?,", f.body["locals"][0][0])
        if not mm or mm.group(1) not in LANG:
            continue
        ty = mm.group(1)
        try:
            t = P.fn(f)
        except Unknown as e:
            ctx.violation("%s:unknown" % f.path, "%s: the term of the parser cannot be read off: %s" % (f.path, e))
            continue
        n += 1
        ctx.unit(f.path)
        ctx.count("parsers")
        language(ctx, P, f.path, ty, t)
        shape(ctx, P, f.path, ty, P.out(t))
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.crate != "pica_record" or not f.body or f.is_closure or f.kind != "AssocFn" or \
                not re.search(r"primitives|record::ByteRecord", f.path):
            continue
        st = re.sub(r"<.*", "", (f.j.get("impl_self") or f.path.rsplit("::", 1)[0])).rsplit("::", 1)[-1]
        if f.name == "from_bytes" and st in list(LANG) + ["ByteRecord"] or \
                f.name == "new" and st in ("TagRef", "OccurrenceRef", "SubfieldValueRef"):
            seen.add((st, f.name))
            entry(ctx, P, f, "RecordRef" if st == "ByteRecord" else st)
        elif f.name == "new" and st == "SubfieldCode":
            seen.add((st, f.name))
            code(ctx, P, f)
    want = {(t, "from_bytes") for t in ("RecordRef", "FieldRef", "SubfieldRef", "TagRef", "OccurrenceRef", "SubfieldValueRef",
                                        "ByteRecord")} | {("TagRef", "new"), ("OccurrenceRef", "new"),
                                                          ("SubfieldValueRef", "new"), ("SubfieldCode", "new")}
    if want - seen:
        raise mir.MissingAnchor("constructors %s" % sorted(want - seen))
    ctx.floor("languages_compared", 11)
    ctx.floor("parts_compared", 10)
