import re
import ai, cmds, mir

META = {
    "id": "P27",
    "title": "A record counts as valid exactly if every value in it is UTF-8",
    "statement": "Validating a record succeeds if every subfield value of every field is valid UTF-8 and fails if any is not. A "
                 "record is converted into a text record, and handed out by the text-record reader, only if it validates, and "
                 "the check command's unicode rule reports every record that does not.",
    "over": ["inputs"],
    "for_all": "every record",
    "why": "Tests validate records of one field; a value left unvisited shows only in records of another shape.",
    "files": ["src/primitives/record.rs", "src/primitives/field.rs", "src/primitives/subfield.rs", "src/record.rs", "src/reader.rs",
              "crates/pica-cli/src/commands/check/checks/unicode.rs"],
    "mechanism": [["validate of RecordRef, FieldRef and SubfieldRef", "src/primitives"],
                  ["TryFrom<ByteRecord> for StringRecord", "src/record.rs"],
                  ["Unicode::check", "crates/pica-cli/src/commands/check/checks/unicode.rs"]],
    "technique": "typestate over the nested loops of the validation code (abstract interpretation of MIR)",
    "rule": "validation returns Ok only after the fields and, for each, the subfields are exhausted and each value was found to be "
            "ASCII or UTF-8 as a whole, and Err only after a value was found not to be; every place that builds a text record, "
            "and the unicode rule's silent return, is reached only through a successful validation of that record.",
    "assumptions": ["core::str::from_utf8 and is_ascii decide as documented"],
}
NEXT = "core::iter::traits::iterator::Iterator::next"


class Visit:
    """mon: (levels entered: field, sub) each None | 'open' | 'done', faults)
    (field, sub, fdone, sdone, value checked, fault)"""

    def __init__(self, ctx, f, top):
        self.ctx, self.f, self.top = ctx, f, top
        self.n = 0

    def init(self):
        # (current field?, current subfield unchecked?, fields exhausted, subfields of the current field exhausted, fault)
        return {"rec": (False, False, False, False, False), "field": (True, False, True, False, False),
                "sub": (True, True, True, True, False)}[self.top]

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def level(self, ls):
        if "sub" in ls:
            return None
        if "field" in ls:
            return "sub"
        if "rec" in ls:
            return "field"
        return None

    def closef(self, a, st):
        f, s, fd, sd, x = st.mon
        if f and not sd and not x:
            self.bad(a, "subfields", "goes on to the next field before the subfields of one are all examined")

    def closes(self, a, st):
        f, s, fd, sd, x = st.mon
        if s and not x:
            self.bad(a, "value", "goes on to the next subfield without having checked the value of one")

    def enter(self, a, st, lv, tag, ls):
        a.kill(st, tag)
        f, s, fd, sd, x = st.mon
        self.ctx.count("items_visited")
        self.closes(a, st)
        if lv == "field":
            self.closef(a, st)
            st.mon = (True, False, fd, False, x)
        else:
            st.mon = (f, True, fd, sd, x)
        return ("o", tag, (ls - {"cut"}) | {lv})

    def done(self, a, st, lv, ls):
        f, s, fd, sd, x = st.mon
        self.closes(a, st)
        if "cut" in ls:
            return
        if lv == "field":
            self.closef(a, st)
            st.mon = (False, False, True, sd, x)
        elif lv == "sub":
            st.mon = (f, False, fd, True, x)

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        ls = ai.labels(src, st)
        tag = ("cb", v["call"].get("bid"), v["ai"])
        lv = self.level(ls)
        if lv is None:
            a.kill(st, tag)
            return ("o", tag, ls)
        return self.enter(a, st, lv, tag, ls)

    def exhausted(self, a, st, t):
        src = a.operand(st, t["src"])
        ls = ai.labels(src, st)
        self.done(a, st, self.level(ls), ls)

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) for x in v]
        if c.path == NEXT and v:
            lv = self.level(ls[0])
            o = c.t["args"][0]
            if lv == "field" and o[0] in "cm" and re.search(r"FlatMap<|Flatten<", a.g.locals[o[1][0]][0]):
                # the subfields of all fields as one sequence
                s = st.copy()
                self.closes(a, s)
                if "cut" not in ls[0]:
                    s.mon = (False, False, True, True, s.mon[4])
                tag = ("call", c.site, c.path)
                a.kill(st, tag)
                self.closes(a, st)
                st.mon = (False, True) + st.mon[2:]
                return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", ("o", tag, ls[0] | {"field", "sub"})),)))]
            if lv:
                s = st.copy()
                self.done(a, s, lv, ls[0])
                return [(s, ("e", "None", ())),
                        (st, ("e", "Some", (("0", self.enter(a, st, lv, ("call", c.site, c.path), ls[0])),)))]
        if v and n in ("is_ascii", "from_utf8", "to_str", "utf8_chunks", "is_utf8") and "sub" in ls[0]:
            whole = "cut" not in ls[0] and (len(v) == 1)
            self.ctx.count("value_tests")
            f, s, fd, sd, x = st.mon
            good, badst = st.copy(), st.copy()
            if whole:
                good.mon = (f, False, fd, sd, x)
            if n != "is_ascii":
                badst.mon = (f, False, fd, sd, True)
            if n in ("is_ascii", "is_utf8"):
                return [(good, ("k", 1)), (badst, ("k", 0))]
            if n in ("from_utf8", "to_str"):
                return [(good, ("e", "Ok", (("0", ("o", ("str", c.site), ls[0]),),))),
                        (badst, ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),)))]
        return None

    def exit(self, a, st, v, node):
        a.cur = node
        v = a.val(st, v)
        f, s, fd, sd, x = st.mon
        self.ctx.count("exits_compared")
        if v[0] != "e":
            self.bad(a, "result", "the outcome does not follow from the values examined", node)
        elif v[1] == "Ok" and x:
            self.bad(a, "accepts", "succeeds although a value is not UTF-8", node)
        elif v[1] == "Ok" and (s or not fd or f and not sd):
            self.bad(a, "accepts", "succeeds before %s examined" % (
                "every field is" if not fd else "the value is" if s else "every subfield is"), node)
        elif v[1] == "Err" and not x:
            self.bad(a, "rejects", "fails although no value was found not to be UTF-8", node)


class Gate:
    """mon: what is known about validate(the record): None / True / False"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return None

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n == "validate" and c.path.startswith("pica_record::") and "rec" in ai.labels(a.val(st, c.args[0]), st):
            self.ctx.count("gates")
            if st.mon is not None:
                outs = [st.mon]
            else:
                outs = [True, False]
            r = []
            for o in outs:
                s = st.copy()
                s.mon = o
                r.append((s, ("e", "Ok", (("0", ("s", (), "tuple")),)) if o else
                          ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),))))
            return r
        return None

    def exit(self, a, st, v, node):
        a.cur = node
        v = a._deepread(st, v)
        self.ctx.count("exits_compared")
        self.done(a, st, v, node)


class Try(Gate):
    def done(self, a, st, v, node):
        if v[0] == "e" and v[1] == "Ok":
            if st.mon is not True:
                self.bad(a, "gate", "builds a text record from a record that was not validated", node)
            x = v[2][0][1]
            if x[0] != "s" or len(x[1]) != 1 or x[1][0][1][0] != "o" or "rec" not in x[1][0][1][2]:
                self.bad(a, "other", "the text record does not hold the record that was validated", node)
        elif v[0] != "e" or st.mon is not False:
            self.bad(a, "rejects", "fails although the record validates", node)


class Rule(Gate):
    """(finding?, message): a finding whenever validation fails"""

    def done(self, a, st, v, node):
        b = v[1][0][1] if v[0] == "s" and v[1] else v
        if st.mon is True:
            return
        if st.mon is None:
            self.bad(a, "gate", "returns without having validated the record", node)
        elif b != ("k", 1):
            self.bad(a, "silent", "does not report a record that does not validate", node)


def run(ctx):
    prog = ctx.prog
    tops = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.crate != "pica_record" or f.name != "validate" or not f.body or f.is_closure:
            continue
        ty = re.sub(r"<.*", "", f.body["locals"][1][0].lstrip("&").replace("'_ ", "").strip()).rsplit("::", 1)[-1]
        top = {"RecordRef": "rec", "FieldRef": "field", "SubfieldRef": "sub", "SubfieldValueRef": "sub", "Record": "rec",
               "Field": "field", "Subfield": "sub", "ByteRecord": "rec"}.get(ty)
        if top is None:
            continue
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and "primitives" in h.path and h.name != "fmt")
        m = Visit(ctx, f, top)
        lab = {"rec": ["rec"], "field": ["rec", "field"], "sub": ["rec", "field", "sub"]}[top]
        a = ai.AI(prog, g, m, init={1: ("o", ("p", "self"), frozenset(lab))})
        a.run()
        tops += 1
        ctx.unit(f.path)
        ctx.count("states", a.nstates)
    if tops < 3:
        raise mir.MissingAnchor("validate of RecordRef, FieldRef, SubfieldRef")
    # construction of text records
    built = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.crate != "pica_record" or not f.body or f.derived:
            continue
        for b in f.body["blocks"]:
            for s in b["s"]:
                v = s.get("v") or {}
                if v.get("r") == "agg" and re.sub(r"<.*", "", str(v.get("adt") or "")).endswith("record::StringRecord"):
                    built += 1
                    ctx.unit(f.path)
                    g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and h.name not in ("fmt", "validate") and
                                 "primitives" not in h.path)
                    a = ai.AI(prog, g, Try(ctx, f), init={1: ("o", ("p", "record"), frozenset(["rec"]))})
                    a.run()
                    ctx.count("states", a.nstates)
                    break
            else:
                continue
            break
    if not built:
        raise mir.MissingAnchor("the construction of StringRecord")
    f = next((f for f in prog.fns.values() if f.crate == "pica" and f.body and f.path.endswith("unicode::Unicode::check")), None)
    if f is None:
        raise mir.MissingAnchor("Unicode::check")
    g = ctx.flat(f, inline=lambda h: h.crate == "pica" and h.name != "fmt" and "unicode" in h.path)
    a = ai.AI(prog, g, Rule(ctx, f), init={1: ("o", ("p", "self"), ai.EMPTY), 2: ("o", ("p", "record"), frozenset(["rec"]))})
    a.run()
    ctx.unit(f.path)
    ctx.count("states", a.nstates)
    ctx.floor("value_tests", 2)
    ctx.floor("gates", 2)
    ctx.floor("exits_compared", 6)
