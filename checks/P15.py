import re
import ai, mir, preds, quant
from quant import and3, not3, or3

META = {
    "id": "P15",
    "title": "Boolean connectives of filter expressions follow their truth tables",
    "statement": "A conjunction, disjunction, exclusive disjunction, negation or parenthesised group of filter expressions is "
                 "true of a record (or field) exactly if the truth values of its parts on that same record (field), taken by "
                 "the connective's truth table, say so. Single predicates contribute their own value unchanged.",
    "over": ["inputs", "configurations"],
    "for_all": "every nesting of connectives over every record",
    "why": "Nested expressions are unbounded; a truth table per connective, closed under nesting, covers them all while tests "
           "evaluate a few expressions.",
    "files": ["src/matcher/field/mod.rs", "src/matcher/subfield/mod.rs", "src/matcher/record.rs"],
    "mechanism": [["FieldMatcher / SubfieldMatcher / SingletonMatcher / RecordMatcher ::is_match", "src/matcher"]],
    "technique": "truth-table analysis by abstract interpretation of MIR, per variant of the expression type",
    "rule": "for every variant of the expression types (taken from the type definition) and every connective, all paths of "
            "is_match are followed with both outcomes of each evaluation of a part; every return must equal the connective's "
            "truth table (identity for variants with one part, complement for negation), each part must be applied to the "
            "whole collection of fields or subfields that was passed in.",
}

TABLE = {"And": and3, "Or": or3,
         "Xor": lambda a, b: None if a is None or b is None else a != b}


def inner(t):
    return isinstance(t, tuple) and (t[:1] == ("v",) or any(inner(x) for x in t))


class Spec(quant.Spec):
    def __init__(self, parts, fn, items):
        self.parts, self.fn, self.items = parts, fn, items

    def atom(self, a, st, c):
        if not c.path.endswith("::is_match") or not c.args:
            return None
        v = a.val(st, c.args[0])
        ls = [l for l in ai.labels(v, st) if l.startswith("part:")]
        if len(ls) != 1:
            return None
        if v[0] != "o" or inner(v[1]):
            return ("global", "a part of " + ls[0][5:])
        x = a.val(st, c.args[1])
        if not self.whole(x):
            a.mon.bad(a, "operand", "a part is not evaluated on everything that was passed in")
        return ("global", ls[0][5:])

    def whole(self, x):
        if x == ("o", preds.ITEMS, frozenset(["items"])):
            return True
        return x[0] == "o" and x[1][0] == "call" and x[1][2].endswith("::fields") and "items" in x[2] and self.items == "record"

    def expect(self, g, seen, ex):
        return self.fn(*[g.get(p) for p in self.parts])


def enums(prog):
    return [("pica_record::matcher::field::FieldMatcher", "fields"),
            ("pica_record::matcher::field::SingletonMatcher", "fields"),
            ("pica_record::matcher::subfield::SubfieldMatcher", "subfields"),
            ("pica_record::matcher::subfield::SingletonMatcher", "subfields")]


def part(n):
    return ("o", ("part", n), frozenset(["part:" + n]))


def cases(prog):
    out = []
    ops = [v["name"] for v in prog.adt("pica_record::matcher::operator::BooleanOp")["variants"]]
    if sorted(ops) != sorted(TABLE):
        raise mir.MissingAnchor("boolean operators %s" % ops)
    for path, items in enums(prog):
        for v in prog.adt(path)["variants"]:
            names = [x[0] for x in v["fields"]]
            if "op" in names:
                rest = [n for n in names if n != "op"]
                if len(rest) != 2:
                    raise mir.MissingAnchor("binary variant %s of %s has parts %s" % (v["name"], path, rest))
                for op in ops:
                    val = ("e", v["name"], tuple((n, ("e", op, ()) if n == "op" else part(n)) for n in names))
                    out.append((path + "::is_match", op, rest, TABLE[op], val, items))
            elif len(names) == 1:
                fn = not3 if v["name"] == "Not" else (lambda x: x)
                out.append((path + "::is_match", v["name"], names, fn,
                            ("e", v["name"], ((names[0], part(names[0])),)), items))
            else:
                raise mir.MissingAnchor("variant %s of %s has parts %s" % (v["name"], path, names))
    out.append(("pica_record::matcher::record::RecordMatcher::is_match", "record", ["0"], lambda x: x,
                ("s", (("0", part("0")),), "pica_record::matcher::record::RecordMatcher"), "record"))
    return out


def run(ctx):
    for path, name, parts, fn, val, items in cases(ctx.prog):
        f = ctx.prog.fn(path)
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not h.path.endswith("::is_match")
                     and not h.path.startswith("pica_record::primitives"))
        spec = Spec(parts, fn, items)
        init = {1: val, 2: ("o", preds.ITEMS, frozenset(["items"])), 3: ("o", preds.OPTS, ai.EMPTY)}
        key = "%s %s" % (path.split("::")[-3] + "::" + path.split("::")[-2], name)
        quant.run(ctx, f, g, spec, key, init)
        ctx.count("tables")
        ctx.unit("%s [%s]" % (path, name))
    ctx.floor("tables", 20)
