import re
import ai, mir, preds, quant
from quant import all_, and3

META = {
    "id": "P32",
    "title": "Tag and occurrence patterns select exactly the fields they describe",
    "statement": "A literal tag matches only that tag; a tag pattern matches a tag exactly if each of its four positions is in "
                 "the pattern's set for that position. Without an occurrence only fields without one (or with occurrence 00) "
                 "are selected, `/*` selects all, an exact occurrence only itself, a range exactly the occurrences from its "
                 "lower to its upper bound.",
    "over": ["inputs"],
    "for_all": "every tag, every occurrence, every pattern",
    "why": "All expressions, paths, queries and formats select fields through these two predicates; tests sample a few "
           "tag/pattern pairs of a large product space.",
    "files": ["src/matcher/tag.rs", "src/matcher/occurrence.rs"],
    "mechanism": [["TagMatcher::is_match", "src/matcher/tag.rs"], ["OccurrenceMatcher::is_match", "src/matcher/occurrence.rs"]],
    "technique": "truth-table analysis by abstract interpretation of MIR, per variant of the pattern types",
    "rule": "for every variant of the two pattern types and presence or absence of an occurrence, all paths are followed with both "
            "outcomes of every comparison; every return must equal the specified combination, and each position of a pattern "
            "must be compared with the same position of the tag.",
    "assumptions": ["occurrences in a range are ordered as digit strings"],
}
EQ = preds.EQ
ORD = {"ge": ("ge", False), "lt": ("ge", True), "le": ("le", False), "gt": ("le", True)}
SWAP = {"ge": "le", "le": "ge", "lt": "gt", "gt": "lt"}


def at(t):
    """index of an element of an array"""
    while isinstance(t, tuple) and t and t[0] in ("f", "v", "d"):
        t = t[1]
    return t[2] if isinstance(t, tuple) and len(t) == 3 and t[0] == "i" else None


class TagSpec(quant.Spec):
    def __init__(self, kind):
        self.kind = kind

    def level(self, a, st, v):
        ls = ai.labels(v, st)
        if "val" in ls:
            return None
        if "pat" in ls:
            return "item"
        if v[0] == "s" and "Range" in str(v[2]):
            d = dict(v[1])
            if d.get("start") == ("k", 0) and d.get("end") == ("k", 4):
                return "item"
        return None

    def call(self, a, st, c):
        if c.path == "core::ops::index::Index::index":
            v, i = a.val(st, c.args[0]), a.val(st, c.args[1])
            if v[0] == "o" and (i[0] == "k" or i[0] == "o"):
                return [(st, ai.mk(("i", v[1], i if i[0] == "k" else i[1]), v[2]))]
        return None

    def atom(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if len(c.args) < 2:
            return None
        x, y = a.val(st, c.args[0]), a.val(st, c.args[1])
        lx, ly = ai.labels(x, st), ai.labels(y, st)
        if c.path in EQ and ("lit" in lx and "tag" in ly or "lit" in ly and "tag" in lx):
            if x[0] == "o" and y[0] == "o" and {"i"} & {x[1][0], y[1][0]}:
                return ("global", "part of the tag")
            return ("global", "eq", EQ[c.path])
        if n == "contains" and "pat" in lx and "tag" in ly:
            i, j = at(x[1]) if x[0] == "o" else None, at(y[1]) if y[0] == "o" else None
            if i is not None and i == j:
                return ("global", "pos %d" % i[1]) if i[0] == "k" else ("item", "pos")
            if i is None and j and j[0] == "cb" and x[1] == ("cb", j[1], 0):
                return ("item", "pos")      # an element and its own number
            if i is None and j is None and "val" in lx and "val" in ly:
                return ("item", "pos")
            return ("global", "position %s in the set of position %s" % (j and j[1], i and i[1]))
        return None

    def item(self, cur):
        return cur.get("pos")

    def expect(self, g, seen, ex):
        if self.kind == "Tag":
            return g.get("eq")
        if seen or ex:
            return all_(seen, ex)
        return and3(*[g.get("pos %d" % i) for i in range(4)])


class OccSpec(quant.Spec):
    def __init__(self, kind, some):
        self.kind, self.some = kind, some

    def atom(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if len(c.args) < 2:
            return None
        x, y = a.val(st, c.args[0]), a.val(st, c.args[1])
        lx, ly = ai.labels(x, st), ai.labels(y, st)
        if c.path in EQ and "occ" in (lx | ly):
            o = y if "occ" in lx else x
            if o == ("k", (48, 48)) or o == ("k", "00") or "'00'" in repr(o) or "(48, 48)" in repr(o):
                return ("global", "zero", EQ[c.path])
            if "lit" in (lx | ly):
                return ("global", "eq", EQ[c.path])
            return ("global", "comparison with something else")
        if c.path.startswith("core::cmp::PartialOrd::") and n in ORD and "occ" in (lx | ly):
            op = n if "occ" in lx else SWAP[n]
            other = ly if "occ" in lx else lx
            nm, inv = ORD[op]
            for b in ("min", "max"):
                if b in other:
                    return ("global", nm + " " + b, inv)
        if n == "contains" and "occ" in ly and {"min", "max"} <= lx and "RangeInclusive" in c.path:
            return ("global", "inside")
        return None

    def expect(self, g, seen, ex):
        k = self.kind
        if k == "Any":
            return True
        if not self.some:
            return k == "None"
        if k == "None":
            return g.get("zero")
        if k == "Exact":
            return g.get("eq")
        if "inside" in g:
            return g["inside"]
        return and3(g.get("ge min"), g.get("le max"))


def lab(tag, l):
    return ("o", tag, frozenset([l]))


def run(ctx):
    inl = lambda h: h.crate == "pica_record" and not h.path.startswith("pica_record::primitives") \
        and not h.path.startswith("<pica_record::primitives")
    T, O = "pica_record::matcher::tag::TagMatcher", "pica_record::matcher::occurrence::OccurrenceMatcher"
    f = ctx.prog.fn(T + "::is_match")
    want = {"Tag", "Pattern"}
    got = {v["name"] for v in ctx.prog.adt(T)["variants"]}
    if got != want:
        raise mir.MissingAnchor("variants of TagMatcher: %s" % sorted(got))
    for v in ctx.prog.adt(T)["variants"]:
        flds = tuple((x[0], lab(("self", x[0]), ("lit" if v["name"] == "Tag" else "pat") if i == 0 else "raw"))
                     for i, x in enumerate(v["fields"]))
        quant.run(ctx, f, ctx.flat(f, inline=inl), TagSpec(v["name"]), "tag %s" % v["name"],
                  {1: ("e", v["name"], flds), 2: lab(("tag",), "tag")})
        ctx.count("tables")
        ctx.unit("%s [%s]" % (f.path, v["name"]))
    f = ctx.prog.fn(O + "::is_match")
    got = {v["name"]: len(v["fields"]) for v in ctx.prog.adt(O)["variants"]}
    if got != {"Any": 0, "None": 0, "Exact": 1, "Range": 2}:
        raise mir.MissingAnchor("variants of OccurrenceMatcher: %s" % got)
    for v in ctx.prog.adt(O)["variants"]:
        names = {"Exact": ["lit"], "Range": ["min", "max"]}.get(v["name"], [])
        flds = tuple((x[0], lab(("self", x[0]), names[i])) for i, x in enumerate(v["fields"]))
        for some in (False, True):
            other = ("e", "Some", (("0", lab(("occ",), "occ")),)) if some else ("e", "None", ())
            quant.run(ctx, f, ctx.flat(f, inline=inl), OccSpec(v["name"], some),
                      "occurrence %s, field %s" % (v["name"], "with" if some else "without"),
                      {1: ("e", v["name"], flds), 2: other})
            ctx.count("tables")
            ctx.unit("%s [%s, %s]" % (f.path, v["name"], "Some" if some else "None"))
    ctx.floor("tables", 10)
