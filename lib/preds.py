"""Specifications of the filter-expression predicates (shared by P13, P15, P16)."""
import re
import ai, cmds, mir, quant
from quant import all_, and3, any_, not3, or3

SUB = "pica_record::matcher::subfield::"
FLD = "pica_record::matcher::field::"
SELF, ITEMS, OPTS = ("p", "1"), ("p", "2"), ("p", "3")
CMPS = {"Eq": {"="}, "Ne": {"<", ">"}, "Lt": {"<"}, "Le": {"<", "="}, "Gt": {">"}, "Ge": {">", "="}}
FLIP = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}


def field_of_self(tag):
    """name of the field of the matcher a tag stems from"""
    t = tag
    while isinstance(t, tuple) and t:
        if t[0] == "f" and t[1] == SELF:
            return t[2]
        if t[0] in ("f", "v", "i", "d"):
            t = t[1]
            continue
        return None
    return None


def init_state(heap, labels_of):
    h = dict(heap)
    for n, ls in labels_of.items():
        h.setdefault(("f", SELF, n), ("o", ("f", SELF, n), frozenset(ls)))
    return {1: ("o", SELF, ai.EMPTY), 2: ("o", ITEMS, frozenset(["items"])), 3: ("o", OPTS, ai.EMPTY), "heap": h}


def lower_model(a, st, c):
    v = a.val(st, c.args[0])
    ls = ai.labels(v, st) | {"lower"}
    return [(st, ("o", ("call", c.site, c.path), ls))]


EQ = {"core::cmp::PartialEq::eq": False, "core::cmp::PartialEq::ne": True}


class SubSpec(quant.Spec):
    """subfield predicates: quantifier over the subfields with a listed code"""

    def __init__(self, quantifier, test, ci):
        self.q, self.test, self.ci = quantifier, test, ci

    def level(self, a, st, v):
        ls = ai.labels(v, st)
        if "items" in ls and "val" not in ls:
            return "item"
        if "codes" in ls and "val" not in ls:
            return "code"
        if "pat" in ls and "val" not in ls:
            return "hit"
        return None

    def case(self, q, a, st, c, la, lb):
        """both operands lower-cased exactly if case is ignored"""
        want = self.ci
        if ("lower" in la) != want or ("lower" in lb) != want:
            q.report("%s:case" % q.key, "%s: with ignore-case %s, %s compares %s"
                     % (q.f.path, "on" if want else "off", c.path.rsplit("::", 1)[1],
                        "operands of which only one is lower-cased" if ("lower" in la) != ("lower" in lb)
                        else "unmodified operands" if want else "lower-cased operands"), a.trace(a.cur))

    def atom(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if len(c.args) < 2:
            return None
        la, lb = ai.labels(a.val(st, c.args[0]), st), ai.labels(a.val(st, c.args[1]), st)
        both = la | lb
        if "val" in la and "val" in lb or "val" not in both:
            return None
        scope = "inner" if "inner" in both else "item"
        if "codes" in both and (n == "contains" or c.path in EQ):
            return (scope, "code", EQ.get(c.path, False))
        if "pat" not in both:
            return None
        if c.path in EQ:
            self.case(a.mon, a, st, c, la, lb)
            return (scope, "hit" if self.test in ("hit", "nohit") else "eq", EQ[c.path])
        if n in ("starts_with", "ends_with", "contains_str", "contains"):
            if n == "contains" and "pat" in la:     # membership in the list of values
                self.case(a.mon, a, st, c, la, lb)
                return (scope, "hit")
            self.case(a.mon, a, st, c, la, lb)
            ok = "val" in la and "pat" in lb
            nm = {"starts_with": "starts", "ends_with": "ends", "contains_str": "hit", "contains": "hit"}[n]
            return (scope, nm if ok else nm + " with swapped operands")
        if n == "is_match" and c.path.startswith("regex::"):
            if ("ci" in la) != self.ci:
                a.mon.report("%s:case" % a.mon.key, "%s: the expression is compiled case-%s although ignore-case is %s"
                             % (a.mon.f.path, "insensitive" if "ci" in la else "sensitive", "on" if self.ci else "off"),
                             a.trace(a.cur))
            return (scope, "hit")
        return None

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n == "to_lowercase":
            return lower_model(a, st, c)
        if n == "case_insensitive":
            yes = a.val(st, c.args[1])
            v = c.args[0]
            out = []
            for s, b in a.branch_bool(st, yes):
                cur = a.val(s, v)
                nv = ("o", ("call", c.site, c.path), (ai.labels(cur, s) - {"ci"}) | ({"ci"} if b else ai.EMPTY))
                if v[0] == "r":
                    s.write((v[1], v[2]), nv)
                    out.append((s, v))
                else:
                    out.append((s, nv))
            return out
        if n == "normalized_levenshtein":
            la, lb = (ai.labels(a.val(st, x), st) for x in c.args)
            if not ({"pat", "val"} <= (la | lb)) or ("pat" in la) == ("pat" in lb):
                a.mon.bad(a, "similar", "similarity is not computed between the value and the pattern")
            self.case(a.mon, a, st, c, la, lb)
            v = a.fresh(st, c)
            a.mon.persist.add(v[1])
            return [(st, ("o", v[1], v[2] | {"score"}))]
        return None

    def read(self, a, st, cur):
        for t, b in st.ass.items():
            if isinstance(t, tuple) and t and t[0] == "op" and t[1] in FLIP and len(t) == 4:
                l, r, op = t[2], t[3], t[1]
                if "normalized_levenshtein" in str(r):
                    l, r, op = r, l, FLIP[op]
                if "normalized_levenshtein" in str(l) and cmds.tag_ends(r, "strsim_threshold"):
                    if op == "Gt":
                        cur["similar"] = bool(b)
                    elif op == "Le":
                        cur["similar"] = not b
                    else:
                        cur["similar score %s threshold" % op] = bool(b)

    def item(self, cur):
        code, test = cur.get("code"), self.value(cur)
        if self.q == "Any":
            return and3(code, test)
        return or3(not3(code), test)

    def value(self, cur):
        t = self.test
        if t == "exists":
            return True
        name, inv = {"Eq": ("eq", 0), "Ne": ("eq", 1), "StartsWith": ("starts", 0), "StartsNotWith": ("starts", 1),
                     "EndsWith": ("ends", 0), "EndsNotWith": ("ends", 1), "Similar": ("similar", 0),
                     "hit": ("hit", 0), "nohit": ("hit", 1)}[t]
        v = cur.get(name)
        return not3(v) if inv else v

    def expect(self, g, seen, ex):
        return (all_ if self.q == "All" else any_)(seen, ex)


class FieldSpec(quant.Spec):
    """field predicates: the fields with matching tag and occurrence"""

    def __init__(self, quantifier, sub):
        self.q, self.sub = quantifier, sub

    def level(self, a, st, v):
        ls = ai.labels(v, st)
        return "item" if "items" in ls and "val" not in ls else None

    def atom(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n != "is_match" or not c.path.startswith("pica_record::") or len(c.args) < 2:
            return None
        m, x = a.val(st, c.args[0]), a.val(st, c.args[1])
        ls = ai.labels(m, st)
        for l in ("tag", "occ", "sub"):
            if l in ls:
                if "val" not in ai.labels(x, st):
                    a.mon.bad(a, "operand", "`%s` is not applied to the current field" % l)
                part = {"tag": "::tag", "occ": "::occurrence", "sub": "::subfields"}[l]
                if x[0] == "o" and x[1][0] == "call" and not x[1][2].endswith(part):
                    return ("item", l + " on another part")
                if l == "sub" and len(c.args) > 2 and a.val(st, c.args[2])[1:2] != (OPTS,):
                    a.mon.bad(a, "options", "the matcher options are not handed on to the subfield expression")
                return ("item", l)
        return None

    def pred(self, cur):
        r = [cur.get("tag"), cur.get("occ")]
        if self.sub:
            r.append(cur.get("sub"))
        return r

    def item(self, cur):
        if self.q == "All":
            return or3(not3(and3(cur.get("tag"), cur.get("occ"))), cur.get("sub"))
        return and3(*self.pred(cur))

    def expect(self, g, seen, ex):
        return (all_ if self.q == "All" else any_)(seen, ex)


class CountMixin:
    """the number of matching items is compared with the expected number"""
    q = "Any"
    op = "?"

    def stmt(self, q, a, st, p, v, sp, blk):
        # a counter kept by hand
        if v["r"] == "bin" and v["op"] in ("AddWithOverflow", "Add") and v["b"][0] == "k" and v["b"][1].get("int") == 1:
            q.counted(a, st, None)

    def seen(self, q, a, cur, r, seen):
        cnt = bool(cur.get("#"))
        if r is None:
            q.bad(a, "count", "an item is %s before the expression decided on it" % ("counted" if cnt else "passed over"))
        elif cnt != r:
            q.bad(a, "count", "an item is %s although it %s (%s)"
                  % ("counted" if cnt else "not counted", "matches" if r else "does not match",
                     quant.Quant.facts({x for x in cur.items() if x[0] != "#"})))
        return frozenset()

    def exit(self, q, a, st, b, node):
        ok = {"<", "=", ">"}
        n = 0
        for t, v in st.ass.items():
            if isinstance(t, tuple) and t and t[0] == "op" and t[1] in CMPS and len(t) == 4:
                l, r, op = t[2], t[3], t[1]
                if field_of_self(l) == "value":
                    l, r, op = r, l, FLIP[op]
                if field_of_self(r) == "value":
                    n += 1
                    ok &= CMPS[op] if v else {"<", "=", ">"} - CMPS[op]
        if not st.mon[3]:
            q.bad(a, "partial", "returns before all items were seen", node)
        self.out.setdefault(b, set()).update(ok if n else {"?"})

    def verdict(self, q, report):
        for b in (True, False):
            want = CMPS[self.op] if b else {"<", "=", ">"} - CMPS[self.op]
            got = self.out.get(b, set())
            if got != want:
                report("%s:compare" % q, "`# %s n` is %s for counts %s n instead of %s n"
                       % (self.op, str(b).lower(), "/".join(sorted(got)) or "never", "/".join(sorted(want))), [])


class SubCount(CountMixin, SubSpec):
    def __init__(self, op):
        SubSpec.__init__(self, "Any", "exists", False)
        self.op, self.out = op, {}


class FieldCount(CountMixin, FieldSpec):
    def __init__(self, op, sub):
        FieldSpec.__init__(self, "Any", sub)
        self.op, self.out = op, {}


def enum(v):
    return ("e", v, ())


def self_heap(**kw):
    return {("f", SELF, k): v for k, v in kw.items()}


def keep(tag):
    return True


def cases(prog, thorough=False):
    """(function path, key, spec factory, heap, labels)"""
    out = []
    ci = {0: ("k", 0), 1: ("k", 1)}
    cdl = {"codes": {"codes"}, "value": {"pat"}, "values": {"pat"}, "regex": {"pat"}}
    ops = [v["name"] for v in prog.adt("pica_record::matcher::operator::RelationalOp")["variants"]]
    strops = ["Eq", "Ne", "StartsWith", "StartsNotWith", "EndsWith", "EndsNotWith", "Similar"]
    cntops = ["Eq", "Ne", "Gt", "Ge", "Lt", "Le"]
    if sorted(ops) != sorted(set(strops) | set(cntops)):
        raise mir.MissingAnchor("relational operators %s" % ops)
    for c in (0, 1):
        oh = {("f", OPTS, "case_ignore"): ci[c]}
        out.append((SUB + "ExistsMatcher::is_match", "subfield-exists", lambda c=c: SubSpec("Any", "exists", bool(c)), dict(oh), cdl))
        for q in ("All", "Any"):
            for op in strops:
                out.append((SUB + "RelationMatcher::is_match", "%s %s" % (q, op),
                            lambda q=q, op=op, c=c: SubSpec(q, op, bool(c)),
                            {**oh, **self_heap(quantifier=enum(q), op=enum(op))}, cdl))
            out.append((SUB + "ContainsMatcher::is_match", "%s contains" % q, lambda q=q, c=c: SubSpec(q, "hit", bool(c)),
                        {**oh, **self_heap(quantifier=enum(q))}, cdl))
            for inv in (0, 1):
                for m in ("RegexMatcher", "RegexSetMatcher", "InMatcher"):
                    out.append((SUB + m + "::is_match", "%s %s%s" % (q, "not " if inv else "", m),
                                lambda q=q, inv=inv, c=c: SubSpec(q, "nohit" if inv else "hit", bool(c)),
                                {**oh, **self_heap(quantifier=enum(q), invert=("k", inv))}, cdl))
    fl = {"tag_matcher": {"tag"}, "occ_matcher": {"occ"}, "occurrence_matcher": {"occ"}, "subfield_matcher": {"sub"}}
    out.append((FLD + "ExistsMatcher::is_match", "field-exists", lambda: FieldSpec("Any", False), {}, fl))
    for q in ("All", "Any"):
        out.append((FLD + "SubfieldsMatcher::is_match", "%s fields" % q, lambda q=q: FieldSpec(q, True),
                    self_heap(quantifier=enum(q)), fl))
    for op in cntops:
        out.append((SUB + "CardinalityMatcher::is_match", "# %s" % op, lambda op=op: SubCount(op), self_heap(op=enum(op)), cdl))
        for sub in (False, True):
            h = self_heap(op=enum(op))
            t = ("f", SELF, "subfield_matcher")
            h[t] = ("e", "Some", (("0", ("o", ("sub",), frozenset(["sub"]))),)) if sub else enum("None")
            out.append((FLD + "CardinalityMatcher::is_match", "field # %s%s" % (op, " with expression" if sub else ""),
                        lambda op=op, sub=sub: FieldCount(op, sub), h, fl))
    return out


STOP = re.compile(r"::(TagMatcher|OccurrenceMatcher|SubfieldMatcher)::is_match$")


def analyse(ctx, item, report):
    path, key, mkspec, heap, labels = item
    f = ctx.prog.fn(path)
    g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not STOP.search(h.path)
                 and not h.path.startswith("pica_record::primitives"))
    spec = mkspec()
    quant.run(ctx, f, g, spec, key, init_state(heap, labels), report=report)
    if hasattr(spec, "verdict"):
        spec.verdict(key, report)
    ctx.count("predicates")
    ctx.unit("%s [%s]" % (path, key))
