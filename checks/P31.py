import itertools, re
import ai, cmds, loop, mir, preds, quant
from quant import and3, not3, or3

META = {
    "id": "P31",
    "title": "Combined filter expressions mean what was combined",
    "statement": "Joining two expressions with &, |, ^ or negating one with ! gives an expression that is true exactly if "
                 "the operator's truth table says so of the operands, and whose printed form groups operands that bind more "
                 "weakly. A filter is extended by every --and, then every --or, then every --not expression, each exactly "
                 "once and each transformed like the main expression.",
    "over": ["inputs", "configurations"],
    "for_all": "every pair of operand expressions and every list of additional expressions",
    "why": "The operands are arbitrary trees and the lists have any length; tests combine a few concrete expressions.",
    "files": ["src/matcher/field/mod.rs", "src/matcher/subfield/mod.rs", "src/matcher/record.rs",
              "src/matcher/builder.rs", "crates/pica-cli/src/cli.rs", "crates/pica-cli/src/commands/filter.rs"],
    "mechanism": [["BitAnd/BitOr/BitXor(+Assign)/Not for FieldMatcher, SubfieldMatcher, RecordMatcher", "src/matcher"],
                  ["RecordMatcherBuilder::and/or/not", "src/matcher/builder.rs"],
                  ["FilterOpts::matcher, Filter::execute", "crates/pica-cli/src"]],
    "technique": "symbolic tree evaluation by case split over operand variants, typestate over the extension loops (MIR)",
    "rule": "for every operator and every combination of operand variants the returned tree is evaluated under all truth "
            "assignments of the operands' parts and compared with the operator; weaker operands must sit in a group. In the "
            "extension loops each item is transformed, parsed and combined exactly once with the loop's own operator. The "
            "option lists reach the extension of the same name, in the order and, or, not.",
}
OPS = {"bitand": "And", "bitor": "Or", "bitxor": "Xor", "not": "Not"}
PREC = {"Or": 0, "Xor": 1, "And": 2}
TABLE = {"And": and3, "Or": or3, "Xor": lambda a, b: a != b}
ENUMS = [("pica_record::matcher::field::FieldMatcher", "field"), ("pica_record::matcher::subfield::SubfieldMatcher", "subfield")]
REC = "pica_record::matcher::record::RecordMatcher"
CELL = 10 ** 6


def leaf(n):
    return ("o", ("part", n), frozenset(["part:" + n]))


def operands(prog, path, who):
    """every variant of the expression type with opaque parts"""
    out = []
    for v in prog.adt(path)["variants"]:
        names = [x[0] for x in v["fields"]]
        for op in (PREC if "op" in names else [None]):
            out.append(("%s%s" % (v["name"], " " + op if op else ""),
                        ("e", v["name"], tuple((n, ("e", op, ()) if n == "op" else leaf(who + n)) for n in names))))
    return out


def evaluate(v, env):
    """truth of a tree under an assignment of its leaves; None if not a tree"""
    if v[0] == "o":
        return env.get(v[1][1]) if v[1][0] == "part" else None
    if v[0] == "s" and len(v[1]) == 1:
        return evaluate(v[1][0][1], env)
    if v[0] != "e":
        return None
    d = dict(v[2])
    if "op" in d:
        if d["op"][0] != "e" or d["op"][1] not in TABLE:
            return None
        xs = [evaluate(x, env) for n, x in v[2] if n != "op"]
        return None if len(xs) != 2 or None in xs else TABLE[d["op"][1]](*xs)
    if len(v[2]) != 1:
        return None
    x = evaluate(v[2][0][1], env)
    return not3(x) if v[1] == "Not" else x


def leaves(v, out):
    if v[0] == "o" and v[1][0] == "part":
        out.add(v[1][1])
    elif v[0] in "se":
        for n, x in v[1 if v[0] == "s" else 2]:
            leaves(x, out)
    return out


def unwrap(v):
    while v[0] == "s" and len(v[1]) == 1:
        v = v[1][0][1]
    return v


def deep(a, st, v, d=0):
    v = a.val(st, v)
    if d < 8 and v[0] == "e":
        return ("e", v[1], tuple((n, deep(a, st, x, d + 1)) for n, x in v[2])) + v[3:]
    if d < 8 and v[0] == "s":
        return ("s", tuple((n, deep(a, st, x, d + 1)) for n, x in v[1])) + v[2:]
    return v


def impls(prog):
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        m = re.fullmatch(r"(bitand|bitor|bitxor|not)(_assign)?", f.name)
        if m and f.crate == "pica_record" and f.j.get("impl_trait", "").startswith("core::ops::"):
            out.append((f, m.group(1), bool(m.group(2)), f.j["impl_self"]))
    return out


def operators(ctx):
    prog = ctx.prog
    found = set()
    for f, op, assign, ty in impls(prog):
        base = [p for p, _ in ENUMS if p == ty]
        rec = ty == REC
        if not base and not rec:
            continue
        found.add((op, assign, ty))
        path = base[0] if base else ENUMS[0][0]

        def wrap(v):
            return ("s", (("0", v),), REC) if rec else v
        lhs = operands(prog, path, "l.")
        rhs = operands(prog, path, "r.") if op != "not" else [("", None)]
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and not h.derived)
        for (ln, lv), (rn, rv) in itertools.product(lhs, rhs):
            init = {1: wrap(lv)}
            if rv is not None:
                init[2] = wrap(rv)
            if assign:
                init[1] = ("r", CELL, ())
                init[CELL] = wrap(lv)
            a = ai.AI(prog, g, None, init=init)
            a.borrowed.add(CELL)
            a.run()
            ctx.count("states", a.nstates)
            ctx.count("combinations")
            key = "%s %s%s(%s%s)" % (ty.split("::")[-1], op, "_assign" if assign else "", ln, ", " + rn if rn else "")
            if not a.exits:
                ctx.violation(key + ":none", "%s: no result for operands %s / %s" % (f.path, ln, rn), [])
            for st, v, node in a.exits:
                r = st.env.get(CELL) if assign else v
                judge(ctx, key, f, OPS[op], lv, rv, deep(a, st, r) if r else ("o", ("top",), ai.EMPTY), a.trace(node))
        ctx.unit(f.path)
    want = {(o, s, t) for o in OPS for s in (False, True) for t in [p for p, _ in ENUMS] + [REC] if not (o == "not" and s)}
    if found != want:
        raise mir.MissingAnchor("operator implementations %s" % sorted(want - found)[:3])


def judge(ctx, key, f, op, lv, rv, r, trace):
    ls = sorted(leaves(lv, set()) | (leaves(rv, set()) if rv else set()))
    for bits in itertools.product((False, True), repeat=len(ls)):
        env = dict(zip(ls, bits))
        x = evaluate(lv, env)
        want = not x if op == "Not" else TABLE[op](x, evaluate(rv, env))
        got = evaluate(r, env)
        if got is not want:
            ctx.violation(key + ":truth", "%s: for operands with values %s the combined expression is %s, must be %s"
                          % (f.path, ", ".join("%s=%s" % (k, v) for k, v in env.items()), got, want), trace)
            return
    # printing
    r = unwrap(r)
    if r[0] != "e":
        return
    d = dict(r[2])
    parts = [x for n, x in r[2] if n != "op"]
    for x in parts:
        x = unwrap(x)
        if x[0] != "e":
            continue
        o = dict(x[2]).get("op")
        if not o or o[0] != "e":
            continue
        if r[1] == "Not":
            ctx.violation(key + ":group", "%s: a negated %s expression is not grouped" % (f.path, o[1]), trace)
        elif "op" in d and PREC[o[1]] < PREC.get(d["op"][1], 9):
            ctx.violation(key + ":group", "%s: operand %s of %s is not grouped" % (f.path, o[1], d["op"][1]), trace)


# ---- extension loops
class Extend:
    """mon: None outside an item, else number of times the item was combined (capped)"""

    def __init__(self, ctx, f, op, neg):
        self.ctx, self.f, self.op, self.neg = ctx, f, op, neg

    def init(self):
        return None

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.name, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def level(self, a, st, v):
        ls = ai.labels(v, st)
        return "items" in ls and "item" not in ls

    def end(self, a, st, node=None):
        if st.mon == 0:
            self.bad(a, "skipped", "an additional expression is not combined with the filter", node)
        st.mon = None

    def exhausted(self, a, st, t):
        v = a.operand(st, t["src"])
        if self.level(a, st, v):
            self.end(a, st)
            if "cut" in ai.labels(v, st):
                self.bad(a, "cut", "only part of the additional expressions is used")

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        tag = ("cb", v["call"].get("bid"), v["ai"])
        a.kill(st, tag)
        ls = ai.labels(src, st)
        if self.level(a, st, src):
            self.end(a, st)
            st.mon = 0
            return ("o", tag, ls | {"item"})
        return ai.mk(tag, ls)

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if c.path == quant.NEXTI and self.level(a, st, a.val(st, c.args[0])):
            ls = ai.labels(a.val(st, c.args[0]), st)
            s0, s1 = st.copy(), st.copy()
            self.end(a, s0)
            self.end(a, s1)
            if "cut" in ls:
                self.bad(a, "cut", "only part of the additional expressions is used")
            s1.mon = 0
            tag = ("call", c.site, c.path)
            a.kill(s1, tag)
            return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", ("o", tag, ls | {"item"})),)))]
        if c.path.startswith("core::ops::function::Fn") or n == "call":
            ls = frozenset().union(*[ai.labels(x, st) for x in c.args]) if c.args else ai.EMPTY
            if "transform" in ls:
                return [(st, ("o", ("call", c.site, c.path), ls | {"transformed"}))]
        if re.search(r"RecordMatcher::new$", c.path):
            ls = ai.labels(a.val(st, c.args[0]), st)
            out = [(st.copy(), ("e", "Err", (("0", ai.mk(("call", c.site, "err"))),)))]
            s = st.copy()
            out.append((s, ("e", "Ok", (("0", ("o", ("call", c.site, c.path), ls | {"parsed"})),))))
            return out
        if c.path == "core::ops::bit::Not::not":
            v = a.val(st, c.args[0])
            ls = ai.labels(v, st)
            if "parsed" in ls:
                return [(st, ("o", ("call", c.site, c.path), (ls - {"neg"}) if "neg" in ls else ls | {"neg"}))]
            if "base" in ls:
                self.bad(a, "negates", "the filter so far is negated")
        m = re.fullmatch(r"core::ops::bit::Bit(And|Or|Xor)(Assign)?::bit\w+", c.path)
        if m:
            self.ctx.count("combinations_visited")
            x, y = a.val(st, c.args[0]), a.val(st, c.args[1])
            lx, ly = ai.labels(x, st), ai.labels(y, st)
            if "base" not in lx and "base" in ly and not m.group(2):
                x, y, lx, ly = y, x, ly, lx
            if "base" not in lx or "item" not in ly:
                self.bad(a, "operands", "does not combine the filter so far with an additional expression")
            if "transformed" not in ly:
                self.bad(a, "transform", "an additional expression is not transformed")
            if m.group(1) != self.op:
                self.bad(a, "operator", "an additional expression is combined by %s" % m.group(1))
            if ("neg" in ly) != self.neg:
                self.bad(a, "negation", "an additional expression is %snegated" % ("" if "neg" in ly else "not "))
            if st.mon is None or st.mon > 0:
                self.bad(a, "twice", "an additional expression is combined twice")
            st.mon = 1
            acc = ("o", ("base",), frozenset(["base"]))
            if m.group(2):
                r = c.args[0]
                if r[0] == "r":
                    st.write((r[1], r[2]), acc)
                return [(st, ai.mk(("unit",)))]
            return [(st, acc)]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.end(a, st, node)
        self.ctx.count("exits_compared")
        x = a.val(st, dict(v[2])["0"]) if v[0] == "e" and v[2] else v
        m = dict(x[1]).get("matcher") if x[0] == "s" else None
        if m is None or a.val(st, m)[1] != ("base",):
            self.bad(a, "result", "the result does not hold the extended filter", node)


B = "pica_record::matcher::builder::RecordMatcherBuilder::<S>::"


def builder(ctx):
    for name, op, neg in (("and", "And", False), ("or", "Or", False), ("not", "And", True)):
        f = ctx.prog.fn(B + name)
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and "builder" in h.path)
        me = ("s", (("transform", ("o", ("t",), frozenset(["transform"]))),
                    ("matcher", ("o", ("base",), frozenset(["base"])))), "pica_record::matcher::builder::RecordMatcherBuilder")
        a = ai.AI(ctx.prog, g, Extend(ctx, f, op, neg), init={1: me, 2: ("o", ("list",), frozenset(["items"]))})
        a.run()
        ctx.unit(f.path)
    ctx.floor("combinations_visited", 3)
    # start and end of the chain
    f = ctx.prog.fn(B + "build")
    g = ctx.flat(f)
    a = ai.AI(ctx.prog, g, None, init={1: me})
    a.run()
    for st, v, node in a.exits:
        if a.val(st, v)[1] != ("base",):
            ctx.violation("build:result", "%s does not return the filter that was built" % f.path, a.trace(node))
    if not a.exits:
        ctx.violation("build:none", "%s never returns" % f.path, [])
    for name in ("new", "with_transform"):
        f = ctx.prog.fn(B + name)
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and "builder" in h.path)

        class Start(Extend):
            def exit(self, a, st, v, node):
                v = a.val(st, v)
                if v[0] == "e" and v[1] == "Err":
                    return
                x = a.val(st, dict(v[2])["0"]) if v[0] == "e" and v[2] else v
                d = dict(x[1]) if x[0] == "s" else {}
                m, t = d.get("matcher"), d.get("transform")
                ctx.count("exits_compared")
                lm = ai.labels(m, st) if m else ai.EMPTY
                if not {"expr", "parsed"} <= lm or "neg" in lm:
                    self.bad(a, "start", "does not start from the given expression", node)
                if self.f.name == "with_transform":
                    if "transformed" not in lm:
                        self.bad(a, "transform", "the main expression is not transformed", node)
                    if t is None or "transform" not in ai.labels(t, st):
                        self.bad(a, "keep", "does not keep the transformation", node)
        a = ai.AI(ctx.prog, g, Start(ctx, f, "", False),
                  init={1: ("o", ("expr",), frozenset(["expr"])), 2: ("o", ("t",), frozenset(["transform"]))})
        a.run()
        ctx.unit(f.path)
    ctx.floor("exits_compared", 5)


# ---- the options
class Opts:
    """mon: tuple of extensions applied so far, None before the start"""
    ORDER = ("and", "or", "not")

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return None

    def bad(self, a, k, m):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(a.cur))

    def src(self, a, st, v):
        return sorted({l[4:] for l in ai.labels(a.val(st, v), st) if l.startswith("opt:")})

    def call(self, a, st, c):
        m = re.search(r"RecordMatcherBuilder::<S>::(\w+)$", c.path)
        if not m:
            return None
        n = m.group(1)
        self.ctx.count("builder_calls_visited")
        if n in ("new", "with_transform"):
            ls = self.src(a, st, c.args[0])
            if not ls or set(ls) - {"where", "filter", "predicate", "expr_file"}:
                self.bad(a, "start", "the filter is built from %s" % ("/".join(ls) or "nothing given"))
            for t, n1, n2 in self.prefer:
                x = st.ass.get(t)
                w = {"Some": n1, "None": n2}.get(x if isinstance(x, str) else None)
                if w is None or ls != [w]:
                    self.bad(a, "prefer", "with %s %s, the filter is built from %s" % (
                        n1, {"Some": "given", "None": "not given"}.get(x, "not examined"), "/".join(ls)))
            st.mon = ()
        elif n in self.ORDER:
            ls = self.src(a, st, c.args[1])
            if ls != [n] or "cut" in ai.labels(a.val(st, c.args[1]), st):
                self.bad(a, "list:" + n, "the filter is extended (%s) by the expressions given as %s"
                         % (n, "/".join(ls) or "nothing"))
            if st.mon is None or n in st.mon:
                self.bad(a, "twice:" + n, "the filter is extended (%s) twice" % n)
            st.mon = (st.mon or ()) + (n,)
        elif n == "build":
            if st.mon != self.ORDER:
                self.bad(a, "order", "the filter is extended by %s, must be and, or, not" % (", ".join(st.mon or ()) or "nothing"))
            return None
        ok = ("o", ("call", c.site, c.path), ai.EMPTY)
        return [(st.copy(), ("e", "Err", (("0", ai.mk(("call", c.site, "err"))),))), (st, ("e", "Ok", (("0", ok),)))]


def opt(t, n):
    return ("o", t, frozenset(["opt:" + n]))


def options(ctx):
    prog = ctx.prog
    users = [f for f in sorted(prog.fns.values(), key=lambda f: f.key) if f.crate == "pica" and f.is_fn
             and any(cmds.mentions(h, re.compile(r"RecordMatcherBuilder::<S>::build$")) for h in prog.nested(f))]
    rel = cmds.relevant(prog, ("pica",), call_rx=re.compile(r"RecordMatcherBuilder::<S>::\w+$"),
                        fields=("expr_file", "where", "and", "or", "not"))
    for f in users:
        selfty = f.j.get("impl_self", "")
        adt = prog.adts.get(selfty)
        if adt is None:
            ctx.violation(f.path + ":origin", "%s builds a filter outside the option types" % f.path, [])
            continue
        names = [x[0] for x in adt["variants"][0]["fields"]]
        pre = ("p", "self")
        heap = {("f", pre, n): opt(("f", pre, n), n) for n in names if n in ("where", "filter", "expr_file", "and", "or", "not")}
        init = {"heap": heap}
        b = f.body
        prefer = [(("f", pre, "expr_file"), "expr_file", "filter")] if "expr_file" in names else []
        for i in range(2, b["argc"] + 1):
            if re.search(r"Option<.*String>", b["locals"][i][0]):
                init[i] = opt(("p", str(i)), "predicate")
                prefer.append((("p", str(i)), "predicate", "where"))
        mod = selfty.rsplit("::", 1)[0]
        g = ctx.flat(f, inline=lambda h: h.crate == "pica" and (h.key in rel or h.path.startswith(mod + "::")))
        m = Opts(ctx, f)
        m.prefer = prefer
        a = ai.AI(prog, g, m, init=init, keep=lambda t: t in [x[0] for x in prefer])
        a.run()
        ctx.count("states", a.nstates)
        ctx.unit(f.path)
    ctx.floor("builder_calls_visited", 10)


def run(ctx):
    operators(ctx)
    builder(ctx)
    options(ctx)
    ctx.floor("combinations", 400)
