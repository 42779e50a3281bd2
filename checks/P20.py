"""Unicode normalisation: of expressions as configured, of output as requested."""
import re
import ai, cmds, loop, mir
from P47 import CSV

FORMS = {"Nfc": "nfc", "Nfkc": "nfkc", "Nfd": "nfd", "Nfkd": "nfkd"}

META = {
    "id": "P20",
    "title": "Expressions are normalised as configured, output as --translit says",
    "statement": "Under each Unicode normal form (NFC, NFKC, NFD, NFKD) a text becomes that form of itself, and without one it stays "
                 "as it is. Every command that takes a filter expression or a query puts it, and whatever --and, --or and --not add "
                 "to it, into the form configured before parsing it, and so does check with a rule set's text. The values that "
                 "print, select and frequency write are put into the form that --translit asks for, and stay as they are without it.",
    "over": ["inputs", "configurations"],
    "for_all": "every text, every normal form or none, every command that takes an expression",
    "why": "Composed and decomposed text look alike; a form missed or mistaken at one place shows only for such text with such a "
           "configuration, and tests give most commands neither.",
    "files": ["crates/pica-cli/src/translit.rs", "crates/pica-cli/src/cli.rs", "crates/pica-cli/src/commands/filter.rs",
              "crates/pica-cli/src/commands/select.rs", "crates/pica-cli/src/commands/frequency.rs",
              "crates/pica-cli/src/commands/print.rs", "crates/pica-cli/src/commands/check/set.rs", "src/matcher/builder.rs"],
    "mechanism": [["the function for a form", "crates/pica-cli/src/translit.rs: translit"],
                  ["expression options", "crates/pica-cli/src/cli.rs: FilterOpts::matcher"],
                  ["further expressions", "src/matcher/builder.rs: RecordMatcherBuilder"],
                  ["rule sets", "crates/pica-cli/src/commands/check/set.rs: RuleSet::new"]],
    "technique": "dataflow analysis of the MIR by abstract interpretation, from options and configuration to parsers and writers",
    "rule": "The closure chosen for each form returns exactly that form of its argument; every call to a parser of expressions in a "
            "command gets a function or text made with the configured form (with its own argument in FilterOpts::matcher, with its "
            "stored function in the matcher's builder); every row written for records carries the form of the command's own option "
            "iff that is given.",
    "assumptions": ["nfc, nfkc, nfd and nfkd of the unicode-normalization crate compute those forms",
                    "that print writes no value past the function is P19's"],
}
TRANSLIT = re.compile(r"translit::translit$")
INNER = re.compile(r"translit::translit\b")
WITH = re.compile(r"RecordMatcherBuilder(::<\w+>)?::with_transform$")
MATCHER = re.compile(r"cli::FilterOpts::matcher$")
PARSE = re.compile(r"(query::Query|record::RecordMatcher)::new$|(query::Query|record::RecordMatcher) as .*FromStr>::from_str$")
PLAIN = re.compile(r"RecordMatcherBuilder(::<\w+>)?::new$")
RULES = re.compile(r"set::RuleSet::new$")
SAME = {"clone", "cloned", "as_ref", "as_deref", "to_owned", "into", "from", "as_str", "to_string", "borrow", "deref", "as_mut", "into_string",
        "into_owned", "copied", "must_use", "chars", "collect", "from_iter", "into_boxed_str", "to_string_lossy", "by_ref", "into_iter", "take",
        "as_bytes", "or_none", "to_str", "to_vec", "then_some"}
CALLS = {"call", "call_mut", "call_once"}


def deref(a, st, v):
    v = a._deepread(st, v)
    while v[0] == "s" and len(v[1]) == 1 and not str(v[2]).startswith("closure:"):
        v = a._deepread(st, v[1][0][1])
    return v


def text(x):
    return ("o", x, ai.EMPTY)


class Base:
    def init(self):
        return ()


class Fn(Base):
    """the value of a text function; texts are terms"""

    def __init__(self):
        self.out = set()

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [deref(a, st, x) for x in c.args]
        if n in FORMS.values() and len(v) == 1 and v[0][0] == "o":
            return [(st, text(("form", n, v[0][1])))]
        if n in SAME and len(v) == 1 and v[0][0] in "oe":
            return [(st, v[0])]
        if n in ("push_str", "extend", "push", "add_assign") and len(v) == 2 and c.args[0][0] == "r":
            if v[0] == ("k", "") and v[1][0] == "o":
                st.write(c.args[0][1:3], v[1])
                return [(st, ("s", (), "tuple"))]
        if n in ("new", "with_capacity", "default") and "String" in (c.t.get("dty") or ""):
            return [(st, ("k", ""))]
        if n in ("read_to_string",):
            return [(st.copy(), ai.ok(text(("x",)))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if n == "from_str" and "toml" in c.path:
            self.out.add(v[0])
            return []
        return None

    def exit(self, a, st, v, node):
        if v[0] == "e" and v[1] == "Err":
            return
        self.out.add(deref(a, st, v) if not (v[0] == "s" and str(v[2]).startswith("closure:")) else v)


def show(t):
    if t[0] == "form":
        return "%s(%s)" % (t[1], show(t[2]))
    return "the text" if t == ("x",) else "something else"


def forms(ctx):
    prog = ctx.prog
    adt = prog.adts.get("pica::translit::NormalizationForm")
    if adt is None or {v["name"] for v in adt["variants"]} != set(FORMS):
        raise mir.MissingAnchor("NormalizationForm")
    f = next((f for f in prog.fns.values() if f.crate == "pica" and f.body and TRANSLIT.search(f.path)), None)
    r = next((f for f in prog.fns.values() if f.crate == "pica" and f.body and RULES.search(f.path)), None)
    for h, n in ((f, "translit"), (r, "RuleSet::new")):
        if h is None:
            raise mir.MissingAnchor(n)
    for form in [None] + sorted(FORMS):
        want = {text(("x",) if form is None else ("form", FORMS[form], ("x",)))}
        nf = ("e", "None", ()) if form is None else ("e", "Some", (("0", ("e", form, ())),))
        m = Fn()
        ai.AI(prog, ctx.flat(f, inline=lambda h: h.crate == "pica"), m, init={1: nf}).run()
        for v in m.out or {ai.TOP}:
            key = v[2][8:] if v[0] == "s" and str(v[2]).startswith("closure:") else v[1][3:] if v[0] == "k" and str(v[1]).startswith("fn:") else None
            h = prog.fns.get(key)
            if h is None:
                h = next((x for x in prog.fns.values() if key and x.body and key.endswith(x.path)), None)
            if h is None:
                ctx.violation("translit:function", "%s: the function for %s is not known" % (f.path, form or "no form"), [])
                continue
            mm = Fn()
            ai.AI(prog, ctx.flat(h, inline=lambda h: h.crate == "pica"), mm, init={1: v, 2: text(("x",))} if h.is_closure else {1: text(("x",))}).run()
            ctx.count("functions")
            if mm.out != want:
                ctx.violation("translit:%s" % (form or "none"), "%s: for %s a text becomes %s" % (
                    f.path, form or "no form", " or ".join(sorted(show(x[1]) if x[0] == "o" else "something else" for x in mm.out)) or "nothing"), [])
        some = ("e", "Some", (("0", ("r", -1, ())),))
        m = Fn()
        a = ai.AI(prog, ctx.flat(r, inline=lambda h: h.crate == "pica"), m, init={1: ai.mk(("path",)), 2: nf})
        a.run()
        ctx.count("rule_sets")
        if m.out != want:
            ctx.violation("rules:%s" % (form or "none"), "%s: for %s a rule set is read from %s" % (
                r.path, form or "no form", " or ".join(sorted(show(x[1]) if x[0] == "o" else "something else" for x in m.out)) or "nothing"), [])
    ctx.unit(f.path)
    ctx.unit(r.path)


# -- the matcher's builder, and the options' own matcher
TF = ("o", ("tf",), frozenset(["tf"]))


class Build(Base):
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.parsed = 0

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.name, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        ls = [ai.labels(x, st) | ai.labels(a._deepread(st, x), st) for x in c.args]
        callee = ls[0] if ls else ai.EMPTY
        if c.path == "?":
            for o in [c.t.get("o")] + [c.t.get("f")]:
                if isinstance(o, (tuple, list)) and o and o[0] in ("c", "m"):
                    callee = callee | ai.labels(a.operand(st, tuple(o)), st)
        if (n in CALLS and c.path.startswith("core::ops::function") or c.path == "?") and "tf" in callee:
            return [(st, ("o", ("applied", c.site), frozenset(["applied"]).union(*ls[1:])))]
        if PARSE.search(c.path):
            self.ctx.count("parser_calls")
            self.parsed += 1
            if "applied" not in ls[0]:
                self.bad(a, "untransformed", "an expression is parsed to which the function given is not applied")
            return [(st.copy(), ai.ok(ai.mk(("m", c.site)))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return None

    def exit(self, a, st, v, node):
        v = a._deepread(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("builders")
        if v[0] == "e" and v[1] == "Ok":
            v = a._deepread(st, v[2][0][1])
        ls = ai.labels(v, st)
        if v[0] == "s":
            d = [x for n, x in v[1] if n == self.field]
            ls = ai.labels(d[0], st) | ai.labels(a._deepread(st, d[0]), st) if d else ai.EMPTY
        if not ({"tf", "self"} & ls):
            self.bad(a, "forgotten", "the function given is not kept for the expressions that follow", node)


def builder(ctx):
    prog = ctx.prog
    path = next((p for p in prog.adts if p.endswith("::RecordMatcherBuilder")), None)
    if path is None:
        raise mir.MissingAnchor("RecordMatcherBuilder")
    fld = [n for n, ty, _ in prog.adts[path]["variants"][0]["fields"] if "dyn" in ty and "Fn" in ty]
    if len(fld) != 1:
        raise mir.MissingAnchor("the function kept by RecordMatcherBuilder")
    for f in prog.fns.values():
        if not f.body or f.is_closure or not str(f.j.get("impl_self") or "").startswith(path) or f.j.get("trait_impl") or f.name in ("new", "build"):
            continue
        g = ctx.flat(f, inline=lambda h: h.crate == f.crate and "RecordMatcherBuilder" in h.path)
        m = Build(ctx, f)
        m.field = fld[0]
        init = {}
        for i in range(1, 1 + len(g.args)):
            ty = g.locals[i][0]
            if "RecordMatcherBuilder" in ty:
                init[i] = ("o", ("self",), frozenset(["self"]))
                init.setdefault("heap", {})[("f", ("self",), fld[0])] = TF
            elif re.fullmatch(r"F|impl .*Fn.*", ty):
                init[i] = TF
        ai.AI(prog, g, m, init=init).run()
        ctx.unit(f.path)
        if not m.parsed and f.name in ("with_transform", "and", "or", "not"):
            raise mir.MissingAnchor("the expression parsed by " + f.path)


# -- the commands
CFG, OPT = ("o", ("cfgnf",), frozenset(["cfgnf"])), ("o", ("optnf",), frozenset(["optnf"]))


def flat(ctx, f):
    return ctx.flat(f, inline=lambda h: h.crate == "pica" and not INNER.search(h.path), stop=lambda h: bool(INNER.search(h.path)))


class Mon(loop.LoopMon):
    given = None        # --translit given?

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.name, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def kind(self, v):
        """which form is this?"""
        if v == CFG:
            return "cfg"
        if v == OPT or v[0] == "e" and v[1] == "Some" and v[2] and v[2][0][1] == OPT:
            return "opt"
        if v == ("e", "None", ()):
            return "none"
        return None

    def func(self, a, st, v):
        """which form does this text function apply?"""
        v = deref(a, st, v)
        if v[0] == "o":
            ks = [l[3:] for l in v[2] if l.startswith("tr:")]
            return ks[0] if len(ks) == 1 else None
        if v[0] == "s" and str(v[2]).startswith("closure:"):
            f = self.ctx.prog.fns.get(v[2][8:])
            if f is None:
                return None
            g = flat(self.ctx, f)
            m = Sub(self)
            ai.AI(self.ctx.prog, g, m, init={1: v, 2: ("o", ("arg",), frozenset(["rec"]))}).run()
            return list(m.out)[0] if len(m.out) == 1 else None
        return None

    def tr(self, a, st, c):
        k = self.kind(a._deepread(st, c.args[0]))
        self.ctx.count("functions_made")
        return [(st, ("o", ("tr", c.site), frozenset(["tr:%s" % k])))]

    def apply(self, a, st, c, f, ls):
        k = self.func(a, st, f)
        if k is None:
            return None
        self.ctx.count("texts_made")
        return [(st, ("o", ("text", c.site), (ls - {"tr:" + k}) | {"nf:" + k}))]

    def on_call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if TRANSLIT.search(c.path):
            return self.tr(a, st, c)
        ls = [ai.labels(x, st) | ai.labels(a._deepread(st, x), st) for x in c.args]
        if (n in CALLS and c.path.startswith("core::ops::function") or INNER.search(c.path)) and len(c.args) == 2:
            return self.apply(a, st, c, c.args[0], ls[1])
        if n in ("map", "for_each", "flat_map") and c.path.startswith("core::") and len(c.args) == 2:
            return self.apply(a, st, c, c.args[1], ls[0])
        if n == "to_string" and re.search(r"^&?[ui](8|16|32|64|128|size)$", c.self_ty or "") or n in ("len", "with_capacity", "capacity"):
            return [(st, ("o", ("number", c.site), ai.EMPTY))]
        if n in SAME and len(c.args) == 1:
            v = a._deepread(st, c.args[0])
            if v in (CFG, OPT) or self.kind(v) or v[0] == "o" and v[1][0] in ("tr", "text"):
                return [(st, v)]
        if MATCHER.search(c.path) and len(c.args) == 3:
            self.ctx.count("parser_calls")
            self.seen = True
            if self.kind(a._deepread(st, c.args[1])) != "cfg":
                self.bad(a, "filter", "the filter expression is not put into the form configured")
            return None
        if WITH.search(c.path):
            self.ctx.count("parser_calls")
            self.seen = True
            if self.func(a, st, c.args[1]) != "cfg":
                self.bad(a, "filter", "the filter expression is not put into the form configured")
            if any(l.startswith("nf:") for l in ls[0]):
                return None
        elif PLAIN.search(c.path):
            self.bad(a, "filter", "a filter expression is built without a function that puts it into the form configured")
        elif RULES.search(c.path):
            self.ctx.count("parser_calls")
            if self.kind(deref(a, st, c.args[1])) != "cfg":
                self.bad(a, "rules", "a rule set is not put into the form configured")
        elif PARSE.search(c.path) and c.args:
            self.ctx.count("parser_calls")
            if "nf:cfg" not in ls[0]:
                self.bad(a, "expression", "an expression is parsed that was not put into the form configured")
            return [(st.copy(), ai.ok(ai.mk(("parsed", c.site)))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if CSV.search(c.path) and self.given is not None and len(c.args) == 2 and "rec" in ls[1]:
            self.ctx.count("rows_written")
            got = {l[3:] for l in ls[1] if l.startswith("nf:")}
            if self.given and got != {"opt"}:
                self.bad(a, "output", "a row is written that was not put into the form --translit asks for")
            if not self.given and got - {"none", "opt"}:
                self.bad(a, "unasked", "a row is changed without --translit")
            return [(st.copy(), ai.ok(("s", (), "tuple"))), (st, ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        return None

    def on_apply(self, a, st, k, ls):
        pass

    def exit(self, a, st, v, node):
        self.ctx.count("exits")

    def call(self, a, st, c):
        if MATCHER.search(c.path):
            self.on_call(a, st, c)
        return loop.LoopMon.call(self, a, st, c)


class Sub(Base):
    """which form a closure applies to its argument"""

    def __init__(self, m):
        self.m = m
        self.out = set()

    def call(self, a, st, c):
        r = self.m.on_call(a, st, c) if not CSV.search(c.path) else None
        return r

    def exit(self, a, st, v, node):
        ks = {l[3:] for l in ai.labels(a._deepread(st, v), st) if l.startswith("nf:")}
        self.out.add(list(ks)[0] if len(ks) == 1 else None)


class Print(Mon):
    """every text made of a record is made with the command's own option"""

    def apply(self, a, st, c, f, ls):
        r = Mon.apply(self, a, st, c, f, ls)
        if r and st.mon[0] != "idle" and "rec" in ls and "nf:opt" not in r[0][1][2]:
            self.bad(a, "output", "a value is not put into the form that --translit asks for")
        if r and "rec" in ls:
            self.ctx.count("values_visited")
        return r


def one(ctx, item):
    key, given, cls = item
    prog = ctx.prog
    f = prog.fns[key]
    adt = prog.adts[f.j["impl_self"]]
    heap = {}
    rx = re.compile("|".join((loop.RX.pattern, TRANSLIT.pattern, WITH.pattern, PARSE.pattern, RULES.pattern, CSV.pattern)))
    own = loop.inliner(prog, rx, ("normalization", "nf"))
    g = ctx.flat(f, inline=lambda h: own(h) and not INNER.search(h.path) and not RULES.search(h.path),
                 collect=given is None and cls is Mon, stop=lambda h: bool(INNER.search(h.path)))
    cfg = [i for i in range(1, 1 + len(g.args)) if "config::Config" in g.locals[i][0]]
    if not cfg:
        raise mir.MissingAnchor("configuration of " + f.path)
    heap[("f", ("cfg",), "normalization")] = CFG
    if given is not None:
        heap[("f", ("p", "self"), "nf")] = ("e", "Some", (("0", OPT),)) if given else ("e", "None", ())
    elif any(n == "nf" for n, _, _ in adt["variants"][0]["fields"]):
        heap[("f", ("p", "self"), "nf")] = OPT
    m = cls(ctx, f, g)
    m.name = cmds.cmdname(f)
    m.given = given
    a = ai.AI(prog, g, m, keep=loop.keep_default, init={"heap": heap, cfg[0]: ("o", ("cfg",), ai.EMPTY)})
    a.run()
    ctx.count("states", a.nstates)
    ctx.unit(f.path + {None: "", True: " with --translit", False: " without --translit"}[given])


class Own(Mon):
    """FilterOpts::matcher with its own argument as the form"""
    given = None


def own(ctx):
    prog = ctx.prog
    f = next((f for f in prog.fns.values() if f.body and MATCHER.search(f.path)), None)
    if f is None:
        raise mir.MissingAnchor("FilterOpts::matcher")
    g = flat(ctx, f)
    nf = [i for i in range(1, 1 + len(g.args)) if "NormalizationForm" in g.locals[i][0]]
    if len(nf) != 1:
        raise mir.MissingAnchor("the form given to FilterOpts::matcher")
    m = Own(ctx, f, g)
    m.name = "matcher"
    m.seen = False
    a = ai.AI(prog, g, m, init={nf[0]: CFG})
    a.run()
    if not m.seen:
        raise mir.MissingAnchor("the expression parsed by FilterOpts::matcher")
    ctx.unit(f.path)


def run(ctx):
    prog = ctx.prog
    forms(ctx)
    builder(ctx)
    own(ctx)
    items = []
    for f in cmds.executes(prog):
        adt = prog.adts.get(f.j["impl_self"])
        if adt is None or not adt["variants"]:
            continue
        names = [n for n, _, _ in adt["variants"][0]["fields"]]
        n = cmds.cmdname(f)
        if n in ("select", "frequency"):
            if "nf" not in names:
                raise mir.MissingAnchor("option nf of " + n)
            items += [(f.key, True, Mon), (f.key, False, Mon)]
        elif n == "print":
            if "nf" not in names:
                raise mir.MissingAnchor("option nf of " + n)
            items.append((f.key, None, Print))
        elif any("config::Config" in f.body["locals"][i]["ty"] if isinstance(f.body["locals"][i], dict) else "config::Config" in str(f.body["locals"][i])
                 for i in range(1, 3) if i < len(f.body["locals"])):
            items.append((f.key, None, Mon))
    ctx.parallel(items, one)
    ctx.floor("functions", 5)
    ctx.floor("rule_sets", 5)
    ctx.floor("builders", 4)
    ctx.floor("parser_calls", 17)
    ctx.floor("functions_made", 4)
    ctx.floor("rows_written", 4)
    ctx.floor("values_visited", 1)
