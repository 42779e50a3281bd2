import re, struct
import ai, cmds, mir, preds

META = {
    "id": "P13",
    "title": "Case folding and similarity threshold apply to every comparison, as given",
    "statement": "With case folding requested, every comparison a filter expression makes (equality, prefix, suffix, "
                 "similarity, substring, regular expression, set membership) folds both sides; without it, neither. The "
                 "case option and the similarity threshold given on the command line or in a check rule reach every "
                 "evaluation of that command's filter, query, path or format expressions unchanged.",
    "over": ["inputs", "configurations"],
    "for_all": "every comparison operator, quantifier, value and option combination, every command and check rule",
    "why": "The option has to survive conversion through several option types on each of some eighty evaluation sites and be "
           "honoured in each comparison; tests cover a handful of (site, operator) pairs.",
    "files": ["src/matcher", "src/query.rs", "src/fmt/mod.rs", "src/path.rs", "crates/pica-cli/src/cli.rs",
              "crates/pica-cli/src/commands"],
    "mechanism": [["options conversions", "MatcherOptions, QueryOptions, FormatOptions and their From impls"],
                  ["comparisons", "src/matcher/subfield/mod.rs"]],
    "technique": "interprocedural value-flow analysis on MIR; abstract interpretation of the predicates",
    "rule": "at every call that receives an options value (in library, commands and check rules) the value is the caller's own "
            "options or one whose case flag and threshold (divided by 100 where given in percent) flow from the command's or "
            "rule's fields; defaults only where nothing was given. In the predicates, the operands of each comparison are both "
            "lower-cased (regex: compiled case-insensitive) iff the option is on, on every path and configuration.",
    "assumptions": ["the scope expression of a rule set and allow/deny-list paths have no options of their own and use the defaults"],
}
OPT = re.compile(r"\b(pica_record::(?:\w+::)*(?:Matcher|Query|Format)Options)\b")
HUNDRED, CENT = (struct.unpack("<Q", struct.pack("<d", x))[0] for x in (100.0, 0.01))
CASE = ("case_ignore", "ignore_case")


def opt_impl(f):
    """constructor / setter / conversion of an options type"""
    return bool(OPT.search(f.j.get("impl_self", "")) and not f.j["impl_self"].startswith("&")) or \
        bool(OPT.search(f.j.get("ret", "")))


class Mon:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return ()

    def roots(self, mon):
        return ()

    def call(self, a, st, c):
        key = c.fd.get("res") or c.fd.get("fn")
        h = self.ctx.prog.fns.get(key)
        if h is not None and opt_impl(h) or c.path.startswith(("core::clone", "core::convert", "core::fmt", "core::ops::deref",
                                                               "core::borrow", "core::mem::drop")):
            return None
        for i, o in enumerate(c.t["args"]):
            if o[0] not in "cm":
                continue
            ty = self.tyof(a, o[1])
            if not ty or not OPT.search(ty) or "closure" in ty:
                continue
            self.ctx.count("uses_visited")
            self.check(a, st, c, a.val(st, c.args[i]))
        return None

    def tyof(self, a, p):
        ty = a.g.locals[p[0]][0]
        for e in p[1]:
            if e == "*":
                continue
            ty = e[4] if e[0] == "f" and len(e) > 4 else "?"
        return ty if re.match(r"^(&(mut )?)*pica_record::", ty) and OPT.fullmatch(re.sub(r"^(&(mut )?)*", "", ty)) else None

    def check(self, a, st, c, v):
        what = c.path.rsplit("::", 2)[-2:]
        what = "::".join(x.strip("<>") for x in what)
        self.sites.add((c.span, what))

        def bad(k, m):
            self.ctx.violation("%s:%s:%s" % (self.f.path, what, k), "%s: %s is evaluated with %s" % (self.f.path, what, m), [c.span])
        if v[0] == "o" and self.root(v[1]):
            return      # the caller's options, handed on
        if v[0] != "s":
            return bad("origin", "options whose origin is not known")
        d = dict(v[1])
        x = d.get("case_ignore")
        if all(y and y[0] == "k" for n, y in v[1] if n in ("case_ignore", "strsim_threshold")) and not self.given:
            return      # nothing was given: the defaults
        if x is None or x[0] != "o" or not (cmds.tag_ends(x[1], CASE[0]) or cmds.tag_ends(x[1], CASE[1])) or not self.root(x[1]):
            bad("case", "a case-ignore flag that is not the one given (%s)" % (self.show(x),))
        x = d.get("strsim_threshold")
        if x is None or not self.threshold(x):
            bad("threshold", "a similarity threshold that is not the one given (%s)" % (self.show(x),))

    def threshold(self, x):
        if x[0] != "o":
            return False
        t = x[1]
        # a percentage on the command line, a fraction elsewhere
        if t[0] == "op" and t[1] == "Div" and cmds.tag_ends(t[2], "strsim_threshold") and self.root(t[2]):
            return t[3] == ("k", HUNDRED)
        if t[0] == "op" and t[1] == "Mul" and cmds.tag_ends(t[2], "strsim_threshold") and self.root(t[2]):
            return t[3] == ("k", CENT)
        return cmds.tag_ends(t, "strsim_threshold") and self.root(t) and not self.percent(t)

    def percent(self, t):
        return "filter_opts" in str(t)

    @staticmethod
    def root(t):
        while isinstance(t, tuple) and t and t[0] in ("f", "v", "i", "d"):
            t = t[1]
        return isinstance(t, tuple) and t and t[0] in ("p",)

    @staticmethod
    def show(x):
        return "missing" if x is None else repr(x[1])[:120]


def run(ctx):
    roots = []
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.key):
        if f.crate not in ("pica", "pica_record") or not f.is_fn or f.derived or not f.body or opt_impl(f):
            continue
        if any(cmds.mentions(h, types=OPT) for h in ctx.prog.nested(f)):
            roots.append(f.key)
    ctx.parallel(roots, one)
    ctx.parallel(range(len(preds.cases(ctx.prog))), case)
    ctx.floor("predicates", 70)
    ctx.floor("uses", 40)


def given(prog, f):
    """can the function see options given by the user?"""
    seen = set()

    def has(ty, d=0):
        if OPT.search(ty):
            return True
        # the value itself and its parts, not the members of a collection
        for p in re.findall(r"^[&]*(?:'\w+ )?(?:mut )?([a-z_]\w*(?:::\w+)+)", ty):
            adt = prog.adts.get(p)
            if adt is None or p in seen or d > 3:
                continue
            seen.add(p)
            for v in adt["variants"]:
                for x in v["fields"]:
                    if x[0] in CASE or has(x[1], d + 1):
                        return True
        return False
    return any(has(f.body["locals"][i][0]) for i in range(1, f.body["argc"] + 1))


def one(ctx, key):
    f = ctx.prog.fns[key]
    g = ctx.flat(f, inline=opt_impl)
    m = Mon(ctx, f)
    m.sites = set()
    m.given = given(ctx.prog, f)
    a = ai.AI(ctx.prog, g, m, keep=lambda t: False)
    a.run()
    for s in m.sites:
        ctx.count("uses")
        ctx.unit("%s -> %s (%s)" % (f.path, s[1], s[0].split(":")[0]))


def case(ctx, i):
    item = preds.cases(ctx.prog)[i]
    preds.analyse(ctx, item, lambda k, m, t: ctx.violation(k, m, t) if k.endswith(":case") else None)
