import re
import ai, cmds, mir, quant

META = {
    "id": "P34",
    "title": "--keep and --discard select exactly the listed fields",
    "statement": "With --keep, an output record holds exactly those of its fields whose tag and occurrence satisfy one of "
                 "the listed predicates; with --discard, exactly those that satisfy none; an absent or empty list changes "
                 "nothing. Every comma-separated item becomes one predicate: the tag before its last slash, the occurrence "
                 "from that slash on, or the tag alone.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, every list of predicates",
    "why": "The lists and records are unbounded and the options interact; tests use a handful of predicates.",
    "files": ["src/record.rs", "src/primitives/record.rs", "crates/pica-cli/src/utils.rs", "crates/pica-cli/src/commands"],
    "mechanism": [["ByteRecord::keep / discard", "src/record.rs"], ["parse_predicates", "crates/pica-cli/src/utils.rs"],
                  ["filter, describe, explode", "crates/pica-cli/src/commands"]],
    "technique": "truth-table analysis with set-of-outcomes loop summaries; typestate and value flow (MIR)",
    "rule": "every retain closure over predicate lists returns `some predicate matches` (keep) or its complement (discard) "
            "on all paths; on every path to a use of a record's fields in a command with these options both lists were "
            "applied to it, each with the polarity of its option, unless the list is empty; in the parser each item yields "
            "exactly one predicate built from the stated parts.",
}
PRED = re.compile(r"\(pica_record::matcher::tag::TagMatcher, pica_record::matcher::occurrence::OccurrenceMatcher\)")
FIELD = re.compile(r"pica_record::primitives::field::FieldRef")


class Spec(quant.Spec):
    def __init__(self, keep):
        self.keep = keep

    def level(self, a, st, v):
        ls = ai.labels(v, st)
        return "item" if "list" in ls and "val" not in ls else None

    def atom(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n == "is_match" and len(c.args) > 1:
            x, y = ai.labels(a.val(st, c.args[0]), st), a.val(st, c.args[1])
            what = "tag" if "TagMatcher" in c.path else "occurrence" if "OccurrenceMatcher" in c.path else None
            if what is None or "val" not in x:
                return None
            t = y[1] if y[0] == "o" else None
            ok = isinstance(t, tuple) and (t[0] == "call" and t[2].endswith("::" + what) or t[0] == "f" and t[2] == what) \
                and "field" in y[2]
            if not ok:
                a.mon.bad(a, "subject", "the %s predicate is not applied to the %s of the field" % (what, what))
            return ("item", what)
        if n == "is_empty" and "list" in ai.labels(a.val(st, c.args[0]), st):
            return ("global", "empty")
        return None

    def item(self, d):
        return quant.and3(d.get("tag"), d.get("occurrence"))

    def expect(self, g, seen, ex):
        if g.get("empty"):
            return True
        x = quant.any_(seen, ex)
        return x if self.keep else quant.not3(x)


def closures(prog):
    """closures deciding about a field by a list of predicates"""
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.kind == "Closure" and f.body and f.crate in ("pica", "pica_record") and f.body["locals"][0][0] == "bool" \
                and f.body["argc"] == 2 and FIELD.search(f.body["locals"][2][0]):
            yield f


def captures(f):
    out = {}
    for body in [f.body] + list(f.promoted):
        for j in mir.walk(body):
            if isinstance(j, list) and len(j) == 5 and j[0] == "f" and isinstance(j[4], str) and PRED.search(j[4]):
                out[j[2]] = j[4]
    return out


def classify(ctx, f, caps):
    """keep / discard / None, by which truth table the closure satisfies"""
    res = {}
    for keep in (True, False):
        viol = []
        g = ctx.flat(f, inline=lambda h: h.crate in ("pica",))
        heap = {("f", ("p", "1"), n): ("o", ("list", n), frozenset(["list"])) for n in caps}
        init = {1: ("o", ("p", "1"), ai.EMPTY), 2: ("o", ("p", "2"), frozenset(["field"])), "heap": heap}
        quant.run(ctx, f, g, Spec(keep), f.path, init, report=lambda k, m, t: viol.append((k, m, t)))
        if not viol:
            return ("keep" if keep else "discard"), []
        res[keep] = viol
    return None, res[False] if len(res[False]) < len(res[True]) else res[True]


class Apply:
    """mon: frozenset of options applied to the current record"""

    def __init__(self, ctx, f, kinds):
        self.ctx, self.f, self.kinds = ctx, f, kinds

    def init(self):
        return frozenset()

    def bad(self, a, k, m):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(a.cur))

    def opts(self, a, st, v):
        v = a.val(st, v)
        return {l[4:] for l in ai.labels(v, st) if l.startswith("opt:")}

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if c.path.endswith("::parse_predicates"):
            ls = ai.labels(a.val(st, c.args[0]), st)
            self.ctx.count("lists")
            return [(st.copy(), ("e", "Err", (("0", ai.mk(("call", c.site, "err"))),))),
                    (st, ("e", "Ok", (("0", ("o", ("call", c.site, c.path), ls)),)))]
        if cmds.NEXT.search(c.path) or re.search(r"::from_bytes$", c.path):
            st.mon = frozenset()
            return None
        if n == "is_empty" and c.args:
            ls = self.opts(a, st, c.args[0])
            if len(ls) == 1:
                s1 = st.copy()
                s1.mon = s1.mon | ls
                return [(s1, ("k", 1)), (st, ("k", 0))]
        if re.search(r"ByteRecord::<'_>::(keep|discard)$|ByteRecord(::<.*>)?::(keep|discard)$", c.path) and len(c.args) > 1:
            ls = self.opts(a, st, c.args[1])
            self.ctx.count("applications_visited")
            if ls != {n}:
                self.bad(a, n, "the fields given as %s are %s" % ("/".join(sorted(ls)) or "nothing",
                                                                {"keep": "kept", "discard": "discarded"}[n]))
            st.mon = st.mon | ls
            return None
        if n == "retain" and len(c.args) > 1 and "Record" in c.path:
            cl = c.args[1]
            cl = a.val(st, cl)
            key = cl[2][8:] if cl[0] == "s" and cl[2].startswith("closure:") else None
            kind = self.kinds.get(key)
            if kind is None:
                return None
            ls = set().union(set(), *[self.opts(a, st, x) for _, x in cl[1]])
            self.ctx.count("applications_visited")
            if ls != {kind}:
                self.bad(a, "retain:" + kind, "fields are %s by the list given as %s"
                         % ({"keep": "kept", "discard": "discarded"}[kind], "/".join(sorted(ls)) or "nothing"))
            st.mon = st.mon | ls
            return None
        if n == "write_byte_record" or n == "fields" and "ByteRecord" in c.path + c.self_ty and self.reads:
            self.ctx.count("uses_visited")
            miss = {"keep", "discard"} - st.mon
            if miss:
                self.bad(a, "unapplied", "a record's fields are used without --%s having been applied"
                         % " and --".join(sorted(miss)))
        return None


def run(ctx):
    prog = ctx.prog
    kinds = {}
    for f in closures(prog):
        caps = captures(f)
        if not caps:
            continue
        kind, viol = classify(ctx, f, caps)
        ctx.count("closures")
        ctx.unit("%s (%s)" % (f.path, kind))
        if kind is None:
            for k, m, t in viol:
                ctx.violation("closure:" + k, m, t)
        kinds[f.key] = kind
    library(ctx, kinds)
    for f in cmds.executes(prog):
        names = [x[0] for x in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]]
        if "keep" in names and "discard" in names:
            command(ctx, f, kinds)
    ctx.floor("lists", 6)
    ctx.floor("applications_visited", 6)
    ctx.floor("uses_visited", 4)
    predicates(ctx)


def library(ctx, kinds):
    """the library operations apply the closure of their own name to their own list"""
    for n in ("keep", "discard"):
        f = ctx.prog.fn("pica_record::record::ByteRecord::<'_>::" + n) if "pica_record::record::ByteRecord::<'_>::" + n in \
            [g.path for g in ctx.prog.fns.values()] else \
            next((g for g in ctx.prog.fns.values() if g.name == n and g.crate == "pica_record" and
                  "ByteRecord" in g.j.get("impl_self", "")), None)
        if f is None:
            raise mir.MissingAnchor("ByteRecord::" + n)

        class Lib:
            def init(self):
                return None     # None / "empty" / "done"

            def call(self, a, st, c):
                m = c.path.rsplit("::", 1)[-1]
                if m == "is_empty" and "list" in ai.labels(a.val(st, c.args[0]), st):
                    s1 = st.copy()
                    s1.mon = "empty"
                    return [(s1, ("k", 1)), (st, ("k", 0))]
                if m == "retain":
                    cl = a.val(st, c.args[1])
                    key = cl[2][8:] if cl[0] == "s" else None
                    if kinds.get(key) != n:
                        ctx.violation("%s:polarity" % f.path, "%s keeps the wrong fields" % f.path, a.trace(a.cur))
                    if st.mon == "done":
                        ctx.violation("%s:twice" % f.path, "%s removes fields twice" % f.path, a.trace(a.cur))
                    st.mon = "done" if st.mon != "empty" else "wrong"
                return None

            def exit(self, a, st, v, node):
                ctx.count("library_exits")
                if st.mon not in ("empty", "done"):
                    ctx.violation("%s:missing" % f.path, "%s: %s" % (
                        f.path, "an empty list removes fields" if st.mon == "wrong" else "the list is not applied"),
                        a.trace(node))
        g = ctx.flat(f, inline=lambda h: False, callbacks=False)
        a = ai.AI(ctx.prog, g, Lib(), init={1: ("o", ("p", "1"), ai.EMPTY), 2: ("o", ("list",), frozenset(["list"]))})
        a.run()
        ctx.unit(f.path)
    ctx.floor("library_exits", 4)
    # retain reaches the fields
    for f in ctx.prog.fns.values():
        if f.name == "retain" and f.crate == "pica_record" and "Record" in f.j.get("impl_self", "") and f.body:
            class R:
                def init(self):
                    return 0

                def call(self, a, st, c):
                    if c.path.rsplit("::", 1)[-1] == "retain" and len(c.args) > 1 and \
                            a.val(st, c.args[1])[1] == ("p", "2"):
                        st.mon = st.mon + 1
                    return None

                def exit(self, a, st, v, node):
                    ctx.count("retain_exits")
                    if st.mon != 1:
                        ctx.violation("%s:retain" % f.path, "%s does not apply the predicate exactly once to the fields"
                                      % f.path, a.trace(node))
            g = ctx.flat(f, inline=lambda h: False, callbacks=False)
            ai.AI(ctx.prog, g, R(), init={1: ("o", ("p", "1"), ai.EMPTY), 2: ("o", ("p", "2"), ai.EMPTY)}).run()
            ctx.unit(f.path)
    ctx.floor("retain_exits", 2)


def command(ctx, f, kinds):
    pre = ("p", "self")
    heap = {("f", pre, n): ("o", ("f", pre, n), frozenset(["opt:" + n])) for n in ("keep", "discard")}
    rel = cmds.relevant(ctx.prog, ("pica",), re.compile(r"ByteRecord.*::(keep|discard|retain)$|::write_byte_record$|" +
                                                        cmds.NEXT.pattern), ("keep", "discard"), PRED)
    skip = [g.key for h in ctx.prog.fns.values() if h.path.endswith("utils::parse_predicates") for g in ctx.prog.nested(h)]
    g = ctx.flat(f, inline=lambda h: h.key in rel and h.key not in skip and h.crate == "pica", callbacks=False)
    m = Apply(ctx, f, kinds)
    m.reads = cmds.cmdname(f) == "describe"
    a = ai.AI(ctx.prog, g, m, init={"heap": heap}, keep=lambda t: False)
    a.run()
    ctx.count("states", a.nstates)
    ctx.unit(f.path)


class Parse:
    """mon: None / ("item", slash found?, pushed)"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return None

    def bad(self, a, k, m, node=None):
        self.ctx.violation("parse_predicates:" + k, "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def over(self, a, st, node=None):
        if st.mon is not None and not st.mon[2]:
            self.bad(a, "skipped", "an item yields no predicate", node)
        st.mon = None

    def islist(self, a, st, v):
        ls = ai.labels(v, st)
        return "parts" in ls and "part" not in ls

    def exhausted(self, a, st, t):
        v = a.operand(st, t["src"])
        if self.islist(a, st, v):
            self.over(a, st)
            self.cut(a, st, v)

    def cut(self, a, st, v):
        if "cut" in ai.labels(v, st):
            self.bad(a, "cut", "not all items are used")

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        tag = ("cb", v["call"].get("bid"), v["ai"])
        a.kill(st, tag)
        if self.islist(a, st, src):
            self.over(a, st)
            st.mon = ("item", None, 0)
            return ("o", tag, ai.labels(src, st) | {"part"})
        return ai.mk(tag, ai.labels(src, st))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if c.path == quant.NEXTI and self.islist(a, st, a.val(st, c.args[0])):
            v = a.val(st, c.args[0])
            s0, s1 = st.copy(), st.copy()
            self.over(a, s0)
            self.cut(a, s0, v)
            self.over(a, s1)
            s1.mon = ("item", None, 0)
            tag = ("call", c.site, c.path)
            a.kill(s1, tag)
            return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", ("o", tag, ai.labels(v, s1) | {"part"})),)))]
        if n == "split" and "str" in c.path:
            if c.args[1] != ("k", 44) and a.val(st, c.args[1]) != ("k", 44) and a.val(st, c.args[1]) != ("k", ","):
                self.bad(a, "separator", "items are not separated by commas")
            return [(st, ("o", ("call", c.site, c.path), frozenset(["parts"])))]
        if n == "is_empty" and "part" in ai.labels(a.val(st, c.args[0]), st):
            s1 = st.copy()
            s1.mon = None           # nothing to parse
            return [(s1, ("k", 1)), (st, ("k", 0))]
        if n in ("rfind", "find", "rsplit_once", "split_once") and "part" in ai.labels(a.val(st, c.args[0]), st):
            if n in ("find", "split_once"):
                self.bad(a, "slash", "the item is split at its first slash")
            if a.val(st, c.args[1]) not in (("k", 47), ("k", "/")):
                self.bad(a, "slash", "the item is not split at a slash")
            s1, s0 = st.copy(), st.copy()
            if s1.mon:
                s1.mon = ("item", True, s1.mon[2])
                s0.mon = ("item", False, s0.mon[2])
            if n == "rfind":
                p = ("o", ("slash",), ai.EMPTY)
            else:
                p = ("s", (("0", ("o", ("head",), frozenset(["part", "head"]))),
                           ("1", ("o", ("tail",), frozenset(["part", "tail0"])))), "tuple")
            return [(s1, ("e", "Some", (("0", p),))), (s0, ("e", "None", ()))]
        if n in ("index", "split_at") and "part" in ai.labels(a.val(st, c.args[0]), st):
            r = a.val(st, c.args[1])
            h, t = ("o", ("head",), frozenset(["part", "head"])), ("o", ("tail",), frozenset(["part", "tail"]))
            if n == "split_at" and r == ("o", ("slash",), ai.EMPTY):
                return [(st, ("s", (("0", h), ("1", t)), "tuple"))]
            d = {k: a.val(st, x) for k, x in r[1]} if r[0] == "s" else {}
            s = ("o", ("slash",), ai.EMPTY)
            if d == {"start": ("k", 0), "end": s} or d == {"end": s}:
                return [(st, h)]
            if d == {"start": s}:
                return [(st, t)]
            return [(st, ("o", ("call", c.site, c.path), frozenset(["part", "other"])))]
        m = re.search(r"(Tag|Occurrence)Matcher::new$", c.path)
        if m:
            ls = ai.labels(a.val(st, c.args[0]), st)
            what = "T" if m.group(1) == "Tag" else "O"
            part = "head" if "head" in ls else "tail" if "tail" in ls else "whole" if "part" in ls and not ls & {
                "other", "tail0"} else "other"
            return [(st.copy(), ("e", "Err", (("0", ai.mk(("call", c.site, "err"))),))),
                    (st, ("e", "Ok", (("0", ("o", ("call", c.site, c.path), frozenset([what + part]))),)))]
        if n in ("push", "extend") and len(c.args) > 1 and st.mon is not None and n == "push":
            v = a.val(st, c.args[1])
            x = [a.val(st, y) for _, y in v[1]] if v[0] == "s" and len(v[1]) == 2 else [None, None]
            if x[0] is None:
                self.bad(a, "pair", "what is stored is not built in sight")
            else:
                t = ai.labels(x[0], st)
                o = ai.labels(x[1], st) if x[1][0] != "e" else {x[1][1]}
                sl = st.mon[1]
                self.ctx.count("pushes_visited")
                if sl is True and not (t == {"Thead"} and o == {"Otail"}) or \
                        sl is not True and not (t == {"Twhole"} and o == {"None"}) or sl is None:
                    self.bad(a, "parts", "an item %s a slash yields the predicate (%s, %s)"
                             % ("with" if sl else "without", "/".join(t), "/".join(o)))
            if st.mon[2]:
                self.bad(a, "twice", "an item yields two predicates")
            st.mon = st.mon[:2] + (1,)
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.over(a, st, node)
        self.ctx.count("parse_exits")


def predicates(ctx):
    f = ctx.prog.fn("pica::utils::parse_predicates")
    g = ctx.flat(f, inline=lambda h: h.crate == "pica")
    a = ai.AI(ctx.prog, g, Parse(ctx, f), init={1: ("o", ("p", "1"), frozenset(["arg"]))})
    a.run()
    ctx.floor("pushes_visited", 2)
    ctx.floor("parse_exits", 2)
    ctx.unit(f.path)
