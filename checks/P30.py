import re
import ai, mir, quant
from quant import any_, not3

META = {
    "id": "P30",
    "title": "Allow and deny lists admit exactly the records they describe",
    "statement": "A record is admitted exactly if none of its values at the compared path is on the deny list and, where an "
                 "allow list was given, at least one of them is on the allow list; an empty allow list admits nothing. Each "
                 "list is made up of all files given for it and of nothing else.",
    "over": ["inputs", "configurations"],
    "for_all": "every record and every combination of allow and deny lists",
    "why": "The decision quantifies over all values of a record and the presence of two lists; tests try a few lists.",
    "files": ["crates/pica-cli/src/utils.rs"],
    "mechanism": [["FilterSet::check", "crates/pica-cli/src/utils.rs"],
                  ["FilterSetBuilder, TryFrom<&FilterOpts>, read_filter_list", "crates/pica-cli/src/utils.rs"]],
    "technique": "truth-table analysis with set-of-outcomes loop summaries; value-flow analysis (MIR)",
    "rule": "check(): for the four combinations of lists given or not, every path's result must equal "
            "not(any value on deny) and (no allow list or any value on allow). Construction: the set stored as allow (deny) "
            "list derives from the paths given as allow (deny) list and from no other; no list is stored exactly if no path "
            "was given; every value read from a list file is added to the set.",
    "assumptions": ["the CSV/IPC readers of the dependency return the column's values"],
}
SELF = ("p", "1")


class Spec(quant.Spec):
    def __init__(self, allow, deny):
        self.allow, self.deny = allow, deny

    def level(self, a, st, v):
        ls = ai.labels(v, st)
        if "val" in ls or "inner" in ls:
            return None
        if "values" in ls:
            return "loop"
        return None

    def atom(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if not c.args:
            return None
        x = a.val(st, c.args[0])
        lx = ai.labels(x, st)
        if n == "contains" and len(c.args) > 1 and lx & {"allow", "deny"}:
            y = a.val(st, c.args[1])
            if "values" not in ai.labels(y, st):
                return ("global", "membership of something else")
            return ("member", "allow" if "allow" in lx else "deny")
        if n == "is_empty":
            for l in ("allow", "deny", "values"):
                if l in lx:
                    return ("global", "empty " + l)
        return None


class Mon:
    """mon: (known truths, current loop) or None for a path that cannot happen
    truths: frozenset of (fact, bool), facts: "allow"/"deny" (a value of the record is on that list),
            "any" (the record has a value), "empty <list>"
    loop:   (identity, frozenset of lists whose current item was looked up, frozenset of lists with an item not
            looked up, saw an item)"""

    def __init__(self, ctx, f, allow, deny):
        self.ctx, self.f, self.allow, self.deny = ctx, f, allow, deny
        self.spec = Spec(allow, deny)

    def init(self):
        return (frozenset(), None)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("check[%s]:%s" % (self.name(), k), "FilterSet::check (%s): %s" % (self.name(), m),
                           a.trace(node or a.cur))

    def name(self):
        return "%s allow list, %s deny list" % ("with" if self.allow else "no", "with" if self.deny else "no")

    def learn(self, st, k, b):
        """False if the fact contradicts what is known"""
        if st.mon is None:
            return False
        d = dict(st.mon[0])
        todo = [(k, b)]
        while todo:
            k, b = todo.pop()
            if k in d:
                if d[k] != b:
                    st.mon = None
                    return False
                continue
            d[k] = b
            if k in ("allow", "deny") and b:
                todo += [("any", True), ("empty " + k, False)]
            if k.startswith("empty ") and b:
                todo.append((k[6:], False))
            if k == "any" and not b:
                todo += [("allow", False), ("deny", False)]
        st.mon = (frozenset(d.items()), st.mon[1])
        return True

    def settle(self, st):
        lp = st.mon[1]
        if lp and lp[3]:
            st.mon = (st.mon[0], (lp[0], frozenset(), lp[2] | (frozenset(("allow", "deny")) - lp[1]), True))

    def item(self, st, who):
        if st.mon is None:
            return False
        if st.mon[1] is None or st.mon[1][0] != who:
            st.mon = (st.mon[0], (who, frozenset(), frozenset(), False))
        self.settle(st)
        if not self.learn(st, "any", True):
            return False
        lp = st.mon[1]
        st.mon = (st.mon[0], (who, frozenset(), lp[2], True))
        return True

    def over(self, st, who, cut):
        if st.mon is None:
            return False
        if cut:
            st.mon = (st.mon[0], None)
            return True
        if st.mon[1] is None or st.mon[1][0] != who or not st.mon[1][3]:
            return self.learn(st, "any", False)
        self.settle(st)
        lp = st.mon[1]
        st.mon = (st.mon[0], None)
        for l in ("allow", "deny"):
            if l not in lp[2] and not self.learn(st, l, False):
                return False
        return True

    def exhausted(self, a, st, t):
        if self.spec.level(a, st, a.val(st, a.operand(st, t["src"]))):
            self.over(st, str(t["src"]), "cut" in ai.labels(a.operand(st, t["src"]), st))

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        tag = ("cb", v["call"].get("bid"), v["ai"])
        ls = ai.labels(src, st)
        a.kill(st, tag)
        if self.spec.level(a, st, a.val(st, src)):
            self.item(st, str(v["from"][0]))
            return ("o", tag, ls | {"val"})
        return ai.mk(tag, ls)

    def call(self, a, st, c):
        if st.mon is None:
            return []
        if c.path == quant.NEXTI and self.spec.level(a, st, a.val(st, c.args[0])):
            s0, s1 = st.copy(), st.copy()
            out = []
            if self.over(s0, c.site, "cut" in ai.labels(a.val(st, c.args[0]), st)):
                out.append((s0, ("e", "None", ())))
            tag = ("call", c.site, c.path)
            a.kill(s1, tag)
            if self.item(s1, c.site):
                out.append((s1, ("e", "Some", (("0", ("o", tag, ai.labels(a.val(st, c.args[0]), st) | {"val"})),))))
            return out
        at = self.spec.atom(a, st, c)
        if at is None:
            return None
        self.ctx.count("atoms_visited")
        out = []
        for b in (True, False):
            s = st.copy()
            if at[0] == "global":
                k = "any" if at[1] == "empty values" else at[1]
                ok = self.learn(s, k, b != (k == "any"))
            elif b:
                ok = self.learn(s, at[1], True)
            else:
                lp = s.mon[1]
                if lp:
                    s.mon = (s.mon[0], lp[:1] + (lp[1] | {at[1]},) + lp[2:])
                ok = True
            if ok:
                out.append((s, ("k", int(b))))
        return out

    def exit(self, a, st, v, node):
        for s, b in a.branch_bool(st, v):
            if s.mon is None:
                continue
            d = dict(s.mon[0])
            self.ctx.count("exits_compared")
            deny = d.get("deny") if self.deny else False
            allow = d.get("allow") if self.allow else True
            want = quant.and3(not3(deny), allow)
            if want is None:
                self.bad(a, "undecided", "returns %s although membership of the values on the %s list was not established"
                         % (b, "deny" if deny is None else "allow"), node)
            elif want != b:
                self.bad(a, "wrong", "returns %s, must be %s (on the deny list: %s, on the allow list: %s)"
                         % (b, want, deny, allow), node)


class Flow:
    """labels of the paths reach the right list"""

    def init(self):
        return ()

    def call(self, a, st, c):
        if c.path.endswith("::read_filter_list"):
            v = a.val(st, c.args[0])
            ls = frozenset(l for l in ai.labels(v, st))
            return [(st, ("e", "Ok", (("0", ("o", ("list", c.site), ls)),)))]
        return None


def lab(tag, l):
    return ("o", tag, frozenset([l]))


def run(ctx):
    U = "pica::utils::"
    f = ctx.prog.fn(U + "FilterSet::check")
    names = [x[0] for x in ctx.prog.adt(U + "FilterSet")["variants"][0]["fields"]]
    if not {"allow", "deny"} <= set(names):
        raise mir.MissingAnchor("FilterSet has fields %s" % names)

    class M(Mon):
        def call(self, a, st, c):
            if c.path.endswith("::path") and "PathExt" in c.path + c.rpath or c.path.endswith("PathExt::path"):
                p = a.val(st, c.args[1]) if len(c.args) > 1 else None
                if not (p and p[0] == "o" and p[1] == ("f", SELF, "path")):
                    self.bad(a, "path", "the values compared are not those at the given path")
                if a.val(st, c.args[0])[1] != ("p", "2"):
                    self.bad(a, "record", "the values compared are not those of the record")
                return [(st, ("o", ("values",), frozenset(["values"])))]
            if any("values" in ai.labels(x, st) for x in c.args) and re.search(r"::collect$", c.path):
                return [(st, ("o", ("values",), frozenset(["values"])))]
            return Mon.call(self, a, st, c)

    for al in (0, 1):
        for de in (0, 1):
            heap = {("f", SELF, "allow"): ("e", "Some", (("0", lab(("allow",), "allow")),)) if al else ("e", "None", ()),
                    ("f", SELF, "deny"): ("e", "Some", (("0", lab(("deny",), "deny")),)) if de else ("e", "None", ())}
            m = M(ctx, f, al, de)
            g = ctx.flat(f, inline=lambda h: h.crate == "pica")
            a = ai.AI(ctx.prog, g, m, init={1: ("o", SELF, ai.EMPTY), 2: ("o", ("p", "2"), ai.EMPTY), "heap": heap})
            a.run()
            ctx.count("states", a.nstates)
            ctx.count("tables")
            ctx.unit("%s [%s]" % (f.path, m.name()))
    ctx.floor("exits_compared", 6)
    build(ctx)
    reading(ctx)


def build(ctx):
    """which paths end up in which list"""
    U = "pica::utils::"
    roots = [(f, ("f", ("p", "opts"), "%s")) for f in
             [ctx.prog.fns[k] for k in [g.key for g in ctx.prog.fns.values() if g.name == "try_from" and
                                        "FilterSet" in g.j.get("impl_self", "") and g.crate == "pica"]]]
    if len(roots) != 1:
        raise mir.MissingAnchor("conversion of the filter options to a filter set")
    f = roots[0][0]
    g = ctx.flat(f, inline=lambda h: h.crate == "pica" and not h.path.endswith("read_filter_list"))
    P = ("p", "1")
    heap = {("f", P, n): lab(("f", P, n), n) for n in ("allow", "deny", "filter_set_source", "filter_set_column")}
    a = ai.AI(ctx.prog, g, Flow(), init={1: ("o", P, ai.EMPTY), "heap": heap})
    a.run()
    checklists(ctx, a, f)
    # the builder used directly
    bf = ctx.prog.fn(U + "FilterSetBuilder::build")
    g = ctx.flat(bf, inline=lambda h: h.crate == "pica" and not h.path.endswith("read_filter_list"))
    v = ("s", tuple((n, lab(("b", n), n)) for n in ("allow", "deny", "column", "path")), U + "FilterSetBuilder")
    a = ai.AI(ctx.prog, g, Flow(), init={1: v})
    a.run()
    checklists(ctx, a, bf)
    for n in ("allow", "deny"):
        sf = ctx.prog.fn(U + "FilterSetBuilder::" + n)
        g = ctx.flat(sf, inline=lambda h: h.crate == "pica")
        v = ("s", tuple((x, lab(("b", x), "old:" + x)) for x in ("allow", "deny", "column", "path")), U + "FilterSetBuilder")
        a = ai.AI(ctx.prog, g, None, init={1: v, 2: lab(("arg",), "arg")})
        a.run()
        for st, r, node in a.exits:
            d = dict(r[1]) if r[0] == "s" else {}
            for x in ("allow", "deny"):
                ls = ai.labels(d.get(x), st)
                want = "arg" if x == n else "old:" + x
                ctx.count("flows")
                if want not in ls or len({l for l in ls if l == "arg" or l.startswith("old:")}) != 1 and x != n:
                    ctx.violation("builder:%s:%s" % (n, x), "FilterSetBuilder::%s stores %s as the %s list"
                                  % (n, "/".join(sorted(ls)) or "nothing given", x), a.trace(node))
    ctx.floor("flows", 8)


def checklists(ctx, a, f):
    seen = 0
    for st, r, node in a.exits:
        if r[0] != "e" or r[1] != "Ok":
            continue
        v = dict(r[2]).get("0")
        if v is None or v[0] != "s":
            ctx.violation("build:%s" % f.path, "%s does not return a filter set built in sight" % f.path, a.trace(node))
            continue
        d = dict(v[1])
        for x in ("allow", "deny"):
            ls = {l for l in ai.labels(d.get(x), st) if l in ("allow", "deny", "filter_set_source", "filter_set_column")}
            seen += 1
            ctx.count("flows")
            if ls != {x}:
                ctx.violation("build:%s:%s" % (f.path, x), "%s: the %s list is read from the paths given as %s"
                              % (f.path, x, "/".join(sorted(ls)) or "nothing"), a.trace(node))
    if not seen:
        ctx.violation("build:%s:none" % f.path, "%s never succeeds" % f.path, [])
    ctx.unit(f.path)


class Reading:
    """read_filter_list: each file's values are added before the next file / the end"""

    def __init__(self, ctx):
        self.ctx = ctx

    # mon: (a file is pending, any file seen, paths empty?)
    def init(self):
        return (False, None)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("read_filter_list:" + k, "read_filter_list: " + m, a.trace(node or a.cur))

    def nxt(self, a, st, some):
        pend, em = st.mon
        if pend:
            self.bad(a, "skipped", "goes on without adding the values of a list file")
        st.mon = (bool(some), em)

    def exhausted(self, a, st, t):
        if "paths" in ai.labels(a.operand(st, t["src"]), st):
            self.nxt(a, st, False)

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        ls = ai.labels(src, st)
        tag = ("cb", v["call"].get("bid"), v["ai"])
        a.kill(st, tag)
        if "paths" in ls and "file" not in ls:
            self.nxt(a, st, True)
            return ("o", tag, ls | {"file"})
        return ai.mk(tag, ls)

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if c.path == quant.NEXTI:
            ls = ai.labels(a.val(st, c.args[0]), st)
            if "paths" in ls and "file" not in ls:
                s0, s1 = st.copy(), st.copy()
                self.nxt(a, s0, False)
                self.nxt(a, s1, True)
                tag = ("call", c.site, c.path)
                a.kill(s1, tag)
                return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", ("o", tag, ls | {"file"})),)))]
        if n == "is_empty" and "paths" in ai.labels(a.val(st, c.args[0]), st):
            out = []
            for b in (True, False):
                s = st.copy()
                s.mon = (st.mon[0], b)
                out.append((s, ("k", int(b))))
            return out
        if n in ("extend", "insert") and "HashSet" in c.path + c.self_ty + c.rpath and len(c.args) > 1:
            ls = ai.labels(a.val(st, c.args[1]), st)
            if "cut" in ls:
                self.bad(a, "partial", "adds only part of the values of a list file")
            if "file" in ls:
                self.ctx.count("adds_visited")
                st.mon = (False, st.mon[1])
                if n == "insert":
                    pass
        return None

    def exit(self, a, st, v, node):
        pend, em = st.mon
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("exits_compared")
        if pend:
            self.bad(a, "skipped", "returns without adding the values of a list file", node)
        x = a.val(st, dict(v[2]).get("0")) if v[0] == "e" and v[2] else None
        if x and "cut" in ai.labels(x, st):
            self.bad(a, "partial", "values are taken out of the list again", node)
        if x is None or x[0] != "e":
            self.bad(a, "result", "cannot tell whether a list is returned", node)
        elif (x[1] == "None") != (em is True):
            self.bad(a, "presence", "returns %s list although %s"
                     % ("no" if x[1] == "None" else "a", "no file was given" if em else "files were given"), node)


def reading(ctx):
    f = ctx.prog.fn("pica::utils::read_filter_list")
    g = ctx.flat(f, inline=lambda h: h.crate == "pica")
    m = Reading(ctx)
    a = ai.AI(ctx.prog, g, m, init={1: lab(("paths",), "paths"), 2: ("o", ("col",), ai.EMPTY)})
    a.run()
    ctx.floor("adds_visited", 1)
    ctx.unit(f.path)
