"""Truth-table analysis of predicate code.

The result of a boolean function is compared with a specification given over
named atoms.  Atoms are calls the specification knows (both outcomes are
followed); everything else is interpreted abstractly.  Loops over a collection
are summarised by the set of outcomes the specification assigns to the items
seen so far, so `any`/`all`, for-loops, early returns and De Morgan variants of
one another come out the same.
"""
import ai, mir

NEXTI = "core::iter::traits::iterator::Iterator::next"


class Spec:
    """what a concrete check overrides"""
    name = "?"

    def level(self, a, st, v):
        """'item' if v is the collection the quantifier ranges over,
        a string if it is an inner collection (existential), None otherwise"""
        return None

    def atom(self, a, st, c):
        """None, or ('item'|'global'|'inner', name[, inverted])"""
        return None

    def call(self, a, st, c):
        return None

    def item(self, cur):
        """truth of one item given its atoms (dict), None if undetermined"""
        return None

    def expect(self, glob, seen, exhausted):
        """result due given what was established, None if not yet determined"""
        return None

    def read(self, a, st, cur):
        """further per-item facts from the assumptions"""


class Quant:
    def __init__(self, ctx, f, spec, key, report=None):
        self.ctx, self.f, self.spec, self.key = ctx, f, spec, key
        self.report = report or (lambda k, m, t: ctx.violation(k, m, t))
        self.persist = set()

    def roots(self, mon):
        return self.persist

    # mon: (globals, current item or None, seen, exhausted)
    def init(self):
        return (frozenset(), None, frozenset(), False)

    def bad(self, a, what, msg, node=None):
        self.report("%s:%s" % (self.key, what), "%s: %s" % (self.f.path, msg), a.trace(node or a.cur))

    def finish_item(self, a, st):
        g, cur, seen, ex = st.mon
        if cur is None:
            return
        d = dict(cur)
        self.spec.read(a, st, d)
        r = self.spec.item(d)
        seen = seen | {"T" if r is True else "F" if r is False else "U"}
        seen = self.spec.seen(self, a, d, r, seen) if hasattr(self.spec, "seen") else seen
        st.mon = (g, None, seen, ex)

    def forget(self, a, st, tag):
        a.kill(st, tag)
        for t in self.persist:
            a.kill(st, t)

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        lv = self.spec.level(a, st, a.val(st, src))
        tag = ("cb", v["call"].get("bid"), v["ai"])
        ls = ai.labels(src, st)
        if lv == "item":
            self.finish_item(a, st)
            self.forget(a, st, tag)
            g, cur, seen, ex = st.mon
            st.mon = (g, frozenset(), seen, ex)
            return ("o", tag, ls | {"val"})
        a.kill(st, tag)
        if lv:
            return ("o", tag, ls | {"inner"})
        return ai.mk(tag, ls)

    def exhausted(self, a, st, t):
        src = a.operand(st, t["src"])
        self._exh(a, st, self.spec.level(a, st, a.val(st, src)), "cut" in ai.labels(src, st))

    def _exh(self, a, st, lv, cut=False):
        if lv == "item":
            self.finish_item(a, st)
            g, cur, seen, ex = st.mon
            st.mon = (g, None, seen, ex or not cut)
        elif lv and not cut:
            g, cur, seen, ex = st.mon
            if cur is not None and lv not in dict(cur):
                st.mon = (g, cur | {(lv, False)}, seen, ex)

    def counted(self, a, st, t):
        g, cur, seen, ex = st.mon
        if cur is not None:
            st.mon = (g, cur | {("#", True)}, seen, ex)

    def stmt(self, a, st, p, v, sp, blk):
        if hasattr(self.spec, "stmt"):
            self.spec.stmt(self, a, st, p, v, sp, blk)

    def call(self, a, st, c):
        sp = self.spec
        if c.path == NEXTI:
            lv = sp.level(a, st, a.val(st, c.args[0]))
            if lv:
                out = []
                s = st.copy()
                self._exh(a, s, lv, "cut" in ai.labels(a.val(st, c.args[0]), st))
                out.append((s, ("e", "None", ())))
                s = st.copy()
                tag = ("call", c.site, c.path)
                if lv == "item":
                    self.finish_item(a, s)
                    self.forget(a, s, tag)
                    g, cur, seen, ex = s.mon
                    s.mon = (g, frozenset(), seen, ex)
                else:
                    a.kill(s, tag)
                ls = ai.labels(c.args[0], s) | {"val" if lv == "item" else "inner"}
                out.append((s, ("e", "Some", (("0", ("o", tag, ls)),))))
                return out
        at = sp.atom(a, st, c)
        if at is not None:
            scope, name = at[0], at[1]
            inv = len(at) > 2 and at[2]
            self.ctx.count("atoms_visited")
            g, cur, seen, ex = st.mon
            if scope == "global":
                d = dict(g)
            else:
                if cur is None:
                    self.bad(a, "outside", "`%s` is evaluated outside the loop over the items" % name)
                    cur = frozenset()
                d = dict(cur)
            if name in d and not (scope == "inner" and d[name] is False):
                return [(st, ("k", int(d[name] != inv)))]
            out = []
            for b in (True, False):
                s = st.copy()
                if scope == "inner" and not b:
                    pass
                elif scope == "global":
                    s.mon = (g | {(name, b)}, cur, seen, ex)
                else:
                    s.mon = (g, frozenset(x for x in cur if x[0] != name) | {(name, b)}, seen, ex)
                out.append((s, ("k", int(b != inv))))
            return out
        return sp.call(a, st, c)

    def exit(self, a, st, v, node):
        a.cur = node
        for s, b in a.branch_bool(st, v):
            s = s.copy()
            self.finish_item(a, s)
            g, cur, seen, ex = s.mon
            self.ctx.count("exits_compared")
            if hasattr(self.spec, "exit"):
                self.spec.exit(self, a, s, b, node)
                continue
            want = self.spec.expect(dict(g), seen, ex)
            if want is None:
                self.bad(a, "undecided", "returns %s although what was examined (%s%s) does not determine the result"
                         % (b, self.facts(g), ", items: " + "/".join(sorted(seen)) if seen else ""), node)
            elif want != b:
                self.bad(a, "wrong", "returns %s, must be %s (%s%s)"
                         % (b, want, self.facts(g), ", items: " + "/".join(sorted(seen)) if seen else ""), node)

    @staticmethod
    def facts(g):
        return ", ".join("%s=%s" % (k, v) for k, v in sorted(g)) or "no condition"


def any_(seen, ex):
    if "T" in seen:
        return True
    return False if ex and "U" not in seen else None


def all_(seen, ex):
    if "F" in seen:
        return False
    return True if ex and "U" not in seen else None


def and3(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def or3(*xs):
    if any(x is True for x in xs):
        return True
    return None if any(x is None for x in xs) else False


def not3(x):
    return None if x is None else not x


def run(ctx, f, g, spec, key, init, keep=None, report=None, models=None):
    q = Quant(ctx, f, spec, key, report)
    a = ai.AI(ctx.prog, g, q, init=init, keep=keep)
    a.run()
    ctx.count("states", a.nstates)
    if not a.exits:
        (report or ctx.violation)(key + ":no-exit", "%s never returns" % f.path, [])
    return a
