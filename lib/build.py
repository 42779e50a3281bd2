"""Comprehension extraction: what a function builds, as a term.

Values are terms over the parameters; lists and strings under construction are
accumulators whose contributions are collected per round of each enclosing loop
and, when the loop ends, stand for it as a ("for", loop, accumulator) element.
Loops written as iterator chains have been unfolded before (mir.flatten).  The
result is a list of (conditions, result term) plus, for every loop, the
contributions of a round under the conditions that lead to them.  The analysis
is repeated until the set of accumulators a loop feeds is stable.
"""
import re
import ai, mir, quant

NEXT = quant.NEXTI
IDENT = {"iter", "into_iter", "iter_mut", "by_ref", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "as_slice", "as_bytes", "as_bstr",
         "as_str", "to_string", "to_owned", "to_vec", "into", "into_inner", "into_boxed_slice", "into_vec", "cloned", "copied",
         "as_bstring", "to_bstring", "into_owned", "must_use", "to_bytes", "fuse", "from", "from_iter", "into_string", "as_deref",
         "index_full", "bytes", "write_fmt_ident"}
NEWS = {"new", "with_capacity", "default", "coll_new"}
PUSH = {"push", "push_str", "push_char", "push_byte", "coll_push"}
EXT = {"extend", "extend_from_slice", "append"}
LISTY = re.compile(r"^&?(mut )?(core::option::Option<)?(alloc::vec::Vec|alloc::string::String|bstr::\w+::BString|bstr::BString|smallvec::SmallVec|"
                   r"pica_record::query::Outcome)\b")
HEADS = (NEXT,)


def head_blocks(g):
    out = set()
    for i, b in enumerate(g.blocks):
        if b is None:
            continue
        t = b["t"]
        if t["t"] == "nondet" and t.get("items"):
            out.add(i)
        elif t["t"] == "call" and mir.callee_paths(t)[0] == NEXT:
            out.add(i)
    return out


def loops(g):
    """head -> blocks of its natural loop"""
    succ = {i: [x for x in mir.succs(b["t"]) if x is not None] for i, b in enumerate(g.blocks) if b}
    order, seen = [], set()
    stack = [(g.entry, iter(succ[g.entry]))]
    seen.add(g.entry)
    while stack:
        n, it = stack[-1]
        for x in it:
            if x not in seen and x in succ:
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    idx = {n: i for i, n in enumerate(order)}
    pred = {n: [] for n in order}
    for n in order:
        for s in succ[n]:
            if s in pred:
                pred[s].append(n)
    dom = {g.entry: g.entry}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            new = None
            for p in pred[n]:
                if p in dom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = dom[a]
                            while idx[b] > idx[a]:
                                b = dom[b]
                        new = a
            if dom.get(n) != new:
                dom[n] = new
                ch = True

    def doms(h, n):
        while True:
            if n == h:
                return True
            if n == g.entry:
                return False
            n = dom[n]
    nat = {}
    for n in order:
        for x in succ[n]:
            if x in dom and doms(x, n):
                body = nat.setdefault(x, {x})
                todo = [n]
                while todo:
                    y = todo.pop()
                    if y not in body:
                        body.add(y)
                        todo += pred[y]
    out = {}
    heads = [h for h in head_blocks(g) if h in dom]
    mine = {}
    for h in heads:
        ls = [(len(b), x) for x, b in nat.items() if h in b]
        if ls:
            mine.setdefault(min(ls)[1], []).append(h)
    for x, hs in mine.items():
        first = [h for h in hs if all(doms(h, k) for k in hs)]
        # a loop makes its rounds over what the first of these steps through
        if first:
            h, t = first[0], g.blocks[first[0]]["t"]
            out[h] = nat[x]
            if t["t"] == "nondet":
                # stepping through an adapted iterator is a loop within the loop that takes the steps
                src = {g.blocks[y]["t"]["src"][1][0] for y in t["to"] if g.blocks[y]["t"].get("exhausted")
                       and g.blocks[y]["t"]["src"][0] in "cm"}
                made = [i for i, z in enumerate(g.blocks) if z and (any(p in src and not pr for (p, pr), v, sp in z["s"])
                                                                    or z["t"]["t"] == "call" and z["t"]["d"][0] in src)]
                for y, body in nat.items():
                    if nat[x] < body and len(out[h]) < len(body) and src and not any(d in body for d in made) \
                            and all(doms(h, k) for k in heads if k in body):
                        out[h] = body
    return out


class Build:
    """mon: (frames, accs); frame = (loop key, head); accs: ((P, birth depth, contents per depth), ...)"""

    def __init__(self, ctx, f, g, opaque=lambda c: False, rounds=False, counters=False, stops=False):
        self.rounds, self.stops = rounds, stops
        self.ctx, self.f, self.g = ctx, f, g
        self.tab, self.terms = {}, []
        self.loops = loops(g)
        self.bodies = self.loops
        self.hcache = {}
        self.cuts = {}
        self.inside = {h: frozenset(x for x in self.loops if x != h and x in b) for h, b in self.loops.items()}
        self.feeds, self.summary, self.started = {}, {}, {}
        self.results, self.notes = [], {}
        self.opaque = opaque
        self.head_of, self.done_of = {}, {}
        for h in self.loops:
            t = g.blocks[h]["t"]
            if t["t"] == "nondet":
                for x in t["to"]:
                    b = g.blocks[x]
                    if b["t"].get("exhausted"):
                        self.done_of[id(b["t"])] = h
                    else:
                        for p, v, sp in b["s"]:
                            if v.get("item"):
                                self.head_of[id(v)] = h
                                break
        inner = set().union(*self.loops.values()) if self.loops else set()
        asg = {}
        for i, b in enumerate(g.blocks):
            for (p, v, sp) in (b["s"] if b else ()):
                if not p[1]:
                    asg.setdefault(p[0], []).append(i)
            if b and b["t"]["t"] == "call" and not b["t"]["d"][1]:
                asg.setdefault(b["t"]["d"][0], []).append(i)
        self.counters = self.find_counters(g) if counters else set()
        self.accs = set(g.accs) | self.counters | {l for l, bs in asg.items() if g.locals[l][1] and LISTY.match(g.locals[l][0])
                                   and any(x in inner for x in bs) and any(
                                       not any(x in body and y not in body for body in self.loops.values()) is False
                                       for x in bs for y in bs)}

    def find_counters(self, g):
        """integers that start at a number and go up by one: lists of ticks"""
        tmp, asg = {}, {}
        for b in g.blocks:
            for (p, v, sp) in (b["s"] if b else ()):
                if not p[1]:
                    asg.setdefault(p[0], []).append(v)
            if b and b["t"]["t"] == "call" and not b["t"]["d"][1]:
                asg.setdefault(b["t"]["d"][0], []).append(None)

        def same(p, l):
            n = 0
            while not p[1] and p[0] != l and n < 4:
                vs = asg.get(p[0], ())
                if len(vs) != 1 or not vs[0] or vs[0]["r"] != "use" or vs[0]["o"][0] not in "cm":
                    return False
                p, n = vs[0]["o"][1], n + 1
            return p == (l, ())

        def kind(l, v):
            if not v:
                return None
            if v["r"] == "use" and v["o"][0] == "k" and "int" in v["o"][1]:
                return "start"
            if v["r"] == "bin" and v["op"].startswith("Add") and v["a"][0] in "cm" and same(v["a"][1], l) \
                    and v["b"][0] == "k" and v["b"][1].get("int") == 1:
                return "tick"
            if v["r"] == "use" and v["o"][0] in "cm" and v["o"][1][1] and v["o"][1][0] in asg and len(asg[v["o"][1][0]]) == 1:
                return kind(l, asg[v["o"][1][0]][0])
            return None
        out = set()
        for l, vs in asg.items():
            ks = [kind(l, v) for v in vs]
            if all(ks) and "tick" in ks and l > 0 and l not in g.args:
                out.add(l)
        return out

    def init(self):
        return ((), ())

    def note(self, k, a):
        self.notes.setdefault(k, a.trace(a.cur) if getattr(a, "cur", None) else [])

    # -- terms
    def tid(self, t):
        i = self.tab.get(t)
        if i is None:
            i = self.tab[t] = len(self.terms)
            self.terms.append(t)
        return i

    def mk(self, t):
        return ("o", ("T", self.tid(t)), ai.EMPTY)

    def mkacc(self, p):
        return ("o", ("acc", self.tid(p)), ai.EMPTY)

    def expand(self, t):
        """opaque tag -> term"""
        if isinstance(t, tuple):
            if t and t[0] == "T":
                return self.terms[t[1]]
            if t and t[0] == "acc":
                return ("acc", self.terms[t[1]])
            return tuple(self.expand(x) if isinstance(x, tuple) else x for x in t)
        return t

    def peel(self, w):
        """the list inside a wrapper that has become an accumulator"""
        while w[0] == "o" and w[1][0] == "f" and w[1][1][0] == "acc" and w[1][2] == "0":
            w = ("o", w[1][1], w[2])
        return w

    def term(self, a, st, v):
        v = self.peel(a.val(st, v))
        if v[0] == "o":
            if v[1][0] == "acc":
                return self.content(st, self.terms[v[1][1]])
            return self.expand(v[1])
        if v[0] in "se":
            fs = tuple((n, self.term(a, st, x)) for n, x in v[2 if v[0] == "e" else 1])
            if v[0] == "s" and len(fs) == 2 and "Range" in str(v[2]) and "Inclusive" not in str(v[2]):
                return ("range", fs[0][1], fs[1][1])
            return ("s", str(v[2]), fs) if v[0] == "s" else ("e", v[1], fs)
        return v

    # -- accumulators
    def get(self, st):
        return {p: (b, list(c)) for p, b, c in st.mon[1]}

    def put(self, st, d):
        st.mon = (st.mon[0], tuple(sorted(((p, b, tuple(c)) for p, (b, c) in d.items()), key=repr)))

    def content(self, st, p):
        for q, b, c in st.mon[1]:
            if q == p:
                if len(st.mon[0]) == b:
                    return ("list",) + tuple(c[0])
                rest = tuple(x for y in c[1:] for x in y)
                return ("list", ("x", ("cur", p))) + rest if rest else ("cur", p)
        return ("lost", p)

    def birth(self, st, p, items):
        d = self.get(st)
        self.started.setdefault(p, set()).add(tuple(items))
        d[p] = (len(st.mon[0]), [tuple(items)])
        self.put(st, d)
        return self.mkacc(p)

    def add(self, st, p, items, reset=False):
        d = self.get(st)
        if p not in d:
            return
        b, c = d[p]
        k = len(st.mon[0]) - b
        while len(c) <= k:
            c.append(())
        if reset:
            c[k] = ()
        c[k] = c[k] + tuple(items)
        self.put(st, d)

    # -- loops
    def source(self, a, st, v):
        """(source term, shape of its items)"""
        s = self.term(a, st, v)
        if s[:2] == ("t", "enumerate"):
            return s[2], "enum"
        if s[:2] == ("t", "zip"):
            return ("zip",) + s[2:], "zip"
        if s[:2] == ("t", "map") and len(s) == 4 and s[3][0] == "k" and str(s[3][1]).startswith("fn:"):
            n = s[3][1].rsplit("::", 1)[-1]
            return s[2], ("map", n)
        return s, None

    def item(self, key, shape):
        it = self.mk(("item", key))
        if shape == "enum":
            return ("s", (("0", self.mk(("idx", key))), ("1", it)), "tuple")
        if shape and shape[0] == "map":
            return it if shape[1] in IDENT else self.mk(("t", shape[1], ("item", key)))
        if shape == "zip":
            return ("s", (("0", self.mk(("item", key, 0))), ("1", self.mk(("item", key, 1)))), "tuple")
        return it

    def mentions(self, t, what):
        if isinstance(t, tuple):
            if t == what:
                return True
            if t and t[0] == "T":
                return self.mentions(self.terms[t[1]], what)
            return any(self.mentions(x, what) for x in t if isinstance(x, tuple))
        return False

    def atoms(self, st):
        out = set()
        for t, v in st.ass.items():
            ne = t[0] == "ne"
            x = self.expand(t[1] if ne else t)
            for q in [("local", l) for l in self.counters]:
                x = self.swap(x, ("acc", q), self.content(st, q))
            if ne:
                v = ("not",) + tuple(v)
            out.add((x, v))
        return frozenset(out)

    def close(self, a, st, partial=False):
        """a round of the innermost loop ends"""
        key, h = st.mon[0][-1]
        k = len(st.mon[0])
        d = self.get(st)
        at = self.atoms(st)
        if self.stops:
            at = frozenset(at | {(("t", "stops", ("item", key)), int(partial))})
        self.ctx.count("rounds_visited")
        if partial and not self.feeds.get(key):
            d0 = self.get(st)
            if not any(len(c) > k - b and c[k - b] for b, c in d0.values()):
                # a search that ends here: not a full round
                for p in list(d0):
                    if d0[p][0] >= k:
                        del d0[p]
                self.put(st, d0)
                self.forget(st, key)
                return
        for p in list(d):
            b, c = d[p]
            if b >= k:
                del d[p]
                continue
            got = c[k - b] if len(c) > k - b else ()
            self.summary.setdefault(key, {}).setdefault(p, set()).add((at, got))
            if got and p not in self.feeds.setdefault(key, set()):
                self.feeds[key].add(p)
            d[p] = (b, c[:k - b])
        self.summary.setdefault(key, {}).setdefault(None, set()).add((at, ()))
        self.put(st, d)
        self.forget(st, key)

    def forget(self, st, key):
        for p in self.feeds.get(key, ()):
            self.stale(st, p)
        for m in (("item", key), ("idx", key), ("item", key, 0), ("item", key, 1)):
            for t in [t for t in st.ass if self.mentions(t, m)]:
                del st.ass[t]
            for t in [t for t in st.heap if self.mentions(t, m)]:
                del st.heap[t]

    def stale(self, st, q):
        """what was known of the contents of q"""
        m = (("cur", q), ("acc", self.tid(q)))
        for d in (st.ass, st.heap):
            for t in [t for t in d if any(self.mentions(t, x) for x in m)]:
                del d[t]

    def fix(self, st, q):
        """what is known of the contents of q as they are now, before they change"""
        m = ("acc", self.tid(q))
        for t in [t for t in st.ass if self.mentions(t, m)]:
            v = st.ass.pop(t)
            if t[0] != "ne":
                st.ass[("T", self.tid(self.swap(self.expand(t), ("acc", q), self.content(st, q))))] = v

    def heads_in(self, t):
        """the loops a condition speaks of"""
        r = self.hcache.get(t)
        if r is None:
            out = set()
            if not t:
                pass
            elif t[0] == "T":
                out |= self.heads_in(self.terms[t[1]])
            elif t[0] in ("item", "idx", "for", "part") and len(t) > 1 and isinstance(t[1], tuple) and isinstance(t[1][0], int):
                out.add(t[1][0])
            for x in t:
                if isinstance(x, tuple):
                    out |= self.heads_in(x)
            r = self.hcache[t] = frozenset(out)
        return r

    def excluded(self, c, at):
        """the conditions at rule c out"""
        return c[1] in (0, 1) and (c[0], 1 - c[1]) in at or any(
            x == c[0] and isinstance(v, tuple) and v[:1] == ("not",) and c[1] in v[1:] for x, v in at)

    def know(self, st, key, cond, v):
        c = cond[0]
        for i in ((), (0,), (1,)):
            c = self.swap(c, ("item", key) + i, ("it",) + i)
        t = ("t", "exists", key[1], c, cond[1])
        if t[4] == 1 and t[3][:2] == ("op", "Eq") and ("it",) in t[3][2:]:
            x = [y for y in t[3][2:] if y != ("it",)]
            if len(x) == 1 and not self.mentions(x[0], ("it",)):
                t = ("t", "contains", key[1], x[0])
        st.ass[("T", self.tid(t))] = v

    def swap(self, t, x, y):
        if t == x:
            return y
        return tuple(self.swap(z, x, y) if isinstance(z, tuple) else z for z in t)

    def pop(self, a, st, how):
        key, h = st.mon[0][-1]
        cond = None
        if how == "cut":
            # what made the loop stop: there is an item for which it holds
            its = (("item", key), ("item", key, 0), ("item", key, 1))
            mine = [(x, v) for x, v in self.atoms(st) if any(self.mentions(x, i) for i in its) and not self.heads_in(x) & self.inside[h]]
            # what it is says what it is not
            mine = [(x, v) for x, v in mine if not (isinstance(v, tuple) and v[:1] == ("not",) and any(
                y == x and not isinstance(w, tuple) for y, w in mine))]
            if len(mine) == 1:
                cond = mine[0]
                self.cuts.setdefault(key, set()).add(cond)
        if how != "unentered":
            self.close(a, st, how == "cut")
        st.mon = (st.mon[0][:-1], st.mon[1])
        for d in (st.ass, st.heap):
            for t in [t for t in d if self.heads_in(t) & self.inside[h]]:
                del d[t]
        if cond:
            self.know(st, key, cond, 1)
        elif how != "cut":
            for c in self.cuts.get(key, ()):
                if isinstance(c[1], int) and all(self.excluded(c, at) or (("t", "stops", ("item", key)), 1) in at
                                                 for at, _ in self.summary.get(key, {}).get(None, ())):
                    self.know(st, key, c, 0)
        k = len(st.mon[0])
        for p in sorted(self.feeds.get(key, ()), key=repr):
            d = self.get(st)
            if p in d and d[p][0] <= k:
                self.add(st, p, [("for", key, p) if how != "cut" or self.stops else ("part", key, p)])

    def enter(self, a, st, h, v):
        src, shape = self.source(a, st, v)
        key = (h, src)
        fr = [f[0] for f in st.mon[0]]
        heads = [f[1] for f in st.mon[0]]
        while h in heads and heads[-1] != h:
            self.pop(a, st, "cut")
            heads.pop()
        if heads and heads[-1] == h:
            key, first = st.mon[0][-1][0], False
            self.close(a, st)
        else:
            st.mon, first = (st.mon[0] + ((key, h),), st.mon[1]), True
        self.forget(st, key)
        inner = self.inside[h] if not first else self.inside[h] | {h}
        for d in (st.ass, st.heap):
            for t in [t for t in d if self.heads_in(t) & inner]:
                del d[t]
        if self.rounds:
            i = ("T", self.tid(("idx", key)))
            if first:
                st.ass[i] = 0
            else:
                st.ass[("ne", i)] = frozenset((0,))
        return self.item(key, shape)

    def over(self, a, st, h, v):
        heads = [f[1] for f in st.mon[0]]
        while h in heads and heads[-1] != h:
            self.pop(a, st, "cut")
            heads.pop()
        if heads and heads[-1] == h:
            self.pop(a, st, "end")
        else:
            src, shape = self.source(a, st, v)
            st.mon = (st.mon[0] + (((h, src), h),), st.mon[1])
            self.pop(a, st, "unentered")

    def cutoff(self, a, st, bid):
        while st.mon[0]:
            h = st.mon[0][-1][1]
            if bid in self.bodies[h] or bid in self.exits_of(h):
                break
            a.cur = getattr(a, "cur", None)
            self.pop(a, st, "cut")
        return False

    def exits_of(self, h):
        """the blocks through which the loop ends in order"""
        t = self.g.blocks[h]["t"]
        if t["t"] == "nondet":
            return [x for x in t["to"]]
        return ()

    def new_item(self, a, st, v):
        h = self.head_of.get(id(v))
        if h is None:
            return None
        return self.enter(a, st, h, a.operand(st, v["from"][0]))

    def exhausted(self, a, st, t):
        h = self.done_of.get(id(t))
        if h is not None:
            self.over(a, st, h, a.operand(st, t["src"]))

    def post(self, a, st, p, v):
        if v["r"] == "havoc" and v.get("ai") == 7 and not v.get("item") and st.mon[0]:
            st.write(p, self.mk(("idx", st.mon[0][-1][0])))
            return
        if self.counters and v["r"] == "use" and p[0] not in self.counters:
            # a number is what it is at the time
            w = st.read(p)
            if w[0] == "o" and w[1][0] == "acc" and self.terms[w[1][1]][0] == "local" and self.terms[w[1][1]][1] in self.counters:
                st.write(p, self.mk(self.content(st, self.terms[w[1][1]])))
        if p[1] or p[0] not in self.accs:
            return
        w = a.val(st, st.read(p))
        self.assigned(a, st, p, w)

    def assigned(self, a, st, p, w):
        st.write(p, self.settle(a, st, p, w))

    def settle(self, a, st, p, w):
        q = ("local", p[0])
        d = self.get(st)
        if w == self.mkacc(q):
            return w
        if p[0] in self.counters:
            self.fix(st, q)
            if w[0] == "o" and w[1][:2] == ("op", "Add") and w[1][3] == ("k", 1) and q in d and (
                    w[1][2] == ("acc", self.tid(q)) or w[1][2][0] == "T" and self.terms[w[1][2][1]] == self.content(st, q)):
                self.add(st, q, [("e", ("k", 1))])
                return self.mkacc(q)
            return self.birth(st, q, [("e", ("k", 1))] * w[1] if w[0] == "k" and w[1] in range(9) else [("x", self.term(a, st, w))])
        t = self.term(a, st, w)
        if q in d and len(st.mon[0]) > d[q][0]:
            self.add(st, q, [("set", t)], True)
            return self.mkacc(q)
        return self.birth(st, q, t[1:] if t[0] == "list" else (("x", t),))

    # -- calls
    def acc_at(self, a, st, o, v):
        """accumulator behind a mutable reference, made one if need be"""
        w = self.peel(a.val(st, v))
        while w[0] == "s" and len(w[1]) == 1 and "tuple" not in str(w[2]):
            w = a.val(st, w[1][0][1])
        if w[0] == "o" and w[1][0] == "acc":
            return self.terms[w[1][1]]
        if v[0] == "r":
            x, n = v, 0
            while n < 8:
                y = st.read((x[1], x[2]))
                if y[0] != "r":
                    break
                x, n = y, n + 1
            p = ("place", x[1], x[2])
            t = self.term(a, st, w)
            acc = self.birth(st, p, t[1:] if t[0] == "list" else (("x", t),))
            st.write((x[1], x[2]), acc)
            return p
        return None

    def boxed(self, a, st, c):
        """elements of a `vec![..]` literal"""
        b = self.g.blocks[c.site]
        seen = set()
        while b:
            for p, v, sp in b["s"]:
                if v["r"] == "agg" and v["kind"] == "array":
                    return [a.operand(st, o) for o in v["ops"]]
            break
        return None

    def call(self, a, st, c):
        out = self.call1(a, st, c)
        d = c.t["d"]
        if out and not d[1] and d[0] in self.accs:
            return [(s, self.settle(a, s, d, a.val(s, v))) for s, v in out]
        return out

    def call1(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [self.peel(a.val(st, x)) for x in c.args]
        if c.path == NEXT:
            s0, s1 = st.copy(), st.copy()
            h = c.site
            if h not in self.loops:
                return [(st, self.mk(("t", "next") + tuple(self.term(a, st, x) for x in v)))]
            self.over(a, s0, h, v[0])
            it = self.enter(a, s1, h, v[0])
            return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", it),)))]
        if c.path == mir.COLL_NEW:
            return [(st, self.birth(st, ("new", c.site), ()))]
        if c.path == mir.REDUCED:
            x = self.mk(("t", "some", self.term(a, st, v[0])))
            return [(s, ("e", "Some", (("0", v[0]),)) if b else ("e", "None", ())) for s, b in a.branch_bool(st, x)]
        r = self.special(a, st, c, n, v)
        if r is not None:
            return r
        if n == "unwrap_or_default" and v[0][0] == "e" and LISTY.match(c.t.get("dty") or ""):
            return [(st, v[0][2][0][1] if v[0][1] == "Some" else self.birth(st, ("new", c.site), ()))]
        if n == "box_assume_init_into_vec_unsafe":
            el = self.boxed(a, st, c)
            if el is not None:
                return [(st, self.birth(st, ("new", c.site), [("e", self.term(a, st, x)) for x in el]))]
        if n in NEWS and (not v or n == "with_capacity") and LISTY.match(c.t.get("dty") or ""):
            return [(st, self.birth(st, ("new", c.site), ()))]
        if n == "new" and len(v) == 1 and LISTY.match(c.t.get("dty") or ""):
            return [(st, v[0])]
        if n in PUSH and len(v) == 2:
            p = self.acc_at(a, st, c.t["args"][0], c.args[0])
            if p is not None:
                t = self.term(a, st, v[1])
                self.ctx.count("additions_visited")
                if n in ("push_str",):
                    self.add(st, p, t[1:] if t[0] == "list" else [("x", t)])
                else:
                    self.add(st, p, [("e", t)])
                return [(st, ("s", (), "tuple"))]
        if n in EXT and len(v) == 2:
            p = self.acc_at(a, st, c.t["args"][0], c.args[0])
            if p is not None:
                t = self.term(a, st, v[1])
                self.ctx.count("additions_visited")
                self.add(st, p, t[1:] if t[0] == "list" else [("x", t)])
                return [(st, ("s", (), "tuple"))]
        if n in ("reserve", "reserve_exact", "shrink_to_fit", "_print", "_eprint"):
            return [(st, ("s", (), "tuple"))]
        if n in ("take", "replace") and c.path.startswith("core::mem"):
            return None
        if n == "clone" and len(v) == 1:
            if v[0][0] == "o" and v[0][1][0] == "acc":
                t = self.term(a, st, v[0])
                return [(st, self.birth(st, ("new", c.site), t[1:] if t[0] == "list" else (("x", t),)))]
            return [(st, v[0])]
        if n in IDENT and len(v) == 1:
            return [(st, c.args[0] if n in ("as_mut", "deref_mut", "by_ref", "iter_mut") and c.args[0][0] == "r" else v[0])]
        if n == "is_empty" and len(v) == 1 or n == "len" and len(v) == 1:
            return [(st, self.mk(("t", n, self.term(a, st, v[0]))))]
        if ai.MODELS.get(c.path) is not None or ai.MODELS.get(c.rpath) is not None:
            return None
        # an unknown call: a term of its arguments; it may change what it gets mutably
        for i, (o, x) in enumerate(zip(c.t["args"], c.args)):
            if o[0] in "cm" and x[0] == "r" and "&mut" in self.g.locals[o[1][0]][0].replace("&'_ mut", "&mut"):
                w = a.val(st, x)
                if w[0] == "o" and w[1][0] == "acc":
                    self.add(st, self.terms[w[1][1]], [("?", n)])
        full = c.path
        return [(st, self.mk(("t", n) + tuple(self.term(a, st, x) for x in v)))]

    def special(self, a, st, c, n, v):
        return None

    def exit(self, a, st, v, node):
        a.cur = node
        while st.mon[0]:
            self.pop(a, st, "cut")
        self.ctx.count("exits_compared")
        self.results.append((self.atoms(st), self.term(a, st, v), a.trace(node)))


def run(ctx, f, init=None, inline=lambda h: False, cls=Build, keep=None, drain=False, **kw):
    g = ctx.flat(f, inline=inline, collect=True, reduce=True, sums=False, drain=drain)
    b = cls(ctx, f, g, **kw)
    n = 0
    for rnd in range(6):
        before = {k: set(v) for k, v in b.feeds.items()}, {k: set(v) for k, v in b.cuts.items()}
        b.summary, b.results, b.notes = {}, [], {}
        a = ai.AI(ctx.prog, g, b, init=init, keep=keep or (lambda t: (t[1] if t[0] == "ne" else t)[0] not in ("l", "d")))
        a.run()
        n += a.nstates
        if (b.feeds, b.cuts) == before:
            break
    else:
        raise ai.Overflow("loop summaries of %s do not settle" % f.path)
    ctx.count("states", n)
    ctx.unit(f.path)
    b.ai = a
    return b
