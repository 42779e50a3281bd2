"""Abstract interpreter over a flattened MIR graph.

Domain: finite trees of constants, enum variants, references to locals and
opaque symbolic values (access paths / call results).  States are partitioned
by (monitor state, environment) and explored to a fixpoint: arithmetic is
never folded and opaque terms are depth bounded, so the state space is finite.
No path is executed and no solver is involved; every branch on an unknown
value is followed on both sides.

values:
  ('k', x)                       constant (int / str / bytes tuple)
  ('e', variant, fields)         enum value; fields = tuple of (name, value)
  ('s', fields, kind)            struct / tuple / closure environment
  ('r', local, proj)             reference to a local place
  ('o', tag, labels)             opaque, tag = nested tuple, labels = frozenset
"""
from collections import deque
import mir

EMPTY = frozenset()
TOP = ("o", ("top",), EMPTY)
MAXD = 7


def tagdepth(t, lim=MAXD):
    if lim < 0:
        return 99
    if isinstance(t, tuple):
        m = 0
        for x in t:
            if isinstance(x, tuple):
                m = max(m, 1 + tagdepth(x, lim - 1))
        return m
    return 0


def mk(tag, labels=EMPTY):
    if tagdepth(tag) > MAXD:
        # keep root of the tag only
        root = tag
        while isinstance(root, tuple) and root[0] in ("f", "v", "i", "d"):
            root = root[1]
        if tagdepth(root) > MAXD - 1:
            tag = ("top",)
        else:
            tag = ("f", root, "~")
    return ("o", tag, labels)


def labels(v, st=None, depth=0):
    if v is None or depth > 6:
        return EMPTY
    k = v[0]
    if k == "o":
        return v[2]
    if k == "r":
        if st is None:
            return EMPTY
        return labels(st.read((v[1], v[2])), st, depth + 1)
    if k in ("e", "s"):
        r = EMPTY
        for _, x in (v[2] if k == "e" else v[1]):
            r = r | labels(x, st, depth + 1)
        return r
    return EMPTY


def getf(fields, name, idx=None):
    for n, v in fields:
        if n == name:
            return v
    return None


def setf(fields, name, val):
    out = []
    done = False
    for n, v in fields:
        if n == name:
            out.append((n, val))
            done = True
        else:
            out.append((n, v))
    if not done:
        out.append((name, val))
    return tuple(out)


class State:
    __slots__ = ("env", "heap", "ass", "mon", "ai", "dead")

    def __init__(self, ai, env, heap, ass, mon):
        self.ai = ai
        self.env = env
        self.heap = heap
        self.ass = ass
        self.mon = mon
        self.dead = False  # a hook found that no execution gets here

    def copy(self):
        return State(self.ai, dict(self.env), dict(self.heap), dict(self.ass), self.mon)

    def key(self):
        return (self.mon, frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.ass.items()))

    # ---- places
    def local(self, l):
        v = self.env.get(l)
        if v is None:
            return ("o", ("l", l), EMPTY)
        return v

    def proj1(self, v, e):
        if v[0] == "r":
            if e == "*":
                return self.read((v[1], v[2]))
            return self.proj1(self.read((v[1], v[2])), e)
        if e == "*":
            return v
        k = e[0]
        if k == "f":
            name = e[2]
            if v[0] == "s":
                r = getf(v[1], name)
                return r if r is not None else TOP
            if v[0] == "e":
                r = getf(v[2], name)
                return r if r is not None else mk(("top",), labels(v, self))
            if v[0] == "o":
                t = ("f", v[1], name)
                if v[1] == ("top",):
                    return v
                h = self.heap.get(t)
                if h is not None:
                    return h
                return mk(t, v[2])
            return TOP
        if k == "v":
            if v[0] == "e":
                return v
            if v[0] == "o":
                if v[1] == ("top",):
                    return v
                return mk(("v", v[1], e[2]), v[2])
            return v
        if k in ("i", "ci", "sub"):
            if v[0] == "o" and v[1] != ("top",):
                n = self.index(e)
                return mk(("i", v[1]) if n is None else ("i", v[1], n), v[2])
            if v[0] == "s" and k == "i":
                n = self.index(e)
                r = getf(v[1], str(n[1])) if n is not None and n[0] == "k" else None
                if r is not None:
                    return r
            if v[0] == "s" and k == "ci" and not e[2]:
                r = getf(v[1], str(e[1]))
                if r is not None:
                    return r
            if v[0] == "s":
                return mk(("top",), labels(v, self))
            return v if v[0] == "o" else TOP
        return TOP

    def index(self, e):
        """what is known of an index: a constant or the value it stems from"""
        if e[0] == "ci":
            return None if e[2] else ("k", e[1])
        if e[0] == "i":
            x = self.local(e[1])
            if x[0] == "k":
                return x
            if x[0] == "o" and x[1][0] in ("call", "cb"):
                return x[1]
        return None

    def read(self, p):
        v = self.local(p[0])
        for e in p[1]:
            v = self.proj1(v, e)
        return v

    def resolve(self, p):
        """follow derefs of known references; -> (local, proj) or ('tag', tag)"""
        l, pr = p
        v = self.local(l)
        out = []
        n = 0
        for e in pr:
            n += 1
            if e == "*":
                cur = self.read((l, tuple(out)))
                if cur[0] == "r":
                    l, out = cur[1], list(cur[2])
                    continue
                if cur[0] == "o":
                    # opaque pointer: symbolic heap location
                    t = cur[1]
                    rest = pr[n:]
                    for x in rest:
                        if x == "*":
                            continue
                        if x[0] == "f":
                            t = ("f", t, x[2])
                        elif x[0] == "v":
                            t = ("v", t, x[2])
                        else:
                            n = self.index(x)
                            t = ("i", t) if n is None else ("i", t, n)
                    return ("tag", t, cur[2])
                continue
            out.append(e)
        return (l, tuple(out))

    def write(self, p, val):
        r = self.resolve(p)
        if r[0] == "tag":
            if tagdepth(r[1]) <= MAXD and r[1] != ("top",):
                self.heap[r[1]] = val
                # invalidate assumptions about the location
                for t in [t for t in self.ass if t == r[1] or (isinstance(t, tuple) and r[1] in t)]:
                    del self.ass[t]
            return
        l, pr = r
        if not pr:
            self.env[l] = val
            return
        self.env[l] = self._upd(self.local(l), pr, val)

    def _upd(self, base, pr, val):
        if not pr:
            return val
        e = pr[0]
        if e == "*":
            return self._upd(base, pr[1:], val)
        if e[0] == "f":
            if base[0] == "s":
                old = getf(base[1], e[2]) or TOP
                return ("s", setf(base[1], e[2], self._upd(old, pr[1:], val)), base[2])
            if base[0] == "e":
                old = getf(base[2], e[2]) or TOP
                return ("e", base[1], setf(base[2], e[2], self._upd(old, pr[1:], val)))
            if base[0] == "o":
                if base[1][0] in ("l",):
                    # field-wise initialisation of an aggregate
                    return ("s", ((e[2], self._upd(TOP, pr[1:], val)),), "?")
                t = ("f", base[1], e[2])
                if len(pr) == 1 and tagdepth(t) <= MAXD and base[1] != ("top",):
                    self.heap[t] = val
                    self.ass.pop(t, None)
                    return base
                return ("o", base[1], base[2] | labels(val, self))
            return TOP
        if e[0] == "v":
            return self._upd(base, pr[1:], val)
        # index: weak update, keep labels
        return ("o", base[1] if base[0] == "o" else ("top",), labels(base, self) | labels(val, self))

    # ---- refinement
    def assume(self, tag, val):
        """-> False if contradictory"""
        cur = self.ass.get(tag)
        if cur is not None:
            return cur == val
        ne = self.ass.get(("ne", tag))
        if ne is not None and val in ne:
            return False
        if self.ai.keep(tag):
            self.ass[tag] = val
        return True

    def assume_not(self, tag, vals):
        cur = self.ass.get(tag)
        if cur is not None:
            return cur not in vals
        if self.ai.keep(tag):
            k = ("ne", tag)
            self.ass[k] = self.ass.get(k, frozenset()) | frozenset(vals)
        return True


def shape(v, d=2):
    """variant skeleton: values with different skeletons are never merged"""
    if v[0] != "e" or d == 0:
        return None
    return (v[1],) + tuple(shape(x, d - 1) for _, x in v[2])


def join_val(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if a[0] == "s" and b[0] == "s" and a[2] == b[2] and [n for n, _ in a[1]] == [n for n, _ in b[1]]:
        return ("s", tuple((n, join_val(x, y)) for (n, x), (_, y) in zip(a[1], b[1])), a[2])
    if a[0] == "e" and b[0] == "e" and a[1] == b[1] and [n for n, _ in a[2]] == [n for n, _ in b[2]]:
        return ("e", a[1], tuple((n, join_val(x, y)) for (n, x), (_, y) in zip(a[2], b[2])))
    if a[0] == "o" and b[0] == "o":
        return ("o", a[1] if a[1] == b[1] else ("top",), a[2] | b[2])
    return ("o", ("top",), labels(a) | labels(b))


def join_states(a, b):
    env = {}
    for l in set(a.env) | set(b.env):
        x, y = a.env.get(l), b.env.get(l)
        if x is None:
            # uninitialised on one side
            env[l] = y
        elif y is None:
            env[l] = x
        else:
            env[l] = join_val(x, y)
    heap = {}
    for t in set(a.heap) | set(b.heap):
        x, y = a.heap.get(t), b.heap.get(t)
        heap[t] = join_val(x, y) if x is not None and y is not None else mk(("top",), labels(x or y))
    return State(a.ai, env, heap, dict(a.ass), a.mon)


CUTS = {"take", "skip", "step_by", "nth", "last", "first", "get", "truncate", "clear", "drain", "retain", "retain_mut",
        "pop", "pop_front", "pop_back", "remove", "swap_remove", "dedup", "dedup_by", "dedup_by_key", "split_off",
        "split_first", "split_last", "split_at", "map_while", "chunks_exact", "array_chunks", "unique", "nth_back",
        "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "filter", "skip_while", "take_while"}


def is_cut(call):
    """a library operation whose result holds only part of a collection"""
    p = call.path
    if p.endswith(("ops::index::Index::index", "ops::index::IndexMut::index_mut")):
        return (call.dty or "").startswith(("&[", "&mut [")) and "RangeFull" not in str(call.fd)
    return p.split("::", 1)[0] in ("core", "alloc", "std", "hashbrown", "itertools", "indexmap") \
        and p.rsplit("::", 1)[-1] in CUTS and "Option" not in p and "Cell" not in p and "mem::" not in p


class Call:
    __slots__ = ("t", "path", "rpath", "args", "site", "span", "fn", "trait", "self_ty", "dty", "fnkey", "fd")

    def __init__(self, t, args, fn):
        self.t = t
        fd = t.get("f") or {}
        self.fd = fd
        self.path = fd.get("path", "?")
        self.rpath = fd.get("rpath", self.path)
        self.trait = fd.get("trait")
        self.self_ty = fd.get("self", "")
        self.args = args
        self.site = t.get("bid")
        self.span = t.get("sp", "")
        self.dty = t.get("dty", "")
        self.fnkey = fn
        self.fn = fn


class AI:
    def __init__(self, prog, graph, monitor=None, keep=None, init=None, maxstates=60000,
                 fold=False, models=None):
        self.prog = prog
        self.g = graph
        self.mon = monitor
        self.keepf = keep
        self.maxstates = maxstates
        self.cutoff = getattr(monitor, 'cutoff', None)
        self.post = getattr(monitor, 'post', None)
        self.trim = getattr(monitor, 'trim', None)
        self.fold = fold
        self.models = models or {}
        self.init = init or {}
        self.parent = {}
        self.exits = []
        self.visited_blocks = set()
        self._live()
        self._dropflags()
        self._assigned()

    K = 6

    def _dropflags(self):
        """compiler-made drop flags: constant-only bools tested only before drops"""
        g = self.g
        cand = {}
        for b in g.blocks:
            if b is None:
                continue
            for (p, v, sp) in b["s"]:
                if not p[1] and g.locals[p[0]][0] == "bool" and not g.locals[p[0]][1]:
                    if v["r"] == "use" and v["o"][0] == "k":
                        cand.setdefault(p[0], True)
                    else:
                        cand[p[0]] = False
                elif p[0] in cand and p[1]:
                    cand[p[0]] = False
                for k in ("o", "a", "b"):
                    if k in v and v[k][0] in "cm":
                        cand[v[k][1][0]] = False
                if "p" in v:
                    cand[v["p"][0]] = False
                for o in v.get("ops", []) + v.get("from", []):
                    if o[0] in "cm":
                        cand[o[1][0]] = False
            t = b["t"]
            for o in t.get("args", []):
                if o[0] in "cm":
                    cand[o[1][0]] = False
            if t["t"] == "call":
                cand[t["d"][0]] = False
            if t["t"] == "switch" and t["o"][0] in "cm":
                l = t["o"][1][0]
                ok = any(g.blocks[s] and not g.blocks[s]["s"] and g.blocks[s]["t"]["t"] == "drop"
                         for s in mir.succs(t))
                if not ok:
                    cand[l] = False
        self.dropflags = {l for l, v in cand.items() if v and l != 0}

    def keep(self, tag):
        return self.keepf(tag) if self.keepf else True

    def _assigned(self):
        """borrowed locals not assigned on every way to a block: no reference to them can
        still be in use there (a value of an earlier round of a loop, left over)"""
        g = self.g
        nb = len(g.blocks)
        bit = {l: 1 << i for i, l in enumerate(sorted(x for x in self.borrowed if isinstance(x, int)))}
        full = (1 << len(bit)) - 1
        gen = [0] * nb
        for i, b in enumerate(g.blocks):
            if b is None:
                continue
            for (p, v, sp) in b["s"]:
                gen[i] |= bit.get(p[0], 0)
            t = b["t"]
            if t["t"] == "call":
                gen[i] |= bit.get(t["d"][0], 0)
                for off, ck in t.get("clorets", []):
                    gen[i] |= bit.get(off, 0)
        have = [full] * nb
        first = 0
        for l in g.args:
            first |= bit.get(l, 0)
        have[g.entry] = first
        seen = {g.entry}
        work = deque([g.entry])
        while work:
            i = work.popleft()
            out = have[i] | gen[i]
            for s in mir.succs(g.blocks[i]["t"]):
                n = have[s] & out
                if n != have[s] or s not in seen:
                    seen.add(s)
                    have[s] = n
                    work.append(s)
        self.gone = [frozenset(l for l, b in bit.items() if not have[i] & b) for i in range(nb)]

    # ---- liveness (locals never borrowed only)
    def _live(self):
        g = self.g
        nb = len(g.blocks)
        borrowed = set()
        use = [set() for _ in range(nb)]
        df = [set() for _ in range(nb)]

        def uses_place(p, s, d):
            if p[0] not in d:
                s.add(p[0])
            for e in p[1]:
                if isinstance(e, tuple) and e[0] == "i" and e[1] not in d:
                    s.add(e[1])

        for i, b in enumerate(g.blocks):
            if b is None:
                continue
            u, d = use[i], df[i]
            for (p, v, sp) in b["s"]:
                for k in ("o", "a", "b"):
                    if k in v and v[k][0] in "cm":
                        uses_place(v[k][1], u, d)
                if "p" in v:
                    uses_place(v["p"], u, d)
                    if v["r"] in ("ref", "rawptr"):
                        borrowed.add(v["p"][0])
                for o in v.get("ops", []) + v.get("from", []):
                    if o[0] in "cm":
                        uses_place(o[1], u, d)
                if v["r"] == "cloref" and v["o"][0] in "cm":
                    borrowed.add(v["o"][1][0])
                if p[1]:
                    uses_place(p, u, d)
                else:
                    d.add(p[0])
            t = b["t"]
            for k in ("o", "fo", "src"):
                if k in t and t[k][0] in "cm":
                    uses_place(t[k][1], u, d)
            for o in t.get("args", []):
                if o[0] in "cm":
                    uses_place(o[1], u, d)
            if t["t"] == "call":
                for off, ck in t.get("clorets", []):
                    u.add(off)
                if not t["d"][1]:
                    d.add(t["d"][0])
                else:
                    uses_place(t["d"], u, d)
            if t["t"] == "return":
                u.add(0)
        self.borrowed = borrowed
        live_in = [set() for _ in range(nb)]
        preds = [[] for _ in range(nb)]
        for i, b in enumerate(g.blocks):
            if b:
                for s in mir.succs(b["t"]):
                    preds[s].append(i)
        work = deque(range(nb))
        inq = set(range(nb))
        while work:
            i = work.pop()
            inq.discard(i)
            b = g.blocks[i]
            if b is None:
                continue
            out = set()
            for s in mir.succs(b["t"]):
                out |= live_in[s]
            n = use[i] | (out - df[i])
            if n != live_in[i]:
                live_in[i] = n
                for p in preds[i]:
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        self.live = live_in
        self.preds = preds

    # ---- evaluation
    def const(self, c):
        if "variant" in c:
            return ("e", c["variant"], ())
        if "int" in c:
            return ("k", c["int"])
        if "str" in c:
            return ("k", c["str"])
        if "bytes" in c:
            return ("k", tuple(c["bytes"]))
        if "static" in c:
            return mk(("static", c["static"]))
        if "closure" in c:
            return ("s", (), "closure:" + c["closure"])
        if "f" in c:
            return ("k", "fn:" + c["f"].get("rpath", c["f"]["path"]))
        if c.get("promoted") is not None:
            return self.promoted(c["pof"], c["promoted"])
        if c.get("ty") == "()":
            return ("s", (), "tuple")
        return mk(("const", c.get("s", "?")[:80]))

    _prom = None

    def promoted(self, key, i):
        if self._prom is None:
            self._prom = {}
        k = (key, i)
        if k in self._prom:
            return self._prom[k]
        f = self.prog.fns.get(key)
        v = mk(("promoted", key, i))
        if f and i < len(f.promoted):
            b = f.promoted[i]
            st = State(self, {}, {}, {}, None)
            try:
                for blk in b["blocks"]:
                    for s in blk["s"]:
                        if "d" in s:
                            p = mir.shift_place(s["d"], 0)
                            rv = mir.shift_rv(s["v"], 0)
                            st.write(p, self.rvalue(st, rv, None, None))
                r = st.local(0)
                v = self._deepread(st, r)
            except RecursionError:
                pass
        self._prom[k] = v
        return v

    def _deepread(self, st, v, d=0):
        if d > 6:
            return TOP
        if v[0] == "r":
            return self._deepread(st, st.read((v[1], v[2])), d + 1)
        if v[0] == "s":
            return ("s", tuple((n, self._deepread(st, x, d + 1)) for n, x in v[1]), v[2])
        if v[0] == "e":
            return ("e", v[1], tuple((n, self._deepread(st, x, d + 1)) for n, x in v[2]))
        return v

    def operand(self, st, o):
        if o[0] in "cm":
            return st.read(o[1])
        return self.const(o[1])

    def val(self, st, v):
        """look through references"""
        n = 0
        while v[0] == "r" and n < 8:
            v = st.read((v[1], v[2]))
            n += 1
        return v

    def rvalue(self, st, v, site, blk):
        r = v["r"]
        if r == "use":
            return self.operand(st, v["o"])
        if r == "ref" or r == "rawptr":
            q = st.resolve(v["p"])
            if v["p"][1] and v["p"][1][-1] == "*" and v.get("mut") is not True and q[0] != "tag":
                x = st.read((v["p"][0], tuple(v["p"][1][:-1])))
                if x[0] == "k":     # a constant pointer, borrowed again
                    return x
            if q[0] == "tag":
                h = st.heap.get(q[1])
                if h is not None and not (v.get("mut") is True):
                    return h
                if h is None and v.get("mut") is not True:
                    x = st.read(v["p"])
                    if x != TOP:
                        return x
                return mk(q[1], q[2])
            # a reference through an opaque/struct value
            cur = st.read(q)
            if cur[0] == "o" and cur[1][0] not in ("l",) and q[1]:
                return cur if not self._inlocal(st, q) else ("r", q[0], q[1])
            return ("r", q[0], q[1])
        if r == "cast":
            return self.operand(st, v["o"])
        if r == "discr":
            x = self.val(st, st.read(v["p"]))
            vs = tuple((a, b) for a, b in v.get("vs", []))
            if x[0] == "e":
                for a, b in vs:
                    if b == x[1]:
                        return ("k", a)
                return TOP
            if x[0] == "o":
                if x[1] == ("top",):
                    return TOP
                cur = st.ass.get(x[1])
                if isinstance(cur, str):
                    for a, b in vs:
                        if b == cur:
                            return ("k", a)
                return ("o", ("d", x[1], vs), x[2])
            return TOP
        if r == "agg":
            ops = [self.operand(st, o) for o in v["ops"]]
            k = v["kind"]
            if k == "adt":
                f = tuple(zip(v["fields"], ops))
                if v["adt"] in self.enums() or v.get("variant") not in (None, v["adt"].rsplit("::", 1)[-1]):
                    return ("e", v["variant"], f)
                return ("s", f, v["adt"])
            if k == "closure":
                names = self._capnames(v["closure"], len(ops))
                return ("s", tuple(zip(names, ops)), "closure:" + v["closure"])
            return ("s", tuple((str(i), o) for i, o in enumerate(ops)), k)
        if r == "bin":
            return self.binop(st, v["op"], self.operand(st, v["a"]), self.operand(st, v["b"]))
        if r == "un":
            a = self.val(st, self.operand(st, v["a"]))
            if v["op"] == "Not":
                return self.neg(st, a)
            if v["op"] == "PtrMetadata":
                if a[0] == "k" and isinstance(a[1], (str, tuple)):
                    return ("k", len(a[1].encode() if isinstance(a[1], str) else a[1]))
                if a[0] == "s" and a[2] == "array":
                    return ("k", len(a[1]))
                return mk(("op", "len", a[1]), a[2]) if a[0] == "o" else TOP
            return TOP if a[0] != "o" else mk(("op", v["op"], a[1]), a[2])
        if r == "repeat":
            return mk(("top",), labels(self.operand(st, v["o"]), st))
        if r == "tls":
            return mk(("static", v["static"]))
        if r == "havoc":
            ls = EMPTY
            for o in v["from"]:
                ls = ls | labels(self.operand(st, o), st)
            t = v["call"]
            if v.get("item") and hasattr(self.mon, "new_item"):
                x = self.mon.new_item(self, st, v)
                if x is not None:
                    return x
            m = getattr(self.mon, "closure_arg", None)
            if m:
                x = m(self, st, v, [self.operand(st, o) for o in t["args"]])
                if x is not None:
                    return x
            tag = ("cb", t.get("bid"), v["ai"])
            self.kill(st, tag)
            return mk(tag, ls)
        if r == "cloref":
            o = v["o"]
            if o[0] in "cm":
                # closures are called by reference or by value; both project alike
                return ("r", o[1][0], o[1][1])
            return self.const(o[1])
        if r == "unit":
            return ("o", ("unit",), EMPTY)
        return TOP

    def _inlocal(self, st, q):
        """is the place physically inside a local (not behind an opaque)?"""
        v = st.local(q[0])
        for e in q[1]:
            if v[0] == "o":
                return False
            v = st.proj1(v, e)
        return True

    def _capnames(self, key, n):
        f = self.prog.fns.get(key)
        names = [str(i) for i in range(n)]
        if f is not None and f.body:
            for b in mir.walk(f.body):
                if isinstance(b, list) and len(b) == 5 and b[0] == "f" and b[3] == "closure:" + key:
                    if b[1] < n:
                        names[b[1]] = b[2]
        return names

    _enums = None

    def enums(self):
        if self._enums is None:
            self._enums = {p for p, a in self.prog.adts.items() if a["enum"]} | {
                "core::option::Option", "core::result::Result",
                "core::ops::control_flow::ControlFlow", "alloc::borrow::Cow",
                "core::cmp::Ordering"}
        return self._enums

    def neg(self, st, a):
        if a[0] == "k" and a[1] in (0, 1):
            return ("k", 1 - a[1])
        if a[0] == "o":
            if a[1][0] == "not":
                return ("o", a[1][1], a[2])
            return mk(("not", a[1]), a[2])
        return TOP

    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
           "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}

    def binop(self, st, op, a, b):
        a, b = self.val(st, a), self.val(st, b)
        ls = labels(a, st) | labels(b, st)
        if op in self.CMP:
            if a[0] == "k" and b[0] == "k" and type(a[1]) == type(b[1]):
                return ("k", int(self.CMP[op](a[1], b[1])))
            if a[0] == "e" and b[0] == "e" and op in ("Eq", "Ne") and not a[2] and not b[2]:
                return ("k", int((a[1] == b[1]) == (op == "Eq")))
        if op in ("BitAnd", "BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "k" and x[1] in (0, 1):
                    if op == "BitAnd":
                        return y if x[1] else ("k", 0)
                    if op == "BitOr":
                        return ("k", 1) if x[1] else y
                    if op == "BitXor":
                        return self.neg(st, y) if x[1] else y
        ta = self._t(a)
        tb = self._t(b)
        t = ("op", op, ta, tb)
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            if self.fold and a[0] == "k" and b[0] == "k" and base in ("Add", "Sub", "Mul"):
                return ("s", (("0", self.binop(st, base, a, b)), ("1", ("k", 0))), "tuple")
            return ("s", (("0", mk(("op", base, ta, tb), ls)), ("1", ("k", 0))), "tuple")
        if self.fold and a[0] == "k" and b[0] == "k" and op in ("Add", "Sub", "Mul"):
            x, y = a[1], b[1]
            return ("k", x + y if op == "Add" else x - y if op == "Sub" else x * y)
        if self.fold and a[0] == "k" and b[0] == "k" and op in ("Rem", "Div") and isinstance(b[1], int) and b[1] > 0 \
                and isinstance(a[1], int) and a[1] >= 0:
            return ("k", a[1] % b[1] if op == "Rem" else a[1] // b[1])
        return mk(t, ls)

    def _t(self, v):
        if v[0] == "o":
            return v[1]
        if v[0] == "k":
            return ("k", v[1])
        if v[0] == "e":
            return ("e", v[1])
        return ("agg",)

    # ---- branching on a value; yields (state, truth) pairs
    def branch_bool(self, st, v):
        """-> list of (state, bool)"""
        v = self.val(st, v)
        if v[0] == "k":
            return [(st, bool(v[1]))]
        if v[0] != "o" or v[1] == ("top",):
            return [(st, True), (st.copy(), False)]
        return self._bb(st, v[1])

    def _bb(self, st, tag):
        if tag[0] == "not":
            return [(s, not b) for s, b in self._bb(st, tag[1])]
        cur = st.ass.get(tag)
        if cur is not None and not isinstance(cur, str):
            return [(st, bool(cur))]
        if tag[0] == "k":
            return [(st, bool(tag[1]))]
        if tag[0] == "op" and tag[1] in ("BitAnd", "BitOr") and len(tag) == 4:
            out = []
            for s, b in self._bb(st, tag[2]):
                if tag[1] == "BitAnd" and not b:
                    out.append((s, False))
                elif tag[1] == "BitOr" and b:
                    out.append((s, True))
                else:
                    out += self._bb(s, tag[3])
            return out
        if tag[0] == "op" and tag[1] == "BitXor" and len(tag) == 4:
            out = []
            for s, b in self._bb(st, tag[2]):
                for s2, c in self._bb(s, tag[3]):
                    out.append((s2, b != c))
            return out
        if tag[0] == "op" and len(tag) == 4 and tag[1] in ("Eq", "Ne") and tag[2][0] == "k" and tag[3][0] != "k":
            tag = ("op", tag[1], tag[3], tag[2])
        if tag[0] == "op" and len(tag) == 4 and tag[3][0] == "k" and isinstance(tag[3][1], int) \
                and (tag[1], tag[3][1]) in self.ZERO:
            # equality with a constant, and the unsigned comparisons that mean "is zero"
            c, pol = self.ZERO[(tag[1], tag[3][1])]
            if c is None:
                c = tag[3][1]
            cur = st.ass.get(tag[2])
            if cur is not None and not isinstance(cur, str):
                return [(st, (cur == c) == pol)]
            out = []
            s1 = st.copy()
            if s1.assume(tag[2], c):
                out.append((s1, pol))
            s2 = st.copy()
            if s2.assume_not(tag[2], (c,)):
                out.append((s2, not pol))
            return out
        if tag[0] == "isv":  # ('isv', basetag, variant) : discriminant test as bool
            out = []
            s1 = st.copy()
            if s1.assume(tag[1], tag[2]):
                out.append((s1, True))
            s2 = st.copy()
            others = tag[3]
            if len(others) == 1:
                if s2.assume(tag[1], others[0]):
                    out.append((s2, False))
            elif s2.assume_not(tag[1], (tag[2],)):
                out.append((s2, False))
            return out
        out = []
        s1 = st.copy()
        if s1.assume(tag, 1):
            out.append((s1, True))
        s2 = st.copy()
        if s2.assume(tag, 0):
            out.append((s2, False))
        return out

    class _Zero(dict):
        def __contains__(self, k):
            return k[0] in ("Eq", "Ne") or dict.__contains__(self, k)

        def __getitem__(self, k):
            if k[0] in ("Eq", "Ne"):
                return (None, k[0] == "Eq")
            return dict.__getitem__(self, k)

    ZERO = _Zero({("Gt", 0): (0, False), ("Ge", 1): (0, False), ("Lt", 1): (0, True), ("Le", 0): (0, True)})

    def switch(self, st, t):
        v = self.val(st, self.operand(st, t["o"]))
        if v[0] == "k":
            for c, to in t["cases"]:
                if c == v[1]:
                    return [(st, to)]
            return [(st, t["else"])]
        if v[0] == "o" and v[1][0] == "d":
            base, vs = v[1][1], dict(v[1][2])
            out = []
            taken = []
            for c, to in t["cases"]:
                nm = vs.get(c)
                taken.append(nm)
                s = st.copy()
                if s.assume(base, nm):
                    out.append((s, to))
            rest = [n for n in vs.values() if n not in taken]
            ne = st.ass.get(("ne", base)) or ()
            rest = [n for n in rest if n not in ne]
            if rest:
                s = st.copy()
                if len(rest) == 1:
                    if s.assume(base, rest[0]):
                        out.append((s, t["else"]))
                else:
                    if s.assume_not(base, taken):
                        out.append((s, t["else"]))
            return out
        if t.get("oty") == "bool":
            tgt = {}
            for c, to in t["cases"]:
                tgt[bool(c)] = to
            out = []
            for s, b in self.branch_bool(st, v):
                out.append((s, tgt.get(b, t["else"])))
            return out
        out = []
        if v[0] == "o" and v[1] != ("top",):
            cur = st.ass.get(v[1])
            if cur is not None and not isinstance(cur, str):
                for c, to in t["cases"]:
                    if c == cur:
                        return [(st, to)]
                return [(st, t["else"])]
            for c, to in t["cases"]:
                s = st.copy()
                if s.assume(v[1], c):
                    out.append((s, to))
            s = st.copy()
            if s.assume_not(v[1], [c for c, _ in t["cases"]]):
                out.append((s, t["else"]))
            return out
        for c, to in t["cases"]:
            out.append((st.copy(), to))
        out.append((st.copy(), t["else"]))
        return out

    # ---- calls
    def fresh(self, st, call, extra=EMPTY):
        """opaque result of a call; the site's previous assumptions die"""
        tag = ("call", call.site, call.path)
        self.kill(st, tag)
        ls = extra
        for a in call.args:
            ls = ls | labels(a, st)
        if ls and is_cut(call):
            ls = ls | {"cut"}
        for off, ck in call.t.get("clorets", []):
            ls = ls | labels(st.local(off), st)
        return ("o", tag, ls)

    def kill(self, st, tag):
        def has(t):
            if t == tag:
                return True
            if isinstance(t, tuple):
                for x in t:
                    if isinstance(x, tuple) and has(x):
                        return True
            return False
        for t in [t for t in st.ass if has(t)]:
            del st.ass[t]
        for t in [t for t in st.heap if has(t)]:
            del st.heap[t]

    def havoc_muts(self, st, call):
        """&mut arguments of an unknown call lose constants, gain labels"""
        ls = EMPTY
        for a in call.args:
            ls = ls | labels(a, st)
        if ls and is_cut(call):
            ls = ls | {"cut"}
        fn = self.g
        for i, (o, a) in enumerate(zip(call.t["args"], call.args)):
            if a[0] != "r":
                continue
            if o[0] not in "cm":
                continue
            l = o[1][0]
            ty = self.g.locals[l][0]
            if o[1][1] or not ty.startswith("&mut") and "&mut" not in ty and "&'_ mut" not in ty:
                continue
            cur = st.read((a[1], a[2]))
            if cur[0] == "o":
                if not ls <= cur[2]:
                    st.write((a[1], a[2]), ("o", cur[1], cur[2] | ls))
                continue
            if cur[0] == "r":
                continue
            st.write((a[1], a[2]), mk(("mut", call.site, i), ls | labels(cur, st)))

    def call(self, st, t, blk):
        """-> list of (state, value)"""
        args = [self.operand(st, a) for a in t["args"]]
        c = Call(t, args, blk["fn"])
        if self.mon is not None:
            r = self.mon.call(self, st, c)
            if r is not None:
                return r
        m = MODELS.get(c.path) or MODELS.get(c.rpath)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        v = self.fresh(st, c)
        self.havoc_muts(st, c)
        return [(st, v)]

    # ---- fixpoint
    def run(self):
        st = State(self, {}, {}, {}, self.mon.init() if self.mon else None)
        for l, name in [(a, self.g.locals[a][1]) for a in self.g.args]:
            v = self.init.get(name)
            if v is None:
                v = self.init.get(l)
            if v is None:
                v = ("o", ("p", name or str(l)), EMPTY)
            st.env[l] = v
        for l, v in self.init.items():
            if isinstance(l, int) and l > 0:
                st.env[l] = v
        for tag, v in (self.init.get("assume") or {}).items():
            st.ass[tag] = v
        for tag, v in (self.init.get("heap") or {}).items():
            st.heap[tag] = v
        seen = {}
        buckets = self.buckets = {}
        work = deque([(self.g.entry, st, None)])
        n = 0
        while work:
            bid, st, par = work.pop()
            # prune to live locals
            live = self.live[bid]
            gone = self.gone[bid]
            env = {l: v for l, v in st.env.items() if l in live or l in self.borrowed and l not in gone}
            st = State(self, env, st.heap, st.ass, st.mon)
            for l in self.dropflags:
                env.pop(l, None)
            if self.trim is not None:
                self.trim(self, st, bid)
            self.prune(st)
            k = st.key()
            ss = seen.setdefault(bid, {})
            if k in ss:
                continue
            bk = (bid, st.mon, frozenset(st.ass.items()),
                  frozenset((l, shape(v)) for l, v in env.items() if v[0] == "e"))
            b = buckets.setdefault(bk, [0, None])
            b[0] += 1
            if b[0] > self.K:
                j = st if b[1] is None else join_states(b[1], st)
                if b[1] is not None and j.key() == b[1].key():
                    continue
                b[1] = j
                st = j.copy()
                k = st.key()
                if k in ss:
                    continue
            if par is not None and self.cutoff is not None and self.cutoff(self, st, bid):
                continue
            n += 1
            if n > self.maxstates:
                raise Overflow("state budget exceeded in %s" % self.g.root.path)
            node = (bid, par)
            ss[k] = node
            self.visited_blocks.add(bid)
            blk = self.g.blocks[bid]
            st = st.copy()
            for (p, v, sp) in blk["s"]:
                if v["r"] == "setd":
                    continue
                if self.mon is not None and hasattr(self.mon, "stmt"):
                    self.mon.stmt(self, st, p, v, sp, blk)
                st.write(p, self.rvalue(st, v, bid, blk))
                if self.post is not None:
                    self.post(self, st, p, v)
            if st.dead:
                continue
            t = blk["t"]
            for s2, to in self.step(st, t, blk, node):
                work.append((to, s2, node))
        self.nstates = n
        return self

    def prune(self, st):
        """drop call-site assumptions no longer referenced by the environment"""
        if not st.ass and not st.heap:
            return
        roots = set()

        def collect(v, d=0):
            if d > 5:
                return
            if v[0] == "o":
                t = v[1]
                add(t)
            elif v[0] == "s":
                for _, x in v[1]:
                    collect(x, d + 1)
            elif v[0] == "e":
                for _, x in v[2]:
                    collect(x, d + 1)

        def add(t):
            if isinstance(t, tuple):
                if t and t[0] in ("call", "cb", "mut"):
                    roots.add(t)
                    return
                for x in t:
                    if isinstance(x, tuple):
                        add(x)

        for v in st.env.values():
            collect(v)
        for v in st.heap.values():
            collect(v)
        if st.mon is not None and hasattr(self.mon, "roots"):
            for t in self.mon.roots(st.mon):
                add(t)

        def croot(t):
            out = []
            if isinstance(t, tuple):
                if t and t[0] in ("call", "cb", "mut"):
                    return [t]
                for x in t:
                    if isinstance(x, tuple):
                        out += croot(x)
            return out
        dead = [t for t in st.ass if any(r not in roots for r in croot(t))]
        if dead:
            st.ass = {t: v for t, v in st.ass.items() if t not in set(dead)}
        dead = [t for t in st.heap if any(r not in roots for r in croot(t))]
        if dead:
            st.heap = {t: v for t, v in st.heap.items() if t not in set(dead)}

    def step(self, st, t, blk, node):
        k = t["t"]
        if k == "goto":
            if self.mon is not None:
                for h in ("exhausted", "counted"):
                    if t.get(h) and hasattr(self.mon, h):
                        self.cur = node
                        getattr(self.mon, h)(self, st, t)
            if st.dead:
                return []
            return [(st, t["to"])]
        if k == "nondet":
            return [(st.copy(), x) for x in t["to"]]
        if k == "switch":
            return self.switch(st, t)
        if k == "drop":
            if self.mon is not None and hasattr(self.mon, "drop"):
                self.mon.drop(self, st, t, blk, node)
            return [(st, t["to"])]
        if k == "assert":
            return [(st, t["to"])]
        if k == "call":
            self.cur = node
            out = []
            for s, v in self.call(st, t, blk):
                if "to" not in t:
                    if self.mon is not None and hasattr(self.mon, "diverge"):
                        self.mon.diverge(self, s, t, node)
                    continue
                if v is not None:
                    s.write(t["d"], v)
                out.append((s, t["to"]))
            return out
        if k == "return":
            self.exits.append((st, st.local(0), node))
            if self.mon is not None and hasattr(self.mon, "exit"):
                self.mon.exit(self, st, st.local(0), node)
            return []
        return []

    def trace(self, node, limit=40):
        """source lines along the discovered path to node"""
        out = []
        while node is not None:
            bid, node = node
            sp = self.g.blocks[bid]["t"].get("sp")
            if sp and (not out or out[-1] != sp):
                out.append(sp)
        out.reverse()
        if len(out) > limit:
            out = out[:10] + ["..."] + out[-(limit - 10):]
        return out


class Overflow(Exception):
    pass


# ------------------------------------------------------------------ models
MODELS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def ok(v):
    return ("e", "Ok", (("0", v),))


def variants2(ai, st, v, pos, neg):
    """split an Option/Result-like value: -> [(state, variant, payload)]"""
    v = ai.val(st, v)
    if v[0] == "e":
        return [(st, v[1], getf(v[2], "0") or ("s", (), "tuple"))]
    if v[0] == "o" and v[1] != ("top",):
        out = []
        for nm in (pos, neg):
            s = st.copy()
            if s.assume(v[1], nm):
                out.append((s, nm, s.proj1(mk(("v", v[1], nm), v[2]), ("f", 0, "0", "", ""))))
        return out
    return [(st, pos, TOP), (st.copy(), neg, TOP)]


@model("core::ops::try_trait::Try::branch")
def _branch(ai, st, c):
    if "option::Option" in c.self_ty.split("<")[0]:
        out = []
        for s, nm, p in variants2(ai, st, c.args[0], "Some", "None"):
            out.append((s, ("e", "Continue", (("0", p),)) if nm == "Some"
                        else ("e", "Break", (("0", ("e", "None", ())),))))
        return out
    if "result::Result" not in c.self_ty.split("<")[0]:
        return None
    out = []
    for s, nm, p in variants2(ai, st, c.args[0], "Ok", "Err"):
        if nm == "Ok":
            out.append((s, ("e", "Continue", (("0", p),))))
        else:
            out.append((s, ("e", "Break", (("0", ("e", "Err", (("0", p),))),))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def _resid(ai, st, c):
    return [(st, c.args[0])]


def passthru(ai, st, c):
    return [(st, c.args[0])]


for _p in ("core::convert::Into::into", "core::convert::From::from",
           "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
           "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
           "core::borrow::Borrow::borrow", "core::clone::Clone::clone",
           "alloc::borrow::ToOwned::to_owned", "core::iter::traits::collect::IntoIterator::into_iter",
           "core::hint::must_use", "alloc::boxed::Box::<T>::new"):
    MODELS[_p] = None


def deref_model(ai, st, c):
    a = c.args[0]
    v = ai.val(st, a)
    if v[0] in ("o",):
        return [(st, v)]
    return [(st, a)]


for _p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
           "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
           "core::borrow::Borrow::borrow", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
           "alloc::string::String::as_str"):
    MODELS[_p] = deref_model


def clone_model(ai, st, c):
    return [(st, ai.val(st, c.args[0]))]


for _p in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned"):
    MODELS[_p] = clone_model
for _p in ("core::convert::Into::into", "core::convert::From::from",
           "core::iter::traits::collect::IntoIterator::into_iter",
           "core::hint::must_use", "alloc::boxed::Box::<T>::new"):
    MODELS[_p] = passthru


def is_variant(pos, neg, want):
    def f(ai, st, c):
        v = ai.val(st, c.args[0])
        if v[0] == "e":
            return [(st, ("k", int(v[1] == want)))]
        if v[0] == "o" and v[1] != ("top",):
            cur = st.ass.get(v[1])
            if isinstance(cur, str):
                return [(st, ("k", int(cur == want)))]
            other = neg if want == pos else pos
            return [(st, ("o", ("isv", v[1], want, (other,)), v[2]))]
        return None
    return f


MODELS["core::option::Option::<T>::is_some"] = is_variant("Some", "None", "Some")
MODELS["core::option::Option::<T>::is_none"] = is_variant("Some", "None", "None")
MODELS["core::result::Result::<T, E>::is_ok"] = is_variant("Ok", "Err", "Ok")
MODELS["core::result::Result::<T, E>::is_err"] = is_variant("Ok", "Err", "Err")


def unwrap_model(pos, neg):
    def f(ai, st, c):
        out = []
        for s, nm, p in variants2(ai, st, c.args[0], pos, neg):
            if nm == pos:
                out.append((s, p))
            elif ai.mon is not None and hasattr(ai.mon, "panic"):
                ai.mon.panic(ai, s, c)
        return out
    return f


for _n in ("unwrap", "expect"):
    MODELS["core::option::Option::<T>::" + _n] = unwrap_model("Some", "None")
    MODELS["core::result::Result::<T, E>::" + _n] = unwrap_model("Ok", "Err")


def wrap_variant(pos, neg, mapping):
    """e.g. Result::ok: Ok(x)->Some(x), Err->None"""
    def f(ai, st, c):
        out = []
        for s, nm, p in variants2(ai, st, c.args[0], pos, neg):
            to, keep = mapping[nm]
            out.append((s, ("e", to, (("0", p),) if keep else ())))
        return out
    return f


MODELS["core::result::Result::<T, E>::ok"] = wrap_variant("Ok", "Err", {"Ok": ("Some", True), "Err": ("None", False)})
MODELS["core::result::Result::<T, E>::err"] = wrap_variant("Ok", "Err", {"Err": ("Some", True), "Ok": ("None", False)})


def as_ref_model(ai, st, c):
    v = ai.val(st, c.args[0])
    return [(st, v)] if v[0] in ("o", "e") else None


for _n in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied"):
    MODELS["core::option::Option::<T>::" + _n] = as_ref_model
    MODELS["core::result::Result::<T, E>::" + _n] = as_ref_model
for _n in ("cloned", "copied"):
    MODELS["core::option::Option::<&T>::" + _n] = as_ref_model
    MODELS["core::option::Option::<&mut T>::" + _n] = as_ref_model


def map_err_model(ai, st, c):
    out = []
    for s, nm, p in variants2(ai, st, c.args[0], "Ok", "Err"):
        out.append((s, ("e", nm, (("0", p),))))
    return out


MODELS["core::result::Result::<T, E>::map_err"] = map_err_model


def map_model(pos, neg):
    def f(ai, st, c):
        out = []
        for s, nm, p in variants2(ai, st, c.args[0], pos, neg):
            if nm == pos:
                r = None
                for off, ck in c.t.get("clorets", []):
                    r = s.env.get(off)
                out.append((s, ("e", pos, (("0", r or mk(("top",), labels(p, s))),))))
            else:
                out.append((s, ("e", neg, (("0", p),) if neg == "Err" else ())))
        return out
    return f


MODELS["core::result::Result::<T, E>::map"] = map_model("Ok", "Err")
MODELS["core::option::Option::<T>::map"] = map_model("Some", "None")


def ok_or(ai, st, c):
    out = []
    for s, nm, p in variants2(ai, st, c.args[0], "Some", "None"):
        out.append((s, ok(p) if nm == "Some" else ("e", "Err", (("0", mk(("top",))),))))
    return out


MODELS["core::option::Option::<T>::ok_or"] = ok_or
MODELS["core::option::Option::<T>::ok_or_else"] = ok_or


def cmp_model(op):
    def f(ai, st, c):
        a = ai.val(st, c.args[0])
        b = ai.val(st, c.args[1])
        return [(st, ai.binop(st, op, a, b))]
    return f


for _tr, _m in (("PartialEq", {"eq": "Eq", "ne": "Ne"}),
                ("PartialOrd", {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"})):
    for _n, _o in _m.items():
        MODELS["core::cmp::%s::%s" % (_tr, _n)] = cmp_model(_o)


@model("core::ops::bit::Not::not")
def _not(ai, st, c):
    return [(st, ai.neg(st, ai.val(st, c.args[0])))]


for _n, _o in (("bitand::BitAnd::bitand", "BitAnd"), ("BitAnd::bitand", "BitAnd"),
               ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor")):
    MODELS["core::ops::bit::" + _n] = cmp_model(_o)


def _unwrap_or(ai, st, c):
    v = ai.val(st, c.args[0])
    pos, neg = ("Ok", "Err") if "result::Result" in c.path else ("Some", "None")
    return [(s, p if nm == pos else c.args[1]) for s, nm, p in variants2(ai, st, v, pos, neg)]


MODELS["core::option::Option::<T>::unwrap_or"] = _unwrap_or
MODELS["core::result::Result::<T, E>::unwrap_or"] = _unwrap_or


def _or(ai, st, c):
    out = []
    for s, nm, p in variants2(ai, st, c.args[0], "Some", "None"):
        out.append((s, ("e", "Some", (("0", p),)) if nm == "Some" else ai.val(s, c.args[1])))
    return out


MODELS["core::option::Option::<T>::or"] = _or


@model("core::bool::<impl bool>::then_some")
def _then_some(ai, st, c):
    out = []
    for s, b in ai.branch_bool(st, c.args[0]):
        out.append((s, ("e", "Some", (("0", c.args[1]),)) if b else ("e", "None", ())))
    return out
