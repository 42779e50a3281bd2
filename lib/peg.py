"""Parser combinator terms, read off the MIR of the parser functions, and their
languages.

The combinators of the parsing library are constructors: evaluating a parser
function abstractly yields the term it builds, without running it on any input.
Terms whose choices are decided by the next byte denote a regular language,
which is compared with a specification exactly (subset construction).
"""
import ai, mir

W = "winnow::"
PRED = {
    "is_ascii_digit": lambda b: 48 <= b <= 57, "is_dec_digit": lambda b: 48 <= b <= 57,
    "is_ascii_uppercase": lambda b: 65 <= b <= 90, "is_ascii_lowercase": lambda b: 97 <= b <= 122,
    "is_ascii_alphabetic": lambda b: 65 <= b <= 90 or 97 <= b <= 122, "is_alpha": lambda b: 65 <= b <= 90 or 97 <= b <= 122,
    "is_ascii_alphanumeric": lambda b: 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122,
    "is_alphanum": lambda b: 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122,
    "is_ascii_hexdigit": lambda b: 48 <= b <= 57 or 65 <= b <= 70 or 97 <= b <= 102,
    "is_hex_digit": lambda b: 48 <= b <= 57 or 65 <= b <= 70 or 97 <= b <= 102,
    "is_space": lambda b: b in (32, 9), "is_newline": lambda b: b == 10,
    "is_ascii_whitespace": lambda b: b in (32, 9, 10, 12, 13), "is_ascii": lambda b: b < 128,
    "is_ascii_control": lambda b: b < 32 or b == 127, "is_ascii_punctuation": lambda b: 33 <= b <= 47 or 58 <= b <= 64
    or 91 <= b <= 96 or 123 <= b <= 126, "is_ascii_graphic": lambda b: 33 <= b <= 126,
}


class Unknown(Exception):
    pass


class Term:
    n = 0

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
        Term.n += 1
        self.id = Term.n

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(show(x) for x in self.a))


def show(x):
    if isinstance(x, frozenset):
        return showset(x)
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], Term):
        return "[" + ", ".join(map(repr, x)) + "]"
    return repr(x)[:60]


def showset(s):
    if len(s) > 128:
        return "^" + showset(frozenset(range(256)) - s)
    return repr(bytes(sorted(s)))


ALL = frozenset(range(256))


class Peg:
    def __init__(self, prog, crate="pica_record", sig="&mut &"):
        self.prog = prog
        self.crate = crate
        self.memo = {}
        self.busy = set()
        self.terms = {}
        self.sets = {}
        self.fnof = {f.path.replace("::<'_>", "").replace("::<'a>", ""): f for f in prog.fns.values() if f.crate == crate and f.body}

    # ---- terms of functions
    def find(self, path):
        import re
        p = re.sub(r"::<[^<>]*>", "", path)
        for f in self.prog.fns.values():
            if f.crate == self.crate and f.body and re.sub(r"::<[^<>]*>", "", f.path) == p:
                return f
        return None

    def fn(self, f):
        """term of a parser function"""
        if f.key in self.memo:
            return self.memo[f.key]
        if f.key in self.busy:
            return Term("rec", f.key)
        self.busy.add(f.key)
        try:
            t = self.body(f, {1: ("o", ("in",), ai.EMPTY)})
        finally:
            self.busy.discard(f.key)
        self.memo[f.key] = t
        return t

    def body(self, f, init, caps=None):
        m = Mon(self)
        g = mir.flatten(self.prog, f, inline=lambda h: False, callbacks=False)
        a = ai.AI(self.prog, g, m, init=init)
        a.run()
        oks = m.ok
        if m.unknown:
            raise Unknown(m.unknown)
        if len(oks) != 1:
            raise Unknown("%s: %d ways to succeed" % (f.path, len(oks)))
        terms, out = list(oks)[0]
        terms = [self.terms[i] for i in terms]
        if len(terms) == 1 and out == self.out(terms[0]):
            return terms[0]
        return self.reg(Term("seqo", tuple(terms), out))

    def reg(self, t):
        self.terms[t.id] = t
        return t

    # ---- values as parsers
    def parser(self, v):
        """term denoted by a value used as a parser"""
        if v[0] == "s" and v[2].startswith("pt:"):
            return self.terms[v[1][0][1][1]]
        if v[0] == "k" and isinstance(v[1], str) and v[1].startswith("fn:"):
            f = self.find(v[1][3:])
            if f is None:
                return self.std(v[1][3:])
            return self.fn(f)
        if v[0] == "k":
            x = v[1]
            b = bytes([x]) if isinstance(x, int) and x < 128 else chr(x).encode() if isinstance(x, int) else \
                x.encode() if isinstance(x, str) else bytes(x)
            return self.reg(Term("lit", b))
        if v[0] == "s" and v[2] in ("tuple", "array"):
            return self.reg(Term("seq", tuple(self.parser(x) for _, x in v[1])))
        if v[0] == "s" and v[2].startswith("closure:"):
            f = self.prog.fns.get(v[2][8:])
            if f is not None and f.body["argc"] == 2:
                return self.body(f, {1: v, 2: ("o", ("in",), ai.EMPTY)})
        raise Unknown("parser %s" % str(v)[:80])

    def std(self, path):
        n = path.rsplit("::", 1)[-1]
        ws = frozenset([32, 9, 10, 13])
        r = {"multispace0": ("many", 0, None, ws), "multispace1": ("many", 1, None, ws),
             "space0": ("many", 0, None, frozenset([32, 9])), "space1": ("many", 1, None, frozenset([32, 9])),
             "digit0": ("many", 0, None, frozenset(range(48, 58))), "digit1": ("many", 1, None, frozenset(range(48, 58))),
             "newline": ("set", frozenset([10])), "empty": ("seq", ()), "eof": ("eof",),
             "rest": ("many", 0, None, ALL), "any": ("set", ALL),
             "alpha1": ("many", 1, None, frozenset(b for b in range(256) if PRED["is_alpha"](b))),
             "alphanumeric1": ("many", 1, None, frozenset(b for b in range(256) if PRED["is_alphanum"](b))),
             "hex_digit1": ("many", 1, None, frozenset(b for b in range(256) if PRED["is_hex_digit"](b)))}.get(n)
        if path.startswith(W) and r:
            return self.reg(Term(*r))
        raise Unknown("parser %s" % path)

    def range(self, v):
        if v[0] == "k" and isinstance(v[1], int):
            return v[1], v[1]
        if v[0] == "s":
            d = dict(v[1])
            g = lambda x: x[1] if x[0] == "k" and isinstance(x[1], int) else None
            if v[2].endswith("RangeFrom"):
                return g(d["start"]), None
            if v[2].endswith("RangeFull"):
                return 0, None
            if v[2].endswith("RangeInclusive"):
                return g(d["start"]), g(d["end"])
            if v[2].endswith("RangeToInclusive"):
                return 0, g(d["end"])
            if v[2].endswith("Range") and g(d["end"]) is not None:
                return g(d["start"]), g(d["end"]) - 1
        raise Unknown("repetition %s" % str(v)[:80])

    def set(self, v):
        """set of bytes denoted by a token set"""
        if v[0] == "k":
            x = v[1]
            if isinstance(x, int):
                return frozenset([x])
            if isinstance(x, tuple):
                return frozenset(x)
            if isinstance(x, str) and x.startswith("fn:"):
                n = x.rsplit("::", 1)[-1]
                f = self.find(x[3:])
                if f is not None:
                    return self.setof(f, None)
                if n in PRED:
                    return frozenset(b for b in range(256) if PRED[n](b))
                raise Unknown("set %s" % x)
            return frozenset(x.encode())
        if v[0] == "s" and v[2] in ("tuple", "array"):
            r = frozenset()
            for _, x in v[1]:
                r = r | self.set(x)
            return r
        if v[0] == "s" and "ops::range::Range" in v[2]:
            lo, hi = self.range(v)
            return frozenset(range(lo, (255 if hi is None else hi) + 1))
        if v[0] == "s" and v[2].startswith("closure:"):
            f = self.prog.fns.get(v[2][8:])
            if f is not None:
                return self.setof(f, v)
        raise Unknown("set %s" % str(v)[:80])

    def setof(self, f, env):
        k = (f.key, env)
        if k not in self.sets:
            self.sets[k] = frozenset(b for b in range(256) if self.test(f, env, ("k", b)))
        return self.sets[k]

    _g = None

    def flat(self, f):
        if self._g is None:
            self._g = {}
        if f.key not in self._g:
            self._g[f.key] = mir.flatten(self.prog, f, inline=lambda h: h.crate == f.crate)
        return self._g[f.key]

    def test(self, f, env, arg):
        """value of a predicate of one known byte or character"""
        m = Const()
        init = {1: env, 2: arg} if f.is_closure else {1: arg}
        a = ai.AI(self.prog, self.flat(f), m, init=init)
        a.run()
        if len(m.out) != 1 or list(m.out)[0][0] != "k":
            raise Unknown("predicate %s" % f.path)
        return bool(list(m.out)[0][1])

    def apply(self, v, args):
        """result of a mapping function on a structured value, if it is a single one"""
        if v[0] == "k" and isinstance(v[1], str) and v[1].startswith("fn:"):
            p = v[1][3:]
            f = self.find(p)
            if f is None:
                import re
                q = re.sub(r"::<[^<>]*>", "", p)
                ad = self.prog.adts.get(q)
                if ad is not None and not ad["enum"]:
                    return ("s", tuple((str(i), x) for i, x in enumerate(args)), q)
                e = q.rsplit("::", 1)
                if len(e) == 2 and (e[0] in self.prog.adts or e[0].startswith("core::option")):
                    return ("e", e[1], tuple((str(i), x) for i, x in enumerate(args)))
                return ai.mk(("app", q) + tuple(x[1] if x[0] == "o" else ("?",) for x in args))
            init = {i + 1: x for i, x in enumerate(args)}
        elif v[0] == "s" and v[2].startswith("closure:"):
            f = self.prog.fns[v[2][8:]]
            init = {1: v}
            for i, x in enumerate(args):
                init[2 + i] = x
        else:
            raise Unknown("mapping %s" % str(v)[:60])
        m = Const()
        g = mir.flatten(self.prog, f, inline=lambda h: h.crate == self.crate)
        a = ai.AI(self.prog, g, m, init=init)
        a.run()
        if len(m.out) == 1:
            return list(m.out)[0]
        return ai.mk(("choice", f.key))

    # ---- outputs
    def out(self, t):
        k = t.kind
        o = lambda x: ("o", (x, t.id), ai.EMPTY)
        if k == "set":
            return o("byte")
        if k in ("many", "lit", "take"):
            return o("slice")
        if k == "seq":
            return ("s", tuple((str(i), self.out(x)) for i, x in enumerate(t.a[0])), "tuple")
        if k == "seqo":
            return t.a[1]
        if k == "pick":
            return self.out(t.a[0][t.a[1]]) if isinstance(t.a[1], int) else \
                ("s", tuple((str(i), self.out(t.a[0][j])) for i, j in enumerate(t.a[1])), "tuple")
        if k in ("opt", "rep", "alt", "sep"):
            return o({"opt": "opt", "rep": "list", "sep": "list", "alt": "alt"}[k])
        if k == "map":
            return self.apply(t.a[1], [self.out(t.a[0])])
        if k in ("verify", "cut"):
            return self.out(t.a[0])
        if k == "value":
            return t.a[1]
        if k in ("void", "not", "peek", "eof"):
            return ("s", (), "tuple")
        return o(k)

    # ---- languages
    def nullable(self, t):
        k = t.kind
        if k == "set":
            return False
        if k == "lit":
            return not t.a[0]
        if k == "many":
            return t.a[0] == 0
        if k in ("seq", "seqo", "pick"):
            return all(self.nullable(x) for x in t.a[0])
        if k == "alt":
            return any(self.nullable(x) for x in t.a[0])
        if k == "opt":
            return True
        if k == "rep":
            return t.a[0] == 0 or self.nullable(t.a[2])
        if k in ("map", "take", "value", "void", "cut"):
            return self.nullable(t.a[0])
        raise Unknown("language of %s" % k)

    def first(self, t):
        k = t.kind
        if k == "set":
            return t.a[0]
        if k == "lit":
            return frozenset(t.a[0][:1])
        if k == "many":
            return t.a[2]
        if k in ("seq", "seqo", "pick"):
            r = frozenset()
            for x in t.a[0]:
                r = r | self.first(x)
                if not self.nullable(x):
                    break
            return r
        if k == "alt":
            return frozenset().union(*[self.first(x) for x in t.a[0]])
        if k == "opt":
            return self.first(t.a[0])
        if k == "rep":
            return self.first(t.a[2])
        if k in ("map", "take", "value", "void", "cut"):
            return self.first(t.a[0])
        raise Unknown("language of %s" % k)

    def greedy(self, t, follow, out):
        """choices not decided by the next byte"""
        k = t.kind
        if k == "many":
            if t.a[1] != t.a[0] and t.a[2] & follow:
                out.append((t, t.a[2] & follow))
        elif k in ("seq", "seqo", "pick"):
            xs = t.a[0]
            for i, x in enumerate(xs):
                f = frozenset()
                for y in xs[i + 1:]:
                    f = f | self.first(y)
                    if not self.nullable(y):
                        break
                else:
                    f = f | follow
                self.greedy(x, f, out)
        elif k == "alt":
            seen = frozenset()
            for x in t.a[0]:
                f = self.first(x) | (follow if self.nullable(x) else frozenset())
                if f & seen:
                    out.append((t, f & seen))
                seen = seen | f
                self.greedy(x, follow, out)
        elif k == "opt":
            f = self.first(t.a[0])
            if f & follow:
                out.append((t, f & follow))
            self.greedy(t.a[0], follow, out)
        elif k == "rep":
            f = self.first(t.a[2])
            if t.a[1] != t.a[0] and f & follow:
                out.append((t, f & follow))
            if self.nullable(t.a[2]):
                out.append((t, frozenset()))
            self.greedy(t.a[2], follow | f, out)
        elif k in ("map", "take", "value", "void", "cut"):
            self.greedy(t.a[0], follow, out)
        return out

    def regex(self, t):
        k = t.kind
        if k == "set":
            return ("c", t.a[0])
        if k == "lit":
            return ("cat", tuple(("c", frozenset([b])) for b in t.a[0]))
        if k == "many":
            return ("rep", t.a[0], t.a[1], ("c", t.a[2]))
        if k in ("seq", "seqo", "pick"):
            return ("cat", tuple(self.regex(x) for x in t.a[0]))
        if k == "alt":
            return ("or", tuple(self.regex(x) for x in t.a[0]))
        if k == "opt":
            return ("rep", 0, 1, self.regex(t.a[0]))
        if k == "rep":
            return ("rep", t.a[0], t.a[1], self.regex(t.a[2]))
        if k in ("map", "take", "value", "void", "cut"):
            return self.regex(t.a[0])
        raise Unknown("language of %s" % k)


# ---- regular languages over bytes
class Auto:
    def __init__(self, rx):
        self.n, self.e, self.eps = 0, {}, {}
        self.s, self.f = self.build(rx)

    def new(self):
        self.n += 1
        return self.n - 1

    def build(self, r):
        k = r[0]
        if k == "c":
            a, b = self.new(), self.new()
            self.e.setdefault(a, []).append((r[1], b))
            return a, b
        if k == "cat":
            a = b = self.new()
            for x in r[1]:
                s, f = self.build(x)
                self.eps.setdefault(b, []).append(s)
                b = f
            return a, b
        if k == "or":
            a, b = self.new(), self.new()
            for x in r[1]:
                s, f = self.build(x)
                self.eps.setdefault(a, []).append(s)
                self.eps.setdefault(f, []).append(b)
            return a, b
        if k == "rep":
            a = b = self.new()
            for _ in range(r[1]):
                s, f = self.build(r[3])
                self.eps.setdefault(b, []).append(s)
                b = f
            if r[2] is None:
                s, f = self.build(r[3])
                h = self.new()
                self.eps.setdefault(b, []).append(h)
                self.eps.setdefault(h, []).append(s)
                self.eps.setdefault(f, []).append(h)
                return a, h
            end = self.new()
            self.eps.setdefault(b, []).append(end)
            for _ in range(r[2] - r[1]):
                s, f = self.build(r[3])
                self.eps.setdefault(b, []).append(s)
                b = f
                self.eps.setdefault(b, []).append(end)
            return a, end
        raise AssertionError(k)

    def close(self, ss):
        out, todo = set(ss), list(ss)
        while todo:
            for y in self.eps.get(todo.pop(), []):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def start(self):
        return self.close([self.s])

    def step(self, ss, b):
        return self.close([y for x in ss for s, y in self.e.get(x, []) if b in s])

    def acc(self, ss):
        return self.f in ss


def classes(*autos):
    """one representative per class of bytes no automaton tells apart"""
    sets = {s for a in autos for es in a.e.values() for s, _ in es}
    cl = {}
    for b in range(256):
        cl.setdefault(tuple(b in s for s in sets), b)
    return sorted(cl.values())


def differ(rx1, rx2):
    """(word, accepted by the first) told apart by the two languages, or None"""
    A, B = Auto(rx1), Auto(rx2)
    cl = classes(A, B)
    todo = [(A.start(), B.start(), b"")]
    seen = {(todo[0][0], todo[0][1])}
    n = 0
    while todo:
        x, y, w = todo.pop(0)
        n += 1
        if A.acc(x) != B.acc(y):
            return w, A.acc(x), n
        for b in cl:
            p = (A.step(x, b), B.step(y, b))
            if p not in seen and (p[0] or p[1]):
                seen.add(p)
                todo.append((p[0], p[1], w + bytes([b])))
    return None


# ---- monitors
class Const:
    """folds the predicates of known bytes; collects results"""

    def __init__(self):
        self.out = set()

    def init(self):
        return None

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        if n in PRED and v and v[0][0] == "k" and isinstance(v[0][1], int):
            return [(st, ("k", int(PRED[n](v[0][1]))))]
        if n == "contains" and len(v) == 2 and v[0][0] == "s" and v[1][0] == "k":
            d = dict(v[0][1])
            lo, hi = d.get("start", ("k", 0)), d.get("end")
            if lo[0] == "k" and (hi is None or hi[0] == "k"):
                top = hi is None or (v[1][1] <= hi[1] if "Inclusive" in v[0][2] else v[1][1] < hi[1])
                return [(st, ("k", int(lo[1] <= v[1][1] and top)))]
        if n == "contains" and len(v) == 2 and v[1][0] == "k":
            s = v[0][1] if v[0][0] == "k" else tuple(x[1] for _, x in v[0][1]) if v[0][0] == "s" and v[0][2] == "array" else None
            if s is not None:
                return [(st, ("k", int(v[1][1] in (s.encode() if isinstance(s, str) else s))))]
        if n == "new" and "RangeInclusive" in c.path:
            return [(st, ("s", (("start", v[0]), ("end", v[1])), "core::ops::range::RangeInclusive"))]
        if n in ("as_ref", "into", "from", "deref", "to_owned", "to_vec", "clone", "to_string", "as_bytes", "as_bstr", "borrow",
                 "as_char", "as_byte") and len(v) == 1:
            return [(st, v[0])]
        for i, (o, x) in enumerate(zip(c.t["args"], c.args)):
            if x[0] == "r" and o[0] in "cm" and not o[1][1] and a.g.locals[o[1][0]][0].startswith("&mut"):
                # changed in place: no longer what was parsed
                st.write((x[1], x[2]), ai.mk(("mut", c.site, i)))
        return None

    def exit(self, a, st, v, node):
        self.out.add(a._deepread(st, v))


class Mon:
    """mon: terms parsed so far from the input"""

    def __init__(self, peg):
        self.peg, self.ok, self.unknown = peg, set(), None

    def init(self):
        return ()

    def pt(self, t):
        self.peg.reg(t)
        return ("s", (("0", ("k", t.id)),), "pt:" + t.kind)

    def run(self, st, t):
        self.peg.reg(t)
        s = st.copy()
        s.mon = st.mon + (t.id,)
        if len(s.mon) > 12:
            raise Unknown("a loop over the input")
        return [(s, ("e", "Ok", (("0", self.peg.out(t)),))), (st, ("e", "Err", (("0", ("o", ("perr",), ai.EMPTY)),)))]

    def call(self, a, st, c):
        P, path = self.peg, c.path
        n = path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        if n == "new" and "RangeInclusive" in path:
            return [(st, ("s", (("start", v[0]), ("end", v[1])), "core::ops::range::RangeInclusive"))]
        if path.startswith(W):
            p = P.parser
            if n in ("parse_next", "parse_peek"):
                return self.run(st, p(v[0]))
            if n in ("by_ref",):
                return [(st, self.pt(p(v[0])))]
            if n == "one_of":
                return [(st, self.pt(Term("set", P.set(v[0]))))]
            if n == "none_of":
                return [(st, self.pt(Term("set", ALL - P.set(v[0]))))]
            if n in ("take_while", "take_till"):
                lo, hi = P.range(v[0])
                s = P.set(v[1])
                return [(st, self.pt(Term("many", lo, hi, s if n == "take_while" else ALL - s)))]
            if n == "take" and path.startswith("winnow::token"):
                lo, hi = P.range(v[0])
                return [(st, self.pt(Term("many", lo, hi, ALL)))]
            if n == "literal":
                return [(st, self.pt(p(v[0])))]
            if n == "preceded":
                return [(st, self.pt(Term("pick", (p(v[0]), p(v[1])), 1)))]
            if n == "terminated":
                return [(st, self.pt(Term("pick", (p(v[0]), p(v[1])), 0)))]
            if n == "delimited":
                return [(st, self.pt(Term("pick", tuple(p(x) for x in v[:3]), 1)))]
            if n == "separated_pair":
                return [(st, self.pt(Term("pick", tuple(p(x) for x in v[:3]), (0, 2))))]
            if n == "opt":
                return [(st, self.pt(Term("opt", p(v[0]))))]
            if n == "repeat":
                lo, hi = P.range(v[0])
                return [(st, self.pt(Term("rep", lo, hi, p(v[1]))))]
            if n == "separated":
                lo, hi = P.range(v[0])
                return [(st, self.pt(Term("sep", lo, hi, p(v[1]), p(v[2]))))]
            if n == "alt":
                return [(st, self.pt(Term("alt", tuple(p(x) for _, x in v[0][1]))))]
            if n == "map":
                return [(st, self.pt(Term("map", p(v[0]), a._deepread(st, v[1]))))]
            if n == "fold":
                return [(st, self.pt(Term("fold", p(v[0]), v[1], v[2])))]
            if n == "verify" and p(v[0]).kind == "set":
                t, fs = p(v[0]), a._deepread(st, v[1])
                return [(st, self.pt(Term("set", t.a[0] & P.set(fs))))]
            if n in ("verify", "try_map", "verify_map", "flat_map", "and_then"):
                return [(st, self.pt(Term({"try_map": "trymap"}.get(n, n), p(v[0]), v[1])))]
            if n in ("take", "recognize"):
                return [(st, self.pt(Term("take", p(v[0]))))]
            if n == "value":
                return [(st, self.pt(Term("value", p(v[0]), a._deepread(st, v[1]))))]
            if n == "default_value":
                return [(st, self.pt(Term("void", p(v[0]))))]
            if n == "void":
                return [(st, self.pt(Term("void", p(v[0]))))]
            if n in ("context", "complete_err"):
                return [(st, v[0])]
            if n == "cut_err":
                return [(st, self.pt(Term("cut", p(v[0]))))]
            if n in ("not", "peek"):
                return [(st, self.pt(Term(n, p(v[0]))))]
            if path.startswith("winnow::ascii") and len(v) == 1:
                return self.run(st, P.std(path))
            if n in ("any", "rest", "eof", "empty") and len(v) == 1:
                return self.run(st, P.std(path))
            if n == "parse":
                return None
            raise Unknown("combinator %s" % path)
        f = P.prog.fns.get(c.fd.get("res") or c.fd.get("fn"))
        if f is not None and f.crate == P.crate and f.body:
            # another parser function called on the input
            if any(x == ("o", ("in",), ai.EMPTY) for x in v):
                if f.body["argc"] == 1:
                    return self.run(st, P.fn(f))
                raise Unknown("call of %s" % f.path)
            # a function that builds a parser
            m = Builder(P)
            g = mir.flatten(P.prog, f, inline=lambda h: False, callbacks=False)
            a2 = ai.AI(P.prog, g, m, init={i + 1: a._deepread(st, x) for i, x in enumerate(c.args)})
            a2.run()
            if len(m.out) == 1:
                return [(st, list(m.out)[0])]
        return None

    def exit(self, a, st, v, node):
        v = a._deepread(st, v)
        if v[0] == "e" and v[1] == "Ok":
            self.ok.add((st.mon, v[2][0][1]))
        elif v[0] == "e" and v[1] == "Err":
            pass
        else:
            self.unknown = "result %s" % str(v)[:80]


class Builder(Mon):
    def __init__(self, peg):
        Mon.__init__(self, peg)
        self.out = set()

    def exit(self, a, st, v, node):
        self.out.add(a._deepread(st, v))
