"""Normal form of what a function builds (lib/build.py) and comparison with a specification.

A list is a sequence of segments: ("e", t) an element, ("x", t) the elements of
another list, ("for", source, item, rows) the concatenation of what every round
adds, rows = ((atoms, segments), ...), ("join", sep, segments) a text.  Loops
over lists built in the same function are merged into the loop that built them.
A specification is made of the same segments with `For(source, fn)`, where
fn(item, q) gives the segments of a round or raises Undet.
"""
import build

UNIT = ("unit",)


class Undet(Exception):
    pass


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def about(t, it):
    """speaks of the item it, or of a part of it"""
    return isinstance(t, (tuple, frozenset)) and (isinstance(t, tuple) and t[:2] == it[:2] or any(about(x, it) for x in t))


def mentions(t, s):
    return t == s or isinstance(t, (tuple, frozenset)) and any(mentions(x, s) for x in t if isinstance(x, (tuple, frozenset)))


def conflict(a, b):
    """two values of one condition that exclude each other"""
    na = isinstance(a, tuple) and a and a[0] == "not"
    nb = isinstance(b, tuple) and b and b[0] == "not"
    if na and nb:
        return False
    if na:
        return b in a[1:]
    if nb:
        return a in b[1:]
    return a != b


def merge(x, y):
    """union of conditions, None if they exclude each other"""
    d = {}
    for t, v in list(x) + list(y):
        if t in d:
            if conflict(d[t], v):
                return None
            if not (isinstance(v, tuple) and v and v[0] == "not"):
                d[t] = v
        else:
            d[t] = v
    return frozenset(d.items())


class Norm:
    def __init__(self, b, newtypes=(), rename=None):
        self.b, self.newtypes, self.rename = b, newtypes, rename or (lambda t: t)
        self.depth, self.memo = 0, {}

    # -- terms
    def term(self, t, at):
        """a term with the lists in it in normal form"""
        k = (t, at)
        if k not in self.memo:
            self.memo[k] = self.term1(t, at)
        return self.memo[k]

    def term1(self, t, at):
        if not isinstance(t, tuple) or not t:
            return t
        t = self.rename(t)
        if not isinstance(t, tuple) or not t:
            return t
        if self.listy(t):
            s = self.segs(t, at)
            if len(s) == 1 and s[0][0] == "x":
                return s[0][1]
            return ("L", s)
        if t[0] == "item":
            return ("item", self.key(t[1], at)) + t[2:]
        if t[0] == "idx":
            return ("idx", self.key(t[1], at))
        return tuple(self.term(x, at) if isinstance(x, tuple) else x for x in t)

    def listy(self, t):
        return t[0] == "list" or t[:2] == ("s", "array") or t[0] == "s" and len(t) == 3 and str(t[1]).split("<")[0].rsplit("::", 1)[-1] in self.newtypes \
            or t[:2] in (("t", "join"), ("t", "concat"), ("t", "flatten"), ("t", "repeat_n"), ("t", "from_elem"), ("t", "chain")) \
            or t[0] == "L"

    def key(self, key, at):
        """a loop is named by where it is in the code"""
        return key[0]

    # -- lists
    def segs(self, t, at):
        self.depth += 1
        try:
            if self.depth > 60:
                raise build.ai.Overflow("terms nested too deeply")
            return self.segs1(t, at)
        finally:
            self.depth -= 1

    def segs1(self, t, at):
        t = self.rename(t) if isinstance(t, tuple) else t
        if t == UNIT:
            return ()
        if t[0] == "L":
            return t[1]
        if t[:2] == ("s", "array"):
            return tuple(("e", self.term(x, at)) for _, x in t[2])
        if t[0] == "s" and self.listy(t):
            return self.segs(t[2][0][1], at)
        if t[0] == "list":
            out = []
            for e in t[1:]:
                if e[0] == "e":
                    out.append(("e", self.term(e[1], at)))
                elif e[0] == "x":
                    out += self.segs(e[1], at)
                elif e[0] == "for":
                    out += self.loop(e[1], e[2], at)
                elif e[0] == "set":
                    out = list(self.setting(e[1], at))
                else:
                    out.append((e[0],) + tuple(str(x) for x in e[1:2]))
            return tuple(out)
        if t[:2] == ("t", "join") and len(t) == 4:
            a, s = t[2], t[3]
            if a[0] in "pk" or a[0] == "f" and s[0] not in "pkf":
                a, s = s, a
            return (("join", self.term(s, at), self.segs(a, at)),)
        if t[:2] == ("t", "chain") and len(t) == 4:
            return self.segs(t[2], at) + self.segs(t[3], at)
        if t[:2] in (("t", "flatten"), ("t", "concat")) and len(t) == 3:
            k = ("fl", t[2])
            inner = ("it", repr(t[2]))
            return self.fuse(self.segs(t[2], at), lambda it, a: (("x", it),) if it[0] != "L" else it[1], at, repr(t))
        if t[:2] in (("t", "repeat_n"), ("t", "from_elem")) and len(t) == 4:
            return (("rep", self.term(t[2], at), self.term(t[3], at)),)
        u = self.term(t, at)
        if u == ("k", ""):
            return ()
        return u[1] if isinstance(u, tuple) and u[:1] == ("L",) else (("x", u),)

    def setting(self, t, at):
        """an accumulator that is assigned anew"""
        if t[:2] == ("t", "add") and len(t) == 4 and t[2][0] == "cur":
            return self.segs(t[3], at)
        if t[0] == "list" and t[1:2] and t[1][0] == "x" and t[1][1][0] == "cur":
            return self.segs(("list",) + t[2:], at)
        if t[0] == "cur":
            return ()
        return (("set", self.term(t, at)),)

    def loop(self, key, p, at):
        h, src = key
        rows = [(a, c) for a, c in self.b.summary.get(key, {}).get(p, ())]
        it = ("item", h)
        # whether it is the first round matters only if rounds differ by it
        bare = {}
        for a, c in rows:
            bare.setdefault(frozenset(x for x in a if x[0] != ("idx", key)), set()).add(c)
        if all(len(c) == 1 for c in bare.values()):
            rows = [(a, c) for a, cs in bare.items() for c in cs]

        def body(item, outer):
            out = []
            for a, c in rows:
                m = merge(a, outer)
                if m is None:
                    continue
                s = self.segs(("list",) + tuple(c), m)
                sub = {it: item}
                for i in (0, 1):
                    if item[0] == "s" and len(item[2]) > i:
                        sub[it + (i,)] = item[2][i][1]
                out.append((self.atoms(m - outer, sub), subst(s, sub)))
            return out
        src = self.rename(src)
        if self.listy(src) and src[:2] != ("t", "join") and not any(mentions((a, c), ("idx", key)) for a, c in rows):
            return self.fuse(self.segs(src, at), body, at, h, True)
        s = self.term(src, at)
        return self.pack(s, it, body(it, at), at)

    def atoms(self, m, sub=None):
        out = {}
        for t, v in m:
            u = self.atom(subst(self.term(t, frozenset()), sub) if sub else self.term(t, frozenset()), v)
            if u:
                out[u[0]] = u[1]
        return frozenset(out.items())

    def atom(self, t, v):
        if t[:2] == ("op", "Eq") and t[2][:2] == ("t", "len") and t[3] == ("k", 0):
            return ("t", "is_empty", t[2][2]), v
        if t[:2] == ("t", "len") and (v == 0 or v == ("not", 0)):
            return ("t", "is_empty", t[2]), 1 if v == 0 else 0
        return t, v

    def pack(self, src, it, rows, at):
        rows = frozenset(rows)
        if not any(c for a, c in rows):
            return ()
        cs = {c for a, c in rows}
        if len(cs) == 1:
            c = next(iter(cs))
            if c == (("e", it),):
                return (("x", src),)
            if len(c) == 1 and c[0][0] == "e" and not about(c[0][1], it):
                return (("rep", c[0][1], ("t", "len", src)),)
        return (("for", src, it, rows),)

    def fuse(self, segs, body, at, name, rowed=False):
        """a loop over a list of known make"""
        out = []
        for s in segs:
            if s[0] == "e":
                b = body(s[1], at)
                out += self.straight(b) if rowed else b
            elif s[0] == "x":
                it = ("item", (name, s[1]))
                b = body(it, at)
                out += self.pack(s[1], it, b if rowed else [(frozenset(), tuple(b))], at)
            elif s[0] == "for":
                rows = []
                for a, c in s[3]:
                    m = merge(a, ())
                    new = [(frozenset(), ())]
                    for x in self.fuse_rows(c, body, a, name, rowed):
                        new = [(merge(a1, a2), c1 + c2) for a1, c1 in new for a2, c2 in x]
                        new = [(p, q) for p, q in new if p is not None]
                    rows += [(merge(a, p), q) for p, q in new if merge(a, p) is not None]
                out += self.pack(s[1], s[2], rows, at)
            elif s[0] == "rep":
                b = body(s[1], at)
                c = self.straight(b) if rowed else b
                out += [("rep", c[0][1], s[2])] if len(c) == 1 and c[0][0] == "e" else [("for", ("rep",) + s[1:], ("none",), frozenset([(frozenset(), tuple(c))]))]
            else:
                out.append(("over", s))
        return tuple(out)

    def fuse_rows(self, c, body, a, name, rowed):
        """alternatives of (conditions, segments) for each segment of a round"""
        for s in c:
            if s[0] == "e":
                b = body(s[1], frozenset())
                yield [(x, tuple(y)) for x, y in b] if rowed else [(frozenset(), tuple(b))]
            else:
                yield [(frozenset(), self.fuse((s,), body, frozenset(), name, rowed))]

    def straight(self, rows):
        cs = {c for a, c in rows}
        if len(cs) == 1:
            return next(iter(cs))
        return (("either", frozenset(rows)),)

    def exits(self):
        """[(conditions, segments or term, trace)]"""
        out = []
        for at, t, tr in self.b.results:
            a = self.atoms(at)
            out.append((a, self.term(t, at), tr))
        return out


# -- specifications

class For:
    def __init__(self, src, fn, what=""):
        self.src, self.fn, self.what = src, fn, what


class Join:
    def __init__(self, sep, of):
        self.sep, self.of = sep, of


class Q:
    """what a round or exit has found out"""

    def __init__(self, cmp, at):
        self.cmp, self.at = cmp, dict(at)

    def known(self, t):
        v = self.at.get(t)
        if v is None:
            return None
        return bool(v) if isinstance(v, int) else v

    def __call__(self, t, what=None):
        v = self.known(t)
        if v is None:
            raise Undet(what or show(t))
        return v

    def all(self, *ts):
        vs = [self.known(t) for t, w in ts]
        if False in vs:
            return False
        for (t, w), v in zip(ts, vs):
            if v is None:
                raise Undet(w)
        return True

    def empty(self, spec, what):
        why = None
        for t, v in self.at.items():
            if t[:2] == ("t", "is_empty") and v in (0, 1):
                s = t[2][1] if t[2][0] == "L" else (("x", t[2]),)
                for sp in spec if spec and isinstance(spec[0], list) else [spec]:
                    c = Cmp()
                    if c.list(s, sp, {}):
                        return bool(v)
                    why = c.why or why
        raise Undet("whether %s%s" % (what, " (%s)" % why if why else ""))


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "p":
        return t[1]
    if t[0] == "k":
        return repr(t[1])
    if t[0] in ("f", "v"):
        return "%s.%s" % (show(t[1]), t[2])
    if t[0] == "t":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if t[0] == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if t[0] == "item":
        return "item"
    if t[0] == "L":
        return "[%s]" % ", ".join(seg(x) for x in t[1])
    if t[0] == "cur":
        return "so far"
    return "(%s)" % ", ".join(show(x) for x in t)


def seg(s):
    if s[0] == "e":
        return show(s[1])
    if s[0] == "x":
        return show(s[1]) + ".."
    if s[0] == "rep":
        return "%s x %s" % (show(s[1]), show(s[2]))
    if s[0] == "for":
        return "for %s: {%s}" % (show(s[1]), " | ".join(sorted("; ".join(seg(x) for x in c) for a, c in s[3])))
    if s[0] == "join":
        return "join(%s; %s)" % (show(s[1]), ", ".join(seg(x) for x in s[2]))
    return "%s %s" % (s[0], " ".join(show(x) for x in s[1:]))


class Cmp:
    """compares lists in normal form with specifications; the first difference is kept in why"""

    def __init__(self, ctx=None):
        self.ctx, self.why = ctx, None

    def no(self, msg):
        if self.why is None:
            self.why = msg
        return False

    def same(self, segs, spec, at):
        keep = self.why
        r = self.list(segs, spec, at)
        self.why = keep
        return r

    def known_empty(self, at):
        return [t[2][1] for t, v in dict(at).items() if (t[:2] == ("t", "is_empty") and v == 1 or t[:2] == ("t", "some") and v == 0)
                and t[2][0] == "L"]

    def prune(self, segs, at):
        """without what is known to be empty"""
        none = [x for e in self.known_empty(at) for x in e]
        # a loop over an empty list adds nothing
        return tuple(s for s in segs if s not in none and not (s[0] == "for" and any(
            n[0] == "for" and n[1] == s[1] and self.covered(s, n, at) for n in none)))

    def covered(self, s, n, at):
        """every round of s that adds something is one in which n, which is empty, would"""
        adds = [m for m, c in n[3] if c]
        for a, c in s[3]:
            if c:
                d = {subst(t, {s[2]: n[2]}): v for t, v in dict(at).items()}
                d.update({subst(t, {s[2]: n[2]}): v for t, v in a})
                if not any(all(k in d and d[k] == v for k, v in m) for m in adds):
                    return False
        return True

    def list(self, segs, spec, at):
        """at: what is known; what is not, must not matter"""
        segs = self.prune(segs, at)
        spec = [s for s in spec]
        if len(segs) < len(spec):
            spec = [s for s in spec if not any(self.same(e, [s], {}) for e in self.known_empty(at))]
        if len(segs) != len(spec):
            return self.no("%s where %s is expected" % ("[%s]" % ", ".join(seg(s) for s in segs), "[%s]" % ", ".join(self.name(s) for s in spec)))
        return all(self.one(s, p, at) for s, p in zip(segs, spec))

    def name(self, p):
        if isinstance(p, For):
            return "for %s.." % (p.what or show(p.src))
        if isinstance(p, Join):
            return "join(%s; ..)" % show(p.sep)
        if p[0] == "e" and isinstance(p[1], list):
            return "[%s]" % ", ".join(self.name(x) for x in p[1])
        return seg(p)

    def one(self, s, p, at):
        if self.ctx:
            self.ctx.count("parts_compared")
        if isinstance(p, Join):
            if s[0] == "join":
                return (s[1] == p.sep or self.no("joined by %s, not by %s" % (show(s[1]), show(p.sep)))) and self.list(s[2], p.of, at)
            return self.joined(s, p, at)
        if isinstance(p, For):
            if s[0] == "x" and s[1] == p.src:
                # the elements as they are
                s = ("for", p.src, ("item", "x"), frozenset([(frozenset(), (("e", ("item", "x")),))]))
            if s[0] == "rep" and s[2] == ("t", "len", p.src):
                s = ("for", p.src, ("item", "x"), frozenset([(frozenset(), (("e", s[1]),))]))
            if s[0] != "for":
                return self.no("%s where a round for each of %s is expected" % (seg(s), p.what or show(p.src)))
            if s[1] != p.src:
                return self.no("goes over %s instead of %s" % (show(s[1]), p.what or show(p.src)))
            for a, c in sorted(s[3], key=repr):
                m = merge(a, dict(at).items())
                if m is None:
                    continue
                q = Q(self, m)
                try:
                    want = p.fn(s[2], q)
                except Undet as e:
                    return self.no("for %s: %s without %s being settled" % (p.what or show(p.src), "adds %s" % ", ".join(seg(x) for x in c) if c else "adds nothing", e))
                if want is not None and not self.list(c, want, m):
                    return False
            return True
        if p[0] == "e":
            if s[0] != "e":
                return self.no("%s where the single element %s is expected" % (seg(s), self.name(p)))
            if isinstance(p[1], list):
                inner = s[1][1] if s[1][0] == "L" else (("x", s[1]),)
                return self.list(inner, p[1], at)
            return s[1] == p[1] or self.no("%s where %s is expected" % (show(s[1]), show(p[1])))
        if p[0] == "set" and s[0] == "set":
            return self.op(s[1], p[1], at)
        if p[0] == "rep" and s[0] == "rep":
            return s[1:] == p[1:] or self.no("%s where %s is expected" % (seg(s), seg(p)))
        return s == p or self.no("%s where %s is expected" % (seg(s), self.name(p)))

    def op(self, t, want, at):
        """want = (name, args...); list arguments are specifications"""
        if callable(want):
            return want(t, at, self)
        if isinstance(want, list):
            s = t[1] if t[0] == "L" else (("x", t),)
            return self.list(s, want, at)
        if isinstance(want, tuple) and want[:1] == ("t",) and any(isinstance(x, (list, tuple)) for x in want[2:]):
            if t[:2] != want[:2] or len(t) != len(want):
                return self.no("%s where %s(..) is expected" % (show(t), want[1]))
            return all(self.op(x, y, at) for x, y in zip(t[2:], want[2:]))
        if want == ("cur",):
            return t[0] == "cur" or self.no("%s where what has been built so far is expected" % show(t))
        return t == want or self.no("%s where %s is expected" % (show(t), show(want)))

    def joined(self, s, p, at):
        """a text in which a separator stands before every part but the first"""
        if len(p.of) != 1 or s[0] != "for":
            return self.no("%s where parts joined by %s are expected" % (seg(s), show(p.sep)))
        src = s[1][1] if s[1][0] == "L" else (("x", s[1]),)
        if not self.list(src, p.of, at):
            return False
        for a, c in sorted(s[3], key=repr):
            i = [v for t, v in a if t[0] == "idx" and t[1] == s[2][1]]
            if not i:
                return self.no("whether a part is the first is not settled")
            want = (("x", s[2]),) if i[0] == 0 else (("x", p.sep), ("x", s[2]))
            if i[0] not in (0, ("not", 0)) or c != want:
                return self.no("[%s] where %s is expected" % (", ".join(seg(x) for x in c), "[%s]" % ", ".join(seg(x) for x in want)))
        return True
