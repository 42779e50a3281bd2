"""What a writing function emits: the stream of literal bytes and record parts
(tag, occurrence, code, value) it hands to its sink, in the nested iteration
over fields and subfields, compared with a format given as a small regular
grammar over those tokens.

Nothing is run: the sink calls are found in the abstract interpretation of the
flattened MIR; literals come from the constants of the code (byte strings and
the compiled templates of format strings), parts from the access path of the
value that is handed over.
"""
import re
import ai, mir, quant

NEXTI = quant.NEXTI
SELF = "verif::self"


# ---- grammar -> NFA
class Nfa:
    def __init__(self, rx):
        self.n = 0
        self.edges = {}
        self.eps = {}
        s, e = self.build(rx)
        self.start, self.final = s, e

    def new(self):
        self.n += 1
        return self.n - 1

    def build(self, rx):
        k = rx[0]
        if k in ("t", "g"):
            s, e = self.new(), self.new()
            (self.edges if k == "t" else self.eps).setdefault(s, []).append((rx[1], e))
            return s, e
        if k == "seq":
            s = e = self.new()
            for x in rx[1]:
                a, b = self.build(x)
                self.eps.setdefault(e, []).append((None, a))
                e = b
            return s, e
        if k == "alt":
            s, e = self.new(), self.new()
            for x in rx[1]:
                a, b = self.build(x)
                self.eps.setdefault(s, []).append((None, a))
                self.eps.setdefault(b, []).append((None, e))
            return s, e
        if k == "star":
            s = self.new()
            a, b = self.build(rx[1])
            self.eps.setdefault(s, []).append((None, a))
            self.eps.setdefault(b, []).append((None, s))
            return s, s
        raise AssertionError(k)

    def close(self, ss, ok):
        out, todo = set(ss), list(ss)
        while todo:
            x = todo.pop()
            for g, y in self.eps.get(x, []):
                if y not in out and (g is None or ok(g)):
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def init(self):
        return frozenset([self.start])

    def step(self, ss, tok, ok):
        nxt = set()
        for x in self.close(ss, ok):
            for t, y in self.edges.get(x, []):
                if t == tok:
                    nxt.add(y)
        return frozenset(nxt)

    def accepts(self, ss, ok):
        return self.final in self.close(ss, ok)

    def expected(self, ss, ok):
        return sorted({t for x in self.close(ss, ok) for t, _ in self.edges.get(x, [])}, key=str)


def T(*t):
    return ("t", t)


def lit(b):
    return ("seq", [T("b", x) for x in (b if isinstance(b, bytes) else b.encode())])


def part(k, *ops):
    return T("x", k, tuple(ops))


def seq(*x):
    return ("seq", list(x))


def alt(*x):
    return ("alt", list(x))


def star(x):
    return ("star", x)


def guard(g):
    return ("g", g)


def ev(n):
    return T("ev", n)


def show(t):
    if t[0] == "b":
        return repr(bytes([t[1]]))[1:]
    if t[0] == "x":
        return "+".join((t[1],) + t[2])
    if t[0] == "ev":
        return {"F+": "next field", "F-": "end of fields", "S+": "next subfield", "S-": "end of subfields",
                "cut": "cut short"}.get(t[1], t[1])
    return str(t)


# ---- format templates of core::fmt
def template(bs):
    """literals (bytes) and placeholders (None); None if it uses options"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            return out if i == len(bs) - 1 else None
        if b < 0x80:
            out.append(bytes(bs[i + 1:i + 1 + b]))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bytes(bs[i + 3:i + 3 + n]))
            i += 3 + n
        elif b == 0xC0:
            out.append(None)
            i += 1
        else:
            return None
    return out


IDENT = {"as_bytes", "as_ref", "as_byte", "deref", "as_str", "to_vec", "into_owned", "to_owned", "clone", "borrow", "as_bstr",
         "from", "into", "to_str_lossy", "as_slice", "to_string", "to_str", "unwrap", "into_string", "into_bytes", "as_char",
         "to_str_unchecked", "from_utf8_lossy", "as_mut", "by_ref", "into_boxed_slice", "must_use"}
SINKS = {"write_all", "write", "write_str", "push_str", "extend_from_slice", "push_byte", "push_char", "write_char", "extend"}
ORDER = re.compile(r"Iterator::(rev|skip|take|step_by|skip_while|take_while|map_while|chain|cycle|zip|last|max|min|nth)$"
                   r"|::(sort\w*|dedup\w*|retain\w*|truncate|reverse|swap|pop|remove|drain|clear)$")
UNIT = ("s", (), "tuple")


def strip_ty(t):
    t = t.strip()
    while t.startswith("&") or t.startswith("'"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        t = re.sub(r"^'\w+ ", "", t)
    return re.sub(r"<.*>$", "", t)


class Display:
    """token list of a type's own Display implementation (one straight line)"""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}
        self.impl = {}
        for f in prog.fns.values():
            if f.name == "fmt" and f.body and f.j.get("impl_trait", "") == "core::fmt::Display":
                self.impl[strip_ty(f.j["impl_self"])] = f

    def local(self, ty):
        return strip_ty(ty) in self.impl

    def tokens(self, ty):
        """list of bytes / projections of self (tuples of names), or None"""
        ty = strip_ty(ty)
        if ty in self.memo:
            return self.memo[ty]
        self.memo[ty] = None
        f = self.impl[ty]
        m = _DisplayMon(self)
        g = mir.flatten(self.prog, f, inline=lambda h: h.crate == f.crate and h.name != "fmt")
        try:
            a = ai.AI(self.prog, g, m, init={1: ("o", ("p", SELF), frozenset(["rec"]))})
            a.run()
        except ai.Overflow:
            return None
        r = list(m.out)[0] if len(m.out) == 1 and not m.failed else None
        self.memo[ty] = r
        return r


class Text:
    """values that stand for a piece of text: ("s", ((i, piece)..), "text")"""
    disp = None

    def pieces(self, a, st, v, ty=None):
        v = a.val(st, v)
        if ty and self.disp.local(ty):
            d = self.disp.tokens(ty)
            if d is None:
                return [("o", ("unknown", strip_ty(ty)), ai.labels(v, st))]
            out = []
            for t in d:
                if isinstance(t, bytes):
                    out.append(("k", tuple(t)))
                elif v[0] == "o":
                    x = v[1]
                    for n in t:
                        x = ("f", x, n)
                    out.append(ai.mk(x, v[2]))
                else:
                    x = v
                    for n in t:
                        x = a.val(st, ai.getf(x[1], n) or ai.TOP) if x[0] == "s" else ai.TOP
                    out.append(x)
            return out
        if v[0] == "s" and v[2] == "text":
            return [x for _, x in v[1]]
        if v[0] == "s" and v[2] == "array":
            return [y for _, x in v[1] for y in self.pieces(a, st, x)]
        if v[0] == "e" and v[1] in ("Borrowed", "Owned"):
            return self.pieces(a, st, v[2][0][1])
        return [v]

    def text(self, ps):
        return ("s", tuple((str(i), p) for i, p in enumerate(ps)), "text")

    def fmtcall(self, a, st, c):
        """construction of format arguments"""
        p, n = c.path, c.path.rsplit("::", 1)[-1]
        if p.startswith("core::fmt::rt::Argument"):
            if n == "new_display":
                return [(st, self.text(self.pieces(a, st, c.args[0], (c.fd.get("targs") or ["", ""])[-1])))]
            return [(st, ("o", ("unknown", n), ai.labels(c.args[0], st)))]
        if p.startswith("core::fmt::Arguments"):
            v = [a.val(st, x) for x in c.args]
            if n in ("from_str", "from_str_nonconst") and v[0][0] == "k":
                return [(st, self.text([v[0]]))]
            if n == "new" and v[0][0] == "k" and isinstance(v[0][1], (tuple, str)):
                t = template(v[0][1] if isinstance(v[0][1], tuple) else v[0][1].encode())
                args = [a.val(st, x) for _, x in v[1][1]] if v[1][0] == "s" else None
                if t is None or args is None or sum(x is None for x in t) != len(args):
                    return [(st, ("o", ("unknown", "format"), ai.EMPTY))]
                out, i = [], 0
                for x in t:
                    if x is None:
                        out += self.pieces(a, st, args[i])
                        i += 1
                    else:
                        out.append(("k", tuple(x)))
                return [(st, self.text(out))]
        if n == "format" and p.startswith("alloc::fmt") or n == "must_use":
            return [(st, a.val(st, c.args[0]))]
        return None


class _DisplayMon(Text):
    def __init__(self, disp):
        self.disp, self.out, self.failed = disp, set(), False

    def init(self):
        return ()

    def put(self, a, st, v, ty=None):
        for p in self.pieces(a, st, v, ty):
            if p[0] == "k":
                x = p[1]
                if isinstance(x, int):
                    x = bytes([x])
                t = bytes(x) if isinstance(x, tuple) else x.encode() if isinstance(x, str) else x
            else:
                t, proj = p[1] if p[0] == "o" else ("?",), []
                while t[0] == "f":
                    proj.append(t[2])
                    t = t[1]
                if t != ("p", SELF):
                    self.failed = True
                    return
                t = tuple(reversed(proj))
            st.mon = st.mon + (t,)

    def call(self, a, st, c):
        r = self.fmtcall(a, st, c)
        if r is not None:
            return r
        n = c.path.rsplit("::", 1)[-1]
        if n in ("write_fmt", "write_str", "write_char", "pad"):
            self.put(a, st, c.args[1])
            return [(st, a.fresh(st, c))]
        if n == "fmt" and c.trait == "core::fmt::Display":
            self.put(a, st, c.args[0], c.self_ty)
            return [(st, a.fresh(st, c))]
        if n == "to_string" and self.disp.local(c.self_ty):
            return [(st, self.text(self.pieces(a, st, c.args[0], c.self_ty)))]
        if n in IDENT and c.args:
            return [(st, a.val(st, c.args[0]))]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        if len(st.mon) > 8:
            self.failed = True
        self.out.add(st.mon)


class Emit(Text):
    """mon: (nfa states, nothing yet, buffered, extra)

    `level` is the kind of thing the function writes: rec / field / sub."""

    def __init__(self, ctx, f, g, nfa, disp, guards=None, what="record"):
        self.ctx, self.f, self.g, self.nfa, self.disp = ctx, f, g, nfa, disp
        self.what = what
        self.guards = guards or {}

    def init(self):
        return (self.nfa.init(), True, False, None)

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def ok(self, st):
        def f(g):
            if g == "noocc":
                return any(t[0] == "f" and t[2] == "occurrence" and v == "None" for t, v in st.ass.items())
            if g == "empty":
                return st.mon[3] == "empty"
            return self.guards[g](st)
        return f

    # -- tokens
    def kind(self, v):
        if v[0] != "o":
            return ("unknown", ())
        ops, t = [], v[1]
        while t and t[0] == "op1":
            ops.append(t[1])
            t = t[2]
        proj = []
        while t[0] in ("f", "v", "i"):
            if t[0] == "f":
                proj.append(t[2])
            t = t[1]
        if not proj or t[0] in ("unknown", "top"):
            return ("unknown", tuple(reversed(ops)))
        p = proj[-1]
        ls = v[2]
        if "sub" in ls:
            k = {"0": "code", "1": "value"}.get(p)
        elif "field" in ls:
            k = {"tag": "tag", "occurrence": "occurrence"}.get(p)
        else:
            k = None
        return (k or "unknown", tuple(reversed(ops)))

    def toks(self, a, st, v):
        out = []
        for p in self.pieces(a, st, v):
            if p[0] == "k":
                x = p[1]
                if isinstance(x, int):
                    x = [x] if x < 128 else chr(x).encode()
                elif isinstance(x, str):
                    x = x.encode()
                out += [("b", b) for b in x]
            elif p[0] == "s" and p[2] == "tuple" and not p[1]:
                continue
            else:
                out.append(("x",) + self.kind(p))
        return out

    def feed(self, a, st, toks):
        ss, new, buf, ex = st.mon
        for t in toks:
            self.ctx.count("tokens_visited")
            ok = self.ok(st)
            n = self.nfa.step(ss, t, ok)
            if not n and ss:
                self.bad(a, "emits:" + show(t), "%s comes where the format has %s" % (
                    show(t), " or ".join(show(x) for x in self.nfa.expected(ss, ok)[:6]) or "nothing more"))
            ss = n
        st.mon = (ss, new and not toks, buf, ex)

    # -- iteration
    def level(self, a, st, v):
        v = a.val(st, v)
        ls = ai.labels(v, st)
        if "rec" not in ls or "leaf" in ls:
            return None
        return "leaf" if "sub" in ls else "sub" if "field" in ls else "field"

    def item(self, a, st, lv, tag, ls):
        a.kill(st, tag)
        if lv == "leaf":
            return ("o", tag, ls | {"leaf"})
        if "cut" in ls:
            self.feed(a, st, [("ev", "cut")])
        self.ctx.count("items_visited")
        self.feed(a, st, [("ev", "F+" if lv == "field" else "S+")])
        return ("o", tag, (ls | {lv}) - {"cut"})

    def over(self, a, st, lv, ls):
        if lv == "leaf":
            return
        self.feed(a, st, [("ev", "cut" if "cut" in ls else "F-" if lv == "field" else "S-")])

    def new_item(self, a, st, v):
        src = a.val(st, a.operand(st, v["from"][0]))
        lv = self.level(a, st, src)
        if lv is None:
            return None
        return self.item(a, st, lv, ("cb", v["call"].get("bid"), v["ai"]), ai.labels(src, st))

    def exhausted(self, a, st, t):
        src = a.val(st, a.operand(st, t["src"]))
        lv = self.level(a, st, src)
        if lv:
            self.over(a, st, lv, ai.labels(src, st))

    # -- calls
    def destty(self, c, i=0):
        o = c.t["args"][i]
        return self.g.locals[o[1][0]][0] if o[0] in "cm" else ""

    def sink(self, a, st, c, v):
        """bytes handed over; into a buffer of this function or to the output"""
        d = a.val(st, c.args[0])
        inbuf = d[0] == "o" and d[1][0] == "buf"
        if not inbuf and re.search(r"Vec<u8>|String\b|BString", self.destty(c)):
            return False
        src = a.val(st, v)
        if src[0] == "o" and src[1][0] == "buf":
            if inbuf:
                return False
            st.mon = st.mon[:2] + (False,) + st.mon[3:]
            return True
        toks = self.toks(a, st, v)
        if toks:
            if inbuf:
                st.mon = st.mon[:2] + (True,) + st.mon[3:]
            elif st.mon[2]:
                self.bad(a, "order", "bytes are written while earlier ones still wait in a buffer")
        self.feed(a, st, toks)
        return True

    def done(self, st, c):
        if c.dty == "()":
            return [(st, UNIT)]
        s = st.copy()
        return [(st, ("e", "Ok", (("0", UNIT),))), (s, ("e", "Err", (("0", ("o", ("ioerr",), ai.EMPTY)),)))]

    def op1(self, name, v):
        return ("o", ("op1", name, v[1]), v[2]) if v[0] == "o" else ai.TOP

    def other(self, a, st, c, n, v):
        return None

    def call(self, a, st, c):
        r = self.fmtcall(a, st, c)
        if r is not None:
            return r
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        r = self.other(a, st, c, n, v)
        if r is not None:
            return r
        if c.path == NEXTI:
            lv = self.level(a, st, v[0])
            if lv:
                s0, s1 = st.copy(), st.copy()
                ls = ai.labels(v[0], st)
                self.over(a, s0, lv, ls)
                x = self.item(a, s1, lv, ("call", c.site, c.path), ls)
                return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", x),)))]
        if re.search(r"(vec::Vec::<T>|string::String|vec::Vec::<T, A>)::(new|with_capacity)$", c.path):
            return [(st, ("o", ("buf",), ai.EMPTY))]
        if n == "write_fmt" and len(v) == 2 or n in SINKS and len(v) == 2 or \
                n == "push" and len(v) == 2 and re.search(r"Vec<u8>|String", self.destty(c)):
            if self.sink(a, st, c, c.args[1]):
                return self.done(st, c)
            return None
        ls = ai.labels(v[0], st) if v else ai.EMPTY
        if ORDER.search(c.path) and "rec" in ls and "leaf" not in ls:
            self.bad(a, "order", "%s does not keep every part of the record in its place" % n)
        if n == "is_empty" and "rec" in ls and not ls & {"field", "leaf"}:
            s1 = st.copy()
            s1.mon = st.mon[:3] + ("empty",)
            return [(s1, ("k", 1)), (st, ("k", 0))]
        if n == "to_string" and self.disp.local(c.self_ty):
            return [(st, self.text(self.pieces(a, st, c.args[0], c.self_ty)))]
        if n == "flush" or n == "reserve":
            return self.done(st, c)
        if n == "replace" and len(v) == 3 and v[1][0] == "k" and v[2][0] == "k":
            def s(x):
                x = x[1]
                return bytes(x).decode("latin1") if isinstance(x, tuple) else x if isinstance(x, str) else chr(x)
            return [(st, self.op1("%s→%s" % (s(v[1]), s(v[2])), v[0]))]
        if n in IDENT and v and v[0][0] in ("o", "s", "k") and not (v[0][0] == "o" and v[0][1] == ("top",)):
            if n == "unwrap" or not c.dty.startswith("core::result"):
                return [(st, v[0])]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] in ("Err", "Break"):
            return
        self.ctx.count("exits_compared")
        ok = self.ok(st)
        if not st.mon[0]:
            return              # already reported
        if not self.nfa.accepts(st.mon[0], ok):
            self.bad(a, "stops", "a %s ends where the format has %s" % (
                self.what, " or ".join(show(x) for x in self.nfa.expected(st.mon[0], ok)[:6])), node)
        if st.mon[2]:
            self.bad(a, "buffer", "bytes stay in a buffer that is never written", node)
