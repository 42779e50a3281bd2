"""Program model over the dumped facts: functions, callee resolution, call
graph, and flattening (context-sensitive inlining of workspace functions and
closures into one control-flow graph)."""
import re, sys
import facts

sys.setrecursionlimit(10000)


class Fn:
    __slots__ = ("j", "key", "path", "kind", "body", "promoted", "span", "derived",
                 "name", "crate")

    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.key = j["key"]
        self.path = j["path"]
        self.kind = j["kind"]
        self.body = j.get("body")
        self.promoted = j.get("promoted") or []
        self.span = j["span"]
        self.derived = j["derived"]
        self.name = j.get("name", "")

    @property
    def is_fn(self):
        return self.kind in ("Fn", "AssocFn")

    @property
    def is_closure(self):
        return self.kind == "Closure"

    def __repr__(self):
        return "<%s>" % self.path


class Program:
    def __init__(self, data=None):
        data = data or facts.load()
        self.fns = {}
        self.adts = {}
        self.impls = []
        for c in data:
            for f in c["fns"]:
                self.fns[f["key"]] = Fn(f, c["crate"])
            for a in c["adts"]:
                self.adts[a["path"]] = a
            for i in c["impls"]:
                i["crate"] = c["crate"]
                self.impls.append(i)
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)
        self.children = {}
        for f in self.fns.values():
            if f.is_closure:
                self.children.setdefault(f.j["parent"], []).append(f)

        # From / TryFrom / FromStr implementations behind the blanket conversions
        self.conv_impls = {}
        for f in self.fns.values():
            if f.kind == "AssocFn" and f.name in ("from", "try_from", "from_str") and "impl_trait_ref" in f.j:
                self.conv_impls[noregion(f.j["impl_trait_ref"])] = f.key

    def conv(self, fd):
        """workspace implementation a blanket conversion ends up in"""
        p, ta = fd.get("path", ""), fd.get("targs") or []
        if p == "core::convert::Into::into" and len(ta) == 2:
            return self.conv_impls.get(noregion("<%s as core::convert::From<%s>>" % (ta[1], ta[0])))
        if p == "core::convert::TryInto::try_into" and len(ta) == 2:
            return self.conv_impls.get(noregion("<%s as core::convert::TryFrom<%s>>" % (ta[1], ta[0])))
        if p == "core::str::<impl str>::parse" and len(ta) == 1:
            return self.conv_impls.get(noregion("<%s as core::str::traits::FromStr>" % ta[0]))
        return None

    # -- lookup
    def fn(self, path):
        """unique non-derived function by exact pretty path"""
        c = [f for f in self.by_path.get(path, []) if f.is_fn]
        if len(c) != 1:
            raise MissingAnchor("function %s: %d candidates" % (path, len(c)))
        return c[0]

    def find(self, rx, derived=False):
        r = re.compile(rx)
        return sorted((f for f in self.fns.values()
                       if r.search(f.path) and (derived or not f.derived)),
                      key=lambda f: f.key)

    def methods(self, self_rx, name, trait_rx=None):
        out = []
        for f in self.fns.values():
            if f.kind != "AssocFn" or f.name != name:
                continue
            if not re.search(self_rx, f.j.get("impl_self", "")):
                continue
            tr = f.j.get("impl_trait", "")
            if trait_rx is not None and not re.search(trait_rx, tr):
                continue
            out.append(f)
        return sorted(out, key=lambda f: f.key)

    def method(self, self_ty, name, trait_rx=None):
        c = self.methods("^" + self_ty + "$", name, trait_rx)
        if len(c) != 1:
            raise MissingAnchor("method %s::%s (%s): %d candidates"
                                % (self_ty, name, trait_rx, len(c)))
        return c[0]

    def adt(self, path):
        if path not in self.adts:
            raise MissingAnchor("type %s not found" % path)
        return self.adts[path]

    def nested(self, f):
        """f and all closures lexically nested in it"""
        out = [f]
        for c in self.children.get(f.key, []):
            out += self.nested(c)
        return out

    def callees(self, f):
        """local functions referenced by f (calls, fn items, closures)"""
        out = set()
        for j in walk(f.body):
            if isinstance(j, dict):
                k = j.get("res") or j.get("fn")
                if isinstance(k, str) and k in self.fns:
                    out.add(k)
                if "targs" in j:
                    k = self.conv(j)
                    if k:
                        out.add(k)
                k = j.get("fn")
                if isinstance(k, str) and k in self.fns:
                    out.add(k)
                k = j.get("closure")
                if isinstance(k, str) and k in self.fns:
                    out.add(k)
        for p in f.promoted:
            for j in walk(p):
                if isinstance(j, dict):
                    k = j.get("closure") or j.get("res") or j.get("fn")
                    if isinstance(k, str) and k in self.fns:
                        out.add(k)
        # trait methods: every workspace implementation
        for t in calls(f):
            fd = t.get("f")
            if fd and fd.get("trait") and fd.get("rkind") in (None, "virtual"):
                for g in self.trait_impls(fd["path"]):
                    out.add(g.key)
        return out

    def trait_impls(self, method_path):
        tr, _, name = method_path.rpartition("::")
        return [f for f in self.fns.values()
                if f.kind == "AssocFn" and f.name == name
                and f.j.get("impl_trait") == tr]

    def reachable(self, roots):
        seen = set()
        todo = [r.key for r in roots]
        while todo:
            k = todo.pop()
            if k in seen or k not in self.fns:
                continue
            seen.add(k)
            f = self.fns[k]
            if f.body:
                todo += list(self.callees(f))
            todo += [c.key for c in self.children.get(k, [])]
        return [self.fns[k] for k in sorted(seen)]


def noregion(s):
    return re.sub(r"'\w+ |<'\w+>|'\w+, ", "", s)


class MissingAnchor(Exception):
    pass


def walk(j):
    st = [j]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, dict):
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def calls(f):
    if f.body:
        for b in f.body["blocks"]:
            if b.get("cleanup"):
                continue
            if b["t"]["t"] == "call":
                yield b["t"]


def callee_paths(t):
    fd = t.get("f")
    if not fd:
        return ("?", "?")
    return (fd.get("path", "?"), fd.get("rpath", fd.get("path", "?")))


# ----------------------------------------------------------------- flattening
class Flat:
    """Flattened CFG.  blocks: list of dict(s=[(place, rvalue, span)], t=term,
    fn=key).  Places are (local, proj) with globally unique locals."""

    def __init__(self):
        self.blocks = []
        self.locals = []  # (ty, name, fnkey, closurekey)
        self.entry = 0
        self.ret = None
        self.inlined = {}
        self.origin = []
        self.accs = set()   # accumulators of unfolded folds


def shift_place(p, off):
    pr = []
    for e in p[1]:
        if isinstance(e, list) and e[0] == "i":
            pr.append(("i", e[1] + off))
        elif isinstance(e, list):
            pr.append(tuple(e))
        else:
            pr.append(e)
    return (p[0] + off, tuple(pr))


def shift_op(o, off):
    if "c" in o:
        return ("c", shift_place(o["c"], off))
    if "m" in o:
        return ("m", shift_place(o["m"], off))
    if "k" in o:
        return ("k", o["k"])
    return ("k", {"ty": "?", "s": "rt"})


def shift_rv(v, off):
    r = dict(v)
    for k in ("o", "a", "b"):
        if k in r:
            r[k] = shift_op(r[k], off)
    if "p" in r:
        r["p"] = shift_place(r["p"], off)
    if "ops" in r:
        r["ops"] = [shift_op(o, off) for o in r["ops"]]
    return r


COMBINATOR_SKIP = ()


def flatten(prog, root, inline=None, maxdepth=8, closures=True, stop=None, dispatch=None, callbacks=True, drain=False, plain=(), collect=False, sums=False, reduce=False, foreign=False):
    """inline(fn)->bool decides which workspace functions are expanded."""
    g = Flat()
    # where the order of the rounds matters, a reversed iterator is not its source
    CHAIN_ID = CHAIN_IDS - {_I + "rev"} if reduce else CHAIN_IDS
    if inline is None:
        def inline(f):
            return f.crate == root.crate
    stop = stop or (lambda f: False)

    def add_frame(f, stack, into=None):
        off = len(g.locals)
        for i, l in enumerate(f.body["locals"]):
            g.locals.append((l[0], l[1], f.key, l[2], i))
        boff = len(g.blocks)
        nb = len(f.body["blocks"])
        for _ in range(nb):
            g.blocks.append(None)
        g.inlined[f.key] = g.inlined.get(f.key, 0) + 1
        rets = []
        pending = []
        for i, b in enumerate(f.body["blocks"]):
            bid = boff + i
            if b.get("cleanup"):
                g.blocks[bid] = {"s": [], "t": {"t": "unreachable"}, "fn": f.key, "depth": len(stack)}
                continue
            ss = []
            for s in b["s"]:
                if "d" in s:
                    ss.append((shift_place(s["d"], off), shift_rv(s["v"], off), s["sp"]))
                else:
                    ss.append((shift_place(s["setd"], off),
                               {"r": "setd", "vi": s["vi"]}, ""))
            t = dict(b["t"])
            for k in ("to", "else"):
                if k in t:
                    t[k] += boff
            if "cases" in t:
                t["cases"] = [(c[0], c[1] + boff) for c in t["cases"]]
            if "o" in t:
                t["o"] = shift_op(t["o"], off)
            if "fo" in t:
                t["fo"] = shift_op(t["fo"], off)
            if "p" in t:
                t["p"] = shift_place(t["p"], off)
            if "args" in t:
                t["args"] = [shift_op(a, off) for a in t["args"]]
                t["d"] = shift_place(t["d"], off)
            t["bid"] = bid
            g.blocks[bid] = {"s": ss, "t": t, "fn": f.key, "depth": len(stack)}
            if t["t"] == "return":
                rets.append(bid)
                if into is not None or drain and f is root and not stack[1:]:
                    # the iterator returned is run to its end, each item handed to `verif::sink`
                    end = newblock([], t, g.blocks[bid])
                    t = {"t": "call", "f": {"path": DRAIN}, "args": [("m", (off, ()))], "d": (newlocal("()", f.key), ()),
                         "to": end, "sp": t.get("sp", ""), "dty": "()", "bid": bid}
                    if into is not None:
                        t["into"] = into
                    g.blocks[bid]["t"] = t
            if t["t"] == "call":
                pending.append(bid)
        fr = Frame(g, range(boff, boff + nb))
        lazy_sites(fr, pending)
        for bid in pending:
            expand_call(f, bid, stack, fr)
        return off, boff, rets

    def chain(op, fr):
        """lazy adaptors between an iterator operand and its source:
        ([(kind, closure operand, block)], source operand, mentions)"""
        ad, seen = [], []
        for _ in range(40):
            if op[0] not in "cm" or op[1][1] not in ((), ("*",)):
                break
            l = op[1][0]
            ds = fr.defs.get(l, [])
            if len(ds) != 1 or l in fr.args:
                break
            d = ds[0]
            if d[0] == "s":
                rv = g.blocks[d[1]]["s"][d[2]][1]
                if rv["r"] == "use" and rv["o"][0] in "cm" and not rv["o"][1][1]:
                    seen.append((l, d))
                    op = rv["o"]
                    continue
                if rv["r"] == "ref" and rv["p"][1] in ((), ("*",)):
                    seen.append((l, d))
                    op = ("c", (rv["p"][0], ()))
                    continue
                break
            t = g.blocks[d[1]]["t"]
            p = (t.get("f") or {}).get("path", "")
            if p in ADAPT and len(t["args"]) == 2 and (closure_of(t["args"][1]) is not None or outside(t["args"][1])):
                seen.append((l, d))
                ad.append((ADAPT[p], t["args"][1], d[1]))
                op = t["args"][0]
                continue
            if p in CHAIN_ID or p in ENUM:
                seen.append((l, d))
                if p in ENUM:
                    ad.append(("enumerate", None, d[1]))
                op = t["args"][0]
                continue
            if reduce and p == _I + "take" and len(t["args"]) == 2:
                seen.append((l, d))
                ad.append(("take", t["args"][1], d[1]))
                op = t["args"][0]
                continue
            break
        ad.reverse()
        return ad, op, seen

    def lazy_sites(fr, pending):
        """adaptor calls whose result only reaches consumers expanded below"""
        allowed = {}
        cand = set()
        for bid in pending:
            t = g.blocks[bid]["t"]
            p = (t.get("f") or {}).get("path", "")
            if p not in CONSUME and not (sums and p == _I + "sum") and not (reduce and p in (_I + "reduce", EXTEND)) \
                    or "to" not in t or p == EXTEND and len(t["args"]) != 2:
                continue
            k = 1 if p == _I + "reduce" else CONSUME.get(p)
            if k and (len(t["args"]) <= k or closure_of(t["args"][k]) is None):
                continue
            ad, src, seen = chain(t["args"][1 if p == EXTEND else 0], fr)
            if not ad or p == _I + "next" and any(k == "flat_map" and not spare(o) for k, o, _ in ad):
                continue
            use = ("t", bid)
            for l, d in seen:
                allowed.setdefault(l, set()).add(use)
                use = d if d[0] == "s" else ("t", d[1])
            cand |= {(b, l) for _, _, b in ad for l, d in seen if d == ("c", b)}
        # a local on a chain with any other use keeps the whole chain eager
        bad = {l for l in allowed if fr.uses.get(l, set()) - allowed[l]}
        ch = True
        while ch:
            ch = False
            for l in list(allowed):
                if l in bad:
                    continue
                for u in fr.uses.get(l, ()):
                    tgt = None
                    if u[0] == "s":
                        p = g.blocks[u[1]]["s"][u[2]][0]
                        tgt = p[0]
                    else:
                        t = g.blocks[u[1]]["t"]
                        pp = (t.get("f") or {}).get("path", "")
                        if pp in ADAPT or pp in CHAIN_ID or pp in ENUM or reduce and pp == _I + "take":
                            tgt = t["d"][0]
                    if tgt is not None and tgt in bad:
                        bad.add(l)
                        ch = True
        fr.lazy = {b for b, l in cand if l not in bad}

    def closure_of(op):
        """closure key / fn key carried by an operand"""
        if op[0] == "k":
            c = op[1].get("closure")
            if c and c in prog.fns:
                return c, True
            fd = op[1].get("f")
            if fd:
                k = fd.get("res") or fd.get("fn")
                if k in prog.fns and prog.fns[k].body and prog.fns[k].is_fn:
                    return k, False
            return None
        l, pr = op[1]
        if pr:
            return None
        ck = g.locals[l][3]
        if ck and ck in prog.fns:
            return ck, True
        return None

    def outside(op):
        """a function of another crate given by name"""
        return bool(foreign and op[0] == "k" and op[1].get("f") and op[1]["f"].get("path"))

    def spare(op):
        """a closure that gives one item or none"""
        c = closure_of(op)
        return bool(reduce and c and prog.fns[c[0]].body["locals"][0][0].startswith("core::option::Option"))

    def expand_call(f, bid, stack, fr):
        if bid in fr.lazy:
            return
        blk = g.blocks[bid]
        t = blk["t"]
        fd = t.get("f")
        if not fd:
            return
        key = prog.conv(fd)
        if key:
            fd = dict(fd, rkind="item")
        else:
            key = fd.get("res") or fd.get("fn")
        callee = prog.fns.get(key)
        if callee is None and fd.get("fn") in prog.fns and prog.fns[fd["fn"]].body:
            # trait default method
            pass
        if callee is not None and callee.body and fd.get("rkind") not in (
                "virtual", "closure_once", "fnptr", "clone", "drop", "other", None) \
                and len(stack) < maxdepth and key not in stack and not stop(callee) \
                and (inline(callee) or callee.is_closure):
            off, boff, rets = add_frame(callee, stack + [key])
            ss = []
            if callee.is_closure:
                ss.append(((off + 1, ()), {"r": "use", "o": t["args"][0]}, t["sp"]))
                argc = callee.body["argc"]
                a1 = t["args"][1] if len(t["args"]) > 1 else None
                for i in range(argc - 1):
                    if a1 is not None and a1[0] in "cm":
                        p = (a1[1][0], a1[1][1] + (("f", i, str(i), "", ""),))
                        ss.append(((off + 2 + i, ()), {"r": "use", "o": ("m", p)}, t["sp"]))
            else:
                for i, a in enumerate(t["args"]):
                    ss.append(((off + 1 + i, ()), {"r": "use", "o": a}, t["sp"]))
            finish_inline(blk, ss, boff, off, rets, t)
            return
        if fd.get("rkind") == "closure_once":
            ck = closure_of(t["args"][0])
            if ck and ck[0] in prog.fns and ck[0] not in stack:
                callee = prog.fns[ck[0]]
                off, boff, rets = add_frame(callee, stack + [ck[0]])
                ss = [((off + 1, ()), {"r": "use", "o": t["args"][0]}, t["sp"])]
                a1 = t["args"][1]
                for i in range(callee.body["argc"] - 1):
                    if a1[0] in "cm":
                        p = (a1[1][0], a1[1][1] + (("f", i, str(i), "", ""),))
                        ss.append(((off + 2 + i, ()), {"r": "use", "o": ("m", p)}, t["sp"]))
                finish_inline(blk, ss, boff, off, rets, t)
                return
        if closures and desugar(f, bid, stack, fr):
            return
        # closures handed to code we do not expand: may run 0..n times
        if closures and callbacks and (callee is None or not callee.body or stop(callee) or not inline(callee)):
            cbs = []
            for a in t["args"]:
                c = closure_of(a)
                if c and c[0] not in stack and len(stack) < maxdepth:
                    cf = prog.fns[c[0]]
                    if not c[1] and (stop(cf) or not inline(cf)):
                        continue
                    cbs.append((a, cf, c[1]))
            if cbs:
                hub = len(g.blocks)
                g.blocks.append(None)
                callb = len(g.blocks)
                g.blocks.append({"s": [], "t": t, "fn": blk["fn"], "depth": blk["depth"]})
                t["bid"] = callb
                others = [a for a in t["args"]]
                targets = [callb]
                extra = []
                for a, cf, isclo in cbs:
                    off, boff, rets = add_frame(cf, stack + [cf.key])
                    n0 = 0
                    ss = []
                    if isclo:
                        ss.append(((off + 1, ()), {"r": "cloref", "o": a}, t["sp"]))
                        n0 = 1
                    for i in range(n0, cf.body["argc"]):
                        ss.append(((off + 1 + i, ()),
                                   {"r": "havoc", "from": [o for o in others if o is not a],
                                    "call": t, "ai": i - n0, "clo": cf.key}, t["sp"]))
                    pre = len(g.blocks)
                    g.blocks.append({"s": ss, "t": {"t": "goto", "to": boff}, "fn": blk["fn"], "depth": blk["depth"]})
                    for r in rets:
                        g.blocks[r]["t"] = {"t": "goto", "to": hub, "cret": True}
                    extra.append((off, cf.key))
                    targets.append(pre)
                g.blocks[hub] = {"s": [], "t": {"t": "nondet", "to": targets}, "fn": blk["fn"], "depth": blk["depth"]}
                g.blocks[bid] = {"s": blk["s"], "t": {"t": "goto", "to": hub}, "fn": blk["fn"], "depth": blk["depth"]}
                t["clorets"] = extra

    # -- combinators with an exactly known meaning become explicit branches
    def invoke(cop, args, dest, to, blk, t, stack):
        """block that calls the closure / fn item `cop` with `args` (rvalues)
        and stores the result in `dest`; None if it cannot be expanded"""
        c = closure_of(cop)
        if c is None and outside(cop):
            cf = None
        elif c is None or c[0] in stack or len(stack) >= maxdepth:
            return None
        else:
            cf = prog.fns[c[0]]
        if cf is None or not c[1] and (stop(cf) or not inline(cf)):
            fd = cop[1].get("f") if cop[0] == "k" else None
            if fd is None:
                return None
            ss, al = [], []
            for rv in args:
                l = newlocal("?", blk["fn"])
                ss.append(((l, ()), rv, t["sp"]))
                al.append(("m", (l, ())))
            b = newblock(ss, None, blk)
            g.blocks[b]["t"] = {"t": "call", "f": fd, "args": al, "d": dest, "to": to,
                                "sp": t["sp"], "dty": "?", "bid": b}
            return b
        off, boff, rets = add_frame(cf, stack + [cf.key])
        ss = []
        n0 = 0
        if c[1]:
            ss.append(((off + 1, ()), {"r": "cloref", "o": cop}, t["sp"]))
            n0 = 1
        for i in range(n0, cf.body["argc"]):
            if i - n0 < len(args):
                ss.append(((off + 1 + i, ()), args[i - n0], t["sp"]))
        pre = newblock(ss, {"t": "goto", "to": boff}, blk)
        ex = newblock([(dest, {"r": "use", "o": ("m", (off, ()))}, t["sp"])],
                      {"t": "goto", "to": to}, blk)
        for r in rets:
            g.blocks[r]["t"] = {"t": "goto", "to": ex, "iret": True}
        return pre

    def newlocal(ty, fnkey):
        g.locals.append((ty, None, fnkey, None, -1))
        return len(g.locals) - 1

    def newblock(ss, t, blk):
        g.blocks.append({"s": ss, "t": t, "fn": blk["fn"], "depth": blk["depth"]})
        return len(g.blocks) - 1

    def desugar(f, bid, stack, fr):
        blk = g.blocks[bid]
        t = blk["t"]
        if "to" not in t:
            return False
        path = t["f"].get("path", "")
        spec = DESUGAR.get(path)
        if spec is None and collect and path == COLLECT:
            spec = ("collect",)
        if sums and path in (_I + "sum", _I + "count"):
            spec = ("total",)
        if reduce and path == _I + "reduce":
            spec = ("reduce",)
        at = 0
        if reduce and path == EXTEND and len(t["args"]) == 2:
            spec, at = ("extend",), 1
        if spec is None or spec[0] in plain:
            return False
        kind = spec[0]
        args = t["args"]
        sp = t["sp"]
        d, to = t["d"], t["to"]
        snap = (len(g.blocks), len(g.locals))

        def fail():
            # nothing refers to blocks added past the snapshot
            for i in range(snap[0], len(g.blocks)):
                g.blocks[i] = {"s": [], "t": {"t": "unreachable"}, "fn": blk["fn"], "depth": blk["depth"]}
            return False

        def place_of(op, ss):
            if op[0] in "cm":
                return op[1]
            l = newlocal("?", blk["fn"])
            ss.append(((l, ()), {"r": "use", "o": op}, sp))
            return (l, ())

        def K(i):
            return {"r": "use", "o": ("k", {"ty": "bool", "int": i})}

        def enum(variant, ops, adt):
            return {"r": "agg", "kind": "adt", "adt": adt, "variant": variant,
                    "fields": [str(i) for i in range(len(ops))], "ops": ops}

        OPT, RES = "core::option::Option", "core::result::Result"
        if kind == "sum":
            _, adt, pos, neg, on_pos, on_neg, ci = spec
            cop = args[ci] if ci < len(args) else None
            if cop is None or closure_of(cop) is None and not outside(cop):
                return False
            ss = list(blk["s"])
            p0 = place_of(args[0], ss)
            ld = newlocal("isize", blk["fn"])
            if adt == "bool":
                sw = {"t": "switch", "o": ("c", p0), "oty": "bool", "cases": [(0, None)], "else": None, "sp": sp}
            else:
                vs = [(0, "None"), (1, "Some")] if adt == OPT else [(0, "Ok"), (1, "Err")]
                ss.append(((ld, ()), {"r": "discr", "p": p0, "vs": vs}, sp))
                sw = {"t": "switch", "o": ("m", (ld, ())), "oty": "isize",
                      "cases": [(dict((b, a) for a, b in vs)[neg], None)], "else": None, "sp": sp}

            def payload(v):
                return ("m", (p0[0], p0[1] + (("v", 0, v), ("f", 0, "0", "", ""))))

            def arm(act, variant):
                """entry block of one arm"""
                what = act[0]
                if what == "self":
                    return newblock([(d, {"r": "use", "o": ("m", p0)}, sp)], {"t": "goto", "to": to}, blk)
                if what == "const":
                    return newblock([(d, K(act[1]), sp)], {"t": "goto", "to": to}, blk)
                if what == "none":
                    return newblock([(d, enum("None", [], OPT), sp)], {"t": "goto", "to": to}, blk)
                if what == "arg":
                    return newblock([(d, {"r": "use", "o": args[act[1]]}, sp)], {"t": "goto", "to": to}, blk)
                if what == "payload":
                    return newblock([(d, {"r": "use", "o": payload(variant)}, sp)], {"t": "goto", "to": to}, blk)
                if what == "wrap":   # variant(payload)
                    return newblock([(d, enum(act[1], [payload(variant)], act[2]), sp)], {"t": "goto", "to": to}, blk)
                if what in ("call", "callwrap", "filter"):
                    cargs = []
                    if act[-1] == "p":
                        cargs = [{"r": "use", "o": payload(variant)}]
                    elif act[-1] == "r":
                        pl = payload(variant)[1]
                        cargs = [{"r": "ref", "p": pl, "mut": False}]
                    k = act[1]
                    if what == "call":
                        return invoke(args[k], cargs, d, to, blk, t, stack)
                    l = newlocal("?" if what == "callwrap" else "bool", blk["fn"])
                    if what == "callwrap":
                        fin = newblock([(d, enum(act[2], [("m", (l, ()))], act[3]), sp)],
                                       {"t": "goto", "to": to}, blk)
                    else:
                        y = newblock([(d, {"r": "use", "o": ("m", p0)}, sp)], {"t": "goto", "to": to}, blk)
                        n = newblock([(d, enum("None", [], OPT), sp)], {"t": "goto", "to": to}, blk)
                        fin = newblock([], {"t": "switch", "o": ("m", (l, ())), "oty": "bool",
                                            "cases": [(0, n)], "else": y, "sp": sp}, blk)
                    return invoke(args[k], cargs, (l, ()), fin, blk, t, stack)
                raise AssertionError(what)

            a = arm(on_pos, pos)
            if a is None:
                return fail()
            b = arm(on_neg, neg)
            if b is None:
                return fail()
            sw["cases"] = [(sw["cases"][0][0], b)]
            sw["else"] = a
            g.blocks[bid] = dict(blk, s=ss, t=sw)
            return True
        if kind == "once":
            # the closure runs exactly once between two marks; its error is handed through
            cop = args[1]
            if closure_of(cop) is None or "Result<" not in prog.fns[closure_of(cop)[0]].body["locals"][0][0]:
                return False
            ss = list(blk["s"])
            p0 = place_of(args[0], ss)
            l, ld, l2, lu = (newlocal("?", blk["fn"]), newlocal("isize", blk["fn"]), newlocal("?", blk["fn"]),
                             newlocal("()", blk["fn"]))

            def mark(path, dst, nxt):
                b = newblock([], None, blk)
                g.blocks[b]["t"] = {"t": "call", "f": {"path": path}, "args": [("c", p0)], "d": (dst, ()) if isinstance(dst, int)
                                    else dst, "to": nxt, "sp": sp, "dty": "?" if path == LEAVE else "()", "bid": b}
                return b
            bad = newblock([(d, enum("Err", [("m", (l, (("v", 1, "Err"), ("f", 0, "0", "", ""))))], RES), sp)],
                           {"t": "goto", "to": to}, blk)
            good = mark(LEAVE, d, to)
            test = newblock([((ld, ()), {"r": "discr", "p": (l, ()), "vs": [(0, "Ok"), (1, "Err")]}, sp)],
                            {"t": "switch", "o": ("m", (ld, ())), "oty": "isize", "cases": [(1, bad)], "else": good, "sp": sp}, blk)
            e = invoke(cop, [{"r": "use", "o": ("m", (l2, ()))}], (l, ()), test, blk, t, stack)
            if e is None:
                return fail()
            g.blocks[bid] = dict(blk, s=ss, t={"t": "goto", "to": mark(ENTER, lu, e)})
            return True
        if kind in ("iter", "next", "find", "findmap", "each", "count", "fold", "drain", "try", "collect", "total", "reduce", "extend"):
            cop = args[1] if kind == "reduce" else args[CONSUME[path]] if CONSUME.get(path) else None
            if cop is not None and closure_of(cop) is None:
                return False
            if kind == "try" and "Result<" not in prog.fns[closure_of(cop)[0]].body["locals"][0][0]:
                return False
            ad, src, _ = chain(args[at], fr)
            if any(b not in fr.lazy for _, _, b in ad):
                if kind in ("total", "extend"):
                    return False
                ad, src = [], args[0]
            if kind in ("next", "count", "extend") and not ad:
                return False
            if kind == "next" and any(k == "flat_map" and not spare(o) for k, o, _ in ad):
                return False    # a step of a nested iteration resumes in the middle
            hubs = [newblock([], None, blk) for _ in range(1 + sum(1 for k, o, _ in ad if k == "flat_map" and not spare(o)))]
            outer, hub = hubs[0], hubs[-1]
            acc = newlocal("usize" if kind == "total" else t.get("dty") or "?", blk["fn"]) if kind in ("fold", "total", "reduce") else None
            if kind in ("fold", "reduce"):
                g.accs.add(acc)
            ct = re.match(r"core::(result::Result|option::Option)<", t.get("dty") or "") if kind == "collect" else None
            if kind == "collect":
                cacc = newlocal(t.get("dty") or "?", blk["fn"])
            over = {"total": [(d, {"r": "use", "o": ("m", (acc, ()))}, sp)] if acc else [],
                    "fold": [(d, {"r": "use", "o": ("m", (acc, ()))}, sp)],
                    "findmap": [(d, enum("None", [], OPT), sp)], "iter": [(d, K(spec[2] if kind == "iter" else 0), sp)],
                    "next": [(d, enum("None", [], OPT), sp)], "find": [(d, enum("None", [], OPT), sp)],
                    "each": [(d, {"r": "agg", "kind": "tuple", "ops": [], "fields": []}, sp)],
                    "drain": [(d, {"r": "agg", "kind": "tuple", "ops": [], "fields": []}, sp)],
                    "extend": [(d, {"r": "agg", "kind": "tuple", "ops": [], "fields": []}, sp)],
                    "count": [(d, {"r": "havoc", "from": [src], "call": t, "ai": -1, "clo": ""}, sp)]}
            if kind == "try":
                lu = newlocal("()", blk["fn"])
                over = [((lu, ()), {"r": "agg", "kind": "tuple", "ops": [], "fields": []}, sp),
                        (d, enum("Ok", [("m", (lu, ()))], RES), sp)]
            elif kind == "reduce":
                over = []
            elif kind == "collect":
                w = {"r": "use", "o": ("m", (cacc, ()))}
                if ct:
                    w = enum("Ok", [("m", (cacc, ()))], RES) if "Result" in ct.group(1) else enum("Some", [("m", (cacc, ()))], OPT)
                over = [(d, w, sp)]
            else:
                over = over[kind]
            if kind == "reduce":
                ob = newblock([], None, blk)
                g.blocks[ob]["t"] = {"t": "call", "f": {"path": REDUCED}, "args": [("m", (acc, ()))], "d": d, "to": to,
                                     "sp": sp, "dty": t.get("dty", ""), "bid": ob}
                to = ob
            done = newblock(over, {"t": "goto", "to": to, "exhausted": True, "src": src, "call": t, "ai": 0}, blk)
            # where an adaptor ends the iteration early
            quit = newblock(over, {"t": "goto", "to": to}, blk) if reduce or foreign else done
            item = newlocal("?", blk["fn"])
            # what happens to an item that passes all adaptors
            if kind == "iter":
                l = newlocal("bool", blk["fn"])
                hit = newblock([(d, K(1 - spec[2]), sp)], {"t": "goto", "to": to}, blk)
                test = newblock([], {"t": "switch", "o": ("m", (l, ())), "oty": "bool",
                                     "cases": [(0, hub if spec[1] else hit)],
                                     "else": hit if spec[1] else hub, "sp": sp}, blk)
                e = invoke(cop, [{"r": "use", "o": ("m", (item, ()))}], (l, ()), test, blk, t, stack)
            elif kind == "try":
                l = newlocal(prog.fns[closure_of(cop)[0]].body["locals"][0][0], blk["fn"])
                ld = newlocal("isize", blk["fn"])
                hit = newblock([(d, {"r": "use", "o": ("m", (l, ()))}, sp)], {"t": "goto", "to": to}, blk)
                test = newblock([((ld, ()), {"r": "discr", "p": (l, ()), "vs": [(0, "Ok"), (1, "Err")]}, sp)],
                                {"t": "switch", "o": ("m", (ld, ())), "oty": "isize",
                                 "cases": [(1, hit)], "else": hub, "sp": sp}, blk)
                e = invoke(cop, [{"r": "use", "o": ("m", (item, ()))}], (l, ()), test, blk, t, stack)
            elif kind == "each":
                l = newlocal("?", blk["fn"])
                e = invoke(cop, [{"r": "use", "o": ("m", (item, ()))}], (l, ()), hub, blk, t, stack)
            elif kind in ("fold", "reduce"):
                l = newlocal("?", blk["fn"])
                upd = newblock([((acc, ()), {"r": "use", "o": ("m", (l, ()))}, sp)], {"t": "goto", "to": hub}, blk)
                e = invoke(cop, [{"r": "use", "o": ("m", (acc, ()))}, {"r": "use", "o": ("m", (item, ()))}],
                           (l, ()), upd, blk, t, stack)
            elif kind == "total":
                one = {"r": "use", "o": ("m", (item, ()))} if path.endswith("sum") else K(1)
                step = newlocal("usize", blk["fn"])
                e = newblock([((step, ()), one, sp),
                              ((acc, ()), {"r": "bin", "op": "Add", "a": ("c", (acc, ())), "b": ("m", (step, ()))}, sp)],
                             {"t": "goto", "to": hub}, blk)
            elif kind == "findmap":
                l = newlocal("?", blk["fn"])
                ld = newlocal("isize", blk["fn"])
                hit = newblock([(d, {"r": "use", "o": ("m", (l, ()))}, sp)], {"t": "goto", "to": to}, blk)
                test = newblock([((ld, ()), {"r": "discr", "p": (l, ()), "vs": [(0, "None"), (1, "Some")]}, sp)],
                                {"t": "switch", "o": ("m", (ld, ())), "oty": "isize",
                                 "cases": [(0, hub)], "else": hit, "sp": sp}, blk)
                e = invoke(cop, [{"r": "use", "o": ("m", (item, ()))}], (l, ()), test, blk, t, stack)
            elif kind == "find":
                l = newlocal("bool", blk["fn"])
                hit = newblock([(d, enum("Some", [("m", (item, ()))], OPT), sp)], {"t": "goto", "to": to}, blk)
                test = newblock([], {"t": "switch", "o": ("m", (l, ())), "oty": "bool",
                                     "cases": [(0, hub)], "else": hit, "sp": sp}, blk)
                e = invoke(cop, [{"r": "ref", "p": (item, ()), "mut": False}], (l, ()), test, blk, t, stack)
            elif kind == "drain" and "into" in t:
                ii, ie, ihub, iup = t["into"]
                e = newblock([((ii, ()), {"r": "use", "o": ("m", (item, ()))}, sp)], {"t": "goto", "to": ie}, blk)
                g.blocks[ihub] = {"s": [], "t": {"t": "goto", "to": hub}, "fn": blk["fn"], "depth": blk["depth"]}
                g.blocks[done]["t"]["to"] = iup
            elif kind == "drain":
                l = newlocal("()", blk["fn"])
                e = newblock([], None, blk)
                g.blocks[e]["t"] = {"t": "call", "f": {"path": SINK}, "args": [("m", (item, ()))], "d": (l, ()), "to": hub,
                                    "sp": sp, "dty": "()", "bid": e}
            elif kind == "extend":
                l = newlocal("()", blk["fn"])
                e = newblock([], None, blk)
                g.blocks[e]["t"] = {"t": "call", "f": {"path": COLL_PUSH}, "args": [("c", args[0][1]), ("m", (item, ()))],
                                    "d": (l, ()), "to": hub, "sp": sp, "dty": "()", "bid": e}
            elif kind == "collect":
                l = newlocal("()", blk["fn"])
                pay = item
                if ct:
                    pay = newlocal("?", blk["fn"])
                e = newblock([], None, blk)
                g.blocks[e]["t"] = {"t": "call", "f": {"path": COLL_PUSH}, "args": [("m", (cacc, ())), ("m", (pay, ()))],
                                    "d": (l, ()), "to": hub, "sp": sp, "dty": "()", "bid": e}
                if ct:
                    res = "Result" in ct.group(1)
                    ld = newlocal("isize", blk["fn"])
                    good, badv = ("Ok", "Err") if res else ("Some", "None")
                    gi = 0 if res else 1
                    g.blocks[e]["s"] = [((pay, ()), {"r": "use", "o": ("m", (item, (("v", gi, good), ("f", 0, "0", "", ""))))}, sp)]
                    pb = newlocal("?", blk["fn"])
                    hit = newblock([((pb, ()), {"r": "use", "o": ("m", (item, (("v", 1, "Err"), ("f", 0, "0", "", ""))))}, sp),
                                    (d, enum("Err", [("m", (pb, ()))], RES), sp)] if res else
                                   [(d, enum("None", [], OPT), sp)], {"t": "goto", "to": to}, blk)
                    e = newblock([((ld, ()), {"r": "discr", "p": (item, ()), "vs": [(gi, good), (1 - gi, badv)]}, sp)],
                                 {"t": "switch", "o": ("m", (ld, ())), "oty": "isize",
                                  "cases": [(gi, e)], "else": hit, "sp": sp}, blk)
            elif kind == "next":
                e = newblock([(d, enum("Some", [("m", (item, ()))], OPT), sp)], {"t": "goto", "to": to}, blk)
            else:
                e = newblock([], {"t": "goto", "to": hub, "counted": True}, blk)
            if e is None:
                return fail()
            for ak, aop, ab in reversed(ad):
                nitem = newlocal("?", blk["fn"])
                if ak in ("filter", "take_while", "skip_while"):
                    l = newlocal("bool", blk["fn"])
                    move = newblock([((item, ()), {"r": "use", "o": ("m", (nitem, ()))}, sp)],
                                    {"t": "goto", "to": e}, blk)
                    if ak == "filter":
                        test = newblock([], {"t": "switch", "o": ("m", (l, ())), "oty": "bool",
                                             "cases": [(0, hub)], "else": move, "sp": sp}, blk)
                    elif ak == "take_while":
                        test = newblock([], {"t": "switch", "o": ("m", (l, ())), "oty": "bool",
                                             "cases": [(0, quit)], "else": move, "sp": sp}, blk)
                    else:
                        test = newblock([], {"t": "nondet", "to": [hub, move]}, blk)
                    e = invoke(aop, [{"r": "ref", "p": (nitem, ()), "mut": False}], (l, ()), test, blk, t, stack)
                elif ak == "take":
                    # a count of the items let through so far
                    lc, ll = newlocal("usize", blk["fn"]), newlocal("bool", blk["fn"])
                    g.blocks[ab] = dict(g.blocks[ab], s=g.blocks[ab]["s"] + [((lc, ()), K(0), sp)])
                    one = newblock([((lc, ()), {"r": "bin", "op": "Add", "a": ("c", (lc, ())), "b": ("k", {"ty": "usize", "int": 1})}, sp),
                                    ((item, ()), {"r": "use", "o": ("m", (nitem, ()))}, sp)], {"t": "goto", "to": e}, blk)
                    n = ("c", aop[1]) if aop[0] == "m" else aop
                    e = newblock([((ll, ()), {"r": "bin", "op": "Lt", "a": ("c", (lc, ())), "b": n}, sp)],
                                 {"t": "switch", "o": ("m", (ll, ())), "oty": "bool", "cases": [(0, quit)], "else": one, "sp": sp}, blk)
                elif ak == "enumerate" and reduce and any(k not in ("map", "enumerate") for k, _, _ in ad[:ad.index((ak, aop, ab))]):
                    li, lc = newlocal("usize", blk["fn"]), newlocal("usize", blk["fn"])
                    g.blocks[ab] = dict(g.blocks[ab], s=g.blocks[ab]["s"] + [((lc, ()), K(0), sp)])
                    e = newblock([((li, ()), {"r": "use", "o": ("c", (lc, ()))}, sp),
                                  ((lc, ()), {"r": "bin", "op": "Add", "a": ("c", (lc, ())), "b": ("k", {"ty": "usize", "int": 1})}, sp),
                                  ((item, ()), {"r": "agg", "kind": "tuple", "fields": ["0", "1"],
                                                "ops": [("m", (li, ())), ("m", (nitem, ()))]}, sp)],
                                 {"t": "goto", "to": e}, blk)
                elif ak == "enumerate":
                    li = newlocal("usize", blk["fn"])
                    e = newblock([((li, ()), {"r": "havoc", "from": [], "call": t, "ai": 7, "clo": ""}, sp),
                                  ((item, ()), {"r": "agg", "kind": "tuple", "fields": ["0", "1"],
                                                "ops": [("m", (li, ())), ("m", (nitem, ()))]}, sp)],
                                 {"t": "goto", "to": e}, blk)
                elif ak == "flat_map" and not spare(aop):
                    l = newlocal("?", blk["fn"])
                    up = hubs[hubs.index(hub) - 1]
                    c = closure_of(aop)
                    cf = prog.fns[c[0]]
                    nret = sum(1 for b in cf.body["blocks"] if not b.get("cleanup") and b["t"]["t"] == "return")
                    if c[1] and nret == 1 and c[0] not in stack and len(stack) < maxdepth:
                        # the closure's own (lazy) result is unfolded in place
                        off, boff, _ = add_frame(cf, stack + [cf.key], (item, e, hub, up))
                        e = newblock([((off + 1, ()), {"r": "cloref", "o": aop}, sp),
                                      ((off + 2, ()), {"r": "use", "o": ("m", (nitem, ()))}, sp)],
                                     {"t": "goto", "to": boff}, blk)
                        hub = up
                        item = nitem
                        continue
                    over = newblock([], {"t": "goto", "to": up, "exhausted": True, "src": ("c", (l, ())), "call": t,
                                                  "ai": 10 + hubs.index(hub)}, blk)
                    each = newblock([((item, ()), {"r": "havoc", "from": [("c", (l, ()))], "call": t, "ai": 10 + hubs.index(hub),
                                                   "clo": "", "item": True}, sp)], {"t": "goto", "to": e}, blk)
                    g.blocks[hub]["t"] = {"t": "nondet", "to": [over, each], "items": True}
                    e = invoke(aop, [{"r": "use", "o": ("m", (nitem, ()))}], (l, ()), hub, blk, t, stack)
                    hub = up
                elif ak == "map":
                    e = invoke(aop, [{"r": "use", "o": ("m", (nitem, ()))}], (item, ()), e, blk, t, stack)
                elif ak in ("filter_map", "flat_map"):
                    l = newlocal("?", blk["fn"])
                    ld = newlocal("isize", blk["fn"])
                    move = newblock([((item, ()), {"r": "use", "o": (
                        "m", (l, (("v", 0, "Some"), ("f", 0, "0", "", ""))))}, sp)], {"t": "goto", "to": e}, blk)
                    test = newblock([((ld, ()), {"r": "discr", "p": (l, ()), "vs": [(0, "None"), (1, "Some")]}, sp)],
                                    {"t": "switch", "o": ("m", (ld, ())), "oty": "isize",
                                     "cases": [(0, hub)], "else": move, "sp": sp}, blk)
                    e = invoke(aop, [{"r": "use", "o": ("m", (nitem, ()))}], (l, ()), test, blk, t, stack)
                if e is None:
                    return fail()
                item = nitem
            start = newblock([((item, ()), {"r": "havoc", "from": [src], "call": t, "ai": 0, "clo": "", "item": True}, sp)],
                             {"t": "goto", "to": e}, blk)
            t["bid"] = outer
            g.blocks[outer]["t"] = {"t": "nondet", "to": [done, start], "items": True}
            ss = list(blk["s"])
            if acc is not None:
                ss.append(((acc, ()), {"r": "use", "o": args[1]} if kind == "fold" else K(0), sp) if kind != "reduce" else
                          ((acc, ()), {"r": "unit"}, sp))
            if kind == "collect":
                nb = newblock([], None, blk)
                g.blocks[nb]["t"] = {"t": "call", "f": {"path": COLL_NEW}, "args": [], "d": (cacc, ()), "to": outer,
                                     "sp": sp, "dty": t.get("dty", ""), "bid": nb}
                g.blocks[bid] = dict(blk, s=ss, t={"t": "goto", "to": nb})
                return True
            g.blocks[bid] = dict(blk, s=ss, t={"t": "goto", "to": outer})
            return True
        return False

    def finish_inline(blk, ss, boff, off, rets, t):
        entry = len(g.blocks)
        g.blocks.append({"s": ss, "t": {"t": "goto", "to": boff}, "fn": blk["fn"], "depth": blk["depth"]})
        blk["t"] = {"t": "goto", "to": entry, "inl": t}
        if "to" in t:
            ex = len(g.blocks)
            g.blocks.append({"s": [(t["d"], {"r": "use", "o": ("m", (off, ()))}, t["sp"])],
                             "t": {"t": "goto", "to": t["to"]}, "fn": blk["fn"], "depth": blk["depth"]})
            for r in rets:
                g.blocks[r]["t"] = {"t": "goto", "to": ex, "iret": True}
        else:
            for r in rets:
                g.blocks[r]["t"] = {"t": "unreachable"}

    g.args = list(range(1, root.body["argc"] + 1))
    g.root = root
    add_frame(root, [root.key])
    return g


_O, _R = "core::option::Option", "core::result::Result"
_o = "core::option::Option::<T>::"
_r = "core::result::Result::<T, E>::"
DESUGAR = {
    _o + "map": ("sum", _O, "Some", "None", ("callwrap", 1, "Some", _O, "p"), ("none",), 1),
    _o + "and_then": ("sum", _O, "Some", "None", ("call", 1, "p"), ("none",), 1),
    _o + "is_some_and": ("sum", _O, "Some", "None", ("call", 1, "p"), ("const", 0), 1),
    _o + "is_none_or": ("sum", _O, "Some", "None", ("call", 1, "p"), ("const", 1), 1),
    _o + "map_or": ("sum", _O, "Some", "None", ("call", 2, "p"), ("arg", 1), 2),
    _o + "map_or_else": ("sum", _O, "Some", "None", ("call", 2, "p"), ("call", 1, ""), 2),
    _o + "unwrap_or_else": ("sum", _O, "Some", "None", ("payload",), ("call", 1, ""), 1),
    _o + "or_else": ("sum", _O, "Some", "None", ("self",), ("call", 1, ""), 1),
    _o + "ok_or_else": ("sum", _O, "Some", "None", ("wrap", "Ok", _R), ("callwrap", 1, "Err", _R, ""), 1),
    _o + "filter": ("sum", _O, "Some", "None", ("filter", 1, "r"), ("none",), 1),
    _r + "map": ("sum", _R, "Ok", "Err", ("callwrap", 1, "Ok", _R, "p"), ("wrap", "Err", _R), 1),
    _r + "map_err": ("sum", _R, "Ok", "Err", ("wrap", "Ok", _R), ("callwrap", 1, "Err", _R, "p"), 1),
    _r + "and_then": ("sum", _R, "Ok", "Err", ("call", 1, "p"), ("wrap", "Err", _R), 1),
    _r + "or_else": ("sum", _R, "Ok", "Err", ("wrap", "Ok", _R), ("call", 1, "p"), 1),
    _r + "unwrap_or_else": ("sum", _R, "Ok", "Err", ("payload",), ("call", 1, "p"), 1),
    _r + "is_ok_and": ("sum", _R, "Ok", "Err", ("call", 1, "p"), ("const", 0), 1),
    _r + "is_err_and": ("sum", _R, "Ok", "Err", ("const", 0), ("call", 1, "p"), 1),
    _r + "map_or": ("sum", _R, "Ok", "Err", ("call", 2, "p"), ("arg", 1), 2),
    _r + "map_or_else": ("sum", _R, "Ok", "Err", ("call", 2, "p"), ("call", 1, "p"), 2),
    "core::bool::<impl bool>::then": ("sum", "bool", 1, 0, ("callwrap", 1, "Some", _O, ""), ("none",), 1),
    "core::iter::traits::iterator::Iterator::any": ("iter", True, 0),
    "core::iter::traits::iterator::Iterator::all": ("iter", False, 1),
    "core::iter::traits::iterator::Iterator::try_for_each": ("try",),
    "core::iter::traits::iterator::Iterator::next": ("next",),
    "core::iter::traits::iterator::Iterator::find": ("find",),
    "core::iter::traits::iterator::Iterator::for_each": ("each",),
    "core::iter::traits::iterator::Iterator::count": ("count",),
    "core::iter::traits::iterator::Iterator::find_map": ("findmap",),
    "core::iter::traits::iterator::Iterator::fold": ("fold",),
}
_I = "core::iter::traits::iterator::Iterator::"
COLLECT = _I + "collect"
EXTEND = "core::iter::traits::collect::Extend::extend"
REDUCED = "verif::reduced"
DRAIN, SINK = "verif::drain", "verif::sink"
COLL_NEW, COLL_PUSH = "verif::coll_new", "verif::coll_push"
ENTER, LEAVE = "verif::enter", "verif::leave"
DESUGAR["quick_xml::writer::ElementWriter::<'a, W>::write_inner_content"] = ("once",)
DESUGAR[DRAIN] = ("drain",)
ADAPT = {_I + k: k for k in ("filter", "map", "filter_map", "take_while", "skip_while", "flat_map")}
CHAIN_IDS = {"core::iter::traits::collect::IntoIterator::into_iter", _I + "by_ref", _I + "cloned", _I + "copied",
            _I + "rev", _I + "fuse"}
ENUM = {_I + "enumerate"}
# consumers: does it take a closure?
CONSUME = {_I + "try_for_each": 1, _I + "any": 1, _I + "all": 1, _I + "find": 1, _I + "find_map": 1, _I + "for_each": 1,
           _I + "fold": 2, _I + "next": 0, _I + "count": 0, DRAIN: 0, COLLECT: 0}


class Frame:
    """definitions and uses of the locals of one inlined body"""

    def __init__(self, g, bids):
        self.defs, self.uses, self.lazy = {}, {}, set()
        self.args = set()

        def use(o, at):
            if o[0] in "cm":
                self.uses.setdefault(o[1][0], set()).add(at)

        for b in bids:
            blk = g.blocks[b]
            for i, (p, v, sp) in enumerate(blk["s"]):
                at = ("s", b, i)
                if p[1]:
                    self.uses.setdefault(p[0], set()).add(at)
                    self.defs.setdefault(p[0], []).append(("p", b, i))
                else:
                    self.defs.setdefault(p[0], []).append(at)
                for k in ("o", "a", "b"):
                    if k in v:
                        use(v[k], at)
                if "p" in v:
                    self.uses.setdefault(v["p"][0], set()).add(at)
                for o in v.get("ops", []):
                    use(o, at)
            t = blk["t"]
            at = ("t", b)
            for k in ("o", "fo"):
                if k in t:
                    use(t[k], at)
            for o in t.get("args", []):
                use(o, at)
            if t["t"] == "call":
                if t["d"][1]:
                    self.uses.setdefault(t["d"][0], set()).add(at)
                else:
                    self.defs.setdefault(t["d"][0], []).append(("c", b))


def succs(t):
    k = t["t"]
    if k == "switch":
        return [c[1] for c in t["cases"]] + [t["else"]]
    if k == "nondet":
        return list(t["to"])
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if "to" in t else []
    return []
