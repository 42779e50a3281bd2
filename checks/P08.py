import re
import ai, cmds, mir, quant

META = {
    "id": "P08",
    "title": "What a command outputs depends on nothing but its input and its options",
    "statement": "Running a command twice on the same input with the same options (for sample: with the same --seed) yields the "
                 "same output: nothing that is written depends on the iteration order of a hash table, on the clock or on "
                 "random numbers. Whatever is taken out of a hash table is brought into a fixed total order before it is "
                 "written.",
    "over": ["inputs", "schedules"],
    "for_all": "every command and every input, whatever the order in which hash tables happen to be iterated",
    "why": "A run of a test sees one iteration order; small tables and unique sort keys hide a missing or partial sort.",
    "files": ["crates/pica-cli/src/commands/frequency.rs", "crates/pica-cli/src/commands/describe.rs",
              "crates/pica-cli/src/commands/partition.rs", "crates/pica-cli/src/commands/sample.rs",
              "crates/pica-cli/src/commands/check"],
    "mechanism": [["sorting of the frequency table", "crates/pica-cli/src/commands/frequency.rs"],
                  ["sorting of tags and codes", "crates/pica-cli/src/commands/describe.rs"],
                  ["ordered maps of rules and findings", "crates/pica-cli/src/commands/check"]],
    "technique": "taint analysis (iteration order) over flattened MIR, with comparator analysis",
    "rule": "values drawn from iterating a hash table, and collections filled while iterating one, are order-tainted until "
            "sorted by a comparison that separates different keys; no tainted value reaches a writer or standard output, and "
            "no writer other than the element itself is used while iterating; clock and unseeded randomness are not called.",
    "assumptions": ["progress display is not output", "sorting a data frame by its key column orders its rows totally"],
}
HASHTY = re.compile(r"^(&\S* ?(mut )?)?(hashbrown|std::collections)::(hash::)?(hash_)?(map|set)::Hash(Map|Set)<")
HASHIT = re.compile(r"Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|extract_if|"
                    r"union|intersection|difference|symmetric_difference)$")
RANDOM = re.compile(r"^rand::.*::(rng|thread_rng|random)$|^rand::(rng|thread_rng|random)$|from_os_rng|from_entropy|"
                    r"OsRng|SystemTime::now|Instant::now|RandomState|"
                    r"^std::process::id$|^std::thread::(spawn|scope|current|sleep|functions)|fs::read_dir|ReadDir|getrandom|^rayon|^std::sync::mpsc")
SORT = re.compile(r"^(?:core|alloc|std)::.*::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")
SINKTY = re.compile(r"Writer|dyn .*Write|Stdout|fs::File|csv::writer|Serializer|Formatter")
PUSH = {"push", "push_str", "push_back", "push_front", "extend", "append", "insert", "write", "write_all", "write_fmt",
        "write_str", "extend_from_slice", "add_assign", "insert_str"}
INT = re.compile(r"^&*(u|i)(8|16|32|64|128|size)$|^&*(bool)$")
PICK = {"take", "skip", "step_by", "nth", "last", "first", "truncate", "pop", "split_off", "chunks", "position", "find",
        "find_map", "max_by_key", "min_by_key", "max_by", "min_by", "reduce", "swap_remove", "remove", "drain", "take_while",
        "skip_while", "split_first", "split_last", "first_mut", "last_mut", "enumerate", "zip", "fold", "dedup_by_key"}
KEEPS = {"clone", "to_owned", "deref", "to_string", "as_ref", "into", "borrow", "as_slice", "to_vec", "as_bytes", "as_str",
         "from", "iter", "collect"}
KEYED = re.compile(r"(Hash|BTree)(Map|Set)|Entry")


def clean(v, tag):
    if v[0] == "o" and v[1] == tag:
        return ("o", v[1], v[2] - {"u", "item"})
    if v[0] == "e":
        return ("e", v[1], tuple((n, clean(x, tag)) for n, x in v[2]))
    if v[0] == "s":
        return ("s", tuple((n, clean(x, tag)) for n, x in v[1]), v[2])
    return v


class Region:
    def __init__(self, g):
        self.g = g
        n = len(g.blocks)
        succ = [mir.succs(b["t"]) if b else [] for b in g.blocks]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        # dominators by iteration in reverse post-order
        order, seen = [], set()
        stack = [(g.entry if hasattr(g, "entry") else 0, 0)]
        seen.add(stack[0][0])
        while stack:
            b, k = stack.pop()
            if k < len(succ[b]):
                stack.append((b, k + 1))
                s = succ[b][k]
                if s not in seen:
                    seen.add(s)
                    stack.append((s, 0))
            else:
                order.append(b)
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(h, b):
            while True:
                if b == h:
                    return True
                if b not in idom or idom[b] == b:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for h in succ[b]:
                if h in num and dom(h, b):
                    body = self.loops.setdefault(h, {h})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo += [p for p in pred[x] if p in num]

    def of(self, b):
        best = None
        for body in self.loops.values():
            if b in body and (best is None or len(body) < len(best)):
                best = body
        return best or frozenset([b])


class Mon:
    """mon: blocks that drew an element from a table in hash order"""

    def __init__(self, ctx, f, g, inlined):
        self.ctx, self.f, self.g, self.inlined = ctx, f, g, inlined
        self.reg = Region(g)

    def init(self):
        return frozenset()

    def inside(self, a, st):
        return any(a.cur[0] in self.reg.of(b) for b in st.mon)

    def new_item(self, a, st, v):
        src = a.val(st, a.operand(st, v["from"][0])) if v["from"] else ("o", ("x",), ai.EMPTY)
        ls = ai.labels(src, st)
        tag = ("cb", v["call"].get("bid"), v["ai"])
        if "u" not in ls:
            return None
        a.kill(st, tag)
        st.mon = st.mon | {a.cur[0]}
        return ("o", tag, (ls - {"u"}) | {"item"})

    def exhausted(self, a, st, t):
        pass

    def bad(self, a, k, m):
        self.ctx.violation("%s:%s" % (self.f.path, k), "%s: %s" % (self.f.path, m), a.trace(a.cur))

    def ty(self, o):
        return self.g.locals[o[1][0]][0] if o[0] in "cm" and not o[1][1] else ""

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if RANDOM.search(c.path) or RANDOM.search(c.rpath):
            self.ctx.count("sources_visited")
            seeded = any(cmds.tag_ends(t, "seed") and x == "None" for t, x in st.ass.items())
            if not seeded or not re.search(r"rng|Rng|random|entropy", c.path):
                self.bad(a, n, "%s makes the output depend on more than the input and the options" % c.path)
        ls = frozenset().union(ai.EMPTY, *[ai.labels(x, st) for x in c.args])
        tys = [self.ty(o) for o in c.t["args"]]
        if HASHIT.search(c.path) or n in ("into_iter", "from_iter") and HASHTY.search(c.self_ty or "") and n == "into_iter":
            self.ctx.count("iterations_visited")
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            return [(st, ("o", tag, ls | ({"u", "key"} if n in ("keys", "into_keys") or "HashSet" in c.path else {"u"})))]
        if c.path == quant.NEXTI and "u" in ls:
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            s0, s1 = st.copy(), st.copy()
            s0.mon = s0.mon - {a.cur[0]}
            s1.mon = s1.mon | {a.cur[0]}
            return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", ("o", tag, (ls - {"u"}) | {"item"})),)))]
        if SORT.search(c.path) and c.args:
            cur = a.val(st, c.args[0])
            if "u" in ai.labels(cur, st):
                self.ctx.count("sorts_visited")
                if not self.total(a, st, c, n):
                    self.bad(a, "partial", "elements of a hash table are sorted by something that does not tell all of them "
                             "apart")
                if c.args[0][0] == "r":
                    st.write((c.args[0][1], c.args[0][2]), ("o", ("mut", c.site, 0), ai.labels(cur, st) - {"u", "item"}))
                for l, x in list(st.env.items()):
                    st.env[l] = clean(x, cur[1])
                for l, x in list(st.heap.items()):
                    st.heap[l] = clean(x, cur[1])
                return [(st, ("s", (), "tuple"))]
        if re.search(r"^polars\w*::.*Frame::(sort|sort_by_exprs|sort_in_place)$", c.path) and "u" in ls:
            self.ctx.count("sorts_visited")
            by = set(self.consts(a, st, c.args[1]))
            cols = {l[4:] for l in ls if l.startswith("col:")}
            if by & cols:
                return [(st, ("o", ("call", c.site, c.path), ls - {"u", "item"}))]
            self.bad(a, "partial", "the rows of the table are not sorted by their key column")
        if c.path.endswith("Column::new") and "u" in ls and "key" in ls:
            names = self.consts(a, st, c.args[0])
            return [(st, ("o", ("call", c.site, c.path), ls | {"col:" + x for x in names}))]
        inside = self.inside(a, st)
        if n in PICK and "u" in ls:
            ls = ls | {"picked"}
            if c.args[0][0] == "r" and n in ("truncate", "drain", "split_off", "pop", "swap_remove", "remove"):
                cur = st.read((c.args[0][1], c.args[0][2]))
                st.write((c.args[0][1], c.args[0][2]), ai.mk(cur[1] if cur[0] == "o" else ("mut", c.site, 0), ls))
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            return [(st, ("o", tag, ls))]
        # -- sinks
        sink = c.path in ("std::io::stdio::_print",)
        for o, v, ty in zip(c.t["args"], c.args, tys):
            if ("&mut" in ty or "Writer" in ty) and SINKTY.search(ty) and not re.match(r"&mut alloc::(vec|string)", ty):
                sink = sink or not ("item" in ai.labels(a.val(st, v), st) and len(c.args) == 1)
        if sink and n != "drop":
            self.ctx.count("sinks_visited")
            if inside:
                self.bad(a, "write", "output is written while a hash table is iterated")
            elif ls & {"u", "item", "uu", "picked"}:
                self.bad(a, "write", "something in the order of a hash table is written")
        if n == "serialize" or n.startswith("new_debug") or n == "to_string_pretty":
            if HASHTY.search(c.self_ty or "") or any(HASHTY.search(t) for t in c.fd.get("targs") or []):
                self.bad(a, "write", "a hash table is written as a whole")
        # -- collections filled while iterating
        nested = any("u" in ai.labels(x, st) for x in c.args[1:])
        if inside and n in PUSH and c.args and c.args[0][0] == "r" and not KEYED.search(tys[0]):
            st.write((c.args[0][1], c.args[0][2]),
                     ai.mk(("mut", c.site, 0), (ls - {"key"}) | {"u"} | ({"uu"} if nested else ai.EMPTY)))
            return [(st, a.fresh(st, c))]
        return None

    def consts(self, a, st, v):
        """string constants in a value"""
        out = []

        def rec(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "k" and isinstance(x[1], str):
                    out.append(x[1])
                for y in x:
                    rec(y)
        rec(a._deepread(st, v))
        return out

    def total(self, a, st, c, n):
        if n in ("sort", "sort_unstable"):
            return True
        clo = a.val(st, c.args[1])
        key = clo[2].split(":", 1)[1] if clo[0] == "s" and clo[2].startswith("closure:") else None
        f = self.ctx.prog.fns.get(key)
        if f is None:
            m = re.search(r"\('fn', '([^']+)'", str(clo))
            f = self.ctx.prog.fns.get(m.group(1)) if m else None
        if f is None:
            return "cmp" in str(clo) and "Ord" in str(clo)
        g = self.ctx.flat(f, inline=lambda h: False)
        m = Cmp(self.ctx.prog, "key" in n)
        off = f.body["argc"] - (1 if "key" in n else 2)
        init = {off + 1: ("o", ("a",), frozenset(["a"])), off + 2: ("o", ("b",), frozenset(["b"]))}
        if m.key:
            ty = f.body["locals"][off + 1][0].lstrip("&")
            k = ("o", ("k",), frozenset(["k"]))
            init = {off + 1: ("s", (("0", k), ("1", ("o", ("n",), ai.EMPTY))), "tuple") if ty.startswith("(") else k}
        b = ai.AI(self.ctx.prog, g, m, init={k: x for k, x in init.items() if k <= f.body["argc"]})
        b.run()
        return m.good and m.exits > 0

    def exit(self, a, st, v, node):
        if self.inlined:
            return
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        if ai.labels(v, st) & {"u"} and not HASHTY.search(self.g.locals[0][0]):
            self.bad(a, "result", "a result in the order of a hash table is returned")


class Cmp:
    """comparators: Equal only if something that is not a mere number compared equal.
    mon: was such a comparison Equal"""

    def __init__(self, prog, key):
        self.prog, self.key, self.good, self.exits = prog, key, True, 0

    def init(self):
        return False

    def number(self, fd):
        t = fd.get("self") or (fd.get("targs") or [""])[0]
        return INT.match(re.sub(r"'\S+ ", "", t))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if self.key:
            if n in KEEPS or ai.MODELS.get(c.path):
                return None
            return [(st, ("o", ("call", c.site, c.path), ai.EMPTY))]
        if n in ("cmp", "partial_cmp") and len(c.args) == 2:
            l = [ai.labels(a.val(st, x), st) for x in c.args]
            both = ("a" in l[0] and "b" in l[1]) or ("b" in l[0] and "a" in l[1])
            out = []
            for o in ("Less", "Equal", "Greater"):
                s = st.copy()
                s.mon = st.mon or (o == "Equal" and both and not self.number(c.fd))
                v = ("e", o, ())
                out.append((s, ("e", "Some", (("0", v),)) if n == "partial_cmp" else v))
            return out
        if n in ("then", "then_with") and len(c.args) == 2:
            v, w = a.val(st, c.args[0]), a.val(st, c.args[1])
            if v[0] == "e" and v[1] != "Equal":
                return [(st, v)]
            if v[0] == "e" and n == "then":
                return [(st, w)]
            if v[0] == "e" and w[0] == "s" and w[2].startswith("closure:"):
                f = self.prog.fns.get(w[2].split(":", 1)[1])
                for t in mir.calls(f) if f else []:
                    p = mir.callee_paths(t)[0]
                    if p.rsplit("::", 1)[-1] in ("cmp", "partial_cmp") and not self.number(t.get("f") or {}):
                        st.mon = True
                return [(st, ("e", "Equal", ()))]
        if n == "reverse":
            v = a.val(st, c.args[0])
            if v[0] == "e":
                return [(st, ("e", {"Less": "Greater", "Greater": "Less"}.get(v[1], v[1]), ()))]
        return None

    def exit(self, a, st, v, node):
        self.exits += 1
        v = a.val(st, v)
        if self.key:
            self.good = self.good and "k" in ai.labels(v, st)
            return
        if v[0] == "e" and v[1] in ("Less", "Greater"):
            return
        if not st.mon:
            self.good = False


def run(ctx):
    prog = ctx.prog
    rel = set()
    for f in prog.fns.values():
        if f.crate in ("pica", "pica_record") and f.body:
            for t in mir.calls(f):
                p = mir.callee_paths(t)
                s = (t.get("f") or {}).get("self") or ""
                if any(HASHIT.search(x) or RANDOM.search(x) or SORT.search(x) for x in p if x) \
                        or HASHTY.search(s) and p[0].endswith("::into_iter"):
                    rel.add(f.key)
    direct = set()
    for k in rel:
        f = prog.fns[k]
        while f.is_closure:
            f = prog.fns[f.j["parent"]]
        direct.add(f.key)
    lib = {k for k in direct if prog.fns[k].crate == "pica_record"}
    rel = cmds.relevant(prog, ("pica",), extra=rel)
    ex = cmds.executes(prog)
    reached = {h.key for h in prog.reachable(ex)}
    roots = [f.key for f in ex]
    roots += sorted(k for k in direct if k in lib or k not in reached)
    rel = {k for k in rel if prog.fns[k].crate == "pica"}
    exk = {f.key for f in ex}
    ctx.parallel(roots, lambda c, k: one(c, k, rel, exk))
    ctx.floor("commands", 15)
    ctx.floor("sources_visited", 1)
    ctx.floor("sinks_visited", 40)


def one(ctx, key, rel, ex):
    f = ctx.prog.fns[key]
    g = ctx.flat(f, inline=lambda h: h.key in rel)
    a = ai.AI(ctx.prog, g, Mon(ctx, f, g, False),
              keep=lambda t: cmds.tag_ends(t, "seed") or (isinstance(t, tuple) and t and t[0] == "disc"))
    a.run()
    ctx.count("commands", key in ex)
    ctx.count("states", a.nstates)
    ctx.unit(f.path)
