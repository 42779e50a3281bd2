"""Typestate of a command's record loop: which record is current, whether the
allow/deny set and the filter expression accepted it, and which constructs have
an effect that outlives the current record."""
import re
import ai, cmds, mir

CHECK = re.compile(r"utils::FilterSet::check$")
MATCH = re.compile(r"record::RecordMatcher::is_match$")
MATCHER = re.compile(r"cli::FilterOpts::matcher$")
PROGRESS = re.compile(r"progress::Progress\b")
SCRATCH = ("clear", "truncate")


def scc_of(g, start):
    """blocks on a cycle through `start` in the flattened graph"""
    succ = {i: (mir.succs(b["t"]) if b else []) for i, b in enumerate(g.blocks)}
    fwd, todo = set(), list(succ[start])
    while todo:
        x = todo.pop()
        if x not in fwd:
            fwd.add(x)
            todo += succ[x]
    pred = {}
    for i, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(i)
    bwd, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x not in bwd:
            bwd.add(x)
            todo += pred.get(x, [])
    return fwd & bwd


class Loop:
    """static shape of the record loop of one flattened command"""

    def __init__(self, g):
        self.g = g
        self.reads = [i for i, b in enumerate(g.blocks) if b and b["t"]["t"] == "call"
                      and cmds.NEXT.search(mir.callee_paths(b["t"])[0])]
        self.body = set()
        for r in self.reads:
            self.body |= scc_of(g, r)
        self.outer = set(g.args)
        self.scratch = set()
        for i, b in enumerate(g.blocks):
            if b is None:
                continue
            if i not in self.body:
                for (p, v, sp) in b["s"]:
                    if not p[1]:
                        self.outer.add(p[0])
                if b["t"]["t"] == "call" and not b["t"]["d"][1]:
                    self.outer.add(b["t"]["d"][0])
        # compiler temporaries shared by no user variable stay out
        self.outer = {l for l in self.outer}

    def ty(self, l):
        return self.g.locals[l][0]

    def site_outside(self, tag):
        """does an opaque value stem from a call made before the loop?"""
        t = tag
        while isinstance(t, tuple) and t:
            if t[0] in ("call", "mut", "cb"):
                return t[1] is not None and t[1] not in self.body
            if t[0] == "p":
                return True
            if t[0] in ("f", "v", "i", "d"):
                t = t[1]
                continue
            return False
        return False


def root(tag):
    t = tag
    while isinstance(t, tuple) and t and t[0] in ("f", "v", "i", "d"):
        t = t[1]
    return t


class LoopMon:
    """mon state: (phase, check, match, hasm) + self.extra0
    phase: idle / eof / rec / err
    check: None / 1 / 0; match: None / 1 / 0; hasm: None / 1 / 0"""
    extra0 = ()

    def __init__(self, ctx, f, g):
        self.ctx = ctx
        self.f = f
        self.g = g
        self.loop = Loop(g)
        self.cmd = cmds.cmdname(f)
        self._scratch()

    def _scratch(self):
        self.scr = set()
        for i in self.loop.body:
            b = self.g.blocks[i]
            if b["t"]["t"] == "call":
                p = mir.callee_paths(b["t"])[0]
                if p.rsplit("::", 1)[-1] in SCRATCH:
                    a = b["t"]["args"][0]
                    # the reference operand's referent, resolved syntactically
                    if a[0] in "cm":
                        self.scr.add(a[1][0])
        refs = {}
        for i in self.loop.body:
            for (p, v, sp) in self.g.blocks[i]["s"]:
                if v["r"] == "ref" and not p[1]:
                    refs.setdefault(p[0], set()).add(v["p"][0])
        more = set()
        for l in self.scr:
            more |= refs.get(l, set())
        self.scr |= more

    def init(self):
        return ("idle", None, None, None) + self.extra0

    # -- hooks for subclasses
    def on_effect(self, a, st, what, c):
        pass

    def on_regate(self, st):
        pass

    def on_read(self, a, st):
        pass

    def on_call(self, a, st, c):
        return None

    def invert(self, st):
        for t, v in st.ass.items():
            if cmds.tag_ends(t, "invert_match") and v == 1:
                return 1
        return 0

    def accepted(self, st):
        """(allow/deny satisfied, expression satisfied)"""
        ph, chk, m, hasm = st.mon[:4]
        if m is None:
            mm = (hasm == 0)
        else:
            mm = bool(m) != bool(self.invert(st))
        return chk == 1, mm

    def call(self, a, st, c):
        if cmds.NEXT.search(c.path):
            self.on_read(a, st)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            out = []
            for ph, v in (("eof", ("e", "None", ())),
                          ("err", ("e", "Some", (("0", ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),))),))),
                          ("rec", ("e", "Some", (("0", ("e", "Ok", (("0", ("o", ("rec", c.site), frozenset(["rec"]))),))),)))):
                s = st.copy()
                s.mon = (ph, None, None, st.mon[3]) + self.reset(st.mon[4:])
                out.append((s, v))
            return out
        if CHECK.search(c.path) or CHECK.search(c.rpath):
            out = []
            for b in (1, 0):
                s = st.copy()
                ph, chk, m, hm = s.mon[:4]
                if chk is not None:
                    m = None
                    self.on_regate(s)
                s.mon = (ph, b, m, hm) + s.mon[4:]
                out.append((s, ("k", b)))
            self.ctx.count("gate_calls_visited")
            return out
        if (MATCH.search(c.path) or MATCH.search(c.rpath)) and self.filter_matcher(a, st, c):
            out = []
            for b in (1, 0):
                s = st.copy()
                ph, chk, m, hm = s.mon[:4]
                if m is not None:
                    chk = None
                    self.on_regate(s)
                s.mon = (ph, chk, b, hm) + s.mon[4:]
                out.append((s, ("k", b)))
            self.ctx.count("gate_calls_visited")
            return out
        if MATCHER.search(c.path):
            out = []
            s = st.copy()
            s.mon = s.mon[:3] + (1,) + s.mon[4:]
            out.append((s, ("e", "Ok", (("0", ("e", "Some", (("0", ("o", ("matcher",), ai.EMPTY)),))),))))
            s = st.copy()
            s.mon = s.mon[:3] + (0,) + s.mon[4:]
            out.append((s, ("e", "Ok", (("0", ("e", "None", ())),))))
            out.append((st.copy(), ("e", "Err", (("0", ("o", ("matchererr",), ai.EMPTY)),))))
            return out
        r = self.on_call(a, st, c)
        if r is not None:
            return r
        if st.mon[0] == "rec" and a.cur[0] in self.loop.body:
            for op, v in zip(c.t["args"], c.args):
                if op[0] not in "cm":
                    continue
                ty = self.loop.ty(op[1][0])
                if not ("&mut" in ty or "&'_ mut" in ty) or PROGRESS.search(ty):
                    continue
                if cmds.NEXT.search(c.path):
                    continue
                if self.target_outer(a, st, v, op):
                    self.on_effect(a, st, "%s" % (c.path,), c)
                    if ai.MODELS.get(c.path) is None and ai.MODELS.get(c.rpath) is None:
                        # what the call hands out may be part of the outer state
                        r = a.fresh(st, c, frozenset(["outer"]))
                        a.havoc_muts(st, c)
                        return [(st, r)]
                    break
            if c.path in ("std::io::stdio::_print",):
                self.on_effect(a, st, "print to standard output", c)
        return None

    def filter_matcher(self, a, st, c):
        """is this the expression given on the command line (not a rule's own)?"""
        if st.mon[3] is None:
            return True
        v = a.val(st, c.args[0])
        return v[0] == "o" and root(v[1]) == ("matcher",)

    def target_outer(self, a, st, v, op=None):
        if op is not None and op[1][0] in self.scr:
            return False
        if v[0] == "r":
            if v[1] in self.scr or PROGRESS.search(self.loop.ty(v[1])):
                return False
            if v[1] in self.loop.outer:
                return True
            w = st.read((v[1], v[2]))
            if w[0] in ("r", "o") and (w[0] == "r" or w[1] != ("top",)):
                return w[0] == "o" and False or (w[0] == "r" and self.target_outer(a, st, w))
            return False
        if v[0] == "o":
            return self.loop.site_outside(v[1]) or "outer" in v[2]
        if v[0] == "s":
            return any(self.target_outer(a, st, x) for _, x in v[1] if x[0] == "r")
        return False

    def stmt(self, a, st, p, v, sp, blk):
        if st.mon[0] != "rec":
            return
        q = st.resolve(p)
        if q[0] == "tag":
            if self.loop.site_outside(q[1]) and self.inbody(blk):
                self.on_effect(a, st, "assignment (%s)" % sp, None)
            return
        l = q[0]
        if l in self.loop.outer and l not in self.scr and self.inbody(blk) and self.uservar(l) \
                and not PROGRESS.search(self.loop.ty(l)):
            self.on_effect(a, st, "assignment to `%s`" % self.g.locals[l][1], None)

    def uservar(self, l):
        return bool(self.g.locals[l][1])

    def inbody(self, blk):
        if not hasattr(self, "_ids"):
            self._ids = {id(self.g.blocks[i]) for i in self.loop.body}
        return id(blk) in self._ids

    def reset(self, extra):
        return extra


RX = re.compile("|".join((cmds.NEXT.pattern, CHECK.pattern, MATCH.pattern, MATCHER.pattern, r"::skip_parse_err$")))


def inliner(prog, rx=None, fields=()):
    """expand helpers that read or gate records; the gates themselves stay calls"""
    rel = cmds.relevant(prog, ("pica",), rx or RX, ("skip_invalid", "invert_match") + tuple(fields))
    own = [h for h in prog.fns.values() if CHECK.search(h.path) or MATCHER.search(h.path)]
    own = {c.key for h in own for c in prog.nested(h)}
    return lambda h: h.key in rel and h.key not in own


def keep_default(tag):
    if tag[0] == "ne":
        tag = tag[1]
    return cmds.tag_ends(tag, "skip_invalid") or cmds.tag_ends(tag, "invert_match")


def filtering(prog):
    """commands that offer record filters, from the option types themselves"""
    out = []
    for f in cmds.executes(prog):
        adt = prog.adts.get(f.j["impl_self"])
        if adt is None:
            raise mir.MissingAnchor("options of %s" % f.path)
        names = {x[0]: x[1] for x in adt["variants"][0]["fields"]}
        if any("FilterOpts" in t for t in names.values()) or ("allow" in names and "deny" in names):
            out.append(f)
    return out
