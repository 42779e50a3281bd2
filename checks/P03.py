import re
import ai, cmds, mir, quant

META = {
    "id": "P03",
    "title": "A command that succeeds has completed every output it opened",
    "statement": "Before a command ends successfully, every writer it created (main output, tee, each partition, each chunk, "
                 "tables and reports) has been finished or flushed after the last write to it, and finishing a writer "
                 "completes its format and flushes everything beneath it. No output is replaced by the next one before it is "
                 "finished.",
    "over": ["inputs", "configurations"],
    "for_all": "every command, every combination of outputs and every input",
    "why": "Buffers are also emptied when dropped, silently losing errors, and compressed or bracketed formats end up "
           "truncated only for certain sizes and combinations; tests compare a few complete outputs.",
    "files": ["src/writer.rs", "crates/pica-cli/src/commands"],
    "mechanism": [["writer.finish()? / writer.flush()? before the success exit", "each command"],
                  ["ByteRecordWrite::finish implementations", "src/writer.rs, crates/pica-cli/src/commands/convert"]],
    "technique": "typestate analysis of writers with loop summaries (abstract interpretation of inlined MIR)",
    "rule": "typestate open -> finished per creation site over all paths of each command: a success exit with an unfinished "
            "writer, a write after finishing without finishing again, or a creation that overwrites an unfinished writer is "
            "a violation; for writers kept in a collection every item must be finished in a loop that runs to its end. Each "
            "finish implementation calls flush (and, for compressors, the trailer write first) on every success path.",
}
WTY = re.compile(r"dyn .*ByteRecordWrite|csv::writer::Writer<|std::io::.*BufWriter<|check::writer::Writer\b|"
                 r"polars_io::.*Writer<|GzEncoder<|quick_xml::writer::Writer<")
OWN = re.compile(r"pica::commands::convert::\w+::\w+Writer$|pica_record::writer::(Plain|Gzip)Writer")
PART = re.compile(r"adapters::(skip|take|step_by|filter|map_while|skip_while|take_while|peekable)\b")
DONE = ("finish", "flush", "try_finish", "into_inner", "batch_finish")
# configuring a writer is not writing
CONF = re.compile(r"polars_io::.*::with_\w+$|::include_\w+$")


def wtype(ty):
    if ty.startswith("&"):
        return False
    m = re.match(r"core::(?:result::Result|option::Option)<(.*)>$", ty)
    return wtype(m.group(1)) if m else bool(WTY.search(ty.split(", ")[0]) and not ty.startswith("std::collections")
                                            and not ty.startswith("hashbrown") and not ty.startswith("alloc::vec")
                                            or OWN.search(ty.split(", ")[0]))


class Mon:
    """mon: frozenset of (site, state): open, done; stored writers: coll (some may be open), colldone;
    (site, ("loop", id), item finished?, some item skipped)"""

    def __init__(self, ctx, f, g):
        self.ctx, self.f, self.g = ctx, f, g
        self.cmd = cmds.cmdname(f)

    def init(self):
        return frozenset()

    def bad(self, a, k, m, node=None):
        self.ctx.violation("%s:%s" % (self.cmd, k), "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    def sites(self, a, st, v, d=0):
        out = {l for l in ai.labels(v, st) if l.startswith("w:")}
        if v[0] == "r" and d < 4:
            out |= self.sites(a, st, st.read((v[1], v[2])), d + 1)
        return out

    def get(self, st):
        return {x[0]: x[1] for x in st.mon if len(x) == 2}

    def put(self, st, site, s):
        st.mon = frozenset(x for x in st.mon if x[0] != site or len(x) != 2) | {(site, s)}

    def name(self, site):
        return site[2:]

    # -- loops over stored writers
    def loop(self, st, site):
        return next((x for x in st.mon if x[0] == site and len(x) == 4), None)

    def setloop(self, st, site, new):
        st.mon = frozenset(x for x in st.mon if x[0] != site or len(x) != 4) | ({new} if new else frozenset())

    def stored(self, st, ty):
        """the collected writers a value of type ty gives access to"""
        if not WTY.search(ty):
            return frozenset()
        return frozenset(s for s, x in self.get(st).items() if x in ("coll", "colldone"))

    def opty(self, o):
        return self.g.locals[o[1][0]][0] if o[0] in "cm" and not o[1][1] else ""

    def step(self, a, st, src, who, item, ty=""):
        ls = ai.labels(src, st) | self.stored(st, ty)
        for site in {l for l in ls if l.startswith("w:")}:
            if self.get(st).get(site) not in ("coll", "colldone"):
                continue
            lp = self.loop(st, site)
            skipped = False
            if lp and lp[1][1] == who:
                skipped = lp[3] or not lp[2]
            if item:
                self.setloop(st, site, (site, ("loop", who), False, skipped))
            else:
                self.setloop(st, site, None)
                if not skipped and "cut" not in ls and not PART.search(ty):
                    self.put(st, site, "colldone")

    def exhausted(self, a, st, t):
        self.step(a, st, a.operand(st, t["src"]), str(t["src"]), False, self.opty(t["src"]))

    def new_item(self, a, st, v):
        src = a.operand(st, v["from"][0])
        tag = ("cb", v["call"].get("bid"), v["ai"])
        a.kill(st, tag)
        ty = self.opty(v["from"][0])
        self.step(a, st, src, str(v["from"][0]), True, ty)
        return ai.mk(tag, ai.labels(src, st) | self.stored(st, ty))

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        d = c.t["d"]
        ty = self.g.locals[d[0]][0] if not d[1] else ""
        if c.path == quant.NEXTI:
            ity = self.opty(c.t["args"][0])
            ls = ai.labels(a.val(st, c.args[0]), st) | self.stored(st, ity)
            if any(l.startswith("w:") for l in ls):
                s0, s1 = st.copy(), st.copy()
                self.step(a, s0, a.val(st, c.args[0]), c.site, False, ity)
                self.step(a, s1, a.val(st, c.args[0]), c.site, True, ity)
                tag = ("call", c.site, c.path)
                a.kill(s1, tag)
                return [(s0, ("e", "None", ())), (s1, ("e", "Some", (("0", ("o", tag, ls)),)))]
            return None
        got = [self.sites(a, st, x) for x in c.args]
        if wtype(ty) and not any(got) and not c.path.startswith("core::") and ai.MODELS.get(c.path) is None:
            site = "w:%s@%d" % (c.path.rsplit("::", 2)[-2] + "::" + n, c.site if isinstance(c.site, int) else 0)
            name = site.split("@")[0]
            cur = self.get(st).get(site)
            if cur == "open":
                self.bad(a, "replaced:" + name[2:], "an output is replaced by a new one before it is finished")
            self.ctx.count("creations_visited")
            w = ("o", ("call", c.site, c.path), frozenset([site]))
            s1 = st.copy()
            a.kill(s1, w[1])
            self.put(s1, site, "coll" if cur in ("coll", "colldone") else "open")
            if ty.startswith("core::result::Result"):
                return [(s1, ("e", "Ok", (("0", w),))),
                        (st.copy(), ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),)))]
            return [(s1, w)]
        touched = set().union(set(), *got)
        if not touched or ai.MODELS.get(c.path) is not None or ai.MODELS.get(c.rpath) is not None or CONF.search(c.path):
            return None
        if n in DONE and got and got[0]:
            self.ctx.count("finish_visited")
            out = []
            for site in got[0]:
                cur = self.get(st).get(site)
                if cur == "open":
                    self.put(st, site, "done")
                elif cur in ("coll", "colldone"):
                    lp = self.loop(st, site)
                    if lp:
                        self.setloop(st, site, (site, lp[1], True, lp[3]))
            if ty.startswith("core::result::Result"):
                s = st.copy()
                return [(s, ("e", "Ok", (("0", ("o", ("call", c.site, c.path), ai.EMPTY)),))),
                        (st, ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),)))]
            return None
        for i, (o, v) in enumerate(zip(c.t["args"], c.args)):
            if not got[i]:
                continue
            byref = o[0] in "cm" and not o[1][1] and self.g.locals[o[1][0]][0].startswith("&")
            coll = byref and re.match(r"&(mut )?(std::collections|hashbrown|alloc::vec|alloc::collections|core::option)",
                                      self.g.locals[o[1][0]][0])
            mut = byref and self.g.locals[o[1][0]][0].startswith("&mut")
            for site in got[i]:
                cur = self.get(st).get(site)
                if not byref and i > 0:
                    # moved into a container
                    if cur in ("open", "done"):
                        self.put(st, site, "coll")
                elif mut and not coll and n not in ("next", "by_ref", "iter_mut", "values_mut", "get_mut", "entry", "as_mut"):
                    self.ctx.count("writes_visited")
                    if cur == "done":
                        self.put(st, site, "open")
                    elif cur == "colldone":
                        self.put(st, site, "coll")
                    lp = self.loop(st, site)
                    if lp and lp[2]:
                        self.setloop(st, site, (site, lp[1], False, lp[3]))
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        self.ctx.count("ok_exits")
        for site, s in self.get(st).items():
            if s in ("open", "coll"):
                self.bad(a, "unfinished:" + site[2:].split("@")[0],
                         "returns successfully although %s created by %s %s not finished"
                         % ("the output" if s == "open" else "one of the outputs", site[2:].split("@")[0],
                            "is" if s == "open" else "may be"), node)


def run(ctx):
    ctx.parallel([f.key for f in cmds.executes(ctx.prog)], one)
    ctx.floor("creations_visited", 20)
    ctx.floor("finish_visited", 17)
    ctx.floor("ok_exits", 16)
    finishers(ctx)


def one(ctx, key):
    prog = ctx.prog
    f = prog.fns[key]
    rel = cmds.relevant(prog, ("pica",), types=WTY)

    def inline(h):
        # constructors of writers stay calls
        return h.key in rel and not (h.is_fn and wtype(h.body["locals"][0][0])) and not h.path.startswith("pica::progress")
    g = ctx.flat(f, inline=inline)
    m = Mon(ctx, f, g)
    a = ai.AI(prog, g, m, keep=lambda t: False)
    a.run()
    ctx.count("states", a.nstates)
    ctx.unit(f.path)


# ---- implementations of finish
class Fin:
    """mon: frozenset of completed steps"""

    def __init__(self, ctx, f, g, need):
        self.ctx, self.f, self.g, self.need = ctx, f, g, need

    def init(self):
        return frozenset()

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        if n in ("flush", "try_finish"):
            s = st.copy()
            s.mon = (s.mon | {n}) if n == "flush" else frozenset([n]) | (s.mon - {"flush"})
            return [(s, ("e", "Ok", (("0", ai.mk(("call", c.site, c.path))),))),
                    (st, ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),)))]
        if n in ("write_all", "write_fmt", "write_event", "write", "write_record", "serialize"):
            s = st.copy()
            s.mon = s.mon - {"flush"}
            return [(s, ("e", "Ok", (("0", ai.mk(("call", c.site, c.path))),))),
                    (st, ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),)))]
        return None

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Err":
            return
        # the result of the last step may be handed on as it is
        self.ctx.count("finisher_exits")
        for n in self.need:
            if n not in st.mon:
                self.ctx.violation("%s:%s" % (self.f.path, n), "%s succeeds without %s after the last write"
                                   % (self.f.path, {"flush": "flushing the underlying writer",
                                                    "try_finish": "writing the end of the compressed stream"}[n]), a.trace(node))


def finishers(ctx):
    prog = ctx.prog
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        own = f.name == "finish" and f.kind == "AssocFn" and f.body and f.j.get("impl_self")
        if not own or not (re.search(r"ByteRecordWrite$", f.j.get("impl_trait", "")) or
                           re.search(r"check::writer::\w+$", f.j["impl_self"])):
            continue
        g = ctx.flat(f, inline=lambda h: h.crate == f.crate)
        ty = " ".join(l[0] for l in f.body["locals"])
        need = ["flush"] + (["try_finish"] if "GzEncoder" in ty else [])
        a = ai.AI(prog, g, Fin(ctx, f, g, need), keep=lambda t: False)
        a.run()
        n += 1
        ctx.count("finishers")
        ctx.unit(f.path)
    ctx.floor("finishers", 10)
