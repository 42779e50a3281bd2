import re
import ai, cmds, mir, quant

META = {
    "id": "P45",
    "title": "check applies every selected rule to every record and reports each failure",
    "statement": "For every accepted record, check applies, in each rule set whose scope the record matches, every rule (with fast "
                 "termination: up to the first that fails), of those selected by --rule and --tags, and writes one row for each that "
                 "fails, with the record's PPN and the rule's id, level and message. Link rules see every accepted record, "
                 "whatever the scope, and what they find unresolved is written, each finding once, after all input has been read.",
    "over": ["inputs", "configurations"],
    "for_all": "every sequence of records, rule sets, rules and outcomes of the rules",
    "why": "Which rules run on a record depends on selections, scopes, earlier failures and the kinds of rules; "
           "tests run one or two rules on a few records.",
    "files": ["crates/pica-cli/src/commands/check/mod.rs", "crates/pica-cli/src/commands/check/set.rs",
              "crates/pica-cli/src/commands/check/rule.rs"],
    "mechanism": [["Check::execute", "crates/pica-cli/src/commands/check/mod.rs"],
                  ["RuleSet::preprocess, check, finish", "crates/pica-cli/src/commands/check/set.rs"],
                  ["Rule::preprocess, check, finish", "crates/pica-cli/src/commands/check/rule.rs"]],
    "technique": "abstract interpretation of MIR: typestate of the nested loops over records, rule sets and rules",
    "rule": "the command is analysed with the rule sets' and rules' functions inlined; per accepted record each set must be gone "
            "through to its end with each rule seen and checked (unless out of scope or ended by fast termination), each failed "
            "check must be followed by exactly one row made of this rule and record, none else by any; the same for the findings at "
            "the end; the predicates by which rules are selected are decided exactly; and each rule's id must be its name in the rule set.",
    "assumptions": "the CSV writer writes what it is given; what the single rules find is a property of its own (P46).",
}
RULE = re.compile(r"checks::\w+::\w+::check$")
LPRE = re.compile(r"checks::link::Link::preprocess$")
LFIN = re.compile(r"checks::link::Link::finish$")
WRITE = re.compile(r"check::writer::Writer::write_record$")
EVENT = re.compile("|".join(r.pattern for r in (RULE, LPRE, LFIN, WRITE)) + r"|BTreeMap::<.*>::retain$")
GATE = re.compile(r"utils::FilterSet::check$|record::RecordMatcher::is_match$")
THROUGH = ("iter", "iter_mut", "into_iter", "by_ref", "deref", "deref_mut", "as_mut", "as_ref", "values_mut", "values", "as_mut_slice", "as_slice", "borrow",
           "borrow_mut", "drain", "into_values")
NAMES = ("ph", "rej", "pre", "chk", "fin", "began", "did", "sel", "sl", "s", "rl", "r", "fr")
ALL = frozenset(["pattern", "tags"])
NOPAT = ("nopattern",)
FEMPTY = ("fempty",)
NOSETS, NORULES = ("nosets",), ("norules",)
RS, R = ("rs",), ("rule",)


def fs(x):
    return frozenset([x])


class Mon:
    """ph: prep, rec, none or eof; rej: the record was not accepted; pre, chk, fin: all link rules have seen it, all rules have
    checked it, all findings written; sl, s: the same for the sets gone through so far and the one at hand; rl, r: for the rules"""

    def __init__(self, ctx, f, fields):
        self.ctx, self.f, self.fields = ctx, f, fields

    def init(self):
        return self.pack(dict(ph="prep", rej=0, pre=0, chk=0, fin=0, began=0, did=0, sel=frozenset(), sl=None, s=None, rl=None, r=None, fr=None))

    def pack(self, m):
        """the state, without what is of no interest in its phase"""
        m = dict(m)
        rec, prep = m["ph"] == "rec", m["ph"] == "prep"
        if not prep:
            m["sel"] = frozenset()
        if m["ph"] not in ("rec", "rec2"):
            m["pre"] = m["chk"] = m["did"] = 0

        def norm(x, sel=None):
            if x is None:
                return None
            x = tuple(int(y) if isinstance(y, bool) else y for y in x)
            x = x[:2] + (0,) + x[3:] if rec else (0, 0) + x[2:]
            return x if sel is None or prep else x[:3] + (frozenset(),) + x[4:]
        m["sl"], m["s"], m["rl"] = norm(m["sl"], 1), norm(m["s"], 1), norm(m["rl"])
        return tuple(m[n] for n in NAMES)

    def get(self, st):
        return dict(zip(NAMES, st.mon))

    def bad(self, a, k, m, node=None):
        self.ctx.violation(k, "%s: %s" % (self.f.path, m), a.trace(node or a.cur))

    # ---- what is known on this path
    def known(self, st, tag, val):
        v = st.ass.get(tag)
        if v is not None:
            return v == val
        n = st.ass.get(("ne", tag))
        if n is not None and val in n:
            return False
        return None

    def fast(self, st):
        return self.known(st, ("f", RS, "termination"), "Fast")

    def link(self, st):
        return self.known(st, ("f", R, "check"), "Link")

    # ---- loops
    def fold_rule(self, a, st, m):
        if m["r"] is None:
            return
        pre, chk, res, wr, fin = m["r"]
        if res == 1 and not wr:
            self.bad(a, "unwritten", "writes no row for a rule that failed")
        if m["fr"] == "item":
            self.bad(a, "finding", "does not write a finding")
        nolink = self.link(st) is False
        p, c, n, site = m["rl"]
        m["rl"] = (p and (pre or nolink), c and chk, n and (fin or nolink), site)
        m["r"] = m["fr"] = None

    def leave_rules(self, a, st, m):
        """the rules at hand were not gone through to their end"""
        if m["rl"] is None:
            return
        r = m["r"]
        self.fold_rule(a, st, m)
        p, c, n, site = m["rl"]
        if c and r is not None and r[2] == 1 and self.fast(st):
            m["s"] = (m["s"][0], 1) + m["s"][2:]
        m["rl"] = None

    def rule_step(self, a, st, more, site):
        self.ctx.count("rule_steps")
        m = self.get(st)
        if m["s"] is None:
            m["s"] = (0, 0, 0, frozenset(), None)
        if m["rl"] is not None and m["rl"][3] != site:
            self.leave_rules(a, st, m)
        if m["rl"] is None:
            m["rl"] = (1, 1, 1, site)
        if m["r"] is not None and m["r"][2] == 1 and more and self.fast(st) is not False:
            self.bad(a, "fast", "goes on to the next rule after a failure %s" % (
                "in spite of fast termination" if self.fast(st) else "without regard to the termination"))
        self.fold_rule(a, st, m)
        if more:
            m["r"] = (0, 0, None, 0, 0)
            a.kill(st, R)
        else:
            p, c, n, _ = m["rl"]
            s = m["s"]
            m["s"] = (s[0] or p, s[1] or c, s[2] or n) + s[3:]
            m["rl"] = None
        st.mon = self.pack(m)

    def set_step(self, a, st, more, site):
        self.ctx.count("set_steps")
        m = self.get(st)
        self.leave_rules(a, st, m)
        if m["ph"] == "rec" and m["sl"] is None and m["pre"] and m["chk"]:
            m.update(ph="eof" if m["did"] else "rec2", s=None)
        if m["sl"] is None or m["sl"][4] != site:
            m["sl"] = (1, 1, 1, ALL, site)
            m["s"] = None
        if m["s"] is not None:
            s, l = m["s"], m["sl"]
            m["sl"] = (l[0] and s[0], l[1] and (s[1] or s[4] == 0), l[2] and s[2], l[3] & s[3], site)
        m["s"] = None
        st.ass.pop(NORULES, None)
        if more:
            m["s"] = (0, 0, 0, frozenset(), None)
            a.kill(st, RS)
        else:
            l = m["sl"]
            m.update(pre=int(bool(m["pre"] or l[0])), chk=int(bool(m["chk"] or l[1])), fin=int(bool(m["fin"] or l[2])), sel=m["sel"] | l[3], sl=None)
        st.mon = self.pack(m)

    def fin_step(self, a, st, more):
        m = self.get(st)
        if m["fr"] == "item":
            self.bad(a, "finding", "does not write a finding")
        m["fr"] = "item" if more else None
        st.ass.pop(FEMPTY, None)
        if not more and m["r"] is not None:
            m["r"] = m["r"][:4] + (1,)
        st.mon = self.pack(m)

    def endrec(self, a, st, node=None):
        """the work on the record at hand is over"""
        m = self.get(st)
        self.leave_rules(a, st, m)
        if m["ph"] in ("rec", "rec2") and not m["rej"]:
            if not m["pre"]:
                self.bad(a, "unseen", "does not show an accepted record to all link rules", node)
            if not m["chk"]:
                self.bad(a, "unchecked", "does not apply all rules to an accepted record", node)
        return m

    def kind(self, a, st, v, t):
        """what list a value is"""
        v = a._deepread(st, v) if v[0] == "r" else v
        ls = ai.labels(v, st)
        if v[0] == "o":
            if v[1] == ("f", RS, "rules") or "rules" in ls:
                return "rules"
            if "finlist" in ls:
                return "fin"
            if "sets" in ls:
                return "sets"
        return None

    def feasible(self, st, k, site, more):
        """a list that had members before has members still"""
        if k == "fin":
            return True
        m = self.get(st)
        tag, loop = (NOSETS, m["sl"]) if k == "sets" else (NORULES, m["rl"])
        if loop is not None and loop[-1] == site:
            return True
        if st.ass.get(tag) == int(more):
            return False
        st.ass[tag] = int(not more)
        return True

    def item(self, a, st, k, site, keyed=True):
        """the next member, or None if no execution gets here"""
        if not self.feasible(st, k, site, True):
            return None
        if k == "sets":
            self.set_step(a, st, True, site)
            return ("o", RS, fs("rs"))
        if k == "rules":
            self.rule_step(a, st, True, site)
            r = ("o", R, fs("rule"))
            return ("s", (("0", ("o", ("f", R, "id"), fs("rule"))), ("1", r)), "tuple") if keyed else r
        self.fin_step(a, st, True)
        return ("s", (("0", ("o", ("fppn",), fs("fppn"))), ("1", ("o", ("fmsg",), fs("fmsg")))), "tuple")

    def over(self, a, st, k, site):
        if not self.feasible(st, k, site, False):
            return False
        if k == "sets":
            self.set_step(a, st, False, site)
        elif k == "rules":
            self.rule_step(a, st, False, site)
        else:
            self.fin_step(a, st, False)
        return True

    def new_item(self, a, st, v):
        x = a.operand(st, v["from"][0])
        k = self.kind(a, st, x, None)
        if k and not (k == "sets" and self.get(st)["ph"] == "prep" and "opened" not in ai.labels(x, st)):
            x = self.item(a, st, k, self.site(v), "vals" not in ai.labels(x, st))
            st.dead = x is None
            return x or ("o", ("dead",), ai.EMPTY)

    def exhausted(self, a, st, t):
        x = a.operand(st, t["src"])
        k = self.kind(a, st, x, None)
        if k and not (k == "sets" and self.get(st)["ph"] == "prep" and "opened" not in ai.labels(x, st)):
            st.dead = not self.over(a, st, k, self.site(t))

    def site(self, t):
        return "l", t["call"].get("bid"), t.get("ai")

    # ---- events
    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        raw = [a.val(st, x) for x in c.args]
        v = [a._deepread(st, x) if x[0] == "r" else x for x in raw]
        t0 = v[0][1] if v and v[0][0] == "o" else ()
        m = self.get(st)
        if cmds.NEXT.search(c.path):
            m = self.endrec(a, st)
            if m["began"]:
                self.bad(a, "early", "writes findings before all input has been read")
            self.selected(a, st, m)
            tag = ("call", c.site, c.path)
            a.kill(st, tag)
            out = []
            for ph, x in (("eof", ("e", "None", ())), ("none", ("e", "Some", (("0", ("e", "Err", (("0", ("o", ("err", c.site), ai.EMPTY)),))),))),
                          ("rec", ("e", "Some", (("0", ("e", "Ok", (("0", ("o", ("rec",), fs("rec"))),))),)))):
                s = st.copy()
                s.mon = self.pack(dict(m, ph=ph, rej=0, pre=0, chk=0, fin=0, did=0, sl=None, s=None, rl=None, r=None, fr=None))
                out.append((s, x))
            return out
        if n == "new" and re.search(r"set::RuleSet::new$", c.path):
            return [(st, ai.ok(("o", ("set", c.site), fs("opened")))), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if c.path == quant.NEXTI and v:
            k = self.kind(a, st, v[0], None)
            if k == "sets" and m["ph"] == "prep" and "opened" not in ai.labels(v[0], st):
                return None
            if k:
                s = st.copy()
                x = self.item(a, st, k, c.site, "vals" not in ai.labels(v[0], st))
                return [(s, ("e", "None", ()))] * self.over(a, s, k, c.site) + ([] if x is None else [(st, ("e", "Some", (("0", x),)))])
        if n in THROUGH and v and self.kind(a, st, v[0], None):
            k = self.kind(a, st, v[0], None)
            if k == "rules":
                ls = fs("rules") | (fs("vals") if "values" in n or "vals" in v[0][2] else ai.EMPTY)
                return [(st, ("o", ("rules",), ls))]
            return [(st, v[0])]
        if n in ("new", "with_capacity", "default") and re.search(r"^[\w:]*Vec<[\w:]*RuleSet>$", c.t.get("dty") or ""):
            return [(st, ("o", ("sets", 2), frozenset(["sets", "opened"])))]
        if n == "collect" and v and "sets" in ai.labels(v[0], st):
            return [(st, ai.ok(("o", ("sets", 1), frozenset(["sets", "opened"])))), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if n == "is_empty" and t0 == ("f", ("p", "self"), "filter"):
            return [(s, ("k", int(b))) for s, b in a.branch_bool(st, ("o", NOPAT, ai.EMPTY))]
        if n == "is_empty" and t0 == ("fppn",):
            return [(s, ("k", int(b))) for s, b in a.branch_bool(st, ("o", FEMPTY, ai.EMPTY))]
        if n in ("as_bstr", "as_ref", "deref", "as_slice", "as_bytes") and t0 == ("fppn",):
            return [(st, v[0])]
        if n == "retain" and v and len(v) > 1:
            k = self.kind(a, st, v[0], None)
            if k in ("rules", "sets"):
                w = self.predicate(v[1])
                st.ass.pop(NOSETS if k == "sets" else NORULES, None)
                if k == "rules":
                    if w not in ALL or m["s"] is None:
                        self.bad(a, "selection", "drops rules by something else than --rule or --tags")
                    else:
                        s = m["s"]
                        m["s"] = s[:3] + (s[3] | {w},) + s[4:]
                elif w != "nonempty":
                    self.bad(a, "sets", "drops rule sets that have rules")
                st.mon = self.pack(m)
                return [(st, a.fresh(st, c))]
        if n in ("truncate", "clear", "pop", "remove", "swap_remove", "pop_first", "pop_last", "split_off", "dedup", "take", "skip", "step_by", "filter",
                 "take_while", "skip_while", "rev", "retain_mut", "drain", "dedup_by_key", "first_mut", "last_mut") and v \
                and self.kind(a, st, v[0], None) in ("rules", "sets", "fin") and n != "rev":
            self.bad(a, "cut", "does not use all %s" % {"rules": "rules", "sets": "rule sets", "fin": "findings"}[self.kind(a, st, v[0], None)])
        if GATE.search(c.path):
            if t0 and "rs" in v[0][2]:
                out = []
                for b in (0, 1):
                    s = st.copy()
                    if len(v) > 1 and "rec" not in ai.labels(v[1], st):
                        self.bad(a, "scope-record", "matches the scope against something else than the record")
                    x = m["s"] or (0, 0, 0, frozenset(), None)
                    s.mon = self.pack(dict(m, s=x[:4] + (b,)))
                    out.append((s, ("k", b)))
                return out
            s = st.copy()
            s.mon = self.pack(dict(m, rej=1))
            return [(st, ("k", 1)), (s, ("k", 0))]
        if RULE.search(c.path):
            self.ctx.count("checks_visited")
            self.ours(a, st, m, v, "applies a rule")
            if m["s"] is not None:
                sc = m["s"][4]
                if sc is None and self.known(st, ("f", RS, "scope"), "None") is not True:
                    self.bad(a, "scope", "applies a rule without regard to the scope of its set")
                if sc == 0:
                    self.bad(a, "scope", "applies a rule to a record out of scope")
            r = m["r"] or (0, 0, None, 0, 0)
            if r[1]:
                self.bad(a, "twice", "applies a rule twice to a record")
            out = []
            for b in (0, 1):
                s = st.copy()
                s.mon = self.pack(dict(m, did=1, r=(r[0], 1, b, 0, r[4])))
                out.append((s, ("s", (("0", ("k", b)), ("1", ("o", ("msg",), fs("msg")))), "tuple")))
            return out
        if LPRE.search(c.path):
            self.ctx.count("previews_visited")
            self.ours(a, st, m, v, "shows a link rule a record")
            if m["r"] is not None:
                m["r"] = (1,) + m["r"][1:]
            st.mon = self.pack(m)
            return [(st, a.fresh(st, c))]
        if LFIN.search(c.path):
            self.ctx.count("finishes_visited")
            if m["r"] is None:
                self.bad(a, "finish-rule", "asks for findings outside of the loop over the rules")
            m["began"] = 1
            st.mon = self.pack(m)
            return [(st, ("o", ("finlist",), fs("finlist")))]
        if n == "ppn" and v and "rec" in ai.labels(v[0], st):
            return [(st, ("o", ("ppn",), fs("ppn")))]
        if WRITE.search(c.path):
            self.row(a, st, m, v[1])
            return [(st, ai.ok(("s", (), "tuple"))), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if n in ("eq", "ne") and len(v) == 2 and any(x[0] == "o" and x[1] == ("f", RS, "termination") for x in v):
            k = [x[1] for x in v if x[0] == "e"]
            if k:
                out = []
                for b in (0, 1):
                    know = self.known(st, ("f", RS, "termination"), k[0])
                    if know is None or know == bool(b):
                        s = st.copy()
                        if b:
                            s.ass[("f", RS, "termination")] = k[0]
                        else:
                            s.ass[("f", RS, "termination")] = "Default" if k[0] == "Fast" else "Fast"
                        out.append((s, ("k", int(b == (n == "eq")))))
                return out
        return None

    def ours(self, a, st, m, v, what):
        if m["rej"]:
            self.bad(a, "rejected", "%s that was not accepted" % what)
        if m["ph"] not in ("rec", "rec2") or m["r"] is None:
            self.bad(a, "outside", "%s outside of the loops over records and rules" % what)
        if len(v) < 2 or "rec" not in ai.labels(v[1], st):
            self.bad(a, "record", "%s that is not the one at hand" % what)

    def row(self, a, st, m, rec):
        self.ctx.count("rows_visited")
        d = {}
        if rec[0] == "s":
            for k, x in rec[1]:
                x = a.val(st, x)
                d[k] = a._deepread(st, x) if x[0] == "r" else x
        tag = {k: x[1] if x[0] == "o" else x for k, x in d.items()}
        if tag.get("rule") != ("f", R, "id"):
            self.bad(a, "row-rule", "writes a row with something else than the rule's id")
        if tag.get("level") != ("f", R, "level"):
            self.bad(a, "row-level", "writes a row with something else than the rule's level")
        if m["fr"] == "item" or m["fr"] == "written":
            if m["fr"] == "written":
                self.bad(a, "finding-twice", "writes a finding twice")
            if tag.get("message") != ("fmsg",):
                self.bad(a, "row-message", "writes a finding with something else than its message")
            e = st.ass.get(FEMPTY)
            p = d.get("ppn")
            good = p is not None and p[0] == "e" and (p[1] == "None" and e == 1 or p[1] == "Some" and e != 1 and "fppn" in ai.labels(p, st))
            if not good:
                self.bad(a, "row-ppn", "writes a finding with something else than its PPN")
            m["fr"] = "written"
        else:
            r = m["r"]
            if r is None or r[2] != 1:
                self.bad(a, "row", "writes a row although no rule failed")
            elif r[3]:
                self.bad(a, "row-twice", "writes two rows for one failure")
            if tag.get("ppn") != ("ppn",):
                self.bad(a, "row-ppn", "writes a row with something else than the record's PPN")
            if tag.get("message") != ("msg",):
                self.bad(a, "row-message", "writes a row with something else than the rule's message")
            if r is not None:
                m["r"] = r[:3] + (1,) + r[4:]
        st.mon = self.pack(m)

    def selected(self, a, st, m):
        if m["ph"] != "prep":
            return
        self.ctx.count("selections_visited")
        if not st.ass.get(NOPAT) == 1 and "pattern" not in m["sel"]:
            self.bad(a, "select-rule", "does not select the rules by --rule")
        if st.ass.get(NOPAT) == 1 and "pattern" in m["sel"] and m["sel"] != ALL:
            self.bad(a, "select-rule", "selects rules by the absent --rule")
        if st.ass.get(("f", ("p", "self"), "tags")) != "None" and "tags" not in m["sel"]:
            self.bad(a, "select-tags", "does not select the rules by --tags")

    def predicate(self, v):
        if v[0] != "s" or not str(v[2] if len(v) > 2 else "").startswith("closure:"):
            return None
        return predicate(self.ctx, v[2][8:])

    def exit(self, a, st, v, node):
        if not (v[0] == "e" and v[1] == "Ok"):
            return
        self.ctx.count("exits_visited")
        m = self.endrec(a, st, node)
        if not m["fin"]:
            self.bad(a, "unfinished", "ends without having written the findings of all link rules", node)


class New:
    """a rule set as it is read: every rule is given its key as its id; mon: (all seen, the rule at hand)"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def init(self):
        return 0, None

    def fold(self, a, st):
        if st.mon[1] is None:
            return
        x = st.heap.get(("f", R, "id"))
        if x is None or a.val(st, x)[:2] != ("o", ("key",)):
            self.ctx.violation("id", "%s: the id of a rule is not its name in the rule set" % self.f.path, a.trace(a.cur))

    def step(self, a, st, more):
        self.ctx.count("ids_visited")
        self.fold(a, st)
        a.kill(st, R)
        st.heap = {t: v for t, v in st.heap.items() if not rooted(t, R)}
        st.mon = (st.mon[0], 1) if more else (1, None)

    def rules(self, a, st, x):
        x = a.val(st, x)
        x = a._deepread(st, x) if x[0] == "r" else x
        return "rules" in ai.labels(x, st)

    def item(self, keyed=True):
        r = ("o", R, fs("rule"))
        return ("s", (("0", ("o", ("key",), fs("key"))), ("1", r)), "tuple") if keyed else r

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        v = [a._deepread(st, x) if x[0] == "r" else x for x in v]
        if n == "clone_from" and len(v) > 1 and a.val(st, c.args[0])[0] == "r":
            st.write(a.val(st, c.args[0])[1], v[1])
            return [(st, ("s", (), "tuple"))]
        if n == "clone_from" and len(v) > 1 and v[0][0] == "o":
            st.heap[v[0][1]] = v[1]
            return [(st, ("s", (), "tuple"))]
        if v and v[0][0] == "o" and v[0][1] == ("key",) and n in ("to_owned", "clone", "to_string", "into", "from", "as_str", "deref", "as_ref", "borrow",
                                                                   "cloned"):
            return [(st, v[0])]
        if c.path == quant.NEXTI and v and self.rules(a, st, v[0]):
            s = st.copy()
            self.step(a, s, False)
            self.step(a, st, True)
            return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", self.item()),)))]
        if c.path.endswith("toml::from_str") or "RuleSet" in c.dty and "Result" in c.dty and n == "from_str":
            return [(st, ai.ok(("o", RS, fs("rs")))), (st.copy(), ("e", "Err", (("0", ai.mk(("err", c.site))),)))]
        if n in ("iter_mut", "by_ref") and v and v[0][:2] == ("o", ("f", RS, "rules")):
            return [(st, ("o", ("rules",), fs("rules")))]
        return None

    def new_item(self, a, st, v):
        x = a.operand(st, v["from"][0])
        if self.rules(a, st, x):
            self.step(a, st, True)
            return self.item()

    def exhausted(self, a, st, t):
        if self.rules(a, st, a.operand(st, t["src"])):
            self.step(a, st, False)

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "e" and v[1] == "Ok" or v[0] == "o":
            self.ctx.count("new_exits")
            if not st.mon[0]:
                self.ctx.violation("ids", "%s: does not give every rule its id" % self.f.path, a.trace(node))


class Pred:
    """mon: (outcome of the pattern test, some tag contained, tags gone through, no rules)"""

    def __init__(self):
        self.res = set()

    def init(self):
        return None, 0, 0, None

    def call(self, a, st, c):
        n = c.path.rsplit("::", 1)[-1]
        v = [a.val(st, x) for x in c.args]
        ls = [ai.labels(x, st) | ai.labels(y, st) for x, y in zip(c.args, v)]
        m = st.mon
        if n == "is_match" and "RegexSet" in c.path and "key" in ls[1]:
            s = st.copy()
            st.mon, s.mon = (1,) + m[1:], (0,) + m[1:]
            return [(st, ("k", 1)), (s, ("k", 0))]
        if n == "contains" and len(v) == 2 and "tag" in ls[1] and "tag" not in ls[0]:
            s = st.copy()
            st.mon = (m[0], 1) + m[2:]
            return [(st, ("k", 1)), (s, ("k", 0))]
        if n == "is_empty":
            s = st.copy()
            st.mon, s.mon = m[:3] + (1,), m[:3] + (0,)
            return [(st, ("k", 1)), (s, ("k", 0))]
        if ls and "tags" in ls[0] and n not in THROUGH + ("flatten", "as_deref", "unwrap_or_default") and c.path != quant.NEXTI:
            return [(st, ("o", ("call", c.site, c.path), ai.EMPTY))]
        if c.path == quant.NEXTI and "tags" in ls[0]:
            s = st.copy()
            s.mon = m[:2] + (1,) + m[3:]
            return [(s, ("e", "None", ())), (st, ("e", "Some", (("0", ("o", ("tag",), fs("tag"))),)))]
        return None

    def new_item(self, a, st, v):
        x = a.operand(st, v["from"][0])
        if "tags" in ai.labels(x, st) | ai.labels(a.val(st, x), st):
            return ("o", ("tag",), fs("tag"))

    def exhausted(self, a, st, t):
        x = a.operand(st, t["src"])
        if "tags" in ai.labels(x, st) | ai.labels(a.val(st, x), st):
            st.mon = st.mon[:2] + (1,) + st.mon[3:]

    def exit(self, a, st, v, node):
        v = a.val(st, v)
        if v[0] == "o":
            for s, b in a.branch_bool(st, v):
                self.res.add(s.mon + (st.ass.get(("f", ("val",), "tags")), int(b)))
        else:
            self.res.add(st.mon + (st.ass.get(("f", ("val",), "tags")), v[1] if v[0] == "k" else "?"))


def predicate(ctx, key):
    f = ctx.prog.fns.get(key)
    if f is None or not f.body:
        return None
    m = Pred()
    g = ctx.flat(f, inline=lambda h: h.crate == "pica")
    args = f.body.get("args") or f.body.get("arg_count") or 3
    init = {2: ("o", ("key",), fs("key")), 3: ("o", ("val",), fs("val")),
            "heap": {("f", ("val",), "tags"): ("o", ("f", ("val",), "tags"), fs("tags"))}}
    a = ai.AI(ctx.prog, g, m, init=init)
    a.run()
    ctx.unit(f.path)
    out = set()
    for pat, some, over, empty, tags, res in m.res:
        if pat is not None:
            out.add("pattern" if pat == res else None)
        elif empty is not None:
            out.add("nonempty" if empty != res else None)
        elif tags == "None":
            out.add("tags" if res == 0 else None)
        else:
            out.add("tags" if res == some and (res or over) else None)
    return out.pop() if len(out) == 1 else None


def run(ctx):
    prog = ctx.prog
    ex = [f for f in cmds.executes(prog) if cmds.cmdname(f) == "check"]
    if not ex:
        raise mir.MissingAnchor("the check command")
    for f in ex:
        rel = cmds.relevant(prog, ("pica",), EVENT)
        fields = {x[0] for x in prog.adts[f.j["impl_self"]]["variants"][0]["fields"]}
        g = ctx.flat(f, inline=lambda h: h.key in rel and not EVENT.search(h.path) and not cmds.NEXT.search("::" + h.name)
                     and not h.path.endswith("RuleSet::new"))
        pre = ("p", "self")
        heap = {("f", pre, "rules"): ("o", ("f", pre, "rules"), fs("sets"))}
        a = ai.AI(prog, g, Mon(ctx, f, fields), init={"heap": heap}, keep=keep, maxstates=120000)
        a.K = 8
        a.trim = trim
        a.run()
        ctx.unit(f.path)
        ctx.count("states", a.nstates)
    f = prog.fn("pica::commands::check::set::RuleSet::new")
    g = ctx.flat(f, inline=lambda h: False)
    t = ("f", RS, "rules")
    a = ai.AI(prog, g, New(ctx, f), init={"heap": {t: ("o", t, fs("rules"))}})
    a.run()
    ctx.unit(f.path)
    ctx.floor("ids_visited", 2)
    ctx.floor("new_exits", 1)
    ctx.floor("checks_visited", 9)
    ctx.floor("rows_visited", 2)
    ctx.floor("previews_visited", 1)
    ctx.floor("finishes_visited", 1)
    ctx.floor("selections_visited", 1)


def trim(a, st, bid):
    """forget the options once the rules are selected, and the rule and set once their loops are over"""
    m = dict(zip(NAMES, st.mon))
    drop = set()
    for t in st.ass:
        u = t[1] if t[0] == "ne" else t
        if m["ph"] != "prep" and u in (NOPAT, ("f", ("p", "self"), "tags")) or m["r"] is None and rooted(u, R) \
                or m["s"] is None and rooted(u, RS):
            drop.add(t)
    if m["s"] is not None and m["s"][4] is not None:
        drop.add(("f", RS, "scope"))
    v = st.ass.get(("f", R, "check"))
    if v is not None and v != "Link" and m["r"] is not None and m["r"][1]:
        st.ass = dict(st.ass)
        st.ass[("ne", ("f", R, "check"))] = fs("Link")
        drop.add(("f", R, "check"))
    if drop:
        st.ass = {t: v for t, v in st.ass.items() if t not in drop}


def rooted(t, r):
    while isinstance(t, tuple) and t and t[0] == "f":
        t = t[1]
    return t == r


def keep(t):
    t = t[1] if t[0] == "ne" else t
    return t in (NOPAT, FEMPTY, NOSETS, NORULES, ("f", ("p", "self"), "tags"), ("f", RS, "termination"), ("f", RS, "scope"), ("f", R, "check"))
