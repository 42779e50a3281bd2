import build
import comp
import mir
from comp import For, Join

META = {
    "id": "P33",
    "title": "A query yields exactly the rows its fragments call for",
    "statement": "A path contributes, for each field its tag, occurrence and condition select, the product of its code lists, each "
                 "standing for the values of the subfields it names, in order (one empty value if none; all joined by the separator "
                 "if squashed); a path that selects nothing gives one row of as many empty values. A literal gives one row, a format "
                 "one row per value (an empty one if none). The fragments' rows, merged by column with the separator if asked, are "
                 "multiplied left to right, an operand without rows being neutral.",
    "over": ["inputs", "configurations"],
    "for_all": "every record, every query and every setting of squash, merge and the separator",
    "why": "Records have any number of fields and subfields and queries any number of fragments and code lists; tests try a few "
           "queries on one record.",
    "files": ["src/query.rs"],
    "mechanism": [["Fragment::query", "src/query.rs"], ["Outcome: Add, Mul, squash, merge", "src/query.rs"],
                  ["QueryExt::query for RecordRef and StringRecord", "src/query.rs"]],
    "technique": "comprehension extraction: abstract interpretation of MIR into list comprehensions, compared with a specification",
    "rule": "every function is turned into the comprehension it computes (iterator chains and loops alike, loops over lists built "
            "on the way merged), with the conditions under which a round adds what; for every exit and every round the addition "
            "must be the one specified under the conditions settled there, and the specification's conditions must be settled.",
    "assumptions": "Library list operations (push, extend, flatten, join, iterator adaptors) do what they are documented to do; "
                   "what a condition, a tag test or a format computes is decided by other properties.",
}
QP = "pica_record::query::"


def p(n):
    return ("p", n)


def t(*x):
    return ("t",) + x


def E(x):
    return ("e", x)


def X(x):
    return ("x", x)


EMPTY = ("k", "")


def run(ctx):
    prog = ctx.prog

    def fn(path):
        f = [f for f in prog.fns.values() if f.path == path and f.body]
        if not f:
            raise mir.MissingAnchor(path)
        return f[0]
    own = {QP + "Outcome::<bstr::bstring::BString>::squash", QP + "Outcome::<bstr::bstring::BString>::merge",
           "<%sOutcome<T> as core::ops::arith::Add>::add" % QP, "<%sOutcome<T> as core::ops::arith::Mul>::mul" % QP,
           QP + "Fragment::query"}

    def inline(h):
        # helpers of the module are part of the function that uses them
        return h.path.startswith(QP) and h.path not in own and h.path.rsplit("::", 1)[-1] not in ("into_inner", "deref", "from") \
            and not h.path.startswith("<")

    def extract(path, rename=None, **kw):
        f = fn(path)
        if not f:
            return None, None
        b = build.run(ctx, f, inline=inline, **kw)
        return f, comp.Norm(b, newtypes=("Outcome",), rename=rename)

    def say(f, key, cmp, tr, what):
        ctx.violation("%s:%s" % (f.path, key), "%s: %s" % (what, cmp.why), tr)

    def judge(path, what, spec, rename=None, **kw):
        """spec(q) -> the expected result of an exit"""
        f, n = extract(path, rename, **kw)
        if not f:
            return
        done = set()
        for at, r, tr in n.exits():
            if (at, r) in done:
                continue
            done.add((at, r))
            cmp = comp.Cmp(ctx)
            q = comp.Q(cmp, at)
            segs = r[1] if r[0] == "L" else (("x", r),)
            try:
                want = spec(q)
            except comp.Undet as e:
                ctx.violation("%s:undetermined" % f.path, "%s returns without %s being settled: [%s]" % (
                    what, e, ", ".join(comp.seg(s) for s in segs)), tr)
                continue
            if want is not None and not cmp.list(segs, want, at):
                say(f, "result", cmp, tr, what)

    def bare(*names):
        """an outcome and the rows it consists of are one thing"""
        def ren(x):
            if x[0] == "f" and x[1][0] == "p" and x[1][1] in names and x[2] == "0":
                return x[1]
            return x
        return ren

    # sum and product of outcomes
    s, r = p("self"), p("rhs")
    judge("<%sOutcome<T> as core::ops::arith::Add>::add" % QP, "the sum of two outcomes", lambda q: [X(s), X(r)], bare("self", "rhs"))

    def mul(q):
        es, er = q.known(t("is_empty", s)), q.known(t("is_empty", r))
        if es:
            return [X(r)]
        if er:
            return [X(s)]
        if es is None or er is None:
            raise comp.Undet("whether one of them is empty")
        return [For(s, lambda x, q: [For(r, lambda y, q: [E([X(x), X(y)])], "the rows of the right one")], "the rows of the left one")]
    judge("<%sOutcome<T> as core::ops::arith::Mul>::mul" % QP, "the product of two outcomes", mul, bare("self", "rhs"))

    # squash and merge
    sep = p("sep")
    judge(QP + "Outcome::<bstr::bstring::BString>::squash", "squashing",
          lambda q: [E([E([Join(sep, [For(s, lambda x, q: [X(x)], "the rows")])])])], bare("self"), rounds=True)
    merging(ctx, judge, s, sep, bare("self"))

    # a fragment
    path = ("f", ("v", s, "Path"), "0")
    strip = ("f", path, "0")

    def boxed(x):
        return path if x == strip else ("f", ("v", s, "Format"), "0") if x == ("f", ("f", ("v", s, "Format"), "0"), "0") else x
    opt = p("options")

    def values(fld, codes, wrap=lambda x: x):
        return [For(t("subfields", fld), lambda sf, q: [E(wrap(t("value", sf)))] if q(
            t("contains", codes, t("code", sf)), "whether the code is asked for") else [], "the subfields")]

    def cells(fld):
        def one(codes, q):
            some = values(fld, codes, lambda x: [E(x)])
            none = q.empty([values(fld, codes), some], "there is a value")
            rows = [E([E(EMPTY)])] if none else some
            if q(("f", opt, "squash"), "whether to squash"):
                rows = t("squash", rows, ("f", opt, "separator"))
            return [("set", t("mul", ("cur",), rows))]
        return [For(("f", path, "codes"), one, "the codes")]

    def field(fld, q):
        m = ("f", path, "subfield_matcher")
        tag = t("is_match", ("f", path, "tag_matcher"), t("tag", fld))
        occ = t("is_match", ("f", path, "occurrence_matcher"), t("occurrence", fld))
        sub = q.known(m)
        conds = [(tag, "whether the tag matches"), (occ, "whether the occurrence matches")]
        if sub == "Some":
            conds.append((t("is_match", ("f", ("v", m, "Some"), "0"), t("subfields", fld), opt), "whether the condition on the subfields holds"))
        elif sub != "None":
            conds.append((("f", m, "?"), "whether the condition on the subfields holds"))
        return cells(fld) if q.all(*conds) else []

    def fragment(q):
        k = q(s, "the kind of fragment")
        if k == "Literal":
            return [E([E(("f", ("v", s, "Literal"), "0"))])]
        if k == "Format":
            rows = [For(t("format", p("record"), ("f", ("v", s, "Format"), "0"), opt), lambda x, q: [E([E(x)])], "the formatted values")]
            return [E([E(EMPTY)])] if q.empty(rows, "there is a formatted value") else rows
        rows = [For(t("fields", p("record")), field, "the fields of the record")]
        if q.empty(rows, "a field contributed a row"):
            return [E([("rep", EMPTY, t("len", ("f", path, "codes")))])]
        return rows
    judge(QP + "Fragment::query", "a fragment", fragment, boxed)

    # a query
    def product(q):
        def frag(x, q):
            o = t("query", x, s, opt)
            if q(("f", opt, "merge"), "whether to merge"):
                o = t("merge", o, ("f", opt, "separator"))
            return [("set", t("mul", ("cur",), o))]
        return [For(("f", p("query"), "fragments"), frag, "the fragments")]

    def whole(q):
        # the product of no fragments is empty
        for a, v in q.at.items():
            if a[:2] == ("t", "some") and v == 0:
                return []
        return product(q)
    judge("<pica_record::primitives::record::RecordRef<'_> as %sQueryExt>::query" % QP, "a query", whole)
    rec = t("query", ("f", s, "0"), p("query"), opt)
    judge("<pica_record::record::StringRecord<'_> as %sQueryExt>::query" % QP, "a query on a text record",
          lambda q: [For(rec, lambda x, q: [E([X(x)])], "the rows of the query on the bytes")])
    ctx.floor("exits_compared", 20)
    ctx.floor("parts_compared", 40)


def merging(ctx, judge, s, sep, ren):
    """every value of the row is the values of its column, joined"""
    def columns(row):
        def check(u, at, cmp):
            # the new row: per column what there is, the separator and the value of this row
            segs = u[1] if u[0] == "L" else (("x", u),)
            if len(segs) != 1 or segs[0][0] != "for":
                return cmp.no("%s where a value for each column is expected" % comp.show(u))
            src, it, rows = segs[0][1:]
            cur = None
            if src[:2] == ("range", ("k", 0)) and src[2][:2] == ("t", "len"):
                cur = src[2][2]
                left = lambda c: ("t", "index", c, it)
                mine, other = [left(x) for x in (cur,)], ("t", "index", row, it)
                if cur == row:
                    mine = None
            elif src[0] == "zip":
                mine, other = [it + (0,)], it + (1,)
                cur = src[1]
                if src[2] != row:
                    return cmp.no("goes over the columns of %s" % comp.show(src[2]))
            else:
                return cmp.no("goes over %s instead of the columns" % comp.show(src))
            if cur[0] != "cur" and cur != row:
                return cmp.no("goes over the columns of %s" % comp.show(cur))
            for a, c in rows:
                got = c[0][1] if len(c) == 1 and c[0][0] == "e" and c[0][1][0] == "L" else None
                if got is None or len(got[1]) != 3:
                    return cmp.no("[%s] where the joined values of a column are expected" % ", ".join(comp.seg(x) for x in c))
                x, y, z = got[1]
                first = x[1] in mine if mine else (x[1][:2] == ("t", "index") and x[1][2][0] == "cur" and x[1][3] == it)
                if x[0] != "x" or not first or y != X(sep) or z != X(other):
                    return cmp.no("%s where the values of a column, joined by the separator, are expected" % comp.show(got))
            return True
        return check

    def spec(q):
        for a, v in q.at.items():
            if a[:2] == ("t", "some") and v == 0:
                return None
        if q.known(t("is_empty", s)):
            return None
        return [E([For(s, lambda row, q: [("set", columns(row))], "the rows")])]
    judge(QP + "Outcome::<bstr::bstring::BString>::merge", "merging", spec, ren)
