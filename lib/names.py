"""Tests of a file's name: does it end in `.gz`, is it `-`."""
import ai


class Ext:
    """recognises the test of a path's extension and of the path `-`"""
    GZ, DASH = ("isgz",), ("isdash",)

    def names(self, a, st, c, n, v, ls):
        """outcome of calls that test names, None for other calls"""
        if n == "new" and len(v) == 1 and v[0][0] == "k" and ("OsStr::new" in c.path or "Path::new" in c.path):
            return [(st, v[0])]
        if n == "extension" and len(v) == 1:
            return self.maybe(st, ("o", ("ext", v[0]), frozenset(["ext"])), self.GZ + (v[0],))
        if n in ("to_str", "to_string_lossy", "as_encoded_bytes", "as_bytes", "as_os_str", "as_ref", "deref") and len(v) == 1:
            if v[0][0] == "o" and v[0][1][0] == "ext":
                return self.maybe(st, v[0], self.GZ + (v[0][1][1],)) if n == "to_str" else [(st, v[0])]
            if n == "to_str" and self.path(v[0], ls[0]):
                return self.maybe(st, v[0], self.DASH + (v[0],))
        if n in ("eq", "ne") and len(v) == 2:
            x, y = (a._deepread(st, w) for w in c.args)
            r = self.same(a, st, x, y)
            if r is not None:
                return [(s, ("k", int(b == (n == "eq")))) for s, b in r]
        return None

    def maybe(self, st, v, tag):
        """a name that may be missing, and then fails the test"""
        s = st.copy()
        s.ass[tag] = 0
        return [(st, ("e", "Some", (("0", v),))), (s, ("e", "None", ()))]

    def path(self, v, ls):
        return v[0] == "o" and "path" in ls

    def same(self, a, st, x, y):
        if x[0] == "k":
            x, y = y, x
        if x[0] == "e" and y[0] == "e":
            if x[1] != y[1]:
                return [(st, False)]
            if not x[2]:
                return [(st, True)]
            return self.same(a, st, a.val(st, x[2][0][1]), a.val(st, y[2][0][1]))
        if y[0] == "s" and len(y[1]) == 1:
            y = y[1][0][1]
        if y[0] != "k":
            return None
        if x[0] == "o" and x[1][0] == "ext" and y[1] == "gz":
            return a.branch_bool(st, ("o", self.GZ + (x[1][1],), ai.EMPTY))
        if x[0] == "o" and y[1] == "-" and self.path(x, ai.labels(x, st)):
            return a.branch_bool(st, ("o", self.DASH + (x,), ai.EMPTY))
        return None


def tags(v):
    """the tags a value is made of"""
    if v[0] == "o":
        return {v[1]}
    return {t for _, x in (v[1] if v[0] == "s" else v[2] if v[0] == "e" else ()) for t in tags(x)}
