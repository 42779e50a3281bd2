"""Shared knowledge about the command-line crate."""
import re
import mir

NEXT = re.compile(r"::next_(byte|string)_record$")


def executes(prog):
    """every subcommand entry point, found from the dispatch, not a list"""
    out = [f for f in prog.fns.values()
           if f.kind == "AssocFn" and f.name == "execute" and f.crate == "pica"
           and f.j.get("impl_self", "").startswith("pica::commands::")]
    return sorted(out, key=lambda f: f.key)


def cmdname(f):
    return f.j["impl_self"].rsplit("::", 1)[1].lower()


def tag_has(t, name):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "f" and t[2] == name:
            return True
        return any(tag_has(x, name) for x in t if isinstance(x, tuple))
    return False


def tag_ends(t, name):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] == name


def mentions(f, call_rx=None, fields=(), types=None):
    """does the body of f itself touch one of the given callees / fields"""
    for body in [f.body] + list(f.promoted):
        if not body:
            continue
        for j in mir.walk(body):
            if isinstance(j, dict):
                p = j.get("path")
                if call_rx is not None and isinstance(p, str) and (
                        call_rx.search(p) or call_rx.search(j.get("rpath", ""))):
                    return True
                if fields and j.get("r") == "agg" and any(x in fields for x in j.get("fields", [])):
                    return True
                if types is not None and isinstance(j.get("ty"), str) and types.search(j["ty"]):
                    return True
            elif isinstance(j, list) and len(j) == 5 and j[0] == "f" and j[2] in fields:
                return True
        if types is not None and any(types.search(l[0]) for l in body["locals"]):
            return True
    return False


def relevant(prog, crates, call_rx=None, fields=(), types=None, extra=()):
    """functions from which a relevant construct is reachable (call-graph closure)"""
    rel = set(extra)
    fs = [f for f in prog.fns.values() if f.crate in crates and f.body and not f.derived]
    for f in fs:
        if mentions(f, call_rx, fields, types):
            rel.add(f.key)
    cg = {f.key: prog.callees(f) | {c.key for c in prog.children.get(f.key, [])} for f in fs}
    ch = True
    while ch:
        ch = False
        for k, cs in cg.items():
            if k not in rel and cs & rel:
                rel.add(k)
                ch = True
    return rel
