import re
import ai, mir
from emit import *

META = {
    "id": "P17",
    "title": "Writing a record emits every field and subfield with the PICA+ separators",
    "statement": "Writing a record, field or subfield in PICA+ form emits, in order and exactly once each, for every field its "
                 "tag, a slash and its occurrence if and only if it has one, a space, for every subfield the unit separator, "
                 "its code and its value unchanged, and then the record separator; a non-empty record ends with one line "
                 "feed and an empty one emits nothing. A record that still holds the bytes it was read from emits exactly "
                 "those.",
    "over": ["inputs"],
    "for_all": "every record, with any number of fields, subfields and occurrences",
    "why": "Everything the toolkit outputs as PICA+ goes through these functions; tests write a few records and cannot cover "
           "every combination of fields, occurrences and values.",
    "files": ["src/primitives/record.rs", "src/primitives/field.rs", "src/primitives/subfield.rs", "src/primitives/tag.rs",
              "src/primitives/occurrence.rs", "src/record.rs"],
    "mechanism": [["write_to of Record(Ref), Field(Ref), Subfield(Ref), Tag(Ref), Occurrence(Ref)", "src/primitives"],
                  ["ByteRecord::write_to", "src/record.rs"]],
    "technique": "token-stream typestate: abstract interpretation of MIR against a regular grammar of the format",
    "rule": "the literal bytes and record parts each write_to hands to its sink, over the unfolded loops, form on every path "
            "without an output error a word of the format's grammar: nothing missing, doubled, reordered, cut off or "
            "changed; the occurrence is left out only where it is known to be absent.",
}

SUB = seq(lit("\x1f"), part("code"), part("value"))
OCC = alt(seq(lit("/"), part("occurrence")), guard("noocc"))
FIELD = seq(part("tag"), OCC, lit(" "), star(seq(ev("S+"), SUB)), ev("S-"), lit("\x1e"))
REC = seq(star(seq(ev("F+"), FIELD)), ev("F-"))
FORMATS = {
    "Record": alt(seq(REC, lit("\n")), guard("empty")),
    "Field": FIELD,
    "Subfield": SUB,
    "Tag": part("tag"),
    "Occurrence": seq(lit("/"), part("occurrence")),
}


class Raw(Emit):
    """records that keep the bytes they were read from"""

    def kind(self, v):
        if v[0] == "o" and v[1] == ("raw",):
            return ("raw", ())
        return Emit.kind(self, v)


def run(ctx):
    prog = ctx.prog
    disp = Display(prog)
    fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.key)
           if f.crate == "pica_record" and f.name == "write_to" and f.body]
    for f in fns:
        t = strip_ty(f.j.get("impl_self", "")).rsplit("::", 1)[-1]
        base = t[:-3] if t.endswith("Ref") else t
        g = ctx.flat(f, inline=lambda h: h.crate == "pica_record" and h.name != "fmt")
        if t in ("ByteRecord", "StringRecord"):
            import P05
            for raw in (True, False):
                nfa = Nfa(seq(part("raw")) if raw else FORMATS["Record"])
                v = P05.value(prog, raw)
                if t == "StringRecord":
                    v = ("s", ((prog.adt(P05.TY.replace("Byte", "String"))["variants"][0]["fields"][0][0], v),), "x")
                a = ai.AI(prog, g, Raw(ctx, f, g, nfa, disp), init={1: v})
                a.run()
                ctx.count("states", a.nstates)
            ctx.count("writers")
            ctx.unit(f.path)
            continue
        if base not in FORMATS:
            continue
        ls = {"Record": {"rec"}, "Field": {"rec", "field"}, "Subfield": {"rec", "field", "sub"}}.get(base, {"rec", "field"})
        v = ("o", ("p", "self"), frozenset(ls))
        if base in ("Tag", "Occurrence"):
            v = ("o", ("f", ("p", "self"), base.lower()), frozenset(ls))
        a = ai.AI(prog, g, Emit(ctx, f, g, Nfa(FORMATS[base]), disp, what=base.lower()), init={1: v})
        a.run()
        ctx.unit(f.path)
        ctx.count("writers")
        ctx.count("states", a.nstates)
    ctx.floor("writers", 11)
    ctx.floor("items_visited", 4)
    ctx.floor("tokens_visited", 60)
    ctx.floor("exits_compared", 11)
