import preds

META = {
    "id": "P16",
    "title": "Quantifiers, comparisons and counts of filter expressions mean what they say",
    "statement": "An ANY predicate is true exactly if some subfield (field) selected by code (tag and occurrence) satisfies "
                 "its comparison, an ALL predicate exactly if every selected one does, and a negated comparison is the exact "
                 "complement of the plain one for the same value. A count predicate compares the number of all matching "
                 "subfields (fields) with the given number by the operator written.",
    "over": ["inputs", "configurations"],
    "for_all": "every sequence of subfields or fields, every operator, quantifier and option setting",
    "why": "The result depends on a whole sequence of subfields of unbounded length; examples fix a few short ones.",
    "files": ["src/matcher/subfield/mod.rs", "src/matcher/field/mod.rs"],
    "mechanism": [["subfield predicates", "src/matcher/subfield/mod.rs: *Matcher::is_match"],
                  ["field predicates", "src/matcher/field/mod.rs: ExistsMatcher, SubfieldsMatcher, CardinalityMatcher"]],
    "technique": "abstract interpretation of inlined MIR with set-of-outcomes loop summaries (truth-table analysis)",
    "rule": "for every predicate and every configuration of operator, quantifier, negation and case option, all paths of the "
            "inlined control-flow graph are followed; each comparison of the item's value with the expression's value is an "
            "atom with both outcomes; at every return the outcomes of the items seen must determine exactly the returned "
            "boolean (ANY: some true / all seen and none true; ALL dually; counts: an item is counted iff it matches, and the "
            "returned comparison with the expected number is the operator's for each of <, =, >).",
    "assumptions": ["string, regex and similarity primitives of the dependencies compute what they are named after",
                    "operators an expression parser never produces for a matcher are not analysed"],
}


def run(ctx):
    ctx.parallel(range(len(preds.cases(ctx.prog))), one)
    ctx.floor("predicates", 70)


def one(ctx, i):
    item = preds.cases(ctx.prog)[i]
    preds.analyse(ctx, item, lambda k, m, t: None if k.endswith(":case") else ctx.violation(k, m, t))
