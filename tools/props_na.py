prop("C90", "A glob accepts exactly its language",
 "For every pattern and every string, a match succeeds exactly when the string is in the language of the pattern under the documented semantics of *, ?, [..] and {..}.",
 ["inputs"], "every pattern and every string", "infinite input space; the tests list a few hundred pairs",
 ["pkg/items/items.go", "glob/glob.go"], [("backtracking matcher over parsed items", "pkg/items")], ["Match result"],
 na="functional equivalence of a backtracking matcher with a language definition quantifies over runtime strings; no static argument in reach decides it (its structural parts are claimed separately)")
prop("C91", "A tree matches exactly what its patterns match one by one",
 "For every set of registered patterns and every input, the tree reports a pattern exactly when the pattern parsed alone matches the input.",
 ["inputs", "histories"], "every set of patterns and every input", "combinations of patterns and inputs are unbounded",
 ["pkg/items/tree.go", "gglob/gtree.go", "gtags/items.go"], [("tree matchers mirror the single matchers", "pkg/items/tree.go")], ["Match of tree vs. pattern"],
 na="equality of the results of two different algorithms on all inputs is a behavioural equivalence; the code is known to differ for lists after a star (see DESIGN.md), and no sound static rule separates those inputs")
prop("C92", "A pattern is reported at most once per match",
 "One match of a tree reports each registered pattern at most once.",
 ["inputs"], "every tree and input", "needs inputs which reach one node by several ways",
 ["pkg/items/tree.go"], [("match counters", "pkg/items/tree.go")], ["Store calls"],
 na="does not hold by design of the current code (several ways through a list or group report again, and existing tests pin those counts), so it is not claimed")
prop("C93", "The normalized form is a fixed point",
 "Parsing the normalized text of a pattern gives the same normalized text and the same matches.",
 ["inputs"], "every pattern", "round trip over all patterns",
 ["glob/glob.go", "pkg/items"], [("WriteString of items", "pkg/items")], ["Node"],
 na="round-trip equality of a parser and a printer over all inputs depends on runtime values; no static argument in reach")
prop("C94", "The merged ranges of a class keep exactly its characters",
 "Sorting and merging the ranges of a class changes none of the characters which the class stands for, and each is in exactly one range.",
 ["inputs"], "every class: any number of ranges, overlapping, repeated, out of order", "the merge works in place over a sorted array, the tests hold a few classes",
 ["expand/runes.go", "pkg/utils/runesranges.go"], [("merge of ranges", "runesRangeMerge, RunesRangeMerge")], ["characters matched by a class, results of an expansion"],
 na="equality of the union of sorted intervals before and after an in-place compaction is a quantified invariant over array contents and a comparison function given to sort.Slice; the dataflow here has no such array theory, so the merge is stated as trusted in C22, C24, C25 and C26")
