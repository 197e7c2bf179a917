prop("C05", "No place outside of a text or list is read",
 "Parsing, registration, matching, splitting and expansion never fail with an index or slice bound out of range, whatever pattern, expression, query, path or tag set is passed: every index into a text, list or array is within its length, and the bounds of every slice taken are in order and within the capacity.",
 ["inputs"], "every argument of every exported operation of glob, gglob, gtags and expand",
 "a crash needs a text which ends at the wrong place, a list of exactly the size of a fixed array, or a combination of items; the tests hold well formed texts of a few shapes",
 ["glob/glob.go", "gglob/gglob.go", "gglob/utils.go", "gtags/tagged_term.go", "gtags/items.go", "expand/expand.go", "expand/expression.go", "expand/runes.go", "pkg/items/items.go", "pkg/items/tree.go", "pkg/items/wildcard.go", "pkg/utils/runesranges.go", "pkg/escape/unescape.go"],
 [("bounds of indexes and slices", "every index and slice expression reached from the exported operations"), ("relations of lengths", "checks of lengths before accesses, results of searches")],
 ["panics of the exported operations"],
 ("relational abstract interpretation over SSA (linear relations of lengths, places and results; summaries of calls; fixpoint)", "about 2600 obligations from all exported operations of the four packages, objects built only by the library; internal helpers exported with preconditions are judged where they are called; 40 places in package expand which depend on the products of alternatives are not judged (listed in DESIGN.md); trusted: results of the listed standard library functions are within their documented ranges"))
