prop("C15", "A glob accepts only after, and refuses only against, a known comparison",
 "Glob.Match, GGlob.Match and MatchByParts accept a text only after every part of the pattern agreed with it: prefix, suffix and the middle (the list of values or the items) on the text between them, for dotted globs all parts in order, as many as the pattern has, none of them empty in Match. They refuse only when a field disagreed: a length out of the limits (without dots for dotted globs), prefix, suffix, middle, the number of parts, an empty part or an empty text.",
 ["inputs"], "every glob, every dotted glob, every text and list of parts",
 "the tests list pairs of pattern and text; a field which is skipped, or a refusal which is too early, shows only for patterns with one combination of fields (suffix without items, values with a prefix, last part empty)",
 ["glob/glob.go", "gglob/gglob.go", "gglob/utils.go"], [("decision from prefix, suffix, values, items and length limits", "Glob.Match, GGlob.Match, MatchByParts")],
 ["result of Match and MatchByParts"],
 ("must-compare obligations on every accepting and refusing path, relational dataflow over SSA", "every return path with helpers entered and text positions as symbolic slices; trusted: items.MatchItems (C13, C14), package strings, and that parsing fills the fields consistently"))
prop("C16", "A tree of paths or tags enters a child only for its own part of the input",
 "Matching in GGlobTree and GTagsTree enters or reports a child node only when the part of the input at its place was found to match it: for paths the first part, non-empty, with the rest of the path handed on, and a report only when the path is used up; for tags the term matched the value of its own tag, or is a negative term and the tag is known absent. The search of a tag by key gives a place which holds the key, or none only after every place was excluded, and a new key of a node is put behind all lesser and before all greater ones, the name first, as the searches need it.",
 ["inputs", "histories"], "every tree, every path, every list or map of tags",
 "a child entered for the wrong part or tag shows only when several tags or parts are alike; a search which misses a key does so for some counts of tags only, and a key put into a wrong place only hides others for some orders of registration",
 ["gglob/gtree.go", "gtags/items.go", "gtags/tree.go", "gtags/tagged_term.go"], [("descent of the path tree", "GTreeItem.Match*"), ("descent of the tag tree, binary search of a tag", "TaggedItem.MatchByTags, MatchByTagsMap, find")],
 ["reports of Match, MatchByParts, MatchByTags, MatchByTagsMap"],
 ("guard analysis at every descent and report, plus exclusion proof of the key search, by relational dataflow over SSA", "every recursive call and Store site; binary search invariant: a return of -1 needs every place excluded by comparisons with a sorted list; every write of a list of keys puts one element where comparisons bound it on both sides; trusted: TreeItem matchers, Term.Match, tags sorted by the caller"))
