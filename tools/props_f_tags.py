prop("C19", "A tag term decides by its operator, a list of terms by all of its terms",
 "TaggedTerm.Match returns exactly what its operator says of the value: equal to the text, or matched by the glob when it has wildcards, for =; matched by the regular expression for =~; the opposite for != and !=~. A list of terms accepts a set of tags, given as a map or as sorted tags, only when every term accepted the value of its own tag, or is negative and its tag is absent; it refuses one only when a term refused the value of its own tag, or the tag of a positive term is absent.",
 ["inputs"], "every list of terms and every set of tags",
 "whether a term is compared with its own tag depends on which tags are present between those of the terms before it; the tests hold a few sets",
 ["gtags/tagged_term.go"], [("decision of one term", "TaggedTerm.Match"), ("decision of a list, over a map and over sorted tags", "TaggedTermList.MatchByTags, TaggedTermList.MatchByTagsMap")],
 ["result of Match, MatchByTags and MatchByTagsMap"],
 ("decision tables of return paths and loop invariants over the terms, relational dataflow over SSA", "every path of the three operations with helpers entered; terms and tags are taken as sorted by key, as the parser and the callers leave them; trusted: the glob and the regular expression of a term"))
prop("C20", "A tag query is parsed into exactly the terms it is written with",
 "ParseSeriesByTag takes exactly the quoted texts between 'seriesByTag(' and the last ')' as conditions, in order, without the empty ones. ParseTaggedConditions makes exactly one term of each condition: the text before the first operator is the key (name stands for __name__), the longest of =, =~, != and !=~ there is the operator, the rest the value, both without spaces around; a regular expression or a glob is made of the value when the operator or its wildcards ask for it. The terms are sorted by key, with the name first, then operator, then value. An error is returned only for a query of another form, too many conditions, or an operator, expression or glob which is invalid.",
 ["inputs"], "every query and every list of conditions",
 "conditions are free text; the tests hold the usual forms only, and few conditions with several operators, spaces, quotes or brackets within",
 ["gtags/tagged_term.go"], [("conditions of a query", "ParseSeriesByTag, seriesByTagArgs, parseString"), ("terms of the conditions", "ParseTaggedConditions, TaggedTerm.build"), ("order of the terms", "comparison of sort.Slice")],
 ["terms and error of ParseSeriesByTag and ParseTaggedConditions"],
 ("provenance of the fields of each term as spans of the condition, loop invariants, relational dataflow over SSA", "every path of the two operations with helpers entered; trusted: meaning of the functions of package strings, sort.Slice, regexp.Compile and glob.Parse"))
prop("C21", "A path is split into exactly its name and its tags",
 "PathTags, PathTagsMap, PathTagsMapB, their Graphite forms and TagsMap give exactly the name of the path, as tag __name__, and one tag for each key=value piece of the rest, keys and values unescaped, in order, none left out, added or mixed with another; the forms which fill a map of the caller remove first what it held. An error is returned only when the name is missing or invalid or a piece has no value.",
 ["inputs"], "every path",
 "paths are free text, with escapes, separators and equal signs in any place; the tests hold a few",
 ["gtags/tagged_term.go"], [("splitting of a path", "PathTags, PathTagsMap, PathTagsMapB, GraphitePathTags, GraphitePathTagsMap, GraphitePathTagsMapB, TagsMap"), ("next piece", "NextTag, GraphiteNextTag")],
 ["tags and error of the splitting operations"],
 ("provenance of keys and values as spans of the path, position in the path as a loop invariant, relational dataflow over SSA", "every path of the seven operations with helpers entered; trusted: meaning of strings.Cut and other functions of package strings, unescaping"))
