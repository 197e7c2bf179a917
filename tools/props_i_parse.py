prop("C24", "The length limits of a pattern exclude no text it stands for",
 "The least and the greatest length of an item, a parsed glob or a dotted glob bound the length in bytes of every text which it stands for: a single item gives the least and the greatest number of bytes it can consume (a character has one to four), a list, a group or a class the least and the greatest of its values, a sequence or a pattern the sum over all of its pieces, and one piece without limit makes the whole unlimited, whatever follows it. A list or a group is optional exactly when one of its values has no length.",
 ["inputs"], "every pattern: any number and order of pieces, any values of lists and ranges of classes",
 "a wrong limit shows only with a text at the limit: symbols of four bytes, the longest value of a list at a certain place, a star before a limited piece; the tests hold a few",
 ["glob/glob.go", "gglob/gglob.go", "pkg/items/chain.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/items/utils.go", "pkg/items/any.go", "pkg/items/star.go", "pkg/items/rune.go", "pkg/utils/runesranges.go"],
 [("limits of items", "MinLen, MaxLen of every item; setSizes of a class"), ("sums", "glob.Parse, gglob.Parse, Chain.Append, AddMaxLen"), ("least and greatest value", "NewItemList, NewGroup"), ("optional", "IsOptional")],
 ["MinLen, MaxLen of Glob and GGlob; texts refused by Match because of their length"],
 ("accumulators of loops over pieces (sum, least, greatest) as inductive invariants, relational dataflow over SSA", "every return path of the listed functions with helpers entered; the least length of a single item has to be exact (it decides what is optional), the limits of a pattern may be wider; trusted: merging of ranges of a class keeps their characters, characters between two of the same length have this length"))

prop("C25", "Parsing keeps every piece of a pattern, in order",
 "A parsed pattern stands for its whole text: the pieces which the parser takes (a literal, a class, a list or group, ?, one or more *) cover the text without gap or overlap, each becomes exactly one item in the order of the text, a literal item holds exactly the bytes of its piece, a list or group holds every value of its text (only values equal to another one are dropped), a dotted glob holds every part between its dots, and what is recorded beside the items (plain values, set of first bytes, normalized text) agrees with the items.",
 ["inputs"], "every text of a pattern: any number and order of pieces, any values of lists and groups, any bytes",
 "the tests parse some dozens of texts; a piece is lost or moved only at certain places: at the end, behind a star, after so many pieces, behind a value which is not ASCII",
 ["glob/glob.go", "gglob/gglob.go", "pkg/items/wildcards.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/items/utils.go", "pkg/items/chain.go"],
 [("pieces of a pattern", "glob.Parse, NextWildcardItem"), ("values of a list or group", "ListExpand, NewGroup, NewItemList"), ("parts of a dotted glob", "gglob.Parse")],
 ["Items, Node and Vals of Glob, Parts of GGlob; texts matched"],
 ("inductive invariants over the loops of the parser (items so far are the items of the text so far), relational dataflow over SSA with event histories", "every return path of the six functions with helpers entered; characters of a class and their merging (RunesRangeExpand, RunesRangeMerge) are trusted; which limits the parser sets is C24"))
