prop("C17", "A pattern is registered at the end of a path of nodes for exactly its parts",
 "Adding a pattern to a GlobTree, GGlobTree or GTagsTree follows or makes, from the root, one node for each of its parts in order (prefix, items and suffix of a glob; dot-separated parts below the root for their number; terms in the group of their tag, on the side of their operator), none left out, added or exchanged, and puts the pattern at the last one. A node which is there already is shared only when it carries the same part, searched in the same direction.",
 ["inputs", "histories"], "every pattern, added to every tree",
 "a node shared with a part which only looks alike, or a part left out, changes what is matched only for trees which hold certain pairs of patterns, or patterns with many parts",
 ["glob/tree.go", "gglob/gtree.go", "gtags/items.go", "gtags/tree.go", "pkg/items/store.go"], [("placement of a glob, a dotted glob and a query", "addGlob, addGGlob, TaggedItem.Parse"), ("search for a node to share", "LocateChildTreeItem, LocateChildGTreeItem, findOrAppend")],
 ["reports of Match, MatchByParts, MatchByTags, MatchByTagsMap"],
 ("position of the walk through the pattern as a loop invariant, links of the nodes as typestate, relational dataflow over SSA", "every path through a registration with helpers entered; places are (stage, number) of the part before the node; recursion on the rest of the terms by contract; trusted: parsing fills the fields, the same normalized text is the same part, comparison of items (C18)"))
prop("C18", "Items compare as equal only when all that decides what they match is equal",
 "Item.Equal returns true only for an item of the same kind whose deciding fields are all equal: the text, symbol or byte; the values of a list and whether it may match nothing; the symbols of a class, within and outside of ASCII; the items of a chain and the alternatives of a group, one by one, to the end and with the same number of them. Nodes of a GlobTree are shared by this comparison.",
 ["inputs"], "every pair of items",
 "two items which differ in the field left out share a node, and one of two patterns then matches what it should not; the tests hold no such pair",
 ["pkg/items/items.go", "pkg/items/string.go", "pkg/items/stringlist.go", "pkg/items/runesranges.go", "pkg/items/chain.go", "pkg/items/group.go", "pkg/items/rune.go", "pkg/items/byte.go", "pkg/items/any.go", "pkg/items/star.go", "pkg/utils/runesranges.go", "pkg/utils/utils.go"],
 [("comparison of all kinds of items", "implementations of Item.Equal"), ("comparison of lists", "ItemsEqual, utils.SliceEqual")],
 ["result of Equal, and what a tree matches whose nodes are shared by it"],
 ("per field equality obligations on every accepting path, pairwise loops by invariant, relational dataflow over SSA", "all implementations of Item.Equal found by type; a kind of item not listed has to compare every field"))
