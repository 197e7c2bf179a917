PF = "path-sensitive dataflow over SSA (value numbering of states, loops solved to a fixpoint)"
TREES = ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go", "gtags/items.go", "pkg/items/tree.go"]
prop("C07", "A rejected registration leaves the tree unchanged",
 "When adding a pattern to a GlobTree, GGlobTree or GTagsTree returns an error, no part of the tree (nodes, maps of patterns and indexes) has been written by that call. So later matches, reports and registrations behave as if the rejected call had not happened.",
 ["inputs", "histories"], "every rejected call of Add, AddGlob and AddTerms, in every state of the tree",
 "tests check the returned error and do not compare the tree before and after; a late check corrupts the tree only in rare orders of registration",
 TREES, [("checks precede the first write", "GlobTree.Add, GlobTree.AddGlob, GGlobTree.Add, GGlobTree.AddGlob, GTagsTree.Add, GTagsTree.AddTerms")],
 ["Add", "AddGlob", "AddTerms", "Match after a rejected Add"],
 ("typestate (written / rejected) by " + PF, "every return path of the six operations with all helpers entered; a path which may return an error must not have written memory of a type reachable from the tree; trusted: parsing does not touch the tree (checked by the write summary)"))
prop("C08", "A successful registration is fully recorded",
 "When adding a pattern succeeds, the call has recorded the pattern text and its normalized form with the given index and the index with the normalized form, has returned them, and has left a node linked into the tree which is terminated with exactly the normalized form and the index.",
 ["inputs", "histories"], "every successful call of Add, AddGlob and AddTerms, in every state of the tree",
 "tests register a few patterns into fresh trees; a path which skips one record shows only for particular earlier registrations or spellings",
 TREES, [("maps of patterns and indexes, terminated node", "GlobTree, GGlobTree, GTagsTree")],
 ["Globs", "GlobsIndex", "Queries", "QueryIndex", "Match after Add"],
 ("must-reach obligations at every success exit by " + PF, "every return path of the six operations; equality of recorded, stored and returned values is decided by value numbering; an empty pattern (a documented no-op) is exempt; new nodes must be linked when they become current"))
prop("C09", "Duplicate or invalid registrations are rejected",
 "Adding a pattern registers it only after a negative index, an index already in use, a pattern text already registered and a normalized form already registered have each been excluded; when one of them is found the call returns an error. So no entry of the maps of patterns and indexes is ever overwritten by another registration.",
 ["inputs", "histories"], "every call of Add, AddGlob and AddTerms, in every state of the tree",
 "a missing check shows only when two different spellings of one pattern, or one index twice, are added in the right order",
 TREES, [("lookups before registration", "GlobTree, GGlobTree, GTagsTree")],
 ["error of Add, AddGlob, AddTerms"],
 ("must-precede (guard) analysis by " + PF, "every path which writes the tree carries the negative outcome of the four tests on the same map, key and index"))
prop("C10", "The number returned by a match equals the number of reports",
 "Every match against a tree, and every internal step of it, returns exactly the number of calls of Store.Store it has made.",
 ["inputs"], "every tree, every input, every path through the matchers",
 "tests compare counters on a few inputs; an uncounted or doubly counted report needs the particular branch (optional list, group after star, absent tag) to be taken",
 ["pkg/items/tree.go", "gglob/gtree.go", "gtags/items.go", "gtags/tree.go"], [("matched counter next to each Store call", "TreeItem.match and its siblings, GTreeItem.MatchItems, TaggedItem.MatchByTags")],
 ["result of Match", "calls of Store.Store"],
 ("ghost counter equality by " + PF, "contract for recursion: result equals reports; loops keep the difference constant; all 25 report sites, every return path; calls between matchers must be counted exactly"))
prop("C11", "Reports carry the query and index of one terminated node",
 "Every call of Store.Store made by a match passes the Query and the Index of one and the same tree node, and is made only on paths where that node was found terminated. So a match never reports a pattern which was not registered, nor a pattern with the index of another.",
 ["inputs"], "every tree, every input, every report site",
 "inner nodes which are not terminated hold zero values; reporting them or mixing nodes shows only for trees of a particular shape",
 ["pkg/items/tree.go", "gglob/gtree.go", "gtags/items.go", "gtags/tree.go"], [("Terminate guard and Query, Index arguments of each Store call", "all matchers")],
 ["arguments of Store.Store"],
 ("guard analysis by " + PF, "at each report site the two arguments must be loads from one node (value numbering) and the state must imply Terminate of that node"))

prop("C12", "No stored pattern is skipped by a match or dropped by a later registration",
 "A match against a tree visits every child of every node it visits, except children whose own item, MinLen or term is known not to match; a visited node which is terminated is reported when the input is used up, and its children are visited then as well. A registration only adds nodes: it never removes, replaces or overwrites a node, a list of nodes or an entry of a map of nodes which the tree already holds.",
 ["inputs", "histories"], "every tree built by any history of registrations, every input",
 "tests use small trees in which the first child mostly decides; a scan which stops early, skips an index, or an insertion which drops a sibling shows only for several patterns with a common part, in a particular order",
 TREES, [("scans of Childs, ChildsMap, Items, Matched and NotMatched", "TreeItem.match and its siblings, GTreeItem.MatchItems, TaggedItem.MatchByTags"), ("appends to the containers of nodes", "addGlob, addGGlob, TaggedItem.findOrAppend, TaggedItem.Parse")],
 ["Match, MatchByParts, MatchByTags, MatchByTagsMap of a tree", "reports to the store"],
 ("event typestate and append-coverage by " + PF, "matchers: each list of children is scanned from the first index by one to exhaustion, each child is handled or a mismatch is known on the path, each visited node is reported and descended into; registrations: at each write of a container the new list is proved to hold every element of the old one, map entries are set only when absent"))
