STEP = ["pkg/items/items.go", "pkg/items/tree.go"]
prop("C13", "A match goes on exactly behind what its item matched, with all that follows",
 "In the backtracking matchers of package items (MatchItems, TreeItem.Match and their steps), when an item has said where its match ends, the match goes on with exactly the text behind that end and with exactly the items, or the children of the node, which follow the item: none is skipped, repeated or lost, also behind the alternatives of a group. A step searches further on in the text only behind a star. A text is accepted, or a node reported, only when the items are used up and no text is left, or the last item is a star or lets any text follow.",
 ["inputs"], "every list of items, every tree of items, every text, every step of the matchers",
 "the tests list some hundred pairs of pattern and text; a step which drops or repeats a byte or an item shows only for one kind of item in one position (list in a group behind a star, suffix nodes, optional values)",
 STEP, [("steps of the matchers: text and items handed to the next step", "matchItems, matchStarItems, TreeItem.Match, match, matchStar, matchItemsInTree, matchStarItemsInTree, nextItemsTree")],
 ["result of MatchItems", "reports of TreeItem.Match"],
 ("relational dataflow over SSA (symbolic value numbering of text and item positions per step)", "every call of a matcher by a matcher, every report, every accepting return and every loop back edge is an obligation: the text must be proved to be the slice behind the offset returned by Match, MatchN, Find or FindN of the item (known to be found), the items those behind it; trusted: the offsets which items return; not covered: the branches for lists and groups inside of a group of a tree, which no pattern reaches"))
prop("C14", "Every alternative and every place in the text is tried before a match fails",
 "In the backtracking matchers of package items (MatchItems, TreeItem.Match and their steps), a step fails only after the rest of the pattern was tried in every way its item allows: without the item when it may match nothing, with every value of a list or group that matches, and behind a star at every later place where the item is found. The scans move on by one symbol from the first place found, are stopped early only when a search came to the end of the text, and a match of the rest is never lost.",
 ["inputs"], "every list of items, every tree of items, every text, every step of the matchers",
 "an alternative or place which is skipped shows only for texts in which exactly that one matches and all others fail",
 STEP, [("loops over values, scans behind a star, optional items", "matchItems, matchStarItems, TreeItem.match, matchStar")],
 ["result of MatchItems", "reports of TreeItem.Match"],
 ("must-try obligations by relational dataflow over SSA", "for each kind of item (flag) every failing return path and back edge must carry the attempts which the kind requires; loops over values are proved to run from 0 by 1 to the length; scan positions are compared symbolically; one known finding (tree scan behind a star, see known-findings.txt); not covered: the branches for lists and groups inside of a group of a tree, which no pattern reaches"))
