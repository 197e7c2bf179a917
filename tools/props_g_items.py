prop("C22", "A single item matches exactly what it stands for and consumes just that",
 "Match, MatchLast and Find of a literal, one byte, one character, ?, * with a number of ?, a class and a variant of a list accept a text only when it begins with, ends with or contains what the item stands for (the same bytes, the number of characters, a character of the class), refuse it only when it does not, and report the place and the number of bytes of just that: of the first place for Find. The set of bytes of a class holds exactly the bytes added to it and finds the first or the last of them; a search in the ranges of a class finds the range of a character whenever there is one.",
 ["inputs"], "every text and every item",
 "a character is one to four bytes, or an invalid byte, and a class any number of ranges; the tests hold short texts and classes of a few ranges",
 ["pkg/items/any.go", "pkg/items/byte.go", "pkg/items/rune.go", "pkg/items/star.go", "pkg/items/string.go", "pkg/items/runesranges.go", "pkg/items/stringlist.go", "pkg/utils/asciiset.go", "pkg/utils/runesranges.go", "pkg/utils/string.go"],
 [("matching of one item", "Match, MatchLast, Find of the items; StringList.MatchN, FindN"), ("class", "RunesRanges.Index, StartsWith, EndsWith, Contains, ContainsUnicode; ASCIISet"), ("characters of a text", "StringSkipRunes, StringSkipRunesLast")],
 ["results of Match, MatchLast, Find, Index, Contains of the items and classes"],
 ("decision tables of return paths with facts over the text, loop invariants of searches and counts, exact evaluation of bit expressions, relational dataflow over SSA", "every path of the listed operations with helpers entered; trusted: meaning of strings.Index, HasPrefix, HasSuffix, IndexByte, IndexRune and of the decoding functions of utf8; ranges of a class are taken as sorted and apart, and the search of a character in a class may end at an invalid byte"))
prop("C23", "A store keeps every report made to it",
 "A MinStore holds the least index reported to it since it was made or initialised, or -1; an IndexStore and a StringStore hold the indexes and the texts of all reports since then, in order; an AllStore holds all three. Growing a store changes nothing of what it holds, and initialising it removes all of it.",
 ["histories"], "every sequence of Store, Init and Grow",
 "what a store holds depends on all calls since the last Init, also with index 0, with reports repeated, and with Grow between reports; the tests hold a few sequences",
 ["pkg/items/store.go"], [("report", "Store of MinStore, IndexStore, StringStore, AllStore"), ("reset", "Init, New..."), ("room", "Grow")],
 ["Min, Index, S of a store"],
 ("effect of each operation on each field as an inductive invariant, relational dataflow over SSA", "every path of every operation of every implementation of Store; assumes indexes which are not negative (C09) and stores made by New... or initialised"))
