prop("C26", "An expansion writes every alternative once, in order, within its limits",
 "Expanding a list of pieces writes one result for each way to choose an alternative of each piece, in order: an alternative is followed by all pieces behind it, for every value of a list and every character of each range of a class, none left out and none twice, behind exactly the text built so far, and each result is kept. A piece is put as written, and nothing behind it is expanded, exactly when the number of results with it would be above max (when max is positive), or when as many points as depth are before it, or when max is 0. With try only the first alternative of each piece is written. When an expansion ends the pieces are at their start again, so that the next one gives the same results.",
 ["inputs", "histories"], "every list of pieces: any number of lists, classes, ranges in a class and texts, any max and depth, and every sequence of expansions of the same pieces",
 "the tests expand some dozens of short texts once; an alternative is lost only at certain places (the last range, a long list), the limits only at certain products, and the state left behind only shows in a second expansion",
 ["expand/expand.go", "expand/expression.go", "expand/runes.go"],
 [("product of the pieces", "expand"), ("alternatives of a piece", "Expression.appendNext, reset, count"), ("characters of a range", "runes.next, reset, count"), ("entry", "Expand, ExpandTry, Expressions.Expand")],
 ["results of Expand, ExpandTry and Expressions.Expand"],
 ("typestate of a piece (start, alternatives in order, end, start) and inductive invariants over the loops and the recursion, relational dataflow over SSA", "every return path of the functions with helpers entered; the recursion is judged by the contract of the operation; trusted: the pieces which ParseExpr takes from the text, the ranges of a class are those of its text (runesRangeExpand, runesRangeMerge), a range does not span the surrogates"))

prop("C27", "The pieces of an expression cover its text, with all values of each",
 "An expression to expand is taken apart without loss: its pieces cover the text without gap or overlap and in order. The first special character of what is left (one of * ? { } [ ]) decides: behind an opening bracket the next special character has to be its closing bracket, otherwise the whole rest is put as written. A list of several values holds every text between its commas, a class holds the ranges of exactly the text between its brackets, an expression with one value is put as that value without brackets, and a class which cannot be expanded is put as written with its brackets.",
 ["inputs"], "every text of an expression: any number and order of brackets, values, wildcards, any bytes",
 "the tests take some dozens of texts apart; a piece is lost only at certain places (behind the last bracket, after so many pieces, between brackets of different kinds)",
 ["expand/expand.go", "expand/expression.go"],
 [("pieces of a text", "ParseExpr"), ("first pair of brackets", "getPair"), ("values of an expression", "getExpression")],
 ["results of Expand, ExpandTry and Expressions.Expand"],
 ("inductive invariants over the loops (pieces taken in a step are the text up to what is left), relational dataflow over SSA with event histories", "every return path and back edge of the three functions with helpers entered; how the text of a class becomes ranges (runesRangeExpand, runesRangeMerge) is trusted"))
