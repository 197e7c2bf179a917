prop("C28", "Unescaping replaces each escaped symbol, and only those",
 "Unescape, UnescapeTo and UnescapeNameTo give the text with every % followed by two hexadecimal digits (of either case) replaced by the byte they stand for and every + replaced by a space, from left to right; every other byte, also a % which two hexadecimal digits do not follow, is kept as it is. UnescapeNameTo gives besides the same text behind __name__=. What the builder passed already holds is no part of the result.",
 ["inputs"], "every text: any bytes, any number and order of escaped symbols, also incomplete ones at any place and at the end; any content of the builder",
 "the tests unescape a dozen texts; a byte is lost or taken twice only for certain neighbours (a % at the end or behind another %, digits of upper case, certain values)",
 ["pkg/escape/unescape.go"],
 [("text", "Unescape"), ("text into a builder", "UnescapeTo"), ("name with its tag", "UnescapeNameTo")],
 ["results of Unescape, UnescapeTo and UnescapeNameTo"],
 ("inductive loop invariant (a step takes 1 or 3 bytes and writes the one symbol they stand for, by a decision table), relational dataflow over SSA with event histories", "every return path and back edge of the three functions with helpers entered; trusted: strings.Builder, and that ASCIISet.Index finds the first symbol of its set"))

prop("C29", "Escaping keeps unreserved symbols and writes every other as its bytes",
 "Path, PathTo, Query and QueryTo give the text byte by byte, in order: letters, digits and - _ . ~ are kept, and in a path also $ & + , / : ; = @; a space of a query is written as +; every other byte is written as % and its two hexadecimal digits of upper case. No byte is left out, added or written twice. PathTo and QueryTo only add just this to the buffer. So what Query gives is the text again when it is unescaped.",
 ["inputs"], "every text: any bytes, any number and order of symbols to escape and to keep, any length, any content of the buffer",
 "the tests escape half a dozen short texts with Query only; a byte is lost or kept only at certain places (the last one, a single one between two escaped) or for certain values",
 ["pkg/escape/url.go", "pkg/escape/escape.go"],
 [("text", "Path, Query"), ("text into a buffer", "PathTo, QueryTo"), ("symbols to escape", "shouldEscape")],
 ["results of Path and Query, the buffers of PathTo and QueryTo"],
 ("inductive loop invariants (escaped up to a place, kept behind it; places of an array; counters of bytes), sets of possible byte values per path, relational dataflow over SSA", "every return path and back edge of the four functions with helpers entered; the oracle is the table of kept symbols of RFC 3986 as in the statement; trusted: bytes.Buffer, strings.Builder"))

prop("C30", "A set of ASCII symbols holds exactly what was put into it",
 "Contains is true of a symbol exactly when it was put into the set, by Add or as part of the text the set was made of: each ASCII symbol has a place of its own in the set, putting one in changes nothing for others and may be repeated. Other bytes are refused and never in a set. Index and IndexByte give the first place of a text where a symbol of the set is, LastIndex and LastIndexByte the last one, and -1 when there is none.",
 ["inputs", "histories"], "every set, every sequence of symbols added, every text and every byte",
 "the tests try sets of three letters; a symbol at the edge (0, 0x7f, 0x80), one added twice or a place after other bytes is not among them",
 ["pkg/utils/asciiset.go"],
 [("symbol in a set", "ASCIISet.Contains"), ("symbols put into a set", "ASCIISet.Add, MakeASCIISet"), ("places of symbols", "ASCIISet.Index, IndexByte, LastIndex, LastIndexByte")],
 ["results of the operations of a set; matching of classes and lists, escaping and expansion are built on it"],
 ("bit of each symbol from the terms of all paths (256 values evaluated on the terms), inductive loop invariants, relational dataflow over SSA", "every return path and back edge of the seven functions with helpers entered; WriteString, Count and Clear are not judged"))
