From cec3540985a74a8ae02c8d766e50c045de3f48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 01/28] fix: dots must not be limited by the maximum length of
 a dotted glob

---
 gglob/gglob.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..4de4e0e 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -30,7 +30,8 @@ func (g *GGlob) Match(path string) (matched bool) {
 	if len(path) < g.MinLen {
 		return
 	}
-	if g.MaxLen > 0 && len(path) > g.MaxLen {
+	// dots are not counted in MaxLen
+	if g.MaxLen > 0 && len(path) > g.MaxLen+partsCount-1 {
 		return
 	}
 
@@ -61,7 +62,8 @@ func (g *GGlob) MatchByParts(parts []string, length int) (matched bool) {
 		if length < g.MinLen {
 			return
 		}
-		if g.MaxLen > 0 && length > g.MaxLen {
+		// dots are not counted in MaxLen
+		if g.MaxLen > 0 && length > g.MaxLen+len(parts)-1 {
 			return
 		}
 	}
-- 
2.43.0


From 1da69d69341ec8f625192d3882bbfc4e5d72236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 02/28] fix: chain with a star item must stay unlimited after
 append of the next items

---
 pkg/items/chain.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..76badf3 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,11 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
-		c.MaxSize = -1
-	} else {
-		c.MaxSize += l
-	}
+	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())
 	c.Items = AppendItem(c.Items, item)
 }
 
-- 
2.43.0


From 68989be3759b065b4d0dd8212de397655ded701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 03/28] fix: length of a located rune must be the length in the
 scanned string

---
 pkg/items/rune.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/rune.go b/pkg/items/rune.go
index fc8cea0..cd15120 100644
--- a/pkg/items/rune.go
+++ b/pkg/items/rune.go
@@ -53,7 +53,7 @@ func (item Rune) MaxLen() int {
 func (item Rune) Find(s string) (index, length int, support FindFlag) {
 	c := rune(item)
 	if index = strings.IndexRune(s, c); index != -1 {
-		length = utf8.RuneLen(c)
+		_, length = utf8.DecodeRuneInString(s[index:])
 	}
 	return
 }
-- 
2.43.0


From 471c122b5c00e943c57d3022a02e5f069463f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 04/28] fix: literal invalid byte or U+FFFD must be matched as
 a string

---
 pkg/items/stringlist.go | 2 +-
 pkg/items/wildcard.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..ec6cf64 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -228,7 +228,7 @@ func NewItemList(vals []string) (item Item, err error) {
 		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
-		if n == len(vals[0]) {
+		if n == len(vals[0]) && c != utf8.RuneError {
 			if c <= 127 {
 				return Byte(c), nil
 			}
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..7e59322 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -77,7 +77,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 		v, next := utils.SplitString(s, end)
 
 		c, n := utf8.DecodeRuneInString(v)
-		if n == len(v) {
+		if n == len(v) && c != utf8.RuneError {
 			if c <= 127 {
 				return Byte(c), next, nil
 			}
-- 
2.43.0


From ece207baaf2697eea45f9b524f9b16344fe54f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 05/28] fix: scan of a list after star must be continued from
 the minimal located offset

---
 pkg/items/items.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..dd6c9ec 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -385,7 +385,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
-- 
2.43.0


From 901fb1026511d892c965990e7e2c620b4765ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 06/28] fix: wildcards after star in a group must be matched
 instead of panic

---
 pkg/items/items.go | 25 ++++++++++---------------
 pkg/items/tree.go  | 23 +++++++++++++++--------
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index dd6c9ec..a2bcd16 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -458,22 +458,17 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
-			if len(items) == 1 {
-				if nextItems == nil || nextItems.IsEmpty() {
-					matched = true
-					return
-				} else {
-					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
-				}
+		case FindForwarded, FindStar:
+			// symbols, required by the item, are skipped, next items can be located anywhere after them
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			if len(items) == 1 && (nextItems == nil || nextItems.IsEmpty()) {
+				matched = true
+				return
 			}
-			items = items[1:]
-			// continue
+			return matchStarItems(s[length:], items[1:], nextItems)
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..9ab6185 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -305,13 +305,16 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
+		case FindForwarded, FindStar:
+			// symbols, required by the item, are skipped, next items can be located anywhere after them
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
+			if item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-				return
 			}
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
@@ -580,9 +583,13 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
+		case FindForwarded, FindStar:
+			// symbols, required by the item, are skipped, next items can be located anywhere after them
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From f0e78b6b32cf7af3985679889500bfeffc6fed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 07/28] fix: terminated tree node must be reported even if it
 has childs

---
 pkg/items/tree.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 9ab6185..dbbeca6 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,17 +155,13 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
+		if item.Terminate {
+			store.Store(item.Query, item.Index)
+			matched++
+		}
+		for i := 0; i < len(item.Childs); i++ {
+			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
+				matched += n
 			}
 		}
 	default:
@@ -204,14 +200,13 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindDone:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
+			if s == "" && item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-			} else {
-				for i := 0; i < len(item.Childs); i++ {
-					if n, _ := item.Childs[i].match(s, store); n > 0 {
-						matched += n
-					}
+			}
+			for i := 0; i < len(item.Childs); i++ {
+				if n, _ := item.Childs[i].match(s, store); n > 0 {
+					matched += n
 				}
 			}
 		case FindList:
-- 
2.43.0


From ef149494d86beef00d0f0bcb181720b40d53ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 08/28] fix: endless loop on star inside of a group in the tree

---
 pkg/items/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index dbbeca6..88fb584 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -446,6 +446,7 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From 066d2f8bf29e0b7cdc448caa385e595b3ca2d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 09/28] fix: panic on add of a term with an empty key

---
 gtags/items.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gtags/items.go b/gtags/items.go
index 4bb5e3c..79e2a64 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -30,9 +30,6 @@ func hasName(items []TaggedItems) bool {
 
 // findOrAppend search []*TaggedItem child by key (or append them, if not exist)
 func (t *TaggedItem) findOrAppend(key string) int {
-	if key == "" {
-		return 1
-	}
 	if len(t.Items) == 0 {
 		t.Items = make([]TaggedItems, 1, len(t.Items)+4)
 		t.Items[0].Key = key
-- 
2.43.0


From 0d2936239e7737e45e5463426e4c30c0db14a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 10/28] fix: __name__ must stay the first key of a tags tree
 node

---
 gtags/items.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtags/items.go b/gtags/items.go
index 79e2a64..53af3b5 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -50,6 +50,11 @@ func (t *TaggedItem) findOrAppend(key string) int {
 	if named {
 		low = 1
 	}
+	if low == len(t.Items) {
+		// only __name__, it must stay first
+		t.Items = append(t.Items, TaggedItems{Key: key})
+		return low
+	}
 	// check __name__ order
 	high := len(t.Items) - 1
 	for low <= high {
-- 
2.43.0


From a062a9effacd3d44a2aa89f053e92a407f4a5651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 11/28] fix: terms, added to a tags tree, must be terminated
 and recorded with the query

---
 gtags/tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..11f688a 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -95,8 +95,9 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrGlobExist
 		return
 	}
-	if normalized, ok = gtree.QueryIndex[index]; ok {
+	if query, ok := gtree.QueryIndex[index]; ok {
 		err = glob.ErrIndexDup
+		normalized = query
 		return
 	}
 
@@ -105,7 +106,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From 4e4d19364e2e737e9d7a25b7a2cc6d25ce50e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 12/28] fix: parsed glob must be recorded in a tree with the
 normalized form

---
 gglob/gtree.go | 3 ++-
 glob/tree.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..2246177 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -222,8 +222,9 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if node, ok := gtree.GlobsIndex[index]; ok {
 		err = glob.ErrIndexDup
+		normalized = node
 		return
 	}
 
diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..024573c 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -144,8 +144,9 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if node, ok := gtree.GlobsIndex[index]; ok {
 		err = ErrIndexDup
+		normalized = node
 		return
 	}
 
-- 
2.43.0


From 9709af38e0295fc34bb7bbf7cb14f50fd04f61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 13/28] fix: parsed dotted glob must be recorded in a tree with
 the raw form

---
 gglob/gtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 2246177..b419de3 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -230,8 +230,8 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 
 	addGGlob(gtree.Root, g, index)
 
-	gtree.Globs[g.Node] = index
-	if normalized != g.Node {
+	gtree.Globs[g.Glob] = index
+	if normalized != g.Glob {
 		gtree.Globs[normalized] = index
 	}
 	gtree.GlobsIndex[index] = normalized
-- 
2.43.0


From c890fe84fe83c6abd8cb59ca5d43bd8a2f013574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 14/28] fix: absent tag of a negative term must not hide the
 next tags

---
 gtags/tagged_term.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..b6af2ef 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -151,18 +151,20 @@ LOOP:
 		}
 		if term.Key != tags[i].Key {
 			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
+			pos := i
+			for ; pos < len(tags); pos++ {
+				if tags[pos].Key == term.Key {
 					break
 				}
 			}
-			if len(tags) == i {
+			if len(tags) == pos {
 				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 					// != and ~=! can be skiped and key can not exist
 					continue LOOP
 				}
 				return false
 			}
+			i = pos
 		}
 		if !term.Match(tags[i].Value) {
 			return false
-- 
2.43.0


From 2d31fd82e7ae3f4654fe6f81e716e9a071330c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 15/28] fix: query without terms must be counted and matched
 with a tags map too

---
 gtags/tree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index 11f688a..117fd3e 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -121,12 +121,19 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	matched += gtree.Root.MatchByTagsMap(tags, store)
+	return
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	matched += gtree.Root.MatchByTags(tags, store)
+	return
 }
-- 
2.43.0


From 799bed1806ee3bd023a8eb1034c4d809066fbef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 16/28] fix: panic on expand of an empty list or range

---
 expand/expand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..0e232a9 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -241,7 +241,7 @@ func ParseExpr(in string) (e *Expressions) {
 	}
 
 	last := len(e.exps) - 1
-	if e.exps[last].typ == expWildcard {
+	if last >= 0 && e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
 		pos := asciiSet.LastIndex(s) + 1
 		if pos < len(s) {
-- 
2.43.0


From e7ce57ad8b2546cca1b7cdb88ef27a3ffbf5b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 17/28] fix: expressions must be reusable after expand with try

---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 0e232a9..2958b58 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -158,6 +158,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From 4bea2a708ddfa723698cd106518eab5f75c598ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 18/28] fix: preallocation of the expanded results must be
 limited

---
 expand/expand.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 2958b58..57bafdc 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -14,6 +14,9 @@ var (
 	asciiSet = utils.MakeASCIISetMust("[]{}*?")
 )
 
+// maxPrealloc limit a preallocation of the expanded results (product of the counts can be huge)
+const maxPrealloc = 1024
+
 // Expand takes the string contains the shell expansion expression and returns list of strings after they are expanded (from begin).
 //
 // Argument max for restict max expanded results, > 0 - restuct  max expamnded results, 0 - disables expand, -1 - unlimited, etc.
@@ -88,6 +91,10 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 	count := 1
 	for i := 0; i < len(e.exps); i++ {
 		count *= e.exps[i].count()
+		if count > maxPrealloc {
+			count = maxPrealloc
+			break
+		}
 		if e.exps[i].typ == expWildcard {
 			break
 		}
-- 
2.43.0


From 3c62f18ea4e16d804783a22d14fa2459cf8a3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 19/28] fix: last symbol after an escaped one must not be lost

---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From 4a0350c1cd951c79e0beea5bf6aca115ccbc16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 20/28] fix: endless loop on scan of bytes for a unicode range

---
 pkg/utils/runesranges.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..fa30240 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -270,6 +270,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
 			if c == utf8.RuneError {
-- 
2.43.0


From e020254ba90e2afd514a432fbae48acb12e67b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 21/28] fix: offset of a symbol matched at the end of a string

---
 pkg/items/byte.go        | 4 ++--
 pkg/utils/runesranges.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..2abb725 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -72,8 +72,8 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
-	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	offset = len(s) - 1
+	if offset == -1 || s[offset] != byte(item) {
 		offset = -1
 	}
 	return
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index fa30240..f68c6b0 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -357,7 +357,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - 1
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From 9ab8e89b27a7d7594d00f24155c7e2382cb848ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 22/28] fix: minimal index of a new AllStore must be unset

---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 5c5a225531b717c1ce991302f10a6b155271ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 23/28] fix: glob without wildcards is matched by a GlobTree

---
 glob/tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glob/tree.go b/glob/tree.go
index 024573c..8b98d13 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -28,8 +28,12 @@ func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 		treeItem = newItem
 	}
 
-	if gg.Prefix != "" {
-		node := items.NewString(gg.Prefix)
+	prefix := gg.Prefix
+	if len(gg.Items) == 0 {
+		prefix = gg.Node // string without wildcards
+	}
+	if prefix != "" || len(gg.Items) == 0 {
+		node := items.NewString(prefix)
 		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
 		if newItem == nil {
 			if treeItem.Childs == nil {
-- 
2.43.0


From 695102c30f495eff6ddb95819d9d9bb133843b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:43 +0000
Subject: [PATCH 24/28] fix: a list of one value with wildcards is no literal
 text

{a*} was parsed as the literal text a*: NewItemList took a list of one value
as text without looking for wildcards in it (a list of two, {a*,b}, has them).
---
 pkg/items/stringlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index ec6cf64..5fe1c4d 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -222,7 +222,7 @@ func NewItemList(vals []string) (item Item, err error) {
 	if len(vals) == 0 {
 		return
 	}
-	if len(vals) == 1 {
+	if len(vals) == 1 && !HasWildcard(vals[0]) {
 		if vals[0] == "" {
 			return nil, nil
 		}
-- 
2.43.0


From 8a70fb870cdeaf9872e3b4e8ca2e059f91523395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:55 +0000
Subject: [PATCH 25/28] fix: a class which cannot be expanded keeps its
 brackets

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From 358a317bf2b127df6004f606aeea05859527ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 26/28] fix: the character 0 of a class is expanded

---
 expand/runes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expand/runes.go b/expand/runes.go
index e6edd8f..4e60ec4 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -35,7 +35,7 @@ func runesRangeMerge(rs []runes) []runes {
 					}
 					// skip to next, merged
 					i++
-					rs[i].stop = 0
+					rs[i].stop = -1
 				} else {
 					break
 				}
@@ -44,9 +44,9 @@ func runesRangeMerge(rs []runes) []runes {
 
 		if pos != j {
 			rs[j] = rs[pos]
-			rs[pos].stop = 0
+			rs[pos].stop = -1
 		}
-		if rs[j].stop != 0 {
+		if rs[j].stop != -1 {
 			j++
 		}
 	}
-- 
2.43.0


From 7ecc7cc7376d5b3ed71840937dfb6bd16c6f7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:16 +0000
Subject: [PATCH 27/28] fix: a class with the symbol U+FFFD is expanded whole
 or kept as written

---
 expand/expression.go |  2 +-
 expand/runes.go      | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/expand/expression.go b/expand/expression.go
index 6203db9..4695e48 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -103,7 +103,7 @@ func (e *Expression) appendNext(out []byte) ([]byte, error) {
 		}
 	case expRunes:
 		for {
-			if c := e.runes[e.pos].next(); c == utf8.RuneError {
+			if c, ok := e.runes[e.pos].next(); !ok {
 				if e.pos < len(e.runes)-1 {
 					e.pos++
 				} else {
diff --git a/expand/runes.go b/expand/runes.go
index 4e60ec4..717afd1 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -69,6 +69,10 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 		start := utf8.RuneError
 		isRange := false
 		for i, c := range s {
+			if c == utf8.RuneError {
+				// no valid symbol, or no other one than start without symbol
+				return rs, false
+			}
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
@@ -123,16 +127,17 @@ func (r *runes) reset() {
 	r.pos = r.start
 }
 
-func (r *runes) next() rune {
+// next return false at the end
+func (r *runes) next() (rune, bool) {
 	if r.pos == -1 {
-		return utf8.RuneError
+		return utf8.RuneError, false
 	}
 	c := r.pos
 	if c > r.stop {
 		r.pos = -1
-		return utf8.RuneError
+		return utf8.RuneError, false
 	}
 	r.pos++
 
-	return c
+	return c, true
 }
-- 
2.43.0


From d414cffdec1f8245272345c310aeff7eea96f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:39 +0000
Subject: [PATCH 28/28] fix: symbols behind a % which is no escape are
 unescaped

---
 pkg/escape/unescape.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/escape/unescape.go b/pkg/escape/unescape.go
index 632169c..6b5b726 100644
--- a/pkg/escape/unescape.go
+++ b/pkg/escape/unescape.go
@@ -40,19 +40,15 @@ func unescape(s string, first int, sb *strings.Builder) string {
 	sb.Grow(pos + len(s))
 	sb.WriteString(s[:first])
 
-LOOP:
 	for i := first; i < len(s); i++ {
 		switch s[i] {
 		case '%':
-			if len(s) < i+3 {
-				sb.WriteString(s[i:])
-				break LOOP
-			}
 			if !isPercentEscape(s, i) {
-				sb.WriteString(s[i : i+3])
-			} else {
-				sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
+				// no escape, only % is kept as is, the next symbols can be escaped
+				sb.WriteByte('%')
+				continue
 			}
+			sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
 			i += 2
 		case '+':
 			sb.WriteByte(' ')
-- 
2.43.0

