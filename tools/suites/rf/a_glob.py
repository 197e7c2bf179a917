T="glob/tree.go"; GL="glob/glob.go"; GT="gglob/gtree.go"; GG="gglob/gglob.go"; U="gglob/utils.go"; TT="gtags/tree.go"; TI="gtags/items.go"; TM="gtags/tagged_term.go"
# glob/tree.go
r("addGlob helper child",(T,"""		node := items.NewString(gg.Suffix)
		newItem := items.LocateChildTreeItem(treeItem.Childs, node, true)
		if newItem == nil {
			if treeItem.Childs == nil {
				treeItem.Childs = make([]*items.TreeItem, 0, 2)
			}
			newItem = &items.TreeItem{Item: node, Reverse: true}
			treeItem.Childs = append(treeItem.Childs, newItem)
		}
		treeItem = newItem
""","""		treeItem = childFor(treeItem, items.NewString(gg.Suffix), true)
"""),(T,"""		node := items.NewString(prefix)
		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
		if newItem == nil {
			if treeItem.Childs == nil {
				treeItem.Childs = make([]*items.TreeItem, 0, 2)
			}
			newItem = &items.TreeItem{Item: node}
			treeItem.Childs = append(treeItem.Childs, newItem)
		}
		treeItem = newItem
""","""		treeItem = childFor(treeItem, items.NewString(prefix), false)
"""),(T,"""		newItem := items.LocateChildTreeItem(treeItem.Childs, gg.Items[i], false)
		if newItem == nil {
			if treeItem.Childs == nil {
				treeItem.Childs = make([]*items.TreeItem, 0, 2)
			}
			newItem = &items.TreeItem{Item: gg.Items[i]}
			treeItem.Childs = append(treeItem.Childs, newItem)
		}
		treeItem = newItem
""","""		treeItem = childFor(treeItem, gg.Items[i], false)
"""),(T,"""// GlobTree is batch glob matcher""","""// childFor returns the child with the item, a new one when there is none
func childFor(parent *items.TreeItem, item items.Item, reverse bool) *items.TreeItem {
	if child := items.LocateChildTreeItem(parent.Childs, item, reverse); child != nil {
		return child
	}
	if parent.Childs == nil {
		parent.Childs = make([]*items.TreeItem, 0, 2)
	}
	child := &items.TreeItem{Item: item, Reverse: reverse}
	parent.Childs = append(parent.Childs, child)
	return child
}

// GlobTree is batch glob matcher"""))
r("addGlob range items",(T,"for i := 0; i < len(gg.Items); i++ {","for _, part := range gg.Items {"),(T,"gg.Items[i]","part","all"))
r("addGlob no prealloc",(T,"""			if treeItem.Childs == nil {
				treeItem.Childs = make([]*items.TreeItem, 0, 2)
			}
""","","all"))
r("addGlob terminate helper",(T,"""	treeItem.Terminate = true
	treeItem.Query = gg.Node
	treeItem.Index = index

	return treeItem
}
""","""	terminate(treeItem, gg.Node, index)

	return treeItem
}

func terminate(treeItem *items.TreeItem, query string, index int) {
	treeItem.Terminate = true
	treeItem.Query = query
	treeItem.Index = index
}
"""))
r("addGlob terminated struct",(T,"""	treeItem.Terminate = true
	treeItem.Query = gg.Node
	treeItem.Index = index
""","""	treeItem.Terminated = items.Terminated{Terminate: true, Query: gg.Node, Index: index}
"""))
r("Add record helper",(T,"""	gtree.Globs[g.Glob] = index
	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
	gtree.GlobsIndex[index] = normalized
""","""	gtree.record(g, index)
""","all"),(T,"""func (gtree *GlobTree) Match(""","""func (gtree *GlobTree) record(g *Glob, index int) {
	gtree.Globs[g.Glob] = index
	if g.Node != g.Glob {
		gtree.Globs[g.Node] = index
	}
	gtree.GlobsIndex[index] = g.Node
}

func (gtree *GlobTree) Match("""))
r("Add record unconditional",(T,"""	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
""","""	gtree.Globs[normalized] = index
""","all"))
r("Add record before node",(T,"""	addGlob(gtree.Root, g, index)

	gtree.Globs[g.Glob] = index
	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
	gtree.GlobsIndex[index] = normalized
""","""	gtree.Globs[g.Glob] = index
	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
	gtree.GlobsIndex[index] = normalized
	addGlob(gtree.Root, g, index)
""","all"))
r("Add explicit returns",(T,"""	n = index

	return
}""","""	return normalized, index, nil
}""","all"))
r("Add delegates to AddGlob",(T,"""	if n, ok = gtree.Globs[g.Node]; ok {
		// aleady added
		err = ErrGlobExist
		normalized = g.Node
		return
	}

	normalized = g.Node

	addGlob(gtree.Root, g, index)

	gtree.Globs[g.Glob] = index
	if normalized != g.Glob {
		gtree.Globs[normalized] = index
	}
	gtree.GlobsIndex[index] = normalized

	n = index

	return
}
""","""	return gtree.AddGlob(g, index)
}
"""))
r("Add checks helper",(T,"""	var ok bool
	if n, ok = gtree.Globs[glob]; ok {
		// aleady added
		err = ErrGlobExist
		normalized = glob
		return
	}
	if normalized, ok = gtree.GlobsIndex[index]; ok {
		err = ErrIndexDup
		return
	}
""","""	if n, err = gtree.checkGlob(glob); err != nil {
		normalized = glob
		return
	}
	var ok bool
	if normalized, ok = gtree.GlobsIndex[index]; ok {
		err = ErrIndexDup
		return
	}
"""),(T,"""	if n, ok = gtree.Globs[g.Node]; ok {
		// aleady added
		err = ErrGlobExist
		normalized = g.Node
		return
	}

	normalized = g.Node
""","""	normalized = g.Node
	if n, err = gtree.checkGlob(g.Node); err != nil {
		return
	}
"""),(T,"""func (gtree *GlobTree) Match(""","""func (gtree *GlobTree) checkGlob(glob string) (n int, err error) {
	n, ok := gtree.Globs[glob]
	if ok {
		err = ErrGlobExist
	}
	return
}

func (gtree *GlobTree) Match("""))
r("Add checks reordered",(T,"""	var ok bool
	if n, ok = gtree.Globs[glob]; ok {
		// aleady added
		err = ErrGlobExist
		normalized = glob
		return
	}
	if normalized, ok = gtree.GlobsIndex[index]; ok {
		err = ErrIndexDup
		return
	}

	var g *Glob
	if g, err = Parse(glob); err != nil {
		return
	}
""","""	var g *Glob
	if n, exist := gtree.Globs[glob]; exist {
		// aleady added
		return glob, n, ErrGlobExist
	}
	node, ok := gtree.GlobsIndex[index]
	if ok {
		return node, 0, ErrIndexDup
	}

	g, err = Parse(glob)
	if err != nil {
		return
	}
"""))
# gglob
r("addGGlob loop over parts",(GT,"""	for i := 0; i < len(gg.Parts); i++ {
		if len(gg.Parts[i].Items) == 0 {""","""	for _, part := range gg.Parts {
		if len(part.Items) == 0 {"""),(GT,"treeItem.ChildsMap[gg.Parts[i].Node]","treeItem.ChildsMap[part.Node]","all"),(GT,"Item: gg.Parts[i]}","Item: part}","all"),(GT,"LocateChildGTreeItem(treeItem.Childs, gg.Parts[i].Node)","LocateChildGTreeItem(treeItem.Childs, part.Node)"))
r("addGGlob root ok",(GT,"""	treeItem, _ := treeMap[len(gg.Parts)]
	if treeItem == nil {
		treeItem = &GTreeItem{}
		treeMap[len(gg.Parts)] = treeItem
	}
""","""	count := len(gg.Parts)
	treeItem, ok := treeMap[count]
	if !ok {
		treeItem = new(GTreeItem)
		treeMap[count] = treeItem
	}
"""))
r("addGGlob node methods",(GT,"""			// string
			if treeItem.ChildsMap == nil {
				treeItem.ChildsMap = make(map[string]*GTreeItem)
			}
			newItem, ok := treeItem.ChildsMap[gg.Parts[i].Node]
			if !ok {
				newItem = &GTreeItem{Item: gg.Parts[i]}
				treeItem.ChildsMap[gg.Parts[i].Node] = newItem
			}
			treeItem = newItem
""","""			treeItem = treeItem.stringChild(gg.Parts[i])
"""),(GT,"""func addGGlob(""","""func (item *GTreeItem) stringChild(part *glob.Glob) *GTreeItem {
	if child, ok := item.ChildsMap[part.Node]; ok {
		return child
	}
	if item.ChildsMap == nil {
		item.ChildsMap = make(map[string]*GTreeItem)
	}
	child := &GTreeItem{Item: part}
	item.ChildsMap[part.Node] = child
	return child
}

func addGGlob("""))
r("gtree MatchItems report helper",(GT,"""			if path == "" {
				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
			} else {
				if n := child.MatchItems(path, store); n > 0 {
					matched += n
				}
			}
""","""			matched += child.matchRest(path, store)
"""),(GT,"""			if path == "" {
				if item.Childs[i].Terminate {
					store.Store(item.Childs[i].Query, item.Childs[i].Index)
					matched++
				}
			} else {
				if n := item.Childs[i].MatchItems(path, store); n > 0 {
					matched += n
				}
			}
""","""			matched += item.Childs[i].matchRest(path, store)
"""),(GT,"""func LocateChildGTreeItem(""","""func (item *GTreeItem) matchRest(path string, store items.Store) (matched int) {
	if path != "" {
		return item.MatchItems(path, store)
	}
	if item.Terminate {
		store.Store(item.Query, item.Index)
		matched++
	}
	return
}

func LocateChildGTreeItem("""))
r("gtree MatchItems range childs",(GT,"""	for i := 0; i < len(item.Childs); i++ {
		if item.Childs[i].Item.Match(part) {
			if path == "" {
				if item.Childs[i].Terminate {
					store.Store(item.Childs[i].Query, item.Childs[i].Index)
					matched++
				}
			} else {
				if n := item.Childs[i].MatchItems(path, store); n > 0 {
					matched += n
				}
			}
		}
	}
""","""	for _, child := range item.Childs {
		if !child.Item.Match(part) {
			continue
		}
		if path != "" {
			matched += child.MatchItems(path, store)
			continue
		}
		if child.Terminate {
			store.Store(child.Query, child.Index)
			matched++
		}
	}
"""))
r("gtree MatchItems map after list",(GT,"""	if len(item.ChildsMap) > 0 {
		if child, ok := item.ChildsMap[part]; ok {
			if path == "" {
				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
			} else {
				if n := child.MatchItems(path, store); n > 0 {
					matched += n
				}
			}
		}
	}
""","""	if child, ok := item.ChildsMap[part]; ok {
		if path != "" {
			matched = child.MatchItems(path, store)
		} else if child.Terminate {
			store.Store(child.Query, child.Index)
			matched = 1
		}
	}
"""))
r("gtree MatchItems cut by index",(GT,"""	part, path, _ = strings.Cut(path, ".")
""","""	if n := strings.IndexByte(path, '.'); n == -1 {
		part, path = path, ""
	} else {
		part, path = path[:n], path[n+1:]
	}
"""))
r("gtree byparts locals",(GT,"""	if len(item.ChildsMap) > 0 {
		if child, ok := item.ChildsMap[parts[0]]; ok {
			if len(parts) == 1 {""","""	part, rest := parts[0], parts[1:]
	if len(item.ChildsMap) > 0 {
		if child, ok := item.ChildsMap[part]; ok {
			if len(rest) == 0 {"""),(GT,"child.MatchItemsByParts(parts[1:], store)","child.MatchItemsByParts(rest, store)"),(GT,"item.Childs[i].Item.Match(parts[0])","item.Childs[i].Item.Match(part)"),(GT,"			if len(parts) == 1 {","			if len(rest) == 0 {"),(GT,"item.Childs[i].MatchItemsByParts(parts[1:], store)","item.Childs[i].MatchItemsByParts(rest, store)"))
r("gglobtree match early",(GT,"""	if rootItem, ok := gtree.Root[partsCount]; ok {
		if n := rootItem.MatchItems(path, store); n > 0 {
			matched += n
		}
	}

	return
}""","""	rootItem := gtree.Root[partsCount]
	if rootItem == nil {
		return 0
	}
	return rootItem.MatchItems(path, store)
}"""))
r("pathlevel",(U,"return path, strings.Count(path, \".\") + 1\n","n := strings.Count(path, \".\")\n	return path, n + 1\n"))
r("gglob Match extract part check",(GG,"""		if part == "" {
			return
		}

		if !g.Parts[i].Match(part) {
			return
		}
""","""		if part == "" || !g.Parts[i].Match(part) {
			return
		}
"""))
r("gglob Match limits helper",(GG,"	if len(g.Parts) != partsCount {\n		return\n	}\n","	if partsCount != len(g.Parts) {\n		return false\n	}\n"))
# glob
r("glob match helper limits",(GL,"""	if len(s) < g.MinLen {
		return
	}
	if g.MaxLen > 0 && len(s) > g.MaxLen {
		return
	}
""","""	if !g.lenInRange(len(s)) {
		return
	}
"""),(GL,"""func Parse(""","""func (g *Glob) lenInRange(n int) bool {
	return n >= g.MinLen && (g.MaxLen <= 0 || n <= g.MaxLen)
}

func Parse("""))
r("glob match strip helper",(GL,"""		if g.Prefix != "" {
			if !strings.HasPrefix(s, g.Prefix) {
				// prefix not match
				return
			}
			s = s[len(g.Prefix):]
		}
		if g.Suffix != "" {
			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
		}
""","""		var ok bool
		if s, ok = g.strip(s); !ok {
			return
		}
"""),(GL,"""func Parse(""","""// strip removes prefix and suffix
func (g *Glob) strip(s string) (string, bool) {
	if !strings.HasPrefix(s, g.Prefix) {
		return "", false
	}
	s = s[len(g.Prefix):]
	if !strings.HasSuffix(s, g.Suffix) {
		return "", false
	}
	return s[:len(s)-len(g.Suffix)], true
}

func Parse("""))
r("glob match suffix first",(GL,"""		if g.Prefix != "" {
			if !strings.HasPrefix(s, g.Prefix) {
				// prefix not match
				return
			}
			s = s[len(g.Prefix):]
		}
		if g.Suffix != "" {
			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
		}
""","""		if g.Suffix != "" {
			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
		}
		if g.Prefix != "" {
			if !strings.HasPrefix(s, g.Prefix) {
				// prefix not match
				return
			}
			s = s[len(g.Prefix):]
		}
"""))
r("glob match early returns",(GL,"""	if len(g.Items) == 0 {
		matched = (g.Node == s)
	} else {""","""	switch {
	case len(g.Items) == 0:
		return s == g.Node
	default:"""),(GL,"			_, matched = g.Vals[s]\n		} else {\n			matched = items.MatchItems(s, g.Items)\n		}","			_, ok := g.Vals[s]\n			return ok\n		}\n		return items.MatchItems(s, g.Items)"),(GL,"	}\n\n	return\n}\n\nfunc Parse","	}\n}\n\nfunc Parse"))
r("glob match vals nil",(GL,"if len(g.Vals) > 0 {","if len(g.Vals) != 0 {"))
# gtags tree
r("gtags terms helper",(TT,"""	if len(terms) == 0 {
		gtree.Terminate = true
		gtree.Query = normalized
		gtree.Index = index

	} else {
		lastItem := gtree.Root.Parse(terms, normalized, index)
		lastItem.Terminate = true
		lastItem.Query = normalized
		lastItem.Index = index
	}
""","""	gtree.insert(terms, normalized, index)
"""),(TT,"""	if len(terms) == 0 {
		gtree.Terminated = items.Terminated{
			Terminate: true, Index: index, Query: normalized,
		}
	} else {
		lastItem := gtree.Root.Parse(terms, normalized, index)
		lastItem.Terminate = true
		lastItem.Query = normalized
		lastItem.Index = index
	}
""","""	gtree.insert(terms, normalized, index)
"""),(TT,"func (gtree *GTagsTree) MatchByTagsMap(","""func (gtree *GTagsTree) insert(terms TaggedTermList, query string, index int) {
	last := &gtree.Terminated
	if len(terms) > 0 {
		last = &gtree.Root.Parse(terms, query, index).Terminated
	}
	last.Terminate = true
	last.Query = query
	last.Index = index
}

func (gtree *GTagsTree) MatchByTagsMap("""))
r("gtags match early",(TT,"""	if gtree.Terminate {
		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
		matched++
	}
	matched += gtree.Root.MatchByTags(tags, store)
	return
""","""	if gtree.Terminate {
		store.Store(gtree.Query, gtree.Index)
		matched = 1
	}
	return matched + gtree.Root.MatchByTags(tags, store)
"""))
r("gtags map child helper",(TI,"""				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
				if n := child.MatchByTagsMap(tags, store); n > 0 {
					matched += n
				}
""","""				matched += child.reportMap(tags, store)
""","all"),(TI,"""func (item *TaggedItem) MatchByTagsMap(""","""func (item *TaggedItem) reportMap(tags map[string]string, store items.Store) (matched int) {
	if item.Terminate {
		store.Store(item.Query, item.Index)
		matched++
	}
	matched += item.MatchByTagsMap(tags, store)
	return
}

func (item *TaggedItem) MatchByTagsMap("""))
r("gtags tags invert",(TI,"				if !child.Term.Match(v) {\n					continue\n				}\n				if child.Terminate {\n					store.Store(child.Query, child.Index)\n					matched++\n				}\n				if n := child.MatchByTagsMap(tags, store); n > 0 {\n					matched += n\n				}\n","				if child.Term.Match(v) {\n					if child.Terminate {\n						store.Store(child.Query, child.Index)\n						matched++\n					}\n					matched += child.MatchByTagsMap(tags, store)\n				}\n","all"))
r("gtags range items",(TI,"""	for i := 0; i < len(item.Items); i++ {
		v, ok := tags[item.Items[i].Key]
		if ok {
			for _, child := range item.Items[i].Matched {""","""	for _, group := range item.Items {
		v, ok := tags[group.Key]
		if ok {
			for _, child := range group.Matched {"""),(TI,"""			for _, child := range item.Items[i].NotMatched {
				if !child.Term.Match(v) {""","""			for _, child := range group.NotMatched {
				if !child.Term.Match(v) {"""),(TI,"""			// tags not exist, check not matched
			for _, child := range item.Items[i].NotMatched {""","""			// tags not exist, check not matched
			for _, child := range group.NotMatched {"""))
r("gtags Parse helper find",(TI,"""	for _, child := range childs {
		if terms[0].Key == child.Term.Key && terms[0].Op == child.Term.Op && terms[0].Value == child.Term.Value {
			lastItem = child
			break
		}
	}
""","""	lastItem = locate(childs, &terms[0])
"""),(TI,"""func (item *TaggedItem) Parse(""","""func locate(childs []*TaggedItem, term *TaggedTerm) *TaggedItem {
	for _, child := range childs {
		if child.Term.Key == term.Key && child.Term.Op == term.Op && child.Term.Value == term.Value {
			return child
		}
	}
	return nil
}

func (item *TaggedItem) Parse("""))
r("gtags Parse append inline",(TI,"""		childs = append(childs, lastItem)
		if isMatchedOp {
			item.Items[pos].Matched = childs
		} else {
			item.Items[pos].NotMatched = childs
		}
""","""		if isMatchedOp {
			item.Items[pos].Matched = append(item.Items[pos].Matched, lastItem)
		} else {
			item.Items[pos].NotMatched = append(item.Items[pos].NotMatched, lastItem)
		}
"""))
r("gtags Parse tail",(TI,"""	if len(terms) > 1 {
		lastItem = lastItem.Parse(terms[1:], query, index)
	}

	return
""","""	if len(terms) == 1 {
		return lastItem
	}
	return lastItem.Parse(terms[1:], query, index)
"""))
r("gtags Parse group ptr",(TI,"""	pos := item.findOrAppend(terms[0].Key)
	switch""","""	pos := item.findOrAppend(terms[0].Key)
	group := &item.Items[pos]
	switch"""),(TI,"childs = item.Items[pos].Matched","childs = group.Matched"),(TI,"childs = item.Items[pos].NotMatched","childs = group.NotMatched"),(TI,"			item.Items[pos].Matched = childs","			group.Matched = childs"),(TI,"			item.Items[pos].NotMatched = childs","			group.NotMatched = childs"))
r("find loop cond",(TI,"""		if low > high {
			break
		}
		if low == high {
			if key == tags[low].Key {
				return low
			}
			break
		}
		search = (low + high) / 2
	}

	return -1
}

func (item *TaggedItem) Parse""","""		if low > high {
			return -1
		}
		search = (low + high) / 2
	}
}

func (item *TaggedItem) Parse"""))
r("find switch",(TI,"""		if key == tags[search].Key {
			return search
		}
		if key < tags[search].Key {
			high = search - 1
		} else {
			low = search + 1
		}
""","""		switch at := tags[search].Key; {
		case at == key:
			return search
		case at > key:
			high = search - 1
		default:
			low = search + 1
		}
"""))
r("findOrAppend mid",(TI,"	for low <= high {\n		mid := (low + high) / 2\n","	for low <= high {\n		mid := low + (high-low)/2\n"))
r("findOrAppend insert helper",(TI,"""	newItems := make([]TaggedItems, 0, len(t.Items)+4)
	newItems = append(newItems, t.Items[:high]...)
	newItems = append(newItems, TaggedItems{Key: key})
	t.Items = append(newItems, t.Items[high:]...)
	return high
""","""	t.insertAt(high, key)
	return high
"""),(TI,"// find search by key from start","""func (t *TaggedItem) insertAt(pos int, key string) {
	newItems := make([]TaggedItems, 0, len(t.Items)+4)
	newItems = append(newItems, t.Items[:pos]...)
	newItems = append(newItems, TaggedItems{Key: key})
	t.Items = append(newItems, t.Items[pos:]...)
}

// find search by key from start"""))
