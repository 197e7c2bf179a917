import sys; sys.path.insert(0,'/tmp')
from mut import mut
G="gglob/gtree.go"; T="gtags/tree.go"; L="glob/tree.go"; I="gtags/items.go"
R="C07 C08 C09"
mut(R,[(L,"	gtree.GlobsIndex[index] = normalized\n","",0)],"drop index rec")
mut(R,[(L,"	if normalized != g.Glob {\n		gtree.Globs[normalized] = index\n	}\n","",0)],"drop norm rec")
mut(R,[(G,"	gtree.Globs[globString] = index\n","")],"drop raw rec")
mut(R,[(T,"	if normalized != queryString {\n		gtree.Queries[normalized] = index\n	}\n","	if len(normalized) > len(queryString) {\n		gtree.Queries[normalized] = index\n	}\n")],"cond norm rec")
mut(R,[(T,"		lastItem.Index = index\n","",1)],"drop Index")
mut(R,[(L,"	if n, ok = gtree.Globs[g.Node]; ok {\n		// aleady added\n		err = ErrGlobExist\n		normalized = g.Node\n		return\n	}\n","")],"no norm dup check")
mut(R,[(L,"	if node, ok := gtree.GlobsIndex[index]; ok {\n		err = ErrIndexDup\n		normalized = node\n		return\n	}\n","")],"no idx dup check")
mut(R,[(L,"	if index < 0 {","	if index < -1 {",1)],"neg -1")
mut(R,[(G,"	if n, ok = gtree.Globs[g.Node]; ok {\n		// aleady added\n		err = glob.ErrGlobExist\n		normalized = g.Node\n		return\n	}\n","	if n, ok = gtree.Globs[g.Node]; ok && g.Node != globString {\n		// aleady added\n		err = glob.ErrGlobExist\n		normalized = g.Node\n		return\n	}\n")],"harmless cond (raw==node was checked): should be quiet")
mut(R,[(G,"	addGGlob(gtree.Root, g, index)\n\n	gtree.Globs[globString] = index","	gtree.Globs[globString] = index\n	if n, ok = gtree.Globs[g.Node]; ok && g.Node != globString {\n		err = glob.ErrGlobExist\n		return\n	}\n	addGGlob(gtree.Root, g, index)\n")],"late check")
mut(R,[(G,"				treeItem.Childs = append(treeItem.Childs, newItem)\n			}\n			treeItem = newItem","				if len(treeItem.Childs) < 64 {\n					treeItem.Childs = append(treeItem.Childs, newItem)\n				}\n			}\n			treeItem = newItem")],"unlinked node")
mut(R,[(G,"	treeItem.Query = gg.Node\n","	treeItem.Query = gg.Glob\n")],"raw query")
mut(R,[(T,"lastItem := gtree.Root.Parse(terms, normalized, index)\n		lastItem.Terminate = true","lastItem := gtree.Root.Parse(terms, normalized, index)\n		if lastItem.Terminate { err = glob.ErrGlobExist\nreturn }\n		lastItem.Terminate = true",0)],"reject after tree changed")
# refactors
mut(R,[(L,"	gtree.Globs[g.Glob] = index\n	if normalized != g.Glob {\n		gtree.Globs[normalized] = index\n	}\n	gtree.GlobsIndex[index] = normalized\n\n	n = index\n\n	return\n","	gtree.record(g, index)\n	return g.Node, index, nil\n","all"),(L,"func NewTree()","func (gtree *GlobTree) record(g *Glob, index int) {\n	gtree.GlobsIndex[index] = g.Node\n	gtree.Globs[g.Node] = index\n	if g.Glob != g.Node {\n		gtree.Globs[g.Glob] = index\n	}\n}\n\nfunc NewTree()")],"REF record helper")
mut(R,[(G,"""	var ok bool
	if n, ok = gtree.Globs[g.Glob]; ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}

	if n, ok = gtree.Globs[g.Node]; ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}
""","""	var ok bool
	if n, ok = gtree.registered(g.Glob, g.Node); ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}
"""),(G,"func NewTree()","func (gtree *GGlobTree) registered(names ...string) (int, bool) {\n	for _, s := range names {\n		if n, ok := gtree.Globs[s]; ok {\n			return n, true\n		}\n	}\n	return 0, false\n}\n\nfunc NewTree()")],"REF variadic dup loop")
mut(R,[(G,"""	var ok bool
	if n, ok = gtree.Globs[g.Glob]; ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}

	if n, ok = gtree.Globs[g.Node]; ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}
""","""	var ok bool
	if n, ok = gtree.registered(g); ok {
		// aleady added
		err = glob.ErrGlobExist
		return
	}
"""),(G,"func NewTree()","func (gtree *GGlobTree) registered(g *GGlob) (n int, ok bool) {\n	if n, ok = gtree.Globs[g.Glob]; !ok {\n		n, ok = gtree.Globs[g.Node]\n	}\n	return\n}\n\nfunc NewTree()")],"REF dup helper")
mut(R,[(G,"	for i := 0; i < len(gg.Parts); i++ {\n		if len(gg.Parts[i].Items) == 0 {","	for i := range gg.Parts {\n		part := gg.Parts[i]\n		if len(part.Items) == 0 {")],"REF range")
mut(R,[(L,"""		newItem := items.LocateChildTreeItem(treeItem.Childs, gg.Items[i], false)
		if newItem == nil {
			if treeItem.Childs == nil {
				treeItem.Childs = make([]*items.TreeItem, 0, 2)
			}
			newItem = &items.TreeItem{Item: gg.Items[i]}
			treeItem.Childs = append(treeItem.Childs, newItem)
		}
		treeItem = newItem
""","""		treeItem = childOf(treeItem, gg.Items[i], false)
"""),(L,"func addGlob(","""func childOf(treeItem *items.TreeItem, node items.Item, reverse bool) *items.TreeItem {
	if child := items.LocateChildTreeItem(treeItem.Childs, node, reverse); child != nil {
		return child
	}
	child := &items.TreeItem{Item: node, Reverse: reverse}
	treeItem.Childs = append(treeItem.Childs, child)
	return child
}

func addGlob(""")],"REF childOf")
mut(R,[(I,"	if len(terms) > 1 {\n		lastItem = lastItem.Parse(terms[1:], query, index)\n	}\n\n	return","	if len(terms) > 1 {\n		return lastItem.Parse(terms[1:], query, index)\n	}\n\n	return")],"REF tail")
mut(R,[(T,"		lastItem := gtree.Root.Parse(terms, normalized, index)\n		lastItem.Terminate = true\n		lastItem.Query = normalized\n		lastItem.Index = index\n","		gtree.Root.Parse(terms, normalized, index).Terminated = items.Terminated{Terminate: true, Query: normalized, Index: index}\n","all")],"REF struct assign")
mut(R,[(T,"""	var ok bool
	if n, ok = gtree.Queries[queryString]; ok {
		// aleady added
		err = glob.ErrGlobExist
		normalized = queryString
		return
	}
	if normalized, ok = gtree.QueryIndex[index]; ok {
		err = glob.ErrIndexDup
		return
	}
""","""	if idx, exist := gtree.Queries[queryString]; exist {
		return queryString, idx, glob.ErrGlobExist
	}
	if q, exist := gtree.QueryIndex[index]; exist {
		return q, 0, glob.ErrIndexDup
	}
	var ok bool
""")],"REF early returns")
