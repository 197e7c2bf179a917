import sys; sys.path.insert(0,'/tmp')
from mut import mut
G="gglob/gtree.go"; T="gtags/tree.go"; L="glob/tree.go"; I="gtags/items.go"; P="pkg/items/tree.go"
R=sys.argv[1] if len(sys.argv)>1 else "C12"
mut(R,[(P,"		if s == \"\" && item.Terminate {","		if s == \"\" && item.Terminate && len(item.Childs) == 0 {",0)],"terminated only leaf")
mut(R,[(P,"			store.Store(item.Query, item.Index)\n			matched++\n","			store.Store(item.Query, item.Index)\n			matched++\n			return\n",0)],"return after report")
mut(R,[(P,"			if n, _ := item.Childs[i].match(s, store); n > 0 {\n				matched += n\n			}","			if n, _ := item.Childs[i].match(s, store); n > 0 {\n				matched += n\n				break\n			}",0)],"break after match")
mut(R,[(P,"for i := 0; i < len(item.Childs); i++ {\n			if n, _ := item.Childs[i].matchStar","for i := 1; i < len(item.Childs); i++ {\n			if n, _ := item.Childs[i].matchStar",0)],"start 1")
mut(R,[(G,"				if n := child.MatchItems(path, store); n > 0 {\n					matched += n\n				}\n			}\n","				if n := child.MatchItems(path, store); n > 0 {\n					return n\n				}\n			}\n")],"exact first")
mut(R,[(G,"	for i := 0; i < len(item.Childs); i++ {\n		if item.Childs[i].Item.Match(part) {","	for i := 0; i < len(item.Childs); i++ {\n		if matched > 0 && item.Childs[i].Item.MinLen == 0 {\n			continue\n		}\n		if item.Childs[i].Item.Match(part) {")],"skip some")
mut(R,[(G,"	if len(item.ChildsMap) > 0 {","	if len(item.ChildsMap) > 1 {",1)],"len>1")
mut(R,[(I,"				if n := child.MatchByTagsMap(tags, store); n > 0 {\n					matched += n\n				}\n","				if !child.Terminate {\n				if n := child.MatchByTagsMap(tags, store); n > 0 {\n					matched += n\n				}\n				}\n",1)],"no descend if terminate")
mut(R,[(I,"			for _, child := range item.Items[i].NotMatched {\n				if !child.Term.Match(v) {\n					continue\n				}","			for _, child := range item.Items[i].NotMatched {\n				if matched > 0 || !child.Term.Match(v) {\n					break\n				}")],"break notmatched")
mut(R,[(I,"		v, ok := tags[item.Items[i].Key]\n		if ok {","		v, ok := tags[item.Items[i].Key]\n		if ok && v != \"\" {")],"empty value absent")
mut(R,[(I,"		n := find(tags, item.Items[i].Key, matchPos)\n		if n == -1 {","		n := find(tags, item.Items[i].Key, matchPos)\n		if n == -1 || n == matchPos && i > 0 {")],"cond find")
mut(R,[(I,"		n := find(tags, item.Items[i].Key, matchPos)\n		if n == -1 {","		n := find(tags, item.Items[i].Key, matchPos)\n		if n <= 0 {")],"n<=0")
mut(R,[(T,"		matched++\n	}\n	matched += gtree.Root.MatchByTags(tags","		return 1\n	}\n	matched += gtree.Root.MatchByTags(tags")],"root return")
mut(R,[(G,"	if rootItem, ok := gtree.Root[partsCount]; ok {","	if rootItem, ok := gtree.Root[partsCount]; ok && rootItem.ChildsMap != nil {")],"root cond")
mut(R,[(P,"			if s == \"\" && child.Terminate {","			if s == \"\" && child.Terminate && child.Item.MinLen() > 1 {",0)],"reverse child report cond")
mut(R,[(P,"			for _, subChild := range child.Childs {\n				if n, _ := subChild","			for _, subChild := range child.Childs {\n				if s == \"\" {\n					break\n				}\n				if n, _ := subChild",0)],"reverse sub break")
# refactors
mut(R,[(P,"""		for i := 0; i < len(item.Childs); i++ {
			if n, _ := item.Childs[i].match(s, store); n > 0 {
				matched += n
			}
		}
""","""		matched += item.matchChilds(s, store)
"""),(P,"func (item *TreeItem) matchNextTreeItem","""func (item *TreeItem) matchChilds(s string, store Store) (matched int) {
	for _, child := range item.Childs {
		n, _ := child.match(s, store)
		matched += n
	}
	return
}

func (item *TreeItem) matchNextTreeItem""")],"REF matchChilds")
mut(R,[(P,"""		if s == "" && item.Terminate {
			store.Store(item.Query, item.Index)
			matched++
		}
		for i := 0; i < len(item.Childs); i++ {
			if n, _ := item.Childs[i].match(s, store); n > 0 {
				matched += n
			}
		}
""","""		matched += item.matchNextTreeItem(s, store)
""")],"REF use next")
mut(R,[(G,"""	if len(item.ChildsMap) > 0 {
		if child, ok := item.ChildsMap[part]; ok {
			if path == "" {
				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
			} else {
				if n := child.MatchItems(path, store); n > 0 {
					matched += n
				}
			}
		}
	}
	for i := 0; i < len(item.Childs); i++ {
		if item.Childs[i].Item.Match(part) {
			if path == "" {
				if item.Childs[i].Terminate {
					store.Store(item.Childs[i].Query, item.Childs[i].Index)
					matched++
				}
			} else {
				if n := item.Childs[i].MatchItems(path, store); n > 0 {
					matched += n
				}
			}
		}
	}
""","""	if child, ok := item.ChildsMap[part]; ok {
		matched += child.visit(path, store)
	}
	for _, child := range item.Childs {
		if !child.Item.Match(part) {
			continue
		}
		matched += child.visit(path, store)
	}
"""),(G,"func (item *GTreeItem) MatchItems(","""func (item *GTreeItem) visit(path string, store items.Store) int {
	if path != "" {
		return item.MatchItems(path, store)
	}
	if !item.Terminate {
		return 0
	}
	store.Store(item.Query, item.Index)
	return 1
}

func (item *GTreeItem) MatchItems(""")],"REF visit")
mut(R,[(I,"""				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
				if n := child.MatchByTagsMap(tags, store); n > 0 {
					matched += n
				}
""","""				matched += child.visitMap(tags, store)
""","all"),(I,"func hasName(","""func (t *TaggedItem) visitMap(tags map[string]string, store items.Store) (matched int) {
	if t.Terminate {
		store.Store(t.Query, t.Index)
		matched = 1
	}
	return matched + t.MatchByTagsMap(tags, store)
}

func hasName(""")],"REF visitMap")
mut(R,[(I,"""			for _, child := range item.Items[i].Matched {
				if !child.Term.Match(v) {
					continue
				}
				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
				if n := child.MatchByTagsMap(tags, store); n > 0 {
					matched += n
				}
			}
			for _, child := range item.Items[i].NotMatched {
				if !child.Term.Match(v) {
					continue
				}
				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
				if n := child.MatchByTagsMap(tags, store); n > 0 {
					matched += n
				}
			}
""","""			matched += matchChildsMap(item.Items[i].Matched, v, tags, store)
			matched += matchChildsMap(item.Items[i].NotMatched, v, tags, store)
"""),(I,"func hasName(","""func matchChildsMap(childs []*TaggedItem, v string, tags map[string]string, store items.Store) (matched int) {
	for _, child := range childs {
		if child.Term.Match(v) {
			if child.Terminate {
				store.Store(child.Query, child.Index)
				matched++
			}
			matched += child.MatchByTagsMap(tags, store)
		}
	}
	return
}

func hasName(""")],"REF childs helper")
mut(R,[(I,"""		v, ok := tags[item.Items[i].Key]
		if ok {""","""		group := &item.Items[i]
		v, ok := tags[group.Key]
		if ok {""")],"REF group var")
mut(R,[(I,"""	for i := 0; i < len(item.Items); i++ {
		v, ok""","""	for i := range item.Items {
		v, ok""")],"REF range idx")
mut(R,[(I,"		if n == -1 {\n			// tags not exist, check not matched","		if n < 0 {\n			// tags not exist, check not matched")],"REF n<0")
mut(R,[(P,"""		if child.Reverse {
			if len(s) < child.Item.MinLen() {
				continue
			}
			offset, flag := child.Item.MatchLast(s)
			if flag != FindDone {
				continue
			}
			if offset == -1 {
				continue
			}
			s := s[:offset]
			if s == "" && child.Terminate {
				store.Store(child.Query, child.Index)
				matched++
			}
			for _, subChild := range child.Childs {
				if n, _ := subChild.match(s, store); n > 0 {
					matched += n
				}
			}
		} else {""","""		if child.Reverse {
			if len(s) < child.Item.MinLen() {
				continue
			}
			if offset, flag := child.Item.MatchLast(s); flag == FindDone && offset != -1 {
				matched += child.matchNextTreeItem(s[:offset], store)
			}
		} else {""")],"REF reverse next")
