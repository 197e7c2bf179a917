import sys; sys.path.insert(0,'/tmp')
from mut import mut
T="glob/tree.go"; G="gglob/gtree.go"; I="gtags/items.go"; Q="gtags/tree.go"; S="pkg/items/store.go"
R=sys.argv[1] if len(sys.argv)>1 else "C17"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
m([(T,"newItem = &items.TreeItem{Item: node, Reverse: true}","newItem = &items.TreeItem{Item: node}")],"S suffix not reverse")
m([(T,"items.LocateChildTreeItem(treeItem.Childs, node, true)","items.LocateChildTreeItem(treeItem.Childs, node, false)")],"S suffix located forward")
m([(T,"items.LocateChildTreeItem(treeItem.Childs, node, false)","items.LocateChildTreeItem(treeItem.Childs, node, len(treeItem.Childs) > 4)")],"S prefix located reverse sometimes")
m([(S,"child.Reverse == reverse && child.Equal(node)","child.Equal(node)")],"S locate ignores reverse")
m([(S,"child.Reverse == reverse && child.Equal(node)","child.Reverse == reverse && (child.Equal(node) || child.String() == node.String())")],"S locate by text")
m([(T,"	for i := 0; i < len(gg.Items); i++ {","	for i := 0; i < len(gg.Items) && i < 16; i++ {")],"S at most 16 items")
m([(T,"newItem = &items.TreeItem{Item: gg.Items[i]}","newItem = &items.TreeItem{Item: gg.Items[len(gg.Items)-1]}")],"S other item")
m([(T,"		treeItem = newItem\n	}\n\n	treeItem.Terminate","		if i < len(gg.Items)-1 || !newItem.Terminate {\n			treeItem = newItem\n		}\n	}\n\n	treeItem.Terminate")],"S last kept at parent")
m([(T,"prefix := gg.Prefix\n	if len(gg.Items) == 0 {\n		prefix = gg.Node // string without wildcards\n	}\n	if prefix != \"\" || len(gg.Items) == 0 {","prefix := gg.Prefix\n	if prefix != \"\" {")],"S revert 5c5a225")
m([(T,"	if prefix != \"\" || len(gg.Items) == 0 {","	if prefix != gg.Suffix || len(gg.Items) == 0 {")],"S no prefix when equal to suffix")
m([(T,"	if gg.Suffix != \"\" {","	if gg.Suffix != \"\" && len(treeItem.Childs) == 0 {")],"S suffix only for the first")
m([(T,"items.NewString(gg.Suffix)","items.NewString(gg.Prefix)")],"S prefix as suffix")
m([(G,"treeItem, _ := treeMap[len(gg.Parts)]","treeItem, _ := treeMap[strings.Count(gg.Glob, \".\")+1]"),(G,"import (","import (\n	\"strings\"")],"S count raw dots") if 0 else None
m([(G,"treeMap[len(gg.Parts)] = treeItem","treeMap[cap(gg.Parts)] = treeItem")],"S cap")
m([(G,"child.Item.Node == node","child.Item.Prefix == node")],"S located by prefix")
m([(G,"child.Item != nil && child.Item.Node == node","child.Item != nil && (child.Item.Node == node || child.Item.Glob == node)")],"S located by glob")
m([(G,"		if len(gg.Parts[i].Items) == 0 {","		if len(gg.Parts[i].Items) == 0 || gg.Parts[i].MinLen == gg.Parts[i].MaxLen {")],"S fixed length as string")
m([(G,"newItem, ok := treeItem.ChildsMap[gg.Parts[i].Node]","newItem, ok := treeItem.ChildsMap[gg.Parts[i].Prefix]")],"S map by prefix")
m([(G,"treeItem.ChildsMap[gg.Parts[i].Node] = newItem","treeItem.ChildsMap[gg.Parts[i].Glob] = newItem")],"S map set by glob")
m([(G,"newItem = &GTreeItem{Item: gg.Parts[i]}","newItem = &GTreeItem{Item: gg.Parts[0]}",1)],"S part 0")
m([(G,"	for i := 0; i < len(gg.Parts); i++ {\n		if len(gg.Parts[i].Items) == 0 {\n			// string","	for i := 0; i < len(gg.Parts); i++ {\n		if gg.Parts[i].Node == \"*\" && i > 0 && gg.Parts[i-1].Node == \"*\" {\n			continue\n		}\n		if len(gg.Parts[i].Items) == 0 {\n			// string")],"S star part skipped")
m([(I,"	case TaggedTermEq, TaggedTermMatch:\n		isMatchedOp","	case TaggedTermEq:\n		isMatchedOp")],"S match op in notmatched")
m([(I,"	case TaggedTermEq, TaggedTermMatch:\n		isMatchedOp","	case TaggedTermEq, TaggedTermMatch, TaggedTermNotMatch:\n		isMatchedOp")],"S notmatch op in matched")
m([(I,"terms[0].Op == child.Term.Op && terms[0].Value","terms[0].Value")],"S op not compared")
m([(I," && terms[0].Value == child.Term.Value {"," {")],"S value not compared")
m([(I,"lastItem = lastItem.Parse(terms[1:], query, index)","lastItem.Parse(terms[1:], query, index)")],"S result of the rest is lost")
m([(I,"lastItem = lastItem.Parse(terms[1:], query, index)","lastItem = lastItem.Parse(terms[2:], query, index)"),(I,"	if len(terms) > 1 {\n		lastItem","	if len(terms) > 2 {\n		lastItem")],"S every second term")
m([(I,"lastItem = lastItem.Parse(terms[1:], query, index)","lastItem = item.Parse(terms[1:], query, index)")],"S the rest under the same node")
m([(I,"lastItem = &TaggedItem{Term: &terms[0]}","lastItem = &TaggedItem{Term: &terms[len(terms)-1]}")],"S last term")
m([(I,"	pos := item.findOrAppend(terms[0].Key)","	pos := item.findOrAppend(terms[0].Key)\n	if terms[0].Op == TaggedTermNe && pos > 0 {\n		pos--\n	}")],"S wrong group")
m([(I,"	return high\n}\n\n// find search","	return high - 1\n}\n\n// find search")],"S findOrAppend returns high-1")
m([(I,"		if key == t.Items[mid].Key {\n			return mid","		if key == t.Items[mid].Key {\n			return low")],"S findOrAppend returns low")
m([(I,"	newItems = append(newItems, TaggedItems{Key: key})","	newItems = append(newItems, TaggedItems{Key: t.Items[high].Key})")],"S group with wrong key")
m([(Q,"	if len(terms) == 0 {\n		gtree.Terminate = true","	if len(terms) <= 1 {\n		gtree.Terminate = true")],"S one term at the tree")
m([(Q,"lastItem := gtree.Root.Parse(terms, normalized, index)","lastItem := gtree.Root.Parse(terms[len(terms)-1:], normalized, index)")],"S only last term")
# equivalent
m([(T,"	for i := 0; i < len(gg.Items); i++ {\n		newItem := items.LocateChildTreeItem(treeItem.Childs, gg.Items[i], false)\n		if newItem == nil {\n			if treeItem.Childs == nil {\n				treeItem.Childs = make([]*items.TreeItem, 0, 2)\n			}\n			newItem = &items.TreeItem{Item: gg.Items[i]}\n			treeItem.Childs = append(treeItem.Childs, newItem)\n		}\n		treeItem = newItem\n	}","	for _, it := range gg.Items {\n		treeItem = addChild(treeItem, it, false)\n	}"),(T,"func addGlob","func addChild(parent *items.TreeItem, it items.Item, reverse bool) *items.TreeItem {\n	if child := items.LocateChildTreeItem(parent.Childs, it, reverse); child != nil {\n		return child\n	}\n	child := &items.TreeItem{Item: it, Reverse: reverse}\n	parent.Childs = append(parent.Childs, child)\n	return child\n}\n\nfunc addGlob")],"ok: addChild, range")
m([(T,"		newItem := items.LocateChildTreeItem(treeItem.Childs, node, true)\n		if newItem == nil {\n			if treeItem.Childs == nil {\n				treeItem.Childs = make([]*items.TreeItem, 0, 2)\n			}\n			newItem = &items.TreeItem{Item: node, Reverse: true}\n			treeItem.Childs = append(treeItem.Childs, newItem)\n		}\n		treeItem = newItem","		treeItem = addChild(treeItem, node, true)"),(T,"		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)\n		if newItem == nil {\n			if treeItem.Childs == nil {\n				treeItem.Childs = make([]*items.TreeItem, 0, 2)\n			}\n			newItem = &items.TreeItem{Item: node}\n			treeItem.Childs = append(treeItem.Childs, newItem)\n		}\n		treeItem = newItem","		treeItem = addChild(treeItem, node, false)"),(T,"func addGlob","func addChild(parent *items.TreeItem, it items.Item, reverse bool) *items.TreeItem {\n	child := items.LocateChildTreeItem(parent.Childs, it, reverse)\n	if child == nil {\n		child = &items.TreeItem{Reverse: reverse}\n		child.Item = it\n		parent.Childs = append(parent.Childs, child)\n	}\n	return child\n}\n\nfunc addGlob")],"ok: addChild texts")
m([(T,"	prefix := gg.Prefix\n	if len(gg.Items) == 0 {\n		prefix = gg.Node // string without wildcards\n	}\n	if prefix != \"\" || len(gg.Items) == 0 {\n		node := items.NewString(prefix)","	var node items.Item\n	if len(gg.Items) == 0 {\n		node = items.NewString(gg.Node)\n	} else if gg.Prefix != \"\" {\n		node = items.NewString(gg.Prefix)\n	}\n	if node != nil {")],"ok: node var")
m([(S,"	for _, child := range childs {\n		if child.Reverse == reverse && child.Equal(node) {\n			return child\n		}\n	}\n	return nil","	for i := 0; i < len(childs); i++ {\n		if childs[i].Reverse != reverse {\n			continue\n		}\n		if childs[i].Item.Equal(node) {\n			return childs[i]\n		}\n	}\n	return nil")],"ok: locate loop")
m([(S,"	for _, child := range childs {\n		if child.Reverse == reverse && child.Equal(node) {\n			return child\n		}\n	}\n	return nil","	var found *TreeItem\n	for i := 0; i < len(childs) && found == nil; i++ {\n		if childs[i].Reverse == reverse && node.Equal(childs[i].Item) {\n			found = childs[i]\n		}\n	}\n	return found")],"ok: locate found var")
m([(G,"	for i := 0; i < len(gg.Parts); i++ {\n		if len(gg.Parts[i].Items) == 0 {","	for i, part := range gg.Parts {\n		_ = part\n		if len(part.Items) == 0 {")],"ok: range parts")
m([(G,"	for i := 0; i < len(gg.Parts); i++ {\n		if len(gg.Parts[i].Items) == 0 {\n			// string\n			if treeItem.ChildsMap == nil {\n				treeItem.ChildsMap = make(map[string]*GTreeItem)\n			}\n			newItem, ok := treeItem.ChildsMap[gg.Parts[i].Node]\n			if !ok {\n				newItem = &GTreeItem{Item: gg.Parts[i]}\n				treeItem.ChildsMap[gg.Parts[i].Node] = newItem\n			}\n			treeItem = newItem\n		} else {\n			newItem := LocateChildGTreeItem(treeItem.Childs, gg.Parts[i].Node)\n			if newItem == nil {\n				if treeItem.Childs == nil {\n					treeItem.Childs = make([]*GTreeItem, 0, 2)\n				}\n				newItem = &GTreeItem{Item: gg.Parts[i]}\n				treeItem.Childs = append(treeItem.Childs, newItem)\n			}\n			treeItem = newItem\n		}\n	}","	for _, part := range gg.Parts {\n		treeItem = treeItem.child(part)\n	}"),(G,"func addGGlob","func (item *GTreeItem) child(part *glob.Glob) *GTreeItem {\n	if len(part.Items) != 0 {\n		if child := LocateChildGTreeItem(item.Childs, part.Node); child != nil {\n			return child\n		}\n		child := &GTreeItem{Item: part}\n		item.Childs = append(item.Childs, child)\n		return child\n	}\n	if child, ok := item.ChildsMap[part.Node]; ok {\n		return child\n	}\n	if item.ChildsMap == nil {\n		item.ChildsMap = make(map[string]*GTreeItem)\n	}\n	child := &GTreeItem{Item: part}\n	item.ChildsMap[part.Node] = child\n	return child\n}\n\nfunc addGGlob")],"ok: child helper")
m([(G,"	treeItem, _ := treeMap[len(gg.Parts)]\n	if treeItem == nil {","	treeItem, ok := treeMap[len(gg.Parts)]\n	if !ok {")],"ok: root ok")
m([(I,"	case TaggedTermEq, TaggedTermMatch:\n		isMatchedOp = true\n		childs = item.Items[pos].Matched\n	default:\n		childs = item.Items[pos].NotMatched\n	}","	case TaggedTermNe, TaggedTermNotMatch:\n		childs = item.Items[pos].NotMatched\n	default:\n		isMatchedOp = true\n		childs = item.Items[pos].Matched\n	}")],"ok: switch reversed")
m([(I,"	if len(terms) > 1 {\n		lastItem = lastItem.Parse(terms[1:], query, index)\n	}\n\n	return\n","	if len(terms) == 1 {\n		return lastItem\n	}\n	return lastItem.Parse(terms[1:], query, index)\n")],"ok: tail")
m([(I,"	for _, child := range childs {\n		if terms[0].Key == child.Term.Key && terms[0].Op == child.Term.Op && terms[0].Value == child.Term.Value {\n			lastItem = child\n			break\n		}\n	}\n\n	if lastItem","	lastItem = findTerm(childs, &terms[0])\n	if lastItem"),(I,"func hasName","func findTerm(childs []*TaggedItem, t *TaggedTerm) *TaggedItem {\n	for i := range childs {\n		if c := childs[i].Term; c.Key == t.Key && c.Op == t.Op && c.Value == t.Value {\n			return childs[i]\n		}\n	}\n	return nil\n}\n\nfunc hasName")],"ok: findTerm")
m([(I,"		childs = append(childs, lastItem)\n		if isMatchedOp {\n			item.Items[pos].Matched = childs\n		} else {\n			item.Items[pos].NotMatched = childs\n		}","		group := &item.Items[pos]\n		if isMatchedOp {\n			group.Matched = append(group.Matched, lastItem)\n		} else {\n			group.NotMatched = append(group.NotMatched, lastItem)\n		}")],"ok: group var")
m([(I,"	newItems := make([]TaggedItems, 0, len(t.Items)+4)\n	newItems = append(newItems, t.Items[:high]...)\n	newItems = append(newItems, TaggedItems{Key: key})\n	t.Items = append(newItems, t.Items[high:]...)\n	return high","	t.Items = append(t.Items, TaggedItems{})\n	copy(t.Items[high+1:], t.Items[high:])\n	t.Items[high] = TaggedItems{Key: key}\n	return high")],"ok: insert in place")
m([(I,"func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (lastItem *TaggedItem) {\n	var (","func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (lastItem *TaggedItem) {\n	for i := range terms {\n		item = item.parseTerm(&terms[i])\n	}\n	return item\n}\n\nfunc (item *TaggedItem) parseTerm(term *TaggedTerm) (lastItem *TaggedItem) {\n	terms := []TaggedTerm{*term}\n	var (") ,(I,"	if len(terms) > 1 {\n		lastItem = lastItem.Parse(terms[1:], query, index)\n	}\n\n	return\n","	return\n"),(I,"lastItem = &TaggedItem{Term: &terms[0]}","lastItem = &TaggedItem{Term: term}")],"ok: iterative Parse")
