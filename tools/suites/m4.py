import sys; sys.path.insert(0,'/tmp')
from mut import mut
R="C12"
T="gtags/items.go"; G="gglob/gtree.go"; L="glob/tree.go"
mut(R,[(T,"t.Items = append(newItems, t.Items[high:]...)","t.Items = append(newItems, t.Items[high+1:]...)")],"M high+1")
mut(R,[(T,"		t.Items = append(newItems, t.Items...)\n		return 0\n	}\n	low","		t.Items = newItems\n		return 0\n	}\n	low")],"M drop items")
mut(R,[(T,"	newItems := make([]TaggedItems, 0, len(t.Items)+4)\n	newItems = append(newItems, t.Items[:high]...)\n","	newItems := t.Items[:high]\n")],"M alias")
mut(R,[(T,"		childs = append(childs, lastItem)","		childs = append(childs[:0:0], lastItem)")],"M childs replaced")
mut(R,[(T,"			item.Items[pos].NotMatched = childs","			item.Items[pos].Matched = childs")],"M wrong field")
mut(R,[(G,"			if !ok {\n","			if !ok || newItem.Item != gg.Parts[i] {\n")],"M map overwritten")
mut(R,[(G,"	if treeItem == nil {\n","	if treeItem == nil || len(treeItem.Childs) == 0 {\n")],"M root overwritten")
mut(R,[(G,"				if treeItem.Childs == nil {\n","				if len(treeItem.Childs) < 2 {\n")],"M childs<2")
mut(R,[(L,"			newItem = &items.TreeItem{Item: node}\n","			treeItem.Item = node\n			newItem = &items.TreeItem{Item: node}\n")],"M item overwritten")
mut(R,[(L,"			treeItem.Childs = append(treeItem.Childs, newItem)","			treeItem.Childs = append([]*items.TreeItem{newItem}, treeItem.Childs[1:]...)",1)],"M first dropped")
mut(R,[(L,"			treeItem.Childs = append(treeItem.Childs, newItem)","			treeItem.Childs = append([]*items.TreeItem{newItem}, treeItem.Childs...)",1)],"REF prepend")
mut(R,[(L,"			if treeItem.Childs == nil {\n				treeItem.Childs = make([]*items.TreeItem, 0, 2)\n			}\n","","all")],"REF no prealloc")
mut(R,[(L,"			if treeItem.Childs == nil {","			if len(treeItem.Childs) == 0 {","all")],"REF len==0")
mut(R,[(T,"	newItems := make([]TaggedItems, 0, len(t.Items)+4)\n	newItems = append(newItems, t.Items[:high]...)\n	newItems = append(newItems, TaggedItems{Key: key})\n	t.Items = append(newItems, t.Items[high:]...)","	t.Items = append(t.Items, TaggedItems{})\n	copy(t.Items[high+1:], t.Items[high:])\n	t.Items[high] = TaggedItems{Key: key}")],"REF copy")
mut(R,[(T,"	newItems := make([]TaggedItems, 0, len(t.Items)+4)\n	newItems = append(newItems, t.Items[:high]...)\n	newItems = append(newItems, TaggedItems{Key: key})\n	t.Items = append(newItems, t.Items[high:]...)","	rest := t.Items[high:]\n	newItems := make([]TaggedItems, 0, len(t.Items)+4)\n	newItems = append(newItems, t.Items[:high]...)\n	newItems = append(newItems, TaggedItems{Key: key})\n	newItems = append(newItems, rest...)\n	t.Items = newItems")],"REF rest")
mut(R,[(G,"	treeItem, _ := treeMap[len(gg.Parts)]\n	if treeItem == nil {","	treeItem, ok := treeMap[len(gg.Parts)]\n	if !ok {")],"REF ok")
mut(R,[(L,"""		newItem := items.LocateChildTreeItem(treeItem.Childs, gg.Items[i], false)
		if newItem == nil {
			if treeItem.Childs == nil {
				treeItem.Childs = make([]*items.TreeItem, 0, 2)
			}
			newItem = &items.TreeItem{Item: gg.Items[i]}
			treeItem.Childs = append(treeItem.Childs, newItem)
		}
		treeItem = newItem
""","""		treeItem = child(treeItem, gg.Items[i], false)
"""),(L,"// GlobTree is","""func child(t *items.TreeItem, it items.Item, rev bool) *items.TreeItem {
	if n := items.LocateChildTreeItem(t.Childs, it, rev); n != nil {
		return n
	}
	n := &items.TreeItem{Item: it, Reverse: rev}
	t.Childs = append(t.Childs, n)
	return n
}

// GlobTree is""")],"REF helper")
