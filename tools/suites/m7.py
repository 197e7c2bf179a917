import sys; sys.path.insert(0,'/tmp')
from mut import mut
G="gglob/gtree.go"; T="gtags/items.go"; Q="gtags/tree.go"
R=sys.argv[1] if len(sys.argv)>1 else "C16"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
m([(G,"	if part == \"\" {\n		return\n	}\n","")],"S no empty part")
m([(G,"if child, ok := item.ChildsMap[part]; ok {\n			if path == \"\" {","if child, ok := item.ChildsMap[part]; ok {\n			if path == \"\" || len(child.Childs) == 0 && len(child.ChildsMap) == 0 {")],"S report leaf early")
m([(G,"if item.Childs[i].Item.Match(part) {","if item.Childs[i].Item.MinLen == 0 || item.Childs[i].Item.Match(part) {")],"S minlen 0 matches")
m([(G,"if item.Childs[i].Item.Match(part) {","if item.Childs[len(item.Childs)-1-i].Item.Match(part) {")],"S other child")
m([(G,"				if n := item.Childs[i].MatchItems(path, store); n > 0 {","				if n := item.Childs[i].MatchItems(strings.TrimPrefix(path, \".\"), store); n > 0 {")],"S trim")
m([(G,"item.Childs[i].MatchItemsByParts(parts[1:], store)","item.Childs[i].MatchItemsByParts(parts, store)")],"S parts")
m([(G,"child.MatchItemsByParts(parts[1:], store)","child.MatchItemsByParts(parts[2:], store)")],"S parts 2")
m([(G,"if len(parts) == 1 {\n					if child","if len(parts) <= 2 {\n					if child")],"S len<=2") if 0 else None
m([(G,"			if len(parts) == 1 {","			if len(parts) <= 2 {")],"S len<=2")
m([(G,"if child, ok := item.ChildsMap[parts[0]]; ok {","if child, ok := item.ChildsMap[parts[len(parts)-1]]; ok {")],"S last key")
m([(G,"	path, partsCount := PathLevel(path)\n	if rootItem","	_, partsCount := PathLevel(path)\n	if rootItem")],"S root untrimmed")
m([(G,"gtree.Root[len(parts)]","gtree.Root[len(parts)-1]")],"S root len-1")
m([(T,"				if !child.Term.Match(v) {\n					continue\n				}\n","",1)],"S notmatched unchecked")
m([(T,"if !child.Term.Match(tags[n].Value) {","if !child.Term.Match(tags[matchPos].Value) {")],"ok: matchPos (equal)")
m([(T,"if !child.Term.Match(tags[n].Value) {","if !child.Term.Match(tags[0].Value) {")],"S tags0")
m([(T,"		v, ok := tags[item.Items[i].Key]\n		if ok {","		v := tags[item.Items[i].Key]\n		if v != \"\" {")],"S no ok")
m([(T,"child.MatchByTags(tags, store)","child.MatchByTags(tags[1:], store)",0)],"S tags 1")
m([(T,"child.MatchByTags(tags, store)","child.MatchByTags(tags[n:], store)",1)],"S tags n:")
m([(T,"			// tags not exist, check not matched\n			for _, child := range item.Items[i].NotMatched {","			// tags not exist, check not matched\n			for _, child := range item.Items[i].Matched {")],"S matched for absent")
m([(T,"			high = search - 1\n		} else {\n			low = search + 1\n		}\n		if low > high","			high = search - 1\n		} else {\n			low = search + 2\n		}\n		if low > high",1)],"S low+2")
m([(T,"			high = search - 1\n		} else {\n			low = search + 1\n		}\n		if low > high","			high = search - 2\n		} else {\n			low = search + 1\n		}\n		if low > high",1)],"S high-2")
m([(T,"		if tags[start].Key > key {\n			high = start - 1","		if tags[start].Key > key {\n			high = start - 2")],"S start-2")
m([(T,"		if tags[start].Key > key {\n			high = start - 1\n		} else {\n			low = start\n		}","		low = start + 1")],"S start+1 forward only")
m([(T,"	high := len(tags) - 1","	high := len(tags) - 2")],"S high init")
m([(T,"			if key == tags[low].Key {\n				return low\n			}\n			break","			break")],"S low==high unchecked")
m([(T,"	named := tags[0].Key == \"__name__\"\n	if key == \"__name__\" {\n		if named {\n			return 0\n		}\n		return -1\n	}","	named := tags[0].Key == \"__name__\"\n	if key == \"__name__\" {\n		return 0\n	}")],"S name 0")
m([(T,"	if named {\n		low = 1\n	}\n	high := len(tags) - 1","	if named || len(tags) > 1 {\n		low = 1\n	}\n	high := len(tags) - 1")],"S low=1")
m([(T,"		if key < tags[search].Key {","		if key > tags[search].Key {")],"S inverted")
m([(T,"		search = low + 4","		low = low + 4\n		search = low",1)],"S low+4")
m([(T,"	for {\n		// TODO: use strings.Compare or faster analog ?\n		if key == tags[search].Key {\n			return search\n		}\n		if key < tags[search].Key {\n			high = search - 1\n		} else {\n			low = search + 1\n		}\n		if low > high {\n			break\n		}\n		if low == high {\n			if key == tags[low].Key {\n				return low\n			}\n			break\n		}\n		search = (low + high) / 2\n	}\n","	for low <= high {\n		k := tags[search].Key\n		switch {\n		case key == k:\n			return search\n		case key < k:\n			high = search - 1\n		default:\n			low = search + 1\n		}\n		search = (low + high) / 2\n	}\n")],"ok: find for low<=high")
m([(T,"	for {\n		// TODO: use strings.Compare or faster analog ?\n		if key == tags[search].Key {\n			return search\n		}\n		if key < tags[search].Key {\n			high = search - 1\n		} else {\n			low = search + 1\n		}\n		if low > high {\n			break\n		}\n		if low == high {\n			if key == tags[low].Key {\n				return low\n			}\n			break\n		}\n		search = (low + high) / 2\n	}\n","	for ; low <= high; low++ {\n		if tags[low].Key == key {\n			return low\n		}\n	}\n")],"ok: linear")
m([(G,"				if item.Childs[i].Terminate {\n					store.Store(item.Childs[i].Query, item.Childs[i].Index)\n					matched++\n				}\n			} else {\n				if n := item.Childs[i].MatchItems(path, store); n > 0 {\n					matched += n\n				}\n			}\n","				matched += item.Childs[i].report(store)\n			} else {\n				matched += item.Childs[i].MatchItems(path, store)\n			}\n"),(G,"func LocateChild","func (item *GTreeItem) report(store items.Store) int {\n	if item.Terminate {\n		store.Store(item.Query, item.Index)\n		return 1\n	}\n	return 0\n}\n\nfunc LocateChild")],"ok: report helper")
m([(G,"		if item.Childs[i].Item.Match(part) {\n			if path == \"\" {\n				if item.Childs[i].Terminate {\n					store.Store(item.Childs[i].Query, item.Childs[i].Index)\n					matched++\n				}\n			} else {\n				if n := item.Childs[i].MatchItems(path, store); n > 0 {\n					matched += n\n				}\n			}\n		}\n","		if item.Childs[i].Item.Match(part) {\n			matched += item.Childs[i].visit(path, store)\n		}\n"),(G,"func LocateChild","func (item *GTreeItem) visit(path string, store items.Store) (matched int) {\n	if path != \"\" {\n		return item.MatchItems(path, store)\n	}\n	if item.Terminate {\n		store.Store(item.Query, item.Index)\n		matched++\n	}\n	return\n}\n\nfunc LocateChild")],"ok: visit helper")
m([(G,"	part, path, _ = strings.Cut(path, \".\")\n	if part == \"\" {\n		return\n	}\n	if len(item.ChildsMap)","	if n := strings.IndexByte(path, '.'); n < 0 {\n		part, path = path, \"\"\n	} else {\n		part, path = path[:n], path[n+1:]\n	}\n	if part == \"\" {\n		return\n	}\n	if len(item.ChildsMap)")],"ok: indexbyte")
m([(T,"			for _, child := range item.Items[i].Matched {\n				if !child.Term.Match(v) {\n					continue\n				}\n				if child.Terminate {\n					store.Store(child.Query, child.Index)\n					matched++\n				}\n				if n := child.MatchByTagsMap(tags, store); n > 0 {\n					matched += n\n				}\n			}\n			for _, child := range item.Items[i].NotMatched {\n				if !child.Term.Match(v) {\n					continue\n				}\n				if child.Terminate {\n					store.Store(child.Query, child.Index)\n					matched++\n				}\n				if n := child.MatchByTagsMap(tags, store); n > 0 {\n					matched += n\n				}\n			}\n","			matched += matchChilds(item.Items[i].Matched, v, tags, store)\n			matched += matchChilds(item.Items[i].NotMatched, v, tags, store)\n"),(T,"func hasName","func matchChilds(childs []*TaggedItem, v string, tags map[string]string, store items.Store) (matched int) {\n	for _, child := range childs {\n		if !child.Term.Match(v) {\n			continue\n		}\n		if child.Terminate {\n			store.Store(child.Query, child.Index)\n			matched++\n		}\n		matched += child.MatchByTagsMap(tags, store)\n	}\n	return\n}\n\nfunc hasName")],"ok: childs helper")
