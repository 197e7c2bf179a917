GI="gtags/items.go"
gi=open("/repo/"+GI).read()
FOA=gi[gi.index("func (t *TaggedItem) findOrAppend"):gi.index("// find search by key from start")]
BS=FOA[FOA.index("	low := 0\n"):FOA.index("	if high == len(t.Items) {\n")]
INS=FOA[FOA.index("	if high == len(t.Items) {\n"):]
r("insert helper",(GI,INS,"""	return t.insert(high, key)
}

// insert puts a new key at pos
func (t *TaggedItem) insert(pos int, key string) int {
"""+INS.replace("high","pos")))
r("insert in place",(GI,INS,"""	t.Items = append(t.Items, TaggedItems{})
	copy(t.Items[high+1:], t.Items[high:])
	t.Items[high] = TaggedItems{Key: key}
	return high
}

"""))
r("insert half open",(GI,BS+INS,"""	low := 0
	if named {
		low = 1
	}
	high := len(t.Items)
	for low < high {
		mid := (low + high) / 2
		if t.Items[mid].Key < key {
			low = mid + 1
		} else {
			high = mid
		}
	}
	if low < len(t.Items) && t.Items[low].Key == key {
		return low
	}
	newItems := make([]TaggedItems, 0, len(t.Items)+4)
	newItems = append(newItems, t.Items[:low]...)
	newItems = append(newItems, TaggedItems{Key: key})
	t.Items = append(newItems, t.Items[low:]...)
	return low
}

"""))
r("insert half open uint",(GI,BS+INS,"""	low := 0
	if named {
		low = 1
	}
	high := len(t.Items)
	for low < high {
		mid := int(uint(low+high) >> 1)
		if t.Items[mid].Key < key {
			low = mid + 1
		} else {
			high = mid
		}
	}
	if low < len(t.Items) && t.Items[low].Key == key {
		return low
	}
	t.Items = append(t.Items, TaggedItems{})
	copy(t.Items[low+1:], t.Items[low:])
	t.Items[low] = TaggedItems{Key: key}
	return low
}

"""))
r("insert linear",(GI,BS+INS,"""	low := 0
	if named {
		low = 1
	}
	for low < len(t.Items) && t.Items[low].Key < key {
		low++
	}
	if low < len(t.Items) && t.Items[low].Key == key {
		return low
	}
	newItems := make([]TaggedItems, 0, len(t.Items)+4)
	newItems = append(newItems, t.Items[:low]...)
	newItems = append(newItems, TaggedItems{Key: key})
	t.Items = append(newItems, t.Items[low:]...)
	return low
}

"""))
r("insert switch",(GI,BS,"""	low := 0
	if named {
		low = 1
	}
	if low == len(t.Items) {
		t.Items = append(t.Items, TaggedItems{Key: key})
		return low
	}
	high := len(t.Items) - 1
loop:
	for low <= high {
		mid := low + (high-low)/2
		switch cur := t.Items[mid].Key; {
		case cur == key:
			return mid
		case cur > key:
			if low == mid {
				high = low
				break loop
			}
			high = mid - 1
		case low == high:
			high = mid + 1
			break loop
		default:
			low = mid + 1
		}
	}
"""))
r("insert name helper",(GI,"""		newItems := make([]TaggedItems, 1, len(t.Items)+4)
		newItems[0].Key = key
		t.Items = append(newItems, t.Items...)
		return 0
	}
	low""","""		t.prepend(key)
		return 0
	}
	low"""),(GI,"""	if high <= 0 {
		newItems := make([]TaggedItems, 1, len(t.Items)+4)
		newItems[0].Key = key
		t.Items = append(newItems, t.Items...)
		return 0
	}""","""	if high <= 0 {
		t.prepend(key)
		return 0
	}"""),(GI,"// find search by key from start","""func (t *TaggedItem) prepend(key string) {
	newItems := make([]TaggedItems, 1, len(t.Items)+4)
	newItems[0].Key = key
	t.Items = append(newItems, t.Items...)
}

// find search by key from start"""))
r("insert empty literal",(GI,"		t.Items = make([]TaggedItems, 1, len(t.Items)+4)\n		t.Items[0].Key = key\n","		t.Items = []TaggedItems{{Key: key}}\n"))
r("insert empty append",(GI,"		t.Items = make([]TaggedItems, 1, len(t.Items)+4)\n		t.Items[0].Key = key\n","		t.Items = append(t.Items, TaggedItems{Key: key})\n"))
r("insert compare swapped",(GI,"		if key < t.Items[mid].Key {\n			if low == mid {\n				// break, we","		if t.Items[mid].Key > key {\n			if low == mid {\n				// break, we"))
r("insert strings.Compare",(GI,"""		if key == t.Items[mid].Key {
			return mid
		}
		if key < t.Items[mid].Key {
			if low == mid {
				// break, we""","""		cmp := strings.Compare(key, t.Items[mid].Key)
		if cmp == 0 {
			return mid
		}
		if cmp < 0 {
			if low == mid {
				// break, we"""),(GI,"import (\n","import (\n\t\"strings\"\n\n"))
r("insert while true",(GI,"	for low <= high {\n		mid := (low + high) / 2\n		// TODO","	for {\n		mid := (low + high) / 2\n		// TODO"))
r("insert locals",(GI,BS,BS.replace("t.Items","list").replace("list = append(list,","t.Items = append(t.Items,").replace("	low := 0\n","	list := t.Items\n	low := 0\n",1)))
r("insert search helper",(GI,BS+INS,"""	pos, ok := t.search(key, named)
	if ok {
		return pos
	}
	if pos == len(t.Items) {
		t.Items = append(t.Items, TaggedItems{Key: key})
		return pos
	}
	newItems := make([]TaggedItems, 0, len(t.Items)+4)
	newItems = append(newItems, t.Items[:pos]...)
	newItems = append(newItems, TaggedItems{Key: key})
	t.Items = append(newItems, t.Items[pos:]...)
	return pos
}

func (t *TaggedItem) search(key string, named bool) (int, bool) {
	low, high := 0, len(t.Items)-1
	if named {
		low++
	}
	for low <= high {
		mid := (low + high) / 2
		if t.Items[mid].Key == key {
			return mid, true
		}
		if key < t.Items[mid].Key {
			high = mid - 1
		} else {
			low = mid + 1
		}
	}
	return low, false
}

"""))
