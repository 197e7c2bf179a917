import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C16"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
GI="gtags/items.go"
m([(GI,"	if named {\n		low = 1\n	}\n	if low == len","	if low == len")],"V name not kept first")
m([(GI,"	if high == len(t.Items) {\n		t.Items = append(t.Items, TaggedItems{Key: key})\n		return high\n	}","	if high >= len(t.Items)-1 {\n		t.Items = append(t.Items, TaggedItems{Key: key})\n		return len(t.Items) - 1\n	}")],"V appended before last")
m([(GI,"				high = low\n				break\n			}\n			high = mid - 1\n		} else if low == high {\n			// break, we are not find, shit insert index","				high = low + 1\n				break\n			}\n			high = mid - 1\n		} else if low == high {\n			// break, we are not find, shit insert index")],"V insert one late")
m([(GI,"			// break, we are not find, shit insert index\n			high = mid + 1","			// break, we are not find, shit insert index\n			high = mid")],"V insert one early")
m([(GI,"	newItems = append(newItems, t.Items[:high]...)\n	newItems = append(newItems, TaggedItems{Key: key})","	newItems = append(newItems, TaggedItems{Key: key})\n	newItems = append(newItems, t.Items[:high]...)")],"V order of parts")
m([(GI,"		// [\"a\", ...]\n		newItems := make([]TaggedItems, 1, len(t.Items)+4)\n		newItems[0].Key = key\n		t.Items = append(newItems, t.Items...)\n		return 0","		t.Items = append(t.Items, TaggedItems{Key: key})\n		return len(t.Items) - 1")],"V name at end")
m([(GI,"		if key < t.Items[mid].Key {\n			if low == mid {\n				// break, we","		if len(key) < len(t.Items[mid].Key) || key < t.Items[mid].Key {\n			if low == mid {\n				// break, we")],"V length first")
m([(GI,"		// only __name__, it must stay first\n		t.Items = append(t.Items, TaggedItems{Key: key})\n		return low","		newItems := []TaggedItems{{Key: key}}\n		t.Items = append(newItems, t.Items...)\n		return 0")],"V before only name")
m([(GI,"	high := len(t.Items) - 1\n	for low <= high {\n		mid := (low + high) / 2\n		// TODO","	high := len(t.Items) - 1\n	if high-low > 3 && key > t.Items[high-1].Key {\n		low = high\n	}\n	for low <= high {\n		mid := (low + high) / 2\n		// TODO")],"REF start at last when behind last but one")
m([(GI,"	high := len(t.Items) - 1\n	for low <= high {\n		mid := (low + high) / 2\n		// TODO","	high := len(t.Items) - 1\n	if high-low > 3 && key > t.Items[high-2].Key {\n		low = high\n	}\n	for low <= high {\n		mid := (low + high) / 2\n		// TODO")],"V start at last when behind last but two")
m([(GI,"	named := hasName(t.Items)\n	if key == \"__name__\" {\n		if named {\n			return 0\n		}\n		// [","	named := hasName(t.Items)\n	if key == \"name\" {\n		if named {\n			return 0\n		}\n		// [")],"V name literal")
m([(GI,"			high = mid - 1\n		} else if low == high {\n			// break, we are not find, shit","			high = mid\n		} else if low == high {\n			// break, we are not find, shit")],"REF high=mid")
