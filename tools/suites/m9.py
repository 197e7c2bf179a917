import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C18"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
I="pkg/items/"; U="pkg/utils/"
m([(I+"stringlist.go","item.MinSize != v.MinSize || item.MaxSize","item.MaxSize")],"S list min ignored")
m([(I+"stringlist.go","		return utils.SliceEqual(item.Vals, v.Vals)","		return len(item.Vals) == len(v.Vals)")],"S list by length")
m([(I+"stringlist.go","		return utils.SliceEqual(item.Vals, v.Vals)","		return item.FirstASCII == v.FirstASCII || utils.SliceEqual(item.Vals, v.Vals)")],"S list by first")
m([(U+"runesranges.go","	return SliceEqual(rs.UnicodeRanges, a.UnicodeRanges)","	return len(rs.UnicodeRanges) == len(a.UnicodeRanges)")],"S ranges by length")
m([(U+"runesranges.go","	return SliceEqual(rs.UnicodeRanges, a.UnicodeRanges)","	return true")],"S ranges ignored")
m([(U+"runesranges.go","	if a.ASCII != rs.ASCII {\n		return false\n	}\n","")],"S ascii ignored")
m([(U+"runesranges.go","	if a.ASCII != rs.ASCII {","	if a.ASCII[0] != rs.ASCII[0] {")],"S ascii first word")
m([(U+"runesranges.go","	if a.ASCII != rs.ASCII {","	if a.ASCII != rs.ASCII && len(a.UnicodeRanges) == 0 {")],"S ascii only w/o unicode")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := 1; i < len(a); i++ {\n		if a[i] != b[i]")],"S from 1")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := 0; i < len(a)-1; i++ {\n		if a[i] != b[i]")],"S without last")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := 0; i < len(a); i += 2 {\n		if a[i] != b[i]")],"S every second")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i] {\n			return false\n		}\n	}\n	return true","	for i := 0; i < len(a); i++ {\n		if a[i] == b[i] {\n			return true\n		}\n	}\n	return len(a) == 0")],"S any equal")
m([(U+"utils.go","	if len(a) != len(b) {\n		return false\n	}\n	for i := 0; i < len(a)","	for i := 0; i < len(a) && i < len(b)")],"S prefix equal")
m([(I+"items.go","	if len(a) != len(b) {\n		return false\n	}\n	for i := 0; i < len(a)","	if len(a) > len(b) {\n		return false\n	}\n	for i := 0; i < len(a)")],"S items prefix equal")
m([(I+"items.go","		if !a[i].Equal(b[i]) {","		if !a[i].Equal(b[0]) {")],"S items with first")
m([(I+"items.go","		if !a[i].Equal(b[i]) {","		if !a[i].Equal(a[i]) {")],"S items with itself")
m([(I+"items.go","		if !a[i].Equal(b[i]) {","		if a[i].MinLen() != b[i].MinLen() {")],"S items by len")
m([(I+"chain.go","		return ItemsEqual(item.Items, v.Items)","		return item.MinSize == v.MinSize && item.MaxSize == v.MaxSize")],"S chain by size")
m([(I+"chain.go","		return ItemsEqual(item.Items, v.Items)","		return ItemsEqual(item.Items, v.Items) || item.String() == v.String()")],"S chain by text")
m([(I+"group.go","				if !item.Vals[i].Equal(v.Vals[i]) {\n					return false\n				}","				if item.Vals[i].Equal(v.Vals[i]) {\n					return true\n				}")],"S group any equal")
m([(I+"group.go","		if len(item.Vals) == len(v.Vals) {","		if len(item.Vals) <= len(v.Vals) {")],"S group prefix")
m([(I+"string.go","item.S == v.S","len(item.S) == len(v.S)")],"S string by length") 
m([(I+"string.go","item.S == v.S","strings.EqualFold(item.S, v.S)")],"S string fold") 
m([(I+"rune.go","	if v, ok := a.(Rune); ok {","	if v, ok := a.(Byte); ok {\n		return rune(item) == rune(v)\n	}\n	if v, ok := a.(Rune); ok {")],"S rune equal to byte")
# same behaviour
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := range a {\n		if b[i] != a[i]")],"ok range")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := len(a) - 1; i >= 0; i-- {\n		if a[i] != b[i]")],"ok backwards")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i] {\n			return false\n		}\n	}\n	return true","	i := 0\n	for i < len(a) && a[i] == b[i] {\n		i++\n	}\n	return i == len(a)")],"ok while")
m([(I+"items.go","	for i := 0; i < len(a); i++ {\n		if !a[i].Equal(b[i]) {","	for i, x := range a {\n		if !b[i].Equal(x) {")],"ok items range sym")
m([(I+"group.go","		if len(item.Vals) == len(v.Vals) {\n			for i := 0; i < len(item.Vals); i++ {\n				if !item.Vals[i].Equal(v.Vals[i]) {\n					return false\n				}\n			}\n			return true\n		}\n","		return ItemsEqual(item.Vals, v.Vals)")],"ok group by helper")
m([(I+"group.go","	if v, ok := a.(*Group); ok {\n		if len(item.Vals) == len(v.Vals) {","	v, ok := a.(*Group)\n	if !ok {\n		return false\n	}\n	{\n		if len(item.Vals) == len(v.Vals) {")],"ok group early return")
m([(I+"stringlist.go","		if item.MinSize != v.MinSize || item.MaxSize != v.MaxSize {\n			return false\n		}\n		return utils","		return item.MinSize == v.MinSize && item.MaxSize == v.MaxSize && utils")],"ok list one expr")
m([(U+"runesranges.go","	if rs.MinSize != a.MinSize || rs.MaxSize != a.MaxSize {\n		return false\n	}\n","")],"ok derived sizes")
m([(I+"string.go","	if v, ok := a.(*String); ok {","	if item == a {\n		return true\n	}\n	if v, ok := a.(*String); ok {")],"ok identity")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := len(a) - 2; i >= 0; i-- {\n		if a[i] != b[i]")],"S backwards without last")
m([(U+"utils.go","	for i := 0; i < len(a); i++ {\n		if a[i] != b[i]","	for i := len(a) - 1; i > 0; i-- {\n		if a[i] != b[i]")],"S backwards without first")
