import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C25"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
G="glob/glob.go"; GG="gglob/gglob.go"; C="pkg/items/chain.go"; GR="pkg/items/group.go"; SL="pkg/items/stringlist.go"; RR="pkg/utils/runesranges.go"; U="pkg/items/utils.go"; I="pkg/items/items.go"; W="pkg/items/wildcard.go"; S="pkg/items/string.go"; B="pkg/items/byte.go"; RN="pkg/items/rune.go"; PL="gglob/utils.go"
# glob.Parse loop
m([(G,"							g.Prefix += v.S\n","							g.Prefix = v.S + g.Prefix\n")],"V prefix order")
m([(G,"							g.Prefix += v.S\n","							g.Prefix = v.S\n")],"V prefix lost")
m([(G,"						if g.Prefix == \"\" {\n							g.Prefix = v.S\n						} else {\n							g.Prefix += v.S\n						}","						g.Prefix += v.S")],"REF prefix always +=")
m([(G,"							vv.Add(v.S)\n","							vv.Prepend(v.S)\n")],"V string prepended")
m([(G,"							vv.Add(v.S)\n","							v.Prepend(vv.S)\n							inners[last] = v\n")],"REF string prepended to new")
m([(G,"							v.PrependRune(rune(vv))\n							inners[last] = v","							v.AddRune(rune(vv))\n							inners[last] = v")],"V rune after")
m([(G,"							v.PrependRune(rune(vv))\n							inners[last] = v","							v.PrependRune(rune(vv))")],"V merged but not stored")
m([(G,"							inners[last] = vv.AppendRune(c)\n						case items.Byte:\n							inners[last] = vv.AppendRune(c)","							inners[last] = vv.AppendRune(c)\n						case items.Byte:\n							inners[last] = vv.AppendByte(byte(c))")],"V? rune as byte")
m([(G,"							vv += v\n							inners[last] = vv\n						case items.Star:\n							vv += items.Star(v)","							vv = v\n							inners[last] = vv\n						case items.Star:\n							vv += items.Star(v)")],"V any count")
m([(G,"							vv += items.Star(v)\n							inners[last] = vv\n						default:\n							inners = append(inners, inner)\n						}\n					}\n				case items.Star:","							inners[last] = vv\n						default:\n							inners = append(inners, inner)\n						}\n					}\n				case items.Star:")],"V star+any lost")
m([(G,"							v += items.Star(vv)\n							inners[last] = v\n","							vv += items.Any(v)\n							inners[last] = vv\n")],"V any+star is any")
m([(G,"				if inner == nil {\n					continue\n				}","				if inner == nil || inner.MaxLen() == 0 {\n					continue\n				}")],"V? skip empty maxlen")
m([(G,"				default:\n					inners = append(inners, inner)\n				}\n			}\n			if len(inners) > 1","				default:\n					if last == -1 || !inners[last].Equal(inner) {\n						inners = append(inners, inner)\n					}\n				}\n			}\n			if len(inners) > 1")],"V equal item dropped")
m([(G,"				default:\n					inners = append(inners, inner)\n				}\n			}\n			if len(inners) > 1","				default:\n					inners = append([]items.Item{inner}, inners...)\n				}\n			}\n			if len(inners) > 1")],"V inserted in front")
m([(G,"			for glob != \"\" {\n				inner, glob","			for len(glob) > 1 {\n				inner, glob")],"V ends early")
m([(G,"			for glob != \"\" {\n				inner, glob","			for len(glob) > 0 {\n				inner, glob")],"REF len>0")
m([(G,"				if err != nil {\n					return\n				}\n				if inner == nil {","				if err != nil && inner != nil {\n					return\n				}\n				if inner == nil {")],"V error swallowed")
m([(G,"					g.Suffix = string(vv) + g.Suffix\n					inners = inners[:last]\n				case items.Byte:","					g.Suffix = g.Suffix + string(vv)\n					inners = inners[:last]\n				case items.Byte:")],"V suffix order")
m([(G,"						g.Suffix = string(vv.S) + g.Suffix\n					}\n					inners = inners[:last]","						g.Suffix = string(vv.S) + g.Suffix\n					}")],"V suffix and item")
m([(G,"					if g.Suffix == \"\" {\n						g.Suffix = string(vv.S)\n					} else {\n						g.Suffix = string(vv.S) + g.Suffix\n					}\n					inners = inners[:last]","					g.Suffix = vv.S + g.Suffix\n					inners = inners[:last]")],"REF suffix simple")
m([(G,"				case *items.String:\n					if g.Suffix == \"\" {\n						g.Suffix = string(vv.S)\n					} else {\n						g.Suffix = string(vv.S) + g.Suffix\n					}\n					inners = inners[:last]\n","				case *items.String:\n					if g.Suffix == \"\" {\n						g.Suffix = string(vv.S)\n					}\n					inners = inners[:last]\n")],"V suffix of string lost when there is one")
m([(G,"					if g.Prefix == \"\" {\n					g.Node = g.Suffix\n","")],"skip") if False else None
m([(G,"				if g.Prefix == \"\" {\n					g.Node = g.Suffix\n				} else {\n					g.Node = g.Prefix + g.Suffix\n					g.Prefix = \"\"\n				}","				g.Node = g.Prefix + g.Suffix\n				g.Prefix = \"\"")],"REF node sum")
m([(G,"					g.Node = g.Prefix + g.Suffix\n","					g.Node = g.Suffix + g.Prefix\n")],"V node order")
m([(G,"			buf.WriteString(g.Suffix)\n			g.Node","			g.Node")],"V node without suffix")
m([(G,"			buf.WriteString(g.Prefix)\n			for","			for")],"V node without prefix")
m([(G,"			for i := 0; i < len(g.Items); i++ {\n				g.Items[i].WriteString(&buf)","			for i := len(g.Items) - 1; i >= 0; i-- {\n				g.Items[i].WriteString(&buf)")],"V node items reversed")
m([(G,"			for i := 0; i < len(g.Items); i++ {\n				g.Items[i].WriteString(&buf)","			for _, item := range g.Items {\n				item.WriteString(&buf)")],"REF node range")
m([(G,"			for i := 0; i < len(g.Items); i++ {\n				g.Items[i].WriteString(&buf)","			for i := 0; i < len(g.Items); i++ {\n				if i > 0 && g.Items[i].Equal(g.Items[i-1]) {\n					continue\n				}\n				g.Items[i].WriteString(&buf)")],"V node repeated item left out")
m([(G,"			g.Prefix = glob[:pos] // prefix\n","			g.Prefix = strings.TrimRight(glob[:pos], \"-\") // prefix\n")],"V prefix trimmed")
m([(G,"			g.Suffix = glob[end:]\n			glob = glob[:end]","			g.Suffix = glob[end:]\n			glob = strings.TrimSpace(glob[:end])")],"V middle trimmed")
m([(G,"		if len(g.Items) == 1 {\n			if v, ok","		if len(g.Items) > 0 {\n			if v, ok")],"V vals of first")
m([(G,"			g.Items = []items.Item{items.Any(1)}","			g.Items = []items.Item{items.Any(2)}")],"V any 2")
m([(G,"		case \"?\":\n			g.Items = []items.Item{items.Any(1)}","		case \"?\", \"??\":\n			g.Items = []items.Item{items.Any(1)}")],"V ?? is one")
m([(G,"	if pos == -1 {\n		g.Node = glob","	if pos == -1 {\n		g.Node = strings.ToLower(glob)")],"V node lowered")
m([(G,"	pos := items.IndexWildcard(glob)","	pos := strings.IndexAny(glob, \"[{*?\")")],"V? closing not seen")
m([(G,"			if len(inners) > 0 {\n				g.Items = inners","			if len(inners) > 0 && g.MinLen+g.MaxLen != 0 {\n				g.Items = inners")],"V items dropped")
m([(G,"				// try to in-place merge\n				last := len(inners) - 1\n","				// try to in-place merge\n				last := len(inners) - 1\n				if last > 62 {\n					inners[last] = inner\n					continue\n				}\n")],"V overwritten from 63")
m([(G,"			inners := make([]items.Item, 0, innerCount)","			inners := make([]items.Item, innerCount)[:0]")],"REF inners slice")
# AppendItem
m([(I,"		default:\n			items = append(items, item)\n		}\n	case Star:","		default:\n			if len(items) < 64 {\n				items = append(items, item)\n			}\n		}\n	case Star:")],"V chain any dropped at 64")
m([(I,"		case Any:\n			v += Star(vv)\n			items[last] = v","		case Any:\n			items[last] = v")],"V chain any lost before star")
m([(I,"		case Byte:\n			v.PrependByte(byte(vv))\n			items[last] = v","		case Byte:\n			v.AddByte(byte(vv))\n			items[last] = v")],"V chain byte order")
m([(I,"		case *String:\n			vv.AddByte(c)","		case *String:\n			vv.PrependByte(c)")],"V chain byte prepended")
m([(I,"		items = append(items, item)\n	}\n	return items","		items = append(items[:last], item)\n	}\n	return items")],"V chain replaced")
m([(S,"	item.S = string(b) + item.S","	item.S += string(b)")],"V PrependByte appends")
m([(B,"func (item Byte) AppendByte(b byte) *String {\n	return &String{S: string(item) + string(b)}","func (item Byte) AppendByte(b byte) *String {\n	return &String{S: string(b) + string(item)}")],"V AppendByte order")
m([(B,"func (item Byte) AppendRune(r rune) *String {\n	return &String{S: string(item) + string(r)}","func (item Byte) AppendRune(r rune) *String {\n	return &String{S: string(item) + string(byte(r))}")],"V AppendRune byte")
# NewGroup
m([(GR,"			if v == \"*\" {\n				return Star(0), nil","			if v == \"*\" || v == \"**\" {\n				return Star(0), nil")],"REF? ** is *")
m([(GR,"			if v == \"*\" {\n				return Star(0), nil","			if v[0] == '*' {\n				return Star(0), nil")],"V *x is *")
m([(GR,"				if len(chain.Items) == 1 {\n					items = append(items, chain.Items[0])\n				} else {","				if len(chain.Items) <= 2 {\n					items = append(items, chain.Items[0])\n				} else {")],"V chain of two cut")
m([(GR,"				if len(chain.Items) == 1 {\n					items = append(items, chain.Items[0])\n				} else {\n					items = append(items, chain)\n				}","				items = append(items, chain)")],"REF chain always")
m([(GR,"			items = append(items, NewString(vals[i]))","			if vals[i] != \"\" {\n				items = append(items, NewString(vals[i]))\n			}")],"V empty value dropped")
m([(GR,"	for i := 0; i < len(vals); i++ {\n		if Has","	for i := 1; i < len(vals); i++ {\n		if Has")],"V first value dropped")
m([(GR,"					if err != nil {\n						return\n					}","					if err != nil {\n						break\n					}")],"V group error breaks")
m([(GR,"				items = append(items, Any(1))","				items = append(items, Star(1))")],"V ? is star")
m([(GR,"				chain := NewChain()\n","				chain := NewChain()\n				v = strings.TrimPrefix(v, \"\\\\\")\n")],"V value trimmed")
m([(GR,"	for i := 0; i < len(vals); i++ {\n		if HasWildcard(vals[i]) {\n			v := vals[i]\n","	for _, val := range vals {\n		if HasWildcard(val) {\n			v := val\n"),(GR,"			items = append(items, NewString(vals[i]))","			items = append(items, NewString(val))")],"REF group range")
m([(GR,"	return &Group{Vals: items, M","	if len(items) == 1 {\n		return items[0], nil\n	}\n	return &Group{Vals: items, M")],"REF? group of one")
m([(GR,"	return &Group{Vals: items, M","	return &Group{Vals: items[:len(items):len(items)], M")],"REF group cap")
m([(GR,"	return &Group{Vals: items, M","	if len(items) > 1000 {\n		items = items[:1000]\n	}\n	return &Group{Vals: items, M")],"V group cut")
# NewItemList
m([(SL,"			vals = vals[1:]\n","			vals = vals[2:]\n")],"V list two dropped")
m([(SL,"			if !firstASCII.Add(vals[i][0]) {","			if !firstASCII.Add(vals[i][l-1]) {")],"V last byte")
m([(SL,"			if !firstASCII.Add(vals[i][0]) {\n				asciiStarted = false","			if !firstASCII.Add(vals[i][0]) {\n				asciiStarted = i > 0")],"V ascii started again")
m([(SL,"				asciiStarted = false\n			}\n			if Has","				asciiStarted = false\n				break\n			}\n			if Has")],"V loop breaks before wildcard")
m([(SL,"		l := len(vals[i])\n","		l := len(vals[i])\n		if i > 0 && l == len(vals[i-1]) && l == maxLen {\n			continue\n		}\n")],"V value skipped")
m([(SL,"	if len(vals) == 1 && !HasWildcard(vals[0]) {","	if len(vals) == 1 {")],"V one with wildcards literal")
m([(SL,"		if n == len(vals[0]) && c != utf8.RuneError {\n			if c <= 127","		if n > 0 && c != utf8.RuneError {\n			if c <= 127")],"V first char only")
m([(SL,"		if n == len(vals[0]) && c != utf8.RuneError {","		if n == len(vals[0]) {")],"V rune error")
m([(SL,"			if c <= 127 {\n				return Byte(c), nil","			if c <= 255 {\n				return Byte(c), nil")],"V byte 255")
m([(SL,"			item = &StringList{\n				Vals: vals, MinSize","			item = &StringList{\n				Vals: removeDuplicated(vals), MinSize")],"REF? dups removed again")
m([(SL,"		if minLen == 0 {\n","		if minLen == 0 && len(vals) > 1 {\n")],"V? empty kept")
m([(SL,"	if hasStar {\n","	if hasStar && minLen > 0 {\n")],"V star with empty as list")
# ListExpand
m([(SL,"		s = s[1:last]\n		if s","		s = strings.Trim(s, \"{}\")\n		if s")],"V? trim braces")
m([(SL,"			list = removeDuplicated(list)","			list = removeDuplicated(list[:len(list):len(list)])")],"REF cap")
m([(SL,"			list = removeDuplicated(list)","			list = removeDuplicated(list)[:1]")],"V one value")
m([(SL,"		if i < n-1 && a[i] == a[i+1] {","		if i < n-1 && strings.HasPrefix(a[i+1], a[i]) {")],"V prefix dropped")
m([(SL,"		if i < n-1 && a[i] == a[i+1] {","		if i < n-1 && strings.EqualFold(a[i], a[i+1]) {")],"V case")
m([(SL,"		if i < n-1 && a[i] == a[i+1] {","		if i < n-1 && len(a[i]) == len(a[i+1]) && a[i] >= a[i+1] {")],"V? >= (sorted: same)")
m([(SL,"		a[j] = a[i]\n		j++","		a[j] = a[i]\n		if i > 0 {\n			j++\n		}")],"V overwritten")
m([(SL,"	for ; j > i; j-- {","	for ; j > 0; j-- {")],"V trim past")
m([(SL,"		if a[j-1] != a[j] {\n			break","		if !strings.HasPrefix(a[j], a[j-1]) {\n			break")],"V trim prefix")
m([(SL,"	a = a[i : j+1]","	a = a[i:j]")],"V last cut")
m([(SL,"	// try to truncate from start\n	n := len(a)\n	i := 0\n	for ; i < n-1; i++ {\n		if a[i] != a[i+1] {\n			break\n		}\n	}\n	j := n - 1\n	for ; j > i; j-- {\n		if a[j-1] != a[j] {\n			break\n		}\n	}\n	a = a[i : j+1]\n	n = len(a)\n","	n := len(a)\n"),(SL,"	j = 0\n\n	for i = 0; i < n","	j := 0\n\n	for i := 0; i < n")],"REF no trims")
m([(SL,"	for i = 0; i < n; i++ {\n		//  If the current element is equal to the next element, then skip the current element because it's a duplicate.\n		if i < n-1 && a[i] == a[i+1] {\n			continue\n		}\n\n		a[j] = a[i]\n		j++\n	}\n\n	return a[:j]","	out := make([]string, 0, n)\n	for _, v := range a {\n		if len(out) > 0 && out[len(out)-1] == v {\n			continue\n		}\n		out = append(out, v)\n	}\n	return out")],"REF append filter")
m([(SL,"	for i = 0; i < n; i++ {\n		//  If the current element is equal to the next element, then skip the current element because it's a duplicate.\n		if i < n-1 && a[i] == a[i+1] {\n			continue\n		}\n\n		a[j] = a[i]\n		j++\n	}\n\n	return a[:j]","	for i = 0; i < n; i++ {\n		if j > 0 && a[i] == a[j-1] {\n			continue\n		}\n		a[j] = a[i]\n		j++\n	}\n	return a[:j]")],"REF j-1 filter")
m([(SL,"		list = strings.Split(s, \",\")","		list = strings.Fields(strings.ReplaceAll(s, \",\", \" \"))")],"V fields")
m([(SL,"		list = strings.Split(s, \",\")","		list = strings.SplitN(s, \",\", 1024)")],"V splitn")
# NextWildcardItem
m([(W,"		if idx := strings.Index(s, \"]\"); idx != -1 {","		if idx := strings.LastIndex(s, \"]\"); idx != -1 {")],"V last ]")
m([(W,"		if idx := strings.Index(s, \"}\"); idx != -1 {","		if idx := strings.LastIndex(s, \"}\"); idx != -1 {")],"V last }")
m([(W,"		if idx := strings.Index(s, \"]\"); idx != -1 {\n			idx++","		if idx := strings.IndexByte(s, ']'); idx >= 0 {\n			idx++")],"REF IndexByte")
m([(W,"			if c != '*' {","			if c != '*' && c != '?' {")],"V star eats ?")
m([(W,"				next = s[i:]\n				break\n			}\n		}\n		return Star(0), next, nil","				next = s[i+1:]\n				break\n			}\n		}\n		return Star(0), next, nil")],"V star eats one more")
m([(W,"		var next string\n		for i, c := range s {\n			if c != '*' {\n				next = s[i:]\n				break\n			}\n		}\n		return Star(0), next, nil","		return Star(0), strings.TrimLeft(s, \"*\"), nil")],"REF trimleft")
m([(W,"		var next string\n		for i, c := range s {\n			if c != '*' {\n				next = s[i:]\n				break\n			}\n		}\n		return Star(0), next, nil","		i := 1\n		for i < len(s) && s[i] == '*' {\n			i++\n		}\n		return Star(0), s[i:], nil")],"REF index loop")
m([(W,"		var next string\n		for i, c := range s {\n			if c != '*' {\n				next = s[i:]\n				break\n			}\n		}\n		return Star(0), next, nil","		return Star(0), s[1:], nil")],"REF one star")
m([(W,"		return Any(1), next, nil","		return Any(1), strings.TrimLeft(next, \"?\"), nil")],"V many ? one")
m([(W,"		if n == 0 && len(runes.UnicodeRanges) == 0 {","		if n == 0 {")],"V unicode class dropped")
m([(W,"			if n == 1 {\n				return Byte(c), next, nil","			if n >= 1 {\n				return Byte(c), next, nil")],"V class first byte")
m([(W,"		if len(runes.UnicodeRanges) == 1 && n == 0 {","		if len(runes.UnicodeRanges) == 1 {")],"V class bytes dropped")
m([(W,"			if runes.UnicodeRanges[0].First == runes.UnicodeRanges[0].Last {\n				// one item optimization\n				return Rune(runes.UnicodeRanges[0].First), next, nil\n			}","			return Rune(runes.UnicodeRanges[0].First), next, nil")],"V range first")
m([(W,"		if n == len(v) && c != utf8.RuneError {","		if c != utf8.RuneError {")],"V text first char")
m([(W,"			return NewString(s), next, nil\n","			return NewString(strings.TrimSpace(s)), next, nil\n")],"V text trimmed")
m([(W,"		end := IndexWildcard(s)\n","		end := strings.IndexAny(s, \"[{*?\")\n")],"V? text with closing")
m([(W,"		v, next := utils.SplitString(s, end)\n","		v, next := s[:end], s[end:]\n"),(W,"\n	\"github.com/msaf1980/go-matcher/pkg/utils\"\n","\n	\"github.com/msaf1980/go-matcher/pkg/utils\"\n")],"REF split")
m([(W,"		if !ok {\n			return nil, s, ErrNodeMissmatch{\"list\", s}\n		}\n","		if !ok {\n			vals = []string{s}\n		}\n")],"V refused list used")
m([(W,"		if !ok {\n			return nil, s, ErrNodeMissmatch{\"rune\", s}\n		}\n","		if !ok && runes.MinSize == 0 {\n			return nil, s, ErrNodeMissmatch{\"rune\", s}\n		}\n")],"V refused class used")
m([(W,"		item, err = NewItemList(vals)\n		return\n","		item, err = NewItemList(vals)\n		if err != nil {\n			return nil, next, nil\n		}\n		return\n")],"V list error swallowed")
m([(W,"		r := &RunesRanges{RunesRanges: runes}\n","		r := &RunesRanges{RunesRanges: runes}\n		if len(r.UnicodeRanges) > 64 {\n			r.UnicodeRanges = r.UnicodeRanges[:64]\n		}\n")],"V class cut")
# gglob
m([(GG,"		gg.Parts = append(gg.Parts, g)\n","		if g.Node != \"\" {\n			gg.Parts = append(gg.Parts, g)\n		}\n")],"V part dropped")
m([(GG,"		gg.Parts = append(gg.Parts, g)\n","		if n := len(gg.Parts); n > 0 && gg.Parts[n-1].Glob == part {\n			g = gg.Parts[n-1]\n		}\n		gg.Parts = append(gg.Parts, g)\n")],"REF? same part shared")
m([(GG,"		if i > 0 {\n			buf.WriteByte('.')\n		}\n		buf.WriteString(g.Node)","		if buf.Len() > 0 {\n			buf.WriteByte('.')\n		}\n		buf.WriteString(g.Node)")],"V? dot by length")
m([(GG,"		buf.WriteString(g.Node)\n	}\n	gg","		buf.WriteString(g.Glob)\n	}\n	gg")],"V? node is glob")
m([(GG,"		part, nextParts, _ = strings.Cut(nextParts, \".\")\n		if part == \"\" {\n			err","		part, nextParts, _ = strings.Cut(nextParts, \".\")\n		part = strings.TrimSpace(part)\n		if part == \"\" {\n			err")],"V part trimmed")
m([(GG,"		if part == \"\" {\n			err = items.ErrNodeEmpty{s}\n			return\n		}\n","		if part == \"\" {\n			continue\n		}\n")],"V empty part skipped")
m([(GG,"	s, level = PathLevel(s)\n","	s, level = PathLevel(s)\n	s = strings.TrimSuffix(s, \"*\")\n")],"V text cut")
m([(PL,"	if path[len(path)-1] == '.' {\n		return path[:len(path)-1], strings","	if path[len(path)-1] == '.' || path[len(path)-1] == ' ' {\n		return path[:len(path)-1], strings")],"V last char cut")
# Map
m([(SL,"	if item.MinSize == 0 {\n		m[","	if item.MaxSize == 0 {\n		m[")],"V map empty")
m([(SL,"	if item.MinSize == 0 {\n		m[\"\"] = struct{}{}\n	}\n","")],"V map no empty")
m([(SL,"	for i := 0; i < len(item.Vals); i++ {\n		m[item.Vals[i]]","	for i := 1; i < len(item.Vals); i++ {\n		m[item.Vals[i]]")],"V map first")
m([(SL,"	for i := 0; i < len(item.Vals); i++ {\n		m[item.Vals[i]] = struct{}{}","	for _, v := range item.Vals {\n		m[v] = struct{}{}")],"REF map range")
