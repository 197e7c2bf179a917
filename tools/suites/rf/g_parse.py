G="glob/glob.go"; GG="gglob/gglob.go"; IT="pkg/items/items.go"; GR="pkg/items/group.go"; SL="pkg/items/stringlist.go"; W="pkg/items/wildcard.go"; UT="pkg/items/utils.go"; CH="pkg/items/chain.go"
gsrc=open("/repo/"+G).read()
MERGE=gsrc[gsrc.index("				// try to in-place merge\n"):gsrc.index("			if len(inners) > 1 {\n				last := len(inners) - 1\n")]
STRC=gsrc[gsrc.index("				case *items.String:\n					if last == -1 {"):gsrc.index("				case items.Rune:\n					c := rune(v)\n")]
SUFX=gsrc[gsrc.index("			if len(inners) > 1 {\n				last := len(inners) - 1\n"):gsrc.index("			if len(inners) > 0 {\n				g.Items")]
LOOP=gsrc[gsrc.index("			for glob != \"\" {\n				inner, glob, err"):gsrc.index("			if len(inners) > 1 {\n				last := len(inners) - 1\n")]
TAIL=gsrc[gsrc.index("		if len(g.Items) == 0 {\n			if g.Suffix == \"\" {"):gsrc.index("		if len(g.Items) == 1 {\n			if v, ok")]
r("parse uses AppendItem",(G,MERGE,"""				if len(inners) == 0 {
					switch v := inner.(type) {
					case *items.String:
						g.Prefix += v.S
						continue
					case items.Rune:
						g.Prefix += string(rune(v))
						continue
					case items.Byte:
						g.Prefix += string(rune(v))
						continue
					}
				}
				inners = items.AppendItem(inners, inner)
			}
"""))
r("parse prefix plain add",(G,"""						if g.Prefix == "" {
							g.Prefix = v.S
						} else {
							g.Prefix += v.S
						}
""","						g.Prefix += v.S\n"))
r("parse suffix func",(G,SUFX,"""			inners = g.cutSuffix(inners)
"""),(G,"func Parse(","""func (g *Glob) cutSuffix(inners []items.Item) []items.Item {
	last := len(inners) - 1
	if last < 1 {
		return inners
	}
	switch vv := inners[last].(type) {
	case *items.String:
		g.Suffix = vv.S + g.Suffix
	case items.Rune:
		g.Suffix = string(vv) + g.Suffix
	case items.Byte:
		g.Suffix = string(vv) + g.Suffix
	default:
		return inners
	}
	return inners[:last]
}

func Parse("""))
r("parse inner nil nested",(G,"""				if inner == nil {
					continue
				}

				g.MinLen += inner.MinLen()
""","""				if inner == nil {
					if glob == "" {
						break
					}
					continue
				}

				g.MinLen += inner.MinLen()
"""))
r("parse loop helper",(G,"			inners := make([]items.Item, 0, innerCount)\n\n"+LOOP,"""			inners, err := g.parseItems(glob, make([]items.Item, 0, innerCount))
			if err != nil {
				return g, err
			}
"""),(G,"""			var (
				inner items.Item
			)
""",""),(G,"func Parse(","func (g *Glob) parseItems(glob string, inners []items.Item) (_ []items.Item, err error) {\n	var inner items.Item\n"+LOOP.replace("					return\n","					return inners, err\n").replace("\n\t\t","\n")[2:]+"	return inners, nil\n}\n\nfunc Parse("))
r("parse node helper",(G,TAIL,"		g.setNode()\n"),(G,"func Parse(","func (g *Glob) setNode() {\n"+TAIL.replace("\n\t","\n")[1:]+"}\n\nfunc Parse("))
r("parse node always builder",(G,"""			if g.Suffix == "" {
				g.Node = g.Prefix
				g.Prefix = ""
			} else {
				if g.Prefix == "" {
					g.Node = g.Suffix
				} else {
					g.Node = g.Prefix + g.Suffix
					g.Prefix = ""
				}
				g.Suffix = ""
			}
""","			g.Node = g.Prefix + g.Suffix\n			g.Prefix, g.Suffix = \"\", \"\"\n"))
r("parse builder range",(G,"			for i := 0; i < len(g.Items); i++ {\n				g.Items[i].WriteString(&buf)\n","			for _, item := range g.Items {\n				item.WriteString(&buf)\n"))
r("parse switch as ifs",(G,"""		switch glob {
		case "*":
			g.Items = []items.Item{items.Star(0)}
			g.MaxLen = -1 // unlimited
		case "?":
			g.Items = []items.Item{items.Any(1)}
			g.MinLen++
			g.MaxLen = items.AddMaxLen(g.MaxLen, 4) // rune max len is 4 bytes
		default:
""","""		if glob == "*" {
			g.Items = []items.Item{items.Star(0)}
			g.MaxLen = -1 // unlimited
		} else if glob == "?" {
			g.Items = []items.Item{items.Any(1)}
			g.MinLen++
			g.MaxLen = items.AddMaxLen(g.MaxLen, 4) // rune max len is 4 bytes
		} else {
"""))
r("parse no fast cases",(G,"""		case "?":
			g.Items = []items.Item{items.Any(1)}
			g.MinLen++
			g.MaxLen = items.AddMaxLen(g.MaxLen, 4) // rune max len is 4 bytes
""",""))
r("parse rest var",(G,LOOP,LOOP.replace("for glob != \"\" {\n				inner, glob, err = items.NextWildcardItem(glob)","rest := glob\n			for rest != \"\" {\n				inner, rest, err = items.NextWildcardItem(rest)")))
r("parse len loop",(G,"			for glob != \"\" {\n				inner, glob","			for len(glob) > 0 {\n				inner, glob"))
r("parse pos early return",(G,"""	if pos == -1 {
		g.Node = glob
		g.MinLen = len(glob)
		g.MaxLen = g.MinLen
	} else {
		if pos > 0 {""","""	if pos == -1 {
		g.Node = glob
		g.MinLen = len(glob)
		g.MaxLen = g.MinLen
		return g, nil
	}
	{
		if pos > 0 {"""))
r("parse end inc",(G,"""		if end < len(glob)-1 {
			end++
			g.Suffix = glob[end:]
			glob = glob[:end]
""","""		if end+1 < len(glob) {
			g.Suffix = glob[end+1:]
			glob = glob[:end+1]
"""))
r("parse prefix split",(G,"""			g.Prefix = glob[:pos] // prefix
			glob = glob[pos:]
			g.MinLen = len(g.Prefix)
			g.MaxLen = len(g.Prefix)
""","""			g.Prefix, glob = glob[:pos], glob[pos:]
			g.MinLen = pos
			g.MaxLen = pos
"""))
r("parse any shorter",(G,"""						case items.Any:
							vv += v
							inners[last] = vv
						case items.Star:
							vv += items.Star(v)
							inners[last] = vv
""","""						case items.Any:
							inners[last] = vv + v
						case items.Star:
							inners[last] = vv + items.Star(v)
"""))
r("gglob join",(GG,"""	var buf strings.Builder
	buf.Grow(len(s))
	for i, g := range gg.Parts {
		if i > 0 {
			buf.WriteByte('.')
		}
		buf.WriteString(g.Node)
	}
	gg.Node = buf.String()
""","""	nodes := make([]string, 0, len(gg.Parts))
	for _, g := range gg.Parts {
		nodes = append(nodes, g.Node)
	}
	gg.Node = strings.Join(nodes, ".")
"""))
r("gglob node in the loop",(GG,"""		gg.Parts = append(gg.Parts, g)
		gg.MinLen""","""		if len(gg.Parts) > 0 {
			buf.WriteByte('.')
		}
		buf.WriteString(g.Node)
		gg.Parts = append(gg.Parts, g)
		gg.MinLen"""),(GG,"""	var buf strings.Builder
	buf.Grow(len(s))
	for i, g := range gg.Parts {
		if i > 0 {
			buf.WriteByte('.')
		}
		buf.WriteString(g.Node)
	}
	gg.Node""","	gg.Node"),(GG,"	nextParts := s\n","	var buf strings.Builder\n	buf.Grow(len(s))\n\n	nextParts := s\n"))
r("gglob node helper",(GG,"""	var buf strings.Builder
	buf.Grow(len(s))
	for i, g := range gg.Parts {
		if i > 0 {
			buf.WriteByte('.')
		}
		buf.WriteString(g.Node)
	}
	gg.Node = buf.String()

	return
}
""","""	gg.Node = joinNodes(gg.Parts, len(s))

	return
}

func joinNodes(parts []*glob.Glob, size int) string {
	var buf strings.Builder
	buf.Grow(size)
	for i := 0; i < len(parts); i++ {
		if i > 0 {
			buf.WriteByte('.')
		}
		buf.WriteString(parts[i].Node)
	}
	return buf.String()
}
"""))
r("gglob cut by index",(GG,"		part, nextParts, _ = strings.Cut(nextParts, \".\")\n		if part == \"\" {\n			err","""		if i := strings.IndexByte(nextParts, '.'); i == -1 {
			part, nextParts = nextParts, ""
		} else {
			part, nextParts = nextParts[:i], nextParts[i+1:]
		}
		if part == "" {
			err"""))
r("gglob local err",(GG,"""		if g, err = glob.Parse(part); err != nil {
			return
		}
""","""		g, err = glob.Parse(part)
		if err != nil {
			return gg, err
		}
"""))
r("group val helper",(GR,"""			if v == "*" {
				return Star(0), nil
			} else if v == "?" {
				items = append(items, Any(1))
			} else {
				chain := NewChain()
				for v != "" {
					item, v, err = NextWildcardItem(v)
					if err != nil {
						return
					}
					if item == nil {
						continue
					}
					chain.Append(item)
				}
				if len(chain.Items) == 1 {
					items = append(items, chain.Items[0])
				} else {
					items = append(items, chain)
				}
			}
""","""			if v == "*" {
				return Star(0), nil
			} else if v == "?" {
				items = append(items, Any(1))
			} else {
				chain, err := newValChain(v)
				if err != nil {
					return nil, err
				}
				if len(chain.Items) == 1 {
					items = append(items, chain.Items[0])
				} else {
					items = append(items, chain)
				}
			}
"""),(GR,"func NewGroup(","""func newValChain(v string) (chain *Chain, err error) {
	chain = NewChain()
	var item Item
	for v != "" {
		if item, v, err = NextWildcardItem(v); err != nil {
			return
		}
		if item != nil {
			chain.Append(item)
		}
	}
	return
}

func NewGroup("""))
r("group range",(GR,"	for i := 0; i < len(vals); i++ {\n		if HasWildcard(vals[i]) {\n			v := vals[i]\n","	for _, val := range vals {\n		if HasWildcard(val) {\n			v := val\n"),(GR,"NewString(vals[i])","NewString(val)"))
r("group plain first",(GR,"		if HasWildcard(vals[i]) {\n			v := vals[i]\n","		if !HasWildcard(vals[i]) {\n			items = append(items, NewString(vals[i]))\n			continue\n		}\n		{\n			v := vals[i]\n"),(GR,"""		} else {
			items = append(items, NewString(vals[i]))
		}
""","		}\n"))
r("group item var",(GR,"""				if len(chain.Items) == 1 {
					items = append(items, chain.Items[0])
				} else {
					items = append(items, chain)
				}
""","""				var val Item = chain
				if len(chain.Items) == 1 {
					val = chain.Items[0]
				}
				items = append(items, val)
"""))
r("group sizes in loop",(GR,"""	minLen := items[0].MinLen()
	maxLen := items[0].MaxLen()
	for i := 1; i < len(items); i++ {
		if minLen > items[i].MinLen() {
			minLen = items[i].MinLen()
		}
		l := items[i].MaxLen()
""","""	minLen := items[0].MinLen()
	maxLen := items[0].MaxLen()
	for _, it := range items[1:] {
		if n := it.MinLen(); minLen > n {
			minLen = n
		}
		l := it.MaxLen()
"""))
r("list single helper",(SL,"""		if vals[0] == "" {
			return nil, nil
		}
		// one item optimization
		c, n := utf8.DecodeRuneInString(vals[0])
		if n == len(vals[0]) && c != utf8.RuneError {
			if c <= 127 {
				return Byte(c), nil
			}
			return Rune(c), nil
		}
		return NewString(vals[0]), nil
""","""		if vals[0] == "" {
			return nil, nil
		}
		return newLiteral(vals[0]), nil
"""),(W,"""		c, n := utf8.DecodeRuneInString(v)
		if n == len(v) && c != utf8.RuneError {
			if c <= 127 {
				return Byte(c), next, nil
			}
			return Rune(c), next, nil
		}
		return NewString(v), next, nil
""","		return newLiteral(v), next, nil\n"),(W,"	\"unicode/utf8\"\n",""),(SL,"// func NewItemList ret","""// newLiteral is the smallest item of a text
func newLiteral(s string) Item {
	c, n := utf8.DecodeRuneInString(s)
	if n != len(s) || c == utf8.RuneError {
		return NewString(s)
	}
	if c < utf8.RuneSelf {
		return Byte(c)
	}
	return Rune(c)
}

// func NewItemList ret"""))
r("list range",(SL,"""	for i := 0; i < len(vals); i++ {
		l := len(vals[i])
		if maxLen < l {""","""	for i := range vals {
		l := len(vals[i])
		if maxLen < l {"""))
r("list wildcard pass",(SL,"""			if HasWildcard(vals[i]) {
				hasStar = true
				break
			}
		}
	}
""","""		}
	}
	for i := 0; i < len(vals) && !hasStar; i++ {
		hasStar = HasWildcard(vals[i])
	}
"""))
r("list return group",(SL,"""			if HasWildcard(vals[i]) {
				hasStar = true
				break
			}
""","""			if HasWildcard(vals[i]) {
				return NewGroup(vals)
			}
"""),(SL,"		hasStar    bool\n",""),(SL,"	if hasStar {\n		item, err = NewGroup(vals)\n	} else {","	{"))
r("list build one",(SL,"""		if asciiStarted {
			item = &StringList{
				Vals: vals, MinSize: minLen, MaxSize: maxLen,
				ASCIIStarted: asciiStarted, FirstASCII: firstASCII,
			}
		} else {
			item = &StringList{Vals: vals, MinSize: minLen, MaxSize: maxLen}
		}
""","""		list := &StringList{Vals: vals, MinSize: minLen, MaxSize: maxLen}
		if asciiStarted {
			list.ASCIIStarted = true
			list.FirstASCII = firstASCII
		}
		item = list
"""))
r("list ascii and",(SL,"""			if !firstASCII.Add(vals[i][0]) {
				asciiStarted = false
			}
""","			asciiStarted = firstASCII.Add(vals[i][0]) && asciiStarted\n"))
r("list not break",(SL,"""			if HasWildcard(vals[i]) {
				hasStar = true
				break
			}
""","""			if HasWildcard(vals[i]) {
				hasStar = true
			}
"""))
r("list cont empty",(SL,"""		if l > 0 {
			if !firstASCII.Add(vals[i][0]) {
				asciiStarted = false
			}
			if HasWildcard(vals[i]) {
				hasStar = true
				break
			}
		}
""","""		if l == 0 {
			continue
		}
		if !firstASCII.Add(vals[i][0]) {
			asciiStarted = false
		}
		if HasWildcard(vals[i]) {
			hasStar = true
			break
		}
"""))
r("expand early",(SL,"""	last := len(s) - 1
	if len(s) > 1 && s[0] == '{' && s[last] == '}' {
		ok = true
		s = s[1:last]
		if s == "" {
			return
		}
		list = strings.Split(s, ",")
		if len(list) > 0 {
			sort.Strings(list)
			// cleanup duplicated
			list = removeDuplicated(list)
		}
	}

	return
""","""	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	if s == "" {
		return nil, true
	}
	list = strings.Split(s, ",")
	sort.Strings(list)
	return removeDuplicated(list), true
"""))
r("expand prefix funcs",(SL,"	if len(s) > 1 && s[0] == '{' && s[last] == '}' {","	if len(s) > 1 && strings.HasPrefix(s, \"{\") && strings.HasSuffix(s, \"}\") {"))
DUP=open("/repo/"+SL).read(); DUP=DUP[DUP.index("	// try to truncate from start\n"):DUP.index("func ListExpand")]
r("dups last kept",(SL,DUP,"""	j := 0
	for i := 1; i < len(a); i++ {
		if a[i] != a[j] {
			j++
			a[j] = a[i]
		}
	}
	return a[:j+1]
}

"""))
r("dups simple",(SL,DUP,"""	n := len(a)
	j := 0
	for i := 0; i < n; i++ {
		if i < n-1 && a[i] == a[i+1] {
			continue
		}
		a[j] = a[i]
		j++
	}
	return a[:j]
}

"""))
r("dups append",(SL,DUP,"""	res := a[:0]
	for i, v := range a {
		if i == 0 || v != a[i-1] {
			res = append(res, v)
		}
	}
	return res
}

"""))
r("dups fresh",(SL,DUP,"""	res := make([]string, 0, len(a))
	for i, v := range a {
		if i > 0 && v == a[i-1] {
			continue
		}
		res = append(res, v)
	}
	return res
}

"""))
r("dups inverted",(SL,"""		if i < n-1 && a[i] == a[i+1] {
			continue
		}

		a[j] = a[i]
		j++
""","""		if i == n-1 || a[i] != a[i+1] {
			a[j] = a[i]
			j++
		}
"""))
r("next cut helper",(W,"""		if idx := strings.Index(s, "]"); idx != -1 {
			idx++
			next = s[idx:]
			s = s[:idx]
		}
""","		s, next = cutAfter(s, ']')\n"),(W,"""		if idx := strings.Index(s, "}"); idx != -1 {
			idx++
			next = s[idx:]
			s = s[:idx]
		}
""","		s, next = cutAfter(s, '}')\n"),(W,"// NextWildcardItem e","""func cutAfter(s string, c byte) (string, string) {
	if i := strings.IndexByte(s, c); i != -1 {
		return s[:i+1], s[i+1:]
	}
	return s, ""
}

// NextWildcardItem e"""))
r("next star trim",(W,"""		var next string
		for i, c := range s {
			if c != '*' {
				next = s[i:]
				break
			}
		}
		return Star(0), next, nil
""","		return Star(0), strings.TrimLeft(s, \"*\"), nil\n"))
r("next star index",(W,"""		var next string
		for i, c := range s {
			if c != '*' {
				next = s[i:]
				break
			}
		}
		return Star(0), next, nil
""","""		i := 1
		for i < len(s) && s[i] == '*' {
			i++
		}
		return Star(0), s[i:], nil
"""))
r("next star cut",(W,"""		var next string
		for i, c := range s {
			if c != '*' {
				next = s[i:]
				break
			}
		}
		return Star(0), next, nil
""","""		for s != "" && s[0] == '*' {
			s = s[1:]
		}
		return Star(0), s, nil
"""))
r("next star bytes",(W,"""		for i, c := range s {
			if c != '*' {
				next = s[i:]
				break
			}
		}
""","""		for i := 0; i < len(s); i++ {
			if s[i] != '*' {
				next = s[i:]
				break
			}
		}
"""))
r("next list helper",(W,"""		vals, ok := ListExpand(s)
		if !ok {
			return nil, s, ErrNodeMissmatch{"list", s}
		}
		item, err = NewItemList(vals)
		return
""","""		if vals, ok := ListExpand(s); ok {
			item, err = NewItemList(vals)
			return item, next, err
		}
		return nil, s, ErrNodeMissmatch{"list", s}
"""))
r("next class helper",(W,"""		n, c := runes.ASCII.Count()
		if n == 0 && len(runes.UnicodeRanges) == 0 {
			return nil, next, nil
		}
		if len(runes.UnicodeRanges) == 0 {
			if n == 1 {
				return Byte(c), next, nil
			}
		}
		if len(runes.UnicodeRanges) == 1 && n == 0 {
			if runes.UnicodeRanges[0].First == runes.UnicodeRanges[0].Last {
				// one item optimization
				return Rune(runes.UnicodeRanges[0].First), next, nil
			}
		}
		r := &RunesRanges{RunesRanges: runes}
		return r, next, nil
""","		return classItem(runes), next, nil\n"),(W,"// NextWildcardItem e","""func classItem(runes utils.RunesRanges) Item {
	n, c := runes.ASCII.Count()
	switch u := runes.UnicodeRanges; len(u) {
	case 0:
		if n == 0 {
			return nil
		}
		if n == 1 {
			return Byte(c)
		}
	case 1:
		if n == 0 && u[0].First == u[0].Last {
			// one item optimization
			return Rune(u[0].First)
		}
	}
	return &RunesRanges{RunesRanges: runes}
}

// NextWildcardItem e"""))
r("next end plain",(W,"		v, next := utils.SplitString(s, end)\n","		v, next := s[:end], s[end:]\n"))
r("next if chain",(W,"""		if len(runes.UnicodeRanges) == 0 {
			if n == 1 {
				return Byte(c), next, nil
			}
		}
""","""		if len(runes.UnicodeRanges) == 0 && n == 1 {
			return Byte(c), next, nil
		}
"""))
r("chain append direct",(CH,"	c.Items = AppendItem(c.Items, item)\n","	items := c.Items\n	c.Items = AppendItem(items, item)\n"))
r("append item shorter",(IT,"	if len(items) == 0 {\n		return append(items, item)\n	}\n	last := len(items) - 1\n	switch v := item","	last := len(items) - 1\n	if last < 0 {\n		return append(items, item)\n	}\n	switch v := item"))
r("append item literal helper",(IT,"""	case Rune:
		c := rune(v)
		switch vv := items[last].(type) {
		case *String:
			vv.AddRune(c)
		case Rune:
			items[last] = vv.AppendRune(c)
		case Byte:
			items[last] = vv.AppendRune(c)
		default:
			items = append(items, item)
		}
	case Byte:
		c := byte(v)
		switch vv := items[last].(type) {
		case *String:
			vv.AddByte(c)
		case Rune:
			items[last] = vv.AppendByte(c)
		case Byte:
			items[last] = vv.AppendByte(c)
		default:
			items = append(items, item)
		}
""","""	case Rune:
		return appendRune(items, item, rune(v))
	case Byte:
		return appendRune(items, item, rune(v))
"""),(IT,"func AppendItem(","""func appendRune(items []Item, item Item, c rune) []Item {
	last := len(items) - 1
	switch vv := items[last].(type) {
	case *String:
		vv.AddRune(c)
	case Rune:
		items[last] = vv.AppendRune(c)
	case Byte:
		items[last] = vv.AppendRune(c)
	default:
		items = append(items, item)
	}
	return items
}

func AppendItem("""))
r("map preset",(SL,"	m := make(map[string]struct{})\n","	m := make(map[string]struct{}, len(item.Vals)+1)\n"))
