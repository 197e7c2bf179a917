TM="gtags/tagged_term.go"; TI="gtags/items.go"; GL="glob/glob.go"; U="gglob/utils.go"; I="pkg/items/items.go"; W="pkg/items/wildcard.go"; R="pkg/utils/runesranges.go"; ES="pkg/escape/unescape.go"; EX="expand/expand.go"; EE="expand/expression.go"; GT="gglob/gtree.go"
r("V parseString unterminated",(TM,"	if i == len(s) {\n		return \"\", \"\", ErrNodeNotTerminated{s}\n	}\n\n	return s[:i]","	return s[:i]"))
r("V parseString bound",(TM,"	for i < len(s) && s[i] != match {","	for i <= len(s) && s[i] != match {"))
r("V query prefix shorter",(TM,'if !strings.HasPrefix(e, "seriesByTag(") {','if !strings.HasPrefix(e, "seriesByTag") {'))
r("V query last unchecked",(TM,"	if e[len(e)-1] != ')' {\n		err = ErrQueryInvalid{query}\n		return\n	}\n	e = e[12 : len(e)-1]","	e = strings.TrimSuffix(e[12:], \")\")\n	e = e[:len(e)-0]"))
r("V args full",(TM,"				if n == len(args) {","				if n > len(args) {"))
r("V match tags end",(TM,"		if len(tags) == i {\n			if term.Op","		if len(tags) < i {\n			if term.Op"))
r("V match tags pos",(TM,"			if len(tags) == pos {\n				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {\n					// != and ~=! can be skiped and key can not exist\n					continue LOOP\n				}\n				return false\n			}\n			i = pos","			if len(tags) == pos && term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {\n				return false\n			}\n			i = pos"))
r("V find low",(TI,"	if named {\n		low = 1\n	}\n	high := len(tags) - 1","	if named {\n		low = 2\n	}\n	high := len(tags) - 1"))
r("V find step",(TI,"	if search > low+4 {","	if search+4 > low {",1))
r("V find last",(TI,"	high := len(tags) - 1\n","	high := len(tags)\n"))
r("V findOrAppend named only",(TI,"	if low == len(t.Items) {\n		// only __name__, it must stay first\n		t.Items = append(t.Items, TaggedItems{Key: key})\n		return low\n	}\n",""))
r("V findOrAppend high",(TI,"			high = mid + 1\n			break","			high = mid + 2\n			break"))
r("V glob suffix first",(GL,"			if !strings.HasSuffix(s, g.Suffix) {\n				// suffix not match\n				return\n			}\n			s = s[:len(s)-len(g.Suffix)]","			full := g.Node\n			if !strings.HasSuffix(full, g.Suffix) {\n				// suffix not match\n				return\n			}\n			s = s[:len(s)-len(g.Suffix)]"))
r("V glob both affixes",(GL,"		if g.Prefix != \"\" {\n			if !strings.HasPrefix(s, g.Prefix) {\n				// prefix not match\n				return\n			}\n			s = s[len(g.Prefix):]\n		}\n		if g.Suffix != \"\" {\n			if !strings.HasSuffix(s, g.Suffix) {\n				// suffix not match\n				return\n			}\n			s = s[:len(s)-len(g.Suffix)]\n		}","		if !strings.HasPrefix(s, g.Prefix) || !strings.HasSuffix(s, g.Suffix) {\n			return\n		}\n		s = s[len(g.Prefix) : len(s)-len(g.Suffix)]"))
r("V glob inners last",(GL,"					inners = inners[:last]","					inners = inners[:last-1]"))
r("V split empty path",(U,"	if path == \"\" {\n		return []string{}\n	}\n\n	if path[len(path)-1] == '.' {\n		parts","	if path[len(path)-1] == '.' {\n		parts"))
r("V splitB empty",(U,"	if path == \"\" {\n		return\n	}\n\n	last := len(path) - 1","	last := len(path) - 1"))
r("V star pos",(I,"			pos := pos + 1\n			if len(items) == pos {\n				if nextItems == nil || nextItems.IsEmpty() {\n					matched = true\n					return\n","			pos := pos + 1\n			if len(items) < pos {\n				if nextItems == nil || nextItems.IsEmpty() {\n					matched = true\n					return\n"))
r("V class one byte",(R,"	if len(s) > 1 && s[0] == '['","	if s[0] == '['"))
r("V class len 1",(R,"	if len(s) > 1 && s[0] == '['","	if len(s) > 0 && s[0] == '['"))
r("V class index 0 ranges",(W,"		if len(runes.UnicodeRanges) == 1 && n == 0 {","		if n == 0 {\n			_ = runes.UnicodeRanges[1]\n		}\n		if len(runes.UnicodeRanges) == 1 && n == 0 {"))
r("V one ascii ranges",(W,"		if len(runes.UnicodeRanges) == 1 && n == 0 {","		if n == 0 || len(runes.UnicodeRanges) == 1 && n == 0 {"))
r("V escape short",(ES,"			if len(s) < i+3 {","			if len(s) < i+2 {"))
r("V escape percent",(ES,"	return i+2 < len(s) && ishex","	return i+1 < len(s) && ishex"),(ES,"			if len(s) < i+3 {\n				sb.WriteString(s[i:])\n				break LOOP\n			}\n			if !isPercentEscape(s, i) {\n				sb.WriteString(s[i : i+3])","			if !isPercentEscape(s, i) {\n				sb.WriteString(s[i:])\n				break LOOP"))
r("V list last empty",(EE,"	in = in[1 : len(in)-1]\n	if len(in) == 0 {","	in = in[1 : len(in)-1]\n	if orig[1] == ',' && in[1] == ',' {\n		return Expression{body: in[2:]}\n	}\n	if len(in) == 0 {"))
r("V last exp",(EX,"	if last >= 0 && e.exps[last].typ == expWildcard {","	if e.exps[last].typ == expWildcard {"))
r("V expand start",(EX,"			if start == -1 || in[start] == '[' {","			if in[start] == '[' {"))
r("V merge next",(R,"			for next := i + 1; next < n; next++ {","			for next := i + 1; next <= n; next++ {"))
r("V merge next2",("expand/runes.go","			for next := i + 1; next < n; next++ {","			for next := i + 1; next <= n; next++ {"))
r("V parts ends",(GT,"				if n := child.MatchItemsByParts(parts[1:], store); n > 0 {","				if n := child.MatchItemsByParts(parts[2:], store); n > 0 {"))
r("V gglob parts",("gglob/gglob.go","		if !g.Parts[i].Match(parts[i]) {","		if !g.Parts[i].Match(parts[i+1]) {"))
r("V ends class","pkg/utils/runesranges.go" and ("pkg/utils/runesranges.go","	if s == \"\" {","	if s == \"x\" {"))
