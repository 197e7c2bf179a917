import sys; sys.path.insert(0,'/tmp')
from mut import mut
G="glob/glob.go"; Q="gglob/gglob.go"; U="gglob/utils.go"
R=sys.argv[1] if len(sys.argv)>1 else "C15"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
m([(G,"if len(s) < g.MinLen","if len(s) <= g.MinLen")],"S minlen <=")
m([(G,"if g.MaxLen > 0 &&","if g.MaxLen != 0 &&")],"S maxlen !=0")
m([(G,"len(s) > g.MaxLen {","len(s) >= g.MaxLen {")],"S maxlen >=")
m([(G,"if !strings.HasPrefix(s, g.Prefix)","if !strings.Contains(s, g.Prefix)")],"S contains")
m([(G,"if !strings.HasSuffix(s, g.Suffix)","if len(s) > 64 && !strings.HasSuffix(s, g.Suffix)")],"S suffix cond")
m([(G,"s = s[:len(s)-len(g.Suffix)]","s = s[:len(s)-len(g.Prefix)]")],"S cut len prefix")
m([(G,"if len(g.Vals) > 0 {","if len(g.Vals) > 0 && s != \"\" {")],"ok: vals cond falls to items")
m([(G,"_, matched = g.Vals[s]","_, matched = g.Vals[s]\n			matched = matched || g.Suffix != \"\"")],"S vals or suffix")
m([(G,"matched = (g.Node == s)","matched = strings.EqualFold(g.Node, s)")],"S fold")
m([(G,"	if len(s) < g.MinLen {\n		return\n	}\n","")],"ok: no minlen")
m([(G,"matched = items.MatchItems(s, g.Items)","matched = len(g.Items) == 1 && s == \"\" || items.MatchItems(s, g.Items)")],"S single empty")
m([(G,"matched = items.MatchItems(s, g.Items)","matched = items.MatchItems(s, g.Items[:len(g.Items)])")],"ok: reslice")
m([(G,"matched = items.MatchItems(s, g.Items)","matched = items.MatchItems(s, g.Items[1:])")],"S items 1:")
m([(G,"if g.Node == \"*\" {","if g.Glob == \"*\" {")],"raw star (equiv-ish)")
m([(G,"if g.Node == \"*\" {","if strings.HasPrefix(g.Node, \"**\") || g.Node == \"*\" {")],"S ** prefix")
m([(G,"""		if g.Prefix != "" {
			if !strings.HasPrefix(s, g.Prefix) {
				// prefix not match
				return
			}
			s = s[len(g.Prefix):]
		}
		if g.Suffix != "" {
			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
		}
""","""		if !strings.HasPrefix(s, g.Prefix) || !strings.HasSuffix(s, g.Suffix) {
			return
		}
		s = s[len(g.Prefix) : len(s)-len(g.Suffix)]
""")],"ok: both checks")
m([(G,"""			if !strings.HasPrefix(s, g.Prefix) {
				// prefix not match
				return
			}
			s = s[len(g.Prefix):]
""","""			var ok bool
			if s, ok = strings.CutPrefix(s, g.Prefix); !ok {
				return
			}
"""),(G,"""			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
""","""			var ok bool
			if s, ok = strings.CutSuffix(s, g.Suffix); !ok {
				return
			}
""")],"ok: cut funcs")
m([(G,"""			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
""","""			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = strings.TrimSuffix(s, g.Suffix)
""")],"ok: trim funcs")
m([(G,"""			if !strings.HasSuffix(s, g.Suffix) {
				// suffix not match
				return
			}
			s = s[:len(s)-len(g.Suffix)]
""","""			n := len(s) - len(g.Suffix)
			if n < 0 || s[n:] != g.Suffix {
				return
			}
			s = s[:n]
""")],"ok: slice compare")
m([(G,"""	if len(g.Items) == 0 {
		matched = (g.Node == s)
	} else {
""","""	if len(g.Items) == 0 {
		return g.Node == s
	}
	{
""")],"ok: early ret")
m([(Q,"if len(path) < g.MinLen","if len(path) < g.MinLen+partsCount-1")],"minlen+dots (equiv)")
m([(Q,"len(path) > g.MaxLen+partsCount-1","len(path) > g.MaxLen")],"S maxlen no dots")
m([(Q,"len(path) > g.MaxLen+partsCount-1","len(path) > g.MaxLen+partsCount-2")],"S maxlen -2")
m([(Q,"	if len(g.Parts) != partsCount {\n		return\n	}\n","")],"S no count")
m([(Q,"		if part == \"\" {\n			return\n		}\n\n		if !g.Parts[i]","		if !g.Parts[i]")],"S no empty part")
m([(Q,"		if part == \"\" {\n			return\n		}\n\n		if !g.Parts[i]","		if part == \"\" && i > 0 {\n			return\n		}\n\n		if !g.Parts[i]")],"S empty part first")
m([(Q,"if !g.Parts[i].Match(part)","if i < len(g.Parts)-1 && !g.Parts[i].Match(part)")],"S last")
m([(Q,"matched = path == \"\"","matched = true")],"ok: final true")
m([(Q,"for i := 0; i < len(g.Parts); i++ {\n		if !g.Parts[i].Match(parts[i])","for i := 1; i < len(g.Parts); i++ {\n		if !g.Parts[i].Match(parts[i])")],"S start 1")
m([(Q,"if !g.Parts[i].Match(parts[i])","if !g.Parts[i].Match(parts[len(parts)-1-i])")],"S reverse")
m([(Q,"if length > 0 {\n		if length","if length >= 0 {\n		if length")],"S length 0")
m([(Q,"length > g.MaxLen+len(parts)-1","length > g.MaxLen")],"S parts length")
m([(Q,"	if len(g.Parts) != len(parts) {","	if len(g.Parts) > len(parts) {")],"S parts >")
m([(U,"return path[:len(path)-1], strings.Count(path, \".\")","return path[:len(path)-1], strings.Count(path, \".\") + 1")],"S pathlevel count")
m([(U,"if path[len(path)-1] == '.' {\n		return path","if path[0] == '.' {\n		return path")],"S pathlevel first")
m([(U,"return path, strings.Count(path, \".\") + 1\n","return path, strings.Count(path, \".\")\n")],"S pathlevel count 2")
m([(U,"return path[:len(path)-1], strings.Count(path, \".\")","return path, strings.Count(path, \".\")")],"S no trim")
m([(U,"return path[:len(path)-1], strings.Count(path, \".\")","path = path[:len(path)-1]\n		return path, strings.Count(path, \".\") + 1")],"ok: pathlevel trim count")
m([(Q,"	for i := 0; i < len(g.Parts); i++ {\n		if !g.Parts[i].Match(parts[i]) {","	for i, part := range parts {\n		if !g.Parts[i].Match(part) {")],"ok: range parts")
m([(Q,"	for i := 0; i < len(g.Parts); i++ {\n		if !g.Parts[i].Match(parts[i]) {\n			return\n		}\n	}\n\n	matched = true\n	return\n}","	return g.allMatch(parts)\n}\n\nfunc (g *GGlob) allMatch(parts []string) bool {\n	for i := range g.Parts {\n		if !g.Parts[i].Match(parts[i]) {\n			return false\n		}\n	}\n	return true\n}\n")],"ok: helper")
m([(Q,"		part, path, _ = strings.Cut(path, \".\")\n","		if n := strings.IndexByte(path, '.'); n == -1 {\n			part, path = path, \"\"\n		} else {\n			part, path = path[:n], path[n+1:]\n		}\n")],"ok: indexbyte")
m([(Q,"	var part string\n	for i := 0; i < len(g.Parts); i++ {\n		part, path, _ =","	for _, g := range g.Parts {\n		var part string\n		part, path, _ ="),(Q,"		if !g.Parts[i].Match(part) {","		if !g.Match(part) {")],"ok: range g.Parts")
m([(Q,"	for i := 0; i < len(g.Parts); i++ {\n		if !g.Parts[i].Match(parts[i]) {\n			return\n		}\n	}\n\n	matched = true\n	return\n}","	matched = true\n	for i := 0; i < len(g.Parts) && matched; i++ {\n		matched = g.Parts[i].Match(parts[i])\n	}\n	return\n}")],"ok: flag loop")
m([(Q,"	for i := 0; i < len(g.Parts); i++ {\n		if !g.Parts[i].Match(parts[i]) {\n			return\n		}\n	}\n\n	matched = true\n	return\n}","	i := 0\n	for i < len(parts) && g.Parts[i].Match(parts[i]) {\n		i++\n	}\n	return i == len(parts)\n}")],"ok: while loop")
