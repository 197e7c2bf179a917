import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C24"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
G="glob/glob.go"; GG="gglob/gglob.go"; C="pkg/items/chain.go"; GR="pkg/items/group.go"; SL="pkg/items/stringlist.go"; RR="pkg/utils/runesranges.go"; U="pkg/items/utils.go"
m([("pkg/items/any.go","	return int(item) * 4","	return int(item) * 3")],"V any 3")
m([("pkg/items/any.go","	return int(item) * 4","	return int(item)*2 + 2")],"V any 2n+2")
m([("pkg/items/star.go","	return int(item)\n","	return int(item) + 1\n")],"V star min")
m([("pkg/items/rune.go","func (item Rune) MinLen() int {\n	return utf8.RuneLen(rune(item))","func (item Rune) MinLen() int {\n	return 2")],"V rune 2")
m([("pkg/items/rune.go","func (item Rune) MaxLen() int {\n	return utf8.RuneLen(rune(item))","func (item Rune) MaxLen() int {\n	return 3")],"V rune 3")
m([("pkg/items/string.go","func (item *String) MinLen() int {\n	return len(item.S)","func (item *String) MinLen() int {\n	return len([]rune(item.S))")],"V? string runes (sound but not exact)")
m([("pkg/items/string.go","func (item *String) MaxLen() int {\n	return len(item.S)","func (item *String) MaxLen() int {\n	return len([]rune(item.S))")],"V string runes max")
m([(U,"	if a > -1 && b > -1 {\n		return a + b\n	}\n	return -1","	if a > 0 && b > 0 {\n		return a + b\n	}\n	return -1")],"REF? only positive")
m([(U,"	if a > -1 && b > -1 {\n		return a + b\n	}\n	return -1","	if a == -1 {\n		return b\n	}\n	if b == -1 {\n		return a\n	}\n	return a + b")],"V absorbed")
m([(U,"	if a > -1 && b > -1 {\n		return a + b\n	}\n	return -1","	if b > -1 {\n		return a + b\n	}\n	return -1")],"V a unlimited")
m([(C,"	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())","	c.MaxSize += item.MaxLen()")],"V chain plus")
m([(C,"	c.MinSize += item.MinLen()","	if len(c.Items) == 0 {\n		c.MinSize = item.MinLen()\n	} else {\n		c.MinSize += item.MinLen() + 1\n	}")],"V chain +1")
m([(C,"	c.MinSize += item.MinLen()\n	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())\n	c.Items = AppendItem(c.Items, item)","	c.Items = AppendItem(c.Items, item)\n	c.MinSize += item.MinLen()\n	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())")],"V chain after merge")
m([(C,"	c.MinSize += item.MinLen()\n	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())\n	c.Items = AppendItem(c.Items, item)","	min, max := item.MinLen(), item.MaxLen()\n	c.Items = AppendItem(c.Items, item)\n	c.MinSize += min\n	if c.MaxSize == -1 || max == -1 {\n		c.MaxSize = -1\n	} else {\n		c.MaxSize += max\n	}")],"REF chain after with locals")
m([(GR,"		if maxLen != -1 && (l == -1 || maxLen < l) {","		if maxLen < l {")],"V group max unlimited lost")
m([(GR,"		if maxLen != -1 && (l == -1 || maxLen < l) {","		if l == -1 || maxLen < l {")],"V group max limited again")
m([(GR,"		if minLen > items[i].MinLen() {\n			minLen = items[i].MinLen()\n		}","		if minLen < items[i].MinLen() {\n			minLen = items[i].MinLen()\n		}")],"V group min is max")
m([(GR,"	for i := 1; i < len(items); i++ {\n		if minLen","	for i := 1; i < len(items)-1; i++ {\n		if minLen")],"V group last left out")
m([(GR,"	minLen := items[0].MinLen()","	minLen := items[len(items)-1].MinLen()")],"V group first left out")
m([(GR,"	for i := 1; i < len(items); i++ {\n		if minLen > items[i].MinLen() {\n			minLen = items[i].MinLen()\n		}\n		l := items[i].MaxLen()\n		if maxLen != -1 && (l == -1 || maxLen < l) {\n			maxLen = l\n		}\n	}","	for _, v := range items[1:] {\n		if n := v.MinLen(); n < minLen {\n			minLen = n\n		}\n		if l := v.MaxLen(); l == -1 {\n			maxLen = -1\n		} else if maxLen != -1 && maxLen < l {\n			maxLen = l\n		}\n	}")],"REF group range items[1:]")
m([(GR,"	for i := 1; i < len(items); i++ {\n		if minLen > items[i].MinLen() {\n			minLen = items[i].MinLen()\n		}\n		l := items[i].MaxLen()\n		if maxLen != -1 && (l == -1 || maxLen < l) {\n			maxLen = l\n		}\n	}","	for _, v := range items {\n		if n := v.MinLen(); n < minLen {\n			minLen = n\n		}\n		if l := v.MaxLen(); l == -1 {\n			maxLen = -1\n		} else if maxLen != -1 && maxLen < l {\n			maxLen = l\n		}\n	}")],"REF group range items")
m([(SL,"		if maxLen < l {\n			maxLen = l\n		}\n		if minLen > l {","		if i > 0 && maxLen < l {\n			maxLen = l\n		}\n		if minLen > l {")],"V list max without first")
m([(SL,"		if minLen > l {\n			minLen = l\n		}\n		if l > 0 {","		if l > 0 {\n			if minLen > l {\n				minLen = l\n			}")],"V list min without empty")
m([(SL,"	for i := 0; i < len(vals); i++ {\n		l := len(vals[i])","	for _, v := range vals {\n		l := len(v)"),(SL,"			if !firstASCII.Add(vals[i][0]) {","			if !firstASCII.Add(v[0]) {"),(SL,"			if HasWildcard(vals[i]) {","			if HasWildcard(v) {")],"REF list range")
m([(SL,"				Vals: vals, MinSize: minLen, MaxSize: maxLen,","				Vals: vals, MinSize: minLen, MaxSize: len(vals[len(vals)-1]),")],"V list max is last")
m([(G,"			g.MinLen = len(g.Prefix)\n			g.MaxLen = len(g.Prefix)","			g.MinLen = len(g.Prefix)")],"V? prefix max (0 = -> wrong)")
m([(G,"			g.MinLen += len(g.Suffix)\n			g.MaxLen += len(g.Suffix)","			g.MinLen += len(g.Suffix)")],"V suffix max")
m([(G,"			g.MinLen += len(g.Suffix)\n			g.MaxLen += len(g.Suffix)","			g.MaxLen += len(g.Suffix)")],"REF? suffix min dropped (sound)")
m([(G,"			end++\n			g.Suffix = glob[end:]\n			glob = glob[:end]\n			g.MinLen += len(g.Suffix)","			g.MinLen += len(glob) - end\n			end++\n			g.Suffix = glob[end:]\n			glob = glob[:end]")],"V suffix min one more")
m([(G,"			g.MaxLen = -1 // unlimited","			g.MaxLen = g.MinLen")],"V star limited")
m([(G,"			g.MaxLen = items.AddMaxLen(g.MaxLen, 4) // rune","			g.MaxLen = items.AddMaxLen(g.MaxLen, 3) // rune")],"V ? 3")
m([(G,"				g.MaxLen = items.AddMaxLen(g.MaxLen, inner.MaxLen())","				if last := len(inners) - 1; last >= 0 {\n					if _, ok := inners[last].(items.Star); ok {\n						continue\n					}\n				}\n				g.MaxLen = items.AddMaxLen(g.MaxLen, inner.MaxLen())")],"V skipped")
m([(G,"				g.MinLen += inner.MinLen()\n				g.MaxLen = items.AddMaxLen(g.MaxLen, inner.MaxLen())\n",""),(G,"				default:\n					inners = append(inners, inner)\n				}\n			}\n			if len(inners) > 1 {","				default:\n					inners = append(inners, inner)\n				}\n				g.MinLen += inner.MinLen()\n				g.MaxLen = items.AddMaxLen(g.MaxLen, inner.MaxLen())\n			}\n			if len(inners) > 1 {")],"V limits after merge")
m([(G,"			for glob != \"\" {\n				inner, glob, err = items.Next","			minLen, maxLen := g.MinLen, g.MaxLen\n			for glob != \"\" {\n				inner, glob, err = items.Next"),(G,"				g.MinLen += inner.MinLen()\n				g.MaxLen = items.AddMaxLen(g.MaxLen, inner.MaxLen())\n","				minLen += inner.MinLen()\n				maxLen = items.AddMaxLen(maxLen, inner.MaxLen())\n"),(G,"			if len(inners) > 1 {\n				last","			g.MinLen, g.MaxLen = minLen, maxLen\n			if len(inners) > 1 {\n				last")],"REF local limits")
m([(G,"			if len(inners) > 0 {\n				g.Items = inners","			if len(inners) > 1 && g.MaxLen > 0 {\n				g.MaxLen -= len(g.Suffix)\n			}\n			if len(inners) > 0 {\n				g.Items = inners")],"V changed afterwards")
m([(GG,"		gg.MinLen += g.MinLen\n","		gg.MinLen += g.MinLen + 1\n")],"V parts dots")
m([(GG,"		gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)","		gg.MaxLen += g.MaxLen")],"V parts plus")
m([(GG,"		gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)","		if g.MaxLen > 0 {\n			gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)\n		}")],"V parts unlimited dropped")
m([(RR,"						rs.setSizes(n)\n","						rs.setSizes(n - 1)\n")],"V class range n-1")
m([(RR,"						if n != cn {\n							return rs, false\n						}\n","						if n > cn {\n							return rs, false\n						}\n")],"V class range other length")
m([(RR,"							rs.setSizes(1)\n						} else {","						} else {")],"V class ascii range no sizes")
m([(RR,"	if rs.MinSize > n || rs.MinSize == 0 {","	if rs.MinSize == 0 {")],"V class min first")
m([(RR,"	if rs.MinSize > n || rs.MinSize == 0 {","	if rs.MinSize > n {")],"REF? class min 0")
m([(RR,"	if rs.MaxSize < n {\n		rs.MaxSize = n\n	}","	rs.MaxSize = n")],"V class max last")
m([(RR,"				if start <= math.MaxInt8 {\n					rs.ASCII.Add(byte(start))\n					rs.setSizes(1)","				if start <= math.MaxInt8 {\n					rs.ASCII.Add(byte(start))")],"V class last no sizes")
m([(RR,"	if rs.MaxSize < n {\n		rs.MaxSize = n\n	}\n	if rs.MinSize > n || rs.MinSize == 0 {\n		rs.MinSize = n\n	}","	if n > rs.MaxSize {\n		rs.MaxSize = n\n	}\n	if rs.MinSize == 0 || n < rs.MinSize {\n		rs.MinSize = n\n	}")],"REF class sizes")
m([(GR,"	return item.MinSize == 0","	return item.MinSize <= 1")],"V optional <= 1")
m([(SL,"	return item.MinSize == 0","	return item.MinSize == 0 && len(item.Vals) > 1")],"V optional only of many")
m([(GR,"	return item.MinSize == 0","	if item.MinSize > 0 {\n		return false\n	}\n	return true")],"REF optional if")
