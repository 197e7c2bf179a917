TG="gtags/tagged_term.go"
r("terms match if chain",(TG,"""	switch term.Op {
	case TaggedTermEq:
		if term.HasWildcard {
			return term.Glob.Match(v)
		} else {
			return v == term.Value
		}
	case TaggedTermNe:
		if term.HasWildcard {
			return !term.Glob.Match(v)
		} else {
			return !(v == term.Value)
		}
""","""	switch term.Op {
	case TaggedTermEq, TaggedTermNe:
		return term.matchValue(v) == (term.Op == TaggedTermEq)
"""),(TG,"func (term *TaggedTerm) Match(v string) bool {","""func (term *TaggedTerm) matchValue(v string) bool {
	if !term.HasWildcard {
		return term.Value == v
	}
	return term.Glob.Match(v)
}

func (term *TaggedTerm) Match(v string) bool {"""))
r("terms match result var",(TG,"""	case TaggedTermNotMatch:
		return !term.Re.MatchString(v)
""","""	case TaggedTermNotMatch:
		matched := term.Re.MatchString(v)
		return !matched
"""),(TG,"			return !(v == term.Value)","			return v != term.Value"))
r("terms map inverted",(TG,"""		if v, ok := tags[term.Key]; ok {
			if !term.Match(v) {
				return false
			}
		} else if term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {
			// keys with != or ~=! check can be not exist, but others not
			return false
		}
""","""		v, ok := tags[term.Key]
		if !ok {
			if term.isNegative() {
				continue
			}
			return false
		}
		if !term.Match(v) {
			return false
		}
"""),(TG,"// MatchByPath match against tags slice\n","""func (term *TaggedTerm) isNegative() bool {
	return term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch
}

// MatchByPath match against tags slice
"""))
r("terms map by index",(TG,"""	for _, term := range terms {
		if v, ok""","""	for i := 0; i < len(terms); i++ {
		term := &terms[i]
		if v, ok"""))
r("terms map one condition",(TG,"""		if v, ok := tags[term.Key]; ok {
			if !term.Match(v) {
				return false
			}
		} else if term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {
			// keys with != or ~=! check can be not exist, but others not
			return false
		}
""","""		v, ok := tags[term.Key]
		if ok && !term.Match(v) || !ok && term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {
			return false
		}
"""))
r("terms map ok variable",(TG,"""	for _, term := range terms {
		if v, ok := tags[term.Key]; ok {
			if !term.Match(v) {
				return false
			}
		} else if term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {
			// keys with != or ~=! check can be not exist, but others not
			return false
		}
	}
	return true
""","""	for i := range terms {
		if !terms[i].accepts(tags) {
			return false
		}
	}
	return true
"""),(TG,"// MatchByPath match against tags slice\n","""func (term *TaggedTerm) accepts(tags map[string]string) bool {
	if v, ok := tags[term.Key]; ok {
		return term.Match(v)
	}
	return term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch
}

// MatchByPath match against tags slice
"""))
SCAN="""			pos := i
			for ; pos < len(tags); pos++ {
				if tags[pos].Key == term.Key {
					break
				}
			}
			if len(tags) == pos {
"""
r("terms tags helper scan",(TG,SCAN,"""			pos := scanTag(tags, term.Key, i)
			if pos == -1 {
"""),(TG,"// MatchByPath match against tags slice\n","""func scanTag(tags []Tag, key string, pos int) int {
	for ; pos < len(tags); pos++ {
		if tags[pos].Key == key {
			return pos
		}
	}
	return -1
}

// MatchByPath match against tags slice
"""))
r("terms tags while scan",(TG,SCAN,"""			pos := i
			for pos < len(tags) && tags[pos].Key != term.Key {
				pos++
			}
			if pos >= len(tags) {
"""))
r("terms tags no fast path",(TG,"""		if len(tags) == i {
			if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
				// != and ~=! can be skiped and key can not exist
				continue LOOP
			}
			return false
		}
		if term.Key != tags[i].Key {
			// scan for tag
""","""		{
"""))
r("terms tags by index",(TG,"""LOOP:
	for _, term := range terms {
		if len(tags) == i {""","""LOOP:
	for n := 0; n < len(terms); n++ {
		term := terms[n]
		if i >= len(tags) {"""))
r("terms tags found flag",(TG,SCAN,"""			pos := i
			found := false
			for ; pos < len(tags); pos++ {
				if tags[pos].Key == term.Key {
					found = true
					break
				}
			}
			if !found {
"""))
r("terms tags scan from start",(TG,SCAN,SCAN.replace("pos := i","pos := 0")))
