import sys; sys.path.insert(0,'/tmp')
from mut import mut
P="pkg/items/tree.go"; M="pkg/items/items.go"
R=sys.argv[1] if len(sys.argv)>1 else "C13 C14"
F=sys.argv[2] if len(sys.argv)>2 else ""
def m(ed,label):
    if F in label: mut(R,ed,label)
# soundness
m([(M,"if offset = list.MatchN(s, i); offset == -1 {\n					continue\n				}\n				s := s[offset:]","if offset = list.MatchN(s, i); offset == -1 {\n					continue\n				}\n				s := s[offset-1:]")],"S1 MatchN offset-1")
m([(M,"s := s[offsetN+length:]","s := s[offsetN+1:]")],"S2 FindN length 1")
m([(M,"sub := s[length:]","sub := s[1:]")],"S3 find length 1")
m([(P,"			s := s[length:]\n","			s := s[1:]\n")],"S4 tree find length 1")
m([(P,"		if s == \"\" && item.Terminate {\n			store.Store(item.Query, item.Index)\n			matched++\n		}\n		for i := 0; i < len(item.Childs); i++ {","		if item.Terminate {\n			store.Store(item.Query, item.Index)\n			matched++\n		}\n		for i := 0; i < len(item.Childs); i++ {")],"S5 report w/o end")
m([(P,"					if s == \"\" {\n						if item.Terminate {","					if len(s) <= 1 {\n						if item.Terminate {")],"S6 report w/o end")
m([(M,"items: items[pos:],","items: items[pos+1:],")],"S7 group next skips")
m([(M,"items: items[pos:],\n					next:  nextItems,","items: items[pos:],\n					next:  nil,")],"S8 group next lost")
m([(M,"					items: items[1:],\n					next:  nextItems,","					items: items[1:],")],"S9 group star next lost")
m([(M,"						if s == \"\" {\n							matched = true\n							return\n						}\n					} else {\n						items, nextItems := nextItems.Next()\n						if matched, _ = matchItems(s, items, nextItems)","						if true {\n							matched = true\n							return\n						}\n					} else {\n						items, nextItems := nextItems.Next()\n						if matched, _ = matchItems(s, items, nextItems)")],"S10 accept w/o end")
m([(M,"			if nextItems == nil || nextItems.IsEmpty() {\n				matched = s == \"\"","			if nextItems == nil || len(nextItems.items) == 0 {\n				matched = s == \"\"")],"S11 IsEmpty only head")
m([(M,"				matched, _ = matchItems(s, items, nextItems)\n				return\n","				matched, _ = matchItems(s, items, nil)\n				return\n")],"S12 next lost at end")
m([(M,"			if len(items) == 1 && (nextItems == nil || nextItems.IsEmpty()) {\n				matched = true","			if len(items) == 1 {\n				matched = true")],"S13 star end ignores next")
m([(M,"return matchStarItems(s[length:], items[1:], nextItems)","return matchStarItems(s, items[1:], nextItems)")],"S14 ? after star not skipped")
m([(M,"			if length == -1 {\n				abortGready = true\n				return\n			}\n			if len(items) == 1","			if len(items) == 1")],"S15 length -1 unchecked")
m([(P,"			if length == -1 {\n				abortGready = true\n				return\n			}\n			s = s[length:]\n","			if length > 0 {\n				s = s[length:]\n			}\n")],"S16 tree length -1 unchecked")
m([(P,"s := s[:offset]","s := s[:len(s)-child.Item.MinLen()]")],"S17 reverse by minlen (equal for strings)")
m([(P,"s := s[:offset]","s := s[:len(s)-1]")],"S18 reverse 1")
m([(P,"if list.IsOptional() && optional {","if optional {")],"S19 not optional")
m([(M,"			if group.IsOptional() {\n				s := s\n				if len(items) == 1","			if group.MaxSize != 0 {\n				s := s\n				if len(items) == 1")],"S20 group optional star")
m([(M,"matched, _ = matchItems(s, v.Items, &next)","matched, _ = matchItems(s, v.Items[:len(v.Items)-1], &next)")],"S21 chain cut")
m([(M,"matched, _ = matchItems(s, v.Items, &next)","matched, _ = matchStarItems(s, v.Items, &next)")],"S22 chain star")
m([(P,"item.matchItemsInTree(s, v.Items, store)","item.matchStarItemsInTree(s, v.Items, store)")],"S23 chain star tree")
m([(P,"				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {\n					matched += n\n				}\n			}\n\n			return\n		default","				if n, _ := item.Childs[i].match(s, store); n > 0 {\n					matched += n\n				}\n			}\n\n			return\n		default")],"C0 star childs not star")
m([(M,"		s = s[offset:]\n		switch flag {\n		case FindDone:\n			pos++","		if flag == FindDone {\n			s = s[offset:]\n		} else {\n			s = s[0:]\n		}\n		switch flag {\n		case FindDone:\n			pos++")],"S24 offset only for done (list offset 0?)")
# completeness
m([(M,"for i := 0; i < list.Len(); i++ {\n				if offset = list.MatchN","for i := 1; i < list.Len(); i++ {\n				if offset = list.MatchN")],"C1 from 1")
m([(M,"				if offset = list.MatchN(s, i); offset == -1 {\n					continue\n				}\n","				if offset = list.MatchN(s, i); offset == -1 {\n					break\n				}\n")],"C2 break")
m([(M,"if offset == -1 || offset > offsetN {","if offset == -1 || offset < offsetN {")],"C3 max")
m([(M,"					return\n				}\n			} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n					return\n				}\n			}\n\n			return\n		case FindGroup","X",9)] if 0 else [(M,"				} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n					return\n				}\n			}\n\n			return\n","				} else if matched, _ = matchItems(s, items[pos:], nextItems); true {\n					return\n				}\n			}\n\n			return\n")],"C4 first only")
m([(M,"if list.IsOptional() {\n				s := s\n				if len(items) == pos","if list.IsOptional() && s == \"\" {\n				s := s\n				if len(items) == pos")],"C5 optional only at end")
m([(M,"if matched, abortGready = matchItems(sub, items[1:], nextItems); matched || abortGready {\n				return\n			}","if matched, abortGready = matchItems(sub, items[1:], nextItems); matched || abortGready || len(items) == 1 {\n				return\n			}")],"C6 only first place")
m([(M,"		if offset, length, flag = items[0].Find(s); offset == -1 {\n			abortGready = true\n			return\n		}\n		s = s[offset:]\n","		if offset, length, flag = items[0].Find(s); offset == -1 {\n			abortGready = true\n			return\n		}\n		s = s[offset:]\n		skip := length\n"),(M,"		if _, length = utf8.DecodeRuneInString(s); length < 1 {\n			break\n		}\n		s = s[length:]\n	}\n	return\n}","		if _, length = utf8.DecodeRuneInString(s); length < 1 {\n			break\n		}\n		if skip > length {\n			length = skip\n		}\n		s = s[length:]\n	}\n	return\n}")],"C7 skip the match")
m([(P,"			s := s[length:]\n","			s = s[length:]\n")],"C8 tree skip the match")
m([(P,"			for i := 0; i < len(item.Childs); i++ {\n				if n, _ := item.Childs[i].match(s, store); n > 0 {\n					matched += n\n				}\n			}\n		case FindList:\n			list := item.Item.(ItemList)\n\n			if list.IsOptional() && optional","			for i := 0; i < len(item.Childs); i++ {\n				if n, _ := item.Childs[i].match(s, store); n > 0 {\n					matched += n\n				}\n			}\n			if matched > 0 {\n				return\n			}\n		case FindList:\n			list := item.Item.(ItemList)\n\n			if list.IsOptional() && optional")],"C9 tree first place")
m([(M,"				matched = s == \"\"\n				return\n			} else {\n				items, nextItems = nextItems.Next()\n				matched, _ = matchItems(s, items, nextItems)\n				return","				matched = s == \"\"\n				abortGready = !matched\n				return\n			} else {\n				items, nextItems = nextItems.Next()\n				matched, _ = matchItems(s, items, nextItems)\n				return")],"C10 abort from matchItems")
m([(M,"	if len(s) < items[pos].MinLen() {\n			return","	if len(s) <= items[pos].MinLen() {\n			return")],"C11 <= MinLen")
m([(P,"	if len(s) < item.Item.MinLen() {\n		return","	if len(s) <= item.Item.MinLen() {\n		return")],"C12 tree <= MinLen")
m([(P,"			optional = false\n				if item.Terminate","			optional = false\n				if item.Terminate",0),(P,"	optional := true //","	optional := item.Terminate //")],"C13 optional only if term")
m([(P,"			if v, ok := group.Vals[i].(*Chain); ok {\n				if n, _ := item.matchItemsInTree","			if v, ok := group.Vals[i].(*Chain); ok && len(v.Items) > 1 {\n				if n, _ := item.matchItemsInTree")],"REF? chain>1 equal? (chain of 1 as item -> panic)")
m([(M,"				if v, ok := group.Vals[i].(*Chain); ok {\n					if matched, _ = matchStarItems(s, v.Items, &next); matched {\n						return\n					}\n				} else {","				if v, ok := group.Vals[i].(*Chain); ok {\n					if matched, _ = matchStarItems(s, v.Items, &next); matched {\n						return\n					}\n				} else if !ok && i < len(group.Vals)-1 {")],"C14 last single alternative skipped")
m([(M,"	case FindStar:\n			pos := pos + 1\n			if len(items) == pos {","	case FindStar:\n			pos := pos + 1\n			if s == \"\" {\n				return\n			}\n			if len(items) == pos {")],"C15 star on empty")
m([(P,"		if item.Terminate {\n			store.Store(item.Query, item.Index)\n			matched++\n		}\n		for i := 0; i < len(item.Childs); i++ {\n			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {\n				matched += n\n			}\n		}\n	default","		if s != \"\" && item.Terminate {\n			store.Store(item.Query, item.Index)\n			matched++\n		}\n		for i := 0; i < len(item.Childs); i++ {\n			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {\n				matched += n\n			}\n		}\n	default")],"C16 star term nonempty (C12)")
m([(M,"					// skip one symbol and retry scan\n					if _, length","					// skip one symbol and retry scan\n					if _, length")],"noop")
m([(M,"func MatchItems(s string, items []Item) bool {\n","func MatchItems(s string, items []Item) bool {\n	if s == \"\" && len(items) > 0 {\n		return false\n	}\n")],"C17 root empty")
m([(M,"	matched, _ := matchItems(s, items, nil)\n	return matched","	matched, _ := matchItems(s, items[:len(items)-1], nil)\n	return matched")],"S25 root cut")
m([(M,"	matched, _ := matchItems(s, items, nil)\n	return matched","	matched, abort := matchItems(s, items, nil)\n	return matched || abort")],"S26 root abort")
m([(M,"	if t.next == nil {\n		return nil, nil\n	}\n	return t.next.items, t.next.next","	if t.next == nil {\n		return nil, nil\n	}\n	return t.next.items, nil")],"S27 Next loses")
m([(M,"	if len(t.items) > 0 {\n		return t.items, t.next\n	}\n","	if len(t.items) > 1 {\n		return t.items, t.next\n	}\n")],"S28 Next skip single")
m([(M,"return len(t.items) == 0 && (t.next == nil || t.next.IsEmpty())","return len(t.items) == 0")],"S29 IsEmpty short")
m([(M,"return len(t.items) == 0 && (t.next == nil || t.next.IsEmpty())","return len(t.items) == 0 && t.next == nil")],"C18 IsEmpty less")
# refactors
m([(M,"			if list.IsOptional() {\n				s := s\n				if len(items) == pos {\n					if nextItems == nil || nextItems.IsEmpty() {\n						if s == \"\" {\n							matched = true\n							return\n						}\n					} else {\n						items, nextItems := nextItems.Next()\n						if matched, _ = matchItems(s, items, nextItems); matched {\n							return\n						}\n					}\n				} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n					return\n				}\n			}","			if list.IsOptional() && matchRest(s, items[pos:], nextItems) {\n				matched = true\n				return\n			}"),(M,"// matchStarItems check","func matchRest(s string, items []Item, next *nextItemsTree) bool {\n	if len(items) > 0 {\n		ok, _ := matchItems(s, items, next)\n		return ok\n	}\n	if next == nil || next.IsEmpty() {\n		return s == \"\"\n	}\n	items, next = next.Next()\n	ok, _ := matchItems(s, items, next)\n	return ok\n}\n\n// matchStarItems check")],"R1 matchRest helper")
m([(M,"			if list.IsOptional() {\n				s := s\n				if len(items) == pos {\n					if nextItems == nil || nextItems.IsEmpty() {\n						if s == \"\" {\n							matched = true\n							return\n						}\n					} else {\n						items, nextItems := nextItems.Next()\n						if matched, _ = matchItems(s, items, nextItems); matched {\n							return\n						}\n					}\n				} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n					return\n				}\n			}","			if list.IsOptional() {\n				if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n					return\n				}\n			}")],"R2 simply recurse on items[pos:]")
m([(M,"	for {\n		if pos == len(items) {","	for ; ; pos++ {\n		if pos == len(items) {"),(M,"		case FindDone:\n			pos++\n","		case FindDone:\n			continue\n")],"R3 for pos++")
m([(P,"			for i := 0; i < list.Len(); i++ {\n			if offset = list.MatchN(s, i); offset == -1 {\n				continue\n			}\n			s := s[offset:]","X")] if 0 else [(P,"			if offset = list.MatchN(s, i); offset == -1 {\n				continue\n			}\n			s := s[offset:]\n\n			if s == \"\" && item.Terminate {\n				store.Store(item.Query, item.Index)\n				matched++\n			}\n			for i := 0; i < len(item.Childs); i++ {\n				if n, _ := item.Childs[i].match(s, store); n > 0 {\n					matched += n\n				}\n			}","			if n := list.MatchN(s, i); n != -1 {\n				matched += item.matchNextTreeItem(s[n:], store)\n			}")],"R4 matchNext helper in list")
m([(P,"		if s == \"\" && item.Terminate {\n			store.Store(item.Query, item.Index)\n			matched++\n		}\n		for i := 0; i < len(item.Childs); i++ {\n			if n, _ := item.Childs[i].match(s, store); n > 0 {\n				matched += n\n			}\n		}","		matched += item.matchNextTreeItem(s, store)")],"R5 matchNext helper in done")
m([(M,"		if offset, length, flag = items[0].Find(s); offset == -1 {\n			abortGready = true\n			return\n		}\n		s = s[offset:]\n","		item := items[0]\n		if offset, length, flag = item.Find(s); offset == -1 {\n			return false, true\n		}\n		s = s[offset:]\n")],"R6 item var")
m([(M,"			sub := s[length:]\n			if matched, abortGready = matchItems(sub,","			if matched, abortGready = matchItems(s[length:],")],"R7 inline sub")
m([(M,"		case FindDone:\n			sub := s[length:]\n			if matched","		case FindDone:\n			end := length\n			sub := s[end:]\n			if matched")],"R8 end")
m([(P,"	offset, flag := item.Item.Match(s)\n	if offset == -1 {\n		return\n	}\n	s = s[offset:]\n","	offset, flag := item.Item.Match(s)\n	if offset < 0 {\n		return 0, false\n	}\n	rest := s[offset:]\n	s = rest\n")],"R9 <0")
m([(P,"			for i := 0; i < len(group.Vals); i++ {\n				if v, ok := group.Vals[i].(*Chain); ok {\n				if n, _ := item.matchItemsInTree(s, v.Items, store); n > 0 {\n","X")] if 0 else [(P,"		for i := 0; i < len(group.Vals); i++ {\n			if v, ok := group.Vals[i].(*Chain); ok {\n				if n, _ := item.matchItemsInTree(s, v.Items, store); n > 0 {\n					matched += n\n				}\n			} else {\n				if n, _ := item.matchItemsInTree(s, []Item{group.Vals[i]}, store); n > 0 {\n					matched += n\n				}\n			}\n		}","		for _, val := range group.Vals {\n			var vals []Item\n			if v, ok := val.(*Chain); ok {\n				vals = v.Items\n			} else {\n				vals = []Item{val}\n			}\n			n, _ := item.matchItemsInTree(s, vals, store)\n			matched += n\n		}")],"R10 group range")
m([(M,"			for i := 0; i < len(group.Vals); i++ {\n				next := nextItemsTree{\n					items: items[pos:],\n					next:  nextItems,\n				}\n				if v","			next := nextItemsTree{items: items[pos:], next: nextItems}\n			for i := range group.Vals {\n				if v")],"R11 next hoisted")
m([(M,"				if offset == -1 {\n					break\n				}\n				s = s[offset:]\n				// shift to one rune from minimal offset\n				if _, length = utf8.DecodeRuneInString(s); length < 1 {\n					break\n				}\n				s = s[length:]\n","				if offset < 0 || offset >= len(s) {\n					break\n				}\n				_, size := utf8.DecodeRuneInString(s[offset:])\n				s = s[offset+size:]\n")],"R12 scan step")
m([(M,"		if _, length = utf8.DecodeRuneInString(s); length < 1 {\n			break\n		}\n		s = s[length:]\n	}\n	return\n}","		if s == \"\" {\n			break\n		}\n		_, length = utf8.DecodeRuneInString(s)\n		s = s[length:]\n	}\n	return\n}")],"R13 s empty break")
m([(P,"		if s == \"\" && item.Terminate {","		if len(s) == 0 && item.Terminate {",0)],"R14 len(s)==0")
m([(M,"		switch flag {\n		case FindDone:\n			pos++\n		case FindList:","		if flag == FindDone {\n			pos++\n			continue\n		}\n		switch flag {\n		case FindList:")],"R15 if done")
m([(P,"	optional := true //","	first := true //"),(P,"list.IsOptional() && optional {\n				optional = false","first && list.IsOptional() {\n				first = false"),(P,"			if group.IsOptional() {\n				optional = false\n","			if group.IsOptional() {\n")],"R16 rename")
m([(P,"	optional := true //","	tried := false //"),(P,"list.IsOptional() && optional {\n				optional = false","!tried && list.IsOptional() {\n				tried = true"),(P,"			if group.IsOptional() {\n				optional = false\n","			if group.IsOptional() {\n")],"R17 inverted flag")
m([(P,"		if child.Reverse {\n			if len(s) < child.Item.MinLen() {\n				continue\n			}\n			offset, flag := child.Item.MatchLast(s)\n			if flag != FindDone {\n				continue\n			}\n			if offset == -1 {\n				continue\n			}\n			s := s[:offset]\n			if s == \"\" && child.Terminate {\n				store.Store(child.Query, child.Index)\n				matched++\n			}\n			for _, subChild := range child.Childs {\n				if n, _ := subChild.match(s, store); n > 0 {\n					matched += n\n				}\n			}\n		} else {\n			if n, _ := child.match(s, store); n > 0 {\n				matched += n\n			}\n		}","		if !child.Reverse {\n			n, _ := child.match(s, store)\n			matched += n\n			continue\n		}\n		if len(s) < child.Item.MinLen() {\n			continue\n		}\n		if offset, flag := child.Item.MatchLast(s); flag == FindDone && offset != -1 {\n			matched += child.matchNextTreeItem(s[:offset], store)\n		}")],"R18 root reorganised")
m([(M,"		if len(s) < items[0].MinLen() {\n			abortGready = true\n			return\n		}\n\n","")],"R19 no minlen")
m([(M,"		if len(s) < items[0].MinLen() {","		if min := items[0].MinLen(); len(s) < min {")],"R20 min var")
m([(M,"func (t *nextItemsTree) IsEmpty() bool {\n	return len(t.items) == 0 && (t.next == nil || t.next.IsEmpty())","func (t *nextItemsTree) IsEmpty() bool {\n	if len(t.items) > 0 {\n		return false\n	}\n	if t.next == nil {\n		return true\n	}\n	return t.next.IsEmpty()")],"R21 IsEmpty")
m([(M,"	if t.next == nil {\n		return nil, nil\n	}\n	return t.next.items, t.next.next","	if next := t.next; next != nil {\n		return next.items, next.next\n	}\n	return nil, nil")],"R22 Next")
m([(M,"func (t *nextItemsTree) IsEmpty() bool {\n	return len(t.items) == 0 && (t.next == nil || t.next.IsEmpty())","func (t *nextItemsTree) IsEmpty() bool {\n	for t != nil {\n		if len(t.items) > 0 {\n			return false\n		}\n		t = t.next\n	}\n	return true")],"R23 IsEmpty loop")
m([(M,"				if matched, _ = matchItems(s, items, nextItems); matched {\n								return\n							}","				if matched, _ = matchItems(s, items, nextItems); matched {\n								break\n							}")] if 0 else [(M,"				} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n					return\n				}\n			}\n\n			return\n","				} else {\n					matched, _ = matchItems(s, items[pos:], nextItems)\n				}\n			}\n\n			return\n")],"C20 match overwritten")
m([(M,"	matched, _ := matchItems(s, items, nil)\n	return matched","	matched, abort := matchItems(s, items, nil)\n	return matched && !abort")],"C21 root and not abort")
m([(M,"				// shift to one rune from minimal offset\n				if _, length = utf8.DecodeRuneInString(s); length < 1 {\n					break\n				}\n				s = s[length:]\n","				// shift to one rune from minimal offset\n				if len(s) < 2 {\n					break\n				}\n				s = s[2:]\n")],"C30 two bytes")
m([(M,"			for {\n				var offsetN int","			for s != \"\" {\n				if len(items) > 1 {\n					s = s[1:]\n				}\n				var offsetN int")],"C31 start later")
m([(M,"					// skip one symbol and retry scan\n					if _, length = utf8.DecodeRuneInString(s); length < 1 {\n						break\n					}\n					s = s[length:]","					// skip one symbol and retry scan\n					if _, length = utf8.DecodeRuneInString(s); length < 1 {\n						break\n					}\n					s = s[len(s)-(len(s)-length)/2:]")],"C32 optional scan jumps")
m([(M,"			if list.IsOptional() {\n				s := s\n				for {","			if list.IsOptional() && len(s) > 1 {\n				s := s[1:]\n				for {")],"C33 optional from the second")
m([(M,"	for {\n		if len(items) == 0 || items[0] == nil {","	if len(s) > 1 && len(items) > 1 {\n		s = s[1:]\n	}\n	for {\n		if len(items) == 0 || items[0] == nil {")],"C34 star search starts later")
m([(M,"		case FindList:\n			list := items[0].(ItemList)\n\n			if list.IsOptional() {\n				s := s","		case FindList:\n			list := items[0].(ItemList)\n			if n := len(s) - list.MaxLen(); n > 0 && len(items) == 1 {\n				s = s[n:]\n			}\n\n			if list.IsOptional() {\n				s := s")],"C35 last list only at the end (equal behaviour!)")
m([(M,"			for {\n				var offsetN int\n				offset := -1\n","			for {\n				var offsetN int\n				if len(s) <= list.MinLen() {\n					break\n				}\n				offset := -1\n")],"C36 list scan stops early")
m([(P,"			for {\n				var offsetN int\n				offset := -1\n","			for {\n				var offsetN int\n				if len(s) <= list.MinLen() {\n					break\n				}\n				offset := -1\n")],"C37 tree list scan stops early")
m([(P,"					if offset == -1 || offset < offsetN {\n						offset = offsetN\n					}","					offset = offsetN",0)],"C38 tree last offset")
m([(M,"				s := s\n				for {\n					if len(items) == 1 {","				s := s\n				for len(s) > 0 {\n					if len(items) == 1 {")],"C39 optional not at the end")
m([(M,"			for {\n				var offsetN int\n				offset := -1\n				for i := 0; i < list.Len(); i++ {\n					if offsetN, length = list.FindN(s, i)","			for more := true; more; {\n				var offsetN int\n				offset := -1\n				for i := 0; i < list.Len(); i++ {\n					if offsetN, length = list.FindN(s, i)"),(M,"				if offset == -1 {\n					break\n				}\n				s = s[offset:]\n				// shift to one rune from minimal offset\n				if _, length = utf8.DecodeRuneInString(s); length < 1 {\n					break\n				}\n				s = s[length:]\n","				if offset == -1 {\n					more = false\n				} else {\n					s = s[offset:]\n					_, size := utf8.DecodeRuneInString(s)\n					more = size > 0\n					s = s[size:]\n				}\n")],"R24 more flag")
