I="pkg/items/items.go"; TR="pkg/items/tree.go"
REP="""			if s == "" && item.Terminate {
				store.Store(item.Query, item.Index)
				matched++
			}
			for i := 0; i < len(item.Childs); i++ {
				if n, _ := item.Childs[i].match(s, store); n > 0 {
					matched += n
				}
			}
"""
# tree.go
r("tree FindDone via matchNextTreeItem",(TR,"""		if s == "" && item.Terminate {
			store.Store(item.Query, item.Index)
			matched++
		}
		for i := 0; i < len(item.Childs); i++ {
			if n, _ := item.Childs[i].match(s, store); n > 0 {
				matched += n
			}
		}
	case FindList:""","""		matched = item.matchNextTreeItem(s, store)
	case FindList:"""))
r("tree list via matchNextTreeItem",(TR,REP,"			matched += item.matchNextTreeItem(s, store)\n","all"))
r("tree star via matchStarNext",(TR,"""		if item.Terminate {
			store.Store(item.Query, item.Index)
			matched++
		}
		for i := 0; i < len(item.Childs); i++ {
			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
				matched += n
			}
		}
	default:""","""		matched = item.matchStarNextTreeItem(s, store)
	default:"""))
r("tree star optional via matchStarNext",(TR,"""				if item.Terminate {
					store.Store(item.Query, item.Index)
					matched++
				}
				// refactor with two path for exclude
				for i := 0; i < len(item.Childs); i++ {
					if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
						matched += n
					}
				}
""","""				matched += item.matchStarNextTreeItem(s, store)
""","all"))
r("tree range childs",(TR,"""			for i := 0; i < len(item.Childs); i++ {
				if n, _ := item.Childs[i].match(s, store); n > 0 {
					matched += n
				}
			}
""","""			for _, child := range item.Childs {
				if n, _ := child.match(s, store); n > 0 {
					matched += n
				}
			}
""","all"))
r("tree add without cond",(TR,"""				if n, _ := item.Childs[i].match(s, store); n > 0 {
					matched += n
				}
""","""				n, _ := item.Childs[i].match(s, store)
				matched += n
""","all"))
r("tree group items helper",(TR,"""			if v, ok := group.Vals[i].(*Chain); ok {
				if n, _ := item.matchItemsInTree(s, v.Items, store); n > 0 {
					matched += n
				}
			} else {
				if n, _ := item.matchItemsInTree(s, []Item{group.Vals[i]}, store); n > 0 {
					matched += n
				}
			}
""","""			if n, _ := item.matchItemsInTree(s, groupItems(group.Vals[i]), store); n > 0 {
				matched += n
			}
"""),(TR,"""func (item *TreeItem) matchNextTreeItem(""","""func groupItems(v Item) []Item {
	if chain, ok := v.(*Chain); ok {
		return chain.Items
	}
	return []Item{v}
}

func (item *TreeItem) matchNextTreeItem("""))
r("tree group items local",(TR,"""				if v, ok := group.Vals[i].(*Chain); ok {
					if n, _ := item.matchStarItemsInTree(s, v.Items, store); n > 0 {
						matched += n
					}
				} else {
					if n, _ := item.matchStarItemsInTree(s, []Item{group.Vals[i]}, store); n > 0 {
						matched += n
					}
				}
""","""				var vals []Item
				if v, ok := group.Vals[i].(*Chain); ok {
					vals = v.Items
				} else {
					vals = []Item{group.Vals[i]}
				}
				if n, _ := item.matchStarItemsInTree(s, vals, store); n > 0 {
					matched += n
				}
"""))
r("tree group range vals",(TR,"""		for i := 0; i < len(group.Vals); i++ {
			if v, ok := group.Vals[i].(*Chain); ok {""","""		for _, val := range group.Vals {
			if v, ok := val.(*Chain); ok {"""),(TR,"item.matchItemsInTree(s, []Item{group.Vals[i]}, store)","item.matchItemsInTree(s, []Item{val}, store)"))
r("tree group switch type",(TR,"""			if v, ok := group.Vals[i].(*Chain); ok {
				if n, _ := item.matchItemsInTree(s, v.Items, store); n > 0 {
					matched += n
				}
			} else {
				if n, _ := item.matchItemsInTree(s, []Item{group.Vals[i]}, store); n > 0 {
					matched += n
				}
			}
""","""			var n int
			switch v := group.Vals[i].(type) {
			case *Chain:
				n, _ = item.matchItemsInTree(s, v.Items, store)
			default:
				n, _ = item.matchItemsInTree(s, []Item{v}, store)
			}
			matched += n
"""))
r("tree Match merged conds",(TR,"""			offset, flag := child.Item.MatchLast(s)
			if flag != FindDone {
				continue
			}
			if offset == -1 {
				continue
			}
			s := s[:offset]
""","""			offset, flag := child.Item.MatchLast(s)
			if offset == -1 || flag != FindDone {
				continue
			}
			s := s[:offset]
"""))
r("tree Match suffix via helper",(TR,"""			s := s[:offset]
			if s == "" && child.Terminate {
				store.Store(child.Query, child.Index)
				matched++
			}
			for _, subChild := range child.Childs {
				if n, _ := subChild.match(s, store); n > 0 {
					matched += n
				}
			}
""","""			matched += child.matchNextTreeItem(s[:offset], store)
"""))
r("tree Match reverse func",(TR,"""		if child.Reverse {
			if len(s) < child.Item.MinLen() {
				continue
			}
			offset, flag := child.Item.MatchLast(s)
			if flag != FindDone {
				continue
			}
			if offset == -1 {
				continue
			}
			s := s[:offset]
			if s == "" && child.Terminate {
				store.Store(child.Query, child.Index)
				matched++
			}
			for _, subChild := range child.Childs {
				if n, _ := subChild.match(s, store); n > 0 {
					matched += n
				}
			}
		} else {""","""		if child.Reverse {
			matched += child.matchReverse(s, store)
		} else {"""),(TR,"""// func (treeItem *TreeItem) append""","""func (item *TreeItem) matchReverse(s string, store Store) (matched int) {
	if len(s) < item.Item.MinLen() {
		return
	}
	offset, flag := item.Item.MatchLast(s)
	if flag != FindDone || offset == -1 {
		return
	}
	s = s[:offset]
	if s == "" && item.Terminate {
		store.Store(item.Query, item.Index)
		matched++
	}
	for _, child := range item.Childs {
		if n, _ := child.match(s, store); n > 0 {
			matched += n
		}
	}
	return
}

// func (treeItem *TreeItem) append"""))
r("tree match split list",(TR,"""		for i := 0; i < list.Len(); i++ {
			if offset = list.MatchN(s, i); offset == -1 {
				continue
			}
			s := s[offset:]

			if s == "" && item.Terminate {
				store.Store(item.Query, item.Index)
				matched++
			}
			for i := 0; i < len(item.Childs); i++ {
				if n, _ := item.Childs[i].match(s, store); n > 0 {
					matched += n
				}
			}
		}
""","""		matched += item.matchList(list, s, store)
"""),(TR,"""func (item *TreeItem) matchNextTreeItem(""","""// matchList tries every value of the list
func (item *TreeItem) matchList(list ItemList, s string, store Store) (matched int) {
	for n := 0; n < list.Len(); n++ {
		offset := list.MatchN(s, n)
		if offset == -1 {
			continue
		}
		matched += item.matchNextTreeItem(s[offset:], store)
	}
	return
}

func (item *TreeItem) matchNextTreeItem("""))
r("tree matchStar done via helper",(TR,"""			s := s[length:]

			if s == "" && item.Terminate {
				store.Store(item.Query, item.Index)
				matched++
			}
			for i := 0; i < len(item.Childs); i++ {
				if n, _ := item.Childs[i].match(s, store); n > 0 {
					matched += n
				}
			}
		case FindList:""","""			matched += item.matchNextTreeItem(s[length:], store)
		case FindList:"""))
r("tree matchStar rune helper",(TR,"""		if _, length = utf8.DecodeRuneInString(s); length < 1 {
			break
		}
		s = s[length:]
	}
	return
}""","""		if s == "" {
			break
		}
		s = skipRune(s)
	}
	return
}""","all"),(TR,"""func (item *TreeItem) matchNextTreeItem(""","""// skipRune cuts the first symbol
func skipRune(s string) string {
	_, size := utf8.DecodeRuneInString(s)
	return s[size:]
}

func (item *TreeItem) matchNextTreeItem("""))
r("tree matchStar find cond",(TR,"""		if offset, length, flag = item.Item.Find(s); offset == -1 {
			abortGready = true
			return
		}
		s = s[offset:]
""","""		offset, length, flag = item.Item.Find(s)
		if offset < 0 {
			return matched, true
		}
		s = s[offset:]
"""))
r("tree matchNext order",(TR,"""func (item *TreeItem) matchNextTreeItem(s string, store Store) (matched int) {
	if s == "" && item.Terminate {
		store.Store(item.Query, item.Index)
		matched++
	}
	for _, child := range item.Childs {
		if n, _ := child.match(s, store); n > 0 {
			matched += n
		}
	}
	return
}""","""func (item *TreeItem) matchNextTreeItem(s string, store Store) (matched int) {
	for _, child := range item.Childs {
		n, _ := child.match(s, store)
		matched += n
	}
	if item.Terminate && len(s) == 0 {
		store.Store(item.Query, item.Index)
		matched++
	}
	return
}"""))
r("tree items list no shadow",(TR,"""			list := items[pos].(ItemList)
			pos := pos + 1

			if list.IsOptional() {
				s := s
				if len(items) == pos {""","""			list := items[pos].(ItemList)
			pos := pos + 1
			last := pos == len(items)

			if list.IsOptional() {
				s := s
				if last {"""))
r("tree items rest var",(TR,"""		case FindStar:
			pos := pos + 1
			if len(items) == pos {
				if n := item.matchStarNextTreeItem(s, store); n > 0 {
					matched += n
				}
				return
			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
				matched += n
			}
			return
""","""		case FindStar:
			rest := items[pos+1:]
			if len(rest) == 0 {
				return item.matchStarNextTreeItem(s, store), false
			}
			n, _ := item.matchStarItemsInTree(s, rest, store)
			return matched + n, false
"""))
r("tree items star simplified",(TR,"""			if len(items) == 1 {
				if n := item.matchStarNextTreeItem(s, store); n > 0 {
					matched += n
				}
			} else if n, _ := item.matchStarItemsInTree(s, items[1:], store); n > 0 {
				matched += n
			}
			return

		default:""","""			if n, _ := item.matchStarItemsInTree(s, items[1:], store); n > 0 {
				matched += n
			}
			return

		default:"""))
r("tree match consume items",(TR,"""		case FindDone:
			pos++
		case FindList:""","""		case FindDone:
			items = items[1:]
		case FindList:"""))
# items.go
r("items end helper",(I,"""				if len(items) == pos {
					if nextItems == nil || nextItems.IsEmpty() {
						if s == "" {
							matched = true
							return
						}
					} else {
						items, nextItems := nextItems.Next()
						if matched, _ = matchItems(s, items, nextItems); matched {
							return
						}
					}
				} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {
					return
				}
""","""				if matched = matchRest(s, items[pos:], nextItems); matched {
					return
				}
""","all"),(I,"// matchStarItems check string","""// matchRest checks the items behind an alternative
func matchRest(s string, items []Item, nextItems *nextItemsTree) (matched bool) {
	if len(items) > 0 {
		matched, _ = matchItems(s, items, nextItems)
		return
	}
	if nextItems == nil || nextItems.IsEmpty() {
		return s == ""
	}
	items, nextItems = nextItems.Next()
	matched, _ = matchItems(s, items, nextItems)
	return
}

// matchStarItems check string"""))
r("items rest direct matchItems",(I,"""			for i := 0; i < list.Len(); i++ {
				if offset = list.MatchN(s, i); offset == -1 {
					continue
				}
				s := s[offset:]
				if len(items) == pos {
					if nextItems == nil || nextItems.IsEmpty() {
						if s == "" {
							matched = true
							return
						}
					} else {
						items, nextItems := nextItems.Next()
						if matched, _ = matchItems(s, items, nextItems); matched {
							return
						}
					}
				} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {
					return
				}
			}
""","""			for i := 0; i < list.Len(); i++ {
				offset = list.MatchN(s, i)
				if offset == -1 {
					continue
				}
				if matched, _ = matchItems(s[offset:], items[pos:], nextItems); matched {
					return
				}
			}
"""))
r("items group chain helper",(I,"""				if v, ok := group.Vals[i].(*Chain); ok {
					if matched, _ = matchItems(s, v.Items, &next); matched {
						return
					}
				} else {
					if matched, _ = matchItems(s, []Item{group.Vals[i]}, &next); matched {
						return
					}
				}
""","""				if matched, _ = matchItems(s, valueItems(group.Vals[i]), &next); matched {
					return
				}
"""),(I,"""				if v, ok := group.Vals[i].(*Chain); ok {
					if matched, _ = matchStarItems(s, v.Items, &next); matched {
						return
					}
				} else {
					if matched, _ = matchStarItems(s, []Item{group.Vals[i]}, &next); matched {
						return
					}
				}
""","""				if matched, _ = matchStarItems(s, valueItems(group.Vals[i]), &next); matched {
					return
				}
"""),(I,"func AppendItem(","""func valueItems(v Item) []Item {
	if c, ok := v.(*Chain); ok {
		return c.Items
	}
	return []Item{v}
}

func AppendItem("""))
r("items next hoisted",(I,"""			for i := 0; i < len(group.Vals); i++ {
				next := nextItemsTree{
					items: items[pos:],
					next:  nextItems,
				}
""","""			next := nextItemsTree{items: items[pos:], next: nextItems}
			for i := 0; i < len(group.Vals); i++ {
"""),(I,"""			for i := 0; i < len(group.Vals); i++ {
				next := nextItemsTree{
					items: items[1:],
					next:  nextItems,
				}
""","""			next := nextItemsTree{items: items[1:], next: nextItems}
			for i := 0; i < len(group.Vals); i++ {
"""))
r("items next pointer",(I,"""				next := nextItemsTree{
					items: items[pos:],
					next:  nextItems,
				}
""","""				next := &nextItemsTree{
					items: items[pos:],
					next:  nextItems,
				}
"""),(I,"v.Items, &next); matched","v.Items, next); matched"),(I,"matchItems(s, []Item{group.Vals[i]}, &next)","matchItems(s, []Item{group.Vals[i]}, next)"))
r("items star end",(I,"""			pos := pos + 1
			if len(items) == pos {
				if nextItems == nil || nextItems.IsEmpty() {
					matched = true
					return
				} else {
					items, nextItems = nextItems.Next()
					return matchStarItems(s, items, nextItems)
				}
			} else {
				return matchStarItems(s, items[pos:], nextItems)
			}
""","""			items = items[pos+1:]
			if len(items) > 0 {
				return matchStarItems(s, items, nextItems)
			}
			if nextItems == nil || nextItems.IsEmpty() {
				return true, false
			}
			items, nextItems = nextItems.Next()
			return matchStarItems(s, items, nextItems)
"""))
r("items consume",(I,"""		case FindDone:
			pos++
		case FindList:""","""		case FindDone:
			items = items[1:]
		case FindList:"""))
r("items abort named",(I,"""			if matched, abortGready = matchItems(sub, items[1:], nextItems); matched || abortGready {
				return
			}
""","""			matched, abortGready = matchItems(sub, items[1:], nextItems)
			if matched {
				return
			}
			if abortGready {
				return
			}
"""))
r("items min offset helper",(I,"""					if offset == -1 || offset > offsetN {
						offset = offsetN
					}
""","""					offset = minOffset(offset, offsetN)
"""),(I,"func AppendItem(","""func minOffset(a, b int) int {
	if a == -1 || b < a {
		return b
	}
	return a
}

func AppendItem("""))
r("items optional list loop",(I,"""					// skip one symbol and retry scan
					if _, length = utf8.DecodeRuneInString(s); length < 1 {
						break
					}
					s = s[length:]
				}
""","""					// skip one symbol and retry scan
					if s == "" {
						break
					}
					_, length = utf8.DecodeRuneInString(s)
					s = s[length:]
				}
"""))
r("items star list extracted",(I,"""			for {
				var offsetN int
				offset := -1
				for i := 0; i < list.Len(); i++ {
					if offsetN, length = list.FindN(s, i); offsetN == -1 {
						// TODO: skip on next scan ?
						continue
					}
					if offset == -1 || offset > offsetN {
						offset = offsetN
					}
					s := s[offsetN+length:]
					if len(items) == 1 {
						if nextItems == nil || nextItems.IsEmpty() {
							if s == "" {
								matched = true
								return
							}
						} else {
							items, nextItems := nextItems.Next()
							if matched, _ = matchItems(s, items, nextItems); matched {
								return
							}
						}
					} else if matched, _ = matchItems(s, items[1:], nextItems); matched {
						return
					}
				}
				if offset == -1 {
					break
				}
				s = s[offset:]
				// shift to one rune from minimal offset
				if _, length = utf8.DecodeRuneInString(s); length < 1 {
					break
				}
				s = s[length:]
			}

			return
""","""			matched = matchStarList(s, list, items[1:], nextItems)
			return
"""),(I,"func AppendItem(","""// matchStarList tries every value of a list on every place
func matchStarList(s string, list ItemList, rest []Item, nextItems *nextItemsTree) bool {
	for {
		first := -1
		for i := 0; i < list.Len(); i++ {
			offset, length := list.FindN(s, i)
			if offset == -1 {
				continue
			}
			if first == -1 || offset < first {
				first = offset
			}
			if matched, _ := matchItems(s[offset+length:], rest, nextItems); matched {
				return true
			}
		}
		if first == -1 {
			return false
		}
		s = s[first:]
		_, length := utf8.DecodeRuneInString(s)
		if length < 1 {
			return false
		}
		s = s[length:]
	}
}

func AppendItem("""))
r("items forwarded else",(I,"""			if len(items) == 1 && (nextItems == nil || nextItems.IsEmpty()) {
				matched = true
				return
			}
			return matchStarItems(s[length:], items[1:], nextItems)""","""			s = s[length:]
			if len(items) > 1 || nextItems != nil && !nextItems.IsEmpty() {
				return matchStarItems(s, items[1:], nextItems)
			}
			return true, false"""))
r("items isEnd helper",(I,"nextItems == nil || nextItems.IsEmpty()","noNext(nextItems)","all"),(I,"func AppendItem(","""func noNext(t *nextItemsTree) bool {
	return t == nil || t.IsEmpty()
}

func AppendItem("""))
r("items matched sep",(I,"""		if len(s) < items[pos].MinLen() {
			return
		}
		if offset, flag = items[pos].Match(s); offset == -1 {
			return
		}
		s = s[offset:]
""","""		item := items[pos]
		if item.MinLen() > len(s) {
			return
		}
		offset, flag = item.Match(s)
		if offset == -1 {
			return
		}
		s = s[offset:]
"""))
r("items minlen dropped",(I,"""		if len(s) < items[pos].MinLen() {
			return
		}
""",""))
r("tree minlen dropped",(TR,"""	if len(s) < item.Item.MinLen() {
		return
	}
""",""))
