import sys; sys.path.insert(0,'/tmp')
from mut import mut
T="pkg/items/tree.go"
mut("C10 C11",[(T,"				matched++\n","",1)],"drop matched++")
mut("C10 C11",[(T,"matched += n","matched = n",3)],"assign")
mut("C10 C11",[("gglob/gtree.go","if item.Childs[i].Terminate {","{")],"unguarded store")
mut("C10 C11",[("gglob/gtree.go","store.Store(item.Childs[i].Query, item.Childs[i].Index)","store.Store(item.Childs[i].Query, child0.Index)"),("gglob/gtree.go","	var part string\n	part, path","	var part string\n	child0 := item\n	part, path")],"other index")
mut("C10 C11",[("gtags/items.go","if n := child.MatchByTags(tags, store); n > 0 {\n					matched += n\n				}","child.MatchByTags(tags, store)",1)],"uncounted")
mut("C10 C11",[("gtags/items.go","""				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
""","""				matched += child.report(store)
""","all"),("gtags/items.go","func hasName(","func (t *TaggedItem) report(store items.Store) int {\n	if !t.Terminate {\n		return 0\n	}\n	store.Store(t.Query, t.Index)\n	return 1\n}\n\nfunc hasName(")],"REF helper int")
mut("C10 C11",[("gtags/items.go","""				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
""","""				if child.report(store) {
					matched++
				}
""","all"),("gtags/items.go","func hasName(","func (t *TaggedItem) report(store items.Store) bool {\n	if t.Terminate {\n	store.Store(t.Query, t.Index)\n}\n	return t.Terminate\n}\n\nfunc hasName(")],"REF helper bool")
mut("C10 C11",[("gtags/items.go","""				if child.Terminate {
					store.Store(child.Query, child.Index)
					matched++
				}
				if n := child.MatchByTagsMap(tags, store); n > 0 {
					matched += n
				}
""","""				matched = child.visit(tags, store, matched)
""","all"),("gtags/items.go","func hasName(","func (t *TaggedItem) visit(tags map[string]string, store items.Store, matched int) int {\n	if t.Terminate {\n	store.Store(t.Query, t.Index)\nmatched++\n}\n	if n := t.MatchByTagsMap(tags, store); n > 0 {\nmatched += n\n}\n return matched\n}\n\nfunc hasName(")],"REF visit acc")
