exec(open('/tmp/seeds1.py').read().split('mkseed("late')[0])
mkseed("empty-last-part","C15","gglob",[("gglob/gglob.go",'''		if part == "" {
			return
		}

		if !g.Parts[i]''','''		if part == "" && path != "" {
			return
		}

		if !g.Parts[i]''')],HN%("gglob",'''	g := ParseMust("a.*")
	if g.Match("a..") || !g.Match("a.b") || !g.Match("a.b.") {
		t.Fatal("wrong")
	}
'''),"a path which ends with two dots and a pattern whose last part matches the empty text","a path with an empty last part is accepted")
mkseed("long-suffix","C15","glob",[("glob/glob.go","""			if !strings.HasSuffix(s, g.Suffix) {""","""			tail := g.Suffix
			if len(tail) > 16 {
				tail = tail[len(tail)-16:]
			}
			if !strings.HasSuffix(s, tail) {""")],HN%("glob",'''	g := ParseMust("a*bcdefghijklmnopqrstuvw")
	if g.Match("azzzzzzzzzzzzzzzzzzzzzzzzzzzzhijklmnopqrstuvw") || !g.Match("azbcdefghijklmnopqrstuvw") {
		t.Fatal("wrong")
	}
'''),"a suffix of more than 16 bytes","only the last 16 bytes of a suffix are compared")
mkseed("leaf-ends-path","C16","gglob",[("gglob/gtree.go",'''		if child, ok := item.ChildsMap[part]; ok {
			if path == "" {''','''		if child, ok := item.ChildsMap[part]; ok {
			if path == "" || len(child.Childs)+len(child.ChildsMap) == 0 {''')],H%("gglob",'''	item := &GTreeItem{ChildsMap: map[string]*GTreeItem{"a": {Terminated: items.Terminated{Terminate: true, Query: "a", Index: 1}}}}
	if n := item.MatchItems("a.b", items.NewAllStore()); n != 0 {
		t.Fatal("wrong")
	}
	if n := item.MatchItems("a", items.NewAllStore()); n != 1 {
		t.Fatal("wrong")
	}
'''),"MatchItems of a node for a path which is longer than the branch","a node is reported before the path is used up")
mkseed("find-step","C16","gtags",[("gtags/items.go","""		search = low + 4
""",(1,"""		low += 4
		search = low
"""))],'''package gtags

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n < 40; n++ {
		var tags []Tag
		for i := 0; i < n; i++ {
			tags = append(tags, Tag{Key: fmt.Sprintf("k%02d", i), Value: "v"})
		}
		for i := 0; i < n; i++ {
			if p := find(tags, tags[i].Key, 0); p != i {
				t.Fatalf("%d tags, key %d: found at %d", n, i, p)
			}
		}
	}
}
''',"a number of tags at which the place behind the middle is the last candidate","a tag which is present is not found")
