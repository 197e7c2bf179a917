package main

import (
	"sort"
	"strings"
)

// ev is something which has happened on a path.
type ev struct {
	kind string
	aux  string
	ts   []*Term
}

func (v ev) key() string {
	var b strings.Builder
	b.WriteString(v.kind)
	b.WriteByte('/')
	b.WriteString(v.aux)
	for _, t := range v.ts {
		b.WriteByte(':')
		if t != nil {
			b.WriteString(itoa(t.id))
		}
	}
	return b.String()
}

// evState is the set of events of a path. A loop head keeps the events before the loop.
type evState struct{ evs []ev }

func (s *evState) Key() string {
	var p []string
	for _, v := range s.evs {
		p = append(p, v.key())
	}
	sort.Strings(p)
	return strings.Join(p, ";")
}
func (s *evState) Clone() CState {
	return &evState{append([]ev(nil), s.evs...)}
}
func (s *evState) Subst(f func(*Term) *Term) {
	for i, v := range s.evs {
		ts := make([]*Term, len(v.ts))
		for j, t := range v.ts {
			if t != nil {
				ts[j] = f(t)
			}
		}
		s.evs[i] = ev{v.kind, v.aux, ts}
	}
}
func (s *evState) Join(back CState) (CState, bool) { return s, false }

func (s *evState) add(kind, aux string, ts ...*Term) {
	n := ev{kind, aux, ts}
	k := n.key()
	for _, v := range s.evs {
		if v.key() == k {
			return
		}
	}
	s.evs = append(s.evs, n)
}

// since gives the events which are not in the head state.
func (s *evState) since(head CState) []ev {
	h := map[string]bool{}
	for _, v := range head.(*evState).evs {
		h[v.key()] = true
	}
	var r []ev
	for _, v := range s.evs {
		if !h[v.key()] {
			r = append(r, v)
		}
	}
	return r
}
