package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// The numeric domain: conjunctions of linear constraints over symbols (convex polyhedra in constraint form).
// Entailment is decided by a small linear program, projection by Fourier-Motzkin elimination, the join keeps the affine hull
// and every constraint of either side (and of a difference template) which the other side entails.

type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is c + sum(k*s), terms sorted by symbol.
type Lin struct {
	c int64
	t []term
}

func konst(c int64) Lin { return Lin{c: c} }
func symLin(s Sym) Lin  { return Lin{t: []term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.t) == 0 }

func (l Lin) add(m Lin, k int64) Lin {
	if k == 0 {
		return l
	}
	r := Lin{c: l.c + k*m.c}
	if len(m.t) == 0 {
		r.t = l.t
		return r
	}
	r.t = make([]term, 0, len(l.t)+len(m.t))
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j == len(m.t) || (i < len(l.t) && l.t[i].s < m.t[j].s):
			r.t = append(r.t, l.t[i])
			i++
		case i == len(l.t) || m.t[j].s < l.t[i].s:
			r.t = append(r.t, term{m.t[j].s, k * m.t[j].k})
			j++
		default:
			if v := l.t[i].k + k*m.t[j].k; v != 0 {
				r.t = append(r.t, term{l.t[i].s, v})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) plus(c int64) Lin { return Lin{l.c + c, l.t} }
func (l Lin) sub(m Lin) Lin    { return l.add(m, -1) }
func (l Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: l.c * k, t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.k * k}
	}
	return r
}

func (l Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func (l Lin) eq(m Lin) bool {
	return l.c == m.c && sameTerms(l.t, m.t)
}

func sameTerms(a, b []term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func oppTerms(a, b []term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].s != b[i].s || a[i].k != -b[i].k {
			return false
		}
	}
	return true
}

func (l Lin) String() string {
	var sb strings.Builder
	for i, t := range l.t {
		if t.k == 1 {
			if i > 0 {
				sb.WriteByte('+')
			}
		} else if t.k == -1 {
			sb.WriteByte('-')
		} else {
			if i > 0 && t.k > 0 {
				sb.WriteByte('+')
			}
			fmt.Fprintf(&sb, "%d*", t.k)
		}
		fmt.Fprintf(&sb, "x%d", t.s)
	}
	if l.c != 0 || len(l.t) == 0 {
		if l.c > 0 && len(l.t) > 0 {
			sb.WriteByte('+')
		}
		fmt.Fprintf(&sb, "%d", l.c)
	}
	return sb.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Num is a conjunction: every ineq is >= 0, every eq key equals its expression. It is not modified after it is shared.
type Num struct {
	ineq []Lin
	eq   map[Sym]Lin
	bot  bool
}

func newNum() *Num { return &Num{} }

func (n *Num) clone() *Num {
	r := &Num{ineq: append([]Lin(nil), n.ineq...), bot: n.bot}
	if len(n.eq) > 0 {
		r.eq = make(map[Sym]Lin, len(n.eq))
		for k, v := range n.eq {
			r.eq[k] = v
		}
	}
	return r
}

func (n *Num) norm(l Lin) Lin {
	if len(n.eq) == 0 {
		return l
	}
	for _, t := range l.t {
		if e, ok := n.eq[t.s]; ok {
			r := l
			for _, t := range l.t {
				if e2, ok := n.eq[t.s]; ok {
					r = r.add(symLin(t.s), -t.k).add(e2, t.k)
				}
			}
			_ = e
			return r
		}
	}
	return l
}

// addGE adds l >= 0.
func (n *Num) addGE(l Lin) {
	if n.bot {
		return
	}
	l = n.norm(l)
	if l.isConst() {
		if l.c < 0 {
			n.bot = true
		}
		return
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		r := Lin{c: floorDiv(l.c, g), t: make([]term, len(l.t))}
		for i, t := range l.t {
			r.t[i] = term{t.s, t.k / g}
		}
		l = r
	}
	for i, m := range n.ineq {
		if sameTerms(l.t, m.t) {
			if m.c <= l.c {
				return
			}
			n.ineq = append(append([]Lin(nil), n.ineq[:i]...), n.ineq[i+1:]...)
			break
		}
	}
	for i, m := range n.ineq {
		if oppTerms(l.t, m.t) {
			if l.c+m.c < 0 {
				n.bot = true
				return
			}
			if l.c+m.c == 0 && n.pivot(l) >= 0 {
				n.ineq = append(append([]Lin(nil), n.ineq[:i]...), n.ineq[i+1:]...)
				n.addEQ(l)
				return
			}
			break
		}
	}
	n.ineq = append(n.ineq, l)
}

// pivot picks the index of the newest symbol with a unit coefficient.
func (n *Num) pivot(l Lin) int {
	for i := len(l.t) - 1; i >= 0; i-- {
		if l.t[i].k == 1 || l.t[i].k == -1 {
			return i
		}
	}
	return -1
}

// addEQ adds l == 0.
func (n *Num) addEQ(l Lin) {
	if n.bot {
		return
	}
	l = n.norm(l)
	if l.isConst() {
		if l.c != 0 {
			n.bot = true
		}
		return
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		if l.c%g != 0 {
			n.bot = true
			return
		}
		r := Lin{c: l.c / g, t: make([]term, len(l.t))}
		for i, t := range l.t {
			r.t[i] = term{t.s, t.k / g}
		}
		l = r
	}
	p := n.pivot(l)
	if p < 0 {
		n.addGE(l)
		n.addGE(l.scale(-1))
		return
	}
	s, k := l.t[p].s, l.t[p].k
	// s = -(l - k*s)/k
	e := l.add(symLin(s), -k).scale(-k)
	n.define(s, e)
}

// define adds s = e for a symbol s which is not a key; e does not contain s or keys.
func (n *Num) define(s Sym, e Lin) {
	ne := make(map[Sym]Lin, len(n.eq)+1)
	for k, v := range n.eq {
		if c := v.coef(s); c != 0 {
			v = v.add(symLin(s), -c).add(e, c)
		}
		ne[k] = v
	}
	ne[s] = e
	n.eq = ne
	old := n.ineq
	n.ineq = make([]Lin, 0, len(old))
	var redo []Lin
	for _, l := range old {
		if l.coef(s) != 0 {
			redo = append(redo, l)
		} else {
			n.ineq = append(n.ineq, l)
		}
	}
	for _, l := range redo {
		n.addGE(l)
	}
}

// component returns the inequalities connected to the symbols of l.
func (n *Num) component(l Lin) []Lin {
	if len(n.ineq) == 0 {
		return nil
	}
	syms := map[Sym]bool{}
	for _, t := range l.t {
		syms[t.s] = true
	}
	used := make([]bool, len(n.ineq))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, m := range n.ineq {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range m.t {
				if syms[t.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, m)
				for _, t := range m.t {
					syms[t.s] = true
				}
			}
		}
	}
	return out
}

var lpCount int

// minimum returns the infimum of l (ok=false: unbounded below or infeasible constraints give +Inf).
func (n *Num) minimum(l Lin) float64 { return n.minStop(l, math.Inf(-1)) }

// minStop is minimum, but may give -Inf as soon as the infimum is known to be below stop.
func (n *Num) minStop(l Lin, stop float64) float64 {
	l = n.norm(l)
	if n.bot {
		return math.Inf(1)
	}
	if l.isConst() {
		return float64(l.c)
	}
	// single constraints
	cs := n.component(l)
	for _, m := range cs {
		if sameTerms(m.t, l.t) && len(cs) == 1 {
			return float64(l.c - m.c)
		}
	}
	if len(cs) == 0 {
		return math.Inf(-1)
	}
	lpCount++
	return lpMin(cs, l, stop)
}

func (n *Num) maximum(l Lin) float64 { return -n.minimum(l.scale(-1)) }

const lpEps = 1e-6

// entails decides l >= 0.
func (n *Num) entails(l Lin) bool {
	l = n.norm(l)
	if n.bot {
		return true
	}
	if l.isConst() {
		return l.c >= 0
	}
	for _, m := range n.ineq {
		if sameTerms(m.t, l.t) {
			if m.c <= l.c {
				return true
			}
			break
		}
	}
	return n.minStop(l, -1) > -1+lpEps
}

func (n *Num) entailsEQ(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return n.bot || l.c == 0
	}
	return n.entails(l) && n.entails(l.scale(-1))
}

// feasible decides (over the rationals, with integer tightening of single constraints) whether the constraints connected
// to l have a solution.
func (n *Num) feasible(l Lin) bool {
	if n.bot {
		return false
	}
	cs := n.component(n.norm(l))
	if len(cs) < 2 {
		return true
	}
	lpCount++
	return !math.IsInf(lpMin(cs, Lin{}, math.Inf(-1)), 1)
}

// assume adds l >= 0 and detects an empty result.
func (n *Num) assume(l Lin) bool {
	l = n.norm(l)
	n.addGE(l)
	if n.bot {
		return false
	}
	if !n.feasible(l) {
		n.bot = true
		return false
	}
	return true
}

func (n *Num) assumeEQ(l Lin) bool {
	l0 := n.norm(l)
	if l0.isConst() {
		if l0.c != 0 {
			n.bot = true
		}
		return !n.bot
	}
	// the symbols before the substitution stay connected through the remaining ones
	n.addEQ(l0)
	if n.bot {
		return false
	}
	if !n.feasible(n.norm(restSyms(l0))) {
		n.bot = true
		return false
	}
	return true
}

func restSyms(l Lin) Lin { return Lin{t: l.t} }

// assumeNE refines by l != 0: only a bound can move.
func (n *Num) assumeNE(l Lin) bool {
	l = n.norm(l)
	if n.bot {
		return false
	}
	if l.isConst() {
		if l.c == 0 {
			n.bot = true
		}
		return !n.bot
	}
	if n.entails(l) {
		return n.assume(l.plus(-1))
	}
	if m := l.scale(-1); n.entails(m) {
		return n.assume(m.plus(-1))
	}
	return true
}

// lpMin minimises l over the constraints (all >= 0); -Inf unbounded, +Inf infeasible.
func lpMin(cs []Lin, l Lin, stop float64) float64 {
	// columns
	idx := map[Sym]int{}
	var syms []Sym
	addS := func(t []term) {
		for _, x := range t {
			if _, ok := idx[x.s]; !ok {
				idx[x.s] = len(syms)
				syms = append(syms, x.s)
			}
		}
	}
	for _, c := range cs {
		addS(c.t)
	}
	addS(l.t)
	nv := len(syms)
	lb := make([]float64, nv)
	has := make([]int8, nv) // 1: x = lb + y, -1: x = ub - y, 0: split
	for _, c := range cs {
		if len(c.t) == 1 && c.t[0].k > 0 {
			i := idx[c.t[0].s]
			v := -float64(c.c) / float64(c.t[0].k)
			if has[i] != 1 || v > lb[i] {
				has[i], lb[i] = 1, v
			}
		}
	}
	for _, c := range cs {
		if len(c.t) == 1 && c.t[0].k < 0 {
			i := idx[c.t[0].s]
			if has[i] == 1 {
				continue
			}
			v := float64(c.c) / float64(-c.t[0].k)
			if has[i] != -1 || v < lb[i] {
				has[i], lb[i] = -1, v
			}
		}
	}
	col := make([]int, nv)
	nc := 0
	for i := range syms {
		col[i] = nc
		nc++
		if has[i] == 0 {
			nc++
		}
	}
	// rows: s_r = b_r + sum a y >= 0
	var rows [][]float64
	for _, c := range cs {
		if len(c.t) == 1 {
			i := idx[c.t[0].s]
			if (has[i] == 1 && c.t[0].k > 0) || (has[i] == -1 && c.t[0].k < 0) {
				continue
			}
		}
		rows = append(rows, lpRow(c, idx, has, lb, col, nc))
	}
	obj := lpRow(l, idx, has, lb, col, nc)
	return simplexMin(rows, obj, nc, stop)
}

func lpRow(c Lin, idx map[Sym]int, has []int8, lb []float64, col []int, nc int) []float64 {
	r := make([]float64, nc+1)
	r[nc] = float64(c.c)
	for _, t := range c.t {
		i := idx[t.s]
		k := float64(t.k)
		switch has[i] {
		case 1:
			r[nc] += k * lb[i]
			r[col[i]] += k
		case -1:
			r[nc] += k * lb[i]
			r[col[i]] -= k
		default:
			r[col[i]] += k
			r[col[i]+1] -= k
		}
	}
	return r
}

// simplexMin minimises obj over y >= 0 with rows >= 0 (dictionary form, Bland's rule).
func simplexMin(rows [][]float64, obj []float64, nc int, stop float64) float64 {
	const eps = 1e-9
	m := len(rows)
	// dictionary: basic variable of row r = rows[r][nc] + sum rows[r][j]*nonbasic j
	nb := make([]int, nc)
	bs := make([]int, m)
	for j := range nb {
		nb[j] = j
	}
	for i := range bs {
		bs[i] = nc + i
	}
	pivot := func(objs [][]float64, r, j int) {
		p := rows[r][j]
		row := rows[r]
		// nonbasic j = (basic r - b - sum others)/p
		inv := 1 / p
		for k := range row {
			if k != j {
				row[k] = -row[k] * inv
			}
		}
		row[j] = inv
		upd := func(q []float64) {
			c := q[j]
			if c == 0 {
				return
			}
			q[j] = 0
			for k := range q {
				q[k] += c * row[k]
				if q[k] < 1e-11 && q[k] > -1e-11 {
					q[k] = 0
				}
			}
		}
		for i := range rows {
			if i != r {
				upd(rows[i])
			}
		}
		for _, o := range objs {
			upd(o)
		}
		nb[j], bs[r] = bs[r], nb[j]
	}
	// phase 1
	neg := -1
	worst := -eps
	for i := range rows {
		if rows[i][nc] < worst {
			worst = rows[i][nc]
			neg = i
		}
	}
	width := nc
	run := func(o []float64, objs [][]float64, stop float64) bool { // minimise o; false: unbounded
		for iter := 0; iter < 5000; iter++ {
			if o[nc] < stop {
				return false
			}
			j := -1
			for k := 0; k < width; k++ {
				// the steepest first, then the smallest number against cycles
				if o[k] < -eps && (j < 0 || iter < 40 && o[k] < o[j] || iter >= 40 && nb[k] < nb[j]) {
					j = k
				}
			}
			if j < 0 {
				return true
			}
			r := -1
			best := 0.0
			for i := range rows {
				if rows[i][j] < -eps {
					q := rows[i][nc] / -rows[i][j]
					if q < 0 {
						q = 0
					}
					if r < 0 || q < best-eps || (q < best+eps && bs[i] < bs[r]) {
						r, best = i, q
					}
				}
			}
			if r < 0 {
				return false
			}
			pivot(objs, r, j)
		}
		return false
	}
	if neg >= 0 {
		// auxiliary variable x0 as an extra column: rows + x0 >= 0
		for i := range rows {
			last := rows[i][nc]
			rows[i] = append(rows[i][:nc:nc], 1, last)
		}
		c := obj[nc]
		obj = append(obj[:nc:nc], 0, c)
		x0 := 1 << 30
		nb = append(nb, x0)
		nc++
		width = nc
		aux := make([]float64, nc+1)
		aux[nc-1] = 1
		objs := [][]float64{obj, aux}
		pivot(objs, neg, nc-1)
		if !run(aux, objs, math.Inf(-1)) {
			return math.Inf(-1)
		}
		if aux[nc] > 1e-7 {
			return math.Inf(1)
		}
		// drop x0
		jx := -1
		for k := range nb {
			if nb[k] == x0 {
				jx = k
			}
		}
		if jx < 0 {
			for i := range bs {
				if bs[i] == x0 {
					for k := 0; k < width; k++ {
						if rows[i][k] > eps || rows[i][k] < -eps {
							pivot(objs, i, k)
							jx = k
							break
						}
					}
					if jx < 0 { // x0 is constant 0
						rows = append(rows[:i], rows[i+1:]...)
						bs = append(bs[:i], bs[i+1:]...)
						jx = -2
					}
					break
				}
			}
		}
		if jx >= 0 {
			for i := range rows {
				rows[i][jx] = 0
			}
			obj[jx] = 0
			nb[jx] = 1 << 29
		}
	}
	if !run(obj, [][]float64{obj}, stop) {
		return math.Inf(-1)
	}
	return obj[nc]
}

// project keeps only constraints over the symbols of keep.
func (n *Num) project(keep map[Sym]bool) *Num {
	if n.bot {
		return &Num{bot: true}
	}
	r := n.clone()
	// equalities
	for {
		var ks []Sym
		for k := range r.eq {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		again := false
		for _, k := range ks {
			e := r.eq[k]
			if !keep[k] {
				delete(r.eq, k)
				continue
			}
			// a unit symbol of the expression which must go becomes the key
			bad := -1
			badAny := false
			for i, t := range e.t {
				if !keep[t.s] {
					badAny = true
					if t.k == 1 || t.k == -1 {
						bad = i
					}
				}
			}
			if !badAny {
				continue
			}
			if bad >= 0 {
				delete(r.eq, k)
				s, c := e.t[bad].s, e.t[bad].k
				// k = e  ->  s = (k - rest)/c
				ns := symLin(k).sub(e.add(symLin(s), -c)).scale(c)
				r.define(s, ns)
				delete(r.eq, s)
				again = true
				break
			}
			delete(r.eq, k)
			r.ineq = append(r.ineq, symLin(k).sub(e), e.sub(symLin(k)))
		}
		if !again {
			break
		}
	}
	// inequalities
	for !r.bot {
		// pick the symbol with the fewest combinations
		pos := map[Sym]int{}
		negc := map[Sym]int{}
		for _, l := range r.ineq {
			for _, t := range l.t {
				if !keep[t.s] {
					if t.k > 0 {
						pos[t.s]++
					} else {
						negc[t.s]++
					}
					if _, ok := pos[t.s]; !ok {
						pos[t.s] = 0
					}
				}
			}
		}
		if len(pos) == 0 {
			break
		}
		var best Sym = -1
		bc := 1 << 30
		for s, p := range pos {
			c := p * negc[s]
			if c < bc || (c == bc && s < best) {
				best, bc = s, c
			}
		}
		var ps, ns, rest []Lin
		for _, l := range r.ineq {
			switch c := l.coef(best); {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				rest = append(rest, l)
			}
		}
		r.ineq = rest
		if len(ps)*len(ns) <= 400 {
			for _, p := range ps {
				for _, q := range ns {
					a, b := p.coef(best), -q.coef(best)
					g := gcd(a, b)
					c := p.scale(b/g).add(q, a/g)
					if big(c) || len(c.t) > 6 {
						continue
					}
					r.addGE(c)
				}
			}
		}
		if len(r.ineq) > 60 {
			r.reduce()
		}
	}
	return r
}

func big(l Lin) bool {
	for _, t := range l.t {
		if t.k > 1000 || t.k < -1000 {
			return true
		}
	}
	return false
}

// reduce removes redundant inequalities.
func (n *Num) reduce() {
	n.reduceSums()
	if len(n.ineq) < 2 {
		return
	}
	for i := 0; i < len(n.ineq); {
		l := n.ineq[i]
		m := &Num{ineq: append(append(make([]Lin, 0, len(n.ineq)), n.ineq[:i]...), n.ineq[i+1:]...)}
		if m.minStop(l, -lpEps) > -lpEps {
			n.ineq = m.ineq
		} else {
			i++
		}
	}
}

// reduceSums drops constraints which are the sum of two others (or weaker).
func (n *Num) reduceSums() {
	by := map[string]int{} // terms -> place of the strongest constraint
	key := func(l Lin) string {
		b := make([]byte, 0, 16*len(l.t))
		for _, t := range l.t {
			b = append(b, byte(t.s), byte(t.s>>8), byte(t.s>>16), byte(t.s>>24), byte(t.k), byte(t.k>>8), byte(t.k>>16), byte(t.k>>24))
		}
		return string(b)
	}
	gone := make([]bool, len(n.ineq))
	first := map[term][]int{}
	for i, l := range n.ineq {
		k := key(l)
		if j, ok := by[k]; ok && sameTerms(n.ineq[j].t, l.t) {
			if n.ineq[j].c <= l.c {
				gone[i] = true
				continue
			}
			gone[j] = true
		}
		by[k] = i
		for _, t := range l.t {
			first[t] = append(first[t], i)
		}
	}
	for i, l := range n.ineq {
		if gone[i] || len(l.t) == 0 {
			continue
		}
	try:
		for _, t := range l.t {
			for _, j := range first[t] {
				m := n.ineq[j]
				if j == i || gone[j] || len(m.t) > 3 {
					continue
				}
				d := l.sub(m)
				if len(d.t) == 0 {
					if d.c >= 0 {
						gone[i] = true
						break try
					}
					continue
				}
				if len(d.t) > 3 {
					continue
				}
				if k, ok := by[key(d)]; ok && k != i && !gone[k] && sameTerms(n.ineq[k].t, d.t) && n.ineq[k].c <= d.c {
					gone[i] = true
					break try
				}
			}
		}
	}
	out := n.ineq[:0:0]
	for i, l := range n.ineq {
		if !gone[i] {
			out = append(out, l)
		}
	}
	redIn += len(n.ineq)
	redOut += len(out)
	n.ineq = out
}

var redIn, redOut, redCalls int

func (n *Num) String() string {
	if n.bot {
		return "bottom"
	}
	var s []string
	for k, v := range n.eq {
		s = append(s, fmt.Sprintf("x%d=%s", k, v))
	}
	for _, l := range n.ineq {
		s = append(s, l.String()+">=0")
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (n *Num) symbols(f func(Sym)) {
	for k, v := range n.eq {
		f(k)
		for _, t := range v.t {
			f(t.s)
		}
	}
	for _, l := range n.ineq {
		for _, t := range l.t {
			f(t.s)
		}
	}
}

// ---- join ----

// rowSpaceMeet returns equalities which are linear consequences of both lists.
func rowSpaceMeet(a, b []Lin) []Lin {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	cols := map[Sym]int{}
	var syms []Sym
	for _, ls := range [][]Lin{a, b} {
		for _, l := range ls {
			for _, t := range l.t {
				if _, ok := cols[t.s]; !ok {
					cols[t.s] = 0
					syms = append(syms, t.s)
				}
			}
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	for i, s := range syms {
		cols[s] = i
	}
	w := len(syms) + 1
	var m [][]int64
	for _, l := range a {
		r := make([]int64, 2*w)
		for _, t := range l.t {
			r[cols[t.s]] = t.k
			r[w+cols[t.s]] = t.k
		}
		r[w-1], r[2*w-1] = l.c, l.c
		m = append(m, r)
	}
	for _, l := range b {
		r := make([]int64, 2*w)
		for _, t := range l.t {
			r[cols[t.s]] = t.k
		}
		r[w-1] = l.c
		m = append(m, r)
	}
	row := 0
	for c := 0; c < w && row < len(m); c++ {
		p := -1
		for i := row; i < len(m); i++ {
			if m[i][c] != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[row], m[p] = m[p], m[row]
		for i := row + 1; i < len(m); i++ {
			if m[i][c] != 0 {
				x, y := m[row][c], m[i][c]
				g := gcd(x, y)
				x, y = x/g, y/g
				ng := int64(0)
				for k := range m[i] {
					m[i][k] = m[i][k]*x - m[row][k]*y
					ng = gcd(ng, m[i][k])
				}
				if ng > 1 {
					for k := range m[i] {
						m[i][k] /= ng
					}
				}
			}
		}
		row++
	}
	var out []Lin
	for i := row; i < len(m); i++ {
		r := m[i][w:]
		l := Lin{c: r[w-1]}
		for j, s := range syms {
			if r[j] != 0 {
				l.t = append(l.t, term{s, r[j]})
			}
		}
		if len(l.t) > 0 && !big(l) {
			out = append(out, l)
		}
	}
	return out
}

func (n *Num) eqLins() []Lin {
	var ks []Sym
	for k := range n.eq {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var out []Lin
	for _, k := range ks {
		out = append(out, symLin(k).sub(n.eq[k]))
	}
	return out
}

// joinNum joins p1 and p2, both already projected to the result symbols; tmpl are the symbols for difference templates.
// old=true in widen: only constraints of p1 which p2 entails are kept.
func joinNum(p1, p2 *Num, tmpl []Sym, widen bool, limits []int64) (r *Num, changed bool) {
	if p1.bot {
		return p2, true
	}
	if p2.bot {
		return p1, false
	}
	r = newNum()
	e1, e2 := p1.eqLins(), p2.eqLins()
	for _, l := range rowSpaceMeet(e1, e2) {
		r.addEQ(l)
	}
	try := func(l Lin, other *Num) {
		if len(l.t) == 0 || r.hasGE(l) {
			return
		}
		if other.entails(l) {
			r.addGE(l)
		}
	}
	for _, l := range p1.ineq {
		try(l, p2)
	}
	for _, l := range e1 {
		try(l, p2)
		try(l.scale(-1), p2)
	}
	// an inequality with one of the new symbols in place of what it stands for on this side
	vary := func(p, other *Num) {
		for _, s := range tmpl {
			x, ok := p.eq[s]
			if !ok {
				continue
			}
			d := symLin(s).sub(x)
			if x.isConst() {
				for _, m := range p.ineq {
					if len(m.t) <= 2 {
						try(m.sub(d), other)
						try(m.add(d, 1), other)
					}
				}
				continue
			}
			for _, t := range x.t {
				if t.k != 1 && t.k != -1 {
					continue
				}
				for _, m := range p.ineq {
					if k := m.coef(t.s); k != 0 && len(m.t) <= 3 {
						try(m.add(d, k*t.k), other)
					}
				}
			}
		}
	}
	vary(p1, p2)
	if !widen {
		for _, l := range p2.ineq {
			try(l, p1)
		}
		for _, l := range e2 {
			try(l, p1)
			try(l.scale(-1), p1)
		}
		vary(p2, p1)
		// templates
		bound := func(l Lin) {
			a := p1.minimum(l)
			if math.IsInf(a, -1) {
				return
			}
			b := p2.minimum(l)
			if math.IsInf(b, -1) {
				return
			}
			lo := math.Min(a, b)
			if math.IsInf(lo, 1) || lo < -1e9 || lo > 1e9 {
				return
			}
			c := int64(math.Ceil(lo - 1e-6))
			r.addGE(l.plus(-c))
		}
		for i, s := range tmpl {
			bound(symLin(s))
			bound(symLin(s).scale(-1))
			if len(tmpl) <= 14 {
				for _, q := range tmpl[i+1:] {
					d := symLin(s).sub(symLin(q))
					bound(d)
					bound(d.scale(-1))
				}
			}
		}
		if len(r.ineq) > 8 {
			r.reduce()
		}
	}
	if widen {
		// numbers of the program as bounds
		for _, s := range tmpl {
			a := -p1.minimum(symLin(s).scale(-1))
			if math.IsInf(a, 0) || r.entails(symLin(s).scale(-1).plus(int64(math.Floor(a+1e-6)))) {
				continue
			}
			b := math.Max(a, -p2.minimum(symLin(s).scale(-1)))
			for _, k := range limits {
				if float64(k) > b-1e-6 {
					r.addGE(symLin(s).scale(-1).plus(k))
					break
				}
			}
		}
	}
	// is the join weaker than p1?
	for _, l := range p1.ineq {
		if !r.entails(l) {
			return r, true
		}
	}
	for _, l := range e1 {
		if !r.entailsEQ(l) {
			return r, true
		}
	}
	return r, false
}

func (n *Num) hasGE(l Lin) bool {
	l = n.norm(l)
	if l.isConst() {
		return l.c >= 0
	}
	for _, m := range n.ineq {
		if sameTerms(m.t, l.t) && m.c <= l.c {
			return true
		}
	}
	return false
}
