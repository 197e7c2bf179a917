package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// fnInfo is what the interpreter needs to know about a function: numbering of the registers, liveness, order of blocks, loops.
type fnInfo struct {
	fn       *ssa.Function
	num      map[ssa.Value]int
	vals     []ssa.Value
	liveIn   []map[int]bool // by block
	rpo      []int          // block index -> position
	order    []*ssa.BasicBlock
	head     []bool                     // loop head
	loopOf   map[int][]*ssa.BasicBlock  // block -> heads of the loops which contain it
	inLoop   map[int]map[int]bool       // head -> blocks
	callLiv  map[ssa.Instruction][]bool // registers live after an instruction (calls only)
	acyclic  bool
	lastBack []*ssa.BasicBlock        // last block of a loop in the order -> its head
	condUse  map[ssa.Instruction]bool // comparison used only by the If at the end of its block
	size     int
}

func newFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, loopOf: map[int][]*ssa.BasicBlock{}, inLoop: map[int]map[int]bool{},
		callLiv: map[ssa.Instruction][]bool{}, condUse: map[ssa.Instruction]bool{}}
	add := func(v ssa.Value) {
		fi.num[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.size++
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if bo, ok := in.(*ssa.BinOp); ok {
				refs := bo.Referrers()
				if refs != nil && len(*refs) == 1 {
					if iff, ok := (*refs)[0].(*ssa.If); ok && iff.Block() == b {
						fi.condUse[in] = true
					}
				}
			}
		}
	}
	fi.orderBlocks()
	fi.loops()
	fi.order = nil
	fi.orderBlocks()
	fi.lastBack = make([]*ssa.BasicBlock, len(fn.Blocks))
	for _, h := range fi.order {
		var last *ssa.BasicBlock
		for _, b := range h.Preds {
			if fi.rpo[b.Index] < 1<<30 && fi.rpo[b.Index] >= fi.rpo[h.Index] && (last == nil || fi.rpo[b.Index] > fi.rpo[last.Index]) {
				last = b
			}
		}
		if last != nil {
			// outer loops first in the order: an inner loop with the same last block wins
			fi.lastBack[last.Index] = h
		}
	}
	fi.liveness()
	return fi
}

func (fi *fnInfo) orderBlocks() {
	n := len(fi.fn.Blocks)
	fi.rpo = make([]int, n)
	seen := make([]bool, n)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		// what leaves the loops comes behind them
		left := func(s *ssa.BasicBlock) (k int) {
			for _, h := range fi.loopOf[b.Index] {
				if !fi.inLoop[h.Index][s.Index] {
					k++
				}
			}
			return
		}
		ss := make([]*ssa.BasicBlock, 0, 2)
		for i := len(b.Succs) - 1; i >= 0; i-- {
			ss = append(ss, b.Succs[i])
		}
		sort.SliceStable(ss, func(i, j int) bool { return left(ss[i]) > left(ss[j]) })
		for _, s := range ss {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if n > 0 {
		dfs(fi.fn.Blocks[0])
	}
	for i := range fi.rpo {
		fi.rpo[i] = 1 << 30
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i].Index] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
}

func (fi *fnInfo) loops() {
	fi.head = make([]bool, len(fi.fn.Blocks))
	fi.acyclic = true
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if fi.rpo[s.Index] <= fi.rpo[b.Index] {
				fi.acyclic = false
				fi.head[s.Index] = true
				// natural loop
				body := fi.inLoop[s.Index]
				if body == nil {
					body = map[int]bool{s.Index: true}
					fi.inLoop[s.Index] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x.Index] {
						continue
					}
					body[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, h := range fi.order {
		if fi.head[h.Index] {
			for _, b := range fi.order {
				if fi.inLoop[h.Index][b.Index] {
					fi.loopOf[b.Index] = append(fi.loopOf[b.Index], h)
				}
			}
		}
	}
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]map[int]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
	}
	use := func(in ssa.Instruction, live map[int]bool) {
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o == nil {
				continue
			}
			if i, ok := fi.num[*o]; ok {
				live[i] = true
			}
		}
		// a comparison is evaluated at the If: its operands stay live until then
		if iff, ok := in.(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && fi.condUse[bo] {
				for _, o := range bo.Operands(nil) {
					if i, ok := fi.num[*o]; ok {
						live[i] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for k := len(fi.order) - 1; k >= 0; k-- {
			b := fi.order[k]
			live := fi.liveOut(b)
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, fi.num[v])
				}
				use(in, live)
			}
			// phis are live at the entry (they are set on the edges)
			for i := range live {
				if !fi.liveIn[b.Index][i] {
					fi.liveIn[b.Index][i] = true
					changed = true
				}
			}
		}
	}
	for _, b := range fi.order {
		live := fi.liveOut(b)
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				delete(live, fi.num[v])
			}
			if _, ok := in.(ssa.CallInstruction); ok {
				l := make([]bool, len(fi.vals))
				for k := range live {
					l[k] = true
				}
				fi.callLiv[in] = l
			}
			use(in, live)
		}
	}
}

// liveOut: live at the end of a block: live in of the successors, with phis replaced by the operands of the edge.
func (fi *fnInfo) liveOut(b *ssa.BasicBlock) map[int]bool {
	live := map[int]bool{}
	for _, s := range b.Succs {
		for i := range fi.liveIn[s.Index] {
			if p, ok := fi.vals[i].(*ssa.Phi); ok && p.Block() == s {
				continue
			}
			live[i] = true
		}
		pi := 0
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !fi.liveIn[s.Index][fi.num[phi]] {
				continue
			}
			if i, ok := fi.num[phi.Edges[pi]]; ok {
				live[i] = true
			}
		}
	}
	return live
}
