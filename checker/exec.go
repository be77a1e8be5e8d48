package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is an abstract interpreter over SSA. It keeps a set of abstract
// states per block (partitioned by what they know) and iterates to a fixpoint;
// calls inside the module are analysed in the context of the call.

type Outcome struct {
	st  *State
	ret []*V
}

type CallInfo struct {
	site   ssa.Instruction
	common *ssa.CallCommon
	fn     *ssa.Function // callee, if it is known
	binds  []*V          // bindings of a closure
	method *types.Func   // for calls through an interface that are not resolved
	recv   *V
	args   []*V // receiver first for methods
	name   string
	sig    *types.Signature
	deferd bool
}

type Hooks struct {
	// Call may replace the analysis of a call.
	Call func(e *Engine, st *State, c *CallInfo) ([]Outcome, bool)
	// Builtin may replace a call of a builtin function.
	Builtin func(e *Engine, st *State, c *CallInfo) ([]Outcome, bool)
	// After sees the outcomes of every call that was not replaced.
	Enter func(e *Engine, st *State, fn *ssa.Function, args []*V)
	Leave func(e *Engine, st *State, fn *ssa.Function, ret []*V)
	Load  func(e *Engine, st *State, site ssa.Instruction, l loc, t types.Type)
	Store func(e *Engine, st *State, site ssa.Instruction, l loc, v *V)
	Go    func(e *Engine, st *State, c *CallInfo)
	Block func(e *Engine, st *State, site ssa.Instruction) // channel operation
	// Case sees the case a select takes (-1 default), in a state of its own.
	Case func(e *Engine, st *State, site *ssa.Select, k int, vals []*V) bool
	// Arrive may give the values a receive yields, each in a state of its own.
	Arrive func(e *Engine, st *State, site ssa.Instruction, ch *V, t types.Type) []Outcome
	// Index may give the addresses of an element of a slice.
	Index func(e *Engine, st *State, site *ssa.IndexAddr, s, i *V) []Outcome
	// Cut may replace a slice operation.
	Cut func(e *Engine, st *State, site *ssa.Slice, s *V) []Outcome
	// Feasible may rule out an outcome of a condition.
	Feasible func(e *Engine, st *State, cond *V, truth bool) bool
	// Recv sees every plain receive.
	Recv    func(e *Engine, st *State, site *ssa.UnOp, ch, v *V)
	Edge    func(e *Engine, st *State, from, to *ssa.BasicBlock)
	Closure func(e *Engine, st *State, site ssa.Instruction, f *V) // function value given away
	// Sentinel decides err == global for errors with a client tag.
	Sentinel func(e *Engine, f Fact, g *ssa.Global) (possible bool)
	// Resolve gives the candidate callees of an interface call.
	Resolve func(e *Engine, st *State, c *CallInfo) []*ssa.Function
	// NoInline makes a module function opaque.
	NoInline func(fn *ssa.Function) bool
	Assume   func(e *Engine, st *State, cond *V, truth bool)
	Value    func(e *Engine, st *State, i ssa.Value, v *V)
	// Forget: the content of this opaque location is not worth remembering.
	Forget func(l loc, t types.Type) bool
	// Panic sees every explicit panic that is reached.
	Panic func(e *Engine, st *State, site ssa.Instruction)
	// Copy sees every copy between slices.
	Copy func(e *Engine, st *State, site ssa.Instruction, dst, src *V)
	// Bounds sees every index and slice operation: 0 <= lo <= hi <= max must hold.
	Bounds func(e *Engine, st *State, site ssa.Instruction, lo, hi, max *V)
}

type Engine struct {
	P     *Program
	H     Hooks
	ctx   []string
	stack []*ssa.Function
	sites []ssa.Instruction

	numeric   bool // track integer conditions and arithmetic
	bitmode   bool
	inBits    bool
	canonInts bool // masks and shifts are undone where they extract a plain number
	keepConds bool
	strs      bool // strings as concatenations
	exactCopy bool // copy returns the smaller length
	unroll    int  // rounds of a loop before it is widened (numeric mode)
	maxStack  int  // same function on the stack at most this often
	maxDepth  int
	maxStates int

	live   map[*ssa.Function]*liveness
	labels map[ssa.Instruction]string

	// statistics
	nStates, nCalls, nPaths, nCut int
	nNum                          int
	funcsSeen                     map[*ssa.Function]bool
	linesSeen                     map[ssa.Instruction]bool
	overflow                      string
	unmodeled                     map[string]int
}

func NewEngine(P *Program) *Engine {
	return &Engine{P: P, maxStack: 2, maxDepth: 40, maxStates: 60000,
		live: map[*ssa.Function]*liveness{}, labels: map[ssa.Instruction]string{},
		funcsSeen: map[*ssa.Function]bool{}, linesSeen: map[ssa.Instruction]bool{}, unmodeled: map[string]int{}}
}

// ---- liveness

type liveness struct {
	in    []map[ssa.Value]bool // per block index: live at entry (before phis)
	order []int                // block index -> reverse postorder number
	loop  []bool               // block is a loop header
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return false
	}
	return v != nil
}

func (e *Engine) liveOf(f *ssa.Function) *liveness {
	if l, ok := e.live[f]; ok {
		return l
	}
	n := len(f.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n), order: make([]int, n), loop: make([]bool, n)}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := e.liveOut(l, b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				stepLive(cur, b.Instrs[j])
			}
			if len(cur) != len(l.in[i]) {
				l.in[i] = cur
				changed = true
			}
		}
	}
	// reverse postorder
	seen := make([]bool, n)
	var post []int
	var onstack = make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		onstack[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			} else if onstack[s.Index] {
				l.loop[s.Index] = true
			}
		}
		onstack[b.Index] = false
		post = append(post, b.Index)
	}
	dfs(f.Blocks[0])
	for i, b := range post {
		l.order[b] = len(post) - i
	}
	e.live[f] = l
	return l
}

func (e *Engine) liveOut(l *liveness, b *ssa.BasicBlock) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s.Index] {
			cur[v] = true
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, ins := range s.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if trackable(phi.Edges[pi]) {
					cur[phi.Edges[pi]] = true
				}
			}
		}
	}
	return cur
}

func stepLive(cur map[ssa.Value]bool, ins ssa.Instruction) {
	if v, ok := ins.(ssa.Value); ok {
		delete(cur, v)
	}
	if _, ok := ins.(*ssa.Phi); ok {
		return
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && trackable(*op) {
			cur[*op] = true
		}
	}
}

// liveAfter: values needed after instruction i of b.
func (e *Engine) liveAfter(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	l := e.liveOf(b.Parent())
	cur := e.liveOut(l, b)
	for j := len(b.Instrs) - 1; j > i; j-- {
		stepLive(cur, b.Instrs[j])
	}
	return cur
}

// ---- names

func (e *Engine) label(i ssa.Instruction) string {
	if s, ok := e.labels[i]; ok {
		return s
	}
	b := i.Block()
	k := 0
	for j, x := range b.Instrs {
		if x == i {
			k = j
		}
	}
	s := fmt.Sprintf("%s.%d.%d", fnBase(b.Parent()), b.Index, k)
	e.labels[i] = s
	return s
}

func fnBase(f *ssa.Function) string {
	s := fname(f)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (e *Engine) ctxName() string {
	if len(e.ctx) == 0 {
		return ""
	}
	return e.ctx[len(e.ctx)-1] + "/"
}

// Fresh makes the symbol of this program point. If the state still knows the
// symbol from an earlier execution, the old one becomes the summary "~".
func (e *Engine) Fresh(st *State, site ssa.Instruction, sub string, t types.Type) *V {
	name := e.ctxName() + e.label(site) + sub
	s := mkSym(name, t)
	e.age(st, s, func(n string) *V { return mkSym(n, t) })
	return s
}

func (e *Engine) freshCell(st *State, site ssa.Instruction, sub string, t types.Type) *V {
	name := e.ctxName() + e.label(site) + sub
	c := mkCell(name, t)
	e.age(st, c, func(n string) *V { return mkCell(n, t) })
	return c
}

func (e *Engine) age(st *State, s *V, mk func(string) *V) {
	if !st.mentions(s) {
		return
	}
	st.rename(map[*V]*V{s: mk(s.name + "~")})
}

// ---- running

// Run analyses fn from st with the given arguments and returns the states at
// its returns.
func (e *Engine) Run(fn *ssa.Function, st *State, args []*V, binds []*V) []Outcome {
	return e.invoke(fn, st, args, binds, nil)
}

type item struct {
	b   *ssa.BasicBlock
	st  *State
	ord int
	seq int
}
type queueT []*item

func (q queueT) Len() int { return len(q) }
func (q queueT) Less(i, j int) bool {
	if q[i].ord != q[j].ord {
		return q[i].ord < q[j].ord
	}
	return q[i].seq < q[j].seq
}
func (q queueT) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *queueT) Push(x interface{}) { *q = append(*q, x.(*item)) }
func (q *queueT) Pop() interface{} {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

func (e *Engine) onStack(fn *ssa.Function) int {
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	return n
}

func (e *Engine) invoke(fn *ssa.Function, st *State, args []*V, binds []*V, site ssa.Instruction) []Outcome {
	if e.onStack(fn) >= e.maxStack || len(e.stack) >= e.maxDepth {
		e.nCut++
		return nil
	}
	e.nCalls++
	e.funcsSeen[fn] = true
	c := ""
	if len(e.ctx) > 0 {
		c = e.ctx[len(e.ctx)-1]
	}
	if site != nil {
		c += ">" + e.label(site)
	}
	e.ctx = append(e.ctx, c)
	e.stack = append(e.stack, fn)
	e.sites = append(e.sites, site)
	defer func() {
		e.ctx = e.ctx[:len(e.ctx)-1]
		e.stack = e.stack[:len(e.stack)-1]
		e.sites = e.sites[:len(e.sites)-1]
	}()

	fr := &Frame{fn: fn, env: map[ssa.Value]*V{}}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = mkSym(c+"/"+fnBase(fn)+".param."+p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		} else {
			fr.env[p] = mkSym(c+"/"+fnBase(fn)+".free."+p.Name(), p.Type())
		}
	}
	st.frames = append(append([]*Frame(nil), st.frames...), fr)
	if e.H.Enter != nil {
		e.H.Enter(e, st, fn, args)
	}
	lv := e.liveOf(fn)
	seen := map[int]map[string]bool{}
	var q queueT
	seq := 0
	push := func(b *ssa.BasicBlock, s *State) {
		seq++
		heap.Push(&q, &item{b, s, lv.order[b.Index], seq})
	}
	prune(st.top(), lv.in[0])
	push(fn.Blocks[0], st)
	var outs []Outcome
	outSeen := map[string]bool{}
	counts := map[int]int{}
	if debugCounts {
		defer func() {
			if len(counts) > 0 {
				for b, n := range counts {
					if n > 200 {
						fmt.Fprintf(os.Stderr, "  hot %s block %d: %d\n", fname(fn), b, n)
					}
				}
			}
		}()
	}
	for q.Len() > 0 {
		it := heap.Pop(&q).(*item)
		e.nStates++
		counts[it.b.Index]++
		if debugCounts && e.nStates%5000 == 0 {
			fmt.Fprintf(os.Stderr, "@%d %s block %d count %d depth %d\n", e.nStates, fname(fn), it.b.Index, counts[it.b.Index], len(e.stack))
			if e.nStates%20000 == 0 {
				fmt.Fprintln(os.Stderr, it.st.dump())
			}
		}
		if counts[it.b.Index] > e.maxStates {
			e.overflow = fmt.Sprintf("more than %d states in %s block %d", e.maxStates, fname(fn), it.b.Index)
			break
		}
		cur := []*State{it.st}
		b := it.b
		for idx, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue // assigned on the edge
			}
			e.linesSeen[ins] = true
			switch x := ins.(type) {
			case *ssa.Jump:
				for _, s := range cur {
					e.edge(s, b, b.Succs[0], 0, lv, seen, push)
				}
				cur = nil
			case *ssa.If:
				for _, s := range cur {
					c := e.eval(s, x.Cond)
					for k, truth := range []bool{true, false} {
						s2 := s
						if k == 0 {
							s2 = s.clone()
						}
						if e.H.Feasible != nil && !e.H.Feasible(e, s2, c, truth) {
							continue
						}
						if e.assume(s2, c, truth) {
							if e.H.Assume != nil {
								e.H.Assume(e, s2, c, truth)
							}
							e.edge(s2, b, b.Succs[k], k, lv, seen, push)
						}
					}
				}
				cur = nil
			case *ssa.Return:
				for _, s := range cur {
					var ret []*V
					for _, r := range x.Results {
						ret = append(ret, e.eval(s, r))
					}
					if e.H.Leave != nil {
						e.H.Leave(e, s, fn, ret)
					}
					if e.numeric {
						pre := "\x00i:" + e.ctxName()
						for k := range s.flags {
							if strings.HasPrefix(k, pre) {
								delete(s.flags, k)
							}
						}
					}
					// pop
					s.frames = append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
					if len(s.frames) > 0 {
						s.frames[len(s.frames)-1] = s.frames[len(s.frames)-1].clone()
					}
					s.flags["\x00ret"] = mkTuple(ret...)
					s.gc(e.keepConds)
					k := s.key()
					ret = s.flags["\x00ret"].args
					delete(s.flags, "\x00ret")
					if outSeen[k] {
						continue
					}
					outSeen[k] = true
					e.nPaths++
					outs = append(outs, Outcome{s, ret})
				}
				cur = nil
			case *ssa.Panic:
				if e.H.Panic != nil {
					for _, s := range cur {
						e.H.Panic(e, s, ins)
					}
				}
				cur = nil
			default:
				var next []*State
				for _, s := range cur {
					next = append(next, e.step(s, b, idx, ins)...)
				}
				cur = next
				if len(cur) > 1 && isCall(ins) {
					cur = dedupe(cur)
				}
			}
			if len(cur) == 0 {
				break
			}
		}
	}
	return outs
}

func isCall(i ssa.Instruction) bool {
	switch i.(type) {
	case *ssa.Call, *ssa.RunDefers:
		return true
	}
	return false
}

func dedupe(sts []*State) []*State {
	seen := map[string]bool{}
	var out []*State
	for _, s := range sts {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func prune(f *Frame, live map[ssa.Value]bool) {
	for k := range f.env {
		if !live[k] {
			delete(f.env, k)
		}
	}
}

func (e *Engine) edge(st *State, from, to *ssa.BasicBlock, succIdx int, lv *liveness, seen map[int]map[string]bool, push func(*ssa.BasicBlock, *State)) {
	if e.H.Edge != nil {
		e.H.Edge(e, st, from, to)
	}
	// which predecessor slot
	pi := -1
	n := 0
	for i, p := range to.Preds {
		if p == from {
			// a block may be both successors of an If
			if n == 0 || (succIdx == 1 && len(from.Succs) == 2 && from.Succs[0] == to) {
				pi = i
			}
			n++
		}
	}
	back := lv.loop[to.Index] && lv.order[from.Index] >= lv.order[to.Index]
	var phis []*ssa.Phi
	var vals []*V
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.eval(st, phi.Edges[pi]))
	}
	if back && e.unroll == 0 && e.counts(st, to, phis, vals) {
		back = false
	}
	fr := st.top()
	common := make([][]*V, len(phis))
	if back {
		for i, phi := range phis {
			if isInt(phi.Type()) && !e.numeric {
				if c, ok := vals[i].intConst(); ok && c >= -4 && c <= 4 {
					continue
				}
				if old, ok := fr.env[phi]; ok && old == vals[i] {
					continue
				}
				// what the value comes from is kept
				if old, ok := fr.env[phi]; ok {
					own := e.ctxName() + e.label(phi)
					for x := range old.syms {
						if vals[i].syms[x] && !strings.HasPrefix(x.name, own) {
							common[i] = append(common[i], x)
						}
					}
					sort.Slice(common[i], func(a, b int) bool { return common[i][a].id < common[i][b].id })
				}
				st.flags["\x00p"+strconv.Itoa(i)] = mkTuple(common[i]...)
				vals[i] = nil
			}
		}
	}
	if e.unroll > 0 && lv.loop[to.Index] && len(to.Instrs) > 0 {
		// loops that count with known numbers, or that the client sees progress
		// in, are followed round by round
		k := "\x00i:" + e.ctxName() + "u:" + e.label(to.Instrs[0])
		n := int64(0)
		prog := st.flags["progress"]
		if prog == nil {
			prog = theNil
		}
		if v, ok := st.flags[k]; ok && back {
			n, _ = v.args[0].intConst()
			moved := v.args[1] != prog
			for _, v := range vals {
				if v.isConst() && isInt(v.t) {
					moved = true
				}
			}
			if moved && n < int64(e.unroll) {
				back = false
				n++
			}
		}
		st.flags[k] = mkTuple(mkInt(n, types.Typ[types.Int]), prog)
	}
	if back && e.numeric {
		e.widenEdge(st, to, phis, vals)
	}
	if !back && e.numeric && lv.loop[to.Index] && !(lv.order[from.Index] >= lv.order[to.Index]) {
		for i, phi := range phis {
			if isInt(phi.Type()) {
				st.flags[e.initKey(phi)] = vals[i]
			}
		}
	}
	for i := range phis {
		if vals[i] != nil {
			st.flags["\x00p"+strconv.Itoa(i)] = vals[i]
		}
	}
	for i, phi := range phis {
		if vals[i] == nil {
			v := e.Fresh(st, phi, "", phi.Type())
			if k := "\x00p" + strconv.Itoa(i); len(common[i]) > 0 {
				v = mkApp("phi", phi.Type(), append([]*V{v}, st.flags[k].args...)...)
			}
			st.flags["\x00p"+strconv.Itoa(i)] = v
		}
	}
	for i, phi := range phis {
		k := "\x00p" + strconv.Itoa(i)
		fr = st.top()
		fr.env[phi] = st.flags[k]
		delete(st.flags, k)
		if e.unroll > 0 && isInt(phi.Type()) && lv.loop[to.Index] {
			st.flags[e.initKey(phi)+" now"] = fr.env[phi]
		}
		if e.H.Value != nil {
			e.H.Value(e, st, phi, fr.env[phi])
		}
	}
	keep := lv.in[to.Index]
	fr = st.top()
	for k := range fr.env {
		if keep[k] {
			continue
		}
		if p, ok := k.(*ssa.Phi); ok && p.Block() == to {
			continue
		}
		delete(fr.env, k)
	}
	if len(to.Preds) > 1 {
		st.gc(e.keepConds)
		k := st.key()
		if seen[to.Index] == nil {
			seen[to.Index] = map[string]bool{}
		}
		if seen[to.Index][k] {
			return
		}
		seen[to.Index][k] = true
	}
	push(to, st)
}

// maxTrip bounds the rounds of a loop that counts from one constant to another
// which are followed one by one.
const maxTrip = 16

// counts: the loop is left when a number that is known in every round reaches
// another known number.
func (e *Engine) counts(st *State, to *ssa.BasicBlock, phis []*ssa.Phi, vals []*V) bool {
	if len(to.Instrs) == 0 {
		return false
	}
	br, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch cmp.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return false
	}
	usesPhi := false
	var val func(v ssa.Value) *V
	val = func(v ssa.Value) *V {
		for i, p := range phis {
			if v == p {
				usesPhi = true
				return vals[i]
			}
		}
		if ins, ok := v.(ssa.Instruction); ok && ins.Block() == to {
			switch x := v.(type) {
			case *ssa.BinOp:
				a, b := val(x.X), val(x.Y)
				if a != nil && b != nil && a.isConst() && b.isConst() && (x.Op == token.ADD || x.Op == token.SUB) {
					return e.binop(st, x, x.Op, a, b, x.Type(), x.X.Type())
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if a := val(x.Call.Args[0]); a != nil {
						return e.lenOf(st, a)
					}
				}
			}
			return nil
		}
		return e.eval(st, v)
	}
	known := func(v ssa.Value) (int64, bool) {
		if !isInt(v.Type()) {
			return 0, false
		}
		x := val(v)
		if x == nil {
			return 0, false
		}
		return x.intConst()
	}
	if !fixedBound(cmp.X) || !fixedBound(cmp.Y) {
		return false
	}
	x, ok1 := known(cmp.X)
	y, ok2 := known(cmp.Y)
	return ok1 && ok2 && usesPhi && x-y <= maxTrip && y-x <= maxTrip
}

// fixedBound: v is not the length of a list that the function puts together.
func fixedBound(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return true
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return true
	}
	switch c.Call.Args[0].(type) {
	case *ssa.Parameter, *ssa.Slice, *ssa.MakeSlice, *ssa.Alloc, *ssa.Const:
		return true
	}
	return false
}

// ---- evaluation

func (e *Engine) eval(st *State, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return mkPtr(in.mk(V{k: KGlobal, g: x, t: x.Type()}), "")
	case *ssa.Function:
		return mkFunc(x, nil)
	case *ssa.Builtin:
		return mkSym("builtin."+x.Name(), nil)
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	return mkSym(e.ctxName()+"lost."+fnBase(v.Parent())+"."+v.Name(), v.Type())
}

func constVal(x *ssa.Const) *V {
	if x.Value == nil {
		return zeroOf(x.Type())
	}
	return mkConst(x.Value, x.Type())
}

func zeroOf(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*V
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return in.mk(V{k: KStruct, t: t, args: fs})
	case *types.Array:
		if u.Len() <= 32 {
			var fs []*V
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, zeroOf(u.Elem()))
			}
			return in.mk(V{k: KStruct, t: t, args: fs})
		}
		return mkApp("zeroarray", t)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
	}
	return theNil
}

func arrayLen(t types.Type) int64 {
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func splitPtr(a *V) (*V, string) {
	if a.k == KPtr {
		return a.args[0], a.name
	}
	return a, ""
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// fieldKey is "pkg.Type.field" for the innermost named struct of a location.
func fieldKey(base *V, path string) string {
	t := base.t
	if base.k == KApp && base.name == "data" {
		// elements of a slice
	}
	if base.k == KCell {
		// t is the type of the object itself
	} else if p, ok := underPtr(t); ok {
		t = p
	}
	key := ""
	for path != "" && t != nil {
		if path[0] == '.' {
			j := 1
			for j < len(path) && path[j] != '.' && path[j] != '[' {
				j++
			}
			name := path[1:j]
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return key + path
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				key = shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + name
			} else {
				key += "." + name
			}
			t = nil
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					t = st.Field(i).Type()
				}
			}
			path = path[j:]
		} else {
			j := strings.Index(path, "]")
			key += "[]"
			t = elemType(t)
			path = path[j+1:]
		}
	}
	return key
}

func underPtr(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func (e *Engine) Load(st *State, site ssa.Instruction, addr *V, t types.Type) *V {
	base, path := splitPtr(addr)
	if e.H.Load != nil {
		e.H.Load(e, st, site, loc{base, path}, t)
	}
	return e.loadLoc(st, site, base, path, t)
}

func (e *Engine) loadLoc(st *State, site ssa.Instruction, base *V, path string, t types.Type) *V {
	if v, ok := st.heap[loc{base, path}]; ok {
		return v
	}
	if s := structOf(t); s != nil && !(s.NumFields() == 0) {
		fs := make([]*V, s.NumFields())
		for i := range fs {
			fs[i] = e.loadLoc(st, site, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return mkStruct(t, fs)
	}
	if n := arrayLen(t); n >= 0 && n <= 32 && (base.k == KCell || e.numeric) {
		fs := make([]*V, n)
		at := t.Underlying().(*types.Array).Elem()
		for i := range fs {
			fs[i] = e.loadLoc(st, site, base, path+"["+strconv.Itoa(i)+"]", at)
		}
		return in.mk(V{k: KStruct, t: t, args: fs})
	}
	weak := strings.Contains(path, "[*]")
	if base.k == KCell && !weak {
		if !e.havocked(st, base, path) {
			return zeroOf(t)
		}
	}
	stable := base.k != KCell && e.P.isStable(base, path)
	var v *V
	if (stable || !st.epoch) && !weak && !(base.k == KCell) && !e.havocked(st, base, path) {
		v = in.mk(V{k: KInit, args: []*V{base}, name: path, t: t})
	} else if site != nil {
		v = e.Fresh(st, site, "@"+path, t)
	} else {
		v = mkSym("mem"+path, t)
	}
	if !weak && !(e.H.Forget != nil && !stable && e.H.Forget(loc{base, path}, t)) {
		st.heap[loc{base, path}] = v
	}
	return v
}

func (e *Engine) havocked(st *State, base *V, path string) bool {
	if _, ok := st.heap[loc{base, "[?]"}]; ok && strings.HasPrefix(path, "[") {
		return true
	}
	if _, ok := st.heap[loc{base, "?"}]; ok {
		return true
	}
	for i := 0; i < len(path); i++ {
		if path[i] == '[' && i > 0 {
			if _, ok := st.heap[loc{base, path[:i] + "[?]"}]; ok {
				return true
			}
		}
	}
	return false
}

func (e *Engine) Store(st *State, site ssa.Instruction, addr *V, v *V, t types.Type) {
	base, path := splitPtr(addr)
	if e.H.Store != nil {
		e.H.Store(e, st, site, loc{base, path}, v)
	}
	e.storeLoc(st, base, path, v, t)
}

func (e *Engine) storeLoc(st *State, base *V, path string, v *V, t types.Type) {
	if i := strings.Index(path, "[*]"); i >= 0 {
		e.havocIdx(st, base, path[:i])
		return
	}
	if s := structOf(t); s != nil && s.NumFields() > 0 {
		delete(st.heap, loc{base, path})
		for i := 0; i < s.NumFields(); i++ {
			e.storeLoc(st, base, path+"."+s.Field(i).Name(), fieldOf(v, i), s.Field(i).Type())
		}
		return
	}
	if n := arrayLen(t); n >= 0 && v.k == KStruct && int64(len(v.args)) == n {
		for i := range v.args {
			e.storeLoc(st, base, path+"["+strconv.Itoa(i)+"]", v.args[i], elemType(t))
		}
		return
	}
	if n := arrayLen(t); n > 0 {
		e.havocIdx(st, base, path)
	}
	if e.H.Forget != nil && e.H.Forget(loc{base, path}, t) {
		st.epoch = true
		return
	}
	st.heap[loc{base, path}] = v
}

// havocIdx forgets all elements below base+prefix.
func (e *Engine) havocIdx(st *State, base *V, prefix string) {
	for k := range st.heap {
		if k.base == base && strings.HasPrefix(k.path, prefix+"[") {
			delete(st.heap, k)
		}
	}
	st.heap[loc{base, prefix + "[?]"}] = mkStr("havoc")
}

// havocObj forgets the whole object.
func (e *Engine) havocObj(st *State, base *V) {
	for k := range st.heap {
		if k.base == base {
			delete(st.heap, k)
		}
	}
	st.heap[loc{base, "?"}] = mkStr("havoc")
}

// Interfere forgets everything about memory other goroutines may change.
func (e *Engine) Interfere(st *State) {
	st.epoch = true
	for k := range st.heap {
		if k.base.k == KCell || strings.HasSuffix(k.path, "?") || strings.HasSuffix(k.path, "[?]") {
			continue
		}
		if e.P.isStable(k.base, k.path) {
			continue
		}
		delete(st.heap, k)
	}
}

// ---- conditions

func (e *Engine) nilOf(st *State, v *V) int8 {
	switch v.k {
	case KNil:
		return 1
	case KIface, KFunc, KCell, KGlobal, KPtr, KSlice, KStruct, KConst:
		return 2
	}
	if f, ok := st.facts[v]; ok && f.nilness != 0 {
		return f.nilness
	}
	if v.k == KInit && v.args[0].k == KGlobal && (isError(v.t) || e.P.initNonNil(v.args[0].g)) {
		return 2
	}
	return 0
}

// decide returns 1 if the condition holds, 2 if it does not, 0 if unknown.
func (e *Engine) decide(st *State, c *V) int8 {
	if b, ok := c.boolConst(); ok {
		if b {
			return 1
		}
		return 2
	}
	if f, ok := st.facts[c]; ok && f.truth != 0 {
		return f.truth
	}
	switch c.k {
	case KUn:
		if c.name == "!" {
			switch e.decide(st, c.args[0]) {
			case 1:
				return 2
			case 2:
				return 1
			}
		}
	case KBin:
		x, y := c.args[0], c.args[1]
		if c.name == "==" {
			if x == y {
				return 1
			}
			if x.k == KNil {
				x, y = y, x
			}
			if y.k == KNil {
				return e.nilOf(st, x)
			}
			if x.k == KConst && y.k == KConst {
				if constant.Compare(x.cv, token.EQL, y.cv) {
					return 1
				}
				return 2
			}
			if x.k == KConst {
				x, y = y, x
			}
			fx := st.facts[x]
			if y.k == KConst {
				if fx.eq != nil {
					if fx.eq.k == KConst {
						if constant.Compare(fx.eq.cv, token.EQL, y.cv) {
							return 1
						}
						return 2
					}
				}
				if strings.Contains(fx.ne, ";"+y.cv.ExactString()+";") {
					return 2
				}
			}
			nx, ny := e.nilOf(st, x), e.nilOf(st, y)
			if nx != 0 && ny != 0 && nx != ny {
				return 2
			}
			if g := sentinel(y); g != nil {
				if r := e.decideSentinel(st, x, g, y); r != 0 {
					return r
				}
			}
			if g := sentinel(x); g != nil {
				if r := e.decideSentinel(st, y, g, x); r != 0 {
					return r
				}
			}
			if x.k == KIface && y.k == KIface {
				if !types.Identical(x.t, y.t) {
					return 2
				}
			}
			if distinctBases(x, y) {
				return 2
			}
			if x.k == KStruct && y.k == KStruct && len(x.args) == len(y.args) {
				all := true
				for i := range x.args {
					switch e.decide(st, mkEq(x.args[i], y.args[i])) {
					case 2:
						return 2
					case 0:
						all = false
					}
				}
				if all {
					return 1
				}
			}
		}
		if e.numeric {
			return e.decideNum(st, c)
		}
	case KApp:
		if e.numeric && c.name == "ge0" {
			return e.decideNum(st, c)
		}
	}
	return 0
}

func distinctBases(x, y *V) bool {
	bx, _ := splitPtr(x)
	by, _ := splitPtr(y)
	if x.k == KPtr && y.k == KPtr && bx != by && bx.k == KCell && by.k == KCell {
		return !strings.HasSuffix(bx.name, "~") && !strings.HasSuffix(by.name, "~")
	}
	return false
}

// sentinel returns the global if v is the value of an error variable.
func sentinel(v *V) *ssa.Global {
	if v.k == KInit && v.args[0].k == KGlobal && v.name == "" && isError(v.t) {
		return v.args[0].g
	}
	return nil
}

func (e *Engine) decideSentinel(st *State, x *V, g *ssa.Global, y *V) int8 {
	if gx := sentinel(x); gx != nil {
		if gx == g {
			return 1
		}
		return 2
	}
	if x.k == KApp && x.name == "newerr" || x.k == KIface {
		return 2
	}
	f := st.facts[x]
	if f.eq != nil {
		if f.eq == y {
			return 1
		}
		if sentinel(f.eq) != nil {
			return 2
		}
	}
	if strings.Contains(f.ne, ";g"+g.Name()+";") {
		return 2
	}
	if f.nilness == 1 {
		return 2
	}
	if f.tag != "" && e.H.Sentinel != nil && !e.H.Sentinel(e, f, g) {
		return 2
	}
	return 0
}

// unshift turns x + c == k into x == k - c, and x - c == k into x == k + c.
// Both hold for wrapping integers as well, modulo 2 to the width of the type.
func unshift(x, y *V) (*V, *V) {
	if x.k == KConst && y.k != KConst {
		x, y = y, x
	}
	for y.k == KConst && y.cv.Kind() == constant.Int && x.k == KBin && (x.name == "+" || x.name == "-") && len(x.args) == 2 && isInt(x.t) {
		a, c := x.args[0], x.args[1]
		if a.k == KConst && x.name == "+" {
			a, c = c, a
		}
		b, ok := x.t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsUnsigned == 0 || c.k != KConst || c.cv.Kind() != constant.Int || a.t == nil || !types.Identical(a.t, x.t) {
			break
		}
		op := token.SUB
		if x.name == "-" {
			op = token.ADD
		}
		mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(8*types.SizesFor("gc", "amd64").Sizeof(x.t)))
		k := constant.BinaryOp(y.cv, op, c.cv)
		if constant.Sign(k) < 0 {
			k = constant.BinaryOp(k, token.ADD, mod)
		}
		if constant.Compare(k, token.GEQ, mod) {
			k = constant.BinaryOp(k, token.SUB, mod)
		}
		x, y = a, mkConst(k, x.t)
	}
	return x, y
}

// mkEq builds x == y in canonical order.
func mkEq(x, y *V) *V {
	if x.k == KConst && y.k != KConst || x.k == KNil || (x.id > y.id && y.k != KConst && y.k != KNil) {
		x, y = y, x
	}
	return in.mk(V{k: KBin, name: "==", args: []*V{x, y}, t: types.Typ[types.Bool]})
}

func mkNot(x *V) *V {
	if b, ok := x.boolConst(); ok {
		return mkBool(!b)
	}
	if x.k == KUn && x.name == "!" {
		return x.args[0]
	}
	return in.mk(V{k: KUn, name: "!", args: []*V{x}, t: types.Typ[types.Bool]})
}

func mkLess(x, y *V) *V {
	if x.k == KConst && y.k == KConst {
		return mkBool(constant.Compare(x.cv, token.LSS, y.cv))
	}
	return in.mk(V{k: KBin, name: "<", args: []*V{x, y}, t: types.Typ[types.Bool]})
}

// assume adds the condition to the state; false if it cannot hold.
func (e *Engine) assume(st *State, c *V, truth bool) bool {
	switch e.decide(st, c) {
	case 1:
		return truth
	case 2:
		return !truth
	}
	if c.k == KUn && c.name == "!" {
		return e.assume(st, c.args[0], !truth)
	}
	f := st.facts[c]
	if truth {
		f.truth = 1
	} else {
		f.truth = 2
	}
	if c.k == KBin && c.name == "==" {
		x, y := c.args[0], c.args[1]
		if y.k == KNil {
			fx := st.facts[x]
			fx.nilness = 2
			if truth {
				fx.nilness = 1
			}
			st.facts[x] = fx
			return true
		}
		if y.k == KConst {
			fx := st.facts[x]
			if truth {
				fx.eq = y
			} else {
				fx.ne = addName(fx.ne, y.cv.ExactString())
			}
			st.facts[x] = fx
			if e.numeric {
				return e.feasible(st)
			}
			return true
		}
		for _, p := range [][2]*V{{x, y}, {y, x}} {
			if g := sentinel(p[1]); g != nil {
				fx := st.facts[p[0]]
				if truth {
					fx.eq = p[1]
					fx.nilness = 2
				} else {
					fx.ne = addName(fx.ne, "g"+g.Name())
				}
				st.facts[p[0]] = fx
				return true
			}
		}
		if truth && e.numeric && x.k == KStruct && y.k == KStruct && len(x.args) == len(y.args) {
			for i := range x.args {
				if !e.assume(st, e.simpl(mkEq(x.args[i], y.args[i])), true) {
					return false
				}
			}
		}
		if truth {
			// x == y: share nilness
			nx, ny := e.nilOf(st, x), e.nilOf(st, y)
			if nx != 0 && ny == 0 {
				fy := st.facts[y]
				fy.nilness = nx
				st.facts[y] = fy
			} else if ny != 0 && nx == 0 {
				fx := st.facts[x]
				fx.nilness = ny
				st.facts[x] = fx
			}
		}
	}
	st.facts[c] = f
	if e.numeric {
		return e.feasible(st)
	}
	return true
}

func addName(set, n string) string {
	if strings.Contains(set, ";"+n+";") {
		return set
	}
	var l []string
	for _, s := range strings.Split(set, ";") {
		if s != "" {
			l = append(l, s)
		}
	}
	l = append(l, n)
	sort.Strings(l)
	return ";" + strings.Join(l, ";") + ";"
}

// ---- instructions

func (e *Engine) set(st *State, i ssa.Value, v *V) {
	st.top().env[i] = v
	if e.H.Value != nil {
		e.H.Value(e, st, i, v)
	}
}

func (e *Engine) step(st *State, b *ssa.BasicBlock, idx int, ins ssa.Instruction) []*State {
	one := []*State{st}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		c := e.freshCell(st, x, "", t)
		for k := range st.heap {
			if k.base == c {
				delete(st.heap, k)
			}
		}
		e.set(st, x, mkPtr(c, ""))
	case *ssa.BinOp:
		e.set(st, x, e.binop(st, x, x.Op, e.eval(st, x.X), e.eval(st, x.Y), x.Type(), x.X.Type()))
	case *ssa.UnOp:
		v := e.eval(st, x.X)
		switch x.Op {
		case token.MUL:
			e.set(st, x, e.Load(st, x, v, x.Type()))
		case token.NOT:
			e.set(st, x, mkNot(v))
		case token.ARROW:
			if e.H.Block != nil {
				e.H.Block(e, st, x)
			}
			if e.H.Arrive != nil {
				t := x.Type()
				if x.CommaOk {
					t = t.(*types.Tuple).At(0).Type()
				}
				if os := e.H.Arrive(e, st, x, v, t); os != nil {
					var out []*State
					for _, o := range os {
						r := o.ret[0]
						if x.CommaOk {
							if len(o.ret) == 1 {
								o.ret = append(o.ret, e.Fresh(o.st, x, ".ok", types.Typ[types.Bool]))
							}
							r = mkTuple(o.ret...)
						}
						e.set(o.st, x, r)
						out = append(out, o.st)
					}
					return out
				}
			}
			if x.CommaOk {
				t := x.Type().(*types.Tuple)
				e.set(st, x, mkTuple(e.Fresh(st, x, ".v", t.At(0).Type()), e.Fresh(st, x, ".ok", t.At(1).Type())))
			} else {
				v2 := e.Fresh(st, x, "", x.Type())
				if e.H.Recv != nil {
					e.H.Recv(e, st, x, v, v2)
				}
				e.set(st, x, v2)
			}
		case token.SUB:
			if v.k == KConst {
				e.set(st, x, mkConst(constant.UnaryOp(token.SUB, v.cv, 0), x.Type()))
			} else {
				e.set(st, x, e.arith(st, x, token.SUB, mkInt(0, x.Type()), v, x.Type()))
			}
		default:
			if e.bitmode && x.Op == token.XOR {
				e.set(st, x, bitNot(v, x.Type()))
			} else {
				e.set(st, x, in.mk(V{k: KUn, name: x.Op.String(), args: []*V{v}, t: x.Type()}))
			}
		}
	case *ssa.ChangeInterface:
		e.set(st, x, e.eval(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, e.retype(e.eval(st, x.X), x.Type()))
	case *ssa.Convert:
		e.set(st, x, e.convert(st, x, e.eval(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		e.set(st, x, e.Fresh(st, x, "", x.Type()))
	case *ssa.MakeInterface:
		e.set(st, x, mkIface(x.X.Type(), e.eval(st, x.X)))
	case *ssa.MakeClosure:
		var bs []*V
		for _, v := range x.Bindings {
			bs = append(bs, e.eval(st, v))
		}
		e.set(st, x, mkFunc(x.Fn.(*ssa.Function), bs))
	case *ssa.MakeMap, *ssa.MakeChan:
		v := ins.(ssa.Value)
		s := e.Fresh(st, ins, "", v.Type())
		f := st.facts[s]
		f.nilness = 2
		st.facts[s] = f
		e.set(st, v, s)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln := e.eval(st, x.Len)
		var ct types.Type = types.NewArray(et, -1)
		if n, ok := ln.intConst(); ok {
			ct = types.NewArray(et, n)
		}
		c := e.freshCell(st, x, "", ct)
		for k := range st.heap {
			if k.base == c {
				delete(st.heap, k)
			}
		}
		e.set(st, x, e.mkSlice(mkPtr(c, ""), mkInt(0, types.Typ[types.Int]), ln, x.Type()))
	case *ssa.Slice:
		if e.H.Cut != nil {
			if os := e.H.Cut(e, st, x, e.eval(st, x.X)); os != nil {
				var out []*State
				for _, o := range os {
					e.set(o.st, x, o.ret[0])
					out = append(out, o.st)
				}
				return out
			}
		}
		e.set(st, x, e.sliceOp(st, x))
	case *ssa.FieldAddr:
		st0 := structOf(elemType(x.X.Type()))
		e.set(st, x, e.typedPtr(mkPtr(e.eval(st, x.X), "."+st0.Field(x.Field).Name()), x.Type()))
	case *ssa.Field:
		e.set(st, x, fieldOf(e.eval(st, x.X), x.Field))
	case *ssa.IndexAddr:
		v := e.eval(st, x.X)
		i := e.eval(st, x.Index)
		if e.H.Index != nil {
			if os := e.H.Index(e, st, x, v, i); os != nil {
				var out []*State
				for _, o := range os {
					e.set(o.st, x, o.ret[0])
					out = append(out, o.st)
				}
				return out
			}
		}
		var r *V
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			r = mkPtr(v, idxPath(i))
			if n := arrayLen(elemType(x.X.Type())); n >= 0 && e.H.Bounds != nil {
				e.bounds(st, x, i, e.arith(st, x, token.ADD, mkConvTo(i, types.Typ[types.Int]), mkInt(1, types.Typ[types.Int]), types.Typ[types.Int]), mkInt(n, types.Typ[types.Int]))
			}
		} else {
			base, lo, ln := e.sliceParts(st, v)
			if e.H.Bounds != nil {
				e.bounds(st, x, i, e.arith(st, x, token.ADD, mkConvTo(i, types.Typ[types.Int]), mkInt(1, types.Typ[types.Int]), types.Typ[types.Int]), ln)
			}
			r = mkPtr(base, idxPath(e.arith(st, x, token.ADD, lo, i, types.Typ[types.Int])))
		}
		e.set(st, x, r)
	case *ssa.Index:
		v := e.eval(st, x.X)
		i := e.eval(st, x.Index)
		if c, ok := i.intConst(); ok && v.k == KStruct && int(c) < len(v.args) {
			e.set(st, x, v.args[c])
		} else if v.k == KConst || i.k == KConst {
			e.set(st, x, mkApp("index", x.Type(), v, i))
		} else {
			e.set(st, x, e.Fresh(st, x, "", x.Type()))
		}
	case *ssa.Lookup:
		m := e.eval(st, x.X)
		k := e.eval(st, x.Index)
		_, isMap := x.X.Type().Underlying().(*types.Map)
		if isMap && e.H.Load != nil {
			e.H.Load(e, st, x, loc{m, "[map]"}, x.Type())
		}
		_ = k
		if x.CommaOk {
			t := x.Type().(*types.Tuple)
			e.set(st, x, mkTuple(e.Fresh(st, x, ".v", t.At(0).Type()), e.Fresh(st, x, ".ok", t.At(1).Type())))
		} else {
			e.set(st, x, e.Fresh(st, x, "", x.Type()))
		}
	case *ssa.MapUpdate:
		m := e.eval(st, x.Map)
		if e.H.Store != nil {
			e.H.Store(e, st, x, loc{m, "[map]"}, e.eval(st, x.Value))
		}
	case *ssa.Range:
		m := e.eval(st, x.X)
		if e.H.Load != nil {
			e.H.Load(e, st, x, loc{m, "[map]"}, nil)
		}
		e.set(st, x, e.Fresh(st, x, "", x.Type()))
	case *ssa.Next:
		t := x.Type().(*types.Tuple)
		var vs []*V
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, e.Fresh(st, x, "."+strconv.Itoa(i), t.At(i).Type()))
		}
		e.set(st, x, mkTuple(vs...))
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Extract:
		v := e.eval(st, x.Tuple)
		if v.k == KTuple && x.Index < len(v.args) {
			e.set(st, x, v.args[x.Index])
		} else {
			e.set(st, x, e.Fresh(st, x, "", x.Type()))
		}
	case *ssa.Store:
		e.Store(st, x, e.eval(st, x.Addr), e.eval(st, x.Val), x.Val.Type())
	case *ssa.Send:
		if e.H.Block != nil {
			e.H.Block(e, st, x)
		}
	case *ssa.Select:
		if e.H.Block != nil && x.Blocking {
			e.H.Block(e, st, x)
		}
		t := x.Type().(*types.Tuple)
		var out []*State
		n := len(x.States)
		lo := 0
		if !x.Blocking {
			lo = -1
		}
		for k := lo; k < n; k++ {
			s := st.clone()
			vs := []*V{mkInt(int64(k), t.At(0).Type())}
			for i := 1; i < t.Len(); i++ {
				vs = append(vs, e.Fresh(s, x, "."+strconv.Itoa(i), t.At(i).Type()))
			}
			if e.H.Case != nil && !e.H.Case(e, s, x, k, vs) {
				continue
			}
			if e.H.Arrive != nil && k >= 0 && x.States[k].Dir == types.RecvOnly {
				i := 2
				for _, o := range x.States[:k] {
					if o.Dir == types.RecvOnly {
						i++
					}
				}
				if os := e.H.Arrive(e, s, x, e.eval(s, x.States[k].Chan), t.At(i).Type()); os != nil {
					for _, o := range os {
						ws := append([]*V(nil), vs...)
						ws[i] = o.ret[0]
						if len(o.ret) > 1 {
							ws[1] = o.ret[1]
						}
						e.set(o.st, x, mkTuple(ws...))
						out = append(out, o.st)
					}
					continue
				}
			}
			e.set(s, x, mkTuple(vs...))
			out = append(out, s)
		}
		return out
	case *ssa.Go:
		if e.H.Go != nil {
			c := e.callInfo(st, x, &x.Call)
			e.H.Go(e, st, c)
		}
	case *ssa.Defer:
		c := e.callInfo(st, x, &x.Call)
		d := deferred{call: &x.Call, recv: c.recv, args: c.args, site: x}
		if c.fn != nil {
			d.fn = mkFunc(c.fn, c.binds)
		}
		fr := st.top()
		fr.defers = append(append([]deferred(nil), fr.defers...), d)
	case *ssa.RunDefers:
		return e.runDefers(st, b, idx)
	case *ssa.Call:
		c := e.callInfo(st, x, &x.Call)
		// keep only what is needed after the call
		live := e.liveAfter(b, idx)
		prune(st.top(), live)
		outs := e.call(st, c)
		var res []*State
		for _, o := range outs {
			rt := x.Type()
			if t, ok := rt.(*types.Tuple); ok {
				if t.Len() > 0 {
					e.set(o.st, x, mkTuple(o.ret...))
				}
			} else if len(o.ret) > 0 {
				e.set(o.st, x, o.ret[0])
			}
			res = append(res, o.st)
		}
		return res
	default:
		if v, ok := ins.(ssa.Value); ok {
			e.set(st, v, e.Fresh(st, ins, "", v.Type()))
		}
	}
	return one
}

// typedPtr keeps the Go type of an address that is an opaque base.
func (e *Engine) typedPtr(v *V, t types.Type) *V { return v }

func (e *Engine) retype(v *V, t types.Type) *V {
	switch v.k {
	case KConst:
		return mkConst(v.cv, t)
	case KStruct:
		return in.mk(V{k: KStruct, t: t, args: v.args})
	}
	return v
}

func idxPath(i *V) string {
	if c, ok := i.intConst(); ok {
		return "[" + strconv.FormatInt(c, 10) + "]"
	}
	return "[*]"
}

func (e *Engine) mkSlice(ptr, lo, ln *V, t types.Type) *V {
	return in.mk(V{k: KSlice, args: []*V{ptr, lo, ln}, t: t})
}

// sliceParts: base address, first index, length.
func (e *Engine) sliceParts(st *State, v *V) (*V, *V, *V) {
	tInt := types.Typ[types.Int]
	switch v.k {
	case KSlice:
		return v.args[0], v.args[1], v.args[2]
	case KNil:
		return mkPtr(mkCell("nilslice", nil), ""), mkInt(0, tInt), mkInt(0, tInt)
	}
	return mkApp("data", nil, v), mkInt(0, tInt), e.lenOf(st, v)
}

func (e *Engine) lenOf(st *State, v *V) *V {
	tInt := types.Typ[types.Int]
	switch v.k {
	case KSlice:
		return v.args[2]
	case KNil:
		return mkInt(0, tInt)
	case KConst:
		if v.cv.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(v.cv))), tInt)
		}
	case KStruct:
		return mkInt(int64(len(v.args)), tInt)
	}
	if v.t != nil {
		if n := arrayLen(v.t); n >= 0 {
			return mkInt(n, tInt)
		}
		if p, ok := underPtr(v.t); ok {
			if n := arrayLen(p); n >= 0 {
				return mkInt(n, tInt)
			}
		}
	}
	return mkApp("len", tInt, v)
}

func (e *Engine) sliceOp(st *State, x *ssa.Slice) *V {
	tInt := types.Typ[types.Int]
	v := e.eval(st, x.X)
	var base, lo, ln *V
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		base, lo = v, mkInt(0, tInt)
		ln = mkInt(p.Elem().Underlying().(*types.Array).Len(), tInt)
	} else if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return e.Fresh(st, x, "", x.Type())
	} else {
		if x.Low == nil && x.High == nil {
			return v
		}
		base, lo, ln = e.sliceParts(st, v)
	}
	low := mkInt(0, tInt)
	if x.Low != nil {
		low = e.eval(st, x.Low)
	}
	hi := ln
	if x.High != nil {
		hi = e.eval(st, x.High)
	}
	e.bounds(st, x, low, hi, ln)
	low, hi = mkConvTo(low, tInt), mkConvTo(hi, tInt)
	return e.mkSlice(base, e.arith(st, x, token.ADD, lo, low, tInt), e.arith(st, x, token.SUB, hi, low, tInt), x.Type())
}

// bounds reports an access to the client; a path goes on only if it is in bounds.
func (e *Engine) bounds(st *State, site ssa.Instruction, lo, hi, max *V) {
	if e.H.Bounds == nil {
		return
	}
	e.H.Bounds(e, st, site, lo, hi, max)
	tInt := types.Typ[types.Int]
	lo, hi = mkConvTo(lo, tInt), mkConvTo(hi, tInt)
	e.assumeLe(st, mkInt(0, tInt), lo)
	e.assumeLe(st, lo, hi)
	e.assumeLe(st, hi, max)
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := e.eval(st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	finish := func(s *State, val *V, ok int) {
		if x.CommaOk {
			if ok == 0 {
				val = zeroOf(x.AssertedType)
			}
			e.set(s, x, mkTuple(val, mkBool(ok == 1)))
		} else {
			e.set(s, x, val)
		}
	}
	if v.k == KIface {
		match := types.Identical(v.t, x.AssertedType)
		val := v.args[0]
		if toIface {
			match = types.Implements(v.t, x.AssertedType.Underlying().(*types.Interface))
			val = v
		}
		if match {
			finish(st, val, 1)
		} else {
			if !x.CommaOk {
				return nil
			}
			finish(st, nil, 0)
		}
		return []*State{st}
	}
	if v.k == KNil || e.nilOf(st, v) == 1 {
		if !x.CommaOk {
			return nil
		}
		finish(st, nil, 0)
		return []*State{st}
	}
	val := v
	if !toIface {
		val = in.mk(V{k: KAs, args: []*V{v}, t: x.AssertedType})
	}
	f := st.facts[v]
	name := strconv.Itoa(in.tid(x.AssertedType))
	canBe, mustBe := true, false
	if f.dyn != nil {
		if toIface {
			mustBe = types.Implements(f.dyn, x.AssertedType.Underlying().(*types.Interface))
			canBe = mustBe
		} else {
			mustBe = types.Identical(f.dyn, x.AssertedType)
			canBe = mustBe
		}
	} else if strings.Contains(f.notdyn, ";"+name+";") {
		canBe = false
	}
	var out []*State
	if canBe {
		s := st
		if x.CommaOk && !mustBe {
			s = st.clone()
		}
		g := s.facts[v]
		g.nilness = 2
		if !toIface {
			g.dyn = x.AssertedType
			g.notdyn = ""
		}
		s.facts[v] = g
		finish(s, val, 1)
		out = append(out, s)
	}
	if x.CommaOk && !mustBe {
		g := st.facts[v]
		if g.dyn == nil {
			g.notdyn = addName(g.notdyn, name)
		}
		st.facts[v] = g
		finish(st, nil, 0)
		out = append(out, st)
	}
	return out
}

func (e *Engine) binop(st *State, site ssa.Instruction, op token.Token, x, y *V, t, xt types.Type) *V {
	switch op {
	case token.EQL:
		return e.simpl(mkEq(unshift(x, y)))
	case token.NEQ:
		return mkNot(e.simpl(mkEq(unshift(x, y))))
	case token.LSS:
		return mkLess(x, y)
	case token.GTR:
		return mkLess(y, x)
	case token.LEQ:
		return mkNot(mkLess(y, x))
	case token.GEQ:
		return mkNot(mkLess(x, y))
	case token.LAND, token.LOR:
		return e.Fresh(st, site, "", t)
	}
	return e.arith(st, site, op, x, y, t)
}

func (e *Engine) simpl(c *V) *V {
	x, y := c.args[0], c.args[1]
	if x == y && (x.t == nil || !isFloat(x.t)) {
		return mkBool(true)
	}
	if x.k == KConst && y.k == KConst {
		return mkBool(constant.Compare(x.cv, token.EQL, y.cv))
	}
	if e.strs && x.t != nil && types.Identical(x.t.Underlying(), types.Typ[types.String]) {
		switch strEq(x, y) {
		case 1:
			return mkBool(true)
		case 2:
			return mkBool(false)
		}
	}
	if y.k == KConst && isBool(x.t) {
		if b, _ := y.boolConst(); b {
			return x
		}
		return mkNot(x)
	}
	return c
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

var debugCounts = os.Getenv("CHK_HOT") != ""
