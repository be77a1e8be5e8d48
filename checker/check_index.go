package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24, C25, C33: the index of lumps, and the operations of the store that are
// answered from it. The tree is abstract: a query gives the first id at or
// behind its bound, or says that there is none.
//
// While a range is walked, everything in front of the cursor is done; the id at
// the cursor is present and either pending or visited.

type indexCk struct {
	P        *Program
	r        *Report
	e        *Engine
	idx, sto *types.Named
	idT      *types.Named
	u64      *ssa.Function
	count    *ssa.Function
	where    string
	fnc      *ssa.Function
	start    *V // nil: 0
	list     *V
	walk     bool // the rules of a walk apply
	iter     bool
	max      *V
	quiet    bool
}

func (c *indexCk) bad(rule string, st *State, format string, a ...interface{}) {
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	if c.quiet {
		return
	}
	c.r.Add(rule, c.where, c.P.pos(c.fnc), fmt.Sprintf(format, a...), tr)
}

// idOf is the number of an id.
func (c *indexCk) idOf(st *State, v *V) *V {
	h, n := c.e.H, c.e.nStates
	c.e.H = Hooks{}
	outs := c.e.Run(c.u64, st.clone(), []*V{v}, nil)
	c.e.H, c.e.nStates = h, n
	if len(outs) != 1 {
		return mkSym("id?", tU64())
	}
	return outs[0].ret[0]
}

func flag1(st *State, k string) *V {
	if t := st.flags[k]; t != nil {
		return t.args[0]
	}
	return nil
}

func num1(st *State, k string) *V {
	if v := flag1(st, k); v != nil {
		return v
	}
	return mkU64(0)
}

func (c *indexCk) less(st *State, a, b *V) bool { return c.e.decide(st, mkLess(a, b)) == 1 }

// query: ids at or behind lo (behind it, if strict).
func (c *indexCk) query(e *Engine, st *State, ci *CallInfo, strict bool) []Outcome {
	lo := ci.args[1]
	cur, seen := flag1(st, "L:cur"), st.flag("cur")
	if c.walk {
		at := "the range"
		switch {
		case st.flag("exhausted") != "":
			c.bad("walk", st, "the walk goes on behind the last id")
		case cur == nil:
			ok := false
			if c.start == nil {
				ok = !strict && e.numEq(st, lo, mkU64(0))
			} else {
				ok = !strict && e.numEq(st, lo, c.start)
			}
			if !ok {
				c.bad("walk", st, "%s is not entered at its start", at)
			}
		case seen == "visited" && strict && e.numEq(st, lo, cur):
		case seen == "visited" && !strict && c.start != nil && st.flag("handed") == "" && e.numEq(st, lo, c.start):
			// what was seen so far is removed
		case seen == "visited" && !strict && c.less(st, cur, lo) && e.numEq(st, lo, mkAdd(cur, mkU64(1))):
		case seen == "pending" && strict:
			// an id is passed over
			if c.inside(st, cur) != 2 {
				c.bad("walk", st, "an id in the range is passed over")
			}
		default:
			c.bad("walk", st, "the walk does not go on right behind the id it is at")
		}
	}
	st.note("query of the index")
	st.flags["q"] = mkStr("q")
	st.flags["\x00lo"] = mkTuple(lo)
	no := st.clone()
	k := e.Fresh(st, ci.site, "k", tU64())
	lo = flag1(st, "\x00lo")
	delete(st.flags, "\x00lo")
	delete(no.flags, "\x00lo")
	v := e.Fresh(st, ci.site, "v", tU64())
	st.flags["L:cur"] = mkTuple(k)
	st.flags["L:val"] = mkTuple(v)
	st.flags["cur"] = mkStr("pending")
	var outs []Outcome
	good := true
	if strict {
		good = e.assume(st, mkLess(lo, k), true)
	} else {
		good = e.assumeLe(st, lo, k)
	}
	if good {
		outs = append(outs, Outcome{st, c.qret(ci, k, v, true)})
	}
	no.flags["exhausted"] = mkStr("y")
	no.note("no more ids")
	outs = append(outs, Outcome{no, c.qret(ci, mkU64(0), mkU64(0), false)})
	return outs
}

func (c *indexCk) qret(ci *CallInfo, k, v *V, ok bool) []*V {
	if ci.sig.Results().Len() == 2 {
		return []*V{k, mkBool(ok)}
	}
	return []*V{k, v, mkBool(ok)}
}

// inside: 1 the id is in the range, 2 it is not, 0 unknown.
func (c *indexCk) inside(st *State, k *V) int8 {
	end := flag1(st, "end")
	if end == nil {
		return 1
	}
	return c.e.decide(st, mkLess(k, end))
}

func (c *indexCk) visit(st *State, id *V, what string) {
	if !c.walk {
		return
	}
	cur, seen := flag1(st, "L:cur"), st.flag("cur")
	if cur == nil || st.flag("exhausted") != "" {
		c.bad("visit", st, "an id is %s which the index did not give", what)
		return
	}
	if !c.e.numEq(st, id, cur) {
		c.bad("visit", st, "the id that is %s is not the one the walk is at", what)
		return
	}
	if seen == "visited" {
		c.bad("visit", st, "an id is %s twice", what)
	}
	if c.inside(st, cur) != 1 {
		c.bad("visit", st, "an id at or behind the end is %s", what)
	}
	c.r.Ok("visit", c.where)
	if what != "removed" {
		st.setFlag("handed", "y")
	}
	st.flags["cur"] = mkStr("visited")
	st.flags["visited"] = mkStr("y")
	n := num1(st, "L:n")
	c.e.assumeLe(st, n, mkU64(1<<62))
	st.flags["L:n"] = mkTuple(mkAdd(n, mkU64(1)))
	st.note("the id is " + what)
}

func (c *indexCk) has(st *State, id *V) (known, is bool) {
	for _, x := range stoks(st, "has") {
		if c.e.numEq(st, x.args[0], id) {
			return true, x.args[1].isTrue()
		}
	}
	return false, false
}

func (c *indexCk) setHas(st *State, id *V, is bool) {
	var l []*V
	for _, x := range stoks(st, "has") {
		if !c.e.numEq(st, x.args[0], id) {
			l = append(l, x)
		}
	}
	st.flags["has"] = mkTuple(append(l, mkTuple(id, mkBool(is)))...)
}

func (v *V) isTrue() bool { return v == mkBool(true) }

func (c *indexCk) change(st *State, what string, by int64) {
	k := "L:add"
	if by < 0 {
		k = "L:sub"
	}
	n := mkAdd(num1(st, k), mkU64(1))
	st.flags[k] = mkTuple(n)
	if keep := st.flags["keepC"]; by < 0 && keep != nil {
		// no more than there were
		c.e.assumeLe(st, num1(st, "L:sub"), mkU64(1<<62))
		c.e.assumeLe(st, n, keep.args[0])
	}
	st.note("an id is " + what)
}

func (c *indexCk) call(base func(*Engine, *State, *CallInfo) ([]Outcome, bool)) func(*Engine, *State, *CallInfo) ([]Outcome, bool) {
	return func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
		switch judyRecv(ci) {
		case "JudyL":
			switch ci.fn.Name() {
			case "First":
				return c.query(e, st, ci, false), true
			case "Next":
				return c.query(e, st, ci, true), true
			case "Last":
				st.flags["\x00lo"] = mkTuple(ci.args[1])
				no := st.clone()
				k := e.Fresh(st, ci.site, "k", tU64())
				v := e.Fresh(st, ci.site, "v", tU64())
				lo := flag1(st, "\x00lo")
				delete(st.flags, "\x00lo")
				delete(no.flags, "\x00lo")
				st.flags["last"] = mkTuple(k, lo)
				no.flags["nolast"] = mkTuple(lo)
				outs := []Outcome{{no, []*V{mkU64(0), mkU64(0), mkBool(false)}}}
				if e.assumeLe(st, k, lo) {
					outs = append(outs, Outcome{st, []*V{k, v, mkBool(true)}})
				}
				return outs, true
			case "FirstEmpty":
				st.flags["\x00lo"] = mkTuple(ci.args[1])
				no := st.clone()
				k := e.Fresh(st, ci.site, "k", tU64())
				lo := flag1(st, "\x00lo")
				delete(st.flags, "\x00lo")
				delete(no.flags, "\x00lo")
				st.flags["hole"] = mkTuple(k, lo)
				no.flags["nohole"] = mkTuple(lo)
				outs := []Outcome{{no, []*V{mkU64(0), mkBool(false)}}}
				if e.assumeLe(st, lo, k) {
					outs = append(outs, Outcome{st, []*V{k, mkBool(true)}})
				}
				return outs, true
			case "Get":
				id := ci.args[1]
				if known, is := c.has(st, id); known {
					if is {
						v := e.Fresh(st, ci.site, "v", tU64())
						return one(v, mkBool(true))
					}
					return one(mkU64(0), mkBool(false))
				}
				no := st.clone()
				c.setHas(no, id, false)
				c.setHas(st, id, true)
				v := e.Fresh(st, ci.site, "v", tU64())
				return []Outcome{{st, []*V{v, mkBool(true)}}, {no, []*V{mkU64(0), mkBool(false)}}}, true
			case "Insert":
				id := ci.args[1]
				known, is := c.has(st, id)
				if known && is {
					return one()
				}
				var outs []Outcome
				if !known {
					o := st.clone()
					c.setHas(o, id, true)
					o.note("an id is replaced")
					outs = append(outs, Outcome{o, nil})
				}
				c.change(st, "added", 1)
				c.setHas(st, id, true)
				return append(outs, Outcome{st, nil}), true
			case "Delete":
				id := ci.args[1]
				if c.walk {
					// the id the walk is at
					c.visit(st, id, "removed")
					c.change(st, "removed", -1)
					return one(mkBool(true))
				}
				known, is := c.has(st, id)
				if known && !is {
					return one(mkBool(false))
				}
				var outs []Outcome
				if !known {
					o := st.clone()
					c.setHas(o, id, false)
					outs = append(outs, Outcome{o, []*V{mkBool(false)}})
				}
				c.change(st, "removed", -1)
				c.setHas(st, id, false)
				return append(outs, Outcome{st, []*V{mkBool(true)}}), true
			case "Free":
				st.flags["freed"] = mkStr("y")
			}
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case "Judy1":
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		if out, ok := atomicOp(e, st, ci); ok {
			return out, true
		}
		if strings.HasPrefix(ci.name, "(*sync.") || strings.HasPrefix(ci.name, "fmt.") {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		if ci.fn == nil && ci.method == nil && ci.sig != nil && !strings.HasPrefix(ci.name, "builtin.") && c.walk && c.iter {
			if ci.sig.Params().Len() >= 1 && types.Identical(ci.sig.Params().At(0).Type(), c.idT) {
				c.visit(st, c.idOf(st, ci.args[0]), "handed out")
				if v := flag1(st, "L:val"); v != nil && len(ci.args) > 1 && !hasSym(ci.args[1], v) {
					c.bad("visit", st, "what is handed out with an id is not its portion")
				}
				rs := e.freshResults(st, ci)
				if len(rs) == 1 {
					bad := st.clone()
					f := bad.facts[rs[0]]
					f.nilness = 2
					bad.facts[rs[0]] = f
					bad.flags["refused"] = mkTuple(rs[0])
					f = st.facts[rs[0]]
					f.nilness = 1
					st.facts[rs[0]] = f
					return []Outcome{{st, rs}, {bad, rs}}, true
				}
				return []Outcome{{st, rs}}, true
			}
		}
		return base(e, st, ci)
	}
}

func (c *indexCk) builtin(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	switch ci.name {
	case "builtin.append":
		if sl, ok := ci.sig.Results().At(0).Type().Underlying().(*types.Slice); ok && c.walk && types.Identical(sl.Elem(), c.idT) {
			return c.appendTo(e, st, ci)
		}
	case "builtin.len":
		if c.list != nil && ci.args[0] == c.list {
			return one(mkConvTo(num1(st, "L:n"), types.Typ[types.Int]))
		}
	}
	return nil, false
}

// atomicOp models the atomic operations on plain variables.
func atomicOp(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	var op string
	switch {
	case strings.HasPrefix(ci.name, "sync/atomic."):
		op = strings.TrimPrefix(ci.name, "sync/atomic.")
	case strings.HasPrefix(ci.name, "(*sync/atomic."):
		op = ci.name[strings.LastIndex(ci.name, ".")+1:]
	default:
		return nil, false
	}
	if len(ci.args) == 0 || ci.args[0].k != KPtr && ci.args[0].k != KSym {
		return nil, false
	}
	var t types.Type
	switch {
	case strings.HasPrefix(op, "Load") && len(ci.args) == 1:
		t = ci.sig.Results().At(0).Type()
		return one(e.Load(st, ci.site, ci.args[0], t))
	case strings.HasPrefix(op, "Store") && len(ci.args) == 2:
		t = ci.sig.Params().At(ci.sig.Params().Len() - 1).Type()
		e.Store(st, ci.site, ci.args[0], ci.args[1], t)
		return one()
	case strings.HasPrefix(op, "Add") && len(ci.args) == 2:
		t = ci.sig.Results().At(0).Type()
		if !isInt(t) {
			return nil, false
		}
		v := e.binopAdd(st, ci.site, e.Load(st, ci.site, ci.args[0], t), ci.args[1], t)
		e.Store(st, ci.site, ci.args[0], v, t)
		return one(v)
	}
	return nil, false
}

// appendTo: ids are collected in one list.
func (c *indexCk) appendTo(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	rt := ci.sig.Results().At(0).Type()
	dst, src := ci.args[0], ci.args[1]
	if c.list == nil {
		c.list = mkSym("ids", rt)
	}
	if dst != c.list {
		if n, ok := e.lenOf(st, dst).intConst(); !ok || n != 0 || st.flag("visited") != "" {
			c.bad("visit", st, "ids are collected in more than one list")
		}
	}
	b, lo, n := e.sliceParts(st, src)
	k, ok := n.intConst()
	l0, ok2 := lo.intConst()
	if !ok || !ok2 || k != 1 {
		c.bad("visit", st, "more than one id is added to the list at once")
		return []Outcome{{st, []*V{c.list}}}, true
	}
	id := e.Load(st, ci.site, mkPtr(b, idxPath(mkInt(l0, types.Typ[types.Int]))), c.idT)
	c.visit(st, c.idOf(st, id), "listed")
	f := st.facts[c.list]
	f.nilness = 2
	st.facts[c.list] = f
	return []Outcome{{st, []*V{c.list}}}, true
}

// edge: every round of a loop that walks the tree asks it for the next id.
func (c *indexCk) edge(e *Engine, st *State, from, to *ssa.BasicBlock) {
	if !to.Dominates(from) {
		return
	}
	c.countsOf(e, st, from, to)
	if !c.walk {
		return
	}
	if !c.loopQueries(from, to) {
		return
	}
	if st.flag("q") == "" {
		c.bad("ends", st, "a round of the loop does not move on")
	} else {
		c.r.Ok("ends", c.where)
	}
	delete(st.flags, "q")
}

// countsOf: a number that the loop does not count itself is forgotten.
func (c *indexCk) countsOf(e *Engine, st *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	linkedTo := func(n *V) bool {
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if isInt(phi.Type()) && e.numEq(st, mkConvTo(e.eval(st, phi.Edges[pi]), tU64()), n) {
				return true
			}
		}
		return false
	}
	// a loop that changes the number of ids along with the tree starts anew
	if C := st.flags["keepC"]; C != nil {
		add, sub := num1(st, "L:add"), num1(st, "L:sub")
		moved := false
		for _, k := range []string{"L:add", "L:sub"} {
			if n := flag1(st, k); n != nil && !linkedTo(n) {
				moved = true
			}
		}
		if moved {
			recv := st.flags["keep"].args[0]
			h, ns := e.H, e.nStates
			e.H = Hooks{Call: h.Call}
			outs := e.Run(c.count, st.clone(), []*V{recv}, nil)
			e.H, e.nStates = h, ns
			b, _ := splitPtr(recv)
			if len(outs) == 1 && modEq(outs[0].ret[0], mkSub(mkAdd(C.args[0], add), sub)) {
				now := outs[0].ret[0]
				for l, x := range st.heap {
					if l.base == b && x == now {
						v := e.Fresh(st, to.Instrs[0], "count", x.t)
						st.heap[loc{b, l.path}] = v
						keep := append([]*V(nil), st.flags["keep"].args...)
						keep[len(keep)-1] = v
						st.flags["keep"], st.flags["keepC"] = mkTuple(keep...), mkTuple(v)
						delete(st.flags, "L:add")
						delete(st.flags, "L:sub")
						e.assumeLe(st, v, mkU64(1<<62))
						break
					}
				}
			}
		}
	}
	for _, k := range []string{"L:n", "L:add", "L:sub"} {
		n := flag1(st, k)
		if n == nil {
			continue
		}
		if linkedTo(n) {
			continue
		}
		below := c.max != nil && e.le(st, n, c.max)
		// the loop ends when the number is reached
		less := below && (e.le(st, mkAdd(n, mkU64(1)), c.max) || e.decide(st, mkEq(n, c.max)) == 2 || e.decide(st, mkEq(mkConvTo(mkConvTo(n, types.Typ[types.Int]), tU64()), c.max)) == 2)
		v := e.Fresh(st, to.Instrs[0], k, tU64())
		e.assumeLe(st, mkU64(1), v)
		if below {
			e.assumeLe(st, v, c.max)
		}
		if less {
			e.assumeLe(st, mkAdd(v, mkU64(1)), c.max)
		}
		st.flags[k] = mkTuple(v)
	}
}

func (c *indexCk) loopQueries(from, to *ssa.BasicBlock) bool {
	in := map[*ssa.BasicBlock]bool{to: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	up(from)
	var asks func(f *ssa.Function, d int) bool
	inBlock := func(b *ssa.BasicBlock, d int) bool {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					if strings.Contains(fname(g), "Judy") && (g.Name() == "First" || g.Name() == "Next") {
						return true
					}
					if d > 0 && c.P.inModule(g) && asks(g, d-1) {
						return true
					}
				}
			}
		}
		return false
	}
	asks = func(f *ssa.Function, d int) bool {
		for _, b := range f.Blocks {
			if inBlock(b, d) {
				return true
			}
		}
		return false
	}
	for b := range in {
		if inBlock(b, 3) {
			return true
		}
	}
	return false
}

func (c *indexCk) engine() *State {
	_, e := newCodec(c.P)
	e.canonInts = true
	base := e.H.Call
	c.e = e
	e.H.Call = c.call(base)
	e.H.Edge = c.edge
	e.H.Builtin = c.builtin
	c.list = nil
	st := newState()
	return st
}

func (c *indexCk) isID(t types.Type) bool { return types.Identical(t, c.idT) }

// shape says what an exported method does, from its signature.
func (c *indexCk) shape(f *ssa.Function) string {
	s := f.Signature
	n := s.Params().Len()
	ids := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && c.isID(sl.Elem())
	}
	if n >= 2 && c.isID(s.Params().At(0).Type()) && c.isID(s.Params().At(1).Type()) {
		for i := 2; i < n; i++ {
			if fs, ok := s.Params().At(i).Type().Underlying().(*types.Signature); ok && fs.Params().Len() > 0 && c.isID(fs.Params().At(0).Type()) {
				return "iter"
			}
		}
		if s.Results().Len() > 0 && ids(s.Results().At(0).Type()) {
			return "list"
		}
		return "delete"
	}
	if n == 0 && s.Results().Len() == 1 && ids(s.Results().At(0).Type()) {
		return "all"
	}
	if s.Results().Len() == 2 && c.isID(s.Results().At(0).Type()) {
		if n == 1 && c.isID(s.Params().At(0).Type()) {
			return "first"
		}
		if n == 0 {
			switch f.Name() {
			case "Min", "MinId":
				return "min"
			case "Max", "MaxId":
				return "max"
			case "FirstEmpty":
				return "hole"
			case "GenerateEmptyId":
				return "generate"
			}
		}
	}
	return ""
}

// recvOf makes the receiver: an index, or an open store.
func (c *indexCk) recvOf(st *State, nt *types.Named) *V {
	recv := mkSym("recv", types.NewPointer(nt))
	st.facts[recv] = Fact{nilness: 2}
	if nt == c.sto {
		k := NewStoreClient(c.P, c.r.Prop).openedKey
		path := "." + k[strings.LastIndex(k, ".")+1:]
		b, p := splitPtr(recv)
		c.e.storeLoc(st, b, p+path, mkBool(true), types.Typ[types.Bool])
		s := structOf(nt)
		for i := 0; i < s.NumFields(); i++ {
			if t, ok := underPtr(s.Field(i).Type()); ok && types.Identical(t, c.idx) {
				ix := mkSym("index", s.Field(i).Type())
				st.facts[ix] = Fact{nilness: 2}
				c.e.storeLoc(st, b, p+"."+s.Field(i).Name(), ix, s.Field(i).Type())
			}
		}
	}
	return recv
}

func (c *indexCk) success(st *State, f *ssa.Function, ret []*V) int8 {
	last := ret[len(ret)-1]
	if isError(f.Signature.Results().At(len(ret) - 1).Type()) {
		switch c.e.nilOf(st, last) {
		case 1:
			return 1
		case 2:
			return 2
		}
		return 0
	}
	return c.e.decide(st, last)
}

// walks checks one operation on a range, or on all ids.
func (c *indexCk) walks(nt *types.Named, f *ssa.Function, kind string) {
	st := c.engine()
	c.fnc, c.where = f, fname(f)
	if debugCounts {
		fmt.Fprintln(os.Stderr, "walks", c.where)
	}
	c.walk, c.iter, c.start, c.max = true, kind == "iter", nil, nil
	recv := c.recvOf(st, nt)
	args := []*V{recv}
	keep := []*V{recv}
	e := c.e
	for i := 0; i < f.Signature.Params().Len(); i++ {
		p := f.Signature.Params().At(i)
		v := e.symVal(st, fmt.Sprintf("p%d", i), p.Type())
		args = append(args, v)
		keep = append(keep, v)
		switch {
		case c.isID(p.Type()) && i == 0:
			c.start = c.idOf(st, v)
		case c.isID(p.Type()) && i == 1:
			st.flags["end"] = mkTuple(c.idOf(st, v))
		case isInt(p.Type()):
			c.max = mkConvTo(v, tU64())
		}
	}
	st.flags["keep"] = mkTuple(keep...)
	full := 0
	for _, o := range e.Run(f, st, args, nil) {
		st := o.st
		end := flag1(st, "end")
		if kind == "iter" && len(o.ret) == 1 {
			if w := st.flags["refused"]; w != nil {
				if o.ret[0] != w.args[0] && !hasSym(o.ret[0], w.args[0]) && c.success(st, f, o.ret) != 2 {
					c.bad("whole", st, "the walk goes on, or the error is lost, when the callback fails")
				}
				continue
			}
			if c.success(st, f, o.ret) != 1 {
				c.bad("whole", st, "fails although no callback did")
				continue
			}
		}
		if kind == "list" || kind == "all" {
			if st.flag("visited") != "" && o.ret[0] != c.list {
				c.bad("whole", st, "what is returned is not the list of ids")
			} else if st.flag("visited") == "" && o.ret[0] != c.list {
				if n, ok := e.lenOf(st, o.ret[0]).intConst(); !(ok && n == 0) && e.nilOf(st, o.ret[0]) != 1 {
					c.bad("whole", st, "a list with other ids is returned")
				}
			}
		}
		cur := flag1(st, "L:cur")
		switch {
		case st.flag("exhausted") != "":
		case end != nil && c.start != nil && e.decide(st, mkLess(c.start, end)) == 2:
		case cur != nil && st.flag("cur") == "pending" && end != nil && e.decide(st, mkLess(cur, end)) == 2:
		case c.max != nil && kind == "list" && e.le(st, c.max, num1(st, "L:n")):
		default:
			c.bad("whole", st, "the walk ends before the end of the range")
			continue
		}
		if c.max != nil && kind == "list" && !e.le(st, num1(st, "L:n"), c.max) {
			c.bad("whole", st, "more ids are listed than were asked for")
		}
		full++
		c.r.Ok("whole", c.where)
	}
	if full == 0 {
		c.bad("whole", nil, "the range is never walked to its end")
	}
	c.walk = false
	c.r.absorb(e)
}

// lookups checks the operations that give one id.
func (c *indexCk) lookups(nt *types.Named, f *ssa.Function, kind string) {
	st := c.engine()
	c.fnc, c.where = f, fname(f)
	c.walk = false
	e := c.e
	recv := c.recvOf(st, nt)
	args := []*V{recv}
	lo := mkU64(0)
	if kind == "first" {
		v := e.symVal(st, "from", c.idT)
		args = append(args, v)
		lo = c.idOf(st, v)
		c.start = lo
	}
	// queries must be asked at the bound
	c.start = lo
	c.walk = kind == "first" || kind == "min"
	st.flags["keep"] = mkTuple(args...)
	if c.walk {
		st.flags["keep2"] = mkTuple(lo)
	}
	k := [2]int{}
	all := constMaxU64()
	for _, o := range e.Run(f, st, args, nil) {
		st := o.st
		id := c.idOf(st, o.ret[0])
		s := c.success(st, f, o.ret)
		good := false
		switch kind {
		case "first", "min":
			cur := flag1(st, "L:cur")
			if s == 1 {
				good = cur != nil && st.flag("exhausted") == "" && e.numEq(st, id, cur)
			} else if s == 2 {
				good = st.flag("exhausted") != "" && cur == nil
			}
		case "max":
			if l := st.flags["last"]; s == 1 {
				good = l != nil && e.numEq(st, l.args[1], all) && e.numEq(st, id, l.args[0])
			} else if s == 2 {
				l = st.flags["nolast"]
				good = l != nil && e.numEq(st, l.args[0], all)
			}
		case "hole":
			if l := st.flags["hole"]; s == 1 {
				good = l != nil && e.numEq(st, l.args[1], mkU64(0)) && e.numEq(st, id, l.args[0])
			} else if s == 2 {
				l = st.flags["nohole"]
				good = l != nil && e.numEq(st, l.args[0], mkU64(0))
			}
		case "generate":
			l, none, hole := st.flags["last"], st.flags["nolast"], st.flags["hole"]
			if s == 1 {
				switch {
				case none != nil && e.numEq(st, none.args[0], all):
					good = true // there is no id
				case st.flag("exhausted") != "" && flag1(st, "L:cur") == nil:
					good = true
				case l != nil && e.numEq(st, l.args[1], all) && c.less(st, l.args[0], id):
					good = true
				case hole != nil && e.numEq(st, id, hole.args[0]):
					good = true
				}
			} else if s == 2 {
				// no id is left
				h := st.flags["nohole"]
				good = h != nil && e.numEq(st, h.args[0], mkU64(0))
			}
		}
		if s == 0 {
			c.bad("lookup", st, "whether an id is found is not decided by the index")
			continue
		}
		if !good {
			if s == 1 {
				c.bad("lookup", st, "an id is returned which is not the one asked for")
			} else {
				c.bad("lookup", st, "no id is returned although there may be one")
			}
			continue
		}
		k[s-1]++
		c.r.Ok("lookup", c.where)
	}
	if k[0] == 0 {
		c.bad("lookup", nil, "no id is ever found")
	}
	c.walk = false
	c.r.absorb(e)
}

func constMaxU64() *V { return mkU64(^uint64(0)) }

// forwards: ranges are handed on as they were given.
func (c *indexCk) forwards(f *ssa.Function) {
	st := c.engine()
	c.fnc, c.where = f, fname(f)
	e := c.e
	var ids []*V
	var args []*V
	if rt := f.Signature.Recv(); rt != nil {
		if t, ok := underPtr(rt.Type()); ok {
			if n, _ := types.Unalias(t).(*types.Named); n != nil {
				args = append(args, c.recvOf(st, n))
			}
		}
		if len(args) == 0 {
			args = append(args, e.symVal(st, "recv", rt.Type()))
		}
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		v := e.symVal(st, fmt.Sprintf("p%d", i), f.Signature.Params().At(i).Type())
		if f.Signature.Params().At(i).Type().Underlying() != nil {
			if _, ok := underPtr(f.Signature.Params().At(i).Type()); ok {
				st.facts[v] = Fact{nilness: 2}
			}
		}
		args = append(args, v)
		if c.isID(v.t) {
			ids = append(ids, v)
		}
	}
	st.flags["keep"] = mkTuple(append(append([]*V{}, args...), ids...)...)
	base := e.H.Call
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && ci.fn != f && c.P.inModule(ci.fn) || ci.method != nil {
			if ci.fn != nil && c.P.inModule(ci.fn) && recvNamed(ci.fn) != nil && c.isID(recvNamed(ci.fn)) {
				return nil, false
			}
			var got []*V
			for _, a := range ci.args {
				if a.t != nil && c.isID(a.t) {
					got = append(got, a)
				}
				if a.k == KIface && a.t != nil {
					x := a.args[0]
					if s := structOf(x.t); s != nil && s.NumFields() == 2 && c.isID(s.Field(0).Type()) && c.isID(s.Field(1).Type()) {
						got = append(got, fieldOf(x, 0), fieldOf(x, 1))
					}
				}
			}
			if len(got) == 2 {
				if c.e.numEq(st, c.idOf(st, got[0]), c.idOf(st, ids[0])) && c.e.numEq(st, c.idOf(st, got[1]), c.idOf(st, ids[1])) {
					c.r.Ok("forward", c.where+" -> "+ci.name)
					st.flags["fwd"] = mkStr("y")
				} else {
					c.bad("forward", st, "another range is handed on to %s", ci.name)
				}
				rs := e.freshResults(st, ci)
				for _, x := range rs {
					if _, ok := x.t.Underlying().(*types.Slice); ok {
						st.flags["fwdret"] = mkTuple(x)
					}
				}
				if len(rs) > 0 && isError(rs[len(rs)-1].t) {
					bad := st.clone()
					bf := bad.facts[rs[len(rs)-1]]
					bf.nilness = 2
					bad.facts[rs[len(rs)-1]] = bf
					bad.flags["failed"] = mkStr("y")
					bf = st.facts[rs[len(rs)-1]]
					bf.nilness = 1
					st.facts[rs[len(rs)-1]] = bf
					return []Outcome{{st, rs}, {bad, rs}}, true
				}
				return []Outcome{{st, rs}}, true
			}
			if ci.fn != nil && (recvNamed(ci.fn) == nil || len(got) == 1) && len(ci.fn.Blocks) > 0 && !params(ci.fn.Signature, isError) {
				return nil, false // a helper
			}
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		return base(e, st, ci)
	}
	n := 0
	for _, o := range e.Run(f, st, args, nil) {
		if o.st.flag("failed") != "" {
			if len(o.ret) > 0 && isError(o.ret[len(o.ret)-1].t) && e.nilOf(o.st, o.ret[len(o.ret)-1]) == 1 {
				c.bad("forward", o.st, "the failure of a part is not reported")
			}
			continue
		}
		ok := o.st.flag("fwd") != ""
		if !ok && len(o.ret) > 0 && isError(f.Signature.Results().At(len(o.ret)-1).Type()) && e.nilOf(o.st, o.ret[len(o.ret)-1]) != 1 {
			continue
		}
		if !ok {
			lo, hi := c.idOf(o.st, ids[0]), c.idOf(o.st, ids[1])
			if e.decide(o.st, mkLess(lo, hi)) == 2 {
				continue
			}
			c.bad("forward", o.st, "succeeds without handing on the range")
			continue
		}
		if w := flag1(o.st, "fwdret"); w != nil && len(o.ret) == 1 && types.Identical(o.ret[0].t, w.t) && o.ret[0] != w {
			c.bad("forward", o.st, "what is returned is not the answer for the range")
		}
		n++
	}
	if n == 0 {
		c.bad("forward", nil, "the range is never handed on")
	}
	c.r.absorb(e)
}

func (c *indexCk) init(P *Program, r *Report) bool {
	c.P, c.r = P, r
	c.idx, c.sto, c.idT = P.named("lumpindex.LumpIndex"), P.named("storage.Storage"), P.named("lump.LumpId")
	c.u64 = P.method("lump.LumpId", "U64")
	c.count = P.method("lumpindex.LumpIndex", "Count")
	if c.idx == nil || c.sto == nil || c.idT == nil || c.u64 == nil || c.count == nil {
		r.Add("walk", "lumpindex.LumpIndex", "-", "the index was not found", nil)
		return false
	}
	return true
}

func (c *indexCk) ranges() {
	for _, nt := range []*types.Named{c.idx, c.sto} {
		for _, f := range c.P.methodsOf(nt) {
			if f.Object() == nil || !f.Object().Exported() {
				continue
			}
			switch kind := c.shape(f); kind {
			case "iter", "list", "all":
				if nt == c.idx || kind != "iter" {
					c.walks(nt, f, kind)
				}
			case "delete":
				if nt == c.idx {
					c.walks(nt, f, kind)
				}
			case "first", "min", "max", "hole":
				c.lookups(nt, f, kind)
			}
		}
	}
	for _, f := range c.P.funcs {
		s := f.Signature
		if recvNamed(f) != nil && recvNamed(f).Obj() == c.idx.Obj() || f.Parent() != nil {
			continue
		}
		n := 0
		for i := 0; i < s.Params().Len(); i++ {
			if c.isID(s.Params().At(i).Type()) {
				n++
			}
		}
		if n == 2 && reachesMod(c.P, f) {
			c.forwards(f)
		}
	}
}

// reachesMod: f calls something else of the module than methods of ids.
func reachesMod(P *Program, f *ssa.Function) bool {
	for _, g := range P.staticCallees(f) {
		if P.inModule(g) && recvNamed(g) != nil {
			return true
		}
	}
	return false
}

// counts: the number of ids follows the tree.
func (c *indexCk) counts() {
	for _, f := range c.P.methodsOf(c.idx) {
		if f.Object() == nil || !f.Object().Exported() || f == c.count {
			continue
		}
		st := c.engine()
		c.fnc, c.where = f, fname(f)
		e := c.e
		c.quiet = true
		c.walk, c.iter = false, false
		c.start = nil
		recv := c.recvOf(st, c.idx)
		args := []*V{recv}
		switch kind := c.shape(f); kind {
		case "iter", "list", "all", "delete":
			c.walk, c.iter = true, kind == "iter"
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			p := f.Signature.Params().At(i)
			v := e.symVal(st, fmt.Sprintf("p%d", i), p.Type())
			args = append(args, v)
			if c.isID(p.Type()) && i == 0 {
				c.start = c.idOf(st, v)
			}
			if c.isID(p.Type()) && i == 1 {
				st.flags["end"] = mkTuple(c.idOf(st, v))
			}
		}
		var C *V
		for _, o := range e.Run(c.count, st.clone(), []*V{recv}, nil) {
			C = o.ret[0]
		}
		if C == nil {
			c.quiet = false
			c.bad("count", st, "the number of ids is not read from the index")
			return
		}
		st.flags["keep"] = mkTuple(append(args, C)...)
		st.flags["keepC"] = mkTuple(C)
		e.assumeLe(st, C, mkU64(1<<62))
		n := 0
		for _, o := range e.Run(f, st, args, nil) {
			if o.st.flag("freed") != "" {
				n++
				continue
			}
			n++
			add, sub := num1(o.st, "L:add"), num1(o.st, "L:sub")
			o.st.flags["keepd"] = mkTuple(add, sub)
			c0 := o.st.flags["keep"].args[len(args)]
			for _, q := range e.Run(c.count, o.st, []*V{recv}, nil) {
				c.quiet = false
				okc := true
				for _, none := range []bool{true, false} {
					s2 := q.st.clone()
					if e.assume(s2, mkEq(sub, mkU64(0)), none) && e.assumeLe(s2, sub, c0) && e.assumeLe(s2, add, mkU64(1<<62)) && !modEq(q.ret[0], mkSub(mkAdd(c0, add), sub)) && !e.numEq(s2, q.ret[0], mkSub(mkAdd(c0, add), sub)) {
						okc = false
					}
				}
				if !okc {
					if debugCounts {
						fmt.Fprintln(os.Stderr, "count is", q.ret[0], "was", c0, "add", add, "sub", sub)
					}
					c.bad("count", q.st, "the number of ids changes by another number than that of the ids added and removed")
				} else {
					c.r.Ok("count", c.where)
				}
				c.quiet = true
			}
		}
		c.quiet = false
		if n == 0 {
			c.bad("count", nil, "never returns")
		}
		c.r.absorb(e)
	}
	c.walk = false
	// a new index is empty
	for _, f := range c.P.funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || !results(f.Signature, func(t types.Type) bool { p, ok := underPtr(t); return ok && types.Identical(p, c.idx) }) {
			continue
		}
		if f.Signature.Params().Len() != 0 {
			continue
		}
		st := c.engine()
		c.fnc, c.where = f, fname(f)
		for _, o := range c.e.Run(f, st, nil, nil) {
			for _, q := range c.e.Run(c.count, o.st, []*V{o.ret[0]}, nil) {
				if !c.e.numEq(q.st, q.ret[0], mkU64(0)) {
					c.bad("count", q.st, "a new index does not count 0 ids")
				} else {
					c.r.Ok("count", c.where)
				}
			}
		}
		c.r.absorb(c.e)
	}
}

func init() {
	checks["C24"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of the operations of the index on ranges and of those of the store that are answered by it, for every content of the tree: a cursor follows the queries of the tree, and every id handed out, listed or removed is the one it is at, once, inside the range, with none passed over"
		r.Assumptions = []string{"the tree gives the first id at or behind a bound"}
		c := &indexCk{}
		if !c.init(P, r) {
			return
		}
		c.ranges()
		r.Need("visit", 4)
		r.Need("whole", 4)
		r.Need("ends", 4)
		r.Need("lookup", 6)
		r.Need("forward", 3)
	}
	checks["C33"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of the generator of ids for every content of the index"
		r.Assumptions = []string{"the tree finds its last id and the first id that is not in it"}
		c := &indexCk{}
		if !c.init(P, r) {
			return
		}
		for _, f := range P.methodsOf(c.sto) {
			if f.Object() != nil && f.Object().Exported() && c.shape(f) == "generate" {
				c.lookups(c.sto, f, "generate")
			}
		}
		r.Need("lookup", 3)
	}
	checks["C25"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of every operation of the index: the counter changes by the number of ids that the tree gained or lost, for every content of the tree"
		r.Assumptions = []string{"the tree tells whether it has an id"}
		c := &indexCk{}
		if !c.init(P, r) {
			return
		}
		c.counts()
		c.usage()
		r.Need("count", 8)
		r.Need("figures", 6)
		r.Need("journal", 4)
	}
}

// usage: the figures are those of the parts.
func (c *indexCk) usage() {
	P := c.P
	for _, f := range P.methodsOf(c.sto) {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 || !tyIs(f.Signature.Results().At(0).Type(), "storage.StorageUsage") {
			continue
		}
		st := c.engine()
		e := c.e
		c.fnc, c.where = f, fname(f)
		recv := c.recvOf(st, c.sto)
		b, p := splitPtr(recv)
		s := structOf(c.sto)
		var journal, index, header *V
		var hdrT types.Type
		var jt *types.Named
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			path := p + "." + fd.Name()
			if t, ok := underPtr(fd.Type()); ok {
				n, _ := types.Unalias(t).(*types.Named)
				v := e.loadLoc(st, nil, b, path, fd.Type())
				st.facts[v] = Fact{nilness: 2}
				if n != nil && n == c.idx {
					index = v
				} else if n != nil && P.methodOf(n, "Usage") != nil {
					journal, jt = v, n
				}
			}
			hp, isPtr := underPtr(fd.Type())
			if !isPtr {
				hp = fd.Type()
			}
			if tyIs(hp, "nvm.StorageHeader") {
				hdrT = hp
				header = e.symVal(st, "header", hdrT)
				hs := structOf(hdrT)
				var fs []*V
				for j := 0; j < hs.NumFields(); j++ {
					v := fieldOf(header, j)
					if tyIs(hs.Field(j).Type(), "block.BlockSize") {
						v = mkInt(512, hs.Field(j).Type())
					}
					fs = append(fs, v)
				}
				header = mkStruct(hdrT, fs)
				if isPtr {
					hb, hpath := splitPtr(e.loadLoc(st, nil, b, path, fd.Type()))
					e.storeLoc(st, hb, hpath, header, hdrT)
				} else {
					e.storeLoc(st, b, path, header, hdrT)
				}
			}
		}
		if journal == nil || index == nil || header == nil {
			c.bad("figures", st, "the parts of the store were not found")
			return
		}
		free, seg := mkSym("free", tU64()), mkSym("segment", tU64())
		e.assumeLe(st, free, pow2(40))
		e.assumeLe(st, seg, free)
		st.flags["keep"] = mkTuple(recv, journal, index, header, free, seg)
		h := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			n := ""
			if ci.method != nil {
				n = ci.method.Name()
			} else if ci.fn != nil && recvNamed(ci.fn) != nil && strings.HasPrefix(fname(ci.fn), "(*storage/allocator.") {
				n = ci.fn.Name()
			}
			switch n {
			case "FreeCount":
				return []Outcome{{st, []*V{free}}}, true
			case "MaxSegmentSize":
				return []Outcome{{st, []*V{seg}}}, true
			}
			return h(e, st, ci)
		}
		lumpMax := mkU64(65535*512 - 2)
		hf := func(n string) *V {
			hs := structOf(hdrT)
			for j := 0; j < hs.NumFields(); j++ {
				if hs.Field(j).Name() == n {
					return fieldOf(header, j)
				}
			}
			return mkU64(0)
		}
		n := 0
		for _, o := range e.Run(f, st, []*V{recv}, nil) {
			n++
			st := o.st
			get := func(name string) *V {
				rs := structOf(o.ret[0].t)
				for j := 0; rs != nil && j < rs.NumFields(); j++ {
					if rs.Field(j).Name() == name {
						return mkConvTo(fieldOf(o.ret[0], j), tU64())
					}
				}
				return mkSym("no "+name, tU64())
			}
			run := func(g *ssa.Function, recv *V) *V {
				for _, q := range e.Run(g, st.clone(), []*V{recv}, nil) {
					return mkConvTo(q.ret[0], tU64())
				}
				return mkSym("none", tU64())
			}
			eq := func(name string, want *V, what string) {
				if got := get(name); !e.numEq(st, got, want) {
					if debugCounts {
						fmt.Fprintln(os.Stderr, name, got, "want", want)
					}
					c.bad("figures", st, "%s is not %s", name, what)
				} else {
					c.r.Ok("figures", c.where+"."+name)
				}
			}
			eq("FileCounts", run(c.count, index), "the number of ids in the index")
			eq("JournalUsageBytes", run(P.methodOf(jt, "Usage"), journal), "the space in use in the journal")
			eq("DataFreeBytes", mkMul(free, mkU64(512)), "the free space of the data region")
			eq("JournalCapacity", hf("JournalRegionSize"), "the size in the header")
			eq("DataCapacity", hf("DataRegionSize"), "the size in the header")
			// the largest lump: the longest free extent without the trailer
			bytes := mkMul(seg, mkU64(512))
			for _, none := range []bool{true, false} {
				s2 := st.clone()
				if !e.assume(s2, mkEq(seg, mkU64(0)), none) || !none && !e.assumeLe(s2, mkU64(1), seg) {
					continue
				}
				got := get("MaxSegmentSize")
				good := false
				if none {
					good = e.numEq(s2, got, mkU64(0))
				} else {
					for _, small := range []bool{true, false} {
						s3 := s2.clone()
						if !e.assume(s3, mkLess(mkSub(bytes, mkU64(2)), lumpMax), small) {
							continue
						}
						want := lumpMax
						if small {
							want = mkSub(bytes, mkU64(2))
						}
						if good = e.numEq(s3, got, want); !good {
							break
						}
					}
				}
				if good {
					c.r.Ok("figures", c.where+".MaxSegmentSize")
				} else {
					if debugCounts {
						fmt.Fprintln(os.Stderr, "MaxSegmentSize", got, none)
					}
					c.bad("figures", s2, "MaxSegmentSize is not the size of the largest lump that can be put")
				}
			}
		}
		if n == 0 {
			c.bad("figures", nil, "never returns")
		}
		c.r.absorb(e)
	}
	c.ring()
}

// ring: the space in use in the journal follows its tail and its oldest record.
func (c *indexCk) ring() {
	q := newRing(c.P, c.r)
	if q == nil {
		c.r.Add("journal", "storage/journal", "-", "the log of records was not found", nil)
		return
	}
	use := c.P.methodOf(q.ring, "Usage")
	if use == nil {
		c.r.Add("journal", "storage/journal", "-", "the log does not tell its usage", nil)
		return
	}
	check := func(f *ssa.Function, kind types.Type) {
		_, e := newCodec(c.P)
		st, recv, _, capacity := q.state(e)
		c.fnc, c.where, c.e = f, fname(f), e
		q.hooks(e, capacity)
		h := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if out, ok := atomicOp(e, st, ci); ok {
				return out, true
			}
			return h(e, st, ci)
		}
		args := []*V{recv}
		if kind != nil {
			rv := e.symVal(st, "rec", kind)
			boundSlices(e, st, rv, kind)
			e.assumeLe(st, q.sizeOf(e, st, kind, rv), mkU64(1<<17))
			st.flags["keeprec"] = rv
			args = append(args, mkIface(kind, rv))
		} else {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				v := e.symVal(st, "p", f.Signature.Params().At(i).Type())
				st.flags["keepp"] = v
				if isInt(v.t) {
					e.assumeLe(st, v, capacity)
				}
				args = append(args, v)
			}
		}
		for _, o := range e.Run(f, st, args, nil) {
			if n := len(o.ret); n > 0 && isError(f.Signature.Results().At(n-1).Type()) && !e.isNil(o.st, o.ret[n-1]) {
				continue
			}
			T, U := q.field(e, o.st, recv, q.tail), q.field(e, o.st, recv, q.unrel)
			var got *V
			for _, x := range e.Run(use, o.st.clone(), []*V{recv}, nil) {
				got = x.ret[0]
			}
			for _, wrapped := range []bool{true, false} {
				s2 := o.st.clone()
				if got == nil || !e.assume(s2, mkLess(T, U), wrapped) {
					continue
				}
				want := mkSub(T, U)
				if wrapped {
					want = mkSub(mkAdd(capacity, T), U)
				}
				if e.numEq(s2, got, want) {
					c.r.Ok("journal", c.where)
				} else {
					if debugCounts {
						fmt.Fprintln(os.Stderr, c.where, "usage", got, "want", want)
					}
					c.bad("journal", s2, "the space in use is not what is between the oldest record and the tail")
				}
			}
		}
		c.r.absorb(e)
	}
	for _, kind := range q.kinds {
		if !q.mark(kind) {
			check(q.enq, kind)
		}
	}
	for _, f := range c.P.methodsOf(q.ring) {
		if f.Object() == nil || !f.Object().Exported() || f == q.enq || f == use {
			continue
		}
		if c.sets(q, f) {
			check(f, nil)
		}
	}
}

// sets: f stores to the counter, the tail or the oldest record itself, or in a
// method of the log that it calls.
func (c *indexCk) sets(q *ringCk, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && (fa.Field == q.unrel || fa.Field == q.tail) {
						if p, ok := underPtr(fa.X.Type()); ok && types.Identical(p, q.ring) {
							return true
						}
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					g := call.Common().StaticCallee()
					if g != nil && strings.HasPrefix(fname(g), "sync/atomic.Store") {
						return true
					}
					if g != nil && recvNamed(g) == q.ring && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

func (e *Engine) binopAdd(st *State, site ssa.Instruction, x, y *V, t types.Type) *V {
	return e.binop(st, site, token.ADD, x, y, t, t)
}

// hasSym: v is made from x.
func hasSym(v, x *V) bool {
	for s := range x.syms {
		if !v.syms[s] {
			return false
		}
	}
	return true
}

// modForm is v as a sum over the integers modulo 2^64, whatever wraps.
func modForm(v *V, k uint64, m map[*V]uint64) uint64 {
	w, _, ok := typeBits(v.t)
	if c, isc := constBig(v); isc {
		return k * new(big.Int).And(c, new(big.Int).SetUint64(^uint64(0))).Uint64()
	}
	if ok && w == 64 {
		switch {
		case v.k == KConv:
			if w2, _, ok2 := typeBits(v.args[0].t); ok2 && w2 == 64 {
				return modForm(v.args[0], k, m)
			}
		case v.k == KBin && v.name == "+":
			return modForm(v.args[0], k, m) + modForm(v.args[1], k, m)
		case v.k == KBin && v.name == "-":
			return modForm(v.args[0], k, m) + modForm(v.args[1], -k, m)
		case v.k == KUn && v.name == "-":
			return modForm(v.args[0], -k, m)
		case v.k == KUn && v.name == "^":
			return -k + modForm(v.args[0], -k, m)
		}
	}
	m[v] += k
	return 0
}

func modEq(a, b *V) bool {
	m := map[*V]uint64{}
	c := modForm(a, 1, m) + modForm(b, ^uint64(0), m)
	for _, k := range m {
		if k != 0 {
			return false
		}
	}
	return c == 0
}
