package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The allocators. Trees of free extents are not followed; what is followed are
// the changes made to them: every change of one index must be matched by the
// same change of the other and of the counter, and the extents that go in and
// out of the indexes must cover exactly the blocks that are handed out or given
// back.

type allocCk struct {
	P        *Program
	r        *Report
	rule     string
	where    string
	fn       *ssa.Function
	itemType map[string]types.Type // btree field -> type of its items
	trees    []string              // field paths of the trees
	startHi  map[string]bool       // Judy tree -> start address is in the high bits
	counter  string                // field path of the counter
	disjoint *V                    // lookups give extents that do not overlap this one (tuple start, len)
	given    []*V                  // lumps handed out by the iteration of a tree of lumps
	nlook    int
	viol     int
}

var (
	allocT   = types.Typ[types.Uint64]
	extentTy = types.NewStruct([]*types.Var{
		types.NewField(token.NoPos, nil, "s", types.Typ[types.Uint64], false),
		types.NewField(token.NoPos, nil, "l", types.Typ[types.Uint64], false)}, nil)
)

func extent(s, l *V) *V {
	return in.mk(V{k: KStruct, t: extentTy, args: []*V{mkConvTo(s, allocT), mkConvTo(l, allocT)}})
}

func (c *allocCk) bad(rule string, st *State, site ssa.Instruction, msg string) {
	pos := "-"
	if site != nil {
		pos = c.P.pos(site)
	}
	c.viol++
	c.r.Add(rule, c.where, pos, msg, st.trailMsgs())
}

// path of a tree of the allocator that a call works on.
func (c *allocCk) treePath(st *State, v *V) string {
	switch {
	case v.k == KPtr:
		return v.name
	case v.k == KInit:
		return v.name
	}
	for k, x := range st.heap {
		if x == v && strings.HasPrefix(k.path, ".") {
			return k.path
		}
	}
	return ""
}

func (c *allocCk) isTree(p string) bool {
	for _, t := range c.trees {
		if t == p {
			return true
		}
	}
	return false
}

// bitField extracts bits [lo,lo+w) of a 64 bit number.
func (e *Engine) bitField(st *State, v *V, lo, w int) *V {
	bs := e.bitsOf(st, v)
	if bs == nil {
		return nil
	}
	for len(bs) < 64 {
		bs = append(bs, bit{})
	}
	out := append([]bit(nil), bs[lo:lo+w]...)
	for _, b := range out {
		if b.bad {
			return nil
		}
	}
	for len(out) < 64 {
		out = append(out, bit{})
	}
	return e.plain(st, mkBits(out, v))
}

// plain: the low bits of a number that has no others are the number.
func (e *Engine) plain(st *State, v *V) *V {
	if v.k != KBits {
		return v
	}
	s := v.bits[0]
	if s.src == nil || s.lo != 0 || len(v.bits) > 2 || len(v.bits) == 2 && (v.bits[1].src != nil || v.bits[1].val != 0) {
		return v
	}
	full := e.bitsOf(st, s.src)
	for i := s.w; i < len(full); i++ {
		if !isZeroBit(full[i]) {
			return v
		}
	}
	return mkConvTo(s.src, v.t)
}

// decode gives start and length of a key.
func (c *allocCk) decode(e *Engine, st *State, tree string, key *V) (*V, *V) {
	hi := c.startHi[tree]
	if c.itemType[tree] != nil {
		hi = false
	}
	if hi {
		return e.bitField(st, key, 24, 40), e.bitField(st, key, 0, 24)
	}
	return e.bitField(st, key, 0, 40), e.bitField(st, key, 40, 24)
}

// event: an extent enters (sign +) or leaves (sign -) one of the indexes.
func (c *allocCk) event(e *Engine, st *State, site ssa.Instruction, tree string, sign string, key *V) {
	s, l := c.decode(e, st, tree, key)
	if s == nil || l == nil {
		c.bad("pairing", st, site, "the key "+key.String()+" that is stored in "+tree+" is not a packed extent")
		return
	}
	st.note(fmt.Sprintf("%s %s start=%s len=%s", tree, sign, s, l))
	ev := in.mk(V{k: KApp, name: "ev" + sign + tree, args: []*V{s, l}, t: allocT})
	if sign == "-" && c.trees[0] == tree {
		// it must have been found before
		known := false
		for _, k := range stoks(st, "known") {
			if e.same(st, k.args[0], s) && e.same(st, k.args[1], l) {
				known = true
			}
		}
		if !known {
			c.bad("removed-exists", st, site, "removes an extent that was not found in the index before")
		}
	}
	addStoks(st, "L:pend", []*V{ev})
	c.settle(e, st)
}

// settle cancels matching events and opposite points.
func (c *allocCk) settle(e *Engine, st *State) {
	// pairs
	p := stoks(st, "L:pend")
	for again := true; again; {
		again = false
	outer:
		for i := 0; i < len(p); i++ {
			for j := i + 1; j < len(p); j++ {
				a, b := p[i], p[j]
				if a.name[2] != b.name[2] || a.name[3:] == b.name[3:] {
					continue
				}
				if e.same(st, a.args[0], b.args[0]) && e.same(st, a.args[1], b.args[1]) {
					sign := a.name[2:3]
					n := append(append(append([]*V(nil), p[:i]...), p[i+1:j]...), p[j+1:]...)
					p = n
					addStoks(st, "L:unc", []*V{mkApp("len"+sign, allocT, a.args[1])})
					if c.rule != "" {
						c.r.Ok("pairing", c.where+" "+sign)
					}
					// ledger of free space
					s, end := mkConvTo(a.args[0], allocT), mkAdd(mkConvTo(a.args[0], allocT), mkConvTo(a.args[1], allocT))
					if sign == "+" {
						c.points(e, st, end, s)
					} else {
						c.points(e, st, s, end)
					}
					again = true
					break outer
				}
			}
		}
	}
	st.flags["L:pend"] = mkTuple(p...)
	// counter
	ls, ds := stoks(st, "L:unc"), stoks(st, "L:delta")
	for i := 0; i < len(ls); i++ {
		for j := 0; j < len(ds); j++ {
			if c.sumZero(e, st, []*V{ls[i]}, []*V{ds[j]}) {
				ls = append(append([]*V(nil), ls[:i]...), ls[i+1:]...)
				ds = append(append([]*V(nil), ds[:j]...), ds[j+1:]...)
				i--
				break
			}
		}
	}
	st.flags["L:unc"], st.flags["L:delta"] = mkTuple(ls...), mkTuple(ds...)
}

// normBits replaces packed parts of an arithmetic expression by bit ranges.
func (e *Engine) normBits(st *State, v *V) *V {
	switch {
	case v.k == KUn && v.name == "^" || v.k == KConv && isInt(v.args[0].t) && v.args[0].k != KSym || v.k == KBin && (v.name == "+" || v.name == "-"):
		n := *v
		n.args = nil
		n.depth = 0
		for _, a := range v.args {
			n.args = append(n.args, e.normBits(st, a))
		}
		return in.mk(n)
	case v.k == KBits, v.k == KBin && (v.name == "&" || v.name == "|" || v.name == ">>" || v.name == "<<"):
		return e.plain(st, e.canon(st, v))
	}
	return v
}

// sumZero: the changes of the counter are the sum of the lengths, mod 2^64.
func (c *allocCk) sumZero(e *Engine, st *State, ls, ds []*V) bool {
	var all []*V
	ls, ds = append([]*V(nil), ls...), append([]*V(nil), ds...)
	for i, l := range ls {
		ls[i] = mkApp(l.name, allocT, e.normBits(st, l.args[0]))
		all = append(all, ls[i].args[0])
	}
	for i, d := range ds {
		ds[i] = e.normBits(st, d)
	}
	all = append(all, ds...)
	n := e.newNum(st, all...)
	f := lint(0)
	for _, d := range ds {
		f = f.plus(n.lin(d))
	}
	for _, l := range ls {
		if l.name == "len+" {
			f = f.minus(n.lin(l.args[0]))
		} else {
			f = f.plus(n.lin(l.args[0]))
		}
	}
	for k := int64(-4); k <= 4; k++ {
		g := f.minus(lconst(new(big.Int).Mul(big.NewInt(k), new(big.Int).Lsh(bigOne, 64))))
		if g.isConst() {
			if g.c.Sign() == 0 {
				return true
			}
			continue
		}
		if n.entails(g) && n.entails(lint(0).minus(g)) {
			return true
		}
	}
	return false
}

// points: the set of blocks that is still to be accounted for begins at plus
// and ends at minus; equal points of opposite sign cancel.
func (c *allocCk) points(e *Engine, st *State, plus, minus *V) {
	P, M := append(stoks(st, "L:P"), plus), append(stoks(st, "L:M"), minus)
	P, M = append([]*V(nil), P...), append([]*V(nil), M...)
	for i := 0; i < len(P); i++ {
		for j := 0; j < len(M); j++ {
			if e.same(st, P[i], M[j]) {
				P = append(P[:i:i], P[i+1:]...)
				M = append(M[:j:j], M[j+1:]...)
				i--
				break
			}
		}
	}
	st.flags["L:P"], st.flags["L:M"] = mkTuple(P...), mkTuple(M...)
}

func (c *allocCk) resettle(e *Engine, st *State) {
	z := mkU64(0)
	c.points(e, st, z, z)
	c.settle(e, st)
}

// lookup: a free extent that is in the index.
func (c *allocCk) freeExtent(e *Engine, st *State, site ssa.Instruction, tree string) (start, ln *V) {
	c.nlook++
	s := e.Fresh(st, site, ".start", types.Typ[types.Uint64])
	l := e.Fresh(st, site, ".len", types.Typ[types.Uint64])
	e.assumeLe(st, s, pow2(40))
	e.assumeLe(st, l, pow2(24))
	e.assumeLe(st, mkU64(1), l)
	e.assumeLe(st, mkAdd(s, l), pow2(40))
	var ks []*V
	for _, k := range stoks(st, "known") {
		dup := k == extent(s, l) || strings.Contains(k.args[0].String(), "~")
		for _, o := range ks {
			dup = dup || o == k
		}
		if !dup {
			ks = append(ks, k)
		}
	}
	st.flags["known"] = mkTuple(append(ks, extent(s, l))...)
	return s, l
}

func (c *allocCk) key(e *Engine, st *State, site ssa.Instruction, tree string, s, l *V) *V {
	sh, lh := mkInt(24, allocT), mkInt(40, allocT)
	if c.itemType[tree] == nil && c.startHi[tree] {
		return e.arith(st, site, token.OR, e.arith(st, site, token.SHL, s, sh, allocT), l, allocT)
	}
	return e.arith(st, site, token.OR, e.arith(st, site, token.SHL, l, lh, allocT), s, allocT)
}

// apart forks on the side of the released extent the found extent lies on.
func (c *allocCk) apart(e *Engine, st *State, s, l *V) []*State {
	if c.disjoint == nil {
		return []*State{st}
	}
	ps, pl := c.disjoint.args[0], c.disjoint.args[1]
	var out []*State
	a := st.clone()
	if e.assumeLe(a, mkAdd(s, l), ps) {
		out = append(out, a)
	}
	if e.assumeLe(st, mkAdd(ps, pl), s) {
		out = append(out, st)
	}
	return out
}

func (c *allocCk) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	if k := judyRecv(ci); k != "" {
		tree := c.treePath(st, ci.args[0])
		if c.given != nil && !c.isTree(tree) || ci.args[0].k == KSym {
			return c.lumpTree(e, st, ci)
		}
		if !c.isTree(tree) {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		switch ci.fn.Name() {
		case "Set", "Insert":
			c.event(e, st, ci.site, tree, "+", ci.args[1])
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case "Unset", "Delete":
			c.event(e, st, ci.site, tree, "-", ci.args[1])
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case "First", "Next", "Last", "Prev":
			var outs []Outcome
			none := st.clone()
			outs = append(outs, Outcome{none, []*V{mkU64(0), mkBool(false)}})
			s, l := c.freeExtent(e, st, ci.site, tree)
			k := c.key(e, st, ci.site, tree, s, l)
			for _, s2 := range c.apart(e, st, s, l) {
				var ok bool
				switch ci.fn.Name() {
				case "First":
					ok = e.assumeLe(s2, ci.args[1], k)
				case "Next":
					ok = e.assume(s2, mkLess(ci.args[1], k), true)
				case "Last":
					ok = e.assumeLe(s2, k, ci.args[1])
				default:
					ok = e.assume(s2, mkLess(k, ci.args[1]), true)
				}
				if ok {
					outs = append(outs, Outcome{s2, []*V{k, mkBool(true)}})
				}
			}
			return outs, true
		case "Free":
			return one()
		}
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	if ci.fn != nil && ci.fn.Signature.Recv() != nil && strings.HasSuffix(ci.fn.Signature.Recv().Type().String(), "btree.BTree") {
		tree := c.treePath(st, ci.args[0])
		if tree == "" {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		name := ci.fn.Name()
		item := func(s *State) (*V, *V, *V) {
			t := c.itemType[tree]
			if t == nil && len(ci.args) > 1 && ci.args[1].k == KIface {
				t = ci.args[1].t
			}
			if t == nil {
				return nil, nil, nil
			}
			a, l := c.freeExtent(e, s, ci.site, tree)
			return mkIface(t, mkConvTo(c.key(e, s, ci.site, tree, a, l), t)), a, l
		}
		// later keeps to the items that are not less than the bound
		later := func(s *State, it *V) *State {
			if !strings.HasSuffix(name, "GreaterOrEqual") || len(ci.args) < 3 {
				return s
			}
			s.flags["keep:it"] = it
			l := c.notLess(e, s, ci, it, ci.args[1])
			if len(l) == 1 {
				return l[0]
			}
			return s
		}
		switch name {
		case "ReplaceOrInsert", "Delete":
			x := ci.args[1]
			if x.k != KIface {
				c.bad("pairing", st, ci.site, "an unknown item is stored in "+tree)
				return []Outcome{{st, e.freshResults(st, ci)}}, true
			}
			if t, ok := c.itemType[tree]; ok && !types.Identical(t, x.t) {
				c.bad("pairing", st, ci.site, "items of different types in "+tree)
			}
			c.itemType[tree] = x.t
			sign := "+"
			if name == "Delete" {
				sign = "-"
			}
			c.event(e, st, ci.site, tree, sign, mkConvTo(x.args[0], allocT))
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case "Get", "Min", "Max":
			none := st.clone()
			outs := []Outcome{{none, []*V{theNil}}}
			it, s, l := item(st)
			if it == nil {
				c.bad("pairing", st, ci.site, "the items of "+tree+" are not known")
				return outs, true
			}
			if name == "Get" {
				// neither is less than the other
				st.flags["keep:it"] = it
				st = c.notLess(e, st, ci, it, ci.args[1])[0]
				if st != nil {
					st = c.notLess(e, st, ci, ci.args[1], it)[0]
				}
				if st == nil {
					return outs, true
				}
			}
			for _, s2 := range c.apart(e, st, s, l) {
				outs = append(outs, Outcome{s2, []*V{it}})
			}
			return outs, true
		case "Ascend", "AscendGreaterOrEqual", "AscendLessThan", "AscendRange", "Descend", "DescendLessOrEqual", "DescendGreaterThan", "DescendRange":
			fn := ci.args[len(ci.args)-1]
			for fn.k == KConv || fn.k == KApp && len(fn.args) == 1 {
				fn = fn.args[0]
			}
			if fn.k != KFunc {
				c.bad("pairing", st, ci.site, "an unknown function iterates over "+tree)
				return one()
			}
			st.flags["keep:fn"] = mkTuple(append([]*V{fn}, fn.args...)...)
			cur := []*State{st}
			outs := []Outcome{{st.clone(), nil}}
			for round := 0; round < 2; round++ {
				var next []*State
				for _, s := range cur {
					it, a, l := item(s)
					if it == nil {
						c.bad("pairing", st, ci.site, "the items of "+tree+" are not known")
						return outs, true
					}
					s.flags["keep:it"] = it
					if s = later(s, it); s == nil {
						continue
					}
					for _, s2 := range c.apart(e, s, a, l) {
						for _, o := range e.invoke(fn.fn, s2, []*V{it}, fn.args, ci.site) {
							delete(o.st.flags, "keep:it")
							y := o.st.clone()
							if e.assume(y, o.ret[0], true) {
								next = append(next, y)
								outs = append(outs, Outcome{y.clone(), nil})
							}
							if e.assume(o.st, o.ret[0], false) {
								outs = append(outs, Outcome{o.st, nil})
							}
						}
					}
				}
				cur = next
			}
			return outs, true
		}
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	switch ci.name {
	case "sync/atomic.AddUint64":
		if ci.args[0].k == KPtr && ci.args[0].name == c.counter && c.counter != "" {
			st.note("counter += " + ci.args[1].String())
			addStoks(st, "L:delta", []*V{ci.args[1]})
			c.settle(e, st)
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
	case "sync/atomic.StoreUint64":
		if ci.args[0].k == KPtr && ci.args[0].name == c.counter && c.counter != "" {
			if n, ok := ci.args[1].intConst(); !ok || n != 0 {
				c.bad("counter", st, ci.site, "the counter of free blocks is overwritten")
			}
		}
	case "sort.Slice", "sort.SliceStable":
		c.sortSlice(e, st, ci)
		return one()
	}
	return nil, false
}

// notLess: the states in which item a is not less than b.
func (c *allocCk) notLess(e *Engine, st *State, ci *CallInfo, a, b *V) []*State {
	less := c.lessOf(a)
	if less == nil || b.k != KIface {
		return []*State{st}
	}
	var res []*State
	for _, o := range e.invoke(less, st.clone(), []*V{a.args[0], b}, nil, ci.site) {
		if e.assume(o.st, o.ret[0], false) {
			res = append(res, o.st)
		}
	}
	switch len(res) {
	case 0:
		return []*State{nil}
	case 1:
		return res
	}
	return []*State{st}
}

// lessOf is the method that compares items.
func (c *allocCk) lessOf(a *V) *ssa.Function {
	if a.k != KIface {
		return nil
	}
	return c.P.prog.LookupMethod(a.t, nil, "Less")
}

// lumpTree: the tree of lumps that an allocator is restored from.
func (c *allocCk) lumpTree(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	switch ci.fn.Name() {
	case "Last", "Prev", "First", "Next":
		if c.given == nil {
			break
		}
		if ci.fn.Name() == "First" || ci.fn.Name() == "Next" {
			break
		}
		n := 0
		if v, ok := st.flags["progress"]; ok {
			k, _ := v.intConst()
			n = int(k)
		}
		if ci.fn.Name() == "Last" {
			n = 0
		}
		if n >= len(c.given) {
			return []Outcome{{st, []*V{mkU64(0), mkBool(false)}}}, true
		}
		st.flags["progress"] = mkInt(int64(n+1), types.Typ[types.Int])
		return []Outcome{{st, []*V{c.given[n], mkBool(true)}}}, true
	}
	return []Outcome{{st, e.freshResults(st, ci)}}, true
}

// sortSlice sorts a slice of known length with the given function.
func (c *allocCk) sortSlice(e *Engine, st *State, ci *CallInfo) {
	x, less := ci.args[0], ci.args[1]
	for x.k == KIface {
		x = x.args[0]
	}
	b, lo, ln := e.sliceParts(st, x)
	l, ok1 := e.constOf(st, lo)
	n, ok2 := e.constOf(st, ln)
	bb, pp := splitPtr(b)
	if !ok1 || !ok2 || less.k != KFunc {
		c.bad("restore", st, ci.site, "the list of lumps is sorted in an unknown way")
		return
	}
	et := elemType(x.t)
	tInt := types.Typ[types.Int]
	for i := int64(0); i < n; i++ {
		for j := n - 1; j > i; j-- {
			outs := e.invoke(less.fn, st.clone(), []*V{mkInt(j, tInt), mkInt(j-1, tInt)}, less.args, ci.site)
			if len(outs) != 1 {
				c.bad("restore", st, ci.site, "the order of the lumps is not determined by their positions")
				return
			}
			switch e.decide(outs[0].st, outs[0].ret[0]) {
			case 1:
				pj, pk := loc{bb, pp + idxPath(mkInt(l+j, tInt))}, loc{bb, pp + idxPath(mkInt(l+j-1, tInt))}
				u, v := e.loadLoc(st, ci.site, pj.base, pj.path, et), e.loadLoc(st, ci.site, pk.base, pk.path, et)
				e.storeLoc(st, pj.base, pj.path, v, et)
				e.storeLoc(st, pk.base, pk.path, u, et)
			case 2:
			default:
				c.bad("restore", st, ci.site, "the order of the lumps is not determined by their positions")
				return
			}
		}
	}
}

func (c *allocCk) engine() (*Engine, *State) {
	_, e := newCodec(c.P)
	e.canonInts = true
	old := e.H.Call
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if o, ok := c.call(e, st, ci); ok {
			return o, true
		}
		return old(e, st, ci)
	}
	e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
		if c.counter != "" && l.path == c.counter && c.onAlloc(l.base) {
			if n, ok := v.intConst(); ok && n == 0 && l.base.k == KCell {
				return
			}
			// counter = counter + x
			old := e.loadLoc(st, site, l.base, l.path, allocT)
			addStoks(st, "L:delta", []*V{mkSub(v, old)})
			c.settle(e, st)
		}
	}
	st := newState()
	return e, st
}

func (c *allocCk) onAlloc(b *V) bool {
	t := b.t
	if p, ok := underPtr(t); ok {
		t = p
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && c.fn != nil && n != nil && structOf(n) != nil
}

// atReturn: nothing may be left over.
func (c *allocCk) atReturn(e *Engine, st *State, f *ssa.Function) {
	c.resettle(e, st)
	pos := ssa.Instruction(nil)
	for _, ev := range stoks(st, "L:pend") {
		verb := "is added to"
		if ev.name[2] == '-' {
			verb = "is removed from"
		}
		c.bad("pairing", st, pos, fmt.Sprintf("the extent (start %s, length %s) %s %s but the other index is not changed alike", ev.args[0], ev.args[1], verb, strings.TrimPrefix(ev.name[3:], ".")))
	}
	if !c.sumZero(e, st, stoks(st, "L:unc"), stoks(st, "L:delta")) {
		c.bad("counter", st, pos, fmt.Sprintf("the count of free blocks changes by %v, the free extents by %v", mkTuple(stoks(st, "L:delta")...), mkTuple(stoks(st, "L:unc")...)))
	}
}

func dumpFacts(st *State) string {
	var l []string
	for k, f := range st.facts {
		x := fmt.Sprintf("%s nil=%d truth=%d", k, f.nilness, f.truth)
		if f.eq != nil {
			x += " eq=" + f.eq.String()
		}
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, "\n   ")
}

func (c *allocCk) noPanic(e *Engine, rule string) {
	e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {
		if debugCounts {
			fmt.Fprintln(os.Stderr, "PANIC", c.where, dumpFacts(st))
		}
		c.bad(rule, st, site, "panics in a state that is possible")
	}
}

func (c *allocCk) ledgerEmpty(st *State) bool {
	return len(stoks(st, "L:P")) == 0 && len(stoks(st, "L:M")) == 0
}

func (c *allocCk) ledger(st *State) string {
	return fmt.Sprintf("unaccounted: begins %v ends %v", mkTuple(stoks(st, "L:P")...), mkTuple(stoks(st, "L:M")...))
}

// allocators: the types that implement the interface of allocators.
func allocTypes(P *Program) (iface *types.Interface, ts []*types.Named) {
	n := P.named("storage/allocator.DataPortionAlloc")
	if n == nil {
		return nil, nil
	}
	iface, _ = n.Underlying().(*types.Interface)
	sc := P.pkg("storage/allocator").Pkg.Scope()
	for _, name := range sc.Names() {
		if t, ok := sc.Lookup(name).(*types.TypeName); ok {
			nt, ok := types.Unalias(t.Type()).(*types.Named)
			if ok && structOf(nt) != nil && types.Implements(types.NewPointer(nt), iface) {
				ts = append(ts, nt)
			}
		}
	}
	return
}

// newAllocCk finds the trees and the counter of an allocator type.
func newAllocCks(P *Program, r *Report, nt *types.Named) []*allocCk {
	mk := func() *allocCk {
		return &allocCk{P: P, r: r, itemType: map[string]types.Type{}, startHi: map[string]bool{}}
	}
	c := mk()
	s := structOf(nt)
	judy := false
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type().String()
		if strings.HasSuffix(t, "go-judy.Judy1") || strings.HasSuffix(t, "btree.BTree") {
			c.trees = append(c.trees, "."+s.Field(i).Name())
			judy = judy || strings.HasSuffix(t, "Judy1")
		}
	}
	// the counter is what FreeCount reads
	rel := shorten(nt.Obj().Pkg().Path()) + "." + nt.Obj().Name()
	if m := P.method(rel, "FreeCount"); m != nil {
		e := NewEngine(P)
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.name == "sync/atomic.LoadUint64" && ci.args[0].k == KPtr {
				return []Outcome{{st, []*V{e.Load(st, ci.site, ci.args[0], allocT)}}}, true
			}
			return nil, false
		}
		recv := mkSym("alloc", types.NewPointer(nt))
		st := newState()
		st.facts[recv] = Fact{nilness: 2}
		for _, o := range e.Run(m, st, []*V{recv}, nil) {
			if o.ret[0].k == KInit {
				c.counter = o.ret[0].name
			}
		}
	}
	if !judy {
		return []*allocCk{c}
	}
	// which tree holds the start in the high bits is not in the types
	var out []*allocCk
	for _, hi := range c.trees {
		d := mk()
		d.trees, d.counter = c.trees, c.counter
		d.startHi[hi] = true
		out = append(out, d)
	}
	return out
}

func (c *allocCk) runAll(nt *types.Named, only bool) {
	P := c.P
	rel := shorten(nt.Obj().Pkg().Path()) + "." + nt.Obj().Name()
	ptr := types.NewPointer(nt)
	c.rule = "on"
	if len(c.trees) != 2 || c.counter == "" {
		c.where = rel
		c.bad("pairing", newState(), nil, fmt.Sprintf("expected two indexes of free extents and a counter, found %v %q", c.trees, c.counter))
		return
	}
	// constructors first: they tell the item types
	for _, f := range P.fnsWith(func(s *types.Signature) bool {
		return results(s, func(t types.Type) bool { return types.Identical(t, ptr) })
	}) {
		c.where, c.fn = fname(f), f
		if debugCounts {
			fmt.Fprintln(os.Stderr, c.where, time.Now())
		}
		e, st := c.engine()
		var args []*V
		for i, p := range f.Params {
			a := mkSym(fmt.Sprintf("n%d", i), p.Type())
			if isInt(p.Type()) {
				e.assumeLe(st, mkConvTo(a, allocT), pow2(24))
				e.assumeLe(st, mkU64(1), mkConvTo(a, allocT))
				c.points(e, st, mkU64(0), mkConvTo(a, allocT))
			}
			args = append(args, a)
		}
		c.noPanic(e, "partition")
		for _, o := range e.Run(f, st, args, nil) {
			c.atReturn(e, o.st, f)
			if len(args) == 1 && isInt(args[0].t) {
				c.resettle(e, o.st)
				if c.ledgerEmpty(o.st) {
					c.r.Ok("partition", c.where)
				} else {
					c.bad("partition", o.st, nil, "a new allocator does not hold exactly the blocks of its capacity; "+c.ledger(o.st))
				}
			}
		}
		c.r.absorb(e)
	}
	if only {
		return
	}
	ms := P.methods(rel)
	sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
	for _, m := range ms {
		if !m.Object().Exported() || m.Name() == "Free" {
			continue
		}
		s := m.Signature
		recv := mkSym("alloc", ptr)
		c.where, c.fn = fname(m), m
		if debugCounts {
			fmt.Fprintln(os.Stderr, c.where, time.Now())
		}
		isDP := func(t types.Type) bool { return tyIs(t, "portion.DataPortion") }
		switch {
		case s.Params().Len() == 1 && isUint(s.Params().At(0).Type()) && results(s, isDP, isError):
			e, st := c.engine()
			st.facts[recv] = Fact{nilness: 2}
			c.noPanic(e, "partition")
			size := mkSym("size", s.Params().At(0).Type())
			st.flags["keep:size"] = size
			for _, o := range e.Run(m, st, []*V{recv, size}, nil) {
				c.atReturn(e, o.st, m)
				failed := e.nilOf(o.st, o.ret[1])
				if failed != 1 {
					if c.ledgerEmpty(o.st) {
						c.r.Ok("partition", c.where+" fails")
					} else {
						c.bad("partition", o.st, nil, "free space changes although nothing is handed out; "+c.ledger(o.st))
					}
					continue
				}
				dp := s.Results().At(0).Type()
				a, l := fieldByName(o.ret[0], dp, "Start"), fieldByName(o.ret[0], dp, "Len")
				if !e.same(o.st, l, size) {
					if debugCounts {
						fmt.Fprintln(os.Stderr, "SIZE", c.where, dumpFacts(o.st))
					}
					c.bad("partition", o.st, nil, "hands out "+l.String()+" blocks instead of "+size.String())
				}
				o.st.flags["keep"] = o.ret[0]
				a, l = mkConvTo(a, allocT), mkConvTo(l, allocT)
				c.points(e, o.st, mkAdd(a, l), a)
				if c.ledgerEmpty(o.st) {
					c.r.Ok("partition", c.where+" succeeds")
				} else {
					c.bad("partition", o.st, nil, "the blocks handed out and those that stay free are not those that were free; "+c.ledger(o.st))
				}
			}
			c.r.absorb(e)
		case params(s, isDP) && s.Results().Len() == 0:
			e, st := c.engine()
			st.facts[recv] = Fact{nilness: 2}
			c.noPanic(e, "partition")
			dp := s.Params().At(0).Type()
			p := e.symVal(st, "p", dp)
			a, l := mkConvTo(fieldByName(p, dp, "Start"), allocT), mkConvTo(fieldByName(p, dp, "Len"), allocT)
			e.assumeLe(st, mkU64(1), l)
			e.assumeLe(st, mkAdd(a, l), pow2(40))
			c.disjoint = extent(a, l)
			c.points(e, st, a, mkAdd(a, l))
			n := 0
			for _, o := range e.Run(m, st, []*V{recv, p}, nil) {
				n++
				c.atReturn(e, o.st, m)
				if c.ledgerEmpty(o.st) {
					c.r.Ok("partition", c.where)
				} else {
					c.bad("partition", o.st, nil, "the blocks that become free are not those that were given back; "+c.ledger(o.st))
				}
			}
			if n == 0 {
				c.bad("partition", st, nil, "never returns")
			}
			c.disjoint = nil
			c.r.absorb(e)
		default:
			if s.Params().Len() >= 2 && c.isRestore(s) {
				c.restore(m, rel)
				continue
			}
			e, st := c.engine()
			st.facts[recv] = Fact{nilness: 2}
			args := []*V{recv}
			for i := 0; i < s.Params().Len(); i++ {
				args = append(args, e.symVal(st, s.Params().At(i).Name(), s.Params().At(i).Type()))
			}
			for _, o := range e.Run(m, st, args, nil) {
				c.atReturn(e, o.st, m)
				if !c.ledgerEmpty(o.st) {
					c.bad("partition", o.st, nil, "free space changes; "+c.ledger(o.st))
				}
			}
			c.r.Ok("unchanged", c.where)
			c.r.absorb(e)
		}
	}
}

func (c *allocCk) isRestore(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if tyIs(s.Params().At(i).Type(), "block.BlockSize") {
			return true
		}
	}
	return false
}

// restore: an allocator built from the lumps of an index holds exactly the
// blocks between them.
func (c *allocCk) restore(m *ssa.Function, rel string) {
	P := c.P
	idxT := P.named("lumpindex.LumpIndex")
	dpT := P.named("portion.DataPortion")
	s := m.Signature
	src := s.Params().At(s.Params().Len() - 1).Type()
	// the reader of the index that makes the list
	var rd *ssa.Function
	for _, f := range P.methods("lumpindex.LumpIndex") {
		if f.Object().Exported() && f.Signature.Params().Len() == 0 && results(f.Signature, func(t types.Type) bool { return types.Identical(t, src) }) {
			rd = f
		}
	}
	if rd == nil || idxT == nil {
		c.bad("restore", newState(), nil, "no reader of the index gives the list that is restored from")
		return
	}
	fin := P.method("lumpindex.LumpIndex", "InsertDataPortion")
	fij := P.method("lumpindex.LumpIndex", "InsertJournalPortion")
	if fin == nil || fij == nil {
		return
	}
	for _, order := range [][]int{{}, {0}, {-1}, {0, 1}, {1, 0}, {0, -1, 1}} {
		e, st := c.engine()
		e.unroll = 5
		c.noPanic(e, "restore")
		T := mkSym("blocks", allocT)
		e.assumeLe(st, T, pow2(40))
		bs := e.symVal(st, "bs", s.Params().At(0).Type())
		e.assume(st, mkEq(bs, mkInt(512, bs.t)), true)
		bs = mkInt(512, bs.t)
		rest := mkSym("rest", allocT)
		e.assumeLe(st, rest, mkU64(511))
		capacity := mkAdd(mkMul(T, mkU64(512)), rest)
		// lumps, by position from the end
		var lumps []*V
		top := T
		nData := 0
		for _, o := range order {
			if o >= 0 {
				nData++
			}
		}
		c.points(e, st, mkU64(0), T)
		for i := 0; i < nData; i++ {
			d := e.symVal(st, fmt.Sprintf("lump%d", i), dpT)
			a, l := mkConvTo(fieldByName(d, dpT, "Start"), allocT), mkConvTo(fieldByName(d, dpT, "Len"), allocT)
			e.assumeLe(st, mkU64(1), l)
			e.assumeLe(st, mkAdd(a, l), top)
			top = a
			lumps = append(lumps, d)
			c.points(e, st, mkAdd(a, l), a)
		}
		// the index: entries in the order of their ids
		entries := []*V{}
		idx := mkSym("index", types.NewPointer(idxT))
		st.facts[idx] = Fact{nilness: 2}
		hook := e.H.Call
		pos := 0
		var sets []*V
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch judyRecv(ci) {
			case "JudyL":
				switch ci.fn.Name() {
				case "Insert":
					entries = append(entries, ci.args[2])
					return []Outcome{{st, e.freshResults(st, ci)}}, true
				case "Get":
					return []Outcome{{st, []*V{mkU64(0), mkBool(false)}}}, true
				case "First", "Next":
					if ci.fn.Name() == "First" {
						pos = 0
					} else {
						k, ok := ci.args[1].intConst()
						if !ok {
							return nil, false
						}
						pos = int(k)
					}
					if pos < len(entries) {
						return []Outcome{{st, []*V{mkU64(uint64(pos + 1)), entries[pos], mkBool(true)}}}, true
					}
					return []Outcome{{st, []*V{mkU64(0), mkU64(0), mkBool(false)}}}, true
				case "CountAll", "Count":
					return []Outcome{{st, []*V{mkU64(uint64(len(entries)))}}}, true
				}
				return []Outcome{{st, e.freshResults(st, ci)}}, true
			case "Judy1":
				if ci.fn.Name() == "Set" && !c.isTree(c.treePath(st, ci.args[0])) {
					sets = append(sets, ci.args[1])
					return []Outcome{{st, e.freshResults(st, ci)}}, true
				}
			}
			return hook(e, st, ci)
		}
		ok := true
		st.flags["keep"] = mkTuple(append([]*V{idx, capacity}, lumps...)...)
		for i, o := range order {
			id := e.symVal(st, fmt.Sprintf("id%d", i), P.named("lump.LumpId"))
			f, v := fin, (*V)(nil)
			if o >= 0 {
				v = lumps[o]
			} else {
				f = fij
				v = e.symVal(st, "j", P.named("portion.JournalPortion"))
			}
			st.flags[fmt.Sprintf("keep:e%d", i)] = mkTuple(id, v)
			outs := e.Run(f, st, []*V{idx, id, v}, nil)
			if len(outs) != 1 {
				ok = false
				break
			}
			st = outs[0].st
		}
		if !ok || len(entries) != len(order) {
			c.bad("restore", st, nil, "insertion into the index is not understood")
			return
		}
		st.flags["keep"] = mkTuple(append([]*V{idx, capacity}, lumps...)...)
		if debugCounts {
			fmt.Fprintln(os.Stderr, c.where, order, time.Now())
		}
		outs := e.Run(rd, st, []*V{idx}, nil)
		if len(outs) != 1 {
			c.bad("restore", st, nil, fmt.Sprintf("%s has %d outcomes for one index", fname(rd), len(outs)))
			return
		}
		st = outs[0].st
		list := outs[0].ret[0]
		c.given = nil
		if sets != nil {
			// a tree: iterated from its end
			c.given = []*V{}
			var ks []*V
			for _, k := range sets {
				ks = append(ks, k)
			}
			// insertion sort by key, descending
			for i := range ks {
				for j := i; j > 0; j-- {
					switch e.decide(st, mkLess(ks[j-1], ks[j])) {
					case 1:
						ks[j-1], ks[j] = ks[j], ks[j-1]
						continue
					case 2:
					default:
						c.bad("restore", st, nil, "the order of the lumps in the tree for the allocator is not their order of position")
						return
					}
					break
				}
			}
			for i, k := range ks {
				if i > 0 && e.same(st, ks[i-1], k) {
					continue
				}
				c.given = append(c.given, k)
			}
		}
		recv := mkSym("alloc", m.Params[0].Type())
		st.facts[recv] = Fact{nilness: 2}
		st.flags["keep"] = mkTuple(list, recv, capacity)
		n := 0
		for _, o := range e.Run(m, st, []*V{recv, bs, capacity, list}, nil) {
			n++
			c.atReturn(e, o.st, m)
			if c.ledgerEmpty(o.st) {
				c.r.Ok("restore", fmt.Sprintf("%s, %d lumps", c.where, nData))
			} else {
				c.bad("restore", o.st, nil, fmt.Sprintf("for %d lumps the free space after the restore is not the space between them; %s", nData, c.ledger(o.st)))
			}
		}
		if n == 0 {
			c.bad("restore", st, nil, "never returns")
		}
		c.given = nil
		c.r.absorb(e)
	}
}

func checkAlloc(P *Program, r *Report) {
	_, ts := allocTypes(P)
	if len(ts) == 0 {
		r.Add("pairing", "storage/allocator", "-", "no allocator found", nil)
	}
	for _, nt := range ts {
		var best *allocCk
		for _, c := range newAllocCks(P, nil, nt) {
			c.r = NewReport(r.Prop)
			c.runAll(nt, true)
			if best == nil || c.viol < best.viol {
				best = c
			}
		}
		best.r = r
		best.runAll(nt, false)
	}
	r.Need("pairing", 8)
	r.Need("partition", 8)
	r.Need("restore", 15)
	_ = constant.MakeBool
}

func init() {
	checks["C17"] = func(P *Program, r *Report) {
		r.Explanation = "allocation, release and restore code interpreted symbolically; every change of one index of free extents is matched with the change of the other and of the counter, and the sets of blocks going in and out are balanced"
		r.Assumptions = []string{"the tree libraries store and find what they were given", "free extents in the indexes are disjoint, non-empty and end within 40 bits", "an extent given back is not free (C07)"}
		checkAlloc(P, r)
	}
}
