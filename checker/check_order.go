package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: comparisons. A comparison is executed on arbitrary values, several times on
// the same path: never less than itself, never less both ways, transitive, and
// equal exactly if neither is less. Where the values have a key that other code
// relies on, the order is that of the key.

type orderCk struct {
	P     *Program
	r     *Report
	e     *Engine
	where string
	fnc   *ssa.Function
	bads  int
	quiet bool
}

func (c *orderCk) bad(rule string, st *State, format string, a ...interface{}) {
	c.bads++
	if c.bads > 20 || c.quiet {
		return
	}
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	c.r.Add(rule, c.where, c.P.pos(c.fnc), fmt.Sprintf(format, a...), tr)
}

// cmpItem is a comparable thing: what is given to the comparison, and its key, the
// most significant part first.
type cmpItem struct {
	arg *V
	key []*V
}

type cmpResult struct {
	st  *State
	rel int // -1 less, 0 equal, 1 greater; for a Less: -1 or 9
}

const notLess = 9

// compare runs a comparison; every path decides.
func (c *orderCk) compare(st *State, less bool, run func(st *State) []Outcome) []cmpResult {
	e := c.e
	var out []cmpResult
	n := 0
	for _, o := range run(st) {
		n++
		v := o.ret[0]
		if less {
			a := o.st.clone()
			if e.assume(a, v, true) {
				out = append(out, cmpResult{a, -1})
			}
			if e.assume(o.st, v, false) {
				out = append(out, cmpResult{o.st, notLess})
			}
			continue
		}
		zero := mkInt(0, v.t)
		a, b := o.st.clone(), o.st.clone()
		if e.assume(a, mkLess(v, zero), true) {
			out = append(out, cmpResult{a, -1})
		}
		if e.assume(b, mkLess(zero, v), true) {
			out = append(out, cmpResult{b, 1})
		}
		if e.assume(o.st, mkEq(v, zero), true) {
			out = append(out, cmpResult{o.st, 0})
		}
	}
	if n == 0 {
		c.bad("decides", st, "never returns")
	}
	return out
}

// keyLess forks on the order of the keys: states where a is less, equal, greater.
func (c *orderCk) keys(st *State, a, b []*V) (lt, eq, gt []*State) {
	e := c.e
	cur := st
	for i := range a {
		x, y := a[i], b[i]
		s1, s2 := cur.clone(), cur.clone()
		if e.assume(s1, mkLess(x, y), true) {
			lt = append(lt, s1)
		}
		if e.assume(s2, mkLess(y, x), true) {
			gt = append(gt, s2)
		}
		if !e.assume(cur, mkLess(x, y), false) || !e.assume(cur, mkLess(y, x), false) {
			return
		}
	}
	eq = append(eq, cur)
	return
}

type relation struct {
	name string
	less bool
	st   *State
	a    []cmpItem // three of them
	call func(st *State, x, y *V) []Outcome
	desc bool // the order is descending
	weak bool // things with the same key need not be the same
}

func (c *orderCk) check(q relation) {
	x, y, z := q.a[0], q.a[1], q.a[2]
	run := func(st *State, a, b cmpItem) []cmpResult {
		return c.compare(st.clone(), q.less, func(st *State) []Outcome { return q.call(st, a.arg, b.arg) })
	}
	// with itself
	for _, o := range run(q.st, x, x) {
		if o.rel == -1 || o.rel == 1 {
			c.bad("irreflexive", o.st, "a value may compare as less or greater than itself")
		} else {
			c.r.Ok("irreflexive", c.where)
		}
	}
	// against the key
	for _, o := range run(q.st, x, y) {
		a, b := x.key, y.key
		if q.desc {
			a, b = b, a
		}
		lt, eq, gt := c.keys(o.st.clone(), a, b)
		for _, s := range lt {
			if o.rel != -1 {
				c.bad("order", s, "a value with a smaller key (%s) does not compare as less", keyNames(x.key))
			} else {
				c.r.Ok("order", c.where)
			}
		}
		for _, s := range gt {
			if o.rel == -1 || o.rel == 0 {
				c.bad("order", s, "a value with a larger key (%s) compares as less or equal", keyNames(x.key))
			} else {
				c.r.Ok("order", c.where)
			}
		}
		for _, s := range eq {
			if o.rel == -1 || o.rel == 1 {
				c.bad("order", s, "values with the same key (%s) do not compare as equal", keyNames(x.key))
			} else {
				c.r.Ok("order", c.where)
			}
		}
		// the other way round
		for _, p := range run(o.st, y, x) {
			switch {
			case o.rel == -1 && p.rel == -1, o.rel == 1 && p.rel == 1, (o.rel == 0) != (p.rel == 0), o.rel == -1 && p.rel == 0:
				c.bad("antisymmetric", p.st, "both ways round give results that contradict each other")
			default:
				c.r.Ok("antisymmetric", c.where)
			}
		}
	}
	// transitive
	for _, o := range run(q.st, x, y) {
		if o.rel != -1 {
			continue
		}
		for _, p := range run(o.st, y, z) {
			if p.rel != -1 {
				continue
			}
			for _, s := range run(p.st, x, z) {
				if s.rel != -1 {
					c.bad("transitive", s.st, "x is less than y, y less than z, but x not less than z")
				} else {
					c.r.Ok("transitive", c.where)
				}
			}
		}
	}
}

func keyNames(k []*V) string {
	var l []string
	for _, v := range k {
		l = append(l, v.String())
	}
	return strings.Join(l, ", ")
}

// free makes an arbitrary free extent through its constructor.
func (c *orderCk) free(st *State, mk *ssa.Function, name string) (v, start, ln *V, ok bool) {
	e := c.e
	at := mk.Signature.Params().At(0).Type()
	start, ln = e.symVal(st, name+".start", at), mkSym(name+".len", mk.Signature.Params().At(1).Type())
	e.assumeLe(st, i64(start), pow2(40))
	e.assumeLe(st, i64(ln), pow2(24))
	e.assumeLe(st, mkAdd(i64(start), i64(ln)), pow2(40))
	st.flags["keep"+name] = mkTuple(start, ln)
	outs := e.Run(mk, st.clone(), []*V{start, ln}, nil)
	if len(outs) != 1 {
		return nil, nil, nil, false
	}
	return outs[0].ret[0], i64(start), i64(ln), true
}

func (c *orderCk) fresh() *State {
	_, e := newCodec(c.P)
	c.e = e
	e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {
		c.bad("decides", st, "panics at %s", c.P.pos(site))
	}
	return newState()
}

func init() {
	checks["C23"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of every comparison, repeated on arbitrary pairs and triples; path conditions decided by linear arithmetic and bit slices"
		c := &orderCk{P: P, r: r}
		var mk *ssa.Function
		for _, f := range P.fnsWith(func(s *types.Signature) bool {
			return params(s, is("address.Address"), is("uint32")) && results(s, is("portion.FreePortion"))
		}) {
			mk = f
		}
		for _, f := range P.funcs {
			if f.Object() == nil || f.Blocks == nil || f.Synthetic != "" || f.Signature.Recv() == nil || !P.inModule(f) {
				continue
			}
			s := f.Signature
			rt := s.Recv().Type()
			n, _ := types.Unalias(rt).(*types.Named)
			if n == nil || s.Params().Len() != 1 || s.Results().Len() != 1 {
				continue
			}
			c.where, c.fnc = fname(f), f
			f := f
			switch {
			case f.Name() == "Less" && isBool(s.Results().At(0).Type()):
				// free extents: packed start and length
				b, ok := rt.Underlying().(*types.Basic)
				if !ok || b.Kind() != types.Uint64 || mk == nil {
					r.Add("order", c.where, P.pos(f), "a comparison of values that are not understood", nil)
					continue
				}
				r.Funcs[c.where] = true
				st := c.fresh()
				var it []cmpItem
				byEnd := strings.HasPrefix(n.Obj().Name(), "End")
				for _, name := range []string{"x", "y", "z"} {
					v, start, ln, ok := c.free(st, mk, name)
					if !ok {
						r.Add("order", c.where, P.pos(mk), "no extent can be made", nil)
						return
					}
					k := []*V{ln, start}
					if byEnd {
						k = []*V{mkAdd(start, ln)}
					}
					it = append(it, cmpItem{mkConvTo(v, rt), k})
				}
				st.flags["keepitems"] = mkTuple(it[0].arg, it[1].arg, it[2].arg)
				iface := types.Unalias(s.Params().At(0).Type())
				_, isI := iface.Underlying().(*types.Interface)
				c.check(relation{name: c.where, less: true, st: st, a: it, call: func(st *State, x, y *V) []Outcome {
					if isI {
						y = mkIface(rt, y)
					}
					return c.e.Run(f, st, []*V{x, y}, nil)
				}})
			case f.Name() == "Compare" && types.Identical(s.Params().At(0).Type(), rt) && isInt(s.Results().At(0).Type()):
				r.Funcs[c.where] = true
				st := c.fresh()
				var it []cmpItem
				for _, name := range []string{"x", "y", "z"} {
					v := c.e.symVal(st, name, rt)
					st.flags["keep"+name] = v
					k := c.numberOf(st, n, v)
					it = append(it, cmpItem{v, k})
				}
				c.check(relation{name: c.where, st: st, a: it, call: func(st *State, x, y *V) []Outcome {
					return c.e.Run(f, st, []*V{x, y}, nil)
				}})
			}
			if c.e != nil {
				r.absorb(c.e)
				c.e = nil
			}
		}
		c.sorts()
		r.Need("order", 20)
		r.Need("transitive", 4)
		r.Need("antisymmetric", 10)
	}
}

// numberOf is the number that stands for a value elsewhere: its U64, or its words.
func (c *orderCk) numberOf(st *State, n *types.Named, v *V) []*V {
	if m := c.P.methodOf(n, "U64"); m != nil {
		if outs := c.e.Run(m, st.clone(), []*V{v}, nil); len(outs) == 1 {
			return []*V{outs[0].ret[0]}
		}
	}
	var k []*V
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		k = append(k, fieldOf(v, i))
	}
	if s == nil {
		k = append(k, v)
	}
	return k
}

// sorts: comparisons given to sort.Slice.
func (c *orderCk) sorts() {
	P, r := c.P, c.r
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Pkg == nil || call.Call.StaticCallee().Pkg.Pkg.Path() != "sort" || !P.inModule(f) {
					continue
				}
				var cl *ssa.Function
				var mc *ssa.MakeClosure
				for _, a := range call.Call.Args {
					if m, ok := a.(*ssa.MakeClosure); ok {
						mc, cl = m, m.Fn.(*ssa.Function)
					} else if g, ok := a.(*ssa.Function); ok {
						cl = g
					}
				}
				if cl == nil || !params(cl.Signature, is("int"), is("int")) {
					continue
				}
				c.where, c.fnc = fname(f)+" sort", cl
				r.Funcs[fname(cl)] = true
				st := c.fresh()
				var binds []*V
				var list *V
				var lt types.Type
				if mc != nil {
					for i, fv := range cl.FreeVars {
						t := fv.Type()
						if p, ok := underPtr(t); ok {
							v := c.e.symVal(st, "list", p)
							list, lt = v, p
							binds = append(binds, c.e.makeRecv(st, fmt.Sprintf("free%d", i), t, v))
						} else {
							v := c.e.symVal(st, "list", t)
							list, lt = v, t
							binds = append(binds, v)
						}
					}
				}
				et := elemType(lt)
				if list == nil || et == nil || !tyIs(et, "portion.DataPortion") {
					r.Add("order", c.where, P.pos(cl), "a sort of values that are not understood", nil)
					continue
				}
				tInt := types.Typ[types.Int]
				st.flags["keep"] = mkTuple(append(binds, list)...)
				var it []cmpItem
				endM := P.method("portion.DataPortion", "End")
				for i := 0; i < 3; i++ {
					ix := mkConst(constant.MakeInt64(int64(i)), tInt)
					base, _, _ := c.e.sliceParts(st, list)
					el := c.e.symVal(st, fmt.Sprintf("portion%d", i), et)
					bb, bp := splitPtr(base)
					c.e.storeLoc(st, bb, bp+idxPath(ix), el, et)
					st.flags[fmt.Sprintf("keep%d", i)] = el
					outs := c.e.Run(endM, st.clone(), []*V{el}, nil)
					if len(outs) != 1 {
						r.Add("order", c.where, P.pos(endM), "the end of an extent is not understood", nil)
						return
					}
					startF := fieldByName(el, et, "Start")
					it = append(it, cmpItem{ix, []*V{outs[0].ret[0], i64(startF)}})
				}

				// extents do not overlap: their starts are in the order of their ends
				q := relation{name: c.where, less: true, st: st, call: func(st *State, x, y *V) []Outcome {
					return c.e.Run(cl, st, []*V{x, y}, binds)
				}}
				c.quiet = true
				found := false
				for k := 0; k < 4 && !found; k++ {
					q.a, q.desc = nil, k%2 == 0
					for i := range it {
						q.a = append(q.a, cmpItem{it[i].arg, it[i].key[k/2 : k/2+1]})
					}
					c.bads = 0
					tmp := NewReport(r.Prop)
					c.r = tmp
					c.check(q)
					found = c.bads == 0
				}
				c.r, c.quiet, c.bads = r, false, 0
				if !found {
					q.desc = true
					q.a = nil
					for i := range it {
						q.a = append(q.a, cmpItem{it[i].arg, it[i].key[:1]})
					}
				}
				c.check(q)
				r.absorb(c.e)
			}
		}
	}
}
