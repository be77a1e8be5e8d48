package main

import (
	"go/types"
)

// C26: what an append may write, and that a refused append writes nothing.
//
// T is the tail, U the oldest record in use, both at most the capacity CAP.
// Invariant: the end mark is at T, so T+E <= CAP; and when T < U its block is
// before U. The bytes that may be changed are [T,U) when T < U, and else
// [T,CAP) and [0,U). Writes change whole blocks behind the position.

type roomCk struct{ *ringCk }

func (c *roomCk) ceil(e *Engine, st *State, x *V) *V {
	// x rounded up to whole blocks
	y := mkAdd(x, mkU64(uint64(c.bs-1)))
	return mkSub(y, mkRem(y, uint64(c.bs)))
}

func (c *roomCk) invariant(e *Engine, st *State, T, U, capacity, end *V) string {
	if !e.le(st, mkAdd(T, end), capacity) || !e.le(st, T, capacity) {
		return "the end mark does not fit at the new tail"
	}
	switch e.decide(st, mkLess(T, U)) {
	case 2:
		return ""
	}
	s2 := st.clone()
	if !e.assume(s2, mkLess(T, U), true) {
		return ""
	}
	if !e.le(s2, c.ceil(e, s2, mkAdd(T, end)), U) {
		return "the block of the end mark reaches the oldest record in use"
	}
	return ""
}

func (c *roomCk) check() {
	P, r := c.P, c.r
	for _, bs := range []int64{512, 4096} {
		c.bs = bs
		for _, kind := range c.kinds {
			if c.mark(kind) {
				continue
			}
			for _, wrapped := range []bool{false, true} {
				c.one(kind, wrapped)
			}
		}
	}
	_ = P
	r.Funcs[fname(c.enq)] = true
}

func (c *roomCk) one(kind types.Type, wrapped bool) {
	P, r := c.P, c.r
	_, e := newCodec(P)
	st, recv, rec, capacity := c.state(e)
	T, U := fieldOf(rec, c.tail), fieldOf(rec, c.unrel)
	end := c.sizeOf(e, st, c.tEnd, e.symVal(st, "end", c.tEnd))
	where := fname(c.enq) + " of " + recName(kind)
	// blocks of the tail and of the oldest record
	e.assumeLe(st, mkAdd(U, end), capacity) // a record or a mark begins there
	if wrapped {
		e.assume(st, mkLess(T, U), true)
		e.assumeLe(st, c.ceil(e, st, mkAdd(T, end)), U)
		where += ", tail before head"
	} else {
		e.assume(st, mkLess(T, U), false)
	}
	rv := e.symVal(st, "rec", kind)
	boundSlices(e, st, rv, kind)
	size0 := c.sizeOf(e, st, kind, rv)
	e.assumeLe(st, size0, mkU64(1<<17))
	st.flags["keeprec"] = rv
	c.ringCk.bad = nil
	c.hooks(e, capacity)
	ok, full := 0, 0
	for _, o := range e.Run(c.enq, st, []*V{recv, mkIface(kind, rv)}, nil) {
		T2, U2 := c.field(e, o.st, recv, c.tail), c.field(e, o.st, recv, c.unrel)
		H2 := c.field(e, o.st, recv, c.head)
		success := e.isNil(o.st, o.ret[1])
		if !e.numEq(o.st, U2, U) || !e.numEq(o.st, H2, fieldOf(rec, c.head)) {
			c.fail("release", where, c.enq, o.st, "an append changes what is in use at the head of the log")
		}
		var ws []*V
		for _, x := range logOf(o.st) {
			if x.args[0].strConst() == "write" {
				ws = append(ws, x)
			}
		}
		if !success && o.st.flag("deverr") == "" {
			full++
			if len(ws) > 0 || len(logOf(o.st)) > 0 {
				c.fail("refused", where, c.enq, o.st, "a refused append has already written %s", ws0(ws))
			} else if !e.numEq(o.st, T2, T) {
				c.fail("refused", where, c.enq, o.st, "a refused append moves the tail to %s", T2)
			} else {
				r.Ok("refused", where)
			}
			// not although it fits behind the tail, or at the front
			need, front := mkAdd(mkAdd(T, size0), end), mkAdd(size0, end)
			cn, cf := c.ceil(e, o.st, need), c.ceil(e, o.st, front)
			if wrapped {
				if e.decide(o.st, mkLess(U, cn)) != 1 {
					c.fail("admits", where, c.enq, o.st, "a record that fits behind the tail is refused")
				} else {
					r.Ok("admits", where)
				}
				continue
			}
			s2 := o.st.clone()
			// the capacity is whole blocks, so rounding up stays below it
			if e.assume(s2, mkLess(capacity, need), false) && e.assume(s2, mkLess(capacity, cn), false) {
				c.fail("admits", where, c.enq, o.st, "a record that fits behind the tail is refused")
			} else {
				r.Ok("admits", where)
			}
			s2 = o.st.clone()
			if e.assume(s2, mkLess(U, cf), false) && e.assume(s2, mkLess(mkAdd(capacity, cf), cn), false) {
				c.fail("admits", where, c.enq, o.st, "a record that fits at the front is refused")
			} else {
				r.Ok("admits", where)
			}
			continue
		}
		// every write stays in the free space
		room := true
		// rounding up is monotone: enough if a later end rounds up to at most U
		below := func(x *V) bool {
			for _, y := range []*V{x, mkAdd(mkAdd(T, size0), end), mkAdd(size0, end)} {
				if e.le(o.st, x, y) && e.le(o.st, c.ceil(e, o.st, y), U) {
					return true
				}
			}
			return false
		}
		for _, w := range ws {
			pos, size := w.args[2], w.args[3]
			last := mkAdd(pos, size)
			fits := false
			if wrapped {
				fits = e.le(o.st, T, pos) && e.le(o.st, last, capacity) && below(last)
			} else {
				fits = e.le(o.st, T, pos) && e.le(o.st, last, capacity) ||
					e.le(o.st, pos, last) && below(last)
			}
			if !fits {
				c.fail("room", where, c.enq, o.st, "%s is written at [%s, %s): with %s that can be beyond the capacity or reach the oldest record in use", w.args[1].strConst(), pos, last, "any tail and head")
				room = false
			}
		}
		if room && len(ws) > 0 {
			r.Ok("room", where)
		}
		if success {
			ok++
			if why := c.invariant(e, o.st, T2, U, capacity, end); why != "" {
				c.fail("room", where, c.enq, o.st, "%s", why)
			} else {
				r.Ok("tail", where)
			}
		}
	}
	for _, b := range c.ringCk.bad {
		r.Add("room", where, P.pos(c.enq), b, nil)
	}
	if ok == 0 {
		c.fail("room", where, c.enq, nil, "no append succeeds")
	}
	if full == 0 {
		c.fail("refused", where, c.enq, nil, "no append is refused")
	}
	r.absorb(e)
}

func ws0(ws []*V) string {
	if len(ws) == 0 {
		return "to the device"
	}
	return ws[0].args[1].strConst()
}

func init() {
	checks["C26"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of the append of the log for every record kind, arbitrary sizes, positions and capacity: every write must stay in the free space, in whole blocks; refused appends have no effect"
		r.Assumptions = []string{"the announced size of a record is the number of bytes written (C10)", "the log's capacity is a multiple of the block size (C12) below 2^40"}
		g := newRing(P, r)
		if g == nil {
			r.Add("room", "storage/journal", "-", "the log of records was not found", nil)
			return
		}
		c := &roomCk{g}
		c.check()
		r.Need("room", 10)
		r.Need("refused", 10)
		r.Need("tail", 10)
	}
}
