package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The log of records: positions, appends and scans. Used by C13 and C26.

type ringCk struct {
	P                 *Program
	r                 *Report
	recI              *types.Named
	kinds             []types.Type // kinds of records
	tEnd, tFront      types.Type
	tEmbed, tJP       types.Type
	tEntry            types.Type
	ring              *types.Named
	enq               *ssa.Function
	dev               int // field with the device
	tail, head, unrel int
	off               int64 // of the payload in an embedded record
	bad               []string
	bs                int64
	embData           *V
}

func newRing(P *Program, r *Report) *ringCk {
	c := &ringCk{P: P, r: r, tail: -1, head: -1, unrel: -1, dev: -1, off: -1, bs: 512}
	c.recI = P.named("storage/journal.JournalRecord")
	jp := P.named("portion.JournalPortion")
	en := P.named("storage/journal.JournalEntry")
	if c.recI == nil || jp == nil || en == nil {
		return nil
	}
	c.tJP, c.tEntry = jp, en
	nvmI := P.named("nvm.NonVolatileMemory")
	for _, f := range P.funcs {
		s := f.Signature
		if s.Recv() == nil || !params(s, func(t types.Type) bool { return types.Identical(t, c.recI) }) {
			continue
		}
		if results(s, func(t types.Type) bool { return types.Identical(t, jp) }, isError) {
			c.enq, c.ring = f, recvNamed(f)
		}
	}
	if c.enq == nil || structOf(c.ring) == nil || nvmI == nil {
		return nil
	}
	sy := &syncCk{P: P, nvmI: nvmI}
	s := structOf(c.ring)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if p, ok := underPtr(t); ok {
			t = p
		}
		if n, _ := types.Unalias(t).(*types.Named); n != nil && sy.isDevice(n) {
			c.dev = i
		}
	}
	// the positions, by what the methods give and set
	_, e := newCodec(P)
	for name, at := range map[string]*int{"Tail": &c.tail, "Head": &c.head, "ReleaseBytesUntil": &c.unrel} {
		m := P.methodOf(c.ring, name)
		if m == nil {
			return nil
		}
		st := newState()
		rec := e.symVal(st, "ring", c.ring)
		recv := e.makeRecv(st, "ringcell", types.NewPointer(c.ring), rec)
		args := []*V{recv}
		x := mkSym("x", tU64())
		st.flags["keep"] = mkTuple(recv, rec, x)
		if m.Signature.Params().Len() == 1 {
			args = append(args, x)
		}
		h := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if c.isDev(ci) {
				return []Outcome{{st, e.freshResults(st, ci)}}, true
			}
			return h(e, st, ci)
		}
		for _, o := range e.Run(m, st, args, nil) {
			for i := 0; i < s.NumFields(); i++ {
				if len(o.ret) == 1 && o.ret[0] == fieldOf(rec, i) {
					*at = i
				}
				base, path := splitPtr(recv)
				if len(o.ret) == 0 && e.loadLoc(o.st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type()) == x {
					*at = i
				}
			}
		}
		e.H.Call = h
	}
	if debugCounts {
		fmt.Println("ring", c.tail, c.head, c.unrel, c.dev, c.enq)
	}
	if c.tail < 0 || c.head < 0 || c.unrel < 0 || c.dev < 0 {
		return nil
	}
	for _, t := range P.implementers("storage/journal.JournalRecord") {
		c.kinds = append(c.kinds, t)
		n := recName(t)
		if s := structOf(t); s != nil && s.NumFields() == 0 {
			// marks: the one the reader stops at is called EndOfRecords
			if strings.Contains(n, "End") {
				c.tEnd = t
			} else {
				c.tFront = t
			}
		} else if s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
					c.tEmbed = t
				}
			}
		}
	}
	if c.tEnd == nil || c.tFront == nil || c.tEmbed == nil {
		return nil
	}
	c.off = c.payloadOffset()
	if c.off < 0 {
		return nil
	}
	return c
}

func (c *ringCk) mark(t types.Type) bool {
	return types.Identical(t, c.tEnd) || types.Identical(t, c.tFront)
}

// payload is the field of an embedded record with the data.
func (c *ringCk) payload(rec *V) *V {
	s := structOf(c.tEmbed)
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			return fieldOf(rec, i)
		}
	}
	return nil
}

// payloadOffset: where the data of an embedded record is, in the bytes written.
func (c *ringCk) payloadOffset() int64 {
	_, e := newCodec(c.P)
	st := newState()
	rec := e.symVal(st, "rec", c.tEmbed)
	boundSlices(e, st, rec, c.tEmbed)
	recv := e.makeRecv(st, "reccell", c.tEmbed, rec)
	st.flags["w:W"] = mkTuple()
	wr := c.P.prog.LookupMethod(c.tEmbed, nil, "WriteTo")
	off := int64(-1)
	for _, o := range e.Run(wr, st, []*V{recv, mkSym("W", ioType(c.P, "Writer"))}, nil) {
		if !e.isNil(o.st, o.ret[0]) {
			continue
		}
		n := int64(0)
		for _, t := range stoks(o.st, "w:W") {
			if !isByte(t) {
				if off >= 0 && off != n {
					return -1
				}
				off = n
				break
			}
			n++
		}
	}
	return off
}

// isDev: a method of the device below the log.
func (c *ringCk) isDev(ci *CallInfo) bool {
	t := structOf(c.ring).Field(c.dev).Type()
	if p, ok := underPtr(t); ok {
		t = p
	}
	if ci.method != nil {
		return ci.recv != nil && ci.recv.t != nil && types.Identical(types.Unalias(ci.recv.t), types.Unalias(t))
	}
	n := recvNamed(ci.fn)
	m, _ := types.Unalias(t).(*types.Named)
	return n != nil && m != nil && n.Obj() == m.Obj()
}

func (c *ringCk) sizeOf(e *Engine, st *State, t types.Type, rv *V) *V {
	m := c.P.prog.LookupMethod(t, nil, "ExternalSize")
	outs := e.Run(m, st.clone(), []*V{rv}, nil)
	if len(outs) != 1 {
		return nil
	}
	return mkConvTo(outs[0].ret[0], tU64())
}

func addLog(st *State, ev ...*V) {
	var l []*V
	if t := st.flags["log"]; t != nil {
		l = append(l, t.args...)
	}
	st.flags["log"] = mkTuple(append(l, mkTuple(ev...))...)
}

func logOf(st *State) []*V {
	if t := st.flags["log"]; t != nil {
		return t.args
	}
	return nil
}

// hooks: the device below the log, with a position and a log of the writes.
func (c *ringCk) hooks(e *Engine, capacity *V) {
	base := e.H.Call
	P := c.P
	fork := func(e *Engine, st *State, ci *CallInfo, what string) []Outcome {
		fl := st.clone()
		ok, bad := e.freshResults(st, ci), e.freshResults(fl, ci)
		n := len(ok) - 1
		ok[n], bad[n] = theNil, e.newErr(fl, ci.site, ".err")
		fl.setFlag("deverr", "1")
		fl.note(what + " fails at " + P.pos(ci.site))
		return []Outcome{{st, ok}, {fl, bad}}
	}
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && ci.fn.Name() == "WriteTo" && recvNamed(ci.fn) != nil && types.Implements(recvNamed(ci.fn), c.recI.Underlying().(*types.Interface)) {
			t := recvNamed(ci.fn)
			pos := st.flags["pos"]
			if pos == nil {
				c.bad = append(c.bad, "a record is written at an unknown position at "+P.pos(ci.site))
				return nil, false
			}
			size := c.sizeOf(e, st, t, ci.args[0])
			if size == nil {
				return nil, false
			}
			addLog(st, mkStr("write"), mkStr(recName(t)), pos, size, ci.args[0])
			outs := fork(e, st, ci, "writing "+recName(t))
			st.setVal("pos", mkAdd(pos, size))
			st.note("writes " + recName(t) + " at " + P.pos(ci.site))
			outs[1].st.setVal("pos", nil)
			return outs, true
		}
		if c.isDev(ci) {
			switch callee(ci) {
			case "Seek":
				k, ok := ci.args[2].intConst()
				if !ok || k != 0 {
					c.bad = append(c.bad, "a seek that is not from the start at "+P.pos(ci.site))
				}
				outs := fork(e, st, ci, "Seek")
				st.setVal("pos", mkConvTo(ci.args[1], tU64()))
				return outs, true
			case "Position":
				if p := st.flags["pos"]; p != nil {
					return []Outcome{{st, []*V{p}}}, true
				}
			case "Capacity":
				return []Outcome{{st, []*V{capacity}}}, true
			case "BlockSize":
				return []Outcome{{st, []*V{mkInt(c.bs, ci.sig.Results().At(0).Type())}}}, true
			case "Flush", "Sync":
				outs := fork(e, st, ci, callee(ci))
				addLog(st, mkStr("flush"))
				return outs, true
			}
			if lastIsError(ci.sig) {
				if w := callee(ci); strings.HasPrefix(w, "Write") {
					c.bad = append(c.bad, "the device is written without a record at "+P.pos(ci.site))
				}
				return fork(e, st, ci, callee(ci)), true
			}
		}
		if strings.HasPrefix(ci.name, "sync/atomic.") {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		return base(e, st, ci)
	}
}

// state of a log with any positions.
func (c *ringCk) state(e *Engine) (st *State, recv, rec, capacity *V) {
	st = newState()
	rec = e.symVal(st, "ring", c.ring)
	s := structOf(c.ring)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			st.facts[fieldOf(rec, i)] = Fact{nilness: 2}
		}
	}
	capacity = mkSym("capacity", tU64())
	recv = e.makeRecv(st, "ringcell", types.NewPointer(c.ring), rec)
	st.flags["keep"] = mkTuple(rec, recv, capacity)
	T, H, U := fieldOf(rec, c.tail), fieldOf(rec, c.head), fieldOf(rec, c.unrel)
	e.assumeLe(st, capacity, pow2(40))
	e.assume(st, mkEq(mkRem(capacity, uint64(c.bs)), mkU64(0)), true)
	end := c.sizeOf(e, st, c.tEnd, e.symVal(st, "end", c.tEnd))
	e.assumeLe(st, T, capacity)
	e.assumeLe(st, mkAdd(T, end), capacity)
	e.assumeLe(st, H, capacity)
	e.assumeLe(st, U, capacity)
	return
}

func (c *ringCk) field(e *Engine, st *State, recv *V, i int) *V {
	s := structOf(c.ring)
	base, path := splitPtr(recv)
	return e.loadLoc(st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
}

// jportion: the location of the data of a record at position start.
func (c *ringCk) jportion(st *State, t types.Type, rec, start *V) *V {
	s := structOf(c.tJP)
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Type()
		switch {
		case !types.Identical(t, c.tEmbed):
			fs = append(fs, mkInt(0, f))
		case tyIs(f, "address.Address"):
			fs = append(fs, mkConvTo(mkAdd(mkConvTo(start, tU64()), mkU64(uint64(c.off))), f))
		default:
			fs = append(fs, mkConvTo(c.lenPayload(st, rec), f))
		}
	}
	return mkStruct(c.tJP, fs)
}

func (c *ringCk) lenPayload(st *State, rec *V) *V {
	_, e := newCodec(c.P)
	return e.lenOf(st, c.payload(rec))
}

func (c *ringCk) fail(rule, where string, f *ssa.Function, st *State, format string, a ...interface{}) {
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	c.r.Add(rule, where, c.P.pos(f), fmt.Sprintf(format, a...), tr)
}
