package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C27: the bytes that go through the journal's write buffer. One byte of the
// device, at an arbitrary position X, is followed: "the byte at index i of this
// piece of memory is v" are the only facts about contents. Copies, reads and
// writes move such facts; where it is not known whether a copied range contains
// the byte, both cases are followed.

type bytesCk struct {
	P            *Program
	r            *Report
	s            *syncCk
	e            *Engine
	block        int64
	x            *V // the position that is followed
	pos0, off0   *V
	cap          *V
	val, arg     *V // the byte last written there, and the one being written
	dev          *V
	where        string
	fnc          *ssa.Function
	recv         *V
	dirtyI, posI int
	abs          []int
	dead         bool
	ab           *types.Named
	newAB        *ssa.Function
	inline       bool
}

const byteFacts = "keepbytes"

func (c *bytesCk) bad(rule string, st *State, format string, a ...interface{}) {
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	c.dead = true
	c.r.Add(rule, c.where, c.P.pos(c.fnc), fmt.Sprintf(format, a...), tr)
}

type byteFact struct{ base, idx, val *V }

func factsOf(st *State) []byteFact {
	var out []byteFact
	if v, ok := st.flags[byteFacts]; ok {
		for _, a := range v.args {
			out = append(out, byteFact{a.args[0], a.args[1], a.args[2]})
		}
	}
	return out
}

func setFacts(st *State, fs []byteFact) {
	var l []*V
	for _, f := range fs {
		t := mkTuple(f.base, f.idx, f.val)
		if !containsV(l, t) {
			l = append(l, t)
		}
	}
	st.flags[byteFacts] = mkTuple(l...)
}

func addFact(st *State, base, idx, val *V) {
	setFacts(st, append(factsOf(st), byteFact{base, idx, val}))
}

func i64(v *V) *V { return mkConvTo(v, tU64()) }

// within forks on whether lo <= i < lo+n.
func (c *bytesCk) within(st *State, i, lo, n *V) (in, out []*State) {
	e := c.e
	a := st.clone()
	if e.assume(a, mkLess(i, lo), true) {
		out = append(out, a)
	}
	if !e.assume(st, mkLess(i, lo), false) {
		return
	}
	b := st.clone()
	if e.assume(b, mkLess(i, mkAdd(lo, n)), false) {
		out = append(out, b)
	}
	if e.assume(st, mkLess(i, mkAdd(lo, n)), true) {
		in = append(in, st)
	}
	return
}

// drop forgets the bytes of a range.
func (c *bytesCk) drop(st *State, base, lo, n *V) []*State {
	cur := []*State{st}
	for _, f := range factsOf(st) {
		if f.base != base {
			continue
		}
		var next []*State
		for _, s := range cur {
			in, out := c.within(s, f.idx, lo, n)
			for _, s := range in {
				var keep []byteFact
				for _, g := range factsOf(s) {
					if g != f {
						keep = append(keep, g)
					}
				}
				setFacts(s, keep)
			}
			next = append(append(next, in...), out...)
		}
		cur = next
	}
	return cur
}

// move copies n bytes.
func (c *bytesCk) move(st *State, dst, dlo, src, slo, n *V) []*State {
	type mv struct {
		s   *State
		add []byteFact
	}
	cur := []mv{{st, nil}}
	for _, f := range factsOf(st) {
		if f.base != src {
			continue
		}
		var next []mv
		for _, m := range cur {
			in, out := c.within(m.s, f.idx, slo, n)
			for _, s := range in {
				next = append(next, mv{s, append(append([]byteFact(nil), m.add...), byteFact{dst, mkAdd(mkSub(f.idx, slo), dlo), f.val})})
			}
			for _, s := range out {
				next = append(next, mv{s, m.add})
			}
		}
		cur = next
	}
	var outs []*State
	for _, m := range cur {
		for _, s := range c.drop(m.s, dst, dlo, n) {
			setFacts(s, append(factsOf(s), m.add...))
			outs = append(outs, s)
		}
	}
	return outs
}

func (c *bytesCk) parts(st *State, v *V) (base, lo, n *V) {
	p, l, n := c.e.sliceParts(st, v)
	b, path := splitPtr(p)
	if path != "" {
		b = mkApp("at", nil, p)
	}
	return b, i64(l), i64(n)
}

func (c *bytesCk) copy(e *Engine, st *State, ci *CallInfo) []Outcome {
	n0, n1 := e.lenOf(st, ci.args[0]), e.lenOf(st, ci.args[1])
	db, dlo, _ := c.parts(st, ci.args[0])
	sb, slo, _ := c.parts(st, ci.args[1])
	var outs []Outcome
	run := func(s *State, n *V) {
		for _, s := range c.move(s, db, dlo, sb, slo, i64(n)) {
			outs = append(outs, Outcome{s, []*V{n}})
		}
	}
	s2 := st.clone()
	if e.assume(s2, mkLess(n1, n0), true) {
		run(s2, n1)
	}
	if e.assume(st, mkLess(n1, n0), false) {
		run(st, n0)
	}
	return outs
}

func (c *bytesCk) device(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	fail := func(s *State, first *V) Outcome {
		s.setFlag("ioerr", "1")
		er := e.newErr(s, ci.site, ".err")
		return Outcome{s, []*V{first, er}}
	}
	at := c.P.pos(ci.site)
	switch name := callee(ci); name {
	case "Capacity":
		return []Outcome{{st, []*V{c.cap}}}, true
	case "BlockSize":
		return []Outcome{{st, []*V{mkInt(c.block, ci.sig.Results().At(0).Type())}}}, true
	case "Position":
		return []Outcome{{st, []*V{c.devpos(st)}}}, true
	case "Sync", "Close":
		fl := st.clone()
		er := e.newErr(fl, ci.site, ".err")
		fl.setFlag("ioerr", "1")
		return []Outcome{{st, []*V{theNil}}, {fl, []*V{er}}}, true
	case "Seek":
		p := i64(ci.args[1])
		if k, ok := ci.args[2].intConst(); !ok || k != 0 {
			c.bad("place", st, "the device is moved to an unknown position at %s", at)
			return nil, true
		}
		if !e.multiple(st, p, uint64(c.block)) {
			c.bad("aligned", st, "the device is moved to %s at %s, which may be inside a block", p, at)
			return nil, true
		}
		outs := []Outcome{fail(st.clone(), ci.args[1])}
		in := st.clone()
		if e.assume(in, mkLess(c.cap, p), false) {
			in.flags["keepdev"] = p
			outs = append(outs, Outcome{in, []*V{ci.args[1], theNil}})
		}
		if e.assume(st, mkLess(c.cap, p), true) {
			st.setFlag("beyond", "1")
			outs = append(outs, Outcome{st, []*V{mkInt(-1, ci.args[1].t), e.newErr(st, ci.site, ".beyond")}})
		}
		return outs, true
	case "Read", "Write", "ReadAt", "WriteAt":
		base, lo, n := c.parts(st, ci.args[1])
		p := c.devpos(st)
		moves := true
		if strings.HasSuffix(name, "At") {
			p, moves = i64(ci.args[2]), false
			if !e.multiple(st, p, uint64(c.block)) {
				c.bad("aligned", st, "accesses the device at %s at %s, which may be inside a block", p, at)
				return nil, true
			}
		}
		if p == nil {
			c.bad("place", st, "accesses the device at an unknown position at %s", at)
			return nil, true
		}
		if !e.multiple(st, n, uint64(c.block)) {
			c.bad("aligned", st, "gives %s bytes to the device at %s, which may not be whole blocks", n, at)
			return nil, true
		}
		read := strings.HasPrefix(name, "Read")
		tInt := ci.sig.Results().At(0).Type()
		var outs []Outcome
		// a failure leaves anything in the range
		fs := st.clone()
		var broken []*State
		if read {
			broken = c.drop(fs, base, lo, n)
		} else {
			broken = c.drop(fs, c.dev, p, n)
		}
		for _, s := range broken {
			delete(s.flags, "keepdev")
			outs = append(outs, fail(s, mkInt(0, tInt)))
		}
		done := func(s *State, k *V, err *V) {
			if moves {
				s.flags["keepdev"] = mkAdd(p, k)
			}
			var l []*State
			if read {
				l = c.move(s, base, lo, c.dev, p, k)
			} else {
				l = c.move(s, c.dev, p, base, lo, k)
			}
			for _, s := range l {
				outs = append(outs, Outcome{s, []*V{mkConvTo(k, tInt), err}})
			}
		}
		room := mkSub(c.cap, p)
		full := st.clone()
		if e.assume(full, mkLess(room, n), false) {
			done(full, n, theNil)
		}
		if e.assume(st, mkLess(room, n), true) {
			// reaches beyond the end of the device
			if !read {
				c.bad("place", st, "bytes are written behind the end of the device at %s", at)
				return outs, true
			}
			end := st.clone()
			if e.assume(end, mkEq(room, mkU64(0)), true) {
				done(end, mkU64(0), e.eofValue(end))
			}
			if e.assume(st, mkEq(room, mkU64(0)), false) {
				done(st, room, theNil)
			}
		}
		return outs, true
	}
	return nil, false
}

func (c *bytesCk) devpos(st *State) *V { return st.flags["keepdev"] }

func (c *bytesCk) hooks() {
	_, e := newCodec(c.P)
	c.e = e
	e.exactCopy = true
	base := e.H.Call
	e.H.NoInline = func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() == "metrics" }
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if c.dead {
			return nil, true
		}
		if !c.inline {
			if outs, ok := c.aligned(e, st, ci); ok {
				return outs, true
			}
		}
		if n := recvNamed(ci.fn); c.s.devCall(ci) && (n == nil || n.Obj() != c.s.buf.Obj()) {
			if outs, ok := c.device(e, st, ci); ok {
				return outs, true
			}
		}
		return base(e, st, ci)
	}
	e.H.Builtin = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if c.dead {
			return nil, true
		}
		if ci.name == "builtin.copy" {
			return c.copy(e, st, ci), true
		}
		return nil, false
	}
	e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
		var keep []byteFact
		lost := false
		for _, f := range factsOf(st) {
			if f.base == l.base && strings.HasPrefix(l.path, "[") {
				lost = true
				continue
			}
			keep = append(keep, f)
		}
		if lost {
			setFacts(st, keep)
		}
	}
}

// fieldV reads a field of the buffer.
func (c *bytesCk) fieldV(st *State, i int) *V {
	s := structOf(c.s.buf)
	base, path := splitPtr(c.recv)
	return c.e.loadLoc(st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
}

// piece is an aligned buffer in memory, with all its fields.
func (c *bytesCk) piece(st *State, name string, t types.Type) (ptr, ln *V, ok bool) {
	e := c.e
	u := structOf(t)
	rec := e.symVal(st, name, t)
	m := map[*V]*V{}
	var buf, off *V
	for i := 0; i < u.NumFields(); i++ {
		f, ft := fieldOf(rec, i), u.Field(i).Type()
		switch {
		case tyIs(ft, "block.BlockSize"):
			m[f] = mkInt(c.block, ft)
		case isBytesT(ft):
			if buf != nil {
				return nil, nil, false
			}
			buf = f
		default:
			b, isB := ft.Underlying().(*types.Basic)
			if !isB || b.Info()&types.IsInteger == 0 {
				return nil, nil, false
			}
			// which is the length is decided by Len
			if c.lenField(t) == i {
				ln = f
			} else if off == nil {
				off = f
			} else {
				return nil, nil, false
			}
		}
	}
	if buf == nil || off == nil || ln == nil {
		return nil, nil, false
	}
	rec = subst(rec, m, map[*V]*V{})
	e.assumeLe(st, i64(ln), mkU64(1<<30))
	st.facts[buf] = Fact{nilness: 2}
	bl := e.lenOf(st, buf)
	e.assumeLe(st, mkInt(0, bl.t), bl)
	e.assumeLe(st, i64(bl), mkU64(1<<32))
	e.assumeLe(st, i64(off), mkU64(uint64(c.block-1)))
	e.assumeLe(st, mkAdd(i64(off), c.ceil(i64(ln))), i64(bl))
	st.flags["keep:"+name] = mkTuple(rec, ln)
	cell := mkCell(name, t)
	e.storeLoc(st, cell, "", rec, t)
	return mkPtr(cell, ""), i64(ln), true
}

// ceil rounds up to whole blocks.
func (c *bytesCk) ceil(v *V) *V {
	b := mkU64(uint64(c.block))
	return mkMul(in.mk(V{k: KBin, name: "/", args: []*V{mkAdd(v, mkU64(uint64(c.block-1))), b}, t: tU64()}), b)
}

// The aligned buffers have contracts, which are checked against their code: a
// length, and bytes that stay when the length changes.

const alignedLens = "keeplens"

func lensOf(st *State, cell *V) *V {
	if v, ok := st.flags[alignedLens]; ok {
		for _, a := range v.args {
			if a.args[0] == cell {
				return a.args[1]
			}
		}
	}
	return nil
}

func setLen(st *State, cell, n *V) {
	l := []*V{mkTuple(cell, n)}
	if v, ok := st.flags[alignedLens]; ok {
		for _, a := range v.args {
			if a.args[0] != cell {
				l = append(l, a)
			}
		}
	}
	st.flags[alignedLens] = mkTuple(l...)
}

func memOfCell(cell *V) *V { return mkApp("mem", nil, cell) }

// aligned is a call of an aligned buffer that stands for its contract.
func (c *bytesCk) aligned(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn == nil || ci.fn.Pkg == nil {
		return nil, false
	}
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	if ci.fn == c.newAB {
		cell := e.freshCell(st, ci.site, ".ab", c.ab)
		setLen(st, cell, i64(ci.args[0]))
		return one(mkPtr(cell, ""))
	}
	if n := recvNamed(ci.fn); n == nil || n.Obj() != c.ab.Obj() || len(ci.args) == 0 {
		return nil, false
	}
	cell, path := splitPtr(ci.args[0])
	old := lensOf(st, cell)
	if old == nil || path != "" {
		return nil, false
	}
	var rt types.Type
	if ci.sig.Results().Len() > 0 {
		rt = ci.sig.Results().At(0).Type()
	}
	resize := func(n *V) ([]Outcome, bool) {
		var outs []Outcome
		for _, s := range c.shrink(st, cell, old, n) {
			setLen(s, cell, n)
			outs = append(outs, Outcome{s, nil})
		}
		return outs, true
	}
	switch ci.fn.Name() {
	case "Len":
		return one(mkConvTo(old, rt))
	case "BlockSize":
		return one(mkInt(c.block, rt))
	case "AsBytes":
		tInt := types.Typ[types.Int]
		return one(e.mkSlice(mkPtr(memOfCell(cell), ""), mkInt(0, tInt), mkConvTo(old, tInt), rt))
	case "Resize":
		return resize(i64(ci.args[1]))
	case "AlignResize":
		return resize(c.ceil(i64(ci.args[1])))
	case "Align":
		setLen(st, cell, c.ceil(old))
		return one(ci.args[0])
	case "Truncate":
		n := i64(ci.args[1])
		var outs []Outcome
		s2 := st.clone()
		if e.assume(s2, mkLess(n, old), true) {
			setLen(s2, cell, n)
			outs = append(outs, Outcome{s2, nil})
		}
		if e.assume(st, mkLess(n, old), false) {
			outs = append(outs, Outcome{st, nil})
		}
		return outs, true
	}
	return nil, false
}

// shrink forgets bytes behind the new length.
func (c *bytesCk) shrink(st *State, cell, old, n *V) []*State {
	e := c.e
	mem := memOfCell(cell)
	cur := []*State{st}
	for _, f := range factsOf(st) {
		if f.base != mem {
			continue
		}
		var next []*State
		for _, s := range cur {
			out := s.clone()
			if e.assume(out, mkLess(f.idx, n), false) {
				var keep []byteFact
				for _, g := range factsOf(out) {
					if g != f {
						keep = append(keep, g)
					}
				}
				setFacts(out, keep)
				next = append(next, out)
			}
			if e.assume(s, mkLess(f.idx, n), true) {
				next = append(next, s)
			}
		}
		cur = next
	}
	return cur
}

// contracts checks the code of the aligned buffers against what stands for it.
func (c *bytesCk) contracts() {
	e, r := c.e, c.r
	c.inline = true
	defer func() { c.inline = false }()
	as := c.P.methodOf(c.ab, "AsBytes")
	i := mkSym("I", tU64())
	val := mkSym("byteAtI", types.Typ[types.Uint8])
	bytes := func(st *State, ab *V) (base, lo, n *V) {
		outs := e.Run(as, st.clone(), []*V{ab}, nil)
		if len(outs) != 1 {
			return nil, nil, nil
		}
		return c.parts(outs[0].st, outs[0].ret[0])
	}
	run := func(f *ssa.Function, method bool) {
		c.where, c.fnc, c.dead = fname(f), f, false
		r.Funcs[fname(f)] = true
		st := newState()
		st.flags["keep"] = mkTuple(i, val)
		var args []*V
		var old, slo *V
		from := false
		if method {
			p, ln, ok := c.piece(st, "ab", c.ab)
			if !ok {
				return // C18 judges buffers with other fields
			}
			args, old = append(args, p), ln
			if !e.assume(st, mkLess(i, ln), true) {
				return
			}
			b, lo, _ := bytes(st, p)
			addFact(st, b, mkAdd(lo, i), val)
		}
		for _, p := range f.Params[len(args):] {
			a := e.symVal(st, "arg."+p.Name(), p.Type())
			switch {
			case tyIs(p.Type(), "block.BlockSize"):
				a = mkInt(c.block, p.Type())
			case isInt(p.Type()):
				e.assumeLe(st, mkInt(0, a.t), a)
				e.assumeLe(st, i64(a), mkU64(1<<30))
			case isBytesT(p.Type()):
				from = true
				var b *V
				b, slo, old = c.parts(st, a)
				e.assumeLe(st, mkInt(0, types.Typ[types.Int]), e.lenOf(st, a))
				e.assumeLe(st, old, mkU64(1<<30))
				cp := mkApp("cap", types.Typ[types.Int], a)
				e.assumeLe(st, e.lenOf(st, a), cp)
				if !e.assume(st, mkLess(i, old), true) {
					return
				}
				addFact(st, b, mkAdd(slo, i), val)
			}
			args = append(args, a)
		}
		st.flags["keepargs"] = mkTuple(args...)
		n := 0
		for _, o := range e.Run(f, st, args, nil) {
			n++
			ab := args[0]
			if !method {
				ab = o.ret[0]
			}
			base, lo, ln := bytes(o.st, ab)
			if base == nil {
				c.bad("aligned-content", o.st, "the bytes are not understood")
				return
			}
			want := old
			switch {
			case !method && !from:
				want = i64(args[0])
			case f.Name() == "Resize":
				want = i64(args[1])
			case f.Name() == "AlignResize":
				want = c.ceil(i64(args[1]))
			case f.Name() == "Align":
				want = c.ceil(old)
			case f.Name() == "Truncate":
				want = i64(args[1])
				if e.decide(o.st, mkLess(want, old)) != 1 {
					want = old
				}
			}
			if !e.numEq(o.st, ln, want) {
				c.bad("aligned-content", o.st, "gives %s bytes instead of %s", ln, want)
				return
			}
			if old != nil && e.assume(o.st, mkLess(i, ln), true) && !c.has(o.st, base, mkAdd(lo, i), val) {
				c.bad("aligned-content", o.st, "a byte in front of the old and the new length may change")
				return
			}
			r.Ok("aligned-content", c.where)
		}
		if n == 0 {
			c.bad("aligned-content", nil, "never returns")
		}
	}
	for _, m := range c.P.methodsOf(c.ab) {
		if m.Object() != nil && m.Object().Exported() && len(m.Blocks) > 0 {
			run(m, true)
		}
	}
	for _, f := range c.P.fnsWith(func(s *types.Signature) bool {
		return s.Recv() == nil && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.NewPointer(c.ab))
	}) {
		if f.Object() != nil && f.Object().Exported() && f.Pkg == c.P.pkg("block") {
			run(f, false)
		}
	}
}

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// lenField is the field that Len returns.
func (c *bytesCk) lenField(t types.Type) int {
	n, _ := types.Unalias(t).(*types.Named)
	m := c.P.methodOf(n, "Len")
	if m == nil {
		return -1
	}
	e := NewEngine(c.P)
	st := newState()
	rec := e.symVal(st, "l", t)
	outs := e.Run(m, st, []*V{e.makeRecv(st, "l", types.NewPointer(t), rec)}, nil)
	if len(outs) != 1 {
		return -1
	}
	for i := range rec.args {
		if fieldOf(rec, i) == outs[0].ret[0] {
			return i
		}
	}
	return -1
}

// content is the memory of the buffer that is written below.
func (c *bytesCk) content(st *State) (base, lo, n *V, ok bool) {
	cell, path := splitPtr(c.fieldV(st, c.s.pend))
	n = lensOf(st, cell)
	if n == nil || path != "" {
		return nil, nil, nil, false
	}
	return memOfCell(cell), mkU64(0), n, true
}

type byteCase struct{ dirty, inBuf, low bool }

// start is an arbitrary state of the buffer in which X holds val.
func (c *bytesCk) start(bc byteCase) *State {
	P := c.P
	e := c.e
	st := newState()
	s := structOf(c.s.buf)
	rec := e.symVal(st, "jb", c.s.buf)
	m := map[*V]*V{}
	c.cap = mkSym("capacityBlocks", tU64())
	e.assumeLe(st, c.cap, mkU64(1<<40))
	keep := []*V{c.cap}
	c.cap = mkMul(c.cap, mkU64(uint64(c.block)))
	wb := mkSym("bufferBlock", tU64())
	e.assumeLe(st, wb, mkU64(1<<40))
	keep = append(keep, wb)
	c.x = mkSym("X", tU64())
	c.val, c.arg = mkSym("lastWritten", types.Typ[types.Uint8]), mkSym("newByte", types.Typ[types.Uint8])
	c.dev = mkSym("device", nil)
	keep = append(keep, c.x, c.val, c.arg, c.dev)
	for i := 0; i < s.NumFields(); i++ {
		f, ft := fieldOf(rec, i), s.Field(i).Type()
		switch {
		case c.s.isBytes(ft):
			name := fmt.Sprintf("piece%d", i)
			k := mkSym(name+".blocks", tU64())
			e.assumeLe(st, k, mkU64(uint64(1<<30/c.block)))
			cell := mkCell(name, c.ab)
			setLen(st, cell, mkMul(k, mkU64(uint64(c.block))))
			keep = append(keep, k, cell)
			m[f] = mkPtr(cell, "")
		case i == c.dirtyI:
			m[f] = mkBool(bc.dirty)
		case i == c.s.where:
			c.off0 = mkMul(wb, mkU64(uint64(c.block)))
			m[f] = c.off0
		case types.Identical(ft, c.s.nvmI):
			st.facts[f] = Fact{nilness: 2}
		}
	}
	rec = subst(rec, m, map[*V]*V{})
	c.recv = e.makeRecv(st, "buffer", types.NewPointer(c.s.buf), rec)
	st.flags["keep"] = mkTuple(append(keep, rec)...)
	pm := P.methodOf(c.s.buf, "Position")
	outs := e.Run(pm, st.clone(), []*V{c.recv}, nil)
	if len(outs) != 1 {
		return nil
	}
	c.pos0 = outs[0].ret[0]
	e.assumeLe(st, c.pos0, c.cap)
	e.assumeLe(st, mkAdd(c.x, mkU64(1)), c.cap)
	e.assumeLe(st, c.x, c.cap)
	base, lo, n, ok := c.content(st)
	if !ok {
		return nil
	}
	e.assumeLe(st, mkAdd(c.off0, n), c.cap)
	e.assumeLe(st, c.off0, c.cap)
	idx := mkAdd(mkSub(c.x, c.off0), lo)
	if bc.inBuf {
		if !e.assume(st, mkLess(c.x, c.off0), false) || !e.assume(st, mkLess(c.x, mkAdd(c.off0, n)), true) {
			return nil
		}
		addFact(st, base, idx, c.val)
		if !bc.dirty {
			addFact(st, c.dev, c.x, c.val)
		}
	} else {
		if bc.low {
			e.assume(st, mkLess(c.x, c.off0), true)
		} else {
			e.assume(st, mkLess(c.x, mkAdd(c.off0, n)), false)
		}
		addFact(st, c.dev, c.x, c.val)
	}
	return st
}

func (c *bytesCk) has(st *State, base, idx, val *V) bool {
	for _, f := range factsOf(st) {
		if f.base == base && f.val == val && c.e.numEq(st, f.idx, idx) {
			return true
		}
	}
	return false
}

// invariant: the byte at X is val, and the buffer is in order.
func (c *bytesCk) invariant(st *State, val *V, what string) {
	e, r := c.e, c.r
	base, lo, n, ok := c.content(st)
	if !ok {
		c.bad("content", st, "the buffer is not understood")
		return
	}
	off := c.fieldV(st, c.s.where)
	if !e.multiple(st, off, uint64(c.block)) || !e.multiple(st, n, uint64(c.block)) {
		c.bad("aligned", st, "%s, the buffer holds %s bytes at %s, which may not be whole blocks", what, n, off)
		return
	}
	r.Ok("aligned", c.where)
	if !e.le(st, mkAdd(off, n), c.cap) && !e.numEq(st, n, mkU64(0)) {
		c.bad("place", st, "%s, the buffer of %s bytes at %s may reach behind the end of the device", what, n, off)
		return
	}
	dirty := c.fieldV(st, c.dirtyI)
	in, out := c.within(st.clone(), c.x, off, n)
	for _, s := range in {
		if !c.has(s, base, mkAdd(mkSub(c.x, off), lo), val) {
			c.bad("content", s, "%s, the buffer may hold another byte than the one last written there", what)
			return
		}
		if e.decide(s, dirty) != 1 && !c.has(s, c.dev, c.x, val) {
			c.bad("content", s, "%s, a byte in a buffer that counts as clean may not be on the device", what)
			return
		}
		r.Ok("content", c.where)
	}
	for _, s := range out {
		if !c.has(s, c.dev, c.x, val) {
			c.bad("content", s, "%s, a byte that is not in the buffer may not be on the device", what)
			return
		}
		r.Ok("content", c.where)
	}
}

func (c *bytesCk) position(st *State) *V {
	outs := c.e.Run(c.P.methodOf(c.s.buf, "Position"), st.clone(), []*V{c.recv}, nil)
	if len(outs) != 1 {
		return mkSym("position?", tU64())
	}
	return outs[0].ret[0]
}

func (c *bytesCk) method(f *ssa.Function) {
	e, r := c.e, c.r
	r.Funcs[fname(f)] = true
	cases := []byteCase{{true, true, false}, {false, true, false}, {true, false, true}, {true, false, false}, {false, false, true}, {false, false, false}}
	io := f.Name() == "Read" || f.Name() == "Write"
	for _, bc := range cases {
		for k := 0; k < 3; k++ {
			if f.Name() != "Write" && k > 0 {
				break
			}
			c.where, c.fnc, c.dead = fname(f), f, false
			if c.block != 512 {
				c.where += fmt.Sprintf(" blocks of %d", c.block)
			}
			st := c.start(bc)
			if st == nil {
				c.bad("content", nil, "the fields of the buffer are not understood")
				return
			}
			args := []*V{c.recv}
			var n, ab, alo *V
			for _, p := range f.Params[1:] {
				a := e.symVal(st, "arg."+p.Name(), p.Type())
				if isBytesT(p.Type()) {
					l := e.lenOf(st, a)
					e.assumeLe(st, mkInt(0, l.t), l)
					e.assumeLe(st, i64(l), mkU64(1<<30))
					ab, alo, n = c.parts(st, a)
				}
				args = append(args, a)
			}
			st.flags["keepargs"] = mkTuple(args...)
			inArg := false
			if io {
				if n == nil {
					c.bad("content", nil, "the bytes are not an argument")
					return
				}
				ok := true
				switch {
				case f.Name() == "Read":
				case k == 0:
					ok = e.assume(st, mkLess(c.x, c.pos0), true)
				case k == 1:
					ok = e.assume(st, mkLess(c.x, mkAdd(c.pos0, n)), false)
				case k == 2:
					ok = e.assume(st, mkLess(c.x, c.pos0), false) && e.assume(st, mkLess(c.x, mkAdd(c.pos0, n)), true)
					inArg = true
				}
				if !ok {
					continue
				}
			}
			argIdx := mkSub(c.x, c.pos0)
			if alo != nil {
				argIdx = mkAdd(argIdx, alo)
			}
			if inArg && f.Name() == "Write" {
				addFact(st, ab, argIdx, c.arg)
			}
			t0 := time.Now()
			e.nCut = 0
			outs := e.Run(f, st, args, nil)
			if debugCounts {
				fmt.Fprintln(os.Stderr, c.where, bc, k, len(outs), time.Since(t0))
			}
			for _, o := range outs {
				if c.dead {
					break
				}
				last := len(o.ret) - 1
				okRet := last < 0 || !isError(f.Signature.Results().At(last).Type()) || e.isNil(o.st, o.ret[last])
				pos := c.position(o.st)
				switch f.Name() {
				case "Write":
					if !okRet {
						if !e.numEq(o.st, pos, c.pos0) {
							c.bad("position", o.st, "a failed write moves the position from %s to %s", c.pos0, pos)
							break
						}
						if o.st.flag("ioerr") == "" && e.assume(o.st, mkLess(c.cap, mkAdd(c.pos0, n)), false) {
							c.bad("accepted", o.st, "a write inside the device fails although no call of the device failed")
							break
						}
						c.invariant(o.st, c.val, "after a failed write")
						continue
					}
					if !e.numEq(o.st, i64(o.ret[0]), n) || !e.numEq(o.st, pos, mkAdd(c.pos0, n)) {
						c.bad("position", o.st, "a write of %s bytes at %s returns %s and moves the position to %s", n, c.pos0, o.ret[0], pos)
						break
					}
					r.Ok("position", c.where)
					v := c.val
					if inArg {
						v = c.arg
					}
					c.invariant(o.st, v, "after a write")
				case "Read":
					c.invariant(o.st, c.val, "after a read")
					if c.dead {
						break
					}
					if !okRet {
						if !e.numEq(o.st, pos, c.pos0) {
							c.bad("position", o.st, "a failed read moves the position from %s to %s", c.pos0, pos)
							break
						}
						if o.st.flag("ioerr") == "" && e.assume(o.st, mkLess(c.pos0, c.cap), true) {
							c.bad("accepted", o.st, "a read in front of the end fails although no call of the device failed")
						}
						continue
					}
					got := i64(o.ret[0])
					if !e.le(o.st, got, n) || !e.numEq(o.st, pos, mkAdd(c.pos0, got)) {
						c.bad("position", o.st, "a read of %s bytes at %s returns %s and moves the position to %s", n, c.pos0, got, pos)
						break
					}
					none := o.st.clone()
					if e.assume(none, mkEq(got, mkU64(0)), true) && e.assume(none, mkEq(n, mkU64(0)), false) {
						c.bad("progress", none, "a read of some bytes gives none and no error")
						break
					}
					r.Ok("position", c.where)
					if e.assume(o.st, mkLess(c.x, c.pos0), false) && e.assume(o.st, mkLess(c.x, mkAdd(c.pos0, got)), true) {
						if !c.has(o.st, ab, argIdx, c.val) {
							if debugCounts {
								fmt.Fprintln(os.Stderr, "want", ab, argIdx, "have", factsOf(o.st), "got", got, o.st.dump())
							}
							c.bad("content", o.st, "a read may give another byte than the one last written there")
							break
						}
						r.Ok("read-latest", c.where)
					}
				case "Seek":
					if okRet {
						if w, ok := e.constOf(o.st, args[2]); ok && w == 0 {
							if !e.numEq(o.st, pos, i64(args[1])) {
								c.bad("position", o.st, "a seek to %s moves the position to %s", args[1], pos)
								break
							}
							r.Ok("position", c.where)
						}
					}
					c.invariant(o.st, c.val, "after a seek")
				case "Sync", "Flush", "Close":
					c.invariant(o.st, c.val, "after "+f.Name())
					if !okRet || c.dead {
						continue
					}
					if !c.has(o.st, c.dev, c.x, c.val) {
						c.bad("flushed", o.st, "after %s, a byte may not be on the device", f.Name())
						break
					}
					r.Ok("flushed", c.where)
				default:
					c.invariant(o.st, c.val, "after "+f.Name())
				}
			}
			if e.nCut > 0 && !c.dead {
				c.bad("ends", nil, "calls itself again with nothing changed, or too often")
			}
			if e.overflow != "" {
				break
			}
		}
		if c.dead {
			return
		}
	}
}

func init() {
	checks["C27"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic relational dataflow over SSA: one arbitrary byte of the device is followed through every operation of the journal's write buffer"
		s := &syncCk{P: P, r: r, nvmI: P.named("nvm.NonVolatileMemory")}
		if s.nvmI == nil || !s.findBuffer() {
			r.Add("content", "write buffer", "-", "the write buffer of the journal was not found", nil)
			return
		}
		for _, bs := range []int64{512, 4096} {
			c := &bytesCk{P: P, r: r, s: s, block: bs, dirtyI: s.dirty, ab: P.named("block.AlignedBytes"), newAB: P.pkg("block").Func("NewAlignedBytes")}
			c.hooks()
			c.contracts()
			for _, f := range P.methodsOf(s.buf) {
				if f.Blocks == nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil {
					continue
				}
				c.method(f)
			}
			r.absorb(c.e)
		}
		r.Need("content", 40)
		r.Need("read-latest", 4)
		r.Need("flushed", 6)
		r.Need("position", 8)
	}
}
