package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C20: offsets and sizes given by callers. A lump is a run of blocks with a
// padding size in its last two bytes; every access to the device and every
// slice is compared with it, for all arguments.

type offCk struct {
	P                *Program
	r                *Report
	e                *Engine
	base             func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool)
	reg, dp, abT, ld *types.Named
	jp, sto, idx     *types.Named
	where            string
	fnc              *ssa.Function
	start, blocks    *V // of the lump
	size, length     *V // bytes on disk, bytes of the lump
	pad, pos         *V
	max              uint64
	payload, off     *V
	ab0              *V
	n0               *V
	embedded         *V
	jportion, dport  *V
	quiet            bool
	portion          *V
}

func (c *offCk) bad(rule string, st *State, format string, a ...interface{}) {
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	c.r.Add(rule, c.where, c.P.pos(c.fnc), fmt.Sprintf(format, a...), tr)
}

func (c *offCk) ok(rule string) { c.r.Ok(rule, c.where) }

func (c *offCk) setLen(st *State, obj, n *V) {
	var rest []*V
	if t := st.flags["ablens"]; t != nil {
		for _, x := range t.args {
			if x.args[0] != obj {
				rest = append(rest, x)
			}
		}
	}
	st.flags["ablens"] = mkTuple(append(rest, mkTuple(obj, n))...)
}

func (c *offCk) lenAb(st *State, obj *V) *V {
	if t := st.flags["ablens"]; t != nil {
		for _, x := range t.args {
			if x.args[0] == obj {
				return x.args[1]
			}
		}
	}
	return nil
}

// bytesOf: the buffer behind AlignedBytes.
func (c *offCk) bytesOf(ab *V) *V {
	return mkApp("abdata", nil, ab)
}

// ceil: a size in whole blocks.
func (c *offCk) ceil(st *State, site ssa.Instruction, n *V) *V {
	e := c.e
	if e.multiple(st, n, 512) {
		return n
	}
	k := e.Fresh(st, site, ".blocks", tU64())
	u := mkBlocks(k, tU64())
	n64 := mkConvTo(n, tU64())
	e.assumeLe(st, k, mkU64(1<<40))
	e.assumeLe(st, n64, u)
	e.assumeLe(st, u, mkAdd(n64, mkU64(511)))
	return u
}

func (c *offCk) same(st *State, a, b *V) bool {
	x, _, _ := c.e.sliceParts(st, a)
	y, _, _ := c.e.sliceParts(st, b)
	return x == y
}

// fill: where the bytes of this slice came from.
func (c *offCk) fill(st *State, buf *V) (pos, n *V) {
	e := c.e
	b, o, _ := e.sliceParts(st, buf)
	for _, x := range logOf(st) {
		if x.args[0].strConst() != "fill" {
			continue
		}
		fb, fo, fl := e.sliceParts(st, x.args[1])
		if fb == b {
			d := mkConvTo(e.arith(st, nil, token.SUB, o, fo, types.Typ[types.Int]), tU64())
			pos, n = mkAdd(x.args[2], d), mkSub(mkConvTo(fl, tU64()), d)
		}
	}
	return
}

func (c *offCk) inside(st *State, what string, at string, off, n *V) bool {
	e := c.e
	end := mkAdd(c.pos, c.size)
	if c.portion != nil {
		end = nil
	}
	switch {
	case end == nil:
		return true
	case !e.le(st, c.pos, off) || !e.le(st, mkAdd(off, n), end):
		c.bad("inside", st, "%s %s bytes at %s, at %s, which is not inside the lump", what, n, off, at)
		return false
	case !e.multiple(st, off, 512) || !e.multiple(st, n, 512):
		c.bad("inside", st, "%s %s bytes at %s, at %s, which is not in whole blocks", what, n, off, at)
		return false
	}
	c.ok("inside")
	return true
}

func (c *offCk) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	P := c.P
	tInt := types.Typ[types.Int]
	at := P.pos(ci.site)
	fork := func(ok []*V) []Outcome {
		fl := st.clone()
		br := e.freshResults(fl, ci)
		br[len(br)-1] = e.newErr(fl, ci.site, ".err")
		fl.setFlag("ioerr", "1")
		fl.note(callee(ci) + " fails at " + at)
		return []Outcome{{st, ok}, {fl, br}}
	}
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	if _, ok := asLockOp(ci); ok {
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	ps := ci.sig.Params()
	read := func(buf, off *V) ([]Outcome, bool) {
		off = mkConvTo(off, tU64())
		n := e.lenOf(st, buf)
		c.inside(st, "reads", at, off, mkConvTo(n, tU64()))
		addLog(st, mkStr("fill"), buf, off)
		return fork([]*V{n, theNil}), true
	}
	if ci.method != nil || ci.recv != nil {
		switch callee(ci) {
		case "ReadAt":
			if len(ci.args) == 3 && isBytes(ps.At(0).Type()) {
				return read(ci.args[1], ci.args[2])
			}
		case "WriteAt":
			if len(ci.args) == 3 && isBytes(ps.At(0).Type()) {
				c.write(st, ci, ci.args[1], mkConvTo(ci.args[2], tU64()))
				addLog(st, mkStr("wrote"), ci.args[1])
				return fork([]*V{e.lenOf(st, ci.args[1]), theNil}), true
			}
		case "Allocate":
			dt := ci.sig.Results().At(0).Type()
			s := e.Fresh(st, ci.site, ".start", c.start.t)
			e.assumeLe(st, mkConvTo(s, tU64()), mkU64(1<<40-1))
			p := mkStruct(dt, c.dpFields(s, ci.args[1]))
			st.flags["alloc"] = mkTuple(s, ci.args[1])
			return fork([]*V{p, theNil}), true
		}
	}
	if ci.fn != nil && ci.fn.Signature.Recv() == nil {
		f := ci.fn
		switch {
		case ps.Len() == 3 && ci.sig.Results().Len() == 2 && isBytes(ps.At(1).Type()) && ps.At(0).Type().String() == "io.ReaderAt":
			return read(ci.args[1], ci.args[2])
		case ci.sig.Results().Len() == 1 && ps.Len() == 1 && isBytes(ps.At(0).Type()) && types.Identical(ci.sig.Results().At(0).Type(), types.Typ[types.Uint16]):
			// the padding size
			pos, n := c.fill(st, ci.args[0])
			v := e.Fresh(st, ci.site, ".u16", types.Typ[types.Uint16])
			if pos != nil && e.numEq(st, pos, mkSub(mkAdd(c.pos, c.size), mkU64(2))) && e.le(st, mkU64(2), n) {
				v = c.pad
			}
			e.checkBounds(st, ci.site, mkInt(0, tInt), mkInt(2, tInt), e.lenOf(st, ci.args[0]))
			return one(v)
		case ci.sig.Results().Len() == 0 && ps.Len() == 2 && isBytes(ps.At(0).Type()) && types.Identical(ps.At(1).Type(), types.Typ[types.Uint16]):
			addLog(st, mkStr("u16"), ci.args[0], ci.args[1])
			e.checkBounds(st, ci.site, mkInt(0, tInt), mkInt(2, tInt), e.lenOf(st, ci.args[0]))
			return one()
		case ci.sig.Results().Len() == 1 && isPtrTo(ci.sig.Results().At(0).Type(), c.abT) && ps.Len() > 0:
			ab := e.Fresh(st, ci.site, ".buf", ci.sig.Results().At(0).Type())
			st.facts[ab] = Fact{nilness: 2}
			if isBytes(ps.At(0).Type()) {
				c.setLen(st, ab, e.lenOf(st, ci.args[0]))
				addLog(st, mkStr("from"), ab, ci.args[0])
				return one(ab)
			}
			if isInt(ps.At(0).Type()) {
				n := mkConvTo(ci.args[0], tU64())
				e.checkBounds(st, ci.site, mkInt(0, tInt), mkInt(0, tInt), mkConvTo(ci.args[0], tInt))
				c.setLen(st, ab, n)
				return one(ab)
			}
		}
		_ = f
	}
	if ci.fn != nil && recvNamed(ci.fn) != nil {
		n := recvNamed(ci.fn).Obj()
		switch {
		case n == c.abT.Obj():
			ln := c.lenAb(st, ci.args[0])
			if ln == nil {
				break
			}
			switch callee(ci) {
			case "AsBytes":
				return one(e.mkSlice(c.bytesOf(ci.args[0]), mkInt(0, tInt), mkConvTo(ln, tInt), ci.sig.Results().At(0).Type()))
			case "Len":
				return one(mkConvTo(ln, ci.sig.Results().At(0).Type()))
			case "Align":
				c.setLen(st, ci.args[0], c.ceil(st, ci.site, ln))
				return one(ci.args[0])
			case "Resize":
				c.setLen(st, ci.args[0], mkConvTo(ci.args[1], tU64()))
				return one()
			case "AlignResize":
				c.setLen(st, ci.args[0], c.ceil(st, ci.site, mkConvTo(ci.args[1], tU64())))
				return one()
			case "BlockSize":
				return one(mkInt(512, ci.sig.Results().At(0).Type()))
			}
		case n == c.idx.Obj() && ci.sig.Results().Len() == 2 && ps.Len() == 1:
			if isError(ci.sig.Results().At(1).Type()) && c.dport != nil {
				var outs []Outcome
				for i, p := range []*V{c.dport, c.jportion} {
					s2 := st.clone()
					s2.note([]string{"the lump is in the data region", "the lump is embedded in the journal"}[i])
					outs = append(outs, Outcome{s2, []*V{mkIface(p.t, p), theNil}})
				}
				no := st.clone()
				no.note("there is no such lump")
				no.setFlag("absent", "1")
				outs = append(outs, Outcome{no, []*V{theNil, e.newErr(no, ci.site, ".none")}})
				return outs, true
			}
		case n == c.reg.Obj() && c.dport != nil:
			if ps.Len() > 0 && types.Identical(ps.At(0).Type(), c.dp) && ps.Len() == 3 {
				if ci.args[1] != c.dport {
					c.bad("forward", st, "another lump is used at %s", at)
				}
				addLog(st, append([]*V{mkStr("fwd"), mkStr(ci.fn.Name())}, ci.args[2:]...)...)
				st.flags["fwdkeep"] = mkTuple(ci.args...)
				if ci.sig.Results().Len() == 1 {
					return fork([]*V{theNil}), true
				}
				v := e.Fresh(st, ci.site, ".data", ci.sig.Results().At(0).Type())
				st.flags["fwdres"] = v
				return fork([]*V{v, theNil}), true
			}
			if ps.Len() == 1 && types.Identical(ps.At(0).Type(), c.ld) {
				c.created(st, ci)
				br := e.freshResults(st, ci)
				br[len(br)-1] = e.newErr(st, ci.site, ".stop")
				st.setFlag("ioerr", "1")
				return []Outcome{{st, br}}, true
			}
		case ps.Len() == 1 && types.Identical(ps.At(0).Type(), c.jp) && ci.sig.Results().Len() == 2 && isBytes(ci.sig.Results().At(0).Type()) && c.embedded != nil:
			return fork([]*V{c.embedded, theNil}), true
		}
	}
	return c.base(e, st, ci)
}

// checkBounds: as for an index or slice operation.
func (e *Engine) checkBounds(st *State, site ssa.Instruction, lo, hi, max *V) {
	if e.H.Bounds != nil {
		e.H.Bounds(e, st, site, lo, hi, max)
	}
}

// write: what goes to the device.
func (c *offCk) write(st *State, ci *CallInfo, buf, off *V) {
	e := c.e
	at := c.P.pos(ci.site)
	n := mkConvTo(e.lenOf(st, buf), tU64())
	if c.n0 != nil {
		c.stored(st, at, buf, off, n)
		return
	}
	if !c.inside(st, "writes", at, off, n) || c.payload == nil {
		return
	}
	want := mkAdd(c.pos, mkConvTo(c.off, tU64()))
	pl := mkConvTo(e.lenOf(st, c.payload), tU64())
	if !e.le(st, mkAdd(mkConvTo(c.off, tU64()), pl), c.length) {
		c.bad("within", st, "an update of %s bytes at %s of a lump of %s bytes is written at %s", pl, c.off, c.length, at)
		return
	}
	c.ok("within")
	b, bo, _ := e.sliceParts(st, buf)
	if c.same(st, buf, c.payload) {
		_, po, _ := e.sliceParts(st, c.payload)
		if !e.numEq(st, off, want) || !e.numEq(st, n, pl) || !e.numEq(st, po, bo) {
			c.bad("place", st, "the update is written to %s instead of %s at %s", off, want, at)
		} else {
			c.ok("place")
		}
		return
	}
	pos, fl := c.fill(st, buf)
	if pos == nil || !e.numEq(st, pos, off) || !e.le(st, n, fl) {
		c.bad("rest", st, "the bytes around the update, written at %s, were not read from the same place", at)
		return
	}
	c.ok("rest")
	k := 0
	for _, x := range logOf(st) {
		if x.args[0].strConst() != "copy" {
			continue
		}
		db, do, dl := e.sliceParts(st, x.args[1])
		if db != b {
			continue
		}
		k++
		sb, so, sl := e.sliceParts(st, x.args[2])
		pb, po, _ := e.sliceParts(st, c.payload)
		to := mkAdd(off, mkConvTo(e.arith(st, ci.site, token.SUB, do, bo, types.Typ[types.Int]), tU64()))
		switch {
		case sb != pb || !e.numEq(st, so, po) || !e.numEq(st, mkConvTo(sl, tU64()), pl):
			c.bad("place", st, "other bytes than the update's are written at %s", at)
			return
		case !e.numEq(st, to, want):
			c.bad("place", st, "the update is written to %s instead of %s at %s", to, want, at)
			return
		case !e.le(st, sl, dl):
			c.bad("place", st, "%s bytes of an update of %s are written at %s", dl, sl, at)
			return
		}
	}
	if k != 1 {
		c.bad("place", st, "the update is put %d times into what is written at %s", k, at)
		return
	}
	c.ok("place")
}

// stored: a new lump is written.
func (c *offCk) stored(st *State, at string, buf, off, n *V) {
	e := c.e
	al := st.flags["alloc"]
	if al == nil {
		c.bad("new-size", st, "a lump is written at %s without space for it", at)
		return
	}
	n0 := mkConvTo(c.n0, tU64())
	b, bo, _ := e.sliceParts(st, buf)
	data := c.bytesOf(c.ab0)
	db, _, _ := e.sliceParts(st, e.mkSlice(data, mkInt(0, types.Typ[types.Int]), mkInt(0, types.Typ[types.Int]), c.payload0()))
	switch {
	case b != db || !e.numEq(st, bo, mkInt(0, types.Typ[types.Int])):
		c.bad("new-size", st, "other bytes than the lump's are written at %s", at)
	case !e.numEq(st, off, mkBlocks(mkConvTo(al.args[0], tU64()), tU64())):
		c.bad("new-size", st, "the lump is written to %s, the space begins at block %s, at %s", off, al.args[0], at)
	case !e.numEq(st, n, mkBlocks(mkConvTo(al.args[1], tU64()), tU64())):
		c.bad("new-size", st, "%s bytes are written into %s blocks at %s", n, al.args[1], at)
	case !e.le(st, n0, mkU64(c.max)):
		c.bad("new-size", st, "a lump of %s bytes is stored at %s", n0, at)
	default:
		c.ok("new-size")
	}
	var last *V
	for _, x := range logOf(st) {
		if x.args[0].strConst() == "u16" {
			if tb, _, _ := e.sliceParts(st, x.args[1]); tb == b {
				last = x
			}
		}
	}
	if last == nil {
		c.bad("trailer", st, "the padding size is not part of what is written at %s", at)
		return
	}
	_, to, _ := e.sliceParts(st, last.args[1])
	switch {
	case !e.numEq(st, mkAdd(mkConvTo(to, tU64()), mkU64(2)), n):
		c.bad("trailer", st, "the padding size is put at %s of %s bytes, at %s", to, n, at)
	case !e.numEq(st, mkAdd(mkAdd(n0, mkU64(2)), mkConvTo(last.args[2], tU64())), n):
		c.bad("trailer", st, "the padding size is %s for %s bytes in %s, at %s", last.args[2], n0, n, at)
	default:
		c.ok("trailer")
	}
}

func (c *offCk) payload0() types.Type { return types.NewSlice(types.Typ[types.Uint8]) }

// created: a lump made of an update at an offset and zeros.
func (c *offCk) created(st *State, ci *CallInfo) {
	e := c.e
	at := c.P.pos(ci.site)
	if c.payload == nil {
		return
	}
	ld := ci.args[1]
	var ab *V
	for _, a := range ld.args {
		if a.t != nil && isPtrTo(a.t, c.abT) {
			ab = a
		}
	}
	n := c.lenAb(st, ab)
	var from *V
	for _, x := range logOf(st) {
		if x.args[0].strConst() == "from" && x.args[1] == ab {
			from = x.args[2]
		}
	}
	if n == nil || from == nil {
		c.bad("create", st, "the lump that is stored at %s is not made of zeros and the given bytes", at)
		return
	}
	n = mkConvTo(n, tU64())
	pl, off, resv := mkConvTo(e.lenOf(st, c.payload), tU64()), mkConvTo(c.off, tU64()), mkConvTo(c.pad, tU64())
	end := mkAdd(off, pl)
	b, bo, _ := e.sliceParts(st, from)
	zeroed := false
	for _, x := range logOf(st) {
		if x.args[0].strConst() == "make" && x.args[1] == b {
			zeroed = true
		}
	}
	_ = zeroed
	if !e.le(st, resv, n) || !e.le(st, end, n) || !e.numEq(st, n, resv) && !e.numEq(st, n, end) {
		c.bad("create", st, "a lump of %s bytes is made for %s bytes at %s with %s reserved, at %s", n, pl, off, resv, at)
		return
	}
	if !e.le(st, n, mkU64(c.max)) {
		c.bad("create", st, "a lump of %s bytes is made at %s", n, at)
		return
	}
	k := 0
	for _, x := range logOf(st) {
		if x.args[0].strConst() != "copy" {
			continue
		}
		db, do, dl := e.sliceParts(st, x.args[1])
		if db != b {
			continue
		}
		k++
		sb, so, sl := e.sliceParts(st, x.args[2])
		pb, po, _ := e.sliceParts(st, c.payload)
		if sb != pb || !e.numEq(st, so, po) || !e.numEq(st, mkConvTo(sl, tU64()), pl) || !e.le(st, sl, dl) ||
			!e.numEq(st, mkConvTo(e.arith(st, ci.site, token.SUB, do, bo, types.Typ[types.Int]), tU64()), off) {
			c.bad("create", st, "%s of the new lump gets %s bytes of the payload from %s, at %s", do, dl, so, at)
			return
		}
	}
	if k != 1 {
		c.bad("create", st, "the payload is put %d times into the new lump at %s", k, at)
		return
	}
	c.ok("create")
	st.setFlag("created", "1")
}

func (c *offCk) dpFields(start, n *V) []*V {
	s := structOf(c.dp)
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		v := start
		if types.Identical(s.Field(i).Type().Underlying(), types.Typ[types.Uint16]) {
			v = n
		}
		fs = append(fs, mkConvTo(v, s.Field(i).Type()))
	}
	return fs
}

// state with a region and a lump.
func (c *offCk) state() (*State, *V, *V) {
	e := c.e
	st := newState()
	rec := e.symVal(st, "r", c.reg)
	s := structOf(c.reg)
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		v := fieldOf(rec, i)
		switch {
		case tyIs(s.Field(i).Type(), "block.BlockSize"):
			v = mkInt(512, s.Field(i).Type())
		case types.IsInterface(s.Field(i).Type()):
			st.facts[v] = Fact{nilness: 2}
		}
		fs = append(fs, v)
	}
	region := e.makeRecv(st, "region", types.NewPointer(c.reg), mkStruct(c.reg, fs))
	ds := structOf(c.dp)
	for i := 0; i < ds.NumFields(); i++ {
		if types.Identical(ds.Field(i).Type().Underlying(), types.Typ[types.Uint16]) {
			c.blocks = mkSym("lumpBlocks", ds.Field(i).Type())
		} else {
			c.start = mkSym("lumpStart", ds.Field(i).Type())
		}
	}
	e.assumeLe(st, mkU64(1), mkConvTo(c.blocks, tU64()))
	e.assumeLe(st, mkConvTo(c.start, tU64()), mkU64(1<<40-1))
	c.pos = mkBlocks(mkConvTo(c.start, tU64()), tU64())
	c.size = mkBlocks(mkConvTo(c.blocks, tU64()), tU64())
	c.pad = mkSym("padding", types.Typ[types.Uint16])
	pad := mkConvTo(c.pad, tU64())
	e.assumeLe(st, pad, mkU64(511))
	e.assumeLe(st, mkAdd(pad, mkU64(2)), c.size)
	c.length = mkSub(mkSub(c.size, mkU64(2)), pad)
	p := mkStruct(c.dp, c.dpFields(c.start, c.blocks))
	st.flags["keepdp"] = mkTuple(p, c.pad, region, c.start, c.blocks)
	return st, region, p
}

func (c *offCk) bytes(st *State, name string) *V {
	t := c.payload0()
	v := c.e.symVal(st, name, t)
	st.facts[v] = Fact{nilness: 2}
	c.e.assumeLe(st, mkConvTo(c.e.lenOf(st, v), tU64()), mkU64(1<<40))
	st.flags["keep"+name] = v
	return v
}

func (c *offCk) hooks() {
	_, e := newCodec(c.P)
	c.e = e
	c.base = e.H.Call
	e.exactCopy = true
	e.H.Call = c.call
	e.H.Copy = func(e *Engine, st *State, site ssa.Instruction, dst, src *V) {
		addLog(st, mkStr("copy"), dst, src)
	}
	e.H.Bounds = func(e *Engine, st *State, site ssa.Instruction, lo, hi, max *V) {
		tInt := types.Typ[types.Int]
		okSign := true
		for _, v := range []*V{lo, hi} {
			if v.t != nil && isUint(v.t) && !e.le(st, mkConvTo(v, tU64()), mkU64(1<<63-1)) {
				okSign = false
			}
		}
		l, h := mkConvTo(lo, tInt), mkConvTo(hi, tInt)
		if okSign && e.le(st, mkInt(0, tInt), l) && e.le(st, l, h) && e.le(st, h, mkConvTo(max, tInt)) {
			c.ok("in-range")
		} else {
			c.bad("in-range", st, "slices %s..%s of %s bytes at %s", lo, hi, max, c.P.pos(site))
		}
	}
	e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {
		c.bad("no-panic", st, "panics at %s", c.P.pos(site))
	}
}

func (c *offCk) begin(f *ssa.Function, name string) {
	c.where, c.fnc = fname(f)+name, f
	c.r.Funcs[fname(f)] = true
	c.payload, c.off, c.ab0, c.n0, c.embedded, c.dport, c.jportion, c.portion = nil, nil, nil, nil, nil, nil, nil, nil
}

func (c *offCk) region() {
	e := c.e
	u32 := func(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Uint32]) }
	for _, f := range c.P.methodsOf(c.reg) {
		s := f.Signature
		if f.Blocks == nil || !token.IsExported(f.Name()) {
			continue
		}
		np, nr := s.Params().Len(), s.Results().Len()
		if np == 0 || nr == 0 || !isError(s.Results().At(nr-1).Type()) {
			continue
		}
		isDp := types.Identical(s.Params().At(0).Type(), c.dp)
		switch {
		case isDp && np == 3 && nr == 2 && u32(s.Params().At(1).Type()) && u32(s.Params().At(2).Type()) && isBytes(s.Results().At(0).Type()):
			for _, in := range []bool{false, true} {
				c.begin(f, map[bool]string{false: "", true: " within the lump"}[in])
				st, r, p := c.state()
				off, n := mkSym("startOffset", s.Params().At(1).Type()), mkSym("length", s.Params().At(2).Type())
				end := mkAdd(mkConvTo(off, tU64()), mkConvTo(n, tU64()))
				if in {
					e.assumeLe(st, end, c.length)
				}
				st.flags["keepa"] = mkTuple(off, n)
				good := 0
				for _, o := range e.Run(f, st, []*V{r, p, off, n}, nil) {
					if e.isNil(o.st, o.ret[1]) {
						good++
						c.returned(o.st, o.ret[0], mkConvTo(off, tU64()), mkConvTo(n, tU64()))
					} else if in && o.st.flag("ioerr") == "" {
						c.bad("accepted", o.st, "bytes inside the lump are refused")
					}
				}
				if good == 0 {
					c.bad("accepted", nil, "never succeeds")
				} else {
					c.ok("accepted")
				}
			}
		case isDp && np == 3 && nr == 1 && u32(s.Params().At(1).Type()) && isBytes(s.Params().At(2).Type()):
			for _, in := range []bool{false, true} {
				c.begin(f, map[bool]string{false: "", true: " within the lump"}[in])
				st, r, p := c.state()
				off := mkSym("startOffset", s.Params().At(1).Type())
				buf := c.bytes(st, "payload")
				c.payload, c.off = buf, off
				pl := mkConvTo(e.lenOf(st, buf), tU64())
				if in {
					e.assumeLe(st, mkAdd(mkConvTo(off, tU64()), pl), c.length)
				}
				st.flags["keepa"] = mkTuple(off, buf)
				good := 0
				for _, o := range e.Run(f, st, []*V{r, p, off, buf}, nil) {
					if e.isNil(o.st, o.ret[0]) {
						good++
						w := 0
						for _, x := range logOf(o.st) {
							if x.args[0].strConst() == "wrote" {
								w++
							}
						}
						if w == 0 && !e.le(o.st, pl, mkU64(0)) {
							c.bad("place", o.st, "an update succeeds without a write")
						}
					} else if in && o.st.flag("ioerr") == "" {
						c.bad("accepted", o.st, "an update inside the lump is refused")
					}
				}
				if good == 0 {
					c.bad("accepted", nil, "never succeeds")
				} else {
					c.ok("accepted")
				}
			}
		case isDp && np == 1 && nr == 2 && u32(s.Results().At(0).Type()):
			c.begin(f, "")
			st, r, p := c.state()
			n := 0
			for _, o := range e.Run(f, st, []*V{r, p}, nil) {
				if e.isNil(o.st, o.ret[1]) {
					n++
					if !e.numEq(o.st, mkConvTo(o.ret[0], tU64()), c.length) {
						c.bad("size", o.st, "the size is %s, the lump has %s bytes", o.ret[0], c.length)
					} else {
						c.ok("size")
					}
				}
			}
			if n == 0 {
				c.bad("accepted", nil, "never succeeds")
			}
		case isDp && np == 1 && nr == 2 && types.Identical(s.Results().At(0).Type(), c.ld):
			c.begin(f, "")
			st, r, p := c.state()
			n := 0
			for _, o := range e.Run(f, st, []*V{r, p}, nil) {
				if !e.isNil(o.st, o.ret[1]) {
					continue
				}
				n++
				ab := c.inner(o.ret[0])
				ln := c.lenAb(o.st, ab)
				if ln == nil {
					c.bad("size", o.st, "the size of the result is not known")
					continue
				}
				c.returned(o.st, e.mkSlice(c.bytesOf(ab), mkInt(0, types.Typ[types.Int]), mkConvTo(ln, types.Typ[types.Int]), c.payload0()), mkU64(0), c.length)
			}
			if n == 0 {
				c.bad("accepted", nil, "never succeeds")
			}
		case np == 1 && nr == 2 && types.Identical(s.Params().At(0).Type(), c.ld) && types.Identical(s.Results().At(0).Type(), c.dp):
			c.begin(f, "")
			st, r, _ := c.state()
			c.ab0 = mkSym("lump", types.NewPointer(c.abT))
			st.facts[c.ab0] = Fact{nilness: 2}
			c.n0 = mkSym("lumpSize", types.Typ[types.Uint32])
			c.portion = c.n0
			c.setLen(st, c.ab0, c.n0)
			ld := c.lumpData(st, c.ab0)
			st.flags["keepa"] = mkTuple(c.ab0, c.n0)
			n := 0
			fits := mkLess(mkU64(c.max), mkConvTo(c.n0, tU64()))
			for _, o := range e.Run(f, st, []*V{r, ld}, nil) {
				if e.isNil(o.st, o.ret[1]) {
					n++
					w := false
					for _, x := range logOf(o.st) {
						w = w || x.args[0].strConst() == "wrote"
					}
					al := o.st.flags["alloc"]
					if !w || al == nil {
						c.bad("new-size", o.st, "a lump is stored without being written")
						continue
					}
					for i, a := range c.dpFields(al.args[0], al.args[1]) {
						if g := fieldOf(o.ret[0], i); g != a && !e.numEq(o.st, g, a) {
							c.bad("new-size", o.st, "the lump is reported at %s, the space is %s", g, a)
						}
					}
				} else {
					if o.st.flag("ioerr") == "" && e.decide(o.st, fits) != 1 {
						c.bad("accepted", o.st, "a lump that is not too large is refused")
					}
					if l := c.lenAb(o.st, c.ab0); l == nil || !e.numEq(o.st, mkConvTo(l, tU64()), mkConvTo(c.n0, tU64())) {
						c.bad("kept-size", o.st, "the lump that was not stored has %s bytes now instead of %s", l, c.n0)
					} else {
						c.ok("kept-size")
					}
				}
			}
			if n == 0 {
				c.bad("accepted", nil, "never succeeds")
			} else {
				c.ok("accepted")
			}
		}
	}
}

func (c *offCk) inner(ld *V) *V {
	s := structOf(c.ld)
	for i := 0; i < s.NumFields(); i++ {
		if isPtrTo(s.Field(i).Type(), c.abT) {
			return fieldOf(ld, i)
		}
	}
	return nil
}

func (c *offCk) lumpData(st *State, ab *V) *V {
	rec := c.e.symVal(st, "ld", c.ld)
	s := structOf(c.ld)
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		v := fieldOf(rec, i)
		if isPtrTo(s.Field(i).Type(), c.abT) {
			v = ab
		}
		fs = append(fs, v)
	}
	return mkStruct(c.ld, fs)
}

// returned: the bytes given for off, n.
func (c *offCk) returned(st *State, res, off, n *V) {
	e := c.e
	got := mkConvTo(e.lenOf(st, res), tU64())
	if !e.le(st, got, n) || !e.le(st, mkAdd(off, got), c.length) {
		c.bad("within", st, "%s bytes are returned for %s at %s of a lump of %s bytes", got, n, off, c.length)
		return
	}
	if !e.numEq(st, got, n) && !e.numEq(st, mkAdd(off, got), c.length) {
		c.bad("within", st, "only %s bytes are returned for %s at %s", got, n, off)
		return
	}
	c.ok("within")
	if e.le(st, got, mkU64(0)) {
		return
	}
	pos, fl := c.fill(st, res)
	switch {
	case pos == nil:
		c.bad("place", st, "bytes that were not read from the device are returned")
	case !e.numEq(st, pos, mkAdd(c.pos, off)) || !e.le(st, got, fl):
		c.bad("place", st, "the bytes at %s of the device are returned, not those at %s", pos, mkAdd(c.pos, off))
	default:
		c.ok("place")
	}
}

func (c *offCk) storage() {
	e := c.e
	u32 := func(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Uint32]) }
	for _, f := range c.P.methodsOf(c.sto) {
		s := f.Signature
		np, nr := s.Params().Len(), s.Results().Len()
		if f.Blocks == nil || !token.IsExported(f.Name()) || nr == 0 || !isError(s.Results().At(nr-1).Type()) {
			continue
		}
		begin := func() (*State, *V, *V) {
			c.begin(f, "")
			st, _, p := c.state()
			c.dport = p
			jp := e.symVal(st, "jp", c.jp)
			c.jportion = jp
			rec := e.symVal(st, "s", c.sto)
			store := e.makeRecv(st, "store", types.NewPointer(c.sto), rec)
			ss := structOf(c.sto)
			for i := 0; i < ss.NumFields(); i++ {
				v := fieldOf(rec, i)
				if _, ok := ss.Field(i).Type().Underlying().(*types.Pointer); ok {
					st.facts[v] = Fact{nilness: 2}
				}
			}
			st.flags["keeps"] = mkTuple(store, p, jp)
			return st, store, p
		}
		switch {
		case np == 3 && nr == 2 && u32(s.Params().At(1).Type()) && u32(s.Params().At(2).Type()) && isBytes(s.Results().At(0).Type()):
			st, store, _ := begin()
			c.embedded = c.bytes(st, "embedded")
			off, n := mkSym("startOffset", s.Params().At(1).Type()), mkSym("length", s.Params().At(2).Type())
			id := e.symVal(st, "id", s.Params().At(0).Type())
			st.flags["keepa"] = mkTuple(off, n, id)
			o64, n64 := mkConvTo(off, tU64()), mkConvTo(n, tU64())
			k := [2]int{}
			for _, o := range e.Run(f, st, []*V{store, id, off, n}, nil) {
				if !e.isNil(o.st, o.ret[1]) {
					continue
				}
				if o.st.flag("absent") != "" {
					c.bad("within", o.st, "data is returned for a lump that does not exist")
					continue
				}
				if v := o.st.flags["fwdres"]; v != nil {
					k[0]++
					l := logOf(o.st)
					x := l[len(l)-1]
					if o.ret[0] != v || len(x.args) != 4 || !e.numEq(o.st, mkConvTo(x.args[2], tU64()), o64) || !e.numEq(o.st, mkConvTo(x.args[3], tU64()), n64) {
						c.bad("forward", o.st, "other bytes of the lump than those asked for are returned")
					} else {
						c.ok("forward")
					}
					continue
				}
				k[1]++
				ln := mkConvTo(e.lenOf(o.st, c.embedded), tU64())
				b, bo, bl := e.sliceParts(o.st, o.ret[0])
				eb, eo, _ := e.sliceParts(o.st, c.embedded)
				got := mkConvTo(bl, tU64())
				switch {
				case e.le(o.st, got, mkU64(0)) && (e.le(o.st, ln, o64) || e.le(o.st, n64, mkU64(0))):
					c.ok("within")
				case b != eb || !e.numEq(o.st, mkConvTo(bo, tU64()), mkAdd(mkConvTo(eo, tU64()), o64)):
					c.bad("place", o.st, "other bytes than those at %s are returned", off)
				case !e.le(o.st, got, n64) || !e.le(o.st, mkAdd(o64, got), ln) || !e.numEq(o.st, got, n64) && !e.numEq(o.st, mkAdd(o64, got), ln):
					c.bad("within", o.st, "%s bytes are returned for %s at %s of %s embedded bytes", got, n, off, ln)
				default:
					c.ok("within")
				}
			}
			if k[0] == 0 || k[1] == 0 {
				c.bad("accepted", nil, "never succeeds")
			}
		case np == 4 && types.Identical(s.Params().At(1).Type(), c.ld) && u32(s.Params().At(2).Type()) && u32(s.Params().At(3).Type()):
			st, store, _ := begin()
			ab := mkSym("given", types.NewPointer(c.abT))
			st.facts[ab] = Fact{nilness: 2}
			n0 := mkSym("givenSize", types.Typ[types.Uint32])
			c.setLen(st, ab, n0)
			ld := c.lumpData(st, ab)
			off, resv := mkSym("startOffset", s.Params().At(2).Type()), mkSym("reservation", s.Params().At(3).Type())
			c.payload = e.mkSlice(c.bytesOf(ab), mkInt(0, types.Typ[types.Int]), mkConvTo(n0, types.Typ[types.Int]), c.payload0())
			c.off, c.pad = off, resv
			id := e.symVal(st, "id", s.Params().At(0).Type())
			st.flags["keepa"] = mkTuple(off, resv, id, n0, ab)
			k := [2]int{}
			for _, o := range e.Run(f, st, []*V{store, id, ld, off, resv}, nil) {
				for _, x := range logOf(o.st) {
					if x.args[0].strConst() == "fwd" {
						k[0]++
						if len(x.args) != 4 || !e.numEq(o.st, mkConvTo(x.args[2], tU64()), mkConvTo(off, tU64())) || !c.same(o.st, x.args[3], c.payload) || !e.numEq(o.st, e.lenOf(o.st, x.args[3]), e.lenOf(o.st, c.payload)) {
							c.bad("forward", o.st, "the lump is updated with other bytes or at another place")
						} else {
							c.ok("forward")
						}
					}
				}
				if o.st.flag("created") != "" {
					k[1]++
				}
			}
			if k[0] == 0 || k[1] == 0 {
				c.bad("accepted", nil, "never succeeds")
			}
		}
	}
}

func init() {
	checks["C20"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution with linear arithmetic over SSA of the operations of the data region and of the store that take offsets and sizes, for all arguments and all lumps; every slice, device access, result and trailer is compared with the extent and the length of the lump"
		r.Assumptions = []string{"the buffer behind AlignedBytes has room for its length (C18)", "the padding size on disk is the one that was written", "blocks of 512 bytes (C12)"}
		c := &offCk{P: P, r: r, reg: P.named("storage.DataRegion"), dp: P.named("portion.DataPortion"), jp: P.named("portion.JournalPortion"), abT: P.named("block.AlignedBytes"), ld: P.named("lump.LumpData"), sto: P.named("storage.Storage"), idx: P.named("lumpindex.LumpIndex")}
		if c.reg == nil || c.dp == nil || c.abT == nil || c.ld == nil || c.sto == nil || c.idx == nil || c.jp == nil {
			r.Add("in-range", "storage.DataRegion", "-", "the code of the data region was not found", nil)
			return
		}
		c.max = 65535*512 - 2
		c.hooks()
		c.region()
		c.storage()
		r.absorb(c.e)
		r.Need("in-range", 4)
		r.Need("inside", 4)
		r.Need("place", 3)
		r.Need("within", 4)
		r.Need("new-size", 1)
		r.Need("trailer", 1)
		r.Need("create", 1)
		r.Need("size", 1)
		r.Need("forward", 2)
	}
}
