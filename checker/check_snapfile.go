package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: the snapshot file is the same for the code that creates it, adds a
// region, and reopens it.

func (c *snapFile) evs(st *State, kind string) []*V {
	var out []*V
	for _, x := range logOf(st) {
		if x.args[0].strConst() == kind {
			out = append(out, x)
		}
	}
	return out
}

// made: a snapshot file as it was created.
type made struct {
	e     *Engine
	st    *State
	obj   *V // the object
	hdr   *V // its header
	rs    int64
	shift int64
	delta map[int]int64 // of the fields, for one region
	ent0  *V            // place of the first entry
	data0 *V            // place of the first region
	cap   *V
	args  []*V
}

func (c *snapFile) check() {
	P, r := c.P, c.r
	c.hdrLen, c.entLen = c.byteLen(c.wrHdr, c.hdr), c.byteLen(c.wrEnt, c.ent)
	if c.hdrLen < 0 || c.entLen < 0 {
		c.fail("round-trip", fname(c.wrHdr), c.wrHdr, nil, "the number of bytes written is not understood")
		return
	}
	if c.onMade == nil {
		c.roundTrip(c.wrEnt, c.rdEnt, c.ent, nil, nil)
	}
	where := fname(c.create)
	r.Funcs[where] = true
	e, st := c.engine()
	// up to 2^50 bytes, in blocks
	cp := mkSym("capacity", tU64())
	e.assumeLe(st, cp, mkU64(1<<50))
	e.assume(st, mkEq(mkRem(cp, 512), mkU64(0)), true)
	var args []*V
	for _, p := range c.create.Params {
		a := mkSym("arg."+p.Name(), p.Type())
		if isInt(p.Type()) {
			if len(args) == 1 {
				a = mkConvTo(cp, p.Type())
			} else {
				e.assumeLe(st, a, mkConvTo(cp, p.Type()))
			}
		}
		args = append(args, a)
	}
	st.flags["keep"] = mkTuple(append([]*V{cp}, args...)...)
	n := 0
	for _, o := range e.Run(c.create, st, args, nil) {
		if !e.isNil(o.st, o.ret[1]) {
			continue
		}
		n++
		hs := c.evs(o.st, "hdr")
		if len(hs) != 1 || !e.numEq(o.st, hs[0].args[1], mkU64(0)) {
			c.fail("create", where, c.create, o.st, "the header is not written once, at the start of the file")
			continue
		}
		os := c.evs(o.st, "open")
		if len(os) != 1 || len(c.evs(o.st, "data"))+len(c.evs(o.st, "ent")) > 0 {
			c.fail("create", where, c.create, o.st, "something else than the header is written, or another file is used")
			continue
		}
		m := &made{e: e, st: o.st, obj: o.ret[0], hdr: hs[0].args[2], cap: cp, args: args}
		m.st.flags["keepobj"] = mkTuple(m.obj, m.hdr)
		if c.onMade != nil {
			if c.size0(m) {
				c.onMade(m)
			}
			continue
		}
		if c.region(m, where) {
			r.Ok("create", where)
		}
	}
	if n == 0 {
		c.fail("create", where, c.create, nil, "never succeeds")
	}
	for _, b := range c.bad {
		r.Add("create", where, P.pos(c.create), b, nil)
	}
	r.absorb(e)
}

// roundTrip: what is written is read back, and accepted.
func (c *snapFile) roundTrip(wr, rd *ssa.Function, t *types.Named, v *V, st0 *State) {
	P, r := c.P, c.r
	where := fname(wr) + " and " + fname(rd)
	r.Funcs[fname(wr)], r.Funcs[fname(rd)] = true, true
	cd, e := newCodec(P)
	st := newState()
	if st0 != nil {
		st = st0.clone()
	}
	if v == nil {
		v = e.symVal(st, "val", t)
	} else {
		// each field a number of its own
		s := structOf(t)
		var fs []*V
		for i := 0; i < s.NumFields(); i++ {
			x := fieldOf(v, i)
			if x.k != KConst && x.k != KStruct && (x.k != KSym || !isInt(s.Field(i).Type())) {
				y := e.symVal(st, "field."+s.Field(i).Name(), s.Field(i).Type())
				if isInt(s.Field(i).Type()) {
					e.assumeLe(st, x, y)
					e.assumeLe(st, y, x)
				}
				st.flags["keepf"+y.name] = mkTuple(x, y)
				x = y
			}
			fs = append(fs, x)
		}
		v = mkStruct(t, fs)
	}
	recv := e.makeRecv(st, "valcell", wr.Signature.Recv().Type(), v)
	st.flags["w:W"] = mkTuple()
	st.flags["keepv"] = mkTuple(v, recv)
	used := c.usedFields(t, wr)
	ok, n := true, 0
	bad := func(rule, format string, a ...interface{}) {
		ok = false
		c.fail(rule, where, wr, nil, format, a...)
	}
	for _, o := range e.Run(wr, st, []*V{recv, mkSym("W", ioType(P, "Writer"))}, nil) {
		if !e.isNil(o.st, o.ret[0]) {
			continue
		}
		s2 := o.st.clone()
		s2.flags["r:R"] = mkTuple(stoks(o.st, "w:W")...)
		cd.bad = nil
		for _, ro := range e.Run(rd, s2, []*V{mkSym("R", ioType(P, "Reader"))}, nil) {
			if e.notNilV(ro.st, ro.ret[1]) {
				bad("accepted", "the reader can reject what was written")
				continue
			}
			n++
			got := ro.ret[0]
			if _, p := underPtr(rd.Signature.Results().At(0).Type()); p {
				got = e.Load(ro.st, nil, got, t)
			}
			s := structOf(t)
			for i := 0; i < s.NumFields(); i++ {
				if !used[i] {
					continue
				}
				if eq, _ := e.valEq(ro.st, fieldOf(v, i), fieldOf(got, i), s.Field(i).Type()); !eq {
					bad("round-trip", "field %s is read back with another value", s.Field(i).Name())
				}
			}
		}
		for _, b := range cd.bad {
			bad("round-trip", "%s", b)
		}
	}
	if n == 0 {
		bad("round-trip", "nothing is read back")
	}
	if ok {
		r.Ok("round-trip", where)
		r.Ok("accepted", where)
	}
	r.absorb(e)
}

// usedFields: fields of t that some code reads, other than its writer.
func (c *snapFile) usedFields(t *types.Named, wr *ssa.Function) map[int]bool {
	used := map[int]bool{}
	for _, f := range c.P.funcs {
		if f == wr {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Field:
					if types.Identical(types.Unalias(x.X.Type()), t) {
						used[x.Field] = true
					}
				case *ssa.FieldAddr:
					if !isPtrTo(x.X.Type(), t) || x.Referrers() == nil {
						continue
					}
					for _, u := range *x.Referrers() {
						if st, ok := u.(*ssa.Store); !ok || st.Addr != x {
							used[x.Field] = true
						}
					}
				}
			}
		}
	}
	return used
}

// at: the state after n regions were added.
func (m *made) at(c *snapFile, st *State, n *V) *State {
	st = st.clone()
	for i, d := range m.delta {
		if d != 0 {
			v := c.get(m.e, st, m.obj, i)
			c.set(m.e, st, m.obj, i, mkAdd(mkConvTo(v, tU64()), mkMul(n, mkU64(uint64(d)))))
		}
	}
	delete(st.flags, "log")
	st.setVal("fpos", nil)
	return st
}

func (c *snapFile) writeArgs(m *made, st *State, off *V) []*V {
	buf := m.e.symVal(st, "buf", types.NewSlice(types.Typ[types.Uint8]))
	m.e.assume(st, mkEq(m.e.lenOf(st, buf), mkInt(m.rs, types.Typ[types.Int])), true)
	st.facts[buf] = Fact{nilness: 2}
	st.flags["keepbuf"] = mkTuple(buf, off)
	return []*V{m.obj, buf, off}
}

// size0: the size of the regions.
func (c *snapFile) size0(m *made) bool {
	sh, ok := m.e.constOf(m.st, fieldByName(m.hdr, c.hdr, "RegionShift"))
	if !ok || sh < 9 || sh > 40 {
		return false
	}
	m.shift, m.rs = sh, 1<<uint(sh)
	return true
}

func (c *snapFile) region(m *made, where string) bool {
	P, r, e := c.P, c.r, m.e
	// region size, from the header and from the object
	if !c.size0(m) {
		c.fail("create", where, c.create, m.st, "the region size is not understood: %s", fieldByName(m.hdr, c.hdr, "RegionShift"))
		return false
	}
	rsOf := P.methodOf(c.bf, "RegionSize")
	if rsOf != nil {
		for _, o := range e.Run(rsOf, m.st.clone(), []*V{m.obj}, nil) {
			if !e.numEq(o.st, o.ret[0], mkU64(uint64(m.rs))) {
				c.fail("create", where, c.create, o.st, "the object has regions of %s bytes, the header says %d", o.ret[0], m.rs)
				return false
			}
		}
	}
	c.roundTrip(c.wrHdr, c.rdHdr, c.hdr, m.hdr, m.st)

	// the first region
	wname := fname(c.write)
	r.Funcs[wname] = true
	offT := c.write.Signature.Params().At(1).Type()
	k := mkSym("region", offT)
	good := true
	bad := func(rule string, st *State, format string, a ...interface{}) {
		good = false
		c.fail(rule, wname, c.write, st, format, a...)
	}
	run := func(n *V, first bool) {
		st := m.at(c, m.st, n)
		e.assumeLe(st, mkMul(mkConvTo(k, tU64()), mkU64(uint64(m.rs))), m.cap)
		st.flags["keepn"] = mkTuple(n, k)
		if first {
			st = m.st.clone()
			delete(st.flags, "log")
			st.setVal("fpos", nil)
			st.flags["keepn"] = mkTuple(n, k)
		}
		args := c.writeArgs(m, st, k)
		before := map[int]*V{}
		for _, i := range c.intFields() {
			before[i] = c.get(e, st, m.obj, i)
		}
		succ := 0
		for _, o := range e.Run(c.write, st, args, nil) {
			ins := c.evs(o.st, "insert")
			if !e.isNil(o.st, o.ret[0]) {
				okF := len(ins) == 0
				for i, v := range before {
					x := c.get(e, o.st, m.obj, i)
					okF = okF && (x == v || e.numEq(o.st, x, v))
				}
				if !okF {
					bad("failed-copy", o.st, "a failed copy of a region is kept: the next region would not be where the map says")
				} else {
					r.Ok("failed-copy", wname)
				}
				continue
			}
			succ++
			ents, datas := c.evs(o.st, "ent"), c.evs(o.st, "data")
			if len(ents) != 1 || len(datas) != 1 || len(ins) != 1 {
				bad("add", o.st, "a region is added with %d map entries, %d writes of data and %d entries in memory", len(ents), len(datas), len(ins))
				continue
			}
			if datas[0].args[2] != args[1] {
				bad("add", o.st, "other data than the region's is written")
			}
			if first {
				m.ent0, m.data0 = ents[0].args[1], datas[0].args[1]
				m.delta = map[int]int64{}
				for i, v := range before {
					d, found := int64(0), false
					for _, x := range []int64{0, c.entLen, m.rs, 1} {
						if y := c.get(e, o.st, m.obj, i); x == 0 && y == v || e.numEq(o.st, mkConvTo(y, tU64()), mkAdd(mkConvTo(v, tU64()), mkU64(uint64(x)))) {
							d, found = x, true
							break
						}
					}
					if !found {
						bad("add", o.st, "field %s changes in a way that is not understood: %s to %s", structOf(c.bf).Field(i).Name(), v, c.get(e, o.st, m.obj, i))
					}
					m.delta[i] = d
				}
				// the header stays
				if !e.le(o.st, mkU64(uint64(c.hdrLen)), m.ent0) {
					bad("layout", o.st, "the map starts at %s, inside the header of %d bytes", m.ent0, c.hdrLen)
				}
				continue
			}
			ent, snap := ents[0].args[2], mkConvTo(n, tU64())
			if !e.numEq(o.st, ents[0].args[1], mkAdd(m.ent0, mkMul(n, mkU64(uint64(c.entLen))))) {
				bad("add", o.st, "entry %s of the map is written at %s", n, ents[0].args[1])
			}
			if !e.numEq(o.st, datas[0].args[1], mkAdd(m.data0, mkMul(n, mkU64(uint64(m.rs))))) {
				bad("add", o.st, "region %s of the file is written at %s", n, datas[0].args[1])
			}
			for i, d := range m.delta {
				if y := c.get(e, o.st, m.obj, i); (d != 0 || y != before[i]) && !e.numEq(o.st, mkConvTo(y, tU64()), mkAdd(mkConvTo(before[i], tU64()), mkU64(uint64(d)))) {
					bad("add", o.st, "field %s changes differently for each region", structOf(c.bf).Field(i).Name())
				}
			}
			s := structOf(c.ent)
			for i := 0; i < s.NumFields(); i++ {
				want := mkConvTo(k, tU64())
				if !strings.Contains(s.Field(i).Name(), "Origin") {
					want = snap
				}
				if !e.numEq(o.st, mkConvTo(fieldOf(ent, i), tU64()), want) {
					bad("add", o.st, "%s of the map entry is %s, not %s", s.Field(i).Name(), fieldOf(ent, i), want)
				}
			}
			if !e.numEq(o.st, mkConvTo(ins[0].args[1], tU64()), mkConvTo(k, tU64())) || !e.numEq(o.st, mkConvTo(ins[0].args[2], tU64()), snap) {
				bad("add", o.st, "the map in memory says %s at %s", ins[0].args[1], ins[0].args[2])
			}
			// entry, data, sync, memory
			order := ""
			for _, x := range logOf(o.st) {
				switch x.args[0].strConst() {
				case "ent":
					order += "e"
				case "data":
					order += "d"
				case "sync":
					order += "s"
				case "insert":
					order += "i"
				}
			}
			c.order(o.st, order, wname, bad)
			// the map ends before the data
			s2 := o.st.clone()
			q := mkSym("regions", tU64())
			e.assumeLe(s2, q, mkU64(1<<32))
			e.assumeLe(s2, mkAdd(mkMul(q, mkU64(uint64(m.rs))), mkU64(1)), m.cap)
			q1 := mkAdd(q, mkU64(1))
			// the number of regions, as the code computes it
			fits := e.le(s2, mkAdd(m.ent0, mkMul(q1, mkU64(uint64(c.entLen)))), m.data0)
			for _, x := range quotients(m.data0) {
				fits = fits || e.le(s2, q1, x) && e.le(s2, x, mkU64(1<<40)) && e.le(s2, mkAdd(m.ent0, mkMul(x, mkU64(uint64(c.entLen)))), m.data0)
			}
			if !fits {
				bad("layout", s2, "the map of all regions reaches the data at %s", m.data0)
			} else {
				r.Ok("layout", wname)
			}
			if good {
				r.Ok("add", wname)
			}
		}
		if succ == 0 {
			bad("add", nil, "no region can be added")
		}
	}
	run(mkU64(0), true)
	if !good {
		return false
	}
	nSym := mkSym("n", tU64())
	e.assumeLe(m.st, nSym, mkU64(1<<31))
	m.st.flags["keepnn"] = nSym
	run(nSym, false)

	// reading a region
	rname := fname(c.read)
	r.Funcs[rname] = true
	{
		st := m.at(c, m.st, nSym)
		off := mkSym("copy", c.read.Signature.Params().At(1).Type())
		e.assumeLe(st, mkConvTo(off, tU64()), mkU64(1<<31))
		args := c.writeArgs(m, st, off)
		k := 0
		for _, o := range e.Run(c.read, st, args, nil) {
			if !e.isNil(o.st, o.ret[1]) {
				continue
			}
			k++
			rd := c.evs(o.st, "rd")
			want := mkAdd(m.data0, mkMul(mkConvTo(off, tU64()), mkU64(uint64(m.rs))))
			if len(rd) == 0 || !e.numEq(o.st, rd[0].args[1], want) {
				c.fail("read", rname, c.read, o.st, "copy %s is not read where it is written", off)
				good = false
			} else {
				r.Ok("read", rname)
			}
		}
		if k == 0 {
			c.fail("read", rname, c.read, nil, "no region can be read")
		}
	}
	for n := 0; n <= 2; n++ {
		c.reopen(m, n)
	}
	return good
}

func (c *snapFile) order(st *State, order, where string, bad func(string, *State, string, ...interface{})) {
	e, d, s, i := strings.Index(order, "e"), strings.Index(order, "d"), strings.LastIndex(order, "s"), strings.Index(order, "i")
	switch {
	case d < e:
		bad("order", st, "the data is written before its map entry: after a crash the file has a region without an entry")
	case s < d || s < e:
		bad("order", st, "a region counts as saved before the file was synced")
	case i < s:
		bad("order", st, "a region is used before the file was synced")
	default:
		if !strings.Contains(order[e:d], "s") && !c.syncOpen() {
			bad("order", st, "the map entry is not durable before the data is written")
		} else {
			c.r.Ok("order", where)
		}
	}
}

// syncOpen: all files with regions are opened for synchronous writes.
func (c *snapFile) syncOpen() bool {
	for _, f := range []*ssa.Function{c.create, c.open} {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || !openers[fname(ci.Common().StaticCallee())] {
					continue
				}
				a := ci.Common().Args
				k, isC := a[min(1, len(a)-1)].(*ssa.Const)
				if !isC || k.Value == nil || !isInt(k.Type()) || k.Int64()&0x1000 == 0 {
					return false
				}
			}
		}
	}
	return true
}

// reopen a file with n complete regions.
func (c *snapFile) reopen(m *made, n int) {
	r, e := c.r, m.e
	where := fmt.Sprintf("%s with %d regions", fname(c.open), n)
	r.Funcs[fname(c.open)] = true
	st := m.st.clone()
	delete(st.flags, "log")
	st.setVal("fpos", nil)
	part := mkSym("partial", tU64())
	e.assumeLe(st, part, mkU64(uint64(m.rs-1)))
	e.unroll = 5
	defer func() { e.unroll = 0 }()
	c.header = m.hdr
	c.size = mkAdd(mkAdd(m.data0, mkU64(uint64(n)*uint64(m.rs))), part)
	path := mkSym("path", types.Typ[types.String])
	st.flags["keepopen"] = mkTuple(part, c.header, c.size, path)
	ok := 0
	for _, o := range e.Run(c.open, st, []*V{path}, nil) {
		if !e.isNil(o.st, o.ret[1]) {
			if o.st.flag("ioerr") == "" {
				c.fail("reopen", where, c.open, o.st, "a file that was created and written by this code is refused")
			}
			continue
		}
		ok++
		good := true
		bad := func(format string, a ...interface{}) {
			good = false
			c.fail("reopen", where, c.open, o.st, format, a...)
		}
		ents := c.evs(o.st, "rdent")
		ins := c.evs(o.st, "insert")
		if len(ents) != n || len(ins) != n {
			bad("%d entries are read and %d regions known", len(ents), len(ins))
			continue
		}
		for i, x := range ents {
			if !e.numEq(o.st, x.args[1], mkAdd(m.ent0, mkU64(uint64(i)*uint64(c.entLen)))) {
				bad("entry %d is read at %s", i, x.args[1])
			}
			v := x.args[2]
			s := structOf(c.ent)
			for j := 0; j < s.NumFields(); j++ {
				at := 1
				if !strings.Contains(s.Field(j).Name(), "Origin") {
					at = 2
				}
				if !e.numEq(o.st, mkConvTo(ins[i].args[at], tU64()), mkConvTo(fieldOf(v, j), tU64())) {
					bad("entry %d is kept as %s at %s", i, ins[i].args[1], ins[i].args[2])
				}
			}
		}
		sb := structOf(c.bf)
		for _, i := range c.intFields() {
			want := mkAdd(mkConvTo(c.get(e, m.st, m.obj, i), tU64()), mkU64(uint64(n)*uint64(m.delta[i])))
			if got := c.get(e, o.st, o.ret[0], i); !e.numEq(o.st, mkConvTo(got, tU64()), want) {
				bad("field %s is %s, it was %s when the file was closed", sb.Field(i).Name(), got, want)
			}
		}
		if good {
			r.Ok("reopen", where)
		}
	}
	if ok == 0 {
		c.fail("reopen", where, c.open, nil, "the file cannot be reopened")
	}
	c.header, c.size = nil, nil
}

func quotients(v *V) []*V {
	var out []*V
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.k == KBin && (v.name == "/" || v.name == ">>" || v.name == "+") {
			out = append(out, v)
		}
		for _, a := range v.args {
			rec(a)
		}
	}
	rec(v)
	return out
}

func init() {
	checks["C15"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of creation, update, read and open of the snapshot file on a model file that records positions; places of header, entries and regions are compared between the writers and the readers"
		r.Assumptions = []string{"capacities below 2^50 bytes", "the Judy map returns what was inserted"}
		c := newSnapFile(P, r)
		if c == nil {
			r.Add("create", "nvm.BackingFile", "-", "the code of the snapshot file was not found", nil)
			return
		}
		c.check()
		c.find()
		c.wiring()
		r.Need("create", 1)
		r.Need("round-trip", 2)
		r.Need("add", 1)
		r.Need("read", 1)
		r.Need("reopen", 3)
		r.Need("order", 1)
		r.Need("layout", 1)
		r.Need("wiring", 3)
	}
}
