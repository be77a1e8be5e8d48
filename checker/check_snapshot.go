package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C14: a region is copied before it is overwritten, and readers of a snapshot
// get the copy. The device's file and the snapshot file are the ground: every
// write to the file of the device is looked at, however it comes about.

type snapCk struct {
	*snapFile
	nv, fn, rd, abT *types.Named
	view            *viewCk
	m               *made
	e               *Engine
	base            func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool)
	raw, self       *V
	dev, ab         *V
	cap             *V
	active          *V // the snapshot there is once the lock is held
	other           *V
	where           string
	fnc             *ssa.Function
	wantPos, buf    *V
	reader          bool
	expect, p       *V
	rawCap          *V
	nLook           int
	stop            bool // there is a violation: no more paths are needed
}

func (c *snapCk) bad(rule string, st *State, format string, a ...interface{}) {
	c.fail(rule, c.where, c.fnc, st, format, a...)
	c.stop = true
}

func (c *snapCk) fieldOfType(t *types.Named, want types.Type, ptr bool) int {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if ptr {
			p, ok := ft.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			ft = p.Elem()
		}
		if types.Identical(types.Unalias(ft), want) {
			return i
		}
	}
	return -1
}

func (c *snapCk) field(st *State, obj *V, t *types.Named, i int) *V {
	f := structOf(t).Field(i)
	b, p := splitPtr(obj)
	return c.e.loadLoc(st, nil, b, p+"."+f.Name(), f.Type())
}

func (c *snapCk) setField(st *State, obj *V, t *types.Named, i int, v *V) {
	f := structOf(t).Field(i)
	b, p := splitPtr(obj)
	c.e.storeLoc(st, b, p+"."+f.Name(), v, f.Type())
}

// fileView: a view of the device's file, in blocks.
func (c *snapCk) fileView(st *State, name string, ks, ke, kc *V) *V {
	e, w := c.e, c.view
	rec := e.symVal(st, "v", c.fn)
	m := map[*V]*V{}
	m[w.vsL] = mkBlocks(ks, w.vsL.t)
	if w.veHasVs {
		m[w.veL] = mkBlocks(mkSub(ke, ks), w.veL.t)
	} else {
		m[w.veL] = mkBlocks(ke, w.veL.t)
	}
	if w.curHasVs {
		m[w.curL] = mkBlocks(kc, w.curL.t)
	} else {
		m[w.curL] = mkBlocks(mkSub(kc, ks), w.curL.t)
	}
	for i := 0; i < structOf(c.fn).NumFields(); i++ {
		if structOf(c.fn).Field(i).Type().String() == "*os.File" {
			c.dev = fieldOf(rec, i)
			st.facts[c.dev] = Fact{nilness: 2}
		}
	}
	rec = subst(rec, m, map[*V]*V{})
	p := e.makeRecv(st, name, types.NewPointer(c.fn), rec)
	st.flags["keep"+name] = mkTuple(ks, ke, kc, rec, p, c.dev)
	return p
}

// device: st has the raw device in c.raw and the object to call in c.self.
func (c *snapCk) device(asView bool, before, active *V) *State {
	e := c.e
	st := c.m.st.clone()
	delete(st.flags, "log")
	st.setVal("fpos", nil)
	ke := mkSym("endBlock", tU64())
	e.assumeLe(st, mkBlocks(ke, tU64()), c.m.cap)
	e.assumeLe(st, c.m.cap, mkBlocks(ke, tU64()))
	e.assumeLe(st, ke, mkU64(1<<41))
	kc := mkSym("cursorBlock", tU64())
	e.assumeLe(st, kc, ke)
	c.cap = mkBlocks(ke, tU64())
	c.ab = mkSym("copybuf", types.NewPointer(c.abT))
	st.facts[c.ab] = Fact{nilness: 2}
	c.setLen(st, c.ab, mkInt(c.m.rs, types.Typ[types.Int]))
	mk := func(name string, file, bf *V, raw *V) *V {
		rec := e.symVal(st, name, c.nv)
		s := structOf(c.nv)
		var fs []*V
		for i := 0; i < s.NumFields(); i++ {
			v := fieldOf(rec, i)
			switch {
			case isPtrTo(s.Field(i).Type(), c.fn):
				v = file
			case isPtrTo(s.Field(i).Type(), c.bf):
				v = bf
			case isPtrTo(s.Field(i).Type(), c.abT):
				v = c.ab
			case types.Identical(s.Field(i).Type().Underlying(), types.Typ[types.Bool]) && raw == nil:
				v = mkBool(false) // not a part of another device
			}
			fs = append(fs, v)
		}
		p := e.makeRecv(st, name+"obj", types.NewPointer(c.nv), mkStruct(c.nv, fs))
		r := raw
		if r == nil {
			r = p
		}
		c.setField(st, p, c.nv, c.fieldOfType(c.nv, c.nv, true), r)
		st.flags["keepsnap"+name] = mkTuple(p, bf, c.ab)
		return p
	}
	c.raw = mk("raw", c.fileView(st, "rawfile", mkU64(0), ke, kc), before, nil)
	c.self, c.active = c.raw, active
	if asView {
		ks, ke2, kc2 := mkSym("viewFirst", tU64()), mkSym("viewEnd", tU64()), mkSym("viewCursor", tU64())
		e.assumeLe(st, ks, kc2)
		e.assumeLe(st, kc2, ke2)
		e.assumeLe(st, ke2, ke)
		stale := mkSym("staleSnapshot", types.NewPointer(c.bf))
		c.self = mk("view", c.fileView(st, "viewfile", ks, ke2, kc2), stale, c.raw)
	}
	if active != nil {
		st.flags["keepactive"] = mkTuple(active)
	}
	return st
}

// AlignedBytes: a buffer and its length.
func (c *snapCk) setLen(st *State, obj, n *V) {
	var rest []*V
	if t := st.flags["ablens"]; t != nil {
		for _, x := range t.args {
			if x.args[0] != obj {
				rest = append(rest, x)
			}
		}
	}
	st.flags["ablens"] = mkTuple(append(rest, mkTuple(obj, n))...)
}

func (c *snapCk) lenAb(st *State, obj *V) *V {
	if t := st.flags["ablens"]; t != nil {
		for _, x := range t.args {
			if x.args[0] == obj {
				return x.args[1]
			}
		}
	}
	return nil
}

func (c *snapCk) curActive(st *State) *V {
	return c.field(st, c.raw, c.nv, c.fieldOfType(c.nv, c.bf, true))
}

func (c *snapCk) events(st *State, kind string) []*V {
	var out []*V
	for _, x := range logOf(st) {
		if x.args[0].strConst() == kind && x.args[1].strConst() == st.flag("hold") {
			out = append(out, x)
		}
	}
	return out
}

func (c *snapCk) log(st *State, kind string, args ...*V) {
	// a loop must not make the log grow for ever
	if len(logOf(st)) > 24 {
		return
	}
	st.setFlag("progress", fmt.Sprint(len(logOf(st))))
	addLog(st, append([]*V{mkStr(kind), mkStr(st.flag("hold"))}, args...)...)
}

func (c *snapCk) times(o *V) *V { return mkMul(mkConvTo(o, tU64()), mkU64(uint64(c.m.rs))) }

func (c *snapCk) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	P := c.P
	tInt := types.Typ[types.Int]
	if c.stop {
		return nil, true
	}
	fork := func(ok []*V, onOk, onBad func(st *State)) []Outcome {
		fl := st.clone()
		br := e.freshResults(fl, ci)
		br[len(br)-1] = e.newErr(fl, ci.site, ".err")
		fl.setFlag("ioerr", "1")
		fl.note(callee(ci) + " fails at " + P.pos(ci.site))
		if onOk != nil {
			onOk(st)
		}
		if onBad != nil {
			onBad(fl)
		}
		return []Outcome{{st, ok}, {fl, br}}
	}
	if o, ok := asLockOp(ci); ok && c.raw != nil {
		b, p := splitPtr(o.addr)
		rb, rp := splitPtr(c.raw)
		if b != rb || !strings.HasPrefix(p, rp+".") {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		switch o.op {
		case "Lock", "RLock":
			m := "W"
			if o.op == "RLock" {
				m = "R"
			}
			st.setFlag("lk", m)
			st.setFlag("hold", st.flag("hold")+"i")
			i := c.fieldOfType(c.nv, c.bf, true)
			if !c.reader {
				if c.active != nil {
					c.setField(st, c.raw, c.nv, i, c.active)
				}
				return []Outcome{{st, nil}}, true
			}
			// the snapshot may have been deleted, and a new one made
			gone, new := st.clone(), st.clone()
			c.setField(gone, c.raw, c.nv, i, theNil)
			gone.note("the snapshot was deleted before the lock at " + P.pos(ci.site))
			c.setField(new, c.raw, c.nv, i, c.other)
			e.assume(new, mkEq(c.other, c.m.obj), false)
			new.note("another snapshot was made before the lock at " + P.pos(ci.site))
			return []Outcome{{st, nil}, {gone, nil}, {new, nil}}, true
		case "Unlock", "RUnlock":
			st.setFlag("lk", "")
			return []Outcome{{st, nil}}, true
		}
		return nil, false
	}
	if ci.fn != nil && ci.fn.Signature.Recv() == nil && ci.sig.Results().Len() == 1 && isPtrTo(ci.sig.Results().At(0).Type(), c.abT) && len(ci.args) > 0 && isInt(ci.sig.Params().At(0).Type()) {
		ab := e.Fresh(st, ci.site, ".buf", ci.sig.Results().At(0).Type())
		st.facts[ab] = Fact{nilness: 2}
		c.setLen(st, ab, mkConvTo(ci.args[0], tInt))
		return []Outcome{{st, []*V{ab}}}, true
	}
	if ci.fn != nil && recvNamed(ci.fn) != nil && recvNamed(ci.fn).Obj() == c.abT.Obj() {
		ln := c.lenAb(st, ci.args[0])
		switch callee(ci) {
		case "AsBytes":
			if ln != nil {
				return []Outcome{{st, []*V{e.mkSlice(mkApp("abdata", nil, ci.args[0]), mkInt(0, tInt), ln, ci.sig.Results().At(0).Type())}}}, true
			}
		case "Resize", "AlignResize":
			c.setLen(st, ci.args[0], mkConvTo(ci.args[1], tInt))
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case "Len":
			if ln != nil {
				return []Outcome{{st, []*V{mkConvTo(ln, ci.sig.Results().At(0).Type())}}}, true
			}
		}
	}
	switch {
	case ci.fn == c.lookup:
		return c.lookups(e, st, ci), true
	case ci.fn == c.open:
		return fork([]*V{c.m.obj, theNil}, func(st *State) { addLog(st, mkStr("opened")) }, nil), true
	case ci.fn == c.create:
		n := ci.args[1]
		return fork([]*V{c.m.obj, theNil}, func(st *State) { addLog(st, mkStr("made"), c.m.obj, n) }, nil), true
	case ci.fn == c.write:
		c.save(st, ci)
		o := ci.args[2]
		return fork([]*V{theNil}, func(st *State) { c.log(st, "saved", o) }, func(st *State) { c.log(st, "copyfail", o) }), true
	case ci.fn == c.read:
		buf, idx := ci.args[1], ci.args[2]
		c.filled(st, ci, buf, nil, idx)
		n := e.lenOf(st, buf)
		return fork([]*V{n, theNil}, func(st *State) { c.log(st, "fill", buf, c.copyPos(st, idx), mkConvTo(n, tU64())) }, nil), true
	case strings.HasPrefix(ci.name, "(*os.File).") && ci.args[0] == c.dev:
		switch callee(ci) {
		case "ReadAt":
			buf, off := ci.args[1], mkConvTo(ci.args[2], tU64())
			n := e.lenOf(st, buf)
			if c.reader {
				c.filled(st, ci, buf, off, nil)
			}
			short, fl := st.clone(), st.clone()
			k := e.Fresh(short, ci.site, ".n", tInt)
			e.assumeLe(short, mkInt(0, tInt), k)
			e.assumeLe(short, mkInt(0, tInt), n)
			e.assumeLe(short, mkAdd(mkConvTo(k, tU64()), mkU64(1)), mkConvTo(n, tU64()))
			if c.reader {
				// the file has at least the bytes it had
				e.assumeLe(short, c.rawCap, mkAdd(off, mkConvTo(k, tU64())))
			}
			c.log(short, "dr", off, buf, mkStr("eof"))
			c.log(short, "fill", buf, off, mkConvTo(k, tU64()))
			short.note("the file ends at " + P.pos(ci.site))
			er := e.newErr(fl, ci.site, ".err")
			c.log(fl, "dr", off, buf, mkStr("fail"))
			fl.note("a read fails at " + P.pos(ci.site))
			fl.setFlag("ioerr", "1")
			c.log(st, "dr", off, buf, mkStr("ok"))
			c.log(st, "fill", buf, off, mkConvTo(n, tU64()))
			outs := []Outcome{{st, []*V{n, theNil}}, {fl, []*V{mkInt(0, tInt), er}}}
			if !c.reader || !e.le(st, mkAdd(off, mkConvTo(n, tU64())), c.rawCap) {
				outs = append(outs, Outcome{short, []*V{k, e.eofValue(short)}})
			}
			return outs, true
		case "WriteAt":
			c.devWrite(st, ci, mkConvTo(ci.args[2], tU64()), ci.args[1])
			return fork([]*V{e.lenOf(st, ci.args[1]), theNil}, func(st *State) { c.log(st, "dw") }, func(st *State) { c.log(st, "dw") }), true
		case "Write", "WriteString", "Truncate":
			c.bad("copy-first", st, "writes to the device's file with %s", callee(ci))
			return nil, false
		}
		if lastIsError(ci.sig) {
			ok := e.freshResults(st, ci)
			ok[len(ok)-1] = theNil
			if len(ok) == 2 {
				st.facts[ok[0]] = Fact{nilness: 2}
			}
			return fork(ok, nil, nil), true
		}
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	case ci.name == "io.ReadFull" || ci.fn != nil && ci.fn.Signature.Recv() == nil && P.inModule(ci.fn) && len(ci.args) == 3 && isBytes(ci.fn.Signature.Params().At(1).Type()) && isInt(ci.fn.Signature.Params().At(2).Type()) && ci.sig.Results().Len() == 2:
		r := ci.args[0]
		if r.k != KIface || !isPtrTo(r.t, c.fn) {
			return c.base(e, st, ci)
		}
		r = r.args[0]
		var outs []Outcome
		name, args := "Read", []*V{r, ci.args[1]}
		if ci.name != "io.ReadFull" {
			name, args = "ReadAt", []*V{r, ci.args[1], ci.args[2]}
		}
		ln := e.lenOf(st, ci.args[1])
		for _, o := range e.invoke(P.method("nvm.FileNVM", name), st, args, nil, ci.site) {
			n, er := o.ret[0], o.ret[1]
			if e.notNilV(o.st, er) {
				// nothing was read: the error itself
				outs = append(outs, Outcome{o.st, []*V{n, er}})
				continue
			}
			s2 := o.st.clone()
			if e.assume(s2, mkEq(n, ln), true) {
				outs = append(outs, Outcome{s2, []*V{n, theNil}})
			}
			if e.decide(o.st, mkEq(n, ln)) != 1 {
				g := P.prog.ImportedPackage("io").Var("ErrUnexpectedEOF")
				v := e.loadLoc(o.st, nil, in.mk(V{k: KGlobal, g: g, t: g.Type()}), "", g.Type().(*types.Pointer).Elem())
				if e.assume(o.st, mkEq(n, ln), false) {
					outs = append(outs, Outcome{o.st, []*V{n, v}})
				}
			}
		}
		return outs, true
	}
	return c.base(e, st, ci)
}

// lookups: which regions are saved and which are not.
func (c *snapCk) lookups(e *Engine, st *State, ci *CallInfo) []Outcome {
	bf, start, end := ci.args[0], mkConvTo(ci.args[1], tU64()), mkConvTo(ci.args[2], tU64())
	sg := c.lookup.Signature.Results()
	u32 := sg.At(0).Type().Underlying().(*types.Slice).Elem()
	tInt := types.Typ[types.Int]
	list := func(st *State, i int, vs []*V) *V {
		n := int64(len(vs))
		cell := e.freshCell(st, ci.site, fmt.Sprintf(".found%d", i), types.NewArray(u32, n))
		for j, x := range vs {
			e.storeLoc(st, cell, idxPath(mkInt(int64(j), tInt)), x, u32)
		}
		return e.mkSlice(mkPtr(cell, ""), mkInt(0, tInt), mkInt(n, tInt), sg.At(i).Type())
	}
	c.nLook++
	var o []*V
	for i := 0; i < 2; i++ {
		o = append(o, mkSym(fmt.Sprintf("region%d.%d", c.nLook, i), u32))
	}
	idx := mkSym(fmt.Sprintf("copy%d", c.nLook), u32)
	within := func(st *State, x *V) bool {
		e.assumeLe(st, mkConvTo(x, tU64()), mkU64(1<<26))
		e.assumeLe(st, mkAdd(c.times(x), mkU64(1)), end)
		e.assumeLe(st, mkAdd(start, mkU64(1)), mkAdd(c.times(x), mkU64(uint64(c.m.rs))))
		return true
	}
	var outs []Outcome
	out := func(st *State, saved []*V, missing []*V, region *V) {
		args := []*V{bf, start, end, mkTuple(missing...), mkTuple(saved...)}
		if region != nil {
			args = append(args, region)
		}
		c.log(st, "lookup", args...)
		outs = append(outs, Outcome{st, []*V{list(st, 0, saved), list(st, 1, missing)}})
	}
	empty := st.clone()
	if e.decide(st, mkLess(start, end)) != 1 && e.assume(empty, mkLess(start, end), false) {
		out(empty, nil, nil, nil)
	}
	if !e.assume(st, mkLess(start, end), true) {
		return outs
	}
	if c.reader {
		s2 := st.clone()
		within(s2, o[0])
		if e.le(s2, end, mkAdd(c.times(o[0]), mkU64(uint64(c.m.rs)))) && e.le(s2, c.times(o[0]), start) || c.aligned(s2, start, end, o[0]) {
			s3 := s2.clone()
			s2.note("the region is saved at " + c.P.pos(ci.site))
			out(s2, []*V{idx}, nil, o[0])
			s3.note("the region is not saved at " + c.P.pos(ci.site))
			out(s3, nil, []*V{o[0]}, o[0])
			return outs
		}
	}
	for n := 0; n <= 2; n++ {
		s2 := st.clone()
		ok := true
		for i := 0; i < n; i++ {
			ok = ok && within(s2, o[i])
		}
		if n == 2 {
			x := mkAdd(mkConvTo(o[0], tU64()), mkU64(1))
			e.assumeLe(s2, x, mkConvTo(o[1], tU64()))
			e.assumeLe(s2, mkConvTo(o[1], tU64()), x)
		}
		if ok {
			s2.note(fmt.Sprintf("%d regions are not saved at %s", n, c.P.pos(ci.site)))
			out(s2, nil, o[:n], nil)
		}
	}
	return outs
}

// aligned: [start, end) is exactly one region.
func (c *snapCk) aligned(st *State, start, end, o *V) bool {
	e := c.e
	rs := uint64(c.m.rs)
	if !e.numEq(st, end, mkAdd(start, mkU64(rs))) || !(e.multiple(st, start, rs) || e.decide(st, mkEq(mkRem(start, rs), mkU64(0))) == 1) {
		return false
	}
	// start is a multiple and o the region that meets it
	e.assumeLe(st, c.times(o), start)
	e.assumeLe(st, start, c.times(o))
	return true
}

// save: a region goes to the snapshot file.
func (c *snapCk) save(st *State, ci *CallInfo) {
	e := c.e
	bf, buf, o := ci.args[0], ci.args[1], ci.args[2]
	if bf != c.m.obj {
		c.bad("copy", st, "the region is saved in %s, which is not the snapshot of the device, at %s", bf, c.P.pos(ci.site))
		return
	}
	rs := c.events(st, "dr")
	if len(rs) == 0 {
		c.bad("copy", st, "a region is saved that was not read under the same lock at %s", c.P.pos(ci.site))
		return
	}
	x := rs[len(rs)-1]
	pos, rb := x.args[2], x.args[3]
	b1, o1, l1 := e.sliceParts(st, rb)
	b2, o2, _ := e.sliceParts(st, buf)
	ln := mkConvTo(l1, tU64())
	switch {
	case x.args[4].strConst() == "fail":
		c.bad("copy", st, "a region that could not be read is saved at %s", c.P.pos(ci.site))
	case b1 != b2 || !e.numEq(st, o1, o2):
		c.bad("copy", st, "other data than the region's is saved at %s", c.P.pos(ci.site))
	case !e.numEq(st, pos, c.times(o)):
		c.bad("copy", st, "region %s is saved with the data at %s, at %s", o, pos, c.P.pos(ci.site))
	case !e.le(st, mkU64(uint64(c.m.rs)), ln) && !e.le(st, c.cap, mkAdd(pos, ln)):
		c.bad("copy", st, "only %s bytes of the region are saved at %s", l1, c.P.pos(ci.site))
	case st.flag("lk") != "W":
		c.bad("locked", st, "a region is saved without the writer's lock of the device at %s", c.P.pos(ci.site))
	default:
		c.r.Ok("copy", c.where)
	}
}

// devWrite: the bytes at pos change.
func (c *snapCk) devWrite(st *State, ci *CallInfo, pos, buf *V) {
	e := c.e
	at := c.P.pos(ci.site)
	_, off, l := e.sliceParts(st, buf)
	n := mkConvTo(l, tU64())
	if st.flag("lk") != "W" {
		c.bad("locked", st, "the device is written without the writer's lock of the device at %s", at)
		return
	}
	for _, k := range []string{"copyfail"} {
		if len(c.events(st, k)) > 0 {
			c.bad("copy-first", st, "the device is written at %s although a region could not be saved", at)
			return
		}
	}
	if c.buf != nil {
		b1, _, _ := e.sliceParts(st, c.buf)
		b2, _, _ := e.sliceParts(st, buf)
		if b1 != b2 || !e.numEq(st, off, mkInt(0, types.Typ[types.Int])) || c.wantPos != nil && !e.numEq(st, pos, c.wantPos) {
			c.bad("place", st, "the write goes to %s of the device at %s, asked for %s", pos, at, c.wantPos)
			return
		}
		c.r.Ok("place", c.where)
	}
	if e.isNil(st, c.curActive(st)) || e.le(st, n, mkU64(0)) {
		c.r.Ok("no-copy", c.where)
		return
	}
	why := "the regions it overwrites are not looked up under the same lock"
	for _, x := range c.events(st, "lookup") {
		bf, start, end := x.args[2], x.args[3], x.args[4]
		if bf != c.m.obj {
			why = "another snapshot file is asked which regions are saved"
			continue
		}
		if !e.le(st, start, pos) || !e.le(st, mkAdd(pos, n), end) {
			why = fmt.Sprintf("only the regions of %s..%s are looked up", start, end)
			continue
		}
		all := true
		for _, o := range x.args[5].args {
			found := false
			for _, s := range c.events(st, "saved") {
				found = found || s.args[2] == o || e.numEq(st, s.args[2], o)
			}
			all = all && found
		}
		if !all {
			why = "a region that is not saved yet is overwritten"
			continue
		}
		c.r.Ok("copy-first", c.where)
		return
	}
	c.bad("copy-first", st, "%s bytes at %s are written at %s: %s", l, pos, at, why)
}

func (c *snapCk) copyPos(st *State, idx *V) *V {
	for _, x := range c.events(st, "lookup") {
		for _, s := range x.args[6].args {
			if s == idx && len(x.args) > 7 {
				return c.times(x.args[7])
			}
		}
	}
	return mkSym("nowhere", tU64())
}

// filled: the reader gets data of the device at off, or of a copy.
func (c *snapCk) filled(st *State, ci *CallInfo, buf, off, idx *V) {
	if !c.reader {
		return
	}
	e := c.e
	at := c.P.pos(ci.site)
	if st.flag("lk") == "" {
		c.bad("reader-locked", st, "a region is read without a lock that excludes writers at %s", at)
		return
	}
	for _, x := range c.events(st, "lookup") {
		if x.args[2] != c.m.obj {
			continue
		}
		for _, s := range x.args[6].args {
			if idx != nil && s == idx {
				c.r.Ok("reader-source", c.where)
				return
			}
		}
		for _, o := range x.args[5].args {
			if off == nil {
				continue
			}
			n := mkConvTo(e.lenOf(st, buf), tU64())
			if e.le(st, c.times(o), off) && e.le(st, mkAdd(off, n), mkAdd(c.times(o), mkU64(uint64(c.m.rs)))) {
				c.r.Ok("reader-source", c.where)
				return
			}
		}
	}
	if idx != nil {
		c.bad("reader-source", st, "copy %s is read at %s, which is not the copy that was looked up under the same lock", idx, at)
	} else {
		c.bad("reader-source", st, "the device is read at %s, at %s, without having looked up under the same lock that this region has no copy", off, at)
	}
}

// copied: bytes reach the caller of the reader.
func (c *snapCk) copied(e *Engine, st *State, site ssa.Instruction, dst, src *V) {
	if !c.reader || c.p == nil {
		return
	}
	pb, _, _ := e.sliceParts(st, c.p)
	db, do, dl := e.sliceParts(st, dst)
	if db != pb {
		return
	}
	sb, so, sl := e.sliceParts(st, src)
	var fill *V
	for _, x := range logOf(st) {
		if x.args[0].strConst() == "fill" {
			if b, _, _ := e.sliceParts(st, x.args[2]); b == sb {
				fill = x
			}
		}
	}
	at := c.P.pos(site)
	if fill == nil {
		c.bad("reader-bytes", st, "bytes that were not read from the device or a copy are returned at %s", at)
		return
	}
	_, fo, _ := e.sliceParts(st, fill.args[2])
	got := mkAdd(fill.args[3], mkConvTo(e.arith(st, site, token.SUB, so, fo, types.Typ[types.Int]), tU64()))
	want := mkAdd(c.expect, mkConvTo(do, tU64()))
	if !e.numEq(st, got, want) {
		if debugCounts {
			fmt.Println(dumpFacts(st))
		}
		c.bad("reader-bytes", st, "the bytes at %s of the snapshot are returned for those at %s, at %s", got, want, at)
		return
	}
	cnt := sl
	if e.le(st, dl, sl) {
		cnt = dl
	}
	// up to where the buffer is filled
	lim := mkAdd(fill.args[3], fill.args[4])
	c.log(st, "cp", mkAdd(mkConvTo(do, tU64()), mkConvTo(cnt, tU64())), lim)
}

func (c *snapCk) setup() bool {
	c.e = c.m.e
	c.e.exactCopy = true
	c.e.unroll = 4
	if c.base == nil {
		c.base = c.e.H.Call
	}
	c.e.H.Call = c.call
	c.e.H.Copy = c.copied
	return true
}

func (c *snapCk) exported(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < t.NumMethods(); i++ {
		if f := c.P.prog.FuncValue(t.Method(i)); f != nil && t.Method(i).Exported() && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

func (c *snapCk) writers() {
	e := c.e
	type scen struct {
		name   string
		view   bool
		before *V
		active *V
	}
	obj := c.m.obj
	var scens []scen
	for _, v := range []bool{false, true} {
		n := "the device"
		if v {
			n = "a part of the device"
		}
		scens = append(scens, scen{n, v, obj, obj}, scen{n + ", snapshot made while waiting for the lock", v, theNil, obj}, scen{n + " without a snapshot", v, theNil, theNil})
	}
	for _, f := range c.exported(c.nv) {
		for _, s := range scens {
			c.where, c.fnc = fname(f)+" of "+s.name, f
			c.r.Funcs[fname(f)] = true
			st := c.device(s.view, s.before, s.active)
			c.reader, c.buf, c.wantPos = false, nil, nil
			args := []*V{c.self}
			fi := c.fieldOfType(c.nv, c.fn, true)
			file := c.field(st, c.self, c.nv, fi)
			vs, _ := c.view.at(e, st, file)
			isWrite := false
			for i := 0; i < f.Signature.Params().Len(); i++ {
				t := f.Signature.Params().At(i).Type()
				a := e.symVal(st, fmt.Sprintf("arg%d", i), t)
				if isBytes(t) {
					boundSlices(e, st, a, t)
					if strings.HasPrefix(f.Name(), "Write") {
						c.buf, isWrite = a, true
						c.wantPos = mkAdd(vs.vs, vs.pos)
					}
				} else if isWrite && isInt(t) {
					e.assumeLe(st, mkInt(0, t), a)
					e.assumeLe(st, mkConvTo(a, tU64()), mkU64(1<<52))
					c.wantPos = mkAdd(vs.vs, mkConvTo(a, tU64()))
				}
				args = append(args, a)
			}
			st.flags["keepargs"] = mkTuple(append(args, vs.vs, vs.pos)...)
			ok := 0
			if debugCounts {
				fmt.Println("RUN", c.where, time.Now().Format("15:04:05"))
			}
			for _, o := range e.Run(f, st, args, nil) {
				if debugCounts {
					fmt.Println("OUT", o.ret, o.st.flag("ioerr"), logOf(o.st))
				}
				if !lastIsError(f.Signature) {
					continue
				}
				er := o.ret[len(o.ret)-1]
				fails := false
				for _, x := range logOf(o.st) {
					k := x.args[0].strConst()
					fails = fails || k == "copyfail" || k == "dr" && isWrite && x.args[4].strConst() == "fail"
				}
				if fails && !e.notNilV(o.st, er) {
					c.bad("copy-error", o.st, "a region could not be saved, and no error is returned")
				} else if fails {
					c.r.Ok("copy-error", c.where)
				}
				if isWrite && e.isNil(o.st, er) {
					ok++
					if len(c.evs(o.st, "dw")) == 0 && !e.le(o.st, mkConvTo(e.lenOf(o.st, c.buf), tU64()), mkU64(0)) {
						c.bad("place", o.st, "reports success without a write to the device's file")
					}
				}
				for _, v := range o.ret {
					if v.k == KIface && isPtrTo(v.t, c.nv) {
						c.partOf(o.st, v.args[0])
					}
				}
				if v := c.curActive(o.st); v != s.active && (s.active == obj || s.active.k == KNil) && !s.view {
					c.changed(f, o, s.active, v)
				}
			}
			if isWrite && ok == 0 && !c.stop {
				c.bad("copy-first", nil, "never succeeds")
			}
		}
	}
}

// partOf: a device that was split off writes through the one it is a part of.
func (c *snapCk) partOf(st *State, obj *V) {
	r := c.field(st, obj, c.nv, c.fieldOfType(c.nv, c.nv, true))
	f := c.field(st, obj, c.nv, c.fieldOfType(c.nv, c.fn, true))
	b, _ := splitPtr(f)
	switch {
	case r != c.raw:
		c.bad("parts", st, "the part takes %s for the device it belongs to, not %s", r, c.raw)
	case b == nil || c.e.isNil(st, f):
		c.bad("parts", st, "the part has no file")
	default:
		c.r.Ok("parts", c.where)
	}
}

// opened: an existing snapshot is the active one.
func (c *snapCk) opened() {
	e := c.e
	for _, f := range c.P.fnsWith(func(s *types.Signature) bool {
		return s.Recv() == nil && s.Params().Len() == 1 && isPtrTo(s.Params().At(0).Type(), c.fn) && s.Results().Len() == 2 && isPtrTo(s.Results().At(0).Type(), c.nv)
	}) {
		c.where, c.fnc = fname(f), f
		c.r.Funcs[fname(f)] = true
		st := c.device(false, theNil, theNil)
		c.raw = nil
		file := c.fileView(st, "openfile", mkU64(0), mkSym("endBlock", tU64()), mkU64(0))
		n := 0
		for _, o := range e.Run(f, st, []*V{file}, nil) {
			if !e.isNil(o.st, o.ret[1]) {
				continue
			}
			obj := o.ret[0]
			bf := c.field(o.st, obj, c.nv, c.fieldOfType(c.nv, c.bf, true))
			ab := c.field(o.st, obj, c.nv, c.fieldOfType(c.nv, c.abT, true))
			l := c.lenAb(o.st, ab)
			switch {
			case c.field(o.st, obj, c.nv, c.fieldOfType(c.nv, c.nv, true)) != obj:
				c.bad("open", o.st, "the device is not the one its writes are recorded for")
			case c.field(o.st, obj, c.nv, c.fieldOfType(c.nv, c.fn, true)) != file:
				c.bad("open", o.st, "the device is not over the file that was given")
			case len(c.evs(o.st, "opened")) > 0 && bf != c.m.obj:
				c.bad("open", o.st, "the snapshot file that was found is not the active snapshot")
			case bf == c.m.obj && (l == nil || !e.numEq(o.st, l, mkInt(c.m.rs, l.t))):
				c.bad("open", o.st, "the buffer for copies is not as large as a region")
			case bf != c.m.obj && !e.isNil(o.st, bf):
				c.bad("open", o.st, "the active snapshot is %s", bf)
			default:
				c.r.Ok("open", c.where)
				if bf == c.m.obj {
					n++
				}
			}
		}
		if n == 0 {
			c.bad("open", nil, "a snapshot that exists is never activated")
		}
	}
}

// changed: the active snapshot is another one now.
func (c *snapCk) changed(f *ssa.Function, o Outcome, before, after *V) {
	e := c.e
	switch {
	case before.k == KNil:
		ci := c.evs(o.st, "made")
		if len(ci) == 0 || ci[0].args[1] != after {
			c.bad("activate", o.st, "the snapshot becomes %s, which was not created here", after)
			return
		}
		if !e.le(o.st, c.cap, mkConvTo(ci[0].args[2], tU64())) {
			c.bad("activate", o.st, "the snapshot is made for %s bytes, the device has %s", ci[0].args[2], c.cap)
			return
		}
		ab := c.field(o.st, c.raw, c.nv, c.fieldOfType(c.nv, c.abT, true))
		if l := c.lenAb(o.st, ab); l == nil || !e.numEq(o.st, l, mkInt(c.m.rs, l.t)) {
			c.bad("activate", o.st, "the buffer for copies is not as large as a region")
			return
		}
		c.r.Ok("activate", c.where)
	case e.isNil(o.st, after):
		// deleted: the file is gone
		if !c.deletes(f) {
			c.bad("kept", o.st, "the snapshot is given up although its file stays")
		} else {
			c.r.Ok("kept", c.where)
		}
	default:
		c.bad("kept", o.st, "the snapshot is replaced by %s", after)
	}
}

func (c *snapCk) deletes(f *ssa.Function) bool {
	for g := range reachOf(c.P, f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(ssa.CallInstruction); ok && x.Common().StaticCallee() != nil && fname(x.Common().StaticCallee()) == "os.Remove" {
					return true
				}
			}
		}
	}
	return false
}

// lookupCk: the lookup covers exactly the regions of the range.
func (c *snapCk) lookupCk() {
	e := c.e
	f := c.lookup
	c.fnc = f
	c.r.Funcs[fname(f)] = true
	e.H.Call = c.base
	e.unroll = 6
	defer func() { e.H.Call = c.call; e.unroll = 4 }()
	u64 := tU64()
	for k := int64(1); k <= 3; k++ {
		c.where = fmt.Sprintf("%s over %d regions", fname(f), k)
		st := c.m.st.clone()
		delete(st.flags, "log")
		o, a, b := mkSym("first", u64), mkSym("a", u64), mkSym("b", u64)
		rs := uint64(c.m.rs)
		e.assumeLe(st, o, mkU64(1<<25))
		e.assumeLe(st, a, mkU64(rs-1))
		e.assumeLe(st, b, mkU64(rs-1))
		start := mkAdd(mkMul(o, mkU64(rs)), a)
		end := mkAdd(mkMul(mkAdd(o, mkU64(uint64(k-1))), mkU64(rs)), mkAdd(b, mkU64(1)))
		if k == 1 {
			e.assumeLe(st, a, b)
		}
		st.flags["keepr"] = mkTuple(o, a, b, start, end)
		s1 := mkConvTo(start, f.Signature.Params().At(0).Type())
		e1 := mkConvTo(end, f.Signature.Params().At(1).Type())
		n := 0
		for _, out := range e.Run(f, st, []*V{c.m.obj, s1, e1}, nil) {
			n++
			gets := c.evs(out.st, "get")
			if int64(len(gets)) != k {
				c.bad("lookup", out.st, "%d regions are looked up", len(gets))
				continue
			}
			good := true
			var want [2][]*V
			for i, g := range gets {
				if !e.numEq(out.st, mkConvTo(g.args[1], u64), mkAdd(o, mkU64(uint64(i)))) {
					good = false
					c.bad("lookup", out.st, "region %s is looked up, not %s+%d", g.args[1], o, i)
				}
				if b, _ := g.args[3].boolConst(); b {
					want[0] = append(want[0], g.args[2])
				} else {
					want[1] = append(want[1], g.args[1])
				}
			}
			for i := range want {
				ln, ok := e.constOf(out.st, e.lenOf(out.st, out.ret[i]))
				if !ok || int(ln) != len(want[i]) {
					good = false
					c.bad("lookup", out.st, "list %d has %s elements instead of %d", i, e.lenOf(out.st, out.ret[i]), len(want[i]))
					continue
				}
				for j, w := range want[i] {
					base, off, _ := e.sliceParts(out.st, out.ret[i])
					kk, _ := off.intConst()
					bb, p := splitPtr(base)
					et := out.ret[i].t.Underlying().(*types.Slice).Elem()
					v := e.loadLoc(out.st, nil, bb, p+idxPath(mkInt(kk+int64(j), types.Typ[types.Int])), et)
					if w2 := mkConvTo(w, et); v != w2 && !e.numEq(out.st, v, w2) {
						good = false
						c.bad("lookup", out.st, "list %d has %s instead of %s", i, v, w)
					}
				}
			}
			if good {
				c.r.Ok("lookup", c.where)
			}
		}
		if n == 0 {
			c.bad("lookup", nil, "no result")
		}
	}
}

func (c *snapCk) readers() {
	P, e := c.P, c.e
	var getter *ssa.Function
	for _, f := range c.exported(c.nv) {
		s := f.Signature
		if s.Params().Len() == 0 && s.Results().Len() == 2 && isPtrTo(s.Results().At(0).Type(), c.rd) {
			getter = f
		}
	}
	read, seek := P.methodOf(c.rd, "Read"), P.methodOf(c.rd, "Seek")
	if getter == nil || read == nil || seek == nil {
		return
	}
	c.r.Funcs[fname(read)], c.r.Funcs[fname(seek)], c.r.Funcs[fname(getter)] = true, true, true
	st := c.device(false, c.m.obj, c.m.obj)
	c.buf = nil
	c.reader = false
	c.rawCap = mkConvTo(c.m.args[len(c.m.args)-1], tU64())
	c.where, c.fnc = fname(getter), getter
	var rs []Outcome
	for _, o := range e.Run(getter, st, []*V{c.raw}, nil) {
		if e.isNil(o.st, o.ret[1]) {
			rs = append(rs, o)
		}
	}
	if len(rs) == 0 {
		c.bad("reader-bytes", nil, "there is no reader of an existing snapshot")
		return
	}
	c.reader = true
	c.other = mkSym("otherSnapshot", types.NewPointer(c.bf))
	t64 := types.Typ[types.Int64]
	newP := func(st *State, name string) *V {
		p := e.symVal(st, name, types.NewSlice(types.Typ[types.Uint8]))
		boundSlices(e, st, p, p.t)
		st.facts[p] = Fact{nilness: 2}
		e.assumeLe(st, mkInt(1, types.Typ[types.Int]), e.lenOf(st, p))
		e.assumeLe(st, mkConvTo(e.lenOf(st, p), tU64()), mkU64(uint64(c.m.rs)))
		st.flags["keep"+name] = p
		return p
	}
	total := map[string]int{}
	// one read at c.expect
	step := func(st *State, rd *V, name string) []Outcome {
		c.where, c.fnc = fname(read)+" "+name, read
		c.p = newP(st, "p"+name)
		st.flags["keepx"] = c.expect
		var out []Outcome
		for _, o := range e.Run(read, st, []*V{rd, c.p}, nil) {
			n, er := o.ret[0], o.ret[1]
			switch {
			case er == e.eofValue(o.st):
				if !e.le(o.st, c.rawCap, c.expect) {
					c.bad("reader-end", o.st, "the reader reports the end of the snapshot at %s of %s bytes", c.expect, c.rawCap)
				} else {
					c.r.Ok("reader-end", c.where)
				}
			case e.isNil(o.st, er):
				nn := mkConvTo(n, tU64())
				cps := c.events(o.st, "cp")
				good := len(cps) > 0
				if good {
					x := cps[len(cps)-1]
					good = e.le(o.st, nn, x.args[2]) && e.le(o.st, mkAdd(c.expect, nn), x.args[3]) && e.le(o.st, nn, mkConvTo(e.lenOf(o.st, c.p), tU64()))
				}
				if !good {
					if debugCounts {
						fmt.Println(cps, c.expect, n)
						fmt.Println(dumpFacts(o.st))
					}
					c.bad("reader-bytes", o.st, "%s bytes are reported, they were not all copied from the region", n)
				} else {
					c.r.Ok("reader-bytes", c.where)
				}
				if !e.le(o.st, mkU64(1), nn) {
					c.bad("reader-bytes", o.st, "a read may return nothing without an error")
				}
				out = append(out, o)
			}
		}
		total[name] += len(out)
		return out
	}
	seekTo := func(st *State, rd, off *V, whence int64, want *V) []Outcome {
		c.where, c.fnc = fname(seek), seek
		c.p = nil
		var out []Outcome
		st.flags["keepx"] = want
		for _, o := range e.Run(seek, st, []*V{rd, off, mkInt(whence, types.Typ[types.Int])}, nil) {
			if !e.isNil(o.st, o.ret[1]) {
				continue
			}
			if !e.numEq(o.st, mkConvTo(o.ret[0], tU64()), want) {
				c.bad("reader-seek", o.st, "the position is %s, it is reported as %s", want, o.ret[0])
			} else {
				c.r.Ok("reader-seek", c.where)
			}
			out = append(out, o)
		}
		if len(out) == 0 {
			c.bad("reader-seek", nil, "a seek never succeeds")
		}
		return out
	}
	for _, o := range rs {
		rd := o.ret[0]
		st := o.st
		x := mkSym("position", t64)
		e.assumeLe(st, mkInt(0, t64), x)
		e.assumeLe(st, mkConvTo(x, tU64()), c.rawCap)
		e.assumeLe(st, c.rawCap, c.cap)
		st.flags["keeprd"] = mkTuple(rd, x, c.rawCap, c.other)
		X := mkConvTo(x, tU64())
		for _, o := range seekTo(st, rd, x, 0, X) {
			c.expect = X
			for _, o1 := range step(o.st, rd, "after a seek") {
				next := mkAdd(X, mkConvTo(o1.ret[0], tU64()))
				c.expect = next
				o1.st.flags["keepn1"] = next
				step(o1.st.clone(), rd, "after a read")
				d := mkSym("delta", t64)
				s2 := o1.st.clone()
				e.assumeLe(s2, mkInt(0, t64), d)
				e.assumeLe(s2, mkAdd(next, mkConvTo(d, tU64())), c.rawCap)
				e.assumeLe(s2, mkConvTo(d, tU64()), c.rawCap)
				s2.flags["keepd"] = d
				to := mkAdd(next, mkConvTo(d, tU64()))
				for _, o2 := range seekTo(s2, rd, d, 1, to) {
					c.expect = to
					step(o2.st, rd, "after a relative seek")
				}
			}
		}
	}
	for _, n := range []string{"after a seek", "after a read", "after a relative seek"} {
		if total[n] == 0 && !c.stop {
			c.where, c.fnc = fname(read)+" "+n, read
			c.bad("reader-bytes", nil, "the reader never returns data")
		}
	}
	c.reader = false
}

func init() {
	checks["C14"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of every exported operation of the snapshot device and of its reader, down to the accesses to the device's file: each write has to be preceded, under one hold of the writer's lock, by a lookup in the active snapshot that covers it and by a complete copy of each missing region; each read has to follow the lookup under one hold of a lock"
		r.Assumptions = []string{"capacities below 2^50 bytes", "the Judy map returns what was inserted", "what is saved in the snapshot file is what is read from it (C15)", "device views lie inside their device (C18)"}
		sf := newSnapFile(P, r)
		c := &snapCk{snapFile: sf, nv: P.named("nvm.SnapNVM"), fn: P.named("nvm.FileNVM"), rd: P.named("nvm.SnapshotReader"), abT: P.named("block.AlignedBytes")}
		if sf == nil || c.nv == nil || c.fn == nil || c.rd == nil || c.abT == nil {
			r.Add("copy-first", "nvm.SnapNVM", "-", "the code of the snapshots was not found", nil)
			return
		}
		c.view = &viewCk{P: P, r: &Report{Funcs: map[string]bool{}}, nt: c.fn, rel: "nvm.FileNVM", ptr: types.NewPointer(c.fn), file: true}
		if !c.view.discover() || c.fieldOfType(c.nv, c.bf, true) < 0 || c.fieldOfType(c.nv, c.fn, true) < 0 || c.fieldOfType(c.nv, c.nv, true) < 0 || c.fieldOfType(c.nv, c.abT, true) < 0 {
			r.Add("copy-first", "nvm.FileNVM", "-", "the fields of the device were not found", nil)
			return
		}
		sf.onMade = func(m *made) {
			if c.m != nil {
				return
			}
			c.m = m
		}
		sf.check()
		if c.m == nil {
			r.Add("copy-first", fname(sf.create), P.pos(sf.create), "the snapshot file is never created", nil)
			return
		}
		c.setup()
		c.lookupCk()
		c.opened()
		c.writers()
		c.readers()
		r.absorb(c.e)
		r.Need("copy-first", 4)
		r.Need("copy", 2)
		r.Need("copy-error", 2)
		r.Need("lookup", 3)
		r.Need("parts", 2)
		r.Need("open", 1)
		r.Need("reader-bytes", 2)
		r.Need("reader-source", 2)
	}
}
