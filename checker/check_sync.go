package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: durability of sync, snapshot and close. The operations of the store are
// executed down to the device interface; the write buffer of the journal has to be
// clean (or empty) when the device is told to sync. The Sync of every device is
// executed down to the system call. The flag that says the buffer is clean may only
// be cleared after the whole buffer was written to its place.

type syncCk struct {
	P     *Program
	r     *Report
	nvmI  *types.Named
	buf   *types.Named // the journal's write buffer
	dirty int          // its bool field
	pend  int          // the aligned bytes it writes
	where int          // the field with the position of those bytes
	open  string
}

func recvNamed(f *ssa.Function) *types.Named {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	t := f.Signature.Recv().Type()
	if p, ok := underPtr(t); ok {
		t = p
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (c *syncCk) isDevice(n *types.Named) bool {
	if n == nil {
		return false
	}
	i := c.nvmI.Underlying().(*types.Interface)
	return types.Implements(n, i) || types.Implements(types.NewPointer(n), i)
}

// findBuffer: the device that is built on another device and keeps bytes back.
func (c *syncCk) findBuffer() bool {
	P := c.P
	for _, t := range P.implementers("nvm.NonVolatileMemory") {
		if p, ok := underPtr(t); ok {
			t = p
		}
		n, _ := types.Unalias(t).(*types.Named)
		s := structOf(t)
		if n == nil || s == nil {
			continue
		}
		below, d, nd := false, -1, 0
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), c.nvmI) {
				below = true
			}
			if isBool(s.Field(i).Type()) {
				d = i
				nd++
			}
		}
		if below && nd == 1 {
			c.buf, c.dirty = n, d
		}
	}
	if c.buf == nil {
		return false
	}
	// the bytes that are written below, and where
	flush := P.methodOf(c.buf, "Flush")
	pos := P.methodOf(c.buf, "Position")
	if flush == nil || pos == nil {
		return false
	}
	s := structOf(c.buf)
	c.pend, c.where = -1, -1
	_, e := newCodec(P)
	st := newState()
	rec := e.symVal(st, "b", c.buf)
	recv := e.makeRecv(st, "buffer", types.NewPointer(c.buf), rec)
	c.nonNil(st, rec)
	for _, o := range e.Run(pos, st.clone(), []*V{recv}, nil) {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 && fieldOf(rec, i) != o.ret[0] {
				if c.where >= 0 {
					return false
				}
				c.where = i
			}
		}
	}
	base := e.H.Call
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if c.devCall(ci) && (callee(ci) == "Write" || callee(ci) == "WriteAt") {
			ptr, _, _ := e.sliceParts(st, ci.args[1])
			for i := 0; i < s.NumFields(); i++ {
				if c.isBytes(s.Field(i).Type()) {
					if p, _, ok := c.bytesOf(e, st, fieldOf(rec, i)); ok && p != nil && sameBase(p, ptr) {
						c.pend = i
					}
				}
			}
		}
		if c.devCall(ci) {
			return c.device(e, st, ci), true
		}
		return base(e, st, ci)
	}
	e.Run(flush, st, []*V{recv}, nil)
	return c.pend >= 0 && c.where >= 0
}

func sameBase(a, b *V) bool {
	x, _ := splitPtr(a)
	y, _ := splitPtr(b)
	return x == y
}

func (c *syncCk) isBytes(t types.Type) bool {
	p, ok := underPtr(t)
	return ok && tyIs(p, "block.AlignedBytes")
}

func (c *syncCk) nonNil(st *State, rec *V) {
	for _, a := range rec.args {
		if a.k == KSym && a.t != nil {
			switch a.t.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				st.facts[a] = Fact{nilness: 2}
			}
		}
	}
}

// bytesOf: the bytes an aligned buffer holds now, and their number.
func (c *syncCk) bytesOf(e *Engine, st *State, ab *V) (*V, *V, bool) {
	m := c.P.method("block.AlignedBytes", "AsBytes")
	if m == nil {
		return nil, nil, false
	}
	outs := e.Run(m, st.clone(), []*V{ab}, nil)
	if len(outs) != 1 {
		return nil, nil, false
	}
	p, lo, ln := e.sliceParts(outs[0].st, outs[0].ret[0])
	_ = lo
	return p, ln, true
}

func callee(ci *CallInfo) string {
	if ci.method != nil {
		return ci.method.Name()
	}
	if ci.fn != nil {
		return ci.fn.Name()
	}
	return ""
}

// devCall: a call of a device other than the write buffer.
func (c *syncCk) devCall(ci *CallInfo) bool {
	if ci.method != nil {
		return len(ci.args) > 0 && types.Identical(ci.method.Type().(*types.Signature).Recv().Type(), c.nvmI) ||
			ci.recv != nil && ci.recv.t != nil && types.Identical(types.Unalias(ci.recv.t), c.nvmI)
	}
	if n := recvNamed(ci.fn); n != nil && c.isDevice(n) && (c.buf == nil || n.Obj() != c.buf.Obj()) {
		return true
	}
	return false
}

// device: any call of a device succeeds or fails.
func (c *syncCk) device(e *Engine, st *State, ci *CallInfo) []Outcome {
	rs := ci.sig.Results()
	if !lastIsError(ci.sig) {
		return []Outcome{{st, e.freshResults(st, ci)}}
	}
	fl := st.clone()
	ok := e.freshResults(st, ci)
	bad := e.freshResults(fl, ci)
	n := rs.Len() - 1
	ok[n] = theNil
	bad[n] = e.newErr(fl, ci.site, ".err")
	switch callee(ci) {
	case "GetSnapshotReader":
		st.facts[ok[0]] = Fact{nilness: 2}
	}
	return []Outcome{{st, ok}, {fl, bad}}
}

// clean: nothing is left in the buffer b.
func (c *syncCk) clean(e *Engine, st *State, b *V) bool {
	s := structOf(c.buf)
	base, path := splitPtr(b)
	get := func(i int) *V {
		return e.loadLoc(st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
	}
	if e.decide(st, get(c.dirty)) == 2 {
		return true
	}
	_, ln, ok := c.bytesOf(e, st, get(c.pend))
	return ok && e.numEq(st, ln, mkInt(0, ln.t))
}

func (c *syncCk) hooks(e *Engine, where string) {
	P, r := c.P, c.r
	base := e.H.Call
	creating := map[*ssa.Function]bool{}
	for _, f := range P.fnsWith(func(s *types.Signature) bool {
		return s.Recv() == nil && s.Results().Len() == 2 && strings.HasSuffix(s.Results().At(0).Type().String(), "nvm.BackingFile")
	}) {
		creating[f] = true
	}
	creating = P.reaching(creating)
	settle := func(st *State) {
		if b, ok := st.flags["buf"]; ok && st.flag("flushed") == "" && c.clean(e, st, b) {
			st.setFlag("flushed", "1")
		}
	}
	e.H.NoInline = func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Name() == "metrics"
	}
	e.H.Enter = func(e *Engine, st *State, fn *ssa.Function, args []*V) {
		if n := recvNamed(fn); n != nil && n.Obj() == c.buf.Obj() && len(args) > 0 {
			st.setVal("buf", args[0])
		}
	}
	e.H.Leave = func(e *Engine, st *State, fn *ssa.Function, ret []*V) {
		if n := recvNamed(fn); n != nil && n.Obj() == c.buf.Obj() {
			settle(st)
		}
	}
	e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
		if b, ok := v.boolConst(); ok && b && isBool(v.t) && fieldKey(l.base, l.path) == c.dirtyKey() {
			st.setFlag("flushed", "")
			st.setFlag("durable", "")
		}
	}
	e.H.Value = func(e *Engine, st *State, i ssa.Value, v *V) {
		if u, ok := i.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && staticFieldKey(fa) == c.open {
				st.setVal("openV", v)
			}
		}
	}
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if outs, ok := lockHandler(e, st, ci, func(rule, msg string) {}, nil, nil); ok {
			return outs, true
		}
		if !c.devCall(ci) {
			if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Name() == "nvm" && creating[ci.fn] {
				goto create
			}
			return base(e, st, ci)
		}
		switch callee(ci) {
		case "Sync":
			settle(st)
			outs := c.device(e, st, ci)
			if outs[0].st.flag("flushed") != "" {
				outs[0].st.setFlag("durable", "1")
			}
			return outs, true
		case "Close":
			if st.flag("durable") == "" {
				r.Add("sync-before-close", where, P.pos(ci.site), "the device is closed before the journal was flushed and the device synced", st.trailMsgs())
			} else {
				r.Ok("sync-before-close", where)
			}
		}
		if ci.fn == nil || !creating[ci.fn] {
			return c.device(e, st, ci), true
		}
	create:
		if st.flag("durable") == "" {
			r.Add("sync-before-snapshot", where, P.pos(ci.site), "a snapshot is made before the journal was flushed and the device synced", st.trailMsgs())
		} else {
			r.Ok("sync-before-snapshot", where)
		}
		return c.device(e, st, ci), true
	}
}

func (c *syncCk) dirtyKey() string {
	return shorten(c.buf.Obj().Pkg().Path()) + "." + c.buf.Obj().Name() + "." + structOf(c.buf).Field(c.dirty).Name()
}

// operations of the store, and of the buffer itself.
func (c *syncCk) operation(f *ssa.Function, snapshot bool) {
	P, r := c.P, c.r
	where := fname(f)
	_, e := newCodec(P)
	c.hooks(e, where)
	st := newState()
	var args, keep []*V
	for i, p := range f.Params {
		a := mkSym("arg."+p.Name(), p.Type())
		if i == 0 {
			st.facts[a] = Fact{nilness: 2}
		}
		args = append(args, a)
		keep = append(keep, a)
	}
	st.flags["keep"] = mkTuple(keep...)
	n := 0
	for _, o := range e.Run(f, st, args, nil) {
		if v, ok := o.st.flags["openV"]; ok && e.decide(o.st, v) == 2 {
			continue // the store is closed
		}
		if k := len(o.ret); k > 0 && isError(f.Signature.Results().At(k-1).Type()) && !e.isNil(o.st, o.ret[k-1]) {
			if e.notNilV(o.st, o.ret[k-1]) {
				continue
			}
		}
		n++
		if o.st.flag("durable") != "" {
			r.Ok("durable", where)
		} else {
			r.Add("durable", where, P.pos(f), "can return normally although the journal's buffer was not flushed, or the device not synced after that", o.st.trailMsgs())
		}
	}
	if n == 0 {
		r.Add("durable", where, P.pos(f), "no path returns normally", nil)
	}
	r.absorb(e)
}

// flush: the flag is only cleared after the whole buffer was written to its place,
// and it is set whenever the buffer took bytes.
func (c *syncCk) flags() {
	P, r := c.P, c.r
	s := structOf(c.buf)
	for _, f := range P.methodsOf(c.buf) {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || f.Blocks == nil {
			continue
		}
		where := fname(f)
		_, e := newCodec(P)
		st := newState()
		rec := e.symVal(st, "b", c.buf)
		recv := e.makeRecv(st, "buffer", types.NewPointer(c.buf), rec)
		c.nonNil(st, rec)
		args := []*V{recv}
		for _, p := range f.Params[1:] {
			args = append(args, mkSym("arg."+p.Name(), p.Type()))
		}
		st.flags["keep"] = mkTuple(append(args, rec)...)
		base := e.H.Call
		rbase, rpath := splitPtr(recv)
		field := func(st *State, i int) *V {
			return e.loadLoc(st, nil, rbase, rpath+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		e.H.NoInline = func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() == "metrics" }
		e.H.Copy = func(e *Engine, st *State, site ssa.Instruction, dst, src *V) {
			dp, _, _ := e.sliceParts(st, dst)
			sp, _, _ := e.sliceParts(st, src)
			p, _, ok := c.bytesOf(e, st, field(st, c.pend))
			if !ok || !sameBase(p, dp) {
				return
			}
			// bytes moved from where the buffer was are no change
			if b, _ := splitPtr(sp); st.flags["moved:"+b.String()] == b {
				b, _ := splitPtr(p)
				st.setVal("moved:"+b.String(), b)
			} else if !sameBase(p, sp) {
				st.setFlag("changed", "1")
			}
		}
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if !c.devCall(ci) {
				return base(e, st, ci)
			}
			switch callee(ci) {
			case "Seek":
				st.setVal("at", nil)
				if k, ok := ci.args[2].intConst(); ok && k == 0 {
					st.setVal("at", mkTuple(ci.args[1]))
				}
				delete(st.flags, "wrote")
			case "Write", "WriteAt":
				if len(ci.args) > 2 {
					st.setVal("at", mkTuple(ci.args[2]))
				}
				outs := c.device(e, st, ci)
				at, hasAt := st.flags["at"]
				o := outs[0].st
				p, ln, ok := c.bytesOf(e, o, field(o, c.pend))
				wp, _, wl := e.sliceParts(o, ci.args[1])
				if ok && hasAt && wp == p && e.numEq(o, wl, ln) && e.numEq(o, mkConvTo(at.args[0], tU64()), field(o, c.where)) {
					o.setFlag("wrote", "1")
				}
				if debugCounts {
					fmt.Println("WRITE", where, o.flag("wrote"), wp, p, wl, ln, at, field(o, c.where))
				}
				delete(o.flags, "at")
				return outs, true
			}
			return c.device(e, st, ci), true
		}
		e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
			if !isBool(v.t) || fieldKey(l.base, l.path) != c.dirtyKey() {
				return
			}
			if b, ok := v.boolConst(); !ok || b {
				return
			}
			if st.flag("wrote") != "" || e.decide(st, field(st, c.dirty)) == 2 {
				r.Ok("clean-after-write", where)
			} else {
				r.Add("clean-after-write", where, P.pos(site), "the buffer is marked clean although its bytes were not all written to their place", st.trailMsgs())
			}
		}
		if p, _, ok := c.bytesOf(e, st, field(st, c.pend)); ok && p != nil {
			b, _ := splitPtr(p)
			st.setVal("moved:"+b.String(), b)
		}
		for _, o := range e.Run(f, st, args, nil) {
			if o.st.flag("changed") == "" {
				continue
			}
			if e.decide(o.st, field(o.st, c.dirty)) == 1 {
				r.Ok("dirty-after-change", where)
			} else {
				r.Add("dirty-after-change", where, P.pos(f), "bytes were put into the buffer but it is not marked dirty", o.st.trailMsgs())
			}
		}
		r.absorb(e)
	}
}

// devices: Sync reaches the system call for every file.
func (c *syncCk) devices() {
	P, r := c.P, c.r
	fileIn := func(n *types.Named) bool {
		s := structOf(n)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Type().String() == "*os.File" {
				return true
			}
		}
		return false
	}
	for _, t := range P.implementers("nvm.NonVolatileMemory") {
		if p, ok := underPtr(t); ok {
			t = p
		}
		n, _ := types.Unalias(t).(*types.Named)
		if n == nil || structOf(n) == nil || c.buf != nil && n.Obj() == c.buf.Obj() {
			continue
		}
		f := P.methodOf(n, "Sync")
		if f == nil || f.Blocks == nil {
			r.Add("device-sync", n.Obj().Name(), "-", "no Sync", nil)
			continue
		}
		// the types with a file that hang below the device
		need := map[string]bool{}
		var visit func(n *types.Named, seen map[*types.Named]bool)
		visit = func(n *types.Named, seen map[*types.Named]bool) {
			if seen[n] {
				return
			}
			seen[n] = true
			if fileIn(n) {
				need[n.Obj().Name()] = true
			}
			s := structOf(n)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if p, ok := underPtr(s.Field(i).Type()); ok {
					if m, ok := types.Unalias(p).(*types.Named); ok && m.Obj().Pkg() != nil && m.Obj().Pkg() == n.Obj().Pkg() {
						visit(m, seen)
					}
				}
			}
		}
		visit(n, map[*types.Named]bool{})
		where := fname(f)
		_, e := newCodec(P)
		base := e.H.Call
		done := func(st *State, site ssa.Instruction, file *V) {
			if k := fileOwner(file); k != "" {
				st.setFlag("sync:"+k, "1")
			}
		}
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if outs, ok := lockHandler(e, st, ci, func(rule, msg string) {}, nil, nil); ok {
				return outs, true
			}
			two := func(file *V) []Outcome {
				fl := st.clone()
				er := e.newErr(fl, ci.site, ".err")
				done(st, ci.site, file)
				return []Outcome{{st, []*V{theNil}}, {fl, []*V{er}}}
			}
			switch ci.name {
			case "(*os.File).Sync":
				return two(ci.args[0]), true
			case "(*os.File).Fd":
				return []Outcome{{st, []*V{mkApp("fd", ci.sig.Results().At(0).Type(), ci.args[0])}}}, true
			case "syscall.Fdatasync", "syscall.Fsync":
				v := ci.args[0]
				for v.k == KConv || v.k == KAs {
					v = v.args[0]
				}
				if v.k == KApp && v.name == "fd" {
					return two(v.args[0]), true
				}
				return two(theNil), true
			}
			return base(e, st, ci)
		}
		st := newState()
		recv := mkSym("device", types.NewPointer(n))
		st.facts[recv] = Fact{nilness: 2}
		st.flags["keep"] = mkTuple(recv)
		e.H.Value = func(e *Engine, st *State, i ssa.Value, v *V) {
			if p, ok := underPtr(v.t); ok {
				if m, ok := types.Unalias(p).(*types.Named); ok && need[m.Obj().Name()] && m != n {
					st.setVal("ptr:"+m.Obj().Name(), v)
				}
			}
		}
		for _, o := range e.Run(f, st, []*V{recv}, nil) {
			if len(o.ret) == 0 || !e.isNil(o.st, o.ret[len(o.ret)-1]) && e.notNilV(o.st, o.ret[len(o.ret)-1]) {
				continue
			}
			for k := range need {
				if o.st.flag("sync:"+k) != "" {
					r.Ok("device-sync", where+" "+k)
					continue
				}
				if v, ok := o.st.flags["ptr:"+k]; ok && e.isNil(o.st, v) {
					r.Ok("device-sync", where+" without "+k)
					continue
				}
				r.Add("device-sync", where+" "+k, P.pos(f), "can return success without syncing the file of "+k, o.st.trailMsgs())
			}
			if len(need) == 0 {
				r.Ok("device-sync", where+" (memory)")
			}
		}
		r.absorb(e)
	}
}

// fileOwner: the type whose field this file is.
func fileOwner(v *V) string {
	if v == nil || v.k != KInit && v.k != KSym {
		return ""
	}
	if v.k == KInit {
		k := fieldKey(v.args[0], v.name)
		if i := strings.LastIndex(k, "."); i >= 0 {
			k = k[:i]
			return k[strings.LastIndex(k, ".")+1:]
		}
	}
	return ""
}

func (P *Program) methodOf(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return P.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (P *Program) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		out = append(out, P.prog.FuncValue(n.Method(i)))
	}
	return out
}

func init() {
	checks["C05"] = func(P *Program, r *Report) {
		r.Explanation = "typestate analysis over SSA: the journal's write buffer is clean when the device is told to sync, on every normal return of sync, close and snapshot creation; every device's Sync reaches the system call for each of its files"
		r.Assumptions = []string{"Fdatasync and Fsync make the file durable", "a sync that fails ends in an error or a panic (C01)"}
		c := &syncCk{P: P, r: r, nvmI: P.named("nvm.NonVolatileMemory")}
		c.open = NewStoreClient(P, "C05").openedKey
		if c.nvmI == nil || c.open == "" || !c.findBuffer() {
			r.Add("durable", "write buffer", "-", fmt.Sprintf("the write buffer of the journal was not found (%v %s %d %d)", c.buf, c.open, c.pend, c.where), nil)
			return
		}
		for _, f := range P.methods("storage.Storage") {
			switch f.Name() {
			case "Sync", "Close", "CreateSnapshot", "GetSnapshotReader":
				c.operation(f, false)
			}
		}
		for _, f := range P.methodsOf(c.buf) {
			switch f.Name() {
			case "Sync", "Close":
				c.operation(f, false)
			}
		}
		c.flags()
		c.devices()
		r.Need("durable", 6)
		r.Need("sync-before-close", 1)
		r.Need("sync-before-snapshot", 2)
		r.Need("clean-after-write", 1)
		r.Need("dirty-after-change", 1)
		r.Need("device-sync", 3)
	}
}
