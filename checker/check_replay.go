package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: replay applies what the running store applied.

type replayCk struct {
	*ringCk
	idx     *types.Named
	mutates map[*ssa.Function]bool // reaches a change of the index
	prim    map[*ssa.Function]bool // changes of the index that are compared
	appends map[*ssa.Function]bool // reaches an append
	noIn    map[*ssa.Function]bool
}

func (c *replayCk) setup() bool {
	P := c.P
	c.idx = P.named("lumpindex.LumpIndex")
	if c.idx == nil {
		return false
	}
	base := map[*ssa.Function]bool{}
	io := map[*ssa.Function]bool{}
	queue := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					if n, _ := types.Unalias(cc.Value.Type()).(*types.Named); n != nil && n.Obj().Name() == "NonVolatileMemory" {
						io[f] = true
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					continue
				}
				n := fname(g)
				if recvNamed(f) != nil && recvNamed(f).Obj() == c.idx.Obj() && strings.Contains(n, "judy") && (g.Name() == "Insert" || g.Name() == "Delete") {
					base[f] = true
				}
				if strings.Contains(n, "go-queue") {
					queue[f] = true
				}
				if strings.Contains(n, "readahead") || strings.HasPrefix(n, "bufio.") || strings.HasPrefix(n, "(*bufio.") {
					io[f] = true
				}
			}
		}
	}
	c.mutates = P.reaching(base)
	c.appends = P.reaching(map[*ssa.Function]bool{c.enq: true})
	c.prim = map[*ssa.Function]bool{}
	for f := range c.mutates {
		n := recvNamed(f)
		if n == nil || n.Obj() != c.idx.Obj() || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		// one that repeats another change is a change of its own
		calls := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				calls = calls || g != nil && g != f && c.mutates[g] && g.Object() != nil && g.Object().Exported() && recvNamed(g) != nil && recvNamed(g).Obj() == c.idx.Obj() && !onCycle(b)
			}
		}
		if !calls {
			c.prim[f] = true
		}
	}
	c.noIn = map[*ssa.Function]bool{}
	ioR := P.reaching(io)
	for f := range ioR {
		if !c.mutates[f] && !c.appends[f] {
			c.noIn[f] = true
		}
	}
	for f := range queue {
		c.noIn[f] = true
	}
	return len(c.prim) > 0
}

// onCycle: b may be executed again after itself.
func onCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(b)
}

func (c *replayCk) opaque(f *ssa.Function) bool {
	if c.noIn[f] {
		return true
	}
	n := recvNamed(f)
	return n != nil && n.Obj() == c.idx.Obj() && !c.mutates[f]
}

// change calls of the index are logged.
func (c *replayCk) indexHook(e *Engine, next func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool)) {
	base := e.H.Call
	e.H.NoInline = c.opaque
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && c.prim[ci.fn] {
			addLog(st, append([]*V{mkStr(ci.fn.Name())}, ci.args...)...)
			st.note(ci.fn.Name() + " at " + c.P.pos(ci.site))
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		if outs, ok := next(e, st, ci); ok {
			return outs, true
		}
		if strings.Contains(ci.name, "go-queue") {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		return base(e, st, ci)
	}
}

func hasIdx(c *replayCk, s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if p, ok := underPtr(s.Params().At(i).Type()); ok && types.Identical(types.Unalias(p), c.idx) {
			return true
		}
	}
	return false
}

func (c *replayCk) args(e *Engine, st *State, f *ssa.Function, kind types.Type) ([]*V, *V) {
	var args []*V
	var idx *V
	for _, p := range f.Params {
		if types.Identical(p.Type(), c.recI) {
			rv := e.symVal(st, "rec", kind)
			boundSlices(e, st, rv, kind)
			args = append(args, mkIface(kind, rv))
			continue
		}
		v := e.symVal(st, "arg."+p.Name(), p.Type())
		if q, ok := underPtr(p.Type()); ok {
			st.facts[v] = Fact{nilness: 2}
			if types.Identical(types.Unalias(q), c.idx) {
				idx = v
			}
		}
		if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8]) {
			e.assumeLe(st, e.lenOf(st, v), mkInt(65535, types.Typ[types.Int]))
		}
		args = append(args, v)
	}
	st.flags["keepargs"] = mkTuple(args...)
	return args, idx
}

// sameChange: for each append of the running store, the replay of the record
// makes the same change.
func (c *replayCk) sameChange() {
	P, r := c.P, c.r
	var roots, replays []*ssa.Function
	for _, f := range P.funcs {
		if f.Parent() != nil || f.Synthetic != "" || !c.mutates[f] || c.noIn[f] || !hasIdx(c, f.Signature) || f.Blocks == nil {
			continue
		}
		if c.appends[f] {
			roots = append(roots, f)
		} else if n := recvNamed(f); n == nil || n.Obj() != c.idx.Obj() {
			if c.pops(f) {
				replays = append(replays, f)
			}
		}
	}
	byName := func(l []*ssa.Function) {
		sort.Slice(l, func(i, j int) bool { return fname(l[i]) < fname(l[j]) })
	}
	byName(roots)
	byName(replays)
	if c.noEntries() == nil {
		r.Add("replay", "internalerror.NoEntries", "-", "the error that ends a scan was not found", nil)
		return
	}
	if len(replays) == 0 {
		r.Add("replay", "storage/journal", "-", "no code that replays the journal into an index was found", nil)
	}
	seen := map[string]bool{}
	for _, f := range roots {
		kinds := []types.Type{nil}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if types.Identical(f.Signature.Params().At(i).Type(), c.recI) {
				kinds = nil
				for _, k := range c.kinds {
					if !c.mark(k) {
						kinds = append(kinds, k)
					}
				}
			}
		}
		for _, k := range kinds {
			c.running(f, k, replays, seen)
		}
	}
	for _, k := range c.kinds {
		if !c.mark(k) && !seen[recName(k)] {
			r.Add("replay", recName(k), P.pos(c.enq), "no code that appends this record and changes the index was found", nil)
		}
	}
}

// pops: f takes entries from the log.
func (c *replayCk) pops(f *ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, g := range c.P.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && c.isPop(ci.Common().Signature()) {
					m[g] = true
				}
			}
		}
	}
	return c.P.reaching(m)[f]
}

func (c *replayCk) isPop(s *types.Signature) bool {
	return results(s, func(t types.Type) bool { return types.Identical(t, c.tEntry) }, isError)
}

func (c *replayCk) running(f *ssa.Function, kind types.Type, replays []*ssa.Function, seen map[string]bool) {
	_, e := newCodec(c.P)
	st := newState()
	args, idx := c.args(e, st, f, kind)
	S := e.symVal(st, "position", c.startType())
	e.assumeLe(st, mkAdd(mkConvTo(S, tU64()), mkU64(1<<20)), pow2(40))
	c.indexHook(e, func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != c.enq {
			return nil, false
		}
		rt, rv := unwrap(st, ci.args[1])
		if rt == nil {
			c.fail("replay", fname(f), f, st, "a record of unknown kind is appended")
			return nil, false
		}
		addLog(st, mkStr("append"), mkStr(recName(rt)), rv)
		fl := st.clone()
		ok := c.jportion(st, rt, rv, S)
		er := e.newErr(fl, ci.site, ".err")
		return []Outcome{{st, []*V{ok, theNil}}, {fl, []*V{zeroOf(c.tJP), er}}}, true
	})
	c.r.Funcs[fname(f)] = true
	for _, o := range e.Run(f, st, args, nil) {
		k := len(o.ret)
		if k > 0 && !e.isNil(o.st, o.ret[k-1]) {
			continue
		}
		l := logOf(o.st)
		if len(l) == 0 || l[0].args[0].strConst() != "append" {
			continue
		}
		name := l[0].args[1].strConst()
		for _, kt := range c.kinds {
			if recName(kt) == name {
				seen[name] = true
				for _, rp := range replays {
					c.replay(f, rp, kt, l[0].args[2], S, l[1:], idx, o.st)
				}
			}
		}
	}
	c.r.absorb(e)
}

func (c *replayCk) startType() types.Type {
	s := structOf(c.tEntry)
	for i := 0; i < s.NumFields(); i++ {
		if tyIs(s.Field(i).Type(), "address.Address") {
			return s.Field(i).Type()
		}
	}
	return tU64()
}

func (c *replayCk) entry(S, rec *V) *V {
	s := structOf(c.tEntry)
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), c.recI) {
			fs = append(fs, rec)
		} else {
			fs = append(fs, S)
		}
	}
	return mkStruct(c.tEntry, fs)
}

// replay of a log with this one record.
func (c *replayCk) replay(run, rp *ssa.Function, kind types.Type, rec, S *V, want []*V, runIdx *V, st0 *State) {
	P := c.P
	where := fname(rp) + " of " + recName(kind)
	_, e := newCodec(P)
	st := st0.clone()
	delete(st.flags, "log")
	args, idx := c.args(e, st, rp, nil)
	st.flags["keepwant"] = mkTuple(append([]*V{rec, S, runIdx}, want...)...)
	none := c.noEntries()
	c.indexHook(e, func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if c.isPop(ci.sig) {
			switch st.flag("popped") {
			case "":
				st.setFlag("popped", "1")
				return []Outcome{{st, []*V{c.entry(S, mkIface(kind, rec)), theNil}}}, true
			default:
				st.setFlag("popped", "2")
				er := e.loadLoc(st, nil, in.mk(V{k: KGlobal, g: none, t: none.Type()}), "", none.Type().(*types.Pointer).Elem())
				fl := st.clone()
				fl.setFlag("popped", "err")
				fl.note("reading the next record fails at " + P.pos(ci.site))
				return []Outcome{{st, []*V{zeroOf(c.tEntry), er}}, {fl, []*V{zeroOf(c.tEntry), e.newErr(fl, ci.site, ".err")}}}, true
			}
		}
		return nil, false
	})
	e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {
		if st.flag("popped") != "" {
			c.r.Add("replay", where, P.pos(site), "replaying a record that the store writes panics", st.trailMsgs())
		}
	}
	n := 0
	for _, o := range e.Run(rp, st, args, nil) {
		if k := len(o.ret); k > 0 && isError(o.ret[k-1].t) && !e.isNil(o.st, o.ret[k-1]) || k > 0 && !e.isNil(o.st, o.ret[k-1]) {
			if o.st.flag("popped") == "1" {
				c.fail("replay", where, rp, o.st, "the replay of a record that the store writes fails")
			}
			continue
		}
		if o.st.flag("popped") == "err" {
			c.fail("replay", where, rp, o.st, "the replay succeeds although a record cannot be read")
			continue
		}
		if o.st.flag("popped") != "2" {
			c.fail("replay", where, rp, o.st, "the replay ends before the end of the journal")
			continue
		}
		n++
		got := logOf(o.st)
		why := c.diff(e, o.st, want, got, runIdx, idx)
		if why == "" {
			c.r.Ok("replay", where+" as "+fname(run))
		} else {
			c.fail("replay", where, rp, o.st, "differs from %s: %s", fname(run), why)
		}
	}
	if n == 0 {
		c.fail("replay", where, rp, nil, "no path of the replay accepts the record")
	}
	c.r.absorb(e)
}

func (c *replayCk) diff(e *Engine, st *State, want, got []*V, runIdx, idx *V) string {
	if len(want) != len(got) {
		return fmt.Sprintf("the running store makes %d changes of the index, the replay %d", len(want), len(got))
	}
	for i := range want {
		w, g := want[i].args, got[i].args
		if w[0].strConst() != g[0].strConst() || len(w) != len(g) {
			return fmt.Sprintf("the running store calls %s, the replay %s", w[0].strConst(), g[0].strConst())
		}
		if w[1] != runIdx || g[1] != idx {
			return "another index is changed"
		}
		for j := 2; j < len(w); j++ {
			t := w[j].t
			if t == nil {
				t = g[j].t
			}
			if ok, at := e.valEq(st, w[j], g[j], t); !ok {
				return fmt.Sprintf("argument %d%s of %s is %s in the running store and %s in the replay", j-1, at, w[0].strConst(), w[j], g[j])
			}
		}
	}
	return ""
}

// noEntries: the error that ends a scan.
func (c *replayCk) noEntries() *ssa.Global { return c.P.global("internalerror.NoEntries") }

// positions: the log remembers where it put a record, and a scan finds it there.
func (c *replayCk) positions() {
	P, r := c.P, c.r
	for _, bs := range []int64{512, 4096} {
		c.bs = bs
		for _, kind := range c.kinds {
			if c.mark(kind) {
				continue
			}
			_, e := newCodec(P)
			st, recv, _, capacity := c.state(e)
			rv := e.symVal(st, "rec", kind)
			boundSlices(e, st, rv, kind)
			st.flags["keeprec"] = rv
			c.ringCk.bad = nil
			c.hooks(e, capacity)
			where := fname(c.enq) + " of " + recName(kind)
			r.Funcs[fname(c.enq)] = true
			n := 0
			for _, o := range e.Run(c.enq, st, []*V{recv, mkIface(kind, rv)}, nil) {
				if !e.isNil(o.st, o.ret[1]) {
					continue
				}
				n++
				// the last writes: the record, then the end mark behind it
				l := logOf(o.st)
				var ws []*V
				for _, x := range l {
					if x.args[0].strConst() == "write" {
						ws = append(ws, x)
					}
				}
				if len(ws) < 2 || ws[len(ws)-2].args[1].strConst() != recName(kind) || ws[len(ws)-1].args[1].strConst() != recName(c.tEnd) {
					c.fail("append", where, c.enq, o.st, "a successful append does not end with the record and an end mark")
					continue
				}
				w, end := ws[len(ws)-2], ws[len(ws)-1]
				pos, size := w.args[2], w.args[3]
				if ok, at := e.valEq(o.st, w.args[4], rv, kind); !ok {
					c.fail("append", where, c.enq, o.st, "another record is written %s", at)
				}
				if !e.numEq(o.st, end.args[2], mkAdd(pos, size)) {
					c.fail("append", where, c.enq, o.st, "the end mark is not behind the record")
				}
				if !e.numEq(o.st, c.field(e, o.st, recv, c.tail), mkAdd(pos, size)) {
					c.fail("append", where, c.enq, o.st, "the next record will not be behind this one")
				} else {
					r.Ok("append", where)
				}
				if len(ws) > 2 {
					// a jump to the front
					if ws[0].args[1].strConst() == recName(c.tEnd) && ws[1].args[1].strConst() == recName(c.tFront) && len(ws) == 4 &&
						e.numEq(o.st, ws[0].args[2], mkU64(0)) && e.numEq(o.st, pos, mkU64(0)) {
						r.Ok("jump", where)
					} else {
						c.fail("append", where, c.enq, o.st, "the jump to the front is not written as end mark at the front, jump mark, record at the front")
					}
				}
				if types.Identical(kind, c.tEmbed) {
					want := c.jportion(o.st, kind, rv, pos)
					if ok, at := e.valEq(o.st, o.ret[0], want, c.tJP); ok {
						r.Ok("embed-position", where)
					} else {
						c.fail("embed-position", where, c.enq, o.st, "the location%s given for embedded data is %s, the data is written at %s", at, o.ret[0], want)
					}
				}
			}
			for _, b := range c.ringCk.bad {
				r.Add("append", where, P.pos(c.enq), b, nil)
			}
			if n == 0 {
				c.fail("append", where, c.enq, nil, "no append succeeds")
			}
			r.absorb(e)
		}
	}
	c.bs = 512
}

// scans: an iterator gives each record with the position it was read from, and
// the positions it keeps follow.
func (c *replayCk) scans() map[string]int {
	moves := map[string]int{}
	P := c.P
	readers := P.recordReaders()
	isRead := func(f *ssa.Function) bool {
		return f != nil && readers[f] && types.Identical(f.Signature.Results().At(0).Type(), c.recI)
	}
	var its []*ssa.Function
	for _, f := range P.funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Blocks == nil || !c.isPop(f.Signature) || recvNamed(f) == nil {
			continue
		}
		its = append(its, f)
	}
	sort.Slice(its, func(i, j int) bool { return fname(its[i]) < fname(its[j]) })
	for _, f := range its {
		for _, kind := range c.kinds {
			if !c.mark(kind) {
				if i := c.scan(f, kind, isRead); i >= 0 {
					moves[recvNamed(f).Obj().Name()] = i
				}
			}
		}
	}
	return moves
}

func (c *replayCk) scan(f *ssa.Function, kind types.Type, isRead func(*ssa.Function) bool) int {
	fld := -1
	P, r := c.P, c.r
	where := fname(f) + " of " + recName(kind)
	_, e := newCodec(P)
	st, ring, rec, capacity := c.state(e)
	n := recvNamed(f)
	iv := e.symVal(st, "iter", n)
	// its log
	s := structOf(n)
	found := false
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		v := fieldOf(iv, i)
		if p, ok := underPtr(s.Field(i).Type()); ok {
			st.facts[v] = Fact{nilness: 2}
			if types.Identical(types.Unalias(p), c.ring) {
				v, found = ring, true
			}
		} else if _, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
			st.facts[v] = Fact{nilness: 2}
		} else if isBool(s.Field(i).Type()) {
			v = mkBool(false)
		}
		fs = append(fs, v)
	}
	if !found {
		r.Add("scan", where, P.pos(f), "the iterator has no log", nil)
		return -1
	}
	iv = mkStruct(n, fs)
	recv := e.makeRecv(st, "itercell", f.Signature.Recv().Type(), iv)
	rv := e.symVal(st, "rec", kind)
	boundSlices(e, st, rv, kind)
	size := c.sizeOf(e, st, kind, rv)
	T, H := fieldOf(rec, c.tail), fieldOf(rec, c.head)
	// what is scanned is below the capacity
	e.assumeLe(st, mkAdd(T, size), capacity)
	e.assumeLe(st, mkAdd(H, size), capacity)
	e.assumeLe(st, size, mkU64(1<<17))
	st.flags["keepscan"] = mkTuple(iv, rv, rec, ring)
	base := e.H.Call
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if isRead(ci.fn) {
			var outs []Outcome
			give := func(t types.Type, v *V, what string) {
				s2 := st.clone()
				s2.setFlag("read", st.flag("read")+what)
				s2.note("reads " + recName(t) + " at " + P.pos(ci.site))
				outs = append(outs, Outcome{s2, []*V{mkIface(t, v), theNil}})
			}
			if h := st.flag("read"); strings.HasSuffix(h, "R") || strings.HasSuffix(h, "E") {
				c.fail("scan", where, f, st, "a record that was read is skipped")
				return nil, true
			}
			give(kind, rv, "R")
			give(c.tEnd, e.symVal(st, "end", c.tEnd), "E")
			if st.flag("read") == "" {
				give(c.tFront, e.symVal(st, "front", c.tFront), "F")
			}
			er := st.clone()
			er.setFlag("readerr", "1")
			outs = append(outs, Outcome{er, []*V{theNil, e.newErr(er, ci.site, ".err")}})
			return outs, true
		}
		if callee(ci) == "Seek" && len(ci.args) == 3 {
			if k, ok := ci.args[2].intConst(); ok && k == 0 && e.numEq(st, mkConvTo(ci.args[1], tU64()), mkU64(0)) {
				st.setFlag("read", st.flag("read")+"0")
			} else {
				st.setFlag("read", st.flag("read")+"?")
			}
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		return base(e, st, ci)
	}
	r.Funcs[fname(f)] = true
	moves := false
	for _, o := range e.Run(f, st, []*V{recv}, nil) {
		T2, H2 := c.field(e, o.st, ring, c.tail), c.field(e, o.st, ring, c.head)
		h := o.st.flag("read")
		if !e.isNil(o.st, o.ret[1]) {
			if o.st.flag("readerr") != "" {
				continue
			}
			// the end
			if h != "E" && h != "F0E" {
				c.fail("scan", where, f, o.st, "a scan ends although there are records left (%s)", h)
				continue
			}
			for i, p := range []*V{T2, H2} {
				old := []*V{T, H}[i]
				if e.numEq(o.st, p, old) || h == "F0E" && e.numEq(o.st, p, mkU64(0)) {
					r.Ok("scan-end", where)
				} else {
					c.fail("scan", where, f, o.st, "the position moves at the end mark")
				}
			}
			continue
		}
		if h != "R" && h != "F0R" {
			c.fail("scan", where, f, o.st, "an entry is given after reading %q: the jump to the front must be followed by a seek to the front", h)
			continue
		}
		es := structOf(c.tEntry)
		var start *V
		okRec := false
		for i := 0; i < es.NumFields(); i++ {
			x := fieldOf(o.ret[0], i)
			if types.Identical(es.Field(i).Type(), c.recI) {
				_, v := unwrap(o.st, x)
				if v != nil {
					okRec, _ = e.valEq(o.st, v, rv, kind)
				}
			} else {
				start = mkConvTo(x, tU64())
			}
		}
		if !okRec {
			c.fail("scan", where, f, o.st, "the entry does not hold the record that was read")
			continue
		}
		moved := false
		for i, p := range []*V{T2, H2} {
			old := []*V{T, H}[i]
			if h == "F0R" {
				old = mkU64(0)
			}
			if p == []*V{T, H}[i] {
				continue
			}
			moved = true
			fld = []int{c.tail, c.head}[i]
			if !e.numEq(o.st, start, old) {
				c.fail("scan", where, f, o.st, "the entry is said to start at %s, it was read at %s", start, old)
			} else if !e.numEq(o.st, p, mkAdd(old, size)) {
				c.fail("scan", where, f, o.st, "after the record at %s the position is %s", old, p)
			} else {
				r.Ok("scan", where)
			}
		}
		moves = moves || moved
		if moves && !moved {
			c.fail("scan", where, f, o.st, "the position does not follow the record")
		}
	}
	if moves {
		r.Ok("scan-moves", fname(f))
	}
	r.absorb(e)
	return fld
}

func init() {
	checks["C13"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of every append and of the replay on the same record, of the log's appends and scans, and of the construction of a store from its journal; the index changes, positions and objects are compared"
		r.Assumptions = []string{"records round-trip and their announced size is right (C10)", "the log holds at most one jump to the front between head and tail", "positions are below 2^40"}
		g := newRing(P, r)
		if g == nil {
			r.Add("append", "storage/journal", "-", "the log of records was not found", nil)
			return
		}
		c := &replayCk{ringCk: g}
		if !c.setup() {
			r.Add("replay", "lumpindex", "-", "the index of lumps was not found", nil)
			return
		}
		c.sameChange()
		c.positions()
		c.scanStart(c.scans())
		c.openLog()
		c.openStore()
		r.Need("scan-start", 2)
		r.Need("open-log", 1)
		r.Need("open-store", 1)
		r.Need("open-fails", 3)
		r.Need("replay", 4)
		r.Need("append", 8)
		r.Need("scan", 16)
		r.Need("scan-end", 16)
		r.Need("embed-position", 2)
	}
}
