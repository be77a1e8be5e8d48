package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C13, opening: the log starts at the position in its header, the scan starts
// there, and a store is put together from one header, index, journal and
// allocator.

// scanStart: an iterator that moves a position begins to read there.
func (c *replayCk) scanStart(moves map[string]int) {
	P, r := c.P, c.r
	n := 0
	for _, f := range P.funcs {
		s := f.Signature
		if s.Recv() == nil || f.Synthetic != "" || f.Blocks == nil || s.Params().Len() != 0 || s.Results().Len() != 1 || recvNamed(f) == nil || recvNamed(f).Obj() != c.ring.Obj() {
			continue
		}
		t := s.Results().At(0).Type()
		if p, ok := underPtr(t); ok {
			t = p
		}
		it, _ := types.Unalias(t).(*types.Named)
		if it == nil {
			continue
		}
		fld, ok := moves[it.Obj().Name()]
		if !ok {
			continue
		}
		where := fname(f)
		r.Funcs[where] = true
		_, e := newCodec(P)
		st, recv, rec, _ := c.state(e)
		want := fieldOf(rec, fld)
		if fld != c.head {
			// a scan that moves the tail is made when the log is opened
			e.assume(st, mkEq(fieldOf(rec, c.head), want), true)
		}
		base := e.H.Call
		e.H.NoInline = c.opaque
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if callee(ci) == "Seek" && len(ci.args) > 0 {
				a := ci.args[len(ci.args)-2:]
				if k, ok := a[1].intConst(); ok && k == 0 {
					addLog(st, mkConvTo(a[0], tU64()))
				} else {
					addLog(st, mkSym("?", tU64()))
				}
				fl := st.clone()
				return []Outcome{{st, []*V{a[0], theNil}}, {fl, []*V{a[0], e.newErr(fl, ci.site, ".err")}}}, true
			}
			if lastIsError(ci.sig) && (ci.fn == nil || !c.P.inModule(ci.fn)) {
				ok := e.freshResults(st, ci)
				ok[len(ok)-1] = theNil
				if _, ptr := ok[0].t.Underlying().(*types.Interface); ptr {
					st.facts[ok[0]] = Fact{nilness: 2}
				}
				return []Outcome{{st, ok}}, true
			}
			return base(e, st, ci)
		}
		for _, o := range e.Run(f, st, []*V{recv}, nil) {
			n++
			l := logOf(o.st)
			if len(l) == 0 || !e.numEq(o.st, l[len(l)-1].args[0], want) {
				c.fail("scan-start", where, f, o.st, "the scan does not begin at the position that it moves")
				continue
			}
			if !reachable(o.st, o.ret)[recv] && !holdsPtr(o.st, o.ret[0], recv) {
				c.fail("scan-start", where, f, o.st, "the scan is of another log")
				continue
			}
			r.Ok("scan-start", where)
		}
		r.absorb(e)
	}
}

func holdsPtr(st *State, v, p *V) bool {
	if v == p {
		return true
	}
	for _, a := range v.args {
		if holdsPtr(st, a, p) {
			return true
		}
	}
	return false
}

// openLog: the positions of a log that is opened are the one in the header.
func (c *replayCk) openLog() {
	P, r := c.P, c.r
	nvmI := P.named("nvm.NonVolatileMemory")
	region := c.regionType()
	if region == nil {
		r.Add("open-log", "storage/journal", "-", "the journal with the log was not found", nil)
		return
	}
	for _, f := range c.openers() {
		where := fname(f)
		r.Funcs[where] = true
		_, e := newCodec(P)
		st := newState()
		dev := e.symVal(st, "device", nvmI)
		st.facts[dev] = Fact{nilness: 2}
		bs := e.symVal(st, "blocksize", P.named("block.BlockSize"))
		st.flags["keepdev"] = mkTuple(dev, bs)
		base := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch {
			case callee(ci) == "BlockSize" && len(ci.args) <= 1:
				return []Outcome{{st, []*V{bs}}}, true
			case callee(ci) == "AsU16" && len(ci.args) == 1 && ci.args[0] == bs:
				v := mkInt(512, types.Typ[types.Uint16])
				return []Outcome{{st, []*V{v}}}, true
			case callee(ci) == "Split":
				a := ci.args[len(ci.args)-1]
				ok := e.freshResults(st, ci)
				for _, v := range ok[:2] {
					st.facts[v] = Fact{nilness: 2}
				}
				fl := st.clone()
				ok[2] = theNil
				d := ci.recv
				if d == nil {
					d = ci.args[0]
				}
				addLog(st, mkStr("split"), d, a, ok[0], ok[1])
				return []Outcome{{st, ok}, {fl, append(e.freshResults(fl, ci)[:2], e.newErr(fl, ci.site, ".err"))}}, true
			case ci.fn != nil && P.inModule(ci.fn) && ci.fn.Signature.Params().Len() == 0 && ci.fn.Signature.Recv() != nil && results(ci.sig, isUint64, isError):
				ok := e.freshResults(st, ci)
				ok[1] = theNil
				fl := st.clone()
				addLog(st, mkStr("header"), ci.args[0], ok[0])
				return []Outcome{{st, ok}, {fl, []*V{mkU64(0), e.newErr(fl, ci.site, ".err")}}}, true
			}
			return base(e, st, ci)
		}
		n := 0
		for _, o := range e.Run(f, st, []*V{dev}, nil) {
			if !e.isNil(o.st, o.ret[1]) {
				continue
			}
			n++
			var split, hdr *V
			for _, x := range logOf(o.st) {
				switch x.args[0].strConst() {
				case "split":
					split = x
				case "header":
					hdr = x
				}
			}
			if split == nil || split.args[1] != dev || !e.numEq(o.st, mkConvTo(split.args[2], tU64()), mkU64(512)) {
				c.fail("open-log", where, f, o.st, "the journal is not split after its first block")
				continue
			}
			if hdr == nil || !reachable(o.st, hdr.args[1:2])[split.args[3]] {
				c.fail("open-log", where, f, o.st, "the header of the journal is not read from its first block")
				continue
			}
			ring := c.partOf(e, o.st, o.ret[0], region, c.ring)
			if ring == nil {
				c.fail("open-log", where, f, o.st, "the journal has no log")
				continue
			}
			bad := false
			for _, i := range []int{c.tail, c.head, c.unrel} {
				if v := c.field(e, o.st, ring, i); !e.numEq(o.st, v, hdr.args[2]) {
					c.fail("open-log", where, f, o.st, "%s of the log is %s when it is opened, the header says %s", structOf(c.ring).Field(i).Name(), v, hdr.args[2])
					bad = true
				}
			}
			s := structOf(c.ring)
			d := c.field(e, o.st, ring, c.dev)
			if s != nil && !reachable(o.st, []*V{d})[split.args[4]] {
				c.fail("open-log", where, f, o.st, "the log is not on the second part of the journal")
				bad = true
			}
			// the header that is written later is the one that was read
			if ht := recvTypeOf(hdr.args[1]); ht != nil {
				if h := c.partOf(e, o.st, o.ret[0], region, ht); h != nil && h != hdr.args[1] {
					c.fail("open-log", where, f, o.st, "the journal keeps another header than the one that was read")
					bad = true
				}
			}
			if !bad {
				r.Ok("open-log", where)
			}
		}
		if n == 0 {
			c.fail("open-log", where, f, nil, "never succeeds")
		}
		r.absorb(e)
	}
}

func recvTypeOf(v *V) *types.Named {
	t := v.t
	if t == nil {
		return nil
	}
	if p, ok := underPtr(t); ok {
		t = p
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// partOf: the field of type part (or pointer to it) of the object at p.
func (c *replayCk) partOf(e *Engine, st *State, p *V, owner, part *types.Named) *V {
	s := structOf(owner)
	base, path := splitPtr(p)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if q, ok := underPtr(t); ok {
			t = q
		}
		if n, _ := types.Unalias(t).(*types.Named); n != nil && n.Obj() == part.Obj() {
			return e.loadLoc(st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
		}
	}
	return nil
}

// regionType: the type that holds the log.
func (c *replayCk) regionType() *types.Named {
	for _, f := range c.openers() {
		if p, ok := underPtr(f.Signature.Results().At(0).Type()); ok {
			n, _ := types.Unalias(p).(*types.Named)
			return n
		}
	}
	return nil
}

// openers make a journal of a device.
func (c *replayCk) openers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.funcs {
		s := f.Signature
		if s.Recv() != nil || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" || s.Params().Len() != 1 || s.Results().Len() != 2 || !isError(s.Results().At(1).Type()) || !tyIs(s.Params().At(0).Type(), "nvm.NonVolatileMemory") {
			continue
		}
		p, ok := underPtr(s.Results().At(0).Type())
		if !ok || structOf(p) == nil {
			continue
		}
		for i := 0; i < structOf(p).NumFields(); i++ {
			t := structOf(p).Field(i).Type()
			if q, ok := underPtr(t); ok {
				t = q
			}
			if n, _ := types.Unalias(t).(*types.Named); n != nil && n.Obj() == c.ring.Obj() {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// openStore: what the parts of an opened store are made of.
func (c *replayCk) openStore() {
	P, r := c.P, c.r
	storeT, hdrT, jT := P.named("storage.Storage"), P.named("nvm.StorageHeader"), c.regionType()
	if storeT == nil || hdrT == nil || jT == nil {
		r.Add("open-store", "storage.Storage", "-", "the store was not found", nil)
		return
	}
	nvmI := P.named("nvm.NonVolatileMemory")
	isDev := func(t types.Type) bool {
		return types.Implements(t, nvmI.Underlying().(*types.Interface))
	}
	// replay of the journal into an index
	replays := map[*ssa.Function]bool{}
	for f := range c.mutates {
		if !c.appends[f] && c.pops(f) && hasIdx(c, f.Signature) && f.Parent() == nil {
			replays[f] = true
		}
	}
	makes := map[*ssa.Function]bool{} // gives a store
	for _, f := range P.funcs {
		s := f.Signature
		if f.Parent() == nil && s.Results().Len() == 2 && isError(s.Results().At(1).Type()) {
			if p, ok := underPtr(s.Results().At(0).Type()); ok && types.Identical(types.Unalias(p), storeT) && !P.helper(f) {
				makes[f] = true
			}
		}
	}
	over := P.reaching(replays)
	var roots []*ssa.Function
	for f := range makes {
		inner := false
		for g := range reachOf(P, f) {
			inner = inner || g != f && makes[g]
		}
		if !inner {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	for _, f := range roots {
		where := fname(f)
		if !over[f] {
			c.fail("open-store", where, f, nil, "a store is made without a replay of the journal")
			continue
		}
		r.Funcs[where] = true
		_, e := newCodec(P)
		st := newState()
		var args []*V
		for _, p := range f.Params {
			args = append(args, e.symVal(st, "arg."+p.Name(), p.Type()))
		}
		base := e.H.Call
		hasResult := func(s *types.Signature, n *types.Named) bool {
			for i := 0; i < s.Results().Len(); i++ {
				if p, ok := underPtr(s.Results().At(i).Type()); ok && types.Identical(types.Unalias(p), n) {
					return true
				}
			}
			return false
		}
		e.H.NoInline = func(g *ssa.Function) bool {
			n := recvNamed(g)
			if n != nil && isDev(types.NewPointer(n)) {
				return true
			}
			return n != nil && n.Obj() == c.idx.Obj()
		}
		give := func(e *Engine, st *State, ci *CallInfo, tag string, keep ...*V) ([]Outcome, bool) {
			ok := e.freshResults(st, ci)
			for _, v := range ok {
				if v.t != nil {
					switch v.t.Underlying().(type) {
					case *types.Pointer, *types.Interface:
						st.facts[v] = Fact{nilness: 2}
					}
				}
			}
			var outs []Outcome
			if n := len(ok); n > 0 && lastIsError(ci.sig) {
				fl := st.clone()
				bad := e.freshResults(fl, ci)
				bad[n-1] = e.newErr(fl, ci.site, ".err")
				ok[n-1] = theNil
				fl.setFlag("failed", tag)
				outs = append(outs, Outcome{fl, bad})
			}
			addLog(st, append(append([]*V{mkStr(tag)}, keep...), ok...)...)
			st.note(tag + " at " + P.pos(ci.site))
			return append([]Outcome{{st, ok}}, outs...), true
		}
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			s := ci.sig
			switch {
			case ci.fn != nil && replays[ci.fn]:
				a := append([]*V{}, ci.args...)
				return give(e, st, ci, "replay", a...)
			case ci.fn != nil && c.isOpener(ci.fn):
				return give(e, st, ci, "journal", ci.args[0])
			case hasResult(s, hdrT) && lastIsError(s):
				return give(e, st, ci, "header")
			case ci.fn != nil && recvNamed(ci.fn) != nil && recvNamed(ci.fn).Obj() == hdrT.Obj() && s.Results().Len() == 2 && isDev(s.Results().At(0).Type()) && isDev(s.Results().At(1).Type()):
				return give(e, st, ci, "split", ci.args[0], ci.args[1])
			case ci.fn != nil && recvNamed(ci.fn) != nil && recvNamed(ci.fn).Obj() == c.idx.Obj() && results(s, func(t types.Type) bool {
				sl, ok := t.Underlying().(*types.Slice)
				return ok && tyIs(sl.Elem(), "portion.DataPortion")
			}):
				return give(e, st, ci, "portions", ci.args[0])
			case ci.fn != nil && recvNamed(ci.fn) != nil && recvNamed(ci.fn).Obj() == c.idx.Obj() && c.mutates[ci.fn]:
				return give(e, st, ci, "change", ci.args[0])
			case len(ci.args) >= 3 && restoreSig(s):
				a := append([]*V{}, ci.args...)
				if ci.recv != nil && (len(a) == 0 || a[0] != ci.recv) && ci.method != nil {
					a = append([]*V{ci.recv}, a...)
				}
				return give(e, st, ci, "restore", a...)
			case callee(ci) == "BlockSize" && s.Params().Len() == 0:
				return give(e, st, ci, "blocksize")
			case s.Results().Len() > 0 && lastIsError(s) && s.Results().Len() == 2 && isDev(s.Results().At(0).Type()) && ci.fn != nil && P.inModule(ci.fn):
				a := append([]*V{}, ci.args...)
				return give(e, st, ci, "device", a...)
			}
			return base(e, st, ci)
		}
		e.H.Go = func(e *Engine, st *State, ci *CallInfo) {}
		n := 0
		for _, o := range e.Run(f, st, args, nil) {
			if o.st.flag("failed") != "" {
				if !e.isNil(o.st, o.ret[1]) {
					r.Ok("open-fails", where)
				} else {
					c.fail("open-fails", where, f, o.st, "a store is given although %s failed", o.st.flag("failed"))
				}
				continue
			}
			if !e.isNil(o.st, o.ret[1]) {
				continue
			}
			n++
			if why := c.wired(e, o.st, o.ret[0], storeT, hdrT, jT); why != "" {
				c.fail("open-store", where, f, o.st, "%s", why)
			} else {
				r.Ok("open-store", where)
			}
		}
		if n == 0 {
			c.fail("open-store", where, f, nil, "never succeeds")
		}
		r.absorb(e)
	}
}

func (c *replayCk) isOpener(f *ssa.Function) bool {
	for _, g := range c.openers() {
		if g == f {
			return true
		}
	}
	return false
}

func restoreSig(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if tyIs(s.Params().At(i).Type(), "block.BlockSize") {
			return s.Params().Len() >= 3
		}
	}
	return false
}

func (c *replayCk) wired(e *Engine, st *State, p *V, storeT, hdrT, jT *types.Named) string {
	ev := map[string]*V{}
	at := map[string]int{}
	for i, x := range logOf(st) {
		k := x.args[0].strConst()
		if ev[k] != nil && k != "blocksize" && k != "device" {
			return k + " is done twice"
		}
		ev[k], at[k] = x, i
	}
	for _, k := range []string{"header", "split", "journal", "replay", "portions", "restore"} {
		if ev[k] == nil {
			return "the store is opened without " + k
		}
	}
	if ev["change"] != nil {
		return "the index is changed besides the replay"
	}
	var hdr *V
	for _, v := range ev["header"].args[1:] {
		if q, ok := underPtr(v.t); ok && types.Identical(types.Unalias(q), hdrT) {
			hdr = v
		}
	}
	idx := c.partOf(e, st, p, storeT, c.idx)
	j := c.partOf(e, st, p, storeT, jT)
	h := c.partOf(e, st, p, storeT, hdrT)
	split := ev["split"].args // tag, header, device, journal, data
	switch {
	case h != hdr:
		return "the header of the store is not the one that was read"
	case split[1] != hdr:
		return "the regions are not those of the header"
	case ev["journal"].args[1] != split[3]:
		return "the journal is not opened on the journal's region"
	case j != ev["journal"].args[2]:
		return "the journal of the store is not the one that was opened"
	case ev["replay"].args[1] != j:
		return "another journal is replayed"
	case idx == nil || !containsV(ev["replay"].args[2:], idx):
		return "the journal is replayed into another index than the store's"
	case ev["portions"].args[1] != idx:
		return "the allocator is restored from another index"
	case at["portions"] < at["replay"]:
		return "the lumps are listed before the journal is replayed"
	}
	// the allocator
	re := ev["restore"].args
	al := re[1]
	list := ev["portions"].args[2]
	if !containsV(re[2:], list) {
		return "the allocator is not restored from the lumps of the index"
	}
	okCap, okBs := false, false
	base, path := splitPtr(hdr)
	hs := structOf(hdrT)
	for _, v := range re[2:] {
		for i := 0; i < hs.NumFields(); i++ {
			x := e.loadLoc(st, nil, base, path+"."+hs.Field(i).Name(), hs.Field(i).Type())
			if v == x && hs.Field(i).Name() == "DataRegionSize" {
				okCap = true
			}
			if v == x && tyIs(hs.Field(i).Type(), "block.BlockSize") {
				okBs = true
			}
		}
		if b := ev["blocksize"]; b != nil && b.args[1] == v {
			okBs = true
		}
	}
	if !okCap {
		return "the capacity of the allocator is not the size of the data region"
	}
	if !okBs {
		return "the block size of the allocator is neither the header's nor the device's"
	}
	// every part of the store that holds an allocator holds this one, and the
	// data region holds the data device
	var roots []*V
	ss := structOf(storeT)
	pb, pp := splitPtr(p)
	sawAlloc, sawDev, inner := false, false, false
	for i := 0; i < ss.NumFields(); i++ {
		v := e.loadLoc(st, nil, pb, pp+"."+ss.Field(i).Name(), ss.Field(i).Type())
		roots = append(roots, v)
		if isIfaceNamed(ss.Field(i).Type(), "DataPortionAlloc") {
			if !sameObj(st, v, al) {
				return "the allocator of the store is not the one that was restored"
			}
		}
		if reachable(st, []*V{v})[split[2]] || v == split[2] || sameObj(st, v, split[2]) {
			inner = true
		}
		// below
		if q, ok := underPtr(ss.Field(i).Type()); ok && structOf(q) != nil {
			qs := structOf(q)
			qb, qp := splitPtr(v)
			for k := 0; k < qs.NumFields(); k++ {
				ft := qs.Field(k).Type()
				if isIfaceNamed(ft, "DataPortionAlloc") {
					x := e.loadLoc(st, nil, qb, qp+"."+qs.Field(k).Name(), ft)
					if !sameObj(st, x, al) {
						return "the data region allocates with another allocator than the one that was restored"
					}
					sawAlloc = true
					for m := 0; m < qs.NumFields(); m++ {
						if isIfaceNamed(qs.Field(m).Type(), "NonVolatileMemory") {
							y := e.loadLoc(st, nil, qb, qp+"."+qs.Field(m).Name(), qs.Field(m).Type())
							if y != split[4] && !sameObj(st, y, split[4]) {
								return "the data region is not on the data's part of the device"
							}
							sawDev = true
						}
					}
				}
			}
		}
	}
	_ = roots
	if !sawAlloc || !sawDev {
		return "the data region with its allocator and device was not found in the store"
	}
	if !inner {
		return "the device of the store is not the one that was split"
	}
	return ""
}

func containsV(l []*V, v *V) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func isIfaceNamed(t types.Type, name string) bool {
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil {
		return false
	}
	_, ok := n.Underlying().(*types.Interface)
	return ok && n.Obj().Name() == name
}

// sameObj compares what is in an interface.
func sameObj(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	ta, va := unwrap(st, a)
	if ta != nil && va != nil {
		a = va
	}
	tb, vb := unwrap(st, b)
	if tb != nil && vb != nil {
		b = vb
	}
	return a == b
}
