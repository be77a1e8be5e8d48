package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: the superblock. Every place that writes a superblock is executed with
// arbitrary capacity and ratio; the header it writes is read back by the reader
// of the module and the regions it describes are computed and compared.

const hdrType = "nvm.StorageHeader"

type headerCk struct {
	P  *Program
	r  *Report
	nt *types.Named
	wr *ssa.Function // WriteHeaderRegionTo
	rd []*ssa.Function
}

func (c *headerCk) fieldSet(v *V, name string, x *V) *V {
	s := structOf(c.nt)
	fs := append([]*V(nil), v.args...)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			fs[i] = mkConvTo(x, s.Field(i).Type())
		}
	}
	return in.mk(V{k: KStruct, t: v.t, args: fs})
}

// versions are the constants the module gives a new header.
func (c *headerCk) template() *V {
	for _, f := range c.P.fnsWith(func(s *types.Signature) bool {
		if s.Params().Len() != 0 || s.Results().Len() != 1 {
			return false
		}
		p, ok := underPtr(s.Results().At(0).Type())
		return ok && types.Identical(p, c.nt)
	}) {
		_, e := newCodec(c.P)
		for _, o := range e.Run(f, newState(), nil, nil) {
			v := e.Load(o.st, nil, o.ret[0], c.nt)
			if v.k == KStruct {
				return v
			}
		}
	}
	return nil
}

// readBack writes the header and gives the bytes to the reader.
func (c *headerCk) readBack(where string, site interface{ Pos() tokenPos }, st *State, hdr *V, must bool) {
	P, r := c.P, c.r
	cd, e := newCodec(P)
	st = st.clone()
	W := mkSym("W", ioType(P, "Writer"))
	st.flags["w:W"] = mkTuple()
	// each field is a number of its own, equal to what was computed
	ft := structOf(c.nt)
	for i := 0; i < ft.NumFields(); i++ {
		t := ft.Field(i).Type()
		v := fieldOf(hdr, i)
		if v.k == KConst || v.k == KStruct {
			continue
		}
		if isInt(t) {
			x := mkSym("field."+ft.Field(i).Name(), t)
			e.assumeLe(st, x, v)
			e.assumeLe(st, v, x)
			st.flags["keep:"+x.name] = mkTuple(x, v)
			hdr = c.fieldSet(hdr, ft.Field(i).Name(), x)
		} else {
			fs := append([]*V(nil), hdr.args...)
			fs[i] = e.symVal(st, "field."+ft.Field(i).Name(), t)
			hdr = in.mk(V{k: KStruct, t: hdr.t, args: fs})
		}
	}
	st.flags["keep:hdr"] = hdr
	recv := e.makeRecv(st, "hdrcell", types.NewPointer(c.nt), hdr)
	st.flags["keep:cell"] = recv
	ok, accepted := true, 0
	fail := func(rule, msg string) {
		ok = false
		r.Add(rule, where, P.pos(site), msg, nil)
	}
	for _, o := range e.Run(c.wr, st, []*V{recv, W}, nil) {
		if !e.isNil(o.st, o.ret[0]) {
			fail("round-trip", "writing the superblock can fail although the writer does not")
			continue
		}
		ts := stoks(o.st, "w:W")
		rs := P.method(hdrType, "RegionSize")
		if rs != nil {
			for _, so := range e.Run(rs, o.st.clone(), []*V{recv}, nil) {
				if !e.same(so.st, so.ret[0], mkConvTo(e.sumLen(ts), tU64())) {
					fail("region-size", fmt.Sprintf("the superblock has %s bytes but its region has %s", e.sumLen(ts), so.ret[0]))
				}
			}
		}
		for _, rd := range c.rd {
			R := mkSym("R", ioType(P, "Reader"))
			s2 := o.st.clone()
			s2.flags["r:R"] = mkTuple(ts...)
			cd.bad = nil
			for _, ro := range e.Run(rd, s2, []*V{R}, nil) {
				if e.notNilV(ro.st, ro.ret[1]) {
					if must {
						if debugCounts {
							fmt.Println("REJECT", ro.st.trailMsgs(), dumpFacts(ro.st))
						}
						fail("accepted", fname(rd)+" can reject this superblock")
					}
					continue
				}
				accepted++
				v := ro.ret[0]
				if _, isP := underPtr(rd.Signature.Results().At(0).Type()); isP {
					v = e.Load(ro.st, nil, v, c.nt)
				}
				if eq, w := e.valEq(ro.st, hdr, v, c.nt); !eq {
					if debugCounts {
						fmt.Println("FIELD", w, hdr, v)
					}
					fail("round-trip", "field "+w+" is read back with another value by "+fname(rd))
				}
			}
			if len(cd.bad) > 0 {
				fail("round-trip", strings.Join(cd.bad, "; "))
			}
		}
	}
	if accepted == 0 {
		fail("round-trip", "nothing is read back")
	}
	if ok {
		r.Ok("round-trip", where)
		if must {
			r.Ok("accepted", where)
		}
	}
	r.absorb(e)
}

// regions: what the header describes, on a device of this capacity.
func (c *headerCk) regions(where string, site interface{ Pos() tokenPos }, st *State, hdr, capacity *V) {
	P, r := c.P, c.r
	_, e := newCodec(P)
	st = st.clone()
	u64 := func(n string) *V { return mkConvTo(fieldByName(hdr, c.nt, n), tU64()) }
	J, D := u64("JournalRegionSize"), u64("DataRegionSize")
	const hs = viewBlock // RegionSize for blocks of 512 bytes, see rule region-size
	bad := func(rule, msg string) { r.Add(rule, where, P.pos(site), msg, st.trailMsgs()) }
	if e.multiple(st, J, viewBlock) && e.multiple(st, D, viewBlock) {
		r.Ok("region-aligned", where)
	} else {
		if debugCounts {
			fmt.Println(dumpFacts(st))
		}
		bad("region-aligned", fmt.Sprintf("the regions of %s and %s bytes may not be whole blocks", J, D))
	}
	if capacity == nil {
		return
	}
	max := mkU64(1 << 62)
	if e.le(st, J, max) && e.le(st, D, max) && e.le(st, mkAdd(mkU64(hs), mkAdd(J, D)), capacity) {
		r.Ok("region-inside", where)
	} else {
		bad("region-inside", fmt.Sprintf("superblock, journal of %s and data of %s bytes may not fit the device of %s", J, D, capacity))
	}
	if e.le(st, mkU64(2*viewBlock), J) && e.le(st, mkU64(viewBlock), D) {
		r.Ok("region-room", where)
	} else {
		bad("region-room", fmt.Sprintf("the journal of %s bytes has no room for its header and a block, or the data region of %s no block", J, D))
	}
}

// split: the regions are cut where the sizes of the header say.
func (c *headerCk) split() {
	P, r := c.P, c.r
	nvmI := P.named("nvm.NonVolatileMemory")
	var fns []*ssa.Function
	for _, f := range P.funcs {
		if f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		s := f.Signature
		if s.Results().Len() < 2 || !types.Identical(s.Results().At(0).Type(), nvmI) || !types.Identical(s.Results().At(1).Type(), nvmI) {
			continue
		}
		if s.Recv() != nil {
			if p, ok := underPtr(s.Recv().Type()); ok && types.Identical(p, c.nt) {
				fns = append(fns, f)
			}
		}
	}
	for _, f := range fns {
		_, e := newCodec(P)
		st := newState()
		t := c.nt
		hdr := c.fieldSet(e.symVal(st, "hdr", t), "BlockSize", mkU64(viewBlock))
		j, d, k := mkSym("journalBlocks", tU64()), mkSym("dataBlocks", tU64()), mkSym("deviceBlocks", tU64())
		for _, x := range []*V{j, d, k} {
			e.assumeLe(st, x, mkU64(1<<52))
		}
		e.assumeLe(st, mkAdd(mkAdd(j, d), mkU64(1)), k)
		blk := mkU64(viewBlock)
		hdr = c.fieldSet(c.fieldSet(hdr, "JournalRegionSize", mkMul(j, blk)), "DataRegionSize", mkMul(d, blk))
		recv := e.makeRecv(st, "hdrcell", types.NewPointer(t), hdr)
		dev := mkSym("device", nvmI)
		st.facts[dev] = Fact{nilness: 2}
		st.flags["keep"] = mkTuple(hdr, dev, j, d, k, recv)
		st.flags["view:device"] = mkTuple(mkU64(0), mkMul(k, blk))
		base := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.method != nil && ci.method.Name() == "Split" && len(ci.args) == 2 {
				vw, ok := st.flags["view:"+streamName(ci.args[0])]
				if ok {
					fs := st.clone()
					er := e.newErr(fs, ci.site, ".err")
					l, rr := mkSym(streamName(ci.args[0])+"<", nvmI), mkSym(streamName(ci.args[0])+">", nvmI)
					lo, hi := vw.args[0], vw.args[1]
					mid := mkAdd(lo, mkConvTo(ci.args[1], tU64()))
					st.flags["view:"+l.name] = mkTuple(lo, mid)
					st.flags["view:"+rr.name] = mkTuple(mid, hi)
					st.facts[l], st.facts[rr] = Fact{nilness: 2}, Fact{nilness: 2}
					return []Outcome{{st, []*V{l, rr, theNil}}, {fs, []*V{theNil, theNil, er}}}, true
				}
			}
			return base(e, st, ci)
		}
		n := 0
		for _, o := range e.Run(f, st, []*V{recv, dev}, nil) {
			if e.isNil(o.st, o.ret[0]) || e.isNil(o.st, o.ret[1]) {
				continue
			}
			n++
			jv, ok1 := o.st.flags["view:"+streamName(o.ret[0])]
			dv, ok2 := o.st.flags["view:"+streamName(o.ret[1])]
			if !ok1 || !ok2 {
				r.Add("regions", fname(f), P.pos(f), "returns something other than a part of the device", nil)
				continue
			}
			J, D := mkMul(j, blk), mkMul(d, blk)
			jEnd := mkAdd(blk, J)
			eq := func(a, b *V) bool { return e.numEq(o.st, a, b) }
			if eq(jv.args[0], blk) && eq(jv.args[1], jEnd) && eq(dv.args[0], jEnd) && e.le(o.st, mkAdd(jEnd, D), dv.args[1]) && e.le(o.st, dv.args[1], mkMul(k, blk)) {
				r.Ok("regions", fname(f))
			} else {
				r.Add("regions", fname(f), P.pos(f), fmt.Sprintf("the journal is %s..%s and the data %s..%s, not %s..%s and from there on for %s", jv.args[0], jv.args[1], dv.args[0], dv.args[1], blk, jEnd, D), nil)
			}
		}
		if n == 0 {
			r.Add("regions", fname(f), P.pos(f), "never gives two regions", nil)
		}
		r.absorb(e)
	}
	if len(fns) == 0 {
		r.Add("regions", hdrType, "-", "no method of the superblock gives the regions", nil)
	}
}

// writers executes every place outside the header's package that writes one.
func (c *headerCk) writers() {
	P, r := c.P, c.r
	isWr := func(f *ssa.Function) bool {
		if f == nil || f.Signature.Recv() == nil {
			return false
		}
		p, ok := underPtr(f.Signature.Recv().Type())
		if !ok {
			p = f.Signature.Recv().Type()
		}
		return types.Identical(p, c.nt) && f.Signature.Params().Len() == 1 && f.Signature.Params().At(0).Type().String() == "io.Writer"
	}
	direct := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		if f.Signature.Recv() != nil && isWr(f) {
			continue
		}
		for _, g := range P.staticCallees(f) {
			if isWr(g) {
				direct[f] = true
			}
		}
	}
	// roots: exported functions, or functions that nobody calls
	called := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, g := range P.staticCallees(f) {
			called[g] = true
		}
	}
	reach := P.reaching(direct)
	var roots []*ssa.Function
	for f := range reach {
		exp := f.Object() != nil && f.Object().Exported() && f.Pkg != nil && f.Pkg.Pkg.Name() != "main"
		if (exp || !called[f]) && P.reachesVia(f, direct, func(g *ssa.Function) bool {
			return g.Object() == nil || !g.Object().Exported() || g.Pkg.Pkg.Name() == "main"
		}) {
			if f.Synthetic == "" && f.Name() != "main" && f.Name() != "init" {
				roots = append(roots, f)
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	for _, f := range roots {
		c.writer(f, reach, isWr)
	}
	if len(roots) == 0 {
		r.Add("region-inside", hdrType, "-", "no place writes a superblock", nil)
	}
}

func (c *headerCk) writer(f *ssa.Function, reach map[*ssa.Function]bool, isWr func(*ssa.Function) bool) {
	P, r := c.P, c.r
	where := fname(f)
	_, e := newCodec(P)
	e.H.NoInline = func(g *ssa.Function) bool {
		if reach[g] || !P.inModule(g) {
			return false
		}
		switch g.Pkg.Pkg.Name() {
		case "block", "util":
			return false
		}
		if g.Signature.Recv() != nil {
			p, ok := underPtr(g.Signature.Recv().Type())
			if !ok {
				p = g.Signature.Recv().Type()
			}
			return !types.Identical(p, c.nt)
		}
		if rs := g.Signature.Results(); rs.Len() == 1 {
			if p, ok := underPtr(rs.At(0).Type()); ok && types.Identical(p, c.nt) {
				return false
			}
		}
		return g.Pkg.Pkg.Name() != f.Pkg.Pkg.Name()
	}
	st := newState()
	var args, keep []*V
	k := mkSym("deviceBlocks", tU64())
	e.assumeLe(st, k, mkU64(1<<53))
	var capacity *V
	creates := false
	for _, p := range f.Params {
		a := mkSym("arg."+p.Name(), p.Type())
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			// the size of the new device, as CreateIfAbsent accepts it
			a = mkMul(k, mkU64(viewBlock))
			creates = true
		}
		args = append(args, a)
		keep = append(keep, a)
	}
	capacity = mkMul(k, mkU64(viewBlock))
	st.flags["keep"] = mkTuple(append(keep, k)...)
	base := e.H.Call
	n := 0
	type found struct {
		st   *State
		hdr  *V
		site ssa.Instruction
	}
	var fs []found
	seen := map[string]bool{}
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		name := ""
		if ci.method != nil {
			name = ci.method.Name()
		} else if ci.fn != nil {
			name = ci.fn.Name()
		}
		rs := ci.sig.Results()
		isView := false
		if len(ci.args) > 0 && ci.args[0] != nil && ci.args[0].t != nil || ci.fn != nil && ci.fn.Signature.Recv() != nil || ci.method != nil {
			isView = true
		}
		switch {
		case isView && name == "Capacity" && rs.Len() == 1 && isUint(rs.At(0).Type()) && len(ci.args) == 1:
			return []Outcome{{st, []*V{capacity}}}, true
		case isView && name == "BlockSize" && rs.Len() == 1 && tyIs(rs.At(0).Type(), "block.BlockSize") && len(ci.args) == 1:
			return []Outcome{{st, []*V{mkInt(viewBlock, rs.At(0).Type())}}}, true
		case ci.fn != nil && isWr(ci.fn):
			v := ci.args[0]
			if _, ok := underPtr(ci.fn.Signature.Recv().Type()); ok {
				v = e.Load(st, ci.site, v, c.nt)
			}
			n++
			s := st.clone()
			if v.k != KStruct {
				r.Add("region-inside", where, P.pos(ci.site), "the superblock written is not understood", nil)
			} else {
				key := v.String() + s.key()
				if !seen[key] {
					seen[key] = true
					fs = append(fs, found{s, v, ci.site})
				}
			}
			// what follows does not matter here
			return []Outcome{{st, []*V{e.newErr(st, ci.site, ".stop")}}}, true
		}
		// a device is opened: its superblock is one that was written before
		for i := 0; i < rs.Len(); i++ {
			p, ok := underPtr(rs.At(i).Type())
			if !ok || !types.Identical(p, c.nt) || ci.fn == nil || !e.H.NoInline(ci.fn) || rs.Len() < 2 {
				continue
			}
			fl := st.clone()
			hdr := e.symVal(st, "old", c.nt)
			j, d := mkSym("oldJournal", tU64()), mkSym("oldData", tU64())
			e.assumeLe(st, j, mkU64(1<<31-1))
			e.assumeLe(st, j, mkU64((1<<40-1)/viewBlock))
			e.assumeLe(st, d, mkU64(1<<40-1))
			tm := c.template()
			if tm != nil {
				s := structOf(c.nt)
				for x := 0; x < s.NumFields(); x++ {
					if n := s.Field(x).Name(); n == "MajorVersion" || n == "MinorVersion" || n == "BlockSize" {
						hdr = c.fieldSet(hdr, n, tm.args[x])
					}
				}
			}
			hdr = c.fieldSet(c.fieldSet(hdr, "JournalRegionSize", mkMul(j, mkU64(viewBlock))), "DataRegionSize", mkMul(d, mkU64(viewBlock)))
			cell := e.freshCell(st, ci.site, ".hdr", c.nt)
			e.storeLoc(st, cell, "", hdr, c.nt)
			ret := e.freshResults(st, ci)
			fret := e.freshResults(fl, ci)
			ret[i] = mkPtr(cell, "")
			for x := range ret {
				if isError(rs.At(x).Type()) {
					ret[x] = theNil
					fret[x] = e.newErr(fl, ci.site, ".err")
				} else if x != i {
					f := st.facts[ret[x]]
					f.nilness = 2
					st.facts[ret[x]] = f
				}
			}
			st.flags["keep:old"] = mkTuple(j, d, hdr)
			return []Outcome{{st, ret}, {fl, fret}}, true
		}
		return base(e, st, ci)
	}
	e.Run(f, st, args, nil)
	r.absorb(e)
	for _, x := range fs {
		cp := capacity
		if !creates {
			cp = nil
		}
		c.regions(where, x.site, x.st, x.hdr, cp)
		c.readBack(where, x.site, x.st, x.hdr, true)
	}
	if n == 0 {
		r.Add("region-inside", where, P.pos(f), "no superblock is ever written", nil)
	}
}

func init() {
	checks["C12"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution of every place that writes a superblock, of its reader and of the code that cuts the regions; bytes are followed as exact bit slices, sizes by linear arithmetic"
		r.Assumptions = []string{"devices end before 2^62", "the product of capacity and ratio converts to any 64 bit number", "opened superblocks were written by this code"}
		c := &headerCk{P: P, r: r, nt: P.named(hdrType), wr: P.method(hdrType, "WriteHeaderRegionTo")}
		if c.nt == nil || c.wr == nil {
			r.Add("round-trip", hdrType, "-", "no method WriteHeaderRegionTo", nil)
			return
		}
		for f := range P.recordReaders() {
			if strings.HasSuffix(f.Signature.Results().At(0).Type().String(), hdrType) && f.Signature.Params().At(0).Type().String() == "io.Reader" {
				c.rd = append(c.rd, f)
			}
		}
		sort.Slice(c.rd, func(i, j int) bool { return fname(c.rd[i]) < fname(c.rd[j]) })
		tm := c.template()
		if tm == nil || len(c.rd) == 0 {
			r.Add("round-trip", hdrType, "-", "no reader or no default superblock", nil)
			return
		}
		for _, k := range []uint64{512, 1024, 4096} {
			_, e := newCodec(P)
			st := newState()
			hdr := c.fieldSet(e.symVal(st, "hdr", c.nt), "BlockSize", mkU64(k))
			s := structOf(c.nt)
			for i := 0; i < s.NumFields(); i++ {
				if n := s.Field(i).Name(); n == "MajorVersion" || n == "MinorVersion" {
					hdr = c.fieldSet(hdr, n, tm.args[i])
				}
			}
			c.readBack(fmt.Sprintf("%s, blocks of %d", fname(c.wr), k), c.wr, st, hdr, false)
		}
		c.split()
		c.writers()
		r.Need("round-trip", 4)
		r.Need("accepted", 2)
		r.Need("regions", 1)
		r.Need("region-aligned", 2)
		r.Need("region-inside", 1)
	}
}
