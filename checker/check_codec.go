package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// implementers of an interface of the module, by value or pointer.
func (P *Program) implementers(rel string) []types.Type {
	n := P.named(rel)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// fnBySig finds the functions of a package with this signature.
func (P *Program) fnsBySig(rel string, ok func(*types.Signature) bool) []*ssa.Function {
	sp := P.pkg(rel)
	if sp == nil {
		return nil
	}
	var out []*ssa.Function
	for _, m := range sp.Members {
		if f, k := m.(*ssa.Function); k && ok(f.Signature) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func sigStr(s *types.Signature) string {
	return shorten(types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), false), nil))
}

func ioType(P *Program, name string) types.Type {
	return P.prog.ImportedPackage("io").Type(name).Type()
}

// makeRecv makes the receiver for a method of t with the given content.
func (e *Engine) makeRecv(st *State, name string, t types.Type, v *V) *V {
	pt, ok := underPtr(t)
	if !ok {
		return v
	}
	cell := mkCell(name, pt)
	e.storeLoc(st, cell, "", v, pt)
	return mkPtr(cell, "")
}

// valEq: the two values are the same for every input.
func (e *Engine) valEq(st *State, a, b *V, t types.Type) (bool, string) {
	if a == b {
		return true, ""
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ok, w := e.valEq(st, fieldOf(a, i), fieldOf(b, i), u.Field(i).Type()); !ok {
				return false, "." + u.Field(i).Name() + w
			}
		}
		return true, ""
	case *types.Array:
		if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) {
			for i := range a.args {
				if ok, w := e.valEq(st, a.args[i], b.args[i], u.Elem()); !ok {
					return false, fmt.Sprintf("[%d]%s", i, w)
				}
			}
			return true, ""
		}
	case *types.Slice:
		if types.Identical(u.Elem().Underlying(), types.Typ[types.Uint8]) {
			return e.stoksEq(st, e.tokensOf(st, nil, a), e.tokensOf(st, nil, b)), ""
		}
	case *types.Basic:
		if isInt(t) {
			return e.bitsEqual(st, a, b) == 1 || e.numEq(st, a, b), ""
		}
	case *types.Pointer:
		pa, qa := splitPtr(a)
		pb, qb := splitPtr(b)
		if pa.k == KCell && pb.k == KCell {
			return e.valEq(st, e.loadLoc(st, nil, pa, qa, u.Elem()), e.loadLoc(st, nil, pb, qb, u.Elem()), u.Elem())
		}
	}
	return false, ""
}

type roundTrip struct {
	P    *Program
	r    *Report
	name string
}

func (e *Engine) isNil(st *State, v *V) bool   { return v.k == KNil || e.nilOf(st, v) == 1 }
func (e *Engine) notNilV(st *State, v *V) bool { return e.nilOf(st, v) == 2 }
func tokensString(ts []*V) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, " ")
}

func init() {
	checks["C10"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution of writer and reader of each record kind over byte tokens: every field bit is traced from the record to the byte stream and back"
		r.Assumptions = []string{"addresses are at most 40 bits (C16)", "the payload of an embedded record is at most 65535 bytes (rule embed-bounded of this check)"}
		checkRecords(P, r)
		checkEmbedLen(P, r)
		r.Need("round-trip", 6)
		r.Need("size", 6)
		r.Need("checksum-covers", 6)
		r.Need("embed-bounded", 1)
	}
	checks["C11"] = func(P *Program, r *Report) {
		r.Explanation = "readers executed on arbitrary input: on each path that returns a value, the conditions known on the path imply the integrity conditions"
		checkDetect(P, r)
		checkHeaders(P, r)
		checkDamagePropagates(P, r)
	}
}

func checkRecords(P *Program, r *Report) {
	readers := P.fnsBySig("storage/journal", func(s *types.Signature) bool {
		return sigStr(s) == "func(reader io.Reader) (storage/journal.JournalRecord, error)" || s.Params().Len() == 1 && s.Results().Len() == 2 &&
			s.Params().At(0).Type().String() == "io.Reader" && strings.HasSuffix(s.Results().At(0).Type().String(), "journal.JournalRecord") && isError(s.Results().At(1).Type())
	})
	var reader *ssa.Function
	for _, f := range readers {
		if f.Object() != nil && f.Object().Exported() {
			reader = f
		}
	}
	if reader == nil {
		r.Add("reader", "storage/journal", "-", "no function reads a JournalRecord from an io.Reader", nil)
		return
	}
	impls := P.implementers("storage/journal.JournalRecord")
	for _, t := range impls {
		checkRecord(P, r, t, reader)
	}
}

func checkRecord(P *Program, r *Report, t types.Type, reader *ssa.Function) {
	name := shorten(t.String())
	c, e := newCodec(P)
	st := newState()
	st.epoch = false
	vt := t
	if p, ok := underPtr(t); ok {
		vt = p
	}
	rec := e.symVal(st, "rec", vt)
	boundSlices(e, st, rec, vt)
	recv := e.makeRecv(st, "reccell", t, rec)
	W := mkSym("W", ioType(P, "Writer"))
	st.flags["w:W"] = mkTuple()
	wr := P.prog.LookupMethod(t, nil, "WriteTo")
	sz := P.prog.LookupMethod(t, nil, "ExternalSize")
	pos := P.pos(wr)
	outs := e.Run(wr, st, []*V{recv, W}, nil)
	if len(outs) == 0 {
		r.Add("round-trip", name, pos, "writing the record never returns: "+strings.Join(c.bad, "; "), nil)
	}
	for _, o := range outs {
		if !e.isNil(o.st, o.ret[0]) {
			r.Add("round-trip", name, pos, "writing a valid record can fail although the writer does not", nil)
			continue
		}
		ts := stoks(o.st, "w:W")
		// the size
		for _, so := range e.Run(sz, o.st.clone(), []*V{recv}, nil) {
			want := e.sumLen(ts)
			if e.numEq(so.st, mkConvTo(so.ret[0], types.Typ[types.Int]), want) {
				r.Ok("size", name)
			} else {
				r.Add("size", name, P.pos(sz), fmt.Sprintf("ExternalSize is %s but WriteTo writes %s bytes", so.ret[0], want), nil)
			}
		}
		// the checksum in front covers everything else
		if len(ts) < 5 {
			r.Add("checksum-covers", name, pos, "the record has no checksum", nil)
		} else {
			ck := e.fromBytes(o.st, ts[:4], types.Typ[types.Uint32])
			if ck == e.adler(ts[4:]) || e.bitsEqual(o.st, ck, e.adler(ts[4:])) == 1 {
				r.Ok("checksum-covers", name)
			} else {
				r.Add("checksum-covers", name, pos, "the first four bytes are not the checksum of the bytes that follow: "+tokensString(ts), nil)
			}
		}
		R := mkSym("R", ioType(P, "Reader"))
		s2 := o.st.clone()
		s2.flags["r:R"] = mkTuple(ts...)
		c.bad = nil
		good := 0
		var why []string
		routs := e.Run(reader, s2, []*V{R}, nil)
		for _, ro := range routs {
			if !e.isNil(ro.st, ro.ret[1]) {
				why = append(why, "the reader can reject what the writer wrote")
				continue
			}
			v := ro.ret[0]
			if v.k != KIface {
				why = append(why, "the reader returns "+v.String())
				continue
			}
			rt := v.t
			val := v.args[0]
			if p, ok := underPtr(rt); ok {
				b, pth := splitPtr(val)
				val = e.loadLoc(ro.st, nil, b, pth, p)
				rt = p
			}
			if !types.Identical(rt, vt) {
				why = append(why, "it is read back as "+shorten(rt.String()))
				continue
			}
			if ok, w := e.valEq(ro.st, rec, val, vt); !ok {
				why = append(why, "field "+w+" is read back with another value")
				continue
			}
			if left := stoks(ro.st, "r:R"); len(left) > 0 {
				why = append(why, fmt.Sprintf("%d bytes of the record are not read", len(left)))
				continue
			}
			good++
		}
		why = append(why, c.bad...)
		if len(routs) == 0 {
			why = append(why, "the reader never returns")
		}
		if len(why) == 0 && good > 0 {
			r.Ok("round-trip", name)
		} else {
			r.Add("round-trip", name, P.pos(reader), strings.Join(why, "; "), nil)
		}
	}
	r.absorb(e)
}

// boundSlices assumes that payloads fit the 16 bit length field.
func boundSlices(e *Engine, st *State, v *V, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			boundSlices(e, st, fieldOf(v, i), u.Field(i).Type())
		}
	case *types.Slice:
		f := st.facts[v]
		f.nilness = 2
		st.facts[v] = f
		e.assume(st, mkLess(mkInt(65535, types.Typ[types.Int]), e.lenOf(st, v)), false)
	}
}

// checkEmbedLen: every record with a payload is made with at most 65535 bytes.
func checkEmbedLen(P *Program, r *Report) {
	field := "storage/journal.EmbedRecord.Data"
	makers := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldAddrKey(fa) == field {
						makers[f] = true
					}
				}
			}
		}
	}
	reach := P.reaching(makers)
	for _, f := range P.funcs {
		if !reach[f] || f.Pkg == nil || f.Pkg != P.pkg("storage/journal") || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		direct := false
		// a root: reaches a maker through functions of the package only
		direct = P.reachesVia(f, makers, func(g *ssa.Function) bool { return g.Object() == nil || !g.Object().Exported() })
		if !direct {
			continue
		}
		c, e := newCodec(P)
		c.unknown = true
		root := f
		e.H.NoInline = func(g *ssa.Function) bool {
			return !reach[g] && g.Pkg != nil && P.inModule(g) && g.Pkg.Pkg.Name() != "lump" && g.Pkg.Pkg.Name() != "util"
		}
		e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
			s, ok := site.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldAddrKey(fa) != field {
				return
			}
			ln := e.lenOf(st, v)
			if e.le(st, ln, mkInt(65535, types.Typ[types.Int])) {
				r.Ok("embed-bounded", fname(root))
			} else {
				r.Add("embed-bounded", fname(root), P.pos(site), "an embedded record can be made with more than 65535 bytes, whose length field cannot hold its length", nil)
			}
		}
		st := newState()
		var args []*V
		for _, p := range f.Params {
			if p.Type().String() == "io.Reader" {
				st.flags["r:R"] = mkTuple()
				args = append(args, mkSym("R", p.Type()))
			} else {
				args = append(args, mkSym("arg."+p.Name(), p.Type()))
			}
		}
		e.Run(f, st, args, nil)
		r.absorb(e)
	}
}

func fieldAddrKey(fa *ssa.FieldAddr) string {
	pt, ok := underPtr(fa.X.Type())
	if !ok {
		return ""
	}
	n, ok := types.Unalias(pt).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + s.Field(fa.Field).Name()
}

// staticCallees of f within the module.
func (P *Program) staticCallees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && P.inModule(g) {
					out = append(out, g)
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// reaching: functions that call (transitively) one of the targets.
func (P *Program) reaching(t map[*ssa.Function]bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for f := range t {
		m[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range P.funcs {
			if m[f] {
				continue
			}
			for _, g := range P.staticCallees(f) {
				if m[g] {
					m[f] = true
					ch = true
					break
				}
			}
		}
	}
	return m
}

// reachesVia: f reaches a target through functions that satisfy ok.
func (P *Program) reachesVia(f *ssa.Function, t map[*ssa.Function]bool, ok func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if t[g] {
			return true
		}
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, h := range P.staticCallees(g) {
			if (ok(h)) && rec(h) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

// checkDetect: readers of unknown input.
func checkDetect(P *Program, r *Report) {
	// records
	for _, rel := range []struct{ pkg, typ string }{{"storage/journal", "JournalRecord"}, {"nvm", "BitmapEntry"}} {
		for _, f := range P.fnsBySig(rel.pkg, func(s *types.Signature) bool {
			return s.Params().Len() == 1 && s.Results().Len() == 2 && s.Params().At(0).Type().String() == "io.Reader" &&
				strings.HasSuffix(s.Results().At(0).Type().String(), "."+rel.typ) && isError(s.Results().At(1).Type())
		}) {
			if !f.Object().Exported() {
				continue
			}
			c, e := newCodec(P)
			c.unknown, c.failRead = true, true
			st := newState()
			st.flags["r:R"] = mkTuple()
			nOk := 0
			for _, o := range e.Run(f, st, []*V{mkSym("R", ioType(P, "Reader"))}, nil) {
				if e.notNilV(o.st, o.ret[1]) {
					r.Ok("damaged-rejected", fname(f))
					continue
				}
				kind := "?"
				if v := o.ret[0]; v.k == KIface {
					kind = shorten(v.t.String())
				} else if v.t != nil {
					kind = shorten(v.t.String())
				}
				ts := stoks(o.st, "c:R")
				if len(ts) < 5 {
					r.Add("checksum-tested", fname(f)+" "+kind, P.pos(f), "returns success after reading only "+fmt.Sprint(len(ts))+" bytes", nil)
					continue
				}
				if checksumKnown(e, o.st, ts) {
					r.Ok("checksum-tested", fname(f)+" "+kind)
					nOk++
				} else {
					r.Add("checksum-tested", fname(f)+" "+kind, P.pos(f), "returns a record although the checksum read is not known to be that of the bytes read", nil)
				}
			}
			for _, b := range c.bad {
				r.Add("checksum-tested", fname(f), P.pos(f), b, nil)
			}
			if nOk == 0 {
				r.Add("checksum-tested", fname(f), P.pos(f), "no path returns a verified record", nil)
			}
			r.absorb(e)
		}
	}
	r.Need("checksum-tested", 7)
}

// checksumKnown: on this path the first four bytes equal the checksum of the rest.
func checksumKnown(e *Engine, st *State, ts []*V) bool {
	var cts []*V
	for _, t := range ts {
		if isByte(t) {
			cts = append(cts, e.canonByte(st, t))
		} else {
			cts = append(cts, t)
		}
	}
	ck := e.fromBytes(st, ts[:4], types.Typ[types.Uint32])
	want := e.adler(cts[4:])
	isCk := func(v *V) bool { return e.bitsEqual0(st, v, ck) }
	isWant := func(v *V) bool {
		if v == want {
			return true
		}
		if v.k == KApp && v.name == "adler" && len(v.args) == len(cts)-4 {
			for i, a := range v.args {
				if !e.tokEq(st, a, cts[4+i]) {
					return false
				}
			}
			return true
		}
		if v.k == KConst && want.k == KConst {
			return constant.Compare(v.cv, token.EQL, want.cv)
		}
		return false
	}
	for k, f := range st.facts {
		if k.k == KBin && k.name == "==" && f.truth == 1 {
			if isCk(k.args[0]) && isWant(k.args[1]) || isCk(k.args[1]) && isWant(k.args[0]) {
				return true
			}
		}
		if f.eq != nil && isCk(k) && isWant(f.eq) {
			return true
		}
	}
	return false
}

// bitsEqual0 compares without using what is known about the whole values.
func (e *Engine) bitsEqual0(st *State, x, y *V) bool {
	if x == y {
		return true
	}
	if !isInt(x.t) || !isInt(y.t) {
		return false
	}
	s := newState()
	return e.bitsEqual(s, x, y) == 1
}

// recordReaders: functions that return one record, entry or header of a stream.
func (P *Program) recordReaders() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		s := f.Signature
		if s.Recv() != nil || s.Results().Len() != 2 || !isError(s.Results().At(1).Type()) || s.Params().Len() != 1 {
			continue
		}
		t := s.Results().At(0).Type().String()
		for _, x := range []string{"journal.JournalRecord", "nvm.BitmapEntry", "nvm.BackingFileHeader", "nvm.StorageHeader"} {
			if strings.HasSuffix(t, x) && strings.HasSuffix(s.Params().At(0).Type().String(), "Reader") {
				m[f] = true
			}
		}
	}
	return m
}

func checkDamagePropagates(P *Program, r *Report) {
	c := &errClient{P: P, r: r, damage: P.recordReaders()}
	c.findFallible()
	for _, f := range P.funcs {
		if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/cmd/") || f.Synthetic != "" || c.damage[f] {
			continue
		}
		c.run(f)
	}
	r.Need("failure-reported", 8)
}

// layout of a header as its writer emits it, with symbolic fields.
func headerLayout(P *Program, r *Report, typ, method string) (toks []*V, hdr *V, e *Engine, st *State) {
	w := P.method(typ, method)
	n := P.named(typ)
	if w == nil || n == nil {
		r.Add("header-writer", typ, "-", "no method "+method, nil)
		return
	}
	_, e = newCodec(P)
	st = newState()
	hdr = e.symVal(st, "hdr", n)
	W := mkSym("W", ioType(P, "Writer"))
	st.flags["w:W"] = mkTuple()
	recv := hdr
	if w.Signature.Recv().Type().String() != n.String() {
		recv = e.makeRecv(st, "hdrcell", types.NewPointer(n), hdr)
	}
	outs := e.Run(w, st, []*V{recv, W}, nil)
	for _, o := range outs {
		if e.isNil(o.st, o.ret[0]) {
			return stoks(o.st, "w:W"), hdr, e, o.st
		}
	}
	r.Add("header-writer", typ, P.pos(w), "the header cannot be written", nil)
	return nil, nil, nil, nil
}

// checkHeaders: an accepted header has the right magic number, version and structure.
func checkHeaders(P *Program, r *Report) {
	for _, h := range []struct{ typ string }{{"nvm.StorageHeader"}, {"nvm.BackingFileHeader"}} {
		layout, _, _, _ := headerLayout(P, r, h.typ, "WriteTo")
		if layout == nil {
			continue
		}
		var readers []*ssa.Function
		for f := range P.recordReaders() {
			if strings.HasSuffix(f.Signature.Results().At(0).Type().String(), h.typ) && f.Signature.Params().At(0).Type().String() == "io.Reader" {
				readers = append(readers, f)
			}
		}
		if len(readers) == 0 {
			r.Add("header-tested", h.typ, "-", "no function reads this header from an io.Reader", nil)
		}
		sort.Slice(readers, func(i, j int) bool { return fname(readers[i]) < fname(readers[j]) })
		for _, f := range readers {
			checkHeaderReader(P, r, h.typ, layout, f)
		}
	}
	r.Need("header-tested", 10)
}

func checkHeaderReader(P *Program, r *Report, typ string, layout []*V, f *ssa.Function) {
	c, e := newCodec(P)
	c.unknown, c.failRead = true, true
	st := newState()
	st.flags["r:R"] = mkTuple()
	n := P.named(typ)
	nOk := 0
	for _, o := range e.Run(f, st, []*V{mkSym("R", ioType(P, "Reader"))}, nil) {
		if e.notNilV(o.st, o.ret[1]) {
			r.Ok("damaged-rejected", fname(f))
			continue
		}
		nOk++
		ts := stoks(o.st, "c:R")
		bad := func(rule, msg string) { r.Add(rule, fname(f), P.pos(f), msg, o.st.trailMsgs()) }
		if len(ts) < len(layout) {
			bad("header-tested", fmt.Sprintf("accepts a header after reading %d of %d bytes", len(ts), len(layout)))
			continue
		}
		// magic number: bytes the writer takes from no field
		known := func(t, want *V) bool { return e.numEq(o.st, t, want) || e.bitsEqual(o.st, t, want) == 1 }
		okMagic := true
		nm := 0
		for i := 0; i < 4; i++ {
			nm++
			if !known(ts[i], layout[i]) {
				okMagic = false
			}
		}
		if okMagic {
			r.Ok("header-tested", fname(f)+" magic number")
		} else {
			bad("magic-tested", "a header is accepted although its first four bytes are not known to be the magic number")
		}
		// fields
		val := o.ret[0]
		b, p := splitPtr(val)
		hv := e.loadLoc(o.st, nil, b, p, n)
		get := func(name string) *V {
			s := n.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return fieldOf(hv, i)
				}
			}
			return nil
		}
		for _, v := range []string{"MajorVersion", "MinorVersion"} {
			fv := get(v)
			ok := false
			if fv != nil {
				ok = knownFixed(e, o.st, fv)
			}
			if ok {
				r.Ok("header-tested", fname(f)+" "+v)
			} else {
				bad("version-tested", "a header is accepted whatever its "+v)
			}
		}
		le := func(v *V, hi uint64) bool {
			return v != nil && e.le(o.st, v, mkConst(constant.MakeUint64(hi), types.Typ[types.Uint64]))
		}
		ge := func(v *V, lo uint64) bool {
			return v != nil && e.le(o.st, mkConst(constant.MakeUint64(lo), types.Typ[types.Uint64]), v)
		}
		if bs := get("BlockSize"); bs != nil {
			if ge(bs, 512) && e.numEq(o.st, mkRem(bs, 512), mkInt(0, bs.t)) {
				r.Ok("header-tested", fname(f)+" block size")
			} else {
				bad("blocksize-tested", "a header is accepted with a block size that is not a positive multiple of 512")
			}
		}
		for _, v := range []string{"JournalRegionSize", "DataRegionSize"} {
			if fv := get(v); fv != nil {
				if le(fv, 1<<50) {
					r.Ok("header-tested", fname(f)+" "+v)
				} else {
					bad("regionsize-tested", "a header is accepted whatever its "+v+", so that the sizes of the regions can wrap around")
				}
			}
		}
		if fv := get("RegionShift"); fv != nil {
			if ge(fv, 9) && le(fv, 31) {
				r.Ok("header-tested", fname(f)+" region shift")
			} else {
				bad("shift-tested", "a header is accepted whatever its region shift")
			}
			js, mc := get("JournalSize"), get("MaxCapacity")
			if relatedEq(e, o.st, js, mc) {
				r.Ok("header-tested", fname(f)+" journal size")
			} else {
				bad("journalsize-tested", "a header is accepted although its journal size was not compared with the one of its capacity")
			}
		}
		// the header ends where it says
		for k, v := range o.st.flags {
			if strings.HasPrefix(k, "lim:") && typ == "nvm.StorageHeader" {
				ended := false
				for k2 := range o.st.flags {
					ended = ended || strings.HasPrefix(k2, "ended:")
				}
				if ended || e.le(o.st, v, mkInt(0, v.t)) {
					r.Ok("header-tested", fname(f)+" end")
				} else {
					bad("end-tested", "a header is accepted although its announced size was not used up")
				}
			}
		}
	}
	for _, b := range c.bad {
		r.Add("header-tested", fname(f), P.pos(f), b, nil)
	}
	if nOk == 0 {
		r.Add("header-tested", fname(f), P.pos(f), "no path accepts a header", nil)
	}
	r.absorb(e)
}

// knownFixed: v is known to be one constant or the value of one variable.
func knownFixed(e *Engine, st *State, v *V) bool {
	if _, ok := e.constOf(st, v); ok {
		return true
	}
	for k, f := range st.facts {
		if f.truth == 1 && k.k == KBin && k.name == "==" {
			for i := 0; i < 2; i++ {
				if k.args[i] == v || e.bitsEqual0(st, k.args[i], v) {
					o := k.args[1-i]
					if o.k == KConst || o.k == KInit && o.args[0].k == KGlobal {
						return true
					}
				}
			}
		}
	}
	return false
}

// relatedEq: v is known to equal an expression over w.
func relatedEq(e *Engine, st *State, v, w *V) bool {
	for k, f := range st.facts {
		if f.truth == 1 && k.k == KBin && k.name == "==" {
			for i := 0; i < 2; i++ {
				if k.args[i] == v || e.bitsEqual0(st, k.args[i], v) {
					o := k.args[1-i]
					for s := range w.syms {
						if o.syms[s] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
