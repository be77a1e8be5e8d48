package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: packed values. Constructors and accessors are executed on arbitrary
// values of the documented width; every bit of the result is traced.

type packer struct {
	P *Program
	r *Report
}

func (p *packer) engine() (*codec, *Engine, *State) {
	c, e := newCodec(p.P)
	return c, e, newState()
}

func tyIs(t types.Type, rel string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && shorten(n.Obj().Pkg().Path())+"."+n.Obj().Name() == rel
}

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func pow2(n uint) *V { return mkConst(constant.MakeUint64(1<<n-1), types.Typ[types.Uint64]) }

// unsignedBits: v is a number of at most this many bits, whatever the input is.
func unsignedBits(v ssa.Value) int {
	w := 99
	if isUint(v.Type()) {
		w, _, _ = typeBits(v.Type())
	}
	min := func(n int) {
		if n < w {
			w = n
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if i, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
			min(bits.Len64(i))
		}
	case *ssa.ChangeType:
		return unsignedBits(x.X)
	case *ssa.Convert:
		if isInt(x.X.Type()) {
			min(unsignedBits(x.X))
		}
	case *ssa.BinOp:
		k, isC := x.Y.(*ssa.Const)
		switch {
		case x.Op == token.AND:
			min(unsignedBits(x.X))
			min(unsignedBits(x.Y))
		case x.Op == token.SHR && isC && isUint(x.X.Type()):
			if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok && n >= 0 && n < 64 {
				min(unsignedBits(x.X) - int(n))
			}
		case x.Op == token.REM && isC:
			min(unsignedBits(x.Y))
		}
	}
	return w
}

// fnsWith finds functions (not methods) of the module with these parameters and results.
func (P *Program) fnsWith(ok func(s *types.Signature) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.funcs {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() == nil && f.Signature.TypeParams() == nil && ok(f.Signature) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func params(s *types.Signature, ok ...func(types.Type) bool) bool {
	if s.Params().Len() != len(ok) {
		return false
	}
	for i, f := range ok {
		if !f(s.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

func results(s *types.Signature, ok ...func(types.Type) bool) bool {
	if s.Results().Len() != len(ok) {
		return false
	}
	for i, f := range ok {
		if !f(s.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func is(rel string) func(types.Type) bool {
	return func(t types.Type) bool { return tyIs(t, rel) || t.String() == rel }
}

// same: equal as integers, whatever their types.
func (e *Engine) same(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	if isInt(a.t) && isInt(b.t) {
		return e.bitsEqual(st, a, b) == 1 || e.numEq(st, mkConvTo(a, types.Typ[types.Uint64]), mkConvTo(b, types.Typ[types.Uint64]))
	}
	return e.numEq(st, a, b)
}

// total runs f, which must return on every input admitted by st.
func (p *packer) total(rule string, e *Engine, f *ssa.Function, st *State, args ...*V) []Outcome {
	bad := false
	e.H.Panic = func(e *Engine, s *State, site ssa.Instruction) {
		if !bad {
			p.r.Add(rule, fname(f), p.P.pos(site), "panics on a value that fits the documented width", s.trailMsgs())
		}
		bad = true
	}
	outs := e.Run(f, st, args, nil)
	e.H.Panic = nil
	if len(outs) == 0 && !bad {
		p.r.Add(rule, fname(f), p.P.pos(f), "never returns", nil)
	}
	return outs
}

// partial runs f, which may panic.
func (p *packer) partial(e *Engine, f *ssa.Function, st *State, args ...*V) []Outcome {
	return e.Run(f, st, args, nil)
}

func (p *packer) verdict(rule, where string, f *ssa.Function, ok bool, msg string) {
	if ok {
		p.r.Ok(rule, where)
	} else {
		p.r.Add(rule, where, p.P.pos(f), msg, nil)
	}
}

// accessors of an extent: Start, Len, End.
func (p *packer) extentAcc(e *Engine, st *State, t types.Type, v *V, start, ln *V, rule, where string) {
	n := types.Unalias(t).(*types.Named)
	rel := shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	for _, m := range p.P.methods(rel) {
		var want *V
		switch m.Name() {
		case "Start":
			want = start
		case "Len":
			want = ln
		case "End":
			want = mkAdd(mkConvTo(start, tU64()), mkConvTo(ln, tU64()))
		default:
			continue
		}
		s := st.clone()
		if m.Name() == "End" && !e.assume(s, mkLess(pow2(40), want), false) {
			continue
		}
		for _, o := range p.total(rule, e, m, s, v) {
			p.verdict(rule, where+" "+m.Name(), m, e.same(o.st, o.ret[0], want), fmt.Sprintf("%s of the packed value is %s, not %s", m.Name(), o.ret[0], want))
		}
	}
}

func checkPack(P *Program, r *Report) {
	p := &packer{P, r}
	u8s := func(t types.Type) bool { return t.String() == "[]byte" || t.String() == "[]uint8" }

	// 1. integers in bytes
	{
		puts := P.fnsWith(func(s *types.Signature) bool { return params(s, u8s, isUint) && results(s) })
		gets := P.fnsWith(func(s *types.Signature) bool { return params(s, u8s) && results(s, isUint) })
		for _, f := range puts {
			n := strings.TrimPrefix(f.Name(), "Put")
			for _, g := range gets {
				if g.Pkg != f.Pkg || strings.TrimPrefix(g.Name(), "Get") != n || n == f.Name() {
					continue
				}
				w := 0
				fmt.Sscanf(strings.TrimLeft(n, "UINTuint"), "%d", &w)
				if w == 0 {
					w, _, _ = typeBits(g.Signature.Results().At(0).Type())
				}
				where := fname(f) + " / " + g.Name()
				_, e, st := p.engine()
				v := mkSym("n", f.Signature.Params().At(1).Type())
				if w < 64 {
					e.assume(st, mkLess(mkConst(constant.MakeUint64(1<<uint(w)-1), v.t), v), false)
				}
				cell := mkCell("buf", types.NewArray(types.Typ[types.Uint8], int64(w/8)))
				sl := e.mkSlice(mkPtr(cell, ""), mkInt(0, types.Typ[types.Int]), mkInt(int64(w/8), types.Typ[types.Int]), types.NewSlice(types.Typ[types.Uint8]))
				st.flags["keep"] = sl
				for _, o := range p.total("bytes", e, f, st, sl, v) {
					for _, o2 := range p.total("bytes", e, g, o.st, sl) {
						p.verdict("bytes", where, g, e.same(o2.st, o2.ret[0], v), "reads "+o2.ret[0].String()+" where n was written")
					}
				}
				r.absorb(e)
			}
		}
		r.Need("bytes", 4)
	}

	// 2. addresses
	{
		for _, f := range P.fnsWith(func(s *types.Signature) bool {
			return params(s, isUint) && results(s, is("address.Address"))
		}) {
			_, e, st := p.engine()
			v := mkSym("n", f.Signature.Params().At(0).Type())
			for _, o := range p.partial(e, f, st.clone(), v) {
				p.verdict("address", fname(f), f, e.le(o.st, o.ret[0], pow2(40)), "makes an address of more than 40 bits")
				p.verdict("address", fname(f), f, e.same(o.st, o.ret[0], v), "the address differs from the number it is made of")
			}
			e.assume(st, mkLess(pow2(40), v), false)
			p.total("address", e, f, st, v)
			r.absorb(e)
		}
		for _, m := range P.methods("address.Address") {
			_, e, st := p.engine()
			at := P.named("address.Address")
			a, b := e.symVal(st, "a", at), e.symVal(st, "b", at)
			args := []*V{a, b}[:1+m.Signature.Params().Len()]
			if m.Signature.Params().Len() > 1 || m.Signature.Results().Len() != 1 {
				continue
			}
			for _, o := range p.partial(e, m, st, args...) {
				switch m.Name() {
				case "AsU64":
					p.verdict("address", fname(m), m, e.same(o.st, o.ret[0], a), "is not the value of the address")
				case "Add":
					p.verdict("address", fname(m), m, e.same(o.st, o.ret[0], mkAdd(mkConvTo(a, tU64()), mkConvTo(b, tU64()))), "is not the sum")
				case "Sub":
					p.verdict("address", fname(m), m, e.numEq(o.st, mkAdd(mkConvTo(o.ret[0], tU64()), mkConvTo(b, tU64())), mkConvTo(a, tU64())), "is not the difference")
				}
				if tyIs(m.Signature.Results().At(0).Type(), "address.Address") {
					p.verdict("address", fname(m), m, e.le(o.st, o.ret[0], pow2(40)), "makes an address of more than 40 bits")
				}
			}
			r.absorb(e)
		}
		r.Need("address", 5)
		// nobody else makes addresses or block sizes
		for _, f := range P.funcs {
			if f.Pkg == nil && f.Parent() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var x ssa.Value
					var t types.Type
					switch c := ins.(type) {
					case *ssa.ChangeType:
						x, t = c.X, c.Type()
					case *ssa.Convert:
						x, t = c.X, c.Type()
					default:
						continue
					}
					for _, k := range []string{"address.Address", "block.BlockSize"} {
						if !tyIs(t, k) || tyIs(x.Type(), k) {
							continue
						}
						home := k[:strings.Index(k, ".")]
						pk := f.Pkg
						if pk == nil && f.Parent() != nil {
							pk = f.Parent().Pkg
						}
						_, isC := x.(*ssa.Const)
						isC = isC || k == "address.Address" && unsignedBits(x) <= 40
						p.verdict("made-at-home", fname(f)+" "+k, f, isC || pk == P.pkg(home), "makes a value of "+k+" without the checks of its package")
					}
				}
			}
		}
		r.Need("made-at-home", 2)
		for _, f := range P.fnsWith(func(s *types.Signature) bool {
			return params(s, isUint) && s.Results().Len() == 2 && tyIs(s.Results().At(0).Type(), "block.BlockSize")
		}) {
			_, e, st := p.engine()
			v := mkSym("n", f.Signature.Params().At(0).Type())
			for _, o := range p.partial(e, f, st, v) {
				if !e.isNil(o.st, o.ret[1]) {
					continue
				}
				ok := e.le(o.st, mkInt(512, v.t), o.ret[0]) && e.numEq(o.st, mkRem(o.ret[0], 512), mkInt(0, v.t)) && e.same(o.st, o.ret[0], v)
				p.verdict("blocksize", fname(f), f, ok, "accepts a block size that is not a positive multiple of 512, or changes it")
			}
			r.absorb(e)
		}
		r.Need("blocksize", 1)
	}

	// 3. portions of a start and a length
	for _, k := range []string{"portion.DataPortion", "portion.JournalPortion"} {
		n := P.named(k)
		if n == nil {
			r.Add("portion", k, "-", "type not found", nil)
			continue
		}
		for _, f := range P.fnsWith(func(s *types.Signature) bool { return params(s, isUint, isUint) && results(s, is(k)) }) {
			_, e, st := p.engine()
			a, l := mkSym("start", f.Signature.Params().At(0).Type()), mkSym("len", f.Signature.Params().At(1).Type())
			e.assume(st, mkLess(pow2(40), a), false)
			for _, o := range p.total("portion", e, f, st, a, l) {
				p.verdict("portion", fname(f), f, e.same(o.st, fieldByName(o.ret[0], n, "Start"), a) && e.same(o.st, fieldByName(o.ret[0], n, "Len"), l), "the portion differs from the start and length it is made of")
			}
			r.absorb(e)
		}
		for _, m := range P.methods(k) {
			_, e, st := p.engine()
			v := e.symVal(st, "p", n)
			a, l := fieldByName(v, n, "Start"), fieldByName(v, n, "Len")
			bs := mkU64(512)
			args := []*V{v}
			if m.Signature.Params().Len() == 1 && tyIs(m.Signature.Params().At(0).Type(), "block.BlockSize") {
				args = append(args, mkConst(constant.MakeInt64(512), m.Signature.Params().At(0).Type()))
			} else if m.Signature.Params().Len() > 0 {
				continue
			}
			A, L := mkConvTo(a, tU64()), mkConvTo(l, tU64())
			for _, o := range p.total("portion", e, m, st, args...) {
				var want []*V
				switch m.Name() {
				case "AsInts":
					want = []*V{A, L}
				case "End":
					want = []*V{mkAdd(A, L)}
				case "ShiftBlockToBytes":
					want = []*V{mkMul(A, bs), mkMul(L, bs)}
				case "ShiftToPaddingBlock":
					if !e.assume(o.st, mkLess(mkU64(0), L), true) {
						continue
					}
					want = []*V{mkMul(mkSub(mkAdd(A, L), mkU64(1)), bs)}
				case "SizeOnDisk":
					want = []*V{mkMul(L, bs)}
					if k == "portion.JournalPortion" {
						want = []*V{L}
					}
				default:
					continue
				}
				for i, w := range want {
					p.verdict("portion", fname(m), m, e.same(o.st, o.ret[i], w), fmt.Sprintf("result %d is %s, not %s", i, o.ret[i], w))
				}
			}
			r.absorb(e)
		}
	}
	r.Need("portion", 8)

	// 4. extents packed in one integer
	isPacked := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !isUint(t) {
			return false
		}
		have := 0
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i).Name(); m == "Start" || m == "Len" {
				have++
			}
		}
		return have == 2
	}
	for _, f := range P.fnsWith(func(s *types.Signature) bool { return params(s, is("address.Address"), isUint) && results(s, isPacked) }) {
		_, e, st := p.engine()
		a := e.symVal(st, "start", f.Signature.Params().At(0).Type())
		l := mkSym("len", f.Signature.Params().At(1).Type())
		// larger lengths must be refused, others kept
		for _, o := range p.partial(e, f, st.clone(), a, l) {
			p.extentAcc(e, o.st, f.Signature.Results().At(0).Type(), o.ret[0], a, l, "extent", fname(f))
		}
		e.assume(st, mkLess(mkConst(constant.MakeUint64(1<<24-1), l.t), l), false)
		p.total("extent", e, f, st, a, l)
		r.absorb(e)
	}
	// from a data portion
	for _, f := range P.fnsWith(func(s *types.Signature) bool { return params(s, is("portion.DataPortion")) && results(s, isUint) }) {
		_, e, st := p.engine()
		n := P.named("portion.DataPortion")
		v := e.symVal(st, "p", n)
		t := f.Signature.Results().At(0).Type()
		if !isPacked(t) {
			// a key of the tree the allocator is rebuilt from
			t = P.named("storage/allocator.JudyPortion")
		}
		for _, o := range p.total("extent", e, f, st, v) {
			p.extentAcc(e, o.st, t, mkConvTo(o.ret[0], t), fieldByName(v, n, "Start"), fieldByName(v, n, "Len"), "extent", fname(f))
		}
		r.absorb(e)
	}
	// by size and back
	for _, f := range P.fnsWith(func(s *types.Signature) bool {
		return params(s, func(t types.Type) bool { return isUint(t) && !isPacked(t) }) && results(s, isPacked)
	}) {
		pt := f.Signature.Results().At(0).Type().(*types.Named)
		for _, m := range P.methods(shorten(pt.Obj().Pkg().Path()) + "." + pt.Obj().Name()) {
			if !(m.Signature.Params().Len() == 0 && results(m.Signature, func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == types.Uint64 })) {
				continue
			}
			_, e, st := p.engine()
			x := mkSym("x", pt)
			for _, o := range p.total("extent", e, m, st, x) {
				for _, o2 := range p.total("extent", e, f, o.st, o.ret[0]) {
					p.verdict("extent", fname(m)+" / "+f.Name(), f, e.same(o2.st, o2.ret[0], x), "the two forms of a free extent do not convert into each other")
				}
				// it is ordered by length: the length is in the upper bits
				for _, lm := range P.methods(shorten(pt.Obj().Pkg().Path()) + "." + pt.Obj().Name()) {
					if lm.Name() == "Len" {
						for _, o3 := range e.Run(lm, o.st.clone(), []*V{x}, nil) {
							hi := in.mk(V{k: KBin, name: ">>", args: []*V{o.ret[0], mkConst(constant.MakeInt64(40), tU64())}, t: tU64()})
							p.verdict("extent", fname(m)+" order", m, e.same(o3.st, hi, o3.ret[0]), "the upper 24 bits of the form that is sorted by size are not the length")
						}
					}
				}
			}
			r.absorb(e)
		}
	}
	r.Need("extent", 12)

	// 5. lump ids
	checkLumpIds(p)

	// 6. the index
	checkIndexPack(p)
}

func fieldByName(v *V, t types.Type, name string) *V {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldOf(v, i)
		}
	}
	return mkSym("nofield", nil)
}

func checkLumpIds(p *packer) {
	P, r := p.P, p.r
	idT := P.named("lump.LumpId")
	isId := is("lump.LumpId")
	meths := map[string][]*ssa.Function{}
	for _, m := range P.methods("lump.LumpId") {
		if m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
			k := m.Signature.Results().At(0).Type().Underlying().String()
			meths[k] = append(meths[k], m)
		}
	}
	back := P.fnsWith(func(s *types.Signature) bool {
		return s.Results().Len() >= 1 && isId(s.Results().At(0).Type()) && s.Params().Len() > 0
	})
	pair := func(m, f *ssa.Function, mkArgs func(v *V) []*V) {
		c, e, st := p.engine()
		_ = c
		old := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch ci.name {
			case "strconv.FormatUint":
				return []Outcome{{st, []*V{mkApp("format", types.Typ[types.String], ci.args...)}}}, true
			case "strconv.ParseUint":
				a := ci.args[0]
				if a.k == KApp && a.name == "format" && a.args[1] == ci.args[1] {
					bits, _ := ci.args[2].intConst()
					if bits == 0 || bits == 64 {
						return []Outcome{{st, []*V{a.args[0], theNil}}}, true
					}
				}
				return []Outcome{{st, []*V{e.Fresh(st, ci.site, ".n", tU64()), theNil}}}, true
			}
			return old(e, st, ci)
		}
		v := e.symVal(st, "id", idT)
		for _, o := range p.total("lump-id", e, m, st, v) {
			for _, o2 := range p.total("lump-id", e, f, o.st, mkArgs(o.ret[0])...) {
				if len(o2.ret) > 1 && !e.isNil(o2.st, o2.ret[1]) {
					p.verdict("lump-id", fname(m)+" / "+f.Name(), f, false, "rejects the form of a valid id")
					continue
				}
				ok, w := e.valEq(o2.st, v, o2.ret[0], idT)
				p.verdict("lump-id", fname(m)+" / "+f.Name(), f, ok, "gives another id"+w)
			}
		}
		r.absorb(e)
	}
	for _, f := range back {
		s := f.Signature
		switch {
		case s.Params().Len() == 1 && s.Params().At(0).Type().Underlying().String() == "[]byte":
			for _, m := range meths["[]byte"] {
				pair(m, f, func(v *V) []*V { return []*V{v} })
			}
		case s.Params().Len() == 1 && s.Params().At(0).Type().Underlying().String() == "string":
			for _, m := range meths["string"] {
				pair(m, f, func(v *V) []*V { return []*V{v} })
			}
		case s.Params().Len() == 2 && isUint(s.Params().At(0).Type()) && isUint(s.Params().At(1).Type()):
			for _, m := range meths["uint64"] {
				pair(m, f, func(v *V) []*V { return []*V{mkU64(0), v} })
			}
		}
	}
	r.Need("lump-id", 3)
}

// ---- the index: one entry that was inserted is looked up by every reader

func judyRecv(ci *CallInfo) string {
	if ci.fn == nil || ci.fn.Signature.Recv() == nil {
		return ""
	}
	t := ci.fn.Signature.Recv().Type().String()
	if !strings.Contains(t, "go-judy") {
		return ""
	}
	return t[strings.LastIndex(t, ".")+1:]
}

func checkIndexPack(p *packer) {
	P, r := p.P, p.r
	idxT := P.named("lumpindex.LumpIndex")
	idT := P.named("lump.LumpId")
	if idxT == nil {
		r.Add("index-location", "lumpindex", "-", "no LumpIndex", nil)
		return
	}
	portionI := P.named("portion.Portion").Underlying().(*types.Interface)
	for _, ins := range P.methods("lumpindex.LumpIndex") {
		s := ins.Signature
		if s.Params().Len() != 2 || !tyIs(s.Params().At(0).Type(), "lump.LumpId") || !types.Implements(s.Params().At(1).Type(), portionI) || !ins.Object().Exported() {
			continue
		}
		pt := s.Params().At(1).Type()
		where := fname(ins)
		_, e, st := p.engine()
		old := e.H.Call
		var set []*V
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch judyRecv(ci) {
			case "JudyL":
				k, v := st.flags["j:key"], st.flags["j:val"]
				sig := ci.sig.Results()
				switch ci.fn.Name() {
				case "Insert":
					st.flags["j:key"], st.flags["j:val"] = ci.args[1], ci.args[2]
					return []Outcome{{st, e.freshResults(st, ci)}}, true
				case "Get":
					if k == nil {
						return []Outcome{{st, []*V{mkU64(0), mkBool(false)}}}, true
					}
					if !e.same(st, k, ci.args[1]) {
						return []Outcome{{st, []*V{e.Fresh(st, ci.site, ".v", tU64()), e.Fresh(st, ci.site, ".ok", types.Typ[types.Bool])}}}, true
					}
					return []Outcome{{st, []*V{v, mkBool(true)}}}, true
				case "First", "Last":
					if k != nil && sig.Len() == 3 {
						return []Outcome{{st, []*V{k, v, mkBool(true)}}}, true
					}
				case "Next", "Prev":
					if sig.Len() == 3 {
						return []Outcome{{st, []*V{mkU64(0), mkU64(0), mkBool(false)}}}, true
					}
				}
			case "Judy1":
				if ci.fn.Name() == "Set" {
					set = append(set, e.canon(st, ci.args[1]))
				}
			}
			return old(e, st, ci)
		}
		id := e.symVal(st, "id", idT)
		data := e.symVal(st, "data", pt)
		// the id is in the range that readers ask for
		idx := mkSym("index", types.NewPointer(idxT))
		f := st.facts[idx]
		f.nilness = 2
		st.facts[idx] = f
		for _, o := range p.total("index-location", e, ins, st, idx, id, data) {
			if o.st.flags["j:key"] == nil {
				r.Add("index-location", where, P.pos(ins), "returns without an insertion into the tree", nil)
				continue
			}
			for _, rd := range P.methods("lumpindex.LumpIndex") {
				if !rd.Object().Exported() || rd == ins {
					continue
				}
				w := where + " / " + rd.Name()
				rs := rd.Signature
				switch {
				case params(rs, is("lump.LumpId")) && rs.Results().Len() == 2 && types.Identical(rs.Results().At(0).Type(), P.named("portion.Portion")):
					for _, o2 := range p.total("index-location", e, rd, o.st.clone(), idx, id) {
						v := o2.ret[0]
						ok := e.isNil(o2.st, o2.ret[1]) && v.k == KIface && types.Identical(v.t, pt)
						if ok {
							ok, _ = e.valEq(o2.st, data, v.args[0], pt)
						}
						p.verdict("index-location", w, rd, ok, "the location that was inserted is not found again")
					}
				case rs.Params().Len() == 3 && tyIs(rs.Params().At(0).Type(), "lump.LumpId"):
					if _, isF := rs.Params().At(2).Type().Underlying().(*types.Signature); !isF {
						continue
					}
					fn := mkSym("callback", rs.Params().At(2).Type())
					seen := 0
					hook := e.H.Call
					e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
						if ci.fn == nil && len(ci.args) == 2 && ci.method == nil && ci.args[0].t != nil && tyIs(ci.sig.Params().At(0).Type(), "lump.LumpId") {
							seen++
							ok, _ := e.valEq(st, id, ci.args[0], idT)
							v := ci.args[1]
							ok = ok && v.k == KIface && types.Identical(v.t, pt)
							if ok {
								ok, _ = e.valEq(st, data, v.args[0], pt)
							}
							p.verdict("index-location", w, rd, ok, "the callback gets another id or location than was inserted")
							return []Outcome{{st, []*V{theNil}}}, true
						}
						return hook(e, st, ci)
					}
					lo, hi := e.symVal(o.st, "lo", idT), e.symVal(o.st, "hi", idT)
					p.partial(e, rd, o.st.clone(), idx, lo, hi, fn)
					e.H.Call = hook
					if seen == 0 {
						r.Add("index-location", w, P.pos(rd), "the callback is never called", nil)
					}
				case rs.Params().Len() == 0 && rs.Results().Len() == 1:
					rt := rs.Results().At(0).Type()
					switch {
					case rt.String() == "[]"+P.named("portion.DataPortion").String():
						dp := P.named("portion.DataPortion")
						for _, o2 := range p.partial(e, rd, o.st.clone(), idx) {
							n := 0
							b, lo, ln := e.sliceParts(o2.st, o2.ret[0])
							l, ok1 := e.constOf(o2.st, lo)
							k, ok2 := e.constOf(o2.st, ln)
							if !ok1 || !ok2 {
								r.Add("index-location", w, P.pos(rd), "the list has unknown length for an index with one entry", nil)
								continue
							}
							bb, pp := splitPtr(b)
							for i := int64(0); i < k; i++ {
								el := e.loadLoc(o2.st, nil, bb, pp+idxPath(mkInt(l+i, types.Typ[types.Int])), dp)
								if ok, _ := e.valEq(o2.st, data, el, dp); ok && types.Identical(pt, dp) {
									n++
								}
							}
							want := 0
							if types.Identical(pt, dp) {
								want = 1
							}
							p.verdict("index-location", w, rd, n == want && (want == 1 || k <= 1), fmt.Sprintf("the list contains the location %d times, expected %d", n, want))
						}
					case strings.HasSuffix(rt.String(), "go-judy.Judy1"):
						set = nil
						dp := P.named("portion.DataPortion")
						jp := P.named("storage/allocator.JudyPortion")
						outs := p.partial(e, rd, o.st.clone(), idx)
						n := 0
						for _, k := range set {
							if c, ok := k.intConst(); ok && c == 0 {
								continue
							}
							if !types.Identical(pt, dp) {
								n += 2
								continue
							}
							okS, okL := false, false
							for _, m := range P.methods("storage/allocator.JudyPortion") {
								if m.Name() == "Start" || m.Name() == "Len" {
									for _, o2 := range e.Run(m, o.st.clone(), []*V{mkConvTo(k, jp)}, nil) {
										if m.Name() == "Start" {
											okS = e.same(o2.st, o2.ret[0], fieldByName(data, dp, "Start"))
										} else {
											okL = e.same(o2.st, o2.ret[0], fieldByName(data, dp, "Len"))
										}
									}
								}
							}
							if okS && okL {
								n++
							} else {
								n += 2
							}
						}
						want := 0
						if types.Identical(pt, dp) {
							want = 1
						}
						p.verdict("index-location", w, rd, n == want && len(outs) > 0, "the tree for the allocator does not hold exactly the location that was inserted")
					}
				}
			}
		}
		r.absorb(e)
	}
	r.Need("index-location", 8)
}

func init() {
	checks["C16"] = func(P *Program, r *Report) {
		r.Explanation = "packing and unpacking code executed symbolically on arbitrary values of the documented width; bits and linear forms of results are compared with the originals"
		r.Assumptions = []string{"the Judy tree returns what was stored", "strconv formats and parses the same base"}
		checkPack(P, r)
	}
	_ = token.ADD
}
