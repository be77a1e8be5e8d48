package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The snapshot file: used by C14 and C15.

type snapFile struct {
	P            *Program
	r            *Report
	bf, hdr, ent *types.Named
	wrHdr, wrEnt *ssa.Function
	rdHdr, rdEnt *ssa.Function
	create, open *ssa.Function
	write, read  *ssa.Function // of a region
	lookup       *ssa.Function
	hdrLen       int64
	entLen       int64
	globals      map[*ssa.Global]*ssa.Const
	bad          []string

	// what a reopened file holds
	header *V
	size   *V
	nEnt   int
	sync   bool // the file was opened for synchronous writes
	keeps  int
	onMade func(m *made)
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := underPtr(t)
	return ok && types.Identical(types.Unalias(p), n)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
}

func newSnapFile(P *Program, r *Report) *snapFile {
	c := &snapFile{P: P, r: r, globals: P.constGlobals()}
	c.bf, c.hdr, c.ent = P.named("nvm.BackingFile"), P.named("nvm.BackingFileHeader"), P.named("nvm.BitmapEntry")
	if c.bf == nil || c.hdr == nil || c.ent == nil {
		return nil
	}
	isStr := func(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.String]) }
	u32s := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isInt(s.Elem())
	}
	for _, f := range P.funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		s := f.Signature
		np, nr := s.Params().Len(), s.Results().Len()
		rt := func(i int) types.Type { return s.Results().At(i).Type() }
		pt := func(i int) types.Type { return s.Params().At(i).Type() }
		if s.Recv() == nil {
			switch {
			case nr == 2 && isError(rt(1)) && isPtrTo(rt(0), c.hdr) && np == 1 && pt(0).String() == "io.Reader":
				c.rdHdr = f
			case nr == 2 && isError(rt(1)) && types.Identical(rt(0), c.ent) && np == 1 && pt(0).String() == "io.Reader":
				c.rdEnt = f
			case nr == 2 && isError(rt(1)) && isPtrTo(rt(0), c.bf) && np == 1 && isStr(pt(0)):
				c.open = f
			case nr == 2 && isError(rt(1)) && isPtrTo(rt(0), c.bf) && np == 3 && isStr(pt(0)):
				c.create = f
			}
			continue
		}
		n := recvNamed(f)
		if n == nil {
			continue
		}
		switch n.Obj() {
		case c.hdr.Obj():
			if np == 1 && pt(0).String() == "io.Writer" {
				c.wrHdr = f
			}
		case c.ent.Obj():
			if np == 1 && pt(0).String() == "io.Writer" {
				c.wrEnt = f
			}
		case c.bf.Obj():
			if np == 2 && isBytes(pt(0)) && isInt(pt(1)) {
				if nr == 1 && isError(rt(0)) {
					c.write = f
				} else if nr == 2 {
					c.read = f
				}
			}
			if np == 2 && nr == 2 && u32s(rt(0)) && u32s(rt(1)) {
				c.lookup = f
			}
		}
	}
	for _, f := range []*ssa.Function{c.wrHdr, c.wrEnt, c.rdHdr, c.rdEnt, c.create, c.open, c.write, c.read, c.lookup} {
		if f == nil {
			return nil
		}
	}
	return c
}

// constGlobals: package variables that only their initialisation sets, to a constant.
func (P *Program) constGlobals() map[*ssa.Global]*ssa.Const {
	m := map[*ssa.Global]*ssa.Const{}
	no := map[*ssa.Global]bool{}
	seen := map[*ssa.Function]bool{}
	visit := func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						k, isC := x.Val.(*ssa.Const)
						if x.Addr != g || !isC || m[g] != nil || f.Name() != "init" || f.Parent() != nil {
							no[g] = true
						} else {
							m[g] = k
						}
					default:
						no[g] = true
					}
				}
			}
		}
	}
	for _, f := range P.funcs {
		visit(f)
		if f.Pkg != nil {
			if i := f.Pkg.Func("init"); i != nil {
				visit(i)
			}
		}
	}
	for g := range no {
		delete(m, g)
	}
	return m
}

func (c *snapFile) fail(rule, where string, f *ssa.Function, st *State, format string, a ...interface{}) {
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	c.r.Add(rule, where, c.P.pos(f), fmt.Sprintf(format, a...), tr)
}

// engine with a file: a position and a log of what is done.
func (c *snapFile) engine() (*Engine, *State) {
	P := c.P
	_, e := newCodec(P)
	st := newState()
	for g, k := range c.globals {
		if g.Pkg == c.create.Pkg && isInt(k.Type()) {
			e.storeLoc(st, in.mk(V{k: KGlobal, g: g, t: g.Type()}), "", in.mk(V{k: KConst, cv: k.Value, t: k.Type()}), k.Type())
		}
	}
	base := e.H.Call
	isFile := func(v *V) bool {
		for v != nil && (v.k == KIface || v.k == KAs) {
			v = v.args[0]
		}
		return v != nil && v.t != nil && v.t.String() == "*os.File"
	}
	// a file behind an io.LimitReader or the like
	fileOf := func(v *V) bool {
		if isFile(v) {
			return true
		}
		n := streamName(v)
		return strings.Contains(n, "limit") && strings.Contains(n, "file")
	}
	fork := func(e *Engine, st *State, ci *CallInfo, ok []*V) []Outcome {
		fl := st.clone()
		bad := e.freshResults(fl, ci)
		bad[len(bad)-1] = e.newErr(fl, ci.site, ".err")
		fl.setFlag("ioerr", "1")
		fl.note(callee(ci) + " fails at " + P.pos(ci.site))
		return []Outcome{{st, ok}, {fl, bad}}
	}
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		nr := ci.sig.Results().Len()
		switch {
		case strings.HasPrefix(ci.name, "(*sync."):
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case openers[ci.name]:
			f := e.Fresh(st, ci.site, ".file", ci.sig.Results().At(0).Type())
			st.facts[f] = Fact{nilness: 2}
			var flags *V = mkInt(0, types.Typ[types.Int])
			if len(ci.args) > 1 {
				flags = ci.args[1]
			}
			outs := fork(e, st, ci, []*V{f, theNil})
			addLog(st, mkStr("open"), ci.args[0], flags, f)
			st.setVal("fpos", mkU64(0))
			return outs, true
		case ci.fn == c.wrHdr || ci.fn == c.wrEnt:
			w := ci.args[len(ci.args)-1]
			if !isFile(w) {
				return nil, false
			}
			n := recvNamed(ci.fn)
			v := ci.args[0]
			if _, ok := underPtr(ci.fn.Signature.Recv().Type()); ok {
				v = e.Load(st, ci.site, v, n)
			}
			p := st.flags["fpos"]
			if p == nil {
				c.bad = append(c.bad, "a write at an unknown position at "+P.pos(ci.site))
				return nil, false
			}
			kind, ln := "hdr", c.hdrLen
			if ci.fn == c.wrEnt {
				kind, ln = "ent", c.entLen
			}
			outs := fork(e, st, ci, []*V{theNil})
			addLog(st, mkStr(kind), p, v)
			st.setVal("fpos", mkAdd(p, mkU64(uint64(ln))))
			st.note("writes " + kind + " at " + P.pos(ci.site))
			return outs, true
		case ci.fn == c.rdHdr && c.header != nil:
			if !fileOf(ci.args[0]) {
				return nil, false
			}
			p := st.flags["fpos"]
			h := e.makeRecv(st, fmt.Sprintf("hdr%d", c.keeps), types.NewPointer(c.hdr), c.header)
			c.keeps++
			outs := fork(e, st, ci, []*V{h, theNil})
			if p == nil || !e.numEq(st, p, mkU64(0)) {
				c.bad = append(c.bad, "the header is not read at the start of the file at "+P.pos(ci.site))
			}
			addLog(st, mkStr("rdhdr"))
			st.setVal("fpos", nil)
			return outs, true
		case ci.fn == c.rdEnt && c.header != nil:
			p := st.flags["fpos"]
			k := 0
			for _, x := range logOf(st) {
				if x.args[0].strConst() == "rdent" {
					k++
				}
			}
			if p == nil {
				c.bad = append(c.bad, "an entry is read at an unknown position at "+P.pos(ci.site))
				return nil, false
			}
			v := c.entry(k)
			outs := fork(e, st, ci, []*V{v, theNil})
			addLog(st, mkStr("rdent"), p, v)
			st.setVal("fpos", mkAdd(p, mkU64(uint64(c.entLen))))
			return outs, true
		case strings.HasPrefix(ci.name, "(*os.File)."):
			switch callee(ci) {
			case "Seek":
				if k, ok := ci.args[2].intConst(); !ok || k != 0 {
					c.bad = append(c.bad, "a seek that is not from the start at "+P.pos(ci.site))
				}
				outs := fork(e, st, ci, []*V{ci.args[1], theNil})
				st.setVal("fpos", mkConvTo(ci.args[1], tU64()))
				return outs, true
			case "Write", "WriteAt":
				p := st.flags["fpos"]
				if callee(ci) == "WriteAt" {
					p = mkConvTo(ci.args[2], tU64())
				} else if p == nil {
					c.bad = append(c.bad, "a write at an unknown position at "+P.pos(ci.site))
					return nil, false
				}
				n := e.lenOf(st, ci.args[1])
				outs := fork(e, st, ci, []*V{n, theNil})
				addLog(st, mkStr("data"), p, ci.args[1])
				if callee(ci) == "Write" {
					st.setVal("fpos", mkAdd(p, mkConvTo(n, tU64())))
				}
				st.note("writes data at " + P.pos(ci.site))
				return outs, true
			case "Read", "ReadAt":
				p := st.flags["fpos"]
				if callee(ci) == "ReadAt" {
					p = mkConvTo(ci.args[2], tU64())
				}
				if p != nil {
					addLog(st, mkStr("rd"), p, ci.args[1])
				}
				return fork(e, st, ci, []*V{e.lenOf(st, ci.args[1]), theNil}), true
			case "Sync":
				outs := fork(e, st, ci, []*V{theNil})
				addLog(st, mkStr("sync"))
				return outs, true
			case "Stat":
				info := e.freshResults(st, ci)[0]
				st.facts[info] = Fact{nilness: 2}
				return fork(e, st, ci, []*V{info, theNil}), true
			case "Close":
				return []Outcome{{st, []*V{theNil}}}, true
			}
			if nr > 0 && lastIsError(ci.sig) {
				return fork(e, st, ci, e.freshResults(st, ci)), true
			}
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		case callee(ci) == "Size" && ci.method != nil && c.size != nil && strings.HasSuffix(ci.recv.t.String(), "FileInfo"):
			return []Outcome{{st, []*V{mkConvTo(c.size, types.Typ[types.Int64])}}}, true
		case ci.name == "io.ReadFull" && isFile(ci.args[0]):
			if p := st.flags["fpos"]; p != nil {
				addLog(st, mkStr("rd"), p, ci.args[1])
			}
			return fork(e, st, ci, []*V{e.lenOf(st, ci.args[1]), theNil}), true
		case ci.fn != nil && ci.fn.Signature.Recv() == nil && P.inModule(ci.fn) && len(ci.args) == 3 && isBytes(ci.fn.Signature.Params().At(1).Type()) && isInt(ci.fn.Signature.Params().At(2).Type()) && nr == 2 && isFile(ci.args[0]):
			// util.ReadFull
			addLog(st, mkStr("rd"), mkConvTo(ci.args[2], tU64()), ci.args[1])
			return fork(e, st, ci, []*V{e.lenOf(st, ci.args[1]), theNil}), true
		case judyRecv(ci) != "":
			switch callee(ci) {
			case "Insert":
				addLog(st, mkStr("insert"), ci.args[1], ci.args[2])
				return []Outcome{{st, e.freshResults(st, ci)}}, true
			case "Get":
				k := int64(len(logOf(st)))
				if k > 12 {
					c.bad = append(c.bad, "the map is asked without an end at "+P.pos(ci.site))
					return []Outcome{}, true
				}
				st.flags["progress"] = mkInt(k, types.Typ[types.Int])
				no := st.clone()
				v := e.freshResults(st, ci)
				v[1] = mkBool(true)
				addLog(st, mkStr("get"), ci.args[1], v[0], mkBool(true))
				addLog(no, mkStr("get"), ci.args[1], v[0], mkBool(false))
				return []Outcome{{st, v}, {no, []*V{mkU64(0), mkBool(false)}}}, true
			}
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		return base(e, st, ci)
	}
	return e, st
}

func (c *snapFile) entry(k int) *V {
	s := structOf(c.ent)
	var fs []*V
	for i := 0; i < s.NumFields(); i++ {
		if strings.Contains(s.Field(i).Name(), "Origin") {
			fs = append(fs, mkSym(fmt.Sprintf("region%d", k), s.Field(i).Type()))
		} else {
			fs = append(fs, mkInt(int64(k), s.Field(i).Type()))
		}
	}
	return mkStruct(c.ent, fs)
}

// byteLen: how many bytes the writer of t writes.
func (c *snapFile) byteLen(wr *ssa.Function, t *types.Named) int64 {
	_, e := newCodec(c.P)
	st := newState()
	v := e.symVal(st, "val", t)
	recv := e.makeRecv(st, "valcell", wr.Signature.Recv().Type(), v)
	st.flags["w:W"] = mkTuple()
	st.flags["keep"] = v
	n := int64(-1)
	for _, o := range e.Run(wr, st, []*V{recv, mkSym("W", ioType(c.P, "Writer"))}, nil) {
		if !e.isNil(o.st, o.ret[0]) {
			continue
		}
		l, ok := e.constOf(o.st, e.sumLen(stoks(o.st, "w:W")))
		if !ok || n >= 0 && n != l {
			return -1
		}
		n = l
	}
	return n
}

// intFields of the snapshot file object.
func (c *snapFile) intFields() []int {
	var out []int
	s := structOf(c.bf)
	for i := 0; i < s.NumFields(); i++ {
		if isInt(s.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func (c *snapFile) get(e *Engine, st *State, p *V, i int) *V {
	s := structOf(c.bf)
	base, path := splitPtr(p)
	return e.loadLoc(st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
}

func (c *snapFile) set(e *Engine, st *State, p *V, i int, v *V) {
	s := structOf(c.bf)
	base, path := splitPtr(p)
	e.storeLoc(st, base, path+"."+s.Field(i).Name(), mkConvTo(v, s.Field(i).Type()), s.Field(i).Type())
}
