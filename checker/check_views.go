package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: device views. The methods of a view are executed on an arbitrary view
// (start, end and position are multiples of the block size, in order) with
// arbitrary arguments; every access to the file or to the memory below has to be
// inside the view, at the place that was asked for, and aligned.

const viewBlock = 512

type viewCk struct {
	P    *Program
	r    *Report
	nt   *types.Named
	rel  string
	ptr  types.Type
	file bool
	// leaves of the receiver
	vsL, veL, curL *V
	veHasVs        bool
	curHasVs       bool
	memL           *V
	where          string
	rule           string
}

type viewState struct {
	e            *Engine
	st           *State
	recv         *V
	vs, ve, pos  *V
	cur          *V
	fileV        *V
	mem          *V
	buf, off     *V
	seen         map[string]bool
	accesses     int
	stores       map[*ssa.Function]bool
	skipWhere    bool
	copyOk       int
	checkOffsets bool
}

func (c *viewCk) bad(rule string, site interface{ Pos() tokenPos }, msg string, st *State) {
	pos := "-"
	if site != nil {
		pos = c.P.pos(site)
	}
	var tr []string
	if st != nil {
		tr = st.trailMsgs()
	}
	c.r.Add(rule, c.where, pos, msg, tr)
}

func (c *viewCk) get(e *Engine, st *State, recv *V, name string) *V {
	m := c.P.method(c.rel, name)
	if m == nil {
		return nil
	}
	outs := e.Run(m, st.clone(), []*V{recv}, nil)
	if len(outs) != 1 {
		return nil
	}
	return outs[0].ret[0]
}

// leavesOf: the unknown values a form depends on.
func leavesOf(v *V, out map[*V]bool) {
	if v.k == KSym {
		out[v] = true
		return
	}
	if v.k == KApp && v.name == "len" {
		out[v] = true
		return
	}
	for _, a := range v.args {
		leavesOf(a, out)
	}
}

func (c *viewCk) discover() bool {
	e := NewEngine(c.P)
	e.numeric = true
	st := newState()
	rec := e.symVal(st, "v", c.nt)
	recv := e.makeRecv(st, "view", c.ptr, rec)
	pos := c.get(e, st, recv, "Position")
	if pos == nil {
		return false
	}
	pl := map[*V]bool{}
	leavesOf(pos, pl)
	if !c.file {
		capv := c.get(e, st, recv, "Capacity")
		if capv == nil {
			return false
		}
		cl := map[*V]bool{}
		leavesOf(capv, cl)
		if len(cl) != 1 || len(pl) != 1 {
			return false
		}
		for v := range cl {
			if v.k == KApp {
				c.memL = v.args[0]
			}
		}
		for v := range pl {
			c.curL = v
		}
		return c.memL != nil
	}
	vs, ve := c.get(e, st, recv, "ViewStart"), c.get(e, st, recv, "ViewEnd")
	if vs == nil || ve == nil || vs.k != KSym {
		return false
	}
	c.vsL = vs
	el := map[*V]bool{}
	leavesOf(ve, el)
	c.veHasVs = el[vs]
	delete(el, vs)
	c.curHasVs = pl[vs]
	delete(pl, vs)
	if len(el) != 1 || len(pl) != 1 {
		return false
	}
	for v := range el {
		c.veL = v
	}
	for v := range pl {
		c.curL = v
	}
	return c.curL != c.veL
}

func mkBlocks(k *V, t types.Type) *V { return mkConvTo(mkMul(k, mkU64(viewBlock)), t) }

// start makes an arbitrary view.
func (c *viewCk) start() *viewState {
	_, e := newCodec(c.P)
	e.exactCopy = true
	st := newState()
	s := &viewState{e: e, st: st, seen: map[string]bool{}}
	rec := e.symVal(st, "v", c.nt)
	m := map[*V]*V{}
	keep := []*V{}
	if c.file {
		ks, ke, kc := mkSym("firstBlock", tU64()), mkSym("endBlock", tU64()), mkSym("cursorBlock", tU64())
		e.assumeLe(st, ke, mkU64(1<<53))
		e.assumeLe(st, ks, ke)
		e.assumeLe(st, ks, kc)
		e.assumeLe(st, kc, ke)
		m[c.vsL] = mkBlocks(ks, c.vsL.t)
		if c.veHasVs {
			m[c.veL] = mkBlocks(mkSub(ke, ks), c.veL.t)
		} else {
			m[c.veL] = mkBlocks(ke, c.veL.t)
		}
		if c.curHasVs {
			m[c.curL] = mkBlocks(kc, c.curL.t)
		} else {
			m[c.curL] = mkBlocks(mkSub(kc, ks), c.curL.t)
		}
		keep = append(keep, ks, ke, kc)
		rec = subst(rec, m, map[*V]*V{})
	} else {
		f := st.facts[c.memL]
		f.nilness = 2
		st.facts[c.memL] = f
		ln := e.lenOf(st, c.memL)
		e.assumeLe(st, mkConvTo(ln, tU64()), mkU64(1<<62))
		e.assumeLe(st, mkInt(0, ln.t), ln)
		e.assumeLe(st, mkConvTo(c.curL, tU64()), mkConvTo(ln, tU64()))
		keep = append(keep, c.memL, c.curL)
		s.mem = c.memL
	}
	s.recv = e.makeRecv(st, "view", c.ptr, rec)
	st.flags["keep"] = mkTuple(append(keep, s.recv, rec)...)
	s.measure(c, st)
	if c.file {
		u := structOf(c.nt)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Type().String() == "*os.File" {
				s.fileV = fieldOf(rec, i)
				f := st.facts[s.fileV]
				f.nilness = 2
				st.facts[s.fileV] = f
			}
		}
	}
	return s
}

type viewM struct{ vs, ve, pos *V }

// at reads a view through its accessors.
func (c *viewCk) at(e *Engine, st *State, recv *V) (viewM, bool) {
	pos := c.get(e, st, recv, "Position")
	if !c.file {
		cp := c.get(e, st, recv, "Capacity")
		return viewM{mkU64(0), cp, pos}, cp != nil && pos != nil
	}
	vs, ve := c.get(e, st, recv, "ViewStart"), c.get(e, st, recv, "ViewEnd")
	return viewM{vs, ve, pos}, vs != nil && ve != nil && pos != nil
}

func (s *viewState) measure(c *viewCk, st *State) {
	m, _ := c.at(s.e, st, s.recv)
	s.vs, s.ve, s.pos = m.vs, m.ve, m.pos
}

// multiple: v is a multiple of the block size.
func (e *Engine) multiple(st *State, v *V, k uint64) bool {
	n := e.newNum(st, v)
	f := n.lin(v)
	bk := new(big.Int).SetUint64(k)
	if new(big.Int).Mod(f.c, bk).Sign() != 0 {
		return false
	}
	for a, co := range f.m {
		if new(big.Int).Mod(co, bk).Sign() == 0 {
			continue
		}
		ok := false
		for _, x := range []*V{a, mkConvTo(a, tU64())} {
			if e.decide(st, mkEq(mkRem(x, k), mkConvTo(mkU64(0), x.t))) == 1 {
				ok = true
			}
			if x.t != nil && e.decide(st, mkEq(mkRem(x, k), mkInt(0, x.t))) == 1 {
				ok = true
			}
		}
		if !ok {
			ok = n.eqMultiple(a, bk)
		}
		// whatever wraps around is a multiple of the power of two k
		for a.k == KConv && k&(k-1) == 0 {
			if w, _, okw := typeBits(a.t); !okw || 1<<(w-1) < k {
				break
			}
			a = a.args[0]
			ok = ok || a.k != KBin && e.multiple(st, a, k)
		}
		if !ok && a.k == KBin && (a.name == "+" || a.name == "-") && k&(k-1) == 0 && isInt(a.t) {
			ok = e.multiple(st, a.args[0], k) && e.multiple(st, a.args[1], k)
		}
		if !ok {
			return false
		}
	}
	return true
}

// eqMultiple: an equation of the path makes a a multiple of k.
func (n *numCtx) eqMultiple(a *V, k *big.Int) bool {
	for i, f := range n.cons {
		co, ok := f.m[a]
		if !ok || new(big.Int).Abs(co).Cmp(bigOne) != 0 {
			continue
		}
		all := new(big.Int).Mod(f.c, k).Sign() == 0
		for b, c := range f.m {
			if b != a && new(big.Int).Mod(c, k).Sign() != 0 {
				all = false
			}
		}
		if !all {
			continue
		}
		neg := f.times(bigNeg)
		for j, g := range n.cons {
			if i != j && sameForm(neg, g) {
				return true
			}
		}
	}
	return false
}

func (s *viewState) hook(c *viewCk) {
	e := s.e
	base := e.H.Call
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if strings.HasPrefix(ci.name, "(*os.File).") {
			return c.fileCall(s, st, ci)
		}
		return base(e, st, ci)
	}
	if !c.file {
		e.H.Bounds = func(e *Engine, st *State, site ssa.Instruction, lo, hi, max *V) {
			tInt := types.Typ[types.Int]
			// unsigned bounds beyond the positive ints panic, too
			okSign := true
			for _, v := range []*V{lo, hi} {
				if v.t != nil && isUint(v.t) && !e.le(st, mkConvTo(v, tU64()), mkU64(1<<63-1)) {
					okSign = false
				}
			}
			l, h := mkConvTo(lo, tInt), mkConvTo(hi, tInt)
			if okSign && e.le(st, mkInt(0, tInt), l) && e.le(st, l, h) && e.le(st, h, max) {
				c.r.Ok("in-range", c.where)
			} else {
				c.bad("in-range", site, fmt.Sprintf("slices %s..%s of %s bytes", lo, hi, max), st)
			}
		}
		e.H.Copy = func(e *Engine, st *State, site ssa.Instruction, dst, src *V) {
			c.copied(s, st, site, dst, src)
		}
	}
	e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {
		c.bad("no-panic", site, "panics on an argument", st)
	}
}

// copied: bytes move between the device at the place asked for and the buffer.
func (c *viewCk) copied(s *viewState, st *State, site ssa.Instruction, dst, src *V) {
	e := s.e
	if s.buf == nil {
		return
	}
	db, dlo, _ := e.sliceParts(st, dst)
	sb, slo, _ := e.sliceParts(st, src)
	memB, _, _ := e.sliceParts(st, s.mem)
	bufB, _, _ := e.sliceParts(st, s.buf)
	zero := mkInt(0, types.Typ[types.Int])
	place := s.pos
	if s.off != nil {
		place = s.off
	}
	place = mkConvTo(place, types.Typ[types.Int])
	var mlo, blo *V
	var dir string
	switch {
	case db == memB && sb == bufB:
		mlo, blo, dir = dlo, slo, "write"
	case sb == memB && db == bufB:
		mlo, blo, dir = slo, dlo, "read"
	default:
		return
	}
	s.accesses++
	if (dir == "write") != strings.HasPrefix(s.method(), "Write") {
		c.bad("place", site, "a "+dir+" where the other is asked for", st)
		return
	}
	if e.numEq(st, mlo, place) && e.numEq(st, blo, zero) {
		c.r.Ok("place", c.where)
	} else {
		c.bad("place", site, fmt.Sprintf("a %s at %s of the view and %s of the buffer, asked for %s", dir, mlo, blo, place), st)
	}
}

func (s *viewState) method() string {
	for k := range s.seen {
		return k
	}
	return ""
}

func (c *viewCk) fileCall(s *viewState, st *State, ci *CallInfo) ([]Outcome, bool) {
	e := s.e
	m := strings.TrimPrefix(ci.name, "(*os.File).")
	tInt, t64 := types.Typ[types.Int], types.Typ[types.Int64]
	if ci.args[0] != s.fileV || s.vs == nil {
		return nil, false
	}
	switch m {
	case "Seek", "Stat", "Fd", "Name", "Sync", "Close", "SyscallConn":
		return nil, false
	case "ReadAt", "WriteAt":
	default:
		c.bad("in-range", ci.site, "uses os.File."+m+", which is not limited to the view", st)
		return nil, false
	}
	s.accesses++
	buf, off := ci.args[1], ci.args[2]
	b, lo, ln := e.sliceParts(st, buf)
	offU := mkConvTo(off, tU64())
	ok := e.le(st, mkInt(0, t64), off) && e.le(st, s.vs, offU) && e.le(st, offU, s.ve) &&
		e.le(st, mkInt(0, tInt), ln) && e.le(st, mkConvTo(ln, tU64()), mkSub(s.ve, offU))
	if ok {
		c.r.Ok("in-range", c.where)
	} else {
		c.bad("in-range", ci.site, fmt.Sprintf("os.File.%s of %s bytes at %s may leave the view %s..%s", m, ln, off, s.vs, s.ve), st)
	}
	if e.multiple(st, off, viewBlock) && e.multiple(st, ln, viewBlock) {
		c.r.Ok("aligned", c.where)
	} else {
		c.bad("aligned", ci.site, fmt.Sprintf("os.File.%s of %s bytes at %s may be unaligned", m, ln, off), st)
	}
	if s.buf != nil {
		bufB, _, _ := e.sliceParts(st, s.buf)
		want := mkAdd(s.vs, s.pos)
		if s.off != nil {
			want = mkAdd(s.vs, mkConvTo(s.off, tU64()))
		}
		if e.numEq(st, offU, want) && b == bufB && e.numEq(st, lo, mkInt(0, tInt)) {
			c.r.Ok("place", c.where)
		} else {
			c.bad("place", ci.site, fmt.Sprintf("os.File.%s at %s with %s of the caller's buffer, asked for %s", m, off, lo, want), st)
		}
		if strings.HasPrefix(m, "Write") != strings.HasPrefix(s.method(), "Write") {
			c.bad("place", ci.site, "os.File."+m+" is used where the other direction is asked for", st)
		}
	}
	var outs []Outcome
	fs := st.clone()
	n := e.Fresh(fs, ci.site, ".n", tInt)
	e.assumeLe(fs, mkInt(0, tInt), n)
	e.assumeLe(fs, n, ln)
	er := e.Fresh(fs, ci.site, ".err", ci.sig.Results().At(1).Type())
	f := fs.facts[er]
	f.nilness = 2
	fs.facts[er] = f
	outs = append(outs, Outcome{fs, []*V{n, er}}, Outcome{st, []*V{ln, theNil}})
	return outs, true
}

// invariant at a return.
func (c *viewCk) fixed(s *viewState, st *State, m *ssa.Function) (viewM, bool) {
	now, ok := c.at(s.e, st, s.recv)
	if !ok {
		c.bad("view-fixed", m, "the view cannot be read", st)
		return now, false
	}
	e := s.e
	if e.numEq(st, now.vs, s.vs) && e.numEq(st, now.ve, s.ve) {
		c.r.Ok("view-fixed", c.where)
	} else {
		c.bad("view-fixed", m, "the bounds of the view change", st)
		return now, false
	}
	if e.le(st, now.pos, mkSub(s.ve, s.vs)) && (!c.file || e.multiple(st, now.pos, viewBlock)) {
		c.r.Ok("position", c.where)
		return now, true
	}
	if debugCounts {
		fmt.Println(c.where, dumpFacts(st))
	}
	c.bad("position", m, fmt.Sprintf("the position becomes %s, which may be outside the view %s..%s or unaligned", now.pos, s.vs, s.ve), st)
	return now, false
}

func (c *viewCk) mayFail(e *Engine, st *State, v *V) bool { return !e.notNilV(st, v) }

func (c *viewCk) methods() {
	P := c.P
	for _, m := range P.methods(c.rel) {
		if !m.Object().Exported() || len(m.Blocks) == 0 {
			continue
		}
		c.where = fname(m)
		switch m.Name() {
		case "Seek":
			c.seek(m)
			continue
		case "Split":
			c.split(m)
			continue
		}
		s := c.start()
		s.seen[m.Name()] = true
		e, st := s.e, s.st
		args := []*V{s.recv}
		keep := []*V{st.flags["keep"]}
		io := false
		for _, p := range m.Params[1:] {
			a := e.symVal(st, "arg."+p.Name(), p.Type())
			args = append(args, a)
			keep = append(keep, a)
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				s.buf = a
				f := st.facts[a]
				f.nilness = 2
				st.facts[a] = f
				ln := e.lenOf(st, a)
				e.assumeLe(st, mkInt(0, ln.t), ln)
				e.assumeLe(st, mkConvTo(ln, tU64()), mkU64(1<<62))
				io = true
			} else if isInt(p.Type()) {
				s.off = a
			}
		}
		st.flags["keep"] = mkTuple(keep...)
		s.hook(c)
		n := 0
		for _, o := range e.Run(m, st, args, nil) {
			now, ok := c.fixed(s, o.st, m)
			if !ok || !io || m.Signature.Results().Len() != 2 || e.notNilV(o.st, o.ret[1]) {
				continue
			}
			n++
			cnt, ln := o.ret[0], e.lenOf(o.st, s.buf)
			if e.le(o.st, mkInt(0, cnt.t), cnt) && e.le(o.st, cnt, ln) {
				c.r.Ok("count", c.where)
			} else {
				c.bad("count", m, "the count "+cnt.String()+" returned without an error may be outside the buffer", o.st)
			}
			if s.off != nil {
				offU := mkConvTo(s.off, tU64())
				if !(e.le(o.st, mkInt(0, s.off.t), s.off) && e.le(o.st, offU, mkSub(s.ve, s.vs))) {
					c.bad("refuses", m, "an offset outside the view is not refused", o.st)
				} else if c.file && !(e.multiple(o.st, s.off, viewBlock) && e.multiple(o.st, ln, viewBlock)) {
					c.bad("refuses", m, "an unaligned access is not refused", o.st)
				} else {
					c.r.Ok("refuses", c.where)
				}
				if !e.numEq(o.st, now.pos, s.pos) {
					c.bad("position", m, "the position changes to "+now.pos.String(), o.st)
				}
			} else {
				if c.file && !e.multiple(o.st, ln, viewBlock) {
					c.bad("refuses", m, "an unaligned access is not refused", o.st)
				} else {
					c.r.Ok("refuses", c.where)
				}
				if e.numEq(o.st, now.pos, mkAdd(s.pos, mkConvTo(cnt, tU64()))) {
					c.r.Ok("advance", c.where)
				} else {
					c.bad("advance", m, fmt.Sprintf("the position moves from %s to %s although %s bytes are reported", s.pos, now.pos, cnt), o.st)
				}
			}
		}
		if io && (n == 0 || s.accesses == 0) {
			c.bad("place", m, "no access is ever made", nil)
		}
		c.r.absorb(e)
	}
}

func (c *viewCk) seek(m *ssa.Function) {
	for w := int64(-1); w <= 2; w++ {
		s := c.start()
		s.seen["Seek"] = true
		e, st := s.e, s.st
		off := mkSym("offset", m.Params[1].Type())
		wh := mkSym("whence", m.Params[2].Type())
		if w >= 0 {
			wh = mkInt(w, wh.t)
			e.assumeLe(st, off, mkInt(1<<61, off.t))
			e.assumeLe(st, mkInt(-1<<61, off.t), off)
		}
		st.flags["keep"] = mkTuple(st.flags["keep"], off, wh)
		s.hook(c)
		n := 0
		for _, o := range e.Run(m, st, []*V{s.recv, off, wh}, nil) {
			now, ok := c.fixed(s, o.st, m)
			if !ok || e.notNilV(o.st, o.ret[1]) {
				continue
			}
			n++
			if w < 0 {
				continue
			}
			t64 := types.Typ[types.Int64]
			from := mkInt(0, t64)
			if w == 1 {
				from = mkConvTo(s.pos, t64)
			}
			if w == 2 {
				from = mkConvTo(mkSub(s.ve, s.vs), t64)
			}
			if e.numEq(o.st, mkConvTo(now.pos, t64), mkAdd(from, off)) {
				c.r.Ok("seek-exact", fmt.Sprintf("%s whence %d", c.where, w))
			} else {
				c.bad("seek-exact", m, fmt.Sprintf("whence %d moves the position to %s", w, now.pos), o.st)
			}
		}
		if n == 0 {
			c.bad("seek-exact", m, "never succeeds", nil)
		}
		c.r.absorb(e)
	}
}

func (c *viewCk) split(m *ssa.Function) {
	s := c.start()
	s.seen["Split"] = true
	e, st := s.e, s.st
	p := mkSym("position", m.Params[1].Type())
	st.flags["keep"] = mkTuple(st.flags["keep"], p)
	s.hook(c)
	n := 0
	for _, o := range e.Run(m, st, []*V{s.recv, p}, nil) {
		if _, ok := c.fixed(s, o.st, m); !ok {
			continue
		}
		if !c.unmoved(s, o.st, m) || e.notNilV(o.st, o.ret[2]) {
			continue
		}
		n++
		if !e.le(o.st, mkConvTo(p, tU64()), mkSub(s.ve, s.vs)) || !e.multiple(o.st, p, viewBlock) {
			c.bad("split", m, "a position outside the view or an unaligned one is not refused", o.st)
			continue
		}
		mid := mkAdd(s.vs, mkConvTo(p, tU64()))
		want := [2][2]*V{{s.vs, mid}, {mid, s.ve}}
		for i := 0; i < 2; i++ {
			side := []string{"left", "right"}[i]
			v := o.ret[i]
			if v.k != KIface || !types.Identical(v.t, c.ptr) {
				c.bad("split", m, "the "+side+" part is not a view of the same kind", o.st)
				continue
			}
			if c.file {
				got, ok := c.at(e, o.st, v.args[0])
				if !ok || !e.numEq(o.st, got.vs, want[i][0]) || !e.numEq(o.st, got.ve, want[i][1]) || !e.numEq(o.st, got.pos, mkU64(0)) {
					c.bad("split", m, fmt.Sprintf("the %s part is %s..%s at %s, not %s..%s", side, got.vs, got.ve, got.pos, want[i][0], want[i][1]), o.st)
					continue
				}
				if c.fileOf(e, o.st, v.args[0]) != s.fileV {
					c.bad("split", m, "the "+side+" part is not on the same file", o.st)
					continue
				}
			} else {
				got := c.memOf(e, o.st, v.args[0])
				if got == nil {
					c.bad("split", m, "the "+side+" part is not understood", o.st)
					continue
				}
				gb, glo, gln := e.sliceParts(o.st, got)
				mb, _, _ := e.sliceParts(o.st, s.mem)
				pos := c.get(e, o.st, v.args[0], "Position")
				end := mkAdd(mkConvTo(glo, tU64()), mkConvTo(gln, tU64()))
				if gb != mb || !e.numEq(o.st, mkConvTo(glo, tU64()), want[i][0]) || !e.numEq(o.st, end, want[i][1]) || !e.numEq(o.st, pos, mkU64(0)) {
					c.bad("split", m, fmt.Sprintf("the %s part is %s+%s of %s, not %s..%s", side, glo, gln, gb, want[i][0], want[i][1]), o.st)
					continue
				}
			}
			c.r.Ok("split", c.where+" "+side)
		}
	}
	if n == 0 {
		c.bad("split", m, "never succeeds", nil)
	}
	c.r.absorb(e)
}

func (c *viewCk) unmoved(s *viewState, st *State, m *ssa.Function) bool {
	now, ok := c.at(s.e, st, s.recv)
	if !ok || !s.e.numEq(st, now.pos, s.pos) {
		c.bad("position", m, "the position changes", st)
		return false
	}
	return true
}

func (c *viewCk) fieldWith(e *Engine, st *State, recv *V, ok func(types.Type) bool) *V {
	u := structOf(c.nt)
	for i := 0; i < u.NumFields(); i++ {
		if ok(u.Field(i).Type()) {
			return e.Load(st, nil, mkPtr(recv, "."+u.Field(i).Name()), u.Field(i).Type())
		}
	}
	return nil
}

func (c *viewCk) fileOf(e *Engine, st *State, recv *V) *V {
	return c.fieldWith(e, st, recv, func(t types.Type) bool { return t.String() == "*os.File" })
}

func (c *viewCk) memOf(e *Engine, st *State, recv *V) *V {
	return c.fieldWith(e, st, recv, func(t types.Type) bool { return t.String() == "[]byte" })
}

// makers: functions that open or create a view.
func (c *viewCk) makers(seen map[*ssa.Function]bool) {
	for _, f := range c.P.fnsWith(func(s *types.Signature) bool {
		return s.Results().Len() >= 1 && types.Identical(s.Results().At(0).Type(), c.ptr)
	}) {
		if c.P.helper(f) {
			continue // judged where it is called
		}
		c.where = fname(f)
		_, e := newCodec(c.P)
		e.exactCopy = true
		st := newState()
		var args, keep []*V
		var size *V
		for _, p := range f.Params {
			a := e.symVal(st, "arg."+p.Name(), p.Type())
			args = append(args, a)
			if isUint(p.Type()) {
				size = a
			}
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				size = e.lenOf(st, a)
				e.assumeLe(st, mkInt(0, size.t), size)
			}
		}
		keep = append(keep, args...)
		st.flags["keep"] = mkTuple(keep...)
		base := e.H.Call
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.name == "syscall.Fallocate" {
				// success only for a positive length that was given to the file
				fs := st.clone()
				er := e.newErr(fs, ci.site, ".err")
				e.assume(st, mkLess(mkInt(0, ci.args[3].t), ci.args[3]), true)
				st.setVal("alloc", ci.args[3])
				return []Outcome{{st, []*V{theNil}}, {fs, []*V{er}}}, true
			}
			return base(e, st, ci)
		}
		e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {}
		last := f.Signature.Results().Len() - 1
		n := 0
		for _, o := range e.Run(f, st, args, nil) {
			if isError(f.Signature.Results().At(last).Type()) && e.notNilV(o.st, o.ret[last]) {
				continue
			}
			n++
			v := o.ret[0]
			got, ok := c.at(e, o.st, v)
			if !ok {
				c.bad("made", f, "the view is not understood", o.st)
				continue
			}
			sz := mkSub(got.ve, got.vs)
			okk := e.numEq(o.st, got.vs, mkU64(0)) && e.numEq(o.st, got.pos, mkU64(0))
			why := "does not start at 0 with its position at 0"
			if okk && size != nil {
				okk = e.numEq(o.st, sz, mkConvTo(size, tU64()))
				why = fmt.Sprintf("has %s bytes, not the size asked for", sz)
				if okk && !e.multiple(o.st, sz, viewBlock) {
					okk = false
					why = "may have a size that is not a multiple of the block size"
				}
				if okk && c.file {
					a := o.st.flags["alloc"]
					for a != nil && a.k == KConv {
						if w, _, _ := typeBits(a.t); w != 64 {
							break
						}
						a = a.args[0]
					}
					if a == nil || !e.numEq(o.st, mkConvTo(a, tU64()), sz) {
						okk, why = false, "is larger than the space allocated for it"
					}
				}
			}
			if okk && c.file && size == nil {
				// opened: the size comes from the superblock that is returned
				okk = false
				why = "does not have the size that the superblock gives"
				for i := 1; i < last; i++ {
					hp, isP := underPtr(f.Signature.Results().At(i).Type())
					if !isP {
						continue
					}
					hn, isN := types.Unalias(hp).(*types.Named)
					if !isN {
						continue
					}
					m := c.P.method(shorten(hn.Obj().Pkg().Path())+"."+hn.Obj().Name(), "StorageSize")
					if m == nil {
						continue
					}
					for _, so := range e.Run(m, o.st.clone(), []*V{o.ret[i]}, nil) {
						okk = e.numEq(so.st, so.ret[0], sz)
					}
				}
			}
			if okk {
				c.r.Ok("made", c.where)
			} else {
				c.bad("made", f, "the new view "+why, o.st)
			}
		}
		if n == 0 {
			c.bad("made", f, "never succeeds", nil)
		}
		c.r.absorb(e)
		for g := range e.funcsSeen {
			seen[g] = true
		}
	}
}

// writers: the bounds and the position are changed only in functions examined here.
func (c *viewCk) writers(seen map[*ssa.Function]bool) {
	leaf := map[string]bool{}
	for _, l := range []*V{c.vsL, c.veL, c.curL, c.memL} {
		if l != nil && l.k == KSym {
			leaf[c.rel+strings.TrimPrefix(l.name, "v")] = true
		}
	}
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !leaf[fieldAddrKey(fa)] {
					continue
				}
				c.where = fname(f)
				if seen[f] {
					c.r.Ok("writers", c.where)
				} else {
					c.bad("writers", ins, "changes a view but is not one of the operations of the view", nil)
				}
			}
		}
	}
}

func checkViews(P *Program, r *Report) {
	nf := 0
	for _, t := range P.implementers("nvm.NonVolatileMemory") {
		pt, ok := underPtr(t)
		if !ok {
			pt = t
		}
		nt := types.Unalias(pt).(*types.Named)
		if shorten(nt.Obj().Pkg().Path()) != "nvm" {
			continue
		}
		c := &viewCk{P: P, r: r, nt: nt, rel: "nvm." + nt.Obj().Name(), ptr: t}
		mem, nested := false, false
		u := structOf(nt)
		for i := 0; u != nil && i < u.NumFields(); i++ {
			switch ft := u.Field(i).Type(); {
			case ft.String() == "*os.File":
				c.file = true
			case ft.String() == "[]byte":
				mem = true
			default:
				if p, ok := underPtr(ft); ok {
					ft = p
				}
				if types.Implements(types.NewPointer(ft), P.named("nvm.NonVolatileMemory").Underlying().(*types.Interface)) {
					nested = true
				}
			}
		}
		if nested || !c.file && !mem {
			continue // passes everything on (C14)
		}
		nf++
		c.where = c.rel
		if !c.discover() {
			c.bad("in-range", nt.Obj(), "start, end and position of the view are not understood", nil)
			continue
		}
		c.methods()
		seen := map[*ssa.Function]bool{}
		c.makers(seen)
		for _, f := range P.methods(c.rel) {
			for g := range reachOf(P, f) {
				seen[g] = true
			}
		}
		c.writers(seen)
	}
	if nf == 0 {
		r.Add("in-range", "nvm", "-", "no device found", nil)
	}
	r.Need("in-range", 5)
	r.Need("place", 6)
	r.Need("split", 4)
	r.Need("seek-exact", 6)
	r.Need("made", 3)
}

// reachOf: the functions a method calls, itself included.
func reachOf(P *Program, f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if m[g] {
			return
		}
		m[g] = true
		for _, h := range P.staticCallees(g) {
			rec(h)
		}
	}
	rec(f)
	return m
}

// helper: f is not exported, is called by the module and is never used as a value.
func (P *Program) helper(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	called := false
	for _, g := range P.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				var cv *ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok {
					cv = &ci.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if *op != f {
						continue
					}
					if op != cv {
						return false
					}
					called = called || g != f
				}
			}
		}
	}
	return called
}

func init() {
	checks["C18"] = func(P *Program, r *Report) {
		r.Explanation = "methods of every device executed symbolically on an arbitrary view with arbitrary arguments: linear arithmetic over the path decides that each access to the file or the memory is inside the view, at the place asked for and aligned"
		r.Assumptions = []string{"a file device ends before 2^62", "the fields of a superblock are as its writer makes them (C12)", "os.File.ReadAt and WriteAt move the whole buffer or fail", "fallocate succeeds only for positive lengths"}
		checkViews(P, r)
		checkBlock(P, r)
		checkAligned(P, r)
	}
}

// checkBlock: rounding to blocks, for block sizes as they are used.
func checkBlock(P *Program, r *Report) {
	rel := "block.BlockSize"
	nt := P.named(rel)
	if nt == nil {
		return
	}
	for _, m := range P.methods(rel) {
		s := m.Signature
		if !m.Object().Exported() || s.Params().Len() != 1 || !isUint(s.Params().At(0).Type()) {
			continue
		}
		for _, k := range []uint64{512, 1024, 4096, 65024} {
			_, e := newCodec(P)
			st := newState()
			x := mkSym("x", tU64())
			e.assumeLe(st, x, mkU64(1<<63))
			st.flags["keep"] = mkTuple(x)
			bs := mkConvTo(mkU64(k), nt)
			bs = mkInt(int64(k), nt)
			for _, o := range e.Run(m, st, []*V{bs, x}, nil) {
				v := o.ret[0]
				where := fmt.Sprintf("%s(%d)", fname(m), k)
				ok := true
				switch m.Name() {
				case "CeilAlign":
					ok = e.multiple(o.st, v, k) && e.le(o.st, x, v) && e.le(o.st, v, mkAdd(x, mkU64(k-1)))
				case "FloorAlign":
					ok = e.multiple(o.st, v, k) && e.le(o.st, v, x) && e.le(o.st, mkSub(x, mkU64(k-1)), v) || e.multiple(o.st, v, k) && e.le(o.st, v, x) && e.le(o.st, x, mkAdd(v, mkU64(k-1)))
				case "IsAligned":
					q := mkEq(mkRem(x, k), mkU64(0))
					s1, s2 := o.st.clone(), o.st.clone()
					t1, t2 := e.assume(s1, v, true), e.assume(s2, v, false)
					ok = (!t1 || e.decide(s1, q) == 1 || e.multiple(s1, x, k)) && (!t2 || e.decide(s2, q) == 2)
				default:
					continue
				}
				if ok {
					r.Ok("rounding", where)
				} else {
					r.Add("rounding", fname(m), P.pos(m), fmt.Sprintf("for blocks of %d bytes the result is %s", k, v), nil)
				}
			}
			r.absorb(e)
		}
	}
	r.Need("rounding", 12)
}

// checkAligned: the slice that an aligned buffer hands out lies inside it.
func checkAligned(P *Program, r *Report) {
	rel := "block.AlignedBytes"
	nt := P.named(rel)
	if nt == nil {
		return
	}
	ptr := types.NewPointer(nt)
	tInt := types.Typ[types.Int]
	const maxLen = 1 << 31
	var asBytes *ssa.Function
	for _, m := range P.methods(rel) {
		if m.Signature.Params().Len() == 0 && results(m.Signature, func(t types.Type) bool { return t.String() == "[]byte" }) && m.Object().Exported() {
			asBytes = m
		}
	}
	length := P.method(rel, "Len")
	if asBytes == nil || length == nil {
		r.Add("aligned-bytes", rel, "-", "the accessors of an aligned buffer are not found", nil)
		return
	}
	// holds: what AsBytes gives is inside the buffer, has Len bytes, and the
	// buffer has room to round Len up.
	holds := func(e *Engine, st *State, ab *V, where string, f *ssa.Function) {
		var fl int
		e2 := e
		old := e2.H.Bounds
		e2.H.Bounds = func(e *Engine, st *State, site ssa.Instruction, lo, hi, max *V) {
			l, h := mkConvTo(lo, tInt), mkConvTo(hi, tInt)
			if !(e.le(st, mkInt(0, tInt), l) && e.le(st, l, h) && e.le(st, h, max)) {
				fl++
				r.Add("aligned-bytes", where, P.pos(f), fmt.Sprintf("afterwards AsBytes slices %s..%s of %s bytes", lo, hi, max), nil)
			}
		}
		s := st.clone()
		for _, o := range e2.Run(asBytes, s, []*V{ab}, nil) {
			ln := e.get1(length, o.st, ab)
			got := e.lenOf(o.st, o.ret[0])
			if ln == nil || !e.same(o.st, ln, got) {
				fl++
				r.Add("aligned-bytes", where, P.pos(f), "afterwards AsBytes does not have Len bytes", nil)
			}
		}
		e2.H.Bounds = old
		if fl == 0 {
			r.Ok("aligned-bytes", where)
		}
	}
	room := func(e *Engine, st *State, ab *V) (buf, off, ln *V) {
		u := structOf(nt)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			v := e.Load(st, nil, mkPtr(ab, "."+f.Name()), f.Type())
			switch {
			case f.Type().String() == "[]byte":
				buf = v
			case tyIs(f.Type(), "block.BlockSize"):
			case f.Type().Underlying().String() == "uint16":
				off = v
			case isInt(f.Type()):
				ln = v
			}
		}
		return
	}
	var old []*V
	inv := func(e *Engine, st *State, ab *V, where string, f *ssa.Function) {
		buf, off, ln := room(e, st, ab)
		if buf == nil || off == nil || ln == nil {
			return
		}
		if old != nil && buf == old[0] && off == old[1] && ln.t == old[2].t && e.le(st, ln, old[2]) {
			// the same buffer with fewer bytes in it
			r.Ok("aligned-room", where)
			return
		}
		c := mkConvTo(ln, tU64())
		ceil := mkMul(in.mk(V{k: KBin, name: "/", args: []*V{mkAdd(c, mkU64(511)), mkU64(512)}, t: tU64()}), mkU64(512))
		if e.le(st, mkAdd(mkConvTo(off, tU64()), ceil), mkConvTo(e.lenOf(st, buf), tU64())) {
			r.Ok("aligned-room", where)
		} else {
			r.Add("aligned-room", where, P.pos(f), fmt.Sprintf("the buffer of %s bytes has no room for %s bytes from %s rounded up to blocks", e.lenOf(st, buf), ln, off), nil)
		}
	}
	run := func(f *ssa.Function, method bool) {
		_, e := newCodec(P)
		e.exactCopy = true
		st := newState()
		where := fname(f)
		var args []*V
		old = nil
		if method {
			rec := e.symVal(st, "ab", nt)
			m := map[*V]*V{}
			u := structOf(nt)
			for i := 0; i < u.NumFields(); i++ {
				if tyIs(u.Field(i).Type(), "block.BlockSize") {
					m[fieldOf(rec, i)] = mkInt(512, u.Field(i).Type())
				}
			}
			rec = subst(rec, m, map[*V]*V{})
			args = append(args, e.makeRecv(st, "ab", ptr, rec))
			buf, off, ln := room(e, st, args[0])
			if buf == nil || off == nil || ln == nil {
				return // other fields than the ones understood: only bounds are checked
			}
			old = []*V{buf, off, ln}
			bl := mkConvTo(e.lenOf(st, buf), tU64())
			e.assumeLe(st, mkInt(0, tInt), e.lenOf(st, buf))
			e.assumeLe(st, bl, mkU64(1<<40))
			e.assumeLe(st, mkConvTo(ln, tU64()), mkU64(maxLen))
			c := mkConvTo(ln, tU64())
			ceil := mkMul(in.mk(V{k: KBin, name: "/", args: []*V{mkAdd(c, mkU64(511)), mkU64(512)}, t: tU64()}), mkU64(512))
			e.assumeLe(st, mkAdd(mkConvTo(off, tU64()), ceil), bl)
			e.assumeLe(st, mkConvTo(off, tU64()), mkU64(511))
			fb := st.facts[buf]
			fb.nilness = 2
			st.facts[buf] = fb
			st.flags["keep:r"] = mkTuple(rec, args[0])
		}
		for _, p := range f.Params[len(args):] {
			a := e.symVal(st, "arg."+p.Name(), p.Type())
			switch {
			case tyIs(p.Type(), "block.BlockSize"):
				a = mkInt(512, p.Type())
			case isInt(p.Type()):
				e.assumeLe(st, mkInt(0, a.t), a)
				e.assumeLe(st, mkConvTo(a, tU64()), mkU64(maxLen))
			default:
				ln := e.lenOf(st, a)
				e.assumeLe(st, mkInt(0, tInt), ln)
				e.assumeLe(st, mkConvTo(ln, tU64()), mkU64(maxLen))
				cp := mkApp("cap", tInt, a)
				e.assumeLe(st, ln, cp)
				e.assumeLe(st, mkConvTo(cp, tU64()), mkU64(maxLen))
			}
			args = append(args, a)
		}
		st.flags["keep"] = mkTuple(args...)
		e.H.Bounds = func(e *Engine, st *State, site ssa.Instruction, lo, hi, max *V) {
			l, h := mkConvTo(lo, tInt), mkConvTo(hi, tInt)
			ok := e.le(st, mkInt(0, tInt), l) && e.le(st, l, h)
			if ok && !e.le(st, h, max) {
				// up to the capacity of a slice given by the caller
				ok = max.k == KApp && max.name == "len" && e.le(st, h, mkApp("cap", tInt, max.args[0]))
			}
			if ok {
				r.Ok("aligned-bytes", where)
			} else {
				r.Add("aligned-bytes", where, P.pos(site), fmt.Sprintf("slices %s..%s of %s bytes", lo, hi, max), st.trailMsgs())
			}
		}
		n := 0
		for _, o := range e.Run(f, st, args, nil) {
			n++
			ab := args[0]
			if !method {
				ab = o.ret[0]
			}
			o.st.flags["keep:ab"] = ab
			inv(e, o.st, ab, where, f)
			holds(e, o.st, ab, where, f)
		}
		if n == 0 {
			r.Add("aligned-bytes", where, P.pos(f), "never returns", nil)
		}
		r.absorb(e)
	}
	for _, m := range P.methods(rel) {
		if m.Object().Exported() && len(m.Blocks) > 0 {
			run(m, true)
		}
	}
	for _, f := range P.fnsWith(func(s *types.Signature) bool {
		return results(s, func(t types.Type) bool { return types.Identical(t, ptr) })
	}) {
		if f.Object().Exported() && f.Pkg == P.pkg("block") {
			run(f, false)
		}
	}
	r.Need("aligned-bytes", 8)
}

// get1 is the only result of an accessor.
func (e *Engine) get1(m *ssa.Function, st *State, recv *V) *V {
	h := e.H.Bounds
	e.H.Bounds = nil
	outs := e.Run(m, st.clone(), []*V{recv}, nil)
	e.H.Bounds = h
	if len(outs) != 1 || len(outs[0].ret) != 1 {
		return nil
	}
	return outs[0].ret[0]
}
