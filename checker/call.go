package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callInfo(st *State, site ssa.Instruction, cc *ssa.CallCommon) *CallInfo {
	c := &CallInfo{site: site, common: cc, sig: cc.Signature()}
	if cc.IsInvoke() {
		c.method = cc.Method
		c.recv = e.eval(st, cc.Value)
		c.args = append(c.args, c.recv)
		for _, a := range cc.Args {
			c.args = append(c.args, e.eval(st, a))
		}
		c.name = "invoke " + ifaceName(cc.Value.Type()) + "." + cc.Method.Name()
		var dyn types.Type
		val := c.recv
		if c.recv.k == KIface {
			dyn = c.recv.t
			val = c.recv.args[0]
		} else if f := st.facts[c.recv]; f.dyn != nil {
			dyn = f.dyn
			val = in.mk(V{k: KAs, args: []*V{c.recv}, t: dyn})
		}
		if dyn != nil {
			if f := e.P.prog.LookupMethod(dyn, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				c.fn = f
				c.args[0] = val
				c.name = fname(f)
			}
		}
		return c
	}
	for _, a := range cc.Args {
		c.args = append(c.args, e.eval(st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.name = "builtin." + b.Name()
		return c
	}
	v := e.eval(st, cc.Value)
	c.recv = v
	if v.k == KFunc {
		c.fn = v.fn
		c.binds = v.args
		c.name = fname(v.fn)
	} else {
		c.name = "dynamic"
	}
	return c
}

func ifaceName(t types.Type) string {
	return shorten(types.TypeString(types.Unalias(t), nil))
}

// call analyses one call and returns the states after it.
func (e *Engine) call(st *State, c *CallInfo) []Outcome {
	if strings.HasPrefix(c.name, "builtin.") {
		if e.H.Builtin != nil {
			if outs, ok := e.H.Builtin(e, st, c); ok {
				return outs
			}
		}
		return e.builtin(st, c)
	}
	if e.H.Call != nil {
		if outs, ok := e.H.Call(e, st, c); ok {
			return outs
		}
	}
	return e.callDefault(st, c)
}

func (e *Engine) callDefault(st *State, c *CallInfo) []Outcome {
	fn := c.fn
	if fn == nil && c.method != nil && e.H.Resolve != nil {
		fns := e.H.Resolve(e, st, c)
		var outs []Outcome
		for _, f := range fns {
			s := st.clone()
			dyn := f.Signature.Recv().Type()
			g := s.facts[c.recv]
			g.dyn = dyn
			g.nilness = 2
			s.facts[c.recv] = g
			args := append([]*V(nil), c.args...)
			args[0] = in.mk(V{k: KAs, args: []*V{c.recv}, t: dyn})
			c2 := *c
			c2.fn, c2.args, c2.name = f, args, fname(f)
			outs = append(outs, e.call(s, &c2)...)
		}
		if len(fns) > 0 {
			return outs
		}
	}
	if fn != nil && fn.Blocks != nil && e.inlinable(fn) {
		return e.invoke(fn, st, c.args, c.binds, c.site)
	}
	if outs, ok := e.model(st, c); ok {
		return outs
	}
	return e.opaque(st, c)
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if e.H.NoInline != nil && e.H.NoInline(fn) {
		return false
	}
	if e.P.inModule(fn) {
		return true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "encoding/binary" && fn.Signature.Recv() != nil {
		return true
	}
	// wrappers and bound methods of the module
	return fn.Synthetic != "" && fn.Pkg == nil
}

// freshResults makes unknown results for a call.
func (e *Engine) freshResults(st *State, c *CallInfo) []*V {
	var ret []*V
	rs := c.sig.Results()
	for i := 0; i < rs.Len(); i++ {
		ret = append(ret, e.Fresh(st, c.site, fmt.Sprintf(".r%d", i), rs.At(i).Type()))
		// an earlier result may have been renamed
		for j := range ret[:i] {
			_ = j
		}
	}
	return ret
}

// opaque is a call whose body is not analysed: its results are unknown, and
// local memory given away by pointer is forgotten.
func (e *Engine) opaque(st *State, c *CallInfo) []Outcome {
	e.unmodeled[c.name]++
	for _, a := range c.args {
		e.giveAway(st, c.site, a)
	}
	return []Outcome{{st, e.freshResults(st, c)}}
}

func (e *Engine) giveAway(st *State, site ssa.Instruction, a *V) {
	switch a.k {
	case KPtr:
		if a.args[0].k == KCell {
			if a.name == "" {
				e.havocObj(st, a.args[0])
			} else {
				for k := range st.heap {
					if k.base == a.args[0] && strings.HasPrefix(k.path, a.name) {
						delete(st.heap, k)
					}
				}
				st.heap[loc{a.args[0], "?"}] = mkStr("havoc")
			}
		}
	case KSlice:
		b, p := splitPtr(a.args[0])
		e.havocIdx(st, b, p)
	case KIface:
		e.giveAway(st, site, a.args[0])
	case KFunc:
		if e.H.Closure != nil {
			e.H.Closure(e, st, site, a)
		}
	}
}

func (e *Engine) runDefers(st *State, b *ssa.BasicBlock, idx int) []*State {
	cur := []*State{st}
	prune(st.top(), e.liveAfter(b, idx))
	for {
		var next []*State
		done := true
		for _, s := range cur {
			fr := s.top()
			if len(fr.defers) == 0 {
				next = append(next, s)
				continue
			}
			done = false
			d := fr.defers[len(fr.defers)-1]
			fr.defers = append([]deferred(nil), fr.defers[:len(fr.defers)-1]...)
			c := &CallInfo{site: d.site, common: d.call, sig: d.call.Signature(), recv: d.recv, args: d.args, deferd: true}
			if d.fn != nil {
				c.fn, c.binds, c.name = d.fn.fn, d.fn.args, fname(d.fn.fn)
			} else if d.call.IsInvoke() {
				c.method = d.call.Method
				c.name = "invoke " + ifaceName(d.call.Value.Type()) + "." + d.call.Method.Name()
			} else if bt, ok := d.call.Value.(*ssa.Builtin); ok {
				c.name = "builtin." + bt.Name()
			} else {
				c.name = "dynamic"
			}
			for _, o := range e.call(s, c) {
				next = append(next, o.st)
			}
		}
		cur = dedupe(next)
		if done {
			return cur
		}
	}
}

func (e *Engine) builtin(st *State, c *CallInfo) []Outcome {
	one := func(v ...*V) []Outcome { return []Outcome{{st, v}} }
	var rt types.Type
	if c.sig != nil && c.sig.Results().Len() > 0 {
		rt = c.sig.Results().At(0).Type()
	}
	switch c.name {
	case "builtin.len":
		return one(e.lenOf(st, c.args[0]))
	case "builtin.cap":
		return one(mkApp("cap", types.Typ[types.Int], c.args[0]))
	case "builtin.append":
		return one(e.appendOp(st, c))
	case "builtin.copy":
		if e.exactCopy {
			// the count is the smaller length
			a, b := e.lenOf(st, c.args[0]), e.lenOf(st, c.args[1])
			var outs []Outcome
			s2 := st.clone()
			if e.assume(s2, mkLess(b, a), true) {
				outs = append(outs, Outcome{s2, []*V{b}})
			}
			if e.assume(st, mkLess(b, a), false) {
				outs = append(outs, Outcome{st, []*V{a}})
			}
			for i := range outs {
				e.copyOp(outs[i].st, c.site, c.args[0], c.args[1])
			}
			return outs
		}
		e.copyOp(st, c.site, c.args[0], c.args[1])
		return one(e.Fresh(st, c.site, ".n", types.Typ[types.Int]))
	case "builtin.close", "builtin.delete", "builtin.print", "builtin.println", "builtin.clear":
		if c.name == "builtin.delete" && e.H.Store != nil {
			e.H.Store(e, st, c.site, loc{c.args[0], "[map]"}, theNil)
		}
		return one()
	case "builtin.ssa:wrapnilchk":
		return one(c.args[0])
	case "builtin.min", "builtin.max":
		if x, ok := c.args[0].intConst(); ok && len(c.args) == 2 {
			if y, ok := c.args[1].intConst(); ok {
				if (x < y) == (c.name == "builtin.min") {
					return one(c.args[0])
				}
				return one(c.args[1])
			}
		}
		if e.numeric && len(c.args) == 2 && isInt(c.args[0].t) {
			var outs []Outcome
			a, b := c.args[0], c.args[1]
			if c.name == "builtin.max" {
				a, b = b, a
			}
			cond := mkLess(a, b)
			s1 := st.clone()
			if e.assume(s1, cond, true) {
				outs = append(outs, Outcome{s1, []*V{c.args[0]}})
			}
			if e.assume(st, cond, false) {
				outs = append(outs, Outcome{st, []*V{c.args[1]}})
			}
			return outs
		}
	}
	if rt == nil {
		return one()
	}
	return one(e.Fresh(st, c.site, "", rt))
}

// appendOp models append exactly for short slices of known length.
func (e *Engine) appendOp(st *State, c *CallInfo) *V {
	s, t := c.args[0], c.args[1]
	rt := c.sig.Results().At(0).Type()
	tInt := types.Typ[types.Int]
	sb, slo, sl := e.sliceParts(st, s)
	tb, tlo, tl := e.sliceParts(st, t)
	n, ok1 := sl.intConst()
	m, ok2 := tl.intConst()
	l0, ok3 := slo.intConst()
	l1, ok4 := tlo.intConst()
	et := elemType(rt)
	if ok1 && ok2 && ok3 && ok4 && (n+m <= 3 || e.numeric && n+m <= 16) {
		var vals []*V
		for i := int64(0); i < n; i++ {
			vals = append(vals, e.Load(st, c.site, mkPtr(sb, idxPath(mkInt(l0+i, tInt))), et))
		}
		for i := int64(0); i < m; i++ {
			vals = append(vals, e.Load(st, c.site, mkPtr(tb, idxPath(mkInt(l1+i, tInt))), et))
		}
		st.flags["\x00app"] = mkTuple(vals...)
		cell := e.freshCell(st, c.site, "", types.NewArray(et, n+m))
		vals = st.flags["\x00app"].args
		delete(st.flags, "\x00app")
		for k := range st.heap {
			if k.base == cell {
				delete(st.heap, k)
			}
		}
		for i, v := range vals {
			e.storeLoc(st, cell, idxPath(mkInt(int64(i), tInt)), v, et)
		}
		return e.mkSlice(mkPtr(cell, ""), mkInt(0, tInt), mkInt(n+m, tInt), rt)
	}
	// contents unknown
	e.giveAway(st, c.site, t)
	v := e.Fresh(st, c.site, "", rt)
	f := st.facts[v]
	if m > 0 || n > 0 {
		f.nilness = 2
	}
	st.facts[v] = f
	return v
}

func (e *Engine) copyOp(st *State, site ssa.Instruction, dst, src *V) {
	if e.H.Copy != nil {
		e.H.Copy(e, st, site, dst, src)
	}
	db, dlo, dl := e.sliceParts(st, dst)
	base, path := splitPtr(db)
	var et types.Type = types.Typ[types.Byte]
	if dst.t != nil && elemType(dst.t) != nil {
		et = elemType(dst.t)
	}
	n, ok1 := dl.intConst()
	l0, ok2 := dlo.intConst()
	if ok1 && ok2 && n <= 32 && src.k != KConst {
		sb, slo, sl := e.sliceParts(st, src)
		m, ok3 := sl.intConst()
		l1, ok4 := slo.intConst()
		if ok3 && ok4 {
			if m < n {
				n = m
			}
			var vals []*V
			for i := int64(0); i < n; i++ {
				vals = append(vals, e.Load(st, site, mkPtr(sb, idxPath(mkInt(l1+i, types.Typ[types.Int]))), et))
			}
			for i := int64(0); i < n; i++ {
				e.Store(st, site, mkPtr(db, idxPath(mkInt(l0+i, types.Typ[types.Int]))), vals[i], et)
			}
			return
		}
	}
	if e.H.Store != nil {
		e.H.Store(e, st, site, loc{base, path + "[*]"}, src)
	}
	e.havocIdx(st, base, path)
}

func typeBits(t types.Type) (w int, signed bool, ok bool) {
	if t == nil {
		return 0, false, false
	}
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func wrapConst(c constant.Value, t types.Type) constant.Value {
	w, signed, ok := typeBits(t)
	if !ok || c.Kind() != constant.Int {
		return c
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(w))
	r := constant.BinaryOp(c, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if signed && constant.Compare(r, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, uint(w-1))) {
		r = constant.BinaryOp(r, token.SUB, mod)
	}
	return r
}

func (e *Engine) arith(st *State, site ssa.Instruction, op token.Token, x, y *V, t types.Type) *V {
	if x.k == KConst && y.k == KConst && isInt(t) {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y.cv); ok && n < 128 {
				return mkConst(wrapConst(constant.Shift(x.cv, op, uint(n)), t), t)
			}
		case token.QUO, token.REM:
			if constant.Sign(y.cv) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN // integer division
				}
				return mkConst(wrapConst(constant.BinaryOp(x.cv, o, y.cv), t), t)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return mkConst(wrapConst(constant.BinaryOp(x.cv, op, y.cv), t), t)
		}
	}
	if x.k == KConst && y.k == KConst && op == token.ADD && x.cv.Kind() == constant.String {
		return mkConst(constant.BinaryOp(x.cv, op, y.cv), t)
	}
	if e.strs && op == token.ADD && t != nil && types.Identical(t.Underlying(), types.Typ[types.String]) {
		return cat(x, y)
	}
	if isInt(t) {
		zero := func(v *V) bool { c, ok := v.intConst(); return ok && c == 0 }
		one := func(v *V) bool { c, ok := v.intConst(); return ok && c == 1 }
		switch op {
		case token.ADD:
			if zero(x) {
				return y
			}
			if zero(y) {
				return x
			}
		case token.SUB:
			if zero(y) {
				return x
			}
			if x == y {
				return mkInt(0, t)
			}
			// (a+b)-a
			if x.k == KBin && x.name == "+" {
				if x.args[0] == y {
					return x.args[1]
				}
				if x.args[1] == y {
					return x.args[0]
				}
			}
		case token.MUL:
			if zero(x) || zero(y) {
				return mkInt(0, t)
			}
			if one(x) {
				return y
			}
			if one(y) {
				return x
			}
		case token.QUO:
			if one(y) {
				return x
			}
		}
		if e.bitmode {
			if r := bitOp(op, x, y, t); r != nil {
				return r
			}
		}
		if op == token.ADD || op == token.MUL || op == token.AND || op == token.OR || op == token.XOR {
			if x.k == KConst && y.k != KConst || (y.k != KConst && x.id > y.id) {
				x, y = y, x
			}
		}
	}
	max := 16
	if e.numeric {
		max = 24
	}
	if x.depth > max || y.depth > max {
		if site == nil {
			return mkSym("deep", t)
		}
		return e.Fresh(st, site, ".deep", t)
	}
	return e.simplInt(st, in.mk(V{k: KBin, name: op.String(), args: []*V{x, y}, t: t}))
}

func (e *Engine) convert(st *State, site ssa.Instruction, v *V, from, to types.Type) *V {
	if isInt(to) && isInt(from) {
		if v.k == KConst {
			return mkConst(wrapConst(v.cv, to), to)
		}
		if e.bitmode {
			if r := bitConv(v, from, to); r != nil {
				return r
			}
		}
		fw, fs, _ := typeBits(from)
		tw, ts, _ := typeBits(to)
		if v.k == KConv && isInt(v.args[0].t) {
			// widening conversions in a row
			ow, os, _ := typeBits(v.args[0].t)
			if ow <= fw && (!os || fs == os) && fw <= tw && (os == fs || !os) {
				if types.Identical(v.args[0].t, to) {
					return v.args[0]
				}
				if !os || ts {
					v = v.args[0]
				}
			}
		}
		if fw == tw && fs == ts {
			if v.t != nil && !types.Identical(v.t, to) {
				return in.mk(V{k: KConv, args: []*V{v}, t: to})
			}
			return v
		}
		return e.simplInt(st, in.mk(V{k: KConv, args: []*V{v}, t: to}))
	}
	if isInt(to) && isFloat(from) || isFloat(to) {
		if v.k == KConst {
			if isFloat(to) {
				return mkConst(constant.ToFloat(v.cv), to)
			}
		}
		return in.mk(V{k: KConv, args: []*V{v}, t: to})
	}
	if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsString != 0 {
		if _, ok := to.Underlying().(*types.Basic); ok {
			return e.retype(v, to)
		}
	}
	return mkApp("conv", to, v)
}
