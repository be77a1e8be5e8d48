package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/adler32"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Byte streams. A stream is a sequence of tokens: single bytes (as exact bit
// slices) and chunks of variable length. Writers append tokens, readers consume
// them, hashes are applied to them. A reader of unknown input invents them.

type codec struct {
	unknown  bool // readers invent their input
	bad      []string
	failRead bool // reads may fail
	failWr   bool
	seekable bool
}

func newCodec(P *Program) (*codec, *Engine) {
	c := &codec{}
	e := NewEngine(P)
	e.numeric = true
	e.keepConds = true
	e.H.Call = c.call
	return c, e
}

func streamName(v *V) string {
	if v == nil {
		return ""
	}
	if v.k == KIface {
		return streamName(v.args[0])
	}
	if v.k == KPtr && v.name == "" || v.k == KAs || v.k == KConv {
		return streamName(v.args[0])
	}
	if v.k == KSym || v.k == KCell {
		return v.name
	}
	if v.k == KApp && v.name == "hash" || v.k == KApp && v.name == "limit" {
		return v.String()
	}
	return v.String()
}

func stoks(st *State, key string) []*V {
	if v, ok := st.flags[key]; ok {
		return v.args
	}
	return nil
}

func addStoks(st *State, key string, l []*V) {
	st.flags[key] = mkTuple(append(append([]*V(nil), stoks(st, key)...), l...)...)
}

func isWriter(st *State, v *V) bool { _, ok := st.flags["w:"+streamName(v)]; return ok }
func isReader(st *State, v *V) bool {
	n := streamName(v)
	_, ok := st.flags["r:"+n]
	_, ok2 := st.flags["lim:"+n]
	return ok || ok2
}

const maxBytes = 8192

// tokensOf is the content of a slice.
func (e *Engine) tokensOf(st *State, site ssa.Instruction, s *V) []*V {
	base, lo, ln := e.sliceParts(st, s)
	if s.k == KNil {
		return nil
	}
	if s.k == KConst && s.cv.Kind() == constant.String {
		var out []*V
		for _, b := range []byte(constant.StringVal(s.cv)) {
			out = append(out, mkInt(int64(b), types.Typ[types.Uint8]))
		}
		return out
	}
	if s.k == KApp && s.name == "conv" && s.args[0].k == KConst {
		return e.tokensOf(st, site, s.args[0])
	}
	n, ok1 := e.constOf(st, ln)
	l, ok2 := e.constOf(st, lo)
	b, p := splitPtr(base)
	if ok1 && ok2 && n <= maxBytes {
		if c, ok := st.heap[loc{b, p + "[?]"}]; !ok || c.k != KApp {
			var out []*V
			for i := int64(0); i < n; i++ {
				x := e.loadLoc(st, site, b, p+"["+strconv.FormatInt(l+i, 10)+"]", types.Typ[types.Uint8])
				out = append(out, e.canonByte(st, x))
			}
			return out
		}
	}
	if ok1 && n == 0 {
		return nil
	}
	if c, ok := st.heap[loc{b, p + "[?]"}]; ok {
		if c.k == KApp && c.name == "chunk" && e.numEq(st, lo, mkInt(0, lo.t)) && e.numEq(st, ln, c.args[2]) {
			return []*V{c}
		}
		if c.k == KApp && c.name == "chunk" {
			return []*V{mkApp("chunk", nil, c.args[0], e.arith(st, site, token.ADD, lo, c.args[1], types.Typ[types.Int]), ln)}
		}
		return []*V{mkApp("chunk", nil, mkSym(fmt.Sprintf("mixed.%d", len(in.vals)), nil), lo, ln)}
	}
	if b.k == KCell {
		any := false
		for k := range st.heap {
			if k.base == b && strings.HasPrefix(k.path, p+"[") {
				any = true
			}
		}
		if !any {
			return []*V{mkApp("chunk", nil, mkStr("zero"), mkInt(0, types.Typ[types.Int]), ln)}
		}
		return []*V{mkApp("chunk", nil, mkSym(fmt.Sprintf("mixed.%d", len(in.vals)), nil), lo, ln)}
	}
	return []*V{mkApp("chunk", nil, base, lo, ln)}
}

func (e *Engine) constOf(st *State, v *V) (int64, bool) {
	if c, ok := v.intConst(); ok {
		return c, true
	}
	if f, ok := st.facts[v]; ok && f.eq != nil {
		if c, ok := f.eq.intConst(); ok {
			return c, true
		}
	}
	n := e.newNum(st, v)
	f := n.lin(v)
	if f.isConst() && f.c.IsInt64() {
		return f.c.Int64(), true
	}
	if lo, hi := n.interval(f); lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.IsInt64() {
		return lo.Int64(), true
	}
	return 0, false
}

func (e *Engine) canonByte(st *State, x *V) *V {
	bs := e.bitsOf(st, x)
	if bs == nil || len(bs) != 8 {
		return x
	}
	return mkBits(bs, x)
}

func isByte(t *V) bool { return !(t.k == KApp && t.name == "chunk") }

func tokLen(e *Engine, t *V) *V {
	if isByte(t) {
		return mkInt(1, types.Typ[types.Int])
	}
	return t.args[2]
}

// sumLen is the number of bytes of the tokens.
func (e *Engine) sumLen(ts []*V) *V {
	tInt := types.Typ[types.Int]
	n := int64(0)
	var v *V
	for _, t := range ts {
		if isByte(t) {
			n++
		} else if v == nil {
			v = t.args[2]
		} else {
			v = mkAdd(v, t.args[2])
		}
	}
	if v == nil {
		return mkInt(n, tInt)
	}
	if n == 0 {
		return v
	}
	return in.mk(V{k: KBin, name: "+", args: []*V{mkConvTo(v, tInt), mkInt(n, tInt)}, t: tInt})
}

func (e *Engine) tokEq(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	if isByte(a) != isByte(b) {
		return false
	}
	if isByte(a) {
		return e.bitsEqual(st, a, b) == 1
	}
	return a.args[0] == b.args[0] && e.numEq(st, a.args[1], b.args[1]) && e.numEq(st, a.args[2], b.args[2])
}

func (e *Engine) stoksEq(st *State, a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !e.tokEq(st, a[i], b[i]) {
			return false
		}
	}
	return true
}

// fromBytes composes an integer of type t of bytes, most significant first.
func (e *Engine) fromBytes(st *State, bs []*V, t types.Type) *V {
	var bits []bit
	for i := len(bs) - 1; i >= 0; i-- {
		b := e.bitsOf(st, bs[i])
		if len(b) != 8 {
			b = make([]bit, 8)
			for j := range b {
				b[j] = bit{bad: true}
			}
		}
		bits = append(bits, b...)
	}
	w, signed, _ := typeBits(t)
	if w == len(bits) {
		bad := false
		for _, b := range bits {
			bad = bad || b.bad
		}
		if !bad {
			v := mkBits(bits, nil)
			if v != nil {
				if c, ok := constBig(v); ok {
					return mkConst(wrapConst(constant.Make(c), t), t)
				}
				_ = signed
				return mkConvTo(v, t)
			}
		}
	}
	return mkApp("bytes", t, bs...)
}

// toBytes splits an integer, most significant byte first.
func (e *Engine) toBytes(st *State, v *V, w int) []*V {
	bs := e.bitsOf(st, v)
	var out []*V
	for i := w/8 - 1; i >= 0; i-- {
		if len(bs) == w {
			b := mkBits(bs[i*8:i*8+8], nil)
			if b != nil {
				out = append(out, b)
				continue
			}
		}
		out = append(out, mkApp("byte"+strconv.Itoa(i), types.Typ[types.Uint8], v))
	}
	return out
}

func reversed(l []*V) []*V {
	var out []*V
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return out
}

// encode is the image of a value under encoding/binary.
func (e *Engine) encode(st *State, v *V, t types.Type, big bool) ([]*V, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			if b, ok := v.boolConst(); ok {
				n := int64(0)
				if b {
					n = 1
				}
				return []*V{mkInt(n, types.Typ[types.Uint8])}, true
			}
			return []*V{mkApp("boolbyte", types.Typ[types.Uint8], v)}, true
		}
		w, _, ok := typeBits(t)
		if !ok || u.Kind() == types.Int || u.Kind() == types.Uint {
			return nil, false
		}
		bs := e.toBytes(st, v, w)
		if !big {
			bs = reversed(bs)
		}
		return bs, true
	case *types.Struct:
		var out []*V
		for i := 0; i < u.NumFields(); i++ {
			l, ok := e.encode(st, fieldOf(v, i), u.Field(i).Type(), big)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	case *types.Array:
		if v.k != KStruct || int64(len(v.args)) != u.Len() {
			return nil, false
		}
		var out []*V
		for _, a := range v.args {
			l, ok := e.encode(st, a, u.Elem(), big)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	}
	return nil, false
}

func binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		w, _, ok := typeBits(t)
		if !ok {
			return -1
		}
		return w / 8
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := binSize(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Array:
		k := binSize(u.Elem())
		if k < 0 {
			return -1
		}
		return int(u.Len()) * k
	}
	return -1
}

func (e *Engine) decodeAs(st *State, bs []*V, t types.Type, big bool) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if !big {
			bs = reversed(bs)
		}
		return e.fromBytes(st, bs, t)
	case *types.Struct:
		var fs []*V
		for i := 0; i < u.NumFields(); i++ {
			k := binSize(u.Field(i).Type())
			fs = append(fs, e.decodeAs(st, bs[:k], u.Field(i).Type(), big))
			bs = bs[k:]
		}
		return in.mk(V{k: KStruct, t: t, args: fs})
	case *types.Array:
		k := binSize(u.Elem())
		var fs []*V
		for i := int64(0); i < u.Len(); i++ {
			fs = append(fs, e.decodeAs(st, bs[:k], u.Elem(), big))
			bs = bs[k:]
		}
		return in.mk(V{k: KStruct, t: t, args: fs})
	}
	return mkSym("undecodable", t)
}

// adler is the checksum of tokens.
func (e *Engine) adler(ts []*V) *V {
	var bs []byte
	all := true
	for _, t := range ts {
		if c, ok := t.intConst(); ok && isByte(t) {
			bs = append(bs, byte(c))
		} else {
			all = false
		}
	}
	if all {
		return mkConst(constant.MakeUint64(uint64(adler32.Checksum(bs))), types.Typ[types.Uint32])
	}
	return mkApp("adler", types.Typ[types.Uint32], ts...)
}

func bigOrder(v *V) bool {
	s := ""
	if v.k == KIface {
		s = v.t.String()
	} else {
		s = v.String()
	}
	return !strings.Contains(strings.ToLower(s), "little")
}

// ---- reading

type readRes struct {
	st   *State
	toks []*V
	err  *V // nil: success
	n    *V
}

// take consumes n bytes (or a chunk of n bytes) of the reader.
func (c *codec) take(e *Engine, st *State, site ssa.Instruction, r *V, n *V) []readRes {
	name := streamName(r)
	tInt := types.Typ[types.Int]
	if lim, ok := st.flags["lim:"+name]; ok {
		// limited reader
		base := st.flags["base:"+name]
		var out []readRes
		enough := mkLess(lim, mkConvTo(n, lim.t)) // false: enough
		s2 := st.clone()
		if e.assume(s2, enough, true) {
			// ends early
			out = append(out, readRes{st: s2, err: e.newErr(s2, site, ".short")})
		}
		if e.assume(st, enough, false) {
			for _, o := range c.take(e, st, site, base, n) {
				if o.err == nil {
					o.st.flags["lim:"+name] = e.arith(o.st, site, token.SUB, o.st.flags["lim:"+name], mkConvTo(n, lim.t), lim.t)
				}
				out = append(out, o)
			}
		}
		return out
	}
	var out []readRes
	k, isC := e.constOf(st, n)
	if c.unknown {
		if c.failRead {
			s2 := st.clone()
			er := e.newErr(s2, site, ".readerr")
			s2.flags["ended:"+name] = mkBool(true)
			out = append(out, readRes{st: s2, err: er})
		}
		var ts []*V
		pos := len(stoks(st, "c:"+name))
		if isC {
			if k > maxBytes {
				c.bad = append(c.bad, fmt.Sprintf("reads %d bytes at once", k))
				return nil
			}
			for i := int64(0); i < k; i++ {
				ts = append(ts, mkSym(fmt.Sprintf("in.%s.%d", name, pos+int(i)), types.Typ[types.Uint8]))
			}
		} else {
			ts = []*V{mkApp("chunk", nil, mkSym(fmt.Sprintf("inchunk.%s.%d", name, pos), nil), mkInt(0, tInt), n)}
		}
		addStoks(st, "c:"+name, ts)
		return append(out, readRes{st: st, toks: ts})
	}
	have := stoks(st, "r:"+name)
	if isC {
		var ts []*V
		for i := int64(0); i < k; i++ {
			if int(i) >= len(have) {
				return append(out, readRes{st: st, err: e.newErr(st, site, ".eof")})
			}
			if !isByte(have[i]) {
				c.bad = append(c.bad, fmt.Sprintf("reads %d bytes with fixed width where the writer put data of variable length", k))
				return nil
			}
			ts = append(ts, have[i])
		}
		st.flags["r:"+name] = mkTuple(have[k:]...)
		addStoks(st, "c:"+name, ts)
		return append(out, readRes{st: st, toks: ts})
	}
	if len(have) > 0 && !isByte(have[0]) && e.numEq(st, mkConvTo(n, tInt), have[0].args[2]) {
		ts := []*V{have[0]}
		st.flags["r:"+name] = mkTuple(have[1:]...)
		addStoks(st, "c:"+name, ts)
		return append(out, readRes{st: st, toks: ts})
	}
	c.bad = append(c.bad, "reads data of a length that differs from what the writer put there: "+n.String())
	return nil
}

// fill stores tokens into a slice.
func (c *codec) fill(e *Engine, st *State, site ssa.Instruction, s *V, ts []*V) {
	base, lo, _ := e.sliceParts(st, s)
	b, p := splitPtr(base)
	if len(ts) == 1 && !isByte(ts[0]) {
		e.havocIdx(st, b, p)
		if e.numEq(st, lo, mkInt(0, lo.t)) {
			st.heap[loc{b, p + "[?]"}] = ts[0]
		}
		return
	}
	l, ok := e.constOf(st, lo)
	if !ok {
		e.havocIdx(st, b, p)
		return
	}
	for i, t := range ts {
		e.storeLoc(st, b, p+"["+strconv.FormatInt(l+int64(i), 10)+"]", t, types.Typ[types.Uint8])
	}
}

func (c *codec) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	tInt := types.Typ[types.Int]
	method := ""
	if i := strings.LastIndex(ci.name, "."); i >= 0 {
		method = ci.name[i+1:]
	}
	isInvoke := strings.HasPrefix(ci.name, "invoke ") || ci.fn != nil && ci.fn.Signature.Recv() != nil
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	rd := func(rs []readRes, ok func(o readRes) []*V, fail func(o readRes) []*V) ([]Outcome, bool) {
		var outs []Outcome
		for _, o := range rs {
			if o.err != nil {
				outs = append(outs, Outcome{o.st, fail(o)})
			} else {
				outs = append(outs, Outcome{o.st, ok(o)})
			}
		}
		return outs, true
	}
	switch ci.name {
	case "hash/adler32.New":
		h := mkApp("hash", ci.sig.Results().At(0).Type(), mkStr(e.ctxName()+e.label(ci.site)))
		st.flags["w:"+streamName(h)] = mkTuple()
		f := st.facts[h]
		f.nilness = 2
		st.facts[h] = f
		return one(h)
	case "hash/adler32.Checksum":
		return one(e.adler(e.tokensOf(st, ci.site, ci.args[0])))
	case "io.LimitReader":
		if !isReader(st, ci.args[0]) {
			return nil, false
		}
		l := mkApp("limit", ci.sig.Results().At(0).Type(), mkStr(e.ctxName()+e.label(ci.site)))
		st.flags["lim:"+streamName(l)] = ci.args[1]
		st.flags["base:"+streamName(l)] = ci.args[0]
		return one(l)
	case "io.ReadFull":
		if !isReader(st, ci.args[0]) {
			return nil, false
		}
		_, _, ln := e.sliceParts(st, ci.args[1])
		buf := ci.args[1]
		return rd(c.take(e, st, ci.site, ci.args[0], ln), func(o readRes) []*V {
			c.fill(e, o.st, ci.site, buf, o.toks)
			return []*V{ln, theNil}
		}, func(o readRes) []*V { return []*V{mkInt(0, tInt), o.err} })
	case "encoding/binary.Read":
		if !isReader(st, ci.args[0]) {
			return nil, false
		}
		d := ci.args[2]
		if d.k != KIface {
			return nil, false
		}
		pt, ok := underPtr(d.t)
		if !ok {
			return nil, false
		}
		k := binSize(pt)
		if k < 0 {
			c.bad = append(c.bad, "binary.Read into "+d.t.String()+" always fails")
			return []Outcome{{st, []*V{e.newErr(st, ci.site, ".bin")}}}, true
		}
		big := bigOrder(ci.args[1])
		return rd(c.take(e, st, ci.site, ci.args[0], mkInt(int64(k), tInt)), func(o readRes) []*V {
			b, p := splitPtr(d.args[0])
			e.storeLoc(o.st, b, p, e.decodeAs(o.st, o.toks, pt, big), pt)
			return []*V{theNil}
		}, func(o readRes) []*V { return []*V{o.err} })
	case "encoding/binary.Write":
		if !isWriter(st, ci.args[0]) {
			return nil, false
		}
		d := ci.args[2]
		if d.k != KIface {
			return nil, false
		}
		v, t := d.args[0], d.t
		if pt, ok := underPtr(t); ok {
			v, t = e.Load(st, ci.site, v, pt), pt
		}
		var ts []*V
		if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint8]) {
			ts = e.tokensOf(st, ci.site, v)
		} else {
			l, ok := e.encode(st, v, t, bigOrder(ci.args[1]))
			if !ok {
				c.bad = append(c.bad, "binary.Write of "+t.String()+" always fails")
				return []Outcome{{st, []*V{e.newErr(st, ci.site, ".bin")}}}, true
			}
			ts = l
		}
		return c.write(e, st, ci, ci.args[0], ts, false)
	case "(*bytes.Buffer).Bytes":
		if isWriter(st, ci.args[0]) {
			ts := stoks(st, "w:"+streamName(ci.args[0]))
			cell := e.freshCell(st, ci.site, "", types.NewArray(types.Typ[types.Byte], int64(len(ts))))
			for k := range st.heap {
				if k.base == cell {
					delete(st.heap, k)
				}
			}
			for i, t := range ts {
				if !isByte(t) {
					return nil, false
				}
				st.heap[loc{cell, "[" + strconv.Itoa(i) + "]"}] = t
			}
			return one(e.mkSlice(mkPtr(cell, ""), mkInt(0, tInt), mkInt(int64(len(ts)), tInt), ci.sig.Results().At(0).Type()))
		}
	}
	if (method == "Write" || method == "WriteString" || method == "WriteByte") && isInvoke {
		r := ci.args[0]
		if ci.name == "(*bytes.Buffer).Write" || ci.name == "(*bytes.Buffer).WriteByte" {
			if !isWriter(st, r) {
				st.flags["w:"+streamName(r)] = mkTuple()
			}
		}
		if isWriter(st, r) {
			if method == "WriteByte" {
				return c.write(e, st, ci, r, []*V{e.canonByte(st, ci.args[1])}, false)
			}
			return c.write(e, st, ci, r, e.tokensOf(st, ci.site, ci.args[1]), true)
		}
	}
	if method == "Sum32" && isInvoke && isWriter(st, ci.args[0]) {
		return one(e.adler(stoks(st, "w:"+streamName(ci.args[0]))))
	}
	if method == "Reset" && isInvoke && isWriter(st, ci.args[0]) {
		st.flags["w:"+streamName(ci.args[0])] = mkTuple()
		return one()
	}
	if method == "Read" && isInvoke && isReader(st, ci.args[0]) {
		_, _, ln := e.sliceParts(st, ci.args[1])
		buf := ci.args[1]
		name := streamName(ci.args[0])
		var outs []Outcome
		if lim, ok := st.flags["lim:"+name]; ok || c.unknown && c.failRead {
			if ok {
				// exhausted
				s2 := st.clone()
				if e.assume(s2, mkLess(mkInt(0, lim.t), lim), false) {
					outs = append(outs, Outcome{s2, []*V{mkInt(0, tInt), e.eofValue(s2)}})
				}
				if !e.assume(st, mkLess(mkInt(0, lim.t), lim), true) {
					return outs, true
				}
			}
			if c.failRead {
				s2 := st.clone()
				s2.flags["ended:"+name] = mkBool(true)
				outs = append(outs, Outcome{s2, []*V{mkInt(0, tInt), e.eofValue(s2)}})
			}
		}
		more, _ := rd(c.take(e, st, ci.site, ci.args[0], ln), func(o readRes) []*V {
			c.fill(e, o.st, ci.site, buf, o.toks)
			return []*V{ln, theNil}
		}, func(o readRes) []*V { return []*V{mkInt(0, tInt), o.err} })
		return append(outs, more...), true
	}
	if ci.fn != nil && ci.fn.Pkg != nil && strings.HasSuffix(ci.fn.Pkg.Pkg.Path(), "satori/go.uuid") {
		switch ci.fn.Name() {
		case "Bytes", "FromBytes", "UnmarshalBinary":
			return e.invoke(ci.fn, st, ci.args, ci.binds, ci.site), true
		}
	}
	return nil, false
}

// eofValue is the value of io.EOF.
func (e *Engine) eofValue(st *State) *V {
	p := e.P.prog.ImportedPackage("io")
	g := p.Var("EOF")
	return e.loadLoc(st, nil, in.mk(V{k: KGlobal, g: g, t: g.Type()}), "", g.Type().(*types.Pointer).Elem())
}

func (c *codec) write(e *Engine, st *State, ci *CallInfo, w *V, ts []*V, withN bool) ([]Outcome, bool) {
	var outs []Outcome
	hash := w.k == KApp && w.name == "hash"
	if c.failWr && !hash {
		s2 := st.clone()
		er := e.newErr(s2, ci.site, ".wrerr")
		if withN {
			outs = append(outs, Outcome{s2, []*V{mkInt(0, types.Typ[types.Int]), er}})
		} else {
			outs = append(outs, Outcome{s2, []*V{er}})
		}
	}
	addStoks(st, "w:"+streamName(w), ts)
	n := e.sumLen(ts)
	switch ci.sig.Results().Len() {
	case 2:
		outs = append(outs, Outcome{st, []*V{n, theNil}})
	default:
		outs = append(outs, Outcome{st, []*V{theNil}})
	}
	return outs, true
}

// ---- symbolic values

// symVal is an arbitrary value of type t.
func (e *Engine) symVal(st *State, name string, t types.Type) *V {
	if s := structOf(t); s != nil && s.NumFields() > 0 {
		var fs []*V
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, e.symVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return in.mk(V{k: KStruct, t: t, args: fs})
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 32 {
		var fs []*V
		for i := int64(0); i < a.Len(); i++ {
			fs = append(fs, e.symVal(st, fmt.Sprintf("%s[%d]", name, i), a.Elem()))
		}
		return in.mk(V{k: KStruct, t: t, args: fs})
	}
	v := mkSym(name, t)
	e.typeInvariant(st, v, t)
	return v
}

// typeInvariant adds what holds for all values of a type (see C16).
func (e *Engine) typeInvariant(st *State, v *V, t types.Type) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	switch shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name() {
	case "address.Address":
		e.assume(st, mkLess(mkConst(constant.MakeUint64(1<<40-1), v.t), v), false)
	case "block.BlockSize":
		e.assume(st, mkLess(v, mkConst(constant.MakeUint64(512), v.t)), false)
		r := mkRem(v, 512)
		e.assume(st, mkEq(r, mkInt(0, v.t)), true)
	}
}
