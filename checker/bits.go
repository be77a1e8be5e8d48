package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Bit slices: an integer as a sequence of bits, each a constant or one bit of an
// atom. Packing and unpacking by shifts and masks is exact in this domain.

// bitseg is w bits: of src starting at bit lo, or the constant val.
type bitseg struct {
	src *V
	lo  int
	w   int
	val uint64
}

func bitNot(v *V, t types.Type) *V                   { return in.mk(V{k: KUn, name: "^", args: []*V{v}, t: t}) }
func bitOp(op token.Token, x, y *V, t types.Type) *V { return nil }
func bitConv(v *V, from, to types.Type) *V           { return nil }

type bit struct {
	src *V // nil: constant
	idx int
	val uint8
	bad bool // not known
}

// upper bound of an atom that follows from comparisons with constants.
func (e *Engine) constHi(st *State, v *V) (*big.Int, bool) {
	var best *big.Int
	upd := func(b *big.Int) {
		if best == nil || b.Cmp(best) < 0 {
			best = b
		}
	}
	for k, f := range st.facts {
		if f.truth == 0 || k.k != KBin || k.name != "<" {
			continue
		}
		if stripSame(k.args[1]) == v && f.truth == 2 {
			if b, ok := constBig(k.args[0]); ok {
				upd(b)
			}
		}
		if stripSame(k.args[0]) == v && f.truth == 1 {
			if b, ok := constBig(k.args[1]); ok {
				upd(new(big.Int).Sub(b, bigOne))
			}
		}
	}
	return best, best != nil
}

// stripSame removes conversions between integers that keep every value.
func stripSame(v *V) *V {
	for v.k == KConv && isInt(v.args[0].t) && isInt(v.t) {
		w, s, _ := typeBits(v.t)
		ow, os, _ := typeBits(v.args[0].t)
		if w == ow && s == os || w > ow && (!os || s) {
			v = v.args[0]
			continue
		}
		break
	}
	return v
}

func (e *Engine) bitsOf(st *State, v *V) []bit {
	return e.bits0(st, v, 0)
}

func (e *Engine) bits0(st *State, v *V, depth int) []bit {
	w, signed, ok := typeBits(v.t)
	if !ok || depth > 60 {
		return nil
	}
	if f, ok := st.facts[v]; ok && f.eq != nil && f.eq.k == KConst {
		v = mkConst(wrapConst(f.eq.cv, v.t), v.t)
	}
	out := make([]bit, w)
	if v.k == KConst {
		b, ok := constBig(v)
		if !ok {
			return nil
		}
		if b.Sign() < 0 {
			b = new(big.Int).Add(b, new(big.Int).Lsh(bigOne, uint(w)))
		}
		for i := range out {
			out[i] = bit{val: uint8(b.Bit(i))}
		}
		return out
	}
	atom := func() []bit {
		hi, ok := e.constHi(st, v)
		if e.canonInts && !e.inBits && !signed && w > 16 && v.k != KInit && (!ok || hi.BitLen() > 16) {
			e.inBits = true
			for _, k := range []uint{16, 24, 40} {
				if ok && hi.BitLen() <= int(k) {
					break
				}
				if int(k) < w && e.le(st, mkConvTo(v, tU64()), pow2(k)) {
					hi, ok = new(big.Int).Sub(new(big.Int).Lsh(bigOne, k), bigOne), true
					break
				}
			}
			e.inBits = false
		}
		for i := range out {
			if ok && (!signed || v.k == KApp && v.name == "len") && i >= hi.BitLen() {
				out[i] = bit{}
			} else {
				out[i] = bit{src: v, idx: i}
			}
		}
		return out
	}
	bad := func() []bit {
		for i := range out {
			out[i] = bit{bad: true}
		}
		return out
	}
	switch v.k {
	case KBits:
		i := 0
		for _, s := range v.bits {
			for j := 0; j < s.w && i < w; j++ {
				if s.src == nil {
					out[i] = bit{val: uint8(s.val >> uint(j) & 1)}
				} else {
					out[i] = bit{src: s.src, idx: s.lo + j}
				}
				i++
			}
		}
		return out
	case KConv:
		x := e.bits0(st, v.args[0], depth+1)
		if x == nil {
			return atom()
		}
		_, xs, _ := typeBits(v.args[0].t)
		for i := range out {
			if i < len(x) {
				out[i] = x[i]
			} else if xs {
				out[i] = x[len(x)-1]
			} else {
				out[i] = bit{}
			}
		}
		return out
	case KUn:
		if v.name == "^" {
			x := e.bits0(st, v.args[0], depth+1)
			for i := range out {
				if x != nil && i < len(x) && x[i].src == nil && !x[i].bad {
					out[i] = bit{val: 1 - x[i].val}
				} else {
					out[i] = bit{bad: true}
				}
			}
			return out
		}
	case KBin:
		switch v.name {
		case "&", "|", "^", "&^", "+":
			x, y := e.bits0(st, v.args[0], depth+1), e.bits0(st, v.args[1], depth+1)
			if x == nil || y == nil {
				return atom()
			}
			if v.name == "+" {
				disj := func() bool {
					for i := range out {
						if !(isZeroBit(x[i]) || isZeroBit(y[i])) {
							return false
						}
					}
					return true
				}
				if !disj() && e.numeric && !e.inBits {
					// one side is a multiple of 2^k, the other is smaller
					e.inBits = true
					for side := 0; side < 2; side++ {
						lo, hiSide := v.args[side], y
						if side == 1 {
							hiSide = x
						}
						tz := 0
						for tz < len(hiSide) && isZeroBit(hiSide[tz]) {
							tz++
						}
						if tz > 0 && tz < 64 && !signed && e.le(st, mkConvTo(lo, tU64()), pow2(uint(tz))) {
							z := make([]bit, w)
							for i := 0; i < tz && i < w; i++ {
								if side == 0 {
									z[i] = x[i]
								} else {
									z[i] = y[i]
								}
							}
							if side == 0 {
								x = z
							} else {
								y = z
							}
							break
						}
					}
					e.inBits = false
				}
				if !disj() {
					return atom()
				}
			}
			for i := range out {
				out[i] = bitOp2(v.name, x[i], y[i])
			}
			return out
		case "<<", ">>":
			k, ok := v.args[1].intConst()
			if !ok {
				if f := st.facts[v.args[1]]; f.eq != nil {
					k, ok = f.eq.intConst()
				}
			}
			x := e.bits0(st, v.args[0], depth+1)
			if !ok || x == nil || k < 0 || (signed && v.name == ">>") {
				return atom()
			}
			for i := range out {
				j := i - int(k)
				if v.name == ">>" {
					j = i + int(k)
				}
				if j >= 0 && j < len(x) {
					out[i] = x[j]
				} else {
					out[i] = bit{}
				}
			}
			return out
		case "*", "/", "%":
			// by a power of two
			c, ok := constBig(v.args[1])
			if ok && c.Sign() > 0 && new(big.Int).And(c, new(big.Int).Sub(c, bigOne)).Sign() == 0 && !signed {
				x := e.bits0(st, v.args[0], depth+1)
				if x == nil {
					return atom()
				}
				k := c.BitLen() - 1
				for i := range out {
					switch {
					case v.name == "*" && i >= k:
						out[i] = x[i-k]
					case v.name == "/" && i+k < len(x):
						out[i] = x[i+k]
					case v.name == "%" && i < k:
						out[i] = x[i]
					default:
						out[i] = bit{}
					}
				}
				return out
			}
		}
	}
	_ = bad
	return atom()
}

func isZeroBit(b bit) bool { return b.src == nil && !b.bad && b.val == 0 }
func isOneBit(b bit) bool  { return b.src == nil && !b.bad && b.val == 1 }

func bitOp2(op string, x, y bit) bit {
	same := x.src != nil && x.src == y.src && x.idx == y.idx
	switch op {
	case "&":
		if isZeroBit(x) || isZeroBit(y) {
			return bit{}
		}
		if isOneBit(x) || same {
			return y
		}
		if isOneBit(y) {
			return x
		}
	case "|", "+":
		if isZeroBit(x) {
			return y
		}
		if isZeroBit(y) {
			return x
		}
		if op == "|" {
			if isOneBit(x) || isOneBit(y) {
				return bit{val: 1}
			}
			if same {
				return x
			}
		}
	case "^":
		if isZeroBit(x) {
			return y
		}
		if isZeroBit(y) {
			return x
		}
		if same {
			return bit{}
		}
		if isOneBit(x) && isOneBit(y) {
			return bit{}
		}
	case "&^":
		if isZeroBit(x) || isOneBit(y) {
			return bit{}
		}
		if isZeroBit(y) {
			return x
		}
	}
	return bit{bad: true}
}

// canon is the canonical value of the bits of v: equal bits, equal values.
func (e *Engine) canon(st *State, v *V) *V {
	bs := e.bitsOf(st, v)
	if bs == nil {
		return v
	}
	return mkBits(bs, v)
}

// simplInt replaces a masked or shifted value by the plain number it is.
func (e *Engine) simplInt(st *State, v *V) *V {
	if !e.canonInts || e.inBits || v.k != KBin && v.k != KConv {
		return v
	}
	if v.k == KBin && v.name != "&" && v.name != ">>" && v.name != "|" {
		return v
	}
	if v.k == KConv {
		// widening: nothing to gain
		w, _, _ := typeBits(v.t)
		ow, _, ok := typeBits(v.args[0].t)
		if !ok || w >= ow {
			return v
		}
	}
	bs := e.bitsOf(st, v)
	if bs == nil {
		return v
	}
	n := 0
	for n < len(bs) && bs[n].src != nil && bs[n].src == bs[0].src && bs[n].idx == n {
		n++
	}
	for _, b := range bs[n:] {
		if !isZeroBit(b) {
			return v
		}
	}
	if n == 0 {
		return mkInt(0, v.t)
	}
	src := bs[0].src
	if src == v || src.k == KBits {
		return v
	}
	full := e.bitsOf(st, src)
	if _, signed, _ := typeBits(src.t); signed && n < len(full) {
		return v
	}
	for _, b := range full[min(n, len(full)):] {
		if !isZeroBit(b) {
			return v
		}
	}
	return mkConvTo(src, v.t)
}

func mkBits(bs []bit, v *V) *V {
	var segs []bitseg
	for _, b := range bs {
		if b.bad {
			return v
		}
		n := len(segs)
		if n > 0 {
			l := &segs[n-1]
			if b.src != nil && l.src == b.src && l.lo+l.w == b.idx {
				l.w++
				continue
			}
			if b.src == nil && l.src == nil && l.w < 64 {
				l.val |= uint64(b.val) << uint(l.w)
				l.w++
				continue
			}
		}
		if b.src == nil {
			segs = append(segs, bitseg{w: 1, val: uint64(b.val)})
		} else {
			segs = append(segs, bitseg{src: b.src, lo: b.idx, w: 1})
		}
	}
	var t types.Type
	switch len(bs) {
	case 8:
		t = types.Typ[types.Uint8]
	case 16:
		t = types.Typ[types.Uint16]
	case 32:
		t = types.Typ[types.Uint32]
	case 64:
		t = types.Typ[types.Uint64]
	default:
		return v
	}
	if len(segs) == 1 && segs[0].src == nil {
		return mkConst(constant.MakeUint64(segs[0].val), t)
	}
	if s := segs[0]; s.src != nil && s.lo == 0 && (len(segs) == 1 || len(segs) == 2 && segs[1].src == nil && segs[1].val == 0) {
		// the low bits of one atom, and that is all of it
		if w, signed, ok := typeBits(s.src.t); ok && !signed && w == s.w {
			return mkConvTo(s.src, t)
		}
	}
	return in.mk(V{k: KBits, bits: segs, t: t})
}

// bitsEqual: 1 equal, 2 different in a constant bit, 0 unknown.
func (e *Engine) bitsEqual(st *State, x, y *V) int8 {
	a, b := e.bitsOf(st, x), e.bitsOf(st, y)
	if a == nil || b == nil {
		return 0
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	at := func(l []bit, i int, t types.Type) bit {
		if i < len(l) {
			return l[i]
		}
		if _, s, _ := typeBits(t); s {
			return l[len(l)-1]
		}
		return bit{}
	}
	all := true
	for i := 0; i < n; i++ {
		p, q := at(a, i, x.t), at(b, i, y.t)
		if p.bad || q.bad {
			all = false
			continue
		}
		if p.src == nil && q.src == nil {
			if p.val != q.val {
				return 2
			}
			continue
		}
		if p.src != q.src || p.idx != q.idx {
			all = false
		}
	}
	if all {
		return 1
	}
	return 0
}

// disjointBits: no bit is possibly set in both.
func (e *Engine) disjointBits(st *State, x, y *V) bool {
	a, b := e.bitsOf(st, x), e.bitsOf(st, y)
	if a == nil || b == nil || len(a) != len(b) {
		return false
	}
	for i := range a {
		if !isZeroBit(a[i]) && !isZeroBit(b[i]) {
			return false
		}
	}
	return true
}

var _ = strings.Contains
