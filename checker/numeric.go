package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Integers: every integer value is a linear form over atoms (values that are
// not sums themselves). What is known about them on a path is a set of linear
// inequalities; a condition holds if its negation makes the set empty.
// Arithmetic that may wrap around is an atom of its own.

type lform struct {
	m map[*V]*big.Int
	c *big.Int
}

func lconst(c *big.Int) *lform { return &lform{map[*V]*big.Int{}, new(big.Int).Set(c)} }
func lint(i int64) *lform      { return lconst(big.NewInt(i)) }
func latom(v *V) *lform {
	return &lform{map[*V]*big.Int{v: big.NewInt(1)}, new(big.Int)}
}

func (f *lform) clone() *lform {
	n := lconst(f.c)
	for k, v := range f.m {
		n.m[k] = v
	}
	return n
}

// add returns f + k*g.
func (f *lform) add(g *lform, k *big.Int) *lform {
	n := f.clone()
	n.c.Add(n.c, new(big.Int).Mul(k, g.c))
	for a, c := range g.m {
		x := new(big.Int).Mul(k, c)
		if o, ok := n.m[a]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(n.m, a)
		} else {
			n.m[a] = x
		}
	}
	return n
}

var bigOne = big.NewInt(1)
var bigNeg = big.NewInt(-1)

func (f *lform) plus(g *lform) *lform  { return f.add(g, bigOne) }
func (f *lform) minus(g *lform) *lform { return f.add(g, bigNeg) }
func (f *lform) times(k *big.Int) *lform {
	return lint(0).add(f, k)
}
func (f *lform) isConst() bool { return len(f.m) == 0 }
func (f *lform) single() (*V, bool) {
	if len(f.m) != 1 || f.c.Sign() != 0 {
		return nil, false
	}
	for a, c := range f.m {
		return a, c.Cmp(bigOne) == 0
	}
	return nil, false
}

func (f *lform) atoms() []*V {
	var l []*V
	for a := range f.m {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// value makes the form a value, so that it can be part of other atoms.
func (f *lform) value() *V {
	if f.isConst() {
		return mkConst(constant.Make(f.c), types.Typ[types.UntypedInt])
	}
	if a, ok := f.single(); ok {
		return a
	}
	name := "lf:" + f.c.String()
	l := f.atoms()
	for _, a := range l {
		name += ":" + f.m[a].String()
	}
	return mkApp(name, types.Typ[types.UntypedInt], l...)
}

func formOf(v *V) (*lform, bool) {
	if v.k != KApp || !strings.HasPrefix(v.name, "lf:") {
		return nil, false
	}
	p := strings.Split(v.name, ":")
	f := lint(0)
	f.c.SetString(p[1], 10)
	for i, a := range v.args {
		c := new(big.Int)
		c.SetString(p[2+i], 10)
		f.m[a] = c
	}
	return f, true
}

func (f *lform) String() string {
	s := f.c.String()
	for _, a := range f.atoms() {
		s += " + " + f.m[a].String() + "*" + a.String()
	}
	return s
}

// mkGe is the fact form >= 0.
func mkGe(f *lform) *V {
	return mkApp("ge0", types.Typ[types.Bool], f.value())
}

type numCtx struct {
	e     *Engine
	st    *State
	memo  map[*V]*lform
	busy  map[*V]bool
	cons  []*lform // each >= 0
	neq   []*lform // each != 0
	atoms map[*V]bool
	lo    map[*V]*big.Int
	hi    map[*V]*big.Int
	align map[*V][2]int64 // atom -> modulus, residue
	depth int
	ver   int
}

var maxLen = new(big.Int).Lsh(bigOne, 50)

func typeRange(t types.Type) (*big.Int, *big.Int, bool) {
	w, signed, ok := typeBits(t)
	if !ok {
		return nil, nil, false
	}
	if signed {
		h := new(big.Int).Lsh(bigOne, uint(w-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne), true
	}
	return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne), true
}

func constBig(v *V) (*big.Int, bool) {
	if v == nil || v.k != KConst || v.cv.Kind() != constant.Int {
		return nil, false
	}
	b, ok := new(big.Int).SetString(v.cv.ExactString(), 10)
	return b, ok
}

func isGe(k *V) bool { return k.k == KApp && k.name == "ge0" }

func (e *Engine) newNum(st *State, goals ...*V) *numCtx {
	n := &numCtx{e: e, st: st, memo: map[*V]*lform{}, busy: map[*V]bool{}, atoms: map[*V]bool{}, lo: map[*V]*big.Int{}, hi: map[*V]*big.Int{}, align: map[*V][2]int64{}}
	// facts about integers that share symbols with the goals, transitively
	type cand struct {
		k *V
		f Fact
	}
	var all []cand
	for k, f := range st.facts {
		num := false
		if f.truth != 0 && (isGe(k) || k.k == KBin && (k.name == "<" || k.name == "==") && isInt(k.args[0].t)) {
			num = true
		}
		if isInt(k.t) && (f.eq != nil && f.eq.k == KConst || f.ne != "") {
			num = true
		}
		if num {
			all = append(all, cand{k, f})
		}
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].k.depth != all[j].k.depth {
			return all[i].k.depth < all[j].k.depth
		}
		return all[i].k.id < all[j].k.id
	})
	rel := map[*V]bool{}
	for _, g := range goals {
		for s := range g.syms {
			rel[s] = true
		}
	}
	use := make([]bool, len(all))
	for ch := true; ch; {
		ch = false
		for i, c := range all {
			if use[i] {
				continue
			}
			hit := len(c.k.syms) == 0
			for s := range c.k.syms {
				if rel[s] {
					hit = true
				}
			}
			if hit {
				use[i] = true
				ch = true
				for s := range c.k.syms {
					rel[s] = true
				}
			}
		}
	}
	// bounds and alignment first
	for i, c := range all {
		if !use[i] {
			continue
		}
		if c.f.truth != 0 && c.k.k == KBin && c.k.name == "<" {
			x, y := c.k.args[0], c.k.args[1]
			if b, ok := constBig(x); ok {
				if c.f.truth == 1 { // b < y
					n.setLo(y, new(big.Int).Add(b, bigOne))
				} else {
					n.setHi(y, b)
				}
			} else if b, ok := constBig(y); ok {
				if c.f.truth == 1 {
					n.setHi(x, new(big.Int).Sub(b, bigOne))
				} else {
					n.setLo(x, b)
				}
			}
		}
		if c.k.k == KBin && c.k.name == "%" && c.f.eq != nil {
			m, ok1 := c.k.args[1].intConst()
			r, ok2 := c.f.eq.intConst()
			if ok1 && ok2 && m > 0 && r >= 0 && m&(m-1) == 0 {
				x := stripConv(c.k.args[0], m)
				n.align[x] = [2]int64{m, r}
				if x.k == KConv {
					n.align[c.k.args[0]] = [2]int64{m, r}
				}
			}
		}
		if isInt(c.k.t) && c.f.eq != nil {
			if b, ok := constBig(c.f.eq); ok {
				n.setLo(c.k, b)
				n.setHi(c.k, b)
			}
		}
	}
	for round := 0; round < 3; round++ {
		n.ver = round
		before := len(n.cons)
		if round > 0 {
			n.memo = map[*V]*lform{}
		}
		cons := n.cons
		_ = cons
		for i, c := range all {
			if use[i] {
				n.addFact(c.k, c.f, round)
			}
		}
		if round > 0 && len(n.cons) == before {
			break
		}
		if n.nWrap() == 0 {
			break
		}
	}
	// x != y with x >= y
	for _, d := range n.neq {
		if n.entails(d) {
			n.cons = append(n.cons, d.minus(lint(1)))
		} else if n.entails(lint(0).minus(d)) {
			n.cons = append(n.cons, lint(0).minus(d).minus(lint(1)))
		}
	}
	n.memo = map[*V]*lform{}
	return n
}

func (n *numCtx) nWrap() int {
	k := 0
	for v, f := range n.memo {
		if a, ok := f.single(); ok && a == v && (v.k == KBin || v.k == KConv) {
			k++
		}
	}
	return k
}

// stripConv: the operand of conversions that do not change it modulo m.
func stripConv(v *V, m int64) *V {
	for v.k == KConv && isInt(v.args[0].t) {
		w, _, _ := typeBits(v.t)
		if w < 63 && int64(1)<<uint(w) < m {
			break
		}
		v = v.args[0]
	}
	return v
}

func (n *numCtx) setLo(v *V, b *big.Int) {
	if o, ok := n.lo[v]; !ok || o.Cmp(b) < 0 {
		n.lo[v] = b
	}
}

func (n *numCtx) setHi(v *V, b *big.Int) {
	if o, ok := n.hi[v]; !ok || o.Cmp(b) > 0 {
		n.hi[v] = b
	}
}

func (n *numCtx) addFact(k *V, f Fact, round int) {
	if isGe(k) {
		if f.truth != 1 {
			return
		}
		g, ok := formOf(k.args[0])
		if !ok {
			g = n.lin(k.args[0])
		} else {
			g = n.relin(g)
		}
		n.addCon(g)
		return
	}
	if k.k == KBin && k.name == "<" && f.truth != 0 {
		x, y := n.lin(k.args[0]), n.lin(k.args[1])
		if f.truth == 1 {
			n.addCon(y.minus(x).minus(lint(1)))
		} else {
			n.addCon(x.minus(y))
		}
		return
	}
	if k.k == KBin && k.name == "==" && f.truth != 0 {
		d := n.lin(k.args[0]).minus(n.lin(k.args[1]))
		if f.truth == 1 {
			n.addCon(d)
			n.addCon(lint(0).minus(d))
		} else {
			n.neq = append(n.neq, d)
		}
		return
	}
	if f.eq != nil {
		if b, ok := constBig(f.eq); ok {
			d := n.linRaw(k).minus(lconst(b))
			n.addCon(d)
			n.addCon(lint(0).minus(d))
		}
		return
	}
	for _, s := range strings.Split(f.ne, ";") {
		if b, ok := new(big.Int).SetString(s, 10); ok {
			n.neq = append(n.neq, n.lin(k).minus(lconst(b)))
		}
	}
}

// relin replaces the atoms of a stored form by what is known about them now.
func (n *numCtx) relin(g *lform) *lform {
	r := lconst(g.c)
	for a, c := range g.m {
		r = r.add(n.lin(a), c)
	}
	return r
}

func (n *numCtx) addCon(f *lform) {
	if f.isConst() && f.c.Sign() >= 0 {
		return
	}
	for _, o := range n.cons {
		if sameForm(o, f) {
			return
		}
	}
	n.cons = append(n.cons, f)
}

func sameForm(a, b *lform) bool {
	if len(a.m) != len(b.m) || a.c.Cmp(b.c) != 0 {
		return false
	}
	for k, c := range a.m {
		if d, ok := b.m[k]; !ok || d.Cmp(c) != 0 {
			return false
		}
	}
	return true
}

// interval of a form from the bounds of its atoms.
func (n *numCtx) interval(f *lform) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(f.c), new(big.Int).Set(f.c)
	for a, c := range f.m {
		l, lok := n.lo[a]
		h, hok := n.hi[a]
		if c.Sign() < 0 {
			l, h, lok, hok = h, l, hok, lok
		}
		if lo != nil {
			if lok {
				lo.Add(lo, new(big.Int).Mul(c, l))
			} else {
				lo = nil
			}
		}
		if hi != nil {
			if hok {
				hi.Add(hi, new(big.Int).Mul(c, h))
			} else {
				hi = nil
			}
		}
	}
	return
}

// entails: f >= 0 in all states.
func (n *numCtx) entails(f *lform) bool {
	if lo, _ := n.interval(f); lo != nil && lo.Sign() >= 0 {
		return true
	}
	if f.isConst() {
		if f.c.Sign() >= 0 {
			return true
		}
	}
	neg := lint(0).minus(f).minus(lint(1)) // f <= -1
	return !n.feasibleWith(neg)
}

func (n *numCtx) feasibleWith(extra *lform) bool {
	// constraints connected with the goal
	rel := map[*V]bool{}
	for a := range extra.m {
		rel[a] = true
	}
	used := make([]bool, len(n.cons))
	for ch := true; ch; {
		ch = false
		for i, c := range n.cons {
			if used[i] {
				continue
			}
			hit := c.isConst()
			for a := range c.m {
				if rel[a] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				ch = true
				for a := range c.m {
					rel[a] = true
				}
			}
		}
	}
	idx := map[*V]int{}
	var vars []*V
	for a := range rel {
		vars = append(vars, a)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	for i, a := range vars {
		idx[a] = i
	}
	s := newSimplex(len(vars))
	for i, a := range vars {
		if b, ok := n.lo[a]; ok {
			s.lo[i] = new(big.Rat).SetInt(b)
		}
		if b, ok := n.hi[a]; ok {
			s.hi[i] = new(big.Rat).SetInt(b)
		}
	}
	add := func(f *lform) bool {
		if f.isConst() {
			return f.c.Sign() >= 0
		}
		low := new(big.Rat).SetInt(new(big.Int).Neg(f.c))
		if len(f.m) == 1 {
			for a, c := range f.m {
				b := new(big.Rat).Quo(low, new(big.Rat).SetInt(c))
				if c.Sign() > 0 {
					s.tightenLo(idx[a], ceilRat(b))
				} else {
					s.tightenHi(idx[a], floorRat(b))
				}
			}
			return true
		}
		m := map[int]*big.Rat{}
		g := new(big.Int)
		for a, c := range f.m {
			m[idx[a]] = new(big.Rat).SetInt(c)
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			// the sum is a multiple of g
			gr := new(big.Rat).SetInt(g)
			low = new(big.Rat).Mul(ceilRat(new(big.Rat).Quo(low, gr)), gr)
		}
		s.addRow(m, low, nil)
		return true
	}
	if !add(extra) {
		return false
	}
	for i, c := range n.cons {
		if used[i] {
			if !add(c) {
				return false
			}
		}
	}
	return s.feasible()
}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int).Div(r.Num(), r.Denom()) // Euclidean, denominator > 0
	return new(big.Rat).SetInt(q)
}

func ceilRat(r *big.Rat) *big.Rat {
	f := floorRat(r)
	if f.Cmp(r) == 0 {
		return f
	}
	return f.Add(f, big.NewRat(1, 1))
}

func (n *numCtx) within(f *lform, lo, hi *big.Int) bool {
	l, h := n.interval(f)
	okLo := l != nil && l.Cmp(lo) >= 0
	okHi := h != nil && h.Cmp(hi) <= 0
	if okLo && okHi {
		return true
	}
	if n.depth > 3 {
		return false
	}
	n.depth++
	defer func() { n.depth-- }()
	if !okLo && !n.entails(f.minus(lconst(lo))) {
		return false
	}
	return okHi || n.entails(lconst(hi).minus(f))
}

// atom registers v as an atom and returns its form.
func (n *numCtx) atom(v *V) *lform {
	if al, ok := n.align[v]; ok {
		q := mkApp("quo", types.Typ[types.UntypedInt], v, mkInt(al[0], types.Typ[types.UntypedInt]))
		f := latom(q).times(big.NewInt(al[0])).plus(lint(al[1]))
		if !n.atoms[q] {
			n.atoms[q] = true
			n.typeBounds(v)
			if l, ok := n.lo[v]; ok {
				n.setLo(q, ceilDiv(new(big.Int).Sub(l, big.NewInt(al[1])), al[0]))
			}
			if h, ok := n.hi[v]; ok {
				n.setHi(q, floorDiv(new(big.Int).Sub(h, big.NewInt(al[1])), al[0]))
			}
		}
		return f
	}
	if !n.atoms[v] {
		n.atoms[v] = true
		n.typeBounds(v)
	}
	return latom(v)
}

func floorDiv(a *big.Int, b int64) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, big.NewInt(b), m)
	return q
}

func ceilDiv(a *big.Int, b int64) *big.Int {
	return floorDiv(new(big.Int).Add(a, big.NewInt(b-1)), b)
}

func (n *numCtx) typeBounds(v *V) {
	if v.k == KApp {
		switch v.name {
		case "len", "cap":
			n.setLo(v, new(big.Int))
			n.setHi(v, maxLen)
			return
		}
	}
	if lo, hi, ok := typeRange(v.t); ok {
		if b, k := v.t.Underlying().(*types.Basic); k && b.Info()&types.IsUntyped == 0 {
			n.setLo(v, lo)
			n.setHi(v, hi)
		}
	}
}

// lin is the linear form of v.
func (n *numCtx) lin(v *V) *lform {
	if f, ok := n.memo[v]; ok {
		return f
	}
	if f, ok := n.st.facts[v]; ok && f.eq != nil && v.k != KConst {
		if b, ok := constBig(f.eq); ok {
			return lconst(b)
		}
	}
	return n.linRaw(v)
}

func (n *numCtx) linRaw(v *V) *lform {
	if n.busy[v] {
		return n.atom(v)
	}
	n.busy[v] = true
	f := n.lin0(v)
	n.busy[v] = false
	n.memo[v] = f
	return f
}

// wrapped: f if it is a value of type t, else v is an atom.
func (n *numCtx) fit(v *V, f *lform, t types.Type) *lform {
	lo, hi, ok := typeRange(t)
	if !ok {
		return f
	}
	if n.within(f, lo, hi) {
		return f
	}
	return n.atom(v)
}

func (n *numCtx) nonneg(f *lform) bool { return n.entails(f) }

func (n *numCtx) lin0(v *V) *lform {
	if b, ok := constBig(v); ok {
		return lconst(b)
	}
	switch v.k {
	case KBits:
		// the low bits of one value
		k := len(v.bits)
		if v.bits[0].src != nil && v.bits[0].lo == 0 && (k == 1 || k == 2 && v.bits[1].src == nil && v.bits[1].val == 0) {
			f := n.lin(v.bits[0].src)
			m := new(big.Int).Lsh(bigOne, uint(v.bits[0].w))
			if n.within(f, new(big.Int), new(big.Int).Sub(m, bigOne)) {
				return f
			}
		}
		if k > 1 {
			// the sum of its parts
			f := lint(0)
			off, ok := 0, true
			for _, b := range v.bits {
				m := new(big.Int).Lsh(bigOne, uint(off))
				off += b.w
				if b.src == nil {
					f = f.add(lconst(new(big.Int).SetUint64(b.val)), m)
					continue
				}
				if len(v.bits) == 2 && v.bits[1].src == nil && v.bits[1].val == 0 {
					ok = false // v is such a part
					break
				}
				w := 64
				part := in.mk(V{k: KBits, t: tU64(), bits: []bitseg{{src: b.src, lo: b.lo, w: b.w}, {w: w - b.w}}})
				if b.w >= 64 {
					ok = false
					break
				}
				f = f.add(n.lin(part), m)
			}
			if ok {
				return f
			}
		}
		if last := v.bits[k-1]; last.src == nil && last.val == 0 {
			w, _, _ := typeBits(v.t)
			n.setHi(v, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w-last.w)), bigOne))
		}
		return n.atom(v)
	case KConv:
		x := v.args[0]
		if !isInt(x.t) {
			return n.atom(v)
		}
		return n.fit(v, n.lin(x), v.t)
	case KApp:
		if f, ok := formOf(v); ok {
			return n.relin(f)
		}
		if v.name == "min" || v.name == "max" {
			f := n.atom(v)
			for _, a := range v.args {
				d := n.lin(a).minus(f)
				if v.name == "max" {
					d = lint(0).minus(d)
				}
				n.addCon(d)
			}
			return f
		}
	case KUn:
		if v.name == "-" {
			return n.fit(v, lint(0).minus(n.lin(v.args[0])), v.t)
		}
		if v.name == "^" {
			// -1-x, or max-x for unsigned types
			lo, hi, ok := typeRange(v.t)
			if ok && lo.Sign() == 0 {
				return lconst(hi).minus(n.lin(v.args[0]))
			}
			return n.fit(v, lint(-1).minus(n.lin(v.args[0])), v.t)
		}
	case KBin:
		if len(v.args) != 2 || !isInt(v.t) {
			break
		}
		x, y := v.args[0], v.args[1]
		switch v.name {
		case "+":
			// x + (2^k - c) is x - c
			if lo, hi, ok := typeRange(v.t); ok && lo.Sign() == 0 {
				for _, p := range [][2]*V{{x, y}, {y, x}} {
					if c, ok := constBig(p[1]); ok && c.BitLen() == hi.BitLen() && hi.BitLen() > 8 {
						d := new(big.Int).Sub(hi, c)
						d.Add(d, bigOne)
						f := n.lin(p[0]).minus(lconst(d))
						if n.within(f, lo, hi) {
							return f
						}
					}
					if p[1].k == KUn && p[1].name == "^" {
						// x + ^z = x - z - 1
						f := n.lin(p[0]).minus(n.lin(p[1].args[0])).minus(lint(1))
						if n.within(f, lo, hi) {
							return f
						}
					}
				}
			}
			if f := n.wrapSum(v); f != nil {
				return f
			}
			return n.fit(v, n.lin(x).plus(n.lin(y)), v.t)
		case "-":
			if f := n.wrapSum(v); f != nil {
				return f
			}
			return n.fit(v, n.lin(x).minus(n.lin(y)), v.t)
		case "*":
			return n.fit(v, n.mul(n.lin(x), n.lin(y)), v.t)
		case "/":
			return n.quo(v, n.lin(x), n.lin(y))
		case "%":
			q := n.quo(nil, n.lin(x), n.lin(y))
			if q == nil {
				return n.atom(v)
			}
			return n.lin(x).minus(n.mul(q, n.lin(y)))
		case "<<":
			fx, fy := n.lin(x), n.lin(y)
			if fy.isConst() && fy.c.IsInt64() && fy.c.Int64() >= 0 && fy.c.Int64() < 128 {
				f := fx.times(new(big.Int).Lsh(bigOne, uint(fy.c.Int64())))
				if lo, hi, ok := typeRange(v.t); ok && lo.Sign() == 0 && !n.within(f, lo, hi) && n.nonneg(fx) {
					// the high bits are lost
					m := lconst(new(big.Int).Add(hi, bigOne))
					if q := n.quo(nil, f, m); q != nil {
						f = f.minus(n.mul(q, m))
					}
				}
				return n.fit(v, f, v.t)
			}
			if p := n.pow2(fy); p != nil {
				return n.fit(v, n.mul(fx, p), v.t)
			}
		case ">>":
			fx, fy := n.lin(x), n.lin(y)
			if fy.isConst() && fy.c.IsInt64() && fy.c.Int64() >= 0 && fy.c.Int64() < 128 && n.nonneg(fx) {
				return n.quo(v, fx, lconst(new(big.Int).Lsh(bigOne, uint(fy.c.Int64()))))
			}
			if p := n.pow2(fy); p != nil && n.nonneg(fx) {
				return n.quo(v, fx, p)
			}
		case "&":
			fx, fy := n.lin(x), n.lin(y)
			for _, p := range [][2]*lform{{fx, fy}, {fy, fx}} {
				if p[1].isConst() && p[1].c.Sign() >= 0 && n.nonneg(p[0]) {
					m := new(big.Int).Add(p[1].c, bigOne)
					if m.Sign() > 0 && new(big.Int).And(m, p[1].c).Sign() == 0 {
						q := n.quo(nil, p[0], lconst(m))
						if q != nil {
							return p[0].minus(n.mul(q, lconst(m)))
						}
					}
				}
			}
			if n.nonneg(fx) && n.nonneg(fy) {
				f := n.atom(v)
				n.addCon(fx.minus(f))
				n.addCon(fy.minus(f))
				return f
			}
		case "|", "^":
			if n.e.disjointBits(n.st, x, y) {
				return n.fit(v, n.lin(x).plus(n.lin(y)), v.t)
			}
			fx, fy := n.lin(x), n.lin(y)
			if n.nonneg(fx) && n.nonneg(fy) {
				f := n.atom(v)
				if v.name == "|" {
					n.addCon(f.minus(fx))
					n.addCon(f.minus(fy))
				}
				n.addCon(fx.plus(fy).minus(f))
				return f
			}
		case "&^":
			fx := n.lin(x)
			if n.nonneg(fx) {
				f := n.atom(v)
				n.addCon(fx.minus(f))
				n.addCon(f)
				return f
			}
		}
	}
	return n.atom(v)
}

// wrapSum: the sum v of unsigned values has a part which may wrap around, but
// the whole does not, or it wraps around as often on every run.
func (n *numCtx) wrapSum(v *V) *lform {
	lo, hi, ok := typeRange(v.t)
	if !ok || lo.Sign() != 0 {
		return nil
	}
	isSum := func(x *V) bool {
		return x.k == KBin && len(x.args) == 2 && (x.name == "+" || x.name == "-") && types.Identical(x.t, v.t)
	}
	part := false
	for _, a := range v.args {
		if isSum(a) {
			if w, ok := n.lin(a).single(); ok && w == a {
				part = true
			}
		}
	}
	if !part {
		return nil
	}
	var sum func(x *V) *lform
	sum = func(x *V) *lform {
		f := n.lin(x)
		if w, ok := f.single(); !ok || w != x || !isSum(x) {
			return f
		}
		if x.name == "+" {
			return sum(x.args[0]).plus(sum(x.args[1]))
		}
		return sum(x.args[0]).minus(sum(x.args[1]))
	}
	var f *lform
	if v.name == "+" {
		f = sum(v.args[0]).plus(sum(v.args[1]))
	} else {
		f = sum(v.args[0]).minus(sum(v.args[1]))
	}
	if n.within(f, lo, hi) {
		return f
	}
	return nil
}

// pow2 is 2^k as an atom, if k is bounded.
func (n *numCtx) pow2(k *lform) *lform {
	if k.isConst() {
		return nil
	}
	if !n.within(k, new(big.Int), big.NewInt(62)) {
		return nil
	}
	lo, hi := n.interval(k)
	a := mkApp("pow2", types.Typ[types.UntypedInt], k.value())
	if !n.atoms[a] {
		n.atoms[a] = true
		l, h := uint(0), uint(62)
		if lo != nil && lo.Sign() > 0 && lo.IsInt64() && lo.Int64() < 62 {
			l = uint(lo.Int64())
		}
		if hi != nil && hi.IsInt64() && hi.Int64() < 62 {
			h = uint(hi.Int64())
		}
		n.setLo(a, new(big.Int).Lsh(bigOne, l))
		n.setHi(a, new(big.Int).Lsh(bigOne, h))
	}
	return latom(a)
}

func (n *numCtx) mul(x, y *lform) *lform {
	if x.isConst() {
		return y.times(x.c)
	}
	if y.isConst() {
		return x.times(y.c)
	}
	r := lconst(new(big.Int).Mul(x.c, y.c))
	r = r.plus((&lform{x.m, new(big.Int)}).times(y.c))
	r = r.plus((&lform{y.m, new(big.Int)}).times(x.c))
	for a, c := range x.m {
		for b, d := range y.m {
			r = r.add(n.prod(a, b), new(big.Int).Mul(c, d))
		}
	}
	return r
}

func (n *numCtx) prod(a, b *V) *lform {
	if a.id > b.id {
		a, b = b, a
	}
	p := mkApp("prod", types.Typ[types.UntypedInt], a, b)
	if !n.atoms[p] {
		n.atoms[p] = true
		la, oka := n.lo[a]
		lb, okb := n.lo[b]
		if oka && okb && la.Sign() >= 0 && lb.Sign() >= 0 {
			n.setLo(p, new(big.Int).Mul(la, lb))
			if ha, ok := n.hi[a]; ok {
				if hb, ok := n.hi[b]; ok {
					n.setHi(p, new(big.Int).Mul(ha, hb))
				}
				// a*b <= hi(a)*b
				n.addCon(latom(b).times(ha).minus(latom(p)))
			}
			if hb, ok := n.hi[b]; ok {
				n.addCon(latom(a).times(hb).minus(latom(p)))
			}
			n.addCon(latom(p).minus(latom(b).times(la)))
			n.addCon(latom(p).minus(latom(a).times(lb)))
		}
	}
	return latom(p)
}

// quo is x / y; v is the value it stands for (nil: give up with nil).
func (n *numCtx) quo(v *V, x, y *lform) *lform {
	giveUp := func() *lform {
		if v == nil {
			return nil
		}
		return n.atom(v)
	}
	if y.isConst() {
		c := y.c
		if c.Sign() <= 0 {
			return giveUp()
		}
		if c.Cmp(bigOne) == 0 {
			return x
		}
		// x = c*g + h with 0 <= h < c
		g, h := lint(0), lint(0)
		for a, k := range x.m {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(k, c, m)
			if m.Sign() == 0 {
				g.m[a] = q
			} else {
				h.m[a] = k
			}
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x.c, c, m)
		g.c, h.c = q, m
		if h.isConst() {
			if m.Sign() == 0 || n.nonneg(x) {
				return g
			}
			return giveUp()
		}
		if !n.nonneg(x) {
			return giveUp()
		}
		if !g.isConst() || g.c.Sign() != 0 || true {
			if n.within(h, new(big.Int), new(big.Int).Sub(c, bigOne)) {
				return g
			}
		}
		a := mkApp("quo", types.Typ[types.UntypedInt], x.value(), mkConst(constant.Make(c), types.Typ[types.UntypedInt]))
		if !n.atoms[a] {
			n.atoms[a] = true
			n.setLo(a, new(big.Int))
			if _, hi := n.interval(x); hi != nil {
				n.setHi(a, new(big.Int).Div(hi, c))
			}
		}
		f := latom(a)
		n.addCon(x.minus(f.times(c)))
		n.addCon(f.times(c).plus(lconst(c)).minus(lint(1)).minus(x))
		return f
	}
	if !n.nonneg(x) || !n.entails(y.minus(lint(1))) && !n.nonneg(y) {
		return giveUp()
	}
	// y is not 0, otherwise the program panics here
	if len(x.m) == 1 && x.c.Sign() == 0 {
		for p, c := range x.m {
			if p.k == KApp && p.name == "prod" && c.Cmp(bigOne) == 0 {
				if b, ok := y.single(); ok {
					if p.args[0] == b {
						return n.atom(p.args[1])
					}
					if p.args[1] == b {
						return n.atom(p.args[0])
					}
				}
			}
		}
	}
	a := mkApp("div", types.Typ[types.UntypedInt], x.value(), y.value())
	f := latom(a)
	if !n.atoms[a] {
		n.atoms[a] = true
		n.setLo(a, new(big.Int))
		if _, hi := n.interval(x); hi != nil {
			n.setHi(a, hi)
		}
		n.addCon(x.minus(f))
	}
	p := n.mul(f, y)
	n.addCon(x.minus(p))                        // q*y <= x
	n.addCon(p.plus(y).minus(lint(1)).minus(x)) // x <= q*y + y - 1
	return f
}

// ---- decisions

func (e *Engine) decideNum(st *State, c *V) int8 {
	if isGe(c) {
		n := e.newNum(st, c)
		f, ok := formOf(c.args[0])
		if ok {
			f = n.relin(f)
		} else {
			f = n.lin(c.args[0])
		}
		if n.entails(f) {
			return 1
		}
		if n.entails(lint(-1).minus(f)) {
			return 2
		}
		return 0
	}
	if c.k != KBin || len(c.args) != 2 || c.args[0].t == nil || c.args[1].t == nil || !isInt(c.args[0].t) || !isInt(c.args[1].t) {
		return 0
	}
	x, y := c.args[0], c.args[1]
	e.nNum++
	switch c.name {
	case "<":
		n := e.newNum(st, x, y)
		d := n.lin(y).minus(n.lin(x))
		if n.entails(d.minus(lint(1))) {
			return 1
		}
		if n.entails(lint(0).minus(d)) {
			return 2
		}
		if debugWiden && x.String() == "1099511627775" {
			fmt.Fprintln(os.Stderr, "UNDECIDED", c, "form", d)
			for _, k := range n.cons {
				fmt.Fprintln(os.Stderr, "    con", k)
			}
			for k, b := range n.hi {
				fmt.Fprintln(os.Stderr, "    hi", k, b)
			}
		}
	case "==":
		if r := e.bitsEqual(st, x, y); r != 0 {
			return r
		}
		n := e.newNum(st, x, y)
		d := n.lin(x).minus(n.lin(y))
		if d.isConst() {
			if d.c.Sign() == 0 {
				return 1
			}
			return 2
		}
		a, b := n.entails(d), n.entails(lint(0).minus(d))
		if a && b {
			return 1
		}
		if a && n.entails(d.minus(lint(1))) || b && n.entails(lint(0).minus(d).minus(lint(1))) {
			return 2
		}
	}
	return 0
}

// feasible: conditions are decided before they are assumed.
func (e *Engine) feasible(st *State) bool { return true }

// le asks whether x <= y holds, le0 whether the form is not negative.
func (e *Engine) le(st *State, x, y *V) bool {
	n := e.newNum(st, x, y)
	return n.entails(n.lin(y).minus(n.lin(x)))
}

func (e *Engine) numEq(st *State, x, y *V) bool {
	return x == y || e.decide(st, mkEq(x, y)) == 1
}

// assumeLe, assumeEq: facts given by the client.
func (e *Engine) assumeLe(st *State, x, y *V) bool { return e.assume(st, mkLess(y, x), false) }

func tU64() types.Type { return types.Typ[types.Uint64] }

func mkU64(i uint64) *V {
	return mkConst(constant.MakeUint64(i), types.Typ[types.Uint64])
}

func mkAdd(x, y *V) *V {
	return in.mk(V{k: KBin, name: "+", args: []*V{x, y}, t: x.t})
}
func mkSub(x, y *V) *V {
	return in.mk(V{k: KBin, name: "-", args: []*V{x, y}, t: x.t})
}
func mkMul(x, y *V) *V {
	return in.mk(V{k: KBin, name: "*", args: []*V{x, y}, t: x.t})
}
func mkRem(x *V, c uint64) *V {
	return in.mk(V{k: KBin, name: "%", args: []*V{x, mkConst(constant.MakeUint64(c), x.t)}, t: x.t})
}
func mkConvTo(x *V, t types.Type) *V {
	if types.Identical(x.t, t) {
		return x
	}
	return in.mk(V{k: KConv, args: []*V{x}, t: t})
}

// ---- loops

// widenEdge replaces the integers that a loop changes by fresh ones, and keeps
// the candidate facts that hold on this back edge: relations with the value
// before the loop, between two loop variables, and bounds of the condition.
var debugWiden = os.Getenv("CHK_WIDEN") != ""

func (e *Engine) widenEdge(st *State, to *ssa.BasicBlock, phis []*ssa.Phi, vals []*V) {
	fr := st.top()
	type pv struct {
		i    int
		init *V
		val  *V
		old  *V
	}
	var ps []pv
	for i, phi := range phis {
		if vals[i] == nil || !isInt(phi.Type()) {
			continue
		}
		old := fr.env[phi]
		if old == nil {
			old = st.flags[e.initKey(phi)+" now"]
		}
		if old == vals[i] {
			continue
		}
		ps = append(ps, pv{i, st.flags[e.initKey(phi)], vals[i], old})
	}
	if len(ps) == 0 {
		return
	}
	isOld := map[*V]bool{}
	for _, p := range ps {
		if p.old != nil && p.old.k == KSym {
			isOld[p.old] = true
		}
	}
	clean := func(v *V) bool {
		for s := range v.syms {
			if isOld[s] {
				return false
			}
		}
		return true
	}
	// candidates: form over placeholders
	type cand struct {
		f   *lform // over atoms and placeholders
		ph  []int
		aux []*V
	}
	hold := func(k int) *V { return mkSym(fmt.Sprintf("\x00hold%d", k), types.Typ[types.Int64]) }
	var cands []*lform
	for k, p := range ps {
		t := phis[p.i].Type()
		_ = t
		if p.init != nil {
			n := e.newNum(st, p.init, p.val)
			d := latom(hold(k)).minus(latom(p.init))
			cands = append(cands, d, lint(0).minus(d))
			_ = n
		}
		for k2 := k + 1; k2 < len(ps); k2++ {
			q := ps[k2]
			if p.init != nil && q.init != nil {
				d := latom(hold(k)).minus(latom(p.init)).minus(latom(hold(k2))).plus(latom(q.init))
				cands = append(cands, d, lint(0).minus(d))
				d = latom(hold(k)).minus(latom(p.init)).plus(latom(hold(k2))).minus(latom(q.init))
				cands = append(cands, d, lint(0).minus(d))
			}
		}
		if p.old != nil && p.old.k == KSym || p.old != nil {
			for key, f := range st.facts {
				if key.k != KBin || f.truth == 0 || (key.name != "<" && key.name != "==") {
					continue
				}
				for side := 0; side < 2; side++ {
					if stripWiden(key.args[side]) != p.old {
						continue
					}
					b := key.args[1-side]
					if !clean(b) {
						continue
					}
					d := latom(b).minus(latom(hold(k)))
					if side == 1 {
						d = lint(0).minus(d)
					}
					if f.truth == 2 && key.name == "<" {
						d = lint(0).minus(d)
					}
					if key.name == "==" || e.unroll > 0 {
						cands = append(cands, lint(0).minus(d))
					}
					cands = append(cands, d)
				}
			}
			for key, f := range st.facts {
				if isGe(key) && f.truth == 1 {
					g, ok := formOf(key.args[0])
					if !ok {
						continue
					}
					if _, has := g.m[p.old]; !has {
						continue
					}
					h := lconst(g.c)
					good := true
					for a, c := range g.m {
						done := false
						for k3, q := range ps {
							if a == q.old {
								h = h.add(latom(hold(k3)), c)
								done = true
							}
						}
						if !done {
							if !clean(a) {
								good = false
							}
							h = h.add(latom(a), c)
						}
					}
					if good {
						cands = append(cands, h)
					}
				}
			}
		}
	}
	// which of them hold now
	var kept []*lform
	var vs []*V
	for _, p := range ps {
		vs = append(vs, p.val)
	}
	for _, p := range ps {
		if p.init != nil {
			vs = append(vs, p.init)
		}
	}
	for _, c := range cands {
		for a := range c.m {
			if !strings.HasPrefix(a.name, "\x00hold") {
				vs = append(vs, a)
			}
		}
	}
	n := e.newNum(st, vs...)
	seen := map[string]bool{}
	for _, c := range cands {
		g := lconst(c.c)
		for a, k := range c.m {
			x := a
			if strings.HasPrefix(a.name, "\x00hold") {
				var j int
				fmt.Sscanf(a.name[5:], "%d", &j)
				x = ps[j].val
			}
			g = g.add(n.lin(x), k)
		}
		if seen[c.String()] {
			continue
		}
		seen[c.String()] = true
		if g.isConst() && g.c.Sign() >= 0 || n.entails(g) {
			kept = append(kept, c)
		}
	}
	if debugWiden {
		for _, p := range ps {
			fmt.Fprintln(os.Stderr, "WIDEN", e.ctxName(), e.label(phis[p.i]), "init", p.init, "old", p.old, "val", p.val)
		}
		for _, c := range cands {
			fmt.Fprintln(os.Stderr, "   cand", c, "kept", func() bool {
				for _, k := range kept {
					if k == c {
						return true
					}
				}
				return false
			}())
		}
	}
	// values of the client that are the same as a loop variable
	type link struct {
		key  string
		i, p int
	}
	var links []link
	var lkeys []string
	for key := range st.flags {
		if strings.HasPrefix(key, "L:") {
			lkeys = append(lkeys, key)
		}
	}
	sort.Strings(lkeys)
	for _, key := range lkeys {
		for i, v := range st.flags[key].args {
			for k, p := range ps {
				if v == p.val || !v.isConst() && e.numEq(st, mkConvTo(v, tU64()), mkConvTo(p.val, tU64())) {
					links = append(links, link{key, i, k})
					break
				}
			}
		}
	}
	// carry the atoms of the candidates through renaming
	for j, c := range kept {
		st.flags[fmt.Sprintf("\x00c%d", j)] = mkTuple(c.atoms()...)
	}
	keptAtoms := make([][]*V, len(kept))
	for j, c := range kept {
		keptAtoms[j] = c.atoms()
	}
	for _, p := range ps {
		v := e.Fresh(st, phis[p.i], "", phis[p.i].Type())
		st.flags[fmt.Sprintf("\x00w%d", p.i)] = v
	}
	for _, l := range links {
		args := append([]*V(nil), st.flags[l.key].args...)
		args[l.i] = mkConvTo(st.flags[fmt.Sprintf("\x00w%d", ps[l.p].i)], args[l.i].t)
		st.flags[l.key] = mkTuple(args...)
	}
	for j, c := range kept {
		key := fmt.Sprintf("\x00c%d", j)
		now := st.flags[key].args
		delete(st.flags, key)
		g := lconst(c.c)
		for x, a := range now {
			co := c.m[keptAtoms[j][x]]
			if strings.HasPrefix(a.name, "\x00hold") {
				var k int
				fmt.Sscanf(a.name[5:], "%d", &k)
				a = st.flags[fmt.Sprintf("\x00w%d", ps[k].i)]
			}
			g = g.add(latom(a), co)
		}
		if g.isConst() {
			continue
		}
		k := mkGe(g)
		f := st.facts[k]
		f.truth = 1
		st.facts[k] = f
	}
	for _, p := range ps {
		key := fmt.Sprintf("\x00w%d", p.i)
		vals[p.i] = st.flags[key]
		delete(st.flags, key)
	}
}

func stripWiden(v *V) *V { return v }

func (e *Engine) initKey(phi *ssa.Phi) string {
	return "\x00i:" + e.ctxName() + e.label(phi)
}

var _ = token.ADD
