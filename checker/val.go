package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. Every value is interned, so pointer equality is equality.
type Kind uint8

const (
	KSym    Kind = iota // an unknown value, created at one point of the analysis
	KConst              // a constant
	KNil                // nil of any type
	KCell               // address base: a local allocation
	KGlobal             // address base: a package variable
	KPtr                // args[0]=base, name=path
	KStruct             // aggregate by value
	KIface              // interface holding args[0] of dynamic type t
	KFunc               // function value with bindings
	KTuple              // results of a call
	KBin                // args[0] name args[1]
	KUn                 // name args[0]
	KConv               // conversion of args[0] to t
	KField              // field idx of opaque struct args[0]
	KAs                 // opaque interface args[0] known to hold t
	KInit               // the value a location held when it was first read
	KSlice              // args: base pointer, lo, len
	KApp                // name(args...)
	KBits               // concatenation of bit ranges, see bits.go
)

type V struct {
	id    int
	k     Kind
	t     types.Type
	name  string
	args  []*V
	cv    constant.Value
	fn    *ssa.Function
	g     *ssa.Global
	idx   int
	bits  []bitseg
	depth int
	syms  map[*V]bool // symbols and cells inside (nil if none)
}

type Interner struct {
	tab   map[string]*V
	tids  map[string]int
	tcach map[types.Type]int
	vals  []*V
}

func newInterner() *Interner {
	return &Interner{tab: map[string]*V{}, tids: map[string]int{}, tcach: map[types.Type]int{}}
}

var reByte = regexp.MustCompile(`\bbyte\b`)

func (in *Interner) tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := in.tcach[t]; ok {
		return id
	}
	s := reByte.ReplaceAllString(types.TypeString(t, nil), "uint8")
	id, ok := in.tids[s]
	if !ok {
		id = len(in.tids) + 1
		in.tids[s] = id
	}
	in.tcach[t] = id
	return id
}

func (in *Interner) mk(v V) *V {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(v.k)))
	b.WriteByte('|')
	b.WriteString(v.name)
	b.WriteByte('|')
	switch v.k {
	case KNil:
		v.t = nil
	default:
		b.WriteString(strconv.Itoa(in.tid(v.t)))
	}
	b.WriteByte('|')
	for _, a := range v.args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if v.cv != nil {
		b.WriteString("|c")
		b.WriteString(v.cv.ExactString())
	}
	if v.fn != nil {
		fmt.Fprintf(&b, "|f%p", v.fn)
	}
	if v.g != nil {
		fmt.Fprintf(&b, "|g%p", v.g)
	}
	if v.idx != 0 {
		b.WriteString("|i")
		b.WriteString(strconv.Itoa(v.idx))
	}
	for _, s := range v.bits {
		if s.src == nil {
			fmt.Fprintf(&b, "|z%d:%v", s.w, s.val)
		} else {
			fmt.Fprintf(&b, "|b%d:%d:%d", s.src.id, s.lo, s.w)
		}
	}
	k := b.String()
	if o, ok := in.tab[k]; ok {
		return o
	}
	n := v
	n.id = len(in.vals) + 1
	n.args = append([]*V(nil), v.args...)
	n.bits = append([]bitseg(nil), v.bits...)
	n.syms = nil
	add := func(x *V) {
		if n.syms == nil {
			n.syms = map[*V]bool{}
		}
		n.syms[x] = true
	}
	for _, a := range n.args {
		if a.depth+1 > n.depth {
			n.depth = a.depth + 1
		}
		for s := range a.syms {
			add(s)
		}
	}
	for _, s := range n.bits {
		if s.src != nil {
			if s.src.depth+1 > n.depth {
				n.depth = s.src.depth + 1
			}
			for x := range s.src.syms {
				add(x)
			}
		}
	}
	p := &n
	if v.k == KSym || v.k == KCell {
		p.syms = map[*V]bool{p: true}
	}
	in.tab[k] = p
	in.vals = append(in.vals, p)
	return p
}

var in = newInterner()

var theNil = in.mk(V{k: KNil})

func mkSym(name string, t types.Type) *V  { return in.mk(V{k: KSym, name: name, t: t}) }
func mkCell(name string, t types.Type) *V { return in.mk(V{k: KCell, name: name, t: t}) }
func mkConst(c constant.Value, t types.Type) *V {
	return in.mk(V{k: KConst, cv: c, t: t})
}
func mkInt(i int64, t types.Type) *V { return mkConst(constant.MakeInt64(i), t) }
func mkBool(b bool) *V               { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *V {
	return mkConst(constant.MakeString(s), types.Typ[types.UntypedString])
}

// mkPtr is the address base+path. The address of a whole opaque object is the
// opaque pointer itself.
func mkPtr(base *V, path string) *V {
	if base.k == KPtr {
		path = base.name + path
		base = base.args[0]
	}
	if path == "" && base.k != KCell && base.k != KGlobal {
		return base
	}
	return in.mk(V{k: KPtr, name: path, args: []*V{base}})
}

func mkTuple(vs ...*V) *V { return in.mk(V{k: KTuple, args: vs}) }
func mkIface(t types.Type, v *V) *V {
	return in.mk(V{k: KIface, t: t, args: []*V{v}})
}
func mkFunc(f *ssa.Function, b []*V) *V { return in.mk(V{k: KFunc, fn: f, args: b}) }
func mkApp(name string, t types.Type, args ...*V) *V {
	return in.mk(V{k: KApp, name: name, t: t, args: args})
}

// mkStruct builds an aggregate; a copy of all fields of one opaque struct is
// that struct.
func mkStruct(t types.Type, fs []*V) *V {
	if len(fs) > 0 && fs[0].k == KField && fs[0].idx == 1 {
		base := fs[0].args[0]
		same := types.Identical(base.t, t)
		for i, f := range fs {
			if f.k != KField || f.args[0] != base || f.idx != i+1 {
				same = false
				break
			}
		}
		if same {
			return base
		}
	}
	return in.mk(V{k: KStruct, t: t, args: fs})
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldOf selects field i of a struct value.
func fieldOf(v *V, i int) *V {
	if v.k == KStruct {
		return v.args[i]
	}
	st := structOf(v.t)
	var ft types.Type
	if st != nil {
		ft = st.Field(i).Type()
	}
	return in.mk(V{k: KField, args: []*V{v}, idx: i + 1, t: ft})
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isError(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (v *V) isConst() bool { return v.k == KConst }

func (v *V) intConst() (int64, bool) {
	if v.k != KConst || v.cv.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.cv)
}

func (v *V) boolConst() (bool, bool) {
	if v.k != KConst || v.cv.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.cv), true
}

func (v *V) strConst() string {
	if v != nil && v.k == KConst && v.cv.Kind() == constant.String {
		return constant.StringVal(v.cv)
	}
	return ""
}

func (v *V) String() string {
	if v == nil {
		return "<nil>"
	}
	as := func() string {
		var s []string
		for _, a := range v.args {
			s = append(s, a.String())
		}
		return strings.Join(s, ",")
	}
	switch v.k {
	case KSym, KCell:
		return v.name
	case KConst:
		return v.cv.ExactString()
	case KNil:
		return "nil"
	case KGlobal:
		return v.g.Name()
	case KPtr:
		return "&" + v.args[0].String() + v.name
	case KStruct:
		return "{" + as() + "}"
	case KIface:
		return "iface(" + as() + ")"
	case KFunc:
		return "func " + v.fn.Name()
	case KTuple:
		return "(" + as() + ")"
	case KBin:
		return "(" + v.args[0].String() + v.name + v.args[1].String() + ")"
	case KUn:
		return v.name + v.args[0].String()
	case KConv:
		return types.TypeString(v.t, func(*types.Package) string { return "" }) + "(" + as() + ")"
	case KField:
		n := strconv.Itoa(v.idx - 1)
		if st := structOf(v.args[0].t); st != nil {
			n = st.Field(v.idx - 1).Name()
		}
		return v.args[0].String() + "." + n
	case KAs:
		return v.args[0].String() + ".(" + types.TypeString(v.t, func(*types.Package) string { return "" }) + ")"
	case KInit:
		return v.args[0].String() + v.name
	case KSlice:
		return "slice(" + as() + ")"
	case KApp:
		return v.name + "(" + as() + ")"
	case KBits:
		var s []string
		for _, b := range v.bits {
			if b.src == nil {
				s = append(s, fmt.Sprintf("%d#%v", b.w, b.val))
			} else {
				s = append(s, fmt.Sprintf("%s[%d+%d]", b.src, b.lo, b.w))
			}
		}
		return "bits(" + strings.Join(s, " ") + ")"
	}
	return "?"
}

// subst rewrites symbols inside v.
func subst(v *V, m map[*V]*V, memo map[*V]*V) *V {
	if v == nil || len(v.syms) == 0 {
		return v
	}
	hit := false
	for s := range m {
		if v.syms[s] {
			hit = true
			break
		}
	}
	if !hit {
		return v
	}
	if r, ok := m[v]; ok {
		return r
	}
	if r, ok := memo[v]; ok {
		return r
	}
	n := *v
	n.args = make([]*V, len(v.args))
	for i, a := range v.args {
		n.args[i] = subst(a, m, memo)
	}
	n.bits = make([]bitseg, len(v.bits))
	for i, b := range v.bits {
		n.bits[i] = b
		if b.src != nil {
			n.bits[i].src = subst(b.src, m, memo)
		}
	}
	n.depth = 0
	r := in.mk(n)
	memo[v] = r
	return r
}

func sortedIDs(m map[*V]bool) []*V {
	var out []*V
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
