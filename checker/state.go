package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loc struct {
	base *V
	path string
}

// Fact is what is known about one (immutable) value.
type Fact struct {
	nilness int8 // 0 unknown, 1 nil, 2 not nil
	truth   int8 // for booleans: 1 true, 2 false
	eq      *V   // equal to this constant
	ne      string
	dyn     types.Type
	notdyn  string // ";T1;T2;"
	tag     string // client tag ("dev": an error of a device operation)
}

type deferred struct {
	fn   *V // callee (KFunc) or nil
	call *ssa.CallCommon
	recv *V
	args []*V
	site ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*V
	defers []deferred
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]*V, len(f.env)), defers: append([]deferred(nil), f.defers...)}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

// State is one abstract state. It is copied before it is changed.
type State struct {
	frames []*Frame
	heap   map[loc]*V
	facts  map[*V]Fact
	flags  map[string]*V // client state
	toks   map[*V]string // client state attached to a value
	epoch  bool          // opaque memory may differ from the entry state
	trail  *trailNode    // for reports only, not part of the state
}

type trailNode struct {
	prev *trailNode
	msg  string
	n    int
}

func newState() *State {
	return &State{heap: map[loc]*V{}, facts: map[*V]Fact{}, flags: map[string]*V{}, toks: map[*V]string{}}
}

func (s *State) clone() *State {
	n := &State{epoch: s.epoch, trail: s.trail}
	n.frames = append([]*Frame(nil), s.frames...)
	if len(n.frames) > 0 {
		n.frames[len(n.frames)-1] = n.frames[len(n.frames)-1].clone()
	}
	n.heap = make(map[loc]*V, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = make(map[*V]Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.flags = make(map[string]*V, len(s.flags))
	for k, v := range s.flags {
		n.flags[k] = v
	}
	n.toks = make(map[*V]string, len(s.toks))
	for k, v := range s.toks {
		n.toks[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(msg string) {
	n := 1
	if s.trail != nil {
		n = s.trail.n + 1
	}
	s.trail = &trailNode{s.trail, msg, n}
}

func (s *State) trailMsgs() []string {
	var out []string
	for t := s.trail; t != nil; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 60 {
		out = append(append([]string{}, out[:20]...), out[len(out)-40:]...)
	}
	return out
}

func (s *State) flag(k string) string { return s.flags[k].strConst() }
func (s *State) setFlag(k, v string) {
	if v == "" {
		delete(s.flags, k)
		return
	}
	s.flags[k] = mkStr(v)
}
func (s *State) setVal(k string, v *V) {
	if v == nil {
		delete(s.flags, k)
		return
	}
	s.flags[k] = v
}

// fullKey identifies the state up to the trail.
func (s *State) key() string {
	var b strings.Builder
	for _, f := range s.frames {
		type kv struct {
			n string
			v int
		}
		var l []kv
		for k, v := range f.env {
			l = append(l, kv{k.Name(), v.id})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
		b.WriteString(f.fn.Name())
		for _, e := range l {
			b.WriteString(e.n)
			b.WriteByte('=')
			b.WriteString(strconv.Itoa(e.v))
			b.WriteByte(' ')
		}
		for _, d := range f.defers {
			b.WriteString("D")
			if d.fn != nil {
				b.WriteString(strconv.Itoa(d.fn.id))
			}
			for _, a := range d.args {
				b.WriteByte(',')
				b.WriteString(strconv.Itoa(a.id))
			}
		}
		b.WriteByte('/')
	}
	var ls []string
	for k, v := range s.heap {
		ls = append(ls, strconv.Itoa(k.base.id)+k.path+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, " "))
	b.WriteByte('#')
	ls = ls[:0]
	for k, f := range s.facts {
		ls = append(ls, strconv.Itoa(k.id)+"="+f.key())
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, " "))
	b.WriteByte('#')
	ls = ls[:0]
	for k, v := range s.flags {
		ls = append(ls, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, " "))
	b.WriteByte('#')
	ls = ls[:0]
	for k, v := range s.toks {
		ls = append(ls, strconv.Itoa(k.id)+"="+v)
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, " "))
	if s.epoch {
		b.WriteString("E")
	}
	return b.String()
}

func (f Fact) key() string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(f.nilness)*3 + int(f.truth)))
	if f.eq != nil {
		b.WriteString("e" + strconv.Itoa(f.eq.id))
	}
	b.WriteString(f.ne)
	if f.dyn != nil {
		b.WriteString("d" + strconv.Itoa(in.tid(f.dyn)))
	}
	b.WriteString(f.notdyn)
	b.WriteString("t" + f.tag)
	return b.String()
}

// rename substitutes symbols everywhere (recency aging).
func (s *State) rename(m map[*V]*V) {
	memo := map[*V]*V{}
	for i, f := range s.frames {
		need := false
		for _, v := range f.env {
			for o := range m {
				if v.syms[o] {
					need = true
				}
			}
		}
		for _, d := range f.defers {
			for _, v := range append([]*V{d.fn, d.recv}, d.args...) {
				for o := range m {
					if v != nil && v.syms[o] {
						need = true
					}
				}
			}
		}
		if !need {
			continue
		}
		nf := f.clone()
		for k, v := range nf.env {
			nf.env[k] = subst(v, m, memo)
		}
		for j, d := range nf.defers {
			d.fn = subst(d.fn, m, memo)
			d.recv = subst(d.recv, m, memo)
			d.args = append([]*V(nil), d.args...)
			for k := range d.args {
				d.args[k] = subst(d.args[k], m, memo)
			}
			nf.defers[j] = d
		}
		s.frames[i] = nf
	}
	nh := make(map[loc]*V, len(s.heap))
	for k, v := range s.heap {
		nk := loc{subst(k.base, m, memo), k.path}
		nv := subst(v, m, memo)
		if o, ok := nh[nk]; ok && o != nv {
			// two objects merge into one summary: forget
			nv = mkSym("mix@"+strconv.Itoa(nk.base.id)+nk.path, v.t)
		}
		nh[nk] = nv
	}
	s.heap = nh
	nfc := make(map[*V]Fact, len(s.facts))
	for k, f := range s.facts {
		nk := subst(k, m, memo)
		if f.eq != nil {
			f.eq = subst(f.eq, m, memo)
		}
		if o, ok := nfc[nk]; ok {
			f = meetFact(o, f)
		} else if _, ok := s.facts[nk]; ok && nk != k {
			f = meetFact(s.facts[nk], f)
		}
		nfc[nk] = f
	}
	s.facts = nfc
	nfl := make(map[string]*V, len(s.flags))
	for k, v := range s.flags {
		nfl[k] = subst(v, m, memo)
	}
	s.flags = nfl
	nt := make(map[*V]string, len(s.toks))
	for k, v := range s.toks {
		nk := subst(k, m, memo)
		if o, ok := nt[nk]; ok && o != v {
			v = o + "|" + v
		}
		nt[nk] = v
	}
	s.toks = nt
}

func meetFact(a, b Fact) Fact {
	var f Fact
	if a.nilness == b.nilness {
		f.nilness = a.nilness
	}
	if a.truth == b.truth {
		f.truth = a.truth
	}
	if a.eq == b.eq {
		f.eq = a.eq
	}
	if a.ne == b.ne {
		f.ne = a.ne
	}
	if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
		f.dyn = a.dyn
	}
	if a.notdyn == b.notdyn {
		f.notdyn = a.notdyn
	}
	if a.tag == b.tag {
		f.tag = a.tag
	}
	return f
}

// mentions reports whether the symbol is used anywhere in the state.
func (s *State) mentions(x *V) bool {
	for _, f := range s.frames {
		for _, v := range f.env {
			if v.syms[x] {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a.syms[x] {
					return true
				}
			}
			if d.fn != nil && d.fn.syms[x] || d.recv != nil && d.recv.syms[x] {
				return true
			}
		}
	}
	for k, v := range s.heap {
		if k.base.syms[x] || v.syms[x] {
			return true
		}
	}
	for k := range s.facts {
		if k.syms[x] {
			return true
		}
	}
	for _, v := range s.flags {
		if v.syms[x] {
			return true
		}
	}
	for k := range s.toks {
		if k.syms[x] {
			return true
		}
	}
	return false
}

// gc drops heap cells and facts that nothing reaches any more. keepRoot tells
// which symbols are inputs of the analysis (facts on them are kept only while
// they are reachable as well).
func (s *State) gc(keepConds bool) {
	live := map[*V]bool{}  // cells and symbols
	liveV := map[*V]bool{} // composite values seen
	var work []*V
	mark := func(v *V) {
		if v == nil {
			return
		}
		for x := range v.syms {
			if !live[x] {
				live[x] = true
				work = append(work, x)
			}
		}
		liveV[v] = true
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.fn)
			mark(d.recv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range s.flags {
		mark(v)
	}
	for k := range s.toks {
		mark(k)
	}
	for changed := true; changed; {
		changed = false
		work = work[:0]
		for k, v := range s.heap {
			ok := true
			for x := range k.base.syms {
				if !live[x] {
					ok = false
				}
			}
			if ok {
				for x := range v.syms {
					if !live[x] {
						live[x] = true
						changed = true
					}
				}
			}
		}
	}
	for k := range s.heap {
		for x := range k.base.syms {
			if !live[x] {
				delete(s.heap, k)
				break
			}
		}
	}
	reach := map[*V]bool{}
	var close func(v *V)
	close = func(v *V) {
		if v == nil || reach[v] {
			return
		}
		reach[v] = true
		for _, a := range v.args {
			close(a)
		}
		for _, b := range v.bits {
			close(b.src)
		}
	}
	for v := range liveV {
		close(v)
	}
	for k, v := range s.heap {
		close(k.base)
		close(v)
	}
	for k := range s.facts {
		p := k
		for !reach[p] && (p.k == KField || p.k == KAs) {
			p = p.args[0]
		}
		if reach[p] {
			continue
		}
		dead := !keepConds || k.k != KBin && !isGe(k) && !(k.k == KApp && k.name == "len")
		if !dead {
			for x := range k.syms {
				if !live[x] {
					dead = true
					break
				}
			}
		}
		if dead {
			delete(s.facts, k)
		}
	}
}

func (s *State) dump() string {
	var l []string
	for i, f := range s.frames {
		for k, v := range f.env {
			l = append(l, "env"+strconv.Itoa(i)+" "+f.fn.Name()+"."+k.Name()+" = "+v.String())
		}
	}
	for k, v := range s.heap {
		l = append(l, "heap "+k.base.String()+k.path+" = "+v.String())
	}
	for k, v := range s.facts {
		l = append(l, "fact "+k.String()+": "+v.key())
	}
	for k, v := range s.flags {
		l = append(l, "flag "+k+" = "+v.String())
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}
