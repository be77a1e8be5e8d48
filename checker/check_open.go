package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: ownership of file handles on every path of open and create, and the lock
// that makes an open device exclusive.

type openCk struct {
	P     *Program
	r     *Report
	dev   *types.Named // the device that is a file
	where string

	res    map[*types.Named]bool
	opens  map[*ssa.Function]bool // opens files
	inline map[*ssa.Function]bool // closes or locks files, or gives bare files
	sums   map[*ssa.Function]*openSummary
}

var openers = map[string]bool{"os.OpenFile": true, "os.Open": true, "os.Create": true, "os.CreateTemp": true, "io/ioutil.TempFile": true}

// opensFile: functions of the module that open a file, directly or below.
func (P *Program) opensFile() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && openers[fname(g)] {
						m[f] = true
					}
				}
			}
		}
	}
	return P.reaching(m)
}

// reachable: everything that the values lead to in memory.
func reachable(st *State, roots []*V) map[*V]bool {
	seen := map[*V]bool{}
	bases := map[*V][]*V{}
	for l, v := range st.heap {
		bases[l.base] = append(bases[l.base], v)
	}
	var rec func(v *V)
	rec = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		for _, a := range v.args {
			rec(a)
		}
		for _, x := range bases[v] {
			rec(x)
		}
		if v.name != "" {
			rec(st.flags["holds:"+v.name])
		}
	}
	for _, v := range roots {
		rec(v)
	}
	return seen
}

// resource: a type that must be closed because there is an open file below it.
func (c *openCk) resource(t types.Type) *types.Named {
	if p, ok := underPtr(t); ok {
		t = p
	}
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil || structOf(n) == nil {
		return nil
	}
	if v, ok := c.res[n]; ok {
		if v {
			return n
		}
		return nil
	}
	c.res[n] = false
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), c.P.modPath) || c.P.methodOf(n, "Close") == nil {
		return nil
	}
	if len(c.below(n)) > 0 {
		c.res[n] = true
		return n
	}
	return nil
}

// below: the fields of n that must be closed with it.
func (c *openCk) below(n *types.Named) []int {
	s := structOf(n)
	var idx []int
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if t.String() == "*os.File" {
			idx = append(idx, i)
		} else if _, ok := underPtr(t); ok {
			if m := c.resource(t); m != nil && m.Obj() != n.Obj() {
				idx = append(idx, i)
			}
		}
	}
	return idx
}

// inlined: the functions whose bodies are followed at a call.
func (c *openCk) inlined() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					if cc.Method.Name() == "Close" {
						m[f] = true
					}
				} else if g := cc.StaticCallee(); g != nil {
					n := fname(g)
					if strings.HasSuffix(n, ".Flock") || strings.HasPrefix(n, "(*os.File).") && g.Name() == "Close" {
						m[f] = true
					} else if g.Name() == "Close" && g.Signature.Recv() != nil && c.resource(g.Signature.Recv().Type()) != nil {
						m[f] = true
					}
				}
			}
		}
	}
	for _, f := range c.P.funcs {
		// and those that put a device or file together
		if res := f.Signature.Results(); res.Len() > 0 && (c.resource(res.At(0).Type()) != nil || isOSFile(res.At(0).Type())) {
			m[f] = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if _, isP := underPtr(s.Val.Type()); isP && (isOSFile(s.Val.Type()) || c.resource(s.Val.Type()) != nil) {
						if _, isF := s.Addr.(*ssa.FieldAddr); isF {
							m[f] = true
						}
					}
				}
			}
		}
	}
	m = c.P.reaching(m)
	for f := range c.opens {
		res := f.Signature.Results()
		if res.Len() == 0 || !isOSFile(res.At(0).Type()) {
			delete(m, f)
		} else {
			m[f] = true
		}
	}
	return m
}

func isOSFile(t types.Type) bool { return t.String() == "*os.File" }

type openSummary struct{ holds, closes map[int]bool }

// close releases every open file that v leads to.
func closeAll(st *State, v *V) {
	for x := range reachable(st, []*V{v}) {
		if x.name != "" {
			delete(st.flags, "open:"+x.name)
		}
	}
}

// closed notes which object, and the object of which field, was closed.
func closed(st *State, v *V) {
	st.setVal("closed:"+v.String(), v)
	for k, x := range st.flags {
		if strings.HasPrefix(k, "val:") && x == v {
			st.setFlag("closedf:"+k[4:], "1")
		}
	}
}

func (c *openCk) hooks(e *Engine, root *ssa.Function) {
	P, r := c.P, c.r
	e.H.NoInline = func(f *ssa.Function) bool { return !c.inline[f] && f.Parent() == nil }
	use := func(st *State, what string, v *V) {
		for v != nil && (v.k == KIface || v.k == KConv) {
			v = v.args[0]
		}
		if v != nil && v.k == KApp && v.name == "fd" {
			v = v.args[0]
		}
		if v != nil {
			if _, ok := st.flags["open:"+v.name]; ok && isOSFile(v.t) {
				st.setFlag("used:"+v.name, what)
			}
		}
	}
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if outs, ok := lockHandler(e, st, ci, func(rule, msg string) {}, nil, nil); ok {
			return outs, true
		}
		if openers[ci.name] {
			fl := st.clone()
			er := e.newErr(fl, ci.site, ".err")
			f := e.Fresh(st, ci.site, ".file", ci.sig.Results().At(0).Type())
			st.facts[f] = Fact{nilness: 2}
			st.setVal("open:"+f.name, f)
			st.note("opens a file at " + P.pos(ci.site))
			fl.note("cannot open the file at " + P.pos(ci.site))
			return []Outcome{{st, []*V{f, theNil}}, {fl, []*V{theNil, er}}}, true
		}
		if strings.HasPrefix(ci.name, "(*os.File).") {
			f := ci.args[0]
			switch callee(ci) {
			case "Close":
				closeAll(st, f)
				closed(st, f)
				st.note("closes a file at " + P.pos(ci.site))
				fl := st.clone()
				er := e.newErr(fl, ci.site, ".err")
				return []Outcome{{st, []*V{theNil}}, {fl, []*V{er}}}, true
			case "Fd":
				return []Outcome{{st, []*V{mkApp("fd", ci.sig.Results().At(0).Type(), f)}}}, true
			case "Name", "Stat":
			default:
				use(st, callee(ci)+" at "+P.pos(ci.site), f)
			}
		}
		if ci.name == "syscall.Flock" || ci.name == "golang.org/x/sys/unix.Flock" {
			v := ci.args[0]
			for v.k == KConv || v.k == KAs {
				v = v.args[0]
			}
			how, known := ci.args[1].intConst()
			if v.k == KApp && v.name == "fd" {
				k := v.args[0].name
				if !known || how != 6 {
					r.Add("lock-mode", c.where, P.pos(ci.site), fmt.Sprintf("the file is locked with mode %s, not exclusively without waiting", ci.args[1]), nil)
				} else {
					r.Ok("lock-mode", c.where+" "+P.pos(ci.site))
				}
				fl := st.clone()
				er := e.newErr(fl, ci.site, ".err")
				if u := st.flag("used:" + k); u != "" {
					r.Add("lock-before-use", c.where, P.pos(ci.site), "the file is locked only after "+u, st.trailMsgs())
				} else {
					r.Ok("lock-before-use", c.where)
				}
				if !known || how&3 == 2 {
					st.setFlag("locked:"+k, "1")
				}
				fl.note("cannot lock the file at " + P.pos(ci.site))
				return []Outcome{{st, []*V{theNil}}, {fl, []*V{er}}}, true
			}
		}
		// closing what the code was given or built
		if callee(ci) == "Close" && len(ci.args) > 0 && ci.fn != root {
			v := ci.args[0]
			for v.k == KIface {
				v = v.args[0]
			}
			if c.resource(v.t) != nil {
				closeAll(st, v)
				closed(st, v)
				st.note("closes the device at " + P.pos(ci.site))
				if !lastIsError(ci.sig) {
					return []Outcome{{st, nil}}, true
				}
				fl := st.clone()
				er := e.newErr(fl, ci.site, ".err")
				return []Outcome{{st, []*V{theNil}}, {fl, []*V{er}}}, true
			}
		}
		if ci.fn != nil && ci.fn != root && (c.inline[ci.fn] || ci.fn.Parent() != nil) {
			return nil, false
		}
		if strings.HasPrefix(ci.name, "github.com/pkg/errors.") || strings.HasPrefix(ci.name, "errors.") || strings.HasPrefix(ci.name, "fmt.") {
			return nil, false
		}
		// other code: it gives a new device, or fails with nothing left open
		for _, a := range ci.args {
			use(st, ci.name+" at "+P.pos(ci.site), a)
		}
		var sum *openSummary
		if ci.fn != nil && c.opens[ci.fn] {
			sum = c.summary(ci.fn)
		}
		give := func(st *State, ok []*V) {
			if sum == nil {
				return
			}
			for _, v := range ok {
				if c.resource(v.t) == nil {
					continue
				}
				st.facts[v] = Fact{nilness: 2}
				st.setVal("open:"+v.name, v)
				var hs []*V
				for i, a := range ci.args {
					if sum.holds[i] {
						hs = append(hs, a)
					}
				}
				st.flags["holds:"+v.name] = mkTuple(hs...)
			}
		}
		if !lastIsError(ci.sig) {
			if sum == nil {
				return nil, false
			}
			ok := e.freshResults(st, ci)
			give(st, ok)
			return []Outcome{{st, ok}}, true
		}
		fl := st.clone()
		ok, bad := e.freshResults(st, ci), e.freshResults(fl, ci)
		n := len(ok) - 1
		ok[n] = theNil
		bad[n] = e.newErr(fl, ci.site, ".err")
		for i := 0; i < n; i++ {
			if _, isP := ok[i].t.Underlying().(*types.Pointer); isP {
				st.facts[ok[i]] = Fact{nilness: 2}
				bad[i] = theNil
			}
		}
		give(st, ok[:n])
		if sum != nil {
			for i, a := range ci.args {
				if sum.closes[i] {
					closeAll(fl, a)
				}
			}
		}
		fl.note(ci.name + " fails at " + P.pos(ci.site))
		return []Outcome{{st, ok}, {fl, bad}}, true
	}
}

// summary of a function that opens files: the given devices that its result owns,
// and those that it closes when it fails.
func (c *openCk) summary(f *ssa.Function) *openSummary {
	if s, ok := c.sums[f]; ok {
		return s
	}
	s := &openSummary{map[int]bool{}, map[int]bool{}}
	c.sums[f] = s
	where := c.where
	c.function(f, s)
	c.where = where
	return s
}

func (c *openCk) function(f *ssa.Function, sum *openSummary) {
	P, r := c.P, c.r
	c.where = fname(f)
	e := NewEngine(P)
	c.hooks(e, f)
	st := newState()
	var args []*V
	for i, p := range f.Params {
		a := mkSym("arg."+p.Name(), p.Type())
		if _, ok := underPtr(p.Type()); ok {
			st.facts[a] = Fact{nilness: 2}
		}
		if c.resource(p.Type()) != nil || isOSFile(p.Type()) {
			st.setVal("open:"+a.name, a)
			sum.holds[i], sum.closes[i] = true, true
		}
		args = append(args, a)
	}
	st.flags["keep"] = mkTuple(args...)
	r.Funcs[fname(f)] = true
	for _, o := range e.Run(f, st, args, nil) {
		k := len(o.ret)
		failed := k > 0 && isError(f.Signature.Results().At(k-1).Type()) && !e.isNil(o.st, o.ret[k-1])
		roots := args
		if !failed {
			roots = append(append([]*V(nil), args...), o.ret...)
		}
		reach := reachable(o.st, roots)
		own := reachable(o.st, o.ret)
		for i, a := range args {
			if _, open := o.st.flags["open:"+a.name]; open && failed {
				delete(sum.closes, i)
			}
			if !failed && !own[a] {
				delete(sum.holds, i)
			}
		}
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Println("==", c.where, "failed", failed, "ret", o.ret, o.st.trailMsgs())
			for l, v := range o.st.heap {
				fmt.Println("   ", l, v)
			}
			for l, v := range o.st.flags {
				fmt.Println("   F", l, v)
			}
		}
		leaked := false
		for key, v := range o.st.flags {
			if strings.HasPrefix(key, "open:") && !reach[v] {
				leaked = true
			}
		}
		switch {
		case leaked && failed:
			r.Add("failure-closes", c.where, P.pos(f), "a failing path leaves an opened file open", o.st.trailMsgs())
		case leaked:
			r.Add("no-leak", c.where, P.pos(f), "an opened file is neither returned nor closed", o.st.trailMsgs())
		case failed:
			r.Ok("failure-closes", c.where)
		default:
			r.Ok("no-leak", c.where)
		}
		// a device that is handed out owns a locked file
		if failed || k == 0 {
			continue
		}
		if !types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(c.dev)) {
			// a device that is handed out is open
			if n := c.resource(f.Signature.Results().At(0).Type()); n != nil {
				c.handedOut(e, o, f)
			}
			continue
		}
		if _, tok := o.st.flags["open:"+o.ret[0].name]; tok && o.ret[0].name != "" {
			continue // a device that another function opened
		}
		s := structOf(c.dev)
		base, path := splitPtr(o.ret[0])
		for i := 0; i < s.NumFields(); i++ {
			if !isOSFile(s.Field(i).Type()) {
				continue
			}
			v := e.loadLoc(o.st, nil, base, path+"."+s.Field(i).Name(), s.Field(i).Type())
			if _, isOpen := o.st.flags["open:"+v.name]; isOpen && o.st.flag("locked:"+v.name) != "" {
				r.Ok("locked", c.where)
			} else {
				r.Add("locked", c.where, P.pos(f), "a device is returned whose file is not open or was not locked exclusively", o.st.trailMsgs())
			}
		}
	}
	r.absorb(e)
}

// handedOut: nothing that a returned device uses was closed on the way.
func (c *openCk) handedOut(e *Engine, o Outcome, f *ssa.Function) {
	for x := range reachable(o.st, o.ret[:1]) {
		if o.st.flags["closed:"+x.String()] == x {
			c.r.Add("returned-open", c.where, c.P.pos(f), "a device is returned whose file was closed", o.st.trailMsgs())
			return
		}
	}
	c.r.Ok("returned-open", c.where)
}

// closes: closing a device that is not a part of another closes what is below.
func (c *openCk) closes() {
	P, r := c.P, c.r
	var ns []*types.Named
	for n, ok := range c.res {
		if ok {
			ns = append(ns, n)
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].String() < ns[j].String() })
	part := c.partFlags()
	opened := NewStoreClient(P, "C19").openedKey
	for _, n := range ns {
		f := P.methodOf(n, "Close")
		c.where = fname(f)
		e := NewEngine(P)
		c.hooks(e, f)
		st := newState()
		recv := mkSym("device", types.NewPointer(n))
		st.facts[recv] = Fact{nilness: 2}
		st.flags["keep"] = mkTuple(recv)
		need := map[string]bool{}
		for _, i := range c.below(n) {
			need[fieldKeyOf(n, i)] = true
		}
		// the last value read of each field of interest
		e.H.Value = func(e *Engine, st *State, i ssa.Value, v *V) {
			if u, ok := i.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if k := staticFieldKey(fa); need[k] || part[k] || k == opened {
						st.setVal("val:"+k, v)
					}
				}
			}
		}
		r.Funcs[fname(f)] = true
		for _, o := range e.Run(f, st, []*V{recv}, nil) {
			skip := false
			for k, v := range o.st.flags {
				if k == "val:"+opened {
					skip = skip || e.decide(o.st, v) == 2
				} else if strings.HasPrefix(k, "val:") && part[k[4:]] {
					skip = skip || e.decide(o.st, v) == 1
				}
			}
			if skip {
				r.Ok("close-part", c.where)
				continue
			}
			for k := range need {
				v := o.st.flags["val:"+k]
				if o.st.flag("closedf:"+k) != "" || v != nil && e.isNil(o.st, v) {
					r.Ok("close", c.where+" "+k)
				} else {
					r.Add("close", c.where+" "+k, P.pos(f), "can return without closing "+k, o.st.trailMsgs())
				}
			}
		}
		r.absorb(e)
	}
}

// partFlags: bool fields that the code which splits a device sets in the parts.
func (c *openCk) partFlags() map[string]bool {
	m := map[string]bool{}
	splits := map[*ssa.Function]bool{}
	for _, f := range c.P.funcs {
		if f.Name() == "Split" {
			for g := range reachOf(c.P, f) {
				splits[g] = true
			}
		}
	}
	for f := range splits {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && isBool(s.Val.Type()) {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							m[staticFieldKey(fa)] = true
						}
					}
				}
			}
		}
	}
	return m
}

func init() {
	checks["C19"] = func(P *Program, r *Report) {
		r.Explanation = "ownership and typestate analysis over SSA of every file handle on every path of the functions that open files, every call failing in turn"
		r.Assumptions = []string{"flock on one open file description excludes all others", "closing a file releases it even if it reports an error"}
		c := &openCk{P: P, r: r, dev: P.named("nvm.FileNVM")}
		if c.dev == nil {
			r.Add("locked", "nvm.FileNVM", "-", "no file device", nil)
			return
		}
		c.res, c.sums, c.opens = map[*types.Named]bool{}, map[*ssa.Function]*openSummary{}, P.opensFile()
		c.inline = c.inlined()
		var fns []*ssa.Function
		for f := range c.opens {
			if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
		for _, f := range fns {
			c.summary(f)
		}
		c.closes()
		r.Need("failure-closes", 6)
		r.Need("no-leak", 4)
		r.Need("locked", 2)
		r.Need("lock-mode", 1)
		r.Need("close", 3)
	}
}
