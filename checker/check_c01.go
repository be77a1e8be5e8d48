package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C01: a failed device operation is never reported as success.
//
// Modular: every function of the module is analysed on its own. A call of a
// device operation, or of a module function that performs one and has an error
// result, may fail with a device error; on every path after that the function
// must return a non-nil error (or panic), hand the error to somebody else, or
// repeat the operation with success.

type errClient struct {
	P        *Program
	r        *Report
	fallible map[*ssa.Function]bool
	root     *ssa.Function
	e        *Engine
	// damage mode: the failure is that a record or header read is damaged
	damage map[*ssa.Function]bool
}

func (c *errClient) op(name string, fn *ssa.Function) string {
	if c.damage != nil {
		if fn != nil && c.damage[fn] {
			return "read"
		}
		return ""
	}
	return deviceOp(name)
}

// errVal is the error of a failure.
func (c *errClient) errVal(e *Engine, s *State, rs []*V, last int) {
	if c.damage != nil {
		g := c.P.pkg("internalerror").Var("StorageCorrupted")
		if g != nil {
			rs[last] = e.loadLoc(s, nil, in.mk(V{k: KGlobal, g: g, t: g.Type()}), "", g.Type().(*types.Pointer).Elem())
			return
		}
	}
	s.facts[rs[last]] = Fact{nilness: 2, tag: "dev"}
}

func init() {
	checks["C01"] = func(P *Program, r *Report) {
		c := &errClient{P: P, r: r}
		c.findFallible()
		r.Explanation = "abstract interpretation of every function that performs device I/O, with each device call or callee failing in turn"
		r.Assumptions = []string{"an error of the device is none of the error variables of the module and not io.EOF", "failures of Close are not failures of an operation"}
		for _, f := range P.funcs {
			if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/cmd/") {
				continue // C21, C22
			}
			if f.Synthetic != "" {
				continue
			}
			if fname(f) == "util.ReadFull" {
				continue // decided with numbers, see checkReadFull
			}
			t0 := time.Now()
			c.run(f)
			if os.Getenv("CHK_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, fname(f), time.Since(t0))
			}
		}
		r.Need("failure-reported", 60)
	}
}

func deviceOp(name string) (kind string) {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return ""
	}
	m := name[i+1:]
	if strings.HasPrefix(name, "invoke ") {
		switch m {
		case "Read", "ReadAt":
			return "read"
		case "Write", "WriteAt", "Sync", "Seek":
			return strings.ToLower(m)
		}
		return ""
	}
	switch name {
	case "(*os.File).Read", "(*os.File).ReadAt", "io.ReadFull", "io.ReadAtLeast", "encoding/binary.Read", "(*bufio.Reader).Read", "io.Copy", "io.ReadAll", "io/ioutil.ReadAll", "io.CopyN", "(*io.LimitedReader).Read":
		return "read"
	case "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).Sync", "(*os.File).Truncate", "encoding/binary.Write",
		"(*bufio.Writer).Write", "(*bufio.Writer).Flush", "syscall.Fdatasync", "syscall.Fsync", "syscall.Fallocate", "syscall.Flock":
		return "write"
	case "os.OpenFile", "os.Open", "os.Create", "os.ReadDir":
		return "open"
	}
	return ""
}

func staticCallName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + ifaceName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	return ""
}

func lastIsError(sig *types.Signature) bool {
	rs := sig.Results()
	return rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type())
}

func (c *errClient) findFallible() {
	c.fallible = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.funcs {
			if c.fallible[f] || !lastIsError(f.Signature) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := staticCallName(ci.Common())
					g := ci.Common().StaticCallee()
					if lastIsError(ci.Common().Signature()) && (c.op(n, g) != "" || g != nil && c.fallible[g]) {
						c.fallible[f] = true
						changed = true
					}
				}
			}
		}
	}
}

func (c *errClient) run(f *ssa.Function) {
	uses := false
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				n := staticCallName(ci.Common())
				g := ci.Common().StaticCallee()
				if lastIsError(ci.Common().Signature()) && (c.op(n, g) != "" || g != nil && c.fallible[g]) {
					uses = true
				}
				if g != nil && c.P.inModule(g) {
					uses = true
				}
			}
		}
	}
	if !uses {
		return
	}
	e := NewEngine(c.P)
	c.e, c.root = e, f
	e.H = Hooks{
		Call: c.onCall,
		NoInline: func(g *ssa.Function) bool {
			return c.fallible[g] || c.damage[g] || g.Parent() == nil && c.voidFallible(g)
		},
		Sentinel: func(e *Engine, f Fact, g *ssa.Global) bool { return f.tag != "dev" },
		Forget:   func(l loc, t types.Type) bool { return isInt(t) },
		Store: func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
			if l.base.k != KCell && isErrVal(v) && st.flags["failed"] != nil && c.root.Parent() != nil {
				st.setVal("failed", nil) // given to the enclosing function
			}
		},
	}
	st := newState()
	var args []*V
	for i, p := range f.Params {
		v := mkSym("arg."+p.Name(), p.Type())
		args = append(args, v)
		if i == 0 && f.Signature.Recv() != nil {
			st.facts[v] = Fact{nilness: 2}
		}
	}
	var binds []*V
	for _, p := range f.FreeVars {
		v := mkSym("free."+p.Name(), p.Type())
		st.facts[v] = Fact{nilness: 2}
		binds = append(binds, v)
	}
	outs := e.Run(f, st, args, binds)
	for _, o := range outs {
		fl := o.st.flags["failed"]
		if fl == nil {
			continue
		}
		what := fl.args[0].strConst()
		if lastIsError(f.Signature) {
			er := o.ret[len(o.ret)-1]
			if e.nilOf(o.st, er) != 2 {
				c.r.Add("failure-hidden", fname(f)+" after "+what, c.P.posOf(f.Pos()), "the function may return without an error although "+what+" failed", o.st.trailMsgs())
				continue
			}
		} else {
			c.r.Add("failure-dropped", fname(f)+" after "+what, c.P.posOf(f.Pos()), "the function has no error result and goes on to return although "+what+" failed", o.st.trailMsgs())
			continue
		}
		c.r.Ok("failure-reported", fname(f)+" after "+what)
	}
	c.r.absorb(e)
}

func isErrVal(v *V) bool { return v != nil && v.t != nil && isError(v.t) }

// voidFallible: functions whose failures end in a panic are analysed on their own.
func (c *errClient) voidFallible(g *ssa.Function) bool { return false }

func (c *errClient) onCall(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	if !lastIsError(ci.sig) {
		return nil, false
	}
	kind := c.op(ci.name, ci.fn)
	isModule := ci.fn != nil && c.fallible[ci.fn]
	if kind == "" && !isModule {
		if ci.fn != nil && c.P.inModule(ci.fn) {
			// may fail, but not because of the device
			rs := e.freshResults(st, ci)
			return []Outcome{{st, rs}}, true
		}
		return nil, false
	}
	if hashWrite(st, ci) {
		rs := e.freshResults(st, ci)
		rs[len(rs)-1] = theNil
		return []Outcome{{st, rs}}, true
	}
	// a flush for its own sake promises nothing: the data stays in the buffer,
	// and a later sync writes it or fails
	if isModule && ci.fn.Name() == "Flush" && !lastIsError(c.root.Signature) {
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	if strings.HasSuffix(ci.name, ".Close") {
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	// the start of a region can always be reached
	if strings.HasSuffix(ci.name, ".Seek") && len(ci.args) >= 3 {
		o, ok1 := ci.args[len(ci.args)-2].intConst()
		w, ok2 := ci.args[len(ci.args)-1].intConst()
		if ok1 && ok2 && o == 0 && w == 0 {
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
	}
	for _, a := range ci.args {
		e.giveAway(st, ci.site, a)
	}
	what := ci.name + " in " + fname(ci.site.Parent())
	last := ci.sig.Results().Len() - 1
	var outs []Outcome
	// device failure
	s := st.clone()
	rs := e.freshResults(s, ci)
	c.errVal(e, s, rs, last)
	s.setVal("failed", mkTuple(mkStr(what)))
	s.note(c.P.posOf(ci.site.Pos()) + ": " + ci.name + " fails")
	outs = append(outs, Outcome{s, rs})
	// another error (a bad argument, no space, the end of the data)
	if isModule || c.damage != nil {
		s := st.clone()
		rs := e.freshResults(s, ci)
		s.facts[rs[last]] = Fact{nilness: 2}
		outs = append(outs, Outcome{s, rs})
	} else if kind == "read" {
		s := st.clone()
		rs := e.freshResults(s, ci)
		rs[last] = mkSym("io.EOF", ci.sig.Results().At(last).Type())
		s.facts[rs[last]] = Fact{nilness: 2}
		outs = append(outs, Outcome{s, rs})
	}
	rs = e.freshResults(st, ci)
	rs[last] = theNil
	outs = append(outs, Outcome{st, rs})
	return outs, true
}

// hashWrite: the call writes to a hash or a buffer in memory, which cannot fail.
func hashWrite(st *State, ci *CallInfo) bool {
	for _, a := range ci.args {
		if a == nil {
			continue
		}
		t := a.t
		if d := dynOf(st, a); d != nil {
			t = d
		}
		if t == nil {
			continue
		}
		s := types.TypeString(t, nil)
		if strings.HasPrefix(s, "hash.Hash") || s == "*bytes.Buffer" && !strings.Contains(ci.name, "ead") {
			return true
		}
	}
	return false
}
