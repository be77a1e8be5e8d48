package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the command line tool. The table of commands is read from the state in
// which main hands it to the library; then every command's action is executed
// symbolically, each call that reports an error failing in turn.

type cliCmd struct {
	name   string
	action *V
	flags  map[string]string // name -> type
	hidden bool              // some flag could not be read
	src    string
}

type cliCk struct {
	P    *Program
	r    *Report
	cmds []*cliCmd
	cur  *cliCmd
	main *ssa.Function
}

const cliPkg = "github.com/urfave/cli"

// closable: a pointer result that has to be closed.
func closable(t types.Type) bool {
	if isError(t) {
		return false
	}
	ms := types.NewMethodSet(t)
	s := ms.Lookup(nil, "Close")
	if s == nil {
		return false
	}
	sig, ok := s.Type().(*types.Signature)
	return ok && sig.Params().Len() == 0
}

func (c *cliCk) add(st *State, rule, what string, site ssa.Instruction, msg string) {
	pos := "-"
	if site != nil {
		pos = c.P.pos(site)
	}
	n := "main"
	if c.cur != nil {
		n = c.cur.name
	}
	c.r.Add(rule, "command "+n+": "+what, pos, msg, st.trailMsgs())
}

func lastErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isError(sig.Results().At(n-1).Type())
}

// exits: calls that end the process.
func exits(ci *CallInfo) (code *V, ok bool) {
	switch ci.name {
	case "os.Exit":
		return ci.args[0], true
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		return mkInt(1, types.Typ[types.Int]), true
	}
	return nil, false
}

func (c *cliCk) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	if code, ok := exits(ci); ok {
		if l := tupleOf(st.flags["open"]); len(l) > 0 {
			c.add(st, "closed", l[0].args[1].strConst(), ci.site, "the process ends with "+ci.name+" while the command holds what it opened: deferred closes do not run")
		}
		if st.flag("failed") != "" {
			c.exitCode(e, st, code, ci)
		}
		return nil, true
	}
	if ci.name == "(*"+cliPkg+".App).Run" || ci.name == "(*"+cliPkg+".App).RunAndExitOnError" {
		if c.cur == nil {
			c.table(e, st, ci.args[0])
		}
	}
	if strings.HasPrefix(ci.name, "(*"+cliPkg+".Context).") && c.cur != nil {
		c.option(e, st, ci)
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	if strings.HasPrefix(ci.name, "(*sync.") {
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	if ci.fn != nil && e.inlinable(ci.fn) || strings.HasPrefix(ci.name, "fmt.") {
		return nil, false
	}
	if strings.HasPrefix(ci.name, "github.com/pkg/errors.") || strings.HasPrefix(ci.name, "errors.") {
		return nil, false
	}
	isMethod := ci.method != nil || ci.sig.Recv() != nil
	if isMethod && len(ci.args) > 0 {
		x := ci.args[0]
		if x.k == KIface {
			x = x.args[0]
		}
		if callee(ci) == "Close" {
			c.drop(st, x)
			addFlag(st, "shut", x)
			return []Outcome{{st, e.freshResults(st, ci)}}, true
		}
		if e.isNil(st, x) && closable(ci.args[0].t) {
			c.add(st, "opened-before-use", callee(ci), ci.site, "the command goes on with what it failed to open")
			return nil, true
		}
		if has(tupleOf(st.flags["shut"]), x) {
			c.add(st, "used-after-close", callee(ci), ci.site, "the command uses what it closed before")
		}
	}
	if !lastErr(ci.sig) {
		return c.opaque(e, st, ci), true
	}
	// it fails, or it does not
	var outs []Outcome
	for _, ok := range []bool{true, false} {
		s := st.clone()
		var ret []*V
		for i, v := range e.freshResults(s, ci) {
			f := s.facts[v]
			t := ci.sig.Results().At(i).Type()
			switch {
			case isError(t) && i == ci.sig.Results().Len()-1:
				if ok {
					v = theNil
				} else {
					f.nilness = 2
					s.facts[v] = f
				}
			case closable(t):
				if ok {
					f.nilness = 2
				} else {
					f.nilness = 1
				}
				s.facts[v] = f
				if ok {
					// what was given to the new owner is closed by it
					for _, a := range ci.args {
						if a.k == KIface {
							a = a.args[0]
						}
						c.drop(s, a)
					}
					addFlag(s, "open", mkTuple(v, mkStr(callee(ci)+" "+shorten(t.String()))))
				}
			}
			ret = append(ret, v)
		}
		if !ok && !strings.HasPrefix(ci.name, "invoke hash.") {
			s.setFlag("failed", callee(ci))
			s.note(callee(ci) + " fails at " + c.P.pos(ci.site))
		}
		outs = append(outs, Outcome{s, ret})
	}
	return outs, true
}

// opaque calls of the module leave what the command keeps alone.
func (c *cliCk) opaque(e *Engine, st *State, ci *CallInfo) []Outcome {
	type kept struct {
		l loc
		v *V
	}
	var keep []kept
	if ci.fn != nil && c.P.inModule(ci.fn) {
		for l, v := range st.heap {
			if v.k == KPtr || v.k == KFunc {
				keep = append(keep, kept{l, v})
			}
		}
	}
	outs := e.opaque(st, ci)
	for _, k := range keep {
		st.heap[k.l] = k.v
	}
	return outs
}

func (c *cliCk) drop(st *State, v *V) {
	var l []*V
	for _, x := range tupleOf(st.flags["open"]) {
		if x.args[0] != v {
			l = append(l, x)
		}
	}
	if l == nil {
		delete(st.flags, "open")
	} else {
		st.flags["open"] = mkTuple(l...)
	}
}

func (c *cliCk) exitCode(e *Engine, st *State, code *V, ci *CallInfo) {
	if n, ok := code.intConst(); ok && n%256 != 0 {
		c.r.Ok("exit-code", ci.name)
		return
	}
	c.add(st, "exit-code", st.flag("failed"), ci.site, "the process reports success although "+st.flag("failed")+" failed")
}

// option: a command reads an option.
func (c *cliCk) option(e *Engine, st *State, ci *CallInfo) {
	kind := callee(ci)
	if len(ci.args) != 2 || ci.sig.Params().Len() != 1 || ci.sig.Results().Len() != 1 {
		return
	}
	if p, ok := ci.sig.Params().At(0).Type().Underlying().(*types.Basic); !ok || p.Kind() != types.String {
		return
	}
	global := strings.HasPrefix(kind, "Global")
	if kind == "IsSet" || global || kind == "Set" {
		return
	}
	name := ci.args[1].strConst()
	if ci.args[1].k != KConst {
		return
	}
	if c.cur.hidden {
		return
	}
	got, ok := c.cur.flags[name]
	switch {
	case !ok:
		c.add(st, "declared", name, ci.site, fmt.Sprintf("the command reads option %q, which it does not declare: it always gets the zero value", name))
	case got != kind:
		c.add(st, "declared", name, ci.site, fmt.Sprintf("the command reads option %q as %s, but it is declared as %s: it gets the zero value or a wrong default", name, kind, got))
	default:
		c.r.Ok("declared", c.cur.name+" "+name)
	}
}

// table reads the commands from the application handed to the library.
func (c *cliCk) table(e *Engine, st *State, app *V) {
	b, p := splitPtr(app)
	for _, s := range c.elems(e, st, st.heap[loc{b, p + ".Commands"}]) {
		cmd := c.command(e, st, s)
		if cmd != nil {
			c.cmds = append(c.cmds, cmd)
		}
	}
}

// elems: the addresses of the elements of a slice value.
func (c *cliCk) elems(e *Engine, st *State, s *V) []*V {
	if s == nil || s.k != KSlice {
		return nil
	}
	base, lo, ln := e.sliceParts(st, s)
	l, ok1 := lo.intConst()
	n, ok2 := ln.intConst()
	if !ok1 || !ok2 {
		return nil
	}
	var out []*V
	for i := l; i < l+n; i++ {
		out = append(out, mkPtr(base, fmt.Sprintf("[%d]", i)))
	}
	return out
}

func (c *cliCk) command(e *Engine, st *State, at *V) *cliCmd {
	b, p := splitPtr(at)
	get := func(n string) *V { return st.heap[loc{b, p + n}] }
	if v := get(""); v != nil && v.k == KStruct {
		get = func(n string) *V { return fieldByName(v, v.t, n[1:]) }
	} else if v != nil && v.k == KPtr {
		b, p = splitPtr(v)
	}
	cmd := &cliCmd{flags: map[string]string{}}
	if v := get(".Name"); v != nil {
		cmd.name = v.strConst()
	}
	cmd.action = get(".Action")
	if cmd.action != nil && cmd.action.k == KIface {
		cmd.action = cmd.action.args[0]
	}
	fl := get(".Flags")
	if fl != nil && fl.k != KSlice && fl.k != KNil {
		cmd.hidden = true
	}
	for _, a := range c.elems(e, st, fl) {
		fb, fp := splitPtr(a)
		v := st.heap[loc{fb, fp}]
		if v == nil || v.k != KIface {
			cmd.hidden = true
			continue
		}
		t := v.t
		x := v.args[0]
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			xb, xp := splitPtr(x)
			x = e.loadLoc(st, nil, xb, xp, t)
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || !strings.HasSuffix(n.Obj().Name(), "Flag") {
			cmd.hidden = true
			continue
		}
		nv := fieldByName(x, t, "Name")
		if nv == nil || nv.k != KConst {
			cmd.hidden = true
			continue
		}
		for _, s := range strings.Split(nv.strConst(), ",") {
			cmd.flags[strings.TrimSpace(s)] = strings.TrimSuffix(n.Obj().Name(), "Flag")
		}
	}
	return cmd
}

func (c *cliCk) engine() *Engine {
	e := NewEngine(c.P)
	e.H.Call = c.call
	home := c.main.Pkg
	e.H.NoInline = func(f *ssa.Function) bool {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		return c.P.inModule(f) && g.Pkg != home
	}
	e.H.Panic = func(e *Engine, st *State, site ssa.Instruction) {
		if l := tupleOf(st.flags["open"]); len(l) > 0 {
			// deferred closes run
			return
		}
	}
	return e
}

func (c *cliCk) run() {
	e := c.engine()
	c.r.Funcs[fname(c.main)] = true
	for _, o := range e.Run(c.main, newState(), nil, nil) {
		if w := o.st.flag("failed"); w != "" {
			c.add(o.st, "exit-code", w, nil, "main returns, and the process reports success, although "+w+" failed")
		} else {
			c.r.Ok("exit-code", "main returns")
		}
	}
	c.r.absorb(e)
	if len(c.cmds) == 0 {
		c.r.Add("commands", "-", "-", "the table of commands was not found", nil)
	}
	for _, cmd := range c.cmds {
		c.cur = cmd
		c.action(cmd)
	}
	c.cur = nil
}

func (c *cliCk) action(cmd *cliCmd) {
	if cmd.action == nil || cmd.action.k != KFunc || cmd.action.fn.Blocks == nil {
		c.r.Add("commands", "command "+cmd.name, "-", "the command has no action that can be found", nil)
		return
	}
	f := cmd.action.fn
	c.r.Funcs[fname(f)] = true
	e := c.engine()
	st := newState()
	var args []*V
	for _, p := range f.Params {
		v := mkSym(p.Name(), p.Type())
		st.facts[v] = Fact{nilness: 2}
		args = append(args, v)
	}
	st.flags["keep"] = mkTuple(args...)
	if f.Signature.Results().Len() == 0 {
		c.r.Add("reported", "command "+cmd.name, c.P.pos(f), "the command's action has no result: it cannot report a failure", nil)
		return
	}
	for _, o := range e.Run(f, st, args, cmd.action.args) {
		for _, x := range tupleOf(o.st.flags["open"]) {
			c.r.Add("closed", "command "+cmd.name+": "+x.args[1].strConst(), c.P.pos(f), "the command can end without closing what it opened", o.st.trailMsgs())
		}
		c.r.Ok("closed", cmd.name)
		if w := o.st.flag("failed"); w != "" {
			if !e.notNilV(o.st, o.ret[len(o.ret)-1]) {
				c.r.Add("reported", "command "+cmd.name+": "+w, c.P.pos(f), "the command can report success although "+w+" failed", o.st.trailMsgs())
			} else {
				c.r.Ok("reported", cmd.name+": "+w)
			}
		}
	}
	c.r.absorb(e)
}

func init() {
	checks["C22"] = func(P *Program, r *Report) {
		r.Explanation = "symbolic execution over SSA of main (table of commands with their options) and of every command's action, each call that reports an error failing in turn: typestate of what was opened, error returned, options declared"
		r.Assumptions = []string{"the cli library returns the error of an action from App.Run", "an object that takes over another one closes it (C19)", "errors of closing and of printing are not failures of a command"}
		var mains []*ssa.Function
		for _, f := range P.funcs {
			if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil && f.Signature.Recv() == nil {
				mains = append(mains, f)
			}
		}
		sort.Slice(mains, func(i, j int) bool { return mains[i].Pkg.Pkg.Path() < mains[j].Pkg.Pkg.Path() })
		n := 0
		for _, m := range mains {
			if !usesCommands(P, m) {
				continue
			}
			n++
			c := &cliCk{P: P, r: r, main: m}
			c.run()
		}
		if n == 0 {
			r.Add("commands", "-", "-", "no tool with a table of commands was found", nil)
		}
		r.Need("declared", 20)
		r.Need("closed", 10)
		r.Need("reported", 10)
		r.Need("exit-code", 2)
	}
}

// usesCommands: the program makes cli.Command values.
func usesCommands(P *Program, m *ssa.Function) bool {
	for _, f := range P.funcs {
		if f.Pkg != m.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok && staticFieldKey(fa) != "" && strings.HasSuffix(staticFieldKey(fa), "cli.Command.Action") {
					return true
				}
			}
		}
	}
	return false
}
