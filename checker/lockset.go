package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Lockset analysis (C02, C03): interprocedural and flow-sensitive, in the
// context of (function, locks held at entry, origin of the arguments), with a
// set of locksets per program point. It records which shared memory is accessed
// under which locks, in which order locks are taken, and what is waited for.

type access struct {
	class string // field or memory
	kind  byte   // R, W, A (atomic change), L (atomic load)
	locks string
	fn    string
	pos   string
}

type lockEdge struct {
	from, to string // classes
	fn, pos  string
	same     bool // self: the class is held already
	modes    string
}

type waitEvent struct {
	what  string // "wg <class>", "chan"
	locks string
	fn    string
	pos   string
	obj   string // origin of the waited object
}

type lsResult struct {
	exits map[string]bool
	acc   map[access]bool
	edges map[lockEdge]bool
	waits map[waitEvent]bool
	prob  map[[3]string]bool // rule, where, msg
	acq   map[string]bool
	done  bool
	dirty bool
	gos   map[*closureVal]bool
}

type closureVal struct {
	fn    *ssa.Function
	binds []string
	id    int
}

type lsKey struct {
	fn   *ssa.Function
	held string
	args string
}

type Lockset struct {
	P        *Program
	memo     map[lsKey]*lsResult
	cg       map[ssa.CallInstruction][]*ssa.Function
	closures map[string]*closureVal
	byID     []*closureVal
	changed  bool
	depth    int
	contexts int
	funcs    map[*ssa.Function]bool
	gosAll   map[string]goBody
	retOrig  map[*ssa.Function]string
	iterDone map[lsKey]bool
}

type goBody struct {
	cl   *closureVal
	obj  string
	fn   string
	pos  string
	args []string // what it is started with
}

func NewLockset(P *Program) *Lockset {
	ls := &Lockset{P: P, memo: map[lsKey]*lsResult{}, closures: map[string]*closureVal{}, funcs: map[*ssa.Function]bool{}, gosAll: map[string]goBody{}, retOrig: map[*ssa.Function]string{}}
	ls.cg = P.callTargets()
	return ls
}

var vtaDone = map[*Program]map[ssa.CallInstruction][]*ssa.Function{}

// callTargets: the callees of dynamic calls, by variable type analysis.
func (P *Program) callTargets() map[ssa.CallInstruction][]*ssa.Function {
	if m, ok := vtaDone[P]; ok {
		return m
	}
	m := map[ssa.CallInstruction][]*ssa.Function{}
	funcs := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(P.prog) {
		if P.inModule(f) || f.Synthetic != "" && f.Pkg == nil {
			funcs[f] = true
		}
	}
	g := vta.CallGraph(funcs, cha.CallGraph(P.prog))
	for i := 0; i < 6; i++ {
		g = vta.CallGraph(funcs, g)
	}
	for f, n := range g.Nodes {
		if f == nil || !P.inModule(f) {
			continue
		}
		for _, e := range n.Out {
			if e.Site == nil {
				continue
			}
			m[e.Site] = append(m[e.Site], e.Callee.Func)
		}
	}
	for s := range m {
		l := m[s]
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	}
	vtaDone[P] = m
	return m
}

var _ = callgraph.Edge{}

func heldMap(h string) map[string]string {
	m := map[string]string{}
	if h == "" {
		return m
	}
	for _, x := range strings.Split(h, ";") {
		i := strings.LastIndex(x, ":")
		m[x[:i]] = x[i+1:]
	}
	return m
}

func heldStr(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+":"+v)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// ---- origins

func (ls *Lockset) closure(fn *ssa.Function, binds []string) string {
	k := fmt.Sprintf("%p|%s", fn, strings.Join(binds, ","))
	c, ok := ls.closures[k]
	if !ok {
		c = &closureVal{fn: fn, binds: binds, id: len(ls.byID)}
		ls.closures[k] = c
		ls.byID = append(ls.byID, c)
	}
	return fmt.Sprintf("func#%d", c.id)
}

func (ls *Lockset) funcOf(o string) *closureVal {
	if !strings.HasPrefix(o, "func#") {
		return nil
	}
	var n int
	fmt.Sscanf(o[5:], "%d", &n)
	return ls.byID[n]
}

type lsFrame struct {
	fn   *ssa.Function
	args []string
	free []string
	memo map[ssa.Value]string
	busy map[ssa.Value]bool
}

func isPtrToStruct(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

// baseOrigin drops the concrete type of an interface.
func baseOrigin(o string) string {
	if i := strings.Index(o, "!"); i >= 0 {
		return o[:i]
	}
	return o
}

func joinOrigin(a, b string) string {
	if a == b || a == "" || a == "nil" {
		return b
	}
	if b == "" || b == "nil" {
		return a
	}
	a, b = baseOrigin(a), baseOrigin(b)
	switch {
	case a == "" || a == "nil":
		return b
	case b == "" || b == "nil" || a == b:
		return a
	case a == "local":
		return b
	case b == "local":
		return a
	case a == "arg":
		return b
	case b == "arg":
		return a
	}
	if a > b {
		a, b = b, a
	}
	return a // one of them: classes are compared by field anyway
}

func (ls *Lockset) origin(f *lsFrame, v ssa.Value) string {
	if o, ok := f.memo[v]; ok {
		return o
	}
	if f.busy[v] {
		return ""
	}
	f.busy[v] = true
	o := ls.origin1(f, v)
	delete(f.busy, v)
	f.memo[v] = o
	return o
}

func (ls *Lockset) origin1(f *lsFrame, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return "nil"
	case *ssa.Function:
		return ls.closure(x, nil)
	case *ssa.MakeClosure:
		var bs []string
		for _, b := range x.Bindings {
			o := ls.origin(f, b)
			if a, ok := b.(*ssa.Alloc); ok {
				// a captured variable stands for its content
				if c := ls.storedIn(f, a, a); c != "" {
					o = strings.TrimPrefix(c, "=")
				}
			}
			bs = append(bs, o)
		}
		return ls.closure(x.Fn.(*ssa.Function), bs)
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == x && i < len(f.args) {
				return f.args[i]
			}
		}
		return "arg"
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == x && i < len(f.free) {
				return f.free[i]
			}
		}
		return "arg"
	case *ssa.Global:
		return "global " + shorten(x.String())
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return "local"
	case *ssa.FieldAddr:
		return ls.origin(f, x.X)
	case *ssa.IndexAddr:
		return ls.origin(f, x.X)
	case *ssa.Field:
		return ls.loaded(f, ls.origin(f, x.X), fieldKeyOf(x.X.Type(), x.Field), x.Type())
	case *ssa.Index:
		return ls.origin(f, x.X)
	case *ssa.Slice:
		return ls.origin(f, x.X)
	case *ssa.Convert:
		return ls.origin(f, x.X)
	case *ssa.ChangeType:
		return ls.origin(f, x.X)
	case *ssa.ChangeInterface:
		return ls.origin(f, x.X)
	case *ssa.MakeInterface:
		o := baseOrigin(ls.origin(f, x.X))
		if ls.funcOf(o) != nil {
			return o
		}
		return o + "!" + types.TypeString(x.X.Type(), nil)
	case *ssa.TypeAssert:
		return baseOrigin(ls.origin(f, x.X))
	case *ssa.Extract:
		return ls.origin(f, x.Tuple)
	case *ssa.Phi:
		o := ""
		for _, e := range x.Edges {
			o = joinOrigin(o, ls.origin(f, e))
		}
		return o
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "local"
		}
		return ls.loadOrigin(f, x.X, x.Type())
	case *ssa.Call:
		return ls.callOrigin(f, x)
	case *ssa.Lookup, *ssa.Next, *ssa.Range:
		return "local"
	case *ssa.BinOp:
		return "local"
	}
	return "local"
}

func fieldKeyOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + s.Field(i).Name()
	}
	return "struct." + s.Field(i).Name()
}

// hasWaitGroup: t points to an object that counts goroutines.
func hasWaitGroup(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := structOf(p.Elem())
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "sync.WaitGroup" {
			return true
		}
	}
	return false
}

// loaded: the origin of what a field holds.
func (ls *Lockset) loaded(f *lsFrame, base, key string, t types.Type) string {
	base = baseOrigin(base)
	if base == "arg" {
		if hasWaitGroup(t) {
			return key // which goroutines are waited for
		}
		return "arg"
	}
	if base == "local" && types.TypeString(t, nil) == "*"+ls.P.modPath+"/block.AlignedBytes" {
		return "local"
	}
	if base == "local" && !isPtrToStruct(t) {
		if _, ok := t.Underlying().(*types.Interface); !ok {
			return "local"
		}
	}
	if strings.HasPrefix(key, "block.AlignedBytes.") && base != "local" {
		return base
	}
	return key
}

// loadOrigin: the origin of *addr.
func (ls *Lockset) loadOrigin(f *lsFrame, addr ssa.Value, t types.Type) string {
	// a local variable: what was stored into it
	root, _ := addrRoot(addr)
	if a, ok := root.(*ssa.Alloc); ok {
		o := ls.storedIn(f, a, addr)
		if o != "" {
			if fa, ok := addr.(*ssa.FieldAddr); ok && o != "arg" {
				if !strings.HasPrefix(o, "=") {
					return ls.loaded(f, o, staticFieldKey(fa), t)
				}
			}
			o = strings.TrimPrefix(o, "=")
			if fa, ok := addr.(*ssa.FieldAddr); ok && o == "local" && isPtrToStruct(t) {
				return ls.loaded(f, o, staticFieldKey(fa), t)
			}
			return o
		}
		return "local"
	}
	if fv, ok := root.(*ssa.FreeVar); ok && root == addr {
		// a captured variable: the origin of its content was given by the binding
		return ls.origin(f, fv)
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return ls.loaded(f, ls.origin(f, x.X), staticFieldKey(x), t)
	case *ssa.Global:
		return "global " + shorten(x.String())
	}
	return ls.origin(f, addr)
}

func addrRoot(addr ssa.Value) (ssa.Value, int) {
	n := 0
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			n++
			continue
		case *ssa.IndexAddr:
			addr = x.X
			n++
			continue
		}
		return addr, n
	}
}

// storedIn joins the origins of what is stored in a local variable. "=" marks
// a value stored in exactly the address.
func (ls *Lockset) storedIn(f *lsFrame, a *ssa.Alloc, addr ssa.Value) string {
	o, exact := "", ""
	fa, _ := addr.(*ssa.FieldAddr)
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					continue
				}
				if v == ssa.Value(a) {
					so := ls.origin(f, x.Val)
					if addr == ssa.Value(a) {
						exact = joinOrigin(exact, so)
					} else {
						o = joinOrigin(o, so)
					}
				} else if g, ok := v.(*ssa.FieldAddr); ok && fa != nil && g.Field == fa.Field && types.Identical(g.X.Type(), fa.X.Type()) {
					exact = joinOrigin(exact, ls.origin(f, x.Val))
				}
			case *ssa.FieldAddr:
				if d < 3 && x.X == v {
					walk(x, d+1)
				}
			case *ssa.MakeClosure:
				// assigned inside the closure
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && d == 0 && addr == ssa.Value(a) {
						for _, fr := range *fn.FreeVars[i].Referrers() {
							if s, ok := fr.(*ssa.Store); ok && s.Addr == ssa.Value(fn.FreeVars[i]) {
								if _, ok := s.Val.(*ssa.Const); !ok {
									cf := &lsFrame{fn: fn, memo: map[ssa.Value]string{}, busy: map[ssa.Value]bool{}}
									for range fn.Params {
										cf.args = append(cf.args, "local")
									}
									exact = joinOrigin(exact, ls.origin(cf, s.Val))
								}
							}
						}
					}
				}
			}
		}
	}
	walk(a, 0)
	if exact != "" {
		return "=" + exact
	}
	return o
}

func (ls *Lockset) callOrigin(f *lsFrame, x *ssa.Call) string {
	g := x.Call.StaticCallee()
	if g == nil || !ls.P.inModule(g) || g.Blocks == nil {
		if x.Call.IsInvoke() {
			if ts := ls.cg[x]; len(ts) == 1 && ls.P.inModule(ts[0]) && ts[0].Blocks != nil {
				return ls.retOrigin(f, ts[0], append([]ssa.Value{x.Call.Value}, x.Call.Args...))
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return ls.origin(f, x.Call.Args[0])
		}
		return "local"
	}
	return ls.retOrigin(f, g, x.Call.Args)
}

func (ls *Lockset) retOrigin(f *lsFrame, g *ssa.Function, args []ssa.Value) string {
	if ls.depth > 6 {
		return "local"
	}
	ls.depth++
	defer func() { ls.depth-- }()
	cf := &lsFrame{fn: g, memo: map[ssa.Value]string{}, busy: map[ssa.Value]bool{}}
	for _, a := range args {
		cf.args = append(cf.args, ls.origin(f, a))
	}
	o := ""
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				t := v.Type().Underlying()
				switch t.(type) {
				case *types.Pointer, *types.Slice, *types.Struct, *types.Interface, *types.Signature, *types.Map, *types.Chan:
					if !isError(v.Type()) {
						o = joinOrigin(o, ls.origin(cf, v))
					}
				}
			}
		}
	}
	if o == "" {
		o = "local"
	}
	return o
}

// ---- analysis

type lsState struct {
	held   string
	defers string // ids of deferred calls, in order
}

// Analyze returns the summary of fn entered with held locks.
func (ls *Lockset) Analyze(fn *ssa.Function, held string, args, free []string) *lsResult {
	k := lsKey{fn, held, strings.Join(args, ",") + "|" + strings.Join(free, ",")}
	if r, ok := ls.memo[k]; ok {
		return r
	}
	r := &lsResult{exits: map[string]bool{}, acc: map[access]bool{}, edges: map[lockEdge]bool{}, waits: map[waitEvent]bool{}, prob: map[[3]string]bool{}, acq: map[string]bool{}}
	ls.memo[k] = r
	ls.contexts++
	ls.funcs[fn] = true
	for {
		n := r.size()
		ls.body(fn, held, args, free, r)
		if r.size() == n || !r.dirty {
			break
		}
		r.dirty = false
	}
	r.done = true
	return r
}

func (r *lsResult) size() int {
	return len(r.exits) + len(r.acc) + len(r.edges) + len(r.waits) + len(r.prob) + len(r.acq)
}

func (r *lsResult) merge(o *lsResult) {
	for k := range o.acc {
		r.acc[k] = true
	}
	for k := range o.edges {
		r.edges[k] = true
	}
	for k := range o.waits {
		r.waits[k] = true
	}
	for k := range o.prob {
		r.prob[k] = true
	}
	for k := range o.acq {
		r.acq[k] = true
	}
}

func (ls *Lockset) body(fn *ssa.Function, held string, args, free []string, r *lsResult) {
	f := &lsFrame{fn: fn, args: args, free: free, memo: map[ssa.Value]string{}, busy: map[ssa.Value]bool{}}
	in := make([]map[lsState]bool, len(fn.Blocks))
	for i := range in {
		in[i] = map[lsState]bool{}
	}
	var dl []ssa.CallInstruction // deferred calls by id
	did := map[ssa.CallInstruction]int{}
	in[0][lsState{held: held}] = true
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := map[lsState]bool{}
		for s := range in[b.Index] {
			cur[s] = true
		}
		for _, ins := range b.Instrs {
			next := map[lsState]bool{}
			for s := range cur {
				switch x := ins.(type) {
				case *ssa.Defer:
					if _, ok := did[x]; !ok {
						did[x] = len(dl)
						dl = append(dl, x)
					}
					tag := fmt.Sprintf("%d,", did[x])
					if !strings.Contains(","+s.defers, ","+tag) {
						s.defers = tag + s.defers
					}
					next[s] = true
				case *ssa.RunDefers:
					hs := map[string]bool{s.held: true}
					for _, t := range strings.Split(strings.TrimSuffix(s.defers, ","), ",") {
						if t == "" {
							continue
						}
						var n int
						fmt.Sscanf(t, "%d", &n)
						nh := map[string]bool{}
						for h := range hs {
							for h2 := range ls.callEffect(f, h, dl[n], r) {
								nh[h2] = true
							}
						}
						hs = nh
					}
					for h := range hs {
						next[lsState{h, ""}] = true
					}
				case *ssa.Call:
					for h := range ls.callEffect(f, s.held, x, r) {
						next[lsState{h, s.defers}] = true
					}
				case *ssa.Go:
					ls.goCall(f, s.held, x, r)
					next[s] = true
				case *ssa.Return:
					r.exits[s.held] = true
				case *ssa.Store:
					ls.access(f, s.held, x.Addr, 'W', x, r)
					next[s] = true
				case *ssa.UnOp:
					if x.Op == token.MUL {
						ls.access(f, s.held, x.X, 'R', x, r)
					} else if x.Op == token.ARROW {
						r.waits[waitEvent{"chan", s.held, fname(fn), ls.P.posOf(x.Pos()), ls.origin(f, x.X)}] = true
					}
					next[s] = true
				case *ssa.Send:
					r.waits[waitEvent{"chan", s.held, fname(fn), ls.P.posOf(x.Pos()), ls.origin(f, x.Chan)}] = true
					next[s] = true
				case *ssa.Select:
					if x.Blocking {
						r.waits[waitEvent{"chan", s.held, fname(fn), ls.P.posOf(x.Pos()), "select"}] = true
					}
					next[s] = true
				default:
					next[s] = true
				}
			}
			cur = next
		}
		for _, sb := range b.Succs {
			grew := false
			for s := range cur {
				if !in[sb.Index][s] {
					in[sb.Index][s] = true
					grew = true
				}
			}
			if grew {
				work = append(work, sb)
			}
		}
	}
}

func (ls *Lockset) goCall(f *lsFrame, held string, x *ssa.Go, r *lsResult) {
	var c *closureVal
	if o := ls.origin(f, x.Call.Value); ls.funcOf(o) != nil {
		c = ls.funcOf(o)
	} else if g := x.Call.StaticCallee(); g != nil {
		c = &closureVal{fn: g}
	}
	if c == nil || !ls.P.inModule(c.fn) {
		return
	}
	obj := ""
	if len(f.args) > 0 {
		obj = f.args[0]
	}
	var args []string
	for _, a := range x.Call.Args {
		args = append(args, ls.origin(f, a))
	}
	k := fname(c.fn) + "|" + strings.Join(c.binds, ",") + "|" + strings.Join(args, ",") + "|" + obj
	ls.gosAll[k] = goBody{c, obj, fname(f.fn), ls.P.posOf(x.Pos()), args}
}

// lockClassOf: the lock behind a mutex address.
func (ls *Lockset) lockClassOf(f *lsFrame, addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k := staticFieldKey(x)
		if k == "" {
			k = "?"
		}
		return k
	case *ssa.Global:
		return "global " + shorten(x.String())
	case *ssa.Alloc:
		return "local " + fname(f.fn) + "." + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return "*" + staticFieldKey(fa)
			}
		}
	}
	return ls.origin(f, addr)
}

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "Lock", "(*sync.RWMutex).Lock": "Lock",
	"(*sync.Mutex).Unlock": "Unlock", "(*sync.RWMutex).Unlock": "Unlock",
	"(*sync.RWMutex).RLock": "RLock", "(*sync.RWMutex).RUnlock": "RUnlock",
	"(*sync.Mutex).TryLock": "Try", "(*sync.RWMutex).TryLock": "Try", "(*sync.RWMutex).TryRLock": "Try",
}

func (ls *Lockset) callEffect(f *lsFrame, held string, ci ssa.CallInstruction, r *lsResult) map[string]bool {
	one := map[string]bool{held: true}
	cc := ci.Common()
	pos := ls.P.posOf(ci.Pos())
	where := fname(f.fn)
	if !cc.IsInvoke() {
		if g := cc.StaticCallee(); g != nil {
			if op, ok := lockOps[fname(g)]; ok {
				return ls.lockEffect(f, held, ls.lockClassOf(f, cc.Args[0]), op, where, pos, r)
			}
			switch fname(g) {
			case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
				obj := ""
				if len(f.args) > 0 {
					obj = f.args[0]
				}
				r.waits[waitEvent{"wg", held, where, pos, obj}] = true
				return one
			}
			if strings.HasPrefix(fname(g), "sync/atomic.") || strings.HasPrefix(fname(g), "(*sync/atomic.") {
				kind := byte('A')
				if strings.HasPrefix(g.Name(), "Load") {
					kind = 'L'
				}
				ls.access(f, held, cc.Args[0], kind, ci, r)
				return one
			}
			if g.Pkg != nil && !ls.P.inModule(g) {
				ls.external(f, held, g.Name(), g.Signature.Recv() != nil, cc.Args, ci, r)
				return ls.callbacks(f, held, cc.Args, r)
			}
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				ls.memAccess(f, held, cc.Args[0], 'W', ci, r)
				ls.memAccess(f, held, cc.Args[1], 'R', ci, r)
			case "delete":
				ls.memAccess(f, held, cc.Args[0], 'W', ci, r)
			}
			return one
		}
	}
	var targets []*closureVal
	var args []ssa.Value
	if cc.IsInvoke() {
		want := ""
		if o := ls.origin(f, cc.Value); strings.Contains(o, "!") {
			want = o[strings.Index(o, "!")+1:]
		}
		for _, g := range ls.cg[ci] {
			if want != "" && g.Signature.Recv() != nil && types.TypeString(g.Signature.Recv().Type(), nil) != want {
				continue
			}
			targets = append(targets, &closureVal{fn: g})
		}
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	} else {
		args = cc.Args
		if g := cc.StaticCallee(); g != nil {
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				if c := ls.funcOf(ls.origin(f, mc)); c != nil {
					targets = append(targets, c)
				}
			} else {
				targets = append(targets, &closureVal{fn: g})
			}
		} else if c := ls.funcOf(ls.origin(f, cc.Value)); c != nil {
			targets = append(targets, c)
		} else {
			for _, g := range ls.cg[ci] {
				targets = append(targets, &closureVal{fn: g})
			}
		}
	}
	var aos []string
	for _, a := range args {
		aos = append(aos, ls.origin(f, a))
	}
	out := map[string]bool{}
	n := 0
	for _, t := range targets {
		g := t.fn
		if g.Blocks == nil || !ls.P.inModule(g) {
			continue
		}
		n++
		var fr []string
		if t.binds != nil {
			fr = t.binds
		} else {
			for range g.FreeVars {
				fr = append(fr, "arg")
			}
		}
		sub := ls.Analyze(g, held, aos, fr)
		if !sub.done {
			r.dirty = true
			if len(sub.exits) == 0 {
				out[held] = true
			}
		}
		r.merge(sub)
		for h := range sub.exits {
			out[h] = true
		}
	}
	if n == 0 {
		return ls.callbacks(f, held, args, r)
	}
	return out
}

// callbacks: functions given to code outside the module are called by it.
func (ls *Lockset) callbacks(f *lsFrame, held string, args []ssa.Value, r *lsResult) map[string]bool {
	for _, a := range args {
		if c := ls.funcOf(ls.origin(f, a)); c != nil && ls.P.inModule(c.fn) && c.fn.Blocks != nil {
			var ps []string
			for range c.fn.Params {
				ps = append(ps, "local")
			}
			sub := ls.Analyze(c.fn, held, ps, c.binds)
			r.merge(sub)
		}
	}
	return map[string]bool{held: true}
}

func (ls *Lockset) lockEffect(f *lsFrame, held, cls, op, where, pos string, r *lsResult) map[string]bool {
	m := heldMap(held)
	prob := func(rule, msg string) {
		r.prob[[3]string{rule, where + " " + cls, pos + "\x00" + msg}] = true
	}
	switch op {
	case "Try":
		r.acq[cls] = true
		m2 := heldMap(held)
		m2[cls] = "W"
		return map[string]bool{held: true, heldStr(m2): true}
	case "Lock", "RLock":
		mode := "W"
		if op == "RLock" {
			mode = "R"
		}
		r.acq[cls] = true
		for h, hm := range m {
			r.edges[lockEdge{from: h, to: cls, fn: where, pos: pos, same: h == cls, modes: hm + mode}] = true
		}
		if _, ok := m[cls]; ok {
			prob("self-deadlock", fmt.Sprintf("%s acquires %s (%s) while it is already held", where, cls, op))
			return map[string]bool{}
		}
		m[cls] = mode
	case "Unlock", "RUnlock":
		want := "W"
		if op == "RUnlock" {
			want = "R"
		}
		if m[cls] != want {
			prob("unlock-unheld", fmt.Sprintf("%s releases %s (%s), which is not held in that mode here", where, cls, op))
			return map[string]bool{}
		}
		delete(m, cls)
	}
	return map[string]bool{heldStr(m): true}
}

// access records a use of shared memory at addr.
func (ls *Lockset) access(f *lsFrame, held string, addr ssa.Value, kind byte, ins ssa.Instruction, r *lsResult) {
	cls := ls.classOf(f, addr)
	if cls == "" {
		return
	}
	r.acc[access{cls, kind, held, fname(f.fn), ls.P.posOf(ins.Pos())}] = true
}

func (ls *Lockset) classOf(f *lsFrame, addr ssa.Value) string {
	root, n := addrRoot(addr)
	switch x := root.(type) {
	case *ssa.Alloc:
		return ""
	case *ssa.Global:
		return "global " + shorten(x.String())
	}
	o := baseOrigin(ls.origin(f, root))
	if o == "local" || o == "arg" || o == "nil" || o == "" || strings.HasPrefix(o, "func#") {
		return ""
	}
	// the outermost field
	var fa *ssa.FieldAddr
	a := addr
	elem := false
	for {
		if y, ok := a.(*ssa.FieldAddr); ok {
			fa = y
			a = y.X
			continue
		}
		if y, ok := a.(*ssa.IndexAddr); ok {
			a = y.X
			fa = nil
			elem = true
			if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
				break
			}
			continue
		}
		break
	}
	if fa != nil {
		k := staticFieldKey(fa)
		if strings.HasPrefix(k, "block.AlignedBytes.") {
			return o + "->" + k
		}
		if strings.HasPrefix(k, "sync.") {
			return ""
		}
		return k
	}
	_ = n
	_ = elem
	if _, ok := root.(*ssa.FreeVar); ok && root == addr {
		return ""
	}
	return "memory of " + o
}

// memAccess: the elements of a slice.
func (ls *Lockset) memAccess(f *lsFrame, held string, v ssa.Value, kind byte, ins ssa.Instruction, r *lsResult) {
	o := baseOrigin(ls.origin(f, v))
	if o == "local" || o == "arg" || o == "nil" || o == "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	r.acc[access{"memory of " + o, kind, held, fname(f.fn), ls.P.posOf(ins.Pos())}] = true
}

// external: a method of a library type on memory of the module.
func (ls *Lockset) external(f *lsFrame, held string, name string, method bool, args []ssa.Value, ins ssa.Instruction, r *lsResult) {
	for i, a := range args {
		if fa, ok := a.(*ssa.FieldAddr); ok && i == 0 && method {
			pk := staticFieldKey(fa)
			if pk == "" || strings.HasPrefix(types.TypeString(fa.Type(), nil), "*sync.") {
				continue
			}
			kind := byte('W')
			switch name {
			case "Get", "First", "Last", "Next", "Prev", "Test", "CountAll", "CountFrom", "FirstEmpty", "LastEmpty", "NextEmpty", "PrevEmpty", "MemoryUsed", "ByCount", "Len", "Front", "Back", "Bytes", "String", "Empty":
				kind = 'R'
			}
			ls.access(f, held, fa, kind, ins, r)
			continue
		}
		if i == 0 && method {
			// an object of a library behind a field: its own business (os.File, hash, ...)
			o := baseOrigin(ls.origin(f, a))
			if strings.Contains(o, ".") && !strings.HasPrefix(o, "global") && !strings.HasPrefix(o, "func#") {
				t := types.TypeString(a.Type(), nil)
				if strings.HasPrefix(t, "*os.") || strings.HasPrefix(t, "*time.") || strings.HasPrefix(t, "*sync.") || strings.HasPrefix(t, "*go.opencensus.io/") || !strings.HasPrefix(t, "*") {
					continue
				}
				kind := byte('W')
				switch name {
				case "Len", "Front", "Back", "Get", "Value":
					kind = 'R'
				}
				r.acc[access{"object of " + o, kind, held, fname(f.fn), ls.P.posOf(ins.Pos())}] = true
			}
		}
	}
}
