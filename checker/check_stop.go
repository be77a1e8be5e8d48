package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: goroutines and who ends them. A goroutine is described by what its
// body does: the channels it listens to wherever it waits, those which make
// it end, the wait group it reports its end to. The function that starts it,
// or the object that function returns, has to close such a channel and wait
// on the group, once, before it tears down what the goroutine uses.

type goRec struct {
	key     string
	where   string
	handler bool // run by a library, many times
	viaLib  bool // started while a library runs a handler
	waits   []waitRec
	notEnd  map[string]bool
	sends   []*V
	uses    map[*V]bool
	closes  map[*V]bool
	serves  *V // a server this goroutine runs
	stops   []*V
	locks   map[string]bool
	fns     map[*ssa.Function]bool
}

type waitRec struct {
	pos  string
	ch   []*V
	keys []string // place and case
}

type ownedBy struct {
	t      *types.Named
	rec    *goRec
	ch, wg []string // access steps from the object
}

type stopCk struct {
	P        *Program
	r        *Report
	relevant map[*ssa.Function]bool
	roots    map[*ssa.Function]bool
	recs     []*goRec
	stack    []*goRec
	owned    []ownedBy
	seen     map[string]bool
	root     string
}

func tupleOf(v *V) []*V {
	if v == nil {
		return nil
	}
	return v.args
}

func has(l []*V, v *V) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func addFlag(st *State, k string, v *V) {
	l := tupleOf(st.flags[k])
	if has(l, v) {
		return
	}
	st.flags[k] = mkTuple(append(append([]*V(nil), l...), v)...)
}

// blocks tells whether f itself waits, signals, or starts goroutines.
func blocks(f *ssa.Function) (rel, starts, ends bool) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go:
				rel, starts = true, true
			case *ssa.Send, *ssa.Select, *ssa.MakeChan:
				rel = true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					rel = true
				}
			}
			if v, ok := ins.(ssa.Value); ok && isChan(v.Type()) {
				rel = true
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				rel, ends = true, true
			}
			if g := ci.Common().StaticCallee(); g != nil {
				switch n := g.String(); {
				case n == "(*sync.WaitGroup).Wait":
					rel, ends = true, true
				case n == "(*sync.WaitGroup).Go":
					rel, starts = true, true
				case strings.HasPrefix(n, "(*sync.WaitGroup)."), n == "time.Sleep", n == "(*sync.Cond).Wait", strings.HasPrefix(n, "(*net/http.Server)."):
					rel = true
				}
			}
		}
	}
	return
}

func (c *stopCk) cur() *goRec {
	if len(c.stack) == 0 {
		return nil
	}
	return c.stack[len(c.stack)-1]
}

func (c *stopCk) add(st *State, e *Engine, rule, what string, site ssa.Instruction, msg string) {
	pos := "-"
	if site != nil {
		pos = c.P.pos(site)
	}
	c.r.Add(rule, c.root+": "+what, pos, msg, st.trailMsgs())
}

func (c *stopCk) where(site ssa.Instruction) string {
	return fname(site.Parent())
}

func (c *stopCk) hooks(e *Engine) {
	P := c.P
	e.H.NoInline = func(f *ssa.Function) bool {
		return !c.relevant[f] || c.roots[f] && f.Name() != "Close"
	}
	e.H.Call = c.call
	e.H.Forget = func(l loc, t types.Type) bool { return strings.Contains(l.path, "[") }
	e.H.Builtin = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.name == "builtin.append" {
			return []Outcome{{st, []*V{e.Fresh(st, ci.site, "", ci.sig.Results().At(0).Type())}}}, true
		}
		if ci.name != "builtin.close" {
			return nil, false
		}
		ch := ci.args[0]
		if has(tupleOf(st.flags["closed"]), ch) {
			c.add(st, e, "closed-once", "channel closed in "+c.where(ci.site), ci.site, "the channel may be closed a second time: that panics")
			return nil, true
		}
		c.r.Ok("closed-once", c.where(ci.site))
		for _, k := range tupleOf(st.flags["running"]) {
			rec := c.recOf(k)
			if has(rec.sends, ch) {
				c.add(st, e, "no-send-after-close", "channel closed in "+c.where(ci.site), ci.site, "the channel is closed while "+rec.where+" may still send on it")
			}
			if has(k.args[1].args, ch) {
				c.teardown(e, st, rec.closes, rec, ci.site)
			}
		}
		addFlag(st, "closed", ch)
		return []Outcome{{st, nil}}, true
	}
	e.H.Block = func(e *Engine, st *State, site ssa.Instruction) {
		if s, ok := site.(*ssa.Send); ok {
			ch := e.eval(st, s.Chan)
			if has(tupleOf(st.flags["closed"]), ch) {
				c.add(st, e, "no-send-after-close", "send in "+c.where(site), site, "a value is sent on a channel that was closed before")
			}
			for _, r := range c.stack {
				r.sends = append(r.sends, ch)
			}
			return
		}
		r := c.cur()
		if r == nil || r.handler {
			return
		}
		for _, ch := range tupleOf(st.flags["got"]) {
			r.notEnd[ch.strConst()] = true
		}
		delete(st.flags, "got")
		w := waitRec{pos: P.pos(site)}
		switch x := site.(type) {
		case *ssa.UnOp:
			w.ch = append(w.ch, e.eval(st, x.X))
			w.keys = append(w.keys, caseKey(e, site, 0))
		case *ssa.Select:
			for k, s := range x.States {
				if s.Dir == types.RecvOnly {
					w.ch = append(w.ch, e.eval(st, s.Chan))
					w.keys = append(w.keys, caseKey(e, site, k))
				}
			}
		}
		r.waits = append(r.waits, w)
	}
	e.H.Case = func(e *Engine, st *State, site *ssa.Select, k int, vals []*V) bool {
		if k < 0 {
			return true
		}
		ch := e.eval(st, site.States[k].Chan)
		if site.States[k].Dir == types.SendOnly {
			for _, r := range c.stack {
				r.sends = append(r.sends, ch)
			}
			if has(tupleOf(st.flags["closed"]), ch) {
				c.add(st, e, "no-send-after-close", "send in "+c.where(site), site, "a value is sent on a channel that was closed before")
			}
			return true
		}
		if c.cur() != nil {
			addFlag(st, "got", mkStr(caseKey(e, site, k)))
		}
		return true
	}
	e.H.Recv = func(e *Engine, st *State, site *ssa.UnOp, ch, v *V) {
		if c.cur() != nil {
			addFlag(st, "got", mkStr(caseKey(e, site, 0)))
		}
	}
	e.H.Go = func(e *Engine, st *State, ci *CallInfo) { c.spawn(e, st, ci, nil) }
	e.H.Closure = func(e *Engine, st *State, site ssa.Instruction, f *V) { c.handler(e, st, site, f) }
	e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
		if v.k == KIface && len(v.args) > 0 {
			v = v.args[0]
		}
		if v.k == KFunc && l.path != "" {
			c.handler(e, st, site, v)
		}
	}
}

func caseKey(e *Engine, site ssa.Instruction, k int) string {
	return e.ctxName() + "/" + e.label(site) + "#" + strconv.Itoa(k)
}

func (c *stopCk) recOf(k *V) *goRec {
	n, _ := k.args[0].intConst()
	return c.recs[n]
}

// teardown: what is closed while others still use it.
func (c *stopCk) teardown(e *Engine, st *State, closes map[*V]bool, by *goRec, site ssa.Instruction) {
	for _, k := range tupleOf(st.flags["running"]) {
		rec := c.recOf(k)
		if rec == by {
			continue
		}
		for v := range rec.uses {
			if closes[v] {
				c.add(st, e, "ended-before-teardown", rec.where, site, "what this goroutine uses is closed before the goroutine has ended")
			}
		}
	}
	if st.flags["shutdown"] == nil {
		for _, k := range tupleOf(st.flags["handlers"]) {
			n, _ := k.intConst()
			rec := c.recs[n]
			for v := range rec.uses {
				if closes[v] {
					c.add(st, e, "ended-before-teardown", rec.where, site, "what this handler uses is closed before the server was shut down")
				}
			}
		}
	}
}

// isTeardown: a part of the service or the store is closed. Telling a
// goroutine to stop is not.
func isTeardown(ci *CallInfo) bool {
	if n := callee(ci); n != "Close" && n != "Free" {
		return false
	}
	if ci.fn == nil || ci.fn.Signature.Recv() == nil {
		return true
	}
	t := ci.fn.Signature.Recv().Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if ft := s.Field(i).Type(); isChan(ft) || ft.String() == "sync.WaitGroup" {
			return false
		}
	}
	return true
}

func (c *stopCk) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	done := []Outcome{{st, nil}}
	if strings.HasPrefix(ci.name, "(*sync.") && !strings.HasPrefix(ci.name, "(*sync.WaitGroup).") && !strings.HasPrefix(ci.name, "(*sync.Cond).") {
		if ci.sig.Results().Len() == 0 {
			if ci.name == "(*sync.Once).Do" {
				return nil, false
			}
			return done, true
		}
	}
	switch ci.name {
	case "(*sync.WaitGroup).Add":
		n, ok := ci.args[1].intConst()
		if !ok {
			n = 1
		}
		c.count(st, ci.args[0], n)
		return done, true
	case "(*sync.WaitGroup).Done":
		if c.cur() == nil {
			c.count(st, ci.args[0], -1)
		} else {
			addFlag(st, "done", ci.args[0])
		}
		return done, true
	case "(*sync.WaitGroup).Wait":
		c.wait(e, st, ci)
		return done, true
	case "(*sync.WaitGroup).Go":
		f := ci.args[1]
		if f.k == KFunc {
			c2 := *ci
			c2.fn, c2.binds, c2.args, c2.name = f.fn, f.args, nil, fname(f.fn)
			c.count(st, ci.args[0], 1)
			c.spawn(e, st, &c2, ci.args[0])
		}
		return done, true
	case "time.Sleep", "(*sync.Cond).Wait":
		if r := c.cur(); r != nil && !r.handler {
			for _, ch := range tupleOf(st.flags["got"]) {
				r.notEnd[ch.strConst()] = true
			}
			r.waits = append(r.waits, waitRec{pos: c.P.pos(ci.site)})
		}
		return done, true
	case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "(*net/http.Server).Serve":
		if r := c.cur(); r != nil {
			r.serves = ci.args[0]
		}
	case "(*net/http.Server).Shutdown", "(*net/http.Server).Close":
		addFlag(st, "shutdown", ci.args[0])
	}
	if ci.fn != nil && c.P.inModule(ci.fn) {
		for _, r := range c.stack {
			r.fns[ci.fn] = true
		}
	}
	if len(ci.args) > 0 && (ci.method != nil || ci.sig.Recv() != nil) {
		for _, r := range c.stack {
			r.uses[ci.args[0]] = true
			if isTeardown(ci) {
				r.closes[ci.args[0]] = true
			}
		}
		if c.cur() == nil && isTeardown(ci) {
			c.teardown(e, st, map[*V]bool{ci.args[0]: true}, nil, ci.site)
		}
	}
	if ci.fn == nil && ci.method == nil && c.cur() == nil {
		return nil, false
	}
	// a function of the module that neither waits nor starts anything leaves
	// channels and owners of goroutines alone
	if ci.fn != nil && c.P.inModule(ci.fn) && !e.inlinable(ci.fn) {
		type kept struct {
			l loc
			v *V
		}
		var keep []kept
		for l, v := range st.heap {
			if v.k == KPtr || v.k == KFunc || isChan(v.t) {
				keep = append(keep, kept{l, v})
			}
		}
		outs := e.opaque(st, ci)
		for _, k := range keep {
			st.heap[k.l] = k.v
		}
		return outs, true
	}
	return nil, false
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (c *stopCk) count(st *State, wg *V, d int64) {
	var out []*V
	found := false
	for _, p := range tupleOf(st.flags["wgs"]) {
		if p.args[0] == wg {
			n, _ := p.args[1].intConst()
			n += d
			if n > 3 {
				n = 3
			}
			p = mkTuple(wg, mkInt(n, types.Typ[types.Int]))
			found = true
		}
		out = append(out, p)
	}
	if !found {
		out = append(out, mkTuple(wg, mkInt(d, types.Typ[types.Int])))
	}
	st.flags["wgs"] = mkTuple(out...)
}

func (c *stopCk) counted(st *State, wg *V) int64 {
	for _, p := range tupleOf(st.flags["wgs"]) {
		if p.args[0] == wg {
			n, _ := p.args[1].intConst()
			return n
		}
	}
	return 0
}

// bodyName is the function a goroutine really runs: what the starter was given.
func (c *stopCk) bodyName(e *Engine, ci *CallInfo) string {
	n := "unknown function"
	if ci.fn != nil {
		n = fname(ci.fn)
	}
	for i := len(e.sites) - 1; i >= 0; i-- {
		if e.sites[i] != nil && c.relevant[e.sites[i].Parent()] {
			if ca, ok := e.sites[i].(ssa.CallInstruction); ok {
				for _, a := range ca.Common().Args {
					switch x := a.(type) {
					case *ssa.MakeClosure:
						return fname(x.Fn.(*ssa.Function))
					case *ssa.Function:
						return fname(x)
					}
				}
			}
		}
	}
	return n
}

func (c *stopCk) newRec(where string) *goRec {
	r := &goRec{where: where, notEnd: map[string]bool{}, uses: map[*V]bool{}, closes: map[*V]bool{}, locks: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	c.recs = append(c.recs, r)
	return r
}

func (c *stopCk) spawn(e *Engine, st *State, ci *CallInfo, wg *V) {
	rec := c.newRec("goroutine " + c.bodyName(e, ci))
	idx := int64(len(c.recs) - 1)
	if len(c.stack) > 0 && c.cur().handler {
		rec.viaLib = true
	}
	sub := st.clone()
	for _, k := range []string{"running", "done", "got", "wgs"} {
		delete(sub.flags, k)
	}
	c.stack = append(c.stack, rec)
	var outs []Outcome
	if ci.fn == nil || ci.fn.Blocks == nil || !c.P.inModule(ci.fn) && ci.fn.Synthetic == "" {
		if o, ok := c.call(e, sub, ci); ok {
			outs = o
		} else {
			outs = []Outcome{{sub, nil}}
		}
	} else {
		outs = e.invoke(ci.fn, sub, ci.args, ci.binds, ci.site)
		rec.fns[ci.fn] = true
		for f := range rec.fns {
			c.scanLocks(f, rec.locks)
		}
	}
	c.stack = c.stack[:len(c.stack)-1]
	if len(outs) == 0 {
		c.add(st, e, "can-end", rec.where, ci.site, "the goroutine has no way to end")
		return
	}
	byGo := wg != nil
	for _, o := range outs {
		d := tupleOf(o.st.flags["done"])
		if wg == nil && len(d) == 1 {
			wg = d[0]
		}
		if len(d) == 0 && !byGo {
			c.add(st, e, "end-awaited", rec.where, ci.site, "the goroutine can end without telling it to anybody who waits: its owner cannot know that it has ended")
			return
		}
		if len(d) > 0 && d[0] != wg || len(d) > 1 {
			c.add(st, e, "end-awaited", rec.where, ci.site, "the goroutine tells its end to more than one group")
			return
		}
		if l := tupleOf(o.st.flags["running"]); len(l) > 0 {
			c.add(st, e, "ended", c.recOf(l[0]).where, ci.site, "the goroutine is started by another one, which ends without waiting for it")
		}
	}
	if wg == nil {
		return
	}
	if c.counted(st, wg) < 1 {
		c.add(st, e, "end-awaited", rec.where, ci.site, "the goroutine is not counted before it starts: waiting for it may return while it still runs")
		return
	}
	c.count(st, wg, -1)
	c.r.Ok("end-awaited", rec.where)
	// the channels that end it at every wait
	var stops []*V
	for i, w := range rec.waits {
		var n []*V
		for j, ch := range w.ch {
			if !rec.notEnd[w.keys[j]] && (i == 0 || has(stops, ch)) && !has(n, ch) {
				n = append(n, ch)
			}
		}
		stops = n
	}
	if len(rec.waits) > 0 && len(stops) == 0 {
		p := rec.waits[0].pos
		c.r.Add("can-stop", c.root+": "+rec.where, p, "the goroutine waits here, or after it was told to stop, and no channel ends it at every place where it waits", nil)
		return
	}
	for range rec.waits {
		c.r.Ok("can-stop", rec.where)
	}
	rec.stops = stops
	addFlag(st, "running", mkTuple(mkInt(idx, types.Typ[types.Int]), mkTuple(stops...), wg))
}

// scanLocks: locks that may be taken below f.
func (c *stopCk) scanLocks(f *ssa.Function, m map[string]bool) {
	for g := range reachOf(c.P, f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if h == nil {
					continue
				}
				switch h.String() {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
					if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok {
						m[staticFieldKey(fa)] = true
					}
				}
			}
		}
	}
}

// handler: a function given to a library, which may run it at any time.
func (c *stopCk) handler(e *Engine, st *State, site ssa.Instruction, f *V) {
	if f.fn == nil || f.fn.Blocks == nil || !c.P.inModule(f.fn) || e.onStack(f.fn) > 0 || c.roots[f.fn] {
		return
	}
	rec := c.newRec("handler " + fname(f.fn))
	rec.handler = true
	idx := int64(len(c.recs) - 1)
	sub := st.clone()
	before := tupleOf(st.flags["running"])
	var args []*V
	for _, p := range f.fn.Params {
		args = append(args, e.Fresh(sub, site, "."+p.Name(), p.Type()))
	}
	c.stack = append(c.stack, rec)
	outs := e.invoke(f.fn, sub, args, f.args, site)
	c.stack = c.stack[:len(c.stack)-1]
	addFlag(st, "handlers", mkInt(idx, types.Typ[types.Int]))
	c.r.Ok("handler", fname(f.fn))
	for _, o := range outs {
		for _, k := range tupleOf(o.st.flags["running"]) {
			if has(before, k) || has(tupleOf(st.flags["running"]), k) {
				continue
			}
			if !c.known(st, k) {
				c.add(st, e, "ended", c.recOf(k).where, site, "the handler that starts the goroutine keeps the only means to stop it and to wait for it: nobody ends it when the service ends")
				continue
			}
			addFlag(st, "running", k)
		}
	}
}

// known: the outer function can still reach the goroutine's wait group.
func (c *stopCk) known(st *State, k *V) bool {
	b, _ := splitPtr(k.args[2])
	if b.k != KCell {
		return true
	}
	for l, v := range st.heap {
		if l.base == b {
			return true
		}
		if x, _ := splitPtr(v); x == b {
			return true
		}
	}
	return false
}

func (c *stopCk) wait(e *Engine, st *State, ci *CallInfo) {
	wg := ci.args[0]
	var left []*V
	for _, k := range tupleOf(st.flags["running"]) {
		if k.args[2] != wg {
			left = append(left, k)
			continue
		}
		rec := c.recOf(k)
		told := len(rec.waits) == 0
		for _, ch := range k.args[1].args {
			if has(tupleOf(st.flags["closed"]), ch) {
				told = true
			}
		}
		if !told {
			c.add(st, e, "told-to-stop", rec.where, ci.site, "its end is awaited, but it was not told to stop: the wait never ends")
		} else {
			c.r.Ok("told-to-stop", rec.where)
		}
		if rec.serves != nil && !has(tupleOf(st.flags["shutdown"]), rec.serves) {
			c.add(st, e, "told-to-stop", rec.where, ci.site, "its end is awaited, but the server it runs was not shut down")
		}
		if rec.viaLib && st.flags["shutdown"] == nil {
			c.add(st, e, "told-to-stop", rec.where, ci.site, "its end is awaited while requests that start another one are still accepted")
		}
	}
	st.flags["running"] = mkTuple(left...)
	if c.counted(st, wg) > 0 {
		c.add(st, e, "told-to-stop", "wait in "+c.root, ci.site, "more ends are awaited than goroutines were started: the wait never ends")
	}
}

// owner: the access steps from a returned object to an address or a value.
func ownerPath(st *State, from *V, want func(v *V, addr *V) bool) []string {
	type node struct {
		b    *V
		path string
		step []string
	}
	b, p := splitPtr(from)
	work := []node{{b, p, nil}}
	seen := map[*V]bool{b: true}
	for len(work) > 0 && len(work) < 1000 {
		n := work[0]
		work = work[1:]
		if len(n.step) > 3 {
			continue
		}
		var ls []loc
		for l := range st.heap {
			if l.base == n.b && strings.HasPrefix(l.path, n.path) {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].path < ls[j].path })
		for _, l := range ls {
			v := st.heap[l]
			step := append(append([]string(nil), n.step...), l.path[len(n.path):])
			if want(v, mkPtr(l.base, l.path)) {
				return step
			}
			if v.k == KPtr || v.k == KCell {
				if b2, p2 := splitPtr(v); b2.k == KCell && !seen[b2] {
					seen[b2] = true
					work = append(work, node{b2, p2, step})
				}
			}
		}
	}
	return nil
}

func (c *stopCk) runRoot(f *ssa.Function) {
	e := NewEngine(c.P)
	c.hooks(e)
	c.root = fname(f)
	st := newState()
	var args, keep []*V
	for _, p := range f.Params {
		v := mkSym(p.Name(), p.Type())
		args = append(args, v)
		keep = append(keep, v)
	}
	st.flags["keep"] = mkTuple(keep...)
	c.r.Funcs[fname(f)] = true
	for _, o := range e.Run(f, st, args, nil) {
		for _, k := range tupleOf(o.st.flags["running"]) {
			rec := c.recOf(k)
			if c.passOn(e, o, k, rec, f) {
				c.r.Ok("owned", rec.where)
				continue
			}
			c.r.Add("ended", c.root+": "+rec.where, c.P.pos(f), "the function returns while the goroutine runs, and nobody can end it any more", o.st.trailMsgs())
		}
		c.r.Ok("ended", c.root)
	}
	c.r.absorb(e)
}

// passOn: the goroutine belongs to the object that is returned.
func (c *stopCk) passOn(e *Engine, o Outcome, k *V, rec *goRec, f *ssa.Function) bool {
	for i, v := range o.ret {
		if v == nil || v.k != KPtr && v.k != KCell {
			continue
		}
		t := f.Signature.Results().At(i).Type()
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		if !ok {
			continue
		}
		// a failing result returns no object
		for j, w := range o.ret {
			if j != i && isError(f.Signature.Results().At(j).Type()) && e.nilOf(o.st, w) == 2 {
				return false
			}
		}
		var chp []string
		if len(k.args[1].args) > 0 {
			chp = ownerPath(o.st, v, func(x, a *V) bool { return has(k.args[1].args, x) })
			if chp == nil {
				continue
			}
		}
		wb, wp := splitPtr(k.args[2])
		wgp := ownerPath(o.st, v, func(x, a *V) bool {
			if x.k == KPtr || x.k == KCell {
				b, p := splitPtr(x)
				return b == wb && strings.HasPrefix(wp, p)
			}
			b, p := splitPtr(a)
			return b == wb && (p == wp || strings.HasPrefix(p, wp+"."))
		})
		if wgp == nil {
			continue
		}
		if b, _ := splitPtr(v); b == wb {
			wgp = nil
		}
		wgp = append(append([]string(nil), wgp...), wp)
		key := n.String() + strings.Join(chp, "/") + "|" + strings.Join(wgp, "/")
		if !c.seen[key] {
			c.seen[key] = true
			c.owned = append(c.owned, ownedBy{n, rec, chp, wgp})
		}
		return true
	}
	return false
}

// place: the value, and the address, at the end of the access steps.
func (c *stopCk) place(e *Engine, st *State, recv *V, t types.Type, steps []string) (*V, *V) {
	v := recv
	var addr *V
	for _, s := range steps {
		addr = v
		if s != "" {
			addr = mkPtr(v, s)
		}
		ft := pathType(t, s)
		if ft == nil {
			return nil, addr
		}
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		} else {
			t = ft
		}
		b, p := splitPtr(addr)
		if structOf(ft) == nil {
			v = e.loadLoc(st, nil, b, p, ft)
		}
	}
	return v, addr
}

// pathType is the type at a path of fields.
func pathType(t types.Type, path string) types.Type {
	for _, n := range strings.Split(path, ".") {
		if n == "" {
			continue
		}
		s := structOf(t)
		if s == nil {
			return nil
		}
		t = nil
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				t = s.Field(i).Type()
			}
		}
		if t == nil {
			return nil
		}
	}
	return t
}

// closers checks the methods of the object a goroutine was passed on to.
func (c *stopCk) closers(o ownedBy) {
	P, r := c.P, c.r
	var ms []*ssa.Function
	for _, f := range P.methodsOf(o.t) {
		if f == nil || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil {
			continue
		}
		for g := range reachOf(P, f) {
			if _, _, ends := blocks(g); ends {
				ms = append(ms, f)
				break
			}
		}
	}
	c.root = shorten(o.t.String())
	if len(ms) == 0 {
		r.Add("ended", c.root+": "+o.rec.where, "-", "no method of the object that owns the goroutine ends it", nil)
		return
	}
	opened := NewStoreClient(P, "C28").openedKey
	openPath := ""
	if strings.HasPrefix(opened, c.root+".") {
		openPath = opened[len(c.root):]
	}
	stops := 0
	for _, f := range ms {
		for _, mode := range []string{"alone", "closed", "concurrent"} {
			c.closer(o, f, openPath, mode, &stops)
		}
	}
	if stops == 0 {
		r.Add("ended", c.root+": "+o.rec.where, "-", "no method of the object that owns the goroutine tells it to stop and waits for it", nil)
	}
}

func (c *stopCk) closer(o ownedBy, f *ssa.Function, openPath, mode string, stops *int) {
	P, r := c.P, c.r
	e := NewEngine(P)
	c.root = fname(f)
	r.Funcs[c.root] = true
	st := newState()
	recv := mkSym("store", types.NewPointer(o.t))
	st.facts[recv] = Fact{nilness: 2}
	var ch, wg *V
	if o.ch != nil {
		ch, _ = c.place(e, st, recv, o.t, o.ch)
	}
	_, wg = c.place(e, st, recv, o.t, o.wg)
	keep := []*V{recv, wg}
	if ch != nil {
		keep = append(keep, ch)
	}
	st.flags["keep"] = mkTuple(keep...)
	isOpen := func(st *State) *V { return st.heap[loc{recv, openPath}] }
	if openPath != "" && mode != "concurrent" {
		st.heap[loc{recv, openPath}] = mkBool(mode == "alone")
	}
	e.H.NoInline = func(g *ssa.Function) bool { return !c.relevant[g] }
	e.H.Builtin = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.name != "builtin.close" {
			return nil, false
		}
		if ci.args[0] != ch {
			return []Outcome{{st, nil}}, true
		}
		if mode == "closed" && openPath != "" {
			c.add(st, e, "closed-once", o.rec.where, ci.site, "closing a closed store closes the channel a second time: that panics")
			return nil, true
		}
		if st.flag("stopped") != "" {
			c.add(st, e, "closed-once", o.rec.where, ci.site, "the channel may be closed a second time: that panics")
			return nil, true
		}
		if mode == "concurrent" && st.flag("claimed") == "" {
			w := false
			for _, l := range st.heldAll() {
				w = w || st.held(l) == "W"
			}
			if !w {
				c.add(st, e, "closed-once", o.rec.where, ci.site, "two concurrent calls may both close the channel: that panics")
				return nil, true
			}
			st.setFlag("mustclaim", "1")
		}
		st.setFlag("stopped", "1")
		return []Outcome{{st, nil}}, true
	}
	e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
		if openPath == "" || l.base != recv || l.path != openPath {
			return
		}
		if b, ok := v.boolConst(); !ok || b {
			return
		}
		if old := isOpen(st); old == nil || e.decide(st, old) != 1 {
			return
		}
		for _, l := range st.heldAll() {
			if st.held(l) == "W" {
				st.setFlag("claimed", "1")
				delete(st.flags, "mustclaim")
			}
		}
	}
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		done := []Outcome{{st, nil}}
		switch ci.name {
		case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
			return done, true
		case "(*sync.WaitGroup).Wait":
			if ci.args[0] != wg {
				return done, true
			}
			if ch != nil && st.flag("stopped") == "" {
				c.add(st, e, "told-to-stop", o.rec.where, ci.site, "its end is awaited, but it was not told to stop: the wait never ends")
				return nil, true
			}
			for _, l := range st.heldAll() {
				if o.rec.locks[l] {
					c.add(st, e, "end-possible", o.rec.where, ci.site, "its end is awaited with the lock "+l+" held, which the goroutine takes: both wait for ever")
					return nil, true
				}
			}
			r.Ok("told-to-stop", c.root)
			st.setFlag("waited", "1")
			return done, true
		}
		if mode == "concurrent" {
			outs, ok := lockHandler(e, st, ci, func(rule, msg string) {}, nil, func(l lockOp) {
				if st.flag("mustclaim") != "" {
					c.add(st, e, "closed-once", o.rec.where, ci.site, "the lock is released before the store is marked as closed: another call may close the channel again")
				}
			})
			if ok {
				return outs, true
			}
		} else if l, ok := asLockOp(ci); ok {
			if l.op == "Try" {
				return nil, false
			}
			lockHandler(e, st, ci, func(rule, msg string) {}, nil, nil)
			if openPath != "" && isOpen(st) == nil {
				st.heap[loc{recv, openPath}] = mkBool(mode == "alone")
			}
			return done, true
		}
		if strings.HasPrefix(ci.name, "(*sync.") && ci.sig.Results().Len() == 0 {
			return nil, false
		}
		if len(ci.args) > 0 && isTeardown(ci) && ci.args[0] != recv && partOf(ci.args[0], recv) {
			if st.flag("waited") == "" && mode == "alone" {
				c.add(st, e, "ended-before-teardown", o.rec.where, ci.site, "a part of the store is closed before its goroutine has ended")
			} else {
				r.Ok("ended-before-teardown", ci.name)
			}
		}
		return nil, false
	}
	for _, out := range e.Run(f, st, []*V{recv}, nil) {
		s := out.st
		if s.flag("waited") != "" {
			*stops++
		}
		if mode != "alone" || f.Name() != "Close" {
			if s.flag("stopped") != "" && s.flag("waited") == "" {
				r.Add("ended", c.root+": "+o.rec.where, P.pos(f), "tells the goroutine to stop without waiting for its end", s.trailMsgs())
			}
			r.Ok("closed-once", c.root+" "+mode)
			continue
		}
		switch {
		case ch != nil && s.flag("stopped") == "":
			r.Add("ended", c.root+": "+o.rec.where, P.pos(f), "can return without telling the goroutine to stop", s.trailMsgs())
		case s.flag("waited") == "":
			r.Add("ended", c.root+": "+o.rec.where, P.pos(f), "can return before the goroutine has ended", s.trailMsgs())
		case openPath != "" && (isOpen(s) == nil || e.decide(s, isOpen(s)) != 2):
			r.Add("closed-once", c.root+": "+o.rec.where, P.pos(f), "can return without marking the store as closed: closing it again closes the channel a second time", s.trailMsgs())
		default:
			r.Ok("ended", c.root)
		}
	}
	r.absorb(e)
}

// partOf: v was read from the object.
func partOf(v, obj *V) bool {
	for n := 0; v != nil && n < 10; n++ {
		if v == obj {
			return true
		}
		switch v.k {
		case KPtr, KInit, KAs, KIface:
			v = v.args[0]
		default:
			return strings.HasPrefix(v.name, "mem")
		}
	}
	return false
}

func init() {
	checks["C28"] = func(P *Program, r *Report) {
		r.Explanation = "typestate and ownership analysis over SSA of every goroutine: channels it listens to at each wait, group it reports its end to, and the owner that closes the channel and waits, on every path"
		r.Assumptions = []string{"a goroutine that was told to stop is scheduled again", "sends of answers are received (C21)", "http.Server.Shutdown returns nil only after every handler has ended"}
		c := &stopCk{P: P, r: r, relevant: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, seen: map[string]bool{}}
		rel, starts := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		manager := map[*types.Named]bool{}
		for _, f := range P.funcs {
			a, b, _ := blocks(f)
			if a {
				rel[f] = true
			}
			if b {
				starts[f] = true
				// a method that runs a function it is given
				if n := recvNamed(f); n != nil {
					for _, p := range f.Params[1:] {
						if _, ok := p.Type().Underlying().(*types.Signature); ok {
							manager[n] = true
						}
					}
				}
				r.Counts["functions_that_start_goroutines"]++
			}
		}
		c.relevant = P.reaching(rel)
		var roots []*ssa.Function
		for f := range P.reaching(starts) {
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			exported := f.Object() != nil && f.Object().Exported() || f.Name() == "main" || f.Name() == "init"
			if n := recvNamed(f); n != nil && manager[n] {
				continue
			}
			if exported {
				roots = append(roots, f)
			}
		}
		sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
		for _, f := range roots {
			c.roots[f] = true
		}
		for _, f := range roots {
			c.runRoot(f)
		}
		for _, o := range c.owned {
			c.closers(o)
		}
		r.Need("owned", 1)
		r.Need("can-stop", 3)
		r.Need("end-awaited", 4)
		r.Need("told-to-stop", 4)
		r.Need("closed-once", 4)
		r.Need("ended-before-teardown", 1)
	}
}
