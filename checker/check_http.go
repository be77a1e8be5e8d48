package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: what the service answers. One arbitrary request is followed from the
// queue through the worker: where it is kept, what the store said about it,
// whether a sync came later, and what is sent on its reply channel. Slices of
// requests and of results are either with or without the tracked request; a
// loop over all elements of one with it meets it exactly once. On the other
// side every handler of the service is followed from its start to its return.

type httpCk struct {
	P       *Program
	r       *Report
	pass    int
	role    []string
	root    string
	inline  map[string]bool
	tracked *V
	never   *V // a context that is never done
	// learned in the first pass
	ctxDone  bool  // a request may carry a context that is done
	mayLeave bool  // a handler may return without taking its answer
	capMin   int64 // of reply channels
	capOf    map[*V]int64
	listens  map[*V]bool // channels that tell a worker to end
	queues   map[*V]bool
	taken    map[*V]bool
}

func (c *httpCk) cur() string {
	if len(c.role) == 0 {
		return "root"
	}
	return c.role[len(c.role)-1]
}

func (c *httpCk) add(st *State, rule, what string, site ssa.Instruction, msg string) {
	if c.pass == 1 {
		return
	}
	c.r.Add(rule, what, c.P.pos(site), msg, st.trailMsgs())
}

func (c *httpCk) ok(rule, what string) {
	if c.pass == 2 {
		c.r.Ok(rule, what)
	}
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// replyField: the index of the field of t that holds a channel for answers.
func replyField(t types.Type) int {
	s := structOf(derefT(t))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		ch, ok := s.Field(i).Type().Underlying().(*types.Chan)
		if ok && !types.Identical(derefT(ch.Elem()), derefT(t)) {
			if b, ok := ch.Elem().Underlying().(*types.Struct); ok && b.NumFields() == 0 {
				continue
			}
			return i
		}
	}
	return -1
}

func chanElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if ch, ok := t.Underlying().(*types.Chan); ok {
		return ch.Elem()
	}
	return nil
}

func isQueue(t types.Type) bool {
	et := chanElem(t)
	return et != nil && replyField(et) >= 0
}

func isTimer(t types.Type) bool {
	et := chanElem(t)
	return et != nil && et.String() == "time.Time"
}

func isContext(t types.Type) bool { return t != nil && t.String() == "context.Context" }

// cells reachable from v; found tells whether the tracked request is there.
func (c *httpCk) carries(st *State, v *V) bool {
	if v == nil {
		return false
	}
	if v.syms[c.tracked] {
		return true
	}
	seen := map[*V]bool{}
	var work []*V
	add := func(v *V) bool {
		for x := range v.syms {
			if x == c.tracked {
				return true
			}
			if x.k == KCell && !seen[x] {
				seen[x] = true
				work = append(work, x)
			}
		}
		return false
	}
	if add(v) {
		return true
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for l, w := range st.heap {
			if l.base == b && add(w) {
				return true
			}
		}
	}
	return false
}

// value gives the struct behind a value or a pointer.
func (c *httpCk) value(e *Engine, st *State, v *V, t types.Type) *V {
	if p, ok := t.Underlying().(*types.Pointer); ok && v.k != KStruct {
		b, path := splitPtr(v)
		return e.loadLoc(st, nil, b, path, p.Elem())
	}
	return v
}

// errOf: the error inside an answer.
func (c *httpCk) errOf(e *Engine, st *State, v *V, t types.Type) *V {
	if isError(t) {
		return v
	}
	s := structOf(derefT(t))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if isError(s.Field(i).Type()) {
			return fieldOf(c.value(e, st, v, t), i)
		}
	}
	return nil
}

func (c *httpCk) idOf(e *Engine, st *State, v *V, t types.Type) *V {
	s := structOf(derefT(t))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isInt(ft) || strings.HasSuffix(ft.String(), "lump.LumpId") {
			return fieldOf(c.value(e, st, v, t), i)
		}
	}
	return nil
}

// ---- the worker

func (c *httpCk) arrive(e *Engine, st *State, site ssa.Instruction, ch *V, t types.Type) []Outcome {
	ct := types.NewChan(types.RecvOnly, t)
	switch c.cur() {
	case "goroutine":
		if !isQueue(ct) {
			return nil
		}
		c.taken[ch] = true
		c.ok("taken-from-queue", c.where(site))
		other := st.clone()
		outs := []Outcome{{other, []*V{e.Fresh(other, site, ".x", t)}}}
		if st.flag("tracked") == "" {
			st.setFlag("tracked", "in")
			v := c.tracked
			if p, ok := t.Underlying().(*types.Pointer); ok {
				cell := mkCell("tracked", p.Elem())
				e.storeLoc(st, cell, "", mkSym("tracked", p.Elem()), p.Elem())
				v = cell
			}
			st.note(c.P.pos(site) + " takes the request")
			outs = append(outs, Outcome{st, []*V{v, mkBool(true)}})
		}
		return outs
	case "handler":
		if p := st.flags["pending"]; p != nil && p == ch {
			v := e.Fresh(st, site, ".answer", t)
			delete(st.flags, "pending")
			st.setFlag("answered", "1")
			if err := c.errOf(e, st, v, t); err != nil {
				st.flags["answererr"] = err
			}
			st.note(c.P.pos(site) + " takes its answer")
			c.ok("answer-taken", c.where(site))
			return []Outcome{{st, []*V{v}}}
		}
		if has(tupleOf(st.flags["mine"]), ch) && !isQueue(ct) && replyOnly(e, st, site) {
			c.add(st, "answer-received", "handler "+c.where(site), site, "waits for an answer although its request was not put in the queue, or was answered before: it waits for ever")
			return []Outcome{}
		}
	}
	return nil
}

// replyOnly: nothing else ends this wait.
func replyOnly(e *Engine, st *State, site ssa.Instruction) bool {
	s, ok := site.(*ssa.Select)
	if !ok {
		return true
	}
	if !s.Blocking {
		return false
	}
	n := 0
	for _, x := range s.States {
		if ch := e.eval(st, x.Chan); ch.k != KNil && e.nilOf(st, ch) != 1 {
			n++
		}
	}
	return n == 1
}

func (c *httpCk) where(site ssa.Instruction) string { return fname(site.Parent()) }

// reachable: the tracked request is still held by a variable.
func (c *httpCk) reachable(st *State) bool {
	for _, f := range st.frames {
		for _, v := range f.env {
			if c.carries(st, v) {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if c.carries(st, a) {
					return true
				}
			}
		}
	}
	return false
}

func (c *httpCk) block(e *Engine, st *State, site ssa.Instruction) {
	if s, ok := site.(*ssa.Send); ok {
		c.send(e, st, site, e.eval(st, s.Chan), e.eval(st, s.X), s.X.Type(), true)
		return
	}
	if c.cur() != "goroutine" {
		return
	}
	type rc struct {
		v *V
		t types.Type
	}
	var chs []rc
	switch x := site.(type) {
	case *ssa.UnOp:
		chs = append(chs, rc{e.eval(st, x.X), x.X.Type()})
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				chs = append(chs, rc{e.eval(st, s.Chan), s.Chan.Type()})
			}
		}
	}
	q, timer := false, false
	for _, ch := range chs {
		q = q || isQueue(ch.t)
		timer = timer || isTimer(ch.t)
	}
	if !q {
		return
	}
	for _, ch := range chs {
		if !isQueue(ch.t) && !isTimer(ch.t) {
			c.listens[ch.v] = true
		}
	}
	if st.flag("tracked") != "in" {
		return
	}
	if !c.reachable(st) {
		c.add(st, "answered", "request in "+c.where(site), site, "the worker waits for the next request, and one it took before got no answer and is not kept anywhere: its client waits for ever")
		st.setFlag("tracked", "done")
	} else if !timer {
		c.add(st, "answered", "request in "+c.where(site), site, "the worker waits for the next request while one it took before has no answer")
		st.setFlag("tracked", "done")
	}
}

func (c *httpCk) send(e *Engine, st *State, site ssa.Instruction, ch, v *V, t types.Type, blocking bool) {
	switch c.cur() {
	case "goroutine":
		if ch.syms[c.tracked] && !isQueue(types.NewChan(types.SendOnly, t)) {
			c.answer(e, st, site, v, t, blocking)
		}
	case "handler":
		if isQueue(types.NewChan(types.SendOnly, t)) {
			c.enqueue(e, st, site, ch, v, t)
		}
	}
}

func (c *httpCk) answer(e *Engine, st *State, site ssa.Instruction, v *V, t types.Type, blocking bool) {
	what := "answer in " + c.where(site)
	if st.flag("tracked") == "done" {
		c.add(st, "answered-once", what, site, "a request gets a second answer: nobody takes it, and the worker waits for ever")
		return
	}
	st.setFlag("tracked", "done")
	st.note(c.P.pos(site) + " answers")
	c.ok("answered-once", what)
	if blocking && c.mayLeave && c.capMin < 1 {
		c.add(st, "answer-received", what, site, "a handler may return without taking its answer, and the channel has no room for it: the worker waits for ever")
	}
	err := c.errOf(e, st, v, t)
	if err != nil && e.nilOf(st, err) == 2 {
		c.ok("failure-answered", what)
		return
	}
	switch {
	case st.flag("op") == "fail":
		c.add(st, "only-durable", what, site, "a request is answered with success although the store refused it")
	case st.flag("op") != "ok":
		c.add(st, "only-durable", what, site, "a request may be answered with success although its data was not given to the store")
	case st.flag("synced") == "":
		c.add(st, "only-durable", what, site, "a request may be answered with success before a sync of the store that came after it returned")
	default:
		c.ok("only-durable", what)
	}
	if id := c.idOf(e, st, v, t); id != nil && st.flag("op") == "ok" && st.flags["opid"] != nil {
		good := len(id.syms) > 0
		for x := range id.syms {
			if !st.flags["opid"].syms[x] {
				good = false
			}
		}
		if !good {
			c.add(st, "own-id", what, site, "the answer names an id that is not the one the data was stored under")
		} else {
			c.ok("own-id", what)
		}
	}
}

// ---- slices

func (c *httpCk) with(t types.Type, elem *V) *V { return mkApp("with", t, elem) }

func isWith(v *V) bool { return v != nil && v.k == KApp && v.name == "with" }

func (c *httpCk) builtin(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.name == "builtin.close" && c.cur() == "root" {
		if c.pass == 2 && (c.listens[ci.args[0]] || c.taken[ci.args[0]]) {
			if st.flag("shutdown") == "" {
				c.add(st, "answered", "end of the worker in "+c.root, ci.site, "the worker is told to end while handlers may still wait for an answer, or put requests in its queue")
			} else {
				c.ok("worker-ends-last", c.root)
			}
		}
		return nil, false
	}
	if ci.name != "builtin.append" || c.cur() != "goroutine" {
		return nil, false
	}
	s, x := ci.args[0], ci.args[1]
	t := ci.sig.Results().At(0).Type()
	et := elemType(t)
	var found *V
	switch {
	case isWith(x):
		found = x.args[0]
	case x.k == KSlice:
		b, p := splitPtr(x.args[0])
		n, ok := x.args[2].intConst()
		if !ok {
			break
		}
		for i := int64(0); i < n && i < 4; i++ {
			v := e.loadLoc(st, ci.site, b, p+idxPath(mkInt(i, types.Typ[types.Int])), et)
			if c.carries(st, v) {
				found = v
			}
		}
	}
	one := func(v *V) []Outcome { return []Outcome{{st, []*V{v}}} }
	if found != nil && isWith(s) && s != x {
		c.add(st, "answered-once", "list in "+c.where(ci.site), ci.site, "a request is put in the same list twice: it is handled, or answered, twice")
	}
	if found != nil {
		return one(c.with(t, found)), true
	}
	if isWith(s) {
		return one(s), true
	}
	return one(mkApp("others", t)), true
}

func (c *httpCk) index(e *Engine, st *State, site *ssa.IndexAddr, s, i *V) []Outcome {
	if c.cur() != "goroutine" {
		return nil
	}
	// a slice made as long as a list has one element for each of the list
	var twin *V
	if s.k == KSlice {
		n, ok := s.args[1].intConst()
		if l := s.args[2]; ok && n == 0 && l.k == KApp && l.name == "len" && l.args[0].k == KApp && (isWith(l.args[0]) || l.args[0].name == "others") {
			twin, s = s.args[0], l.args[0]
		}
	}
	if s.k != KApp || s.name != "with" && s.name != "others" {
		return nil
	}
	et := elemType(site.X.Type())
	other := func(st *State) Outcome {
		cell := e.freshCell(st, site, ".other", et)
		v := e.Fresh(st, site, ".o", et)
		e.storeLoc(st, cell, "", v, et)
		return Outcome{st, []*V{mkPtr(cell, "")}}
	}
	if s.name == "others" {
		return []Outcome{other(st)}
	}
	mine := func(st *State, s *V, p *V) Outcome {
		if twin != nil {
			b, path := splitPtr(twin)
			return Outcome{st, []*V{mkPtr(b, path+"[at]")}}
		}
		return Outcome{st, []*V{p}}
	}
	at := st.flags["at"]
	st.flags["last"] = mkTuple(s, i)
	if n, ok := i.intConst(); ok && n == 0 && at != nil && at.args[0] == s && at.args[1] != i {
		delete(st.flags, "at")
		delete(st.flags, "not")
		at = nil
	}
	if at != nil && at.args[0] == s {
		if at.args[1] == i {
			return []Outcome{mine(st, s, at.args[2])}
		}
		return []Outcome{other(st)}
	}
	if n := st.flags["not"]; n != nil && n.args[0] == s && n.args[1] == i {
		return []Outcome{other(st)}
	}
	st2 := st.clone()
	st2.flags["not"] = mkTuple(s, i)
	outs := []Outcome{other(st2)}
	st.flags["at"] = mkTuple(s, i)
	cell := e.freshCell(st, site, ".elem", elemType(s.t))
	at = st.flags["at"]
	s, i = at.args[0], at.args[1]
	e.storeLoc(st, cell, "", s.args[0], elemType(s.t))
	p := mkPtr(cell, "")
	st.flags["at"] = mkTuple(s, i, p)
	delete(st.flags, "not")
	return append(outs, mine(st, s, p))
}

func (c *httpCk) cut(e *Engine, st *State, x *ssa.Slice, s *V) []Outcome {
	if at, ok := derefT(x.X.Type()).Underlying().(*types.Array); ok && c.cur() == "goroutine" && x.Low == nil && x.High == nil && at.Len() <= 8 {
		b, p := splitPtr(s)
		for i := int64(0); i < at.Len(); i++ {
			v := e.loadLoc(st, x, b, p+idxPath(mkInt(i, types.Typ[types.Int])), at.Elem())
			if c.carries(st, v) {
				return []Outcome{{st, []*V{c.with(x.Type(), v)}}}
			}
		}
		return nil
	}
	if s.k != KApp || s.name != "with" && s.name != "others" {
		return nil
	}
	others := mkApp("others", s.t)
	one := func(v *V) []Outcome { return []Outcome{{st, []*V{v}}} }
	zero := func(v ssa.Value) bool {
		if v == nil {
			return true
		}
		n, ok := e.eval(st, v).intConst()
		return ok && n == 0
	}
	whole := func(v ssa.Value) bool {
		if v == nil {
			return true
		}
		y := e.eval(st, v)
		return y.k == KApp && y.name == "len" && y.args[0] == s
	}
	if s.name == "others" || zero(x.Low) && whole(x.High) {
		return one(s)
	}
	if x.High != nil && zero(x.High) {
		return one(others)
	}
	at, not := st.flags["at"], st.flags["not"]
	delete(st.flags, "at")
	delete(st.flags, "not")
	delete(st.flags, "last")
	if !zero(x.Low) && !whole(x.High) {
		st2 := st.clone()
		return []Outcome{{st, []*V{s}}, {st2, []*V{others}}}
	}
	// one of two parts
	n, high := x.High, false
	if !zero(x.Low) {
		n, high = x.Low, true
	}
	nv := e.eval(st, n)
	if k, ok := nv.intConst(); ok && k == 1 && high && at != nil && at.args[0] == s {
		if i, ok := at.args[1].intConst(); ok {
			if i == 0 {
				return one(others)
			}
			return one(s)
		}
	}
	if k, ok := nv.intConst(); ok && k == 1 && high && not != nil && not.args[0] == s {
		if i, ok := not.args[1].intConst(); ok && i == 0 {
			return one(s)
		}
	}
	if o := st.flags["cut"]; o != nil && o.args[0] == s && o.args[1] == nv {
		if in, _ := o.args[2].boolConst(); in == high {
			return one(s)
		}
		return one(others)
	}
	st2 := st.clone()
	st.flags["cut"] = mkTuple(s, nv, mkBool(high))
	st2.flags["cut"] = mkTuple(s, nv, mkBool(!high))
	return []Outcome{{st, []*V{s}}, {st2, []*V{others}}}
}

// feasible: a list with the tracked request is not empty, and a loop over all
// of it has met it when it ends.
func (c *httpCk) feasible(e *Engine, st *State, cond *V, truth bool) bool {
	for cond.k == KUn && cond.name == "!" {
		cond, truth = cond.args[0], !truth
	}
	if cond.k != KBin || len(cond.args) != 2 {
		return true
	}
	lenWith := func(v *V) *V {
		if v.k == KApp && v.name == "len" && isWith(v.args[0]) {
			return v.args[0]
		}
		return nil
	}
	x, y := cond.args[0], cond.args[1]
	switch cond.name {
	case "==":
		if lenWith(x) != nil && truth {
			if n, ok := y.intConst(); ok && n == 0 {
				return false
			}
		}
		if isWith(x) && y.k == KNil && truth {
			return false
		}
	case "<":
		if lenWith(x) != nil && truth {
			if n, ok := y.intConst(); ok && n <= 1 {
				return false
			}
		}
		if w := lenWith(y); w != nil && !truth {
			if n, ok := x.intConst(); ok {
				if n <= 0 {
					return false
				}
				// the end of a loop, or only a question about the length
				last := st.flags["last"]
				if last == nil || last.args[0] != w {
					return true
				}
				if k, ok := last.args[1].intConst(); !ok || k != n-1 {
					return true
				}
			}
			at := st.flags["at"]
			if at == nil || at.args[0] != w {
				return false
			}
			delete(st.flags, "at")
			delete(st.flags, "not")
			delete(st.flags, "last")
		}
	}
	return true
}

// ---- calls

func (c *httpCk) storeOp(ci *CallInfo) bool {
	n := recvNamed(ci.fn)
	return n != nil && n == c.P.named("storage.Storage")
}

func errResult(s *types.Signature) int {
	n := s.Results().Len()
	if n > 0 && isError(s.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// split gives one state where the call succeeded and one where it failed.
func (c *httpCk) split(e *Engine, st *State, ci *CallInfo) (Outcome, Outcome) {
	bad := st.clone()
	k := errResult(ci.sig)
	r1 := e.opaque(st, ci)[0].ret
	r1[k] = theNil
	r2 := e.opaque(bad, ci)[0].ret
	f := bad.facts[r2[k]]
	f.nilness = 2
	bad.facts[r2[k]] = f
	return Outcome{st, r1}, Outcome{bad, r2}
}

func isData(t types.Type) bool {
	return t != nil && strings.HasSuffix(derefT(t).String(), "lump.LumpData")
}

func (c *httpCk) call(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	// contexts
	switch ci.name {
	case "context.Background", "context.TODO":
		return []Outcome{{st, []*V{c.never}}}, true
	}
	if ci.method != nil && ci.recv != nil && isContext(ci.recv.t) || ci.recv == c.never && ci.recv != nil {
		name := callee(ci)
		nv := ci.recv == c.never || c.pass == 2 && !c.ctxDone && ci.recv.syms[c.tracked]
		if nv && (name == "Done" || name == "Err") {
			return []Outcome{{st, []*V{theNil}}}, true
		}
	}
	if ci.sig != nil && ci.sig.Params().Len() > 0 && ci.sig.Results().Len() > 0 && isContext(ci.sig.Params().At(0).Type()) && isContext(ci.sig.Results().At(0).Type()) && (ci.fn == nil || !c.P.inModule(ci.fn)) {
		n := callee(ci)
		if !strings.HasPrefix(n, "WithTimeout") && !strings.HasPrefix(n, "WithDeadline") && !strings.HasPrefix(n, "WithCancel") {
			ret := e.opaque(st, ci)[0].ret
			ret[0] = ci.args[0]
			return []Outcome{{st, ret}}, true
		}
	}
	switch c.cur() {
	case "root":
		if ci.name == "(*net/http.Server).Shutdown" {
			a, b := c.split(e, st, ci)
			a.st.setFlag("shutdown", "1")
			return []Outcome{a, b}, true
		}
	case "goroutine":
		if c.storeOp(ci) {
			return c.workerOp(e, st, ci), true
		}
	case "handler":
		return c.handlerCall(e, st, ci)
	}
	return nil, false
}

func (c *httpCk) workerOp(e *Engine, st *State, ci *CallInfo) []Outcome {
	name := callee(ci)
	k := errResult(ci.sig)
	synced := func(st *State) {
		if st.flag("op") == "ok" {
			st.setFlag("synced", "1")
		}
		st.note(c.P.pos(ci.site) + " syncs the store")
		c.ok("synced", c.where(ci.site))
	}
	if name == "Sync" {
		if k < 0 {
			o := e.opaque(st, ci)[0]
			synced(o.st)
			return []Outcome{o}
		}
		a, b := c.split(e, st, ci)
		synced(a.st)
		return []Outcome{a, b}
	}
	mine := false
	var id *V
	for i, a := range ci.args {
		if i == 0 {
			continue
		}
		t := ci.sig.Params().At(i - 1).Type()
		if isData(t) && c.carries(st, a) || t.String() == "[]byte" && c.carries(st, a) {
			mine = true
		}
		if strings.HasSuffix(t.String(), "lump.LumpId") {
			id = a
		}
	}
	if !mine || k < 0 {
		return e.opaque(st, ci)
	}
	c.ok("given-to-store", c.where(ci.site))
	a, b := c.split(e, st, ci)
	if id != nil {
		a.st.flags["opid"] = id
	}
	a.st.setFlag("op", "ok")
	delete(a.st.flags, "synced")
	a.st.note(c.P.pos(ci.site) + " stores the data")
	b.st.setFlag("op", "fail")
	b.st.note(c.P.pos(ci.site) + " the store refuses the data")
	return []Outcome{a, b}
}

// ---- handlers

func (c *httpCk) enqueue(e *Engine, st *State, site ssa.Instruction, ch, v *V, t types.Type) {
	what := "request of " + c.where(site)
	c.queues[ch] = true
	s := c.value(e, st, v, t)
	st0 := structOf(derefT(t))
	reply := fieldOf(s, replyField(t))
	if st.flags["pending"] != nil || st.flag("answered") != "" {
		c.add(st, "answered-once", what, site, "a handler puts its request in the queue a second time")
	}
	if !has(tupleOf(st.flags["mine"]), reply) {
		c.add(st, "answer-received", what, site, "the channel for the answer was not made for this request: answers go to another client")
	} else {
		c.ok("own-channel", what)
	}
	if n := c.capOf[reply]; c.pass == 1 && (c.capMin < 0 || n < c.capMin) {
		c.capMin = n
	}
	for i := 0; i < st0.NumFields(); i++ {
		if isContext(st0.Field(i).Type()) && fieldOf(s, i) != c.never && e.nilOf(st, fieldOf(s, i)) != 1 {
			c.ctxDone = true
		}
	}
	for _, x := range tupleOf(st.flags["errs"]) {
		if e.nilOf(st, x) != 1 {
			c.add(st, "whole-upload", what, site, "the request is put in the queue although reading it may have failed: "+x.String())
		} else {
			c.ok("whole-upload", what)
		}
	}
	delete(st.flags, "errs")
	st.setFlag("sent", "1")
	st.flags["pending"] = reply
	st.note(c.P.pos(site) + " puts the request in the queue")
}

func (c *httpCk) handlerCall(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	name := callee(ci)
	k := -1
	if ci.sig != nil {
		k = errResult(ci.sig)
	}
	if c.storeOp(ci) {
		if k < 0 {
			if name == "Sync" {
				delete(st.flags, "unsynced")
			}
			return nil, false
		}
		a, b := c.split(e, st, ci)
		key := "failed " + name
		delete(a.st.flags, key)
		if name == "Sync" {
			delete(a.st.flags, "unsynced")
		}
		for i := 0; i < ci.sig.Params().Len(); i++ {
			if isData(ci.sig.Params().At(i).Type()) {
				a.st.setFlag("unsynced", "1")
			}
		}
		b.st.setFlag(key, "1")
		b.st.note(c.P.pos(ci.site) + " " + name + " fails")
		c.ok("operation", c.where(ci.site)+": "+name)
		return []Outcome{a, b}, true
	}
	// answers
	recv := ""
	if ci.fn != nil && ci.fn.Signature.Recv() != nil {
		recv = ci.fn.Signature.Recv().Type().String()
	} else if ci.recv != nil && ci.recv.t != nil {
		recv = ci.recv.t.String()
	}
	status := func(v *V, final bool) {
		if st.flag("written") == "" {
			st.flags["status"] = v
		}
		if final {
			st.setFlag("written", "1")
		}
	}
	switch {
	case strings.HasSuffix(recv, "gin.Context"):
		ps := ci.sig.Params()
		if ps.Len() > 0 && ps.At(0).Name() == "code" {
			status(ci.args[1], name != "Status" && name != "AbortWithStatus")
		} else if name == "Stream" {
			status(mkInt(200, types.Typ[types.Int]), true)
			if st.flags["status"] == nil {
				status(mkInt(200, types.Typ[types.Int]), true)
			}
		}
	case ci.name == "net/http.Error":
		status(ci.args[2], true)
	case strings.HasSuffix(recv, "ResponseWriter"):
		switch name {
		case "WriteHeader":
			status(ci.args[1], true)
		case "Write", "WriteString":
			st.setFlag("written", "1")
		}
	}
	if ci.fn != nil && (c.P.inModule(ci.fn) && e.inlinable(ci.fn) || ci.fn.Synthetic != "" && ci.fn.Pkg == nil) {
		return nil, false
	}
	// what is read before a request is put in the queue
	if k >= 0 && st.flag("sent") == "" && !ci.deferd && !strings.HasPrefix(ci.name, "fmt.") && !strings.HasPrefix(ci.name, "log.") {
		switch name {
		case "Close", "Write", "WriteString", "Sync", "Flush", "Error", "New", "Errorf":
			return nil, false
		}
		outs := e.opaque(st, ci)
		for i := range outs {
			x := outs[i].ret[k]
			addFlag(outs[i].st, "errs", x)
		}
		return outs, true
	}
	return nil, false
}

func (c *httpCk) handler(e *Engine, st *State, site ssa.Instruction, f *V) {
	if f.fn == nil || f.fn.Blocks == nil || !c.P.inModule(f.fn) && f.fn.Synthetic == "" || c.cur() != "root" || e.onStack(f.fn) > 0 {
		return
	}
	is := false
	for _, p := range f.fn.Signature.Params().String() {
		_ = p
	}
	for i := 0; i < f.fn.Signature.Params().Len(); i++ {
		t := f.fn.Signature.Params().At(i).Type().String()
		is = is || strings.HasSuffix(t, "gin.Context") || strings.HasSuffix(t, "http.ResponseWriter")
	}
	if !is {
		return
	}
	sub := st.clone()
	for k := range sub.flags {
		if k != "keep" {
			delete(sub.flags, k)
		}
	}
	var args []*V
	for _, p := range f.fn.Params {
		args = append(args, e.Fresh(sub, site, "."+p.Name(), p.Type()))
	}
	c.role = append(c.role, "handler")
	outs := e.invoke(f.fn, sub, args, f.args, site)
	c.role = c.role[:len(c.role)-1]
	what := "handler " + fname(f.fn)
	c.ok("handler", what)
	for _, o := range outs {
		s := o.st
		if s.flags["pending"] != nil {
			c.mayLeave = true
			if c.capOf[s.flags["pending"]] < 1 {
				c.add(s, "answer-received", what, site, "returns without taking the answer to its request, and the channel has no room for it: the worker waits for ever")
			}
		}
		code, known := int64(200), true
		if v := s.flags["status"]; v != nil {
			code, known = v.intConst()
		}
		if known && (code < 200 || code > 299) {
			c.ok("failure-answered", what)
			continue
		}
		for k := range s.flags {
			if strings.HasPrefix(k, "failed ") {
				c.add(s, "success-only", what, site, "answers with success although "+k[7:]+" failed")
			}
		}
		if s.flag("unsynced") != "" {
			c.add(s, "only-durable", what, site, "answers with success before a sync of the store that came after its operation returned")
		}
		if s.flag("sent") != "" {
			err := s.flags["answererr"]
			if s.flag("answered") == "" {
				c.add(s, "success-only", what, site, "answers with success without an answer from the worker")
				continue
			}
			if err != nil && e.nilOf(s, err) != 1 {
				c.add(s, "success-only", what, site, "answers with success although the worker answered with an error")
				continue
			}
		}
		c.ok("success-only", what)
	}
}

func (c *httpCk) spawn(e *Engine, st *State, ci *CallInfo) {
	if ci.fn == nil || ci.fn.Blocks == nil || !c.P.inModule(ci.fn) && ci.fn.Synthetic == "" || c.cur() != "root" {
		return
	}
	sub := st.clone()
	c.role = append(c.role, "goroutine")
	outs := e.invoke(ci.fn, sub, ci.args, ci.binds, ci.site)
	c.role = c.role[:len(c.role)-1]
	for _, o := range outs {
		if o.st.flag("tracked") == "in" {
			c.add(o.st, "answered", "goroutine "+fname(ci.fn), ci.site, "the worker ends with a request that got no answer")
		}
		if o.st.flag("tracked") == "done" {
			c.ok("answered", fname(ci.fn))
		}
	}
}

func (c *httpCk) run(f *ssa.Function) {
	e := NewEngine(c.P)
	e.H.NoInline = func(g *ssa.Function) bool {
		p := g.Package()
		for q := g; p == nil && q != nil; q = q.Parent() {
			p = q.Package()
		}
		if p == nil {
			return false
		}
		if c.inline[p.Pkg.Path()] {
			return false
		}
		if strings.HasSuffix(p.Pkg.Path(), "/lump") {
			has := func(t types.Type) bool { return strings.HasSuffix(t.String(), "lump.LumpId") }
			s := g.Signature
			if s.Recv() != nil {
				return !has(s.Recv().Type())
			}
			return s.Results().Len() != 1 || !has(s.Results().At(0).Type())
		}
		return true
	}
	e.H.Call = c.call
	e.H.Builtin = c.builtin
	e.H.Arrive = c.arrive
	e.H.Index = c.index
	e.H.Cut = c.cut
	e.H.Feasible = c.feasible
	e.H.Block = c.block
	e.H.Forget = func(l loc, t types.Type) bool { return strings.Contains(l.path, "[") && l.base.k != KCell }
	e.H.Case = func(e *Engine, st *State, site *ssa.Select, k int, vals []*V) bool {
		if k < 0 {
			return true
		}
		s := site.States[k]
		ch := e.eval(st, s.Chan)
		if ch.k == KNil || e.nilOf(st, ch) == 1 {
			return false
		}
		if s.Dir == types.SendOnly {
			c.send(e, st, site, ch, e.eval(st, s.Send), s.Send.Type(), site.Blocking && len(site.States) == 1)
		}
		return true
	}
	e.H.Value = func(e *Engine, st *State, i ssa.Value, v *V) {
		if m, ok := i.(*ssa.MakeChan); ok {
			n, _ := e.eval(st, m.Size).intConst()
			c.capOf[v] = n
			if c.cur() == "handler" {
				addFlag(st, "mine", v)
			}
		}
	}
	e.H.Go = func(e *Engine, st *State, ci *CallInfo) { c.spawn(e, st, ci) }
	e.H.Closure = func(e *Engine, st *State, site ssa.Instruction, f *V) { c.handler(e, st, site, f) }
	e.H.Store = func(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
		if v.k == KIface && len(v.args) > 0 {
			v = v.args[0]
		}
		if v.k == KFunc && l.path != "" {
			c.handler(e, st, site, v)
		}
	}
	c.root = fname(f)
	st := newState()
	var args []*V
	for _, p := range f.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	st.flags["keep"] = mkTuple(args...)
	e.Run(f, st, args, nil)
	if c.pass == 2 {
		c.r.Funcs[c.root] = true
		c.r.absorb(e)
	}
}

func init() {
	checks["C21"] = func(P *Program, r *Report) {
		r.Explanation = "typestate analysis over SSA that follows one arbitrary request through the queue, the worker's lists and the store to its answer, and every handler from its start to its return"
		r.Assumptions = []string{"http.Server.Shutdown returns nil only after every handler has ended", "a failing Sync ends the process", "a goroutine that can run is scheduled"}
		// the functions where a queue of requests is made
		makes, starts := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		var elem types.Type
		inline := map[string]bool{P.modPath + "/util": true, P.modPath + "/util/uint128": true}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.MakeChan:
						if isQueue(x.Type()) {
							makes[f] = true
							elem = derefT(chanElem(x.Type()))
							if f.Pkg != nil {
								inline[f.Pkg.Pkg.Path()] = true
							}
						}
					case *ssa.Go:
						starts[f] = true
					}
				}
			}
		}
		m, s := P.reaching(makes), P.reaching(starts)
		var roots []*ssa.Function
		for f := range m {
			if !s[f] || f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			if f.Object() != nil && f.Object().Exported() || f.Name() == "main" {
				roots = append(roots, f)
			}
		}
		sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
		for _, f := range roots {
			if f.Name() == "main" && len(roots) > 1 {
				continue
			}
			r.Counts["services"]++
			c := &httpCk{P: P, r: r, inline: inline, tracked: mkSym("tracked", elem), never: mkSym("context without end", nil), capMin: -1,
				capOf: map[*V]int64{}, listens: map[*V]bool{}, queues: map[*V]bool{}, taken: map[*V]bool{}}
			for c.pass = 1; c.pass <= 2; c.pass++ {
				c.run(f)
			}
			for q := range c.queues {
				if !c.taken[q] {
					r.Add("answered", "queue of "+c.root, P.pos(f), "requests are put in a queue nobody takes them from", nil)
				}
			}
		}
		r.Need("taken-from-queue", 1)
		r.Need("given-to-store", 1)
		r.Need("synced", 1)
		r.Need("answered-once", 1)
		r.Need("only-durable", 1)
		r.Need("own-channel", 1)
		r.Need("answer-taken", 1)
		r.Need("worker-ends-last", 1)
		r.Need("whole-upload", 3)
		r.Need("success-only", 3)
	}
}
