package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// StoreClient follows every operation of the storage API through the index,
// the journal, the allocator and the device, which are abstract objects with
// events. It decides the typestate rules of C04, C06, C07, C08, C09.

type StoreClient struct {
	P    *Program
	e    *Engine
	rep  map[string]*Report
	root string
	cur  *ssa.Function

	tPut, tEmbed, tDel, tRange, tEntry, tDP, tJP types.Type
	fnEnqueue, fnRelease, fnHdrWrite, fnHdrRead  *ssa.Function
	fnRingFlush, fnRingSync, fnReadEmb           *ssa.Function
	fnDeqPop                                     *ssa.Function
	idx                                          map[*ssa.Function]string
	openedKey                                    string
	devErrs                                      map[*ssa.Global]bool // error variables a device may return
	headKey                                      string
	params                                       map[string]*V // of the root, by name
	missing                                      []string
}

func NewStoreClient(P *Program, props ...string) *StoreClient {
	c := &StoreClient{P: P, rep: map[string]*Report{}, idx: map[*ssa.Function]string{}}
	for _, p := range props {
		c.rep[p] = NewReport(p)
	}
	need := func(f *ssa.Function, n string) *ssa.Function {
		if f == nil {
			c.missing = append(c.missing, n)
		}
		return f
	}
	typ := func(n string) types.Type {
		t := P.named(n)
		if t == nil {
			c.missing = append(c.missing, n)
			return types.Typ[types.Invalid]
		}
		return t
	}
	c.tPut, c.tEmbed = typ("storage/journal.PutRecord"), typ("storage/journal.EmbedRecord")
	c.tDel, c.tRange = typ("storage/journal.DeleteRecord"), typ("storage/journal.DeleteRange")
	c.tEntry = typ("storage/journal.JournalEntry")
	c.tDP, c.tJP = typ("portion.DataPortion"), typ("portion.JournalPortion")
	typ("storage.Storage")
	c.fnEnqueue = need(P.method("storage/journal.JournalRingBuffer", "Enqueue"), "JournalRingBuffer.Enqueue")
	c.fnRelease = need(P.method("storage/journal.JournalRingBuffer", "ReleaseBytesUntil"), "JournalRingBuffer.ReleaseBytesUntil")
	c.fnRingFlush = need(P.method("storage/journal.JournalRingBuffer", "Flush"), "JournalRingBuffer.Flush")
	c.fnRingSync = need(P.method("storage/journal.JournalRingBuffer", "Sync"), "JournalRingBuffer.Sync")
	c.fnReadEmb = need(P.method("storage/journal.JournalRingBuffer", "ReadEmbededBuffer"), "JournalRingBuffer.ReadEmbededBuffer")
	c.fnDeqPop = need(P.method("storage/journal.DequeueIter", "PopFront"), "DequeueIter.PopFront")
	c.fnHdrWrite = need(P.method("storage/journal.JournalHeaderRegion", "WriteTo"), "JournalHeaderRegion.WriteTo")
	for _, n := range []string{"Get", "InsertDataPortion", "InsertJournalPortion", "Delete", "DeleteRange", "RangeIter"} {
		if f := need(P.method("lumpindex.LumpIndex", n), "LumpIndex."+n); f != nil {
			c.idx[f] = n
		}
	}
	for _, f := range P.methods("lumpindex.LumpIndex") {
		if _, ok := c.idx[f]; !ok && f != nil {
			c.idx[f] = "read:" + f.Name()
		}
	}
	c.devErrs = P.errsOf("nvm", "block", "util")
	c.openedKey = c.findOpened()
	if c.openedKey == "" {
		c.missing = append(c.missing, "the open/closed flag of Storage")
	}
	c.headKey = "storage/journal.JournalRingBuffer.head"
	return c
}

// findOpened: the bool field of Storage that Close sets to false.
func (c *StoreClient) findOpened() string {
	var visit func(f *ssa.Function, d int) string
	visit = func(f *ssa.Function, d int) string {
		if f == nil || d > 3 {
			return ""
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if k, ok := st.Val.(*ssa.Const); ok && isBool(k.Type()) && k.Value != nil && k.Value.String() == "false" {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							k := staticFieldKey(fa)
							if strings.HasPrefix(k, "storage.Storage.") {
								return k
							}
						}
					}
				}
				if call, ok := ins.(*ssa.Call); ok {
					if g := call.Call.StaticCallee(); g != nil && c.P.inModule(g) && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/storage") {
						if k := visit(g, d+1); k != "" {
							return k
						}
					}
				}
			}
		}
		return ""
	}
	return visit(c.P.method("storage.Storage", "Close"), 0)
}

func staticFieldKey(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n, ok := types.Unalias(pt).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
}

func (c *StoreClient) viol(st *State, prop, rule, what string, site ssa.Instruction) {
	r := c.rep[prop]
	if r == nil {
		return
	}
	pos := "-"
	fn := c.root
	if site != nil {
		pos = c.P.posOf(site.Pos())
		fn = fname(site.Parent())
	}
	r.Add(rule, "entry "+c.root+" in "+fn, pos, what, st.trailMsgs())
}

func (c *StoreClient) ok(prop, rule, sample string) {
	if r := c.rep[prop]; r != nil {
		r.Ok(rule, sample)
	}
}

func (c *StoreClient) at(site ssa.Instruction) string {
	return fmt.Sprintf("%s in %s", c.P.posOf(site.Pos()), fname(site.Parent()))
}

// ---- tokens

func tokKey(prefix string, v *V) string { return prefix + "|" + v.name }

func (c *StoreClient) addTok(st *State, key string, vs ...*V) {
	if old, ok := st.flags[key]; ok {
		st.flags[key+"~"] = old
	}
	st.flags[key] = mkTuple(vs...)
}

func toks(st *State, prefix string) []string {
	var out []string
	for k := range st.flags {
		if strings.HasPrefix(k, prefix+"|") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func dynOf(st *State, v *V) types.Type {
	if v.k == KIface {
		return v.t
	}
	return st.facts[v].dyn
}

// unwrap gives the concrete value of an interface.
func unwrap(st *State, v *V) (types.Type, *V) {
	if v.k == KIface {
		return v.t, v.args[0]
	}
	if d := st.facts[v].dyn; d != nil {
		return d, in.mk(V{k: KAs, args: []*V{v}, t: d})
	}
	return nil, nil
}

func fieldNamed(v *V, name string) *V {
	st := structOf(v.t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fieldOf(v, i)
		}
	}
	return nil
}

func same(a, b types.Type) bool { return a != nil && b != nil && types.Identical(a, b) }

// derives: v is computed from the symbol or value x.
func derives(v, x *V) bool {
	if v == nil || x == nil {
		return false
	}
	if v == x {
		return true
	}
	if x.k == KSym {
		return v.syms[x]
	}
	for _, a := range v.args {
		if derives(a, x) {
			return true
		}
	}
	for _, b := range v.bits {
		if b.src != nil && derives(b.src, x) {
			return true
		}
	}
	return false
}

// ---- analysis of one root

func (c *StoreClient) touch(st *State, what string, site ssa.Instruction) {
	if c.rep["C04"] == nil {
		return
	}
	if st.flag("closed") != "" {
		c.viol(st, "C04", "touch-after-closed", what+" although the store was found closed", site)
		return
	}
	if st.flag("open") == "" {
		c.viol(st, "C04", "touch-unverified", what+" without having seen the store open under a lock that is still held", site)
		return
	}
	c.ok("C04", "touch-verified", what+" at "+c.at(site)+" entry "+c.root)
}

func (c *StoreClient) hooks() Hooks {
	return Hooks{
		Call: c.onCall,
		NoInline: func(fn *ssa.Function) bool {
			if fn.Pkg == nil {
				return false
			}
			p := fn.Pkg.Pkg.Path()
			if p == c.P.modPath+"/nvm" || p == c.P.modPath+"/block" || p == c.P.modPath+"/metrics" {
				return true
			}
			return p == c.P.modPath+"/storage/journal" && ioFunc(fn)
		},
		Sentinel: func(e *Engine, f Fact, g *ssa.Global) bool { return f.tag != "dev" || c.devErrs[g] },
		Assume:   c.onAssume,
		Value:    c.onValue,
		Store:    c.onStore,
		Forget: func(l loc, t types.Type) bool {
			return l.base.k != KCell && isInt(t) && fieldKey(l.base, l.path) != c.headKey
		},
	}
}

// ioFunc: the function encodes or decodes a stream.
func ioFunc(fn *ssa.Function) bool {
	if r := fn.Signature.Recv(); r != nil && strings.HasSuffix(r.Type().String(), "JournalNvmBuffer") {
		return true
	}
	for _, p := range fn.Params {
		switch types.TypeString(p.Type(), nil) {
		case "io.Reader", "io.Writer":
			return true
		}
	}
	return false
}

// errsOf: the error variables a package mentions.
func (P *Program) errsOf(pkgs ...string) map[*ssa.Global]bool {
	m := map[*ssa.Global]bool{}
	for _, f := range P.funcs {
		if f.Pkg == nil {
			continue
		}
		for _, p := range pkgs {
			if f.Pkg.Pkg.Path() != P.modPath+"/"+p {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							m[g] = true
						}
					}
				}
			}
		}
	}
	return m
}

func (c *StoreClient) onValue(e *Engine, st *State, i ssa.Value, v *V) {
	if u, ok := i.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && staticFieldKey(fa) == c.openedKey {
			st.setVal("opV", v)
		}
	}
	// a failed/successful type test is evidence about a token
	if ta, ok := i.(*ssa.TypeAssert); ok && v.k == KTuple {
		if b, ok := v.args[1].boolConst(); ok {
			src := e.eval(st, ta.X)
			c.evidenceType(st, src, ta.AssertedType, b)
		}
	}
}

func (c *StoreClient) onStore(e *Engine, st *State, site ssa.Instruction, l loc, v *V) {
	if fieldKey(l.base, l.path) == c.openedKey {
		st.note(c.at(site) + ": open flag := " + v.String())
		if b, ok := v.boolConst(); ok && !b {
			st.setFlag("closing", "1")
		}
	}
}

func (c *StoreClient) onAssume(e *Engine, st *State, cond *V, truth bool) {
	for cond.k == KUn && cond.name == "!" {
		cond = cond.args[0]
		truth = !truth
	}
	if ov := st.flags["opV"]; ov != nil && ov == cond {
		if truth {
			if h := st.heldAll(); len(h) > 0 {
				st.setFlag("open", strings.Join(h, ","))
			}
		} else if st.flag("closing") == "" {
			st.setFlag("closed", "1")
		}
	}
	// length of the GC queue
	if ql := st.flags["qlen"]; ql != nil && cond.k == KBin {
		if cond.name == "==" && cond.args[0] == ql {
			if n, ok := cond.args[1].intConst(); ok && n == 0 && truth {
				st.setFlag("qempty", "1")
			}
		}
		if cond.name == "<" {
			// 0 < len false, or len < 1 true
			if n, ok := cond.args[0].intConst(); ok && n == 0 && cond.args[1] == ql && !truth {
				st.setFlag("qempty", "1")
			}
			if n, ok := cond.args[1].intConst(); ok && n == 1 && cond.args[0] == ql && truth {
				st.setFlag("qempty", "1")
			}
		}
	}
	c.evidenceCmp(st, cond, truth)
}

// evidenceCmp: comparisons between what the index has and what a queue entry has.
func (c *StoreClient) evidenceCmp(st *State, cond *V, truth bool) {
	if cond.k != KBin || cond.name != "==" {
		return
	}
	for _, ek := range toks(st, "E") {
		et := st.flags[ek]
		e := et.args[0]
		for _, pk := range toks(st, "P") {
			pt := st.flags[pk]
			p := pt.args[0]
			if p.k == KNil || pt.args[2].strConst() != "cur" {
				continue
			}
			a, b := cond.args[0], cond.args[1]
			if derives(a, e) && derives(b, p) {
				a, b = b, a
			}
			if !(derives(a, p) && derives(b, e)) || derives(a, e) || derives(b, p) {
				continue
			}
			// same id?
			r := entryRecord(e, c.tEntry)
			rt, rv := unwrap(st, r)
			if rt == nil {
				continue
			}
			id := fieldNamed(rv, "LumpID")
			if id == nil || pt.args[1] != id {
				continue
			}
			if truth {
				// whole portion, or its start
				whole := a.k == KAs || a == p && b.k == KIface
				if whole || a.k == KField && isStartField(a) {
					st.flags[ek] = mkTuple(e, mkStr("live"))
				}
			} else {
				st.flags[ek] = mkTuple(e, mkStr("garbage"))
				if c.embedStart(st, rt, a, b, e) == 2 {
					st.flags[ek] = mkTuple(e, mkStr("badcmp"))
				}
			}
		}
	}
}

func isStartField(v *V) bool {
	s := structOf(v.args[0].t)
	return s != nil && s.Field(v.idx-1).Name() == "Start"
}

// embedStart: when the start of an embedded portion is compared with the entry,
// the distance has to be the distance at which Enqueue and RestoreIndex place it.
func (c *StoreClient) embedStart(st *State, rt types.Type, a, b, e *V) int { return 0 }

// entryRecord is the record of a queue entry symbol.
func entryRecord(e *V, tEntry types.Type) *V {
	ent := in.mk(V{k: KAs, args: []*V{e}, t: tEntry})
	return fieldNamed(ent, "Record")
}

func (c *StoreClient) evidenceType(st *State, src *V, t types.Type, ok bool) {
	for _, ek := range toks(st, "E") {
		et := st.flags[ek]
		e := et.args[0]
		r := entryRecord(e, c.tEntry)
		if src == r {
			f := st.facts[r]
			if f.dyn != nil {
				if !same(f.dyn, c.tPut) && !same(f.dyn, c.tEmbed) {
					st.flags[ek] = mkTuple(e, mkStr("garbage"))
				}
			} else if strings.Contains(f.notdyn, ";"+tidStr(c.tPut)+";") && strings.Contains(f.notdyn, ";"+tidStr(c.tEmbed)+";") {
				st.flags[ek] = mkTuple(e, mkStr("garbage"))
			}
			continue
		}
		for _, pk := range toks(st, "P") {
			pt := st.flags[pk]
			if pt.args[0] != src || pt.args[2].strConst() != "cur" {
				continue
			}
			rt, rv := unwrap(st, r)
			if rt == nil {
				continue
			}
			id := fieldNamed(rv, "LumpID")
			if id == nil || id != pt.args[1] {
				continue
			}
			want := c.tDP
			if same(rt, c.tEmbed) {
				want = c.tJP
			}
			// the index has another kind of portion for the id of the record
			if same(t, want) && !ok || !same(t, want) && ok && (same(t, c.tDP) || same(t, c.tJP)) {
				st.flags[ek] = mkTuple(e, mkStr("garbage"))
			}
		}
	}
}

func tidStr(t types.Type) string { return fmt.Sprint(in.tid(t)) }

func (c *StoreClient) onCall(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	site := ci.site
	if o, ok := lockHandler(e, st, ci,
		func(rule, msg string) {},
		nil,
		func(o lockOp) {
			st.note(c.at(site) + ": unlock " + o.cls)
			c.unlocked(st, o.cls)
			if st.flags["pend"] != nil {
				c.viol(st, "C06", "unlock-before-apply", "lock "+o.cls+" is released between the journal record and the index update", site)
			}
		}); ok {
		if lo, _ := asLockOp(ci); lo.op == "Lock" || lo.op == "RLock" {
			st.note(c.at(site) + ": " + lo.op + " " + lo.cls)
			c.relocked(st)
		}
		return o, true
	}
	if k, ok := c.idx[ci.fn]; ok && ci.fn != nil {
		return c.indexOp(e, st, ci, k), true
	}
	switch ci.fn {
	case nil:
	case c.fnEnqueue:
		return c.enqueue(e, st, ci), true
	case c.fnRelease:
		c.touch(st, "journal space released", site)
		h := ci.args[1]
		if hv := st.flags["hdr"]; hv == nil || hv != h {
			c.viol(st, "C09", "release-before-header", "journal space before "+h.String()+" is reused without that head being in the journal header", site)
		} else {
			c.ok("C09", "header-before-release", c.at(site)+" entry "+c.root)
		}
		st.setVal("hdr", nil)
		return []Outcome{{st, nil}}, true
	case c.fnRingFlush, c.fnRingSync:
		c.touch(st, "journal flush", site)
		s2 := st.clone()
		s2.note(c.at(site) + ": journal flush fails")
		er := e.newErr(s2, site, ".err")
		st.setFlag("unflushed", "no")
		st.note(c.at(site) + ": journal flushed")
		return []Outcome{{st, []*V{theNil}}, {s2, []*V{er}}}, true
	case c.fnHdrWrite:
		c.touch(st, "journal header written", site)
		h := ci.args[1]
		c.headerWrite(e, st, ci, h)
		s2 := st.clone()
		er := e.newErr(s2, site, ".err")
		st.setVal("hdr", h)
		st.note(c.at(site) + ": header written")
		return []Outcome{{st, []*V{theNil}}, {s2, []*V{er}}}, true
	case c.fnReadEmb:
		c.touch(st, "journal read", site)
		c.readOwned(st, ci.args[1], "embedded data read", site)
		s2 := st.clone()
		er := e.newErr(s2, site, ".err")
		return []Outcome{{st, []*V{theNil}}, {s2, []*V{er}}}, true
	case c.fnDeqPop:
		return c.dequeue(e, st, ci), true
	}
	if strings.HasPrefix(ci.name, "(*github.com/phf/go-queue/queue.Queue).") {
		return c.queueOp(e, st, ci), true
	}
	if strings.HasPrefix(ci.name, "invoke storage/allocator.DataPortionAlloc.") || c.isAllocMethod(ci.fn) {
		return c.allocOp(e, st, ci)
	}
	if strings.HasPrefix(ci.name, "invoke nvm.NonVolatileMemory.") || ci.name == "invoke io.ReaderAt.ReadAt" || ci.name == "invoke io.WriterAt.WriteAt" {
		return c.nvmOp(e, st, ci)
	}
	if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == c.P.modPath+"/nvm" {
		if rv := ci.fn.Signature.Recv(); rv != nil && strings.Contains(rv.Type().String(), "SnapNVM") {
			n := ci.fn.Name()
			if n != "BlockSize" && n != "Capacity" && n != "Position" {
				c.touch(st, "device operation "+n, site)
			}
			return c.forkErr(e, st, ci), true
		}
	}
	return nil, false
}

func (c *StoreClient) isAllocMethod(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != c.P.modPath+"/storage/allocator" {
		return false
	}
	return strings.HasSuffix(f.Signature.Recv().Type().String(), "DataPortionAlloc") || strings.HasSuffix(f.Signature.Recv().Type().String(), "JudyPortionAlloc")
}

// forkErr returns one outcome without error and one with.
func (c *StoreClient) forkErr(e *Engine, st *State, ci *CallInfo) []Outcome {
	rs := ci.sig.Results()
	if rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
		return []Outcome{{st, e.freshResults(st, ci)}}
	}
	s2 := st.clone()
	r1 := e.freshResults(st, ci)
	r1[len(r1)-1] = theNil
	r2 := e.freshResults(s2, ci)
	er := r2[len(r2)-1]
	f := s2.facts[er]
	f.nilness = 2
	if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == c.P.modPath+"/nvm" || strings.HasPrefix(ci.name, "invoke nvm.") {
		f.tag = "dev"
	}
	s2.facts[er] = f
	return []Outcome{{st, r1}, {s2, r2}}
}

func (c *StoreClient) unlocked(st *State, cls string) {
	drop := func(set string) string {
		var l []string
		for _, x := range strings.Split(set, ",") {
			if x != cls && x != "" {
				l = append(l, x)
			}
		}
		return strings.Join(l, ",")
	}
	st.setFlag("open", drop(st.flag("open")))
	if st.flag("open") == "" {
		st.setVal("opV", nil)
	}
	for _, k := range toks(st, "P") {
		t := st.flags[k]
		s := t.args[2].strConst()
		if s == "cur" || s == "missing" || s == "inrange" {
			l := drop(t.args[3].strConst())
			if l == "" {
				delete(st.flags, k)
			} else {
				st.flags[k] = mkTuple(t.args[0], t.args[1], t.args[2], mkStr(l))
			}
		}
	}
	if r := st.flags["range"]; r != nil {
		l := drop(r.args[2].strConst())
		if l == "" {
			delete(st.flags, "range")
		} else {
			st.flags["range"] = mkTuple(r.args[0], r.args[1], mkStr(l))
		}
	}
	if cls == "storage.Storage.jr" || strings.HasPrefix(cls, "storage.Storage.") && st.held("storage.Storage.jr") == "" {
		delete(st.flags, "qempty")
		delete(st.flags, "qlen")
	}
}

func (c *StoreClient) relocked(st *State) {}

func (c *StoreClient) isGC(st *State, rec *V) string {
	for _, k := range toks(st, "E") {
		if derives(rec, st.flags[k].args[0]) {
			return k
		}
	}
	return ""
}

func recName(t types.Type) string {
	if t == nil {
		return "unknown record"
	}
	s := t.String()
	return s[strings.LastIndex(s, ".")+1:]
}

func (c *StoreClient) enqueue(e *Engine, st *State, ci *CallInfo) []Outcome {
	site := ci.site
	c.touch(st, "journal append", site)
	rec := ci.args[1]
	rt, rv := unwrap(st, rec)
	if st.flags["pend"] != nil {
		c.viol(st, "C06", "append-before-apply", "a record is appended while the record before it is not applied to the index", site)
	}
	gc := c.isGC(st, rec)
	// failure
	s2 := st.clone()
	rr := e.freshResults(s2, ci)
	er := rr[1]
	f := s2.facts[er]
	f.nilness = 2
	s2.facts[er] = f
	if gc == "" {
		s2.setFlag("failed", "1")
	}
	s2.note(c.at(site) + ": append of " + recName(rt) + " fails")
	// success
	st.note(c.at(site) + ": append of " + recName(rt) + " succeeds")
	r1 := e.freshResults(st, ci)
	j := r1[0]
	st.setVal("pend", rec)
	st.setVal("pendJ", j)
	st.setFlag("unflushed", "")
	if gc == "" {
		switch st.flag("user") {
		case "":
			st.setFlag("user", "1")
		case "1":
			st.setFlag("user", "2")
		}
		c.userRecord(st, ci, rt, rv)
	} else {
		t := st.flags[gc]
		if t.args[1].strConst() != "live" {
			c.viol(st, "C09", "stale-record-moved", "journal GC appends a record again without having found it in the index (status "+t.args[1].strConst()+")", site)
		} else {
			c.ok("C09", "live-record-moved", c.at(site)+" entry "+c.root)
		}
		st.flags[gc] = mkTuple(t.args[0], mkStr("moved"))
	}
	if rt != nil && same(rt, c.tPut) && gc == "" {
		c.putRecord(st, ci, rv)
	}
	return []Outcome{{st, []*V{j, theNil}}, {s2, rr}}
}

// userRecord compares the record with the request of the API call.
func (c *StoreClient) userRecord(st *State, ci *CallInfo, rt types.Type, rv *V) {
	want := map[string]types.Type{"Put": c.tPut, "PutEmbed": c.tEmbed, "Delete": c.tDel, "DeleteRange": c.tRange, "PutWithOffset": c.tPut, "WriteRecord": c.tPut}[c.root]
	if want == nil {
		c.viol(st, "C06", "foreign-record", "this operation appends a record of its own ("+recName(rt)+")", ci.site)
		return
	}
	if rt == nil {
		c.viol(st, "C06", "unknown-record", "the kind of the appended record is not known", ci.site)
		return
	}
	// in-place replacement appends a delete record first
	if same(rt, c.tDel) && want == c.tPut && st.flag("full") != "" {
		if fieldNamed(rv, "LumpID") == c.params["id"] {
			return
		}
	}
	if !same(rt, want) {
		c.viol(st, "C06", "wrong-record", "the operation appends "+recName(rt), ci.site)
		return
	}
	bad := ""
	check := func(field, param string) {
		if p := c.params[param]; p != nil && fieldNamed(rv, field) != p {
			bad = field
		}
	}
	switch c.root {
	case "DeleteRange":
		check("Start", "start")
		check("End", "end")
	case "PutEmbed":
		check("LumpID", "id")
		check("Data", "data")
	case "WriteRecord":
		check("LumpID", "id")
		check("DataPortion", "portion")
	default:
		check("LumpID", "id")
	}
	if bad != "" {
		c.viol(st, "C06", "wrong-record-field", "field "+bad+" of the record is not the argument of the call", ci.site)
		return
	}
	c.ok("C06", "record-is-request", c.root+" appends "+recName(rt)+" at "+c.at(ci.site))
}

// putRecord: C08, the data is on the device before a record refers to it.
func (c *StoreClient) putRecord(st *State, ci *CallInfo, rv *V) {
	dp := fieldNamed(rv, "DataPortion")
	if c.root == "WriteRecord" {
		return
	}
	for _, k := range toks(st, "A") {
		t := st.flags[k]
		if t.args[0] == dp {
			if t.args[1].strConst() != "written" {
				c.viol(st, "C08", "record-before-data", "the record refers to space whose data is not written (status "+t.args[1].strConst()+")", ci.site)
			} else {
				c.ok("C08", "data-before-record", c.root+" at "+c.at(ci.site))
			}
			st.flags[k] = mkTuple(t.args[0], mkStr("live"))
			return
		}
	}
	c.viol(st, "C08", "record-of-foreign-space", "the record refers to space "+dp.String()+" which this operation did not allocate and write", ci.site)
}

func (c *StoreClient) headerWrite(e *Engine, st *State, ci *CallInfo, h *V) {
	if st.flag("unflushed") != "no" {
		c.viol(st, "C09", "header-before-flush", "the journal header is updated while records are only in the write buffer", ci.site)
	} else {
		c.ok("C09", "flush-before-header", c.at(ci.site)+" entry "+c.root)
	}
	if st.flag("qempty") == "" {
		c.viol(st, "C09", "head-past-queue", "the journal head is advanced although records may be left in the GC queue", ci.site)
	} else {
		c.ok("C09", "queue-empty-before-header", c.at(ci.site)+" entry "+c.root)
	}
	for _, k := range append(toks(st, "E"), toks(st, "D")...) {
		s := st.flags[k].args[1].strConst()
		if s == "popped" || s == "live" || s == "dequeued" {
			c.viol(st, "C09", "head-past-live-record", "the journal head is advanced past a record that is not moved", ci.site)
		}
	}
	// the head has to be the position up to which records were taken out
	okHead := false
	for l, v := range st.heap {
		if fieldKey(l.base, l.path) == c.headKey && v == h {
			okHead = true
		}
	}
	if !okHead {
		c.viol(st, "C09", "wrong-head", "the head written is not the position up to which records were taken out of the journal", ci.site)
	}
}

func (c *StoreClient) dequeue(e *Engine, st *State, ci *CallInfo) []Outcome {
	site := ci.site
	for _, k := range toks(st, "D") {
		if st.flags[k].args[1].strConst() == "dequeued" {
			c.viol(st, "C09", "dequeued-lost", "a record taken out of the journal is not put into the GC queue", site)
		}
		delete(st.flags, k)
	}
	// the head moves
	for l := range st.heap {
		if fieldKey(l.base, l.path) == c.headKey {
			delete(st.heap, l)
		}
	}
	st.epoch = true
	// no entries
	s1 := st.clone()
	r := e.freshResults(s1, ci)
	g := c.P.global("internalerror.NoEntries")
	if g != nil {
		gv := e.loadLoc(s1, site, in.mk(V{k: KGlobal, g: g, t: g.Type()}), "", g.Type().(*types.Pointer).Elem())
		r[1] = gv
	}
	// error
	s2 := st.clone()
	r2 := e.freshResults(s2, ci)
	r2[1] = e.newErr(s2, site, ".err")
	// entry
	st.setFlag("qempty", "")
	r3 := e.freshResults(st, ci)
	c.addTok(st, tokKey("D", r3[0]), r3[0], mkStr("dequeued"))
	st.note(c.at(site) + ": a record is taken out of the journal")
	return []Outcome{{s1, r}, {s2, r2}, {st, []*V{r3[0], theNil}}}
}

func (c *StoreClient) dropPopped(st *State, site ssa.Instruction, when string) {
	for _, k := range toks(st, "E") {
		t := st.flags[k]
		switch t.args[1].strConst() {
		case "garbage", "moved":
			c.ok("C09", "popped-record-accounted", "entry "+c.root)
		default:
			c.viol(st, "C09", "live-record-dropped", "a record taken from the GC queue is neither appended again, nor put back, nor shown to be garbage ("+when+")", site)
		}
		c.dropEntry(st, k)
	}
}

// dropEntry forgets a queue entry and what was looked up for it.
func (c *StoreClient) dropEntry(st *State, k string) {
	e := st.flags[k].args[0]
	delete(st.flags, k)
	for _, pk := range toks(st, "P") {
		t := st.flags[pk]
		if s := t.args[2].strConst(); (s == "cur" || s == "missing") && derives(t.args[1], e) {
			delete(st.flags, pk)
		}
	}
}

func (c *StoreClient) queueOp(e *Engine, st *State, ci *CallInfo) []Outcome {
	site := ci.site
	n := ci.name[strings.LastIndex(ci.name, ".")+1:]
	switch n {
	case "Len":
		if st.flag("qempty") != "" {
			return []Outcome{{st, []*V{mkInt(0, types.Typ[types.Int])}}}
		}
		if ql := st.flags["qlen"]; ql != nil {
			return []Outcome{{st, []*V{ql}}}
		}
		v := e.Fresh(st, site, ".len", types.Typ[types.Int])
		st.setVal("qlen", v)
		return []Outcome{{st, []*V{v}}}
	case "PopFront", "PopBack":
		c.touch(st, "GC queue", site)
		c.dropPopped(st, site, "next record is taken")
		if st.flags["pend"] != nil {
			c.viol(st, "C06", "gc-before-apply", "journal GC takes a record while an appended record is not applied to the index", site)
		}
		s1 := st.clone()
		s1.setFlag("qempty", "1")
		s1.setVal("qlen", nil)
		s1.note(c.at(site) + ": GC queue is empty")
		if st.flag("qempty") != "" {
			return []Outcome{{s1, []*V{theNil}}}
		}
		st.setVal("qlen", nil)
		v := e.Fresh(st, site, ".e", ci.sig.Results().At(0).Type())
		st.facts[v] = Fact{nilness: 2, dyn: c.tEntry}
		c.addTok(st, tokKey("E", v), v, mkStr("popped"))
		st.note(c.at(site) + ": a record is popped from the GC queue")
		return []Outcome{{s1, []*V{theNil}}, {st, []*V{v}}}
	case "PushFront", "PushBack":
		c.touch(st, "GC queue", site)
		st.setVal("qlen", nil)
		st.setFlag("qempty", "")
		for _, k := range append(toks(st, "E"), toks(st, "D")...) {
			t := st.flags[k]
			if derives(ci.args[1], t.args[0]) {
				if s := t.args[1].strConst(); strings.HasPrefix(k, "E") && s == "moved" {
					c.viol(st, "C09", "moved-record-requeued", "a record that was appended again is put back into the GC queue", site)
				}
				if strings.HasPrefix(k, "E") && n == "PushBack" {
					// order among queue entries does not matter for liveness
				}
				if strings.HasPrefix(k, "E") {
					c.dropEntry(st, k)
				} else {
					delete(st.flags, k)
				}
			}
		}
		return []Outcome{{st, e.freshResults(st, ci)}}
	case "Front", "Back":
		return []Outcome{{st, e.freshResults(st, ci)}}
	case "Init":
		return []Outcome{{st, e.freshResults(st, ci)}}
	}
	return []Outcome{{st, e.freshResults(st, ci)}}
}

func (c *StoreClient) allocOp(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	site := ci.site
	n := ci.name[strings.LastIndex(ci.name, ".")+1:]
	switch n {
	case "Allocate":
		c.touch(st, "space allocated", site)
		s2 := st.clone()
		r2 := e.freshResults(s2, ci)
		f := s2.facts[r2[1]]
		f.nilness = 2
		s2.facts[r2[1]] = f
		s2.setFlag("full", "1")
		s2.note(c.at(site) + ": no space")
		r1 := e.freshResults(st, ci)
		c.addTok(st, tokKey("A", r1[0]), r1[0], mkStr("alloc"))
		st.note(c.at(site) + ": space allocated")
		return []Outcome{{st, []*V{r1[0], theNil}}, {s2, r2}}, true
	case "Release":
		c.touch(st, "space released", site)
		c.release(st, ci.args[1], site)
		return []Outcome{{st, nil}}, true
	case "FreeCount", "MaxSegmentSize", "MemoryUsed":
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	default:
		c.touch(st, "allocator "+n, site)
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
}

func (c *StoreClient) release(st *State, q *V, site ssa.Instruction) {
	st.note(c.at(site) + ": release " + q.String())
	for _, k := range toks(st, "A") {
		t := st.flags[k]
		if t.args[0] == q {
			switch t.args[1].strConst() {
			case "alloc", "written":
				st.flags[k] = mkTuple(q, mkStr("released"))
				c.ok("C07", "failed-put-releases", c.root+" at "+c.at(site))
			case "released":
				c.viol(st, "C07", "double-release", "space is released twice", site)
			default:
				c.viol(st, "C07", "release-live", "space which a journaled record refers to is released", site)
			}
			return
		}
	}
	for _, k := range toks(st, "P") {
		t := st.flags[k]
		p := t.args[0]
		if q.k == KAs && q.args[0] == p || q == p {
			switch t.args[2].strConst() {
			case "unref":
				st.flags[k] = mkTuple(p, t.args[1], mkStr("released"), t.args[3])
				c.ok("C07", "unreferenced-space-released", c.root+" at "+c.at(site))
			case "released":
				c.viol(st, "C07", "double-release", "space is released twice", site)
			default:
				c.viol(st, "C07", "release-live", "space is released while the index still refers to it", site)
			}
			return
		}
	}
	c.viol(st, "C07", "release-unknown", "space is released that this operation neither allocated nor removed from the index", site)
}

func (c *StoreClient) readOwned(st *State, off *V, what string, site ssa.Instruction) {
	for _, k := range toks(st, "P") {
		t := st.flags[k]
		if t.args[0].k == KSym && derives(off, t.args[0]) {
			if s := t.args[2].strConst(); s == "cur" || s == "inrange" {
				c.ok("C07", "read-under-lock", what+" at "+c.at(site)+" entry "+c.root)
				return
			}
		}
	}
	c.viol(st, "C07", "read-of-reusable-space", what+": the space read is not (any more) the space the index gives for the lump under the lock", site)
}

func (c *StoreClient) nvmOp(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	site := ci.site
	n := ci.name[strings.LastIndex(ci.name, ".")+1:]
	switch n {
	case "BlockSize", "Capacity", "Position", "RawSize":
		return nil, false
	}
	c.touch(st, "device "+n, site)
	switch n {
	case "WriteAt":
		off := ci.args[len(ci.args)-1]
		s2 := st.clone()
		r2 := e.freshResults(s2, ci)
		f := s2.facts[r2[1]]
		f.nilness = 2
		f.tag = "dev"
		s2.facts[r2[1]] = f
		s2.note(c.at(site) + ": device write fails")
		found := false
		for _, k := range toks(st, "A") {
			t := st.flags[k]
			if derives(off, t.args[0]) {
				found = true
				if s := t.args[1].strConst(); s == "alloc" || s == "written" {
					st.flags[k] = mkTuple(t.args[0], mkStr("written"))
				} else {
					c.viol(st, "C07", "write-of-foreign-space", "data is written to space in status "+s, site)
				}
			}
		}
		for _, k := range toks(st, "P") {
			t := st.flags[k]
			if !found && t.args[0].k == KSym && derives(off, t.args[0]) && t.args[2].strConst() == "cur" {
				found = true
				if len(st.heldAll()) == 0 || !strings.Contains(c.heldModes(st), "W") {
					c.viol(st, "C07", "update-shared", "a lump is changed in place without exclusive lock", site)
				}
				st.setFlag("updated", "1")
			}
		}
		if !found {
			c.viol(st, "C07", "write-of-foreign-space", "data is written to space that was not allocated for it", site)
		} else {
			c.ok("C07", "write-owned-space", c.at(site)+" entry "+c.root)
		}
		st.note(c.at(site) + ": data written")
		r1 := e.freshResults(st, ci)
		r1[1] = theNil
		return []Outcome{{st, r1}, {s2, r2}}, true
	case "ReadAt":
		c.readOwned(st, ci.args[len(ci.args)-1], "lump data read", site)
	}
	return c.forkErr(e, st, ci), true
}

func (c *StoreClient) heldModes(st *State) string {
	s := ""
	for _, k := range st.heldAll() {
		s += st.held(k)
	}
	return s
}

func (c *StoreClient) indexOp(e *Engine, st *State, ci *CallInfo, k string) []Outcome {
	site := ci.site
	if strings.HasPrefix(k, "read:") {
		n := k[5:]
		if n != "Count" && n != "MemoryUsed" {
			c.touch(st, "index "+n, site)
		}
		return c.forkErr(e, st, ci)
	}
	c.touch(st, "index "+k, site)
	locks := strings.Join(st.heldAll(), ",")
	switch k {
	case "Get":
		id := ci.args[1]
		// known already?
		s2 := st.clone()
		er := e.newErr(s2, site, ".err")
		dropID := func(s *State) {
			for _, pk := range toks(s, "P") {
				t := s.flags[pk]
				if x := t.args[2].strConst(); t.args[1] == id && (x == "cur" || x == "missing") {
					delete(s.flags, pk)
				}
			}
		}
		for _, pk := range toks(st, "P") {
			t := st.flags[pk]
			if t.args[1] == id {
				switch t.args[2].strConst() {
				case "missing":
					return []Outcome{{s2, []*V{theNil, er}}}
				case "cur":
					if t.args[0].k == KSym {
						return []Outcome{{st, []*V{t.args[0], theNil}}}
					}
				}
			}
		}
		dropID(s2)
		if locks != "" {
			c.addTok(s2, "P|missing "+c.e.ctxName()+c.e.label(site), theNil, id, mkStr("missing"), mkStr(locks))
		}
		s2.note(c.at(site) + ": index has no such lump")
		c.missingEvidence(s2, id)
		dropID(st)
		rs := e.freshResults(st, ci)
		p := rs[0]
		f := st.facts[p]
		f.nilness = 2
		st.facts[p] = f
		if locks != "" {
			c.addTok(st, tokKey("P", p), p, id, mkStr("cur"), mkStr(locks))
		}
		st.note(c.at(site) + ": index has the lump")
		return []Outcome{{st, []*V{p, theNil}}, {s2, []*V{theNil, er}}}
	case "RangeIter":
		return c.rangeIter(e, st, ci, locks)
	}
	// mutators
	st.setFlag("dirtyIdx", "1")
	st.note(c.at(site) + ": index " + k)
	pend := st.flags["pend"]
	gcMoved := false
	if pend == nil {
		c.viol(st, "C06", "index-without-record", "the index is changed ("+k+") without a journal record for it", site)
	} else {
		rt, rv := unwrap(st, pend)
		bad := ""
		eq := func(f string, i int) {
			if rt == nil {
				return
			}
			if x := fieldNamed(rv, f); x != ci.args[i] {
				bad = f
			}
		}
		var want types.Type
		switch k {
		case "InsertDataPortion":
			want = c.tPut
			if same(rt, want) {
				eq("LumpID", 1)
				eq("DataPortion", 2)
			}
		case "InsertJournalPortion":
			want = c.tEmbed
			if same(rt, want) {
				eq("LumpID", 1)
				if ci.args[2] != st.flags["pendJ"] {
					bad = "position"
				}
			}
		case "Delete":
			want = c.tDel
			if same(rt, want) {
				eq("LumpID", 1)
			}
		case "DeleteRange":
			want = c.tRange
			if same(rt, want) {
				eq("Start", 1)
				eq("End", 2)
			}
		}
		if !same(rt, want) {
			c.viol(st, "C06", "index-differs-from-record", "index "+k+" is not what the appended "+recName(rt)+" says", site)
		} else if bad != "" {
			c.viol(st, "C06", "index-differs-from-record", "index "+k+": "+bad+" differs from the appended record", site)
		} else {
			c.ok("C06", "index-follows-record", k+" at "+c.at(site)+" entry "+c.root)
		}
		for _, ek := range toks(st, "E") {
			if derives(pend, st.flags[ek].args[0]) && st.flags[ek].args[1].strConst() == "moved" {
				gcMoved = true
			}
		}
		st.setVal("pend", nil)
		st.setVal("pendJ", nil)
	}
	// what the id referred to before
	if k == "DeleteRange" {
		r := st.flags["range"]
		if r == nil || r.args[0] != ci.args[1] || r.args[1] != ci.args[2] {
			c.viol(st, "C07", "range-space-lost", "lumps are removed from the index without having collected the space of all of them", site)
		}
		for _, pk := range toks(st, "P") {
			t := st.flags[pk]
			if t.args[2].strConst() == "inrange" {
				st.flags[pk] = mkTuple(t.args[0], t.args[1], mkStr("unref"), mkStr(""))
			}
		}
		delete(st.flags, "range")
		return []Outcome{{st, e.freshResults(st, ci)}}
	}
	id := ci.args[1]
	knownID := false
	for _, pk := range toks(st, "P") {
		t := st.flags[pk]
		if t.args[1] != id {
			continue
		}
		switch t.args[2].strConst() {
		case "cur":
			knownID = true
			if gcMoved {
				// the record is the one the index refers to: nothing is replaced;
				// an embedded lump has its new position now
				if k == "InsertJournalPortion" {
					delete(st.flags, pk)
				}
			} else {
				st.flags[pk] = mkTuple(t.args[0], id, mkStr("unref"), mkStr(""))
			}
		case "missing":
			knownID = true
			delete(st.flags, pk)
		}
	}
	if !knownID && c.root != "WriteRecord" {
		c.viol(st, "C07", "replaced-space-lost", "index "+k+" without having looked up, under the same lock, what the lump occupied before", site)
	}
	if !gcMoved {
		nk := "P|new " + c.e.ctxName() + c.e.label(site)
		if k == "Delete" {
			c.addTok(st, nk, theNil, id, mkStr("missing"), mkStr(locks))
		} else {
			c.addTok(st, nk, mkIface(c.tDP, ci.args[2]), id, mkStr("cur"), mkStr(locks))
		}
	}
	return []Outcome{{st, e.freshResults(st, ci)}}
}

// missingEvidence: the id of a popped record is not in the index.
func (c *StoreClient) missingEvidence(st *State, id *V) {
	for _, ek := range toks(st, "E") {
		e := st.flags[ek].args[0]
		rt, rv := unwrap(st, entryRecord(e, c.tEntry))
		if rt == nil {
			continue
		}
		if x := fieldNamed(rv, "LumpID"); x != nil && x == id {
			st.flags[ek] = mkTuple(e, mkStr("garbage"))
		}
	}
}

// rangeIter runs the callback for none, one and two lumps of the range.
func (c *StoreClient) rangeIter(e *Engine, st *State, ci *CallInfo, locks string) []Outcome {
	site := ci.site
	cb := ci.args[3]
	var outs []Outcome
	done := func(s *State) {
		if locks != "" {
			s.flags["range"] = mkTuple(ci.args[1], ci.args[2], mkStr(locks))
		}
		outs = append(outs, Outcome{s, []*V{theNil}})
	}
	done(st.clone())
	cur := []*State{st}
	for n := 0; n < 2; n++ {
		var next []*State
		for _, s := range cur {
			id := e.Fresh(s, site, fmt.Sprintf(".id%d", n), nil)
			p := e.Fresh(s, site, fmt.Sprintf(".p%d", n), nil)
			f := s.facts[p]
			f.nilness = 2
			s.facts[p] = f
			c.addTok(s, tokKey("P", p), p, id, mkStr("inrange"), mkStr(locks))
			if cb.k != KFunc {
				c.viol(s, "C07", "unknown-callback", "the callback over the range is not known", site)
				continue
			}
			for _, o := range e.invoke(cb.fn, s, []*V{id, p}, cb.args, site) {
				if len(o.ret) == 0 || e.nilOf(o.st, o.ret[0]) == 1 {
					next = append(next, o.st)
				} else {
					outs = append(outs, Outcome{o.st, []*V{o.ret[0]}})
					if e.nilOf(o.st, o.ret[0]) == 0 {
						next = append(next, o.st.clone())
					}
				}
			}
		}
		for _, s := range next {
			done(s.clone())
		}
		cur = next
	}
	return outs
}

// ---- roots

func (P *Program) global(rel string) *ssa.Global {
	i := strings.LastIndex(rel, ".")
	p := P.pkg(rel[:i])
	if p == nil {
		return nil
	}
	g, _ := p.Members[rel[i+1:]].(*ssa.Global)
	return g
}

func (c *StoreClient) Run() {
	for _, r := range c.rep {
		r.Explanation = "every exported operation of the store is interpreted abstractly on its SSA form, calls inlined; every device, allocator, index and journal call forks into its outcomes; obligations are the events (record appended, index changed, space taken or given back, device access, journal entry taken or dropped, lock, return) at which the typestate rule of this property was decided"
		r.Assumptions = []string{"device interface and Judy library behave as documented", "a panic ends the operation", "other goroutines change shared memory only when a lock is acquired (C03)"}
	}
	for _, m := range c.missing {
		for _, r := range c.rep {
			r.Add("unresolved-anchor", m, "-", m+" was not found in the code: the property cannot be decided", nil)
		}
	}
	if len(c.missing) > 0 {
		return
	}
	for _, f := range c.P.methods("storage.Storage") {
		if x := os.Getenv("CHK_ROOT"); x != "" && f.Name() != x {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		c.runRoot(f)
	}
}

func (c *StoreClient) runRoot(f *ssa.Function) {
	e := NewEngine(c.P)
	e.H = c.hooks()
	c.e = e
	c.root = f.Name()
	st := newState()
	var args []*V
	c.params = map[string]*V{}
	nid := 0
	for i, p := range f.Params {
		v := mkSym("arg."+p.Name(), p.Type())
		args = append(args, v)
		if i == 0 {
			v = mkSym("store", p.Type())
			args[0] = v
			st.facts[v] = Fact{nilness: 2}
			continue
		}
		switch {
		case strings.HasSuffix(p.Type().String(), "lump.LumpId"):
			nid++
			if nid == 1 {
				c.params["id"], c.params["start"] = v, v
			} else {
				c.params["end"] = v
			}
		case types.TypeString(p.Type(), nil) == "[]byte":
			c.params["data"] = v
		case same(p.Type(), c.tDP):
			c.params["portion"] = v
		}
	}
	t0 := time.Now()
	outs := e.Run(f, st, args, nil)
	if os.Getenv("CHK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d outs, %d states %d calls %v\n", f.Name(), len(outs), e.nStates, e.nCalls, time.Since(t0))
	}
	for _, o := range outs {
		c.atReturn(f, o)
	}
	for _, r := range c.rep {
		r.absorb(e)
		r.Counts["api_operations"]++
	}
	if len(outs) == 0 {
		for _, r := range c.rep {
			r.Add("no-return", fname(f), "-", "no path to a return was found", nil)
		}
	}
}

func (c *StoreClient) atReturn(f *ssa.Function, o Outcome) {
	st := o.st
	var site ssa.Instruction
	rs := f.Signature.Results()
	hasErr := rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type())
	errNil := int8(1)
	if hasErr {
		errNil = c.e.nilOf(st, o.ret[len(o.ret)-1])
	}
	fail := func(prop, rule, msg string) { c.viol(st, prop, rule, msg, site) }
	if st.flag("closed") != "" {
		if hasErr && errNil != 2 {
			fail("C04", "closed-without-error", "the operation on a closed store may return without error")
		} else {
			c.ok("C04", "closed-path", c.root)
		}
	}
	if st.flags["pend"] != nil {
		fail("C06", "record-not-applied", "the operation returns although the appended record is not applied to the index")
	}
	switch c.root {
	case "Put", "PutEmbed", "DeleteRange", "WriteRecord", "Delete", "PutWithOffset":
		done := st.flag("user")
		switch {
		case errNil != 2:
			okk := done == "1"
			if done == "2" && st.flag("full") != "" {
				okk = true
			}
			if c.root == "PutWithOffset" && done == "" && st.flag("updated") != "" {
				okk = true
			}
			if c.root == "Delete" && done == "" {
				// only if the lump does not exist
				if b, k := o.ret[0].boolConst(); k && !b && st.flag("sawmissing") != "" {
					okk = true
				}
				for _, pk := range toks(st, "P") {
					_ = pk
				}
				if b, k := o.ret[0].boolConst(); k && !b && c.trailHas(st, "index has no such lump") {
					okk = true
				}
			}
			if !okk {
				fail("C06", "success-without-record", fmt.Sprintf("success is returned with %q user records in the journal", done))
			} else {
				c.ok("C06", "success-with-record", c.root)
			}
			if st.flag("failed") != "" {
				fail("C06", "append-failure-hidden", "success is returned although the journal append failed")
			}
		}
		if errNil != 1 && st.flag("dirtyIdx") != "" && st.flag("full") == "" && done != "" && errNil == 2 {
			fail("C06", "failure-with-effect", "an error is returned although the record is in the journal and the index")
		}
		if errNil == 2 {
			c.ok("C06", "failure-without-effect", c.root)
		}
	}
	for _, k := range toks(st, "A") {
		t := st.flags[k]
		switch s := t.args[1].strConst(); s {
		case "alloc", "written":
			if st.flag("closed") != "" {
				continue // the allocator is gone
			}
			fail("C07", "space-leaked", "space allocated by the operation is neither referred to by a record nor released ("+s+")")
		default:
			c.ok("C07", "allocation-accounted", c.root)
		}
	}
	for _, k := range toks(st, "P") {
		t := st.flags[k]
		if t.args[2].strConst() != "unref" {
			continue
		}
		p := t.args[0]
		if d := dynOf(st, p); d != nil && same(d, c.tJP) {
			continue
		}
		if strings.Contains(st.facts[p].notdyn, ";"+tidStr(c.tDP)+";") {
			continue
		}
		fail("C07", "old-space-leaked", "the space of a lump removed from the index is not released")
	}
	c.dropPopped(st, nil, "the operation returns")
	for _, k := range toks(st, "D") {
		if st.flags[k].args[1].strConst() == "dequeued" {
			fail("C09", "dequeued-lost", "a record taken out of the journal is not put into the GC queue")
		}
	}
}

func (c *StoreClient) trailHas(st *State, s string) bool {
	for t := st.trail; t != nil; t = t.prev {
		if strings.Contains(t.msg, s) {
			return true
		}
	}
	return false
}
