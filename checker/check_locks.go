package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockRoots: what callers may call, with what is known about the receiver.
func (ls *Lockset) rootArgs(f *ssa.Function) []string {
	var as []string
	for i := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			as = append(as, "root")
		} else {
			as = append(as, "arg")
		}
	}
	return as
}

func init() {
	checks["C03"] = checkRaces
	checks["C02"] = checkDeadlock
}

func (P *Program) exportedMethods(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.methods(rel) {
		if f != nil && f.Blocks != nil && f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return out
}

func protects(a, b string) bool {
	ma, mb := heldMap(a), heldMap(b)
	for l, m := range ma {
		if m2, ok := mb[l]; ok && (m == "W" || m2 == "W") {
			return true
		}
	}
	return false
}

func checkRaces(P *Program, r *Report) {
	ls := NewLockset(P)
	type rootAcc struct {
		root string
		a    access
	}
	all := map[string][]rootAcc{}
	add := func(root string, res *lsResult) {
		for a := range res.acc {
			if strings.Contains(a.class, "nvm.SnapshotReader.") { // one reader, one goroutine
				continue
			}
			all[a.class] = append(all[a.class], rootAcc{root, a})
		}
		r.Counts["entry_points"]++
	}
	n := 0
	for _, typ := range []string{"storage.Storage", "nvm.SnapNVM", "nvm.SnapshotReader"} {
		ms := P.exportedMethods(typ)
		if len(ms) == 0 {
			r.Add("unresolved-anchor", typ, "-", "no exported methods found", nil)
		}
		for _, f := range ms {
			switch f.Name() {
			case "Lock", "Unlock", "RLock", "RUnlock":
				continue // lock helpers
			}
			res := ls.Analyze(f, "", ls.rootArgs(f), nil)
			add(fname(f), res)
			n++
		}
	}
	// goroutines the store starts
	open := P.fn("storage.OpenCannylsStorage")
	if open != nil {
		ls.Analyze(open, "", ls.rootArgs(open), nil)
	}
	for _, g := range ls.sortedGos() {
		as, binds := g.params(), append([]string(nil), g.cl.binds...)
		for _, l := range [][]string{as[:len(as):len(as)], binds} {
			for i, b := range l {
				if b == "local" || b == "arg" {
					l[i] = "shared with goroutine"
				} else if c := ls.funcOf(b); c != nil {
					nb := append([]string(nil), c.binds...)
					for j := range nb {
						if nb[j] == "local" || nb[j] == "arg" {
							nb[j] = "shared with goroutine"
						}
					}
					l[i] = ls.closure(c.fn, nb)
				}
			}
		}
		res := ls.Analyze(g.cl.fn, "", as, binds)
		add("goroutine of "+g.fn, res)
	}
	var classes []string
	for c := range all {
		classes = append(classes, c)
	}
	sort.Strings(classes)
	for _, c := range classes {
		l := all[c]
		sort.Slice(l, func(i, j int) bool {
			return fmt.Sprint(l[i]) < fmt.Sprint(l[j])
		})
		writes := false
		for _, x := range l {
			if x.a.kind == 'W' || x.a.kind == 'A' {
				writes = true
			}
		}
		if os.Getenv("CHK_DEBUG") != "" {
			for _, x := range l {
				fmt.Fprintf(os.Stderr, "%s %c [%s] %s %s root %s\n", c, x.a.kind, x.a.locks, x.a.fn, x.a.pos, x.root)
			}
		}
		if !writes {
			r.Ok("never-written", c)
			continue
		}
		bad := false
		for i := range l {
			for j := i; j < len(l); j++ {
				a, b := l[i], l[j]
				changes := func(k byte) bool { return k == 'W' || k == 'A' }
				atomic := func(k byte) bool { return k == 'L' || k == 'A' }
				if !changes(a.a.kind) && !changes(b.a.kind) || atomic(a.a.kind) && atomic(b.a.kind) {
					continue
				}
				if protects(a.a.locks, b.a.locks) {
					r.Obligations["pair-protected"]++
					continue
				}
				if !bad {
					r.Add("unprotected-pair", c, a.a.pos, fmt.Sprintf("%s is accessed (%c) in %s with locks [%s] from %s, and (%c) in %s (%s) with locks [%s] from %s: no common lock excludes them", c, a.a.kind, a.a.fn, a.a.locks, a.root, b.a.kind, b.a.fn, b.a.pos, b.a.locks, b.root), nil)
				}
				bad = true
			}
		}
		if !bad {
			r.Ok("guarded-location", fmt.Sprintf("%s (%d accesses)", c, len(l)))
		}
	}
	for f := range ls.funcs {
		r.Funcs[fname(f)] = true
	}
	r.Counts["contexts"] = ls.contexts
	r.Explanation = "lockset analysis of every exported operation of the store, the snapshot device and the snapshot reader, and of every goroutine they start: each access to memory reachable from the receiver is recorded with the locks held; every pair of accesses to one location of which one writes must have a common lock that excludes them, unless both are atomic"
	r.Assumptions = []string{"one snapshot reader is used by one goroutine", "objects are identified by the field they are reached through", "library objects behind fields (files) are safe by themselves", "arguments belong to the caller"}
	r.Need("guarded-location", 15)
	r.Need("pair-protected", 200)
}

func (ls *Lockset) sortedGos() []goBody {
	var ks []string
	for k := range ls.gosAll {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []goBody
	for _, k := range ks {
		out = append(out, ls.gosAll[k])
	}
	return out
}

func checkDeadlock(P *Program, r *Report) {
	ls := NewLockset(P)
	type rootRes struct {
		name string
		res  *lsResult
		fn   *ssa.Function
	}
	var roots []rootRes
	for _, f := range P.funcs {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		exp := f.Object() != nil && f.Object().Exported() || f.Name() == "main"
		if f.Signature.Recv() == nil && strings.Contains(f.Pkg.Pkg.Path(), "/cmd/") {
			exp = true
		}
		if !exp {
			continue
		}
		res := ls.Analyze(f, "", ls.rootArgs(f), nil)
		roots = append(roots, rootRes{fname(f), res, f})
	}
	// functions given to libraries and goroutines run with no locks
	for _, f := range P.funcs {
		if f.Parent() == nil {
			continue
		}
		var as, fr []string
		for range f.Params {
			as = append(as, "arg")
		}
		for range f.FreeVars {
			fr = append(fr, "arg")
		}
		_ = fr
		if !ls.funcs[f] {
			roots = append(roots, rootRes{fname(f), ls.Analyze(f, "", as, fr), f})
		}
	}
	type gb struct {
		g   goBody
		res *lsResult
	}
	var gos []gb
	for _, g := range ls.sortedGos() {
		res := ls.Analyze(g.cl.fn, "", g.params(), g.cl.binds)
		gos = append(gos, gb{g, res})
		roots = append(roots, rootRes{"goroutine of " + g.fn, res, g.cl.fn})
	}
	lockHelper := func(f *ssa.Function) bool {
		switch f.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return true
		}
		return false
	}
	edges := map[string]map[string]lockEdge{}
	for _, x := range roots {
		for p := range x.res.prob {
			if lockHelper(x.fn) {
				continue
			}
			i := strings.Index(p[2], "\x00")
			r.Add(p[0], p[1], p[2][:i], p[2][i+1:]+" (entry "+x.name+")", nil)
		}
		for h := range x.res.exits {
			if h != "" && !lockHelper(x.fn) {
				r.Add("lock-left-held", x.name, P.posOf(x.fn.Pos()), "a path returns with locks held: "+h, nil)
			} else {
				r.Ok("locks-released", x.name)
			}
		}
		for e := range x.res.edges {
			if e.same {
				continue
			}
			if edges[e.from] == nil {
				edges[e.from] = map[string]lockEdge{}
			}
			if o, ok := edges[e.from][e.to]; !ok || o.fn > e.fn {
				edges[e.from][e.to] = e
			}
			r.Obligations["order-edge"]++
		}
		for w := range x.res.waits {
			if os.Getenv("CHK_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "wait %+v root %s\n", w, x.name)
			}
			if w.locks == "" {
				r.Ok("wait-without-locks", w.fn)
				continue
			}
			if w.what == "chan" {
				r.Add("channel-under-lock", w.fn, w.pos, "a channel operation that may block while locks are held: "+w.locks+" (entry "+x.name+")", nil)
				continue
			}
			held := heldMap(w.locks)
			for _, g := range gos {
				if g.g.obj != w.obj && !strings.HasPrefix(w.obj, ls.workerPkg(g.g)+".") {
					continue
				}
				for l := range g.res.acq {
					if _, ok := held[l]; ok {
						r.Add("wait-for-blocked-goroutine", w.fn+" "+l, w.pos, fmt.Sprintf("%s waits with %s held for a goroutine (%s) that acquires %s (entry %s)", w.fn, w.locks, fname(g.g.cl.fn), l, x.name), nil)
					}
				}
				r.Obligations["wait-checked"]++
			}
		}
	}
	// cycles
	var cls []string
	for c := range edges {
		cls = append(cls, c)
	}
	sort.Strings(cls)
	reach := func(from, to string) []lockEdge {
		type node struct {
			c    string
			path []lockEdge
		}
		seen := map[string]bool{from: true}
		q := []node{{from, nil}}
		for len(q) > 0 {
			n := q[0]
			q = q[1:]
			var ts []string
			for t := range edges[n.c] {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			for _, t := range ts {
				p := append(append([]lockEdge{}, n.path...), edges[n.c][t])
				if t == to {
					return p
				}
				if !seen[t] {
					seen[t] = true
					q = append(q, node{t, p})
				}
			}
		}
		return nil
	}
	reported := map[string]bool{}
	for _, c := range cls {
		if p := reach(c, c); p != nil {
			var names, tr []string
			for _, e := range p {
				names = append(names, e.from)
				tr = append(tr, fmt.Sprintf("%s: %s acquires %s with %s held", e.pos, e.fn, e.to, e.from))
			}
			sort.Strings(names)
			k := strings.Join(names, " <-> ")
			if !reported[k] {
				reported[k] = true
				r.Add("lock-order-cycle", k, p[0].pos, "locks are acquired in a cyclic order: "+strings.Join(tr, "; "), tr)
			}
		} else {
			var ts []string
			for t := range edges[c] {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			r.Ok("acyclic-from", c+" -> "+strings.Join(ts, ", "))
		}
	}
	for f := range ls.funcs {
		r.Funcs[fname(f)] = true
	}
	r.Counts["contexts"] = ls.contexts
	r.Counts["goroutine_bodies"] = len(gos)
	r.Counts["entry_points"] = len(roots)
	r.Explanation = "lockset analysis of every exported function, every function of the commands, every function given to a library and every goroutine body: locks held at each acquisition give the lock order graph, which must be acyclic; no lock is acquired twice, released unheld, or held at a return; nothing waits for a goroutine or channel with a lock held that the other side needs"
	r.Assumptions = []string{"locks are identified by the field that declares them", "a panic ends the process"}
	r.Need("locks-released", 150)
	r.Need("order-edge", 20)
	r.Need("wait-checked", 1)
}

// workerPkg: the package of the function a goroutine runs for its starter.
func (ls *Lockset) workerPkg(g goBody) string {
	fn := g.cl.fn
	for _, b := range append(append([]string(nil), g.cl.binds...), g.args...) {
		if c := ls.funcOf(b); c != nil {
			fn = c.fn
		}
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return shorten(fn.Object().Pkg().Path())
		}
		return "?"
	}
	return shorten(fn.Pkg.Pkg.Path())
}

// params: the origins of what the goroutine is started with.
func (g goBody) params() []string {
	as := append([]string(nil), g.args...)
	for len(as) < len(g.cl.fn.Params) {
		as = append(as, "arg")
	}
	return as[:len(g.cl.fn.Params)]
}
