package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock tracking: the held locks of a state are in its flags, "L|<class>" ->
// (address, mode). The class is the declaring field, e.g. storage.Storage.jr.

type lockOp struct {
	op   string // Lock Unlock RLock RUnlock
	addr *V
	cls  string
}

func lockClass(addr *V) string {
	b, p := splitPtr(addr)
	if b.k == KGlobal {
		return "global " + shorten(b.g.String())
	}
	k := fieldKey(b, p)
	if k == "" {
		k = "local " + b.String() + p
	}
	return k
}

func asLockOp(c *CallInfo) (lockOp, bool) {
	n := c.name
	var o lockOp
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		o.op = "Lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		o.op = "Unlock"
	case "(*sync.RWMutex).RLock":
		o.op = "RLock"
	case "(*sync.RWMutex).RUnlock":
		o.op = "RUnlock"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		o.op = "Try"
	default:
		return o, false
	}
	o.addr = c.args[0]
	o.cls = lockClass(o.addr)
	return o, true
}

func (s *State) held(cls string) string {
	if v, ok := s.flags["L|"+cls]; ok {
		return v.args[1].strConst()
	}
	return ""
}

func (s *State) heldAll() []string {
	var out []string
	for k := range s.flags {
		if strings.HasPrefix(k, "L|") {
			out = append(out, k[2:])
		}
	}
	sort.Strings(out)
	return out
}

// lockHandler applies a lock operation. report receives misuse.
func lockHandler(e *Engine, st *State, c *CallInfo, report func(rule, msg string), acquired func(o lockOp), released func(o lockOp)) ([]Outcome, bool) {
	o, ok := asLockOp(c)
	if !ok {
		return nil, false
	}
	key := "L|" + o.cls
	cur, held := st.flags[key]
	same := held && cur.args[0] == o.addr
	if held && !same {
		key += "#2"
		cur, held = st.flags[key]
		same = held
	}
	ret := []Outcome{{st, nil}}
	switch o.op {
	case "Try":
		s2 := st.clone()
		s2.flags[key] = mkTuple(o.addr, mkStr("W"))
		e.Interfere(s2)
		return []Outcome{{st, []*V{mkBool(false)}}, {s2, []*V{mkBool(true)}}}, true
	case "Lock", "RLock":
		if same {
			report("self-deadlock", o.cls+" is acquired ("+o.op+") while it is already held in mode "+cur.args[1].strConst())
			return nil, true
		}
		if acquired != nil {
			acquired(o)
		}
		if len(st.heldAll()) == 0 || true {
			e.Interfere(st)
		}
		m := "W"
		if o.op == "RLock" {
			m = "R"
		}
		st.flags[key] = mkTuple(o.addr, mkStr(m))
	case "Unlock", "RUnlock":
		want := "W"
		if o.op == "RUnlock" {
			want = "R"
		}
		if !same {
			report("unlock-unheld", o.cls+" is released ("+o.op+") but not held")
			return nil, true
		}
		if cur.args[1].strConst() != want {
			report("unlock-mode", o.cls+" is released with "+o.op+" but held in mode "+cur.args[1].strConst())
			return nil, true
		}
		delete(st.flags, key)
		if released != nil {
			released(o)
		}
	}
	return ret, true
}

var _ = types.Typ
var _ *ssa.Function
