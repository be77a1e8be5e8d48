package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// Strings that are known up to some unknown parts: used to decide whether the
// name a snapshot file is created with is one that is looked for.

// atoms of a string: constants and unknown parts; neighbouring constants merged.
func atoms(v *V) []*V {
	if v.k == KApp && v.name == "cat" {
		return v.args
	}
	if v.k == KConst && v.strConst() == "" {
		return nil
	}
	return []*V{v}
}

func cat(vs ...*V) *V {
	var out []*V
	for _, v := range vs {
		for _, a := range atoms(v) {
			if n := len(out); n > 0 && a.k == KConst && out[n-1].k == KConst {
				out[n-1] = strV(out[n-1].strConst() + a.strConst())
				continue
			}
			if a.k == KConst {
				a = strV(a.strConst())
			}
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return strV("")
	case 1:
		return out[0]
	}
	return mkApp("cat", types.Typ[types.String], out...)
}

func strV(s string) *V { return mkConst(constant.MakeString(s), types.Typ[types.String]) }

// cutPrefix: the rest of s after p; 2 if s surely does not start with p.
func cutPrefix(s, p *V) (*V, int) {
	a, b := append([]*V(nil), atoms(s)...), append([]*V(nil), atoms(p)...)
	for len(b) > 0 {
		if len(a) == 0 {
			if b[0].k == KConst {
				return nil, 2
			}
			return nil, 0
		}
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		if a[0].k != KConst || b[0].k != KConst {
			return nil, 0
		}
		x, y := a[0].strConst(), b[0].strConst()
		switch {
		case strings.HasPrefix(x, y):
			a[0], b = strV(x[len(y):]), b[1:]
			if len(x) == len(y) {
				a = a[1:]
			}
		case strings.HasPrefix(y, x):
			b[0], a = strV(y[len(x):]), a[1:]
		default:
			return nil, 2
		}
	}
	return cat(a...), 1
}

func cutSuffix(s, p *V) (*V, int) {
	a, b := append([]*V(nil), atoms(s)...), append([]*V(nil), atoms(p)...)
	for len(b) > 0 {
		n, m := len(a)-1, len(b)-1
		if n < 0 {
			if b[m].k == KConst {
				return nil, 2
			}
			return nil, 0
		}
		if a[n] == b[m] {
			a, b = a[:n], b[:m]
			continue
		}
		if a[n].k != KConst || b[m].k != KConst {
			return nil, 0
		}
		x, y := a[n].strConst(), b[m].strConst()
		switch {
		case strings.HasSuffix(x, y):
			a[n], b = strV(x[:len(x)-len(y)]), b[:m]
			if len(x) == len(y) {
				a = a[:n]
			}
		case strings.HasSuffix(y, x):
			b[m], a = strV(y[:len(y)-len(x)]), a[:n]
		default:
			return nil, 2
		}
	}
	return cat(a...), 1
}

// strEq: 1 equal, 2 different, 0 unknown.
func strEq(x, y *V) int {
	a, b := atoms(x), atoms(y)
	for len(a) > 0 && len(b) > 0 && a[0] == b[0] {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[len(b)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == 0 && len(b) == 0 {
		return 1
	}
	ra, rb := cat(a...), cat(b...)
	if len(a) == 0 || len(b) == 0 {
		for _, v := range append(append([]*V(nil), a...), b...) {
			if v.k == KConst || v.k == KApp && v.name == "uuid" {
				return 2
			}
		}
		return 0
	}
	// a uuid has a fixed length, and two of them differ
	length := func(a []*V) int {
		n := 0
		for _, v := range a {
			switch {
			case v.k == KConst:
				n += len(v.strConst())
			case v.k == KApp && v.name == "uuid":
				n += 36
			default:
				return -1
			}
		}
		return n
	}
	if x, y := length(a), length(b); x >= 0 && y >= 0 && (x != y || len(a) == 1 && len(b) == 1) {
		return 2
	}
	if a[0].k == KConst && b[0].k == KConst {
		if _, k := cutPrefix(ra, b[0]); k == 2 {
			if _, k := cutPrefix(rb, a[0]); k == 2 {
				return 2
			}
		}
	}
	if p, q := a[len(a)-1], b[len(b)-1]; p.k == KConst && q.k == KConst {
		if _, k := cutSuffix(ra, q); k == 2 {
			if _, k := cutSuffix(rb, p); k == 2 {
				return 2
			}
		}
	}
	return 0
}

// stringModel: calls on such strings.
func (c *snapFile) stringModel(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	opaque := func() ([]Outcome, bool) {
		if lastIsError(ci.sig) {
			ok := e.freshResults(st, ci)
			bad := st.clone()
			ok[len(ok)-1] = theNil
			br := e.freshResults(bad, ci)
			br[len(br)-1] = e.newErr(bad, ci.site, ".err")
			return []Outcome{{st, ok}, {bad, br}}, true
		}
		return []Outcome{{st, e.freshResults(st, ci)}}, true
	}
	either := func(k int, yes func() []*V, no func() []*V) ([]Outcome, bool) {
		switch k {
		case 1:
			return one(yes()...)
		case 2:
			return one(no()...)
		}
		return opaque()
	}
	// the last "/" of a path
	split := func(v *V) (dir, base *V, ok bool) {
		a := atoms(v)
		for i := len(a) - 1; i >= 0; i-- {
			if a[i].k != KConst {
				continue
			}
			s := a[i].strConst()
			if j := strings.LastIndex(s, "/"); j >= 0 {
				return cat(append(append([]*V(nil), a[:i]...), strV(s[:j]))...), cat(append([]*V{strV(s[j+1:])}, a[i+1:]...)...), true
			}
		}
		return nil, nil, false
	}
	T := types.Typ[types.Bool]
	switch {
	case ci.fn != nil && ci.fn.Pkg != nil && strings.HasSuffix(ci.fn.Pkg.Pkg.Path(), "satori/go.uuid"):
		switch callee(ci) {
		case "String":
			return one(mkApp("uuid", types.Typ[types.String], ci.args[0]))
		case "FromString":
			a := atoms(ci.args[0])
			if len(a) == 1 && a[0].k == KApp && a[0].name == "uuid" {
				return one(a[0].args[0], theNil)
			}
			for _, x := range a {
				if x.k == KApp && x.name == "uuid" || len(a) == 1 && x.k == KConst {
					r := e.freshResults(st, ci)
					r[1] = e.newErr(st, ci.site, ".err")
					return one(r...)
				}
			}
			return opaque()
		}
		return opaque()
	case ci.name == "strings.TrimPrefix":
		x, k := cutPrefix(ci.args[0], ci.args[1])
		return either(k, func() []*V { return []*V{x} }, func() []*V { return []*V{ci.args[0]} })
	case ci.name == "strings.TrimSuffix":
		x, k := cutSuffix(ci.args[0], ci.args[1])
		return either(k, func() []*V { return []*V{x} }, func() []*V { return []*V{ci.args[0]} })
	case ci.name == "strings.CutPrefix":
		x, k := cutPrefix(ci.args[0], ci.args[1])
		return either(k, func() []*V { return []*V{x, mkBool(true)} }, func() []*V { return []*V{ci.args[0], mkBool(false)} })
	case ci.name == "strings.CutSuffix":
		x, k := cutSuffix(ci.args[0], ci.args[1])
		return either(k, func() []*V { return []*V{x, mkBool(true)} }, func() []*V { return []*V{ci.args[0], mkBool(false)} })
	case ci.name == "strings.HasPrefix":
		_, k := cutPrefix(ci.args[0], ci.args[1])
		return either(k, func() []*V { return []*V{mkBool(true)} }, func() []*V { return []*V{mkBool(false)} })
	case ci.name == "strings.HasSuffix":
		_, k := cutSuffix(ci.args[0], ci.args[1])
		return either(k, func() []*V { return []*V{mkBool(true)} }, func() []*V { return []*V{mkBool(false)} })
	case ci.name == "path/filepath.Dir" || ci.name == "path.Dir":
		if d, _, ok := split(ci.args[0]); ok {
			return one(d)
		}
		return opaque()
	case ci.name == "path/filepath.Base" || ci.name == "path.Base":
		if _, b, ok := split(ci.args[0]); ok {
			return one(b)
		}
		return opaque()
	case ci.name == "path/filepath.Split":
		if d, b, ok := split(ci.args[0]); ok {
			return one(cat(d, strV("/")), b)
		}
		return opaque()
	case ci.name == "path/filepath.Clean":
		return one(ci.args[0])
	case ci.name == "path/filepath.Join" || ci.name == "path.Join" || ci.name == "fmt.Sprintf":
		// variable arguments
		va := ci.args[len(ci.args)-1]
		n, ok := e.constOf(st, e.lenOf(st, va))
		if !ok {
			return opaque()
		}
		base, off, _ := e.sliceParts(st, va)
		o, ok := e.constOf(st, off)
		if !ok {
			return opaque()
		}
		et := va.t.Underlying().(*types.Slice).Elem()
		var vs []*V
		for i := int64(0); i < n; i++ {
			b, p := splitPtr(base)
			v := e.loadLoc(st, ci.site, b, p+idxPath(mkInt(o+i, types.Typ[types.Int])), et)
			for v.k == KIface {
				v = v.args[0]
			}
			vs = append(vs, v)
		}
		if ci.name != "fmt.Sprintf" {
			var out []*V
			for i, v := range vs {
				if i > 0 {
					out = append(out, strV("/"))
				}
				out = append(out, v)
			}
			return one(cat(out...))
		}
		f := ci.args[0].strConst()
		var out []*V
		for len(f) > 0 {
			j := strings.IndexByte(f, '%')
			if j < 0 || j+1 >= len(f) {
				out = append(out, strV(f))
				break
			}
			out = append(out, strV(f[:j]))
			if (f[j+1] != 's' && f[j+1] != 'v') || len(vs) == 0 {
				return opaque()
			}
			v := vs[0]
			if v.t == nil || !types.Identical(v.t.Underlying(), types.Typ[types.String]) {
				v = mkApp("uuid", types.Typ[types.String], v) // a Stringer
			}
			out, vs, f = append(out, v), vs[1:], f[j+2:]
		}
		return one(cat(out...))
	case ci.name == "path/filepath.Glob" || ci.name == "path/filepath.Match" || ci.name == "path.Match":
		for _, a := range atoms(ci.args[0]) {
			if a.k == KSym && (a.name == "DIR" || a.name == "BASE") {
				c.r.Add("find", fname(ci.site.Parent()), c.P.pos(ci.site), "the path of the device is used as a pattern: a name with *, ? or [ does not match itself", nil)
			}
		}
		return opaque()
	}
	_ = T
	return nil, false
}

// find: a file that was created is found again.
func (c *snapFile) find() {
	P, r := c.P, c.r
	str := types.Typ[types.String]
	D, B := mkSym("DIR", str), mkSym("BASE", str)
	prefix := cat(D, strV("/"), B)
	_, e := newCodec(P)
	e.strs = true
	base := e.H.Call
	var names []*V
	e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if openers[ci.name] {
			names = append(names, cat(ci.args[0]))
			return nil, true // enough seen
		}
		if o, ok := c.stringModel(e, st, ci); ok {
			return o, true
		}
		return base(e, st, ci)
	}
	st := newState()
	args := []*V{}
	for i, p := range c.create.Params {
		if i == 0 {
			args = append(args, prefix)
		} else {
			args = append(args, mkSym("arg."+p.Name(), p.Type()))
		}
	}
	e.Run(c.create, st, args, nil)
	if len(names) != 1 {
		c.r.Ok("find", "the name of the file is not understood")
		return
	}
	// finders: (string) ([]string, error), called where the file is opened
	strs := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem().Underlying(), str)
	}
	created := names[0]
	a := atoms(created)
	entry := cutTo(a, "/")
	for _, f := range P.funcs {
		s := f.Signature
		if f.Synthetic != "" || f.Blocks == nil || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !types.Identical(s.Params().At(0).Type().Underlying(), str) || !strs(s.Results().At(0).Type()) || !isError(s.Results().At(1).Type()) || f.Pkg != c.create.Pkg {
			continue
		}
		where := fname(f)
		r.Funcs[where] = true
		_, e := newCodec(P)
		e.strs = true
		e.unroll = 5
		base := e.H.Call
		unknown := entry == nil
		// two snapshots of this device and one of another device are there
		var all []*V
		if entry != nil {
			other := mkApp("uuid", str, mkSym("UUID2", nil))
			repl := func(v *V, extra string) *V {
				var out []*V
				for _, x := range atoms(v) {
					if x.k == KApp && x.name == "uuid" {
						if extra != "" {
							out = append(out, strV(extra))
						}
						x = other
					}
					out = append(out, x)
				}
				return cat(out...)
			}
			all = []*V{entry, repl(entry, ""), repl(entry, "x_")}
		}
		names := map[*V]*V{}
		e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if o, ok := c.stringModel(e, st, ci); ok {
				return o, true
			}
			switch {
			case (ci.name == "os.ReadDir" || ci.name == "io/ioutil.ReadDir") && all != nil:
				if strEq(ci.args[0], D) == 2 {
					c.r.Add("find", where, P.pos(ci.site), fmt.Sprintf("the files of directory %s are listed, the snapshot is created in %s", ci.args[0], D), nil)
				}
				res := e.freshResults(st, ci)
				e.assume(st, mkEq(e.lenOf(st, res[0]), mkInt(int64(len(all)), types.Typ[types.Int])), true)
				st.facts[res[0]] = Fact{nilness: 2}
				et := res[0].t.Underlying().(*types.Slice).Elem()
				b, _, _ := e.sliceParts(st, res[0])
				for i, nm := range all {
					x := mkSym(fmt.Sprintf("entry%d", i), et)
					st.facts[x] = Fact{nilness: 2}
					names[x] = nm
					bb, p := splitPtr(b)
					e.storeLoc(st, bb, p+idxPath(mkInt(int64(i), types.Typ[types.Int])), x, et)
					st.flags[fmt.Sprintf("keepe%d", i)] = x
				}
				res[1] = theNil
				return []Outcome{{st, res}}, true
			case ci.method != nil && callee(ci) == "Name" && names[ci.recv] != nil:
				return []Outcome{{st, []*V{names[ci.recv]}}}, true
			case ci.method != nil && callee(ci) == "IsDir":
				return []Outcome{{st, []*V{mkBool(false)}}}, true
			}
			return base(e, st, ci)
		}
		n, best := 0, [3]bool{}
		var last *State
		var want []*V
		for _, v := range all {
			want = append(want, cat(D, strV("/"), v))
		}
		worse := false
		for _, o := range e.Run(f, newState(), []*V{prefix}, nil) {
			if e.notNilV(o.st, o.ret[1]) {
				continue
			}
			n++
			last = o.st
			ln, ok := e.constOf(o.st, e.lenOf(o.st, o.ret[0]))
			if !ok {
				unknown = true
				continue
			}
			for i := int64(0); i < ln; i++ {
				b, off, _ := e.sliceParts(o.st, o.ret[0])
				k, ok := e.constOf(o.st, off)
				if !ok {
					unknown = true
					break
				}
				bb, p := splitPtr(b)
				v := e.loadLoc(o.st, nil, bb, p+idxPath(mkInt(k+i, types.Typ[types.Int])), str)
				for j, w := range want {
					switch strEq(v, w) {
					case 0:
						unknown = true
					case 1:
						best[j] = true
						worse = worse || j == 2
					}
				}
			}
		}
		switch {
		case n == 0 || unknown:
			r.Ok("find", where)
		case !best[0] || !best[1]:
			c.fail("find", where, f, last, "a snapshot file named %s by %s is not found for the prefix %s", created, fname(c.create), prefix)
		case worse && n == 1:
			c.fail("find", where, f, last, "the file %s of another device is taken for a snapshot of %s", want[2], prefix)
		default:
			r.Ok("find", where)
		}
		r.absorb(e)
	}
}

// cutTo: what follows the last sep.
func cutTo(a []*V, sep string) *V {
	for i := len(a) - 1; i >= 0; i-- {
		if a[i].k == KConst {
			s := a[i].strConst()
			if j := strings.LastIndex(s, sep); j >= 0 {
				return cat(append([]*V{strV(s[j+1:])}, a[i+1:]...)...)
			}
		}
	}
	return nil
}

// wiring: NewSnapshotNVM opens the file that is there.
func (c *snapFile) wiring() {
	P, r := c.P, c.r
	str := types.Typ[types.String]
	nv := P.named("nvm.SnapNVM")
	if nv == nil {
		return
	}
	for _, f := range P.funcs {
		s := f.Signature
		if f.Synthetic != "" || f.Blocks == nil || s.Recv() != nil || s.Results().Len() != 2 || !isPtrTo(s.Results().At(0).Type(), nv) || !isError(s.Results().At(1).Type()) {
			continue
		}
		where := fname(f)
		r.Funcs[where] = true
		for n := 0; n <= 2; n++ {
			_, e := newCodec(P)
			e.strs = true
			e.unroll = 4
			base := e.H.Call
			name := mkSym("snapshotname", str)
			found := func(st *State, ci *CallInfo) []*V {
				res := e.freshResults(st, ci)
				e.assume(st, mkEq(e.lenOf(st, res[0]), mkInt(int64(n), types.Typ[types.Int])), true)
				if n > 0 {
					b, off, _ := e.sliceParts(st, res[0])
					bb, p := splitPtr(b)
					e.storeLoc(st, bb, p+idxPath(off), name, str)
				}
				res[1] = theNil
				return res
			}
			file := mkSym("openedfile", c.open.Signature.Results().At(0).Type())
			looked := false
			e.H.Call = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				switch {
				case strings.HasPrefix(ci.name, "(*sync."):
					return []Outcome{{st, e.freshResults(st, ci)}}, true
				case ci.fn == c.open:
					bad := st.clone()
					addLog(st, mkStr("openfile"), ci.args[0])
					addLog(bad, mkStr("openfail"))
					st.facts[file] = Fact{nilness: 2}
					br := e.freshResults(bad, ci)
					br[1] = e.newErr(bad, ci.site, ".err")
					br[0] = theNil
					return []Outcome{{st, []*V{file, theNil}}, {bad, br}}, true
				case ci.name == "path/filepath.Glob" || ci.fn != nil && P.inModule(ci.fn) && ci.sig.Recv() == nil && ci.sig.Params().Len() == 1 && ci.sig.Results().Len() == 2 && types.Identical(ci.sig.Params().At(0).Type().Underlying(), str) && ci.sig.Results().At(0).Type().String() == "[]string" && isError(ci.sig.Results().At(1).Type()):
					looked = true
					bad := st.clone()
					addLog(bad, mkStr("findfail"))
					res := found(st, ci)
					addLog(st, mkStr("found"), ci.args[0])
					br := e.freshResults(bad, ci)
					br[0], br[1] = theNil, e.newErr(bad, ci.site, ".err")
					return []Outcome{{st, res}, {bad, br}}, true
				}
				return base(e, st, ci)
			}
			st := newState()
			st.flags["keepname"] = mkTuple(name, file)
			var args []*V
			for _, p := range f.Params {
				a := mkSym("arg."+p.Name(), p.Type())
				st.facts[a] = Fact{nilness: 2}
				args = append(args, a)
			}
			outs := e.Run(f, st, args, nil)
			if !looked {
				r.Ok("wiring", where)
				return
			}
			w := fmt.Sprintf("%s with %d snapshot files", where, n)
			good := 0
			for _, o := range outs {
				if e.notNilV(o.st, o.ret[1]) {
					continue
				}
				bad := func(format string, a ...interface{}) { c.fail("wiring", w, f, o.st, format, a...) }
				if len(c.evs(o.st, "findfail"))+len(c.evs(o.st, "openfail")) > 0 {
					bad("the snapshot could not be found or opened, and the device is opened without it")
					continue
				}
				fd := c.evs(o.st, "found")
				if len(fd) == 0 {
					bad("the device is opened without a look for its snapshot")
					continue
				}
				sn := structOf(nv)
				b, p := splitPtr(o.ret[0])
				for i := 0; i < sn.NumFields(); i++ {
					fl := sn.Field(i)
					v := e.loadLoc(o.st, nil, b, p+"."+fl.Name(), fl.Type())
					switch {
					case isPtrTo(fl.Type(), c.bf):
						switch {
						case n == 0 && !e.isNil(o.st, v):
							bad("a snapshot is active although there is no file")
						case n == 1 && v != file:
							bad("the snapshot file is not used: the field %s is %s", fl.Name(), v)
						case n > 1:
							bad("there is more than one snapshot file, one of them is taken")
						default:
							good++
						}
					case types.Identical(fl.Type(), str):
						if p0 := fd[0].args[1]; p0 != v && strEq(v, p0) != 1 && len(fd) == 1 {
							bad("the snapshot is looked for under %s and created under %s", p0, v)
						}
					case isPtrTo(fl.Type(), nv) && v != o.ret[0]:
						bad("field %s is not the device itself", fl.Name())
					case fl.Type().String() == "*"+P.named("block.AlignedBytes").String() && n == 1 && !e.notNilV(o.st, v):
						bad("there is no buffer to copy regions with")
					}
				}
				if op := c.evs(o.st, "openfile"); n == 1 && (len(op) != 1 || op[0].args[1] != name) {
					bad("another file is opened than the one found")
				}
			}
			if n < 2 && good == 0 {
				c.fail("wiring", w, f, nil, "the device is never opened")
			}
			r.Ok("wiring", w)
			r.absorb(e)
		}
	}
}
