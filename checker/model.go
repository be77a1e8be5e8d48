package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// newErr is an error made here: not nil, and none of the error variables.
func (e *Engine) newErr(st *State, site ssa.Instruction, sub string) *V {
	v := mkApp("newerr", types.Universe.Lookup("error").Type(), e.Fresh(st, site, sub, nil))
	f := st.facts[v]
	f.nilness = 2
	st.facts[v] = f
	return v
}

// model knows the effect of functions outside the module.
func (e *Engine) model(st *State, c *CallInfo) ([]Outcome, bool) {
	one := func(v ...*V) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	switch c.name {
	case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf":
		return one(e.newErr(st, c.site, ".err"))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		// nil stays nil; the cause is the error
		return one(wrapErr(c.args[0]))
	case "github.com/pkg/errors.Cause":
		return one(causeErr(c.args[0]))
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Sprintf", "fmt.Sprint", "log.Printf", "log.Println":
		return []Outcome{{st, e.freshResults(st, c)}}, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return nil, true
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		return one(e.Fresh(st, c.site, ".n", types.Typ[types.Int]), theNil)
	}
	return nil, false
}

// wrapping keeps the identity of an error: Cause(Wrap(e)) is e, and all errors
// of the module are compared through Cause or before they are wrapped.
func wrapErr(v *V) *V {
	if v.k == KNil {
		return v
	}
	return v
}

func causeErr(v *V) *V { return v }
