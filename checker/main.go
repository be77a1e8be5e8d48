package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type checkFn func(P *Program, r *Report)

var checks = map[string]checkFn{}

func main() {
	prop, repo, verif := "", "/repo", "/verif"
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-property":
			i++
			prop = os.Args[i]
		case "-repo":
			i++
			repo = os.Args[i]
		case "-verif":
			i++
			verif = os.Args[i]
		}
	}
	debug.SetGCPercent(400)
	start := time.Now()
	if prop == "" {
		var l []string
		for p := range checks {
			l = append(l, p)
		}
		sort.Strings(l)
		fmt.Println("usage: checker -property ID; ids:", l)
		os.Exit(2)
	}
	r := NewReport(prop)
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Add("checker-panic", prop, "-", fmt.Sprintf("the analysis panicked: %v", x), nil)
				fmt.Println(string(debug.Stack()))
			}
		}()
		P, err := Load(repo)
		if err != nil {
			r.Add("load", "type-check", "-", err.Error(), nil)
			return
		}
		f, ok := checks[prop]
		if !ok {
			r.Add("no-check", prop, "-", "no such check", nil)
			return
		}
		f(P, r)
	}()
	os.Exit(r.finish(verif, start))
}
