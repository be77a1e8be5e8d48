package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Violation struct {
	Property string   `json:"property"`
	Rule     string   `json:"rule"`
	Where    string   `json:"construct"` // stable: rule + construct, no line numbers
	Pos      string   `json:"position"`
	Msg      string   `json:"message"`
	Trail    []string `json:"path,omitempty"`
}

func (v Violation) Key() string { return v.Rule + " @ " + v.Where }

// Report collects the result of the analyses for one property.
type Report struct {
	Prop        string
	Viol        []Violation
	seen        map[string]bool
	Counts      map[string]int
	Obligations map[string]int // rule -> instances decided
	Funcs       map[string]bool
	Samples     []string
	Explanation string
	Assumptions []string
	MinOblig    map[string]int
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, seen: map[string]bool{}, Counts: map[string]int{}, Obligations: map[string]int{}, Funcs: map[string]bool{}, MinOblig: map[string]int{}}
}

func (r *Report) Add(rule, where, pos, msg string, trail []string) {
	v := Violation{Property: r.Prop, Rule: rule, Where: where, Pos: pos, Msg: msg, Trail: trail}
	if r.seen[v.Key()] {
		return
	}
	r.seen[v.Key()] = true
	r.Viol = append(r.Viol, v)
}

// Ok counts one decided instance of a rule.
func (r *Report) Ok(rule string, sample string) {
	r.Obligations[rule]++
	if len(r.Samples) < 12 && sample != "" {
		s := rule + ": " + sample
		for _, o := range r.Samples {
			if o == s {
				return
			}
		}
		r.Samples = append(r.Samples, s)
	}
}

// Need states how many instances of a rule have to exist; fewer means that the
// rule lost its subject.
func (r *Report) Need(rule string, n int) { r.MinOblig[rule] = n }

func (r *Report) absorb(e *Engine) {
	for f := range e.funcsSeen {
		r.Funcs[fname(f)] = true
	}
	r.Counts["abstract_states"] += e.nStates
	r.Counts["calls_analysed"] += e.nCalls
	r.Counts["return_states"] += e.nPaths
	r.Counts["instructions_covered"] += len(e.linesSeen)
	r.Counts["recursion_cuts"] += e.nCut
	if e.overflow != "" {
		r.Add("analysis-limit", e.overflow, "-", "the analysis did not finish: "+e.overflow, nil)
	}
}

type known struct {
	prop, key, text string
}

// readKnown parses known_findings.txt: lines "finding: property=<id> key=<key> | <text>"
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " | ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, known{prop: l[:i], key: l[i+5 : j], text: l[j+3:]})
	}
	return out
}

// finish prints the verdict, writes the evidence, and returns the exit code.
func (r *Report) finish(verif string, start time.Time) int {
	for rule, n := range r.MinOblig {
		if r.Obligations[rule] < n {
			r.Add("lost-instances", rule, "-", fmt.Sprintf("rule %q has %d instances, expected at least %d: its subject was not found in the code", rule, r.Obligations[rule], n), nil)
		}
	}
	sort.Slice(r.Viol, func(i, j int) bool { return r.Viol[i].Key() < r.Viol[j].Key() })
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []Violation
	for _, v := range r.Viol {
		isKnown := false
		for _, k := range kn {
			if k.prop == r.Prop && k.key == v.Key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.text)
				isKnown = true
				break
			}
		}
		if !isKnown {
			bad = append(bad, v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{"explanation": r.Explanation}
	total := 0
	for _, n := range r.Obligations {
		total += n
	}
	cov["obligations"] = total
	cov["discharged"] = total
	if len(bad) > 0 {
		cov["discharged"] = total - len(bad)
		if total < len(bad) {
			cov["discharged"] = 0
		}
	}
	cov["obligations_by_rule"] = r.Obligations
	for k, n := range r.Counts {
		cov[k] = n
	}
	cov["functions_analysed"] = len(r.Funcs)
	var fs []string
	for f := range r.Funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	cov["functions"] = fs
	if len(r.Samples) == 0 {
		r.Samples = []string{"none"}
	}
	cov["samples"] = r.Samples
	if len(r.Viol) > 0 {
		cov["reports"] = r.Viol
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, v := range bad {
		fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Where, v.Msg)
		for _, t := range v.Trail {
			fmt.Printf("    %s\n", t)
		}
	}
	if len(bad) > 0 {
		p := filepath.Join("evidence", r.Prop+".json")
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d states=%d\n", r.Prop, total, len(r.Funcs), r.Counts["abstract_states"])
	return 0
}
