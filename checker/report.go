package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Violation is a construct that breaks a property.
type Violation struct {
	Key  string // rule + construct, stable under line shifts
	Msg  string
	Pos  string
	Path []string
}

// Report collects what one check did in one build configuration.
type Report struct {
	p           *Program
	Prop        string
	Tier        string
	Violations  []Violation
	seen        map[string]bool
	Obligations map[string]int // rule -> instances examined
	Sites       map[string]bool
	Funcs       map[string]bool
	Calls       int
	Paths       int
	Steps       int
	Joins       int
}

func newReport(p *Program, prop string) *Report {
	return &Report{p: p, Prop: prop, seen: map[string]bool{}, Obligations: map[string]int{}, Sites: map[string]bool{}, Funcs: map[string]bool{}}
}

// ok counts an obligation of a rule at a site.
func (r *Report) ok(rule string, site string) {
	k := rule + "@" + site
	if !r.Sites[k] {
		r.Sites[k] = true
		r.Obligations[rule]++
	}
}

func (r *Report) fail(rule, construct string, pos token.Pos, s *State, format string, a ...any) {
	key := rule + ":" + construct
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	v := Violation{Key: key, Msg: fmt.Sprintf(format, a...), Pos: r.p.pos(pos)}
	if s != nil {
		for st := s.path; st != nil && len(v.Path) < 60; st = st.prev {
			v.Path = append(v.Path, r.p.pos(st.pos)+" "+st.text)
		}
		for i, j := 0, len(v.Path)-1; i < j; i, j = i+1, j-1 {
			v.Path[i], v.Path[j] = v.Path[j], v.Path[i]
		}
	}
	r.Violations = append(r.Violations, v)
}

// absorb adds the statistics of an analysis and its undecided points.
func (r *Report) absorb(it *Interp, what string) {
	for f := range it.funcs {
		r.Funcs[f.String()] = true
	}
	r.Calls += len(it.calls)
	r.Paths += it.paths
	r.Steps += it.steps
	r.Joins += it.joins
	for _, m := range it.problem {
		r.fail("undecided", what+": "+m, token.NoPos, nil, "the analysis of %s could not decide: %s", what, m)
	}
}

// absorbReport adds what another report found.
func (r *Report) absorbReport(o *Report) {
	for k := range o.Sites {
		r.ok(k[:strings.Index(k, "@")], k[strings.Index(k, "@")+1:])
	}
	for f := range o.Funcs {
		r.Funcs[f] = true
	}
	r.Calls += o.Calls
	r.Paths += o.Paths
	r.Steps += o.Steps
	r.Joins += o.Joins
	for _, v := range o.Violations {
		if !r.seen[v.Key] {
			r.seen[v.Key] = true
			r.Violations = append(r.Violations, v)
		}
	}
}

// need checks that a rule matched at least n instances.
func (r *Report) need(rule string, n int) {
	if r.Obligations[rule] < n && len(r.Violations) == 0 {
		r.fail("coverage", rule, token.NoPos, nil, "rule %q matched %d instances, expected at least %d: the anchors of the rule were not found", rule, r.Obligations[rule], n)
	}
}

func (r *Report) missing(what string) {
	r.fail("anchor", what, token.NoPos, nil, "anchor not found: %s", what)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func join(s []string) string { return strings.Join(s, ", ") }
