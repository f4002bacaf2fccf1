package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type check struct {
	id    string
	rule  string
	run   func(p *Program, r *Report)
	floor map[string]int // rule -> least number of instances per configuration
}

var checks = map[string]*check{}

func register(id, rule string, floor map[string]int, run func(p *Program, r *Report)) {
	checks[id] = &check{id: id, rule: rule, run: run, floor: floor}
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "evidence directory")
	known := flag.String("known", "", "known findings file")
	verbose := flag.Bool("v", false, "print obligations")
	flag.Parse()
	if *prop == "list" {
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
		return
	}
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = sortedKeys(checks)
	}
	code := 0
	for _, id := range props {
		if runCheck(id, *repo, *tier, *out, *known, *verbose) {
			code = 1
		}
	}
	os.Exit(code)
}

// configurations a rule needs in the quick tier as well
var extraConfigs = map[string][]Config{}

var cfg386 = Config{Name: "linux/386", Env: []string{"GOOS=linux", "GOARCH=386", "CGO_ENABLED=0"}}

var progCache = map[string]*Program{}

func runCheck(id, repo, tier, out, known string, verbose bool) (bad bool) {
	start := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Printf("unknown property %s\n", id)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return true
	}
	cfgs := []Config{{Name: "default"}, {Name: "extended", Tags: "extended"}}
	if tier != "thorough" {
		cfgs = append(cfgs, extraConfigs[id]...)
	} else {
		cfgs = append(cfgs,
			Config{Name: "windows/amd64", Env: []string{"GOOS=windows", "GOARCH=amd64", "CGO_ENABLED=0"}},
			cfg386,
			Config{Name: "darwin/arm64 extended", Tags: "extended", Env: []string{"GOOS=darwin", "GOARCH=arm64", "CGO_ENABLED=0"}})
	}
	var all []Violation
	seen := map[string]bool{}
	obligations := map[string]int{}
	cov := map[string]any{}
	var perCfg []any
	funcs := map[string]bool{}
	sites := map[string]bool{}
	paths, steps, joins, calls := 0, 0, 0, 0
	for _, cfg := range cfgs {
		r := func() (r *Report) {
			key := repo + "|" + cfg.Name
			p := progCache[key]
			if p == nil {
				dir, err := os.MkdirTemp("", "watercheck")
				if err != nil {
					r = newReport(&Program{}, id)
					r.Violations = append(r.Violations, Violation{Key: "load:" + cfg.Name, Msg: err.Error()})
					return r
				}
				defer os.RemoveAll(dir)
				p, err = loadProgram(repo, cfg, dir)
				if err != nil {
					r = newReport(&Program{}, id)
					r.Violations = append(r.Violations, Violation{Key: "load:" + cfg.Name, Msg: err.Error()})
					return r
				}
				progCache[key] = p
			}
			r = newReport(p, id)
			r.Tier = tier
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("WC_TRACE") != "" {
						panic(e)
					}
					r.Violations = append(r.Violations, Violation{Key: "internal:" + cfg.Name, Msg: fmt.Sprintf("the checker failed: %v", e), Path: strings.Split(string(debug.Stack()), "\n")})
				}
			}()
			if err := p.findRoles(); err != "" {
				r.missing(err)
				return r
			}
			c.run(p, r)
			for _, k := range sortedKeys(c.floor) {
				r.need(k, c.floor[k])
			}
			return r
		}()
		for _, v := range r.Violations {
			if !seen[v.Key] {
				seen[v.Key] = true
				v.Msg = "[" + cfg.Name + "] " + v.Msg
				all = append(all, v)
			}
		}
		for k, n := range r.Obligations {
			obligations[k] += n
		}
		for f := range r.Funcs {
			funcs[f] = true
		}
		for f := range r.Sites {
			sites[f] = true
		}
		paths += r.Paths
		steps += r.Steps
		joins += r.Joins
		calls += r.Calls
		perCfg = append(perCfg, map[string]any{"config": cfg.Name, "obligations_by_rule": r.Obligations, "functions": len(r.Funcs), "root_paths": r.Paths})
	}
	// known findings
	listed := readKnown(known, id)
	var fresh []Violation
	for _, v := range all {
		if why, ok := listed[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s at %s (%s)\n", id, v.Key, v.Pos, why)
			continue
		}
		fresh = append(fresh, v)
	}
	total := 0
	for _, n := range obligations {
		total += n
	}
	var samples []string
	for _, s := range sortedKeys(sites) {
		samples = append(samples, s)
	}
	shown := samples
	if len(shown) > 60 {
		shown = shown[:60]
	}
	cov["explanation"] = c.rule
	cov["analysed_functions"] = sortedKeys(funcs)
	cov["functions"] = len(funcs)
	cov["call_sites"] = calls
	cov["root_paths"] = paths
	cov["abstract_steps"] = steps
	cov["loop_joins"] = joins
	cov["rule_instances"] = total
	cov["instances_by_rule"] = obligations
	cov["instance_keys_sample"] = shown
	cov["configurations"] = perCfg
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions(id),
		"wall_s":      time.Since(start).Seconds(), "violations": len(fresh),
	}
	replay := "none"
	if out != "" {
		os.MkdirAll(out, 0o755)
		if len(fresh) > 0 {
			replay = filepath.Join(out, id+".violation.txt")
			var sb strings.Builder
			for _, v := range fresh {
				fmt.Fprintf(&sb, "%s\n  %s\n  at %s\n", v.Key, v.Msg, v.Pos)
				for _, st := range v.Path {
					fmt.Fprintf(&sb, "    %s\n", st)
				}
			}
			os.WriteFile(replay, []byte(sb.String()), 0o644)
		} else {
			os.Remove(filepath.Join(out, id+".violation.txt"))
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			os.WriteFile(filepath.Join(out, id+".json"), b, 0o644)
		}
	}
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].Key < fresh[j].Key })
	for _, v := range fresh {
		fmt.Printf("%s\n    %s\n    at %s\n", v.Key, v.Msg, v.Pos)
		n := len(v.Path)
		if n > 25 && !verbose {
			v.Path = v.Path[n-25:]
		}
		for _, st := range v.Path {
			fmt.Printf("      %s\n", st)
		}
	}
	if verbose {
		for _, s := range samples {
			fmt.Println("  ok", s)
		}
	}
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return true
	}
	fmt.Printf("OK property=%s instances=%d functions=%d paths=%d wall=%.2fs\n", id, total, len(funcs), paths, time.Since(start).Seconds())
	return false
}

// readKnown reads the known findings of a property: lines
// "finding: property=<id> <key> -- <what fails>"; "fixed:" lines suppress
// nothing.
func readKnown(file, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "finding: property=" + id + " "
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := strings.TrimPrefix(l, pre)
		key, why, _ := strings.Cut(rest, " -- ")
		out[strings.TrimSpace(key)] = strings.TrimSpace(why)
	}
	return out
}

func assumptions(id string) []string {
	return []string{
		"Go type system, go/types and go/ssa (x/tools v0.52.0) represent the program faithfully; no unsafe or cgo in the module",
		"functions outside the module behave as documented (tables in effects.go)",
		"handlers supplied by users may do anything the exported API of the context allows",
	}
}
