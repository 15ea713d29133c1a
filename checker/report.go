package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func contains(s, t string) bool { return strings.Contains(s, t) }

// Viol is one violated obligation, identified by rule and construct (never by line number).
type Viol struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

func (v Viol) key() string { return v.Rule + "|" + v.Construct }

// R accumulates what a check looked at and what it found.
type R struct {
	p      *Program
	id     string
	rules  []string
	counts map[string]int
	sample map[string][]string
	viols  []Viol
	seen   map[string]bool
	assume []string
	floors map[string]int
}

func newR(p *Program, id string) *R {
	return &R{p: p, id: id, counts: map[string]int{}, sample: map[string][]string{}, seen: map[string]bool{}, floors: map[string]int{}}
}

func (r *R) rule(s string)    { r.rules = append(r.rules, s) }
func (r *R) assumes(s string) { r.assume = append(r.assume, s) }

// ok records a discharged obligation of the given class.
func (r *R) ok(class, what string) {
	r.counts[class]++
	if len(r.sample[class]) < 400 {
		r.sample[class] = append(r.sample[class], what)
	}
}

func (r *R) bad(rule, construct, where, detail string) {
	v := Viol{rule, construct, where, detail}
	k := v.key() + "|" + where
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viols = append(r.viols, v)
}

// floor fails the check if fewer obligations of a class than were confirmed by hand were found: a
// rule that matches nothing would otherwise pass vacuously.
func (r *R) floor(class string, n int) {
	r.floors[class] = n
}

type checkFn func(r *R)

type checkDef struct {
	fn    checkFn
	level string
}

var checks = map[string]checkDef{}

func reg(id string, fn checkFn) { checks[id] = checkDef{fn, "other"} }

type knownFinding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

func loadKnown(verif string) ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var k struct {
		Known []knownFinding `json:"known"`
	}
	err = json.Unmarshal(b, &k)
	return k.Known, err
}

func runProps(p *Program, lerr error, id, verif, tier string, start time.Time) int {
	if id == "all" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		rc := 0
		for _, k := range ids {
			t := time.Now()
			if c := runProp(p, lerr, k, verif, tier, t); c != 0 {
				rc = 1
			}
		}
		return rc
	}
	return runProp(p, lerr, id, verif, tier, start)
}

func runProp(p *Program, lerr error, id, verif, tier string, start time.Time) int {
	d, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	r := newR(p, id)
	if lerr != nil {
		r.bad("load", "repository", "/repo", "the repository does not load and type-check: "+lerr.Error())
	} else {
		func() {
			defer func() {
				if e := recover(); e == outOfTime {
					r.ok("undecided", "the rest: out of time")
				} else if e != nil {
					r.bad("analysis", "internal", "checker", fmt.Sprintf("analysis failed: %v\n%s", e, debug.Stack()))
				}
			}()
			d.fn(r)
		}()
		var cl []string
		for c := range r.floors {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		for _, c := range cl {
			if r.counts[c] < r.floors[c] && !timedOut {
				r.bad("instance-floor", c, "repository", fmt.Sprintf("only %d instances of %q found, %d were confirmed: the rule no longer sees the code it decides", r.counts[c], c, r.floors[c]))
			}
		}
	}
	known, kerr := loadKnown(verif)
	if kerr != nil {
		r.bad("known-findings", "known_findings.json", "verif", kerr.Error())
	}
	var open []Viol
	nk := 0
	printed := map[string]bool{}
	for _, v := range r.viols {
		hit := false
		for _, k := range known {
			if k.Property == id && k.Rule == v.Rule && k.Construct == v.Construct {
				hit = true
				nk++
				if !printed[k.Rule+k.Construct] {
					printed[k.Rule+k.Construct] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, k.What, v.Construct, v.Where)
				}
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	total := 0
	for _, n := range r.counts {
		total += n
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": 1, "level": d.level,
		"coverage": map[string]interface{}{
			"explanation": "static analysis of the type-checked SSA form of /repo's current tree; nothing is executed. Rules: " + strings.Join(r.rules, " | "),
			"obligations": total,
			"by_class":    r.counts,
			"instances":   r.sample,
			"functions":   nfuncs(p),
			"packages":    npkgs(p),
			"known":       nk,
			"open":        len(open),
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(open), "assumptions": append([]string{}, r.assume...),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rep := filepath.Join(verif, "evidence", id+".report.txt")
	if len(open) == 0 {
		os.Remove(rep)
		fmt.Printf("OK property=%s obligations=%d functions=%d wall=%.1fs\n", id, total, nfuncs(p), time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: [%s/%s] %s: %s\n", v.Where, id, v.Rule, v.Construct, v.Detail)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

func nfuncs(p *Program) int {
	if p == nil {
		return 0
	}
	return len(p.Funcs)
}
func npkgs(p *Program) int {
	if p == nil {
		return 0
	}
	return len(p.Pkgs)
}
