package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	dump := flag.String("dump", "", "debug: dump SSA of functions whose name contains this")
	wantc := flag.String("call", "", "debug: calls to show")
	form := flag.String("form", "", "debug: print the forms of a function")
	inl := flag.Int("loop", -1, "debug: events of this loop only")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	start := time.Now()
	p, err := loadProgram(*repo)
	if *dump != "" {
		for _, f := range p.Funcs {
			if contains(p.fname(f), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *form != "" {
		vs := newValues(p)
		for _, f := range p.Funcs {
			if p.fname(f) != *form {
				continue
			}
			fr := vs.root(f)
			for i := 0; i < f.Signature.Results().Len(); i++ {
				fmt.Printf("result %d: %s\n", i, vs.retForm(fr, i))
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				for _, m := range vs.resultStruct(fr, i) {
					for k, v := range m {
						fmt.Printf("  field %s = %s\n", k, v)
					}
				}
			}
			for _, l := range vs.nest(f).all {
				fmt.Printf("loop %d (block %d, depth %d): %s\n", l.id, l.head.Index, l.depth, vs.dom(fr, l))
			}
			for _, l := range vs.nest(f).all {
				seen := map[*Form]bool{}
				for _, e := range vs.arrEvents(fr) {
					if l.in[e.in.Block()] && !seen[e.base] && l.depth == 0 {
						seen[e.base] = true
						fmt.Printf("  contents of %s after an iteration of %d: %s\n", e.base, l.id, vs.contentsAfter(fr, l, e.base, vs.z.atom("leaf", "slot")))
					}
				}
			}
			var lp *loop
			if *inl >= 0 {
				lp = vs.nest(f).all[*inl]
			}
			if strings.HasPrefix(*wantc, "=") {
				ns := strings.Split((*wantc)[1:], ",")
				all := strings.Contains(*wantc, "@")
				vs.wantFields = all
				for _, e := range vs.events(fr, lp, func(n string) bool {
					for _, m := range ns {
						if strings.HasPrefix(n, m) {
							return true
						}
					}
					return false
				}) {
					if e.kind == "call" {
						fmt.Printf("%s: %s%v\n   when %s loops", p.ipos(e.in), e.name, e.args, e.guard)
						for _, l := range e.loops {
							fmt.Printf(" %s", l.dom)
						}
						fmt.Println()
					} else if all {
						fmt.Printf("%s: %s %s.%s[%s] = %s\n   when %s loops", p.ipos(e.in), e.kind, e.base, e.name, e.key, e.val, e.guard)
						for _, l := range e.loops {
							fmt.Printf(" %s", l.dom)
						}
						fmt.Println()
					}
				}
				continue
			}
			for _, e := range vs.events(fr, lp, func(n string) bool { return isGive(n) || isTake(n) || *wantc != "" && strings.Contains(n, *wantc) }) {
				if e.kind == "call" {
					fmt.Printf("call %s: %s%v\n   when %s loops %d\n", p.ipos(e.in), e.name, e.args, e.guard, len(e.loops))
					continue
				}
				fmt.Printf("%s %s: %s[%s] = %s\n   when %s loops %d\n", e.kind, p.ipos(e.in), e.base, e.key, e.val, e.guard, len(e.loops))
			}
		}
		return
	}
	os.Exit(runProps(p, err, *prop, *verif, *tier, start))
}

var _ = fmt.Sprint
