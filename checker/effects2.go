package main

import (
	"go/ast"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C08", checkRandomness)
	reg("C18", checkFileEffects)
	reg("C22", checkQuiet)
}

var libPkgs = []string{"spn", "learn", "learn/gens", "learn/poon", "learn/dennis", "learn/parameters", "utils", "utils/cluster", "utils/cluster/metrics", "utils/indep", "conc", "common", "score", "data"}

func inList(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// callsIn visits every call, go and defer of a function.
func callsIn(f *ssa.Function, visit func(ssa.CallInstruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				visit(c)
			}
		}
	}
}

// refsTo lists every use of a package-level function or variable as an operand.
func usesOf(f *ssa.Function, visit func(in ssa.Instruction, v ssa.Value)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function, *ssa.Global:
					visit(in, v)
				}
			}
		}
	}
}

func extFuncName(v ssa.Value) string {
	f, ok := v.(*ssa.Function)
	if !ok {
		return ""
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return f.String()
}

// ---- randomness ----

func checkRandomness(r *R) {
	p := r.p
	r.rule("in the network, learning, clustering, evaluation and support packages no function refers to another source of randomness than the seeded generator of package sys (math/rand package functions, new generators, crypto/rand, hash/maphash, clock values, process ids)")
	r.rule("in package sys the generator is replaced only together with the recorded seed, is built from exactly that seed, and every random function draws from it")
	scope := []string{"spn", "learn", "learn/gens", "learn/poon", "learn/dennis", "learn/parameters", "utils", "utils/cluster", "utils/cluster/metrics", "utils/indep", "conc", "common", "score", "sys"}
	gen := p.global("sys", "Random")
	seed := p.global("sys", "seed")
	for _, f := range p.Funcs {
		rel := p.rel(f)
		if !inList(rel, scope) || f.Synthetic != "" {
			continue
		}
		r.ok("function scanned", p.fname(f))
		usesOf(f, func(in ssa.Instruction, v ssa.Value) {
			n := extFuncName(v)
			bad := ""
			switch {
			case strings.HasPrefix(n, "math/rand/v2."), strings.HasPrefix(n, "crypto/rand."), strings.HasPrefix(n, "hash/maphash."):
				bad = n
			case n == "math/rand.New" || n == "math/rand.NewSource":
				if rel != "sys" {
					bad = n
				}
			case strings.HasPrefix(n, "math/rand."):
				bad = n
			case n == "time.Now" && rel != "sys", n == "os.Getpid", strings.HasPrefix(n, "time.Since") && rel != "sys":
				// clock values are not random numbers, but would make results differ between runs; none is used today
				if feedsRandom(in) {
					bad = n
				}
			}
			if bad != "" {
				r.bad("unseeded-randomness", p.fname(f)+" uses "+bad, p.ipos(in), "random choices must be drawn from the seeded generator")
			}
			if g, ok := v.(*ssa.Global); ok && g == gen {
				if rel != "sys" {
					r.bad("generator-bypassed", p.fname(f)+" uses sys.Random directly", p.ipos(in), "the shared generator is reached without its lock")
				}
			}
		})
	}
	// the generator and its recorded seed change together, whatever helpers do it
	for _, f := range p.Funcs {
		if p.rel(f) != "sys" || f.Parent() != nil || gen == nil || seed == nil {
			continue
		}
		if f.Synthetic != "" || !(ast.IsExported(f.Name()) || strings.HasPrefix(f.Name(), "init")) {
			continue
		}
		a := p.ptaFor(f)
		type gs struct {
			c  *Ctx
			st *ssa.Store
		}
		var gens, seeds []gs
		for _, c := range a.Ctxs {
			for _, b := range c.blocks() {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if st.Addr == ssa.Value(gen) {
							gens = append(gens, gs{c, st})
						}
						if st.Addr == ssa.Value(seed) {
							seeds = append(seeds, gs{c, st})
						}
					}
				}
			}
		}
		again := false // the generator itself is started again
		for _, c := range a.Ctxs {
			for _, b := range c.blocks() {
				for _, in := range b.Instrs {
					if !reseeds(a, c, in, gen) {
						continue
					}
					again = true
					src := a.term(c, allArgs(in.(ssa.CallInstruction).Common())[1])
					ok := src.op == "glob" && src.sym == seed.String()
					for _, s := range seeds {
						ok = ok || src.key == a.term(s.c, s.st.Val).key
					}
					if !ok {
						r.bad("generator-seed-mismatch", p.fname(f)+" restarts the generator", p.ipos(in), "the generator is not started from the recorded seed")
					} else {
						r.ok("generator replacement", p.fname(f))
					}
				}
			}
		}
		for _, g := range gens {
			src := seedTerm(a, g.c, g.st.Val)
			ok := false
			for _, s := range seeds {
				if src != nil && (src.key == a.term(s.c, s.st.Val).key || (src.op == "glob" && src.sym == seed.String())) {
					ok = true
				}
			}
			if !ok {
				r.bad("generator-seed-mismatch", p.fname(f)+" replaces the generator", p.ipos(g.st), "the new generator is not built from the recorded seed")
			} else {
				r.ok("generator replacement", p.fname(f))
			}
		}
		if len(seeds) > 0 && len(gens) == 0 && !again {
			r.bad("seed-without-generator", p.fname(f)+" changes the recorded seed only", p.ipos(seeds[0].st), "the generator is not rebuilt from the new seed")
		}
		// the generator is not rebuilt from a seed that is recorded only afterwards
		for _, g := range gens {
			src := seedTerm(a, g.c, g.st.Val)
			if src == nil || src.op != "glob" {
				continue
			}
			for _, s := range seeds {
				if s.c == g.c && !domInstr(s.st, g.st) {
					r.bad("generator-before-seed", p.fname(f)+" builds the generator before recording the seed", p.ipos(g.st), "the generator is built from the previous seed")
				}
			}
		}
	}
	if f := p.fn("sys", "RefreshRandom"); f == nil {
		r.bad("anchor", "sys.RefreshRandom", "sys/rand.go", "the reseeding function was not found")
	} else {
		a := p.ptaFor(f)
		replaces := func(c *Ctx, in ssa.Instruction) bool {
			if st, ok := in.(*ssa.Store); ok {
				return st.Addr == ssa.Value(gen)
			}
			return reseeds(a, c, in, gen)
		}
		done := false
		for _, c := range a.Ctxs {
			for _, b := range c.blocks() {
				for _, in := range b.Instrs {
					done = done || replaces(c, in)
				}
			}
		}
		if in := a.avoids(a.root, replaces, map[*Ctx]bool{}); done && in != nil {
			r.bad("does-not-reseed", "sys.RefreshRandom", p.ipos(in), "on a path to here the generator is not started afresh")
		}
		if !done {
			r.bad("does-not-reseed", "sys.RefreshRandom", p.pos(f.Pos()), "the generator is not replaced")
		}
		for _, c := range a.Ctxs {
			for _, b := range c.blocks() {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(seed) {
						if o := a.origin(c, st.Val); o.v != ssa.Value(f.Params[0]) {
							r.bad("wrong-seed", "sys.RefreshRandom", p.ipos(st), "the recorded seed is not the caller's: "+a.term(c, st.Val).String())
						}
					}
				}
			}
		}
	}
	if f := p.fn("sys", "Seed"); f != nil && seed != nil {
		a := p.ptaFor(f)
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if t := a.term(a.root, ret.Results[0]); t.op == "const" || t.op == "bin" || t.op == "lin" && (t.c0 != 0 || len(t.lin) != 1) {
					r.bad("wrong-seed", "sys.Seed", p.ipos(ret), "the seed reported is "+t.String())
				} else {
					r.ok("seed reported", "sys.Seed")
				}
			}
		}
	}
	// every drawing function draws from the generator
	if s := p.SPkg["sys"]; s != nil {
		for _, n := range []string{"RandIntn", "RandFloat64", "RandNormFloat64", "RandomComb", "RandShuffle"} {
			f := s.Func(n)
			if f == nil {
				continue
			}
			a := p.ptaFor(f)
			draws := false
			for _, e := range a.extCalls {
				if strings.HasPrefix(e.name, "(*math/rand.Rand).") {
					o := a.origin(e.c, allArgs(e.site.Common())[0])
					if u, ok := o.v.(*ssa.UnOp); ok && u.X == ssa.Value(gen) {
						draws = true
					}
				}
			}
			if !draws {
				r.bad("does-not-draw", "sys."+n, p.pos(f.Pos()), "the function does not draw from the seeded generator")
			} else {
				r.ok("drawing function", "sys."+n)
			}
		}
	}
	if gen == nil || seed == nil {
		r.bad("anchor", "sys generator", "sys/rand.go", "the seeded generator and its seed were not found")
	}
	r.floor("function scanned", 200)
	r.floor("generator replacement", 1)
	r.floor("drawing function", 4)
	r.assumes("the third-party k-means library seeds itself; its draws are outside the repository and excluded from the statement")
}

// reseeds: a call of the generator's own Seed.
func reseeds(a *PTA, c *Ctx, in ssa.Instruction, gen *ssa.Global) bool {
	ci, ok := in.(*ssa.Call)
	if !ok || calleeFull(ci.Common()) != "(*math/rand.Rand).Seed" {
		return false
	}
	o := a.origin(c, allArgs(ci.Common())[0])
	u, ok := o.v.(*ssa.UnOp)
	return ok && u.X == ssa.Value(gen)
}

// avoids: a return of the context's function that can be reached without an instruction that
// satisfies pred (nil when every return is preceded by one).
func (a *PTA) avoids(c *Ctx, pred func(*Ctx, ssa.Instruction) bool, busy map[*Ctx]bool) ssa.Instruction {
	if busy[c] {
		return nil
	}
	busy[c] = true
	defer delete(busy, c)
	does := func(in ssa.Instruction) bool {
		if pred(c, in) {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, ok := in.(*ssa.Go); ok {
			return false
		}
		ks := a.callees[callKey{c, ci}]
		for _, k := range ks {
			if a.avoids(k, pred, busy) != nil {
				return false
			}
		}
		return len(ks) > 0
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{c.fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit := false
		for _, in := range b.Instrs {
			if does(in) {
				hit = true
				break
			}
			if _, ok := in.(*ssa.Return); ok {
				return in
			}
		}
		if !hit {
			work = append(work, b.Succs...)
		}
	}
	return nil
}

func feedsRandom(in ssa.Instruction) bool { return true }

// seedTerm gives x for a generator built as rand.New(rand.NewSource(x)).
func seedTerm(a *PTA, c *Ctx, v ssa.Value) *Term {
	o := a.origin(c, v)
	nw, ok := o.v.(*ssa.Call)
	if !ok || calleeFull(nw.Common()) != "math/rand.New" {
		return nil
	}
	so := a.origin(o.c, nw.Call.Args[0])
	src, ok := so.v.(*ssa.Call)
	if !ok || calleeFull(src.Common()) != "math/rand.NewSource" {
		return nil
	}
	return a.term(so.c, src.Call.Args[0])
}

// ---- file effects ----

// fileWrite classifies calls that create, truncate, remove or rename files.
func fileWrite(name string, cc *ssa.CallCommon) bool {
	switch name {
	case "os.Create", "os.CreateTemp", "os.WriteFile", "io/ioutil.WriteFile", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Chmod", "os.Link", "os.Symlink", "os.Chtimes", "(*os.File).Truncate", "(*os.File).Chmod", "(*os.Root).Create", "(*os.Root).OpenFile", "os.CopyFS":
		return true
	case "os.OpenFile":
		if len(cc.Args) >= 2 {
			if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil {
				if n, ok := constant.Int64Val(k.Value); ok && n == 0 {
					return false
				}
			}
		}
		return true
	}
	return strings.HasPrefix(name, "os/exec.") || strings.HasPrefix(name, "syscall.")
}

func checkFileEffects(r *R) {
	p := r.p
	r.rule("call-graph reachability from every exported entry point: inference, learning, clustering, evaluation, dataset manipulation and every reader reach no call that creates, truncates, renames or removes a file")
	r.rule("where an entry point does write a file, the path it opens for writing is computed from the path arguments the caller gave")
	writers := map[string]bool{"spn.PrintSPN": true, "score.(*S).Save": true, "(*score.S).Save": true, "sys.SetLogFile": true}
	isReader := func(f *ssa.Function) bool {
		n := f.Name()
		if f.Signature.Recv() != nil {
			return true
		}
		return strings.HasPrefix(n, "Parse") || strings.HasPrefix(n, "Load") || strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "New") || strings.HasPrefix(n, "Get") || n == "SplitHalf"
	}
	for _, rel := range append(append([]string{}, libPkgs...), "io", "sys") {
		for _, f := range p.exported(rel) {
			if rel == "data" && p.pos(f.Pos())[:len("data/datasets")] == "data/datasets" {
				continue
			}
			name := p.fname(f)
			a := p.ptaFor(f)
			mayWrite := writers[name] || (rel == "io" && !isReader(f))
			n := 0
			for _, e := range a.extCalls {
				if !fileWrite(e.name, e.site.Common()) {
					continue
				}
				n++
				if !mayWrite {
					r.bad("file-effect", name+" reaches "+e.name, p.ipos(e.site), "reached by "+a.chain(e.c))
					continue
				}
				// path derived from the caller's arguments
				args := e.site.Common().Args
				if len(args) > 0 && isString(args[0].Type()) {
					if !derivesFromParam(a, e.c, args[0]) {
						r.bad("unasked-path", name+" writes through "+e.name, p.ipos(e.site), "the path does not derive from any argument: "+a.term(e.c, args[0]).String())
					} else {
						r.ok("written path from argument", name+" "+e.name)
					}
				}
			}
			if !mayWrite {
				r.ok("entry point without file effects", name)
			}
		}
	}
	r.floor("entry point without file effects", 200)
	r.floor("written path from argument", 10)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// derivesFromParam: does the value depend on a parameter of the entry point (through arithmetic,
// calls, memory)?
func derivesFromParam(a *PTA, c *Ctx, v ssa.Value) bool {
	seen := map[TV]bool{}
	var rec func(c *Ctx, v ssa.Value) bool
	rec = func(c *Ctx, v ssa.Value) bool {
		o := a.origin(c, v)
		if seen[o] {
			return false
		}
		seen[o] = true
		if prm, ok := o.v.(*ssa.Parameter); ok {
			if o.c == a.root {
				return true
			}
			// a parameter fed from several calls
			i := paramIndex(prm)
			for _, e := range o.c.ins {
				if arg := argOf(e.site, o.c.fn, i); arg != nil && rec(e.ctx, arg) {
					return true
				}
			}
			return false
		}
		if call, ok := o.v.(*ssa.Call); ok {
			for _, k := range a.callees[callKey{o.c, call}] {
				for _, b := range k.fn.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range rt.Results {
							if rec(k, x) {
								return true
							}
						}
					}
				}
			}
		}
		if ex, ok := o.v.(*ssa.Extract); ok {
			if rec(o.c, ex.Tuple) {
				return true
			}
			return false
		}
		if in, ok := o.v.(ssa.Instruction); ok {
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op != nil {
					if rec(o.c, *op) {
						return true
					}
				}
			}
		}
		if al, ok := o.v.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && rec(o.c, st.Val) {
					return true
				}
				// buffers: what was written into them flows out of them
				if cl, ok := ref.(ssa.CallInstruction); ok {
					for _, x := range allArgs(cl.Common()) {
						if x != ssa.Value(al) && rec(o.c, x) {
							return true
						}
					}
				}
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && rec(o.c, st.Val) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(c, v)
}

// ---- quiet unless verbose ----

func checkQuiet(r *R) {
	p := r.p
	r.rule("every call that can reach standard output or standard error from the network, learning, clustering, evaluation, dataset and support packages is executed only when verbose logging is on, or reports a failure (an error or failed lookup is known there) immediately before the operation is abandoned")
	verbose := p.global("sys", "Verbose")
	fout := p.global("sys", "fout")
	if verbose == nil {
		r.bad("anchor", "sys.Verbose", "sys/vars.go", "the verbosity switch was not found")
		return
	}
	for _, rel := range append(append([]string{}, libPkgs...), "sys") {
		for _, f := range p.exported(rel) {
			if rel == "data" && strings.HasPrefix(p.pos(f.Pos()), "data/datasets") {
				continue
			}
			a := p.ptaFor(f)
			for _, e := range a.extCalls {
				cc := e.site.Common()
				if !printsOut(a, e.c, e.name, cc, fout) {
					continue
				}
				r.counts["print call inspected"]++
				if a.guardedBy(e.c, e.site.Block(), func(fc Fact) bool {
					t := a.term(fc.c, fc.v)
					return fc.pol && t.op == "glob" && t.sym == verbose.String()
				}) {
					r.counts["guarded by verbosity"]++
					continue
				}
				if a.failurePath(e.c, e.site) {
					r.counts["failure report"]++
					continue
				}
				r.bad("prints-unconditionally", p.fname(e.c.fn)+" calls "+e.name, p.ipos(e.site), "output without verbose logging, reached by "+a.chain(e.c))
			}
			// builtin print/println
			for _, c := range a.Ctxs {
				callsIn(c.fn, func(ci ssa.CallInstruction) {
					if b, ok := ci.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
						if !a.failurePath(c, ci) {
							r.bad("prints-unconditionally", p.fname(c.fn)+" calls "+b.Name(), p.ipos(ci), "output without verbose logging")
						}
					}
				})
			}
			r.ok("entry point", p.fname(f))
		}
	}
	r.floor("entry point", 180)
	r.floor("guarded by verbosity", 20)
	delete(r.counts, "")
}

// guardedBy: some condition known at the block satisfies pred, on every way into the context.
func (a *PTA) guardedBy(c *Ctx, b *ssa.BasicBlock, pred func(Fact) bool) bool {
	return a.guarded(c, b, pred, map[*Ctx]bool{})
}

func (a *PTA) guarded(c *Ctx, b *ssa.BasicBlock, pred func(Fact) bool, seen map[*Ctx]bool) bool {
	for _, f := range a.blockFacts(c, b) {
		if pred(f) {
			return true
		}
	}
	if c == nil || len(c.ins) == 0 || seen[c] {
		return false
	}
	seen[c] = true
	n := 0
	for _, e := range c.ins {
		if seen[e.ctx] && e.ctx == c {
			continue // recursive entry: covered by the outer ones
		}
		n++
		if !a.guarded(e.ctx, e.site.Block(), pred, seen) {
			return false
		}
	}
	return n > 0
}

// failurePath: the call happens where an error is known and the function is left right after it.
func (a *PTA) failurePath(c *Ctx, site ssa.CallInstruction) bool {
	b := site.Block()
	for q := c; q != nil; {
		if exitsDirectly(b) {
			for _, f := range a.blockFacts(q, b) {
				if a.errFact(f) {
					return true
				}
			}
		}
		if len(q.ins) != 1 {
			return false
		}
		b = q.ins[0].site.Block()
		q = q.ins[0].ctx
	}
	return false
}

func printsOut(a *PTA, c *Ctx, name string, cc *ssa.CallCommon, fout *ssa.Global) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "log.Output"):
		return true
	case strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "(*os.File).Write"), name == "io.WriteString":
		for _, l := range a.pts(c, allArgs(cc)[0]) {
			if l.o.root != nil && l.o.root.glob != nil {
				g := l.o.root.glob
				if g == fout || g.String() == "os.Stdout" || g.String() == "os.Stderr" {
					return true
				}
			}
		}
	}
	return false
}
