package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C01", checkInferencePure)
	reg("C02", checkDatasetUntouched)
	reg("C03", checkIndependentCopies)
}

// ptaFor analyses an entry point once per run.
func (p *Program) ptaFor(f *ssa.Function) *PTA {
	if p.ptas == nil {
		p.ptas = map[*ssa.Function]*PTA{}
	}
	if a, ok := p.ptas[f]; ok {
		return a
	}
	a := analyse(p, f)
	p.ptas[f] = a
	return a
}

// nodeTypes are the concrete node types of the repository (exported types implementing the network
// interface).
func (p *Program) nodeTypes() []*types.Named {
	n := p.named("spn", "SPN")
	if n == nil {
		return nil
	}
	var out []*types.Named
	for _, t := range p.implementers(n.Underlying().(*types.Interface)) {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		nt, ok := t.(*types.Named)
		if !ok || !nt.Obj().Exported() || nt.Obj().Name() == "Node" {
			continue
		}
		out = append(out, nt)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// methodOf returns the method m of T or *T, promoted methods included.
func (p *Program) methodOf(n *types.Named, m string) *ssa.Function {
	for _, t := range []types.Type{types.NewPointer(n), n} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), m); sel != nil {
			return p.unwrap(p.SSA.MethodValue(sel))
		}
	}
	return nil
}

func baseName(t types.Type) string {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (p *Program) isNode(t types.Type) bool {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "spn" {
			return true
		}
		for _, m := range p.nodeTypes() {
			if m == n {
				return true
			}
		}
	}
	return false
}

// scopeCache: the path of the lazily computed scope inside a node (Node.sc, possibly embedded).
func scopeCache(t types.Type, path string) bool {
	nm := pathNames(t, path)
	return nm == ".sc" || nm == ".Node.sc" || strings.HasPrefix(nm, ".sc[]") || strings.HasPrefix(nm, ".Node.sc[]")
}

// benignGlobal: process-wide state of the runtime-support package (seeded generator, log target) and
// the parameter table, which have checks of their own.
func benignGlobal(r *Root) bool {
	if r.glob == nil || r.glob.Pkg == nil {
		return false
	}
	pth := r.glob.Pkg.Pkg.Path()
	return strings.HasSuffix(pth, "/sys") || strings.HasSuffix(pth, "/learn/parameters")
}

var dpTypes = map[string]bool{"Storer": true, "StorerTable": true, "Queue": true, "Stack": true}

// isTable: the dynamic-programming tables and work lists a caller hands in to be filled.
func isTable(o *Obj) bool {
	if n, ok := o.typ.(*types.Named); ok && dpTypes[n.Obj().Name()] {
		return true
	}
	s := types.TypeString(o.typ, func(p *types.Package) string { return p.Name() })
	switch s {
	case "map[int]spn.StorerTable", "map[spn.SPN]map[int]float64", "map[int]float64", "[]interface{}", "[]any":
		return true
	}
	return false
}

func checkInferencePure(r *R) {
	p := r.p
	r.rule("points-to and effect analysis from every inference entry point: no reachable write may hit memory that existed before the call, except the caller's tables and work lists, the lazily computed scope list, and the seeded generator/parameter table")
	r.rule("returned assignments (ArgMax, StoreMAP) are memory allocated by the call, never the caller's evidence or node memory")
	var entries []*ssa.Function
	for _, n := range p.nodeTypes() {
		for _, m := range []string{"Value", "Max", "ArgMax", "Compute", "ComputeHard", "Mean", "StdDev", "MuSigma", "Pr", "Params", "Ch", "Type", "SubType", "Weights", "Height"} {
			if f := p.methodOf(n, m); f != nil && f.Blocks != nil {
				entries = append(entries, f)
			}
		}
	}
	for _, n := range []string{"Inference", "InferenceY", "StoreInference", "StoreMAP", "TraceMAP", "ComputeHeight", "ComputeScope", "Complete", "Decomposable", "BreadthFirst", "DepthFirst", "CountNodes", "TopSortTarjan", "TopSortTarjanRec", "TopSortTarjanFunc", "TopSortDFS", "PostOrder", "Marshal", "PrintSPN"} {
		if f := p.fn("spn", n); f != nil {
			entries = append(entries, f)
		}
	}
	for _, n := range []string{"DeriveSPN", "DeriveWeights", "DeriveWeightsBatch", "DeriveHard"} {
		if f := p.fn("learn", n); f != nil {
			entries = append(entries, f)
		}
	}
	for _, n := range []string{"SaveSPN", "DrawGraph", "DrawGraphTools"} {
		if f := p.fn("io", n); f != nil {
			entries = append(entries, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range entries {
		if seen[f] {
			continue
		}
		seen[f] = true
		a := p.ptaFor(f)
		bad := 0
		for _, w := range a.writes() {
			o := w.loc.o
			if o.kind != oSym && o.kind != oGlobal {
				continue
			}
			if o.root.kind == "ext" {
				continue
			}
			if o.root.kind == "global" {
				if benignGlobal(o.root) {
					continue
				}
			} else {
				if isTable(o) {
					continue
				}
				if scopeCache(o.typ, w.loc.path) {
					continue
				}
				if isEmptyIface(o.typ) {
					continue
				}
				// the scope list itself, appended to while it is computed
				if types.TypeString(o.typ.Underlying(), nil) == "[]int" && w.kind == "append in place" && appendsToScope(w.in) {
					continue
				}
				// output files and encoders
				if strings.Contains(types.TypeString(o.typ, nil), "os.File") {
					continue
				}
			}
			bad++
			r.bad("inference-effect", p.fname(f)+" writes "+a.describe(w.loc), p.ipos(w.in), w.kind+" reached by "+a.chain(w.c))
		}
		r.ok("entry point", p.fname(f))
		r.counts["writes inspected"] += len(a.writes())
		_ = bad
		// freshness of returned assignments
		if f.Name() == "ArgMax" || f.Name() == "StoreMAP" {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				t := f.Signature.Results().At(i).Type()
				if _, ok := t.Underlying().(*types.Map); !ok {
					continue
				}
				for _, l := range a.nodes[a.ret(a.root, "#"+itoa(i))].order {
					if l.o.kind == oSym || l.o.kind == oGlobal {
						if l.o.root.kind == "ext" {
							continue
						}
						r.bad("returned-assignment-aliases", p.fname(f)+" returns "+a.describe(l), p.pos(f.Pos()), "the returned assignment is not a fresh one")
					}
				}
				r.ok("returned assignment fresh", p.fname(f))
			}
		}
	}
	r.floor("entry point", 40)
	r.floor("returned assignment fresh", 5)
	r.assumes("calls out of the repository write only what the effect table in pta.go lists")
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// appendsToScope: append whose first argument is the scope field of a node, or a list read from it.
func appendsToScope(in ssa.Instruction) bool {
	cl, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	u, ok := cl.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && st.Field(fa.Field).Name() == "sc"
}

func itoa(i int) string { return string(rune('0' + i)) }

// dataParam: parameter types that carry a caller's dataset, evidence, labels or variable descriptions.
func dataParam(t types.Type) bool {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	switch s {
	case "spn.Dataset", "spn.VarSet", "[]map[int]int", "map[int]int", "[][]int", "[]int", "[][]float64", "map[int]*learn.Variable", "[]*learn.Variable", "*learn.Variable", "learn.Scope", "[]*utils.VarData", "[]spn.Dataset", "[][]map[int]int", "*utils.VarData":
		return true
	}
	return false
}

func checkDatasetUntouched(r *R) {
	p := r.p
	r.rule("for every exported function of the learning, evaluation, clustering, independence-test, statistics and output packages that takes a dataset, evidence, label list or variable table: no reachable write may hit memory of that argument")
	for _, rel := range []string{"spn", "learn", "learn/gens", "learn/poon", "learn/dennis", "score", "utils", "utils/cluster", "utils/cluster/metrics", "utils/indep", "io", "app"} {
		for _, f := range p.exported(rel) {
			idx := map[int]bool{}
			for i, prm := range f.Params {
				if dataParam(prm.Type()) {
					idx[i] = true
				}
			}
			if len(idx) == 0 {
				continue
			}
			if f.Signature.Recv() != nil && idx[0] {
				continue
			}
			a := p.ptaFor(f)
			for _, w := range a.writes() {
				o := w.loc.o
				if o.kind != oSym || o.root.kind != "param" || !idx[o.root.idx] {
					continue
				}
				r.bad("dataset-written", p.fname(f)+" writes "+a.describe(w.loc), p.ipos(w.in), w.kind+" reached by "+a.chain(w.c))
			}
			r.ok("function taking data", p.fname(f))
		}
	}
	r.floor("function taking data", 60)
}

func checkIndependentCopies(r *R) {
	p := r.p
	r.rule("every exported function of the data package leaves its dataset and label arguments unwritten (Shuffle works in place by contract) and, where it returns datasets or labels, the returned slices and instances share no memory with the arguments")
	for _, f := range p.exported("data") {
		has := false
		for _, prm := range f.Params {
			if dataParam(prm.Type()) {
				has = true
			}
		}
		if !has {
			continue
		}
		a := p.ptaFor(f)
		if f.Name() != "Shuffle" {
			for _, w := range a.writes() {
				o := w.loc.o
				if o.kind == oSym && o.root.kind == "param" {
					r.bad("argument-written", p.fname(f)+" writes "+a.describe(w.loc), p.ipos(w.in), w.kind+" reached by "+a.chain(w.c))
				}
			}
			r.ok("arguments unwritten", p.fname(f))
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if !dataParam(t) || strings.Contains(t.String(), "Variable") {
				continue
			}
			var st []Loc
			st = append(st, a.nodes[a.ret(a.root, "#"+itoa(i))].order...)
			for o := range a.reach(st) {
				if (o.kind == oSym || o.kind == oGlobal) && o.root.kind != "ext" {
					r.bad("result-aliases", p.fname(f)+" result shares "+a.describe(Loc{o, ""}), p.pos(f.Pos()), "the returned dataset is not an independent copy")
				}
			}
			r.ok("result independent", p.fname(f)+" result "+itoa(i))
		}
	}
	r.floor("arguments unwritten", 10)
	r.floor("result independent", 14)
}
