package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: what is saved is what is loaded.

func init() { reg("C23", checkSerial) }

type serial struct{ *fx }

// textTok is one value in the text form of a node.
type textTok struct {
	in    ssa.Instruction
	call  ssa.CallInstruction
	val   ssa.Value // the value written, or the address read into
	form  *Form
	typ   types.Type
	verb  string // "v" when unformatted
	prec  string
	sep   bool // white space between this token and the one before
	loops []evLoop
	guard *Form
}

func checkSerial(r *R) {
	x := &serial{newFx(r)}
	r.rule("every node type writes and reads the same values in the same order with the same kinds, separated, without losing digits; each of its fields comes back as it was (those derived from others are derived from the restored ones); nodes are numbered in the order in which they are written, children are listed by number in their own order and attached in that order, the root is the last; files hold exactly the serialized network")
	for _, n := range r.p.nodeTypes() {
		n := n
		x.try(n.Obj().Name(), func() { x.node(n) })
	}
	if v := r.p.named("learn", "Variable"); v != nil {
		x.try("Variable", func() { x.node(v) })
	}
	x.try("registered types", func() { x.registered() })
	x.try("Marshal", func() { x.marshal() })
	x.try("Unmarshal", func() { x.unmarshal() })
	x.try("files", func() { x.files() })
	r.floor("serialization", 1)
}

// varargs: the operands of a call with a variable number of them.
func varargs(c *ssa.CallCommon) ([]ssa.Value, bool) {
	last := c.Args[len(c.Args)-1]
	if k, ok := last.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	sl, ok := last.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(k.Value)
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				v := st.Val
				if m, ok := v.(*ssa.MakeInterface); ok {
					v = m.X
				}
				out[i] = v
			}
		}
	}
	for _, v := range out {
		if v == nil {
			return nil, false
		}
	}
	return out, true
}

type verb struct {
	lit         string // text before the verb
	flags, prec string
	c           byte
}

// verbs splits a format.
func verbs(f string) (vs []verb, tail string) {
	var lit strings.Builder
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			lit.WriteByte('%')
			i++
			continue
		}
		v := verb{lit: lit.String()}
		lit.Reset()
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789", f[i]) >= 0 {
			v.flags += string(f[i])
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			v.prec = "."
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				v.prec += string(f[i])
				i++
			}
		}
		if i < len(f) {
			v.c = f[i]
		}
		vs = append(vs, v)
	}
	return vs, lit.String()
}

// noErrors: nothing fails.
func (x *serial) noErrors(g *Form) *Form {
	z := x.z
	return z.rewrite(g, func(d *Form) *Form {
		if d.op == "eq" && len(d.args) == 2 {
			for i := 0; i < 2; i++ {
				if d.args[i].op == "const" && d.args[i].sym == "nil" && d.args[1-i].op == "site" && strings.HasPrefix(d.args[1-i].sym, "call") {
					return z.tru()
				}
			}
		}
		return nil
	})
}

// tokens lists what the function writes (or reads). ok is false if part of it is not understood.
func (x *serial) tokens(fr *frame, read bool) (ts []*textTok, ok bool, why string) {
	sep, first := false, true
	known := true
	for _, e := range x.vs.events(fr, nil, func(n string) bool { return true }) {
		if e.kind != "call" {
			continue
		}
		c, isCall := e.in.(ssa.CallInstruction)
		if !isCall {
			continue
		}
		cc := c.Common()
		g := cc.StaticCallee()
		if g == nil || g.Pkg == nil {
			continue
		}
		pkg, name := g.Pkg.Pkg.Path(), g.Name()
		if pkg == "bytes" || pkg == "bufio" || pkg == "strings" || pkg == "strconv" || strings.HasPrefix(pkg, "encoding/") || pkg == "io" {
			switch {
			case pkg == "bytes" && (name == "NewBuffer" || name == "NewReader" || name == "Bytes"):
				continue
			case name == "WriteString" || name == "WriteByte" || name == "WriteRune":
				// constant text
				a := cc.Args[len(cc.Args)-1]
				if k, ok := a.(*ssa.Const); ok && k.Value != nil {
					t := k.Value.ExactString()
					if k.Value.Kind() == constant.String {
						t = constant.StringVal(k.Value)
					} else if n, ok := constant.Int64Val(k.Value); ok {
						t = string(rune(n))
					}
					if strings.TrimSpace(t) == "" && t != "" {
						sep = true
						continue
					}
				}
			}
			return nil, false, "uses " + pkg + "." + name
		}
		if pkg != "fmt" {
			for _, a := range cc.Args {
				if t := a.Type().String(); t == "*bytes.Buffer" || t == "*bytes.Reader" || t == "io.Reader" || t == "io.Writer" {
					return nil, false, "values handled in another function"
				}
			}
			continue
		}
		if e.fr != fr {
			known = false
		}
		isWrite := strings.HasPrefix(name, "Fprint")
		isRead := strings.HasPrefix(name, "Fscan")
		if !isWrite && !isRead {
			if strings.HasPrefix(name, "Sprint") || strings.HasPrefix(name, "Sscan") || strings.HasPrefix(name, "Append") {
				return nil, false, "uses fmt." + name
			}
			continue
		}
		if isWrite == read {
			return nil, false, "uses fmt." + name
		}
		vals, good := varargs(cc)
		if !good {
			return nil, false, "operands not understood"
		}
		add := func(v ssa.Value, vb, prec string, spaced bool) {
			t := &textTok{in: e.in, call: c, val: v, typ: v.Type(), verb: vb, prec: prec, sep: spaced || sep || first, loops: e.loops, guard: x.noErrors(e.guard)}
			t.form = x.vs.at(e.fr, v, e.in.Block())
			if read {
				t.typ = deref(v.Type())
			}
			ts = append(ts, t)
			sep, first = false, false
		}
		if strings.HasSuffix(name, "f") {
			k, isC := cc.Args[1].(*ssa.Const)
			if !isC || k.Value == nil {
				return nil, false, "format not constant"
			}
			vbs, tail := verbs(constant.StringVal(k.Value))
			if len(vbs) != len(vals) {
				return nil, false, "format and operands differ in number"
			}
			for i, v := range vbs {
				if strings.TrimSpace(v.lit) != "" {
					return nil, false, "text between the values"
				}
				add(vals[i], string(v.c), v.prec, v.lit != "")
			}
			if strings.TrimSpace(tail) != "" {
				return nil, false, "text between the values"
			}
			if tail != "" {
				sep = true
			}
			continue
		}
		for i, v := range vals {
			spaced := i > 0 && (strings.HasSuffix(name, "ln") || !isString(v.Type()) && !isString(vals[i-1].Type()))
			if k, isC := v.(*ssa.Const); isC && !read && k.Value != nil && k.Value.Kind() == constant.String {
				if strings.TrimSpace(constant.StringVal(k.Value)) == "" {
					sep = true
					continue
				}
				return nil, false, "text between the values"
			}
			add(v, "v", "", spaced)
		}
		if strings.HasSuffix(name, "ln") {
			sep = true
		}
	}
	return ts, known, "values handled in another function"
}

func kindOf(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	switch {
	case !ok:
		return ""
	case b.Info()&types.IsInteger != 0:
		return "integer"
	case b.Info()&types.IsFloat != 0:
		return "float"
	case b.Info()&types.IsString != 0:
		return "string"
	}
	return ""
}

// node: the text form of one type.
func (x *serial) node(n *types.Named) {
	z := x.z
	enc, dec := x.p.declared(relOf(x.p, n), n.Obj().Name(), "GobEncode"), x.p.declared(relOf(x.p, n), n.Obj().Name(), "GobDecode")
	name := n.Obj().Name()
	if enc == nil || dec == nil {
		return
	}
	rule := "serialized form"
	fe, fd := x.vs.root(enc), x.vs.root(dec)
	es, ok, why := x.tokens(fe, false)
	if !ok {
		x.undecided(name+".GobEncode", why)
		return
	}
	ds, ok, why := x.tokens(fd, true)
	if !ok {
		x.undecided(name+".GobDecode", why)
		return
	}
	for _, t := range append(append([]*textTok{}, es...), ds...) {
		if t.guard.opq || len(t.loops) > 1 {
			x.undecided(name, "a value is handled under a condition that is not understood")
			return
		}
		for _, l := range t.loops {
			if l.dom == nil || l.dom.opq || isDom(l.dom) || x.vs.breaksUnless(t, l.l) {
				x.undecided(name, "a value is handled in a loop that is not understood")
				return
			}
		}
	}
	for _, t := range es {
		if !isTrue(t.guard) {
			x.r.bad(rule, name+".GobEncode", x.p.ipos(t.in), "a value is written only when "+t.guard.String()+", but reading expects it always")
			return
		}
		if !t.sep {
			x.r.bad(rule, name+".GobEncode", x.p.ipos(t.in), "nothing separates a value from the one before it")
			return
		}
		k := kindOf(t.typ)
		if k == "float" && lossy(t) {
			x.r.bad(rule, name+".GobEncode", x.p.ipos(t.in), fmt.Sprintf("a float is written with %%%s%s, which loses digits", t.prec, t.verb))
			return
		}
	}
	if len(es) != len(ds) {
		x.r.bad(rule, name+".GobDecode", x.p.pos(dec.Pos()), fmt.Sprintf("%d kinds of values are written, %d are read", len(es), len(ds)))
		return
	}
	// what is read is what was written
	env := map[*Form]*textTok{}
	var sub func(f *Form) *Form
	sub = func(f *Form) *Form {
		return z.rewrite(f, func(d *Form) *Form {
			if d.op != "read" {
				return nil
			}
			a := d.args[0]
			if t := env[a]; t != nil {
				return t.form
			}
			if a.op == "iaddr" {
				for b, t := range env {
					if b.op == "iaddr" && b.args[0] == a.args[0] && len(t.loops) == 1 {
						return z.subst(t.form, map[string]*Form{t.loops[0].it.key: a.args[1]})
					}
				}
			}
			return nil
		})
	}
	bad := func(t *textTok, msg string) {
		x.r.bad(rule, name+".GobDecode", x.p.ipos(t.in), msg)
	}
	direct := map[string]*textTok{}
	for i, d := range ds {
		e := es[i]
		if kindOf(e.typ) != kindOf(d.typ) {
			bad(d, fmt.Sprintf("value %d is written as %s and read as %s", i+1, kindOf(e.typ), kindOf(d.typ)))
			return
		}
		if kindOf(d.typ) == "integer" && size(d.typ) < size(e.typ) {
			bad(d, fmt.Sprintf("value %d is written as %s and read as %s", i+1, e.typ, d.typ))
			return
		}
		if d.form.opq || e.form.opq {
			x.undecided(name, "a value that is not understood")
			return
		}
		if !isTrue(d.guard) {
			bad(d, fmt.Sprintf("value %d is read only when %s", i+1, d.guard))
			return
		}
		if len(e.loops) != len(d.loops) {
			bad(d, fmt.Sprintf("value %d is written %d times and read %d times", i+1, len(e.loops), len(d.loops)))
			return
		}
		if len(e.loops) == 1 {
			if got := sub(d.loops[0].dom); got != e.loops[0].dom {
				bad(d, fmt.Sprintf("value %d is written %s times and read %s times", i+1, e.loops[0].dom, got))
				return
			}
			if d.form.op == "iaddr" && d.form.args[1] != d.loops[0].it {
				if d.form.args[1].opq {
					x.undecided(name, "a value that is not understood")
					return
				}
				want := z.subst(e.form, map[string]*Form{e.loops[0].it.key: d.form.args[1]})
				if z.subst(e.form, map[string]*Form{e.loops[0].it.key: d.loops[0].it}) != want {
					bad(d, fmt.Sprintf("element %s of value %d is read into place %s", d.loops[0].it, i+1, d.form.args[1]))
					return
				}
			}
		}
		env[d.form] = e
		if f := fieldPath(d.form, fd.args[0]); f != "" {
			direct[f] = d
			want := x.fieldForm(fe.args[0], n, f)
			if want != nil && want != e.form {
				bad(d, fmt.Sprintf("field %s is read from the place where %s was written", f, e.form))
				return
			}
		}
	}
	if storesWhole(dec, n) {
		x.undecided(name, "assigned as a whole")
		return
	}
	// each field afterwards
	st := n.Underlying().(*types.Struct)
	var ret ssa.Instruction
	for _, b := range dec.Blocks {
		if q, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			g := x.noErrors(x.vs.reach(fd, nil, b))
			if isFalse(g) {
				continue
			}
			if ret != nil && ret.Block() != b {
				// several ways to succeed
				if !isTrue(g) {
					continue
				}
			}
			ret = q
		}
	}
	if ret == nil {
		x.undecided(name, "no successful return")
		return
	}
	// a field is not used before it has been read
	for f, t := range direct {
		for _, b := range dec.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || fieldPath(x.vs.at(fd, u.X, b), fd.args[0]) != f {
					continue
				}
				if _, isField := u.X.(*ssa.FieldAddr); isField && !domInstr(t.in, in) {
					bad(t, "field "+f+" is used before it is read")
					return
				}
			}
		}
	}
	// the scope, if it is set
	x.vs.wantFields = true
	for _, e := range x.vs.events(fd, nil, func(string) bool { return false }) {
		if e.kind != "field" || e.name != "sc" || e.base != fd.args[0] {
			continue
		}
		v, has := x.varField(n)
		if !has {
			continue
		}
		x.expect("serialization", rule, name+".sc after loading", dec, sub(e.val), z.atom("lit", "", z.atom("fld", v, fd.args[0])), false)
	}
	x.vs.wantFields = false
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		f := fl.Name()
		if fl.Embedded() || f == "ch" {
			continue
		}
		if direct[f] != nil {
			x.r.ok("serialization", name+"."+f+" is restored")
			continue
		}
		if inner, ok := fl.Type().Underlying().(*types.Struct); ok {
			x.nested(name, dec, fd, n, fl, inner, direct, ret, sub)
			continue
		}
		want := x.fieldForm(fe.args[0], n, f)
		got := x.vs.fieldAt(fd, fd.args[0], n, i, ret)
		if ownSite(got) {
			it := z.fresh()
			got = z.mkArr(x.vs.lenOf(got), it, x.vs.elemAt(fd, got, it, ret))
		}
		got = sub(got)
		if got.op == "arr" {
			it := z.fresh()
			got = z.mkArr(got.args[0], it, z.open(got, it))
		}
		if got == want && !x.vs.storesField(dec, n, i, map[*ssa.Function]bool{}) {
			// untouched: the field keeps its zero value
			x.r.bad(rule, name+"."+f, x.p.pos(dec.Pos()), "field "+f+" is not restored")
			continue
		}
		x.expect("serialization", rule, name+"."+f+" after loading", dec, got, want, false)
	}
}

func size(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// lossy: the format of a float drops digits.
func lossy(t *textTok) bool {
	switch t.verb {
	case "v":
		return t.prec != ""
	case "g", "G":
		if t.prec == "" {
			return false
		}
		var n int
		fmt.Sscanf(t.prec, ".%d", &n)
		return n < 17
	case "x", "X", "b":
		return t.prec != ""
	case "e", "E":
		var n int
		fmt.Sscanf(t.prec, ".%d", &n)
		return n < 16
	}
	return true
}

// fieldPath: the field of v whose address this is.
func fieldPath(a, v *Form) string {
	if !strings.HasPrefix(a.op, "addr") {
		return ""
	}
	if a.args[0] == v {
		return a.sym
	}
	if p := fieldPath(a.args[0], v); p != "" {
		return p + "." + a.sym
	}
	return ""
}

// fieldForm: the value of field f of v.
func (x *serial) fieldForm(v *Form, n *types.Named, f string) *Form {
	ps := strings.Split(f, ".")
	for i, p := range ps {
		if i+1 < len(ps) {
			v = x.z.atom("addr", p, v)
		} else {
			v = x.z.atom("fld", p, v)
		}
	}
	return v
}

// nested: fields of a field that is a structure.
func (x *serial) nested(name string, dec *ssa.Function, fd *frame, n *types.Named, fl *types.Var, st *types.Struct, direct map[string]*textTok, ret ssa.Instruction, sub func(*Form) *Form) {
	z := x.z
	rule := "serialized form"
	base := z.atom("addr", fl.Name(), fd.args[0])
	for i := 0; i < st.NumFields(); i++ {
		f := fl.Name() + "." + st.Field(i).Name()
		if direct[f] != nil {
			x.r.ok("serialization", name+"."+f+" is restored")
			continue
		}
		nt, ok := fl.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isBasic := st.Field(i).Type().Underlying().(*types.Basic); !isBasic {
			// e.g. a source of randomness
			continue
		}
		if !x.vs.storesField(dec, nt, i, map[*ssa.Function]bool{}) && !storesWhole(dec, nt) {
			x.r.bad(rule, name+"."+f, x.p.pos(dec.Pos()), "field "+f+" is not restored")
			continue
		}
		got := sub(x.vs.fieldAt(fd, base, nt, i, ret))
		if storesWhole(dec, nt) && got == z.atom("fld", st.Field(i).Name(), base) {
			x.undecided(name+"."+f, "assigned as a whole")
			continue
		}
		if name == "Multinomial" && fl.Name() == "mode" {
			pr := z.atom("fld", "pr", fd.args[0])
			n := x.vs.lenOf(pr)
			it := z.fresh()
			switch st.Field(i).Name() {
			case "index":
				want := z.argidx("max", n, it, z.idx(pr, it), z.num(0))
				x.expect("serialization", rule, name+"."+f+" after loading", dec, got, want, false)
			case "val":
				x.expect("serialization", rule, name+"."+f+" after loading", dec, positiveMax(z, got), x.over("max", n, func(i *Form) *Form { return z.idx(pr, i) }), false)
			}
			continue
		}
		if got.opq {
			x.undecided(name+"."+f, "not understood")
			continue
		}
		x.r.ok("serialization", name+"."+f+" is set")
	}
}

// positiveMax: the largest probability is not negative.
func positiveMax(z *forms, f *Form) *Form {
	if f.op == "max2" && len(f.args) == 2 {
		for i := 0; i < 2; i++ {
			if f.args[i].isNum(0) {
				return f.args[1-i]
			}
		}
	}
	return f
}

func storesWhole(f *ssa.Function, t types.Type) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), t) {
				return true
			}
		}
	}
	return false
}

// breaksUnless: the loop is left early for another reason than a failure.
func (vs *Values) breaksUnless(t *textTok, l *loop) bool {
	if !vs.breaks(l) {
		return false
	}
	for b := range l.in {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if l.in[s] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return true
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !isError(bo.X.Type()) && !isError(bo.Y.Type()) {
				return true
			}
		}
	}
	return false
}

func isError(t types.Type) bool { return t.String() == "error" }

// registered: every node type that can be serialized is known to the encoder.
func (x *serial) registered() {
	reg := map[string]bool{}
	dynamic := false
	for _, f := range x.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/gob" && x.p.rel(g) != "spn" || g.Name() != "Register" && g.Name() != "RegisterGobType" && g.Name() != "RegisterName" {
					continue
				}
				a := c.Common().Args[len(c.Common().Args)-1]
				if m, ok := a.(*ssa.MakeInterface); ok {
					if _, isPtr := m.X.Type().(*types.Pointer); isPtr {
						reg[baseName(m.X.Type())] = true
					}
				} else if _, ok := a.(*ssa.Parameter); !ok {
					dynamic = true
				}
			}
		}
	}
	for _, n := range x.p.nodeTypes() {
		if x.p.declared(relOf(x.p, n), n.Obj().Name(), "GobEncode") == nil {
			continue
		}
		if reg[n.Obj().Name()] {
			x.r.ok("serialization", n.Obj().Name()+" is registered")
		} else if dynamic {
			x.undecided(n.Obj().Name(), "registered by other means")
		} else {
			x.r.bad("registered type", n.Obj().Name(), x.p.pos(n.Obj().Pos()), "the node type is never registered: a network that contains it cannot be saved")
		}
	}
}

func relOf(p *Program, n *types.Named) string {
	for rel, k := range p.ByRel {
		if k.Types == n.Obj().Pkg() {
			return rel
		}
	}
	return ""
}

// marshal: numbers and lists of children.
func (x *serial) marshal() {
	z := x.z
	f := x.p.fn("spn", "Marshal")
	if f == nil {
		return
	}
	rule := "serialized network"
	var clo *ssa.Function
	for _, a := range f.AnonFuncs {
		if len(a.Params) == 1 && x.p.isSPN(a.Params[0].Type()) {
			clo = a
		}
	}
	if clo == nil {
		x.undecided("spn.Marshal", "nodes are not visited by a callback")
		return
	}
	var free []*Form
	for _, v := range clo.FreeVars {
		free = append(free, z.atom("leaf", "var:"+v.Name()))
	}
	fr := x.vs.frame(clo, []*Form{z.atom("arg", "0")}, free, nil, nil)
	Z := fr.args[0]
	evs := x.vs.events(fr, nil, func(string) bool { return true })
	var M, num *Form
	for _, e := range evs {
		if e.kind != "map" || M != nil && e.base != M {
			continue
		}
		M, num = e.base, e.val
		if e.key.opq || e.val.opq || M.opq {
			x.undecided("spn.Marshal", "numbering not understood")
			return
		}
		if e.key != Z || !isTrue(e.guard) || len(e.loops) > 0 {
			x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "the number of a node is recorded under "+e.key.String()+" when "+e.guard.String())
			return
		}
	}
	if M == nil {
		x.undecided("spn.Marshal", "no numbering found")
		return
	}
	refs, n := 0, 0
	for _, e := range evs {
		if e.kind == "elem" {
			if e.val == nil || e.val.op != "map" || e.val.args[0] != M {
				continue
			}
			refs++
			c := e.val.args[1]
			if len(e.loops) == 1 && !c.opq && e.loops[0].dom == z.length(x.ch(Z)) && c == z.idx(x.ch(Z), e.loops[0].it) && refsIn(evs, M, e.loops[0].l) == 1 {
				if b := skips(e.loops[0].l, e.in.Block()); b != nil && !numbered(b) {
					x.r.bad(rule, "spn.Marshal", x.p.ipos(b.Instrs[len(b.Instrs)-1]), "a child is listed only under a condition")
					return
				} else if b != nil {
					e.guard = z.tru()
				}
			}
			if c.opq || e.guard.opq || len(e.loops) != 1 || e.loops[0].dom.opq {
				x.undecided("spn.Marshal", "list of children not understood")
				return
			}
			l := e.loops[0]
			ch := x.ch(Z)
			if l.dom != z.length(ch) || !isTrue(e.guard) || x.vs.breaks(l.l) {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "children are listed for "+l.dom.String()+" positions when "+e.guard.String()+", not for every child")
				return
			}
			if c != z.idx(ch, l.it) {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "position "+l.it.String()+" of the list of children holds "+c.String())
				return
			}
			// a list written by position
			if e.key != nil && !e.key.isNum(0) && !e.key.opq && e.key.has(l.it) && e.key != l.it {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "child "+l.it.String()+" is listed at position "+e.key.String())
				return
			}
		}
		if e.kind == "call" && strings.HasSuffix(e.name, "Encoder.Encode") {
			n++
			if len(e.args) > 1 && num != nil && kindOfArg(e) == "integer" && e.args[1] != num && !e.args[1].opq && !num.opq && num.op != "call" {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "a node is written with number "+e.args[1].String()+" and recorded with "+num.String())
				return
			}
			if !isTrue(x.noErrors(e.guard)) && !e.guard.opq {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "a node is written only when "+e.guard.String())
				return
			}
		}
		if e.kind == "call" && strings.HasSuffix(e.name, "encodeSPN") {
			if a := e.args[len(e.args)-1]; a != Z && !a.opq {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "the node written is "+a.String())
				return
			}
			if !isTrue(x.noErrors(e.guard)) && !e.guard.opq {
				x.r.bad(rule, "spn.Marshal", x.p.ipos(e.in), "a node is written only when "+e.guard.String())
				return
			}
		}
	}
	if refs == 0 {
		x.undecided("spn.Marshal", "list of children not understood")
		return
	}
	// the walk goes on
	if r := x.vs.retForm(fr, 0); isFalse(r) {
		x.r.bad(rule, "spn.Marshal", x.p.pos(clo.Pos()), "the walk over the network stops at the first node")
		return
	} else if !isTrue(r) {
		x.undecided("spn.Marshal", "the walk may stop early")
	}
	x.r.ok("serialization", "spn.Marshal: every node is written with its number and the numbers of its children in their order")
}

// refsIn: the number of places in the loop where a child is listed.
func refsIn(evs []*event, M *Form, l *loop) (n int) {
	for _, e := range evs {
		if e.kind == "elem" && e.val != nil && e.val.op == "map" && e.val.args[0] == M && l.in[e.in.Block()] {
			n++
		}
	}
	return
}

// skips: the branch at which a round of the loop can pass by block at.
func skips(l *loop, at *ssa.BasicBlock) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{at: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.head {
			return true
		}
		if seen[b] || !l.in[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range l.head.Succs {
		if l.in[s] && s != at && walk(s) {
			// the last branch from which the block can still be reached
			for b := at.Idom(); b != nil && l.in[b]; b = b.Idom() {
				if len(b.Succs) == 2 {
					return b
				}
			}
			return l.head
		}
	}
	return nil
}

// numbered: the branch asks whether a number is recorded.
func numbered(b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	e, ok := iff.Cond.(*ssa.Extract)
	if !ok {
		return false
	}
	_, ok = e.Tuple.(*ssa.Lookup)
	return ok
}

func kindOfArg(e *event) string {
	c, ok := e.in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) < 2 {
		return ""
	}
	if m, ok := c.Common().Args[1].(*ssa.MakeInterface); ok {
		return kindOf(m.X.Type())
	}
	return ""
}

func (p *Program) isSPN(t types.Type) bool {
	n := p.named("spn", "SPN")
	return n != nil && types.Identical(t, n)
}

// place: v is loaded from element i of a slice.
func place(v ssa.Value) *ssa.IndexAddr {
	for {
		switch u := v.(type) {
		case *ssa.UnOp:
			ia, _ := u.X.(*ssa.IndexAddr)
			return ia
		case *ssa.ChangeInterface:
			v = u.X
		case *ssa.MakeInterface:
			v = u.X
		default:
			return nil
		}
	}
}

func (x *serial) unmarshal() {
	z := x.z
	f := x.p.fn("spn", "Unmarshal")
	if f == nil {
		return
	}
	rule := "serialized network"
	what := "spn.Unmarshal"
	fr := x.vs.root(f)
	evs := x.vs.events(fr, nil, func(string) bool { return true })
	bad := func(in ssa.Instruction, msg string) { x.r.bad(rule, what, x.p.ipos(in), msg) }
	// nodes go where their number says
	var M *Form
	for _, e := range evs {
		if e.kind == "elem" && e.fr == fr && x.p.isSPN(storedType(e)) {
			if e.base.opq || e.key.opq || e.guard.opq {
				x.undecided(what, "table of nodes not understood")
				return
			}
			M = e.base
			if e.key.op == "site" && strings.HasPrefix(e.key.sym, "call") {
				x.undecided(what, "where a node is kept is not understood")
				return
			}
			if e.key.op != "read" && !(len(e.loops) == 1 && e.key == e.loops[0].it) {
				bad(e.in, "a node is kept at "+e.key.String()+" instead of at its number")
				return
			}
			if !isTrue(x.noErrors(e.guard)) {
				bad(e.in, "a node is kept only when "+e.guard.String())
				return
			}
			if len(e.loops) != 1 || e.loops[0].dom.opq || x.vs.breaksUnless(nil, e.loops[0].l) {
				x.undecided(what, "loop over the nodes not understood")
				return
			}
			if e.loops[0].dom != x.vs.lenOf(M) {
				bad(e.in, e.loops[0].dom.String()+" nodes are read into "+x.vs.lenOf(M).String()+" places")
				return
			}
		}
	}
	if M == nil {
		x.undecided(what, "no table of nodes")
		return
	}
	n := 0
	for _, e := range evs {
		if e.kind != "call" || e.fr != fr || e.name != "AddChild" {
			continue
		}
		n++
		c := e.in.(ssa.CallInstruction).Common()
		recv, arg := c.Value, ssa.Value(nil)
		if !c.IsInvoke() {
			recv = c.Args[0]
		}
		arg = c.Args[len(c.Args)-1]
		p, q := place(recv), place(arg)
		if len(e.loops) == 2 && e.guard.opq {
			if b := skips(e.loops[1].l, e.in.Block()); b != nil {
				bad(b.Instrs[len(b.Instrs)-1], "a child is attached only under a condition")
				return
			}
		}
		if p == nil || q == nil || len(e.loops) != 2 || e.guard.opq {
			x.undecided(what, "attachment of children not understood")
			return
		}
		b := e.in.Block()
		ip, iq := x.vs.at(fr, p.Index, b), x.vs.at(fr, q.Index, b)
		if ip.opq || iq.opq || e.loops[0].dom.opq || e.loops[1].dom.opq {
			x.undecided(what, "attachment of children not understood")
			return
		}
		o, in := e.loops[0].it, e.loops[1].it
		if !isTrue(x.noErrors(e.guard)) {
			bad(e.in, "a child is attached only when "+e.guard.String())
			return
		}
		if x.vs.breaks(e.loops[0].l) || x.vs.breaks(e.loops[1].l) {
			x.undecided(what, "attachment stops early")
			return
		}
		if ip != o || iq.op != "idx" || iq.args[0].op != "idx" || iq.args[0].args[1] != o || iq.args[1] != in {
			if iq.op == "idx" && iq.args[0].op == "idx" && iq.args[0].args[1] == ip && iq.args[1] == in && e.loops[0].dom == x.vs.lenOf(iq.args[0].args[0]) {
				// lists taken in another order, each one whole
				a, d, ok := linearIn(ip, o)
				if ok && d.IsInt() && d.Num().CmpAbs(d.Denom()) == 0 && a != nil {
					n++
					continue
				}
			}
			bad(e.in, "node "+ip.String()+" gets child "+iq.String()+" in turn "+in.String())
			return
		}
		if e.loops[0].dom != x.vs.lenOf(iq.args[0].args[0]) && e.loops[0].dom != x.vs.lenOf(M) || e.loops[1].dom != x.vs.lenOf(iq.args[0]) {
			bad(e.in, "children are attached for "+e.loops[0].dom.String()+" nodes and "+e.loops[1].dom.String()+" positions")
			return
		}
	}
	if n == 0 {
		x.undecided(what, "children are attached by other means")
		return
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || isFalse(x.noErrors(x.vs.reach(fr, nil, b))) {
			continue
		}
		p := place(r.Results[0])
		if p == nil || x.vs.at(fr, p.X, b) != M {
			x.undecided(what, "root not understood")
			continue
		}
		if i := x.vs.at(fr, p.Index, b); i != z.sub(x.vs.lenOf(M), z.num(1)) && !i.opq {
			bad(r, "the root is node "+i.String()+", not the last one")
			return
		}
	}
	x.r.ok("serialization", "spn.Unmarshal: nodes by number, children in the order of their list, the last node is the root")
	// header
	g := x.p.fn("spn", "Marshal")
	if g == nil {
		return
	}
	var head *Form
	order := ""
	for _, e := range x.vs.events(x.vs.root(g), nil, func(string) bool { return true }) {
		if e.kind == "call" && e.name == "append" && len(e.args) == 2 && !e.args[0].opq {
			head = x.vs.lenOf(e.args[0])
		}
		if e.kind == "call" && strings.Contains(e.name, "PutUint") {
			order = strings.Replace(e.name, "PutUint", "Uint", 1)
		}
	}
	if head == nil || order == "" {
		x.undecided("header", "not understood")
		return
	}
	for _, e := range evs {
		if e.kind != "call" {
			continue
		}
		if strings.HasSuffix(e.name, "bytes.NewBuffer") || strings.HasSuffix(e.name, "bytes.NewReader") {
			if a := e.args[0]; a.op == "slice" && a.args[1] != head && !a.opq {
				bad(e.in, "the header has "+head.String()+" bytes, reading starts after "+a.args[1].String())
			}
		}
		if strings.Contains(e.name, "ndian.Uint") && e.name != order {
			bad(e.in, "the header is written for "+order+" and read with "+e.name)
		}
	}
}

func storedType(e *event) types.Type {
	if st, ok := e.in.(*ssa.Store); ok {
		return st.Val.Type()
	}
	return types.Typ[types.Invalid]
}

// files: what is written to the file and read from it.
func (x *serial) files() {
	z := x.z
	rule := "file of a network"
	call := func(fr *frame, sub string) *event {
		for _, e := range x.vs.events(fr, nil, func(string) bool { return true }) {
			if e.kind == "call" && e.fr == fr && strings.HasSuffix(e.name, sub) {
				return e
			}
		}
		return nil
	}
	res := func(e *event, i int) *Form {
		v, _ := e.in.(ssa.Value)
		if v == nil {
			return nil
		}
		for _, r := range *v.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
				return x.vs.at(e.fr, ex, e.in.Block())
			}
		}
		return nil
	}
	if f := x.p.fn("io", "SaveSPN"); f != nil && len(f.Params) == 2 {
		fr := x.vs.root(f)
		x.vs.keepCall = func(g *ssa.Function) bool { return x.p.rel(g) == "spn" }
		m, w := call(fr, "Marshal"), call(fr, "File.Write")
		if m == nil || w == nil {
			x.undecided("io.SaveSPN", "does not write the serialized network in one piece")
		} else {
			mv, _ := m.in.(ssa.Value)
			data := x.vs.at(fr, mv, m.in.Block())
			switch {
			case m.args[0] != fr.args[1] && !m.args[0].opq:
				x.r.bad(rule, "io.SaveSPN", x.p.ipos(m.in), "serializes "+m.args[0].String())
			case w.args[len(w.args)-1] != data && !w.args[len(w.args)-1].opq:
				x.r.bad(rule, "io.SaveSPN", x.p.ipos(w.in), "writes "+w.args[len(w.args)-1].String()+" instead of the serialized network")
			default:
				x.r.ok("serialization", "io.SaveSPN writes the serialized network")
			}
			got := x.vs.retForm(fr, 0)
			if e := res(w, 1); e == nil {
				x.r.bad(rule, "io.SaveSPN", x.p.ipos(w.in), "a failure to write is not reported")
			} else if !got.opq && !holds(got, e) {
				x.r.bad(rule, "io.SaveSPN", x.p.ipos(w.in), "a failure to write is not reported")
			}
			if o := call(fr, "os.Create"); o != nil {
				if o.args[0] != fr.args[0] && !o.args[0].opq {
					x.r.bad(rule, "io.SaveSPN", x.p.ipos(o.in), "creates "+o.args[0].String())
				}
				if e := res(o, 1); e == nil || !got.opq && !holds(got, e) {
					x.r.bad(rule, "io.SaveSPN", x.p.ipos(o.in), "a failure to create the file is not reported")
				}
			}
			if o := call(fr, "os.OpenFile"); o != nil {
				if c, ok := o.args[1].constant(); ok && c.IsInt() {
					const trunc, appendTo, excl = 0x200, 0x400, 0x80
					if n := c.Num().Int64(); n&appendTo != 0 || n&trunc == 0 && n&excl == 0 {
						x.r.bad(rule, "io.SaveSPN", x.p.ipos(o.in), "the old contents of the file are kept")
					}
				}
			}
		}
	}
	if f := x.p.fn("io", "LoadSPN"); f != nil && len(f.Params) == 1 {
		fr := x.vs.root(f)
		u := call(fr, "Unmarshal")
		rd := call(fr, ".ReadFile")
		if u == nil || rd == nil {
			x.undecided("io.LoadSPN", "does not read the file in one piece")
			return
		}
		data := res(rd, 0)
		switch {
		case rd.args[0] != fr.args[0] && !rd.args[0].opq:
			x.r.bad(rule, "io.LoadSPN", x.p.ipos(rd.in), "reads "+rd.args[0].String())
		case data != nil && u.args[0] != data && !u.args[0].opq:
			x.r.bad(rule, "io.LoadSPN", x.p.ipos(u.in), "decodes "+u.args[0].String()+" instead of the contents of the file")
		default:
			uv, _ := u.in.(ssa.Value)
			got := x.noErrors(x.vs.retForm(fr, 0))
			if want := x.vs.at(fr, uv, u.in.Block()); got != want && !got.opq {
				x.r.bad(rule, "io.LoadSPN", x.p.pos(f.Pos()), "returns "+got.String()+" instead of the decoded network")
			} else {
				x.r.ok("serialization", "io.LoadSPN returns the network decoded from the whole file")
			}
			if e := res(rd, 1); e == nil || !x.vs.retForm(fr, 1).opq && !holds(x.vs.retForm(fr, 1), e) {
				x.r.bad(rule, "io.LoadSPN", x.p.ipos(rd.in), "a failure to read is not reported")
			}
		}
	}
	_ = z
}

// varField: the field of a leaf that holds its variable.
func (x *serial) varField(n *types.Named) (string, bool) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "varid" && kindOf(f.Type()) == "integer" {
			return f.Name(), true
		}
	}
	return "", false
}
