package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kframe is a function in the context it is looked at: the call that leads
// into it, or, of a closure, the function that made it.
type kframe struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	up   *kframe // frame of the call
	lex  *kframe // frame of the enclosing function
	n    int
}

func (f *kframe) String() string {
	var s []string
	for ; f != nil; f = f.up {
		s = append(s, shortFn(f.fn))
		for f.call == nil && f.lex != nil {
			f = f.lex
		}
	}
	return strings.Join(s, " < ")
}

// term is the symbolic value of an expression.
type term struct {
	op   string // lit cat call invoke param field alloc struct phi elem func global const ?
	lit  string
	args []*term
	val  ssa.Value
	fn   *ssa.Function
	fr   *kframe
	key  string
}

func (t *term) String() string {
	if t == nil {
		return "?"
	}
	switch t.op {
	case "lit":
		return fmt.Sprintf("%q", t.lit)
	case "param":
		return "param " + t.lit
	case "alloc", "struct":
		return t.op
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return t.op + ":" + t.lit + "(" + strings.Join(as, ",") + ")"
}

// id tells terms apart.
func (t *term) id() string {
	if t.key == "" {
		t.key = t.id1()
		if len(t.key) > 2000 {
			h := sha256.Sum256([]byte(t.key))
			t.key = t.key[:200] + "#" + hex.EncodeToString(h[:])
		}
	}
	return t.key
}

func (t *term) id1() string {
	switch t.op {
	case "alloc", "struct":
		s := fmt.Sprintf("%s %p", t.op, t.val)
		for f := t.fr; f != nil; {
			s += fmt.Sprintf("@%p", f.call)
			if f.call != nil {
				f = f.up
			} else {
				f = f.lex
			}
		}
		return s
	case "lit", "param", "const":
		return t.String()
	case "?", "cycle":
		return fmt.Sprintf("? %p", t.val)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.id())
	}
	return t.op + ":" + t.lit + "(" + strings.Join(as, ",") + ")"
}

type keyer struct {
	p       *Program
	callers map[*ssa.Function][]ssa.CallInstruction
	made    map[*ssa.Function]*ssa.MakeClosure
	inits   map[*ssa.Global][]ssa.Value
	memo    map[*kframe]map[ssa.Value]*term
	fuel    int
	stop    map[*ssa.Function]bool // calls of these are not looked into
	fields  map[*ssa.Function]map[string][]*ssa.Store
}

func newKeyer(p *Program) *keyer {
	k := &keyer{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, made: map[*ssa.Function]*ssa.MakeClosure{}, inits: map[*ssa.Global][]ssa.Value{}, memo: map[*kframe]map[ssa.Value]*term{}}
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil {
						k.callers[f] = append(k.callers[f], x)
					}
				case *ssa.MakeClosure:
					k.made[x.Fn.(*ssa.Function)] = x
				}
			}
		}
	}
	for fn := range p.All {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						k.inits[g] = append(k.inits[g], st.Val)
					}
				}
			}
		}
	}
	return k
}

func (k *keyer) base(fn *ssa.Function) *kframe {
	f := &kframe{fn: fn}
	if fn.Parent() != nil {
		f.lex = k.base(fn.Parent())
	}
	return f
}

// expand gives the frames in the contexts one call further out, nil when
// there is no caller known.
func (k *keyer) expand(fr *kframe) []*kframe {
	if fr == nil {
		return nil
	}
	if fr.call != nil {
		ups := k.expand(fr.up)
		var out []*kframe
		for _, u := range ups {
			out = append(out, &kframe{fn: fr.fn, call: fr.call, up: u, lex: fr.lex, n: fr.n})
		}
		return out
	}
	if fr.fn.Parent() != nil {
		var out []*kframe
		for _, l := range k.expand(fr.lex) {
			out = append(out, &kframe{fn: fr.fn, lex: l, n: l.n})
		}
		return out
	}
	var out []*kframe
	for _, c := range k.callers[fr.fn] {
		if c.Parent() == fr.fn {
			continue
		}
		out = append(out, &kframe{fn: fr.fn, call: c, up: k.base(c.Parent()), n: fr.n + 1})
	}
	return out
}

func (k *keyer) call(fr *kframe, f *ssa.Function, ci ssa.CallInstruction) *kframe {
	nf := &kframe{fn: f, call: ci, up: fr, n: fr.n + 1}
	if f.Parent() != nil {
		nf.lex = k.lexOf(fr, f)
	}
	return nf
}

// lexOf finds the frame of the function that encloses f.
func (k *keyer) lexOf(fr *kframe, f *ssa.Function) *kframe {
	for x := fr; x != nil; {
		if x.fn == f.Parent() {
			return x
		}
		if x.lex != nil && x.call == nil {
			x = x.lex
		} else if x.lex != nil {
			for y := x.lex; y != nil; y = y.lex {
				if y.fn == f.Parent() {
					return y
				}
			}
			x = x.up
		} else {
			x = x.up
		}
	}
	return k.base(f.Parent())
}

func unknown(v ssa.Value) *term { return &term{op: "?", val: v} }

func (k *keyer) eval(fr *kframe, v ssa.Value) *term {
	k.fuel = 100000
	return k.ev(fr, v, 0)
}

func (k *keyer) ev(fr *kframe, v ssa.Value, depth int) *term {
	k.fuel--
	if depth > 40 || fr == nil || k.fuel < 0 {
		return unknown(v)
	}
	m := k.memo[fr]
	if m == nil {
		m = map[ssa.Value]*term{}
		k.memo[fr] = m
	}
	if t, ok := m[v]; ok {
		return t
	}
	m[v] = &term{op: "cycle", val: v}
	t := k.ev1(fr, v, depth+1)
	if t.val == nil {
		t.val = v
	}
	m[v] = t
	return t
}

func catTerms(a, b *term) *term {
	var parts []*term
	for _, t := range []*term{a, b} {
		if t.op == "cat" {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	var out []*term
	for _, t := range parts {
		if t.op == "lit" && len(out) > 0 && out[len(out)-1].op == "lit" {
			out[len(out)-1] = &term{op: "lit", lit: out[len(out)-1].lit + t.lit}
			continue
		}
		if t.op == "lit" && t.lit == "" {
			continue
		}
		out = append(out, t)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return &term{op: "lit"}
	}
	return &term{op: "cat", args: out}
}

func phiTerms(ts []*term) *term {
	seen := map[string]bool{}
	var out []*term
	var rest []*term
	for _, t := range ts {
		if t.op != "cycle" {
			rest = append(rest, t)
		}
	}
	if len(rest) > 0 {
		ts = rest
	}
	for _, t := range ts {
		if t.op == "phi" {
			for _, a := range t.args {
				if !seen[a.id()] {
					seen[a.id()] = true
					out = append(out, a)
				}
			}
			continue
		}
		if s := t.id(); !seen[s] {
			seen[s] = true
			out = append(out, t)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return &term{op: "phi", args: out}
}

func (k *keyer) ev1(fr *kframe, v ssa.Value, depth int) *term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return &term{op: "lit", lit: constant.StringVal(x.Value)}
		}
		if x.Value == nil {
			return &term{op: "const", lit: "nil"}
		}
		return &term{op: "const", lit: x.Value.ExactString()}
	case *ssa.Function:
		return &term{op: "func", fn: x, lit: shortFn(x), fr: fr}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		return &term{op: "func", fn: f, lit: shortFn(f), fr: fr}
	case *ssa.Convert:
		if lossy(x.X.Type(), x.Type()) {
			return unknown(v)
		}
		return k.ev(fr, x.X, depth)
	case *ssa.ChangeType:
		return k.ev(fr, x.X, depth)
	case *ssa.ChangeInterface:
		return k.ev(fr, x.X, depth)
	case *ssa.MakeInterface:
		return k.ev(fr, x.X, depth)
	case *ssa.TypeAssert:
		return k.ev(fr, x.X, depth)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return catTerms(k.ev(fr, x.X, depth), k.ev(fr, x.Y, depth))
			}
		}
		return unknown(v)
	case *ssa.Phi:
		var ts []*term
		for _, e := range x.Edges {
			ts = append(ts, k.ev(fr, e, depth))
		}
		return phiTerms(ts)
	case *ssa.Parameter:
		for n, p := range fr.fn.Params {
			if p == x {
				if fr.call != nil {
					com := fr.call.Common()
					if com.IsInvoke() {
						if n == 0 {
							return k.ev(fr.up, com.Value, depth)
						}
						n--
					}
					if n < len(com.Args) {
						return k.ev(fr.up, com.Args[n], depth)
					}
				}
				return &term{op: "param", lit: x.Name(), val: x, fr: fr}
			}
		}
		return unknown(v)
	case *ssa.FreeVar:
		mc := k.made[fr.fn]
		if mc == nil || fr.lex == nil {
			return unknown(v)
		}
		for n, fv := range fr.fn.FreeVars {
			if fv == x {
				return k.ev(fr.lex, mc.Bindings[n], depth)
			}
		}
		return unknown(v)
	case *ssa.Alloc:
		return &term{op: "alloc", val: x, fr: fr}
	case *ssa.Global:
		return &term{op: "globaladdr", lit: x.Name(), val: x}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return k.load(fr, x.X, depth)
		}
		return unknown(v)
	case *ssa.Field:
		return k.field(k.ev(fr, x.X, depth), fieldNm(x.X.Type(), x.Field), depth)
	case *ssa.FieldAddr:
		return &term{op: "fieldaddr", lit: fieldNm(x.X.Type(), x.Field), args: []*term{k.ev(fr, x.X, depth)}}
	case *ssa.IndexAddr:
		return &term{op: "elemaddr", lit: idxOf(k.ev(fr, x.Index, depth)), args: []*term{k.ev(fr, x.X, depth)}}
	case *ssa.Index:
		return &term{op: "elem", lit: idxOf(k.ev(fr, x.Index, depth)), args: []*term{k.ev(fr, x.X, depth)}}
	case *ssa.Lookup:
		return &term{op: "lookup", args: []*term{k.ev(fr, x.X, depth), k.ev(fr, x.Index, depth)}}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return k.ev(fr, x.X, depth)
		}
		return &term{op: "slice", args: []*term{k.ev(fr, x.X, depth)}}
	case *ssa.Extract:
		t := k.ev(fr, x.Tuple, depth)
		if t.op == "tuple" && x.Index < len(t.args) {
			return t.args[x.Index]
		}
		return &term{op: "extract", lit: fmt.Sprint(x.Index), args: []*term{t}}
	case *ssa.Call:
		return k.evCall(fr, x, depth)
	}
	return unknown(v)
}

func idxOf(t *term) string {
	if t.op == "const" {
		return t.lit
	}
	return "*"
}

func (k *keyer) load(fr *kframe, addr ssa.Value, depth int) *term {
	switch a := addr.(type) {
	case *ssa.Global:
		if vs := k.inits[a]; len(vs) == 1 {
			if c, ok := vs[0].(*ssa.Const); ok {
				return k.ev(fr, c, depth)
			}
			if c, ok := vs[0].(*ssa.Convert); ok {
				if cc, ok := c.X.(*ssa.Const); ok {
					return k.ev(fr, cc, depth)
				}
			}
		}
		return &term{op: "global", lit: a.Name()}
	}
	return k.loadTerm(k.ev(fr, addr, depth), depth)
}

func (k *keyer) loadTerm(t *term, depth int) *term {
	switch t.op {
	case "alloc":
		return k.cell(t, depth)
	case "fieldaddr":
		return k.field(t.args[0], t.lit, depth)
	case "elemaddr":
		var es []*term
		for _, e := range k.elems(t.args[0], depth) {
			if e.op != "cycle" {
				es = append(es, e)
			}
		}
		if len(es) > 0 {
			return phiTerms(es)
		}
		return &term{op: "elem", lit: t.lit, args: t.args}
	case "phi":
		var ts []*term
		for _, a := range t.args {
			ts = append(ts, k.loadTerm(a, depth))
		}
		return phiTerms(ts)
	}
	return &term{op: "deref", args: []*term{t}}
}

// elems are the elements a slice was built from, when that is known.
func (k *keyer) elems(t *term, depth int) []*term {
	k.fuel--
	if depth > 40 || k.fuel < 0 {
		return nil
	}
	switch t.op {
	case "phi":
		var out []*term
		for _, a := range t.args {
			out = append(out, k.elems(a, depth+1)...)
		}
		return distinct(out)
	case "call":
		if t.lit == "append" && len(t.args) == 2 {
			return distinct(append(k.elems(t.args[0], depth+1), k.elems(t.args[1], depth+1)...))
		}
	case "alloc":
		al, ok := t.val.(*ssa.Alloc)
		if !ok {
			return nil
		}
		switch derefType(al.Type()).Underlying().(type) {
		case *types.Array:
		case *types.Slice:
			return k.elems(k.cell(t, depth+1), depth+1)
		default:
			return nil
		}
		var out []*term
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == al {
				for _, s := range k.storesTo(ia, t.fr) {
					out = append(out, k.ev(s.fr, s.st.Val, depth+1))
				}
			}
		}
		return out
	case "deref":
		return k.elems(t.args[0], depth+1)
	}
	return nil
}

func distinct(ts []*term) []*term {
	if len(ts) < 2 {
		return ts
	}
	seen := map[string]bool{}
	var out []*term
	for _, t := range ts {
		if !seen[t.id()] {
			seen[t.id()] = true
			out = append(out, t)
		}
	}
	return out
}

// cell is the value of a variable: what is stored to it anywhere.
func (k *keyer) cell(t *term, depth int) *term {
	al, ok := t.val.(*ssa.Alloc)
	k.fuel--
	if !ok || depth > 40 || k.fuel < 0 {
		return unknown(t.val)
	}
	if _, isStruct := derefType(al.Type()).Underlying().(*types.Struct); isStruct {
		// whole values stored to it are looked up field by field
		return &term{op: "struct", val: al, fr: t.fr}
	}
	var ts []*term
	for _, s := range k.storesTo(al, t.fr) {
		ts = append(ts, k.ev(s.fr, s.st.Val, depth))
	}
	if len(ts) == 0 {
		return unknown(al)
	}
	return phiTerms(ts)
}

type storeAt struct {
	st *ssa.Store
	fr *kframe
}

// storesTo are the stores to a variable in its function and the closures that
// capture it.
func (k *keyer) storesTo(addr ssa.Value, fr *kframe) []storeAt {
	var out []storeAt
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, fr *kframe)
	visit = func(v ssa.Value, fr *kframe) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr == v {
					out = append(out, storeAt{i, fr})
				}
			case *ssa.MakeClosure:
				f := i.Fn.(*ssa.Function)
				for n, b := range i.Bindings {
					if b == v {
						visit(f.FreeVars[n], &kframe{fn: f, lex: fr, n: fr.n})
					}
				}
			}
		}
	}
	visit(addr, fr)
	sort.SliceStable(out, func(i, j int) bool { return out[i].st.Pos() < out[j].st.Pos() })
	return out
}

// field is a field of the object a term stands for (its address or value).
func (k *keyer) field(t *term, name string, depth int) *term {
	k.fuel--
	if depth > 40 || k.fuel < 0 {
		return unknown(t.val)
	}
	switch t.op {
	case "alloc", "struct":
		al, ok := t.val.(*ssa.Alloc)
		if !ok {
			break
		}
		if pt, isPtr := derefType(al.Type()).Underlying().(*types.Pointer); isPtr && t.op == "alloc" {
			_ = pt
			return k.field(k.cell(t, depth+1), name, depth+1)
		}
		var ts []*term
		for _, s := range k.storesTo(al, t.fr) {
			ts = append(ts, k.field(k.ev(s.fr, s.st.Val, depth+1), name, depth+1))
		}
		for _, fa := range k.fieldAddrs(al, t.fr, name) {
			for _, s := range k.storesTo(fa.v, fa.fr) {
				ts = append(ts, k.ev(s.fr, s.st.Val, depth+1))
			}
		}
		if len(ts) > 0 {
			return phiTerms(ts)
		}
	case "phi":
		var ts []*term
		for _, a := range t.args {
			ts = append(ts, k.field(a, name, depth+1))
		}
		return phiTerms(ts)
	case "fieldaddr":
		return k.field(k.field(t.args[0], t.lit, depth+1), name, depth+1)
	case "deref":
		return k.field(t.args[0], name, depth+1)
	}
	return &term{op: "field", lit: name, args: []*term{t}}
}

type valAt struct {
	v  ssa.Value
	fr *kframe
}

func (k *keyer) fieldAddrs(base ssa.Value, fr *kframe, name string) []valAt {
	var out []valAt
	if base.Referrers() == nil {
		return nil
	}
	for _, r := range *base.Referrers() {
		switch i := r.(type) {
		case *ssa.FieldAddr:
			if i.X == base && fieldNm(i.X.Type(), i.Field) == name {
				out = append(out, valAt{i, fr})
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for n, b := range i.Bindings {
				if b == base {
					out = append(out, k.fieldAddrs(f.FreeVars[n], &kframe{fn: f, lex: fr, n: fr.n}, name)...)
				}
			}
		}
	}
	return out
}

func (k *keyer) evCall(fr *kframe, c *ssa.Call, depth int) *term {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		t := &term{op: "call", lit: b.Name()}
		for _, a := range com.Args {
			t.args = append(t.args, k.ev(fr, a, depth))
		}
		if b.Name() == "append" && len(t.args) == 2 && isBytes(c.Type()) {
			if len(com.Args) == 2 && (isBytes(com.Args[1].Type()) || isStringType(com.Args[1].Type())) {
				base := t.args[0]
				if base.op == "const" && base.lit == "nil" || base.op == "slice" && k.empty(fr, com.Args[0]) {
					base = &term{op: "lit"}
				}
				if mk, ok := com.Args[0].(*ssa.MakeSlice); ok {
					if l := k.ev(fr, mk.Len, depth); l.op == "const" && l.lit == "0" {
						base = &term{op: "lit"}
					}
				}
				return catTerms(base, t.args[1])
			}
		}
		return t
	}
	if com.IsInvoke() {
		t := &term{op: "invoke", lit: com.Method.Name(), args: []*term{k.ev(fr, com.Value, depth)}, val: c, fr: fr}
		for _, a := range com.Args {
			t.args = append(t.args, k.ev(fr, a, depth))
		}
		return t
	}
	f := com.StaticCallee()
	if f == nil {
		if t := k.ev(fr, com.Value, depth); t.op == "func" {
			f = t.fn
		}
	}
	if f == nil {
		return unknown(c)
	}
	if t := k.spelled(fr, f, c, depth); t != nil {
		return t
	}
	if inRepo(f) && !k.stop[f] && len(f.Blocks) > 0 && fr.n < 12 && !k.recursive(fr, f) {
		if len(f.Blocks) == 1 || f.Signature.Results().Len() == 1 && len(f.Blocks) <= 6 {
			nf := k.call(fr, f, c)
			if t := k.returned(nf, depth); t != nil {
				return t
			}
		}
	}
	t := &term{op: "call", lit: f.RelString(nil), fn: f, fr: fr, val: c}
	for _, a := range com.Args {
		t.args = append(t.args, k.ev(fr, a, depth))
	}
	return t
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// empty tells whether a slice is x[:0].
func (k *keyer) empty(fr *kframe, v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.High == nil {
		return false
	}
	t := k.eval(fr, s.High)
	return t.op == "const" && t.lit == "0"
}

// spelled recognises the other ways to join strings.
func (k *keyer) spelled(fr *kframe, f *ssa.Function, c *ssa.Call, depth int) *term {
	args := c.Call.Args
	switch f.RelString(nil) {
	case "strings.Join", "bytes.Join":
		es, ok := k.ordered(k.ev(fr, args[0], depth), depth)
		if !ok {
			return nil
		}
		sep := k.ev(fr, args[1], depth)
		out := &term{op: "lit"}
		for n, e := range es {
			if n > 0 {
				out = catTerms(out, sep)
			}
			out = catTerms(out, e)
		}
		return out
	case "fmt.Sprintf", "fmt.Sprint":
		format := ""
		rest := args
		if f.Name() == "Sprintf" {
			ft := k.ev(fr, args[0], depth)
			if ft.op != "lit" {
				return nil
			}
			format, rest = ft.lit, args[1:]
		}
		es, ok := k.ordered(k.ev(fr, rest[0], depth), depth)
		if !ok {
			return nil
		}
		out := &term{op: "lit"}
		if f.Name() == "Sprint" {
			for _, e := range es {
				out = catTerms(out, e)
			}
			return out
		}
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' || i+1 == len(format) {
				out = catTerms(out, &term{op: "lit", lit: format[i : i+1]})
				continue
			}
			i++
			switch format[i] {
			case '%':
				out = catTerms(out, &term{op: "lit", lit: "%"})
			case 's', 'v':
				if n >= len(es) {
					return nil
				}
				out = catTerms(out, es[n])
				n++
			case 'd', 'q', 'x':
				if n >= len(es) {
					return nil
				}
				out = catTerms(out, &term{op: "call", lit: "fmt.%" + format[i:i+1], args: []*term{es[n]}})
				n++
			default:
				return nil
			}
		}
		return out
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		al, ok := args[0].(*ssa.Alloc)
		if !ok {
			return nil
		}
		// what is written to it, in order, when that does not depend on
		// anything
		var calls []*ssa.Call
		for _, r := range *al.Referrers() {
			switch i := r.(type) {
			case *ssa.Call:
				calls = append(calls, i)
			case *ssa.DebugRef:
			case *ssa.Store:
				if _, zero := i.Val.(*ssa.Const); !zero {
					return nil
				}
			default:
				return nil
			}
		}
		out := &term{op: "lit"}
		for _, w := range sortCalls(calls) {
			if w == c {
				continue
			}
			g := w.Call.StaticCallee()
			if g == nil || len(w.Call.Args) == 0 || w.Call.Args[0] != al {
				return nil
			}
			switch g.Name() {
			case "WriteString", "Write":
				if w.Block() != c.Block() && !w.Block().Dominates(c.Block()) {
					return nil
				}
				if inLoop(w.Block()) && !inLoop(c.Block()) {
					return nil
				}
				out = catTerms(out, k.ev(fr, w.Call.Args[1], depth))
			case "WriteByte", "WriteRune":
				t := k.ev(fr, w.Call.Args[1], depth)
				if t.op != "const" {
					return nil
				}
				var n rune
				if _, err := fmt.Sscan(t.lit, &n); err != nil {
					return nil
				}
				out = catTerms(out, &term{op: "lit", lit: string(n)})
			case "Grow", "Len", "String", "Bytes":
			default:
				return nil
			}
		}
		return out
	}
	return nil
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(b)
}

// sortCalls puts calls that dominate one another in order.
func sortCalls(cs []*ssa.Call) []*ssa.Call {
	at := func(c *ssa.Call) int {
		for n, i := range c.Block().Instrs {
			if i == c {
				return n
			}
		}
		return 0
	}
	sort.SliceStable(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		if a.Block() == b.Block() {
			return at(a) < at(b)
		}
		return a.Block().Dominates(b.Block())
	})
	return cs
}

// ordered are the elements of a slice that is written out.
func (k *keyer) ordered(t *term, depth int) ([]*term, bool) {
	if depth > 40 {
		return nil, false
	}
	switch t.op {
	case "const":
		return nil, t.lit == "nil"
	case "call":
		if t.lit == "append" && len(t.args) == 2 {
			a, ok := k.ordered(t.args[0], depth+1)
			b, ok2 := k.ordered(t.args[1], depth+1)
			return append(a, b...), ok && ok2
		}
	case "alloc":
		al, ok := t.val.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		switch at := derefType(al.Type()).Underlying().(type) {
		case *types.Array:
			out := make([]*term, at.Len())
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				var n int
				if _, err := fmt.Sscan(idxOf(k.ev(t.fr, ia.Index, depth)), &n); err != nil || n < 0 || n >= len(out) {
					return nil, false
				}
				st := k.storesTo(ia, t.fr)
				if len(st) != 1 || out[n] != nil {
					return nil, false
				}
				out[n] = k.ev(st[0].fr, st[0].st.Val, depth+1)
			}
			for _, o := range out {
				if o == nil {
					return nil, false
				}
			}
			return out, true
		case *types.Slice:
			return k.ordered(k.cell(t, depth+1), depth+1)
		}
	}
	return nil, false
}

func (k *keyer) recursive(fr *kframe, f *ssa.Function) bool {
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return true
		}
	}
	return false
}

func (k *keyer) returned(fr *kframe, depth int) *term {
	var ts []*term
	for _, b := range fr.fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 1 {
				ts = append(ts, k.ev(fr, r.Results[0], depth+1))
			} else {
				tt := &term{op: "tuple"}
				for _, v := range r.Results {
					tt.args = append(tt.args, k.ev(fr, v, depth+1))
				}
				ts = append(ts, tt)
			}
		}
	}
	if len(ts) == 0 {
		return nil
	}
	if len(ts) > 1 {
		for _, t := range ts {
			if t.op == "tuple" {
				return nil
			}
		}
	}
	return phiTerms(ts)
}

// leaves calls fn with every alternative of a term.
func alternatives(t *term) []*term {
	switch t.op {
	case "phi":
		var out []*term
		for _, a := range t.args {
			out = append(out, alternatives(a)...)
		}
		return out
	case "cat":
		outs := []*term{{op: "lit"}}
		for _, a := range t.args {
			var next []*term
			for _, alt := range alternatives(a) {
				for _, o := range outs {
					next = append(next, catTerms(o, alt))
				}
			}
			if len(next) > 64 {
				next = next[:64]
			}
			outs = next
		}
		return outs
	}
	return []*term{t}
}

// mentions tells whether a term has a part with the operation.
func (t *term) mentions(op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if a.mentions(op) {
			return true
		}
	}
	return false
}

// transforms are the functions of strings the value of a term is made with.
func (k *keyer) transforms(t *term, out map[string]bool, depth int) {
	if depth > 12 || t == nil {
		return
	}
	switch t.op {
	case "call":
		if strings.HasPrefix(t.lit, "strings.") {
			out[t.lit] = true
			if len(t.args) > 0 {
				k.transforms(t.args[0], out, depth+1)
			}
		} else if t.fn != nil && inRepo(t.fn) && len(t.fn.Blocks) > 0 && t.fr != nil {
			if c, ok := t.val.(*ssa.Call); ok && !k.recursive(t.fr, t.fn) {
				if r := k.returned(k.call(t.fr, t.fn, c), 0); r != nil && r.op != "tuple" {
					k.transforms(r, out, depth+1)
				}
			}
		}
	case "phi", "cat", "slice":
		for _, a := range t.args {
			k.transforms(a, out, depth+1)
		}
	}
}
