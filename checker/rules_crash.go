package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// crash decides that what may be missing is looked at before it is used.
type crash struct {
	c                *Ctx
	p                *Program
	nils             map[nilKey][]*nilRet
	busy             map[nilKey]bool
	derefs           map[nilKey]string
	reach            map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	dep              int
	exempt           map[*ssa.Function]bool
	params           map[*ssa.Parameter]int
	fields           map[string]string
	parts, tokenText *ssa.Function
	walks            map[*ssa.Parameter]*ssa.Parameter
	match            func(ssa.Value) bool // if set, what lenFact is asked about
	known            int                  // how long the value that lenFact is asked about is at least
}

type nilKey struct {
	fn    *ssa.Function
	i     int
	field int // of the result, or -1
}

// nilRet is a return statement that gives nil.
type nilRet struct {
	ret *ssa.Return
	why string
}

// cfact is a condition that is known to be true or false.
type cfact struct {
	v     ssa.Value
	truth bool
	at    *ssa.BasicBlock // where it was decided
	join  *ssa.BasicBlock // if set, the condition is that of an edge into it
	edge  int
}

// of is what an operand of the condition is on the edge.
func (f cfact) of(v ssa.Value) ssa.Value {
	if phi, ok := plain(v).(*ssa.Phi); ok && f.join != nil && phi.Block() == f.join {
		return phi.Edges[f.edge]
	}
	return v
}

// point is a place in a function: a block, entered or left through an edge.
type point struct {
	b     *ssa.BasicBlock
	instr ssa.Instruction // nil at the end of the block
	extra []cfact
}

func at(i ssa.Instruction) point { return point{b: i.Block(), instr: i} }

// edge is the point where pred is left for b.
func edge(pred, b *ssa.BasicBlock) point {
	pt := point{b: pred}
	if len(pred.Instrs) > 0 {
		if f, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
			pt.extra = append(pt.extra, cfact{v: f.Cond, truth: pred.Succs[0] == b, at: pred})
		}
	}
	return pt
}

// facts are the conditions known at a point.
func facts(pt point) []cfact {
	out := append([]cfact{}, pt.extra...)
	for b := pt.b; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for k, s := range d.Succs {
			if s != b {
				continue
			}
			only := true
			for _, q := range s.Preds {
				if q != d && !s.Dominates(q) {
					only = false
				}
			}
			if only {
				out = append(out, cfact{v: f.Cond, truth: k == 0, at: d})
			}
		}
	}
	return out
}

// expand breaks conditions down to comparisons and calls.
func expand(fs []cfact) []cfact {
	var out []cfact
	seen := map[ssa.Value]bool{}
	for len(fs) > 0 {
		f := fs[0]
		fs = fs[1:]
		switch v := f.v.(type) {
		case *ssa.UnOp:
			if v.Op == token.NOT {
				fs = append(fs, cfact{v.X, !f.truth, f.at, f.join, f.edge})
				continue
			}
		case *ssa.Phi:
			if f.join != nil && v.Block() == f.join {
				fs = append(fs, cfact{v: v.Edges[f.edge], truth: f.truth, at: f.at})
				continue
			}
			if seen[v] {
				continue
			}
			seen[v] = true
			n, only := 0, -1
			for k, e := range v.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != f.truth {
					continue
				}
				if ep := edge(v.Block().Preds[k], v.Block()); len(ep.extra) > 0 && ep.extra[0].v == e && ep.extra[0].truth != f.truth {
					continue
				}
				n++
				only = k
			}
			if n == 1 {
				pred := v.Block().Preds[only]
				if !v.Block().Dominates(pred) {
					fs = append(fs, cfact{v: v.Edges[only], truth: f.truth, at: f.at})
					fs = append(fs, facts(edge(pred, v.Block()))...)
				}
			}
			continue
		}
		out = append(out, f)
	}
	return out
}

// plain looks through conversions that keep the value.
func plain(v ssa.Value) ssa.Value {
	for {
		switch w := v.(type) {
		case *ssa.ChangeType:
			v = w.X
		case *ssa.ChangeInterface:
			v = w.X
		default:
			return v
		}
	}
}

// term names what a value denotes, so that two reads of the same place have
// the same name; reads collects the places that are read on the way.
func (k *crash) term(v ssa.Value, reads map[string]bool, depth int) string {
	v = plain(v)
	id := func() string { return fmt.Sprintf("%s@%p", v.Name(), v) }
	if depth > 8 {
		return id()
	}
	switch w := v.(type) {
	case *ssa.Const:
		return "c:" + w.String()
	case *ssa.UnOp:
		if w.Op != token.MUL {
			return id()
		}
		switch a := w.X.(type) {
		case *ssa.FieldAddr:
			reads[fieldClass(a.X.Type(), a.Field)] = true
			_, f := fieldOf(a.X.Type(), a.Field)
			return k.term(a.X, reads, depth+1) + "." + f.Name()
		case *ssa.Global:
			reads["global:"+a.String()] = true
			return a.String()
		case *ssa.Alloc, *ssa.FreeVar:
			if s := k.single(a); s != nil {
				if a, ok := a.(*ssa.Alloc); !ok || a.Parent() != s.Parent() {
					_ = a
					return fmt.Sprintf("*%p", k.origin(w.X))
				}
				return k.term(s.Val, reads, depth+1)
			}
			if a, ok := a.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != ssa.Value(a) {
							return id()
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
					default:
						return id()
					}
				}
				reads[varClass(a)] = true
				return "v:" + varClass(a)
			}
			return id()
		case *ssa.IndexAddr:
			if c, ok := a.Index.(*ssa.Const); ok {
				reads["index:"+typeName(a.Type())] = true
				return k.term(a.X, reads, depth+1) + "[" + c.String() + "]"
			}
		}
		return id()
	case *ssa.FieldAddr:
		_, f := fieldOf(w.X.Type(), w.Field)
		return "&" + k.term(w.X, reads, depth+1) + "." + f.Name()
	case *ssa.Field:
		_, f := fieldOf(w.X.Type(), w.Field)
		return k.term(w.X, reads, depth+1) + "." + f.Name()
	case *ssa.Convert:
		if isStringy(w.Type()) && isStringy(w.X.Type()) {
			return k.term(w.X, reads, depth+1)
		}
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + k.term(w.Call.Args[0], reads, depth+1) + ")"
		}
		cs := k.p.siteCallees(w)
		if len(cs) == 0 && w.Call.StaticCallee() != nil {
			cs = []*ssa.Function{w.Call.StaticCallee()}
		}
		if len(cs) == 0 {
			return id()
		}
		for _, fn := range cs {
			if !k.pure(fn, reads) {
				return id()
			}
		}
		s := w.Call.Value.String()
		if w.Call.IsInvoke() {
			s = k.term(w.Call.Value, reads, depth+1) + "." + w.Call.Method.FullName()
		} else {
			s = cs[0].String()
		}
		for _, a := range w.Call.Args {
			s += "," + k.term(a, reads, depth+1)
		}
		return "(" + s + ")"
	case *ssa.Lookup:
		if !w.CommaOk {
			reads["map:"+typeName(w.X.Type())] = true
			return k.term(w.X, reads, depth+1) + "[" + k.term(w.Index, reads, depth+1) + "]"
		}
	}
	return id()
}

// pure tells whether a function only computes something from what it reads.
func (k *crash) pure(fn *ssa.Function, reads map[string]bool) bool {
	if fn.Blocks == nil {
		return false
	}
	if !inRepo(fn) {
		switch pkgPathOf(fn) {
		case "strings", "unicode", "unicode/utf8", "bytes", "path", "path/filepath", "strconv":
			return fn.Signature.Recv() == nil
		}
		return false
	}
	if k.dep > 3 {
		return false
	}
	k.dep++
	defer func() { k.dep-- }()
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if a, ok := i.Addr.(*ssa.Alloc); ok && !a.Heap {
					continue
				}
				if isFreshBase(i.Addr, fn) {
					continue
				}
				return false
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure, *ssa.Next, *ssa.MakeMap, *ssa.MakeChan:
				return false
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return false
				}
				if a, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
					reads[fieldClass(a.X.Type(), a.Field)] = true
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" {
						continue
					}
					return false
				}
				cs := k.p.siteCallees(i)
				if len(cs) == 0 {
					return false
				}
				for _, g := range cs {
					if g == fn || !k.pure(g, reads) {
						return false
					}
				}
			}
		}
	}
	return true
}

// single is the only assignment of a variable.
func (k *crash) single(v ssa.Value) *ssa.Store {
	a := k.origin(v)
	if a == nil {
		return nil
	}
	var found *ssa.Store
	n := 0
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					found = r
					n++
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !onlyRead(r) {
					return false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !walk(fn.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !walk(a) || n != 1 {
		return nil
	}
	return found
}

// onlyRead tells whether an address within a variable is only read from.
func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// origin is the variable a captured variable is.
func (k *crash) origin(v ssa.Value) *ssa.Alloc {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return a
		case *ssa.FreeVar:
			fn := a.Parent()
			at := -1
			for i, f := range fn.FreeVars {
				if f == a {
					at = i
				}
			}
			var next ssa.Value
			if fn.Parent() == nil {
				return nil
			}
			for _, b := range fn.Parent().Blocks {
				for _, i := range b.Instrs {
					if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == fn {
						if next != nil && next != m.Bindings[at] {
							return nil
						}
						next = m.Bindings[at]
					}
				}
			}
			if next == nil {
				return nil
			}
			v = next
		default:
			return nil
		}
	}
}

func isStringy(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// after are the blocks that can run after a block.
func (k *crash) after(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m, ok := k.reach[b]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if m[x] {
			continue
		}
		m[x] = true
		work = append(work, x.Succs...)
	}
	k.reach[b] = m
	return m
}

// stable tells whether none of the places is written between the end of the
// block from and a point, which from dominates.
func (k *crash) stable(from *ssa.BasicBlock, to point, reads map[string]bool) bool {
	if len(reads) == 0 {
		return true
	}
	for b := range k.after(from) {
		if b != to.b && !k.after(b)[to.b] || b == from {
			continue
		}
		for _, i := range b.Instrs {
			if b == to.b && i == to.instr && !k.after(b)[b] {
				break
			}
			if b == to.b && i == to.instr {
				// a loop comes back through from, which decides anew
				break
			}
			if k.writes(i, reads) {
				return false
			}
		}
	}
	return true
}

// varClass names a variable.
func varClass(a *ssa.Alloc) string { return fmt.Sprintf("var:%p", a) }

// setBy tells whether a call can assign a variable.
func setBy(i ssa.CallInstruction, reads map[string]bool) bool {
	var sets func(m *ssa.MakeClosure) bool
	sets = func(m *ssa.MakeClosure) bool {
		fn := m.Fn.(*ssa.Function)
		for j, b := range m.Bindings {
			a, ok := b.(*ssa.Alloc)
			if !ok || !reads[varClass(a)] {
				continue
			}
			for _, r := range *fn.FreeVars[j].Referrers() {
				switch r := r.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					_ = r
					return true
				}
			}
		}
		return false
	}
	c := i.Common()
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	for _, v := range append([]ssa.Value{c.Value}, c.Args...) {
		switch v := plain(v).(type) {
		case *ssa.MakeClosure:
			if sets(v) {
				return true
			}
		case *ssa.Function:
		default:
			if _, ok := v.Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
	}
	return false
}

func (k *crash) writes(i ssa.Instruction, reads map[string]bool) bool {
	hasVar := false
	for r := range reads {
		hasVar = hasVar || strings.HasPrefix(r, "var:")
	}
	if c, ok := i.(ssa.CallInstruction); ok && hasVar && setBy(c, reads) {
		return true
	}
	switch i := i.(type) {
	case *ssa.Store:
		if a, ok := i.Addr.(*ssa.Alloc); ok && reads[varClass(a)] {
			return true
		}
		if reads[addrClass(i.Addr)] && !isFreshBase(i.Addr, i.Parent()) {
			return true
		}
		if _, ok := i.Addr.(*ssa.FieldAddr); !ok {
			// a whole struct
			if n := derefNamed(i.Addr.Type()); n != nil && !isFreshBase(i.Addr, i.Parent()) {
				for r := range reads {
					if strings.HasPrefix(r, typeName(n)+".") {
						return true
					}
				}
			}
		}
	case *ssa.MapUpdate:
		return reads["map:"+typeName(i.Map.Type())]
	case ssa.CallInstruction:
		for _, fn := range k.p.siteCallees(i) {
			if !inRepo(fn) {
				continue
			}
			for m := range k.p.ModSet(fn) {
				if reads[m] {
					return true
				}
			}
		}
	}
	return false
}

// same tells whether two values, read at a condition and at a point, are the
// same.
func (k *crash) same(a ssa.Value, from *ssa.BasicBlock, b ssa.Value, to point) bool {
	if plain(a) == plain(b) {
		return true
	}
	reads := map[string]bool{}
	if k.term(a, reads, 0) != k.term(b, reads, 0) {
		return false
	}
	return k.stable(from, to, reads)
}

func isNilConst(v ssa.Value) bool {
	c, ok := plain(v).(*ssa.Const)
	return ok && c.IsNil()
}

func canBeNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// nonNilBy tells whether a condition says that a value is not nil.
func (k *crash) nonNilBy(f cfact, v ssa.Value, pt point) bool {
	switch w := f.v.(type) {
	case *ssa.BinOp:
		if w.Op != token.EQL && w.Op != token.NEQ {
			return false
		}
		x, y := f.of(w.X), f.of(w.Y)
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) {
			return (w.Op == token.NEQ) == f.truth && k.same(x, f.at, v, pt)
		}
	case *ssa.Extract:
		if call, ok := w.Tuple.(*ssa.Call); ok && k.says(call, w.Index, f, v, pt) {
			return true
		}
		if ta, ok := w.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk && w.Index == 1 && f.truth {
			if k.same(ta.X, f.at, v, pt) {
				return true
			}
			if e, ok := plain(v).(*ssa.Extract); ok && e.Index == 0 && e.Tuple == w.Tuple {
				return true
			}
		}
		if e, ok := plain(v).(*ssa.Extract); ok && e.Tuple == w.Tuple && w.Index == 1 && f.truth {
			if _, ok := w.Tuple.(*ssa.Lookup); ok {
				return true
			}
		}
	case *ssa.Call:
		return k.says(w, 0, f, v, pt)
	}
	return false
}

// says tells whether a function that has answered with a truth value has
// looked at a value: one of its arguments, or what it computes itself.
func (k *crash) says(call *ssa.Call, idx int, f cfact, v ssa.Value, pt point) bool {
	if k.dep > 3 || call.Call.IsInvoke() {
		return false
	}
	k.dep++
	defer func() { k.dep-- }()
	cs := k.p.siteCallees(call)
	other := -1
	if e := k.extractOf(v); e != nil && e.Tuple == ssa.Value(call) && e.Index != idx {
		other = e.Index
	}
	reads := map[string]bool{}
	want := k.term(v, reads, 0)
	if !k.stable(f.at, pt, reads) {
		return false
	}
	for _, fn := range cs {
		if !inRepo(fn) || fn.Blocks == nil || len(fn.Params) != len(call.Call.Args) {
			return false
		}
		outer := func(x ssa.Value) string {
			t := k.term(x, reads, 0)
			for i, p := range fn.Params {
				t = strings.ReplaceAll(t, k.term(p, reads, 0), k.term(f.of(call.Call.Args[i]), reads, 0))
			}
			return t
		}
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(r.Results) || b.Comment == "recover" {
				continue
			}
			if c, ok := result(r, idx).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != f.truth {
				continue
			}
			rp := at(r)
			rp.extra = append(rp.extra, cfact{v: result(r, idx), truth: f.truth, at: b})
			ok = false
			if other >= 0 && other < len(r.Results) {
				ok = k.maybeNil(result(r, other), rp, map[ssa.Value]bool{}) == ""
			}
			for _, g := range expand(facts(rp)) {
				if x := k.knownNonNil(g); x != nil && outer(x) == want {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return len(cs) > 0 && k.stable(f.at, pt, reads)
}

// knownNonNil is what a condition says is not nil.
func (k *crash) knownNonNil(f cfact) ssa.Value {
	switch w := f.v.(type) {
	case *ssa.BinOp:
		if w.Op != token.EQL && w.Op != token.NEQ || (w.Op == token.NEQ) != f.truth {
			return nil
		}
		x, y := f.of(w.X), f.of(w.Y)
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) {
			return x
		}
	case *ssa.Extract:
		if ta, ok := w.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk && w.Index == 1 && f.truth {
			return ta.X
		}
	}
	return nil
}

func (k *crash) guarded(v ssa.Value, pt point) bool {
	for _, f := range expand(facts(pt)) {
		if k.nonNilBy(f, v, pt) {
			return true
		}
	}
	// what is known on all ways to a place is known there
	for b := pt.b; b != nil && k.dep < 3; b = b.Idom() {
		if len(b.Preds) < 2 {
			continue
		}
		all := true
		for _, p := range b.Preds {
			if b.Dominates(p) {
				all = false
				break
			}
			pt := edge(p, b)
			if len(pt.extra) == 0 {
				all = false
				break
			}
			k.dep++
			ok := false
			for _, f := range expand(pt.extra) {
				ok = ok || k.nonNilBy(f, v, point{b: p})
			}
			k.dep--
			all = all && ok
		}
		reads := map[string]bool{}
		k.term(v, reads, 0)
		if all && k.stable(b, pt, reads) {
			return true
		}
	}
	return false
}

// maybeNil tells how a value can be nil at a point; values that nothing is
// known about are not nil.
func (k *crash) maybeNil(v ssa.Value, pt point, seen map[ssa.Value]bool) string {
	v = plain(v)
	if seen[v] || k.guarded(v, pt) {
		return ""
	}
	switch w := v.(type) {
	case *ssa.Const:
		if w.IsNil() {
			return "nil"
		}
	case *ssa.Parameter:
		if err := k.walked()[w]; err != nil {
			for _, f := range expand(facts(pt)) {
				if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.Op == token.EQL) == f.truth {
					x, y := f.of(b.X), f.of(b.Y)
					if isNilConst(x) {
						x, y = y, x
					}
					if isNilConst(y) && k.same(x, f.at, err, pt) {
						return ""
					}
				}
			}
			return "what is known of a file that cannot be read"
		}
	case *ssa.Phi:
		seen[v] = true
		known := facts(pt)
		for i, e := range w.Edges {
			ep := edge(w.Block().Preds[i], w.Block())
			// what is known of the values that are joined along with it
			for _, f := range known {
				if f.join == nil && w.Block().Dominates(f.at) {
					f.join, f.edge = w.Block(), i
					ep.extra = append(ep.extra, f)
				}
			}
			if why := k.maybeNil(e, ep, seen); why != "" {
				return why
			}
		}
	case *ssa.Extract:
		switch t := w.Tuple.(type) {
		case *ssa.TypeAssert:
			if w.Index == 0 {
				return "what is not of the type " + typeName(t.AssertedType)
			}
		case *ssa.Lookup:
			if w.Index == 0 {
				return "an element that is missing"
			}
		case *ssa.Call:
			return k.callNil(t, w.Index, -1, pt)
		}
	case *ssa.Lookup:
		if _, ok := w.X.Type().Underlying().(*types.Map); ok && !k.hasKey(w, pt) {
			return "an element that is missing"
		}
	case *ssa.Call:
		return k.callNil(w, 0, -1, pt)
	case *ssa.Field:
		return k.structNil(w.X, w.Field, pt, seen)
	case *ssa.UnOp:
		if w.Op == token.MUL {
			switch a := w.X.(type) {
			case *ssa.Alloc:
				if s := k.single(a); s != nil {
					if s.Parent() == w.Parent() && k.precedes(s, w) {
						seen[v] = true
						return k.maybeNil(s.Val, pt, seen)
					}
				} else if why := k.leftAs(a, w, pt, seen); why != "" {
					return why
				}
			case *ssa.FieldAddr:
				if v, ok := a.X.(*ssa.Alloc); ok {
					if s := k.single(v); s != nil && s.Parent() == w.Parent() && k.precedes(s, w) {
						_, param := plain(s.Val).(*ssa.Parameter)
						if u, ok := plain(s.Val).(*ssa.UnOp); ok && u.Op == token.MUL {
							_, local := u.X.(*ssa.Alloc)
							param = !local
						}
						if !param {
							return k.structNil(s.Val, a.Field, pt, seen)
						}
					}
				}
				if why := k.nilFields()[fieldClass(a.X.Type(), a.Field)]; why != "" && !k.storedAbove(a, w) {
					return why
				}
			case *ssa.FreeVar:
				s := k.single(a)
				if s == nil {
					return ""
				}
				seen[v] = true
				// what it was when the closure was made
				fn := w.Parent()
				for fn.Parent() != nil && fn.Parent() != s.Parent() {
					fn = fn.Parent()
				}
				if fn.Parent() != s.Parent() {
					return ""
				}
				for _, b := range fn.Parent().Blocks {
					for _, i := range b.Instrs {
						if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == fn && k.precedes(s, m) {
							if why := k.maybeNilCell(s, at(m), seen); why != "" {
								return why
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// walked are the parameters of functions that walk a directory which are
// missing when there is an error, which is another of their parameters.
func (k *crash) walked() map[*ssa.Parameter]*ssa.Parameter {
	if k.walks != nil {
		return k.walks
	}
	k.walks = map[*ssa.Parameter]*ssa.Parameter{}
	for _, fn := range k.p.Repo {
		res := fn.Signature.Results()
		n := len(fn.Params)
		if n < 3 || res.Len() != 1 || !isError(res.At(0).Type()) || !isError(fn.Params[n-1].Type()) || !isStringType(fn.Params[n-3].Type()) {
			continue
		}
		node := k.p.CG.Nodes[fn]
		if node == nil {
			continue
		}
		for _, e := range node.In {
			switch pkgPathOf(e.Caller.Func) {
			case "path/filepath", "io/fs":
				k.walks[fn.Params[n-2]] = fn.Params[n-1]
			}
		}
	}
	return k.walks
}

// leftAs tells how a variable that closures assign can be left as nil: what it
// was before, where they do not always assign it.
func (k *crash) leftAs(a *ssa.Alloc, l *ssa.UnOp, pt point, seen map[ssa.Value]bool) string {
	if alwaysAssigned(a) {
		return ""
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return ""
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
		default:
			return ""
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int) string
	back = func(b *ssa.BasicBlock, from int) string {
		for j := from - 1; j >= 0; j-- {
			switch i := b.Instrs[j].(type) {
			case *ssa.Store:
				if i.Addr == ssa.Value(a) {
					seen[l] = true
					return k.maybeNil(i.Val, point{b: b, instr: i}, seen)
				}
			case *ssa.Alloc:
				if i == a {
					return "a variable that is not always set"
				}
			}
		}
		for _, p := range b.Preds {
			if !done[p] {
				done[p] = true
				if why := back(p, len(p.Instrs)); why != "" {
					return why
				}
			}
		}
		return ""
	}
	for j, i := range l.Block().Instrs {
		if i == ssa.Instruction(l) {
			return back(l.Block(), j)
		}
	}
	return ""
}

// given are the fields that are there wherever they are used.
var given = map[string]bool{
	"analysis.Expression.Scope":            true, // what is accessed has something it is accessed on
	"internal/jsonrpc2.WireRequest.Params": true, // requests without them are answered before, see C03
}

// nilFields are the fields that can be missing.
func (k *crash) nilFields() map[string]string {
	if k.fields != nil {
		return k.fields
	}
	k.fields = map[string]string{}
	candidate := func(t types.Type) bool {
		if isMap(t) {
			return true
		}
		if !canBeNil(t) || isError(t) {
			return false
		}
		_, isFunc := t.Underlying().(*types.Signature)
		return !isFunc
	}
	for _, n := range k.p.NamedTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !strings.HasSuffix(n.Obj().Pkg().Path(), "/internal/lsp/protocol") {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Exported() && !f.Embedded() && candidate(f.Type()) && strings.Contains(st.Tag(i), "json:") {
				k.fields[fieldClass(n, i)] = "the field " + f.Name() + " of a message that lacks it"
			}
		}
	}
	found := map[string]string{}
	for _, fn := range k.p.Repo {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Alloc:
					n := derefNamed(i.Type())
					if n == nil || !inRepoType(n) {
						continue
					}
					st, ok := n.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					set, whole := map[int]bool{}, false
					for _, r := range *i.Referrers() {
						switch r := r.(type) {
						case *ssa.FieldAddr:
							for _, q := range *r.Referrers() {
								if s, ok := q.(*ssa.Store); ok && s.Addr == r {
									set[r.Field] = true
								}
							}
						case *ssa.Store:
							if _, zero := r.Val.(*ssa.Const); r.Addr == i && !zero {
								whole = true
							}
						}
					}
					if whole {
						continue
					}
					for j := 0; j < st.NumFields(); j++ {
						if !set[j] && candidate(st.Field(j).Type()) {
							found[fieldClass(n, j)] = fmt.Sprintf("the field %s.%s, which %s leaves out", n.Obj().Name(), st.Field(j).Name(), shortFn(fn))
						}
					}
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok || !candidate(i.Val.Type()) {
						continue
					}
					cls := fieldClass(fa.X.Type(), fa.Field)
					if why := k.maybeNil(i.Val, at(i), map[ssa.Value]bool{}); why != "" && found[cls] == "" {
						_, f := fieldOf(fa.X.Type(), fa.Field)
						found[cls] = fmt.Sprintf("the field %s, which %s sets to %s", f.Name(), shortFn(fn), why)
					}
				}
			}
		}
	}
	for cls, why := range found {
		if k.fields[cls] == "" && !given[cls] {
			k.fields[cls] = why
		}
	}
	k.nils = map[nilKey][]*nilRet{}
	k.derefs = map[nilKey]string{}
	return k.fields
}

// storedAbove tells whether the function has set the field itself, or found it
// set, on every way to a load of it.
func (k *crash) storedAbove(a *ssa.FieldAddr, l *ssa.UnOp) bool {
	cls := fieldClass(a.X.Type(), a.Field)
	fn := a.Parent()
	reads := map[string]bool{}
	base := k.term(a.X, reads, 0)
	reads[cls] = true
	flow := func(b *ssa.BasicBlock, in bool, stop ssa.Instruction) bool {
		for _, i := range b.Instrs {
			if i == stop {
				return in
			}
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldClass(fa.X.Type(), fa.Field) == cls && k.term(fa.X, map[string]bool{}, 0) == base {
					in = k.maybeNil(s.Val, at(s), map[ssa.Value]bool{}) == ""
					continue
				}
			}
			if in && k.writes(i, reads) {
				in = false
			}
		}
		return in
	}
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		out[b] = true
	}
	enter := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			ok := out[p]
			if !ok {
				pt := edge(p, b)
				for _, f := range expand(pt.extra) {
					if f.at == nil || f.at != p && !f.at.Dominates(b) {
						continue
					}
					ok = ok || k.nonNilBy(f, l, point{b: p})
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks {
			if o := flow(b, enter(b), nil); o != out[b] && !o {
				out[b] = false
				again = true
			}
		}
	}
	return flow(l.Block(), enter(l.Block()), l)
}

// maybeNilCell is maybeNil of a variable that is assigned once.
func (k *crash) maybeNilCell(s *ssa.Store, pt point, seen map[ssa.Value]bool) string {
	for _, r := range *s.Addr.Referrers() {
		if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL && k.guarded(l, pt) {
			return ""
		}
	}
	return k.maybeNil(s.Val, pt, seen)
}

func (k *crash) precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// hasKey tells whether the key of a lookup is known to be there.
func (k *crash) hasKey(l *ssa.Lookup, pt point) bool {
	sameKey := func(m, key ssa.Value, from *ssa.BasicBlock) bool {
		return k.same(m, from, l.X, pt) && k.same(key, from, l.Index, pt)
	}
	for _, f := range expand(facts(pt)) {
		if e, ok := f.v.(*ssa.Extract); ok && e.Index == 1 && f.truth {
			if q, ok := e.Tuple.(*ssa.Lookup); ok && sameKey(q.X, q.Index, f.at) {
				return true
			}
		}
	}
	for _, b := range l.Parent().Blocks {
		for _, i := range b.Instrs {
			if u, ok := i.(*ssa.MapUpdate); ok && k.precedes(u, l) && sameKey(u.Map, u.Key, b) {
				return true
			}
		}
	}
	return false
}

// callNil tells how a result of a call can be nil at a point.
func (k *crash) callNil(c *ssa.Call, i, field int, pt point) string {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return ""
	}
	cs := k.p.siteCallees(c)
	res := c.Call.Signature().Results()
	if i >= res.Len() || field < 0 && (!canBeNil(res.At(i).Type()) || isError(res.At(i).Type())) {
		return ""
	}
	// what is known of the other results
	errNil, okTrue, errVal, okVal := false, map[int]bool{}, false, map[int]bool{}
	errAt := -1
	if res.Len() > 1 && isError(res.At(res.Len()-1).Type()) {
		errAt = res.Len() - 1
	}
	for _, f := range expand(facts(pt)) {
		if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, y := f.of(b.X), f.of(b.Y)
			if isNilConst(x) {
				x, y = y, x
			}
			if e := k.extractOf(x); e != nil && e.Tuple == c && e.Index == errAt && isNilConst(y) {
				errVal = true
				errNil = (b.Op == token.EQL) == f.truth
			}
		}
		if e := k.extractOf(f.v); e != nil && e.Tuple == c {
			okVal[e.Index] = true
			okTrue[e.Index] = f.truth
		}
	}
	for _, fn := range cs {
		if fn.Blocks == nil || k.exempt[fn] {
			continue
		}
		if !inRepo(fn) {
			if field >= 0 {
				continue
			}
			if errAt >= 0 && !(errVal && errNil) {
				return fmt.Sprintf("the result of %s when it fails", shortFn(fn))
			}
			if last := res.Len() - 1; last > 0 && i < last && isBoolType(res.At(last).Type()) && !(okVal[last] && okTrue[last]) {
				return fmt.Sprintf("the result of %s when there is none", shortFn(fn))
			}
			continue
		}
		for _, r := range k.nilReturns(fn, i, field) {
			excluded := false
			for j := range r.ret.Results {
				v := result(r.ret, j)
				if j == errAt && errVal && errNil && k.definitelyNonNil(v, at(r.ret)) {
					excluded = true
				}
				if okVal[j] {
					if b, ok := v.(*ssa.Const); ok && b.Value != nil && b.Value.Kind() == constant.Bool && constant.BoolVal(b.Value) != okTrue[j] {
						excluded = true
					}
				}
			}
			if !excluded && field >= 0 {
				return r.why
			}
			if !excluded {
				return fmt.Sprintf("the result of %s, which can be nil", shortFn(fn))
			}
		}
	}
	return ""
}

// structNil tells how a field of a struct can be nil.
func (k *crash) structNil(v ssa.Value, field int, pt point, seen map[ssa.Value]bool) string {
	v = plain(v)
	if seen[v] {
		return ""
	}
	leftOut := func() string {
		_, f := fieldOf(types.NewPointer(v.Type()), field)
		return fmt.Sprintf("the field %s, which %s leaves out", f.Name(), shortFn(pt.b.Parent()))
	}
	switch w := v.(type) {
	case *ssa.Const:
		return leftOut()
	case *ssa.Phi:
		seen[v] = true
		for i, e := range w.Edges {
			if why := k.structNil(e, field, edge(w.Block().Preds[i], w.Block()), seen); why != "" {
				return why
			}
		}
	case *ssa.Call:
		return k.callNil(w, 0, field, pt)
	case *ssa.Extract:
		if c, ok := w.Tuple.(*ssa.Call); ok {
			return k.callNil(c, w.Index, field, pt)
		}
	case *ssa.UnOp:
		a, ok := w.X.(*ssa.Alloc)
		if !ok || w.Op != token.MUL || a.Referrers() == nil {
			return ""
		}
		var whole, part *ssa.Store
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != ssa.Value(a) || whole != nil {
					return ""
				}
				whole = r
			case *ssa.FieldAddr:
				for _, q := range *r.Referrers() {
					switch q := q.(type) {
					case *ssa.Store:
						if q.Addr != ssa.Value(r) {
							return ""
						}
						if r.Field == field {
							if part != nil {
								return ""
							}
							part = q
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						if r.Field == field {
							return ""
						}
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return ""
			}
		}
		seen[v] = true
		switch {
		case part != nil && whole == nil && k.precedes(part, w):
			return k.maybeNil(part.Val, at(part), seen)
		case whole != nil && part == nil && k.precedes(whole, w):
			return k.structNil(whole.Val, field, at(whole), seen)
		case whole == nil && part == nil:
			return leftOut()
		}
	}
	return ""
}

// extractOf looks through variables that are assigned once.
func (k *crash) extractOf(v ssa.Value) *ssa.Extract {
	v = plain(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if s := k.single(u.X); s != nil {
			v = plain(s.Val)
		}
	}
	e, _ := v.(*ssa.Extract)
	return e
}

// definitelyNonNil tells whether an error is known to be one.
func (k *crash) definitelyNonNil(v ssa.Value, pt point) bool {
	v = plain(v)
	if k.guarded(v, pt) {
		return true
	}
	switch w := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if fn := w.Call.StaticCallee(); fn != nil {
			switch fnName(fn) {
			case "fmt.Errorf", "errors.New":
				return true
			}
		}
	case *ssa.UnOp:
		if g, ok := w.X.(*ssa.Global); ok && w.Op == token.MUL && isError(w.Type()) {
			return g != nil
		}
	case *ssa.Phi:
		for i, e := range w.Edges {
			if !k.definitelyNonNil(e, edge(w.Block().Preds[i], w.Block())) {
				return false
			}
		}
		return true
	}
	return false
}

// alwaysAssigned tells whether a closure assigns a variable whenever it runs.
func alwaysAssigned(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		m, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		fn := m.Fn.(*ssa.Function)
		for i, b := range m.Bindings {
			if b != ssa.Value(a) {
				continue
			}
			for _, q := range *fn.FreeVars[i].Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(fn.FreeVars[i]) {
					continue
				}
				all := true
				for _, b := range fn.Blocks {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !s.Block().Dominates(b) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// result is what a return statement gives; functions that defer keep their
// results in variables.
func result(r *ssa.Return, i int) ssa.Value {
	u, ok := r.Results[i].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return r.Results[i]
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok || alwaysAssigned(a) {
		return r.Results[i]
	}
	b := r.Block()
	for {
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			if s, ok := b.Instrs[j].(*ssa.Store); ok && s.Addr == ssa.Value(a) {
				return s.Val
			}
		}
		if len(b.Preds) != 1 {
			return r.Results[i]
		}
		b = b.Preds[0]
	}
}

// nilReturns are the returns of a function that give nil as a result.
func (k *crash) nilReturns(fn *ssa.Function, i, field int) []*nilRet {
	key := nilKey{fn, i, field}
	if r, ok := k.nils[key]; ok || k.busy[key] {
		return r
	}
	k.busy[key] = true
	var out []*nilRet
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(r.Results) {
			continue
		}
		if b.Comment == "recover" {
			continue
		}
		why := ""
		if field < 0 {
			why = k.maybeNil(result(r, i), at(r), map[ssa.Value]bool{})
		} else {
			why = k.structNil(result(r, i), field, at(r), map[ssa.Value]bool{})
		}
		if why != "" {
			out = append(out, &nilRet{r, why})
		}
	}
	k.busy[key] = false
	k.nils[key] = out
	return out
}

// derefsParam tells where a function uses a parameter without having looked
// at it.
func (k *crash) derefsParam(fn *ssa.Function, i int) string {
	key := nilKey{fn, i, -1}
	if w, ok := k.derefs[key]; ok {
		return w
	}
	k.derefs[key] = ""
	if fn.Blocks == nil || !inRepo(fn) || i >= len(fn.Params) {
		return ""
	}
	p := fn.Params[i]
	var is func(v ssa.Value, pt point, seen map[ssa.Value]bool) bool
	is = func(v ssa.Value, pt point, seen map[ssa.Value]bool) bool {
		v = plain(v)
		if seen[v] || k.guarded(v, pt) {
			return false
		}
		switch w := v.(type) {
		case *ssa.Phi:
			seen[v] = true
			for j, e := range w.Edges {
				if is(e, edge(w.Block().Preds[j], w.Block()), seen) {
					return true
				}
			}
			return false
		case *ssa.UnOp:
			// parameters that closures use are kept in variables
			if w.Op != token.MUL {
				return false
			}
			s := k.single(w.X)
			return s != nil && s.Val == ssa.Value(p) && s.Parent() == fn
		}
		return v == ssa.Value(p)
	}
	for _, use := range k.uses(fn) {
		if is(use.v, at(use.i), map[ssa.Value]bool{}) {
			w := k.p.InstrPos(use.i)
			k.derefs[key] = w
			return w
		}
	}
	return ""
}

// nilUse is an instruction that needs a value not to be nil.
type nilUse struct {
	i    ssa.Instruction
	v    ssa.Value
	what string
}

// uses lists what a function needs.
func (k *crash) uses(fn *ssa.Function) []nilUse {
	var out []nilUse
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			add := func(v ssa.Value, what string) {
				if v != nil && (canBeNil(v.Type()) || isMap(v.Type())) {
					out = append(out, nilUse{i, v, what})
				}
			}
			switch w := i.(type) {
			case *ssa.FieldAddr:
				_, f := fieldOf(w.X.Type(), w.Field)
				add(w.X, "its field "+f.Name()+" is used")
			case *ssa.UnOp:
				if w.Op == token.MUL {
					if _, ok := w.X.(*ssa.FieldAddr); !ok {
						add(w.X, "it is dereferenced")
					}
				}
			case *ssa.IndexAddr:
				if _, ok := w.X.Type().Underlying().(*types.Pointer); ok {
					add(w.X, "an element of it is used")
				}
			case *ssa.Store:
				if _, ok := w.Addr.(*ssa.FieldAddr); !ok {
					add(w.Addr, "it is written through")
				}
				if _, ok := w.Addr.(*ssa.IndexAddr); ok && canBeNil(w.Val.Type()) && !isError(w.Val.Type()) && !isAny(w.Val.Type()) {
					add(w.Val, "it is put into a list")
				}
			case *ssa.TypeAssert:
				if !w.CommaOk {
					add(w.X, "its type is asserted")
				}
			case *ssa.MapUpdate:
				add(w.Map, "it is written to")
			case *ssa.MakeInterface:
				// a nil pointer in an interface is not nil
				if isAny(w.Type()) {
					break
				}
				for _, r := range *w.Referrers() {
					switch r := r.(type) {
					case *ssa.Return:
						add(w.X, "it is returned as a "+typeName(w.Type())+" that is not nil")
					case *ssa.Store:
						if _, ok := r.Addr.(*ssa.IndexAddr); ok {
							add(w.X, "it is put into a list")
						}
					}
				}
			case ssa.CallInstruction:
				cc := w.Common()
				if cc.IsInvoke() {
					add(cc.Value, "its method "+cc.Method.Name()+" is called")
				} else if cc.StaticCallee() == nil {
					if _, ok := cc.Value.(*ssa.Builtin); !ok {
						add(cc.Value, "it is called")
					}
				}
				cs := k.p.siteCallees(w)
				for n, a := range cc.Args {
					if !canBeNil(a.Type()) && !isMap(a.Type()) {
						continue
					}
					for _, g := range cs {
						at := n
						if cc.IsInvoke() {
							at++
						}
						if where := k.derefsParam(g, at); where != "" {
							add(a, fmt.Sprintf("it is given to %s, which uses it", shortFn(g)))
							break
						}
					}
				}
			}
		}
	}
	return out
}

func (k *crash) nilRule() {
	c := k.c
	for _, fn := range k.p.Repo {
		if fn.Blocks == nil {
			continue
		}
		c.Fn(fn)
		for _, u := range k.uses(fn) {
			v := plain(u.v)
			switch w := v.(type) {
			case *ssa.Parameter:
				if k.walked()[w] == nil {
					continue
				}
			case *ssa.Global, *ssa.Alloc, *ssa.Function, *ssa.FieldAddr, *ssa.MakeClosure, *ssa.IndexAddr, *ssa.MakeInterface:
				continue
			case *ssa.UnOp:
				if _, ok := w.X.(*ssa.Global); ok {
					continue
				}
			}
			c.Count("uses of values", 1)
			if why := k.maybeNil(v, at(u.i), map[ssa.Value]bool{}); why != "" {
				c.Report("nil/"+shortFn(fn)+"/"+why+"/"+u.what, k.p.InstrPos(u.i), fmt.Sprintf("%s: %s, in %s", why, u.what, shortFn(fn)), nil)
			} else if k.maybeNil(v, point{b: fn.Blocks[0]}, map[ssa.Value]bool{}) != "" {
				c.Count("uses that are guarded", 1)
			}
		}
	}
}

const manyLen = 1 << 20

// lenFact is how long a value is at least because of a condition.
func (k *crash) lenFact(f cfact, v ssa.Value, pt point) int {
	switch w := f.v.(type) {
	case *ssa.BinOp:
		x, y, op := f.of(w.X), f.of(w.Y), w.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
			op = flip(op)
		}
		if !f.truth {
			op = negate(op)
		}
		// a comparison of strings
		if c, ok := y.(*ssa.Const); ok && isStringy(y.Type()) {
			if c.Value == nil || c.Value.Kind() != constant.String {
				return 0
			}
			lit := constant.StringVal(c.Value)
			switch {
			case op == token.EQL && k.is(x, f.at, v, pt):
				return len(lit)
			case op == token.NEQ && lit == "" && k.is(x, f.at, v, pt):
				return 1
			}
			return 0
		}
		n, isConst := intConst(y)
		for isConst {
			b, ok := plain(x).(*ssa.BinOp)
			if !ok || b.Op != token.SUB && b.Op != token.ADD {
				break
			}
			m, ok := intConst(b.Y)
			if !ok {
				break
			}
			if b.Op == token.ADD {
				m = -m
			}
			x, n = b.X, n+m
		}
		if isNilConst(y) && (op == token.EQL || op == token.NEQ) {
			if e := k.extractOf(x); e != nil {
				if call, ok := e.Tuple.(*ssa.Call); ok {
					return k.lenSays(call, e.Index, f, v, pt, func(r ssa.Value) bool { return op == token.NEQ && isNilConst(plain(r)) })
				}
			}
			if call, ok := plain(x).(*ssa.Call); ok {
				return k.lenSays(call, 0, f, v, pt, func(r ssa.Value) bool { return op == token.NEQ && isNilConst(plain(r)) })
			}
			return 0
		}
		if x, ok := plain(x).(*ssa.Call); ok {
			if of := lenOf(x); of != nil {
				if !k.is(of, f.at, v, pt) {
					return 0
				}
				if !isConst {
					return 0
				}
				switch op {
				case token.GTR:
					return n + 1
				case token.GEQ, token.EQL:
					return n
				case token.NEQ:
					if n == k.known {
						return n + 1
					}
				}
				return 0
			}
			if isConst && len(x.Call.Args) == 2 && isIndexFn(x) {
				found := op == token.GTR && n >= -1 || op == token.GEQ && n >= 0 || op == token.NEQ && n == -1 || op == token.EQL && n >= 0
				if found && k.is(x.Call.Args[0], f.at, v, pt) {
					m := litLen(x.Call.Args[1])
					switch op {
					case token.GTR:
						return n + 1 + m
					case token.GEQ, token.EQL:
						return n + m
					}
					return m
				}
			}
		}
		// i < len(v), where i is not negative
		if of := lenOf(f.of(w.Y)); of != nil && (w.Op == token.LSS && f.truth || w.Op == token.GEQ && !f.truth) && k.notNegative(f.of(w.X), map[ssa.Value]bool{}) {
			if k.is(of, f.at, v, pt) {
				return 1
			}
		}
		if of := lenOf(f.of(w.X)); of != nil && (w.Op == token.GTR && f.truth || w.Op == token.LEQ && !f.truth) && k.notNegative(f.of(w.Y), map[ssa.Value]bool{}) {
			if k.is(of, f.at, v, pt) {
				return 1
			}
		}
	case *ssa.Extract:
		if nx, ok := w.Tuple.(*ssa.Next); ok && w.Index == 0 && f.truth {
			if r, ok := nx.Iter.(*ssa.Range); ok && k.is(r.X, f.at, v, pt) {
				return 1
			}
		}
		if call, ok := w.Tuple.(*ssa.Call); ok {
			return k.lenSays(call, w.Index, f, v, pt, nil)
		}
	case *ssa.Call:
		if fn := w.Call.StaticCallee(); fn != nil && !inRepo(fn) && len(w.Call.Args) == 2 && f.truth {
			switch fnName(fn) {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains", "strings.ContainsRune":
				if k.is(w.Call.Args[0], f.at, v, pt) {
					return litLen(w.Call.Args[1])
				}
			}
			return 0
		}
		return k.lenSays(w, 0, f, v, pt, nil)
	}
	return 0
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func intConst(v ssa.Value) (int, bool) {
	c, ok := plain(v).(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Value))
	return int(n), ok
}

// litLen is how long a searched text is at least.
func litLen(v ssa.Value) int {
	if c, ok := plain(v).(*ssa.Const); ok && c.Value != nil {
		if c.Value.Kind() == constant.String {
			return len(constant.StringVal(c.Value))
		}
		return 1
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return 1
	}
	return 0
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := plain(v).(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func isIndexFn(c *ssa.Call) bool {
	fn := c.Call.StaticCallee()
	if fn == nil {
		return false
	}
	switch fnName(fn) {
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "bytes.Index", "bytes.LastIndex", "bytes.IndexByte":
		return true
	}
	return false
}

func (k *crash) notNegative(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = plain(v)
	if n, ok := intConst(v); ok {
		return n >= 0
	}
	if lenOf(v) != nil || seen[v] {
		return true
	}
	switch w := v.(type) {
	case *ssa.Phi:
		seen[v] = true
		for _, e := range w.Edges {
			if !k.notNegative(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if w.Op == token.ADD {
			if k.notNegative(w.X, seen) && k.notNegative(w.Y, seen) {
				return true
			}
			// the counter of a range loop starts before the first element
			if n, ok := intConst(w.Y); ok && n == 1 {
				if phi, ok := w.X.(*ssa.Phi); ok {
					for _, e := range phi.Edges {
						if n, ok := intConst(e); ok && n >= -1 || e == ssa.Value(w) {
							continue
						}
						return false
					}
					return true
				}
			}
		}
	}
	return false
}

// lenSays is how long a value is at least when a function that was asked
// about it has answered.
func (k *crash) lenSays(call *ssa.Call, idx int, f cfact, v ssa.Value, pt point, excluded func(ssa.Value) bool) int {
	if k.dep > 3 || call.Call.IsInvoke() || k.match != nil {
		return 0
	}
	k.dep++
	defer func() { k.dep-- }()
	defer func() { k.match = nil }()
	best := -1
	cs := k.p.siteCallees(call)
	reads := map[string]bool{}
	want := k.term(v, reads, 0)
	if !k.stable(call.Block(), pt, reads) {
		return 0
	}
	truth := excluded == nil
	if truth {
		excluded = func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != f.truth
		}
	}
	for _, fn := range cs {
		if !inRepo(fn) || fn.Blocks == nil || len(fn.Params) != len(call.Call.Args) {
			return 0
		}
		k.match = func(x ssa.Value) bool {
			t := k.term(x, reads, 0)
			for i, p := range fn.Params {
				t = strings.ReplaceAll(t, k.term(p, reads, 0), k.term(f.of(call.Call.Args[i]), reads, 0))
			}
			return t == want
		}
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(r.Results) || b.Comment == "recover" || excluded(result(r, idx)) {
				continue
			}
			rp := at(r)
			if truth {
				rp.extra = append(rp.extra, cfact{v: result(r, idx), truth: f.truth, at: b})
			}
			n := 0
			known := k.known
			k.known = 0
			for again := true; again; {
				again = false
				for _, g := range expand(facts(rp)) {
					if m := k.lenFact(g, nil, rp); m > n {
						n = m
						k.known = n
						again = true
					}
				}
			}
			k.known = known
			if best < 0 || n < best {
				best = n
			}
		}
	}
	if best < 0 || !k.stable(call.Block(), pt, reads) {
		return 0
	}
	return best
}

// is tells whether a condition is about the value that lenFact is asked about.
func (k *crash) is(x ssa.Value, from *ssa.BasicBlock, v ssa.Value, pt point) bool {
	if k.match != nil {
		return k.match(x)
	}
	return k.same(x, from, v, pt)
}

// minLen is how many elements a value has at least at a point.
func (k *crash) minLen(v ssa.Value, pt point, seen map[ssa.Value]bool) int {
	v = plain(v)
	best := k.lenByShape(v, pt, seen)
	if best >= manyLen/2 {
		return best
	}
	fs := expand(facts(pt))
	for again := true; again; {
		again = false
		for _, f := range fs {
			k.known = best
			if n := k.lenFact(f, v, pt); n > best {
				best = n
				again = true
			}
		}
	}
	return best
}

// minInt is a lower bound of a number at a point, if there is one.
func (k *crash) minInt(v ssa.Value, pt point, seen map[ssa.Value]bool) (int, bool) {
	v = plain(v)
	best, ok := 0, false
	raise := func(n int) bool {
		if !ok || n > best {
			best, ok = n, true
			return true
		}
		return false
	}
	if n, is := intConst(v); is {
		return n, true
	}
	if seen[v] {
		return manyLen, true
	}
	if of := lenOf(v); of != nil {
		raise(k.minLen(of, pt, map[ssa.Value]bool{}))
	} else if k.notNegative(v, map[ssa.Value]bool{}) {
		raise(0)
	}
	if b, is := v.Type().Underlying().(*types.Basic); is && b.Info()&types.IsUnsigned != 0 {
		raise(0)
	}
	switch w := v.(type) {
	case *ssa.Phi:
		seen[v] = true
		low, all := manyLen, true
		for i, e := range w.Edges {
			n, is := k.minInt(e, edge(w.Block().Preds[i], w.Block()), seen)
			if !is {
				all = false
				break
			}
			if n < low {
				low = n
			}
		}
		delete(seen, v)
		if all {
			raise(low)
		}
	case *ssa.BinOp:
		switch w.Op {
		case token.ADD:
			x, xok := k.minInt(w.X, pt, seen)
			y, yok := k.minInt(w.Y, pt, seen)
			if xok && yok {
				raise(x + y)
			}
		case token.SUB:
			x, xok := k.minInt(w.X, pt, seen)
			if y, yok := intConst(w.Y); xok && yok && x < manyLen/2 {
				raise(x - y)
			}
		}
	case *ssa.Call:
		if isIndexFn(w) {
			raise(-1)
		} else if fn := w.Call.StaticCallee(); fn != nil && fnName(fn) == "sort.Search" {
			raise(0)
		}
	}
	fs := expand(facts(pt))
	for again := true; again; {
		again = false
		for _, f := range fs {
			b, is := f.v.(*ssa.BinOp)
			if !is {
				continue
			}
			x, y, op := f.of(b.X), f.of(b.Y), b.Op
			if _, is := intConst(x); is {
				x, y, op = y, x, flip(op)
			}
			n, is := intConst(y)
			if !is || !k.same(x, f.at, v, pt) {
				continue
			}
			if !f.truth {
				op = negate(op)
			}
			switch op {
			case token.GTR:
				again = raise(n+1) || again
			case token.GEQ, token.EQL:
				again = raise(n) || again
			case token.NEQ:
				if ok && best == n {
					again = raise(n+1) || again
				}
			}
		}
	}
	return best, ok
}

func (k *crash) lenByShape(v ssa.Value, pt point, seen map[ssa.Value]bool) int {
	if seen[v] {
		return manyLen
	}
	minus := func(n, c int) int {
		if c > 0 && n >= manyLen/2 {
			return 0
		}
		if n < c {
			return 0
		}
		return n - c
	}
	switch w := v.(type) {
	case *ssa.Const:
		if w.Value != nil && w.Value.Kind() == constant.String {
			return len(constant.StringVal(w.Value))
		}
	case *ssa.Alloc:
		if a, ok := derefType(w.Type()).Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	case *ssa.MakeSlice:
		if n, ok := intConst(w.Len); ok {
			return n
		}
	case *ssa.Convert:
		n := k.minLen(w.X, pt, seen)
		if n >= manyLen/2 {
			return n
		}
		_, toSlice := w.Type().Underlying().(*types.Slice)
		from, fromSlice := w.X.Type().Underlying().(*types.Slice)
		switch {
		case toSlice && isStringy(w.X.Type()):
			if e, ok := w.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Byte {
				return n
			}
			if n > 1 {
				n = 1
			}
			return n
		case fromSlice && isStringy(w.Type()):
			_ = from
			return n
		case isStringy(w.X.Type()) && isStringy(w.Type()):
			return n
		}
		if b, ok := w.X.Type().Underlying().(*types.Basic); ok && isStringy(w.Type()) && b.Info()&types.IsInteger != 0 {
			return 1
		}
	case *ssa.BinOp:
		if w.Op == token.ADD && isStringy(w.Type()) {
			return k.minLen(w.X, pt, seen) + k.minLen(w.Y, pt, seen)
		}
	case *ssa.Phi:
		seen[v] = true
		defer delete(seen, v)
		best := manyLen
		known := facts(pt)
		for i, e := range w.Edges {
			ep := edge(w.Block().Preds[i], w.Block())
			for _, f := range known {
				if f.join == nil && w.Block().Dominates(f.at) {
					f.join, f.edge = w.Block(), i
					ep.extra = append(ep.extra, f)
				}
			}
			if n := k.minLen(e, ep, seen); n < best {
				best = n
			}
		}
		return best
	case *ssa.Slice:
		low, lok := 0, true
		if w.Low != nil {
			low, lok = intConst(w.Low)
		}
		n := k.minLen(w.X, pt, seen)
		if w.High == nil {
			if lok {
				return minus(n, low)
			}
			return 0
		}
		if h, ok := intConst(w.High); ok && lok {
			return minus(h, low)
		}
		if c, ok := k.fromEnd(w.High, w.X, w); ok && lok {
			return minus(n, low+c)
		}
	case *ssa.UnOp:
		if w.Op == token.MUL {
			switch a := w.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				if s := k.single(a); s != nil {
					if s.Parent() == w.Parent() && k.precedes(s, w) {
						return k.minLen(s.Val, pt, seen)
					}
					if s.Parent() != w.Parent() {
						return k.minLen(s.Val, at(s), seen)
					}
				}
			case *ssa.FieldAddr:
				return k.fieldLen(a, w, pt)
			}
		}
	case *ssa.Extract:
		if c, ok := w.Tuple.(*ssa.Call); ok {
			return k.callLen(c, w.Index, pt, seen)
		}
	case *ssa.Call:
		return k.callLen(w, 0, pt, seen)
	case *ssa.Parameter:
		return k.paramLen(w)
	}
	return 0
}

// fromEnd tells which distance from the end of a value an index is.
func (k *crash) fromEnd(idx, x ssa.Value, i ssa.Instruction) (int, bool) {
	if of := lenOf(idx); of != nil && k.same(of, idx.(*ssa.Call).Block(), x, at(i)) {
		return 0, true
	}
	b, ok := plain(idx).(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return 0, false
	}
	of := lenOf(b.X)
	n, isConst := intConst(b.Y)
	if of == nil || !isConst || n < 0 || !k.same(of, b.Block(), x, at(i)) {
		return 0, false
	}
	return n, true
}

// isLiteral tells whether a token is known to be a quoted string.
func (k *crash) isLiteral(tok ssa.Value, pt point) bool {
	var pkg *types.Package
	for _, q := range k.p.Prog.AllPackages() {
		if strings.HasSuffix(q.Pkg.Path(), "go-phpparser/lexer") {
			pkg = q.Pkg
		}
	}
	if pkg == nil {
		return false
	}
	lit, ok := pkg.Scope().Lookup("StringLiteral").(*types.Const)
	if !ok {
		return false
	}
	for _, f := range expand(facts(pt)) {
		b, ok := f.v.(*ssa.BinOp)
		if !ok || (b.Op == token.EQL) != f.truth || b.Op != token.EQL && b.Op != token.NEQ {
			continue
		}
		x, y := f.of(b.X), f.of(b.Y)
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		c, ok := y.(*ssa.Const)
		if !ok || !constant.Compare(c.Value, token.EQL, lit.Val()) {
			continue
		}
		reads := map[string]bool{}
		if k.term(x, reads, 0) == k.term(tok, reads, 0)+".Type" {
			return true
		}
	}
	return false
}

// kept are the lists that keep elements as long as they are used.
var kept = map[string]bool{
	"analysis.Document.importTables":             true, // Load puts the first one in
	"analysis.Document.variableTables":           true, // see the rule about stacks
	"analysis.Document.lineOffsets":              true, // SetText puts the first one in
	"analysis.Document.blockStack":               true, // see the rule about stacks
	"internal/lsp/protocol.CompletionItem.Label": true, // a property has its dollar sign
}

func (k *crash) fieldLen(a *ssa.FieldAddr, l *ssa.UnOp, pt point) int {
	if kept[fieldClass(a.X.Type(), a.Field)] {
		return 1
	}
	// what the function has stored there itself
	var last *ssa.Store
	for _, b := range a.Parent().Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == a.Field && fa.X == a.X && k.precedes(s, l) {
					reads := map[string]bool{fieldClass(a.X.Type(), a.Field): true}
					if k.quiet(s, l, reads) {
						last = s
					}
				}
			}
		}
	}
	if last != nil {
		return k.minLen(last.Val, at(last), map[ssa.Value]bool{})
	}
	return 0
}

// quiet tells whether none of the places is written between two instructions.
func (k *crash) quiet(a, b ssa.Instruction, reads map[string]bool) bool {
	if a.Block() == b.Block() {
		on := false
		for _, i := range a.Block().Instrs {
			if i == b {
				return true
			}
			if on && k.writes(i, reads) {
				return false
			}
			if i == a {
				on = true
			}
		}
	}
	on := false
	for _, i := range a.Block().Instrs {
		if on && k.writes(i, reads) {
			return false
		}
		if i == a {
			on = true
		}
	}
	return k.stable(a.Block(), at(b), reads)
}

func (k *crash) callLen(c *ssa.Call, idx int, pt point, seen map[ssa.Value]bool) int {
	args := c.Call.Args
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return k.minLen(args[0], pt, seen) + k.minLen(args[1], pt, seen)
		}
		return 0
	}
	if c.Call.IsInvoke() && c.Call.Method.FullName() == "(hash.Hash).Sum" {
		if h, ok := plain(c.Call.Value).(*ssa.Call); ok && h.Call.StaticCallee() != nil {
			switch fnName(h.Call.StaticCallee()) {
			case "crypto/md5.New":
				return 16
			case "crypto/sha1.New":
				return 20
			case "crypto/sha256.New":
				return 32
			}
		}
		return 0
	}
	if fn := c.Call.StaticCallee(); fn != nil && !inRepo(fn) {
		switch fnName(fn) {
		case "strings.Split", "strings.SplitAfter", "bytes.Split":
			if c, ok := plain(args[1]).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "\x00" {
				// keys have all of their parts, see C13
				return manyLen
			}
			if litLen(args[1]) > 0 {
				return 1
			}
			if g, ok := args[1].(*ssa.UnOp); ok && g.Op == token.MUL {
				return 1
			}
		case "strings.SplitN":
			if n, ok := intConst(args[2]); ok && n != 0 && litLen(args[1]) > 0 {
				return 1
			}
		case "strings.ToLower", "strings.ToUpper":
			if k.minLen(args[0], pt, seen) > 0 {
				return 1
			}
		case "encoding/hex.EncodeToString":
			return 2 * k.minLen(args[0], pt, seen)
		}
		return 0
	}
	if k.dep > 4 {
		return 0
	}
	k.dep++
	defer func() { k.dep-- }()
	best := -1
	for _, fn := range k.p.siteCallees(c) {
		if !inRepo(fn) || fn.Blocks == nil {
			return 0
		}
		switch {
		case k.parts != nil && fn == k.parts:
			// a name that is not empty has parts
			return 1
		case k.tokenText != nil && fn == k.tokenText && k.isLiteral(args[len(args)-1], pt):
			// the quotes
			return 2
		}
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(r.Results) || b.Comment == "recover" {
				continue
			}
			n := k.minLen(result(r, idx), at(r), map[ssa.Value]bool{})
			if best < 0 || n < best {
				best = n
			}
		}
	}
	if best < 0 {
		return 0
	}
	return best
}

// paramLen is how long an argument is at least wherever the function is called.
func (k *crash) paramLen(p *ssa.Parameter) int {
	if n, ok := k.params[p]; ok {
		return n
	}
	k.params[p] = manyLen
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	best := manyLen
	node := k.p.CG.Nodes[fn]
	n := 0
	if node != nil {
		for _, e := range node.In {
			if e.Site == nil || !inRepo(e.Caller.Func) {
				if e.Site != nil && e.Caller.Func.Synthetic == "" {
					best = 0
				}
				continue
			}
			cc := e.Site.Common()
			i := idx
			if cc.IsInvoke() {
				i--
			}
			if i < 0 || i >= len(cc.Args) {
				best = 0
				continue
			}
			n++
			if m := k.minLen(cc.Args[i], at(e.Site), map[ssa.Value]bool{}); m < best {
				best = m
			}
		}
	}
	if n == 0 {
		best = 0
	}
	k.params[p] = best
	return best
}

// live are the functions that the program can run.
func (k *crash) live() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if !out[fn] {
			out[fn] = true
			work = append(work, fn)
		}
	}
	for fn := range k.p.CG.Nodes {
		if fn != nil && fn.Pkg != nil && isRepoPath(fn.Pkg.Pkg.Path()) && fn.Parent() == nil && (fn.Name() == "main" && fn.Pkg.Pkg.Name() == "main" || strings.HasPrefix(fn.Name(), "init")) {
			add(fn)
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if n := k.p.CG.Nodes[fn]; n != nil {
			for _, e := range n.Out {
				add(e.Callee.Func)
			}
		}
	}
	return out
}

func (k *crash) boundsRule() {
	c := k.c
	live := k.live()
	c.Count("functions that run", len(live))
	c.AtLeast("functions that run", 500)
	for _, fn := range k.p.Repo {
		if !live[fn] || strings.HasSuffix(pkgPathOf(fn), "/analysis/storage") {
			// records that are read are as they were written, see C12
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var x ssa.Value
				need := -1
				what := ""
				var below *ssa.BinOp
				dist := 0
				place := func(idx ssa.Value) {
					if n, ok := intConst(idx); ok {
						need = n + 1
						what = fmt.Sprintf("the element %d", n)
					} else if n, ok := k.fromEnd(idx, x, i); ok {
						need = n
						what = fmt.Sprintf("the element %d from the end", n)
						if n == 0 {
							need = manyLen
						}
					} else if b, ok := plain(idx).(*ssa.BinOp); ok && b.Op == token.SUB {
						if n, ok := intConst(b.Y); ok && n > 0 {
							below, dist = b, n
						}
					}
				}
				switch w := i.(type) {
				case *ssa.IndexAddr:
					if _, ok := w.X.Type().Underlying().(*types.Slice); ok {
						x = w.X
						place(w.Index)
					}
				case *ssa.Index:
					x = w.X
					place(w.Index)
				case *ssa.Lookup:
					if isStringy(w.X.Type()) {
						x = w.X
						place(w.Index)
					}
				case *ssa.Slice:
					if a, ok := w.X.(*ssa.Alloc); ok && a != nil {
						continue
					}
					x = w.X
					low := 0
					if w.Low != nil {
						n, ok := intConst(w.Low)
						if !ok {
							if n, ok := k.fromEnd(w.Low, x, i); ok {
								need = n
								what = fmt.Sprintf("the last %d", n)
							}
							break
						}
						low = n
					}
					switch {
					case w.High == nil:
						need = low
						what = fmt.Sprintf("what follows the first %d", low)
					default:
						if n, ok := intConst(w.High); ok {
							need = n
							what = fmt.Sprintf("the first %d", n)
						} else if n, ok := k.fromEnd(w.High, x, i); ok {
							need = low + n
							what = fmt.Sprintf("all but the first %d and the last %d", low, n)
						}
					}
				}
				if below != nil && need < 0 {
					c.Count("elements before another place", 1)
					if n, ok := k.minInt(below, at(i), map[ssa.Value]bool{}); !ok || n < 0 {
						c.Report("before/"+shortFn(fn)+"/"+fmt.Sprint(dist), k.p.InstrPos(i), fmt.Sprintf("%s takes what is %d before a place that can be less than that from the start", shortFn(fn), dist), nil)
					}
					continue
				}
				if need <= 0 || x == nil {
					continue
				}
				c.Count("elements at a fixed place", 1)
				if n := k.minLen(x, at(i), map[ssa.Value]bool{}); n < need {
					c.Report("bounds/"+shortFn(fn)+"/"+what, k.p.InstrPos(i), fmt.Sprintf("%s takes %s of something that can have only %d", shortFn(fn), what, n), nil)
				}
			}
		}
	}
}

// neverFails tells whether a result of a function is never an error.
func (k *crash) neverFails(fn *ssa.Function, i int) bool {
	if k.exempt[fn] {
		return true
	}
	if !inRepo(fn) || fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && b.Comment != "recover" && !isNilConst(r.Results[i]) && !onlyNil(r.Results[i]) {
			return false
		}
	}
	return true
}

// onlyNil tells whether a variable is only ever assigned nil.
func onlyNil(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) || !isNilConst(r.Val) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// exitRule decides that nothing but the request to exit ends the program.
func (k *crash) exitRule() {
	c := k.c
	live := k.live()
	for _, fn := range k.p.Repo {
		if !live[fn] || pkgPathOf(fn) == modPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				what := ""
				switch i := i.(type) {
				case *ssa.Panic:
					if i.Pos().IsValid() {
						what = "panics"
					}
				case ssa.CallInstruction:
					g := i.Common().StaticCallee()
					if g == nil || inRepo(g) {
						continue
					}
					switch n := fnName(g); {
					case n == "os.Exit" || n == "syscall.Exit" || n == "runtime.Goexit":
						what = "calls " + n
					case pkgPathOf(g) == "log" && (strings.HasPrefix(g.Name(), "Fatal") || strings.HasPrefix(g.Name(), "Panic")):
						what = "calls log." + g.Name()
					}
				}
				if what == "" {
					continue
				}
				c.Count("places that end the program", 1)
				if k.mayExit(fn, i) {
					continue
				}
				c.Report("exit/"+shortFn(fn)+"/"+what, k.p.InstrPos(i), fmt.Sprintf("%s %s, and the server is gone", shortFn(fn), what), nil)
			}
		}
	}
	c.AtLeast("places that end the program", 1)
}

func (k *crash) mayExit(fn *ssa.Function, i ssa.Instruction) bool {
	if fn.Name() == "Exit" && fn.Signature.Recv() != nil {
		return true
	}
	bools := map[string]int{}
	for _, f := range expand(facts(at(i))) {
		b, ok := f.v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			// a truth value that is neither
			if !ok && isBoolType(f.v.Type()) {
				reads := map[string]bool{}
				m := 1
				if f.truth {
					m = 2
				}
				bools[k.term(f.v, reads, 0)] |= m
			}
			continue
		}
		x, y := f.of(b.X), f.of(b.Y)
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && (b.Op == token.NEQ) == f.truth {
			vs := []ssa.Value{x}
			if phi, ok := x.(*ssa.Phi); ok {
				vs = phi.Edges
			}
			all := true
			for _, v := range vs {
				if isNilConst(v) {
					continue
				}
				var call *ssa.Call
				idx := 0
				if e := k.extractOf(v); e != nil {
					call, _ = e.Tuple.(*ssa.Call)
					idx = e.Index
				} else {
					call, _ = plain(v).(*ssa.Call)
				}
				if call == nil {
					all = false
					continue
				}
				cs := k.p.siteCallees(call)
				for _, g := range cs {
					all = all && k.neverFails(g, idx)
				}
				all = all && len(cs) > 0
			}
			if all {
				return true
			}
		}
		if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
			m := 1
			if (b.Op == token.EQL) == f.truth == constant.BoolVal(c.Value) {
				m = 2
			}
			reads := map[string]bool{}
			bools[k.term(x, reads, 0)] |= m
		}
	}
	for _, m := range bools {
		if m == 3 {
			return true
		}
	}
	return false
}

func crashRule(c *Ctx) {
	c.Rule("a value that can be missing - a result that is nil or comes with an error or false, an element of a map, an optional part of a message, a field that is not always set - is compared before it is used (dataflow over every function, its callees and callers)")
	c.Rule("an element at a fixed place of a list or a text, or before another place, is taken only where the length, or the place, was looked at or is known (facts of the conditions on all ways there)")
	c.Rule("nothing that handles requests or works in the background ends the program: no explicit panic, os.Exit or log.Fatal outside of the command, except on errors that are never returned (effects over the call graph)")
	k := &crash{c: c, p: c.P, nils: map[nilKey][]*nilRet{}, busy: map[nilKey]bool{}, derefs: map[nilKey]string{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, exempt: map[*ssa.Function]bool{}, params: map[*ssa.Parameter]int{}}
	for _, n := range []string{"Descend", "Ascend"} {
		if fn := c.P.Method(c.P.Named("util", "Traverser"), n); fn != nil {
			k.exempt[fn] = true
		}
	}
	k.parts = c.P.Method(c.P.Named("analysis", "TypeString"), "GetParts")
	k.tokenText = c.P.Method(c.P.Named("analysis", "Document"), "getTokenText")
	k.nilRule()
	k.boundsRule()
	k.exitRule()
}

func init() {
	register("C07", "missing values and elements are looked at before they are used", nil, crashRule)
}
