package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// States of a document on a path, and sets of them.
const (
	ldLoaded = 1 // what was parsed of its text is there
	ldLocked = 2
	ldShared = 4 // others can reach it
)

type ldSet uint8 // of states

func ldOne(s int) ldSet { return 1 << uint(s) }

func (s ldSet) each(f func(st int)) {
	for i := 0; i < 8; i++ {
		if s&(1<<uint(i)) != 0 {
			f(i)
		}
	}
}

func (s ldSet) mapped(f func(st int) int) ldSet {
	var out ldSet
	s.each(func(st int) { out |= ldOne(f(st)) })
	return out
}

// ldKey is a function that works on a document: one that it is given, or one
// that it gets itself at src.
type ldKey struct {
	fn    *ssa.Function
	mask  string
	src   ssa.Value
	state int
}

type ldRes struct {
	exits  ldSet
	ret    bool  // a result is, or holds, the document
	retDoc ldSet // states in which the document itself is returned
	puts   []bool
	from   *ldKey
	at     ssa.Instruction
}

// loading is what C30 knows.
type loading struct {
	c       *Ctx
	p       *Program
	doc     *types.Named
	load    *ssa.Function
	derived map[string]bool
	text    map[string]bool
	matters map[*ssa.Function]bool // reads what was parsed, loads, locks or changes texts
	changes map[*ssa.Function]bool // loads, locks, changes texts or shares
	memo    map[ldKey]*ldRes
	own     map[*ssa.Function]ldSet // documents that a function gets and returns
	lived   map[*types.Named]bool
	holding map[types.Type]bool
	changed bool
	found   map[string]func()
	reads   map[string]bool
	loads   map[string]bool
}

// holds tells whether values of a type can hold a document.
func (x *loading) holds(t types.Type) bool {
	if v, ok := x.holding[t]; ok {
		return v
	}
	x.holding[t] = false
	r := false
	switch u := t.(type) {
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r = r || x.holds(u.At(i).Type())
		}
		x.holding[t] = r
		return r
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj() == x.doc.Obj() {
		x.holding[t] = true
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		r = x.holds(u.Elem())
	case *types.Slice:
		r = x.holds(u.Elem())
	case *types.Array:
		r = x.holds(u.Elem())
	case *types.Chan:
		r = x.holds(u.Elem())
	case *types.Map:
		r = x.holds(u.Elem()) || x.holds(u.Key())
	case *types.Signature:
		r = true
	case *types.Interface:
		r = !isContext(t) && !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Struct:
		for i := 0; i < u.NumFields() && !r; i++ {
			r = x.holds(u.Field(i).Type())
		}
	}
	x.holding[t] = r
	return r
}

func (x *loading) isDocPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj() == x.doc.Obj()
}

// docField is the field of a document that an address is of, or inside of.
func (x *loading) docField(v ssa.Value) (base ssa.Value, field string) {
	for {
		f, ok := v.(*ssa.FieldAddr)
		if !ok {
			return nil, ""
		}
		if x.isDocPtr(f.X.Type()) {
			return f.X, nameOfField(f)
		}
		v = f.X
	}
}

// scope finds which fields hold what was parsed: those that are written by
// what Load does, unless they are only used by a function that fills them.
func (x *loading) scope() {
	inLoad := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if inLoad[fn] || !inRepo(fn) {
			return
		}
		inLoad[fn] = true
		for _, s := range x.p.succs(fn) {
			walk(s)
		}
		if n := x.p.CG.Nodes[fn]; n != nil {
			for _, e := range n.Out {
				walk(e.Callee.Func)
			}
		}
	}
	walk(x.load)
	writes, reads := map[string]map[*ssa.Function]bool{}, map[string]map[*ssa.Function]bool{}
	add := func(m map[string]map[*ssa.Function]bool, k string, f *ssa.Function) {
		if m[k] == nil {
			m[k] = map[*ssa.Function]bool{}
		}
		m[k][f] = true
	}
	x.text = map[string]bool{}
	for fn := range x.p.CG.Nodes {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f, ok := in.(*ssa.FieldAddr)
				if !ok || !x.isDocPtr(f.X.Type()) {
					continue
				}
				name := nameOfField(f)
				for _, r := range *f.Referrers() {
					switch u := r.(type) {
					case *ssa.Store:
						if u.Addr == ssa.Value(f) {
							if inLoad[fn] {
								add(writes, name, fn)
							}
							continue
						}
						add(reads, name, fn)
					case *ssa.DebugRef:
					default:
						add(reads, name, fn)
					}
				}
				if sl, ok := f.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
						x.text[name] = true
					}
				}
			}
		}
	}
	x.derived = map[string]bool{}
	for name, ws := range writes {
		for r := range reads[name] {
			if !ws[r] && r != x.load && !x.text[name] {
				x.derived[name] = true
			}
		}
	}
}

func (x *loading) locks(f *ssa.Function, args []ssa.Value, tainted func(ssa.Value) bool) string {
	if f == nil || pkgPathOf(f) != "sync" || len(args) != 1 {
		return ""
	}
	if f.Name() != "Lock" && f.Name() != "Unlock" {
		return ""
	}
	base, _ := x.docField(args[0])
	if base == nil || !tainted(base) {
		return ""
	}
	return f.Name()
}

func (x *loading) analyse(k ldKey, from *ldKey, at ssa.Instruction) *ldRes {
	if r := x.memo[k]; r != nil {
		return r
	}
	r := &ldRes{from: from, at: at, puts: make([]bool, len(k.fn.Params))}
	x.memo[k] = r
	x.changed = true
	x.step(k, r)
	return r
}

// chain tells how a function came by the document.
func (x *loading) chain(k ldKey) string {
	var parts []string
	for cur := &k; cur != nil && len(parts) < 8; {
		parts = append(parts, shortFn(cur.fn))
		r := x.memo[*cur]
		if r == nil {
			break
		}
		cur = r.from
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " → ")
}

func (x *loading) root(k ldKey) ldKey {
	for i := 0; i < 40; i++ {
		r := x.memo[k]
		if r == nil || r.from == nil {
			break
		}
		k = *r.from
	}
	return k
}

func (x *loading) step(k ldKey, res *ldRes) {
	p, fn := x.p, k.fn
	if fn.Blocks == nil {
		res.exits |= ldOne(k.state)
		return
	}
	x.c.Fn(fn)
	marks := map[string]bool{}
	for _, m := range strings.Fields(k.mask) {
		marks[m] = true
	}
	vals := map[ssa.Value]bool{}
	for i, q := range fn.Params {
		if marks[fmt.Sprintf("p%d", i)] {
			vals[q] = true
		}
	}
	for i, q := range fn.FreeVars {
		if marks[fmt.Sprintf("f%d", i)] {
			vals[q] = true
		}
	}
	var isT func(v ssa.Value) bool
	isT = func(v ssa.Value) bool {
		if vals[v] {
			return true
		}
		if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if isT(b) {
					return true
				}
			}
		}
		return false
	}
	if k.src != nil {
		vals[k.src] = true
	}
	local := func(a ssa.Value) ssa.Value {
		for {
			switch u := a.(type) {
			case *ssa.FieldAddr:
				a = u.X
			case *ssa.IndexAddr:
				a = u.X
			case *ssa.Alloc:
				return u
			default:
				return nil
			}
		}
	}
	paramOf := func(a ssa.Value) int {
		for {
			switch u := a.(type) {
			case *ssa.FieldAddr:
				a = u.X
			case *ssa.IndexAddr:
				a = u.X
			case *ssa.Parameter:
				for i, q := range fn.Params {
					if q == u {
						return i
					}
				}
				return -1
			default:
				return -1
			}
		}
	}
	// mark taints what a value is stored in, false when others can reach it
	mark := func(addr ssa.Value) bool {
		if l := local(addr); l != nil {
			vals[l] = true
			return true
		}
		if fv, ok := addr.(*ssa.FreeVar); ok {
			vals[fv] = true
			return true
		}
		if u, ok := addr.(*ssa.UnOp); ok {
			addr = u.X
		}
		i := paramOf(addr)
		if i < 0 {
			if f, ok := addr.(*ssa.FieldAddr); ok {
				if n := derefNamed(f.X.Type()); n != nil && inRepoType(n) && !x.lived[n] {
					vals[f.X] = true
					return true
				}
			}
			return false
		}
		n := derefNamed(fn.Params[i].Type())
		if n == nil || x.lived[n] || !inRepoType(n) {
			return false
		}
		vals[fn.Params[i]] = true
		if !res.puts[i] {
			res.puts[i] = true
			x.changed = true
		}
		return true
	}
	need := func(at ssa.Instruction, state int, what, key, msg string) {
		r := x.root(k)
		k2 := key + "/" + shortFn(r.fn) + "/" + what
		x.found[k2] = func() {
			x.c.Report(k2, p.InstrPos(at), msg+" ("+x.chain(k)+")", nil)
		}
	}
	call := func(ci ssa.CallInstruction, in ldSet, isGo bool) ldSet {
		com := ci.Common()
		val, _ := ci.(ssa.Value)
		if _, ok := com.Value.(*ssa.Builtin); ok {
			if val != nil {
				for _, a := range com.Args {
					if isT(a) && x.holds(val.Type()) {
						vals[val] = true
					}
				}
			}
			return in
		}
		var args []ssa.Value
		if com.IsInvoke() {
			args = append(args, com.Value)
		}
		args = append(args, com.Args...)
		any := false
		ps := make([]bool, len(args))
		for i, a := range args {
			ps[i] = isT(a)
			any = any || ps[i]
		}
		var fs []bool
		f := com.StaticCallee()
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
			fs = make([]bool, len(mc.Bindings))
			for i, b := range mc.Bindings {
				fs[i] = isT(b)
				any = any || fs[i]
			}
		}
		if f == nil && !com.IsInvoke() && isT(com.Value) {
			any = true
		}
		if kind := x.locks(f, args, isT); kind != "" {
			if kind == "Lock" {
				return in.mapped(func(s int) int { return s | ldLocked })
			}
			return in.mapped(func(s int) int { return s &^ ldLocked })
		}
		if !any {
			return in
		}
		if f == x.load && ps[0] && x.isDocPtr(args[0].Type()) {
			x.loads[shortFn(fn)] = true
			in.each(func(s int) {
				if s&ldShared != 0 && s&ldLocked == 0 && s&ldLoaded == 0 {
					need(ci, s, shortFn(fn), "unlocked", "a document that others can reach is loaded while it is not locked")
				}
			})
			return in.mapped(func(s int) int { return s | ldLoaded })
		}
		var fns []*ssa.Function
		if f != nil {
			fns = []*ssa.Function{f}
		} else {
			fns = p.siteCallees(ci)
			if com.IsInvoke() && len(fns) == 0 {
				fns = p.Implementors(com.Method)
			}
		}
		var out ldSet
		followed := false
		for _, g := range fns {
			if g == x.load {
				out |= in.mapped(func(s int) int { return s | ldLoaded })
				followed = true
				continue
			}
			if !inRepo(g) || g.Blocks == nil {
				// what is given away to a library that keeps it
				pk := pkgPathOf(g)
				if pk != "fmt" && pk != "log" && pk != "sort" && pk != "strings" && pk != "encoding/json" {
					for i, a := range args {
						if ps[i] && x.holds(a.Type()) {
							if _, isFn := a.Type().Underlying().(*types.Signature); !isFn {
								in = in.mapped(func(s int) int { return s | ldShared })
							}
						}
					}
				}
				// functions that are given to it are called
				for _, a := range args {
					if mc, ok := a.(*ssa.MakeClosure); ok && isT(mc) {
						cf := mc.Fn.(*ssa.Function)
						bs := make([]bool, len(mc.Bindings))
						for j, b := range mc.Bindings {
							bs[j] = isT(b)
						}
						o := x.into(cf, maskOf(nil, bs), in|in.mapped(func(s int) int { return s &^ ldLocked }), &k, ci)
						in |= o.exits &^ o.exits // runs when it runs
					}
				}
				continue
			}
			followed = true
			mps := ps
			if len(g.Params) < len(mps) {
				mps = mps[:len(g.Params)]
			}
			gfs := fs
			if gfs == nil && len(g.FreeVars) > 0 {
				gfs = make([]bool, len(g.FreeVars))
				for i, fv := range g.FreeVars {
					t := fv.Type()
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
					gfs[i] = isT(com.Value) && x.holds(t)
				}
			}
			entry := in
			if isGo {
				entry = in.mapped(func(s int) int { return (s | ldShared) &^ ldLocked })
			}
			r := x.into(g, maskOf(mps, gfs), entry, &k, ci)
			out |= r.exits
			if val != nil && r.ret && x.holds(val.Type()) {
				vals[val] = true
			}
			for i, put := range r.puts {
				if put && i < len(args) {
					vals[args[i]] = true
					if l := local(args[i]); l != nil {
						vals[l] = true
					}
				}
			}
		}
		if isGo {
			return in.mapped(func(s int) int { return s | ldShared })
		}
		if !followed {
			return in
		}
		return out
	}
	// deferred calls, in order
	var defers []*ssa.Defer
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	entry := map[*ssa.BasicBlock]ldSet{}
	var work []*ssa.BasicBlock
	if k.src == nil {
		entry[fn.Blocks[0]] = ldOne(k.state)
	}
	run := func(b *ssa.BasicBlock) ldSet {
		cur := entry[b]
		for _, instr := range b.Instrs {
			if v, ok := instr.(ssa.Value); ok && k.src != nil && v == k.src {
				vals[v] = true
				cur |= ldOne(k.state)
				continue
			}
			switch i := instr.(type) {
			case *ssa.Phi:
				for _, e := range i.Edges {
					if isT(e) {
						vals[i] = true
					}
				}
			case *ssa.FieldAddr:
				if x.isDocPtr(i.X.Type()) {
					name := nameOfField(i)
					if !isT(i.X) || !x.derived[name] {
						break
					}
					if a, ok := i.X.(*ssa.Alloc); ok && onlyStored(i) && a != nil {
						break // the document is being made
					}
					x.reads[shortFn(fn)+" "+name] = true
					cur.each(func(s int) {
						if s&ldLoaded == 0 {
							need(i, s, shortFn(fn)+"."+name, "read", name+" of a document, which is filled when the document is loaded, is used before that")
						}
					})
					break
				}
				if isT(i.X) && x.holds(derefType(i.Type())) {
					vals[i] = true
				}
			case *ssa.IndexAddr:
				if isT(i.X) && x.holds(derefType(i.Type())) {
					vals[i] = true
				}
			case *ssa.UnOp:
				if i.Op == token.MUL && isT(i.X) && x.holds(i.Type()) {
					vals[i] = true
				}
				if i.Op == token.ARROW && isT(i.X) && x.holds(i.Type()) {
					vals[i] = true
				}
			case *ssa.Field:
				if isT(i.X) && x.holds(i.Type()) {
					vals[i] = true
				}
			case *ssa.Index:
				if isT(i.X) && x.holds(i.Type()) {
					vals[i] = true
				}
			case *ssa.Lookup:
				if isT(i.X) && x.holds(i.Type()) {
					vals[i] = true
				}
			case *ssa.Slice:
				if isT(i.X) && x.holds(i.Type()) {
					vals[i] = true
				}
			case *ssa.MakeInterface:
				vals[i] = vals[i] || isT(i.X)
			case *ssa.ChangeInterface:
				vals[i] = vals[i] || isT(i.X)
			case *ssa.ChangeType:
				vals[i] = vals[i] || isT(i.X)
			case *ssa.TypeAssert:
				vals[i] = vals[i] || isT(i.X) && x.holds(i.Type())
			case *ssa.Extract:
				vals[i] = vals[i] || isT(i.Tuple) && x.holds(i.Type())
			case *ssa.Store:
				if base, name := x.docField(i.Addr); base != nil && x.text[name] && isT(base) {
					cur = cur.mapped(func(s int) int { return s &^ ldLoaded })
				}
				if isT(i.Val) && x.holds(i.Val.Type()) {
					if !mark(i.Addr) {
						cur = cur.mapped(func(s int) int { return s | ldShared })
					}
				}
			case *ssa.MapUpdate:
				if isT(i.Value) {
					vals[i.Map] = true
					if _, ok := i.Map.(*ssa.MakeMap); !ok {
						cur = cur.mapped(func(s int) int { return s | ldShared })
					}
				}
			case *ssa.Send:
				if isT(i.X) {
					cur = cur.mapped(func(s int) int { return s | ldShared })
				}
			case *ssa.Defer:
			case *ssa.RunDefers:
				for n := len(defers) - 1; n >= 0; n-- {
					d := defers[n]
					after := call(d, cur, false)
					if d.Block().Dominates(b) {
						cur = after
					} else {
						cur |= after
					}
				}
			case *ssa.Go:
				cur = call(i, cur, true)
			case ssa.CallInstruction:
				cur = call(i, cur, false)
			case *ssa.Return:
				if cur|res.exits != res.exits {
					res.exits |= cur
					x.changed = true
				}
				for _, v := range i.Results {
					v = resultOf(v, i)
					if !isT(v) || !x.holds(v.Type()) {
						continue
					}
					if !res.ret {
						res.ret = true
						x.changed = true
					}
					if x.isDocPtr(v.Type()) && cur|res.retDoc != res.retDoc {
						res.retDoc |= cur
						x.changed = true
					}
				}
			}
		}
		return cur
	}
	for round := 0; round < 6; round++ {
		before := len(vals)
		nt := 0
		for _, t := range vals {
			if t {
				nt++
			}
		}
		work = append(work[:0], fn.Blocks...)
		for n := 0; len(work) > 0 && n < 20000; n++ {
			b := work[0]
			work = work[1:]
			if entry[b] == 0 && (k.src == nil || !blockHas(b, k.src)) {
				continue
			}
			out := run(b)
			if out == 0 {
				continue
			}
			for _, nb := range b.Succs {
				if entry[nb]|out != entry[nb] {
					entry[nb] |= out
					work = append(work, nb)
				}
			}
		}
		na := 0
		for _, t := range vals {
			if t {
				na++
			}
		}
		if na == nt && len(vals) == before {
			break
		}
	}
}

// into follows a call with each of the states in which it is made.
func (x *loading) into(g *ssa.Function, mask string, in ldSet, from *ldKey, at ssa.Instruction) ldRes {
	var out ldRes
	if mask == "" {
		out.exits = in
		return out
	}
	in.each(func(s int) {
		if s&ldLoaded != 0 && !x.changes[g] {
			// nothing can go wrong any more
			out.exits |= ldOne(s)
			if !x.matters[g] {
				return
			}
		}
		r := x.analyse(ldKey{fn: g, mask: mask, state: s}, from, at)
		out.exits |= r.exits
		out.ret = out.ret || r.ret
		if out.puts == nil {
			out.puts = make([]bool, len(r.puts))
		}
		for i, b := range r.puts {
			out.puts[i] = out.puts[i] || b
		}
	})
	return out
}

func blockHas(b *ssa.BasicBlock, v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Block() == b
}

// resultOf looks through the variable that holds a result while the deferred
// functions run.
func resultOf(v ssa.Value, at *ssa.Return) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	if _, ok := u.X.(*ssa.Alloc); !ok {
		return v
	}
	for _, in := range at.Block().Instrs {
		if st, ok := in.(*ssa.Store); ok && st.Addr == u.X {
			v = st.Val
		}
	}
	return v
}

func onlyStored(f *ssa.FieldAddr) bool {
	for _, r := range *f.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(f) {
			return false
		}
	}
	return true
}

func inRepoType(n *types.Named) bool {
	return n != nil && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

// sources are the documents that a function gets by itself, and their states.
func (x *loading) sources(fn *ssa.Function) map[ssa.Value]ldSet {
	out := map[ssa.Value]ldSet{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Alloc:
				if x.isDocPtr(i.Type()) {
					out[i] = ldOne(0)
				}
			case *ssa.TypeAssert:
				if !i.CommaOk && x.isDocPtr(i.AssertedType) {
					out[i] = ldOne(ldShared)
				}
			case *ssa.Extract:
				if !x.isDocPtr(i.Type()) {
					break
				}
				switch t := i.Tuple.(type) {
				case *ssa.TypeAssert, *ssa.Lookup, *ssa.UnOp, *ssa.Select:
					out[i] = ldOne(ldShared)
				case *ssa.Call:
					if s := x.ownOf(t); s != 0 {
						out[i] = s
					}
				}
			case *ssa.Lookup:
				if x.isDocPtr(i.Type()) {
					out[i] = ldOne(ldShared)
				}
			case *ssa.Call:
				if x.isDocPtr(i.Type()) {
					if s := x.ownOf(i); s != 0 {
						out[i] = s
					}
				}
			}
		}
	}
	return out
}

func (x *loading) ownOf(ci *ssa.Call) ldSet {
	var s ldSet
	for _, g := range x.p.siteCallees(ci) {
		s |= x.own[g]
	}
	return s
}

// passesOn tells whether a function leaves the reading of its tree to another
// one.
func (x *loading) passesOn(fn *ssa.Function, scanning map[*ssa.Function]bool) bool {
	found := false
	eachCall(fn, func(ci ssa.CallInstruction) {
		f := ci.Common().StaticCallee()
		if f == nil || !scanning[f] {
			return
		}
		doc, tree := false, false
		for _, a := range ci.Common().Args {
			if q, ok := a.(*ssa.Parameter); ok {
				if x.isDocPtr(q.Type()) {
					doc = true
				} else if n := derefNamed(q.Type()); n != nil && !inRepoType(n) {
					tree = true
				}
			}
		}
		found = found || doc && tree
	})
	return found
}

// loadOnce interprets Load.
func (x *loading) loadOnce() {
	c, p := x.c, x.p
	newDoc := p.Func("analysis", "NewDocument")
	if newDoc == nil {
		c.Undecided("the function that makes documents is not found")
		return
	}
	st := x.doc.Underlying().(*types.Struct)
	var symbols, tables []string
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		switch n := derefNamed(sl.Elem()); {
		case n == nil:
		case st.Field(i).Exported() && types.IsInterface(sl.Elem()):
			symbols = append(symbols, st.Field(i).Name())
		case n.Obj().Name() == "VariableTable" || n.Obj().Name() == "ImportTable":
			tables = append(tables, st.Field(i).Name())
		}
	}
	if len(symbols) != 1 || len(tables) != 2 {
		c.Undecided("the symbols and the tables of a document are not found")
		return
	}
	scanning := p.ReachSet(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		base, f := x.docField(s.Addr)
		return base != nil && f == symbols[0]
	})
	d := newDom(p)
	d.MaxPaths, d.MaxSteps = 4000, 400000
	var doc *rCell
	scans, early := 0, false
	size := func(field string) int {
		v := d.Field(doc, field)
		if v == nil {
			return -1
		}
		switch e := v.v.(type) {
		case rNil:
			return 0
		case rSlice:
			es, _ := d.Elems(e)
			return len(es)
		}
		return -1
	}
	d.Hook = func(d *Dom, c *DomCall) (rv, bool) {
		if c.Fn == nil {
			return nil, false
		}
		var t types.Type = c.Fn.Signature.Results()
		if c.Fn.Signature.Results().Len() == 1 {
			t = c.Fn.Signature.Results().At(0).Type()
		}
		if strings.HasSuffix(pkgPathOf(c.Fn), "go-phpparser/parser") {
			return rUnk{id: "tree", t: t, nonNil: true}, true
		}
		if !inRepo(c.Fn) {
			return nil, false
		}
		hasDoc, hasTree := false, false
		for _, a := range c.Args {
			if f, ok := a.(rIface); ok {
				a = f.v
			}
			if k, ok := a.(*rCell); ok && k == doc {
				hasDoc = true
			}
			if u, ok := a.(rUnk); ok && u.id == "tree" {
				hasTree = true
			}
		}
		if hasDoc && hasTree && scanning[c.Fn] && !x.passesOn(c.Fn, scanning) {
			scans++
			early = early || size(tables[0]) < 1 && size(tables[1]) < 1
			return d.Unknown("scanned", t), true
		}
		if pkgPathOf(c.Fn) != pkgPathOf(x.load) || hasTree && !hasDoc {
			return d.Unknown(c.Fn.Name(), t), true
		}
		if n := derefNamed(t); hasDoc && n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/protocol") {
			return d.Unknown("position", t), true
		}
		return nil, false
	}
	bad := map[string]string{}
	n := 0
	why := d.Explore(func() rv {
		scans, early = 0, false
		v, ok := d.Run(newDoc, []rv{rStr("file:///w/a.php"), rByts("<?php\n")}, nil).(*rCell)
		if !ok {
			d.fail("what %s makes is not known", shortFn(newDoc))
		}
		doc = v
		d.Run(x.load, []rv{doc}, nil)
		first := scans
		d.Run(x.load, []rv{doc}, nil)
		switch {
		case first != 1:
			bad["scan"] = fmt.Sprintf("loading a document reads its symbols %d times, not once", first)
		case scans != 1:
			bad["again"] = "loading a document that is loaded reads its symbols again"
		}
		if early {
			bad["tables"] = "the symbols of a document are read before it has tables for its variables"
		}
		for _, t := range tables {
			if size(t) < 1 {
				bad["empty"] = "a document that was loaded has no " + t
			}
		}
		n++
		return nil
	}, func(r DomResult) {
		if r.Panics != "" {
			bad["panic"] = "loading a document panics: " + r.Panics
		}
	})
	if why != "" {
		c.Undecided("what loading a document does is not known: %s", why)
		return
	}
	c.Count("instructions interpreted", d.Steps)
	c.Count("ways to load a document", n)
	for _, k := range sortedKeys(bad) {
		c.Report("load/"+k, p.Pos(x.load.Pos()), bad[k], nil)
	}
}

// fromDoc tells whether a value is taken from what was parsed of a document.
func (x *loading) fromDoc(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	if f, ok := v.(*ssa.FieldAddr); ok && x.isDocPtr(f.X.Type()) {
		return x.derived[nameOfField(f)]
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && x.fromDoc(*op, depth+1) {
			return true
		}
	}
	return false
}

// fresh looks for documents that begin with what was parsed of another one.
func (x *loading) fresh(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || !x.isDocPtr(a.Type()) {
				continue
			}
			reset := map[string]bool{}
			for _, r := range *a.Referrers() {
				if f, ok := r.(*ssa.FieldAddr); ok && x.derived[nameOfField(f)] {
					for _, u := range *f.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(f) && !x.fromDoc(st.Val, 0) {
							reset[nameOfField(f)] = true
						} else if ok && st.Addr == ssa.Value(f) {
							x.c.Report("fresh/"+shortFn(fn)+"/"+nameOfField(f), x.p.InstrPos(st), "a new document begins with "+nameOfField(f)+" of another one, to which loading adds", nil)
						}
					}
				}
			}
			for _, r := range *a.Referrers() {
				st, ok := r.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(a) {
					continue
				}
				if u, ok := st.Val.(*ssa.UnOp); !ok || u.Op != token.MUL || !x.isDocPtr(u.X.Type()) {
					continue
				}
				for _, f := range sortedKeys(x.derived) {
					if !reset[f] {
						x.c.Report("fresh/"+shortFn(fn)+"/"+f, x.p.InstrPos(st), "a new document begins with "+f+" of another one, to which loading adds", nil)
					}
				}
			}
		}
	}
}

func rulesLoaded(c *Ctx) {
	p := c.P
	c.Rule("a document that a function makes, is returned or finds among the kept ones has been loaded, on every path, before anything that loading fills is used of it, in that function or in what it is passed to, directly, in a structure or in a closure (interprocedural path-sensitive typestate: loaded, locked, shared)")
	c.Rule("a document that others can reach is loaded only while it is locked")
	c.Rule("a document that is made holds nothing of what was parsed of another one (dataflow of what is stored in it)")
	c.Rule("loading reads the symbols of a document once, with tables of variables, and leaves at least one table of imports; a document that is loaded is not read again (abstract interpretation)")
	x := &loading{c: c, p: p, doc: p.Named("analysis", "Document"), memo: map[ldKey]*ldRes{}, own: map[*ssa.Function]ldSet{}, holding: map[types.Type]bool{}, lived: map[*types.Named]bool{}, reads: map[string]bool{}, loads: map[string]bool{}}
	if x.doc == nil {
		c.Undecided("the type of documents is not found")
		return
	}
	x.load = p.Method(x.doc, "Load")
	server := p.Named(lspPkg, "Server")
	if x.load == nil || server == nil {
		c.Undecided("the function that loads documents is not found")
		return
	}
	(&contexts{lived: x.lived}).longLived(server)
	x.scope()
	if len(x.derived) < 3 {
		c.Undecided("what loading fills is not found")
		return
	}
	for _, f := range sortedKeys(x.derived) {
		c.Seen("field that loading fills", f)
	}
	touches := func(reads bool) func(in ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			switch i := in.(type) {
			case *ssa.FieldAddr:
				if !x.isDocPtr(i.X.Type()) {
					return false
				}
				name := nameOfField(i)
				if x.text[name] {
					for _, r := range *i.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
							return true
						}
					}
				}
				if n := derefNamed(derefType(i.Type())); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
					return true
				}
				return reads && x.derived[name]
			case ssa.CallInstruction:
				return i.Common().StaticCallee() == x.load
			}
			return false
		}
	}
	x.matters = p.ReachSet(touches(true))
	x.changes = p.ReachSet(touches(false))
	var fns []*ssa.Function
	for fn := range p.CG.Nodes {
		if inRepo(fn) && fn.Blocks != nil && fn != x.load {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return p.fnLess(fns[i], fns[j]) })
	for round := 0; ; round++ {
		x.changed = false
		x.found = map[string]func(){}
		for _, fn := range fns {
			srcs := x.sources(fn)
			var vs []ssa.Value
			for v := range srcs {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				c.Seen("document that a function gets", shortFn(fn)+" "+v.Name())
				srcs[v].each(func(s int) {
					r := x.analyse(ldKey{fn: fn, src: v, state: s}, nil, nil)
					if x.own[fn]|r.retDoc != x.own[fn] {
						x.own[fn] |= r.retDoc
						x.changed = true
					}
				})
			}
		}
		var ks []ldKey
		for k := range x.memo {
			ks = append(ks, k)
		}
		for _, k := range ks {
			x.step(k, x.memo[k])
		}
		if !x.changed {
			break
		}
		if round > 40 {
			c.Undecided("the flow of documents does not come to an end")
			return
		}
	}
	for _, k := range sortedKeys(x.reads) {
		c.Seen("use of what loading fills", k)
	}
	for _, k := range sortedKeys(x.loads) {
		c.Seen("place where documents are loaded", k)
	}
	c.Count("functions and states in which they get a document", len(x.memo))
	for _, k := range sortedKeys(x.found) {
		x.found[k]()
	}
	for _, fn := range fns {
		x.fresh(fn)
	}
	c.AtLeast("document that a function gets", 10)
	c.AtLeast("use of what loading fills", 8)
	c.AtLeast("place where documents are loaded", 4)
	x.loadOnce()
}

func init() {
	register("C30", "Typestate of documents: loaded before use, under the lock, once.", nil, rulesLoaded)
}
