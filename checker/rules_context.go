package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxKey is a function with the arguments that carry the context of a request.
type ctxKey struct {
	fn   *ssa.Function
	mask string // p<i> for parameters, f<i> for free variables
	late bool   // it runs when the request may have been answered
}

type ctxRes struct {
	ret    bool   // it returns the context
	reason string // it depends on the cancellation of the request, and how
}

// contexts is what C34 knows.
type contexts struct {
	c       *Ctx
	p       *Program
	memo    map[ctxKey]*ctxRes
	changed bool
	lived   map[*types.Named]bool
	found   map[string]func()
	free    map[types.Type]bool
}

func isContext(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

// detached tells whether contexts of a type are never cancelled.
func (x *contexts) detached(t types.Type) bool {
	if v, ok := x.free[t]; ok {
		return v
	}
	never := func(name string) bool {
		sel := x.p.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
		if sel == nil {
			return false
		}
		if o := sel.Obj().(*types.Func); o.Pkg() == nil || !isRepoPath(o.Pkg().Path()) {
			return false
		}
		fn := x.p.Prog.MethodValue(sel)
		if fn == nil || fn.Blocks == nil {
			return false
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					for _, v := range r.Results {
						if k, ok := v.(*ssa.Const); ok && (k.Value == nil || k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)) {
							continue
						}
						if name == "Deadline" && !isBoolType(v.Type()) {
							continue
						}
						return false
					}
				}
			}
		}
		return true
	}
	ok := never("Done") && never("Err") && never("Deadline")
	x.free[t] = ok
	return ok
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// waits tells whether a function waits for what it starts.
func waits(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.UnOp:
				if chanOf(i.X.Type()) != nil {
					return true
				}
			case *ssa.Select:
				for _, s := range i.States {
					if s.Dir == types.RecvOnly && i.Blocking {
						return true
					}
				}
			case ssa.CallInstruction:
				if f := i.Common().StaticCallee(); f != nil && f.Name() == "Wait" && f.Signature.Recv() != nil {
					return true
				}
			}
		}
	}
	return false
}

// laterSite tells whether the function values that are passed to a call may be
// called when it has returned.
func (x *contexts) laterSite(ci ssa.CallInstruction) bool {
	com := ci.Common()
	if com.IsInvoke() {
		return false
	}
	if f := com.StaticCallee(); f != nil {
		return pkgPathOf(f) == "time" && f.Name() == "AfterFunc"
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return false
	}
	switch v := com.Value.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.MakeClosure:
		return false
	case *ssa.UnOp:
		switch v.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return false
		}
	}
	for _, f := range x.p.siteCallees(ci) {
		if inRepo(f) {
			return false
		}
	}
	return true
}

// laterParam tells whether a parameter is a function that may be called when
// the call has returned.
func (x *contexts) laterParam(fn *ssa.Function, i int, depth int) bool {
	if depth > 4 || fn == nil || i >= len(fn.Params) || fn.Blocks == nil {
		return false
	}
	return x.laterValue(fn, fn.Params[i], depth)
}

func (x *contexts) laterValue(fn *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.Go:
			if !waits(fn) {
				return true
			}
		case ssa.CallInstruction:
			for j, a := range r.Common().Args {
				if a == v && (x.laterSite(r) || x.laterParam(r.Common().StaticCallee(), j, depth+1)) {
					return true
				}
			}
		case *ssa.Store:
			if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
				for _, u := range *a.Referrers() {
					switch l := u.(type) {
					case *ssa.UnOp:
						if x.laterValue(fn, l, depth+1) {
							return true
						}
					case *ssa.MakeClosure:
						if x.laterValue(fn, l, depth+1) {
							return true
						}
					}
				}
			}
		case *ssa.MakeClosure:
			if x.laterValue(fn, r, depth+1) {
				return true
			}
		}
	}
	return false
}

func maskOf(ps, fs []bool) string {
	var sb strings.Builder
	for i, b := range ps {
		if b {
			fmt.Fprintf(&sb, "p%d ", i)
		}
	}
	for i, b := range fs {
		if b {
			fmt.Fprintf(&sb, "f%d ", i)
		}
	}
	return sb.String()
}

// follow finds what a function does with the context of a request.
func (x *contexts) follow(k ctxKey) *ctxRes {
	if r := x.memo[k]; r != nil {
		return r
	}
	res := &ctxRes{}
	x.memo[k] = res
	if k.fn.Blocks == nil {
		return res
	}
	x.step(k, res)
	return res
}

func (x *contexts) step(k ctxKey, res *ctxRes) {
	p, fn := x.p, k.fn
	x.c.Fn(fn)
	marks := map[string]bool{}
	for _, m := range strings.Fields(k.mask) {
		marks[m] = true
	}
	vals := map[ssa.Value]bool{}
	start := map[ssa.Value]bool{}
	for i, q := range fn.Params {
		if marks[fmt.Sprintf("p%d", i)] {
			vals[q] = true
		}
	}
	for i, q := range fn.FreeVars {
		if marks[fmt.Sprintf("f%d", i)] {
			if _, ptr := q.Type().Underlying().(*types.Pointer); ptr {
				start[q] = true
			} else {
				vals[q] = true
			}
		}
	}
	reason := func(s string) {
		if res.reason == "" {
			res.reason = s
			x.changed = true
		}
	}
	report := func(at ssa.Instruction, what, why string) {
		if k.late {
			reason(why)
			return
		}
		key := what + "/" + shortFn(fn)
		x.found[key] = func() {
			x.c.Report(key, p.InstrPos(at), "background work depends on the context of the request that started it, which is cancelled when the request has been answered: "+why, nil)
		}
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{fn.Blocks[0]: start}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 4000; n++ {
		b := work[0]
		work = work[1:]
		st := map[ssa.Value]bool{}
		for a, t := range in[b] {
			st[a] = t
		}
		base := func(a ssa.Value) ssa.Value {
			for {
				f, ok := a.(*ssa.FieldAddr)
				if !ok {
					return a
				}
				a = f.X
			}
		}
		// what a closure captures, now
		captured := func(mc *ssa.MakeClosure) []bool {
			out := make([]bool, len(mc.Bindings))
			for i, bd := range mc.Bindings {
				out[i] = vals[bd] || st[bd]
			}
			return out
		}
		var isTainted func(v ssa.Value) bool
		isTainted = func(v ssa.Value) bool {
			if mc, ok := v.(*ssa.MakeClosure); ok {
				for _, t := range captured(mc) {
					if t {
						return true
					}
				}
				return false
			}
			if vals[v] {
				return true
			}
			if a, ok := v.(*ssa.Alloc); ok {
				return st[a]
			}
			return false
		}
		for _, instr := range b.Instrs {
			switch i := instr.(type) {
			case *ssa.Phi:
				for _, e := range i.Edges {
					vals[i] = vals[i] || isTainted(e)
				}
			case *ssa.UnOp:
				if a := base(i.X); a != nil && (st[a] || vals[i.X]) {
					if _, isField := i.X.(*ssa.FieldAddr); !isField || isContext(i.Type()) || st[i.X] {
						vals[i] = true
					}
				}
			case *ssa.MakeInterface:
				if isContext(i.Type()) && x.detached(i.X.Type()) {
					break
				}
				vals[i] = vals[i] || isTainted(i.X)
			case *ssa.ChangeInterface:
				vals[i] = vals[i] || vals[i.X]
			case *ssa.ChangeType:
				vals[i] = vals[i] || isTainted(i.X)
			case *ssa.TypeAssert:
				vals[i] = vals[i] || vals[i.X]
			case *ssa.Extract:
				vals[i] = vals[i] || vals[i.Tuple] && isContext(i.Type())
			case *ssa.Field:
				vals[i] = vals[i] || vals[i.X] && isContext(i.Type())
			case *ssa.FieldAddr:
			case *ssa.Store:
				t := isTainted(i.Val)
				switch a := i.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					st[a] = t
				case *ssa.FieldAddr:
					root := base(a)
					if _, local := root.(*ssa.Alloc); local {
						if t {
							st[root] = true
						}
						break
					}
					if t && isContext(derefType(a.Type())) {
						if n := derefNamed(a.X.Type()); n != nil && x.lived[n] {
							report(i, "kept", fmt.Sprintf("it is kept in %s.%s", typeName(n), nameOfField(a)))
						}
					}
				}
			case *ssa.Send:
				if isTainted(i.X) {
					report(i, "sent", "it is sent to another goroutine at "+p.InstrPos(i))
				}
			case *ssa.Return:
				for _, v := range i.Results {
					if isTainted(v) && !res.ret {
						res.ret = true
						x.changed = true
					}
				}
			case ssa.CallInstruction:
				com := i.Common()
				if _, ok := com.Value.(*ssa.Builtin); ok {
					break
				}
				_, isGo := instr.(*ssa.Go)
				val, _ := instr.(ssa.Value)
				later := k.late || isGo && !waits(fn)
				// function values that are passed on
				for j, a := range com.Args {
					mc, ok := a.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					f := mc.Fn.(*ssa.Function)
					m := maskOf(nil, captured(mc))
					if m == "" {
						continue
					}
					after := later || x.laterSite(i) || x.laterParam(com.StaticCallee(), j, 0)
					r := x.follow(ctxKey{f, m, after})
					if after && r.reason != "" {
						report(i, "later", r.reason)
					}
					if after && !k.late {
						x.c.Seen("work that goes on in the background", shortFn(f))
					}
				}
				if com.IsInvoke() {
					if isTainted(com.Value) && isContext(com.Value.Type()) {
						switch com.Method.Name() {
						case "Done", "Err", "Deadline":
							if k.late {
								reason("it asks " + shortFn(fn) + " whether it is cancelled (" + p.InstrPos(i) + ")")
							}
						}
						break
					}
					ps := []bool{false}
					any := false
					for _, a := range com.Args {
						ps = append(ps, isTainted(a))
						any = any || isTainted(a)
					}
					if !any {
						break
					}
					impl := p.Implementors(com.Method)
					if len(impl) == 0 && later {
						report(i, "unknown", "it is passed to "+com.Method.Name()+" at "+p.InstrPos(i))
					}
					for _, f := range impl {
						r := x.follow(ctxKey{f, maskOf(ps, nil), later})
						if later && r.reason != "" {
							report(i, "later", r.reason)
						}
						if val != nil && r.ret {
							vals[val] = true
						}
					}
					break
				}
				f := com.StaticCallee()
				var fs []bool
				if mc, ok := com.Value.(*ssa.MakeClosure); ok {
					f = mc.Fn.(*ssa.Function)
					fs = captured(mc)
				}
				var ps []bool
				any := false
				for _, a := range com.Args {
					t := isTainted(a)
					if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
						t = false
					}
					ps = append(ps, t)
					any = any || t
				}
				for _, t := range fs {
					any = any || t
				}
				if isGo && f != nil && !k.late && (any || inRepo(f)) {
					x.c.Seen("work that goes on in the background", shortFn(f))
				}
				if !any {
					break
				}
				switch {
				case f == nil:
					for _, g := range p.siteCallees(i) {
						if !inRepo(g) {
							continue
						}
						r := x.follow(ctxKey{g, maskOf(ps, nil), later})
						if later && r.reason != "" {
							report(i, "later", r.reason)
						}
						if val != nil && r.ret {
							vals[val] = true
						}
					}
				case pkgPathOf(f) == "context":
					if f.Name() != "WithoutCancel" && val != nil {
						vals[val] = true
					}
				case inRepo(f):
					r := x.follow(ctxKey{f, maskOf(ps, fs), later})
					if later && r.reason != "" {
						report(i, "later", r.reason)
					}
					if val != nil && r.ret {
						vals[val] = true
					}
				default:
					onlyCtx := false
					for _, a := range com.Args {
						onlyCtx = onlyCtx || isContext(a.Type()) && isTainted(a)
					}
					if later && onlyCtx {
						report(i, "library", "it is passed to "+fnName(f)+" at "+p.InstrPos(i))
					}
				}
			}
		}
		for _, nb := range b.Succs {
			old, seen := in[nb]
			merged, grown := map[ssa.Value]bool{}, !seen
			for a, t := range old {
				merged[a] = t
			}
			for a, t := range st {
				if t && !merged[a] {
					merged[a] = true
					grown = true
				}
			}
			if grown {
				in[nb] = merged
				work = append(work, nb)
			}
		}
	}
}

// longLived are the types that are kept from one request to the next.
func (x *contexts) longLived(n *types.Named) {
	if n == nil || x.lived[n] || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return
	}
	x.lived[n] = true
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		for {
			switch u := t.(type) {
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Map:
				t = u.Elem()
				continue
			case *types.Chan:
				t = u.Elem()
				continue
			}
			break
		}
		x.longLived(derefNamed(t))
	}
}

func rulesContext(c *Ctx) {
	p := c.P
	c.Rule("the context of a request does not reach, through calls, closures, variables, results and structures, anything that asks it whether it is cancelled in a goroutine that the handler does not wait for, in a delayed function, or after it was sent to another goroutine or kept in something that outlives the request (interprocedural flow-sensitive dataflow)")
	c.Rule("a context is detached if Done, Err and Deadline of its type never tell of a cancellation")
	server := p.Named(lspPkg, "Server")
	var iface *types.Interface
	if n := p.Named(lspPkg+"/protocol", "Server"); n != nil {
		iface, _ = n.Underlying().(*types.Interface)
	}
	if server == nil || iface == nil {
		c.Undecided("the server and its interface are not found")
		return
	}
	x := &contexts{c: c, p: p, memo: map[ctxKey]*ctxRes{}, lived: map[*types.Named]bool{}, free: map[types.Type]bool{}}
	x.longLived(server)
	var roots []ctxKey
	for i := 0; i < iface.NumMethods(); i++ {
		fn := p.Method(server, iface.Method(i).Name())
		if fn == nil {
			continue
		}
		var ps []bool
		any := false
		for _, q := range fn.Params {
			ps = append(ps, isContext(q.Type()))
			any = any || isContext(q.Type())
		}
		if any {
			roots = append(roots, ctxKey{fn, maskOf(ps, nil), false})
			c.Seen("handler", shortFn(fn))
		}
	}
	for round := 0; round < 12; round++ {
		x.changed = false
		x.found = map[string]func(){}
		for _, r := range roots {
			x.follow(r)
		}
		// until results do not change any more
		var ks []ctxKey
		for k := range x.memo {
			ks = append(ks, k)
		}
		for _, k := range ks {
			if k.fn.Blocks != nil {
				x.step(k, x.memo[k])
			}
		}
		if !x.changed {
			break
		}
	}
	c.Count("functions with the context of a request", len(x.memo))
	var keys []string
	for k := range x.found {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x.found[k]()
	}
	c.AtLeast("handler", 20)
	c.AtLeast("work that goes on in the background", 2)
}

func init() {
	register("C34", "Interprocedural dataflow of the contexts of requests into work that outlives them.", nil, rulesContext)
}
