package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lspPkg = "internal/lsp"

// opened are functions that open a database or a store of databases.
type openings struct {
	c     *Ctx
	p     *Program
	store *types.Named // analysis.Store
	dbi   *types.Interface
}

func closeMethod(t types.Type) *types.Func {
	ms := types.NewMethodSet(t)
	if sel := ms.Lookup(nil, "Close"); sel != nil {
		if f, ok := sel.Obj().(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 0 {
			return f
		}
	}
	return nil
}

// isDatabase tells types that keep files open until they are closed.
func (o *openings) isDatabase(t types.Type) bool {
	if closeMethod(t) == nil {
		return false
	}
	n := derefNamed(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	if n == o.store {
		return true
	}
	if inModule := isRepoPath(n.Obj().Pkg().Path()); inModule {
		return types.Implements(t, o.dbi) && !types.IsInterface(n)
	}
	path := n.Obj().Pkg().Path()
	return n.Obj().Name() == "DB" && (path == levelPkg || strings.HasSuffix(path, "/pogreb"))
}

// opener tells calls that give a database or an error.
func (o *openings) opener(ci ssa.CallInstruction) bool {
	fn := ci.Common().StaticCallee()
	if fn == nil {
		return false
	}
	res := fn.Signature.Results()
	return res.Len() == 2 && o.isDatabase(res.At(0).Type()) && types.Identical(res.At(1).Type(), types.Universe.Lookup("error").Type())
}

func mentionsV(v *V, key string) bool {
	if v == nil {
		return false
	}
	found := false
	v.eachKey(func(k string) { found = found || strings.Contains(k, key) })
	return found
}

// made explores a function that opens databases and returns the fields of what
// it returns they are in.
func (o *openings) made(fn *ssa.Function) map[string]bool {
	c, p := o.c, o.p
	fields := map[string]bool{}
	mon := &Monitor{}
	reach := p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (o.opener(ci) || o.closes(ci))
	})
	x := newEx(p, mon, reach)
	x.NoInline = func(g *ssa.Function) bool {
		if g == fn {
			return false
		}
		r := g.Signature.Results()
		return r.Len() == 2 && o.isDatabase(r.At(0).Type()) || o.isClose(g)
	}
	open := func(st *State) []string {
		var out []string
		for _, k := range sortedKeys(st.mon) {
			if strings.HasPrefix(k, "open:") && st.mon[k] == "1" {
				out = append(out, k[5:])
			}
		}
		return out
	}
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		pos := p.InstrPos(cl.Instr)
		if b, ok := cl.Instr.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				for _, r := range open(st) {
					for _, v := range x.Varargs(st, cl.Args[1]) {
						if mentionsV(v, r) {
							v := mkSym("append(" + cl.Tok + ")")
							st.mon["holds:"+v.ID()] += r
							return []Out{{St: st, Val: v}}, true
						}
					}
				}
			}
			return nil, false
		}
		if o.opener(cl.Instr) {
			what := shortFn(cl.Instr.Common().StaticCallee())
			c.Seen("openings", shortFn(fn)+" "+what)
			good, bad := st.clone(), st.clone()
			r := "DB<" + strings.Map(func(r rune) rune {
				if strings.ContainsRune("%;.~'", r) {
					return '_'
				}
				return r
			}, cl.Tok) + ">"
			good.mon["open:"+r] = "1"
			good.mon["name:"+r] = what
			bad.step(pos, what+" fails")
			return []Out{
				{St: good, Val: mkTuple(mkNonNil(r), mkNil())},
				{St: bad, Val: mkTuple(mkNil(), mkNonNil("operr("+cl.Tok+")"))},
			}, true
		}
		if o.closes(cl.Instr) {
			recv := cl.Recv
			if recv == nil && len(cl.Args) > 0 {
				recv = cl.Args[0]
			}
			if recv != nil {
				r := recv.Strip().Key
				if st.mon["open:"+r] != "" {
					if st.mon["open:"+r] == "closed" {
						c.Report("closed-twice/"+shortFn(fn), pos, st.mon["name:"+r]+" is closed twice", st.Path())
					}
					st.mon["open:"+r] = "closed"
					return []Out{{St: st, Val: x.freshResult(cl)}}, true
				}
			}
		}
		return nil, false
	}
	mon.OnStore = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, addr, val *V) {
		if isAllocLoc(locOf(addr)) {
			return
		}
		for _, r := range open(st) {
			if mentionsV(val, r) || strings.Contains(st.mon["holds:"+val.ID()], r) {
				st.mon["open:"+r] = "kept"
			}
		}
	}
	exits := x.Run(fn, x.RootArgs(fn), nil, newState())
	c.Explored(x)
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := p.InstrPos(e.Instr)
		failed := len(e.Vals) > 0 && x.IsNil(e.St, e.Vals[0]) == 1
		for _, k := range sortedKeys(e.St.mon) {
			if !strings.HasPrefix(k, "open:") {
				continue
			}
			r, s := k[5:], e.St.mon[k]
			name := e.St.mon["name:"+r]
			if s == "closed" && len(e.Vals) > 0 && !failed {
				c.Report("closed-kept/"+shortFn(fn)+"/"+name, pos, "what "+name+" opened is returned though it is closed", e.St.Path())
			}
			if s != "1" {
				continue
			}
			handed := false
			if len(e.Vals) > 0 && !failed {
				handed = mentionsV(e.Vals[0], r)
				for f := range heldBy(e.St, e.Vals[0], r) {
					handed = true
					fields[f] = true
				}
			}
			if !handed {
				c.Report("left-open/"+shortFn(fn)+"/"+name, pos, "what "+name+" opened is neither closed nor kept", e.St.Path())
			}
		}
	}
	return fields
}

// heldBy are the fields of a value through which another value is reached.
func heldBy(st *State, v *V, r string) map[string]bool {
	out := map[string]bool{}
	root := locOf(v) + "."
	for m, w := range st.mem {
		if !strings.HasPrefix(m, root) {
			continue
		}
		seen := map[string]bool{}
		var reach func(w *V) bool
		reach = func(w *V) bool {
			if mentionsV(w, r) {
				return true
			}
			found := false
			w.eachKey(func(k string) {
				if k = strings.TrimSuffix(strings.TrimPrefix(k, "sl("), ")"); seen[k] || !isAllocLoc(k) {
					return
				}
				seen[k] = true
				for m2, w2 := range st.mem {
					if strings.HasPrefix(m2, k) && reach(w2) {
						found = true
					}
				}
			})
			return found
		}
		if reach(w) {
			f := m[len(root):]
			if i := strings.IndexAny(f, ".["); i >= 0 {
				f = f[:i]
			}
			out[f] = true
		}
	}
	return out
}

func (o *openings) isClose(fn *ssa.Function) bool {
	return fn != nil && fn.Name() == "Close" && fn.Signature.Recv() != nil && o.closable(fn.Signature.Recv().Type())
}

func (o *openings) closable(t types.Type) bool {
	return o.isDatabase(t) || types.IsInterface(t) && types.Implements(t, o.dbi)
}

// closes tells calls of Close on databases.
func (o *openings) closes(ci ssa.CallInstruction) bool {
	com := ci.Common()
	if com.IsInvoke() {
		return com.Method.Name() == "Close" && o.closable(com.Value.Type())
	}
	return o.isClose(com.StaticCallee())
}

// closesAll checks that Close of a type closes the databases in its fields.
func (o *openings) closesAll(m *ssa.Function, fields map[string]bool) {
	c, p := o.c, o.p
	mon := &Monitor{}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && o.closes(ci)
	}))
	x.NoInline = func(g *ssa.Function) bool { return g != m && o.isClose(g) }
	args := x.RootArgs(m)
	recv := locOf(args[0])
	pre := "*(" + recv + "."
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if !o.closes(cl.Instr) {
			return nil, false
		}
		r := cl.Recv
		if r == nil {
			r = cl.Args[0]
		}
		if o.loopOf(cl.Instr, derefNamed(m.Signature.Recv().Type())) != nil {
			return []Out{{St: st, Val: x.freshResult(cl)}}, true
		}
		if k := r.Strip().Key; strings.HasPrefix(k, pre) {
			f := k[len(pre) : len(k)-1]
			if st.mon["closed:"+f] != "" {
				c.Report("closed-twice/"+shortFn(m)+"/"+f, p.InstrPos(cl.Instr), f+" is closed twice", st.Path())
			}
			st.mon["closed:"+f] = "1"
			st.step(p.InstrPos(cl.Instr), "closes "+f)
			return []Out{{St: st, Val: x.freshResult(cl)}}, true
		}
		return nil, false
	}
	mon.OnStore = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, addr, val *V) {
		if l := locOf(addr); strings.HasPrefix(l, recv+".") && !strings.Contains(l[len(recv)+1:], ".") && val.C != nil && val.C.ExactString() == "true" {
			st.mon["flag:"+l] = "1"
		}
	}
	// loops that close all databases of a list
	loops := map[ssa.Instruction]string{}
	for g := range p.reachable(m) {
		eachCall(g, func(ci ssa.CallInstruction) {
			if o.closes(ci) {
				for _, u := range o.loopOf(ci, derefNamed(m.Signature.Recv().Type())) {
					fa := u.X.(*ssa.FieldAddr)
					loops[u] = fieldNm(fa.X.Type(), fa.Field)
				}
			}
		})
	}
	mon.OnExec = func(x *Ex, st *State, fr *Frame, in ssa.Instruction) {
		if f := loops[in]; f != "" {
			st.mon["closed:"+f] = "1"
		}
	}
	exits := x.Run(m, args, nil, newState())
	c.Explored(x)
	c.Seen("closers", shortFn(m))
	noted := map[string]bool{}
	for _, e := range exits {
		for k := range e.St.mon {
			if strings.HasPrefix(k, "flag:") {
				noted[k[5:]] = true
			}
		}
	}
	flags := map[string]bool{}
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := p.InstrPos(e.Instr)
		none := true
		for f := range fields {
			none = none && e.St.mon["closed:"+f] == ""
		}
		if none {
			// closed before
			was := ""
			for k, v := range e.St.facts {
				if v && strings.HasPrefix(k, pre) && noted[k[2:len(k)-1]] {
					was = k[2 : len(k)-1]
				}
			}
			if was != "" {
				flags[was] = true
				continue
			}
		}
		for _, f := range sortedKeys(fields) {
			if e.St.mon["closed:"+f] == "" {
				c.Report("not-closed/"+shortFn(m)+"/"+f, pos, f+" is not closed", e.St.Path())
			}
		}
	}
	for _, fl := range sortedKeys(flags) {
		for _, e := range exits {
			if e.Kind == XReturn && e.St.mon["flag:"+fl] == "" && !e.St.facts["*("+fl+")"] {
				c.Report("flag/"+shortFn(m), p.InstrPos(e.Instr), "the store is closed without a note that it is", e.St.Path())
			}
		}
		// only closing sets it
		name := fl[strings.LastIndex(fl, ".")+1:]
		for _, fn := range p.Repo {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok || outermost(fn) == m {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || derefNamed(fa.X.Type()) != derefNamed(m.Signature.Recv().Type()) || fieldNm(fa.X.Type(), fa.Field) != name {
						continue
					}
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" && isFreshBase(fa.X, fn) {
						continue
					}
					if _, ok := p.reachable(m)[fn]; !ok {
						c.Report("flag-elsewhere/"+shortFn(fn), p.InstrPos(in), "a store is marked as closed, or as open, by something else than closing it", nil)
					}
				}
			}
		}
	}
}

// loopOf are the places where fields are read that are all closed by a call in
// a loop: over the field, or over a list made of the fields.
func (o *openings) loopOf(ci ssa.CallInstruction, n *types.Named) []*ssa.UnOp {
	sl, ok := everyElement(ci, closedValue(ci))
	if !ok {
		return nil
	}
	field := func(v ssa.Value) []*ssa.UnOp {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if mi, ok := v.(*ssa.ChangeInterface); ok {
			v = mi.X
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == n {
				return []*ssa.UnOp{u}
			}
		}
		return nil
	}
	if s, ok := sl.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		var out []*ssa.UnOp
		if a, ok := s.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
							out = append(out, field(st.Val)...)
						}
					}
				}
			}
		}
		return out
	}
	return field(sl)
}

func closedValue(ci ssa.CallInstruction) ssa.Value {
	if ci.Common().IsInvoke() {
		return ci.Common().Value
	}
	return ci.Common().Args[0]
}

// everyElement tells whether a call in a loop over a slice is made for all elements.
func everyElement(call ssa.Instruction, elem ssa.Value) (slice ssa.Value, ok bool) {
	u, isLoad := elem.(*ssa.UnOp)
	if !isLoad {
		return nil, false
	}
	ia, isIdx := u.X.(*ssa.IndexAddr)
	if !isIdx {
		return nil, false
	}
	b := call.Block()
	if !inLoop(b) {
		return nil, false
	}
	fn := b.Parent()
	// the header is the block with the test of the index that leaves the loop
	for _, h := range fn.Blocks {
		iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !isIf || !h.Dominates(b) || !reachesBlock(b, h) {
			continue
		}
		bo, isCmp := iff.Cond.(*ssa.BinOp)
		if !isCmp || !(uses(bo.X, ia.Index) || uses(bo.Y, ia.Index)) {
			continue
		}
		// every iteration passes the call
		seen := map[*ssa.BasicBlock]bool{}
		ok := true
		var walk func(x *ssa.BasicBlock)
		walk = func(x *ssa.BasicBlock) {
			if seen[x] || x == b {
				return
			}
			seen[x] = true
			if x == h {
				ok = false
				return
			}
			if len(x.Succs) == 0 {
				ok = false
			}
			for _, s := range x.Succs {
				walk(s)
			}
		}
		walk(h.Succs[0])
		// and nothing leaves the loop after it
		seen2 := map[*ssa.BasicBlock]bool{}
		var after func(x *ssa.BasicBlock)
		after = func(x *ssa.BasicBlock) {
			if seen2[x] || x == h {
				return
			}
			seen2[x] = true
			if len(x.Succs) == 0 || !reachesBlock(x, h) {
				ok = false
				return
			}
			for _, s := range x.Succs {
				after(s)
			}
		}
		after(b)
		if ok && fromStart(ia.Index) {
			return ia.X, true
		}
	}
	return nil, false
}

func uses(v, w ssa.Value) bool {
	if v == w {
		return true
	}
	for _, a := range []ssa.Value{v, w} {
		b := w
		if a == w {
			b = v
		}
		if op, ok := a.(*ssa.BinOp); ok && (op.X == b || op.Y == b) {
			return true
		}
		if ph, ok := a.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if e == b {
					return true
				}
			}
		}
	}
	return false
}

// fromStart tells indices that begin at zero, or at -1 when they are advanced
// before they are used.
func fromStart(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok {
		if ph, ok := b.X.(*ssa.Phi); ok {
			return startsAt(ph, -1)
		}
	}
	if ph, ok := v.(*ssa.Phi); ok {
		return startsAt(ph, 0)
	}
	return false
}

func startsAt(ph *ssa.Phi, n int64) bool {
	for _, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok {
			return k.Value != nil && k.Int64() == n
		}
	}
	return false
}

func (o *openings) workspace() {
	c, p := o.c, o.p
	// the list of the stores that are in use
	isList := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		sl, ok := derefType(fa.Type()).Underlying().(*types.Slice)
		return ok && derefNamed(sl.Elem()) == o.store
	}
	removers := map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !isList(s.Addr) || isFreshBase(s.Addr.(*ssa.FieldAddr).X, fn) {
					continue
				}
				if call, ok := s.Val.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if l, ok := call.Call.Args[0].(*ssa.UnOp); ok && isList(l.X) {
							c.Seen("additions to the stores in use", shortFn(fn))
							continue
						}
					}
				}
				removers[outermost(fn)] = true
				c.Seen("removals from the stores in use", shortFn(fn))
			}
		}
	}
	if len(removers) == 0 {
		c.Undecided("no removal from the list of stores was found")
	}
	closers := map[*ssa.Function]bool{}
	roots := map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			if g := ci.Common().StaticCallee(); g != nil && removers[g] {
				roots[fn] = true
			}
			if !o.closes(ci) || ci.Common().IsInvoke() || derefNamed(ci.Common().StaticCallee().Signature.Recv().Type()) != o.store {
				return
			}
			if _, isCall := ci.(*ssa.Call); isCall {
				if sl, ok := everyElement(ci, ci.Common().Args[0]); ok {
					if o.allOf(sl, isList, map[ssa.Value]bool{}) {
						closers[fn] = true
						c.Seen("functions that close all stores", shortFn(fn))
						return
					}
				}
			}
			roots[fn] = true
		})
	}
	// a removal inside of the function that also closes
	for r := range removers {
		called := false
		for fn := range roots {
			eachCall(fn, func(ci ssa.CallInstruction) { called = called || ci.Common().StaticCallee() == r })
		}
		if !called {
			roots[r] = true
		}
	}
	for fn := range roots {
		if !removers[fn] || len(o.callersIn(fn, roots)) == 0 {
			o.retire(fn, removers)
		}
	}
	// shutdown
	for _, e := range p.Repo {
		if e.Parent() == nil && e.Signature.Recv() != nil && pkgPathOf(e) == modPath+"/"+lspPkg && e.Name() == "Shutdown" {
			o.shutdown(e, closers)
		}
	}
	c.AtLeast("shutdown handlers", 1)
}

func (o *openings) callersIn(fn *ssa.Function, in map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for g := range in {
		if g == fn {
			continue
		}
		eachCall(g, func(ci ssa.CallInstruction) {
			if ci.Common().StaticCallee() == fn {
				out = append(out, g)
			}
		})
	}
	return out
}

// allOf tells slices that have all stores: the list or a copy of it.
func (o *openings) allOf(v ssa.Value, isList func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.UnOp:
		if a, ok := i.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if !o.allOf(s.Val, isList, seen) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		return isList(i.X)
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(i.Call.Args) == 2 {
			return o.allOf(i.Call.Args[1], isList, seen)
		}
		g := i.Call.StaticCallee()
		if g == nil || !inRepo(g) || g.Blocks == nil {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if b == g.Recover {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !o.allOf(r.Results[0], isList, seen) {
					return false
				}
				n++
			}
		}
		return n > 0
	case *ssa.MakeSlice:
		// filled by copy
		if i.Referrers() == nil {
			return false
		}
		for _, r := range *i.Referrers() {
			if c, ok := r.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == i {
					return o.allOf(c.Call.Args[1], isList, seen)
				}
			}
		}
	case *ssa.Alloc:
	}
	return false
}

// retire checks that a store that is taken out of use is closed afterwards.
func (o *openings) retire(fn *ssa.Function, removers map[*ssa.Function]bool) {
	c, p := o.c, o.p
	c.Seen("functions that take a store out of use", shortFn(fn))
	mon := &Monitor{}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (removers[ci.Common().StaticCallee()] || o.closes(ci))
	}))
	x.NoInline = func(g *ssa.Function) bool { return g != fn && (removers[g] || o.isClose(g)) }
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		pos := p.InstrPos(cl.Instr)
		if cl.Fn != nil && removers[cl.Fn] && cl.Fn != fn {
			st.mon["removed"] = "1"
			st.step(pos, "takes the store out of use")
			return x.Opaque(st, cl), true
		}
		if o.closes(cl.Instr) {
			if st.mon["removed"] == "" {
				c.Report("closed-in-use/"+shortFn(fn), pos, "a store is closed while it is still in use", st.Path())
			}
			if st.mon["closed"] != "" {
				c.Report("closed-twice/"+shortFn(fn), pos, "a store is closed twice", st.Path())
			}
			st.mon["closed"] = "1"
			st.step(pos, "closes the store")
			return x.Opaque(st, cl), true
		}
		return nil, false
	}
	mon.OnStore = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, addr, val *V) {
		if removers[fn] && strings.HasSuffix(addr.Cls, ".stores") {
			st.mon["removed"] = "1"
		}
	}
	for _, e := range x.Run(fn, x.RootArgs(fn), nil, newState()) {
		if e.Kind == XReturn && e.St.mon["removed"] != "" && e.St.mon["closed"] == "" {
			c.Report("removed-open/"+shortFn(fn), p.InstrPos(e.Instr), "a store is taken out of use without being closed", e.St.Path())
		}
	}
	c.Explored(x)
}

func (o *openings) shutdown(fn *ssa.Function, closers map[*ssa.Function]bool) {
	c, p := o.c, o.p
	c.Seen("shutdown handlers", shortFn(fn))
	mon := &Monitor{}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && closers[ci.Common().StaticCallee()]
	}))
	x.NoInline = func(g *ssa.Function) bool { return closers[g] }
	mon.OnCall = func(x *Ex, st *State, cl *Call) {
		if cl.Fn != nil && closers[cl.Fn] {
			st.mon["closed"] = "1"
		}
	}
	mon.OnExec = func(x *Ex, st *State, fr *Frame, in ssa.Instruction) {
		if closers[fr.Fn] {
			st.mon["closed"] = "1"
		}
	}
	for _, e := range x.Run(fn, x.RootArgs(fn), nil, newState()) {
		if e.Kind == XReturn && x.IsNil(e.St, errOf(e)) != -1 && e.St.mon["closed"] == "" {
			c.Report("shutdown/"+shortFn(fn), p.InstrPos(e.Instr), "shutdown succeeds without closing the stores", e.St.Path())
		}
	}
	c.Explored(x)
}

func rulesOpen(c *Ctx) {
	c.Rule("on every path of a function that opens databases, each that was opened is kept in what is returned or put into use, or is closed, and never both")
	c.Rule("Close of a store closes each of the databases its constructor opens, unless a note that only closing makes tells that it is closed")
	c.Rule("a store is taken out of the list of stores in use before it is closed, and what is taken out is closed on every path")
	c.Rule("a successful shutdown closes every store")
	p := c.P
	o := &openings{c: c, p: p, store: p.Named("analysis", "Store"), dbi: storageIface(p, "DB")}
	if o.store == nil || o.dbi == nil {
		c.Undecided("analysis.Store or storage.DB is not found")
		return
	}
	for _, fn := range p.Repo {
		has := false
		eachCall(fn, func(ci ssa.CallInstruction) { has = has || o.opener(ci) })
		if !has {
			continue
		}
		c.Seen("functions that open databases", shortFn(fn))
		fields := o.made(fn)
		res := fn.Signature.Results()
		if res.Len() == 0 || len(fields) == 0 {
			continue
		}
		n := derefNamed(res.At(0).Type())
		m := p.Method(n, "Close")
		if m == nil || m.Blocks == nil {
			c.Report("no-close/"+n.Obj().Name(), p.Pos(fn.Pos()), n.Obj().Name()+" cannot be closed", nil)
			continue
		}
		for f := range fields {
			c.Seen("databases in stores", n.Obj().Name()+"."+f)
		}
		o.closesAll(m, fields)
	}
	o.workspace()
	c.AtLeast("functions that open databases", 2)
	c.AtLeast("databases in stores", 2)
	c.AtLeast("additions to the stores in use", 1)
}

func init() {
	register("C15", "Path-sensitive typestate analysis of the databases and the stores.", nil, rulesOpen)
}
