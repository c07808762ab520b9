package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// indexing is what C14 and C16 know about how documents are indexed.
type indexing struct {
	c        *Ctx
	p        *Program
	sc       *schema
	elem     *types.Named // an item of the list of the symbols of a document
	collF    string
	keyF     string
	readers  map[*ssa.Function]bool
	list     string // collection of the lists
	hashFn   map[*ssa.Function]bool
	sweeps   map[ssa.Instruction]string // where iterations that delete start, class of what is iterated
	headers  map[*ssa.If]bool
	wheaders map[*ssa.If]bool
	writers  map[*ssa.Function]bool
	again    map[ssa.Instruction]bool
	syncs    []*ssa.Function
	deletes  []*ssa.Function
	reach    map[*ssa.Function]bool
	cache    map[string][]*dbSite
	templ    map[string]*tmpl // per-document entries that are written in a batch
}

type tmpl struct {
	coll string
	segs []seg
	n    int
}

func tmplID(coll string, segs []seg) string {
	out := coll
	for _, g := range segs {
		if l, ok := g.lit(); ok {
			out += "/" + l
		} else {
			out += "/*"
		}
	}
	return out
}

func isWriteBatch(ci ssa.CallInstruction) bool {
	com := ci.Common()
	return com.IsInvoke() && com.Method.Name() == "WriteBatch" && isDBType(com.Value.Type())
}

func eachCall(fn *ssa.Function, f func(ssa.CallInstruction)) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				f(ci)
			}
		}
	}
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// reachable are the functions a function can call.
func (p *Program) reachable(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		next := append([]*ssa.Function{}, p.succs(f)...)
		next = append(next, f.AnonFuncs...)
		for _, s := range next {
			if inRepo(s) && !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return seen
}

func isMain(s *dbSite) bool {
	if s.dyn == nil || s.dyn.op != "invoke" {
		return false
	}
	for _, k := range s.keys {
		if len(k) == 2 && len(k[1].parts) == 1 && k[1].parts[0].op == "invoke" {
			return true
		}
	}
	return false
}

func newIndexing(c *Ctx) *indexing {
	sc := newSchema(c)
	if sc == nil {
		return nil
	}
	n := &indexing{c: c, p: c.P, sc: sc, readers: map[*ssa.Function]bool{}, hashFn: map[*ssa.Function]bool{}, sweeps: map[ssa.Instruction]string{}, headers: map[*ssa.If]bool{}, wheaders: map[*ssa.If]bool{}, writers: map[*ssa.Function]bool{}, again: map[ssa.Instruction]bool{}, cache: map[string][]*dbSite{}, templ: map[string]*tmpl{}}
	// the methods that give the collection and the key of a symbol
	collM, keyM := "", ""
	for _, s := range sc.all {
		if s.op == "Put" && isMain(s) {
			collM, keyM = s.dyn.lit, s.keys[0][1].parts[0].lit
		}
	}
	if collM == "" {
		c.Undecided("where the symbols of a document are written was not found")
		return nil
	}
	// the items of the list
	for _, fn := range c.P.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			t, cf, kf := n.listed(sc.k.base(fn), ci, collM, keyM)
			if t != nil {
				n.elem, n.collF, n.keyF = t, cf, kf
			}
		})
	}
	if n.elem == nil {
		c.Undecided("no list of the symbols of a document was found that has the collection and the key of each")
		return nil
	}
	all := map[*ssa.Function]*types.Named{}
	for _, e := range codedTypes(c.P) {
		for _, r := range e.readers {
			all[r] = e.t
			if e.t == n.elem {
				n.readers[r] = true
			}
		}
		if e.t == n.elem {
			for _, w := range e.writers {
				n.writers[w] = true
			}
		}
	}
	for _, s := range sc.all {
		if s.op == "Get" && sc.readAs(s, all)[n.elem] {
			n.list = s.coll
		}
	}
	if n.list == "" {
		c.Undecided("where the list of the symbols of a document is read was not found")
		return nil
	}
	sc.k.stop = n.readers
	sc.k.memo = map[*kframe]map[ssa.Value]*term{}
	// functions that compute the hash of a content
	for _, fn := range c.P.Repo {
		res := fn.Signature.Results()
		if fn.Signature.Recv() == nil || res.Len() != 1 || !isBytes(res.At(0).Type()) {
			continue
		}
		eachCall(fn, func(ci ssa.CallInstruction) {
			if f := ci.Common().StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "crypto/") {
				n.hashFn[fn] = true
			}
		})
	}
	n.findSweeps()
	n.findHeaders()
	n.findRoots()
	return n
}

// listed recognises a call that appends an item with the collection and the
// key of a symbol.
func (n *indexing) listed(kf *kframe, ci ssa.CallInstruction, collM, keyM string) (*types.Named, string, string) {
	for _, e := range n.appended(kf, ci) {
		t := e.t
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		strs := 0
		for i := 0; i < st.NumFields(); i++ {
			if isStringType(st.Field(i).Type()) {
				strs++
			}
		}
		if strs < 2 {
			continue
		}
		cf, kfld := "", ""
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !isStringType(f.Type()) {
				continue
			}
			v := n.sc.k.field(e.v, f.Name(), 0)
			if v.op == "invoke" && v.lit == collM {
				cf = f.Name()
			}
			if v.op == "invoke" && v.lit == keyM {
				kfld = f.Name()
			}
		}
		if cf != "" && kfld != "" {
			return t, cf, kfld
		}
	}
	return nil, "", ""
}

type appendedItem struct {
	t *types.Named
	v *term
}

func (n *indexing) appended(kf *kframe, ci ssa.CallInstruction) []appendedItem {
	com := ci.Common()
	b, ok := com.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(com.Args) != 2 {
		return nil
	}
	sl, ok := com.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	t := derefNamed(sl.Elem())
	if t == nil || t.Obj().Pkg() == nil || !isRepoPath(t.Obj().Pkg().Path()) {
		return nil
	}
	if n.elem != nil && t != n.elem {
		return nil
	}
	var out []appendedItem
	for _, e := range n.sc.k.elems(n.sc.k.eval(kf, com.Args[1]), 0) {
		out = append(out, appendedItem{t, e})
	}
	return out
}

// class names the variable or field a container is kept in.
func (n *indexing) class(v ssa.Value) string {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.FieldAddr:
			return fieldClass(x.X.Type(), x.Field)
		case *ssa.Field:
			return fieldClass(x.X.Type(), x.Field)
		case *ssa.FreeVar:
			if mc := n.sc.k.made[x.Parent()]; mc != nil {
				for k, fv := range x.Parent().FreeVars {
					if fv == x {
						v = mc.Bindings[k]
					}
				}
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Phi:
			v = x.Edges[0]
			continue
		}
		break
	}
	if v.Parent() != nil {
		return "local of " + shortFn(outermost(v.Parent()))
	}
	return "?"
}

// setOp recognises operations on sets and maps of keys.
func (n *indexing) setOp(in ssa.Instruction) (op, class string, key ssa.Value) {
	switch i := in.(type) {
	case *ssa.MapUpdate:
		return "add", n.class(i.Map), i.Key
	case ssa.CallInstruction:
		com := i.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			return "remove", n.class(com.Args[0]), com.Args[1]
		}
		f := com.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || len(com.Args) != 2 || !strings.Contains(f.String(), "set") && !strings.Contains(f.String(), "Set") {
			return "", "", nil
		}
		if !isStringType(com.Args[1].Type()) {
			return "", "", nil
		}
		name := f.Name()
		if j := strings.IndexByte(name, '['); j > 0 {
			name = name[:j]
		}
		switch name {
		case "Put", "Add", "Insert":
			return "add", n.class(com.Args[0]), com.Args[1]
		case "Remove", "Delete", "Discard":
			return "remove", n.class(com.Args[0]), com.Args[1]
		}
	}
	return "", "", nil
}

func root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// spread are the values of the arguments that are passed as a slice.
func spread(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// findSweeps finds the iterations that delete every key of a container.
func (n *indexing) findSweeps() {
	for _, fn := range n.p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			op, recv, key, _ := access(ci)
			if op == "Delete" && (isBatchType(recv.Type()) || isDBType(recv.Type())) {
				n.sweep(ci, root(key), 0)
			}
		})
	}
}

func (n *indexing) sweep(at ssa.Instruction, key ssa.Value, depth int) {
	fn := at.Parent()
	if depth > 3 {
		return
	}
	always := func(from *ssa.BasicBlock) {
		if !at.Block().Dominates(from) {
			n.c.Report("kept/"+shortFn(fn), n.p.InstrPos(at), fmt.Sprintf("%s does not delete every key of the entries that are gone, some iterations leave out the deletion", shortFn(fn)), nil)
		}
	}
	switch v := key.(type) {
	case *ssa.Parameter:
		for _, b := range fn.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && fn.Parent() != nil {
				always(b)
			}
		}
		if enc := fn.Parent(); enc != nil {
			// given to a function that calls it for each key
			eachCall(enc, func(ci ssa.CallInstruction) {
				for _, a := range ci.Common().Args {
					if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == fn && len(ci.Common().Args) > 1 {
						n.sweeps[ci] = n.class(ci.Common().Args[0])
					}
				}
			})
			return
		}
		for k, q := range fn.Params {
			if q != v {
				continue
			}
			for _, ci := range n.sc.k.callers[fn] {
				if k < len(ci.Common().Args) {
					n.sweep(ci, root(ci.Common().Args[k]), depth+1)
				}
			}
		}
	case *ssa.UnOp:
		ia, ok := v.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		if sl, ok := ia.X.Type().Underlying().(*types.Slice); !ok || !isStringType(sl.Elem()) {
			return
		}
		for _, b := range fn.Blocks {
			if b != ia.Block() && ia.Block().Dominates(b) && len(b.Succs) == 1 && b.Succs[0].Dominates(ia.Block()) {
				always(b)
			}
		}
		for _, g := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
			eachCall(g, func(ci ssa.CallInstruction) {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && types.Identical(ci.Common().Args[0].Type(), ia.X.Type()) {
					for _, e := range spread(ci.Common().Args[1]) {
						n.sweep(ci, root(e), depth+1)
					}
				}
			})
		}
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				n.sweeps[rg] = n.class(rg.X)
				for _, b := range nx.Block().Preds {
					if b != rg.Block() && nx.Block().Dominates(b) {
						always(b)
					}
				}
			}
		}
	}
}

// findHeaders finds the tests that end the loops the old list is read in and
// the new one is written in.
func (n *indexing) findHeaders() {
	loops := func(at ssa.Instruction, into map[*ssa.If]bool) {
		for _, b := range at.Parent().Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if ok && b != at.Block() && b.Dominates(at.Block()) && reachesBlock(at.Block(), b) && leavesLoop(b, at.Block()) {
				into[iff] = true
			}
		}
	}
	for _, fn := range n.p.Repo {
		adds := false
		eachCall(fn, func(ci ssa.CallInstruction) {
			if op, _, _ := n.setOp(ci); op == "add" {
				adds = true
			}
			f := ci.Common().StaticCallee()
			if f == nil || !inLoop(ci.Block()) {
				return
			}
			if n.readers[f] {
				loops(ci, n.headers)
			}
			if n.writers[f] {
				loops(ci, n.wheaders)
			}
		})
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isStringType(mu.Key.Type()) {
					adds = true
				}
			}
		}
		if !adds {
			continue
		}
		// items of the old list that were kept in a slice
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || !inLoop(b) {
					continue
				}
				if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok && derefNamed(sl.Elem()) == n.elem {
					n.again[ia] = true
					loops(ia, n.headers)
				}
			}
		}
	}
	n.counts()
}

// reachesBlock tells whether b can come after a.
func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

// leavesLoop tells whether the test at the end of h can leave the loop that
// it and b are in.
func leavesLoop(h, b *ssa.BasicBlock) bool {
	for _, s := range h.Succs {
		if s != b && !reachesBlock(s, h) {
			return true
		}
	}
	return false
}

// body tells for which outcome of a test the loop goes on.
func (n *indexing) body(i *ssa.If) bool {
	return reachesBlock(i.Block().Succs[0], i.Block()) || i.Block().Succs[0] == i.Block()
}

// counts checks that loops over lists go from the first item to the last.
func (n *indexing) counts() {
	for _, hs := range []map[*ssa.If]bool{n.headers, n.wheaders} {
		for h := range hs {
			fn := h.Parent()
			bo, ok := h.Cond.(*ssa.BinOp)
			if ok {
				for k, o := range []ssa.Value{bo.X, bo.Y} {
					other := []ssa.Value{bo.Y, bo.X}[k]
					cst, isConst := o.(*ssa.Const)
					if _, isPhi := other.(*ssa.Phi); isPhi && isConst && cst.Value != nil && cst.Value.Kind() == constant.Int && cst.Int64() > 1 {
						n.c.Report("capped/"+shortFn(fn), n.p.InstrPos(h), fmt.Sprintf("%s goes only through part of the list of the symbols of a document: the loop ends at %d", shortFn(fn), cst.Int64()), nil)
					}
				}
			}
			if !ok || bo.Op != token.LSS {
				continue
			}
			idx, bound := bo.X, bo.Y
			first := int64(-1)
			if inc, ok := idx.(*ssa.BinOp); ok && inc.Op == token.ADD {
				// range: the index starts at -1 and is incremented first
				if ph, ok := inc.X.(*ssa.Phi); ok {
					idx = ph
					first = 1
				}
			}
			ph, ok := idx.(*ssa.Phi)
			if !ok {
				continue
			}
			for k, e := range ph.Edges {
				c, ok := e.(*ssa.Const)
				if !ok || c.Value == nil || ph.Block().Dominates(ph.Block().Preds[k]) {
					continue
				}
				v := c.Int64()
				if first == 1 {
					v++
				}
				if v > 0 {
					n.c.Report("skipped/"+shortFn(fn), n.p.InstrPos(h), fmt.Sprintf("%s goes through the list of the symbols of a document from item %d on", shortFn(fn), v), nil)
				}
			}
			if why := capped(bound, 0); why != "" {
				n.c.Report("capped/"+shortFn(fn), n.p.InstrPos(h), fmt.Sprintf("%s goes only through part of the list of the symbols of a document: %s", shortFn(fn), why), nil)
			}
			n.c.Count("loops over lists of symbols", 1)
		}
	}
}

// capped tells whether the end of a loop is not just the length of the list.
func capped(v ssa.Value, depth int) string {
	if depth > 5 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Phi:
		other := false
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); !ok {
				other = true
			}
		}
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && other && c.Value != nil && c.Int64() > 0 {
				return fmt.Sprintf("at most %d items", c.Int64())
			}
			if _, ok := e.(*ssa.Const); !ok {
				if w := capped(e, depth+1); w != "" {
					return w
				}
			}
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && (x.Op == token.SUB && c.Int64() > 0 || x.Op == token.QUO && c.Int64() > 1) {
			return "it ends before the last item"
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			return "the number of items is limited"
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if s, ok := x.Call.Args[0].(*ssa.Slice); ok && (s.Low != nil || s.High != nil) {
				return "the list is cut"
			}
		}
	}
	return ""
}

func (n *indexing) findRoots() {
	// contexts in which databases other than the one of completion are used
	rel := map[*ssa.Function]bool{}
	mainFns := map[*ssa.Function]bool{}
	for _, s := range n.sc.all {
		if s.op == "PrefixStream" {
			continue
		}
		if s.op == "Put" && isMain(s) {
			mainFns[s.in.Parent()] = true
		}
		if s.op == "Put" && s.coll != "" || s.op == "Put" && isMain(s) || s.op == "Delete" || s.op == "Get" && s.coll == n.list {
			indexOnly := s.op == "Put" && n.sc.comOnly(s)
			if indexOnly {
				continue
			}
			for f := s.fr; f != nil; f = f.up {
				rel[f.fn] = true
				for f.call == nil && f.lex != nil {
					f = f.lex
					rel[f.fn] = true
				}
			}
		}
	}
	top := n.p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if isWriteBatch(ci) {
			return true
		}
		if f := ci.Common().StaticCallee(); f != nil && n.readers[f] {
			return true
		}
		return rel[in.Parent()]
	})
	n.reach = top
	var cands []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range n.p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			o := outermost(fn)
			if isWriteBatch(ci) && !seen[o] && !strings.HasPrefix(pkgPathOf(o), modPath+"/"+storagePkg) {
				seen[o] = true
				cands = append(cands, o)
			}
		})
	}
	reaches := map[*ssa.Function]map[*ssa.Function]bool{}
	var syncs, dels []*ssa.Function
	for _, o := range cands {
		r := n.p.reachable(o)
		reaches[o] = r
		isMainFn, isSweep := false, false
		for f := range r {
			isMainFn = isMainFn || mainFns[f] || putsMain(f, mainFns)
			for in := range n.sweeps {
				if in.Parent() == f {
					isSweep = true
				}
			}
		}
		if isMainFn && n.writesSymbols(r) {
			syncs = append(syncs, o)
		} else if isSweep {
			dels = append(dels, o)
		}
	}
	for _, o := range syncs {
		inner := false
		for _, q := range syncs {
			if q != o && reaches[q][o] {
				inner = true
			}
		}
		if !inner {
			n.syncs = append(n.syncs, o)
		}
	}
	for _, o := range dels {
		outer := false
		for _, q := range dels {
			if q != o && reaches[o][q] {
				outer = true
			}
		}
		if !outer {
			n.deletes = append(n.deletes, o)
		}
	}
}

func putsMain(f *ssa.Function, m map[*ssa.Function]bool) bool { return m[f] }

// writesSymbols tells whether the list of symbols is written too.
func (n *indexing) writesSymbols(r map[*ssa.Function]bool) bool {
	for _, s := range n.sc.all {
		if s.op == "Put" && s.coll == n.list && r[s.in.Parent()] {
			return true
		}
	}
	return false
}

// comOnly tells whether a write concerns a search index.
func (sc *schema) comOnly(s *dbSite) bool {
	if s.dyn != nil && s.dyn.op == "invoke" && !isMain(s) {
		return true
	}
	for _, w := range sc.written {
		if w.site == s && w.index {
			return true
		}
	}
	// in the database of an index
	for _, w := range sc.written {
		if w.index && w.db == s.db {
			return true
		}
	}
	return false
}

func (n *indexing) sites(b *bridge, x *Ex, f *Frame, ci ssa.CallInstruction) []*dbSite {
	id := fmt.Sprintf("%p/%d/%p", x, f.ctx, ci)
	if s, ok := n.cache[id]; ok {
		return s
	}
	s := n.sc.at(b.at(f), ci)
	n.cache[id] = s
	return s
}

func keyID(k []seg) string {
	var out []string
	for _, g := range k {
		s := ""
		for _, p := range g.parts {
			s += p.id() + "+"
		}
		out = append(out, s)
	}
	return strings.Join(out, "/")
}

func hasPending(st *State, pre string) string {
	for k := range st.mon {
		if strings.HasPrefix(k, pre) {
			return k[len(pre):]
		}
	}
	return ""
}

// leaves are the parameters and fields of parameters a term is made from.
func leaves(t *term, out map[string]bool) {
	seen := map[*term]bool{}
	var visit func(t *term)
	visit = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "param":
			out[t.id()] = true
			return
		case "field":
			if len(t.args) == 1 && t.args[0].op == "param" {
				out[t.id()] = true
				return
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(t)
}

// explore follows one way of indexing or deleting a document.
func (n *indexing) explore(root *ssa.Function, sync bool, fresh bool) {
	c, p := n.c, n.p
	b := newBridge(n.sc.k)
	mon := &Monitor{}
	x := newEx(p, mon, n.reach)
	x.MaxSteps = 2500000
	x.NoInline = func(f *ssa.Function) bool { return n.readers[f] }
	name := shortFn(root)
	rep := func(key string, in ssa.Instruction, st *State, format string, a ...interface{}) {
		c.Report(key+"/"+name, p.InstrPos(in), fmt.Sprintf(format, a...), st.Path())
	}
	containers := map[string]bool{} // that hold what the previous version had
	docs := map[string]map[string]bool{}
	bad := map[string]bool{} // what has been reported
	commits := 0
	deleted := map[string]int{}
	commit := func(st *State, cl *Call) {
		commits++
		in := cl.Instr
		if fresh {
			if sync && st.mon["hash"] == "" {
				rep("unrecorded", in, st, "%s can commit what it wrote of a document without the hash of its content", name)
			}
			if st.mon["lost"] != "" {
				rep("lost", in, st, "%s commits although an inner batch failed (%s): the document counts as indexed, part of its entries is missing", name, st.mon["lost"])
			}
			if sync && st.mon["hash"] != "" && st.mon["newlist"] == "" {
				rep("hash-only", in, st, "%s can record the hash of a document without writing its symbols", name)
			}
			return
		}
		if st.mon["swept"] == "" {
			rep("stale", in, st, "%s can end without removing the entries the previous version of the document had", name)
		}
		if sync {
			if st.mon["newlist"] == "" {
				rep("unlisted-all", in, st, "%s can end without the list of the symbols it wrote", name)
			}
			if k := hasPending(st, "unmarked:"); k != "" {
				rep("unmarked", in, st, "%s writes a symbol, but does not exclude it from the removal of the entries that are gone", name)
			}
		}
		// templates of one collection belong together
		for _, pre := range []string{"put:", "del:"} {
			byColl := map[string]map[string]bool{}
			for k := range st.mon {
				if strings.HasPrefix(k, pre) {
					t := n.templ[k[len(pre):]]
					if t == nil {
						continue
					}
					if byColl[t.coll] == nil {
						byColl[t.coll] = map[string]bool{}
					}
					byColl[t.coll][k[len(pre):]] = true
				}
			}
			for id, t := range n.templ {
				if byColl[t.coll] != nil && !byColl[t.coll][id] {
					what := "writes"
					if pre == "del:" {
						what = "removes"
					}
					rep("part/"+t.coll, in, st, "%s %s only part of the entries of a document in %q, not %s", name, what, t.coll, renderSegs(t.segs))
				}
			}
		}
		for k := range st.mon {
			if strings.HasPrefix(k, "put:") {
				if t := n.templ[k[4:]]; t != nil && sync {
					t.n++
				}
			}
			if strings.HasPrefix(k, "del:") {
				deleted[k[4:]]++
			}
		}
	}
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if cl.Go {
			return nil, false
		}
		if isWriteBatch(cl.Instr) && len(cl.Args) == 1 {
			fv := cl.Args[0].Strip()
			if fv.K != KFunc || fv.Fn.Blocks == nil {
				c.Undecided("%s: which function fills the batch", p.InstrPos(cl.Instr))
				return nil, false
			}
			outer := st.mon["batch"] == ""
			s := st.clone()
			if outer {
				s.mon["batch"] = "1"
				s.step(p.InstrPos(cl.Instr), "a batch is begun")
			}
			var outs []Out
			for _, o := range x.Inline(cl.Frame, cl, fv.Fn, []*V{mkNonNil("batch(" + cl.Tok + ")")}, fv.Elts, s, cl.Frame.loop) {
				if o.Kind != XReturn {
					outs = append(outs, o)
					continue
				}
				know := x.IsNil(o.St, o.Val)
				if know <= 0 {
					bad := o.St.clone()
					if outer {
						delete(bad.mon, "batch")
						delete(bad.mon, "lost")
					}
					outs = append(outs, Out{St: bad, Val: mkNonNil("err(" + cl.Tok + ")")})
				}
				if know >= 0 {
					ok := o.St.clone()
					if outer {
						commit(ok, cl)
						delete(ok.mon, "batch")
					}
					outs = append(outs, Out{St: ok, Val: mkNil()})
					bad := o.St.clone()
					if outer {
						delete(bad.mon, "batch")
					} else {
						bad.mon["lost"] = p.InstrPos(cl.Instr)
						bad.step(p.InstrPos(cl.Instr), "the inner batch fails")
					}
					outs = append(outs, Out{St: bad, Val: mkNonNil("err(" + cl.Tok + ")")})
				}
			}
			return outs, true
		}
		return nil, false
	}
	events := func(st *State, fr *Frame, ci ssa.CallInstruction) {
		for _, s := range n.sites(b, x, fr, ci) {
			switch {
			case s.op == "Get" && s.coll == n.list:
				st.mon["read"] = "1"
				st.step(p.InstrPos(ci), "the symbols of the previous version are read")
				n.document(docs, s)
			case s.op == "Put" && s.coll == n.list:
				c.Seen("lists of symbols written", shortFn(fr.Fn)+" in "+name)
				if st.mon["read"] == "" && !fresh {
					rep("overwritten", ci, st, "%s writes the list of the symbols of a document before it has read that of the previous version", name)
				}
				if k := hasPending(st, "unlisted:"); k != "" && !fresh {
					rep("unlisted", ci, st, "%s writes a symbol that is not in the list of the symbols of the document, it will never be removed", name)
				}
				if (st.mon["wmid"] != "" || st.mon["towrite"] != "") && !fresh {
					rep("cut", ci, st, "%s can write a list that leaves out symbols of the document", name)
				}
				st.mon["newlist"] = "1"
				n.document(docs, s)
			case s.op == "Put" && isMain(s):
				c.Seen("symbols written", shortFn(fr.Fn)+" in "+name)
				id := keyID(s.keys[0])
				if !isBatchType(recvOf(ci).Type()) {
					rep("unbatched", ci, st, "%s writes a symbol outside of the batch", name)
				}
				if fresh {
					break
				}
				if hasPending(st, "unmarked:") != "" && st.mon["swept"] == "" {
					rep("unmarked", ci, st, "%s writes a symbol, but does not exclude it from the removal of the entries that are gone", name)
					bad["unmarked"] = true
				}
				if hasPending(st, "unlisted:") != "" {
					rep("unlisted", ci, st, "%s writes a symbol that is not in the list of the symbols of the document, it will never be removed", name)
					bad["unlisted"] = true
				}
				for k := range st.mon {
					if strings.HasPrefix(k, "unmarked:") || strings.HasPrefix(k, "unlisted:") {
						delete(st.mon, k)
					}
				}
				if st.mon["swept"] == "" && st.mon["marked:"+id] == "" && !bad["unmarked"] {
					st.mon["unmarked:"+id] = "1"
				}
				if st.mon["listed:"+id] == "" && !bad["unlisted"] {
					st.mon["unlisted:"+id] = "1"
				}
				delete(st.mon, "marked:"+id)
				delete(st.mon, "listed:"+id)
			case s.op == "Put" && s.coll != "" && !n.sc.comOnly(s) && (isBatchType(recvOf(ci).Type()) || s.db != ""):
				batched := isBatchType(recvOf(ci).Type())
				seg := s.keys[0][1:]
				id := tmplID(s.coll, seg)
				isHash, of := n.hashOf(b.at(fr), s.val)
				if isHash {
					c.Seen("hashes recorded", shortFn(fr.Fn)+" in "+name)
					st.mon["hash"] = "1"
					st.step(p.InstrPos(ci), "the hash is recorded")
					if fresh {
						if !batched {
							rep("hash-unbatched", ci, st, "%s records the hash of a document outside of the batch its symbols are in", name)
						}
						if of != nil && !mentionsTerm(seg, of) {
							rep("hash-other", ci, st, "%s records the hash of one document for another one", name)
						}
					}
				}
				if batched {
					if n.templ[id] == nil && sync {
						n.templ[id] = &tmpl{coll: s.coll, segs: seg}
					}
					st.mon["put:"+id] = "1"
				}
				n.document(docs, s)
			case s.op == "Delete" && s.coll != "":
				id := tmplID(s.coll, s.keys[0][1:])
				if st.mon["put:"+id] != "" && !fresh {
					rep("removed-new/"+s.coll, ci, st, "%s removes the entry in %q that it has just written", name, s.coll)
				}
				st.mon["del:"+id] = "1"
				if !fresh {
					n.conditions(b.at(fr), ci, s, name)
				}
				c.Seen("removals", s.coll+" in "+name)
				n.document(docs, s)
			}
		}
	}
	mon.OnCall = func(x *Ex, st *State, cl *Call) {
		fr := cl.Frame
		if op, _, _, _ := access(cl.Instr); op != "" && op != "PrefixStream" {
			events(st, fr, cl.Instr)
			return
		}
		if fresh {
			return
		}
		if cl.Fn != nil && n.readers[cl.Fn] {
			if st.mon["toadd"] != "" {
				rep("forgotten", cl.Instr, st, "%s reads a symbol of the previous version, but does not always note it for removal", name)
			}
			st.mon["toadd"] = "1"
			st.mon["mid"] = "1"
			c.Seen("old lists read", shortFn(fr.Fn)+" in "+name)
		}
		if cl.Fn != nil && n.writers[cl.Fn] && inLoop(cl.Instr.Block()) {
			delete(st.mon, "towrite")
			st.mon["wmid"] = "1"
		}
		for _, it := range n.appended(b.at(fr), cl.Instr) {
			if it.v.op == "call" && n.readers[it.v.fn] {
				delete(st.mon, "toadd") // gone through later
			}
			id := n.itemID(it.v)
			if id == "" {
				continue
			}
			c.Seen("symbols listed", shortFn(fr.Fn)+" in "+name)
			if st.mon["unlisted:"+id] != "" {
				delete(st.mon, "unlisted:"+id)
			} else {
				if !bad["unlisted"] {
					st.mon["listed:"+id] = "1"
				}
			}
		}
		n.setEvent(c, b, st, fr, cl.Instr, containers, bad, name)
		if cls, ok := n.sweeps[cl.Instr]; ok {
			n.sweepEvent(c, st, fr, cl.Instr, cls, containers, rep)
		}
	}
	mon.OnExec = func(x *Ex, st *State, fr *Frame, in ssa.Instruction) {
		if fresh {
			return
		}
		if n.again[in] {
			if st.mon["toadd"] != "" {
				rep("forgotten", in, st, "%s does not note every symbol of the previous version for removal", name)
			}
			st.mon["toadd"] = "1"
			st.mon["mid"] = "1"
		}
		switch i := in.(type) {
		case *ssa.MapUpdate:
			n.setEvent(c, b, st, fr, i, containers, bad, name)
		case *ssa.Range:
			if cls, ok := n.sweeps[i]; ok {
				n.sweepEvent(c, st, fr, i, cls, containers, rep)
			}
		}
	}
	mon.OnBranch = func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool) {
		if n.headers[in] {
			if st.mon["toadd"] != "" && !fresh {
				rep("forgotten", in, st, "%s reads a symbol of the previous version, but does not always note it for removal", name)
			}
			delete(st.mon, "mid")
			delete(st.mon, "toadd")
		}
		if n.wheaders[in] && !fresh {
			if st.mon["towrite"] != "" {
				rep("cut", in, st, "%s can write a list that leaves out symbols of the document", name)
			}
			delete(st.mon, "wmid")
			delete(st.mon, "towrite")
			if in.Block().Succs[0] != nil && truth == n.body(in) {
				st.mon["towrite"] = "1"
			}
		}
	}
	exits := x.Run(root, x.RootArgs(root), nil, newState())
	c.Explored(x)
	debugf("%s: steps %d joined %d exits %d commits %d containers %v", name, x.steps, x.Joined, len(exits), commits, containers)
	for _, e := range x.Err {
		_ = e
	}
	c.Count("commits", commits)
	if commits == 0 {
		c.Undecided("%s: no path commits a batch", name)
	}
	if fresh {
		n.sameDocument(docs, name, root)
		return
	}
	if len(containers) == 0 {
		c.Report("stale/"+name, p.Pos(root.Pos()), fmt.Sprintf("%s does not note the symbols of the previous version for removal", name), nil)
	}
	n.sameDocument(docs, name, root)
	if sync {
		for _, id := range sortedKeys(n.templ) {
			c.Seen("entries of a document besides its symbols", id)
			n.templ[id].n = n.templ[id].n * 1000 / commits
		}
		return
	}
	for _, id := range sortedKeys(n.templ) {
		t := n.templ[id]
		if deleted[id] == 0 {
			c.Report("left/"+t.coll+"/"+name, p.Pos(root.Pos()), fmt.Sprintf("%s never removes the entry of the document in %q (%s)", name, t.coll, renderSegs(t.segs)), nil)
		} else if t.n == 1000 && deleted[id] < commits {
			c.Report("left/"+t.coll+"/"+name, p.Pos(root.Pos()), fmt.Sprintf("%s does not always remove the entry of the document in %q, which is always written", name, t.coll), nil)
		}
	}
}

// conditions checks that whether the entries of a document are removed only
// depends on the document.
func (n *indexing) conditions(kf *kframe, in ssa.Instruction, s *dbSite, name string) {
	own := map[string]bool{}
	for _, k := range s.keys {
		for _, g := range k[1:] {
			for _, q := range g.parts {
				leaves(q, own)
			}
		}
	}
	for kf != nil && in != nil {
		for d := in.Block().Idom(); d != nil; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || reachesBlock(d, d) {
				continue
			}
			both := true
			for _, x := range d.Succs {
				if x != in.Block() && !reachesBlock(x, in.Block()) {
					both = false
				}
			}
			if both {
				continue
			}
			from := map[string]bool{}
			n.depends(kf, iff.Cond, from, 0)
			known := false
			for l := range from {
				known = known || own[l]
			}
			n.c.Count("conditions of removals", 1)
			if !known {
				n.c.Report("condition/"+name, n.p.InstrPos(iff), fmt.Sprintf("%s: whether the entries of the document in %q are removed depends on something else than the document", shortFn(kf.fn), s.coll), nil)
			}
		}
		if kf.call != nil {
			in, kf = kf.call, kf.up
		} else {
			return
		}
	}
}

// depends collects what a value is computed from.
func (n *indexing) depends(kf *kframe, v ssa.Value, out map[string]bool, depth int) {
	if depth > 8 || v == nil {
		return
	}
	leaves(n.sc.k.eval(kf, v), out)
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	for _, o := range in.Operands(nil) {
		if o != nil && *o != nil {
			n.depends(kf, *o, out, depth+1)
		}
	}
}

func recvOf(ci ssa.CallInstruction) ssa.Value {
	_, recv, _, _ := access(ci)
	return recv
}

// itemID is the key of the symbol that an item of the list is for.
func (n *indexing) itemID(v *term) string {
	c := n.sc.k.field(v, n.collF, 0)
	k := n.sc.k.field(v, n.keyF, 0)
	if c.op == "?" || k.op == "?" {
		return ""
	}
	return keyID(segments(catTerms(catTerms(c, &term{op: "lit", lit: keySep}), k)))
}

func (n *indexing) setEvent(c *Ctx, b *bridge, st *State, fr *Frame, in ssa.Instruction, containers, bad map[string]bool, name string) {
	op, cls, key := n.setOp(in)
	if op == "" || key == nil {
		return
	}
	t := b.term(fr, key)
	k := segments(t)
	switch op {
	case "remove":
		id := keyID(k)
		if len(k) != 2 {
			return
		}
		c.Seen("symbols kept", shortFn(fr.Fn)+" in "+name)
		if st.mon["unmarked:"+id] != "" {
			delete(st.mon, "unmarked:"+id)
		} else if k[0].parts != nil && k[0].parts[0].op == "invoke" {
			if !bad["unmarked"] && st.mon["swept"] == "" {
				st.mon["marked:"+id] = "1"
			}
		}
	case "add":
		if len(k) != 2 || len(k[0].parts) != 1 || len(k[1].parts) != 1 {
			return
		}
		a, d := k[0].parts[0], k[1].parts[0]
		if a.op == "field" && d.op == "field" && a.lit == n.collF && d.lit == n.keyF && a.args[0].id() == d.args[0].id() {
			containers[cls] = true
			delete(st.mon, "toadd")
			c.Seen("symbols noted for removal", shortFn(fr.Fn)+" in "+name)
		}
	}
}

func (n *indexing) sweepEvent(c *Ctx, st *State, fr *Frame, in ssa.Instruction, cls string, containers map[string]bool, rep func(string, ssa.Instruction, *State, string, ...interface{})) {
	if st.mon["read"] == "" || !containers[cls] && len(containers) > 0 {
		return
	}
	if st.mon["toadd"] != "" {
		rep("forgotten", in, st, "%s: a symbol of the previous version is read, but not noted for removal", shortFn(fr.Fn))
	}
	if st.mon["mid"] != "" {
		rep("partial", in, st, "%s: the list of the symbols of the previous version is not read to its end", shortFn(fr.Fn))
	}
	if hasPending(st, "unmarked:") != "" {
		rep("unmarked", in, st, "a symbol that was written is not excluded from the removal of the entries that are gone")
	}
	c.Seen("removals of what is gone", shortFn(fr.Fn))
	st.mon["swept"] = "1"
	st.step(n.p.InstrPos(in), "what is gone is removed")
}

// hashOf tells whether a value is the hash of the content of a document.
func (n *indexing) hashOf(kf *kframe, v ssa.Value) (bool, *term) {
	for i := 0; i < 10 && v != nil; i++ {
		switch x := root(v).(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && n.hashFn[f] {
				return true, n.sc.k.eval(kf, x.Call.Args[0])
			}
			return false, nil
		case *ssa.Parameter:
			if kf.call == nil {
				return false, nil
			}
			com := kf.call.Common()
			found := false
			for k, q := range kf.fn.Params {
				if q == x && !com.IsInvoke() && k < len(com.Args) {
					v, kf, found = com.Args[k], kf.up, true
					break
				}
			}
			if !found {
				return false, nil
			}
		case *ssa.FreeVar:
			mc := n.sc.k.made[kf.fn]
			if mc == nil || kf.lex == nil {
				return false, nil
			}
			for k, q := range kf.fn.FreeVars {
				if q == x {
					v = mc.Bindings[k]
				}
			}
			kf = kf.lex
		case *ssa.UnOp:
			st := []storeAt{}
			switch a := x.X.(type) {
			case *ssa.Alloc:
				st = n.sc.k.storesTo(a, kf)
			case *ssa.FreeVar:
				v = a
				continue
			}
			if len(st) != 1 {
				return false, nil
			}
			v, kf = st[0].st.Val, st[0].fr
		case *ssa.Alloc:
			st := n.sc.k.storesTo(x, kf)
			if len(st) != 1 {
				return false, nil
			}
			v, kf = st[0].st.Val, st[0].fr
		default:
			return false, nil
		}
	}
	return false, nil
}

func mentionsTerm(segs []seg, of *term) bool {
	id := of.id()
	seen := map[*term]bool{}
	var in func(t *term) bool
	in = func(t *term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.id() == id {
			return true
		}
		for _, a := range t.args {
			if in(a) {
				return true
			}
		}
		return false
	}
	for _, g := range segs {
		for _, q := range g.parts {
			if in(q) {
				return true
			}
		}
	}
	return false
}

func (n *indexing) document(docs map[string]map[string]bool, s *dbSite) {
	for _, k := range s.keys {
		m := map[string]bool{}
		for _, g := range k[1:] {
			for _, q := range g.parts {
				leaves(q, m)
			}
		}
		id := s.op + " " + tmplID(s.coll, k[1:])
		if docs[id] == nil {
			docs[id] = m
		}
	}
}

// sameDocument checks that the entries are all keyed by the same document.
func (n *indexing) sameDocument(docs map[string]map[string]bool, name string, root *ssa.Function) {
	var common map[string]bool
	var ids []string
	for id := range docs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		m := docs[id]
		if len(m) == 0 {
			continue
		}
		if common == nil {
			common = map[string]bool{}
			for k := range m {
				common[k] = true
			}
			continue
		}
		next := map[string]bool{}
		for k := range common {
			if m[k] {
				next[k] = true
			}
		}
		if len(next) == 0 {
			n.c.Report("document/"+name, n.p.Pos(root.Pos()), fmt.Sprintf("%s: the entries do not all belong to the same document (%s)", name, id), sortedKeys(m))
			return
		}
		common = next
	}
	n.c.Count("entries of the same document", len(ids))
}

func rulesReindex(c *Ctx) {
	c.Rule("a document is indexed by reading the list of what its previous version had, writing each symbol, its item of the new list and its exclusion from removal, and removing the rest, on every path that commits")
	c.Rule("every item of the old list is noted for removal under the key it was written with, up to the end of the list")
	c.Rule("what is deleted in the batch of a document is never what was written to it before")
	c.Rule("deleting a document removes its symbols and every other entry that indexing writes for it")
	n := newIndexing(c)
	if n == nil {
		return
	}
	for _, r := range n.syncs {
		c.Seen("ways to index a document", shortFn(r))
		n.explore(r, true, false)
	}
	for _, r := range n.deletes {
		c.Seen("ways to delete a document", shortFn(r))
		n.explore(r, false, false)
	}
	c.AtLeast("ways to index a document", 1)
	c.AtLeast("ways to delete a document", 1)
	c.AtLeast("symbols written", 1)
	c.AtLeast("symbols listed", 1)
	c.AtLeast("symbols kept", 1)
	c.AtLeast("symbols noted for removal", 2)
	c.AtLeast("entries of a document besides its symbols", 3)
	c.AtLeast("removals of what is gone", 1)
}

func init() {
	register("C14", "Path exploration of how documents are indexed and deleted, with the databases and the sets of keys modelled.", nil, rulesReindex)
}
