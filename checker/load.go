package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/john-nguyen09/phpintel"

// Program is the analysed program.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	All   map[*ssa.Function]bool
	Repo  []*ssa.Function // source functions of the repository, closures included
	CG    *callgraph.Graph
	byPkg map[string]*packages.Package

	mods map[*ssa.Function]map[string]bool
	impl map[*types.Func][]*ssa.Function
	live map[*ssa.Function][]map[ssa.Value]bool
	cyc  map[*ssa.Function][]bool
}

func load(dir, goos string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(loadEnv(), "GOOS="+goos, "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(ps) < 8 {
		return nil, fmt.Errorf("only %d packages found", len(ps))
	}
	p := &Program{Dir: dir, Pkgs: ps, byPkg: map[string]*packages.Package{},
		mods: map[*ssa.Function]map[string]bool{}, impl: map[*types.Func][]*ssa.Function{},
		live: map[*ssa.Function][]map[ssa.Value]bool{}, cyc: map[*ssa.Function][]bool{}}
	p.Prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p.Prog.Build()
	p.Fset = p.Prog.Fset
	p.All = ssautil.AllFunctions(p.Prog)
	p.CG = vta.CallGraph(p.All, nil)
	for _, q := range ps {
		p.byPkg[q.PkgPath] = q
	}
	for fn := range p.All {
		if inRepo(fn) && fn.Blocks != nil && (fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "range-over-func")) {
			p.Repo = append(p.Repo, fn)
		}
	}
	sort.Slice(p.Repo, func(i, j int) bool { return p.fnLess(p.Repo[i], p.Repo[j]) })
	return p, nil
}

func (p *Program) fnLess(a, b *ssa.Function) bool {
	if a.String() != b.String() {
		return a.String() < b.String()
	}
	return a.Pos() < b.Pos()
}

func pkgPathOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
	}
	return ""
}

func isRepoPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func inRepo(fn *ssa.Function) bool { return fn != nil && isRepoPath(pkgPathOf(fn)) }

// Pkg returns the package with the path relative to the module.
func (p *Program) Pkg(rel string) *packages.Package {
	if rel == "" {
		return p.byPkg[modPath]
	}
	return p.byPkg[modPath+"/"+rel]
}

// Named returns the named type of a package of the repository.
func (p *Program) Named(rel, name string) *types.Named {
	q := p.Pkg(rel)
	if q == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Func returns a package level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	q := p.Pkg(rel)
	if q == nil {
		return nil
	}
	o, _ := q.Types.Scope().Lookup(name).(*types.Func)
	if o == nil {
		return nil
	}
	return p.Prog.FuncValue(o)
}

// Method returns the method declared on the named type or its pointer.
func (p *Program) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Methods returns the declared methods of a type, by name.
func (p *Program) Methods(n *types.Named) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	if n == nil {
		return out
	}
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.Prog.FuncValue(n.Method(i)); f != nil {
			out[n.Method(i).Name()] = f
		}
	}
	return out
}

// NamedTypes returns all named types declared in packages of the repository.
func (p *Program) NamedTypes() []*types.Named {
	var out []*types.Named
	for _, path := range sortedKeys(p.byPkg) {
		q := p.byPkg[path]
		if !isRepoPath(path) {
			continue
		}
		for _, name := range q.Types.Scope().Names() {
			if tn, ok := q.Types.Scope().Lookup(name).(*types.TypeName); ok {
				if n, ok := tn.Type().(*types.Named); ok && !tn.IsAlias() {
					out = append(out, n)
				}
			}
		}
	}
	return out
}

// Implementors returns the concrete methods of the repository that an
// interface method can resolve to.
func (p *Program) Implementors(m *types.Func) []*ssa.Function {
	if r, ok := p.impl[m]; ok {
		return r
	}
	var out []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	if recv != nil {
		if it, ok := recv.Type().Underlying().(*types.Interface); ok {
			seen := map[*ssa.Function]bool{}
			for _, n := range p.NamedTypes() {
				if types.IsInterface(n) || n.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					if !types.Implements(t, it) {
						continue
					}
					sel := p.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
					if sel == nil {
						continue
					}
					f := p.Prog.FuncValue(sel.Obj().(*types.Func))
					if f != nil && f.Blocks != nil && !seen[f] {
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.fnLess(out[i], out[j]) })
	p.impl[m] = out
	return out
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// InstrPos finds the best position of an instruction.
func (p *Program) InstrPos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	if c, ok := i.(ssa.CallInstruction); ok && c.Common().Pos().IsValid() {
		return p.Pos(c.Common().Pos())
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, ok := (*op).(ssa.Instruction); ok {
				return p.Pos((*op).Pos())
			}
		}
	}
	if b := i.Block(); b != nil {
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return p.Pos(j.Pos())
			}
		}
		return p.Pos(b.Parent().Pos())
	}
	return "-"
}

// shortFn is the readable name of a function.
func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "main.")
	return s
}

// callees returns the functions of the call graph called at a site.
func (p *Program) siteCallees(site ssa.CallInstruction) []*ssa.Function {
	n := p.CG.Nodes[site.Parent()]
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	for _, e := range n.Out {
		if e.Site == site {
			out = append(out, e.Callee.Func)
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.fnLess(out[i], out[j]) })
	return out
}

// succs are the functions a function calls or creates a closure of.
func (p *Program) succs(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	bySite := map[ssa.CallInstruction]int{}
	if n := p.CG.Nodes[fn]; n != nil {
		for _, e := range n.Out {
			// calls of function values are accounted to who makes the closure
			if e.Site != nil && !e.Site.Common().IsInvoke() && e.Site.Common().StaticCallee() == nil {
				continue
			}
			bySite[e.Site]++
			add(e.Callee.Func)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.MakeClosure); ok {
				add(c.Fn.(*ssa.Function))
			}
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && bySite[c] == 0 {
				for _, f := range p.Implementors(c.Common().Method) {
					add(f)
				}
			}
			for _, op := range i.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok {
					add(f)
				}
			}
		}
	}
	return out
}

// ReachSet returns the repository functions from which an interesting
// instruction can be reached.
func (p *Program) ReachSet(interesting func(ssa.Instruction) bool) map[*ssa.Function]bool {
	preds := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	out := map[*ssa.Function]bool{}
	for fn := range p.All {
		if fn.Blocks == nil || !inRepo(fn) {
			continue
		}
		for _, s := range p.succs(fn) {
			preds[s] = append(preds[s], fn)
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if !out[fn] && interesting(i) {
					out[fn] = true
					work = append(work, fn)
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, q := range preds[fn] {
			if !out[q] {
				out[q] = true
				work = append(work, q)
			}
		}
	}
	return out
}

// reachSize counts the repository functions a function can reach.
func (p *Program) reachSize(fn *ssa.Function) int {
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range p.succs(f) {
			if inRepo(s) && !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return len(seen)
}

func derefNamed(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	if n == nil {
		if a, ok := t.(*types.Alias); ok {
			n, _ = types.Unalias(a).(*types.Named)
		}
	}
	return n
}

func typeName(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Path() }), modPath+"/", "")
}

// fieldOf returns the struct type name and field of a field address.
func fieldOf(t types.Type, idx int) (string, *types.Var) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	name := ""
	if n := derefNamed(t); n != nil {
		name = typeName(n)
	} else {
		name = "struct"
	}
	return name, st.Field(idx)
}

func fieldClass(t types.Type, idx int) string {
	n, f := fieldOf(t, idx)
	if f == nil {
		return "?"
	}
	return n + "." + f.Name()
}

// addrClass classifies the location an address expression denotes.
func addrClass(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return fieldClass(a.X.Type(), a.Field)
	case *ssa.IndexAddr:
		return "index:" + typeName(a.Type())
	case *ssa.Global:
		return "global:" + a.String()
	}
	return "elem:" + typeName(v.Type())
}

// ModSet returns the classes of locations a call of the function may change.
func (p *Program) ModSet(fn *ssa.Function) map[string]bool {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	// breadth first over repository functions
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f.Blocks == nil || !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if al, ok := s.Addr.(*ssa.Alloc); ok && al.Parent() == f {
						continue
					}
					if _, ok := s.Addr.(*ssa.FreeVar); ok {
						continue
					}
					if isFreshBase(s.Addr, f) {
						continue
					}
					out[addrClass(s.Addr)] = true
				}
			}
		}
		for _, s := range p.succs(f) {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	p.mods[fn] = out
	return out
}

// isFreshBase tells whether the address is within an object the function
// has just allocated itself.
func isFreshBase(v ssa.Value, f *ssa.Function) bool {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Alloc:
			return a.Parent() == f
		default:
			return false
		}
	}
}

// LiveIn returns the values live at the entry of each block.
func (p *Program) LiveIn(fn *ssa.Function) []map[ssa.Value]bool {
	if l, ok := p.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					// phis of the successor are defined at its entry
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
			}
			for _, s := range b.Succs {
				for k, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, i := range s.Instrs {
						ph, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						if track(ph.Edges[k]) {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if ph, ok := i.(*ssa.Phi); ok {
					// keep phis: they are evaluated before the entry is recorded
					_ = ph
					continue
				}
				if v, ok := i.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[bi][v] {
					in[bi][v] = true
					changed = true
				}
			}
		}
	}
	p.live[fn] = in
	return in
}

// InCycle tells for each block whether it is part of a cycle.
func (p *Program) InCycle(fn *ssa.Function) []bool {
	if c, ok := p.cyc[fn]; ok {
		return c
	}
	n := len(fn.Blocks)
	out := make([]bool, n)
	for i := range fn.Blocks {
		seen := make([]bool, n)
		var work []*ssa.BasicBlock
		work = append(work, fn.Blocks[i].Succs...)
		for len(work) > 0 && !out[i] {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if b.Index == i {
				out[i] = true
				break
			}
			if !seen[b.Index] {
				seen[b.Index] = true
				work = append(work, b.Succs...)
			}
		}
	}
	p.cyc[fn] = out
	return out
}

func loadEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
}
