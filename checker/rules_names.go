package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// names is what C20 knows about the resolution of names.
type names struct {
	c        *Ctx
	p        *Program
	doc      *types.Named
	table    *types.Named
	query    *types.Named
	typeStr  *types.Named
	phrase   *types.Named
	token    *types.Named
	newType  *ssa.Function
	use      *ssa.Function
	nspace   *ssa.Function
	resolver map[string]*ssa.Function // by kind
	touches  map[*ssa.Function]bool   // reach the import tables of a document
}

type useItem struct {
	name, alias string
	kind        string // when it is said for the item
}

// useDecl is a use declaration.
type useDecl struct {
	kind  string // "", "function", "const"
	group string // the prefix of a group
	items []useItem
}

func (u useDecl) String() string {
	s := "use "
	if u.kind != "" {
		s += u.kind + " "
	}
	var parts []string
	for _, i := range u.items {
		t := ""
		if i.kind != "" {
			t = i.kind + " "
		}
		t += i.name
		if i.alias != "" {
			t += " as " + i.alias
		}
		parts = append(parts, t)
	}
	t := strings.Join(parts, ", ")
	if u.group != "" {
		t = u.group + "\\{" + t + "}"
	}
	return showStr(s + t)
}

type imported struct{ kind, alias, target string }

func (u useDecl) imports() []imported {
	var out []imported
	for _, i := range u.items {
		k := u.kind
		if i.kind != "" {
			k = i.kind
		}
		if k == "" {
			k = "class"
		}
		target := i.name
		if u.group != "" {
			target = u.group + "\\" + target
		}
		alias := i.alias
		if alias == "" {
			alias = target[strings.LastIndex(target, "\\")+1:]
		}
		out = append(out, imported{k, alias, target})
	}
	return out
}

type nameCase struct {
	before []useDecl // in an earlier namespace of the same file
	ns     string    // "-": no declaration, "": namespace { }
	uses   []useDecl
	name   string
	kind   string
	exists map[string]bool
}

func (k nameCase) String() string {
	var s []string
	if len(k.before) > 0 {
		s = append(s, "an earlier namespace")
		for _, u := range k.before {
			s = append(s, u.String())
		}
	}
	switch k.ns {
	case "-":
	case "":
		s = append(s, "namespace { }")
	default:
		s = append(s, "namespace "+showStr(k.ns))
	}
	for _, u := range k.uses {
		s = append(s, u.String())
	}
	s = append(s, "the "+k.kind+" "+showStr(k.name))
	var ex []string
	for e, y := range k.exists {
		if y {
			ex = append(ex, showStr(e))
		}
	}
	sort.Strings(ex)
	if len(ex) > 0 {
		s = append(s, strings.Join(ex, " and ")+" exist")
	}
	return strings.Join(s, "; ")
}

// possible are the names that PHP tries in turn, and the import that is used.
func (k nameCase) possible() (fqns []string, used *imported) {
	if strings.HasPrefix(k.name, "\\") {
		return []string{k.name}, nil
	}
	parts := strings.Split(k.name, "\\")
	table := k.kind
	if len(parts) > 1 {
		table = "class"
	}
	for _, u := range k.uses {
		for _, i := range u.imports() {
			i := i
			if i.kind == table && i.alias == parts[0] {
				used = &i
			}
		}
	}
	if used != nil {
		return []string{"\\" + strings.Join(append([]string{used.target}, parts[1:]...), "\\")}, used
	}
	here := "\\" + k.name
	if k.ns != "" && k.ns != "-" {
		here = "\\" + k.ns + here
	}
	fqns = []string{here}
	if k.kind != "class" && len(parts) == 1 && here != "\\"+k.name {
		fqns = append(fqns, "\\"+k.name)
	}
	return fqns, nil
}

// nameRun is one document.
type nameRun struct {
	*names
	d      *Dom
	text   map[*rCell]string
	exists map[string]bool
	at     func() rv // where the next thing is, when it matters
}

// constant of a package, by its name
func constOf(pkg *types.Package, name string) (rInt, bool) {
	if k, ok := pkg.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
			return intOf(v), true
		}
	}
	return rInt{}, false
}

// node of the syntax tree
func (r *nameRun) node(kind, text string, children ...*rCell) *rCell {
	c := r.d.NewObject(r.phrase)
	k, ok := constOf(r.phrase.Obj().Pkg(), kind)
	if !ok {
		r.d.fail("the kind of node %s is not known", kind)
	}
	r.d.Field(c, "Type").v = k
	var vs []rv
	for _, ch := range children {
		t := types.Type(r.phrase)
		if s, ok := ch.v.(*rStruct); ok {
			t = s.t
		}
		vs = append(vs, rIface{types.NewPointer(t), ch})
	}
	if len(vs) > 0 {
		r.d.Field(c, "Children").v = r.d.Slice(vs...)
	}
	r.text[c] = text
	return c
}

func (r *nameRun) tok(kind, text string) *rCell {
	c := r.d.NewObject(r.token)
	k, ok := constOf(r.token.Obj().Pkg(), kind)
	if !ok {
		r.d.fail("the kind of token %s is not known", kind)
	}
	r.d.Field(c, "Type").v = k
	r.text[c] = text
	return c
}

func (r *nameRun) nameNode(name string) *rCell {
	kind, t := "QualifiedName", strings.TrimPrefix(name, "\\")
	var toks []*rCell
	if t != name {
		kind = "FullyQualifiedName"
		toks = append(toks, r.tok("Backslash", "\\"))
	}
	return r.node(kind, name, append(toks, r.node("NamespaceName", t, r.tok("Name", t)))...)
}

func (r *nameRun) useNode(u useDecl) *rCell {
	word := map[string]string{"function": "Function", "const": "Const"}
	children := []*rCell{r.tok("Use", "use")}
	if u.kind != "" {
		children = append(children, r.tok(word[u.kind], u.kind))
	}
	list, item := "NamespaceUseClauseList", "NamespaceUseClause"
	if u.group != "" {
		list, item = "NamespaceUseGroupClauseList", "NamespaceUseGroupClause"
		children = append(children, r.node("NamespaceName", u.group, r.tok("Name", u.group)), r.tok("Backslash", "\\"), r.tok("OpenBrace", "{"))
	}
	var items []*rCell
	for i, it := range u.items {
		if i > 0 {
			items = append(items, r.tok("Comma", ","))
		}
		var ch []*rCell
		if it.kind != "" {
			ch = append(ch, r.tok(word[it.kind], it.kind))
		}
		ch = append(ch, r.node("NamespaceName", it.name, r.tok("Name", it.name)))
		if it.alias != "" {
			ch = append(ch, r.node("NamespaceAliasingClause", "as "+it.alias, r.tok("As", "as"), r.tok("Name", it.alias)))
		}
		items = append(items, r.node(item, it.name, ch...))
	}
	children = append(children, r.node(list, "", items...))
	if u.group != "" {
		children = append(children, r.tok("CloseBrace", "}"))
	}
	children = append(children, r.tok("Semicolon", ";"))
	return r.node("NamespaceUseDeclaration", "", children...)
}

func (r *nameRun) call(fn *ssa.Function, args ...rv) rv {
	for i, a := range args {
		if i >= len(fn.Params) {
			break
		}
		c, ok := a.(*rCell)
		if !ok {
			continue
		}
		t := fn.Params[i].Type()
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && !types.IsInterface(t) {
			args[i] = copyVal(r.d, c.v)
		}
	}
	return r.d.Run(fn, args, nil)
}

// forNode fills in the parameters of something that is called for a node.
func (r *nameRun) forNode(fn *ssa.Function, doc, node *rCell) rv {
	var args []rv
	for _, q := range fn.Params {
		switch n := derefNamed(q.Type()); {
		case n == r.doc:
			args = append(args, doc)
		case n == r.phrase:
			args = append(args, node)
		default:
			args = append(args, r.d.zero(q.Type()))
		}
	}
	return r.d.Run(fn, args, nil)
}

func (r *nameRun) hook(d *Dom, c *DomCall) (rv, bool) {
	if c.Go || c.Fn == nil {
		return nil, false
	}
	sig := c.Fn.Signature
	recv := sig.Recv()
	if recv == nil {
		return nil, false
	}
	if len(c.Args) == 2 && sig.Results().Len() == 1 {
		if q, ok := c.Args[1].(rStr); ok {
			switch c.Fn.Name() {
			case "GetFunctions", "GetConsts", "GetDefines":
				elem, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
				if !ok {
					break
				}
				what := strings.ToLower(strings.TrimSuffix(strings.TrimPrefix(c.Fn.Name(), "Get"), "s")) + " " + string(q)
				if !r.exists[what] {
					return rNil{}, true
				}
				return d.Slice(d.cell(d.zero(derefType(elem.Elem())))), true
			}
		}
	}
	if derefNamed(recv.Type()) != r.doc {
		return nil, false
	}
	if sig.Results().Len() == 0 {
		if !r.touches[c.Fn] {
			return rNil{}, true
		}
		return nil, false
	}
	if sig.Results().Len() != 1 {
		return nil, false
	}
	t := sig.Results().At(0).Type()
	if isStringType(t) {
		for _, a := range c.Args[1:] {
			if i, ok := a.(rIface); ok {
				a = i.v
			}
			if n, ok := a.(*rCell); ok {
				if s, ok := r.text[n]; ok {
					return rStr(s), true
				}
			}
		}
	}
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == modPath+"/internal/lsp/protocol" {
		switch nt.Obj().Name() {
		case "Position":
			if r.at != nil {
				return r.at(), true
			}
			fallthrough
		case "Range", "Location":
			return d.zero(t), true
		}
	}
	return nil, false
}

// marked are the imports that are marked as used.
func (r *nameRun) unused(table *rCell) (map[string]bool, bool) {
	fn := r.p.Method(r.table, "unusedImportItems")
	if fn == nil {
		return nil, false
	}
	vs, ok := r.d.Elems(r.call(fn, table))
	if !ok {
		return nil, false
	}
	out := map[string]bool{}
	for _, v := range vs {
		c, ok := v.(*rCell)
		if !ok {
			return nil, false
		}
		s, ok := c.v.(*rStruct)
		if !ok {
			return nil, false
		}
		for _, f := range s.f {
			if t, ok := f.v.(rStr); ok {
				out[string(t)] = true
			}
		}
	}
	return out, true
}

func (r *nameRun) current(doc *rCell) *rCell {
	fn := r.p.Method(r.doc, "currImportTable")
	if fn == nil {
		r.d.fail("the imports of a document are not found")
	}
	t, _ := r.call(fn, doc).(*rCell)
	if t == nil {
		r.d.fail("the imports of a document are not known")
	}
	return t
}

// document with the declarations of a case
func (r *nameRun) document(k nameCase) *rCell {
	doc := r.d.NewObject(r.doc)
	begin := func(ns string) {
		if ns == "-" {
			return
		}
		ch := []*rCell{r.tok("Namespace", "namespace")}
		if ns != "" {
			ch = append(ch, r.node("NamespaceName", ns, r.tok("Name", ns)), r.tok("Semicolon", ";"))
		} else {
			ch = append(ch, r.tok("OpenBrace", "{"), r.node("StatementList", ""), r.tok("CloseBrace", "}"))
		}
		r.forNode(r.nspace, doc, r.node("NamespaceDefinition", "", ch...))
	}
	push := r.p.Method(r.doc, "pushImportTable")
	if push == nil {
		r.d.fail("what begins the imports of a namespace is not found")
	}
	r.call(push, doc, r.node("StatementList", ""))
	if len(k.before) > 0 {
		begin(atomStr(20))
		for _, u := range k.before {
			r.forNode(r.use, doc, r.useNode(u))
		}
	}
	begin(k.ns)
	for _, u := range k.uses {
		r.forNode(r.use, doc, r.useNode(u))
	}
	return doc
}

func (n *names) explore(what string, fn *ssa.Function, f func(r *nameRun) []string) bool {
	c := n.c
	r := &nameRun{names: n, d: newDom(n.p)}
	r.d.MaxPaths, r.d.MaxSteps = 500, 60000
	r.d.Hook = r.hook
	bad := map[string]bool{}
	why := r.d.Explore(func() rv {
		r.text, r.at = map[*rCell]string{}, nil
		for _, b := range f(r) {
			bad[b] = true
		}
		return rNil{}
	}, func(res DomResult) {
		if res.Panics != "" {
			bad["it panics: "+res.Panics] = true
		}
	})
	for f := range r.d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", r.d.Steps)
	if why != "" {
		c.Undecided("%s: %s", what, why)
		return false
	}
	var all []string
	for b := range bad {
		all = append(all, b)
	}
	sort.Strings(all)
	for _, b := range all {
		c.Report(shortFn(fn)+":"+firstWords(b), n.p.Pos(fn.Pos()), what+": "+b, nil)
	}
	return len(bad) == 0
}

func firstWords(s string) string {
	if i := strings.Index(s, ":"); i > 0 {
		return s[:i]
	}
	return s
}

func (n *names) check(k nameCase) bool {
	fn := n.resolver[k.kind]
	return n.explore(k.String(), fn, func(r *nameRun) (bad []string) {
		r.exists = k.exists
		doc := r.document(k)
		table := r.current(doc)
		fqns, used := k.possible()
		want := fqns[:1]
		if len(fqns) > 1 {
			found := ""
			for _, f := range fqns {
				for e, y := range k.exists {
					if y && found == "" && strings.HasSuffix(e, " "+f) {
						found = f
					}
				}
			}
			want = fqns
			if found != "" {
				want = []string{found}
			}
		}
		q := r.d.NewObject(r.query)
		args := []rv{table}
		for _, p := range fn.Params[1:] {
			switch derefNamed(p.Type()) {
			case r.query:
				args = append(args, q)
			case r.typeStr:
				args = append(args, r.d.cell(r.d.Run(r.newType, []rv{rStr(k.name)}, nil)))
			default:
				args = append(args, r.d.Unknown("other "+p.Name(), p.Type()))
			}
		}
		got, ok := r.call(fn, args...).(rStr)
		if !ok {
			return []string{"what the name refers to is not known"}
		}
		if !contains(want, string(got)) {
			bad = append(bad, fmt.Sprintf("the wrong name: it refers to %s, not %s", showStr(string(got)), showStr(strings.Join(want, " or "))))
		}
		if k.kind == "function" {
			if pf := r.p.Method(r.table, "FunctionPossibleFQNs"); pf != nil {
				vs, ok := r.d.Elems(r.call(pf, table, r.d.cell(r.d.Run(r.newType, []rv{rStr(k.name)}, nil))))
				if !ok {
					return append(bad, "the possible names of a function are not known")
				}
				var all []string
				for _, v := range vs {
					s, _ := v.(rStr)
					all = append(all, string(s))
				}
				for _, f := range fqns {
					if !contains(all, f) {
						bad = append(bad, "the references miss a name: "+showStr(f)+" is not among the possible names "+showStr(strings.Join(all, ", ")))
					}
				}
				for _, f := range all {
					if !contains(fqns, f) {
						bad = append(bad, "the references have a wrong name: "+showStr(f)+" is among the possible names")
					}
				}
			}
		}
		// what is marked as used
		if k.kind != "class" {
			mk := r.p.Func("analysis", map[string]string{"function": "newFunctionCall", "const": "newConstantAccess"}[k.kind])
			if mk == nil {
				return append(bad, "what reads a "+k.kind+" is not found")
			}
			node := r.nameNode(k.name)
			if k.kind == "function" {
				node = r.node("FunctionCallExpression", k.name+"()", node, r.tok("OpenParenthesis", "("), r.tok("CloseParenthesis", ")"))
			} else {
				node = r.node("ConstantAccessExpression", k.name, node)
			}
			r.forNode(mk, doc, node)
		}
		un, ok := r.unused(table)
		if !ok {
			return append(bad, "which imports are used is not known")
		}
		for _, u := range k.uses {
			for _, i := range u.imports() {
				over := false
				isUsed := used != nil && *used == i
				if un[i.target] == isUsed && !over {
					if isUsed {
						bad = append(bad, "not marked as used: "+i.kind+" "+showStr(i.target))
					} else {
						bad = append(bad, "marked as used: "+i.kind+" "+showStr(i.target))
					}
				}
			}
		}
		return bad
	})
}

func contains(all []string, s string) bool {
	for _, a := range all {
		if a == s {
			return true
		}
	}
	return false
}

// cases of names
func (n *names) cases() []nameCase {
	a, b, e := atomStr(0), atomStr(1), atomStr(2)
	u, v, w, x, y, z := atomStr(3), atomStr(4), atomStr(5), atomStr(6), atomStr(7), atomStr(8)
	one := func(kind, name, alias string) useDecl {
		return useDecl{kind: kind, items: []useItem{{name, alias, ""}}}
	}
	other := []useDecl{one("", u+"\\"+z, ""), one("function", v+"\\"+z, ""), one("const", w+"\\"+z, "")}
	var out []nameCase
	nss := []string{"-", "", b, e + "\\" + b}
	var sets [][]useDecl
	for m := 0; m < 8; m++ {
		var us []useDecl
		if m&1 != 0 {
			us = append(us, one("", u+"\\"+a, ""))
		}
		if m&2 != 0 {
			us = append(us, one("function", v+"\\"+x, a))
		}
		if m&4 != 0 {
			us = append(us, useDecl{kind: "const", group: w, items: []useItem{{x, a, ""}, {y, "", ""}}})
		}
		sets = append(sets, append(us, other...))
	}
	shapes := []string{a, a + "\\" + b, a + "\\" + b + "\\" + e, "\\" + a, "\\" + a + "\\" + b}
	for _, kind := range []string{"class", "function", "const"} {
		for _, ns := range nss {
			for _, us := range sets {
				for _, name := range shapes {
					k := nameCase{ns: ns, uses: us, name: name, kind: kind, exists: map[string]bool{}}
					if kind == "class" {
						out = append(out, k)
						continue
					}
					g, h := "\\"+strings.TrimPrefix(name, "\\"), "\\"+strings.TrimPrefix(name, "\\")
					if ns != "-" && ns != "" {
						h = "\\" + ns + h
					}
					stores := [][2]string{{"function ", "function "}}
					if kind == "const" {
						stores = [][2]string{{"const ", "const "}, {"define ", "const "}, {"const ", "define "}, {"define ", "define "}}
					}
					for _, s := range stores {
						for m := 0; m < 4; m++ {
							ex := map[string]bool{}
							if m&1 != 0 {
								ex[s[0]+g] = true
							}
							if m&2 != 0 {
								ex[s[1]+h] = true
							}
							k.exists = ex
							out = append(out, k)
						}
					}
				}
			}
		}
	}
	// what is imported in an earlier namespace
	for _, kind := range []string{"class", "function", "const"} {
		for _, ns := range []string{b, ""} {
			for _, name := range []string{a, a + "\\" + b} {
				out = append(out, nameCase{before: sets[7], ns: ns, name: name, kind: kind, exists: map[string]bool{}})
				out = append(out, nameCase{before: sets[7], ns: ns, uses: other, name: name, kind: kind, exists: map[string]bool{}})
			}
		}
	}
	// the shapes of use declarations
	for _, kind := range []string{"class", "function", "const"} {
		word := kind
		if kind == "class" {
			word = ""
		}
		decls := []useDecl{
			one(word, a, ""), one(word, u+"\\"+a, ""), one(word, u+"\\"+v+"\\"+a, ""), one(word, x, a), one(word, u+"\\"+x, a), one(word, u+"\\"+v+"\\"+x, a),
			{kind: word, items: []useItem{{u + "\\" + a, "", ""}, {v + "\\" + y, "", ""}}},
			{kind: word, items: []useItem{{v + "\\" + y, "", ""}, {u + "\\" + a, "", ""}}},
			{kind: word, items: []useItem{{v + "\\" + y, z, ""}, {u + "\\" + a, "", ""}}},
			{kind: word, items: []useItem{{v + "\\" + y, "", ""}, {u + "\\" + x, a, ""}, {v + "\\" + z, "", ""}}},
			{kind: word, items: []useItem{{u + "\\" + x, a, ""}, {v + "\\" + x, y, ""}}},
			{kind: word, group: u, items: []useItem{{a, "", ""}}},
			{kind: word, group: u + "\\" + v, items: []useItem{{y, "", ""}, {a, "", ""}}},
			{kind: word, group: u, items: []useItem{{y, z, ""}, {v + "\\" + a, "", ""}}},
			{kind: word, group: u, items: []useItem{{y, "", ""}, {x, a, ""}}},
			{kind: word, group: u, items: []useItem{{v + "\\" + x, a, ""}, {y, "", ""}}},
		}
		for _, o := range []string{"", "function", "const"} {
			if o == word {
				continue
			}
			decls = append(decls,
				useDecl{group: u, items: []useItem{{y, "", o}, {a, "", word}}},
				useDecl{group: u, items: []useItem{{a, "", word}, {y, "", o}}},
				useDecl{group: u, items: []useItem{{y, z, o}, {x, a, word}}},
				useDecl{group: u, items: []useItem{{x, a, word}, {y, z, o}}},
				useDecl{group: u, items: []useItem{{y, a, o}, {x, a, word}}},
				useDecl{group: u, items: []useItem{{x, a, word}, {y, a, o}}})
		}
		for _, dcl := range decls {
			for _, ns := range []string{"-", b} {
				out = append(out, nameCase{ns: ns, uses: []useDecl{dcl}, name: a, kind: kind, exists: map[string]bool{}})
				out = append(out, nameCase{ns: ns, uses: []useDecl{one("", w+"\\"+e, ""), dcl, one("function", w+"\\"+e, b)}, name: a, kind: kind, exists: map[string]bool{}})
				if kind == "class" {
					for _, k2 := range []string{"class", "function", "const"} {
						out = append(out, nameCase{ns: ns, uses: []useDecl{dcl}, name: a + "\\" + b, kind: k2, exists: map[string]bool{}})
					}
				}
			}
		}
	}
	return out
}

// positions checks that the imports are those of the place.
func (n *names) positions() {
	fn := n.p.Method(n.doc, "ImportTableAtPos")
	push := n.p.Method(n.doc, "pushImportTable")
	if fn == nil || push == nil {
		n.c.Undecided("the imports at a position are not found")
		return
	}
	type pos = [2]int64
	starts := []pos{{1, 4}, {3, 0}, {3, 40}, {7, 2}}
	asked := []pos{{0, 0}, {1, 3}, {1, 5}, {1, 90}, {2, 0}, {2, 50}, {3, 1}, {3, 39}, {3, 41}, {5, 0}, {5, 99}, {7, 1}, {7, 3}, {8, 0}, {99, 0}}
	var posT types.Type
	for _, q := range fn.Params[1:] {
		posT = q.Type()
	}
	for count := 1; count <= len(starts); count++ {
		for _, at := range asked {
			want := 0
			for i := 0; i < count; i++ {
				if s := starts[i]; s[0] < at[0] || s[0] == at[0] && s[1] < at[1] {
					want = i
				}
			}
			what := fmt.Sprintf("position %d:%d of a document with namespaces from %v", at[0], at[1], starts[:count])
			n.c.Seen("position", what)
			n.explore(what, fn, func(r *nameRun) []string {
				mk := func(p pos) rv {
					c := r.d.NewObject(posT)
					r.d.Field(c, "Line").v, r.d.Field(c, "Character").v = intOf(p[0]), intOf(p[1])
					return c.v
				}
				doc := r.d.NewObject(r.doc)
				var tables []*rCell
				for i := 0; i < count; i++ {
					i := i
					r.at = func() rv { return mk(starts[i]) }
					r.call(push, doc, r.node("NamespaceDefinition", ""))
					tables = append(tables, r.current(doc))
				}
				r.at = nil
				got, _ := r.d.Run(fn, []rv{doc, mk(at)}, nil).(*rCell)
				if got != tables[want] {
					return []string{"the imports of another namespace are used"}
				}
				return nil
			})
		}
	}
}

// typeNodes checks what what is made of the name of a class in the syntax tree
// refers to: a type that is declared, what is created or accessed.
func (n *names) typeNodes() {
	reads := map[string]string{"TypeDeclaration": "newTypeDeclaration", "ClassAccess": "newClassAccess", "InterfaceAccess": "newInterfaceAccess", "TraitAccess": "newTraitAccess"}
	for _, kind := range sortedKeys(reads) {
		fn := n.p.Func("analysis", reads[kind])
		if fn == nil {
			n.c.Undecided("what reads a %s is not found", kind)
			continue
		}
		forms := []string{"", "?", "? "}
		if kind != "TypeDeclaration" {
			forms = forms[:1]
		}
		for _, form := range forms {
			for _, k := range n.cases() {
				if k.kind != "class" {
					break
				}
				k := k
				fqns, _ := k.possible()
				n.typeNode(fn, kind, form, k, fqns[0], "")
			}
			for _, where := range []string{"Class", "Interface", "Trait"} {
				for _, name := range []string{"self", "parent"} {
					want := `\` + where
					if name == "parent" {
						want += "Parent"
					}
					if name == "parent" && where != "Class" || strings.HasPrefix(kind, "Interface") || strings.HasPrefix(kind, "Trait") {
						continue
					}
					n.typeNode(fn, kind, form, nameCase{ns: "", name: name, kind: "class"}, want, where)
				}
			}
		}
	}
}

func (n *names) typeNode(fn *ssa.Function, kind, form string, k nameCase, want, where string) {
	what := "the " + kind + " " + form + k.String()
	if where != "" {
		what += " in a " + where
	}
	n.c.Seen("node with the name of a class", what)
	n.explore(what, fn, func(r *nameRun) []string {
		doc := r.document(k)
		if where != "" {
			t := n.p.Named("analysis", where)
			push := n.p.Method(n.doc, "pushBlock")
			if t == nil || push == nil {
				r.d.fail("what begins a %s is not found", where)
			}
			o := r.d.NewObject(t)
			r.d.Field(o, "Name").v = r.d.Run(r.newType, []rv{rStr(`\` + where)}, nil)
			if f := r.d.Field(o, "Extends"); f != nil && where == "Class" {
				f.v = r.d.Run(r.newType, []rv{rStr(`\` + where + "Parent")}, nil)
			}
			r.d.Run(push, []rv{doc, rIface{types.NewPointer(t), o}}, nil)
		}
		node := r.nameNode(k.name)
		if kind == "TypeDeclaration" {
			var ch []*rCell
			if form != "" {
				ch = append(ch, r.tok("Question", "?"))
			}
			node = r.node("TypeDeclaration", form+k.name, append(ch, node)...)
		}
		made, ok := r.forNode(fn, doc, node).(*rCell)
		if !ok {
			return []string{"what is read is not known"}
		}
		got := r.fqns(made)
		if len(got) != 1 || got[0] != want {
			return []string{fmt.Sprintf("the wrong type: it is %s, not %s", showStr(strings.Join(got, "|")), showStr(want))}
		}
		return nil
	})
}

// fqns are the types of what was read.
func (r *nameRun) fqns(o *rCell) []string {
	f := r.d.embedded(o, "Type")
	if f == nil {
		r.d.fail("the types of what was read are not found")
	}
	st, ok := f.v.(*rStruct)
	if !ok {
		r.d.fail("the types of what was read are not known")
	}
	var out []string
	for _, f := range st.f {
		if _, ok := f.v.(rSlice); !ok {
			continue
		}
		all, _ := r.d.Elems(f.v)
		for _, t := range all {
			s, ok := member(r.d, t, "fqn").(rStr)
			if !ok {
				r.d.fail("a type of what was read is not known")
			}
			out = append(out, string(s))
		}
	}
	return out
}

func rulesNames(c *Ctx) {
	p := c.P
	c.Rule("a name of each shape, in each namespace, after each kind of use declaration, and with each combination of existing declarations is resolved to what PHP resolves it to, is referred to by exactly the names it may have, and marks exactly the import it goes through (abstract interpretation over symbolic names)")
	c.Rule("what is read of the name of a class in a type, also a nullable one, or an access has the type that the name is resolved to; of self and parent the class around it and its parent")
	c.Rule("the imports that are used at a position are those of its namespace; what runs after the whole file has been read does not resolve a name with the imports of the last namespace")
	c.Rule("a name that is kept or looked up has been resolved before on every path; the name of a reference not merely put into the current namespace (interprocedural dataflow)")
	n := &names{c: c, p: p, resolver: map[string]*ssa.Function{}}
	n.doc, n.table, n.query, n.typeStr = p.Named("analysis", "Document"), p.Named("analysis", "ImportTable"), p.Named("analysis", "Query"), p.Named("analysis", "TypeString")
	n.newType = p.Func("analysis", "NewTypeString")
	n.use = p.Func("analysis", "processNamespaceUseDeclaration")
	n.nspace = p.Func("analysis", "newNamespace")
	if n.doc == nil || n.table == nil || n.query == nil || n.typeStr == nil || n.newType == nil || n.use == nil || n.nspace == nil {
		c.Undecided("the imports of a document, or what reads them, are not found")
		return
	}
	for _, q := range n.use.Params {
		if t := derefNamed(q.Type()); t != nil && t.Obj().Name() == "Phrase" {
			n.phrase = t
		}
	}
	for _, pkg := range p.Prog.AllPackages() {
		if strings.HasSuffix(pkg.Pkg.Path(), "go-phpparser/lexer") {
			if o := pkg.Pkg.Scope().Lookup("Token"); o != nil {
				n.token, _ = o.Type().(*types.Named)
			}
		}
	}
	for kind, name := range map[string]string{"class": "GetClassReferenceFQN", "function": "GetFunctionReferenceFQN", "const": "GetConstReferenceFQN"} {
		if n.resolver[kind] = p.Method(n.table, name); n.resolver[kind] == nil {
			c.Undecided("what resolves the name of a %s is not found", kind)
			return
		}
	}
	if n.phrase == nil || n.token == nil {
		c.Undecided("the syntax tree is not found")
		return
	}
	n.touches = p.ReachSet(func(in ssa.Instruction) bool {
		f, ok := in.(*ssa.FieldAddr)
		if !ok || derefNamed(f.X.Type()) != n.doc {
			return false
		}
		sl, ok := derefType(f.Type()).Underlying().(*types.Slice)
		return ok && derefNamed(sl.Elem()) == n.table
	})
	for _, k := range n.cases() {
		c.Seen("name", k.String())
		n.check(k)
	}
	n.typeNodes()
	n.positions()
	n.places()
	n.raw()
	c.AtLeast("name", 1000)
	c.AtLeast("position", 40)
	c.AtLeast("node with the name of a class", 400)
}

// places checks that a name is resolved with the imports of its own place,
// once the whole file has been read.
func (n *names) places() {
	p, c := n.p, n.c
	resolvers := map[*ssa.Function]bool{}
	for _, fn := range p.Methods(n.table) {
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if derefNamed(sig.Params().At(i).Type()) == n.typeStr && sig.Results().Len() > 0 {
				resolvers[fn] = true
			}
		}
	}
	late := func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if inLsp(f) {
				return true
			}
			for _, q := range f.Params {
				if t := derefNamed(q.Type()); t != nil && (t == n.query || t.Obj().Name() == "ResolveContext") {
					return true
				}
			}
		}
		return false
	}
	var origin func(v ssa.Value, seen map[ssa.Value]bool) (current ssa.CallInstruction)
	origin = func(v ssa.Value, seen map[ssa.Value]bool) ssa.CallInstruction {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if a, ok := v.X.(*ssa.Alloc); ok {
					for _, ref := range *a.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
							if ci := origin(st.Val, seen); ci != nil {
								return ci
							}
						}
					}
					return nil
				}
				return origin(v.X, seen)
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if ci := origin(e, seen); ci != nil {
					return ci
				}
			}
		case *ssa.Parameter:
			fn := v.Parent()
			for i, q := range fn.Params {
				if q != v {
					continue
				}
				for _, caller := range p.Repo {
					var found ssa.CallInstruction
					eachCall(caller, func(ci ssa.CallInstruction) {
						if ci.Common().StaticCallee() == fn && i < len(ci.Common().Args) && found == nil {
							found = origin(ci.Common().Args[i], seen)
						}
					})
					if found != nil {
						return found
					}
				}
			}
		case *ssa.Call:
			callee := v.Call.StaticCallee()
			if callee == nil || callee.Signature.Recv() == nil || derefNamed(callee.Signature.Recv().Type()) != n.doc {
				return nil
			}
			for i := 0; i < callee.Signature.Params().Len(); i++ {
				if t := derefNamed(callee.Signature.Params().At(i).Type()); t != nil && (t.Obj().Name() == "Position" || t.Obj().Name() == "Range" || t.Obj().Name() == "Location") {
					return nil
				}
			}
			if callee.Signature.Params().Len() == 0 {
				return v
			}
		}
		return nil
	}
	for _, fn := range p.Repo {
		if !late(fn) || derefRecv(fn) == n.table {
			continue
		}
		eachCall(fn, func(ci ssa.CallInstruction) {
			callee := ci.Common().StaticCallee()
			if callee == nil || !resolvers[callee] || len(ci.Common().Args) == 0 {
				return
			}
			c.Fn(fn)
			c.Seen("name resolved at a place", shortFn(fn)+" "+p.InstrPos(ci))
			for _, a := range ci.Common().Args[1:] {
				if s, ok := fixedName(a, n); ok && strings.HasPrefix(s, "\\") {
					return
				}
			}
			if cur := origin(ci.Common().Args[0], map[ssa.Value]bool{}); cur != nil {
				c.Report("place/"+shortFn(fn), p.InstrPos(ci), "a name is resolved with the imports of the last namespace of the file, not with those of its own place", []string{
					"the imports are from " + p.InstrPos(cur), "they are used at " + p.InstrPos(ci)})
			}
		})
	}
	c.AtLeast("name resolved at a place", 5)
}

// fixedName is the name that a value is made from, when it is written in the code.
func fixedName(v ssa.Value, n *names) (string, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			return "", false
		}
		var val ssa.Value
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
				if val != nil {
					return "", false
				}
				val = st.Val
			}
		}
		v = val
	}
	if ci, ok := v.(*ssa.Call); ok && ci.Call.StaticCallee() == n.newType && len(ci.Call.Args) == 1 {
		if k, ok := ci.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	}
	return "", false
}

// tags say where a name, which is not resolved yet, comes from: "raw" or a parameter.
type tags map[string]bool

func (t tags) plus(o tags) tags {
	if len(o) == 0 {
		return t
	}
	out := tags{}
	for k := range t {
		out[k] = true
	}
	for k := range o {
		out[k] = true
	}
	return out
}

// rawFn is what is known about a function that handles names.
type rawFn struct {
	returns tags
	sinks   map[int]string  // parameters that are kept as they are, and where
	leaves  map[string]tags // fields that are left with a name that is not resolved
}

// raw checks that the names that are kept have been resolved.
func (n *names) raw() {
	p, c := n.p, n.c
	sum := map[*ssa.Function]*rawFn{}
	isName := func(t types.Type) bool {
		_, isPtr := t.Underlying().(*types.Pointer)
		return !isPtr && derefNamed(t) == n.typeStr
	}
	var fns []*ssa.Function
	for _, fn := range p.Repo {
		if derefRecv(fn) == n.typeStr || derefRecv(fn) == n.table || fn == n.newType || fn.Blocks == nil {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && derefNamed(derefType(v.Type())) == n.typeStr {
					uses = true
				}
			}
		}
		for _, q := range fn.Params {
			uses = uses || derefNamed(q.Type()) == n.typeStr
		}
		callsSome := false
		eachCall(fn, func(ci ssa.CallInstruction) { callsSome = callsSome || ci.Common().StaticCallee() != nil })
		if uses || callsSome {
			fns = append(fns, fn)
			sum[fn] = &rawFn{sinks: map[int]string{}, leaves: map[string]tags{}}
		}
	}
	reports := map[string]func(){}
	fieldKey := func(a *ssa.FieldAddr) string {
		t := derefNamed(a.X.Type())
		if t == nil {
			return ""
		}
		return typeName(t) + "." + nameOfField(a)
	}
	changed := true
	analyse := func(fn *ssa.Function) {
		s := sum[fn]
		vals := map[ssa.Value]tags{}
		in := map[*ssa.BasicBlock]map[string]tags{}
		id := map[ssa.Value]string{}
		key := func(addr ssa.Value) string {
			switch a := addr.(type) {
			case *ssa.Alloc:
				if id[a] == "" {
					id[a] = fmt.Sprintf("local %d", len(id))
				}
				return id[a]
			case *ssa.FieldAddr:
				return fieldKey(a)
			}
			return ""
		}
		for i, q := range fn.Params {
			if isName(q.Type()) {
				vals[q] = tags{fmt.Sprint(i): true}
			}
		}
		sink := func(at ssa.Instruction, t tags, how string) {
			for k := range t {
				if k == "raw" || k == "reference" {
					at := at
					reports["raw/"+shortFn(fn)+"/"+how] = func() {
						c.Report("raw/"+shortFn(fn)+"/"+how, p.InstrPos(at), "a name is "+how+" as it is written, without the namespace and the imports of its place", nil)
					}
				} else {
					var i int
					fmt.Sscan(k, &i)
					if s.sinks[i] == "" {
						s.sinks[i] = how
						changed = true
					}
				}
			}
		}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		in[fn.Blocks[0]] = map[string]tags{}
		for steps := 0; len(work) > 0 && steps < 5000; steps++ {
			b := work[0]
			work = work[1:]
			st := map[string]tags{}
			for k, v := range in[b] {
				st[k] = v
			}
			for _, instr := range b.Instrs {
				switch i := instr.(type) {
				case *ssa.UnOp:
					if i.Op == token.MUL && isName(i.Type()) {
						vals[i] = st[key(i.X)]
					}
				case *ssa.Phi:
					if isName(i.Type()) {
						t := tags{}
						for _, e := range i.Edges {
							t = t.plus(vals[e])
						}
						vals[i] = t
					}
				case *ssa.Extract:
					if isName(i.Type()) {
						vals[i] = vals[i.Tuple]
					}
				case *ssa.Store:
					if !isName(i.Val.Type()) {
						break
					}
					switch a := i.Addr.(type) {
					case *ssa.Alloc, *ssa.FieldAddr:
						st[key(i.Addr)] = vals[i.Val]
					case *ssa.IndexAddr:
						if al, ok := a.X.(*ssa.Alloc); ok && al != nil && feedsOnly(al, func(ci ssa.CallInstruction) bool {
							_, isB := ci.Common().Value.(*ssa.Builtin)
							return !isB
						}) {
							break
						}
						sink(i, vals[i.Val], "kept")
					}
				case *ssa.Return:
					for _, v := range i.Results {
						if isName(v.Type()) {
							t := vals[v]
							if u := s.returns.plus(t); len(u) != len(s.returns) {
								s.returns = u
								changed = true
							}
						}
					}
					for k, t := range st {
						if strings.HasPrefix(k, "local ") || len(t) == 0 {
							continue
						}
						if u := s.leaves[k].plus(t); len(u) != len(s.leaves[k]) {
							s.leaves[k] = u
							changed = true
						}
					}
				case ssa.CallInstruction:
					com := i.Common()
					callee := com.StaticCallee()
					v, _ := instr.(ssa.Value)
					if callee == nil {
						break
					}
					switch {
					case callee == n.newType:
						if _, fixed := com.Args[0].(*ssa.Const); !fixed && v != nil && !n.resolvedText(com.Args[0], 0) {
							vals[v] = tags{"raw": true}
						}
					case derefRecv(callee) == n.typeStr:
						if _, ptr := callee.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
							// what changes the name resolves it
							if len(com.Args) > 1 && !n.rawText(com.Args[1], vals) {
								was := st[key(com.Args[0])]
								st[key(com.Args[0])] = nil
								if callee.Name() == "SetNamespace" && was["reference"] {
									// only what is declared is in the namespace for sure
									st[key(com.Args[0])] = tags{"reference": true}
								}
							}
						} else if v != nil && isName(v.Type()) || v != nil && isTupleWith(v.Type(), isName) {
							vals[v] = vals[com.Args[0]]
						}
					case sum[callee] != nil:
						cs := sum[callee]
						inst := func(t tags) tags {
							out := tags{}
							for k := range t {
								if k == "raw" || k == "reference" {
									out[k] = true
									continue
								}
								var j int
								fmt.Sscan(k, &j)
								if j < len(com.Args) {
									out = out.plus(vals[com.Args[j]])
								}
							}
							return out
						}
						for j, how := range cs.sinks {
							if j < len(com.Args) {
								sink(instr, vals[com.Args[j]], how)
							}
						}
						for k, t := range cs.leaves {
							if u := inst(t); len(u) > 0 {
								st[k] = u
							}
						}
						if v != nil && (isName(v.Type()) || isTupleWith(v.Type(), isName)) {
							vals[v] = inst(cs.returns)
							if callee.Name() == "transformQualifiedName" {
								vals[v] = vals[v].plus(tags{"reference": true})
							}
						}
					}
					// what is looked up
					if r := derefRecv(callee); r != nil && (r == n.query || r.Obj().Name() == "Store") && len(com.Args) == 2 && isStringType(com.Args[1].Type()) {
						switch callee.Name() {
						case "GetClasses", "GetInterfaces", "GetTraits", "GetFunctions", "GetConsts", "GetDefines":
							c.Seen("look-up of a declaration", shortFn(fn)+" "+callee.Name())
							if q, ok := com.Args[1].(*ssa.Call); ok && derefRecv(q.Call.StaticCallee()) == n.typeStr {
								sink(instr, vals[q.Call.Args[0]], "looked up")
							}
						}
					}
				}
			}
			for _, nb := range b.Succs {
				old, seen := in[nb]
				merged, grown := map[string]tags{}, !seen
				for k, v := range old {
					merged[k] = v
				}
				for k, v := range st {
					if u := merged[k].plus(v); len(u) != len(merged[k]) {
						merged[k] = u
						grown = true
					}
				}
				if grown {
					in[nb] = merged
					work = append(work, nb)
				}
			}
		}
	}
	for round := 0; changed && round < 20; round++ {
		changed = false
		reports = map[string]func(){}
		for _, fn := range fns {
			analyse(fn)
		}
	}
	// fields that are left unresolved by something that nobody goes on with
	called := map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			if f := ci.Common().StaticCallee(); f != nil && f != fn {
				called[f] = true
			}
		})
	}
	for _, fn := range fns {
		s := sum[fn]
		c.Fn(fn)
		if called[fn] {
			continue
		}
		for k, t := range s.leaves {
			if t["raw"] || t["reference"] {
				c.Report("field/"+shortFn(fn)+"/"+k, p.Pos(fn.Pos()), "the name in "+k+" is left as it is written, without the namespace and the imports of its place", nil)
			}
		}
	}
	var ks []string
	for k := range reports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		reports[k]()
	}
	c.AtLeast("look-up of a declaration", 10)
}

func isTupleWith(t types.Type, f func(types.Type) bool) bool {
	tu, ok := t.(*types.Tuple)
	if !ok {
		return false
	}
	for i := 0; i < tu.Len(); i++ {
		if f(tu.At(i).Type()) {
			return true
		}
	}
	return false
}

func derefRecv(fn *ssa.Function) *types.Named {
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	return derefNamed(fn.Signature.Recv().Type())
}

func nameOfField(a *ssa.FieldAddr) string {
	u, ok := derefType(a.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return u.Field(a.Field).Name()
}

// feedsOnly is whether the array behind variadic arguments goes to calls of that sort only.
func feedsOnly(a *ssa.Alloc, f func(ssa.CallInstruction) bool) bool {
	any := false
	for _, ref := range *a.Referrers() {
		sl, ok := ref.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *sl.Referrers() {
			ci, ok := u.(ssa.CallInstruction)
			if !ok || !f(ci) {
				return false
			}
			any = true
		}
	}
	return any
}

// resolvedText is text that is a resolved name already.
func (n *names) resolvedText(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			return false
		}
		if derefRecv(f) == n.typeStr && (f.Name() == "GetFQN" || f.Name() == "GetNamespace") {
			return true
		}
		return derefRecv(f) == n.table
	case *ssa.BinOp:
		return n.resolvedText(v.X, depth+1)
	}
	return false
}

// rawText is text of a name that is not resolved.
func (n *names) rawText(v ssa.Value, vals map[ssa.Value]tags) bool {
	ci, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := ci.Call.StaticCallee()
	if f == nil {
		return false
	}
	if derefRecv(f) == n.typeStr {
		return f.Name() == "GetOriginal" || f.Name() == "GetFQN" && vals[ci.Call.Args[0]]["raw"]
	}
	return derefRecv(f) == n.doc && isStringType(ci.Type())
}

func init() {
	register("C20", "Abstract interpretation of the imports and of the resolution of names, and dataflow of names that are not resolved.", nil, rulesNames)
}
