package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scopes is what C21 knows.
type scopes struct {
	c                *Ctx
	p                *Program
	doc              *types.Named
	phrase, token    *types.Named
	phrases, lexer   *types.Package
	scan, classAt    *ssa.Function
	tableAt, typesAt *ssa.Function
	symAt            *ssa.Function
	tableGet, begin  *ssa.Function
}

// scopeRun reads one text.
type scopeRun struct {
	*scopes
	d     *Dom
	text  strings.Builder
	toks  []scopeTok
	marks []scopeMark
	decls []scopeDecl
	stack []*scopeOwner
	n     int
	added []rv
	last  map[int]string    // the last variable of a function
	used  map[scopeUse]bool // which variables closures take from outside
	outer map[int]int       // what is around an arrow function
}

type scopeTok struct {
	cell   *rCell
	offset int
	text   string
}

type scopeUse struct {
	name string
	vars int
}

// scopeOwner is what a piece of the text belongs to.
type scopeOwner struct {
	class string // how its class is called, "" outside of classes
	vars  int    // which function its variables belong to
}

// scopeMark is a variable that is used somewhere.
type scopeMark struct {
	name   string
	offset int
	owner  scopeOwner
	this   bool
	param  bool
	vars   int // which function it is a variable of
}

// scopeDecl is a member and where it is declared.
type scopeDecl struct {
	kind, name string
	offset     int
	class      string
}

func (r *scopeRun) konst(pkg *types.Package, name string) rv {
	k, ok := pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		r.d.fail("the syntax tree has no %s", name)
	}
	v, _ := constant.Int64Val(constant.ToInt(k.Val()))
	return intOf(v)
}

func (r *scopeRun) tok(typ, text string) rv {
	at := r.text.Len()
	r.text.WriteString(text)
	switch text {
	case ";", "{", "}":
		r.text.WriteString("\n")
	default:
		r.text.WriteString(" ")
	}
	t := r.d.NewObject(r.token)
	r.d.Field(t, "Type").v = r.konst(r.lexer, typ)
	r.d.Field(t, "Offset").v = intOf(int64(at))
	r.d.Field(t, "Length").v = intOf(int64(len(text)))
	return rIface{types.NewPointer(r.token), t}
}

func (r *scopeRun) node(typ string, ch ...rv) rv {
	n := r.d.NewObject(r.phrase)
	r.d.Field(n, "Type").v = r.konst(r.phrases, typ)
	r.d.Field(n, "Children").v = r.d.Slice(ch...)
	return rIface{types.NewPointer(r.phrase), n}
}

func (r *scopeRun) owner() *scopeOwner { return r.stack[len(r.stack)-1] }

func (r *scopeRun) within(o scopeOwner, f func() rv) rv {
	r.stack = append(r.stack, &o)
	defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	return f()
}

func (r *scopeRun) fresh(prefix string) string {
	r.n++
	return fmt.Sprintf("%s%d", prefix, r.n)
}

// variable is a statement that uses a variable of its own.
func (r *scopeRun) variable() rv {
	name := r.fresh("$v")
	r.marks = append(r.marks, scopeMark{name, r.text.Len(), *r.owner(), false, false, r.home()})
	r.last[r.home()] = name
	return r.node("SimpleVariable", r.tok("VariableName", name))
}

// home is the function that a variable belongs to which is used here: what is not
// a parameter of an arrow function is of what is around it.
func (r *scopeRun) home() int {
	v := r.owner().vars
	for {
		o, ok := r.outer[v]
		if !ok {
			return v
		}
		v = o
	}
}

// sees tells whether a variable is found from where another one is.
func (r *scopeRun) sees(m, o scopeMark) bool {
	for v, ok := m.owner.vars, true; ok; v, ok = r.outer[v] {
		if o.vars == v || r.used[scopeUse{o.name, v}] {
			return true
		}
	}
	return false
}

// statement is an expression as a statement.
func (r *scopeRun) statement(v rv) rv {
	return r.node("ExpressionStatement", v, r.tok("Semicolon", ";"))
}

func (r *scopeRun) this() rv {
	r.marks = append(r.marks, scopeMark{"$this", r.text.Len(), *r.owner(), true, false, 0})
	return r.node("SimpleVariable", r.tok("VariableName", "$this"))
}

func (r *scopeRun) params() []rv {
	name := r.fresh("$v")
	r.marks = append(r.marks, scopeMark{name, r.text.Len() + 2, *r.owner(), false, true, r.owner().vars})
	// the parameter belongs to what it is declared for
	return []rv{r.tok("OpenParenthesis", "("), r.node("ParameterDeclarationList", r.node("ParameterDeclaration", r.tok("VariableName", name))), r.tok("CloseParenthesis", ")")}
}

// code is what a function contains: variables and, between them, what is nested.
func (r *scopeRun) code(path []string) []rv {
	ch := []rv{r.statement(r.variable()), r.statement(r.this())}
	if len(path) > 0 {
		ch = append(ch, r.nested(path)...)
		ch = append(ch, r.statement(r.variable()), r.statement(r.this()))
	}
	return ch
}

// arrow is an arrow function: its parameters are its own, the other variables are
// those around it.
func (r *scopeRun) arrow(path []string) rv {
	o := scopeOwner{r.owner().class, r.vars()}
	r.outer[o.vars] = r.owner().vars
	return r.within(o, func() rv {
		head := r.node("ArrowFunctionHeader", append([]rv{r.tok("Fn", "fn")}, r.params()...)...)
		to := r.tok("FatArrow", "=>")
		open := r.tok("OpenBracket", "[")
		var ch []rv
		add := func(v rv) {
			ch = append(ch, r.node("ArrayElement", r.node("ArrayValue", v)), r.tok("Comma", ","))
		}
		add(r.variable())
		add(r.this())
		if len(path) > 0 {
			add(r.expression(path))
			add(r.variable())
			add(r.this())
		}
		list := r.node("ArrayInitialiserList", ch...)
		return r.node("ArrowFunctionCreationExpression", head, to, r.node("ArrayCreationExpression", open, list, r.tok("CloseBracket", "]")))
	})
}

// nested is a statement that contains the first of the path.
func (r *scopeRun) nested(path []string) []rv {
	switch path[0] {
	case "class", "interface", "trait", "function":
		return []rv{r.declaration(path)}
	}
	return []rv{r.statement(r.expression(path))}
}

// expression is an expression that contains the first of the path.
func (r *scopeRun) expression(path []string) rv {
	switch path[0] {
	case "closure":
		return r.closure(path[1:])
	case "arrow function":
		return r.arrow(path[1:])
	case "assigned closure", "assigned arrow function":
		// what is assigned within an arrow function is its own
		name, in := r.fresh("$v"), r.owner().vars
		r.marks = append(r.marks, scopeMark{name, r.text.Len(), *r.owner(), false, false, in})
		if in == r.home() {
			r.last[in] = name
		}
		v := r.node("SimpleVariable", r.tok("VariableName", name))
		eq := r.tok("Equals", "=")
		return r.node("SimpleAssignmentExpression", v, eq, r.expression(append([]string{strings.TrimPrefix(path[0], "assigned ")}, path[1:]...)))
	case "argument":
		f := r.node("QualifiedName", r.node("NamespaceName", r.tok("Name", "f")))
		open := r.tok("OpenParenthesis", "(")
		in := r.closure(path[1:])
		return r.node("FunctionCallExpression", f, r.node("ArgumentExpressionList", open, in, r.tok("CloseParenthesis", ")")))
	case "anonymous class":
		nw := r.tok("New", "new")
		return r.node("ObjectCreationExpression", nw, r.anonymous(path[1:]))
	}
	r.d.fail("unknown scope %s", path[0])
	return nil
}

func (r *scopeRun) closure(path []string) rv {
	o := scopeOwner{r.owner().class, r.vars()}
	outer := r.last[r.home()]
	return r.within(o, func() rv {
		ch := append([]rv{r.tok("Function", "function")}, r.params()...)
		if outer != "" {
			r.used[scopeUse{outer, o.vars}] = true
			use, open := r.tok("Use", "use"), r.tok("OpenParenthesis", "(")
			list := r.node("ClosureUseList", r.node("AnonymousFunctionUseVariable", r.tok("VariableName", outer)))
			ch = append(ch, r.node("AnonymousFunctionUseClause", use, open, list, r.tok("CloseParenthesis", ")")))
		}
		head := r.node("AnonymousFunctionHeader", ch...)
		open := r.tok("OpenBrace", "{")
		list := r.node("StatementList", r.code(path)...)
		return r.node("AnonymousFunctionCreationExpression", head, r.node("FunctionDeclarationBody", open, list, r.tok("CloseBrace", "}")))
	})
}

func (r *scopeRun) vars() int { r.n++; return r.n }

func (r *scopeRun) anonymous(path []string) rv {
	o := scopeOwner{fmt.Sprintf("anonymous at %d", r.text.Len()), -1}
	return r.within(o, func() rv {
		head := r.node("AnonymousClassDeclarationHeader", r.tok("Class", "class"))
		return r.node("AnonymousClassDeclaration", head, r.classBody("ClassDeclarationBody", "ClassMemberDeclarationList", path))
	})
}

func (r *scopeRun) classBody(typ, list string, path []string) rv {
	open := r.tok("OpenBrace", "{")
	var ch []rv
	ch = append(ch, r.members(typ)...)
	if len(path) > 0 {
		ch = append(ch, r.method(path[1:], true))
		ch = append(ch, r.members(typ)...)
	}
	return r.node(typ, open, r.node(list, ch...), r.tok("CloseBrace", "}"))
}

func (r *scopeRun) decl(kind, name string) {
	r.decls = append(r.decls, scopeDecl{kind, name, r.text.Len(), r.owner().class})
}

// members are one of each kind.
func (r *scopeRun) members(body string) []rv {
	var ch []rv
	if body != "InterfaceDeclarationBody" {
		mod := r.node("MemberModifierList", r.tok("Private", "private"))
		name := r.fresh("$p")
		r.decl("Property", name)
		el := r.node("PropertyElement", r.tok("VariableName", name))
		ch = append(ch, r.node("PropertyDeclaration", mod, r.node("PropertyElementList", el), r.tok("Semicolon", ";")))
	}
	kw := r.tok("Const", "const")
	name := r.fresh("K")
	r.decl("ClassConst", name)
	id := r.node("Identifier", r.tok("Name", name))
	el := r.node("ClassConstElement", id, r.tok("Equals", "="), r.tok("IntegerLiteral", "1"))
	ch = append(ch, r.node("ClassConstDeclaration", kw, r.node("ClassConstElementList", el), r.tok("Semicolon", ";")))
	ch = append(ch, r.method(nil, false))
	return ch
}

func (r *scopeRun) method(path []string, body bool) rv {
	o := scopeOwner{r.owner().class, r.vars()}
	kw := r.tok("Function", "function")
	name := r.fresh("m")
	r.decl("Method", name)
	return r.within(o, func() rv {
		head := []rv{kw, r.node("Identifier", r.tok("Name", name))}
		head = append(head, r.params()...)
		h := r.node("MethodDeclarationHeader", head...)
		if !body {
			return r.node("MethodDeclaration", h, r.node("MethodDeclarationBody", r.tok("Semicolon", ";")))
		}
		open := r.tok("OpenBrace", "{")
		list := r.node("StatementList", r.code(path)...)
		return r.node("MethodDeclaration", h, r.node("MethodDeclarationBody", r.node("CompoundStatement", open, list, r.tok("CloseBrace", "}"))))
	})
}

func (r *scopeRun) declaration(path []string) rv {
	if path[0] == "function" {
		o := scopeOwner{"", r.vars()}
		if c := r.owner().class; c != "" {
			o.class = c
		}
		return r.within(o, func() rv {
			kw := r.tok("Function", "function")
			head := []rv{kw, r.tok("Name", r.fresh("f"))}
			head = append(head, r.params()...)
			h := r.node("FunctionDeclarationHeader", head...)
			open := r.tok("OpenBrace", "{")
			list := r.node("StatementList", r.code(path[1:])...)
			return r.node("FunctionDeclaration", h, r.node("FunctionDeclarationBody", open, list, r.tok("CloseBrace", "}")))
		})
	}
	name := r.fresh(map[string]string{"class": "C", "interface": "I", "trait": "T"}[path[0]])
	return r.within(scopeOwner{`\` + name, -1}, func() rv {
		up := strings.ToUpper(path[0][:1]) + path[0][1:]
		h := r.node(up+"DeclarationHeader", r.tok(up, path[0]), r.tok("Name", name))
		return r.node(up+"Declaration", h, r.classBody(up+"DeclarationBody", up+"MemberDeclarationList", path[1:]))
	})
}

func (r *scopeRun) position(offset int) rv {
	v := r.d.zero(r.tableAt.Params[1].Type()).(*rStruct)
	u := r.tableAt.Params[1].Type().Underlying().(*types.Struct)
	before := r.text.String()
	if offset < len(before) {
		before = before[:offset]
	}
	start := strings.LastIndex(before, "\n") + 1
	for i, f := range v.f {
		switch u.Field(i).Name() {
		case "Line":
			f.v = intOf(int64(strings.Count(before, "\n")))
		case "Character":
			f.v = intOf(int64(offset - start))
		}
	}
	return v
}

func (r *scopeRun) call(fn *ssa.Function, args ...rv) rv { return r.d.Run(fn, args, nil) }

// asked is where a question is put.
func (r *scopeRun) asked(m scopeMark) string {
	s := strings.TrimSpace(r.text.String()[:m.offset])
	if len(s) > 60 {
		s = "… " + s[len(s)-60:]
	}
	return fmt.Sprintf("%s, after %q", m.name, s)
}

func (s *scopes) read(path []string) {
	c := s.c
	r := &scopeRun{scopes: s, d: newDom(s.p)}
	r.d.MaxPaths, r.d.MaxSteps = 64, 3000000
	bad := map[string]string{}
	where := map[string]*ssa.Function{}
	say := func(key string, fn *ssa.Function, format string, a ...interface{}) {
		if bad[key] == "" {
			bad[key] = fmt.Sprintf(format, a...)
			where[key] = fn
		}
	}
	d := r.d
	members := map[string]bool{"Method": true, "Property": true, "ClassConst": true}
	d.Hook = func(d *Dom, dc *DomCall) (rv, bool) {
		if dc.Fn == nil {
			return nil, false
		}
		if inRepo(dc.Fn) {
			if dc.Fn.Name() == "TimeTrack" {
				return rTuple{}, true
			}
			if recv := dc.Fn.Signature.Recv(); recv != nil && dc.Fn.Name() == "String" && derefNamed(recv.Type()) != nil && derefNamed(recv.Type()).Obj().Name() == "Position" {
				// positions differ in their text
				v := dc.Args[0]
				if c, ok := v.(*rCell); ok {
					v = c.v
				}
				return rStr(fmt.Sprint(lines(v))), true
			}
			if dc.Fn.Signature.Recv() != nil && derefNamed(dc.Fn.Signature.Recv().Type()) == s.doc {
				for _, a := range dc.Args[1:] {
					if i, ok := a.(rIface); ok {
						r.added = append(r.added, i)
					}
				}
			}
			return nil, false
		}
		switch fnName(dc.Fn) {
		case "crypto/md5.Sum":
			return d.zero(dc.Fn.Signature.Results().At(0).Type()), true
		case "encoding/hex.EncodeToString":
			return rStr("00"), true
		}
		return nil, false
	}
	why := d.Explore(func() rv {
		r.text.Reset()
		r.last, r.used, r.outer = map[int]string{}, map[scopeUse]bool{}, map[int]int{}
		r.toks, r.marks, r.decls, r.stack, r.n, r.added = nil, nil, nil, nil, 0, nil
		r.stack = []*scopeOwner{{"", 0}}
		top := []rv{r.statement(r.variable())}
		top = append(top, r.nested(path)...)
		top = append(top, r.statement(r.variable()))
		root := r.node("StatementList", top...)
		doc := s.docOf(d, root, r.text.String())
		r.call(s.begin, doc)
		// the members
		got := map[string]string{}
		names := map[int64]string{}
		seen := map[*rCell]bool{}
		for _, a := range r.added {
			i := a.(rIface)
			n := derefNamed(i.t)
			cell, _ := i.v.(*rCell)
			if n == nil || cell == nil || seen[cell] {
				continue
			}
			seen[cell] = true
			st, ok := cell.v.(*rStruct)
			if !ok {
				continue
			}
			su := n.Underlying().(*types.Struct)
			field := func(name string) rv {
				for i, f := range st.f {
					if strings.EqualFold(su.Field(i).Name(), name) {
						return f.v
					}
				}
				return nil
			}
			fqn := r.fqn
			name := n.Obj().Name()
			switch {
			case members[name]:
				nm, _ := field("Name").(rStr)
				got[name+" "+string(nm)] = fqn(field("Scope"))
			case name == "Class":
				q := fqn(field("Name"))
				loc, _ := field("Location").(*rStruct)
				if lo, ok := r.start(loc); ok {
					names[lo] = q
				}
			}
		}
		called := func(class string) string {
			var at int64
			if _, err := fmt.Sscanf(class, "anonymous at %d", &at); err != nil {
				return class
			}
			if n, ok := names[at]; ok {
				return n
			}
			return class
		}
		for _, dc := range r.decls {
			g, ok := got[dc.kind+" "+dc.name]
			ctor := s.p.Func("analysis", "new"+dc.kind)
			if !ok {
				say("lost/"+dc.kind, s.scan, "a %s is not found in the document", dc.kind)
				continue
			}
			if g != called(dc.class) {
				say("member/"+dc.kind, ctor, "a %s that is declared in %s is said to be of %s, in %q", dc.kind, called(dc.class), orNone(g), r.text.String())
			}
		}
		c.Count("members", len(r.decls))
		// what positions are in
		for _, m := range r.marks {
			pos := r.position(m.offset)
			sym := r.symbolAt(doc, m)
			if m.param {
			} else if sym == nil {
				say("found/"+m.kind(), s.typesAt, "%s is not found at its position", r.asked(m))
			} else {
				g, ok := r.call(s.classAt, doc, sym).(rStr)
				if !ok {
					d.fail("the class around a position is not known")
				}
				if string(g) != called(m.owner.class) {
					say("class/around", s.classAt, "the class around %s is said to be %s, it is %s", r.asked(m), orNone(string(g)), orNone(called(m.owner.class)))
				}
				if m.this && m.owner.class != "" {
					got := r.typesOf(sym)
					want := called(m.owner.class)
					if len(got) != 1 || got[0] != want {
						say("this", s.p.Func("analysis", "newRelativeScope"), "$this in %s is said to be %s, %s", want, orNone(strings.Join(got, "|")), r.asked(m))
					}
				}
			}
			if g := r.nameOf(r.call(s.symAt, doc, pos)); g != called(m.owner.class) {
				say("class/at", s.symAt, "the class at %s is said to be %s, it is %s", r.asked(m), orNone(g), orNone(called(m.owner.class)))
			}
			if m.this {
				continue
			}
			table := r.call(s.tableAt, doc, pos)
			for _, o := range r.marks {
				if o.this {
					continue
				}
				end := r.position(r.text.Len() + 1)
				_, none := r.call(s.tableGet, table, rStr(o.name), end).(rNil)
				if none == r.sees(m, o) {
					if none {
						say("variable/lost", s.tableAt, "the variable %s is not found from %s, which is in the same function", o.name, r.asked(m))
					} else {
						say("variable/leaks", s.tableAt, "the variable %s of another function is found from %s", o.name, r.asked(m))
					}
				}
			}
		}
		c.Count("positions", len(r.marks))
		return nil
	}, func(res DomResult) {
		if res.Panics != "" {
			say("panic", s.begin, "reading %q fails: %s", r.text.String(), res.Panics)
		}
	})
	for f := range d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", d.Steps)
	c.Count("texts", 1)
	if why != "" {
		c.Undecided("what is read of %s is not known: %s", strings.Join(path, " > "), why)
	}
	for _, k := range sortedKeys(bad) {
		pos := "-"
		if fn := where[k]; fn != nil {
			pos = s.p.Pos(fn.Pos())
		}
		c.Report(k, pos, bad[k]+" ("+strings.Join(path, " > ")+")", nil)
	}
}

// fqn is the name that a type stands for.
func (r *scopeRun) fqn(v rv) string {
	s, ok := v.(*rStruct)
	if !ok {
		return "?"
	}
	t := r.d.cell(copyVal(r.d, s))
	fn := r.p.Method(r.p.Named("analysis", "TypeString"), "GetFQN")
	var recv rv = t
	if _, ptr := fn.Signature.Recv().Type().Underlying().(*types.Pointer); !ptr {
		recv = t.v
	}
	q, ok := r.call(fn, recv).(rStr)
	if !ok {
		return "?"
	}
	return string(q)
}

// nameOf is how a class, an interface or a trait is called.
func (r *scopeRun) nameOf(v rv) string {
	i, ok := v.(rIface)
	if !ok {
		return ""
	}
	cell, _ := i.v.(*rCell)
	if cell == nil {
		return "?"
	}
	st, _ := cell.v.(*rStruct)
	if st == nil {
		return "?"
	}
	u := st.t.Underlying().(*types.Struct)
	for i, f := range st.f {
		if u.Field(i).Name() == "Name" {
			return r.fqn(f.v)
		}
	}
	return "?"
}

func (m scopeMark) kind() string {
	if m.this {
		return "$this"
	}
	return "variable"
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}

// lines are the lines and characters of a location.
func lines(v rv) []int64 {
	var ns []int64
	switch v := v.(type) {
	case *rStruct:
		for _, f := range v.f {
			ns = append(ns, lines(f.v)...)
		}
	case rInt:
		ns = append(ns, v.c)
	}
	return ns
}

// start is where a location begins.
func (r *scopeRun) start(v rv) (int64, bool) {
	ns := lines(v)
	if len(ns) != 4 {
		return 0, false
	}
	at := int64(0)
	text := r.text.String()
	for n := ns[0]; n > 0; n-- {
		i := strings.IndexByte(text[at:], '\n')
		if i < 0 {
			return 0, false
		}
		at += int64(i) + 1
	}
	return at + ns[1], true
}

// symbolAt is what is found at a mark.
func (r *scopeRun) symbolAt(doc *rCell, m scopeMark) rv {
	v := r.call(r.typesAt, doc, r.position(m.offset+1))
	i, ok := v.(rIface)
	if !ok {
		return nil
	}
	n := derefNamed(i.t)
	cell, _ := i.v.(*rCell)
	if n == nil || cell == nil {
		return nil
	}
	if n.Obj().Name() != "Variable" && n.Obj().Name() != "Parameter" {
		return nil
	}
	return i
}

// typesOf are the types of a symbol.
func (r *scopeRun) typesOf(v rv) []string {
	i := v.(rIface)
	fn := r.p.Method(derefNamed(i.t), "GetTypes")
	if fn == nil {
		return nil
	}
	t := r.call(fn, i.v)
	res := r.p.Method(r.p.Named("analysis", "TypeComposite"), "Resolve")
	if res == nil {
		r.d.fail("the types of a symbol are not found")
	}
	if _, ptr := res.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
		t = r.d.cell(t)
	}
	vs, ok := r.d.Elems(r.call(res, t))
	if !ok {
		r.d.fail("the types of a symbol are not known")
	}
	var out []string
	fqn := r.p.Method(r.p.Named("analysis", "TypeString"), "GetFQN")
	for _, v := range vs {
		if _, ptr := fqn.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
			v = r.d.cell(v)
		}
		s, _ := r.call(fqn, v).(rStr)
		out = append(out, string(s))
	}
	sort.Strings(out)
	return out
}

// paths are the ways in which scopes can be nested.
func (s *scopes) paths(depth int) [][]string {
	var out [][]string
	var in func(pre []string, kinds []string)
	in = func(pre []string, kinds []string) {
		for _, k := range kinds {
			p := append(append([]string{}, pre...), k)
			out = append(out, p)
			if len(p) >= depth {
				continue
			}
			switch k {
			case "class", "interface", "trait", "anonymous class":
				if k == "interface" {
					continue
				}
				in(p, []string{"method"})
			case "arrow function", "assigned arrow function":
				in(p, []string{"closure", "arrow function", "assigned closure", "assigned arrow function", "argument", "anonymous class"})
			default:
				in(p, []string{"function", "closure", "arrow function", "assigned closure", "assigned arrow function", "argument", "anonymous class"})
			}
		}
	}
	in(nil, []string{"class", "interface", "trait", "function", "closure", "arrow function", "assigned closure", "assigned arrow function", "argument", "anonymous class"})
	return out
}

// find finds what reads documents and what is asked about them.
func (s *scopes) find() bool {
	c, p := s.c, s.p
	s.doc = p.Named("analysis", "Document")
	s.scan = p.Func("analysis", "scanForChildren")
	table := p.Named("analysis", "VariableTable")
	for _, q := range p.Prog.AllPackages() {
		switch {
		case strings.HasSuffix(q.Pkg.Path(), "go-phpparser/lexer"):
			s.lexer = q.Pkg
		case strings.HasSuffix(q.Pkg.Path(), "go-phpparser/phrase"):
			s.phrases = q.Pkg
		}
	}
	if s.doc == nil || table == nil || s.lexer == nil || s.phrases == nil {
		c.Undecided("documents and syntax trees are not found")
		return false
	}
	s.phrase, _ = s.phrases.Scope().Lookup("Phrase").Type().(*types.Named)
	s.token, _ = s.lexer.Scope().Lookup("Token").Type().(*types.Named)
	s.begin = p.Method(s.doc, "Load")
	s.classAt = p.Method(s.doc, "GetClassScopeAtSymbol")
	s.tableAt = p.Method(s.doc, "GetVariableTableAt")
	s.symAt = p.Method(s.doc, "ClassAt")
	s.typesAt = p.Method(s.doc, "HasTypesAtPos")
	s.tableGet = p.Method(table, "get")
	if s.begin == nil || s.classAt == nil || s.symAt == nil || s.tableAt == nil || s.typesAt == nil || s.tableGet == nil {
		c.Undecided("what reads documents, or what is asked about positions, is not found")
		return false
	}
	return true
}

func rulesScopes(c *Ctx) {
	p := c.P
	s := &scopes{c: c, p: p}
	c.Rule("for every nesting of classes, interfaces, traits, functions, methods, closures and anonymous classes: a member is of the class it is declared in, a variable is found from exactly the positions of the function it is used in, the class around a position and $this there are the innermost one (abstract interpretation of what reads a syntax tree)")
	c.Rule("what is put on a stack of a document while a node is read is taken off again on every way through, and nothing else is (dataflow over every function)")
	if !s.find() {
		return
	}
	depth := 3
	if c.Tier == "thorough" {
		depth = 5
	}
	for _, path := range s.paths(depth) {
		c.Seen("nesting", strings.Join(path, " > "))
		s.read(path)
	}
	rulesStacks(c)
	c.AtLeast("nesting", 40)
	c.AtLeast("members", 100)
	c.AtLeast("positions", 100)
}

func init() {
	register("C21", "Abstract interpretation of the reading of nested scopes; dataflow over what is put on stacks.", nil, rulesScopes)
}

// stack is a list, or a counter, of a struct that is pushed to and popped from.
type stack struct {
	cls  string
	net  map[*ssa.Function]int
	prim map[*ssa.Function]bool
}

// stackStep is what a store does to a stack.
func stackStep(s *ssa.Store) (string, int) {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return "", 0
	}
	cls := fieldClass(fa.X.Type(), fa.Field)
	isField := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		f, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldClass(f.X.Type(), f.Field) == cls
	}
	switch v := s.Val.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isField(v.Call.Args[0]) {
			return cls, 1
		}
	case *ssa.Slice:
		if isField(v.X) && v.Low == nil && v.High != nil {
			if b, ok := v.High.(*ssa.BinOp); ok && b.Op == token.SUB {
				return cls, -1
			}
		}
	case *ssa.BinOp:
		if n, ok := intConst(v.Y); ok && n == 1 && isField(v.X) {
			switch v.Op {
			case token.ADD:
				return cls, 1
			case token.SUB:
				return cls, -1
			}
		}
	}
	return cls, 0
}

// rulesStacks checks that what is put on a stack is taken off again.
func rulesStacks(c *Ctx) {
	p := c.P
	ups, downs := map[string]bool{}, map[string]bool{}
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					cls, n := stackStep(s)
					if !strings.HasPrefix(cls, "analysis.Document.") {
						continue
					}
					if n > 0 {
						ups[cls] = true
					} else if n < 0 {
						downs[cls] = true
					}
				}
			}
		}
	}
	for _, cls := range sortedKeys(ups) {
		if !downs[cls] {
			continue
		}
		c.Seen("stack", cls)
		st := &stack{cls: cls, net: map[*ssa.Function]int{}, prim: map[*ssa.Function]bool{}}
		touch := p.ReachSet(func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			cl, n := stackStep(s)
			return cl == cls && n != 0
		})
		var fns []*ssa.Function
		for _, fn := range p.Repo {
			if touch[fn] {
				fns = append(fns, fn)
			}
		}
		for round := 0; round < 6; round++ {
			changed := false
			for _, fn := range fns {
				n, _ := st.flow(c, fn, false)
				if n != st.net[fn] {
					st.net[fn] = n
					changed = true
				}
			}
			if !changed {
				break
			}
		}
		for _, fn := range fns {
			c.Fn(fn)
			c.Count("functions that use a stack", 1)
			n, min := st.flow(c, fn, true)
			if n >= 0 && min < 0 {
				c.Report("stack/under/"+cls+"/"+shortFn(fn), p.Pos(fn.Pos()), fmt.Sprintf("%s takes off %s what it has not put on", shortFn(fn), cls), nil)
			}
		}
	}
	c.AtLeast("stack", 2)
	c.AtLeast("functions that use a stack", 20)
}

// reads tells whether a function begins to read a document.
func readsRoot(fn *ssa.Function) bool {
	found := false
	eachCall(fn, func(i ssa.CallInstruction) {
		if g := i.Common().StaticCallee(); g != nil && g.Name() == "scanForChildren" {
			for _, a := range i.Common().Args {
				if call, ok := a.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "GetRootNode" {
					found = true
				}
			}
		}
	})
	return found
}

// flow is how far a function leaves a stack from where it was, and how far it
// goes below that.
func (st *stack) flow(c *Ctx, fn *ssa.Function, report bool) (net, min int) {
	if readsRoot(fn) {
		// what it puts on is what the whole document is in
		return 0, 0
	}
	type state struct {
		n  int
		ok bool
	}
	in := map[*ssa.BasicBlock]state{fn.Blocks[0]: {0, true}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	done := false
	said := false
	conflict := func(b *ssa.BasicBlock, what string) {
		if report && !said {
			said = true
			pos := c.P.Pos(fn.Pos())
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					pos = c.P.InstrPos(i)
					break
				}
			}
			c.Report("stack/uneven/"+st.cls+"/"+shortFn(fn), pos, fmt.Sprintf("%s leaves %s with more on some ways through than on others: %s", shortFn(fn), st.cls, what), nil)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		n := in[b].n
		var deferred []ssa.CallInstruction
		for _, d := range fn.Blocks {
			for _, i := range d.Instrs {
				if df, ok := i.(*ssa.Defer); ok {
					deferred = append(deferred, df)
				}
			}
		}
		apply := func(i ssa.CallInstruction) {
			first, have := 0, false
			for _, g := range c.P.siteCallees(i) {
				if !inRepo(g) {
					continue
				}
				if have && st.net[g] != first {
					conflict(b, fmt.Sprintf("what is called at %s", c.P.InstrPos(i)))
				}
				first, have = st.net[g], true
			}
			n += first
		}
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if cls, k := stackStep(i); cls == st.cls {
					n += k
				}
			case *ssa.Call:
				apply(i)
			case *ssa.RunDefers:
				for _, df := range deferred {
					if df.Block().Dominates(b) {
						apply(df)
					}
				}
			case *ssa.Return:
				if b.Comment != "recover" {
					if done && n != net {
						conflict(b, "at this return")
					}
					net, done = n, true
				}
			}
			if n < min {
				min = n
			}
		}
		for _, s := range b.Succs {
			if e, ok := in[s]; !ok {
				in[s] = state{n, true}
				work = append(work, s)
			} else if e.n != n {
				conflict(s, "where they meet")
			}
		}
	}
	return net, min
}
