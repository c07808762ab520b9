package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lookups decides what a reference leads to (C24, C37): the answers are
// interpreted for one reference of each kind, in a project where every name
// that the reference could mean is declared once, and as more than one kind.
type lookups struct {
	c      *Ctx
	p      *Program
	r      *routing
	store  *types.Named
	server *types.Named
	query  *types.Named
	doc    *types.Named
	ctx    *types.Named // what is needed to find types
	table  *types.Named // of imports
	diag   *types.Named
}

// refKind says where a kind of reference leads to.
type refKind struct {
	name   string
	decls  []string // what its types may be
	member string   // and what is taken of these
	dollar string   // before its name
	lookBy string   // or: found by its name
	static bool     // only what is static
	params bool     // the parameters of what is called are shown
	old    bool     // it is told if it is deprecated
}

var refKinds = []refKind{
	{name: "ClassTypeDesignator", decls: []string{"Class"}, member: "Constructor", params: true, old: true},
	{name: "ClassAccess", decls: []string{"Class", "Interface"}, old: true},
	{name: "InterfaceAccess", decls: []string{"Interface"}, old: true},
	{name: "TraitAccess", decls: []string{"Trait"}},
	{name: "TypeDeclaration", decls: []string{"Class", "Interface"}, old: true},
	{name: "ConstantAccess", lookBy: "Const", decls: []string{"Const", "Define"}, old: true},
	{name: "FunctionCall", lookBy: "Function", decls: []string{"Function"}, params: true, old: true},
	{name: "ScopedConstantAccess", decls: []string{"Class", "Interface"}, member: "ClassConst", static: true, old: true},
	{name: "ScopedMethodAccess", decls: []string{"Class", "Interface"}, member: "Method", static: true, params: true, old: true},
	{name: "ScopedPropertyAccess", decls: []string{"Class"}, member: "Property", dollar: "$", static: true, old: true},
	{name: "PropertyAccess", decls: []string{"Class"}, member: "Property", dollar: "$", old: true},
	{name: "MethodAccess", decls: []string{"Class", "Interface", "Trait"}, member: "Method", params: true, old: true},
}

// lookupCase is one project.
type lookupCase struct {
	static bool      // the members are static
	stub   bool      // what has the second type's name is not in a file
	own    string    // of constructors: "own", "inherited", "none"
	old    string    // what is deprecated ("all": everything)
	deep   bool      // the members are inherited
	kinds  [2]string // what the two types are
}

func (k lookupCase) String() string {
	var s []string
	if k.static {
		s = append(s, "static members")
	}
	if k.stub {
		s = append(s, "one is a built-in symbol")
	}
	if k.own != "" {
		s = append(s, "constructor: "+k.own)
	}
	if k.old != "" {
		s = append(s, "deprecated: "+k.old)
	}
	if k.deep {
		s = append(s, "inherited members")
	}
	if k.kinds[0] != "" {
		s = append(s, strings.ToLower(k.kinds[0])+" and "+strings.ToLower(k.kinds[1]))
	}
	if len(s) == 0 {
		return "plain"
	}
	return strings.Join(s, ", ")
}

// lookupRun is one way through an answer.
type lookupRun struct {
	*lookups
	d    *Dom
	k    refKind
	cs   lookupCase
	objs map[*rCell]string
	by   map[string]*rCell
	docO *rCell
	ref  *rCell
	st   *rCell
	pubs []rv
}

const (
	lookupName = "foo"
	lookupURI  = uriRoot + "/here.php"
	lookupAt   = 7 // the line of the reference
)

var lookupTypes = []string{"Tone", "Ttwo"}

// key is how a symbol is called here, which is also what its texts hold.
func lookupKey(decl, member, typ string) string {
	return "Q" + strings.ToLower(decl) + strings.ToLower(member) + "Of" + typ
}

// deep is the cell of a field, looked for in embedded structures too.
func (d *Dom) deepField(addr *rCell, path string) *rCell {
	for _, name := range strings.Split(path, ".") {
		f := d.embedded(addr, name)
		if f == nil {
			return nil
		}
		addr = f
	}
	return addr
}

func (d *Dom) embedded(addr *rCell, name string) *rCell {
	if f := d.Field(addr, name); f != nil {
		return f
	}
	st, ok := addr.v.(*rStruct)
	if !ok {
		return nil
	}
	u := st.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if !u.Field(i).Embedded() {
			continue
		}
		if _, ok := st.f[i].v.(*rStruct); ok {
			if f := d.embedded(st.f[i], name); f != nil {
				return f
			}
		}
	}
	return nil
}

func (l *lookupRun) setInt(o *rCell, path string, n int64) {
	if f := l.d.deepField(o, path); f != nil {
		f.v = intOf(n)
	}
}

func (l *lookupRun) typeString(fqn string) rv {
	if mk := l.p.Func("analysis", "NewTypeString"); mk != nil {
		return l.d.Run(mk, []rv{rStr(fqn)}, nil)
	}
	return rNil{}
}

// setTypes gives something types.
func (l *lookupRun) setTypes(o *rCell, field string, fqns ...string) {
	f := l.d.embedded(o, field)
	if f == nil {
		return
	}
	st, ok := f.v.(*rStruct)
	if !ok {
		return
	}
	var vs []rv
	for _, q := range fqns {
		v := l.typeString(q)
		if f := l.d.Field(l.d.cell(v), "original"); f != nil && typOf(rStr(q)) != "" {
			// it is imported under another name
			f.v = rStr("Alias" + q[1:])
		}
		vs = append(vs, v)
	}
	u := st.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
			st.f[i].v = l.d.Slice(vs...)
		}
	}
}

// symbol is the symbol with a key.
func (l *lookupRun) symbol(kind, decl, member, typ string) *rCell {
	key := lookupKey(decl, member, typ)
	if o := l.by[key]; o != nil {
		return o
	}
	n := l.p.Named("analysis", kind)
	if n == nil {
		return nil
	}
	d := l.d
	o := d.NewObject(n)
	l.by[key], l.objs[o] = o, key
	name := `\` + key
	if member != "" {
		name = l.k.dollar + lookupName
		if member == "Constructor" {
			name = "__construct"
		}
	}
	if f := d.embedded(o, "Name"); f != nil {
		if _, ok := f.v.(rStr); ok {
			f.v = rStr(name)
		} else {
			f.v = l.typeString(name)
		}
	}
	uri := uriRoot + "/" + key + ".php"
	if l.cs.stub && typ == lookupTypes[1] {
		uri = "phpstubs:///" + key + ".php"
	}
	if loc := d.locationOf(o); loc != nil {
		if u := d.Field(loc, "URI"); u != nil {
			u.v = rStr(uri)
		}
		l.setInt(loc, "Range.Start.Line", int64(20+len(l.objs)))
	}
	// what its description in an answer shows
	switch kind {
	case "Method", "Function":
		if f := d.embedded(o, "Params"); f != nil {
			if pt := l.p.Named("analysis", "Parameter"); pt != nil {
				prm := d.NewObject(pt)
				if pn := d.Field(prm, "Name"); pn != nil {
					pn.v = rStr("$" + key)
				}
				f.v = d.Slice(prm)
			}
		}
	case "ClassConst", "Const", "Define":
		if f := d.embedded(o, "Value"); f != nil {
			f.v = rStr(key)
		}
	case "Property":
		l.setTypes(o, "Types", `\`+key)
	}
	if member != "" {
		if f := d.embedded(o, "Scope"); f != nil {
			scope := `\` + lookupKey(decl, "", typ)
			if l.cs.own == "inherited" || l.cs.deep {
				scope += "Parent"
			}
			f.v = l.typeString(scope)
		}
		if f := d.embedded(o, "isStatic"); f != nil {
			f.v = rBool(l.cs.static)
		}
	}
	if l.cs.old == key || l.cs.old == "all" {
		if f := d.embedded(o, "deprecatedTag"); f != nil {
			if pt, ok := d.typeOfField(n, "deprecatedTag").Underlying().(*types.Pointer); ok {
				f.v = d.NewObject(pt.Elem())
			}
		}
	}
	return o
}

// typOf is the type that a name means.
func typOf(v rv) string {
	s, ok := v.(rStr)
	if !ok {
		return ""
	}
	for _, t := range lookupTypes {
		if strings.EqualFold(string(s), `\`+t) {
			return t
		}
	}
	return ""
}

// declOf is the kind and the type of a declaration.
func (l *lookupRun) declOf(v rv) (decl, typ string) {
	if i, ok := v.(rIface); ok {
		v = i.v
	}
	o, ok := v.(*rCell)
	if !ok {
		return "", ""
	}
	for _, t := range lookupTypes {
		for _, k := range []string{"Class", "Interface", "Trait"} {
			if l.objs[o] == lookupKey(k, "", t) {
				return k, t
			}
		}
	}
	return "", ""
}

// members are the members of a declaration that have a name.
func (l *lookupRun) members(kind, decl, typ string, name rv) []rv {
	s, ok := name.(rStr)
	if !ok {
		return nil
	}
	if kind == "Method" && string(s) == "__construct" && l.k.member == "Constructor" {
		if l.cs.own == "none" {
			return nil
		}
		return []rv{l.symbol("Method", decl, "Constructor", typ)}
	}
	if kind != l.k.member || string(s) != l.k.dollar+lookupName {
		return nil
	}
	return []rv{l.symbol(kind, decl, kind, typ)}
}

// isHere tells whether a table of imports is the one of the reference.
func (l *lookupRun) isHere(v rv) bool {
	if c, ok := v.(*rCell); ok {
		v = c.v
	}
	st, ok := v.(*rStruct)
	if !ok {
		return false
	}
	for _, f := range st.f {
		if n, ok := member(l.d, f, "Line").(rInt); ok && n.konst() && n.c == lookupAt {
			return true
		}
	}
	return false
}

// is tells what a type is declared as.
func (l *lookupRun) is(decl, typ string) bool {
	for i, t := range lookupTypes {
		if t == typ {
			return l.cs.kinds[i] == decl
		}
	}
	return false
}

// refName is the name under which the name in a reference is looked up.
func refName(kind string) string { return `\` + kind + "s\\" + lookupName }

func (l *lookupRun) hook(d *Dom, c *DomCall) (rv, bool) {
	fn := c.Fn
	if fn == nil {
		return nil, false
	}
	var recv *types.Named
	if v := fn.Signature.Recv(); v != nil {
		recv = derefNamed(v.Type())
	}
	sig := fn.Signature
	res := sig.Results()
	res0 := func() types.Type {
		if res.Len() == 0 {
			return types.Typ[types.Invalid]
		}
		return res.At(0).Type()
	}
	switch {
	case !inRepo(fn) && res.Len() == 2 && isStringType(res0()) && strings.Contains(pkgPathOf(fn), "html-to-markdown"):
		return rTuple{c.Args[len(c.Args)-1], rNil{}}, true
	case res.Len() >= 1 && derefNamed(res0()) == l.store && inLsp(fn) && recv != l.store:
		if res.Len() == 1 {
			return l.st, true
		}
	case recv == l.store:
		if derefNamed(res0()) == l.doc && res.Len() == 1 {
			return l.docO, true
		}
		elem := elemOf(res0())
		if elem == nil || res.Len() != 1 {
			return nil, false
		}
		kind := elem.Obj().Name()
		switch sig.Params().Len() {
		case 1:
			if kind == "Const" || kind == "Define" || kind == "Function" {
				by := kind
				if kind == "Define" {
					by = "Const"
				}
				if s, ok := c.Args[1].(rStr); ok && strings.EqualFold(string(s), refName(by)) && l.k.lookBy == by {
					return d.Slice(l.symbol(kind, kind, "", lookupTypes[0]), l.symbol(kind, kind, "", lookupTypes[1])), true
				}
				return d.Slice(), true
			}
			if t := typOf(c.Args[1]); t != "" && l.is(kind, t) {
				return d.Slice(l.symbol(kind, kind, "", t)), true
			}
			return d.Slice(), true
		case 2:
			var out []rv
			if t := typOf(c.Args[1]); t != "" && !l.cs.deep && l.cs.own != "inherited" {
				for _, decl := range []string{"Class", "Interface", "Trait"} {
					if !l.is(decl, t) {
						continue
					}
					out = append(out, l.members(kind, decl, t, c.Args[2])...)
				}
			}
			return d.Slice(out...), true
		}
	case recv == l.query && sig.Params().Len() >= 2 && res.Len() == 1:
		decl, typ := l.declOf(c.Args[1])
		if derefNamed(sig.Params().At(0).Type()) == nil {
			return nil, false
		}
		n := derefNamed(res0())
		if n == nil {
			return nil, false
		}
		u, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		out := d.zero(n).(*rStruct)
		is := false
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if m := memberStruct(ft); m != nil {
				is = true
				mu := m.Underlying().(*types.Struct)
				var list []rv
				for j := 0; j < mu.NumFields(); j++ {
					pt, ok := mu.Field(j).Type().Underlying().(*types.Pointer)
					if !ok || decl == "" || strings.HasPrefix(fn.Name(), "Search") {
						continue
					}
					for _, mem := range l.members(derefNamed(pt).Obj().Name(), decl, typ, c.Args[2]) {
						e := d.zero(m).(*rStruct)
						e.f[j].v = mem
						for x := 0; x < mu.NumFields(); x++ {
							if _, ok := mu.Field(x).Type().Underlying().(*types.Interface); ok {
								e.f[x].v = rIface{t: types.NewPointer(l.p.Named("analysis", decl)), v: l.by[lookupKey(decl, "", typ)]}
							}
						}
						list = append(list, e)
					}
				}
				out.f[i].v = d.Slice(list...)
				continue
			}
			if _, ok := ft.Underlying().(*types.Map); ok {
				d.serial++
				out.f[i].v = &rMap{id: d.serial}
			}
		}
		if is {
			return out, true
		}
	case recv == l.table && res.Len() == 1 && isStringType(res0()):
		// the names in the reference
		named := false
		for _, a := range c.Args[1:] {
			if s, ok := member(d, a, "original").(rStr); ok {
				if t := typOf(member(d, a, "fqn")); t != "" && sig.Params().Len() == 1 {
					return rStr(`\` + t), true
				}
				named = string(s) == lookupName
			}
		}
		if !named {
			return rStr(`\unknown`), true
		}
		if !l.isHere(c.Args[0]) {
			return rStr(`\elsewhere\` + lookupName), true
		}
		for _, k := range []string{"Const", "Function", "Class"} {
			if strings.Contains(fn.Name(), k) {
				return rStr(refName(k)), true
			}
		}
		return rStr(`\unknown`), true
	case recv == l.doc:
		switch {
		case derefNamed(res0()) == l.table:
			o := d.NewObject(l.table)
			here := true
			for _, a := range c.Args[1:] {
				if n, ok := member(d, a, "Line").(rInt); ok && (!n.konst() || n.c != lookupAt) {
					here = false
				}
			}
			if st, ok := o.v.(*rStruct); ok && here {
				for _, f := range st.f {
					if _, ok := f.v.(*rStruct); ok && d.Field(f, "Line") != nil {
						l.setInt(f, "Line", lookupAt)
					}
				}
			}
			return o, true
		case res.Len() == 1 && isStringType(res0()) && sig.Params().Len() == 0:
			return rStr(lookupURI), true
		case res.Len() == 1 && isStringType(res0()):
			return rStr(`\here`), true
		case res.Len() == 0:
			return rNil{}, true
		}
		if out := l.found(res); out != nil {
			return out, true
		}
		if b, ok := res0().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return intOf(5), true
		}
		if _, ok := res0().Underlying().(*types.Struct); ok {
			return d.zero(res0()), true
		}
	case recv == nil && sig.Params().Len() >= 2 && inAnalysis(fn) && derefNamed(sig.Params().At(0).Type()) == l.doc:
		if f, ok := c.Args[1].(rFunc); ok && res.Len() == 0 {
			d.CallFunc(c, f, rIface{t: types.NewPointer(l.p.Named("analysis", l.k.name)), v: l.ref})
			// and then one like it further right
			again := d.NewObject(l.p.Named("analysis", l.k.name))
			again.v = copyVal(d, l.ref.v)
			if loc := d.locationOf(again); loc != nil {
				l.setInt(loc, "Range.Start.Character", 20)
				l.setInt(loc, "Range.End.Character", 29)
			}
			d.CallFunc(c, f, rIface{t: types.NewPointer(l.p.Named("analysis", l.k.name)), v: again})
			return rNil{}, true
		}
	}
	return nil, false
}

// found is what a document finds at a position: the reference, and the
// arguments that are passed.
func (l *lookupRun) found(res *types.Tuple) rv {
	pt := types.NewPointer(l.p.Named("analysis", l.k.name))
	var out rTuple
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if it, ok := t.Underlying().(*types.Interface); ok {
			if !types.Implements(pt, it) {
				out = append(out, rNil{})
				continue
			}
			out = append(out, rIface{t: pt, v: l.ref})
			continue
		}
		if n := derefNamed(t); n != nil && n.Obj().Name() == "ArgumentList" {
			out = append(out, l.d.NewObject(n))
			continue
		}
		return nil
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

// start makes the world of a way.
func (l *lookupRun) start() {
	d := l.d
	l.objs, l.by, l.pubs = map[*rCell]string{}, map[string]*rCell{}, nil
	l.docO = d.NewObject(l.doc)
	l.st = l.r.newStore(d, uriRoot)
	l.ref = d.NewObject(l.p.Named("analysis", l.k.name))
	if loc := d.locationOf(l.ref); loc != nil {
		if u := d.Field(loc, "URI"); u != nil {
			u.v = rStr(lookupURI)
		}
		l.setInt(loc, "Range.Start.Line", lookupAt)
		l.setInt(loc, "Range.End.Line", lookupAt)
		l.setInt(loc, "Range.End.Character", 9)
	}
	name := lookupName
	if l.k.dollar != "" && l.k.static {
		name = "$" + name
	}
	if f := d.embedded(l.ref, "Name"); f != nil {
		f.v = rStr(name)
	}
	var fqns []string
	for _, t := range lookupTypes {
		fqns = append(fqns, `\`+t)
	}
	if l.k.member == "" || l.k.member == "Constructor" {
		if l.k.lookBy == "" {
			l.setTypes(l.ref, "Type", fqns...)
		}
	} else {
		sn := l.p.Named("analysis", "ClassAccess")
		scope := d.NewObject(sn)
		l.setTypes(scope, "Type", fqns...)
		if f := d.embedded(scope, "Name"); f != nil {
			f.v = rStr("Tone")
		}
		if f := d.embedded(l.ref, "Scope"); f != nil {
			f.v = rIface{t: types.NewPointer(sn), v: scope}
		}
	}
	d.Hook = l.hook
}

// want are the keys of what the reference names.
func (l *lookupRun) want(decls []string) map[string]bool {
	w := map[string]bool{}
	for _, decl := range decls {
		for _, t := range lookupTypes {
			if l.k.lookBy == "" && !l.is(decl, t) {
				continue
			}
			switch {
			case l.k.member == "Constructor" && l.cs.own == "none" || l.k.member == "":
				w[lookupKey(decl, "", t)] = true
			case l.k.static && l.k.member != "ClassConst" && !l.cs.static:
				// not accessible this way
			default:
				w[lookupKey(decl, l.k.member, t)] = true
			}
		}
	}
	return w
}

func joined(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// each runs something for the cases of a kind.
func (l *lookups) each(fn *ssa.Function, k refKind, cs lookupCase, run func(x *lookupRun) rv, end func(x *lookupRun, r DomResult)) {
	d := newDom(l.p)
	x := &lookupRun{lookups: l, d: d, k: k, cs: cs}
	pos := l.p.Pos(fn.Pos())
	why := d.Explore(func() rv {
		d.Events = nil
		x.start()
		return run(x)
	}, func(r DomResult) {
		if r.Panics != "" {
			l.c.Report("lookup/panics/"+shortFn(fn)+"/"+k.name, pos, fmt.Sprintf("%s fails for a %s (%s): %s", fnName(fn), k.name, cs, r.Panics), r.Trail)
			return
		}
		end(x, r)
	})
	if why != "" {
		l.c.Undecided("%s cannot be followed for a %s (%s): %s", fnName(fn), k.name, cs, why)
	}
	for f := range d.Funcs {
		l.c.Fn(f)
	}
	l.c.Count("instructions interpreted", d.Steps)
	l.c.Seen("references followed", fmt.Sprintf("%s in %s: %s", k.name, shortFn(fn), cs))
}

func (k refKind) cases() []lookupCase {
	pairs := [][2]string{{}}
	if k.lookBy == "" {
		pairs = nil
		for _, a := range k.decls {
			for _, b := range k.decls {
				pairs = append(pairs, [2]string{a, b})
			}
		}
	}
	var out []lookupCase
	for _, pair := range pairs {
		for _, stub := range []bool{false, true} {
			cs := lookupCase{stub: stub, kinds: pair}
			var more []lookupCase
			switch {
			case k.member == "Constructor":
				for _, own := range []string{"own", "inherited", "none"} {
					cs.own = own
					more = append(more, cs)
				}
			case k.member != "":
				more = append(more, cs)
				cs.static = true
				more = append(more, cs)
				cs.deep = true
				more = append(more, cs)
			default:
				more = append(more, cs)
			}
			out = append(out, more...)
		}
	}
	return out
}

// request makes the arguments of a request.
func (l *lookupRun) request(fn *ssa.Function) []rv {
	d := l.d
	var lists []*rCell
	args := []rv{l.r.object(d, types.NewPointer(l.server), []rv{l.st}, &lists, 0)}
	for _, q := range fn.Params[1:] {
		pt, ok := q.Type().Underlying().(*types.Pointer)
		if !ok {
			args = append(args, rUnk{id: "some " + q.Name(), t: q.Type(), nonNil: true})
			continue
		}
		o := d.NewObject(pt.Elem())
		if f := d.deepField(o, "TextDocument.URI"); f != nil {
			f.v = rStr(lookupURI)
		}
		l.setInt(o, "Position.Line", lookupAt)
		l.setInt(o, "Position.Character", 4)
		args = append(args, o)
	}
	return args
}

func (l *lookups) handler(name string) *ssa.Function {
	fn := l.p.Method(l.server, name)
	if fn == nil {
		l.c.Undecided("the server has no method %s", name)
	}
	return fn
}

// differ reports what an answer lacks or has too much.
func (l *lookupRun) differ(what string, fn *ssa.Function, got, want map[string]bool, r DomResult) {
	pos := l.p.Pos(fn.Pos())
	for _, k := range sortedKeys(want) {
		if !got[k] {
			l.c.Report("lookup/"+what+"/missing/"+l.k.name, pos, fmt.Sprintf("%s leaves out %s for a %s (%s)", fnName(fn), k, l.k.name, l.cs), r.Trail)
		}
	}
	for _, k := range sortedKeys(got) {
		if !want[k] {
			l.c.Report("lookup/"+what+"/other/"+l.k.name, pos, fmt.Sprintf("%s has %s for a %s, which it does not name (%s)", fnName(fn), k, l.k.name, l.cs), r.Trail)
		}
	}
}

// definition: exactly where they are declared, as far as they are in files.
func (l *lookups) definition(fn *ssa.Function, k refKind, cs lookupCase) {
	pos := l.p.Pos(fn.Pos())
	l.each(fn, k, cs, func(x *lookupRun) rv { return x.d.Run(fn, x.request(fn), nil) }, func(x *lookupRun, r DomResult) {
		tup, ok := r.Val.(rTuple)
		if !ok || len(tup) != 2 {
			l.c.Undecided("what %s returns is not known (%s)", fnName(fn), pos)
			return
		}
		if isNil, known := isNilRv(tup[1]); !known || !isNil {
			l.c.Report("lookup/definition/error/"+k.name, pos, fmt.Sprintf("%s may return an error for a %s", fnName(fn), k.name), r.Trail)
			return
		}
		items, ok := x.d.Elems(tup[0])
		if !ok {
			l.c.Undecided("what %s returns is not known (%s)", fnName(fn), pos)
			return
		}
		got := map[string]bool{}
		for _, it := range items {
			key := "a stranger"
			for o, name := range x.objs {
				if loc := x.d.locationOf(o); loc != nil && x.d.eq(loc.v, it) == 1 {
					key = name
				}
			}
			got[key] = true
		}
		want := map[string]bool{}
		for w := range x.want(k.decls) {
			o := x.by[w]
			if k.member == "Constructor" && cs.own == "inherited" {
				// the class has none: its own declaration is shown
				w = lookupKey(k.decls[0], "", w[strings.Index(w, "Of")+2:])
				o = x.by[w]
			}
			if cs.stub && strings.HasSuffix(w, "Of"+lookupTypes[1]) {
				if o != nil && got[w] {
					l.c.Report("lookup/definition/nowhere/"+k.name, pos, fmt.Sprintf("%s leads to a built-in symbol, which is in no file that can be opened", fnName(fn)), r.Trail)
				}
				delete(got, w)
				continue
			}
			want[w] = true
		}
		x.differ("definition", fn, got, want, r)
	})
}

// hover: exactly what the reference names is described, and its range marked.
func (l *lookups) hover(fn *ssa.Function, k refKind, cs lookupCase) {
	pos := l.p.Pos(fn.Pos())
	l.each(fn, k, cs, func(x *lookupRun) rv { return x.d.Run(fn, x.request(fn), nil) }, func(x *lookupRun, r DomResult) {
		tup, ok := r.Val.(rTuple)
		if !ok || len(tup) != 2 {
			l.c.Undecided("what %s returns is not known (%s)", fnName(fn), pos)
			return
		}
		if isNil, known := isNilRv(tup[1]); !known || !isNil {
			l.c.Report("lookup/hover/error/"+k.name, pos, fmt.Sprintf("%s may return an error for a %s", fnName(fn), k.name), r.Trail)
			return
		}
		text, ok := member(x.d, tup[0], "Contents.Value").(rStr)
		if isNil, known := isNilRv(tup[0]); known && isNil {
			ok, text = true, ""
		}
		if !ok {
			l.c.Undecided("what %s shows is not known (%s)", fnName(fn), pos)
			return
		}
		want := x.want(k.decls)
		got := map[string]bool{}
		keys := map[string]bool{}
		for _, key := range x.objs {
			keys[key] = true
		}
		for w := range want {
			keys[w] = true
		}
		for key := range keys {
			if !strings.Contains(string(text), key) {
				continue
			}
			// a member comes with what it is a member of
			isDecl := false
			for _, t := range lookupTypes {
				for _, decl := range []string{"Class", "Interface", "Trait"} {
					if key == lookupKey(decl, "", t) && l.member(want, decl, t, k) {
						isDecl = true
					}
				}
			}
			if !isDecl {
				got[key] = true
			}
		}
		x.differ("hover", fn, got, want, r)
		if line, ok := member(x.d, tup[0], "Range.Start.Line").(rInt); len(want) > 0 && (!ok || !line.konst() || line.c != lookupAt) {
			l.c.Report("lookup/hover/range/"+k.name, pos, fmt.Sprintf("%s does not mark the %s it is about", fnName(fn), k.name), r.Trail)
		}
	})
}

// member tells whether a member of a declaration is expected.
func (l *lookups) member(want map[string]bool, decl, typ string, k refKind) bool {
	return k.member != "" && want[lookupKey(decl, k.member, typ)]
}

// takers are the ways to find what takes the arguments of a call.
func (l *lookups) takers() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, n := range l.p.NamedTypes() {
		if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/analysis" {
			continue
		}
		for _, fn := range l.p.Methods(n) {
			s := fn.Signature
			if s.Params().Len() == 1 && s.Results().Len() == 1 && derefNamed(s.Params().At(0).Type()) == l.ctx {
				if sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice); ok {
					if nn := derefNamed(sl.Elem()); nn != nil && nn.Obj().Name() == "HasParams" {
						out[n.Obj().Name()] = fn
					}
				}
			}
		}
	}
	return out
}

// signatures: the answer has the parameters of exactly what is called.
func (l *lookups) signatures(fn *ssa.Function, k refKind, cs lookupCase) {
	pos := l.p.Pos(fn.Pos())
	l.each(fn, k, cs, func(x *lookupRun) rv { return x.d.Run(fn, x.request(fn), nil) }, func(x *lookupRun, r DomResult) {
		tup, ok := r.Val.(rTuple)
		if !ok || len(tup) != 2 {
			l.c.Undecided("what %s returns is not known (%s)", fnName(fn), pos)
			return
		}
		items, ok := x.d.Elems(member(x.d, tup[0], "Signatures"))
		if !ok {
			l.c.Undecided("what %s shows is not known (%s)", fnName(fn), pos)
			return
		}
		want := x.want(k.decls)
		if k.member == "Constructor" && cs.own == "none" {
			want = map[string]bool{}
		}
		got := map[string]bool{}
		for _, it := range items {
			label, ok := member(x.d, it, "Label").(rStr)
			params, ok2 := x.d.Elems(member(x.d, it, "Parameters"))
			if !ok || !ok2 {
				l.c.Undecided("what %s shows is not known (%s)", fnName(fn), pos)
				return
			}
			key := "a stranger"
			for _, name := range x.objs {
				if strings.Contains(string(label), name) {
					key = name
				}
			}
			for _, name := range x.objs {
				if want[name] && strings.Contains(string(label), "$"+name) {
					key = name
				}
			}
			got[key] = true
			if len(params) != 1 || !strings.Contains(showRv(member(x.d, params[0], "Label")), "$"+key) {
				l.c.Report("lookup/signature/parameters/"+k.name, pos, fmt.Sprintf("%s does not show the parameters of what is called (%s)", fnName(fn), k.name), r.Trail)
			}
		}
		x.differ("signature", fn, got, want, r)
	})
}

func showRv(v rv) string {
	s, _ := v.(rStr)
	return string(s)
}

// deprecated: a reference to what is deprecated is told, no other.
func (l *lookups) deprecated(fn *ssa.Function, k refKind, cs lookupCase) {
	pos := l.p.Pos(fn.Pos())
	l.each(fn, k, cs, func(x *lookupRun) rv {
		ctx := x.d.zero(l.ctx).(*rStruct)
		u := ctx.t.Underlying().(*types.Struct)
		mk := l.p.Func("analysis", "NewQuery")
		for i := 0; i < u.NumFields(); i++ {
			switch derefNamed(u.Field(i).Type()) {
			case l.query:
				ctx.f[i].v = x.d.Run(mk, []rv{x.st}, nil)
			case l.doc:
				ctx.f[i].v = x.docO
			}
		}
		return x.d.Run(fn, []rv{ctx}, nil)
	}, func(x *lookupRun, r DomResult) {
		items, ok := x.d.Elems(r.Val)
		if !ok {
			l.c.Undecided("what %s returns is not known (%s)", fnName(fn), pos)
			return
		}
		k2 := k
		if k.member == "Constructor" {
			k2.member = ""
		}
		y := *x
		y.k = k2
		want := y.want(k.decls)
		expect := 0
		if want[cs.old] {
			expect = 2
		}
		if len(items) < expect {
			l.c.Report("lookup/deprecated/missing/"+k.name, pos, fmt.Sprintf("%s does not tell that each %s names %s, which is deprecated (%s)", fnName(fn), k.name, cs.old, cs), r.Trail)
		}
		if len(items) > expect {
			l.c.Report("lookup/deprecated/other/"+k.name, pos, fmt.Sprintf("%s tells %d times that a %s is used twice and deprecated, not %d (%s)", fnName(fn), len(items), k.name, expect, cs), r.Trail)
		}
		ends := map[int64]bool{}
		for _, it := range items {
			if n, ok := member(x.d, it, "Range.End.Character").(rInt); ok && n.konst() {
				ends[n.c] = true
			}
		}
		if len(items) == expect && len(ends) != expect {
			l.c.Report("lookup/deprecated/where/"+k.name, pos, fmt.Sprintf("%s does not mark each %s that is deprecated", fnName(fn), k.name), r.Trail)
		}
		for _, it := range items {
			if line, ok := member(x.d, it, "Range.Start.Line").(rInt); !ok || !line.konst() || line.c != lookupAt {
				l.c.Report("lookup/deprecated/range/"+k.name, pos, fmt.Sprintf("%s does not mark the %s that is deprecated", fnName(fn), k.name), r.Trail)
			}
			tagged := false
			tags, _ := x.d.Elems(member(x.d, it, "Tags"))
			for _, t := range tags {
				if n, ok := t.(rInt); ok && n.konst() && n.c == 2 {
					tagged = true
				}
			}
			if !tagged {
				l.c.Report("lookup/deprecated/tag/"+k.name, pos, fmt.Sprintf("what %s tells about a %s is not marked as deprecated", fnName(fn), k.name), r.Trail)
			}
		}
	})
}

func (l *lookups) find() bool {
	p := l.p
	l.r = &routing{c: l.c, p: p}
	if !l.r.find() {
		return false
	}
	l.store, l.server = l.r.store, p.Named(lspPkg, "Server")
	l.query = p.Named("analysis", "Query")
	l.doc = p.Named("analysis", "Document")
	l.ctx = p.Named("analysis", "ResolveContext")
	l.table = p.Named("analysis", "ImportTable")
	l.diag = p.Named(lspPkg+"/protocol", "Diagnostic")
	for _, n := range []*types.Named{l.server, l.query, l.doc, l.ctx, l.table, l.diag} {
		if n == nil {
			l.c.Undecided("the types of which answers are made are not found")
			return false
		}
	}
	for _, k := range refKinds {
		if p.Named("analysis", k.name) == nil {
			l.c.Undecided("the kind of reference %s is not found", k.name)
			return false
		}
	}
	return true
}

func rulesLookup(c *Ctx) {
	c.Rule("the answer to textDocument/definition is exactly where those symbols are declared that a reference names: for every type it may have, every kind of declaration that can have its name there, and of members those that it can access; those that are in files")
	c.Rule("the answer to textDocument/hover describes exactly these symbols, and marks the reference")
	c.Rule("the answer to textDocument/signatureHelp has the parameters of exactly those functions, methods and constructors that a call leads to")
	l := &lookups{c: c, p: c.P}
	if !l.find() {
		return
	}
	def, hov, sig := l.handler("Definition"), l.handler("Hover"), l.handler("SignatureHelp")
	if def == nil || hov == nil || sig == nil {
		return
	}
	takers := l.takers()
	for _, k := range refKinds {
		for _, cs := range k.cases() {
			l.definition(def, k, cs)
			l.hover(hov, k, cs)
			if takers[k.name] != nil && k.params {
				l.signatures(sig, k, cs)
			}
		}
		c.Seen("kinds of references", k.name)
	}
	for name := range takers {
		known := false
		for _, k := range refKinds {
			if k.name == name && k.params {
				known = true
			}
		}
		if !known {
			c.Seen("calls that are not references", name)
		}
	}
	c.AtLeast("references followed", 100)
}

func init() {
	register("C24", "definition, hover and signatures", nil, rulesLookup)
}
