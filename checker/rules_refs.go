package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// references decides what is found of the uses of a name (C18): documents with
// declarations and uses of all kinds are indexed, changed, deleted and the
// store opened again, on databases whose contents are followed, and the places
// that are found for each name are compared with where it was last indexed.
type references struct {
	*lookups
	enc, dec *types.Named
	stack    *types.Named // of nodes
	phrase   *types.Named
	token    *types.Named
	symbol   *types.Named
	newStore *ssa.Function
	sync     *ssa.Function
	del      *ssa.Function
	get      *ssa.Function
}

// refSym is a symbol of a document: a declaration, or a use.
type refSym struct {
	kind  string
	decl  bool
	name  string // as it is written
	fqn   string // of declarations, and of what a use refers to
	keys  []string
	spine []string // of a declaration, its name first
	doc   int
	line  int
	maybe bool // it need not be among the references of its name
}

func (s refSym) String() string {
	what := "use as " + s.kind
	if s.decl {
		what = "declaration as " + s.kind
	}
	return fmt.Sprintf("%s of %s in document %c", what, s.name, 'A'+s.doc)
}

var refNS = []string{"here", "here", ""}

func refURI(i int) string {
	// one is the beginning of another
	return refRoot + []string{"/a.php", "/a.php5", "/dir/c.php"}[i]
}

const refRoot = "file:///w"

func declared(kind, name, ns, tok string, spine ...string) refSym {
	s := refSym{kind: kind, decl: true, name: name, spine: append([]string{tok}, spine...)}
	s.fqn = `\` + name
	if ns != "" {
		s.fqn = `\` + ns + s.fqn
	}
	// traits do not record where their name stands
	s.maybe = kind == "Trait"
	switch kind {
	case "Function":
		s.keys = []string{"function " + s.fqn}
	case "Method", "Property", "ClassConst":
		s.keys = []string{kind + " " + name}
	default:
		s.keys = []string{"type " + s.fqn}
	}
	return s
}

func used(kind, name, what string, keys ...string) refSym {
	s := refSym{kind: kind, name: name}
	for _, k := range keys {
		s.keys = append(s.keys, what+" "+k)
		if what == "type" {
			s.fqn = k
		}
	}
	return s
}

// refDocs are the documents.
func refDocs() [][]refSym {
	a := []refSym{
		declared("Class", "foo", "here", "Name", "ClassDeclarationHeader"),
		declared("Interface", "ifoo", "here", "Name", "InterfaceDeclarationHeader"),
		declared("Trait", "tfoo", "here", "Name", "TraitDeclarationHeader"),
		declared("Function", "foo", "here", "Name", "FunctionDeclarationHeader"),
		declared("Method", "foo", "here", "Name", "Identifier", "MethodDeclarationHeader"),
		declared("Property", "$foo", "here", "VariableName", "PropertyElement"),
		declared("ClassConst", "foo", "here", "Name", "Identifier", "ClassConstElement"),
		declared("Method", "bar", "here", "Name", "Identifier", "MethodDeclarationHeader"),
		declared("Property", "$bar", "here", "VariableName", "PropertyElement"),
		declared("ClassConst", "bar", "here", "Name", "Identifier", "ClassConstElement"),
		declared("Function", "bar", "here", "Name", "FunctionDeclarationHeader"),
	}
	var b []refSym
	for _, n := range []string{"foo", "bar"} {
		b = append(b,
			used("ClassTypeDesignator", n, "type", `\here\`+n),
			used("ClassAccess", n, "type", `\here\`+n),
			used("TypeDeclaration", n, "type", `\here\`+n),
			used("InterfaceAccess", "i"+n, "type", `\here\i`+n),
			used("TraitAccess", "t"+n, "type", `\here\t`+n),
			used("FunctionCall", n, "function", `\here\`+n, `\`+n),
			used("ScopedMethodAccess", n, "Method", n),
			used("MethodAccess", n, "Method", n),
			used("ScopedPropertyAccess", "$"+n, "Property", "$"+n),
			used("PropertyAccess", n, "Property", "$"+n),
			used("ScopedConstantAccess", n, "ClassConst", n),
		)
	}
	c := []refSym{
		declared("Class", "foo", "", "Name", "ClassDeclarationHeader"),
		declared("Function", "foo", "", "Name", "FunctionDeclarationHeader"),
		used("FunctionCall", "foo", "function", `\foo`),
		used("ClassAccess", "foo", "type", `\foo`),
		used("MethodAccess", "foo", "Method", "foo"),
	}
	docs := [][]refSym{a, b, c}
	for i, syms := range docs {
		for j := range syms {
			syms[j].doc, syms[j].line = i, 1000*(i+1)+j
		}
	}
	return docs
}

type refPlace struct {
	uri  string
	line int64
}

// refRun is one way.
type refRun struct {
	*references
	d       *Dom
	st      *rCell
	stores  map[string]map[string]string // what the databases hold
	pending map[string]*[][3]string      // what batches will do: put or delete, key, value
	enced   map[*rCell]string
	texts   map[int64]string // of tokens
	hashes  map[string]int64
	sets    map[string]map[int64]bool // of the filters
	tables  map[*rCell]int
	docs    map[string]*rCell
	at      *refSym // what is asked about
	offset  int64
	many    bool // filters let pass what they do not have
	problem string
}

func (x *refRun) text(v rv) string {
	if i, ok := v.(rIface); ok {
		v = i.v
	}
	if c, ok := v.(*rCell); ok {
		v = c.v
	}
	st, ok := v.(*rStruct)
	if !ok {
		return ""
	}
	cell := x.d.cell(st)
	if o := x.d.Field(cell, "Offset"); o != nil {
		if n, ok := o.v.(rInt); ok {
			return x.texts[n.c]
		}
	}
	if ch := x.d.Field(cell, "Children"); ch != nil {
		s := ""
		all, _ := x.d.Elems(ch.v)
		for _, e := range all {
			s += x.text(e)
		}
		return s
	}
	return ""
}

func (x *refRun) tok(kind, text string) *rCell {
	c := x.d.NewObject(x.token)
	k, ok := constOf(x.token.Obj().Pkg(), kind)
	if !ok {
		x.d.fail("the kind of token %s is not known", kind)
	}
	x.offset++
	x.d.Field(c, "Type").v = k
	x.d.Field(c, "Offset").v = intOf(x.offset)
	x.texts[x.offset] = text
	return c
}

func (x *refRun) node(kind string, children ...*rCell) *rCell {
	c := x.d.NewObject(x.phrase)
	k, ok := constOf(x.phrase.Obj().Pkg(), kind)
	if !ok {
		x.d.fail("the kind of node %s is not known", kind)
	}
	x.d.Field(c, "Type").v = k
	var vs []rv
	for _, ch := range children {
		vs = append(vs, rIface{types.NewPointer(ch.v.(*rStruct).t), ch})
	}
	x.d.Field(c, "Children").v = x.d.Slice(vs...)
	return c
}

// spine is what is at the position of a symbol.
func (x *refRun) spine(s *refSym) rv {
	out := x.d.NewObject(x.stack)
	t := x.tok("Name", s.name)
	var parents []rv
	kinds := []string{"Identifier", "ScopedMemberName"}
	if s.decl {
		t = x.tok(s.spine[0], s.name)
		kinds = s.spine[1:]
	} else if s.line%2 == 0 {
		kinds = []string{"NamespaceName", "QualifiedName"}
	}
	last := t
	for i, k := range kinds {
		children := []*rCell{last}
		if i == len(kinds)-1 {
			// there is more in it than the name
			children = append(children, x.tok("Equals", " = 1"))
			if k == "MethodDeclarationHeader" || k == "ClassDeclarationHeader" {
				children = append([]*rCell{x.tok("Abstract", "abstract ")}, children...)
			}
		}
		last = x.node(k, children...)
		parents = append([]rv{last}, parents...)
	}
	x.d.Field(out, "parents").v = x.d.Slice(parents...)
	x.d.Field(out, "token").v = t
	return out.v
}

// object is a symbol of a document.
func (x *refRun) object(s refSym) rv {
	d := x.d
	n := x.p.Named("analysis", s.kind)
	o := d.NewObject(n)
	run := &lookupRun{lookups: x.lookups, d: d}
	if f := d.embedded(o, "Name"); f != nil {
		if _, ok := f.v.(rStr); ok {
			f.v = rStr(s.name)
		} else {
			f.v = run.typeString(s.fqn)
		}
	}
	if s.fqn != "" && !s.decl {
		run.setTypes(o, "Type", s.fqn)
	}
	loc := func(f *rCell, from, to int64) {
		d.Field(f, "URI").v = rStr(refURI(s.doc))
		run.setInt(f, "Range.Start.Line", int64(s.line))
		run.setInt(f, "Range.End.Line", int64(s.line))
		run.setInt(f, "Range.Start.Character", from)
		run.setInt(f, "Range.End.Character", to)
	}
	if f := d.locationOf(o); f != nil {
		if s.decl {
			loc(f, 0, 80)
		} else {
			loc(f, 10, 13)
		}
	}
	if f := d.embedded(o, "refLocation"); f != nil {
		loc(f, 10, 13)
	} else if s.decl && !s.maybe {
		d.fail("where the name of a %s stands is not known", s.kind)
	}
	if s.decl {
		if f := d.embedded(o, "Scope"); f != nil {
			f.v = run.typeString(`\here\foo`)
		}
	}
	return rIface{types.NewPointer(n), o}
}

// document makes a document with symbols.
func (x *refRun) document(i int, syms []refSym) *rCell {
	d := x.d
	doc := d.NewObject(x.doc)
	d.Field(doc, "uri").v = rStr(refURI(i))
	var vs []rv
	for _, s := range syms {
		vs = append(vs, x.object(s))
	}
	d.Field(doc, "Children").v = d.Slice(vs...)
	x.docs[refURI(i)] = doc
	return doc
}

func (x *refRun) isDB(v rv) string {
	if i, ok := v.(rIface); ok {
		v = i.v
	}
	if u, ok := v.(rUnk); ok && (strings.HasPrefix(u.id, "database ") || strings.HasPrefix(u.id, "batch ")) {
		return u.id
	}
	return ""
}

// put writes what is encoded: length, text.
func item(kind string, s string) string { return fmt.Sprintf("%s%d:%s", kind, len(s), s) }

func (x *refRun) next(cell *rCell, kind string) (string, bool) {
	s := x.enced[cell]
	if !strings.HasPrefix(s, kind) {
		return "", false
	}
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return "", false
	}
	n, err := strconv.Atoi(s[len(kind):i])
	if err != nil || i+1+n > len(s) {
		return "", false
	}
	x.enced[cell] = s[i+1+n:]
	return s[i+1 : i+1+n], true
}

func basicKind(t types.Type) string {
	if isBytes(t) {
		return "s"
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch {
	case b.Info()&types.IsString != 0:
		return "s"
	case b.Info()&types.IsBoolean != 0:
		return "b"
	case b.Kind() == types.Uint32:
		return "w"
	case b.Info()&types.IsFloat != 0:
		return ""
	case b.Info()&types.IsInteger != 0:
		return "i"
	}
	return ""
}

func (x *refRun) coding(d *Dom, c *DomCall, recv *types.Named) (rv, bool) {
	fn := c.Fn
	sig := fn.Signature
	cell, ok := c.Args[0].(*rCell)
	if !ok {
		return nil, false
	}
	if recv == x.enc {
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isBytes(sig.Results().At(0).Type()) {
			return rByts(x.enced[cell]), true
		}
		if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			return nil, false
		}
		kind := basicKind(sig.Params().At(0).Type())
		if kind == "" {
			return nil, false
		}
		switch v := c.Args[1].(type) {
		case rStr:
			x.enced[cell] += item(kind, string(v))
		case rByts:
			x.enced[cell] += item(kind, string(v))
		case rBool:
			x.enced[cell] += item(kind, fmt.Sprint(bool(v)))
		case rInt:
			if !v.konst() {
				d.fail("a number that is not known is written at %s", d.P.InstrPos(c.Instr))
			}
			x.enced[cell] += item(kind, fmt.Sprint(v.c))
		case rNil:
			x.enced[cell] += item(kind, "")
		default:
			d.fail("what is written at %s is not known", d.P.InstrPos(c.Instr))
		}
		return rNil{}, true
	}
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil, false
	}
	if fn.Name() == "Len" {
		return intOf(int64(len(x.enced[cell]))), true
	}
	t := sig.Results().At(0).Type()
	kind := basicKind(t)
	if kind == "" {
		return nil, false
	}
	s, ok := x.next(cell, kind)
	if !ok {
		d.exc(c.Instr, "something else is read than was written")
	}
	switch {
	case isBytes(t):
		return rByts(s), true
	case kind == "s":
		return rStr(s), true
	case kind == "b":
		return rBool(s == "true"), true
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		d.exc(c.Instr, "something else is read than was written")
	}
	return intOf(n), true
}

func (x *refRun) key(v rv) string {
	s, ok := textOf(v)
	if !ok || strings.ContainsFunc(s, isAtom) {
		x.d.fail("a key that is not known")
	}
	return s
}

func (x *refRun) database(d *Dom, c *DomCall, db, name string) (rv, bool) {
	notFound := rUnk{id: "not found", t: types.Universe.Lookup("error").Type(), nonNil: true}
	if m := x.pending[db]; m != nil {
		switch name {
		case "Put":
			v, ok := textOf(c.Args[2])
			if _, isNil := c.Args[2].(rNil); isNil {
				ok = true
			}
			if !ok {
				d.fail("what is put at %s is not known", d.P.InstrPos(c.Instr))
			}
			*m = append(*m, [3]string{"put", x.key(c.Args[1]), v})
			return rNil{}, true
		case "Delete":
			*m = append(*m, [3]string{"delete", x.key(c.Args[1]), ""})
			return rNil{}, true
		}
		return nil, false
	}
	m := x.stores[db]
	switch name {
	case "Get":
		if v, ok := m[x.key(c.Args[1])]; ok {
			return rTuple{rByts(v), rNil{}}, true
		}
		if strings.Contains(db, "pogreb") {
			return rTuple{rNil{}, rNil{}}, true
		}
		return rTuple{rNil{}, notFound}, true
	case "Put":
		v, ok := textOf(c.Args[2])
		if _, isNil := c.Args[2].(rNil); !ok && !isNil {
			d.fail("what is put at %s is not known", d.P.InstrPos(c.Instr))
		}
		m[x.key(c.Args[1])] = v
		return rNil{}, true
	case "Delete":
		delete(m, x.key(c.Args[1]))
		return rNil{}, true
	case "PrefixStream":
		prefix := x.key(c.Args[1])
		var keys []string
		for k := range m {
			if strings.HasPrefix(k, prefix) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		iter := c.Fn.Signature
		if c.Iface != nil {
			iter = c.Iface.Type().(*types.Signature)
		}
		cb, ok := iter.Params().At(iter.Params().Len() - 1).Type().Underlying().(*types.Signature)
		if !ok {
			return nil, false
		}
		for _, k := range keys {
			v := m[k]
			d.serial++
			id := fmt.Sprintf("iterator %d", d.serial)
			x.iters()[id] = [2]string{k, v}
			d.CallFunc(c, c.Args[2], rUnk{id: id, t: cb.Params().At(0).Type(), nonNil: true})
			if _, stopped := x.iters()[id+" stopped"]; stopped {
				break
			}
		}
		return rNil{}, true
	case "WriteBatch":
		cb, ok := c.Args[1].(rFunc)
		if !ok {
			return nil, false
		}
		d.serial++
		id := fmt.Sprintf("batch %d", d.serial)
		x.pending[id] = &[][3]string{}
		r := d.CallFunc(c, cb, rUnk{id: id, t: cb.fn.Signature.Params().At(0).Type(), nonNil: true})
		if nilR, known := isNilRv(r); known && !nilR {
			return r, true
		}
		for _, op := range *x.pending[id] {
			if op[0] == "put" {
				m[op[1]] = op[2]
			} else {
				delete(m, op[1])
			}
		}
		return rNil{}, true
	case "Clear":
		for k := range m {
			delete(m, k)
		}
		return rNil{}, true
	case "Close":
		return rNil{}, true
	}
	return nil, false
}

var refIters map[string][2]string

func (x *refRun) iters() map[string][2]string { return refIters }

func (x *refRun) hook(d *Dom, c *DomCall) (rv, bool) {
	if len(c.Args) > 0 && (c.Fn == nil || c.Fn.Signature.Recv() != nil) {
		name := ""
		if c.Fn != nil {
			name = c.Fn.Name()
		} else if c.Iface != nil {
			name = c.Iface.Name()
		}
		if db := x.isDB(c.Args[0]); db != "" && name != "" {
			if c.Fn == nil {
				return x.database(d, c, db, name)
			}
			return x.database(d, c, db, name)
		}
		recv := c.Args[0]
		if i, ok := recv.(rIface); ok {
			recv = i.v
		}
		if u, ok := recv.(rUnk); ok && strings.HasPrefix(u.id, "iterator ") {
			switch name {
			case "Key":
				return rByts(refIters[u.id][0]), true
			case "Value":
				return rByts(refIters[u.id][1]), true
			case "Stop":
				refIters[u.id+" stopped"] = [2]string{}
				return rNil{}, true
			}
		}
	}
	fn := c.Fn
	if fn == nil {
		return nil, false
	}
	var recv *types.Named
	if v := fn.Signature.Recv(); v != nil {
		recv = derefNamed(v.Type())
	}
	sig := fn.Signature
	res := sig.Results()
	pkg := pkgPathOf(fn)
	var res0 types.Type = types.Typ[types.Invalid]
	if res.Len() > 0 {
		res0 = res.At(0).Type()
	}
	switch {
	case recv == x.enc || recv == x.dec:
		return x.coding(d, c, recv)
	case recv == nil && derefNamed(res0) == x.enc && sig.Params().Len() == 0:
		return d.NewObject(x.enc), true
	case recv == nil && derefNamed(res0) == x.dec && sig.Params().Len() == 1:
		o := d.NewObject(x.dec)
		s, ok := textOf(c.Args[0])
		if _, isNil := c.Args[0].(rNil); !ok && !isNil {
			d.fail("what is read at %s is not known", d.P.InstrPos(c.Instr))
		}
		x.enced[o] = s
		return o, true
	case strings.HasSuffix(pkg, "/xxhash/v2") && fn.Name() == "Sum64":
		s := x.key(c.Args[0])
		if x.hashes[s] == 0 {
			x.hashes[s] = int64(len(x.hashes) + 1)
		}
		return intOf(x.hashes[s]), true
	case strings.HasSuffix(pkg, "/xorfilter") && fn.Name() == "Populate":
		set := map[int64]bool{}
		all, ok := d.Elems(c.Args[0])
		for _, e := range all {
			n, isInt := e.(rInt)
			ok = ok && isInt && n.konst()
			if ok && set[n.c] {
				return rTuple{rNil{}, rUnk{id: "too many iterations", t: res.At(1).Type(), nonNil: true}}, true
			}
			if ok {
				set[n.c] = true
			}
		}
		if !ok {
			d.fail("what a filter is made of is not known")
		}
		o := d.NewObject(derefType(res0))
		id := int64(len(x.sets) + 1)
		d.Field(o, "Seed").v = intOf(id)
		d.Field(o, "BlockLength").v = intOf(id + 1000)
		d.Field(o, "Fingerprints").v = rByts(fmt.Sprintf("prints %d", id))
		x.sets[fmt.Sprintf("%d %d prints %d", id, id+1000, id)] = set
		return rTuple{o, rNil{}}, true
	case strings.HasSuffix(pkg, "/xorfilter") && fn.Name() == "Contains":
		o, ok := c.Args[0].(*rCell)
		n, ok2 := c.Args[1].(rInt)
		if !ok || !ok2 {
			return nil, false
		}
		seed, _ := d.Field(o, "Seed").v.(rInt)
		bl, _ := d.Field(o, "BlockLength").v.(rInt)
		fp, _ := textOf(d.Field(o, "Fingerprints").v)
		set, ok := x.sets[fmt.Sprintf("%d %d %s", seed.c, bl.c, fp)]
		if !ok {
			// not a filter that was made: it can say anything
			return rBool(d.decide("a filter that was not made has a key", d.P.InstrPos(c.Instr))), true
		}
		return rBool(set[n.c] || x.many), true
	case strings.HasSuffix(pkg, "/pogreb") && res.Len() == 2 && recv == nil:
		return rTuple{rUnk{id: "database pogreb", t: res0, nonNil: true}, rNil{}}, true
	case pkg == modPath+"/analysis/storage" && recv == nil && res.Len() == 2 && isErrorType(res.At(1).Type()) && len(c.Args) == 1:
		s, _ := textOf(c.Args[0])
		id := "database " + s
		return rTuple{rUnk{id: id, t: res0, nonNil: true}, rNil{}}, true
	case pkg == modPath+"/stub" && !isBoolType(res0):
		if _, ok := res0.Underlying().(*types.Slice); ok {
			if sl := res0.Underlying().(*types.Slice); isStringType(sl.Elem()) {
				return d.Slice(rStr("phpstorm-stubs://")), true
			}
			return d.Slice(), true
		}
	case pkg == modPath+"/util" && res.Len() == 0:
		return rNil{}, true
	case strings.HasSuffix(pkg, "/mapset"):
		if res.Len() == 0 {
			return rNil{}, true
		}
	case !inRepo(fn) && (pkg == "os" || pkg == "time"):
		if res.Len() == 2 && isErrorType(res.At(1).Type()) {
			return rTuple{rUnk{id: "file", t: res0, nonNil: true}, rNil{}}, true
		}
	case inRepo(fn) && fn.Name() == "Serialise" && sig.Params().Len() == 1 && recv != nil && d.locationOfType(recv):
		// what is stored of the symbol itself
		return rNil{}, true
	case inAnalysis(fn) && x.takesIndexable(sig):
		if res.Len() == 0 {
			return rNil{}, true
		}
		return d.zero(res0), true
	case res.Len() == 1 && derefNamed(res0) == x.store && inLsp(fn) && recv != x.store:
		return x.st, true
	case recv == x.store && res.Len() == 1 && derefNamed(res0) == x.doc:
		for _, a := range c.Args[1:] {
			if s, ok := a.(rStr); ok && x.docs[string(s)] != nil {
				return x.docs[string(s)], true
			}
		}
		return rNil{}, true
	case recv == x.table && res.Len() == 1:
		i, ok := x.tableOf(c.Args[0])
		ns := "elsewhere"
		if ok {
			ns = refNS[i]
		}
		if isStringType(res0) && sig.Params().Len() == 0 {
			return rStr(ns), true
		}
		if sl, isSl := res0.Underlying().(*types.Slice); isSl && isStringType(sl.Elem()) && len(c.Args) == 2 {
			if !strings.Contains(fn.Name(), "Function") {
				return nil, false
			}
			name, ok := member(d, c.Args[1], "original").(rStr)
			if !ok {
				d.fail("a name that is not known at %s", d.P.InstrPos(c.Instr))
			}
			if ns == "" {
				return d.Slice(rStr(`\` + string(name))), true
			}
			return d.Slice(rStr(`\`+ns+`\`+string(name)), rStr(`\`+string(name))), true
		}
	case recv == x.doc:
		switch {
		case derefNamed(res0) == x.table:
			o := d.NewObject(x.table)
			i := -1
			for _, a := range c.Args[1:] {
				if n, ok := member(d, a, "Line").(rInt); ok && n.konst() && n.c >= 1000 {
					i = int(n.c/1000) - 1
				}
			}
			x.mark(o, i)
			return o, true
		case derefNamed(res0) == x.stack:
			if x.at == nil {
				return nil, false
			}
			return x.spine(x.at), true
		case res.Len() == 1 && isStringType(res0) && sig.Params().Len() == 1:
			return rStr(x.text(c.Args[1])), true
		case res.Len() == 1 && isBytes(res0):
			return rByts("the hash"), true
		case res.Len() == 0:
			return rNil{}, true
		case res.Len() == 1 && derefNamed(res0) != nil && derefNamed(res0).Obj().Name() == "Range" && x.at != nil:
			r := d.zero(res0).(*rStruct)
			run := &lookupRun{lookups: x.lookups, d: d}
			cell := d.cell(r)
			run.setInt(cell, "Start.Line", int64(x.at.line))
			run.setInt(cell, "Start.Character", 10)
			run.setInt(cell, "End.Line", int64(x.at.line))
			run.setInt(cell, "End.Character", 13)
			return cell.v, true
		case res.Len() == 1 && x.at != nil:
			if it, ok := res0.Underlying().(*types.Interface); ok {
				o := x.object(*x.at).(rIface)
				if x.at.decl || !types.Implements(o.t, it) {
					return rNil{}, true
				}
				return o, true
			}
			if b, ok := res0.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return intOf(5), true
			}
		}
	}
	return nil, false
}

// mark says which document the imports are of.
func (x *refRun) mark(o *rCell, i int) {
	run := &lookupRun{lookups: x.lookups, d: x.d}
	for _, f := range o.v.(*rStruct).f {
		if _, ok := f.v.(*rStruct); ok && x.d.Field(f, "Line") != nil {
			run.setInt(f, "Line", int64(1000*(i+1)))
		}
	}
}

func (x *refRun) tableOf(v rv) (int, bool) {
	if c, ok := v.(*rCell); ok {
		v = c.v
	}
	st, ok := v.(*rStruct)
	if !ok {
		return 0, false
	}
	for _, f := range st.f {
		if n, ok := member(x.d, f.v, "Line").(rInt); ok && n.konst() && n.c >= 1000 {
			return int(n.c/1000) - 1, true
		}
	}
	return 0, false
}

// locationOfType tells whether objects of a type stand somewhere.
func (d *Dom) locationOfType(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	return ok && st.NumFields() > 0 && d.locationOf(d.NewObject(n)) != nil
}

func (r *references) takesIndexable(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if n := derefNamed(sig.Params().At(i).Type()); n != nil && n.Obj().Name() == "NameIndexable" {
			return true
		}
	}
	return false
}

func (x *refRun) start() {
	x.d.Events = nil
	x.stores = map[string]map[string]string{"database pogreb": {}, "database store": {}, "database store/completion": {}}
	x.pending = map[string]*[][3]string{}
	x.enced = map[*rCell]string{}
	x.texts, x.hashes, x.sets = map[int64]string{}, map[string]int64{}, map[string]map[int64]bool{}
	x.docs, x.at, x.offset = map[string]*rCell{}, nil, 0
	refIters = map[string][2]string{}
	x.d.Hook = x.hook
}

func (x *refRun) open() bool {
	var args []rv
	strs := 0
	for _, q := range x.newStore.Params {
		if isStringType(q.Type()) {
			args = append(args, rStr([]string{refRoot, "store"}[strs%2]))
			strs++
		} else {
			args = append(args, rUnk{id: "some " + q.Name(), t: q.Type(), nonNil: true})
		}
	}
	made, ok := x.d.Run(x.newStore, args, nil).(rTuple)
	if !ok {
		x.d.fail("what %s returns is not known", fnName(x.newStore))
	}
	if x.st, ok = made[0].(*rCell); !ok {
		return false
	}
	return true
}

// places are the places of a list, with how often each is in it.
func (x *refRun) places(v rv) map[refPlace]int {
	out := map[refPlace]int{}
	all, ok := x.d.Elems(v)
	if !ok {
		x.d.fail("the places that are found are not known")
	}
	for _, e := range all {
		u, ok := textOf(member(x.d, e, "URI"))
		l, ok2 := member(x.d, e, "Range.Start.Line").(rInt)
		ch, ok3 := member(x.d, e, "Range.Start.Character").(rInt)
		end, ok4 := member(x.d, e, "Range.End.Character").(rInt)
		endL, ok5 := member(x.d, e, "Range.End.Line").(rInt)
		if !ok || !ok2 || !ok3 || !ok4 || !ok5 {
			x.d.fail("a place that is found is not known")
		}
		if ch.c != 10 || end.c != 13 || endL.c != l.c {
			u += fmt.Sprintf(" (characters %d to %d)", ch.c, end.c)
		}
		out[refPlace{u, l.c}]++
	}
	return out
}

// differ compares what is found with what is there.
func (r *references) differ(key, name string, got, want map[refPlace]int, syms map[refPlace]refSym, pos string, res DomResult) {
	show := func(p refPlace) string {
		if s, ok := syms[p]; ok {
			return s.String()
		}
		return fmt.Sprintf("line %d of %s", p.line, p.uri)
	}
	for _, p := range sortedPlaces(want) {
		if got[p] == 0 {
			r.c.Report(key+"/not-found", pos, fmt.Sprintf("%s: the %s is not found", name, show(p)), res.Trail)
		} else if got[p] > 1 {
			r.c.Report(key+"/more-than-once", pos, fmt.Sprintf("%s: the %s is found %d times", name, show(p), got[p]), res.Trail)
		}
	}
	for _, p := range sortedPlaces(got) {
		if want[p] == 0 {
			r.c.Report(key+"/found", pos, fmt.Sprintf("%s: the %s is found", name, show(p)), res.Trail)
		}
	}
}

func sortedPlaces(m map[refPlace]int) []refPlace {
	var out []refPlace
	for p := range m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].uri != out[j].uri {
			return out[i].uri < out[j].uri
		}
		return out[i].line < out[j].line
	})
	return out
}

// explore runs something from an empty store.
func (r *references) explore(name string, many bool, pos string, run func(x *refRun), end func(x *refRun, res DomResult)) {
	d := newDom(r.p)
	d.MaxSteps = 3000000
	x := &refRun{references: r, d: d, many: many}
	why := d.Explore(func() rv {
		x.start()
		if !x.open() {
			return rNil{}
		}
		run(x)
		return rBool(true)
	}, func(res DomResult) {
		if res.Panics != "" {
			r.c.Report("references/panics/"+name, pos, fmt.Sprintf("%s fails: %s", name, res.Panics), res.Trail)
			return
		}
		if _, ok := res.Val.(rBool); !ok {
			return
		}
		end(x, res)
	})
	if why != "" {
		r.c.Undecided("the references found (%s) cannot be followed: %s", name, why)
	}
	for f := range d.Funcs {
		r.c.Fn(f)
	}
	r.c.Count("instructions interpreted", d.Steps)
}

// answers decides what is answered for every symbol of the documents.
func (r *references) answers(fn *ssa.Function) {
	docs := refDocs()
	syms := map[refPlace]refSym{}
	var all []refSym
	for i, ss := range docs {
		for _, s := range ss {
			syms[refPlace{refURI(i), int64(s.line)}] = s
			all = append(all, s)
		}
	}
	pos := r.p.Pos(fn.Pos())
	got := make([]map[refPlace]int, len(all))
	r.explore("documents with all kinds of symbols", false, pos, func(x *refRun) {
		for i, ss := range docs {
			x.d.Run(x.sync, []rv{x.st, x.document(i, ss)}, nil)
		}
		run := &lookupRun{lookups: r.lookups, d: x.d}
		var lists []*rCell
		server := r.r.object(x.d, types.NewPointer(r.server), []rv{x.st}, &lists, 0)
		for i := range all {
			s := all[i]
			x.at = &s
			args := []rv{server}
			for _, q := range fn.Params[1:] {
				pt, ok := q.Type().Underlying().(*types.Pointer)
				if !ok {
					args = append(args, rUnk{id: "some " + q.Name(), t: q.Type(), nonNil: true})
					continue
				}
				o := x.d.NewObject(pt.Elem())
				if f := x.d.deepField(o, "TextDocument.URI"); f != nil {
					f.v = rStr(refURI(s.doc))
				}
				run.setInt(o, "Position.Line", int64(s.line))
				run.setInt(o, "Position.Character", 11)
				args = append(args, o)
			}
			t, ok := x.d.Run(fn, args, nil).(rTuple)
			if !ok || len(t) == 0 {
				x.d.fail("the answer is not known")
			}
			got[i] = x.places(t[0])
			x.at = nil
		}
	}, func(x *refRun, res DomResult) {
		for i, s := range all {
			want := map[refPlace]int{}
			for _, o := range all {
				for _, k := range o.keys {
					if contains(s.keys, k) {
						place := refPlace{refURI(o.doc), int64(o.line)}
						if o.maybe && got[i][place] != 1 {
							continue
						}
						want[place] = 1
					}
				}
			}
			what := "use"
			if s.decl {
				what = "declaration"
			}
			r.differ("references/of-"+what+"/"+s.kind, "the references of the "+s.String(), got[i], want, syms, pos, res)
			r.c.Seen("symbols whose references are asked for", s.String())
		}
	})
}

type refStep struct {
	op   string // index, delete, reopen
	doc  int
	syms []int // of the pool
}

func (s refStep) String() string {
	switch s.op {
	case "index":
		return fmt.Sprintf("index %c%v", 'A'+s.doc, s.syms)
	case "delete":
		return fmt.Sprintf("delete %c", 'A'+s.doc)
	}
	return s.op
}

// histories decides what is found after documents were indexed and deleted.
func (r *references) histories() {
	pool := []refSym{
		used("ClassAccess", "foo", "type", `\here\foo`),
		used("MethodAccess", "foo", "Method", "foo"),
		used("ScopedMethodAccess", "foo", "Method", "foo"),
		declared("Method", "foo", "here", "Name"),
		used("PropertyAccess", "foo", "Property", "$foo"),
		used("FunctionCall", "foo", "function", `\here\foo`, `\foo`),
	}
	asked := map[string]string{
		"type \\here\\foo":     `\here\foo`,
		"Method foo":           ".foo()",
		"Property $foo":        ".$foo",
		"function \\here\\foo": `\here\foo()`,
		"function \\foo":       `\foo()`,
	}
	ix := func(doc int, syms ...int) refStep { return refStep{"index", doc, syms} }
	del := func(doc int) refStep { return refStep{op: "delete", doc: doc} }
	re := refStep{op: "reopen"}
	var hs [][]refStep
	// every history of one document, and what happens with another
	firsts := [][]refStep{{ix(0, 0, 1, 2, 3, 4)}, {ix(0)}, {ix(0, 0), ix(1, 1, 2, 0)}, {ix(1, 0, 1, 5), ix(0, 1, 1, 5)}}
	thens := [][]refStep{nil, {ix(0, 1, 5)}, {ix(0)}, {del(0)}, {del(0), ix(0, 2, 4)}, {ix(0, 4), ix(0, 0, 1)}, {del(1)}}
	for _, f := range firsts {
		for _, t := range thens {
			h := append(append([]refStep(nil), f...), t...)
			hs = append(hs, h)
			withRe := append(append([]refStep(nil), f...), re)
			hs = append(hs, append(withRe, t...))
			hs = append(hs, append(append([]refStep(nil), h...), re))
		}
	}
	if r.c.Tier == "thorough" {
		n := len(hs)
		for i := 0; i < n; i++ {
			for _, t := range thens[1:] {
				hs = append(hs, append(append([]refStep(nil), hs[i]...), t...))
				hs = append(hs, append(append(append([]refStep(nil), hs[i]...), re), t...))
			}
		}
	}
	pos := r.p.Pos(r.get.Pos())
	for _, h := range hs {
		h := h
		for _, many := range []bool{false, true} {
			want := map[string]map[refPlace]int{}
			cur := map[int][]refSym{}
			seen := map[refPlace]refSym{}
			build := func(doc int, which []int, step int) []refSym {
				var out []refSym
				for j, w := range which {
					s := pool[w]
					s.doc, s.line = doc, 1000*(doc+1)+10*step+j
					out = append(out, s)
					seen[refPlace{refURI(doc), int64(s.line)}] = s
				}
				return out
			}
			for i, s := range h {
				switch s.op {
				case "index":
					cur[s.doc] = build(s.doc, s.syms, i)
				case "delete":
					delete(cur, s.doc)
				}
			}
			for k := range asked {
				want[k] = map[refPlace]int{}
				for _, ss := range cur {
					for _, s := range ss {
						if contains(s.keys, k) {
							want[k][refPlace{refURI(s.doc), int64(s.line)}] = 1
						}
					}
				}
			}
			got := map[string]map[refPlace]int{}
			name := fmt.Sprint(h)
			r.explore(name, many, pos, func(x *refRun) {
				for i, s := range h {
					switch s.op {
					case "index":
						x.d.Run(x.sync, []rv{x.st, x.document(s.doc, build(s.doc, s.syms, i))}, nil)
					case "delete":
						x.d.Run(x.del, []rv{x.st, rStr(refURI(s.doc))}, nil)
					case "reopen":
						if !x.open() {
							x.d.fail("the store cannot be opened again")
						}
					}
				}
				for _, k := range sortedKeys(asked) {
					got[k] = x.places(x.d.Run(x.get, []rv{x.st, rStr(asked[k])}, nil))
				}
			}, func(x *refRun, res DomResult) {
				for _, k := range sortedKeys(asked) {
					r.differ("references/history", "after "+name+" for "+k, got[k], want[k], seen, pos, res)
				}
			})
			r.c.Seen("histories of documents", fmt.Sprint(name, many))
		}
	}
}

func (r *references) find() bool {
	p := r.p
	r.lookups = &lookups{c: r.c, p: p}
	if !r.lookups.find() {
		return false
	}
	r.enc, r.dec = p.Named("analysis/storage", "Encoder"), p.Named("analysis/storage", "Decoder")
	r.stack = p.Named("util", "NodeStack")
	r.newStore = p.Func("analysis", "NewStore")
	r.sync, r.del, r.get = p.Method(r.store, "SyncDocument"), p.Method(r.store, "DeleteDocument"), p.Method(r.store, "GetReferences")
	if r.stack != nil {
		u := r.stack.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			t := u.Field(i).Type()
			if sl, ok := t.Underlying().(*types.Slice); ok {
				r.phrase = derefNamed(sl.Elem())
			} else if n := derefNamed(t); n != nil {
				r.token = n
			}
		}
	}
	if r.enc == nil || r.dec == nil || r.stack == nil || r.phrase == nil || r.token == nil || r.newStore == nil || r.sync == nil || r.del == nil || r.get == nil {
		r.c.Undecided("what indexes documents, or what answers about them, is not found")
		return false
	}
	return true
}

func rulesReferences(c *Ctx) {
	c.Rule("the answer to textDocument/references for a declaration or a use is where the name stands in exactly those declarations and uses, of all documents that are indexed, of the same kind and name: of classes and interfaces, and of functions, the fully qualified one (an unqualified call has the one in its namespace and the global one), of members the name; each once")
	c.Rule("what is found for a name is exactly what the last indexing of each document that was not deleted since recorded for it, also after the store was opened again, whatever the filters let pass that they do not have")
	r := &references{lookups: &lookups{c: c, p: c.P}}
	if !r.find() {
		return
	}
	fn := r.handler("References")
	if fn == nil {
		return
	}
	r.answers(fn)
	r.histories()
	c.AtLeast("symbols whose references are asked for", 30)
	c.AtLeast("histories of documents", 100)
}

func init() {
	register("C18", "references", nil, rulesReferences)
}
