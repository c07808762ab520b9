package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// accessCase is a member and how it is accessed.
type accessCase struct {
	through string // what stands before :: or ->
	types   []string
	related bool // the class of the member extends or implements an accessed type
	scope   string
	vis     string
	static  bool
	op      string
}

func (a accessCase) String() string {
	in := "the class the code is in"
	if a.scope != `\a` {
		in = "another class"
	}
	static := ""
	if a.static {
		static = "static "
	}
	of := "types"
	for _, t := range a.types {
		switch {
		case t == `\a`:
			of += ", the class the code is in"
		case t == a.scope:
			of += ", the class of the member"
		case a.related:
			of += ", what the class of the member extends"
		default:
			of += ", another"
		}
	}
	return fmt.Sprintf("a %s%s member of %s through %s%s (%s)", static, strings.ToLower(a.vis), in, a.through, a.op, strings.Replace(of, ", ", ": ", 1))
}

// allowed tells whether it may be found, and whether it has to be.
func (a accessCase) allowed() (may, must bool) {
	has := func(s string) bool {
		for _, t := range a.types {
			if t == s {
				return true
			}
		}
		return false
	}
	own := a.scope == `\a`
	private, public := a.vis == "Private", a.vis == "Public"
	exactly := func(b bool) (bool, bool) { return b, b }
	switch {
	case a.op == "->" && a.through == "$this":
		// what is private may be of a trait of the class
		return true, own || !private
	case a.op == "::" && (a.through == "$this" || a.through == "self" || a.through == "static"):
		return exactly(own || !private)
	case a.op == "::" && a.through == "parent":
		return exactly(!own && !private)
	case a.op == "::" && !a.static:
		return exactly(false)
	case public:
		return exactly(true)
	case a.op == "::":
		// what is of the accessed class itself
		may = has(a.scope) || !private && (a.related || has(`\a`))
		return may, has(a.scope) && own
	default:
		may = has(`\a`) || !private && a.related
		return may, has(`\a`) && (own || !private)
	}
}

// rulesAccess checks which members the functions that choose among them keep.
func rulesAccess(c *Ctx) {
	p := c.P
	c.Rule("for every kind of access ($this, self, static, parent, a class, an expression), type of what is accessed, visibility and class of a member, the functions that choose among members keep it if it can be accessed so and leave it out otherwise (abstract interpretation, the whole table is enumerated)")
	c.Rule("constructors are found if they are public")
	newName := p.Func("analysis", "NewTypeString")
	composite := p.Named("analysis", "TypeComposite")
	visType := p.Named("analysis", "VisibilityModifierValue")
	if newName == nil || composite == nil || visType == nil {
		c.Undecided("the visibility of members is not found")
		return
	}
	vis := map[string]rv{}
	pkg := visType.Obj().Pkg()
	for _, n := range []string{"Public", "Protected", "Private"} {
		k, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			c.Undecided("the visibilities are not found")
			return
		}
		v, _ := constant.Int64Val(constant.ToInt(k.Val()))
		vis[n] = intOf(v)
	}
	for _, k := range []struct{ member, class string }{{"Method", "GetClassMethods"}, {"Property", "GetClassProps"}, {"ClassConst", "GetClassClassConsts"}} {
		member := p.Named("analysis", k.member)
		get := p.Method(p.Named("analysis", "Query"), k.class)
		if member == nil || get == nil || get.Signature.Results().Len() != 1 {
			c.Undecided("the members of classes are not found")
			return
		}
		result, ok := get.Signature.Results().At(0).Type().(*types.Named)
		if !ok {
			c.Undecided("the members of classes are not found")
			return
		}
		ms := p.Methods(result)
		for _, name := range sortedKeys(ms) {
			fn := ms[name]
			sig := fn.Signature
			if !inRepo(fn) || fn.Synthetic != "" || sig.Results().Len() != 1 {
				continue
			}
			_, slice := sig.Results().At(0).Type().Underlying().(*types.Slice)
			_, strct := sig.Results().At(0).Type().Underlying().(*types.Struct)
			if !(slice && sig.Params().Len() == 2) && !(strct && sig.Params().Len() == 0) {
				continue
			}
			op := "->"
			if strings.Contains(name, "Static") {
				op = "::"
			}
			accessOf(c, result, member, fn, op, newName, composite, visType, vis)
		}
	}
	storedAccess(c)
	c.AtLeast("choice among members", 6)
}

// storedAccess checks that what is asked of a member is stored with it.
func storedAccess(c *Ctx) {
	p := c.P
	c.Rule("the fields that say of which class a member is, its visibility and whether it is static are written to the index and read back")
	enc, dec := p.Named("analysis/storage", "Encoder"), p.Named("analysis/storage", "Decoder")
	if enc == nil || dec == nil {
		c.Undecided("the encoder and the decoder of the index are not found")
		return
	}
	with := func(fn *ssa.Function, t *types.Named) bool {
		for _, q := range fn.Params {
			if derefNamed(q.Type()) == t {
				return true
			}
		}
		return false
	}
	for _, mn := range []string{"Method", "Property", "ClassConst"} {
		member := p.Named("analysis", mn)
		if member == nil {
			c.Undecided("the members of classes are not found")
			return
		}
		written, read := map[string]bool{}, map[string]bool{}
		for _, fn := range p.Repo {
			e, d := with(fn, enc), with(fn, dec)
			if !e && !d {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || derefNamed(fa.X.Type()) != member {
						continue
					}
					for _, u := range *fa.Referrers() {
						if st, isStore := u.(*ssa.Store); isStore && st.Addr == fa {
							if d {
								read[nameOfField(fa)] = true
							}
						} else if e {
							written[nameOfField(fa)] = true
						}
					}
				}
			}
		}
		for _, ask := range []string{"ScopeTypeString", "Visibility", "IsStatic"} {
			fn := p.Method(member, ask)
			if fn == nil {
				c.Undecided("%s of a %s is not found", ask, mn)
				continue
			}
			c.Fn(fn)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || derefNamed(fa.X.Type()) != member {
						continue
					}
					f := nameOfField(fa)
					c.Seen("field that access depends on", mn+"."+f)
					if !written[f] || !read[f] {
						c.Report("stored/"+mn+"."+f, p.InstrPos(in), fmt.Sprintf("%s.%s, on which access to what is found in the index depends, is not stored there", mn, f), nil)
					}
				}
			}
		}
	}
	c.AtLeast("field that access depends on", 8)
}

func accessOf(c *Ctx, result, member *types.Named, fn *ssa.Function, op string, newName *ssa.Function, composite, visType *types.Named, vis map[string]rv) {
	p := c.P
	sig := fn.Signature
	c.Seen("choice among members", shortFn(fn))
	c.Fn(fn)
	d := newDom(p)
	d.MaxPaths, d.MaxSteps = 20000, 100000
	var a accessCase
	name := func(s string) rv { return d.Run(newName, []rv{rStr(s)}, nil) }
	d.Hook = func(d *Dom, dc *DomCall) (rv, bool) {
		if dc.Iface == nil {
			return nil, false
		}
		switch dc.Iface.Name() {
		case "ScopeName":
			return rStr(a.through), true
		case "ScopeTypes":
			z := d.zero(composite).(*rStruct)
			var vs []rv
			for _, t := range a.types {
				vs = append(vs, name(t))
			}
			for _, f := range z.f {
				f.v = d.Slice(vs...)
			}
			return z, true
		}
		return nil, false
	}
	pick := func(id string, n int) int {
		for i := 0; i < n-1; i++ {
			if d.decide(fmt.Sprintf("%s %d", id, i), "the access") {
				return i
			}
		}
		return n - 1
	}
	bad := map[string]string{}
	cases := 0
	hasStatic := false
	u := member.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		hasStatic = hasStatic || strings.EqualFold(u.Field(i).Name(), "isStatic")
	}
	why := d.Explore(func() rv {
		through := []string{"$this", "$x", ""}
		if op == "::" {
			through = []string{"self", "static", "parent", "$this", "$x", "A", ""}
		}
		a = accessCase{op: op}
		a.through = through[pick("through", len(through))]
		a.types = [][]string{nil, {`\a`}, {`\b`}, {`\c`}, {`\c`, `\a`}, {`\c`, `\b`}}[pick("types", 6)]
		a.scope = []string{`\a`, `\b`}[pick("scope", 2)]
		a.vis = []string{"Public", "Protected", "Private"}[pick("visibility", 3)]
		a.static = !hasStatic || pick("static", 2) == 0
		a.related = pick("related", 2) == 0
		if a.through == "$this" && !(len(a.types) == 1 && a.types[0] == `\a`) {
			return nil // it has only that type
		}
		cases++
		m := d.NewObject(member)
		okVis, okScope := false, false
		for i, f := range m.v.(*rStruct).f {
			ft := u.Field(i).Type()
			switch {
			case types.Identical(ft, visType):
				f.v, okVis = vis[a.vis], true
			case u.Field(i).Name() == "Scope":
				f.v, okScope = name(a.scope), true
			case u.Field(i).Name() == "Name":
				if isStringType(ft) {
					f.v = rStr("m")
				}
			case strings.EqualFold(u.Field(i).Name(), "isStatic"):
				f.v = rBool(a.static)
			}
		}
		if !okVis || !okScope {
			d.fail("the visibility or the class of a %s is not found", member.Obj().Name())
		}
		res := d.zero(result).(*rStruct)
		ru := result.Underlying().(*types.Struct)
		for i, f := range res.f {
			switch ft := ru.Field(i).Type().Underlying().(type) {
			case *types.Slice:
				e := d.zero(ft.Elem()).(*rStruct)
				eu := ft.Elem().Underlying().(*types.Struct)
				for j, ef := range e.f {
					if derefNamed(eu.Field(j).Type()) == member {
						ef.v = m
					}
				}
				f.v = d.Slice(e)
			case *types.Map:
				if inner, ok := ft.Elem().Underlying().(*types.Map); ok {
					rel := &rMap{}
					if a.related {
						in := &rMap{}
						in.keys = append(in.keys, rStr(`\c`))
						in.vals = append(in.vals, d.zero(inner.Elem()))
						rel.keys = append(rel.keys, rStr(a.scope))
						rel.vals = append(rel.vals, in)
					}
					f.v = rel
				}
			}
		}
		if a.related && !strings.Contains(strings.Join(a.types, " "), `\c`) {
			a.related = false
		}
		var recv rv = res
		if _, ptr := sig.Recv().Type().Underlying().(*types.Pointer); ptr {
			recv = d.cell(res)
		}
		args := []rv{recv}
		if sig.Params().Len() == 2 {
			args = append(args, rStr(`\a`), d.Unknown("access", sig.Params().At(1).Type()))
		}
		out := d.Run(fn, args, nil)
		got := false
		switch o := out.(type) {
		case rSlice:
			got = o.len > 0
		case *rStruct:
			for _, f := range o.f {
				if f.v == rv(m) {
					got = true
				}
			}
		case rNil:
		default:
			d.fail("an answer that is a %T", out)
		}
		may, must := a.allowed()
		desc := a.String()
		if sig.Params().Len() == 0 {
			may = a.vis == "Public"
			must = may
			desc = "a " + strings.ToLower(a.vis) + " constructor"
		}
		if got && !may {
			key := "found/" + shortFn(fn)
			if bad[key] == "" {
				bad[key] = fmt.Sprintf("%s finds %s", shortFn(fn), desc)
			}
		}
		if !got && must {
			key := "lost/" + shortFn(fn)
			if bad[key] == "" {
				bad[key] = fmt.Sprintf("%s does not find %s", shortFn(fn), desc)
			}
		}
		return nil
	}, func(res DomResult) {
		if res.Panics != "" && bad["panic/"+shortFn(fn)] == "" {
			bad["panic/"+shortFn(fn)] = fmt.Sprintf("%s fails: %s (%s)", shortFn(fn), res.Panics, a.String())
		}
	})
	c.Count("cases", cases)
	c.Count("instructions interpreted", d.Steps)
	for f := range d.Funcs {
		c.Fn(f)
	}
	if why != "" {
		c.Undecided("what %s keeps is not known: %s", shortFn(fn), why)
	}
	for _, key := range sortedKeys(bad) {
		c.Report(key, p.Pos(fn.Pos()), bad[key], nil)
	}
}

func init() {
	register("C23", "Abstract interpretation of the rules of access over the table of kinds of access and of members.", nil, rulesAccess)
}
