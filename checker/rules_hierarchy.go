package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hierKind is one kind of members.
type hierKind struct {
	what        string
	member      *types.Named
	result      *types.Named
	class       *ssa.Function
	iface       *ssa.Function
	searchClass *ssa.Function
	searchIface *ssa.Function
	empty       *ssa.Function
	merge       *ssa.Function
	traits      bool
}

// hier is what C22 knows.
type hier struct {
	c       *Ctx
	p       *Program
	query   *types.Named
	store   *types.Named
	decl    map[string]*types.Named // class, interface, trait
	newName *ssa.Function
	kinds   []*hierKind
	wide    bool
}

// hierRun interprets questions about one hierarchy, which is chosen while the
// questions are answered.
type hierRun struct {
	*hier
	d       *Dom
	kind    *hierKind
	names   map[string]rv
	objs    map[string]*rCell
	edges   map[string][]string // extends, of classes and interfaces
	impl    map[string][]string
	uses    map[string][]string
	members map[string]*rCell
	of      map[*rCell]string // scope and name
	asked   int
	matches int
}

var hierDecl = map[string]string{`\a`: "Class", `\b`: "Class", `\c`: "Class", `\i`: "Interface", `\j`: "Interface", `\k`: "Interface", `\t`: "Trait"}

func (r *hierRun) name(s string) rv {
	if v, ok := r.names[s]; ok {
		return copyVal(r.d, v)
	}
	v := r.d.Run(r.newName, []rv{rStr(s)}, nil)
	r.names[s] = v
	return copyVal(r.d, v)
}

func (r *hierRun) list(names []string) rv {
	if len(names) == 0 {
		return rNil{}
	}
	var vs []rv
	for _, n := range names {
		vs = append(vs, r.name(n))
	}
	return r.d.Slice(vs...)
}

// pick chooses one of several possibilities.
func (r *hierRun) pick(id string, options ...[]string) []string {
	for i := 0; i < len(options)-1; i++ {
		if r.d.decide(fmt.Sprintf("%s %s", id, strings.Join(options[i], ",")), "the hierarchy") {
			return options[i]
		}
	}
	return options[len(options)-1]
}

// object is the declaration of a name.
func (r *hierRun) object(name string) *rCell {
	if o := r.objs[name]; o != nil {
		return o
	}
	kind := hierDecl[name]
	o := r.d.NewObject(r.decl[kind])
	r.objs[name] = o
	set := func(field string, v rv) {
		f := r.d.Field(o, field)
		if f == nil {
			r.d.fail("a %s has no %s", kind, field)
		}
		f.v = v
	}
	set("Name", r.name(name))
	one := func(s string) []string { return []string{s} }
	switch name {
	case `\a`:
		r.edges[name] = r.pick("a extends", nil, one(`\a`), one(`\x`), one(`\b`))
		r.uses[name] = r.pick("a uses", nil, one(`\t`))
		r.impl[name] = r.pick("a implements", nil, []string{`\i`, `\j`})
	case `\b`:
		r.edges[name] = r.pick("b extends", nil, one(`\a`), one(`\c`))
		r.uses[name] = r.pick("b uses", nil, []string{`\x`, `\t`})
		r.impl[name] = r.pick("b implements", nil, []string{`\x`, `\i`})
	case `\c`:
		r.edges[name] = r.pick("c extends", nil, one(`\b`))
		if r.wide {
			r.uses[name] = r.pick("c uses", nil, one(`\t`))
			r.impl[name] = r.pick("c implements", nil, one(`\j`))
		}
	case `\i`:
		r.edges[name] = r.pick("i extends", nil, one(`\i`), []string{`\x`, `\j`, `\k`})
	case `\j`:
		r.edges[name] = r.pick("j extends", nil, one(`\i`), one(`\k`))
	case `\k`:
		if r.wide {
			r.edges[name] = r.pick("k extends", nil, one(`\j`))
		}
	}
	switch kind {
	case "Class":
		if e := r.edges[name]; len(e) > 0 {
			set("Extends", r.name(e[0]))
		}
		set("Use", r.list(r.uses[name]))
		set("Interfaces", r.list(r.impl[name]))
	case "Interface":
		set("Extends", r.list(r.edges[name]))
	}
	return o
}

func (r *hierRun) memberOf(scope, name string) *rCell {
	k := scope + " " + name
	if m := r.members[k]; m != nil {
		return m
	}
	m := r.d.NewObject(r.kind.member)
	if f := r.d.Field(m, "Name"); f != nil {
		if _, ok := f.v.(rStr); ok {
			f.v = rStr(name)
		}
	}
	u := r.kind.member.Underlying().(*types.Struct)
	for i, f := range m.v.(*rStruct).f {
		if isBoolType(u.Field(i).Type()) {
			f.v = r.d.Unknown(u.Field(i).Name()+" of "+k, u.Field(i).Type())
		}
	}
	r.members[k] = m
	r.of[m] = k
	return m
}

var hierNames = []string{"m", "n"}

// hook replaces what the store looks up.
func (r *hierRun) hook(d *Dom, c *DomCall) (rv, bool) {
	if c.Fn == nil {
		return nil, false
	}
	sig := c.Fn.Signature
	if sig.Recv() != nil && derefNamed(sig.Recv().Type()) == r.store && sig.Results().Len() == 1 {
		sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		var strs []string
		for _, a := range c.Args[1:] {
			s, ok := a.(rStr)
			if !ok {
				return nil, false
			}
			strs = append(strs, string(s))
		}
		elem := derefNamed(sl.Elem())
		r.asked++
		for kind, n := range r.decl {
			if elem == n && len(strs) == 1 {
				if hierDecl[strs[0]] == kind {
					return d.Slice(r.object(strs[0])), true
				}
				return d.Slice(), true
			}
		}
		if elem == r.kind.member {
			if hierDecl[strs[0]] == "" {
				return d.Slice(), true
			}
			switch len(strs) {
			case 2:
				for _, n := range hierNames {
					if n == strs[1] {
						return d.Slice(r.memberOf(strs[0], n)), true
					}
				}
				return d.Slice(), true
			case 1:
				var vs []rv
				for _, n := range hierNames {
					vs = append(vs, r.memberOf(strs[0], n))
				}
				return d.Slice(vs...), true
			}
		}
		return nil, false
	}
	if inRepo(c.Fn) && sig.Results().Len() == 2 && sig.Recv() == nil && isBoolType(sig.Results().At(0).Type()) && sig.Params().Len() == 2 && isStringType(sig.Params().At(0).Type()) {
		// whether a name matches a pattern
		r.matches++
		return rTuple{rBool(r.matches%3 != 1), d.Unknown("score", sig.Results().At(1).Type())}, true
	}
	return nil, false
}

// got lists the members of an answer.
func (r *hierRun) got(v rv) []string {
	s, ok := v.(*rStruct)
	if !ok {
		r.d.fail("an answer that is a %T", v)
	}
	var out []string
	var find func(v rv) string
	find = func(v rv) string {
		switch v := v.(type) {
		case *rCell:
			return r.of[v]
		case *rStruct:
			for _, f := range v.f {
				if k := find(f.v); k != "" {
					return k
				}
			}
		case rIface:
			return find(v.v)
		}
		return ""
	}
	for _, f := range s.f {
		if sl, ok := f.v.(rSlice); ok {
			vs, _ := r.d.Elems(sl)
			for _, e := range vs {
				k := find(e)
				if k == "" {
					k = "?"
				}
				out = append(out, k)
			}
		}
	}
	return out
}

// scopes are the declarations of a hierarchy, in the order of precedence;
// those in the last group are in any order.
func (r *hierRun) scopes(root string) (ordered []string, last map[string]bool) {
	last = map[string]bool{}
	var ifaces func(n string)
	ifaces = func(n string) {
		if last[n] || hierDecl[n] != "Interface" {
			return
		}
		last[n] = true
		r.object(n)
		for _, e := range r.edges[n] {
			ifaces(e)
		}
	}
	if hierDecl[root] == "Interface" {
		ifaces(root)
		return
	}
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			ordered = append(ordered, n)
		}
	}
	for cur := root; hierDecl[cur] == "Class" && !seen[cur]; {
		r.object(cur)
		add(cur)
		if r.kind.traits {
			for _, u := range r.uses[cur] {
				if hierDecl[u] == "Trait" {
					add(u)
				}
			}
		}
		for _, i := range r.impl[cur] {
			ifaces(i)
		}
		if len(r.edges[cur]) == 0 {
			break
		}
		cur = r.edges[cur][0]
	}
	return
}

func (r *hierRun) describe() string {
	var parts []string
	for _, n := range sortedKeys(r.objs) {
		s := strings.TrimPrefix(n, `\`)
		for _, e := range r.edges[n] {
			s += " extends " + strings.TrimPrefix(e, `\`)
		}
		for _, e := range r.uses[n] {
			s += " uses " + strings.TrimPrefix(e, `\`)
		}
		for _, e := range r.impl[n] {
			s += " implements " + strings.TrimPrefix(e, `\`)
		}
		if s != strings.TrimPrefix(n, `\`) {
			parts = append(parts, s)
		}
	}
	if len(parts) == 0 {
		return "nothing is inherited"
	}
	return strings.Join(parts, ", ") + `; there is no x`
}

// expect compares an answer with the hierarchy.
func (r *hierRun) expect(v rv, names []string, roots ...string) string {
	got := r.got(v)
	for _, n := range names {
		want := map[string]bool{}
		for _, root := range roots {
			ordered, last := r.scopes(root)
			at := -1
			firstLast := len(got)
			for _, s := range append(append([]string(nil), ordered...), sortedKeys(last)...) {
				want[s+" "+n] = true
				i := -1
				for j, g := range got {
					if g == s+" "+n {
						i = j
						break
					}
				}
				if i < 0 {
					return fmt.Sprintf("%s of %s is missing", n, strings.TrimPrefix(s, `\`))
				}
				if len(roots) > 1 {
					continue
				}
				if last[s] {
					if i < firstLast {
						firstLast = i
					}
					continue
				}
				if i < at {
					return fmt.Sprintf("%s of %s comes after what it overrides", n, strings.TrimPrefix(s, `\`))
				}
				at = i
			}
			if len(roots) == 1 && firstLast < at {
				return fmt.Sprintf("%s of an interface comes before that of a class", n)
			}
		}
		for _, g := range got {
			if strings.HasSuffix(g, " "+n) && !want[g] {
				return fmt.Sprintf("%s of %s, which is not of the hierarchy, is found", n, strings.TrimPrefix(strings.Fields(g)[0], `\`))
			}
		}
	}
	for _, g := range got {
		ok := false
		for _, n := range names {
			ok = ok || strings.HasSuffix(g, " "+n)
		}
		if !ok {
			return "something that was not asked for is found: " + strings.ReplaceAll(g, `\`, "")
		}
	}
	return ""
}

// scenario is a sequence of questions to one query.
type hierScenario struct {
	name string
	run  func(r *hierRun, q *rCell) string
}

func (r *hierRun) ask(q *rCell, fn *ssa.Function, of, name string, searched rv) rv {
	return r.d.Run(fn, []rv{q, r.object(of), rStr(name), searched}, nil)
}

func (r *hierRun) get(of string) *ssa.Function {
	if hierDecl[of] == "Interface" {
		return r.kind.iface
	}
	return r.kind.class
}

func (h *hier) scenarios() []hierScenario {
	once := func(of string) hierScenario {
		return hierScenario{"of " + strings.TrimPrefix(of, `\`), func(r *hierRun, q *rCell) string {
			if m := r.expect(r.ask(q, r.get(of), of, "m", rNil{}), []string{"m"}, of); m != "" {
				return m
			}
			if m := r.expect(r.ask(q, r.get(of), of, "n", rNil{}), []string{"n"}, of); m != "" {
				return "after another name was asked for: " + m
			}
			if m := r.expect(r.ask(q, r.get(of), of, "m", rNil{}), []string{"m"}, of); m != "" {
				return "when it is asked for again: " + m
			}
			return ""
		}}
	}
	search := func(of string) hierScenario {
		return hierScenario{"search in " + strings.TrimPrefix(of, `\`), func(r *hierRun, q *rCell) string {
			s := r.kind.searchClass
			if hierDecl[of] == "Interface" {
				s = r.kind.searchIface
			}
			if m := r.expect(r.ask(q, s, of, "", rNil{}), hierNames, of); m != "" {
				return m
			}
			r.ask(q, s, of, "k", rNil{})
			if m := r.expect(r.ask(q, r.get(of), of, "", rNil{}), hierNames, of); m != "" {
				return "after a search: " + m
			}
			return ""
		}}
	}
	collect := func(r *hierRun, q *rCell, of ...string) *rCell {
		all := r.d.cell(r.d.Run(r.kind.empty, nil, nil))
		for _, o := range of {
			var searched rv = rNil{}
			for i, f := range all.v.(*rStruct).f {
				if _, ok := r.kind.result.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map); ok {
					if mt := r.kind.class.Signature.Params().At(2).Type(); types.Identical(mt, r.kind.result.Underlying().(*types.Struct).Field(i).Type()) {
						searched = f.v
					}
				}
			}
			one := r.ask(q, r.get(o), o, "m", searched)
			r.d.Run(r.kind.merge, []rv{all, one}, nil)
		}
		return all
	}
	several := hierScenario{"of several", func(r *hierRun, q *rCell) string {
		// as handlers ask, for what can have several types
		if m := r.expect(collect(r, q, `\b`, `\a`, `\i`).v, []string{"m"}, `\b`, `\a`, `\i`); m != "" {
			return m
		}
		for _, of := range []string{`\a`, `\i`} {
			if m := r.expect(r.ask(q, r.get(of), of, "m", rNil{}), []string{"m"}, of); m != "" {
				return "after several were asked for: " + m
			}
		}
		return ""
	}}
	return []hierScenario{once(`\a`), once(`\i`), search(`\a`), search(`\i`), several}
}

func rulesHierarchy(c *Ctx) {
	p := c.P
	c.Rule("for every hierarchy of up to three classes, three interfaces and a trait (circular, with missing parts, reached by several ways) what a query finds are the members of exactly the classes, traits and interfaces of the hierarchy, those of a class before those of its traits, before those of its parents, before those of interfaces, and finding them ends (abstract interpretation; the store is replaced by the hierarchy, which is chosen as it is asked for)")
	c.Rule("that is so again after other names, searches and unions of several types were asked of the same query")
	c.Rule("of members of the same name the first that can be accessed is kept")
	h := &hier{c: c, p: p, decl: map[string]*types.Named{}, wide: c.Tier == "thorough"}
	h.query, h.store = p.Named("analysis", "Query"), p.Named("analysis", "Store")
	h.newName = p.Func("analysis", "NewTypeString")
	newQuery := p.Func("analysis", "NewQuery")
	for _, k := range []string{"Class", "Interface", "Trait"} {
		h.decl[k] = p.Named("analysis", k)
		if h.decl[k] == nil {
			c.Undecided("the declarations of classes, interfaces and traits are not found")
			return
		}
	}
	if h.query == nil || h.store == nil || h.newName == nil || newQuery == nil {
		c.Undecided("the queries are not found")
		return
	}
	for _, k := range []struct{ what, member, class, iface, sclass, siface string }{
		{"methods", "Method", "GetClassMethods", "GetInterfaceMethods", "SearchClassMethods", "SearchInterfaceMethods"},
		{"properties", "Property", "GetClassProps", "GetInterfaceProps", "SearchClassProps", "SearchInterfaceProps"},
		{"constants", "ClassConst", "GetClassClassConsts", "GetInterfaceClassConsts", "SearchClassClassConsts", "SearchInterfaceClassConsts"},
	} {
		x := &hierKind{what: k.what, member: p.Named("analysis", k.member), class: p.Method(h.query, k.class), iface: p.Method(h.query, k.iface),
			searchClass: p.Method(h.query, k.sclass), searchIface: p.Method(h.query, k.siface), traits: k.what != "constants"}
		if x.member == nil || x.class == nil || x.iface == nil || x.searchClass == nil || x.searchIface == nil || x.class.Signature.Results().Len() != 1 {
			c.Undecided("how the %s of classes and interfaces are found is not known", k.what)
			return
		}
		x.result, _ = x.class.Signature.Results().At(0).Type().(*types.Named)
		if x.result == nil {
			c.Undecided("what the %s of a class are is not known", k.what)
			return
		}
		x.merge = p.Method(x.result, "Merge")
		for fn := range p.CG.Nodes {
			if inRepo(fn) && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), x.result) {
				x.empty = fn
			}
		}
		if x.merge == nil || x.empty == nil {
			c.Undecided("how the %s of several classes are merged is not known", k.what)
			return
		}
		h.kinds = append(h.kinds, x)
	}
	for _, k := range h.kinds {
		for _, s := range h.scenarios() {
			h.explore(k, s, newQuery)
		}
		h.reduce(k)
	}
	c.AtLeast("way of asking", 15)
	c.AtLeast("choice among members", 5)
}

func (h *hier) explore(k *hierKind, s hierScenario, newQuery *ssa.Function) {
	c, p := h.c, h.p
	d := newDom(p)
	d.MaxPaths, d.MaxSteps = 60000, 300000
	var r *hierRun
	d.Hook = func(d *Dom, dc *DomCall) (rv, bool) { return r.hook(d, dc) }
	bad := map[string]string{}
	n := 0
	why := d.Explore(func() rv {
		r = &hierRun{hier: h, d: d, kind: k, names: map[string]rv{}, objs: map[string]*rCell{}, edges: map[string][]string{}, impl: map[string][]string{}, uses: map[string][]string{}, members: map[string]*rCell{}, of: map[*rCell]string{}}
		st := d.NewObject(h.store)
		q, ok := d.Run(newQuery, []rv{st}, nil).(*rCell)
		if !ok {
			d.fail("what %s makes is not known", shortFn(newQuery))
		}
		m := s.run(r, q)
		n++
		if m != "" {
			key := "members/" + k.what + "/" + s.name
			if bad[key] == "" {
				bad[key] = fmt.Sprintf("%s %s: %s (%s)", k.what, s.name, m, r.describe())
			}
		}
		return nil
	}, func(res DomResult) {
		if res.Panics != "" {
			key := "panic/" + k.what + "/" + s.name
			if bad[key] == "" {
				bad[key] = fmt.Sprintf("finding %s %s fails: %s (%s)", k.what, s.name, res.Panics, r.describe())
			}
		}
	})
	c.Count("instructions interpreted", d.Steps)
	c.Count("hierarchies", n)
	c.Seen("way of asking", k.what+" "+s.name)
	for fn := range d.Funcs {
		c.Fn(fn)
	}
	if why != "" {
		if strings.Contains(why, "steps") && r != nil {
			why += " (" + r.describe() + ")"
		}
		c.Undecided("whether finding %s %s comes to an end, and what it finds, is not known: %s", k.what, s.name, why)
	}
	for _, key := range sortedKeys(bad) {
		c.Report(key, p.Pos(k.class.Pos()), bad[key], nil)
	}
}

// reduce checks the functions that choose among members of the same name.
func (h *hier) reduce(k *hierKind) {
	c, p := h.c, h.p
	ms := p.Methods(k.result)
	for _, name := range sortedKeys(ms) {
		fn := ms[name]
		sig := fn.Signature
		if !inRepo(fn) || fn.Synthetic != "" || sig.Results().Len() != 1 || sig.Params().Len() != 2 {
			continue
		}
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		c.Seen("choice among members", shortFn(fn))
		d := newDom(p)
		d.MaxPaths, d.MaxSteps = 5000, 100000
		var r *hierRun
		allowed := map[string]bool{}
		d.Hook = func(d *Dom, dc *DomCall) (rv, bool) {
			if dc.Fn == nil || !inRepo(dc.Fn) {
				return nil, false
			}
			s := dc.Fn.Signature
			if s.Results().Len() == 1 && isBoolType(s.Results().At(0).Type()) {
				for _, a := range dc.Args {
					if f, ok := a.(rIface); ok {
						a = f.v
					}
					if m, ok := a.(*rCell); ok && r.of[m] != "" {
						allowed[r.of[m]] = d.decide("access to "+r.of[m], p.InstrPos(dc.Instr))
						return rBool(allowed[r.of[m]]), true
					}
				}
			}
			return nil, false
		}
		bad := ""
		why := d.Explore(func() rv {
			r = &hierRun{hier: h, d: d, kind: k, names: map[string]rv{}, objs: map[string]*rCell{}, edges: map[string][]string{}, impl: map[string][]string{}, uses: map[string][]string{}, members: map[string]*rCell{}, of: map[*rCell]string{}}
			for key := range allowed {
				delete(allowed, key)
			}
			res := &rStruct{t: k.result}
			u := k.result.Underlying().(*types.Struct)
			var order []string
			for i := 0; i < u.NumFields(); i++ {
				var v rv = d.zero(u.Field(i).Type())
				if sl, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
					var vs []rv
					for _, key := range []string{"1 m", "1 n", "2 m", "3 n", "3 m"} {
						f := strings.Fields(key)
						e := d.cell(d.zero(sl.Elem()))
						es := e.v.(*rStruct)
						eu := sl.Elem().Underlying().(*types.Struct)
						for j := 0; j < eu.NumFields(); j++ {
							if derefNamed(eu.Field(j).Type()) == k.member {
								es.f[j].v = r.memberOf(f[0], f[1])
							}
						}
						vs = append(vs, e.v)
						order = append(order, key)
					}
					v = d.Slice(vs...)
				}
				res.f = append(res.f, d.cell(v))
			}
			var recv rv = res
			if _, ptr := sig.Recv().Type().Underlying().(*types.Pointer); ptr {
				recv = d.cell(res)
			}
			out := d.Run(fn, []rv{recv, rStr(`\a`), d.Unknown("access", sig.Params().At(1).Type())}, nil)
			got := r.got(&rStruct{f: []*rCell{d.cell(out)}})
			if sl, ok := out.(rSlice); ok {
				_ = sl
			}
			var want []string
			have := map[string]bool{}
			for _, key := range order {
				nm := strings.Fields(key)[1]
				if have[nm] {
					continue
				}
				if d.decide("access to "+key, "the members") {
					have[nm] = true
					want = append(want, key)
				}
			}
			sort.Strings(want)
			sorted := append([]string(nil), got...)
			sort.Strings(sorted)
			if strings.Join(want, ";") != strings.Join(sorted, ";") && bad == "" {
				bad = fmt.Sprintf("of the members (scope, name) %s, of which those that can be accessed are known, %s keeps %s, not %s", strings.Join(order, "; "), shortFn(fn), strings.Join(got, "; "), strings.Join(want, "; "))
			}
			return nil
		}, func(res DomResult) {
			if res.Panics != "" && bad == "" {
				bad = shortFn(fn) + " fails: " + res.Panics
			}
		})
		c.Count("instructions interpreted", d.Steps)
		if why != "" {
			c.Undecided("what %s keeps is not known: %s", shortFn(fn), why)
		}
		if bad != "" {
			c.Report("first/"+shortFn(fn), p.Pos(fn.Pos()), bad, nil)
		}
	}
}

func init() {
	register("C22", "Abstract interpretation of the walks of the class hierarchy and of their cache.", nil, rulesHierarchy)
}
