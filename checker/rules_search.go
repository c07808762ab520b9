package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// search is what C32 knows.
type search struct {
	c       *Ctx
	p       *Program
	r       *routing
	store   *types.Named
	server  *types.Named
	opts    *types.Named
	result  *types.Named // of a search: complete or not
	list    *types.Named // of completions
	edit    *types.Named
	decoder *types.Named
	dbType  *types.Interface
	iter    types.Type
	any     *ssa.Function // stands for a condition
	find    []*ssa.Function
	isFind  map[*ssa.Function]bool
	canCut  map[*ssa.Function]bool // searches that say that they were cut
}

// elemOf is the named type of the elements of a list.
func elemOf(t types.Type) *types.Named {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return derefNamed(s.Elem())
}

// takesOf tells the type of what a search finds: "" for names.
func (s *search) finds(fn *ssa.Function) (types.Type, bool) {
	if derefNamed(derefRecv(fn)) != s.store {
		return nil, false
	}
	res := fn.Signature.Results()
	if res.Len() != 2 || derefNamed(res.At(1).Type()) != s.result {
		return nil, false
	}
	sl, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return sl.Elem(), true
}

// isMemberList tells whether a function gives the members that can be accessed:
// a list of structures with a member and where it was found.
func (s *search) isMemberList(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if fn.Signature.Recv() == nil || res.Len() != 1 || derefNamed(derefRecv(fn)) == s.store {
		return false
	}
	return memberStruct(res.At(0).Type()) != nil && inAnalysis(fn)
}

// memberStruct is the structure of a list of members: one member, its score.
func memberStruct(t types.Type) *types.Named {
	n := elemOf(t)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() < 2 {
		return nil
	}
	ptrs, scope := 0, false
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Pointer:
			ptrs++
		case *types.Interface:
			scope = true
		}
	}
	if ptrs != 1 || !scope {
		return nil
	}
	return n
}

func inAnalysis(fn *ssa.Function) bool { return pkgPathOf(fn) == modPath+"/analysis" }

const (
	searchWord  = 40 // what was typed
	searchWord2 = 41 // the second word of it
	searchEntry = 42 // entries of the index
	searchName  = 60 // names of symbols
	searchLabel = 90 // names under which they are used
	searchEdit  = 150
)

// object makes a symbol whose name holds an atom.
func (s *search) object(d *Dom, t types.Type, name string, uri string) *rCell {
	o := d.NewObject(derefType(t))
	n := derefNamed(t)
	if f := d.Field(o, "Name"); f != nil {
		switch f.v.(type) {
		case rStr:
			if n.Obj().Name() == "Property" {
				name = "$" + name
			}
			f.v = rStr(name)
		default:
			if nt := derefNamed(d.typeOfField(n, "Name")); nt != nil {
				if mk := s.p.Func("analysis", "New"+nt.Obj().Name()); mk != nil {
					f.v = d.Run(mk, []rv{rStr(name)}, nil)
				}
			}
		}
	}
	if uri != "" {
		if l := d.locationOf(o); l != nil {
			if u := d.Field(l, "URI"); u != nil {
				u.v = rStr(uri)
			}
		}
	}
	return o
}

// typeOfField is the declared type of a field.
func (d *Dom) typeOfField(n *types.Named, name string) types.Type {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return types.Typ[types.Invalid]
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// locationOf is where the location of a symbol is kept.
func (d *Dom) locationOf(o *rCell) *rCell {
	st, ok := o.v.(*rStruct)
	if !ok {
		return nil
	}
	u, ok := st.t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if n := derefNamed(u.Field(i).Type()); n != nil && n.Obj().Name() == "Location" && strings.EqualFold(u.Field(i).Name(), "location") {
			return st.f[i]
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if l := d.locationOf(st.f[i]); l != nil {
				return l
			}
		}
	}
	return nil
}

// index interprets a search over an index with three entries: the first word
// leads to the first two, the second to the last two.
type searchIndex struct {
	*search
	d       *Dom
	elem    types.Type
	scoped  bool
	one     bool           // one word was typed
	records map[*rCell]int // decoders and iterators: their entry
	objs    map[int]*rCell
	valid   map[int]bool
	missing map[int]bool
	order   []int // as they are found
}

func entryOf(s string) int {
	for i := 0; i < 3; i++ {
		if strings.ContainsRune(s, atomRune(searchEntry+i)) {
			return i
		}
	}
	return -1
}

func textOf(v rv) (string, bool) {
	switch x := v.(type) {
	case rStr:
		return string(x), true
	case rByts:
		return string(x), true
	}
	return "", false
}

func (x *searchIndex) entry(v rv) int {
	if s, ok := textOf(v); ok {
		return entryOf(s)
	}
	if c, ok := v.(*rCell); ok {
		if i, ok := x.records[c]; ok {
			return i
		}
	}
	return -1
}

func (x *searchIndex) symbol(i int) *rCell {
	if x.objs[i] == nil {
		name := "N" + atomStr(searchName+i)
		if x.scoped {
			name = `\` + atomStr(30) + `\` + atomStr(searchWord) + atomStr(searchName+i)
		}
		x.objs[i] = x.object(x.d, x.elem, name, "")
	}
	return x.objs[i]
}

func (x *searchIndex) hook(d *Dom, c *DomCall) (rv, bool) {
	if c.Fn == x.any {
		// a condition of the search
		for _, a := range c.Args {
			if f, ok := a.(rIface); ok {
				for i, o := range x.objs {
					if f.v == rv(o) {
						v, known := x.valid[i]
						if !known {
							v = d.decide(fmt.Sprintf("entry %d fulfils the condition", i), "the search")
							x.valid[i] = v
						}
						return rBool(v), true
					}
				}
			}
		}
		d.fail("a condition is asked about something that was not found")
	}
	name := ""
	isDB := false
	if c.Fn != nil {
		name = c.Fn.Name()
	}
	if c.Iface != nil {
		name = c.Iface.Name()
		if recv := c.Iface.Type().(*types.Signature).Recv(); recv != nil {
			isDB = types.Identical(recv.Type().Underlying(), x.dbType)
		}
		if u, ok := c.Args[0].(rUnk); ok && strings.HasPrefix(u.id, "iterator at ") {
			switch name {
			case "Value", "Key":
				return rByts("record " + atomStr(searchEntry+entryOf(u.id))), true
			case "Stop":
				d.Note("stop")
				return rNil{}, true
			}
		}
	}
	switch {
	case isDB && name == "PrefixStream":
		prefix, _ := textOf(c.Args[1])
		from := []int{0, 1}
		if strings.ContainsRune(prefix, atomRune(searchWord2)) {
			from = []int{1, 2}
		} else if x.scoped {
			from = []int{0, 1, 2}
		} else if !strings.ContainsRune(prefix, atomRune(searchWord)) {
			from = nil
			d.Note("not the word")
		}
		for _, i := range from {
			it := rUnk{id: "iterator at " + atomStr(searchEntry+i), t: x.iter, nonNil: true}
			n := len(d.Events)
			d.CallFunc(c, c.Args[2], it)
			stopped := false
			for _, e := range d.Events[n:] {
				stopped = stopped || e == "stop"
			}
			if stopped {
				break
			}
		}
		return rNil{}, true
	case isDB && name == "Get":
		i := x.entry(c.Args[1])
		if i >= 0 {
			m, known := x.missing[i]
			if !known {
				m = i == 0 && d.decide(fmt.Sprintf("the record of entry %d is gone", i), "the search")
				x.missing[i] = m
			}
			if !m {
				return rTuple{rByts("record " + atomStr(searchEntry+i)), rNil{}}, true
			}
		}
		return rTuple{rNil{}, rUnk{id: "not found", t: types.Universe.Lookup("error").Type(), nonNil: true}}, true
	case c.Fn != nil && pkgPathOf(c.Fn) == modPath+"/analysis/wordtokeniser" && name == "Tokenise":
		if x.one {
			return d.Slice(rStr(atomStr(searchWord))), true
		}
		return d.Slice(rStr(atomStr(searchWord)), rStr(atomStr(searchWord2))), true
	case c.Fn != nil && c.Fn.Signature.Results().Len() == 1 && derefNamed(c.Fn.Signature.Results().At(0).Type()) == x.decoder:
		dec := d.NewObject(x.decoder)
		for _, a := range c.Args {
			if i := x.entry(a); i >= 0 {
				x.records[dec] = i
			}
		}
		return dec, true
	case c.Fn != nil && c.Fn.Signature.Recv() != nil && derefNamed(derefRecv(c.Fn)) == x.decoder:
		if u, ok := c.Args[0].(*rCell); ok {
			if i, ok := x.records[u]; ok && isStringType(c.Fn.Signature.Results().At(0).Type()) {
				return rStr(atomStr(searchEntry+i) + "\x00" + atomStr(30)), true
			}
		}
	case c.Fn != nil && c.Fn.Signature.Recv() == nil && c.Fn.Signature.Params().Len() == 1 && c.Fn.Signature.Results().Len() == 1 &&
		derefNamed(c.Fn.Signature.Params().At(0).Type()) == x.decoder && types.Identical(c.Fn.Signature.Results().At(0).Type(), x.elem):
		if u, ok := c.Args[0].(*rCell); ok {
			if i, ok := x.records[u]; ok {
				return x.symbol(i), true
			}
		}
	}
	return nil, false
}

// searches interprets one search with a limit (0: none).
func (s *search) searches(fn *ssa.Function, limit int, scoped, one bool) {
	elem, _ := s.finds(fn)
	d := newDom(s.p)
	d.MaxSteps = 4000000
	d.Enter = func(f *ssa.Function) bool { return strings.Contains(pkgPathOf(f), "zyedidia/generic") }
	pos := s.p.Pos(fn.Pos())
	word := atomStr(searchWord)
	if scoped {
		word = `\` + atomStr(30) + `\` + word
	}
	var x *searchIndex
	why := d.Explore(func() rv {
		d.Events = nil
		x = &searchIndex{search: s, d: d, elem: elem, scoped: scoped, one: one, records: map[*rCell]int{}, objs: map[int]*rCell{}, valid: map[int]bool{}, missing: map[int]bool{}}
		d.Hook = x.hook
		var args []rv
		st := s.r.newStore(d, uriRoot+atomStr(0))
		args = append(args, st)
		words := 0
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			t := fn.Signature.Params().At(i).Type()
			switch {
			case derefNamed(t) == s.opts:
				o := d.zero(s.opts)
				if limit > 0 {
					if w := s.p.Method(s.opts, "WithLimit"); w != nil {
						o = d.Run(w, []rv{o, intOf(int64(limit))}, nil)
					}
				}
				if w := s.p.Method(s.opts, "WithPredicate"); w != nil {
					o = d.Run(w, []rv{o, rFunc{fn: s.any}}, nil)
				}
				args = append(args, o)
			case isStringType(t):
				words++
				// the last text is what was typed, one before it a scope
				args = append(args, rStr(""))
				for j := range args {
					if _, ok := args[j].(rStr); ok {
						args[j] = rStr("")
						if j == len(args)-1 {
							args[j] = rStr(word)
						}
					}
				}
			default:
				args = append(args, d.zero(t))
			}
		}
		return d.Run(fn, args, nil)
	}, func(r DomResult) {
		what := shortFn(fn)
		if r.Panics != "" {
			s.c.Report("search/panics/"+what, pos, fmt.Sprintf("%s fails: %s", fnName(fn), r.Panics), r.Trail)
			return
		}
		tup, ok := r.Val.(rTuple)
		if !ok || len(tup) != 2 {
			s.c.Undecided("what %s returns is not known (%s)", fnName(fn), pos)
			return
		}
		found, ok := d.Elems(tup[0])
		complete, known := member(d, d.cell(tup[1]), s.result.Underlying().(*types.Struct).Field(0).Name()).(rBool)
		if !ok || !known {
			s.c.Undecided("what %s finds is not known (%s)", fnName(fn), pos)
			return
		}
		got := map[int]int{}
		n := 0
		for _, f := range found {
			i := x.entry(f)
			for k, o := range x.objs {
				if f == rv(o) {
					i = k
				}
			}
			if i < 0 {
				s.c.Report("search/stranger/"+what, pos, fmt.Sprintf("%s returns what the index did not give it", fnName(fn)), r.Trail)
				return
			}
			got[i]++
			n++
			if got[i] > 1 && !scoped {
				s.c.Report("search/twice/"+what, pos, fmt.Sprintf("%s returns a symbol twice", fnName(fn)), r.Trail)
			}
			if v, known := x.valid[i]; known && !v {
				s.c.Report("search/condition/"+what, pos, fmt.Sprintf("%s returns a symbol that does not fulfil a condition of the search", fnName(fn)), r.Trail)
			}
			if !isStringType(elem) {
				if _, asked := x.valid[i]; !asked {
					s.c.Report("search/unasked/"+what, pos, fmt.Sprintf("%s returns a symbol for which the conditions of the search were not asked", fnName(fn)), r.Trail)
				}
			}
		}
		if bool(complete) {
			entries := 3
			if one {
				entries = 2
			}
			for i := 0; i < entries; i++ {
				if got[i] == 0 && !x.missing[i] && (x.valid[i] || isStringType(elem)) {
					s.c.Report("search/lost/"+what, pos, fmt.Sprintf("%s does not return all that it found, and says that this is complete", fnName(fn)), r.Trail)
				} else if _, asked := x.valid[i]; got[i] == 0 && !x.missing[i] && !asked && !isStringType(elem) {
					s.c.Report("search/lost/"+what, pos, fmt.Sprintf("%s does not look at all entries of the index, and says that this is complete", fnName(fn)), r.Trail)
				}
			}
		} else if s.canCut[fn] = true; limit == 0 || n < limit {
			s.c.Report("search/early/"+what, pos, fmt.Sprintf("%s stops before the limit of results is reached", fnName(fn)), r.Trail)
		}
		s.c.Seen("ways through searches", fmt.Sprintf("%s limit %d scoped %v one %v valid %v missing %v", what, limit, scoped, one, x.valid, x.missing))
	})
	if why != "" {
		s.c.Undecided("the search %s cannot be followed: %s", fnName(fn), why)
	}
	for f := range d.Funcs {
		s.c.Fn(f)
	}
	s.c.Count("instructions interpreted", d.Steps)
	s.c.Seen("searches", shortFn(fn))
}

// listRun is one way through a function that makes a list of completions.
type listRun struct {
	*search
	d     *Dom
	names map[string]string // atom of the name of what was found: of the name it is used by
	edits map[string]string // and of the edit that comes with it
	kind  map[string]string
	objs  map[*rCell]string
	cut   bool
	edit1 bool
	next  int
	lnext int
	types int // of what members are accessed of
}

func (l *listRun) found(elem types.Type, why string) rv {
	a := atomStr(searchName + l.next)
	l.next++
	l.names[a] = a
	l.kind[a] = why
	name := "N" + a
	if isStringType(elem) {
		return rStr(a)
	}
	if st := memberStruct(types.NewSlice(elem)); st != nil {
		v := l.d.zero(elem).(*rStruct)
		u := elem.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok {
				v.f[i].v = l.object(l.d, u.Field(i).Type(), name, "")
			}
		}
		return v
	}
	o := l.object(l.d, elem, name, "")
	l.objs[o] = a
	return o
}

func (l *listRun) hook(d *Dom, c *DomCall) (rv, bool) {
	fn := c.Fn
	if fn == nil {
		return nil, false
	}
	res := fn.Signature.Results()
	switch {
	case l.isFind[fn]:
		elem, _ := l.finds(fn)
		complete := true
		if !l.cut && l.canCut[fn] && d.decide("not all is found by "+fn.Name(), l.p.InstrPos(c.Instr)) {
			complete, l.cut = false, true
		}
		sr := d.zero(l.result).(*rStruct)
		sr.f[0].v = rBool(complete)
		return rTuple{d.Slice(l.found(elem, fn.Name()), l.found(elem, fn.Name())), sr}, true
	case l.isMemberList(fn):
		elem := res.At(0).Type().Underlying().(*types.Slice).Elem()
		return d.Slice(l.found(elem, fn.Name()), l.found(elem, fn.Name())), true
	case res.Len() == 2 && isStringType(res.At(0).Type()) && derefNamed(res.At(1).Type()) == l.edit:
		for _, a := range c.Args {
			f, ok := a.(rIface)
			if !ok {
				continue
			}
			o, ok := f.v.(*rCell)
			if !ok || l.objs[o] == "" {
				continue
			}
			label := atomStr(searchLabel + l.lnext)
			l.names[l.objs[o]] = label
			var e rv = rNil{}
			if l.edit1 {
				ec := d.NewObject(l.edit)
				t := atomStr(searchEdit + l.lnext)
				d.Field(ec, "NewText").v = rStr(t)
				l.edits[l.objs[o]] = t
				e = ec
			}
			l.lnext++
			return rTuple{rStr(label), e}, true
		}
		d.fail("the name of something that was not found is asked at %s", l.p.InstrPos(c.Instr))
	case fn.Signature.Recv() != nil && res.Len() == 1 && derefNamed(res.At(0).Type()) == l.store:
		return l.r.newStore(d, uriRoot+atomStr(0)), true
	case inAnalysis(fn) && fn.Signature.Recv() != nil && res.Len() == 1:
		recv := derefNamed(derefRecv(fn))
		sl, isSl := res.At(0).Type().Underlying().(*types.Slice)
		_, isStruct := recv.Underlying().(*types.Struct)
		if isStruct && isSl && c.Args != nil {
			switch sl.Elem().Underlying().(type) {
			case *types.Pointer:
				// declarations of a name
				if derefNamed(sl.Elem()) != nil && (recv.Obj().Name() == "Query" || recv == l.store) {
					return d.Slice(d.NewObject(derefType(sl.Elem()))), true
				}
			case *types.Struct:
				// the types of an expression
				if recv.Obj().Name() == "TypeComposite" {
					if l.types == 1 {
						return d.Slice(d.zero(sl.Elem())), true
					}
					return d.Slice(d.zero(sl.Elem()), d.zero(sl.Elem())), true
				}
			}
		}
	}
	// other work of the analysis has nothing to do with the list
	if inAnalysis(fn) && fn.Signature.Recv() != nil {
		switch derefNamed(derefRecv(fn)).Obj().Name() {
		case "Document", "ImportTable", "Query", "Store", "Variable", "VariableTable":
			return l.unknown(c), true
		}
	}
	return nil, false
}

func (l *listRun) unknown(c *DomCall) rv {
	res := c.Instr.Common().Signature().Results()
	var t types.Type = res
	if res.Len() == 1 {
		t = res.At(0).Type()
	}
	switch t.Underlying().(type) {
	case *types.Struct:
		v := l.d.zero(t)
		if st, ok := v.(*rStruct); ok {
			// members that were found
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if m := memberStruct(u.Field(i).Type()); m != nil {
					st.f[i].v = l.d.Slice(l.d.zero(m))
				}
			}
		}
		return v
	case *types.Pointer:
		l.d.serial++
		return rUnk{id: fmt.Sprintf("%s#%d", c.Name(), l.d.serial), t: t, nonNil: true}
	}
	l.d.serial++
	return l.d.Unknown(fmt.Sprintf("%s#%d", c.Name(), l.d.serial), t)
}

// arg makes an argument.
func (l *listRun) arg(t types.Type, word string, depth int) rv {
	if isStringType(t) {
		return rStr(word)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n := derefNamed(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+lspPkg && depth < 2 {
			o := l.d.NewObject(pt.Elem())
			if st, ok := o.v.(*rStruct); ok {
				u := pt.Elem().Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if _, ok := u.Field(i).Type().Underlying().(*types.Basic); ok {
						continue
					}
					st.f[i].v = l.arg(u.Field(i).Type(), word, depth+1)
				}
			}
			return o
		}
		return rUnk{id: "some " + typeName(t), t: t, nonNil: true}
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Basic:
		return l.d.zero(t)
	}
	return rUnk{id: "some " + typeName(t), t: t, nonNil: true}
}

// lists interprets a function that makes a list of completions.
func (s *search) lists(fn *ssa.Function, word string, edit bool, types int) (most int) {
	d := newDom(s.p)
	d.MaxSteps = 6000000
	pos := s.p.Pos(fn.Pos())
	var l *listRun
	why := d.Explore(func() rv {
		l = &listRun{search: s, d: d, names: map[string]string{}, edits: map[string]string{}, kind: map[string]string{}, objs: map[*rCell]string{}, edit1: edit, types: types}
		d.Hook = l.hook
		var args []rv
		for _, q := range fn.Params {
			args = append(args, l.arg(q.Type(), word, 0))
		}
		return d.Run(fn, args, nil)
	}, func(r DomResult) {
		what := shortFn(fn)
		if r.Panics != "" {
			s.c.Report("search/list-panics/"+what, pos, fmt.Sprintf("%s fails: %s", fnName(fn), r.Panics), r.Trail)
			return
		}
		list, ok := r.Val.(*rCell)
		if !ok {
			if len(l.names) > 0 {
				s.c.Report("search/no-list/"+what, pos, fmt.Sprintf("%s finds something and returns no list", fnName(fn)), r.Trail)
			}
			return
		}
		items, ok := d.Elems(d.Field(list, "Items").v)
		inc, known := d.Field(list, "IsIncomplete").v.(rBool)
		if !ok || !known {
			s.c.Undecided("the list of %s is not known (%s)", fnName(fn), pos)
			return
		}
		if len(l.names) > most {
			most = len(l.names)
		}
		if l.cut && !bool(inc) {
			s.c.Report("search/not-marked/"+what, pos, fmt.Sprintf("the list of %s is not marked incomplete although a search for it was cut", fnName(fn)), r.Trail)
		}
		for a, label := range l.names {
			n, withEdit := 0, false
			for _, it := range items {
				ic := d.cell(it)
				lab, ok := d.Field(ic, "Label").v.(rStr)
				if !ok {
					s.c.Undecided("the label of an item of %s is not known (%s)", fnName(fn), pos)
					return
				}
				if !strings.Contains(string(lab), label) {
					continue
				}
				n++
				// the text that is put in
				if t := d.Field(ic, "InsertText"); t != nil {
					if ts, ok := t.v.(rStr); ok && ts != "" && !strings.Contains(string(ts), label) {
						s.c.Report("search/inserts/"+what, pos, fmt.Sprintf("an item of the list of %s inserts something else than its label", fnName(fn)), r.Trail)
					}
				}
				edits, ok := d.Elems(d.Field(ic, "AdditionalTextEdits").v)
				if !ok {
					s.c.Undecided("the edits of an item of %s are not known (%s)", fnName(fn), pos)
					return
				}
				for _, e := range edits {
					if t, ok := member(d, d.cell(e), "NewText").(rStr); ok && string(t) == l.edits[a] {
						withEdit = true
					} else {
						s.c.Report("search/other-edit/"+what, pos, fmt.Sprintf("an item of the list of %s comes with an edit that is not its own", fnName(fn)), r.Trail)
					}
				}
			}
			if n == 0 {
				s.c.Report("search/left-out/"+what+"/"+l.kind[a], pos, fmt.Sprintf("what %s finds is not in the list of %s under the name by which it can be used", l.kind[a], fnName(fn)), r.Trail)
			} else if n > 1 {
				s.c.Report("search/doubled/"+what+"/"+l.kind[a], pos, fmt.Sprintf("what %s finds is in the list of %s several times", l.kind[a], fnName(fn)), r.Trail)
			} else if l.edits[a] != "" && !withEdit {
				s.c.Report("search/no-edit/"+what+"/"+l.kind[a], pos, fmt.Sprintf("what %s finds is in the list of %s without the edit that imports it", l.kind[a], fnName(fn)), r.Trail)
			}
			s.c.Seen("what is put into lists", what+" "+l.kind[a])
		}
		s.c.Seen("ways through lists", fmt.Sprintf("%s %v %v %v", what, l.cut, edit, r.Trail))
	})
	if why != "" {
		s.c.Undecided("%s cannot be followed: %s", fnName(fn), why)
	}
	for f := range d.Funcs {
		s.c.Fn(f)
	}
	s.c.Count("instructions interpreted", d.Steps)
	s.c.Seen("lists of completions", shortFn(fn))
	return most
}

// workspace interprets the search in all folders.
func (s *search) workspace(fn *ssa.Function) {
	d := newDom(s.p)
	d.MaxSteps = 6000000
	pos := s.p.Pos(fn.Pos())
	uris := map[string]string{}
	why := d.Explore(func() rv {
		uris = map[string]string{}
		stores := []rv{s.r.newStore(d, uriRoot+atomStr(0)), s.r.newStore(d, uriRoot+atomStr(1))}
		asked := map[rv]map[*ssa.Function]bool{}
		d.Hook = func(d *Dom, c *DomCall) (rv, bool) {
			if !s.isFind[c.Fn] {
				return nil, false
			}
			elem, _ := s.finds(c.Fn)
			if asked[c.Args[0]] == nil {
				asked[c.Args[0]] = map[*ssa.Function]bool{}
			}
			again := asked[c.Args[0]][c.Fn]
			asked[c.Args[0]][c.Fn] = true
			sr := d.zero(s.result).(*rStruct)
			sr.f[0].v = rBool(true)
			var out []rv
			if !again {
				for k := 0; k < 2; k++ {
					uri := uriRoot + atomStr(searchName+len(uris)) + ".php"
					o := s.object(d, elem, "N"+atomStr(searchName+len(uris)), uri)
					uris[uri] = c.Fn.Name()
					out = append(out, o)
				}
			}
			// the conditions of the search: what can be opened passes, what cannot does not
			for _, a := range c.Args {
				st, ok := a.(*rStruct)
				if !ok || derefNamed(st.t) != s.opts {
					continue
				}
				s.conditions(d, c, st, elem)
			}
			return rTuple{d.Slice(out...), sr}, true
		}
		var lists []*rCell
		server := s.r.object(d, types.NewPointer(s.server), stores, &lists, 0)
		args := []rv{server}
		for _, q := range fn.Params[1:] {
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
				o := d.NewObject(pt.Elem())
				if f := d.Field(o, "Query"); f != nil {
					f.v = rStr(atomStr(searchWord))
				}
				args = append(args, o)
				continue
			}
			args = append(args, rUnk{id: "some " + q.Name(), t: q.Type(), nonNil: true})
		}
		return d.Run(fn, args, nil)
	}, func(r DomResult) {
		if r.Panics != "" {
			s.c.Report("search/list-panics/"+shortFn(fn), pos, fmt.Sprintf("%s fails: %s", fnName(fn), r.Panics), r.Trail)
			return
		}
		tup, ok := r.Val.(rTuple)
		if !ok {
			return
		}
		items, ok := d.Elems(tup[0])
		if !ok {
			s.c.Undecided("the answer of %s is not known (%s)", fnName(fn), pos)
			return
		}
		seen := map[string]int{}
		for _, it := range items {
			u, ok := member(d, d.cell(it), "Location.URI").(rStr)
			if !ok {
				s.c.Undecided("the location of a symbol in the answer of %s is not known (%s)", fnName(fn), pos)
				return
			}
			seen[string(u)]++
			if uris[string(u)] == "" {
				s.c.Report("search/workspace-location", pos, fmt.Sprintf("a symbol in the answer of %s is not where it was found", fnName(fn)), r.Trail)
			}
			n, ok := member(d, d.cell(it), "Name").(rStr)
			if a := strings.TrimSuffix(strings.TrimPrefix(string(u), uriRoot), ".php"); !ok || !strings.Contains(string(n), a) {
				s.c.Report("search/workspace-name", pos, fmt.Sprintf("a symbol in the answer of %s has not the name of what was found", fnName(fn)), r.Trail)
			}
		}
		for u, what := range uris {
			s.c.Seen("what is put into lists", "workspace "+what)
			if seen[u] != 1 {
				s.c.Report("search/workspace-left-out/"+what, pos, fmt.Sprintf("what %s finds in a folder is in the answer of %s %d times", what, fnName(fn), seen[u]), r.Trail)
			}
		}
		kinds := map[string]bool{}
		for _, what := range uris {
			kinds[what] = true
		}
		for _, f := range s.find {
			if e, _ := s.finds(f); !isStringType(e) && !kinds[f.Name()] {
				s.c.Report("search/workspace-kind/"+f.Name(), pos, fmt.Sprintf("%s does not search for all kinds of symbols: %s is not asked", fnName(fn), f.Name()), r.Trail)
			}
		}
		if len(uris) > 0 && len(uris) != 2*2*len(kinds) {
			s.c.Report("search/workspace-folder", pos, fmt.Sprintf("%s does not search in all folders", fnName(fn)), r.Trail)
		}
	})
	if why != "" {
		s.c.Undecided("%s cannot be followed: %s", fnName(fn), why)
	}
	for f := range d.Funcs {
		s.c.Fn(f)
	}
	s.c.Count("instructions interpreted", d.Steps)
}

// conditions asks the conditions of a search in all folders.
func (s *search) conditions(d *Dom, c *DomCall, opts *rStruct, elem types.Type) {
	st := opts.t.Underlying().(*types.Struct)
	ask := func(uri string) bool {
		o := s.object(d, elem, "N"+atomStr(20), uri)
		all := true
		for i := 0; i < st.NumFields(); i++ {
			preds, ok := d.Elems(opts.f[i].v)
			if !ok {
				continue
			}
			for _, p := range preds {
				f, ok := p.(rFunc)
				if !ok {
					continue
				}
				if !d.truth(d.Run(f.fn, []rv{rIface{t: elem, v: o}}, f.binds), "condition") {
					all = false
				}
			}
		}
		return all
	}
	pos := s.p.InstrPos(c.Instr)
	if !ask(uriRoot + atomStr(21) + ".php") {
		s.c.Report("search/condition-file/"+c.Fn.Name(), pos, "a search in all folders leaves out symbols of files", nil)
	}
	if ask("phpstubs://" + atomStr(21) + ".php") {
		s.c.Report("search/condition-stub/"+c.Fn.Name(), pos, "a search in all folders finds symbols that no editor can open", nil)
	}
}

func rulesSearch(c *Ctx) {
	c.Rule("each search by name is computed by abstract interpretation over an index of three entries (one of them found by two words, one without its record) for one and two words, for every choice of which fulfil the condition and every limit: it returns each found symbol once that fulfils the condition, or as many as the limit and says that it was cut")
	c.Rule("each function that makes a list of completions from searches is interpreted with two results of every search (of members: for one and for two types) and at most one search cut: there is one item for every result, labelled with the name by which it can be used, inserting that, with the edit that imports it and no other; the list is marked incomplete when a search was cut")
	c.Rule("the search in the workspace is interpreted for two folders: every search is asked in every folder, its answer has every result once with its name and location, and its conditions are fulfilled by what is in files and not by what is not")
	s := &search{c: c, p: c.P, isFind: map[*ssa.Function]bool{}, canCut: map[*ssa.Function]bool{}}
	p := c.P
	s.store = p.Named("analysis", "Store")
	s.server = p.Named(lspPkg, "Server")
	s.opts = p.Named("analysis", "SearchOptions")
	s.result = p.Named("analysis", "SearchResult")
	s.list = p.Named(lspPkg+"/protocol", "CompletionList")
	s.edit = p.Named(lspPkg+"/protocol", "TextEdit")
	s.decoder = p.Named("analysis/storage", "Decoder")
	db := p.Named("analysis/storage", "DB")
	s.any = p.Func("", "main")
	if s.store == nil || s.server == nil || s.opts == nil || s.result == nil || s.list == nil || s.edit == nil || s.decoder == nil || db == nil || s.any == nil {
		c.Undecided("the types of searches are not found")
		return
	}
	if it := p.Named("analysis/storage", "Iterator"); it != nil {
		s.iter = it
	}
	s.dbType, _ = db.Underlying().(*types.Interface)
	s.r = &routing{c: c, p: p}
	if !s.r.find() {
		c.Undecided("the stores of folders are not found")
		return
	}
	for _, fn := range p.Methods(s.store) {
		if e, ok := s.finds(fn); ok && fn.Object() != nil && fn.Object().Exported() {
			s.find = append(s.find, fn)
			s.isFind[fn] = true
			for limit := 0; limit <= 3; limit++ {
				s.searches(fn, limit, false, false)
				s.searches(fn, limit, false, true)
			}
			if n := derefNamed(e); n != nil && n.Obj().Name() == "Class" {
				for limit := 0; limit <= 3; limit++ {
					s.searches(fn, limit, true, false)
				}
			}
		}
	}
	for _, fn := range p.Repo {
		if !inLsp(fn) || fn.Blocks == nil || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 1 || derefNamed(res.At(0).Type()) != s.list {
			continue
		}
		uses, members := false, false
		eachCall(fn, func(i ssa.CallInstruction) {
			for _, callee := range p.siteCallees(i) {
				members = members || s.isMemberList(callee)
				uses = uses || s.isFind[callee] || members
			}
		})
		if !uses {
			continue
		}
		for _, w := range []string{atomStr(searchWord), `\` + atomStr(searchWord)} {
			two := s.lists(fn, w, true, 2)
			one := s.lists(fn, w, false, 1)
			if members && two != 2*one {
				c.Report("search/types/"+shortFn(fn), p.Pos(fn.Pos()), fmt.Sprintf("%s does not look for the members of all types that an expression can have", fnName(fn)), nil)
			}
		}
	}
	ws := p.Method(s.server, "Symbol")
	if ws == nil {
		c.Undecided("the search in the workspace is not found")
		return
	}
	s.workspace(ws)
	c.AtLeast("searches", 9)
	c.AtLeast("lists of completions", 8)
	c.AtLeast("what is put into lists", 25)
}

func init() {
	register("C32", "searches find all that matches, and lists hold all that was found", nil, rulesSearch)
}
