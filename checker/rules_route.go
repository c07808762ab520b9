package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// routing is what C36 knows about how documents get to folders.
type routing struct {
	c       *Ctx
	p       *Program
	store   *types.Named
	doc     *types.Named
	docFn   map[*ssa.Function]bool // methods of the store about the document with a URI
	readers map[*ssa.Function]bool // those that can read the file
	routers map[*ssa.Function]bool // functions that find the store of a document
	uriF    string                 // field of the store with the URI of its folder
}

// field names of structs of the package with a list of stores
func (r *routing) isStores(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return derefNamed(u.Elem()) == r.store
	case *types.Map:
		return derefNamed(u.Elem()) == r.store && isStringType(u.Key())
	}
	return false
}

func inLsp(fn *ssa.Function) bool { return pkgPathOf(fn) == modPath+"/"+lspPkg }

// object builds an object of a type of the package: pointers to such types are
// followed, lists of stores have the given ones.
func (r *routing) object(d *Dom, t types.Type, stores []rv, lists *[]*rCell, depth int) rv {
	if pt, ok := t.Underlying().(*types.Pointer); ok && depth < 4 {
		if n := derefNamed(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+lspPkg {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return d.cell(r.object(d, pt.Elem(), stores, lists, depth+1))
			}
		}
		return rUnk{id: "some " + typeName(t), t: t, nonNil: true}
	}
	if r.isStores(t) {
		if _, ok := t.Underlying().(*types.Map); ok {
			d.serial++
			m := &rMap{id: d.serial}
			for _, s := range stores {
				m.keys = append(m.keys, d.Field(s.(*rCell), r.uriF).v)
				m.vals = append(m.vals, s)
			}
			return m
		}
		return d.Slice(stores...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := d.zero(t).(*rStruct)
		n := derefNamed(t)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/"+lspPkg {
			return v
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Basic, *types.Struct:
				continue
			}
			v.f[i].v = r.object(d, ft, stores, lists, depth+1)
			if r.isStores(ft) {
				*lists = append(*lists, v.f[i])
			}
		}
		return v
	case *types.Slice, *types.Basic:
		return d.zero(t)
	}
	return rUnk{id: "some " + typeName(t), t: t, nonNil: true}
}

// newStore is a store of a folder.
func (r *routing) newStore(d *Dom, uri string) *rCell {
	s := d.NewObject(r.store)
	u := r.store.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch ft := u.Field(i).Type(); ft.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Signature, *types.Slice:
			d.Field(s, u.Field(i).Name()).v = rUnk{id: u.Field(i).Name() + " of " + showStr(uri), t: ft, nonNil: true}
		}
	}
	d.Field(s, r.uriF).v = rStr(uri)
	return s
}

func permutations(ss []string) [][]string {
	if len(ss) <= 1 {
		return [][]string{ss}
	}
	var out [][]string
	for i := range ss {
		rest := append(append([]string(nil), ss[:i]...), ss[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]string{ss[i]}, p...))
		}
	}
	return out
}

const uriRoot = "file:///"

func atomStr(i int) string { return string(atomRune(i)) }

func under(uri, folder string) bool {
	return uri == folder || strings.HasPrefix(uri, strings.TrimSuffix(folder, "/")+"/")
}

func innermost(uri string, folders []string) string {
	best := ""
	for _, f := range folders {
		if under(uri, f) && len(f) > len(best) {
			best = f
		}
	}
	return best
}

func showAll(ss []string) string {
	var out []string
	for _, s := range ss {
		out = append(out, showStr(s))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// hook models the databases and what is outside.
func (r *routing) hook(keys func() []string, uriOf map[*rCell]string) func(d *Dom, c *DomCall) (rv, bool) {
	return func(d *Dom, c *DomCall) (rv, bool) {
		if c.Fn != nil && c.Fn.Signature.Recv() != nil && derefNamed(c.Fn.Signature.Recv().Type()) == r.store && len(c.Args) > 0 {
			s, _ := c.Args[0].(*rCell)
			if c.Fn.Name() == "Close" && len(c.Args) == 1 {
				d.Note("close " + uriOf[s])
				return rNil{}, true
			}
			if r.readers[c.Fn] {
				for _, a := range c.Args[1:] {
					if u, ok := a.(rStr); ok {
						d.Note("doc " + uriOf[s] + " " + string(u))
					}
				}
				var t types.Type = c.Fn.Signature.Results()
				if c.Fn.Signature.Results().Len() == 1 {
					t = c.Fn.Signature.Results().At(0).Type()
				}
				return d.Unknown("document", t), true
			}
		}
		if c.Iface != nil && c.Iface.Pkg() != nil && strings.HasSuffix(c.Iface.Pkg().Path(), "analysis/storage") {
			owner := d.id(c.Args[0])
			bytes := func(v rv) (string, bool) {
				switch b := v.(type) {
				case rByts:
					return string(b), true
				case rStr:
					return string(b), true
				}
				return "", false
			}
			switch c.Iface.Name() {
			case "PrefixStream":
				p, ok := bytes(c.Args[1])
				if !ok {
					d.fail("an unknown prefix at %s", r.p.InstrPos(c.Instr))
				}
				d.Note("stream " + p)
				for _, k := range keys() {
					if strings.HasPrefix(k, p) {
						d.CallFunc(c, c.Args[2], rUnk{id: "iter:" + k, nonNil: true})
					}
				}
				return rNil{}, true
			case "WriteBatch":
				return d.CallFunc(c, c.Args[1], rUnk{id: "batch of " + owner, nonNil: true}), true
			case "Delete":
				k, ok := bytes(c.Args[1])
				if !ok {
					d.fail("an unknown key at %s", r.p.InstrPos(c.Instr))
				}
				d.Note("delete " + k + "\x01" + owner)
				return rNil{}, true
			case "Put":
				return rNil{}, true
			case "Key":
				if strings.HasPrefix(owner, "iter:") {
					return rByts(owner[5:]), true
				}
			case "Value":
				return rByts("value"), true
			case "Get":
				return rTuple{rNil{}, rUnk{id: "not found", nonNil: true}}, true
			}
		}
		if c.Fn != nil && strings.HasSuffix(pkgPathOf(c.Fn), "/pogreb") && c.Fn.Name() == "Get" {
			return rTuple{rNil{}, rNil{}}, true
		}
		if c.Fn != nil && strings.HasSuffix(pkgPathOf(c.Fn), "/concurrent-map") && c.Fn.Name() == "Has" {
			return rBool(false), true
		}
		return nil, false
	}
}

// routes checks what a function that finds the store of a document answers.
func (r *routing) routes(fn *ssa.Function) {
	c := r.c
	c.Fn(fn)
	a, b, x, y := atomStr(0), atomStr(1), atomStr(2), atomStr(3)
	A := uriRoot + a
	type cs struct {
		uri     string
		folders []string
	}
	var cases []cs
	one := func(folder string, uris ...string) {
		for _, u := range uris {
			cases = append(cases, cs{u, []string{folder}})
		}
	}
	// one folder: every way a URI can relate to it
	one(A, A, A+"/"+b, A+"/"+b+"/"+x, A+b, A+"."+b, A+"-"+b+"/"+x, A+"%2F"+b, uriRoot+b, uriRoot+b+"/"+a, uriRoot, a, "", "phpstubs://"+a+"/"+b)
	one(A+"/", A+"/"+b, A+"/"+b+"/"+x, A+b, uriRoot+b, A+"/")
	one(A+"/"+b, A, A+"/"+x, A+"/"+b+x, A+"/"+b+"/"+x)
	one(uriRoot, A, A+"/"+b)
	// several, in every order
	for _, fs := range [][]string{{A, A + "/" + b, uriRoot + x}, {A, A + "/" + b, A + "/" + b + "/" + x, A + b}, {A + "/" + b, A + b, uriRoot + x}, {A + "/" + x, A + "/" + y, A}} {
		for _, perm := range permutations(fs) {
			for _, u := range []string{A, A + "/" + y, A + "/" + b, A + "/" + b + "/" + y, A + "/" + b + "/" + x + "/" + y, A + b + "/" + y, A + "/" + b + y, uriRoot + y} {
				cases = append(cases, cs{u, perm})
			}
		}
	}
	uriArg, storeRes := -1, -1
	for i, q := range fn.Params {
		if isStringType(q.Type()) {
			uriArg = i
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if derefNamed(fn.Signature.Results().At(i).Type()) == r.store {
			storeRes = i
		}
	}
	for i, w := range append(r.spellings(fn), "Lib") {
		for _, n := range []string{b + w, w + b, w} {
			one(A+"/"+n, A+"/"+n, A+"/"+n+"/"+x, A+"/"+n+x, A+"/"+strings.ToLower(n)+"/"+x, A)
			one(A, A+"/"+n, A+"/"+n+"/"+x, A+n, A+n+"/"+x)
			if i < 8 {
				for _, perm := range permutations([]string{A, A + "/" + n}) {
					cases = append(cases, cs{A + "/" + n + "/" + x, perm}, cs{A + "/" + n + x, perm})
				}
			}
		}
	}
	d := newDom(r.p)
	for _, k := range cases {
		uriOf := map[*rCell]string{}
		d.Hook = r.hook(func() []string { return nil }, uriOf)
		want := innermost(k.uri, k.folders)
		bad := false
		why := d.Explore(func() rv {
			for s := range uriOf {
				delete(uriOf, s)
			}
			var stores []rv
			for _, f := range k.folders {
				s := r.newStore(d, f)
				uriOf[s] = f
				stores = append(stores, s)
			}
			var lists []*rCell
			var args []rv
			for i, q := range fn.Params {
				if i == uriArg {
					args = append(args, rStr(k.uri))
				} else if r.isStores(q.Type()) {
					args = append(args, d.Slice(stores...))
				} else {
					args = append(args, r.object(d, q.Type(), stores, &lists, 0))
				}
			}
			return d.Run(fn, args, nil)
		}, func(res DomResult) {
			if bad {
				return
			}
			got := ""
			if res.Panics == "" {
				v := res.Val
				if t, ok := v.(rTuple); ok {
					v = t[storeRes]
				}
				switch v := v.(type) {
				case *rCell:
					got = uriOf[v]
				case rNil:
				default:
					c.Undecided("what %s gives for %s with the folders %s (%s)", shortFn(fn), showStr(k.uri), showAll(k.folders), d.id(v))
					bad = true
					return
				}
			} else {
				got = res.Panics
			}
			c.Count("relations of documents and folders", 1)
			if got != want {
				bad = true
				say := func(s string) string {
					if s == "" {
						return "no folder"
					}
					return showStr(s)
				}
				c.Report("route/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("%s gives %s for the document %s when the folders %s are open, it belongs to %s (<a>, <b>… are names)", shortFn(fn), say(got), showStr(k.uri), showAll(k.folders), say(want)), res.Trail)
			}
		})
		if why != "" {
			c.Undecided("%s: %s", shortFn(fn), why)
			return
		}
	}
	for f := range d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", d.Steps)
}

// leaving checks that removing a folder removes only its store.
func (r *routing) leaving(fn *ssa.Function) {
	c := r.c
	a, b, x, y := atomStr(0), atomStr(1), atomStr(2), atomStr(3)
	A := uriRoot + a
	d := newDom(r.p)
	n := 0
	for _, perm := range permutations([]string{A, A + "/" + b, A + x, uriRoot + y}) {
		for _, gone := range []string{A, A + "/" + b, A + x, A + "/" + x, A + "/" + b + "/" + x, uriRoot + b, uriRoot} {
			uriOf := map[*rCell]string{}
			d.Hook = r.hook(func() []string { return nil }, uriOf)
			var lists []*rCell
			bad := false
			why := d.Explore(func() rv {
				for s := range uriOf {
					delete(uriOf, s)
				}
				lists = nil
				var stores []rv
				for _, f := range perm {
					s := r.newStore(d, f)
					uriOf[s] = f
					stores = append(stores, s)
				}
				var args []rv
				for _, q := range fn.Params {
					if v, ok := removedFolder(d, q.Type(), gone); ok {
						args = append(args, v)
					} else {
						args = append(args, r.object(d, q.Type(), stores, &lists, 0))
					}
				}
				return d.Run(fn, args, nil)
			}, func(res DomResult) {
				n++
				c.Count("removals of folders", 1)
				var want, left, closed []string
				for _, f := range perm {
					if f != gone {
						want = append(want, f)
					}
				}
				if len(lists) != 1 {
					bad = true
					c.Undecided("%d lists of stores were found", len(lists))
					return
				}
				if m, ok := lists[0].v.(*rMap); ok {
					for _, s := range m.vals {
						left = append(left, uriOf[s.(*rCell)])
					}
				} else {
					es, ok := d.Elems(lists[0].v)
					if !ok {
						bad = true
						c.Undecided("which stores are left by %s", shortFn(fn))
						return
					}
					for _, s := range es {
						if s, ok := s.(*rCell); ok {
							left = append(left, uriOf[s])
						}
					}
				}
				for _, e := range d.Events {
					if strings.HasPrefix(e, "close ") {
						closed = append(closed, e[6:])
					}
				}
				sort.Strings(want)
				sort.Strings(left)
				if bad {
					return
				}
				if res.Panics != "" {
					bad = true
					c.Report("leave/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("removing the folder %s: %s", showStr(gone), res.Panics), res.Trail)
				} else if strings.Join(want, " ") != strings.Join(left, " ") {
					bad = true
					c.Report("leave/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("after the folder %s has been removed from %s the stores of %s are in use, those of %s should be", showStr(gone), showAll(perm), showAll(left), showAll(want)), res.Trail)
				}
				for _, s := range closed {
					if s != gone {
						bad = true
						c.Report("leave-close/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("removing the folder %s closes the store of %s", showStr(gone), showStr(s)), res.Trail)
					}
				}
			})
			if why != "" {
				c.Undecided("%s: %s", shortFn(fn), why)
				return
			}
			if bad {
				return
			}
		}
	}
	for f := range d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", d.Steps)
}

// removedFolder builds the parameters of a notification that a folder has been
// removed.
func removedFolder(d *Dom, t types.Type, uri string) (rv, bool) {
	n := derefNamed(t)
	if n == nil || n.Obj().Name() != "DidChangeWorkspaceFoldersParams" {
		return nil, false
	}
	o := d.NewObject(n)
	ev := d.Field(o, "Event")
	if ev == nil {
		return nil, false
	}
	rem := d.Field(ev, "Removed")
	if rem == nil {
		return nil, false
	}
	var elem types.Type
	ev2 := ev.v.(*rStruct).t.Underlying().(*types.Struct)
	for i := 0; i < ev2.NumFields(); i++ {
		if ev2.Field(i).Name() == "Removed" {
			elem = ev2.Field(i).Type().Underlying().(*types.Slice).Elem()
		}
	}
	f := d.NewObject(elem)
	d.Field(f, "URI").v = rStr(uri)
	rem.v = d.Slice(f.v)
	return o, true
}

// spellings gives the parts of names the code that is reachable from a function
// asks for, such as the ending of the names of PHP files.
func (r *routing) spellings(fn *ssa.Function) []string {
	return r.p.spellings(fn, r.store, ".-_~")
}

// spellings gives the parts of names that the functions asks for; they
// consist of letters, digits and the other characters.
func (p *Program) spellings(fn *ssa.Function, store *types.Named, others string) []string {
	found := map[string]bool{}
	add := func(v ssa.Value) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return
		}
		w := constant.StringVal(k.Value)
		if w == "" || len(w) > 16 {
			return
		}
		for _, ch := range w {
			if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.ContainsRune(others, ch)) {
				return
			}
		}
		found[w] = true
	}
	for f := range p.reachable(fn) {
		if !inLsp(f) && pkgPathOf(f) != modPath+"/util" && derefNamed(recvType(f)) != store {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					if in.Op == token.EQL || in.Op == token.NEQ {
						add(in.X)
						add(in.Y)
					}
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil {
						switch pkgPathOf(g) {
						case "strings", "bytes", "path", "path/filepath":
							for _, q := range in.Common().Args {
								add(q)
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for w := range found {
		out = append(out, w)
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	if f.Parent() != nil {
		return recvType(f.Parent())
	}
	return types.Typ[types.Int]
}

// deletes checks which documents a worker deletes.
func (r *routing) deletes(fn *ssa.Function, elem types.Type) bool {
	c := r.c
	a, b, x, y := atomStr(0), atomStr(1), atomStr(2), atomStr(3)
	A := uriRoot + a
	d := newDom(r.p)
	job := func(uri string) rv {
		if isStringType(elem) {
			return rStr(uri)
		}
		v := d.zero(elem)
		if s, ok := v.(*rStruct); ok {
			for _, f := range s.f {
				if _, ok := f.v.(rStr); ok {
					f.v = rStr(uri)
				}
			}
		}
		return v
	}
	var docs []string
	recPrefix := ""
	run := func(uri string, folders []string, end func(res DomResult)) string {
		uriOf := map[*rCell]string{}
		d.Hook = r.hook(func() []string {
			var ks []string
			for _, k := range docs {
				ks = append(ks, recPrefix+k)
			}
			return ks
		}, uriOf)
		return d.Explore(func() rv {
			for s := range uriOf {
				delete(uriOf, s)
			}
			var stores []rv
			for _, f := range folders {
				s := r.newStore(d, f)
				uriOf[s] = f
				stores = append(stores, s)
			}
			var lists []*rCell
			var args []rv
			for _, q := range fn.Params {
				args = append(args, r.object(d, q.Type(), stores, &lists, 0))
			}
			d.Recv = []rv{job(uri)}
			return d.Run(fn, args, nil)
		}, end)
	}
	// find where the documents are recorded
	streams, dels := map[string]bool{}, map[string]bool{}
	U := A + "/" + b
	why := run(U, []string{A}, func(res DomResult) {
		for _, e := range d.Events {
			if s, ok := strings.CutPrefix(e, "stream "); ok {
				if i := strings.Index(s, U); i >= 0 {
					streams[s[:i]] = true
				}
			}
			if s, ok := strings.CutPrefix(e, "delete "); ok {
				s = strings.Split(s, "\x01")[0]
				if strings.HasSuffix(s, U) {
					dels[strings.TrimSuffix(s, U)] = true
				}
			}
		}
	})
	if why != "" {
		c.Undecided("%s: %s", shortFn(fn), why)
		return false
	}
	for s := range dels {
		if streams[s] {
			recPrefix = s
		}
	}
	if recPrefix == "" {
		return false
	}
	docs = []string{A + "/" + b, A + "/" + b + "/" + x, A + "/" + b + "/" + x + "/" + y, A + "/" + b + x, A + "/" + b + "." + x, A + "/" + b + "." + x + "/" + y, A + "/" + y, A + "/" + y + "/" + b, A + x + "/" + b}
	uris := []string{A + "/" + b, A + "/" + b + "/", A + "/" + y, A + "/" + b + "/" + x, A + "/" + b + x, A + "/" + b + y, uriRoot + y}
	// names with the spellings the code asks for: a folder can have any name
	for _, w := range append(r.spellings(fn), "Lib") {
		for _, n := range []string{b + w, w + b, w} {
			uris = append(uris, A+"/"+n)
			docs = append(docs, A+"/"+n, A+"/"+n+"/"+x, A+"/"+n+x, A+"/"+strings.ToLower(n)+"x/"+y)
		}
	}
	for _, uri := range uris {
		for _, folders := range [][]string{{A}, {A, A + "/" + b}, {A + "/" + b, A, uriRoot + x}} {
			bad := false
			why := run(uri, folders, func(res DomResult) {
				if bad {
					return
				}
				c.Count("deletions of documents and folders", 1)
				home := innermost(strings.TrimSuffix(uri, "/"), folders)
				if strings.HasSuffix(uri, "/") {
					home = innermost(uri, folders)
				}
				gone := map[string]bool{}
				for _, e := range d.Events {
					s, ok := strings.CutPrefix(e, "delete "+recPrefix)
					if !ok {
						continue
					}
					i := strings.Index(s, "\x01")
					u, owner := s[:i], s[i+1:]
					gone[u] = true
					if !under(u, uri) {
						bad = true
						c.Report("delete/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("when %s is deleted, %s, which is not inside of it, is deleted too", showStr(uri), showStr(u)), res.Trail)
					}
					if !strings.HasSuffix(owner, " of "+showStr(home)) {
						bad = true
						c.Report("delete-folder/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("when %s is deleted, documents of another folder than %s are deleted", showStr(uri), showStr(home)), res.Trail)
					}
				}
				if res.Panics != "" {
					bad = true
					c.Report("delete/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("when %s is deleted: %s", showStr(uri), res.Panics), res.Trail)
				}
				if home == "" {
					return
				}
				for _, u := range docs {
					if under(u, uri) && !gone[u] && !bad {
						bad = true
						c.Report("kept/"+shortFn(fn), r.p.Pos(fn.Pos()), fmt.Sprintf("when %s is deleted, the document %s stays indexed", showStr(uri), showStr(u)), res.Trail)
					}
				}
			})
			if why != "" {
				c.Undecided("%s: %s", shortFn(fn), why)
				return true
			}
			if bad {
				return true
			}
		}
	}
	for f := range d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", d.Steps)
	return true
}

// names tells whether the string a function is given is what it finds a file
// or entries by.
func (r *routing) names(fn *ssa.Function) bool {
	seen := map[ssa.Value]bool{}
	found := false
	var taint func(v ssa.Value)
	taint = func(v ssa.Value) {
		if v == nil || seen[v] || found || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch i := in.(type) {
			case *ssa.Store:
				if i.Val != v {
					continue
				}
				switch a := i.Addr.(type) {
				case *ssa.FieldAddr:
					taint(a.X)
				case *ssa.IndexAddr:
					taint(a.X)
				default:
					taint(i.Addr)
				}
			case *ssa.MakeClosure:
				g := i.Fn.(*ssa.Function)
				for k, b := range i.Bindings {
					if b == v {
						taint(g.FreeVars[k])
					}
				}
			case ssa.CallInstruction:
				com := i.Common()
				if com.IsInvoke() {
					switch com.Method.Name() {
					case "Delete", "PrefixStream", "ReadFile":
						found = true
						return
					}
				}
				if g := com.StaticCallee(); g != nil && inRepo(g) && g.Blocks != nil {
					for k, a := range com.Args {
						if a == v && k < len(g.Params) {
							taint(g.Params[k])
						}
					}
				}
				if val, ok := i.(ssa.Value); ok {
					taint(val)
				}
			case ssa.Value:
				taint(i)
			}
		}
	}
	for _, q := range fn.Params {
		if isStringType(q.Type()) {
			taint(q)
		}
	}
	return found
}

// find fills in what is known about the program.
func (r *routing) find() bool {
	p, c := r.p, r.c
	r.store, r.doc = p.Named("analysis", "Store"), p.Named("analysis", "Document")
	fs := p.Named("internal/lsp/protocol", "FS")
	if r.store == nil || r.doc == nil || fs == nil {
		c.Undecided("analysis.Store, analysis.Document or protocol.FS is not found")
		return false
	}
	u := r.store.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if isStringType(f.Type()) && (r.uriF == "" || strings.Contains(strings.ToLower(f.Name()), "uri")) {
			r.uriF = f.Name()
		}
	}
	if r.uriF == "" {
		c.Undecided("the URI of the folder of a store is not found")
		return false
	}
	reads := p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().IsInvoke() && derefNamed(ci.Common().Value.Type()) == fs && ci.Common().Method.Name() == "ReadFile"
	})
	dels := p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Delete" {
			return false
		}
		n := derefNamed(ci.Common().Value.Type())
		return n != nil && n.Obj().Name() == "Batch"
	})
	r.docFn, r.readers, r.routers = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		sig := fn.Signature
		if fn.Parent() != nil {
			continue
		}
		nstr := 0
		for i := 0; i < sig.Params().Len(); i++ {
			if isStringType(sig.Params().At(i).Type()) {
				nstr++
			}
		}
		if sig.Recv() != nil && derefNamed(sig.Recv().Type()) == r.store && nstr == 1 && (reads[fn] || dels[fn]) && r.names(fn) {
			r.docFn[fn] = true
			if reads[fn] {
				r.readers[fn] = true
			}
			c.Seen("operations on a document", shortFn(fn))
		}
		if inLsp(fn) && nstr == 1 && len(fn.Blocks) > 0 {
			for i := 0; i < sig.Results().Len(); i++ {
				if derefNamed(sig.Results().At(i).Type()) == r.store {
					makes := false
					for g := range p.reachable(fn) {
						eachCall(g, func(ci ssa.CallInstruction) {
							f := ci.Common().StaticCallee()
							if f != nil && !inLsp(f) && f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && derefNamed(f.Signature.Results().At(0).Type()) == r.store {
								makes = true
							}
						})
						makes = makes || r.docFn[g]
					}
					if !makes {
						r.routers[fn] = true
						c.Seen("functions that find the folder of a document", shortFn(fn))
					}
				}
			}
		}
	}
	return true
}

func rulesRouting(c *Ctx) {
	c.Rule("the function that finds the store of a document gives that of the innermost folder the document is in, for every relation of the document to up to four folders in every order (abstract interpretation over names and separators)")
	c.Rule("removing a folder takes only the store with exactly its URI out of use and closes no other")
	c.Rule("when a file or folder is deleted, exactly the documents that are it or are inside of it are removed, from the store of the innermost folder")
	c.Rule("every operation of a store on a document is on the store that was found for the same URI; a document is only looked up in and written to the store it is from")
	r := &routing{c: c, p: c.P}
	if !r.find() {
		return
	}
	for _, fn := range r.p.Repo {
		if r.routers[fn] {
			r.routes(fn)
		}
	}
	for _, fn := range r.p.Repo {
		if !inLsp(fn) || fn.Parent() != nil {
			continue
		}
		if fn.Signature.Recv() != nil && fn.Name() == "DidChangeWorkspaceFolders" {
			c.Seen("handlers of removed folders", shortFn(fn))
			r.leaving(fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op.String() != "<-" {
					continue
				}
				elem := u.X.Type().Underlying().(*types.Chan).Elem()
				strs := 0
				if isStringType(elem) {
					strs = 1
				} else if st, ok := elem.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if isStringType(st.Field(i).Type()) {
							strs++
						}
					}
				}
				if strs == 1 && r.deletes(fn, elem) {
					c.Seen("workers that delete documents", shortFn(fn))
				}
			}
		}
	}
	r.same()
	c.AtLeast("functions that find the folder of a document", 1)
	c.AtLeast("handlers of removed folders", 1)
	c.AtLeast("workers that delete documents", 1)
	c.AtLeast("operations on a document", 5)
	c.AtLeast("documents operated on", 10)
}

func init() {
	register("C36", "Abstract interpretation of the routing of documents to folders over the relations of their URIs, and path exploration of its uses.", nil, rulesRouting)
}

// tagOf is the store a value belongs to.
func tagOf(st *State, v *V) string {
	if v == nil {
		return ""
	}
	return st.mon["of:"+v.Strip().ID()]
}

// same follows the handlers and workers: an operation on a document is on the
// store that was found for its URI.
func (r *routing) same() {
	c, p := r.c, r.p
	isDocLike := func(t types.Type) bool {
		n := derefNamed(t)
		return n == r.store || n == r.doc
	}
	// functions of the analysis that put documents and stores together
	joins := func(fn *ssa.Function) bool {
		if fn == nil || pkgPathOf(fn) != modPath+"/analysis" {
			return false
		}
		n := 0
		for _, q := range fn.Params {
			if isDocLike(q.Type()) {
				n++
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isDocLike(fn.Signature.Results().At(i).Type()) {
				n++
			}
		}
		return n > 0
	}
	reach := p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		return f != nil && (r.routers[f] || joins(f))
	})
	for fn := range reach {
		if !inLsp(fn) {
			delete(reach, fn)
		}
	}
	// the functions the paths start in
	var roots []*ssa.Function
	for _, fn := range p.Repo {
		if !inLsp(fn) || !reach[fn] || r.routers[fn] || fn.Parent() != nil {
			continue
		}
		called := false
		for _, g := range p.Repo {
			if g == fn || !inLsp(g) {
				continue
			}
			eachCall(g, func(ci ssa.CallInstruction) {
				if _, isGo := ci.(*ssa.Go); !isGo && ci.Common().StaticCallee() == fn {
					called = true
				}
			})
		}
		if !called {
			roots = append(roots, fn)
		}
	}
	for _, fn := range p.Repo { // goroutines of their own
		if inLsp(fn) && fn.Parent() != nil && reach[fn] {
			for _, g := range p.Repo {
				eachCall(g, func(ci ssa.CallInstruction) {
					if gi, ok := ci.(*ssa.Go); ok && gi.Call.StaticCallee() == fn {
						roots = append(roots, fn)
					}
				})
			}
		}
	}
	for _, root := range roots {
		mon := &Monitor{}
		x := newEx(p, mon, reach)
		x.NoInline = func(f *ssa.Function) bool { return f != root && (r.routers[f] || !inLsp(f)) }
		mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
			f := cl.Fn
			pos := p.InstrPos(cl.Instr)
			where := shortFn(cl.Instr.Parent())
			if f == nil || cl.Go {
				return nil, false
			}
			if r.routers[f] {
				uri := ""
				for i, q := range f.Params {
					if isStringType(q.Type()) && i < len(cl.Args) {
						uri = cl.Args[i].Strip().ID()
					}
				}
				mk := func(st *State, v *V) *V {
					res := f.Signature.Results()
					if res.Len() == 1 {
						return v
					}
					var vs []*V
					for i := 0; i < res.Len(); i++ {
						if derefNamed(res.At(i).Type()) == r.store {
							vs = append(vs, v)
						} else {
							vs = append(vs, mkSym(fmt.Sprintf("res(%s,%d)", cl.Tok, i)))
						}
					}
					return mkTuple(vs...)
				}
				none, some := st.clone(), st
				s := mkNonNil("storeof(" + cl.Tok + ")")
				some.mon["for:"+s.ID()] = uri
				some.mon["of:"+s.ID()] = s.ID()
				some.step(pos, "finds the store of "+clean(uri))
				return []Out{{St: none, Val: mk(none, mkNil())}, {St: some, Val: mk(some, s)}}, true
			}
			if r.docFn[f] && inRepo(f) {
				c.Seen("documents operated on", where+" "+shortFn(f))
				s := cl.Args[0].Strip().ID()
				uri := ""
				for i, q := range f.Params {
					if i > 0 && isStringType(q.Type()) && i < len(cl.Args) {
						uri = cl.Args[i].Strip().ID()
					}
				}
				want, ok := st.mon["for:"+s]
				if !ok {
					c.Report("unrouted/"+where+"/"+shortFn(f), pos, fmt.Sprintf("%s: %s is called on a store that was not found by the URI of the document", where, shortFn(f)), st.Path())
				} else if want != uri {
					c.Report("other-uri/"+where+"/"+shortFn(f), pos, fmt.Sprintf("%s: %s is called with another URI than the store was found with", where, shortFn(f)), append(st.Path(), "found with "+clean(want), "called with "+clean(uri)))
				}
				outs := x.Opaque(st, cl)
				for _, o := range outs {
					if o.Val != nil {
						o.St.mon["of:"+o.Val.ID()] = s
					}
				}
				return outs, true
			}
			if pkgPathOf(f) != modPath+"/analysis" {
				return nil, false
			}
			tag, first := "", ""
			for i, a := range cl.Args {
				t := tagOf(st, a)
				if t == "" && i < len(f.Params) && derefNamed(f.Params[i].Type()) == r.store && x.IsNil(st, a) != 1 {
					t = a.Strip().ID()
				}
				if t == "" {
					continue
				}
				if tag == "" {
					tag = t
					if i < len(f.Params) {
						first = f.Params[i].Name()
					}
				} else if t != tag {
					other := ""
					if i < len(f.Params) {
						other = f.Params[i].Name()
					}
					c.Report("mixed/"+where+"/"+shortFn(f), pos, fmt.Sprintf("%s: the %s and the %s that are given to %s belong to different folders", where, first, other, shortFn(f)), st.Path())
				}
			}
			if tag == "" {
				return nil, false
			}
			c.Seen("uses of a document and its store", where+" "+shortFn(f))
			var cb bool
			for _, a := range cl.Args {
				if a.Strip().K == KFunc {
					cb = true
				}
			}
			if cb {
				return nil, false
			}
			outs := x.Opaque(st, cl)
			for _, o := range outs {
				if o.Val != nil && f.Signature.Results().Len() == 1 {
					if n := derefNamed(f.Signature.Results().At(0).Type()); n != nil && !types.IsInterface(n) {
						o.St.mon["of:"+o.Val.ID()] = tag
					}
				}
			}
			return outs, true
		}
		x.Run(root, x.RootArgs(root), nil, newState())
		c.Seen("handlers and workers followed", shortFn(root))
		c.Explored(x)
	}
}
