package main

import (
	"fmt"
	"go/types"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// naming interprets what happens to the names of files between the folder, the
// index and the client (C38).
type naming struct {
	c       *Ctx
	p       *Program
	r       *routing
	b       *background
	server  *types.Named
	store   *types.Named
	doc     *types.Named
	open    *ssa.Function // what adds folders
	watched *ssa.Function
	load    *ssa.Function // what reads a document
	workers []*ssa.Function
	delete  []*ssa.Function
}

type namingRun struct {
	*naming
	d     *Dom
	queue []func()
	jobs  []rv // to index
	gone  []rv // to delete
	tree  map[string][]string
	got   []string
}

// uriChars stand for the kinds of characters that the encodings of URIs know:
// what is never encoded, what an editor encodes, what marks parts of a URI, what
// encodings themselves use, and what is not ASCII.
var uriChars = []string{"a", "2", "B", "-", "~", ".", " ", "+", "%", "@", "(", "!", "*", "'", "#", "?", ":", "&", ";", "=", ",", "$", "[", "\"", "^", "|", "é", "\u4e2d"}

// strictURI is the URI of a file as editors write it: all is encoded but
// letters, digits and -_.~
func strictURI(path string) string {
	parts := strings.Split(path, "/")
	for i, p := range parts {
		parts[i] = strings.ReplaceAll(url.QueryEscape(p), "+", "%20")
	}
	return "file://" + strings.Join(parts, "/")
}

// shortURI is the URI of a file with as little encoded as possible.
func shortURI(path string) string { return (&url.URL{Scheme: "file", Path: path}).String() }

func (x *namingRun) note(format string, args ...interface{}) {
	x.got = append(x.got, fmt.Sprintf(format, args...))
}

func (x *namingRun) str(v rv) string {
	switch s := v.(type) {
	case rStr:
		return string(s)
	case rByts:
		return string(s)
	}
	x.d.fail("a name is not known")
	return ""
}

func (x *namingRun) isDir(path string) bool { _, ok := x.tree[path]; return ok }

func (x *namingRun) hook(d *Dom, c *DomCall) (rv, bool) {
	if c.Go {
		if c.Fn == nil || c.Fn.Blocks == nil {
			return rNil{}, true
		}
		fn, args, binds := c.Fn, c.Args, c.Binds
		x.queue = append(x.queue, func() { d.Run(fn, args, binds) })
		return rNil{}, true
	}
	if c.Iface != nil && c.Fn == nil {
		recv := d.id(c.Args[0])
		if strings.HasPrefix(recv, "entry:") {
			switch c.Iface.Name() {
			case "IsDir":
				return rBool(x.isDir(recv[6:])), true
			case "Name":
				return rStr(recv[strings.LastIndex(recv, "/")+1:]), true
			case "Mode", "Type":
				return rUnk{id: "mode:" + recv[6:], t: c.Iface.Type().(*types.Signature).Results().At(0).Type(), nonNil: true}, true
			}
		}
		if strings.HasSuffix(c.Iface.Name(), "Capability") {
			return rNil{}, true
		}
		return nil, false
	}
	fn := c.Fn
	if fn == nil {
		return nil, false
	}
	pkg, name, sig := pkgPathOf(fn), fn.Name(), fn.Signature
	res := sig.Results()
	var recv *types.Named
	if sig.Recv() != nil {
		recv = derefNamed(sig.Recv().Type())
	}
	switch {
	case pkg == "path/filepath" && (name == "WalkDir" || name == "Walk"):
		root := x.str(c.Args[0])
		x.note("walk %s", root)
		for _, f := range append([]string{root}, x.tree[root]...) {
			x.d.CallFunc(c, c.Args[1], rStr(f), rUnk{id: "entry:" + f, nonNil: true}, rNil{})
		}
		return rNil{}, true
	case pkg == "os" && (name == "Stat" || name == "Lstat") && inLspCall(c):
		x.note("stat %s", x.str(c.Args[0]))
		return rTuple{rUnk{id: "entry:" + x.str(c.Args[0]), t: res.At(0).Type(), nonNil: true}, rNil{}}, true
	case (pkg == "os" || pkg == "io/ioutil") && (name == "ReadFile" || name == "Open"):
		x.note("read %s", x.str(c.Args[0]))
		return rTuple{rUnk{id: "text", t: res.At(0).Type(), nonNil: true}, rNil{}}, true
	case recv != nil && recv.Obj().Name() == "FileMode" && (name == "IsDir" || name == "IsRegular"):
		if id := d.id(c.Args[0]); strings.HasPrefix(id, "mode:") {
			return rBool(x.isDir(id[5:]) == (name == "IsDir")), true
		}
	case recv == x.store && fn != x.load && inLspCall(c):
		uri, n := "", 0
		for i, q := range fn.Params[1:] {
			if s, ok := c.Args[i+1].(rStr); ok && isStringType(q.Type()) {
				uri = string(s)
				n++
			}
		}
		switch {
		case n == 1 && x.deletes(fn):
			x.note("delete %s", uri)
			return rNil{}, true
		case n == 1 && x.p.reachable(fn)[x.load]:
			x.note("index %s", uri)
			d.Run(x.load, []rv{c.Args[0], rUnk{id: "ctx", t: x.load.Params[1].Type(), nonNil: true}, rStr(uri)}, nil)
			if res.Len() == 1 {
				return d.Unknown("result of "+name, res.At(0).Type()), true
			}
			return rNil{}, true
		case res.Len() == 0:
			return rNil{}, true
		}
	case recv == nil && inAnalysis(fn) && res.Len() == 1 && derefNamed(res.At(0).Type()) == x.doc:
		for _, a := range c.Args {
			if u, ok := a.(rStr); ok {
				x.note("document %s", string(u))
			}
		}
		return d.NewObject(x.doc), true
	case inLsp(fn) && recv == nil && len(fn.Params) == 0 && res.Len() == 1 && isStringType(res.At(0).Type()):
		return rStr("/data"), true
	case pkg == modPath+"/util" && res.Len() == 0:
		return rNil{}, true
	case pkg == modPath+"/util" && x.hashes(fn):
		return d.Unknown("a name of "+d.id(c.Args[0]), res.At(0).Type()), true
	case pkg == modPath+"/analysis/storage" || pkg == modPath+"/stub" || !inRepo(fn):
		if pkg == "net/url" || pkg == "strings" || pkg == "sync" || strings.Contains(pkg, "concurrent-map") || strings.HasPrefix(pkg, "path") || pkg == "log" || pkg == "errors" || pkg == "fmt" {
			return nil, false
		}
		if res.Len() == 2 && isErrorType(res.At(1).Type()) {
			d.serial++
			t := res.At(0).Type()
			return rTuple{rUnk{id: fmt.Sprintf("result %d", d.serial), t: t, nonNil: true}, rNil{}}, true
		}
	case recv == nil && inAnalysis(fn) && res.Len() == 1 && strings.HasPrefix(name, "newReference"):
		return rUnk{id: "index", t: res.At(0).Type(), nonNil: true}, true
	}
	return nil, false
}

func inLspCall(c *DomCall) bool { return c.Instr != nil && inLsp(c.Instr.Parent()) }

// deletes tells whether a method of the store takes something out of the index.
func (n *naming) deletes(fn *ssa.Function) bool {
	for g := range n.p.reachable(fn) {
		if g == n.load {
			return false
		}
	}
	return strings.HasPrefix(fn.Name(), "Delete")
}

// hashes tells whether a function makes a name with a hash.
func (n *naming) hashes(fn *ssa.Function) bool {
	found := false
	for g := range n.p.reachable(fn) {
		if inRepo(g) {
			eachCall(g, func(ci ssa.CallInstruction) {
				if f := ci.Common().StaticCallee(); f != nil && strings.HasPrefix(pkgPathOf(f), "crypto/") {
					found = true
				}
			})
		}
	}
	return found
}

func (x *namingRun) sent(at *ssa.Send, ch, v rv) bool {
	s := v
	if cell, ok := v.(*rCell); ok {
		s = cell.v
	}
	switch s := s.(type) {
	case *rStruct:
		if derefNamed(s.t) == x.b.job {
			x.jobs = append(x.jobs, v)
			return true
		}
	case rStr:
		x.gone = append(x.gone, s)
		return true
	}
	return false
}

// drain does all that was started, with the workers.
func (x *namingRun) drain(server *rCell) {
	take := func(fns []*ssa.Function, vs []rv) {
		for _, fn := range fns {
			args := []rv{}
			for _, q := range fn.Params {
				v := x.part(server, q.Type(), 3)
				if v == nil {
					v = rUnk{id: "some " + q.Name(), t: q.Type(), nonNil: true}
					if b, ok := q.Type().Underlying().(*types.Basic); ok {
						v = x.d.zero(b)
					}
				}
				args = append(args, v)
			}
			x.d.Recv = append(x.d.Recv, vs...)
			func() {
				defer func() {
					if e := recover(); e != nil {
						if ex, ok := e.(domExc); !ok || !strings.Contains(fmt.Sprint(ex), "waits for ever") {
							panic(e)
						}
					}
				}()
				x.d.Run(fn, args, nil)
			}()
		}
	}
	for len(x.queue)+len(x.jobs)+len(x.gone) > 0 {
		q, jobs, gone := x.queue, x.jobs, x.gone
		x.queue, x.jobs, x.gone = nil, nil, nil
		for _, f := range q {
			f()
		}
		if len(jobs) > 0 {
			take(x.workers[:1], jobs)
		}
		if len(gone) > 0 {
			take(x.delete[:1], gone)
		}
	}
}

// part finds a part of the server.
func (x *namingRun) part(o *rCell, t types.Type, depth int) rv {
	st, ok := o.v.(*rStruct)
	if !ok || depth == 0 {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), st.t) {
		return o
	}
	for _, f := range st.f {
		if in, ok := f.v.(*rCell); ok {
			if v := x.part(in, t, depth-1); v != nil {
				return v
			}
		}
	}
	return nil
}

// params makes the parameters of a notification.
func (x *namingRun) params(fn *ssa.Function, fill func(d *Dom, o *rCell)) []rv {
	o := x.d.NewObject(derefType(fn.Params[2].Type()))
	fill(x.d, o)
	return []rv{nil, rUnk{id: "ctx", t: fn.Params[1].Type(), nonNil: true}, o}
}

// list puts elements into a list of a message.
func (x *namingRun) list(o *rCell, name string, fill func(e *rCell)) {
	f := x.d.deepField(o, name)
	t := x.d.typeOfField(derefNamed(o.v.(*rStruct).t), name)
	if f == nil || t == nil {
		x.d.fail("a message has no %s", name)
	}
	e := x.d.NewObject(t.Underlying().(*types.Slice).Elem())
	fill(e)
	f.v = x.d.Slice(e.v)
}

// event is a change of a file.
type namingEvent struct {
	kind string // Created, Changed or Deleted; "" for a folder that is added
	uri  string
}

func (n *naming) run(folder string, tree map[string][]string, ev namingEvent, want []string, what string) {
	d := newDom(n.p)
	x := &namingRun{naming: n, d: d}
	pos := n.p.Pos(n.open.Pos())
	if ev.kind != "" {
		pos = n.p.Pos(n.watched.Pos())
	}
	why := d.Explore(func() rv {
		d.Hook, d.OnSend = x.hook, x.sent
		d.Recv = nil
		x.queue, x.jobs, x.gone, x.got, x.tree = nil, nil, nil, nil, map[string][]string{}
		if ev.kind == "" {
			x.tree = tree
		}
		var lists []*rCell
		server := n.r.object(d, types.NewPointer(n.server), nil, &lists, 0).(*rCell)
		for _, f := range server.v.(*rStruct).f {
			if o, ok := f.v.(*rCell); ok {
				(&diagRun{diagnosing: &diagnosing{lookups: &lookups{server: n.server}}}).backLink(o, server)
			}
		}
		args := x.params(n.open, func(d *Dom, o *rCell) {
			ev := d.Field(o, "Event")
			if ev == nil {
				d.fail("the message about folders is not known")
			}
			x.list(ev, "Added", func(e *rCell) { d.Field(e, "URI").v = rStr(strictURI(folder)) })
		})
		args[0] = server
		d.Run(n.open, args, nil)
		x.drain(server)
		if ev.kind != "" {
			x.got = nil
			x.tree = tree
			args := x.params(n.watched, func(d *Dom, o *rCell) {
				x.list(o, "Changes", func(e *rCell) {
					d.Field(e, "URI").v = rStr(ev.uri)
					if k, ok := constOf(n.p.Pkg(lspPkg+"/protocol").Types, ev.kind); ok {
						d.Field(e, "Type").v = k
					}
				})
			})
			args[0] = server
			d.Run(n.watched, args, nil)
			x.drain(server)
		}
		return rNil{}
	}, func(r DomResult) {
		if r.Panics != "" {
			n.c.Report("names/panics/"+what, pos, fmt.Sprintf("%s (%q): %s", what, ev.uri, r.Panics), r.Trail)
			return
		}
		missing := map[string]bool{}
		for _, w := range want {
			missing[w] = true
		}
		for _, g := range x.got {
			kind := g[:strings.Index(g, " ")]
			if missing[g] {
				continue
			}
			known := false
			for _, w := range want {
				known = known || w == g
			}
			if kind != "document" && kind != "stat" && !known {
				n.c.Report("names/other/"+what+"/"+kind, pos, fmt.Sprintf("%s: %s instead of %s", what, g, strings.Join(want, ", ")), r.Trail)
			}
		}
		for _, g := range x.got {
			delete(missing, g)
		}
		for _, w := range sortedKeys(missing) {
			n.c.Report("names/missing/"+what+"/"+w[:strings.Index(w, " ")], pos, fmt.Sprintf("%s: not %s, but %s", what, w, strings.Join(x.got, ", ")), r.Trail)
		}
	})
	if why != "" {
		n.c.Undecided("%s cannot be followed (%s): %s", what, ev.uri, why)
	}
	for f := range d.Funcs {
		n.c.Fn(f)
	}
	n.c.Count("instructions interpreted", d.Steps)
	n.c.Count("names", 1)
	n.c.Seen("ways to learn of a file", what)
}

func (n *naming) find() bool {
	p := n.p
	n.r = &routing{c: n.c, p: p}
	if !n.r.find() {
		return false
	}
	n.store, n.server, n.doc = p.Named("analysis", "Store"), p.Named(lspPkg, "Server"), p.Named("analysis", "Document")
	if n.store == nil || n.server == nil || n.doc == nil {
		n.c.Undecided("the store, the server or its documents are not found")
		return false
	}
	n.b = &background{c: n.c, p: p, store: n.store, server: n.server}
	for _, fn := range p.Repo {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if s, ok := in.(*ssa.Send); ok && n.b.job == nil {
					n.b.job = n.b.jobOf(s.X.Type())
				}
			}
		}
	}
	if n.b.job == nil {
		n.c.Undecided("the jobs of the workers are not found")
		return false
	}
	n.workers = n.b.receivers(func(t types.Type) bool { return n.b.jobOf(t) == n.b.job })
	n.delete = n.b.receivers(func(t types.Type) bool { return isStringType(t) })
	n.open, n.watched = p.Method(n.server, "DidChangeWorkspaceFolders"), p.Method(n.server, "DidChangeWatchedFiles")
	for name, m := range p.Methods(n.store) {
		if res := m.Signature.Results(); res.Len() == 1 && derefNamed(res.At(0).Type()) == n.doc && name == "GetOrCreateDocument" {
			n.load = m
		}
	}
	if n.open == nil || n.watched == nil || n.load == nil || len(n.workers) == 0 || len(n.delete) == 0 {
		n.c.Undecided("how the server learns of files is not found")
		return false
	}
	return true
}

func rulesNaming(c *Ctx) {
	c.Rule("a file of a folder is indexed under the URI that encodes its path, once, part by part, and is read from its path; so is one that is created or changed, under the URI that the client gave, and one in a directory that is; a folder is listed at its path")
	c.Rule("what was deleted is deleted under the URI that the client gave")
	n := &naming{c: c, p: c.P}
	if !n.find() {
		return
	}
	names := append([]string{}, uriChars...)
	for _, a := range uriChars {
		for _, b := range uriChars {
			names = append(names, a+b)
		}
	}
	names = append(names, "%41", "%2B", "%252B", "a b+c%d", "c:", "file:")
	for _, s := range names {
		folder, file := "/r/"+s, "/r/"+s+"/q"+s+".php"
		if s == "." || s == ".." {
			folder, file = "/r/f", "/r/f/q"+s+".php"
		}
		uri := strictURI(file)
		n.run(folder, map[string][]string{folder: {file}}, namingEvent{}, []string{"walk " + folder, "index " + uri, "document " + uri, "read " + file}, "a folder is added")
		dir := folder + "/d" + s
		inner := dir + "/" + s + "x.php"
		for _, kind := range []string{"Created", "Changed"} {
			n.run(folder, nil, namingEvent{kind, uri}, []string{"index " + uri, "document " + uri, "read " + file}, "a file was "+strings.ToLower(kind))
		}
		if u := shortURI(file); u != uri && strings.HasPrefix(u, strictURI(folder)+"/") || strings.HasPrefix(u, "file:///r/") {
			n.run("/r", nil, namingEvent{"Changed", u}, []string{"index " + u, "document " + u, "read " + file}, "a file was changed")
		}
		n.run(folder, map[string][]string{dir: {inner}}, namingEvent{"Created", strictURI(dir)}, []string{"walk " + dir, "index " + strictURI(inner), "document " + strictURI(inner), "read " + inner}, "a directory was created")
		n.run(folder, nil, namingEvent{"Deleted", uri}, []string{"delete " + uri}, "a file was deleted")
	}
	c.AtLeast("ways to learn of a file", 5)
	c.AtLeast("names", 3000)
}

func init() {
	register("C38", "names of files", nil, rulesNaming)
}
