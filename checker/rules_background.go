package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// background is what C35 knows about the indexing that goes on in the background.
type background struct {
	c      *Ctx
	p      *Program
	store  *types.Named
	server *types.Named
	job    *types.Named // what is handed to the workers, with the group to count down
	uri    int          // its field with the URI
	group  int          // its field with the group
}

// bgEvent is something that the indexing does.
type bgEvent struct {
	kind string // add, done, wait, hand, delete, list, prepare, finish, index
	wg   *rCell
	uri  string
	n    int64
}

type bgRun struct {
	*background
	d       *Dom
	events  []bgEvent
	objects map[string]*rCell
	queue   []func()
	walk    func(c *DomCall, root string, fv rv) rv
	listed  []string
	bad     map[string]bool
}

func isWaitGroup(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(derefType(t)) == "sync.WaitGroup"
}

func (b *background) jobOf(t types.Type) *types.Named {
	n := derefNamed(t)
	if n == nil || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	group, uri := -1, -1
	for i := 0; i < s.NumFields(); i++ {
		if isWaitGroup(s.Field(i).Type()) {
			group = i
		}
		if isStringType(s.Field(i).Type()) && uri < 0 {
			uri = i
		}
	}
	if group < 0 || uri < 0 {
		return nil
	}
	b.group, b.uri = group, uri
	return n
}

func chanOf(t types.Type) types.Type {
	if ch, ok := t.Underlying().(*types.Chan); ok {
		return ch.Elem()
	}
	return nil
}

// receivers are the functions that take values of that sort from a channel.
func (b *background) receivers(is func(types.Type) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range b.p.Repo {
		if !inLsp(fn) {
			continue
		}
		found := false
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if e := chanOf(u.X.Type()); e != nil && is(e) {
						found = true
					}
				}
				if s, ok := in.(*ssa.Select); ok {
					for _, st := range s.States {
						if e := chanOf(st.Chan.Type()); e != nil && st.Dir == types.RecvOnly && is(e) {
							found = true
						}
					}
				}
			}
		}
		if found {
			out = append(out, fn)
		}
	}
	return out
}

func (r *bgRun) str(v rv) string {
	switch s := v.(type) {
	case rStr:
		return string(s)
	case rByts:
		return string(s)
	}
	r.d.fail("a URI is not known")
	return ""
}

var errVal = rUnk{id: "an error", nonNil: true}

func (r *bgRun) hook(d *Dom, c *DomCall) (rv, bool) {
	pos := ""
	if c.Instr != nil {
		pos = r.p.InstrPos(c.Instr)
	}
	if c.Go {
		if c.Fn == nil || c.Fn.Blocks == nil {
			return rNil{}, true
		}
		fn, args, binds := c.Fn, c.Args, c.Binds
		r.queue = append(r.queue, func() { r.d.Run(fn, args, binds) })
		return rNil{}, true
	}
	if c.Iface != nil && c.Fn == nil {
		recv := d.id(c.Args[0])
		switch c.Iface.Name() {
		case "ListFiles":
			if d.decide("the files cannot be listed", pos) {
				r.note(bgEvent{kind: "failed"})
				return rTuple{rNil{}, errVal}, true
			}
			res := c.Iface.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice)
			var vs []rv
			for _, l := range r.listed {
				doc := d.zero(res.Elem())
				s, ok := doc.(*rStruct)
				if !ok {
					d.fail("the listed files are not known at %s", pos)
				}
				s.f[0].v = rStr(l)
				vs = append(vs, doc)
			}
			r.note(bgEvent{kind: "list"})
			return rTuple{d.Slice(vs...), rNil{}}, true
		case "ConvertToURI":
			return rStr("C:" + r.str(c.Args[1])), true
		case "IsDir":
			if strings.HasPrefix(recv, "entry:") {
				return rBool(r.isDir(recv[6:])), true
			}
		case "Mode", "Type":
			if strings.HasPrefix(recv, "entry:") {
				return rUnk{id: "mode:" + recv[6:], t: c.Iface.Type().(*types.Signature).Results().At(0).Type(), nonNil: true}, true
			}
		case "Name":
			if strings.HasPrefix(recv, "entry:") {
				return rStr(recv[strings.LastIndex(recv, "/")+1:]), true
			}
		}
		return nil, false
	}
	if c.Fn == nil {
		return nil, false
	}
	pkg, name := pkgPathOf(c.Fn), c.Fn.Name()
	sig := c.Fn.Signature
	if recv := sig.Recv(); recv != nil {
		switch typeName(derefType(recv.Type())) {
		case "sync.WaitGroup":
			wg, ok := c.Args[0].(*rCell)
			if !ok {
				d.exc(c.Instr, "there is no group to count down")
			}
			switch name {
			case "Add":
				n, ok := c.Args[1].(rInt)
				if !ok || !n.konst() {
					d.fail("what is added at %s is not known", pos)
				}
				r.note(bgEvent{kind: "add", wg: wg, n: n.c})
			case "Done":
				r.note(bgEvent{kind: "done", wg: wg})
			case "Wait":
				r.drain()
				r.note(bgEvent{kind: "wait", wg: wg})
			default:
				d.fail("%s of a group at %s", name, pos)
			}
			return rNil{}, true
		case "io/fs.FileMode":
			if id := d.id(c.Args[0]); strings.HasPrefix(id, "mode:") {
				switch name {
				case "IsDir":
					return rBool(r.isDir(id[5:])), true
				case "IsRegular":
					return rBool(!r.isDir(id[5:])), true
				}
			}
		}
		if derefNamed(recv.Type()) == r.store {
			switch name {
			case "CompareAndIndexDocument":
				r.note(bgEvent{kind: "index", uri: r.str(c.Args[len(c.Args)-1])})
			case "PrepareForIndexing":
				r.note(bgEvent{kind: "prepare"})
			case "FinishIndexing":
				r.note(bgEvent{kind: "finish"})
			case "DeleteDocument":
				r.note(bgEvent{kind: "drop", uri: strings.TrimPrefix(r.str(c.Args[len(c.Args)-1]), "D:")})
			case "DeleteFolder":
			default:
				return nil, false
			}
			if c.Fn.Signature.Results().Len() == 0 {
				return rNil{}, true
			}
			return d.Unknown("result of "+name, c.Fn.Signature.Results().At(0).Type()), true
		}
	}
	switch {
	case pkg == "os" && (name == "Stat" || name == "Lstat"):
		path := r.str(c.Args[0])
		if strings.Contains(path, "unknown") {
			return rTuple{rNil{}, errVal}, true
		}
		return rTuple{rUnk{id: "entry:" + path, t: sig.Results().At(0).Type(), nonNil: true}, rNil{}}, true
	case pkg == "os" && name == "IsNotExist":
		return rBool(d.decide("the error says that there is no file", pos)), true
	case pkg == "path/filepath" && (name == "WalkDir" || name == "Walk"):
		return r.walk(c, r.str(c.Args[0]), c.Args[1]), true
	case inRepo(c.Fn) && name == "URIToPath" && len(c.Args) == 1:
		uri := r.str(c.Args[0])
		if strings.Contains(uri, "odd:") {
			return rTuple{rStr(""), errVal}, true
		}
		return rTuple{rStr(strings.TrimPrefix(uri, "file://")), rNil{}}, true
	case inRepo(c.Fn) && name == "PathToURI" && len(c.Args) == 1:
		return rStr("file://" + r.str(c.Args[0])), true
	case inRepo(c.Fn) && name == "DecodeURIFromQuery" && len(c.Args) == 1:
		uri := r.str(c.Args[0])
		if d.decide("it cannot decode "+uri, pos) {
			return rTuple{rStr(""), errVal}, true
		}
		return rTuple{rStr("D:" + uri), rNil{}}, true
	case inRepo(c.Fn) && sig.Results().Len() == 1 && sig.Recv() != nil && derefNamed(sig.Results().At(0).Type()) == r.store && len(c.Args) == 2 && isStringType(sig.Params().At(0).Type()):
		uri := r.str(c.Args[1])
		if d.decide("no folder has "+uri, pos) {
			return rNil{}, true
		}
		return r.known("the store", sig.Results().At(0).Type(), 1), true
	case inRepo(c.Fn) && sig.Results().Len() == 1 && isSliceOf(sig.Results().At(0).Type(), r.store):
		return d.Slice(), true
	}
	return nil, false
}

func isSliceOf(t types.Type, n *types.Named) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && derefNamed(sl.Elem()) == n
}

func (r *bgRun) isDir(path string) bool {
	base := path[strings.LastIndex(path, "/")+1:]
	return strings.HasPrefix(base, "dir") || !strings.Contains(base, ".")
}

func (r *bgRun) note(e bgEvent) { r.events = append(r.events, e) }

func (r *bgRun) drain() {
	for len(r.queue) > 0 {
		f := r.queue[0]
		r.queue = r.queue[1:]
		f()
	}
}

func (r *bgRun) sent(at *ssa.Send, ch, v rv) bool {
	if cell, ok := v.(*rCell); ok {
		v = cell.v
	}
	switch v := v.(type) {
	case *rStruct:
		if derefNamed(v.t) != r.job {
			return false
		}
		wg, _ := v.f[r.group].v.(*rCell)
		r.note(bgEvent{kind: "hand", uri: r.str(v.f[r.uri].v), wg: wg})
		return true
	case rStr:
		r.note(bgEvent{kind: "delete", uri: string(v)})
		return true
	}
	return false
}

// args are most general arguments.
func (r *bgRun) args(fn *ssa.Function) []rv {
	var out []rv
	for _, q := range fn.Params {
		if isStringType(q.Type()) {
			out = append(out, rStr("file:///w"))
			continue
		}
		out = append(out, r.known(q.Name(), q.Type(), 3))
	}
	return out
}

// known is a value that is not known, and not nil.
func (r *bgRun) known(id string, t types.Type, depth int) rv {
	if n := derefNamed(t); n != nil && depth > 0 && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) {
		if _, ok := n.Underlying().(*types.Struct); ok {
			if r.objects[id] == nil {
				c := r.d.NewObject(n)
				r.objects[id] = c
				s, ok := c.v.(*rStruct)
				if !ok {
					return r.d.Unknown(id, t)
				}
				u := n.Underlying().(*types.Struct)
				for i, f := range s.f {
					switch u.Field(i).Type().Underlying().(type) {
					case *types.Struct:
						if p := pkgOfType(u.Field(i).Type()); p == "sync" {
							continue
						}
						f.v = r.known(id+"."+u.Field(i).Name(), u.Field(i).Type(), depth-1)
					default:
						f.v = r.known(id+"."+u.Field(i).Name(), u.Field(i).Type(), depth-1)
					}
				}
			}
			if _, ptr := t.Underlying().(*types.Pointer); !ptr {
				return copyVal(r.d, r.objects[id].v)
			}
			return r.objects[id]
		}
	}
	v := r.d.Unknown(id, t)
	if u, ok := v.(rUnk); ok {
		u.nonNil = true
		v = u
	}
	return v
}

func pkgOfType(t types.Type) string {
	if n := derefNamed(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (b *background) explore(what string, fn *ssa.Function, f func(r *bgRun)) {
	c := b.c
	r := &bgRun{background: b, d: newDom(b.p), bad: map[string]bool{}}
	r.d.MaxPaths, r.d.MaxSteps = 3000, 60000
	r.d.Hook, r.d.OnSend = r.hook, r.sent
	paths := 0
	why := r.d.Explore(func() rv {
		r.events, r.queue, r.listed, r.walk = nil, nil, nil, func(*DomCall, string, rv) rv { return rNil{} }
		r.d.Recv, r.objects = nil, map[string]*rCell{}
		f(r)
		return rNil{}
	}, func(res DomResult) {
		paths++
		if res.Panics != "" {
			r.bad["it panics: "+res.Panics] = true
		}
	})
	for f := range r.d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", r.d.Steps)
	c.Count("paths", paths)
	if why != "" {
		c.Undecided("%s: %s", what, why)
		return
	}
	var all []string
	for m := range r.bad {
		all = append(all, m)
	}
	sort.Strings(all)
	for _, m := range all {
		c.Report(shortFn(fn)+":"+firstWords(m), b.p.Pos(fn.Pos()), what+": "+m, nil)
	}
}

// counted checks that what is handed over is counted before, and no more.
func (r *bgRun) counted() {
	added, handed := map[*rCell]int64{}, map[*rCell]int64{}
	for _, e := range r.events {
		switch e.kind {
		case "add":
			added[e.wg] += e.n
		case "done":
			added[e.wg]--
		case "hand":
			if e.wg == nil {
				continue
			}
			handed[e.wg]++
			if added[e.wg] < handed[e.wg] {
				r.bad["a job is handed over before it is counted"] = true
			}
		case "wait":
			if added[e.wg] != handed[e.wg] {
				r.bad["it waits for jobs that nobody does"] = true
			}
		}
	}
	for wg, n := range added {
		if n != handed[wg] {
			r.bad["more is counted than handed over"] = true
		}
	}
}

// handed compares what is handed over with what ought to be.
func (r *bgRun) handed(kind, what string, want []string) {
	got := map[string]int{}
	for _, e := range r.events {
		if e.kind == kind {
			got[e.uri]++
		}
	}
	for _, w := range want {
		switch got[w] {
		case 0:
			r.bad["not "+what+": "+w] = true
		case 1:
		default:
			r.bad[what+" more than once: "+w] = true
		}
		delete(got, w)
	}
	for g := range got {
		r.bad["wrongly "+what+": "+g] = true
	}
}

// workers checks what takes the jobs.
func (b *background) workers(fn *ssa.Function) {
	c := b.c
	c.Seen("worker", shortFn(fn))
	for _, with := range []string{"yy", "yny", "nn", "ny", "yyy"} {
		with := with
		b.explore("taking jobs", fn, func(r *bgRun) {
			groups := map[*rCell]string{}
			for i, w := range with {
				s, ok := r.d.zero(b.job).(*rStruct)
				if !ok {
					r.d.fail("jobs are not known")
				}
				u := b.job.Underlying().(*types.Struct)
				for j := range s.f {
					switch {
					case j == b.uri:
						s.f[j].v = rStr(fmt.Sprintf("file:///w/%d.php", i))
					case j == b.group:
						if w == 'y' {
							wg := r.d.NewObject(derefType(u.Field(j).Type()))
							groups[wg] = fmt.Sprintf("file:///w/%d.php", i)
							s.f[j].v = wg
						}
					default:
						s.f[j].v = r.d.Unknown(fmt.Sprintf("job%d.%s", i, u.Field(j).Name()), u.Field(j).Type())
					}
				}
				var v rv = s
				if b.byPointer(fn) {
					v = r.d.cell(s)
				}
				r.d.Recv = append(r.d.Recv, v)
			}
			n := len(r.d.Recv)
			r.d.OnRecv = func(n int) {
				r.drain()
				r.note(bgEvent{kind: "take", n: int64(n)})
			}
			defer func() { r.d.OnRecv = nil }()
			ended := r.serve(fn)
			if r.d.recvd < n || !ended {
				r.bad["it stops taking jobs"] = true
				return
			}
			r.drain()
			done, indexed := map[string]int{}, map[string]int{}
			for _, e := range r.events {
				switch e.kind {
				case "take":
					for i := 0; i < int(e.n); i++ {
						if with[i] == 'y' && done[fmt.Sprintf("file:///w/%d.php", i)] == 0 {
							r.bad["a job is not counted down"] = true
						}
					}
				case "done":
					done[groups[e.wg]]++
				case "index":
					uri := strings.TrimPrefix(e.uri, "D:")
					indexed[uri]++
					if done[uri] > 0 {
						r.bad["a job is counted down before it is done"] = true
					}
				}
			}
			for i, w := range with {
				uri := fmt.Sprintf("file:///w/%d.php", i)
				want := 0
				if w == 'y' {
					want = 1
				}
				if done[uri] < want {
					r.bad["a job is not counted down"] = true
				} else if done[uri] > want {
					r.bad["a job is counted down more than once"] = true
				}
				lost := r.d.conds["it cannot decode "+uri] || r.d.conds["no folder has D:"+uri] || r.d.conds["no folder has "+uri]
				if !lost && indexed[uri] != 1 {
					r.bad[fmt.Sprintf("a document is indexed %d times", indexed[uri])] = true
				}
			}
		})
	}
}

// serve runs a worker until there are no more jobs.
func (r *bgRun) serve(fn *ssa.Function) (ended bool) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(domExc); ok && strings.Contains(fmt.Sprint(x), "waits for ever") {
				ended = true
				return
			}
			panic(e)
		}
	}()
	r.d.Run(fn, r.args(fn), nil)
	return true
}

func (b *background) byPointer(fn *ssa.Function) bool {
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			if u, ok := in.(*ssa.UnOp); ok {
				if e := chanOf(u.X.Type()); e != nil && b.jobOf(e) == b.job {
					_, ptr := e.Underlying().(*types.Pointer)
					return ptr
				}
			}
		}
	}
	return false
}

// folder checks the indexing of a folder.
func (b *background) folder(fn *ssa.Function) {
	b.c.Seen("indexing of a folder", shortFn(fn))
	lists := [][]string{
		{"/w/a.php", "/w/b.txt", "/w/dir/c.php", "/w/php", "/w/d.php"},
		{"/w/b.txt"}, {}, {"/w/a.php"}, {"/w/x.php/r.txt", "/w/php.php"},
	}
	var all []string
	for _, w := range b.p.spellings(fn, nil, ".-_~/") {
		some := []string{"/w/q" + w + "r.php", "/w/" + w + ".php", "/w/" + w + "/r.php", "/w/q" + w + ".php"}
		lists = append(lists, append([]string{"/w/a.php"}, append(some, "/w/z.php")...))
		all = append(all, some...)
	}
	lists = append(lists, append(all, "/w/z.php"))
	for _, files := range lists {
		files := files
		b.explore("indexing a folder", fn, func(r *bgRun) {
			for _, f := range files {
				if !contains(r.listed, f) {
					r.listed = append(r.listed, f)
				}
			}
			r.d.Run(fn, r.args(fn), nil)
			r.drain()
			if r.d.conds["the files cannot be listed"] {
				for _, e := range r.events {
					if e.kind == "finish" {
						r.bad["documents are deleted although the files could not be listed"] = true
					}
				}
				return
			}
			var want []string
			seen := map[string]bool{}
			for _, f := range files {
				if seen[f] {
					continue
				}
				seen[f] = true
				if strings.HasSuffix(f, ".php") {
					want = append(want, "C:"+f)
				}
			}
			r.handed("hand", "handed over", want)
			r.counted()
			prepared, listed, finished := 0, false, 0
			open := map[*rCell]bool{}
			for _, e := range r.events {
				switch e.kind {
				case "prepare":
					prepared++
				case "list":
					listed = true
				case "hand":
					if prepared == 0 {
						r.bad["a file is handed over before the indexed documents are known"] = true
					}
					if finished > 0 {
						r.bad["a file is handed over after the end"] = true
					}
					open[e.wg] = true
				case "wait":
					delete(open, e.wg)
				case "finish":
					finished++
					if prepared == 0 || !listed {
						r.bad["the end comes before the files are listed"] = true
					}
					if len(open) > 0 {
						r.bad["documents are deleted before all files are indexed"] = true
					}
				}
			}
			if prepared != 1 {
				r.bad[fmt.Sprintf("the indexed documents are prepared %d times", prepared)] = true
			}
			if finished != 1 {
				r.bad[fmt.Sprintf("the documents that are gone are deleted %d times", finished)] = true
			}
		})
	}
}

// watched checks what is done about changed files.
func (b *background) watched(fn *ssa.Function) {
	p, c := b.p, b.c
	c.Seen("changes of files", shortFn(fn))
	var params *types.Named
	at := -1
	for i, q := range fn.Params {
		if n := derefNamed(q.Type()); n != nil && n.Obj().Name() == "DidChangeWatchedFilesParams" {
			params, at = n, i
		}
	}
	if params == nil {
		c.Undecided("the parameters of %s are not known", shortFn(fn))
		return
	}
	kinds := map[string]rv{}
	for _, k := range []string{"Created", "Changed", "Deleted"} {
		v, ok := constOf(params.Obj().Pkg(), k)
		if !ok {
			c.Undecided("the kind of change %s is not known", k)
			return
		}
		kinds[k] = v
	}
	type change struct{ kind, uri string }
	type entry struct {
		path   string
		failed bool // the error that the walk gets
		noInfo bool
	}
	trees := map[string][]entry{
		"/w/dir": {{path: "/w/dir"}, {path: "/w/dir/dirp.php"}, {path: "/w/dir/dirp.php/q.php"}, {path: "/w/dir/dirx"}, {path: "/w/dir/dirx", failed: true},
			{path: "/w/dir/f.php", failed: true, noInfo: true}, {path: "/w/dir/x.php"}, {path: "/w/dir/y.txt"}, {path: "/w/dir/z.php"}},
		"/w/dirodd.php":  {{path: "/w/dirodd.php"}, {path: "/w/dirodd.php/r.php"}},
		"/w/dirgone":     {{path: "/w/dirgone", failed: true, noInfo: true}},
		"/w/dirnothing":  {{path: "/w/dirnothing"}},
		"/w/dironly.txt": {{path: "/w/dironly.txt"}, {path: "/w/dironly.txt/a.php"}},
	}
	inTree := map[string][]string{
		"/w/dir":         {"/w/dir/dirp.php/q.php", "/w/dir/x.php", "/w/dir/z.php"},
		"/w/dirodd.php":  {"/w/dirodd.php/r.php"},
		"/w/dironly.txt": {"/w/dironly.txt/a.php"},
	}
	all := []change{
		{"Deleted", "file:///w/gone.php"}, {"Created", "file:///w/new.php"}, {"Changed", "file:///w/dir"}, {"Created", "odd:/w/odd.php"},
		{"Changed", "file:///w/unknown.php"}, {"Created", "file:///w/new.txt"}, {"Created", "file:///w/dirgone"}, {"Created", "file:///w/dirnothing"},
		{"Changed", "file:///w/last.php"}, {"Created", "file:///w/dirodd.php"}, {"Deleted", "file:///w/dirdel"}, {"Created", "file:///w/dironly.txt"},
		{"Deleted", "file:///w/gone.txt"},
	}
	for _, w := range p.spellings(fn, nil, ".-_~/") {
		name := "file:///w/q" + w + "r.php"
		if !strings.HasPrefix(w, "file:") && !strings.Contains(name, "unknown") && !strings.Contains(name, "odd:") && !strings.HasSuffix(w, "/") {
			all = append(all, change{"Created", name}, change{"Deleted", "file:///w/q" + w})
			trees["/w/dir"] = append(trees["/w/dir"], entry{path: "/w/dir/q" + w + "r.php"})
			inTree["/w/dir"] = append(inTree["/w/dir"], "/w/dir/q"+w+"r.php")
		}
	}
	cases := [][]change{all, {}}
	for _, ch := range all {
		cases = append(cases, []change{ch}, []change{ch, {"Changed", "file:///w/after.php"}})
	}
	for _, changes := range cases {
		changes := changes
		b.explore("files have changed", fn, func(r *bgRun) {
			r.walk = func(call *DomCall, root string, fv rv) rv {
				skip := ""
				for _, e := range trees[root] {
					if skip != "" && strings.HasPrefix(e.path, skip) {
						continue
					}
					var info, err rv = rUnk{id: "entry:" + e.path, nonNil: true}, rNil{}
					if e.noInfo {
						info = rNil{}
					}
					if e.failed {
						err = rUnk{id: "the error of " + e.path, nonNil: true}
					}
					switch res := r.d.CallFunc(call, fv, rStr(e.path), info, err).(type) {
					case rNil:
					default:
						switch id := r.d.id(res); {
						case strings.Contains(id, "SkipDir"):
							skip = e.path + "/"
							if !r.isDir(e.path) {
								skip = e.path[:strings.LastIndex(e.path, "/")+1]
							}
						case strings.Contains(id, "SkipAll"):
							return rNil{}
						default:
							return res
						}
					}
				}
				return rNil{}
			}
			cell := r.d.NewObject(params)
			s := cell.v.(*rStruct)
			u := params.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				var vs []rv
				for _, ch := range changes {
					ev := r.d.NewObject(sl.Elem())
					r.d.Field(ev, "URI").v = rStr(ch.uri)
					r.d.Field(ev, "Type").v = kinds[ch.kind]
					vs = append(vs, ev.v)
				}
				s.f[i].v = r.d.Slice(vs...)
			}
			args := r.args(fn)
			args[at] = cell
			if _, ptr := fn.Params[at].Type().Underlying().(*types.Pointer); !ptr {
				args[at] = cell.v
			}
			r.d.Run(fn, args, nil)
			r.drain()
			var want, gone []string
			for _, ch := range changes {
				path := strings.TrimPrefix(ch.uri, "file://")
				switch {
				case ch.kind == "Deleted":
					gone = append(gone, ch.uri)
				case strings.Contains(ch.uri, "unknown") || strings.Contains(ch.uri, "odd:"):
				case strings.HasPrefix(path, "/w/dir"):
					for _, f := range inTree[path] {
						want = append(want, "file://"+f)
					}
				case strings.HasSuffix(path, ".php"):
					want = append(want, ch.uri)
				}
			}
			r.handed("hand", "handed over", want)
			r.handed("delete", "deleted", gone)
			r.counted()
		})
	}
}

// leftovers checks that documents are deleted at the end whose files are gone.
func (b *background) leftovers(prepare, finish *ssa.Function) {
	p, c := b.p, b.c
	newEntry, coll := p.Func("analysis", "newEntry"), (*types.Const)(nil)
	if newEntry != nil {
		coll, _ = newEntry.Pkg.Pkg.Scope().Lookup("documentCollection").(*types.Const)
	}
	if newEntry == nil || coll == nil || len(newEntry.Params) != 2 {
		c.Undecided("how documents are recorded is not known")
		return
	}
	c.Seen("deletion of what is gone", shortFn(finish))
	names := []string{"file:///w/a.php", "file:///w/b.php", "file:///w/B.php"}
	b.explore("deleting what is gone", finish, func(r *bgRun) {
		store := r.d.NewObject(b.store)
		for i, f := range store.v.(*rStruct).f {
			fd := b.store.Underlying().(*types.Struct).Field(i)
			if _, isStruct := fd.Type().Underlying().(*types.Struct); !isStruct {
				f.v = r.d.Unknown("store."+fd.Name(), fd.Type())
				if u, ok := f.v.(rUnk); ok {
					u.nonNil = true
					f.v = u
				}
			}
		}
		var keys []string
		k, _ := constOf(newEntry.Pkg.Pkg, "documentCollection")
		var collv rv = k
		if isStringType(coll.Type()) {
			collv = r.d.constVal(ssa.NewConst(coll.Val(), coll.Type()))
		}
		for _, n := range names {
			e := r.d.Run(newEntry, []rv{collv, rStr(n)}, nil)
			kb := p.Method(derefNamed(newEntry.Signature.Results().At(0).Type()), "getKeyBytes")
			if kb == nil {
				r.d.fail("how documents are recorded is not known")
			}
			key := r.d.Run(kb, []rv{e}, nil)
			keys = append(keys, r.str(key))
		}
		base := r.hook
		r.d.Hook = func(d *Dom, call *DomCall) (rv, bool) {
			if call.Iface != nil && call.Fn == nil {
				owner := d.id(call.Args[0])
				switch call.Iface.Name() {
				case "PrefixStream":
					for _, k := range keys {
						if strings.HasPrefix(k, r.str(call.Args[1])) {
							d.CallFunc(call, call.Args[2], rUnk{id: "iter:" + k, nonNil: true})
						}
					}
					return rNil{}, true
				case "WriteBatch":
					return d.CallFunc(call, call.Args[1], rUnk{id: "batch", nonNil: true}), true
				case "Key":
					if strings.HasPrefix(owner, "iter:") {
						return rByts(owner[5:]), true
					}
				case "Value":
					return rByts("hash"), true
				}
			}
			if call.Fn != nil && strings.HasSuffix(pkgPathOf(call.Fn), "/concurrent-map") {
				switch call.Fn.Name() {
				case "IterBuffered", "Iter":
					m := d.SharedMap(call.Args[0])
					elem := chanOf(call.Fn.Signature.Results().At(0).Type())
					for i, k := range m.keys {
						t, ok := d.zero(elem).(*rStruct)
						if !ok {
							d.fail("the entries of a map are not known")
						}
						t.f[0].v, t.f[1].v = k, m.vals[i]
						d.Recv = append(d.Recv, t)
					}
					return rUnk{id: "entries", t: call.Fn.Signature.Results().At(0).Type(), nonNil: true}, true
				}
			}
			return base(d, call)
		}
		defer func() { r.d.Hook = base }()
		r.d.Run(prepare, []rv{store}, nil)
		// a file is found
		cond := ""
		for _, n := range names {
			if r.d.decide("the file of "+n+" is found", "") {
				cond += " " + n
			}
		}
		var m *rMap
		for _, mm := range r.d.maps {
			for _, k := range mm.keys {
				if k == rv(rStr(names[0])) {
					m = mm
				}
			}
		}
		if m == nil {
			r.bad["the documents that have been indexed are not remembered"] = true
			return
		}
		for _, n := range names {
			if m.Lookup(r.d, rStr(n)) < 0 {
				r.bad["a document that has been indexed is not remembered"] = true
			}
			if strings.Contains(cond, n) {
				m.Put(r.d, rStr(n), nil)
			}
		}
		r.d.Run(finish, []rv{store}, nil)
		var want []string
		for _, n := range names {
			if !strings.Contains(cond, n) {
				want = append(want, n)
			}
		}
		r.handed("drop", "deleted", want)
		if len(m.keys) > 0 {
			r.bad["what has been deleted is deleted again at the end of the next indexing"] = true
		}
	})
}

func rulesBackground(c *Ctx) {
	p := c.P
	c.Rule("each .php file that is listed for a folder, or that is reported as changed or is in a reported directory, is handed to a worker once and has been counted before; deletions are handed on; what cannot be read is left out, nothing else (abstract interpretation)")
	c.Rule("a worker counts each job down exactly once, after the document has been indexed, on every path, and goes on to the next")
	c.Rule("what is known to be indexed is read before the first file is handed over; documents are deleted only after listing has succeeded and all jobs have been counted down, and then exactly those that remain")
	b := &background{c: c, p: p, store: p.Named("analysis", "Store"), server: p.Named(lspPkg, "Server")}
	if b.store == nil || b.server == nil {
		c.Undecided("the store or the server is not found")
		return
	}
	for _, fn := range p.Repo {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if s, ok := in.(*ssa.Send); ok && b.job == nil {
					b.job = b.jobOf(s.X.Type())
				}
			}
		}
	}
	prepare, finish := p.Method(b.store, "PrepareForIndexing"), p.Method(b.store, "FinishIndexing")
	if b.job == nil || prepare == nil || finish == nil {
		c.Undecided("the jobs of the indexing, or its beginning and end, are not found")
		return
	}
	workers := b.receivers(func(t types.Type) bool { return b.jobOf(t) == b.job })
	for _, w := range workers {
		b.workers(w)
	}
	// what has both the beginning and the end of the indexing
	both := map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		if fn.Parent() == nil {
			if re := p.reachable(fn); re[prepare] && re[finish] {
				both[fn] = true
			}
		}
	}
	for fn := range both {
		inner := false
		for g := range p.reachable(fn) {
			inner = inner || g != fn && both[g]
		}
		if !inner {
			b.folder(fn)
		}
	}
	if fn := p.Method(b.server, "DidChangeWatchedFiles"); fn != nil {
		b.watched(fn)
	}
	b.leftovers(prepare, finish)
	// somebody takes what is handed over
	started := map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			if g, ok := ci.(*ssa.Go); ok && g.Call.StaticCallee() != nil {
				for f := range p.reachable(g.Call.StaticCallee()) {
					started[f] = true
				}
			}
		})
	}
	deletors := b.receivers(func(t types.Type) bool { return isStringType(t) })
	for _, w := range append(append([]*ssa.Function{}, workers...), deletors...) {
		if !started[w] {
			c.Report("started/"+shortFn(w), p.Pos(w.Pos()), "nobody starts what takes the jobs", nil)
		}
	}
	for _, w := range deletors {
		c.Seen("worker for deletions", shortFn(w))
		b.explore("taking deletions", w, func(r *bgRun) {
			uris := []string{"file:///w/0.php", "file:///w/1.php", "file:///w/2.php"}
			for _, u := range uris {
				r.d.Recv = append(r.d.Recv, rStr(u))
			}
			ended := r.serve(w)
			if r.d.recvd < len(uris) || !ended {
				r.bad["it stops taking jobs"] = true
				return
			}
			var want []string
			for _, u := range uris {
				if !r.d.conds["it cannot decode "+u] && !r.d.conds["no folder has D:"+u] && !r.d.conds["no folder has "+u] {
					want = append(want, u)
				}
			}
			r.handed("drop", "deleted", want)
		})
	}
	c.AtLeast("worker", 1)
	c.AtLeast("worker for deletions", 1)
	c.AtLeast("indexing of a folder", 1)
	c.AtLeast("changes of files", 1)
}

func init() {
	register("C35", "Abstract interpretation of the producers and the workers of the background indexing.", nil, rulesBackground)
}
