package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// docs is what C31 knows about the documents that are kept in memory.
type docs struct {
	*routing
	relevant  map[*ssa.Function]bool // can change which documents are kept, or their texts
	newDoc    *ssa.Function
	isOpen    *ssa.Function
	getText   *ssa.Function
	uriFn     *ssa.Function
	load      *ssa.Function
	open      *ssa.Function
	docsField string
	server    *types.Named
}

const (
	docURI   = "file:///w/a.php"
	fileText = "<?php\nf;"
	oldText  = "<?php\no;\n"
	openText = "<?php\n\ne;"
	envText  = "<?php\n\n\nv;"
)

// docRun is one way to interpret something that is done to a document.
type docRun struct {
	*docs
	d       *Dom
	store   *rCell
	env     string // what others do meanwhile: "opens", "releases"
	envDone bool
	envDoc  *rCell
	quiet   bool
	was     string
	wasOpen bool // the document was open from the beginning
	held    map[*rCell]bool
	stack   []*rCell // documents of the functions that are running
	scans   map[*rCell]string
	syncs   []docSync
	puts    []docSync
	bad     []string
}

type docSync struct {
	doc    *rCell
	text   string
	loaded bool
	locked bool
}

func (r *docRun) call(fn *ssa.Function, args ...rv) rv {
	q := r.quiet
	r.quiet = true
	defer func() { r.quiet = q }()
	return r.d.Run(fn, args, nil)
}

func (r *docRun) text(doc *rCell) string {
	switch t := r.call(r.getText, doc).(type) {
	case rByts:
		return string(t)
	case rStr:
		return string(t)
	case rNil:
		return ""
	}
	r.d.fail("the text of a document is not known")
	return ""
}

func (r *docRun) opened(doc *rCell) bool {
	b, ok := r.call(r.isOpen, doc).(rBool)
	if !ok {
		r.d.fail("whether a document is open is not known")
	}
	return bool(b)
}

func (r *docRun) loaded(doc *rCell) bool { return r.scans[doc] == "of "+r.text(doc) }

func (r *docRun) make(text string, open, loaded bool) *rCell {
	doc, ok := r.call(r.newDoc, rStr(docURI), rByts(text)).(*rCell)
	if !ok {
		r.d.fail("what %s makes is not known", shortFn(r.newDoc))
	}
	if open {
		r.call(r.open, doc)
	}
	if loaded {
		r.call(r.load, doc)
	}
	return doc
}

// kept finds the document that is kept for the URI.
func (r *docRun) kept() *rCell {
	var found *rCell
	look := func(m *rMap) {
		for i, k := range m.keys {
			v := m.vals[i]
			if f, ok := v.(rIface); ok {
				v = f.v
			}
			if c, ok := v.(*rCell); ok && r.isDoc(c) && k == rv(rStr(docURI)) {
				found = c
			}
		}
	}
	s := r.store.v.(*rStruct)
	for _, f := range s.f {
		switch v := f.v.(type) {
		case *rMap:
			look(v)
		case rUnk:
			if m := r.d.maps[r.d.id(v)]; m != nil {
				look(m)
			}
		}
		if m := r.d.maps[r.d.id(rv(f))]; m != nil {
			look(m)
		}
	}
	return found
}

func (r *docRun) isDoc(c *rCell) bool {
	s, ok := c.v.(*rStruct)
	return ok && derefNamed(s.t) == r.doc
}

// keep puts a document where documents are kept.
func (r *docRun) keep(doc *rCell) {
	s := r.store.v.(*rStruct)
	u := s.t.Underlying().(*types.Struct)
	iface := rIface{t: types.NewPointer(r.doc), v: doc}
	for i, f := range s.f {
		if u.Field(i).Name() != r.docsField {
			continue
		}
		put := func(m *rMap, v rv) {
			if doc == nil {
				m.Put(r.d, rStr(docURI), nil)
			} else {
				m.Put(r.d, rStr(docURI), v)
			}
		}
		switch v := f.v.(type) {
		case *rMap:
			put(v, doc)
		case *rStruct:
			put(r.d.SharedMap(f), iface)
		default:
			put(r.d.SharedMap(v), iface)
		}
	}
}

// interfere lets the others act, once.
func (r *docRun) interfere(pos string) {
	if r.quiet || r.env == "" || r.envDone {
		return
	}
	switch r.env {
	case "opens":
		if r.d.decide("meanwhile the editor opens the document", pos) {
			r.envDone = true
			r.envDoc = r.make(envText, true, true)
			r.keep(r.envDoc)
		} else {
			delete(r.d.conds, "meanwhile the editor opens the document")
		}
	case "releases":
		k := r.kept()
		if k == nil || r.heldBy(k) || r.opened(k) {
			return
		}
		if r.d.decide("meanwhile the indexing releases the document, which is not open", pos) {
			r.envDone = true
			r.keep(nil)
		} else {
			delete(r.d.conds, "meanwhile the indexing releases the document, which is not open")
		}
	}
}

// heldBy tells whether the lock of a document is held.
func (r *docRun) heldBy(doc *rCell) bool {
	s := doc.v.(*rStruct)
	for _, f := range s.f {
		if r.held[f] {
			return true
		}
	}
	return false
}

func (r *docRun) hook(d *Dom, c *DomCall) (rv, bool) {
	pos := ""
	if c.Instr != nil {
		pos = r.p.InstrPos(c.Instr)
	}
	if c.Iface != nil && c.Fn == nil {
		switch c.Iface.Name() {
		case "ReadFile":
			r.interfere(pos)
			if !r.quiet && d.decide("the file cannot be read", pos) {
				return rTuple{rNil{}, rUnk{id: "error", nonNil: true}}, true
			}
			r.interfere(pos)
			return rTuple{rByts(fileText), rNil{}}, true
		case "WriteBatch":
			if n := len(r.stack); n > 0 {
				doc := r.stack[n-1]
				r.syncs = append(r.syncs, docSync{doc, r.text(doc), r.loaded(doc), r.heldBy(doc)})
			}
			return d.Unknown("the result of a batch", c.Iface.Type().(*types.Signature).Results().At(0).Type()), true
		}
	}
	if c.Fn == nil || c.Go {
		return nil, false
	}
	pkg, name := pkgPathOf(c.Fn), c.Fn.Name()
	if pkg == "sync" && len(c.Args) == 1 {
		if m, ok := c.Args[0].(*rCell); ok {
			switch name {
			case "Lock":
				r.interfere(pos)
				if r.held[m] {
					d.exc(c.Instr, "deadlock: a lock is taken twice")
				}
				r.held[m] = true
			case "Unlock":
				delete(r.held, m)
			}
		}
		return nil, false
	}
	if strings.HasSuffix(pkg, "/concurrent-map") || pkg == "sync" && c.Fn.Signature.Recv() != nil && typeName(c.Fn.Signature.Recv().Type()) == "sync.Map" {
		if r.quiet {
			return nil, false
		}
		r.interfere(pos)
		before := r.kept()
		v, ok := d.sharedMap(c, name)
		after := r.kept()
		if before != after {
			if before != nil && after == nil && !r.heldBy(before) {
				r.bad = append(r.bad, fmt.Sprintf("the document is released at %s while it is not locked", pos))
			}
			if after != nil {
				r.puts = append(r.puts, docSync{after, r.text(after), r.loaded(after), r.heldBy(after)})
			}
		}
		return v, ok
	}
	if strings.HasSuffix(pkg, "go-phpparser/parser") && c.Fn.Signature.Recv() == nil && len(c.Args) > 0 {
		switch t := c.Args[0].(type) {
		case rByts:
			return rUnk{id: "tree of " + string(t), t: c.Fn.Signature.Results().At(0).Type(), nonNil: true}, true
		case rStr:
			return rUnk{id: "tree of " + string(t), t: c.Fn.Signature.Results().At(0).Type(), nonNil: true}, true
		}
	}
	if !inRepo(c.Fn) {
		return nil, false
	}
	var doc *rCell
	tree := ""
	for _, a := range c.Args {
		if f, ok := a.(rIface); ok {
			a = f.v
		}
		switch a := a.(type) {
		case *rCell:
			if r.isDoc(a) {
				doc = a
			}
		case rUnk:
			if strings.HasPrefix(a.id, "tree of ") {
				tree = a.id
			}
		}
	}
	res := func() rv {
		var t types.Type = c.Fn.Signature.Results()
		if c.Fn.Signature.Results().Len() == 1 {
			t = c.Fn.Signature.Results().At(0).Type()
		}
		return d.Unknown(name+"@"+pos, t)
	}
	if tree != "" && doc != nil {
		if !r.quiet && r.kept() == doc && !r.heldBy(doc) {
			r.bad = append(r.bad, fmt.Sprintf("the symbols of the document are read at %s while it is kept and is not locked", pos))
		}
		r.scans[doc] = strings.TrimPrefix(tree, "tree ")
		return res(), true
	}
	if tree != "" && !r.relevant[c.Fn] {
		return res(), true
	}
	if !r.relevant[c.Fn] && !r.simple(c.Fn) {
		return res(), true
	}
	if doc != nil && !r.quiet {
		r.stack = append(r.stack, doc)
		defer func() { r.stack = r.stack[:len(r.stack)-1] }()
		binds := []rv(nil)
		if c.Fn.Parent() != nil {
			return nil, false
		}
		return d.Run(c.Fn, c.Args, binds), true
	}
	return nil, false
}

// simple tells whether a function that changes nothing is worth following.
func (r *docs) simple(fn *ssa.Function) bool {
	if fn.Synthetic != "" || fn.Parent() != nil {
		return true
	}
	n := 0
	for range r.p.reachable(fn) {
		n++
	}
	if n > 12 {
		return false
	}
	ok := func(t types.Type) bool {
		if n := derefNamed(t); n != nil {
			if n == r.doc || n == r.store || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
				return true
			}
			return pkgRel(n.Obj().Pkg().Path()) == lspPkg
		}
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Signature, *types.Map:
			return true
		case *types.Slice:
			if n := derefNamed(u.Elem()); n != nil {
				return n == r.doc || n == r.store || strings.HasPrefix(n.Obj().Name(), "TextDocument")
			}
			return true
		}
		return false
	}
	sig := fn.Signature
	if sig.Recv() != nil && !ok(sig.Recv().Type()) {
		n := derefNamed(sig.Recv().Type())
		return n != nil && fn.Blocks != nil && n.Obj().Name() == "entry"
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !ok(sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !ok(sig.Results().At(i).Type()) {
			return strings.HasSuffix(typeName(sig.Results().At(i).Type()), "entry")
		}
	}
	return true
}

func pkgRel(p string) string { return strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/") }

// lineStarts is what a document knows about its lines.
func (r *docRun) lineStarts(doc *rCell) string {
	s := doc.v.(*rStruct)
	u := s.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if sl, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				es, _ := r.d.Elems(s.f[i].v)
				var parts []string
				for _, e := range es {
					parts = append(parts, r.d.id(e))
				}
				return strings.Join(parts, " ")
			}
		}
	}
	return ""
}

// docCase is a situation in which something is done to a document.
type docCase struct {
	what    string // what is done
	initial string // absent, closed, open
	env     string
	texts   []string // of didOpen or of the changes
}

func (k docCase) String() string {
	s := map[string]string{"absent": "a document that is not kept", "closed": "a document that is kept and not open", "open": "an open document", "empty": "an open document that is empty"}[k.initial]
	return s
}

// params builds the parameters of a notification.
func (r *docRun) params(n *types.Named, texts []string) rv {
	d := r.d
	o := d.NewObject(n)
	set := func(c *rCell, name string, v rv) *rCell {
		if c == nil {
			return nil
		}
		f := d.Field(c, name)
		if f != nil && v != nil {
			f.v = v
		}
		return f
	}
	for _, path := range [][]string{{"TextDocument", "URI"}, {"TextDocument", "TextDocumentIdentifier", "URI"}} {
		c := o
		for i, f := range path {
			if c == nil {
				break
			}
			if i == len(path)-1 {
				set(c, f, rStr(docURI))
			} else {
				c = d.Field(c, f)
			}
		}
	}
	if td := d.Field(o, "TextDocument"); td != nil && len(texts) > 0 {
		set(td, "Text", rStr(texts[0]))
	}
	if cc := d.Field(o, "ContentChanges"); cc != nil {
		var changes []rv
		u := n.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() != "ContentChanges" {
				continue
			}
			et := u.Field(i).Type().Underlying().(*types.Slice).Elem()
			for _, t := range texts {
				ch := d.NewObject(et)
				set(ch, "Text", rStr(t))
				changes = append(changes, ch.v)
			}
		}
		cc.v = d.Slice(changes...)
	}
	return o
}

// follow interprets a function in a situation and judges what has become of
// the document.
func (r *docs) follow(fn *ssa.Function, k docCase, elem types.Type, judge func(run *docRun, initial *rCell) []string) {
	c := r.c
	d := newDom(r.p)
	d.MaxPaths, d.MaxSteps = 2000, 40000
	run := &docRun{docs: r, d: d, env: k.env, wasOpen: k.initial == "open" || k.initial == "empty"}
	d.Hook = run.hook
	var initial *rCell
	bad := map[string]bool{}
	c.Fn(fn)
	why := d.Explore(func() rv {
		run.envDone, run.envDoc, run.quiet, run.held, run.stack = false, nil, false, map[*rCell]bool{}, nil
		run.scans, run.syncs, run.puts, run.bad = map[*rCell]string{}, nil, nil, nil
		run.store = r.newStore(d, "file:///w")
		for i, f := range run.store.v.(*rStruct).f {
			ft := r.store.Underlying().(*types.Struct).Field(i).Type()
			if m, ok := ft.Underlying().(*types.Map); ok && derefNamed(m.Elem()) == r.doc {
				f.v = &rMap{id: 1}
			}
		}
		initial = nil
		switch k.initial {
		case "closed":
			initial = run.make(oldText, false, true)
		case "open":
			initial = run.make(openText, true, true)
		case "empty":
			initial = run.make("", true, true)
		}
		if initial != nil {
			run.was = run.text(initial)
			run.keep(initial)
		}
		var lists []*rCell
		var args []rv
		for _, q := range fn.Params {
			n := derefNamed(q.Type())
			switch {
			case n == r.store:
				args = append(args, run.store)
			case isStringType(q.Type()):
				args = append(args, rStr(docURI))
			case n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/internal/lsp/protocol" && strings.HasSuffix(n.Obj().Name(), "Params"):
				args = append(args, run.params(n, k.texts))
			default:
				args = append(args, r.object(d, q.Type(), []rv{run.store}, &lists, 0))
			}
		}
		if elem != nil {
			job := rv(rStr(docURI))
			if !isStringType(elem) {
				job = d.zero(elem)
				if s, ok := job.(*rStruct); ok {
					for _, f := range s.f {
						if _, ok := f.v.(rStr); ok {
							f.v = rStr(docURI)
						}
					}
				}
			}
			d.Recv = []rv{job}
		}
		return d.Run(fn, args, nil)
	}, func(res DomResult) {
		c.Count("situations of documents", 1)
		probs := append([]string(nil), run.bad...)
		if res.Panics != "" {
			probs = append(probs, res.Panics)
		} else {
			run.quiet = true
			probs = append(probs, judge(run, initial)...)
			for _, f := range initialLocks(run) {
				probs = append(probs, f)
			}
		}
		sort.Strings(probs)
		for _, pr := range probs {
			if bad[pr] {
				continue
			}
			bad[pr] = true
			c.Report(k.what+"/"+shortFn(fn)+"/"+k.initial, r.p.Pos(fn.Pos()), fmt.Sprintf("%s of %s: %s", k.what, k, pr), res.Trail)
			return
		}
	})
	if why != "" {
		c.Undecided("%s: %s", shortFn(fn), why)
	}
	for f := range d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", d.Steps)
}

func initialLocks(r *docRun) []string {
	if len(r.held) > 0 {
		return []string{"a lock is still held at the end"}
	}
	return nil
}

func (r *docRun) isKeptAs(want string) []string {
	doc := r.kept()
	var out []string
	switch {
	case doc == nil:
		return []string{"it is not kept afterwards"}
	case !r.opened(doc):
		out = append(out, "it is not open afterwards")
	}
	if got := r.text(doc); got != want {
		out = append(out, fmt.Sprintf("its text is that of %s afterwards, it should be that of %s", whose(got), whose(want)))
	} else if fresh := r.make(want, true, false); r.lineStarts(fresh) != r.lineStarts(doc) {
		out = append(out, "the lines it knows are not those of its text")
	}
	return out
}

func whose(text string) string {
	switch text {
	case fileText:
		return "the file"
	case oldText:
		return "an earlier version of the file"
	case openText:
		return "the editor before"
	case envText, "<?php\n1;\n1;":
		return "the editor"
	case "":
		return "an empty document"
	}
	return fmt.Sprintf("%q", text)
}

// indexed checks that the document was read and indexed with its last text.
func (r *docRun) indexed(want string) []string {
	doc := r.kept()
	if doc == nil {
		return nil
	}
	var out []string
	if !r.loaded(doc) {
		out = append(out, "its symbols have not been read from its text")
	}
	ok := false
	for _, s := range r.syncs {
		if s.doc == doc && s.text == want && s.loaded {
			ok = true
		}
	}
	if !ok {
		out = append(out, "it has not been indexed with its text")
	}
	for _, p := range r.puts {
		if p.doc == doc && p.text != want && !p.locked {
			out = append(out, "its text changes after it has been made available to others")
		}
	}
	return out
}

func rulesDocs(c *Ctx) {
	c.Rule("after didOpen and after didChange the document that is kept is open, has the text the editor sent, knows the lines of that text, and has been read and indexed with it; a former version is left as it was")
	c.Rule("after didClose no document is kept; indexing keeps and does not change an open document, and reads the file of one that is not open again and does not keep it; nothing else replaces or releases an open document")
	c.Rule("a document is released, and read while it is kept, only under its lock; other requests and the indexing act at every point in between (abstract interpretation)")
	r := &docs{routing: &routing{c: c, p: c.P}}
	if !r.find() {
		return
	}
	p := c.P
	r.newDoc = p.Func("analysis", "NewDocument")
	r.isOpen, r.getText, r.uriFn = p.Method(r.doc, "IsOpen"), p.Method(r.doc, "GetText"), p.Method(r.doc, "GetURI")
	r.load, r.open = p.Method(r.doc, "Load"), p.Method(r.doc, "Open")
	r.server = p.Named(lspPkg, "Server")
	for _, f := range []*ssa.Function{r.newDoc, r.isOpen, r.getText, r.load, r.open} {
		if f == nil {
			c.Undecided("NewDocument, IsOpen, GetText, Load or Open is not found")
			return
		}
	}
	if r.server == nil {
		c.Undecided("the server is not found")
		return
	}
	kinds := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		if ok {
			return b.Info()&types.IsBoolean != 0 || b.Info()&types.IsString != 0
		}
		sl, ok := t.Underlying().(*types.Slice)
		if ok {
			b, ok = sl.Elem().Underlying().(*types.Basic)
		}
		return ok
	}
	r.relevant = p.ReachSet(func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == r.doc {
				return kinds(derefType(fa.Type()))
			}
		case *ssa.MapUpdate:
			return derefNamed(in.Value.Type()) == r.doc
		case ssa.CallInstruction:
			com := in.Common()
			if com.IsInvoke() {
				return com.Method.Name() == "ReadFile" || com.Method.Name() == "WriteBatch"
			}
			if g := com.StaticCallee(); g != nil {
				pkg := pkgPathOf(g)
				return strings.HasSuffix(pkg, "/concurrent-map") || pkg == "sync" && (g.Name() == "Lock" || g.Name() == "Unlock")
			}
		}
		return false
	})
	r.docsField = r.whereKept()
	if r.docsField == "" {
		c.Undecided("the field of the store with the documents is not found")
		return
	}
	c.Seen("documents are kept in", "Store."+r.docsField)
	handler := func(name string) *ssa.Function { return p.Method(r.server, name) }
	const last = "<?php\n1;\n1;"
	if fn := handler("DidOpen"); fn != nil {
		c.Seen("notifications about documents", "DidOpen")
		for _, init := range []string{"absent", "closed", "open", "empty"} {
			for _, env := range []string{"", "releases"} {
				for _, text := range []string{last, ""} {
					r.follow(fn, docCase{"opening", init, env, []string{text}}, nil, func(run *docRun, _ *rCell) []string {
						out := run.isKeptAs(text)
						return append(out, run.indexed(text)...)
					})
				}
			}
		}
	}
	if fn := handler("DidChange"); fn != nil {
		c.Seen("notifications about documents", "DidChange")
		for i, texts := range [][]string{{last}, {"<?php\n2;", last}, {}, {last, ""}, {"", last}, {last}, {"", "", last}} {
			want, before, init := openText, openText, "open"
			if i > 3 {
				before, init = "", "empty"
			}
			if len(texts) > 0 {
				want = texts[len(texts)-1]
			}
			r.follow(fn, docCase{"a change", init, "", texts}, nil, func(run *docRun, initial *rCell) []string {
				out := run.isKeptAs(want)
				out = append(out, run.indexed(want)...)
				if run.text(initial) != before && run.kept() != initial {
					out = append(out, "the version that requests may still be reading is changed")
				} else if run.kept() == initial && len(texts) > 0 {
					out = append(out, "the document is changed while requests may be reading it")
				}
				return out
			})
		}
	}
	if fn := handler("DidClose"); fn != nil {
		c.Seen("notifications about documents", "DidClose")
		for _, init := range []string{"absent", "closed", "open", "empty"} {
			r.follow(fn, docCase{"closing", init, "", nil}, nil, func(run *docRun, initial *rCell) []string {
				var out []string
				if run.kept() != nil {
					out = append(out, "it is still kept")
				}
				if initial != nil && run.opened(initial) {
					out = append(out, "it still counts as open")
				}
				return out
			})
		}
	}
	same := func(run *docRun, initial *rCell) []string {
		want, text := initial, ""
		if initial != nil {
			text = run.was
		}
		if run.envDoc != nil {
			want, text = run.envDoc, envText
		}
		if want == nil || run.envDoc == nil && !run.wasOpen {
			return nil
		}
		var out []string
		switch k := run.kept(); {
		case k == nil:
			return []string{"the document, which the editor has open, is not kept afterwards"}
		case k != want:
			return []string{"the document, which the editor has open, is replaced by another one"}
		}
		out = append(out, run.isKeptAs(text)...)
		return out
	}
	// the workers
	for _, fn := range p.Repo {
		if !inLsp(fn) || len(fn.Blocks) == 0 || !r.isWorker(fn) {
			continue
		}
		elem := workElem(fn)
		reach := p.reachable(fn)
		indexes := false
		for g := range reach {
			indexes = indexes || r.readers[g]
		}
		c.Seen("workers", shortFn(fn))
		for _, init := range []string{"absent", "closed", "open", "empty"} {
			for _, env := range []string{"", "opens"} {
				if (init == "open" || init == "empty") && env != "" {
					continue
				}
				what := "deletion"
				if indexes {
					what = "indexing"
				}
				r.follow(fn, docCase{what, init, env, nil}, elem, func(run *docRun, initial *rCell) []string {
					if run.wasOpen || run.envDoc != nil {
						out := same(run, initial)
						for _, s := range run.syncs {
							if s.text == oldText {
								out = append(out, "it is indexed with the text of an earlier version of the file")
							}
						}
						return out
					}
					var out []string
					if indexes {
						if run.kept() != nil {
							out = append(out, "it is still kept, though it is not open")
						}
						for _, s := range run.syncs {
							if s.text != fileText {
								out = append(out, "it is indexed with the text of "+whose(s.text)+", and not with that of the file")
							}
						}
					}
					return out
				})
			}
		}
	}
	// all other requests
	methods := map[string]bool{}
	if n := p.Named("internal/lsp/protocol", "Server"); n != nil {
		if it, ok := n.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				methods[it.Method(i).Name()] = true
			}
		}
	}
	checked := map[*ssa.Function]bool{}
	writers := r.writers()
	for _, fn := range p.Repo {
		if !inLsp(fn) || fn.Signature.Recv() == nil || derefNamed(fn.Signature.Recv().Type()) != r.server || fn.Parent() != nil || !methods[fn.Name()] {
			continue
		}
		switch fn.Name() {
		case "DidOpen", "DidChange", "DidClose":
			continue
		}
		c.Seen("other requests", shortFn(fn))
		for g := range p.reachable(fn) {
			if !inLsp(g) {
				continue
			}
			eachCall(g, func(ci ssa.CallInstruction) {
				f := ci.Common().StaticCallee()
				if f == nil || inLsp(f) || !inRepo(f) {
					return
				}
				if writers[f] {
					c.Report("writes/"+shortFn(g)+"/"+shortFn(f), p.InstrPos(ci), fmt.Sprintf("%s, which is reached from the request %s, calls %s, which changes the text or the state of a document", shortFn(g), shortFn(fn), shortFn(f)), nil)
				}
				if r.relevant[f] && f.Signature.Recv() != nil && derefNamed(f.Signature.Recv().Type()) == r.store && !checked[f] && r.aboutOne(f) {
					checked[f] = true
				}
			})
		}
	}
	for _, f := range p.Repo {
		if !checked[f] {
			continue
		}
		c.Seen("operations of other requests", shortFn(f))
		r.follow(f, docCase{"a request", "open", "", nil}, nil, same)
		r.follow(f, docCase{"a request", "empty", "", nil}, nil, same)
		r.follow(f, docCase{"a request", "absent", "opens", nil}, nil, same)
		r.follow(f, docCase{"a request", "closed", "opens", nil}, nil, same)
	}
	c.AtLeast("notifications about documents", 3)
	c.AtLeast("workers", 2)
	c.AtLeast("other requests", 8)
	c.AtLeast("operations of other requests", 1)
}

// aboutOne tells whether the parameters of an operation are a context and a URI.
func (r *docs) aboutOne(f *ssa.Function) bool {
	n := 0
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		switch {
		case isStringType(t):
			n++
		case typeName(t) == "context.Context":
		default:
			return false
		}
	}
	return n == 1 && r.reads(f)
}

func (r *docs) reads(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if derefNamed(f.Signature.Results().At(i).Type()) == r.doc {
			return true
		}
	}
	return r.docFn[f]
}

// whereKept finds the field of the store in which documents are kept: the one
// from which documents are taken.
func (r *docs) whereKept() string {
	u := r.store.Underlying().(*types.Struct)
	score := map[string]int{}
	for i := 0; i < u.NumFields(); i++ {
		if m, ok := u.Field(i).Type().Underlying().(*types.Map); ok && derefNamed(m.Elem()) == r.doc {
			score[u.Field(i).Name()] += 100
		}
	}
	for _, fn := range r.p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			for i, a := range ci.Common().Args {
				mi, ok := a.(*ssa.MakeInterface)
				if !ok || i == 0 || derefNamed(mi.X.Type()) != r.doc {
					continue
				}
				if f := storeFieldOf(ci.Common().Args[0], r.store); f != "" {
					score[f]++
				}
			}
		})
	}
	best := ""
	for f, n := range score {
		if n > 0 && (best == "" || n > score[best] || n == score[best] && f < best) {
			best = f
		}
	}
	return best
}

// storeFieldOf is the field of a struct a value is, or is read from.
func storeFieldOf(v ssa.Value, n *types.Named) string {
	if un, ok := v.(*ssa.UnOp); ok {
		v = un.X
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == n {
		return n.Underlying().(*types.Struct).Field(fa.Field).Name()
	}
	return ""
}

// isWorker tells whether a function receives jobs about documents.
func (r *docs) isWorker(fn *ssa.Function) bool {
	t := workElem(fn)
	if t == nil || !r.relevant[fn] {
		return false
	}
	if isStringType(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isStringType(s.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func workElem(fn *ssa.Function) types.Type {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if ch, ok := in.X.Type().Underlying().(*types.Chan); ok {
					return ch.Elem()
				}
			case *ssa.Range:
				if ch, ok := in.X.Type().Underlying().(*types.Chan); ok {
					return ch.Elem()
				}
			}
		}
	}
	return nil
}

// writers are the functions that change the text or the state of a document
// they are given.
func (r *docs) writers() map[*ssa.Function]bool {
	var rooted func(v ssa.Value, depth int) int // parameter the value comes from
	rooted = func(v ssa.Value, depth int) int {
		if depth > 4 {
			return -1
		}
		switch v := v.(type) {
		case *ssa.Parameter:
			for i, q := range v.Parent().Params {
				if q == v {
					return i
				}
			}
		case *ssa.ChangeType:
			return rooted(v.X, depth+1)
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, in := range *a.Referrers() {
					if st, ok := in.(*ssa.Store); ok && st.Addr == a {
						return rooted(st.Val, depth+1)
					}
				}
			}
		}
		return -1
	}
	kind := func(name string, t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&types.IsString != 0 && strings.Contains(strings.ToLower(name), "uri") || u.Info()&types.IsBoolean != 0 && strings.Contains(strings.ToLower(name), "open")
		case *types.Slice:
			b, ok := u.Elem().Underlying().(*types.Basic)
			return ok && (b.Kind() == types.Byte || b.Kind() == types.Int)
		}
		return false
	}
	type wr struct {
		f *ssa.Function
		i int
	}
	set := map[wr]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range r.p.Repo {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					at := -1
					switch in := in.(type) {
					case *ssa.Store:
						if fa, ok := in.Addr.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == r.doc {
							fl := r.doc.Underlying().(*types.Struct).Field(fa.Field)
							if kind(fl.Name(), fl.Type()) {
								at = rooted(fa.X, 0)
							}
						}
					case ssa.CallInstruction:
						g := in.Common().StaticCallee()
						for k, a := range in.Common().Args {
							if g != nil && set[wr{g, k}] {
								if i := rooted(a, 0); i >= 0 {
									at = i
								}
							}
						}
					}
					if at >= 0 && derefNamed(f.Params[at].Type()) == r.doc && !set[wr{f, at}] {
						set[wr{f, at}] = true
						changed = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for w := range set {
		out[w.f] = true
	}
	return out
}

func init() {
	register("C31", "Abstract interpretation of the life of a document in memory, with interference of the editor and of the indexing.", nil, rulesDocs)
}
