package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// diagnosing interprets what happens when documents are opened and edited, and
// looks at what is published about them (C37).
type diagnosing struct {
	*lookups
	funcs map[*ssa.Function]bool // what finds diagnostics
}

// published is one publication.
type published struct {
	uri  string
	msgs []string
}

type diagRun struct {
	*diagnosing
	d       *Dom
	ph      *ssa.Function
	pending []*rStruct0
	pubs    []published
	store   *rCell
	texts   map[string]string // of the documents now
	clear   bool              // nothing is wrong with the next text
	bad     string
}

// rStruct0 is a function that is called later, unless it is replaced.
type rStruct0 struct {
	id string
	f  rFunc
}

func (x *diagRun) later(id string, f rFunc) {
	for _, p := range x.pending {
		if p.id == id {
			p.f = f
			return
		}
	}
	x.pending = append(x.pending, &rStruct0{id, f})
}

func (x *diagRun) text(doc rv) (string, string, bool) {
	u, ok := member(x.d, doc, "uri").(rStr)
	if !ok {
		return "", "", false
	}
	switch t := member(x.d, doc, "text").(type) {
	case rByts:
		return string(u), string(t), true
	case rStr:
		return string(u), string(t), true
	}
	return string(u), "", false
}

func (x *diagRun) hook(d *Dom, c *DomCall) (rv, bool) {
	if c.Iface != nil && c.Iface.Name() == "PublishDiagnostics" {
		p := published{}
		for _, a := range c.Args[1:] {
			if u, ok := member(d, a, "URI").(rStr); ok {
				p.uri = string(u)
				items, ok := d.Elems(member(d, a, "Diagnostics"))
				if !ok {
					x.bad = "what is published is not known"
				}
				for _, it := range items {
					p.msgs = append(p.msgs, showRv(member(d, it, "Message")))
				}
			}
		}
		x.pubs = append(x.pubs, p)
		return rNil{}, true
	}
	fn := c.Fn
	if fn == nil {
		return nil, false
	}
	pkg := pkgPathOf(fn)
	var recv *types.Named
	if v := fn.Signature.Recv(); v != nil {
		recv = derefNamed(v.Type())
	}
	res := fn.Signature.Results()
	switch {
	case fn == x.ph && len(c.Binds) == 1 && len(c.Args) == 1:
		if f, ok := c.Args[0].(rFunc); ok {
			x.later(d.id(c.Binds[0]), f)
			return rNil{}, true
		}
	case strings.Contains(pkg, "bep/debounce") && fn.Name() == "New":
		d.serial++
		return rFunc{fn: x.ph, binds: []rv{intOf(int64(d.serial))}}, true
	case pkg == "time" && fn.Name() == "AfterFunc":
		t := d.NewObject(derefType(res.At(0).Type()))
		if f, ok := c.Args[1].(rFunc); ok {
			x.later(d.id(t), f)
			return t, true
		}
	case pkg == "time" && fn.Name() == "Stop":
		for i, p := range x.pending {
			if p.id == d.id(c.Args[0]) {
				x.pending = append(x.pending[:i:i], x.pending[i+1:]...)
				return rBool(true), true
			}
		}
		return rBool(false), true
	case x.funcs[fn]:
		msg := fn.Name() + " of something"
		found := true
		for _, a := range c.Args {
			doc := a
			if s, ok := a.(*rStruct); ok && derefNamed(s.t) == x.ctx {
				for _, f := range s.f {
					if o, ok := f.v.(*rCell); ok {
						if st, ok := o.v.(*rStruct); ok && derefNamed(st.t) == x.doc {
							doc = o
						}
					}
				}
			}
			if u, t, ok := x.text(doc); ok {
				msg = fn.Name() + " of " + u + " " + t
				found = t != ""
			}
		}
		if !found {
			return d.zero(res.At(0).Type()), true
		}
		e := d.zero(x.diag).(*rStruct)
		if m := d.Field(d.cell(e), "Message"); m != nil {
			m.v = rStr(msg)
		}
		return d.Slice(e), true
	case recv == x.doc:
		for i, q := range fn.Params[1:] {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && res.Len() == 0 {
				if st, ok := c.Args[0].(*rCell); ok {
					f := d.Field(st, "text")
					if isBytes(sl) {
						f.v = c.Args[i+1]
					} else {
						f.v = rByts(x.nextText(st))
					}
					return rNil{}, true
				}
			}
		}
		if res.Len() == 0 && fn.Signature.Params().Len() == 0 && fn.Name() != "Open" && fn.Name() != "Close" {
			return rNil{}, true
		}
	case recv == x.lookups.store && res.Len() == 0 && fn.Signature.Params().Len() == 1 && derefNamed(fn.Signature.Params().At(0).Type()) == x.doc && x.writes(fn):
		return rNil{}, true
	case recv != x.lookups.store && inLsp(fn) && res.Len() == 1 && derefNamed(res.At(0).Type()) == x.lookups.store:
		return x.store, true
	case !inRepo(fn) || pkg == modPath+"/analysis/storage" || pkg == modPath+"/stub" || pkg == modPath+"/util":
		if strings.Contains(pkg, "concurrent-map") || pkg == "sync" || pkg == "strings" {
			return nil, false
		}
		if res.Len() == 2 && isErrorType(res.At(1).Type()) {
			d.serial++
			t := res.At(0).Type()
			return rTuple{rUnk{id: fmt.Sprintf("result %d", d.serial), t: t, nonNil: true}, rNil{}}, true
		}
	case fn.Signature.Recv() == nil && res.Len() == 1 && recv == nil && inAnalysis(fn) && derefNamed(res.At(0).Type()) != nil && strings.HasPrefix(fn.Name(), "newReference"):
		return rUnk{id: "index", t: res.At(0).Type(), nonNil: true}, true
	}
	return nil, false
}

// writes tells whether a function writes to the database.
func (x *diagRun) writes(fn *ssa.Function) bool {
	for f := range x.p.reachable(fn) {
		if f.Name() == "WriteBatch" || pkgPathOf(f) == modPath+"/analysis/storage" {
			return true
		}
	}
	return false
}

func (x *diagRun) nextText(doc *rCell) string {
	u, t, _ := x.text(doc)
	if x.clear {
		x.texts[u] = ""
		return ""
	}
	x.texts[u] = t + "'"
	return t + "'"
}

type diagStep struct {
	change bool
	doc    int
	clear  bool
}

func (s diagStep) String() string {
	if s.clear {
		return fmt.Sprintf("correct %c", 'A'+s.doc)
	}
	if s.change {
		return fmt.Sprintf("change %c", 'A'+s.doc)
	}
	return fmt.Sprintf("open %c", 'A'+s.doc)
}

func diagURI(i int) string { return uriRoot + fmt.Sprintf("/doc%c.php", 'A'+i) }

func (g *diagnosing) history(steps []diagStep, open, change, newStore *ssa.Function) {
	d := newDom(g.p)
	x := &diagRun{diagnosing: g, d: d, ph: g.p.Func("", "main")}
	pos := g.p.Pos(open.Pos())
	name := fmt.Sprint(steps)
	early := map[int]bool{}
	why := d.Explore(func() rv {
		d.Events = nil
		x.pending, x.pubs, x.texts, x.bad = nil, nil, map[string]string{}, ""
		early = map[int]bool{}
		d.Hook = x.hook
		var args []rv
		for _, q := range newStore.Params {
			if isStringType(q.Type()) {
				args = append(args, rStr(uriRoot))
			} else {
				args = append(args, rUnk{id: "some " + q.Name(), t: q.Type(), nonNil: true})
			}
		}
		made, ok := d.Run(newStore, args, nil).(rTuple)
		if !ok {
			d.fail("what %s returns is not known", fnName(newStore))
		}
		if x.store, ok = made[0].(*rCell); !ok {
			// it could not be made
			return rNil{}
		}
		var lists []*rCell
		server := g.r.object(d, types.NewPointer(g.server), []rv{x.store}, &lists, 0).(*rCell)
		for _, f := range server.v.(*rStruct).f {
			if o, ok := f.v.(*rCell); ok {
				x.backLink(o, server)
			}
		}
		for _, s := range steps {
			fn := open
			if s.change {
				fn = change
			}
			if !s.change {
				x.texts[diagURI(s.doc)] = fmt.Sprintf("text of %c", 'A'+s.doc)
			}
			x.clear = s.clear
			before := len(x.pubs)
			want := d.NewObject(derefType(fn.Params[2].Type()))
			if f := d.deepField(want, "TextDocument.URI"); f != nil {
				f.v = rStr(diagURI(s.doc))
			}
			if f := d.deepField(want, "TextDocument.Text"); f != nil {
				f.v = rStr(x.texts[diagURI(s.doc)])
			}
			d.Run(fn, []rv{server, rUnk{id: "ctx", t: fn.Params[1].Type(), nonNil: true}, want}, nil)
			for _, p := range x.pubs[before:] {
				if p.uri == diagURI(s.doc) && len(p.msgs) == 0 && x.texts[p.uri] == "" {
					early[len(early)] = true
				}
				for _, m := range p.msgs {
					if p.uri == diagURI(s.doc) && strings.HasSuffix(m, " of "+p.uri+" "+x.texts[p.uri]) {
						early[len(early)] = true
					}
				}
			}
			if len(x.pubs) == before || len(early) == 0 {
				x.bad = "after " + s.String() + " nothing is published about it at once"
			}
			early = map[int]bool{}
		}
		for len(x.pending) > 0 {
			p := x.pending[0]
			x.pending = x.pending[1:]
			d.Run(p.f.fn, nil, p.f.binds)
		}
		return made[0]
	}, func(r DomResult) {
		if r.Panics != "" {
			g.c.Report("diagnostics/panics", pos, fmt.Sprintf("%s fails: %s", name, r.Panics), r.Trail)
			return
		}
		if _, ok := r.Val.(*rCell); !ok {
			return
		}
		if x.bad != "" {
			g.c.Report("diagnostics/at-once", pos, fmt.Sprintf("%s (%s)", x.bad, name), r.Trail)
		}
		last := map[string]published{}
		for _, p := range x.pubs {
			last[p.uri] = p
			for _, m := range p.msgs {
				if !strings.Contains(m, " of "+p.uri+" ") {
					g.c.Report("diagnostics/other-document", pos, fmt.Sprintf("%q is published about %s (%s)", m, p.uri, name), r.Trail)
				}
			}
		}
		for _, u := range sortedKeys(boolMap(x.texts)) {
			for fn := range g.funcs {
				n := 0
				for _, m := range last[u].msgs {
					if m == fn.Name()+" of "+u+" "+x.texts[u] {
						n++
					}
				}
				want := 1
				if x.texts[u] == "" {
					n, want = len(last[u].msgs), 0
				}
				if n != want {
					g.c.Report("diagnostics/left-out/"+fn.Name(), pos, fmt.Sprintf("what %s finds in the last text of a document is in the last publication about it %d times, not %d (%s)", fnName(fn), n, want, name), r.Trail)
				}
			}
		}
	})
	if why != "" {
		g.c.Undecided("what is published after %s cannot be followed: %s", name, why)
	}
	for f := range d.Funcs {
		g.c.Fn(f)
	}
	g.c.Count("instructions interpreted", d.Steps)
	g.c.Seen("histories of documents", name)
}

func boolMap(m map[string]string) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

// backLink makes the parts of the server know it.
func (x *diagRun) backLink(o, server *rCell) {
	st, ok := o.v.(*rStruct)
	if !ok {
		return
	}
	u, ok := st.t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		if pt, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok && derefNamed(pt) == x.server {
			st.f[i].v = server
		}
	}
}

func rulesDiagnostics(c *Ctx) {
	c.Rule("after a document was opened or edited, its diagnostics are published at once; in the end, the last publication about every document has what each way to find diagnostics finds in its last text, once")
	c.Rule("what is published about a document is only what was found in this document")
	c.Rule("a reference is reported as deprecated exactly if one of the symbols that it names is: it is marked, and tagged as deprecated")
	l := &lookups{c: c, p: c.P}
	if !l.find() {
		return
	}
	g := &diagnosing{lookups: l, funcs: map[*ssa.Function]bool{}}
	var dep *ssa.Function
	for _, fn := range c.P.Repo {
		if !inAnalysis(fn) || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Blocks == nil {
			continue
		}
		s := fn.Signature
		if s.Params().Len() == 1 && s.Results().Len() == 1 && elemOf(s.Results().At(0).Type()) == l.diag {
			g.funcs[fn] = true
			if derefNamed(s.Params().At(0).Type()) == l.ctx {
				dep = fn
			}
			c.Seen("ways to find diagnostics", shortFn(fn))
		}
	}
	c.AtLeast("ways to find diagnostics", 3)
	open, change := l.handler("DidOpen"), l.handler("DidChange")
	newStore := c.P.Func("analysis", "NewStore")
	if open == nil || change == nil || newStore == nil || dep == nil {
		c.Undecided("how documents are diagnosed is not found")
		return
	}
	o := func(i int) diagStep { return diagStep{doc: i} }
	e := func(i int) diagStep { return diagStep{change: true, doc: i} }
	n := func(i int) diagStep { return diagStep{change: true, doc: i, clear: true} }
	for _, h := range [][]diagStep{{o(0)}, {o(0), e(0)}, {o(0), o(1)}, {o(0), e(0), o(1)}, {o(0), o(1), e(0), e(1)}, {o(0), o(1), e(0), e(0)}, {o(0), n(0)}, {o(0), o(1), n(1), e(0)}, {o(0), n(0), e(0)}, {o(0), e(0), n(0), o(1)}, {o(0), e(0), e(0), o(1), e(1), e(0)}} {
		g.history(h, open, change, newStore)
	}
	for _, k := range refKinds {
		if !k.old {
			continue
		}
		for _, cs := range k.cases() {
			if cs.own != "" && cs.own != "own" {
				continue
			}
			cs.own = ""
			var keys []string
			mem := k.member
			if mem == "Constructor" {
				mem = ""
			}
			for _, decl := range k.decls {
				for _, t := range lookupTypes {
					keys = append(keys, lookupKey(decl, mem, t))
				}
			}
			for _, key := range append(keys, "") {
				cs.old = key
				l.deprecated(dep, k, cs)
			}
		}
	}
	c.AtLeast("references followed", 100)
	c.AtLeast("histories of documents", 11)
}

func init() {
	register("C37", "diagnostics", nil, rulesDiagnostics)
}
