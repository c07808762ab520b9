package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// offers is what C11 knows.
type offers struct {
	*routing
	server *types.Named
	derive map[ssa.Value]bool
}

// What is offered and the methods that it consists of: the member of the
// answer, and the methods of the server.
var offered = []struct{ member, methods string }{
	{"CompletionProvider", "Completion"},
	{"CompletionProvider.ResolveProvider", "Resolve"},
	{"HoverProvider", "Hover"},
	{"SignatureHelpProvider", "SignatureHelp"},
	{"DefinitionProvider", "Definition"},
	{"TypeDefinitionProvider", "TypeDefinition"},
	{"ImplementationProvider", "Implementation"},
	{"DeclarationProvider", "Declaration"},
	{"ReferencesProvider", "References"},
	{"DocumentHighlightProvider", "DocumentHighlight"},
	{"DocumentSymbolProvider", "DocumentSymbol"},
	{"WorkspaceSymbolProvider", "Symbol"},
	{"CodeActionProvider", "CodeAction"},
	{"CodeLensProvider", "CodeLens"},
	{"CodeLensProvider.ResolveProvider", "ResolveCodeLens"},
	{"DocumentLinkProvider", "DocumentLink"},
	{"DocumentLinkProvider.ResolveProvider", "ResolveDocumentLink"},
	{"ColorProvider", "DocumentColor ColorPresentation"},
	{"DocumentFormattingProvider", "Formatting"},
	{"DocumentRangeFormattingProvider", "RangeFormatting"},
	{"DocumentOnTypeFormattingProvider", "OnTypeFormatting"},
	{"RenameProvider", "Rename"},
	{"RenameProvider.PrepareProvider", "PrepareRename"},
	{"FoldingRangeProvider", "FoldingRange"},
	{"SelectionRangeProvider", "SelectionRange"},
	{"ExecuteCommandProvider", "ExecuteCommand"},
	{"TextDocumentSync.WillSave", "WillSave"},
	{"TextDocumentSync.WillSaveWaitUntil", "WillSaveWaitUntil"},
	{"TextDocumentSync.OpenClose", "DidOpen DidClose"},
	{"TextDocumentSync.Change", "DidChange"},
	{"TextDocumentSync.Save", "DidSave"},
	{"Workspace.WorkspaceFolders.Supported", "DidChangeWorkspaceFolders"},
}

// member reads a member of an object, through pointers; nil if there is none.
func member(d *Dom, v rv, path string) rv {
	for _, name := range strings.Split(path, ".") {
		for {
			if i, ok := v.(rIface); ok {
				v = i.v
				continue
			}
			if c, ok := v.(*rCell); ok {
				v = c.v
				continue
			}
			break
		}
		s, ok := v.(*rStruct)
		if !ok {
			return nil
		}
		u := s.t.Underlying().(*types.Struct)
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				v, found = s.f[i].v, true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return v
}

// isOffered tells whether a member says yes: true, there, or not zero.
func isOffered(v rv) (yes, known bool) {
	switch x := v.(type) {
	case nil:
		return false, true
	case rNil:
		return false, true
	case rBool:
		return bool(x), true
	case rInt:
		return x.c != 0, x.konst()
	case rIface:
		return isOffered(x.v)
	case *rCell, *rStruct:
		return true, true
	case rSlice:
		return true, true
	}
	return false, false
}

// content tells whether a value is computed from what the analysis gives.
func (o *offers) content(v ssa.Value) bool {
	if r, ok := o.derive[v]; ok {
		return r
	}
	o.derive[v] = false
	r := o.content1(v)
	if r {
		o.derive[v] = true
	} else {
		delete(o.derive, v)
		o.derive[v] = false
	}
	return r
}

func (o *offers) content1(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		for _, fn := range o.p.siteCallees(x) {
			if pkgPathOf(fn) == modPath+"/analysis" {
				return true
			}
			if !inLsp(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if !isErrorType(res.Type()) && o.content(res) {
							return true
						}
					}
				}
			}
		}
		for _, a := range x.Call.Args {
			if o.content(a) {
				return true
			}
		}
		return false
	case *ssa.Alloc:
		return o.filled(x, x.Parent())
	case *ssa.FreeVar:
		return false
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Phi, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Lookup, *ssa.Next, *ssa.Range, *ssa.BinOp, *ssa.ChangeInterface:
		in := v.(ssa.Instruction)
		for _, op := range in.Operands(nil) {
			if *op != nil && o.content(*op) {
				return true
			}
		}
		if n := derefNamed(v.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/analysis" {
			return true
		}
	case *ssa.MakeMap, *ssa.MakeSlice:
		for _, ref := range *v.Referrers() {
			switch u := ref.(type) {
			case *ssa.MapUpdate:
				if o.content(u.Value) || o.content(u.Key) {
					return true
				}
			case *ssa.IndexAddr:
				if o.filled(u, v.Parent()) {
					return true
				}
			}
		}
	}
	return false
}

// filled tells whether content is put at an address or inside of it.
func (o *offers) filled(addr ssa.Value, fn *ssa.Function) bool {
	refs := addr.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr == addr && o.content(u.Val) {
				return true
			}
		case *ssa.FieldAddr:
			if o.filled(u, fn) {
				return true
			}
			// what the member leads to
			for _, l := range *u.Referrers() {
				if load, ok := l.(*ssa.UnOp); ok {
					for _, m := range *load.Referrers() {
						if mu, ok := m.(*ssa.MapUpdate); ok && (o.content(mu.Value) || o.content(mu.Key)) {
							return true
						}
					}
				}
			}
		case *ssa.IndexAddr:
			if o.filled(u, fn) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == addr {
					if o.filled(u.Fn.(*ssa.Function).FreeVars[i], fn) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// refuses tells whether a method can answer that it is not implemented.
func (o *offers) refuses(fn *ssa.Function) (string, bool) {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) (string, bool)
	walk = func(fn *ssa.Function) (string, bool) {
		if fn == nil || seen[fn] || !inLsp(fn) {
			return "", false
		}
		seen[fn] = true
		where, found := "", false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if n, exact := constant.Int64Val(k.Value); exact && n == -32601 {
							where, found = o.p.InstrPos(in), true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && !found {
					if _, isGo := in.(*ssa.Go); !isGo {
						if w, f := walk(ci.Common().StaticCallee()); f {
							_ = w
							where, found = o.p.InstrPos(in), true
						}
					}
				}
			}
		}
		return where, found
	}
	return walk(fn)
}

// answers tells whether a method answers with what the analysis gives.
func (o *offers) answers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, res := range ret.Results {
				if !isErrorType(res.Type()) && o.content(res) {
					return true
				}
			}
		}
	}
	return false
}

// works tells whether a notification leads to the analysis.
func (o *offers) works(fn *ssa.Function) bool {
	for g := range o.p.reachable(fn) {
		if pkgPathOf(g) == modPath+"/analysis" {
			return true
		}
	}
	return false
}

const offersFolders = 2

// session runs a part of the life of a server.
func (o *offers) session(what string, run func(d *Dom, s *rCell, params rv) rv, rooted bool, end func(d *Dom, r DomResult)) {
	d := newDom(o.p)
	d.MaxPaths, d.MaxSteps = 4000, 400000
	store := o.store
	d.Hook = func(d *Dom, c *DomCall) (rv, bool) {
		if c.Go {
			d.Note("go")
			return rNil{}, true
		}
		if c.Iface != nil && (c.Iface.Name() == "RegisterCapability" || c.Iface.Name() == "UnregisterCapability") {
			id, method := "", ""
			list := "Registrations"
			if c.Iface.Name() == "UnregisterCapability" {
				list = "Unregisterations"
			}
			if els, ok := d.Elems(member(d, c.Args[len(c.Args)-1], list)); ok {
				for _, e := range els {
					i, _ := member(d, e, "ID").(rStr)
					m, _ := member(d, e, "Method").(rStr)
					id, method = string(i), string(m)
					d.Note(c.Iface.Name() + " " + id + " " + method)
					if list == "Registrations" {
						o.watch(d, member(d, e, "RegisterOptions"), c)
					}
				}
			} else {
				d.fail("unknown registrations at %s", o.p.InstrPos(c.Instr))
			}
			return d.Unknown("error of the client", c.Iface.Type().(*types.Signature).Results().At(0).Type()), true
		}
		if c.Fn == nil {
			return nil, false
		}
		if pkgPathOf(c.Fn) == modPath+"/util" {
			sig := c.Fn.Signature.Results()
			id := "util." + c.Fn.Name()
			for _, a := range c.Args {
				id += " " + d.id(a)
			}
			if sig.Len() == 1 {
				return d.Unknown(id, sig.At(0).Type()), true
			}
			if sig.Len() == 2 && isErrorType(sig.At(1).Type()) {
				return rTuple{d.Unknown(id, sig.At(0).Type()), rNil{}}, true // the URIs are valid
			}
			if sig.Len() > 1 {
				return d.Unknown(id, sig), true
			}
			return rNil{}, true
		}
		if pkgPathOf(c.Fn) != modPath+"/analysis" {
			return nil, false
		}
		res := c.Fn.Signature.Results()
		recv := c.Fn.Signature.Recv()
		if recv == nil && res.Len() == 2 && derefNamed(res.At(0).Type()) == store {
			uri := ""
			for i, a := range c.Args {
				if u, ok := a.(rStr); ok && strings.HasPrefix(string(u), "file://") && i < 2 {
					uri = string(u)
				}
			}
			d.Note("open " + uri)
			if d.decide("the store of "+showStr(uri)+" opens", o.p.InstrPos(c.Instr)) {
				d.Note("opened " + uri)
				return rTuple{o.newStore(d, uri), rNil{}}, true
			}
			return rTuple{rNil{}, rUnk{id: "error of " + uri, t: res.At(1).Type(), nonNil: true}}, true
		}
		if recv != nil && derefNamed(recv.Type()) == store {
			s, _ := c.Args[0].(*rCell)
			if s == nil {
				return nil, false
			}
			uri, _ := d.Field(s, o.uriF).v.(rStr)
			if c.Fn.Name() == "Close" {
				d.Note("close " + string(uri))
				return rNil{}, true
			}
			if res.Len() == 1 && isStringType(res.At(0).Type()) && len(c.Args) == 1 {
				return nil, false
			}
			if res.Len() == 0 {
				return rNil{}, true
			}
			if res.Len() == 1 {
				return d.Unknown(c.Fn.Name()+" of "+string(uri), res.At(0).Type()), true
			}
			return d.Unknown(c.Fn.Name()+" of "+string(uri), res), true
		}
		return nil, false
	}
	why := d.Explore(func() rv {
		var lists []*rCell
		s := d.cell(o.object(d, o.server, nil, &lists, 0))
		return run(d, s, o.params(d, rooted))
	}, func(r DomResult) {
		if r.Panics != "" {
			return // C07
		}
		end(d, r)
	})
	for f := range d.Funcs {
		o.c.Fn(f)
	}
	o.c.Count("instructions interpreted", d.Steps)
	o.c.Seen("parts of the life of a server", what)
	if why != "" {
		o.c.Undecided("what the server does: %s: %s", what, why)
	}
}

// (several folders can have the same last name)
func offersURI(i int) string { return uriRoot + atomStr(i) + "/" + atomStr(0) }

// params are those of initialize.
func (o *offers) params(d *Dom, rooted bool) rv {
	m := o.p.Methods(o.server)["Initialize"]
	pt := derefType(m.Params[2].Type())
	v := d.NewObject(pt)
	st := pt.Underlying().(*types.Struct)
	var fill func(c *rCell, st *types.Struct)
	fill = func(c *rCell, st *types.Struct) {
		s, ok := c.v.(*rStruct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				if in, ok := f.Type().Underlying().(*types.Struct); ok {
					fill(s.f[i], in)
				}
				continue
			}
			switch f.Name() {
			case "WorkspaceFolders":
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && !rooted {
					var fs []rv
					for k := 0; k < offersFolders; k++ {
						w := d.zero(sl.Elem()).(*rStruct)
						wc := d.cell(w)
						d.Field(wc, "URI").v = rStr(offersURI(k))
						fs = append(fs, wc.v)
					}
					s.f[i].v = d.Slice(fs...)
				}
			case "RootURI":
				if isStringType(f.Type()) {
					s.f[i].v = rStr(offersURI(0))
				}
			}
		}
	}
	fill(v, st)
	return v
}

// watch checks the options of the registration for changed files.
func (o *offers) watch(d *Dom, opts rv, c *DomCall) {
	if i, ok := opts.(rIface); ok {
		opts = i.v
	}
	ws, ok := d.Elems(member(d, opts, "Watchers"))
	good := false
	if ok {
		for _, w := range ws {
			g, _ := member(d, w, "GlobPattern").(rStr)
			kind := int64(-1)
			if k, ok := member(d, w, "Kind").(rInt); ok {
				if k.konst() {
					kind = k.c
				}
			}
			if (kind == 7 || kind == 0) && (g == "**/*" || g == "**") {
				good = true
			}
		}
	}
	if !good {
		o.c.Report("offers/watch/"+shortFn(c.Instr.Parent()), o.p.InstrPos(c.Instr), "the client is not asked for all changes (creation, change and deletion) of files and folders at every depth", nil)
	}
}

// uriSet are the URIs of the events of a kind.
func uriSet(d *Dom, kind string) map[string]bool {
	out := map[string]bool{}
	for _, e := range d.Events {
		if strings.HasPrefix(e, kind+" ") {
			out[e[len(kind)+1:]] = true
		}
	}
	return out
}

func lastOf(v rv) (rv, bool) {
	if t, ok := v.(rTuple); ok && len(t) > 0 {
		return t[len(t)-1], true
	}
	return v, v != nil
}

func isNilRv(v rv) (isNil, known bool) {
	switch x := v.(type) {
	case rNil:
		return true, true
	case rIface:
		return false, true
	case rUnk:
		return false, x.nonNil
	case *rCell:
		return false, true
	}
	return false, false
}

func (o *offers) life() {
	m := o.p.Methods(o.server)
	initialize, initialized, shutdown, folders := m["Initialize"], m["Initialized"], m["Shutdown"], m["DidChangeWorkspaceFolders"]
	if initialize == nil || initialized == nil || shutdown == nil || folders == nil {
		o.c.Undecided("the methods of the life of the server are not found")
		return
	}
	ctx := func() rv { return rUnk{id: "ctx", t: initialize.Params[1].Type(), nonNil: true} }
	paramOf := func(d *Dom, fn *ssa.Function) rv { return d.NewObject(derefType(fn.Params[2].Type())) }
	bad := func(key, pos, msg string, d *Dom, r DomResult) {
		o.c.Report("offers/"+key, pos, msg, r.Trail)
	}
	at := func(fn *ssa.Function) string { return o.p.Pos(fn.Pos()) }
	errNil := func(v rv) bool {
		e, _ := lastOf(v)
		n, known := isNilRv(e)
		return known && n
	}
	for _, rooted := range []bool{false, true} {
		want := map[string]bool{offersURI(0): true}
		if !rooted {
			for k := 0; k < offersFolders; k++ {
				want[offersURI(k)] = true
			}
		}
		how := "with folders"
		if rooted {
			how = "with a root only"
		}
		o.session("initialize "+how, func(d *Dom, s *rCell, params rv) rv {
			return d.Run(initialize, []rv{s, ctx(), params}, nil)
		}, rooted, func(d *Dom, r DomResult) {
			if !errNil(r.Val) {
				bad("initialize-fails", at(initialize), "the first initialize, "+how+", is answered with an error", d, r)
				return
			}
			caps := member(d, r.Val.(rTuple)[0], "Capabilities")
			if caps == nil {
				bad("initialize-empty", at(initialize), "initialize is answered without what the server can do", d, r)
				return
			}
			o.capabilities(d, caps, r)
		})
		o.session("initialize twice "+how, func(d *Dom, s *rCell, params rv) rv {
			d.Run(initialize, []rv{s, ctx(), params}, nil)
			return d.Run(initialize, []rv{s, ctx(), params}, nil)
		}, rooted, func(d *Dom, r DomResult) {
			if errNil(r.Val) {
				bad("initialize-twice", at(initialize), "a second initialize is not refused", d, r)
			}
		})
		o.session("initialize and initialized "+how, func(d *Dom, s *rCell, params rv) rv {
			d.Run(initialize, []rv{s, ctx(), params}, nil)
			return d.Run(initialized, []rv{s, ctx(), paramOf(d, initialized)}, nil)
		}, rooted, func(d *Dom, r DomResult) {
			o.opened(d, r, want, at(initialized), "when the server is initialized")
		})
		o.session("initialize, initialized and initialize "+how, func(d *Dom, s *rCell, params rv) rv {
			d.Run(initialize, []rv{s, ctx(), params}, nil)
			d.Run(initialized, []rv{s, ctx(), paramOf(d, initialized)}, nil)
			return d.Run(initialize, []rv{s, ctx(), params}, nil)
		}, rooted, func(d *Dom, r DomResult) {
			if errNil(r.Val) {
				bad("initialize-again", at(initialize), "an initialize after the server was initialized is not refused", d, r)
			}
		})
		o.session("shutdown after initialized "+how, func(d *Dom, s *rCell, params rv) rv {
			d.Run(initialize, []rv{s, ctx(), params}, nil)
			d.Run(initialized, []rv{s, ctx(), paramOf(d, initialized)}, nil)
			return d.Run(shutdown, []rv{s, ctx()}, nil)
		}, rooted, func(d *Dom, r DomResult) {
			if !errNil(r.Val) {
				bad("shutdown-fails", at(shutdown), "the shutdown of an initialized server is answered with an error", d, r)
			}
			closed := uriSet(d, "close")
			for u := range uriSet(d, "opened") {
				if !closed[u] {
					bad("shutdown-open", at(shutdown), "a folder is not closed by the shutdown", d, r)
				}
			}
		})
	}
	o.session("shutdown at once", func(d *Dom, s *rCell, params rv) rv {
		return d.Run(shutdown, []rv{s, ctx()}, nil)
	}, false, func(d *Dom, r DomResult) {
		if errNil(r.Val) {
			bad("shutdown-early", at(shutdown), "a shutdown before the server was initialized is not refused", d, r)
		}
	})
	o.session("shutdown after initialize", func(d *Dom, s *rCell, params rv) rv {
		d.Run(initialize, []rv{s, ctx(), params}, nil)
		return d.Run(shutdown, []rv{s, ctx()}, nil)
	}, false, func(d *Dom, r DomResult) {
		if errNil(r.Val) {
			bad("shutdown-early", at(shutdown), "a shutdown before the server was initialized is not refused", d, r)
		}
	})
	o.session("folders come and go", func(d *Dom, s *rCell, params rv) rv {
		d.Run(initialize, []rv{s, ctx(), params}, nil)
		d.Run(initialized, []rv{s, ctx(), paramOf(d, initialized)}, nil)
		d.Note("later")
		return d.Run(folders, []rv{s, ctx(), o.changeOf(d, folders)}, nil)
	}, true, func(d *Dom, r DomResult) {
		later := false
		open, opens, closed := map[string]bool{}, map[string]bool{}, map[string]bool{}
		for _, e := range d.Events {
			k, u, _ := strings.Cut(e, " ")
			switch {
			case e == "later":
				later = true
			case k == "opened" && !later:
				open[u] = true
			case k == "open" && later:
				opens[u] = true
			case k == "close" && later:
				closed[u] = true
			}
		}
		o.missed(d, r, opens, map[string]bool{offersURI(1): true, offersURI(2): true}, at(folders), "when folders are added")
		if open[offersURI(0)] && !closed[offersURI(0)] {
			bad("not-closed", at(folders), "a folder that the client removes is not closed", d, r)
		}
		o.unwatched(d, r, at(folders))
	})
}

// changeOf are the parameters of a change of folders.
func (o *offers) changeOf(d *Dom, fn *ssa.Function) rv {
	v := d.NewObject(derefType(fn.Params[2].Type()))
	ev := d.Field(v, "Event")
	list := func(name string, ids ...int) {
		c := d.Field(ev, name)
		st := ev.v.(*rStruct).t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				var fs []rv
				for _, k := range ids {
					w := d.cell(d.zero(st.Field(i).Type().Underlying().(*types.Slice).Elem()))
					d.Field(w, "URI").v = rStr(offersURI(k))
					fs = append(fs, w.v)
				}
				c.v = d.Slice(fs...)
			}
		}
	}
	list("Added", 1, 2)
	list("Removed", 0)
	return v
}

// missed reports folders that are not opened.
func (o *offers) missed(d *Dom, r DomResult, opens, want map[string]bool, pos, when string) {
	for _, u := range sortedKeys(want) {
		o.c.Seen("folders that are opened", when+" "+showStr(u))
		if !opens[u] {
			o.c.Report("offers/not-opened/"+when, pos, "a folder of the client is not opened "+when, r.Trail)
		}
	}
}

func (o *offers) opened(d *Dom, r DomResult, want map[string]bool, pos, when string) {
	o.missed(d, r, uriSet(d, "open"), want, pos, when)
	reg := map[string]string{}
	for _, e := range d.Events {
		f := strings.SplitN(e, " ", 3)
		if f[0] == "RegisterCapability" {
			if f[2] != "workspace/didChangeWatchedFiles" {
				o.c.Report("offers/registers", pos, fmt.Sprintf("the server registers for %q, which is not one of its methods", f[2]), r.Trail)
			}
			if _, twice := reg[f[1]]; twice {
				o.c.Report("offers/registers-twice", pos, "two folders register for changed files under the same identifier", r.Trail)
			}
			reg[f[1]] = f[2]
		}
	}
	if n := len(uriSet(d, "opened")); len(reg) < n {
		o.c.Report("offers/not-watched", pos, fmt.Sprintf("the client is asked for changed files for %d of the %d folders that were opened %s", len(reg), n, when), r.Trail)
	}
}

// unwatched: what is taken back was registered, and it is for folders that are
// removed.
func (o *offers) unwatched(d *Dom, r DomResult, pos string) {
	reg := map[string]bool{}
	closed := 0
	back := 0
	for _, e := range d.Events {
		f := strings.SplitN(e, " ", 3)
		switch f[0] {
		case "RegisterCapability":
			reg[f[1]] = true
		case "close":
			closed++
		case "UnregisterCapability":
			back++
			if !reg[f[1]] {
				o.c.Report("offers/unregisters", pos, "a registration for changed files is taken back under an identifier that was not registered", r.Trail)
			}
		}
	}
	if back < closed {
		o.c.Report("offers/still-watched", pos, "the registration for changed files of a folder that is removed is not taken back", r.Trail)
	}
}

// capabilities compares what is offered with what is implemented.
func (o *offers) capabilities(d *Dom, caps rv, r DomResult) {
	m := o.p.Methods(o.server)
	isOff := map[string]bool{}
	for _, f := range offered {
		v := member(d, caps, f.member)
		yes, known := isOffered(v)
		if !known {
			o.c.Undecided("whether %s is offered", f.member)
			continue
		}
		for _, name := range strings.Fields(f.methods) {
			fn := m[name]
			if fn == nil {
				continue
			}
			isOff[name] = yes
			o.c.Seen("methods with an offer", name)
			request := fn.Signature.Results().Len() == 2
			pos, refuses := o.refuses(fn)
			if yes {
				o.c.Seen("methods that are offered", name)
				if refuses {
					o.c.Report("offers/refused/"+name, pos, fmt.Sprintf("the server offers %s, and %s answers that it is not implemented", f.member, shortFn(fn)), nil)
				}
				if request && !o.answers(fn) {
					o.c.Report("offers/empty/"+name, o.p.Pos(fn.Pos()), fmt.Sprintf("the server offers %s, and %s never answers with anything", f.member, shortFn(fn)), nil)
				}
				if !request && name != "DidSave" && !o.works(fn) {
					o.c.Report("offers/idle/"+name, o.p.Pos(fn.Pos()), fmt.Sprintf("the server offers %s, and %s does nothing", f.member, shortFn(fn)), nil)
				}
				continue
			}
			if request && !refuses && o.answers(fn) || !request && !refuses && o.works(fn) {
				o.c.Report("offers/unoffered/"+name, o.p.Pos(fn.Pos()), fmt.Sprintf("%s is implemented, but the server does not offer %s, so no client asks for it", shortFn(fn), f.member), nil)
			}
		}
	}
	o.c.AtLeast("methods that are offered", 12)
	for _, t := range []struct{ member, chars string }{
		{"CompletionProvider.TriggerCharacters", "$>:\\"},
		{"SignatureHelpProvider.TriggerCharacters", "(,"},
	} {
		els, ok := d.Elems(member(d, caps, t.member))
		have := map[string]bool{}
		for _, e := range els {
			if s, ok := e.(rStr); ok {
				have[string(s)] = true
			}
		}
		for _, ch := range t.chars {
			o.c.Seen("characters that ask", t.member+" "+string(ch))
			if !ok || !have[string(ch)] {
				o.c.Report("offers/trigger/"+t.member+string(ch), o.p.Pos(m["Initialize"].Pos()), fmt.Sprintf("the client is not told to ask after %q (%s)", string(ch), t.member), nil)
			}
		}
	}
	if k, ok := member(d, caps, "TextDocumentSync.Change").(rInt); ok {
		if !k.konst() || k.c != 1 && k.c != 2 {
			o.c.Report("offers/sync", o.p.Pos(m["Initialize"].Pos()), "the client is not told to send the changes of documents", nil)
		}
	}
}

func rulesOffers(c *Ctx) {
	c.Rule("the answer to initialize is computed by abstract interpretation: each feature it offers has methods that never answer that they are not implemented, answer requests with what is computed by the analysis, and do something with notifications; each method that does so is offered")
	c.Rule("the client is told to ask for completion after $ > : and \\, and for signatures after ( and ,; it is asked for creation, change and deletion of all files of each folder that is opened, under an identifier of that folder, and no more for a folder that is removed")
	c.Rule("histories of initialize, initialized, shutdown and changes of folders: the first initialize with a folder is answered, any other is refused, so is a shutdown before the server was initialized; each folder is opened, whatever becomes of the others, those that are removed are closed, all by the shutdown")
	o := &offers{routing: &routing{c: c, p: c.P}, derive: map[ssa.Value]bool{}}
	if !o.find() {
		return
	}
	o.server = c.P.Named(lspPkg, "Server")
	if o.server == nil {
		c.Undecided("the server is not found")
		return
	}
	o.life()
	c.AtLeast("parts of the life of a server", 8)
	c.AtLeast("methods with an offer", 25)
	var names []string
	for _, f := range offered {
		names = append(names, f.member)
	}
	sort.Strings(names)
	c.Count("features of the protocol", len(names))
}

func init() {
	register("C11", "Abstract interpretation of the life of the server, and a table of features and methods.", nil, rulesOffers)
}
