package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashes is what C16 knows about the record of what is indexed.
type hashes struct {
	n       *indexing
	c       *Ctx
	p       *Program
	doc     *types.Named
	colls   map[string]bool        // collections the hashes are in
	loaders map[*ssa.Function]bool // methods that read the symbols of a document
	setters map[*ssa.Function]bool // methods that change its text
	sync    map[*ssa.Function]bool
	waiting string // class of the container of documents that may be gone
}

func newHashes(n *indexing) *hashes {
	h := &hashes{n: n, c: n.c, p: n.p, colls: map[string]bool{}, loaders: map[*ssa.Function]bool{}, setters: map[*ssa.Function]bool{}, sync: map[*ssa.Function]bool{}}
	for fn := range n.hashFn {
		if len(fn.Params) == 1 {
			if t := derefNamed(fn.Params[0].Type()); t != nil {
				h.doc = t
			}
		}
	}
	if h.doc == nil {
		n.c.Undecided("what computes the hash of a document was not found")
		return nil
	}
	for _, s := range n.syncs {
		h.sync[s] = true
	}
	for _, s := range n.sc.all {
		if s.op == "Put" && s.coll != "" {
			if is, _ := n.hashOf(s.fr, s.val); is {
				h.colls[s.coll] = true
			}
		}
	}
	// methods that fill the tree of symbols or set the text
	fields := map[string]map[*ssa.Function]bool{}
	st := h.doc.Underlying().(*types.Struct)
	for _, fn := range h.p.Repo {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == h.doc {
					f := fieldNm(fa.X.Type(), fa.Field)
					if fields[f] == nil {
						fields[f] = map[*ssa.Function]bool{}
					}
					fields[f][fn] = true
				}
			}
		}
	}
	tree, text := "", ""
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Interface); ok && f.Exported() {
				tree = f.Name()
			}
		}
		if isBytes(f.Type()) {
			// the one that is hashed
			for fn := range n.hashFn {
				for g := range h.p.reachable(fn) {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if fa, ok := in.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == h.doc && fieldNm(fa.X.Type(), fa.Field) == f.Name() {
								text = f.Name()
							}
						}
					}
				}
			}
		}
	}
	if tree == "" || text == "" {
		n.c.Undecided("the text and the symbols of a document were not found (%q, %q)", text, tree)
		return nil
	}
	for _, fn := range h.p.Repo {
		if fn.Signature.Recv() == nil || derefNamed(fn.Signature.Recv().Type()) != h.doc {
			continue
		}
		fills, nodes := false, false
		for k, q := range fn.Params {
			if k > 0 {
				if d := derefNamed(q.Type()); d != nil && d.Obj().Pkg() != nil && !strings.HasSuffix(d.Obj().Pkg().Path(), "/protocol") {
					nodes = true
				}
			}
		}
		if nodes || len(fn.Params) > 2 {
			continue
		}
		reads := false // goes through the parsed tree
		for g := range h.p.reachable(fn) {
			if fields[tree][g] {
				fills = true
			}
			if fields[tree][g] && g.Parent() == nil && g.Signature.Recv() == nil {
				reads = true
			}
		}
		_ = reads
		if fields[text][fn] {
			h.setters[fn] = true
		}
		if fills && fn.Signature.Results().Len() == 0 && h.visits(fn) {
			h.loaders[fn] = true
		}
	}
	h.findWaiting()
	return h
}

// visits tells whether a method goes through the syntax tree.
func (h *hashes) visits(fn *ssa.Function) bool {
	for g := range h.p.reachable(fn) {
		for _, q := range g.Params {
			if q.Type().String() == "*github.com/john-nguyen09/go-phpparser/phrase.Phrase" || strings.HasSuffix(q.Type().String(), "phrase.Phrase") {
				if g.Signature.Recv() == nil || derefNamed(g.Signature.Recv().Type()) != h.doc {
					return true
				}
			}
		}
	}
	return false
}

// findWaiting finds the container whose documents are deleted in the end.
func (h *hashes) findWaiting() {
	dels := map[*ssa.Function]bool{}
	for _, d := range h.n.deletes {
		dels[d] = true
	}
	for _, fn := range h.p.Repo {
		eachCall(fn, func(ci ssa.CallInstruction) {
			f := ci.Common().StaticCallee()
			if f == nil || !dels[f] {
				return
			}
			for _, a := range ci.Common().Args[1:] {
				if cls := h.from(a, 0); cls != "" {
					h.waiting = cls
					h.c.Seen("deletions at the end of indexing", shortFn(fn))
				}
			}
		})
	}
}

// from is the field of the container that a value is taken from.
func (h *hashes) from(v ssa.Value, depth int) string {
	if depth > 12 || v == nil {
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return h.from(x.X, depth+1)
	case *ssa.Field:
		if s := h.from(x.X, depth+1); s != "" {
			return s
		}
	case *ssa.FieldAddr:
		if s := h.from(x.X, depth+1); s != "" {
			return s
		}
		if t := derefNamed(x.X.Type()); t != nil && t.Obj().Pkg() != nil && isRepoPath(t.Obj().Pkg().Path()) {
			switch typeName(derefType(x.Type())) {
			case "string":
			default:
				return fieldClass(x.X.Type(), x.Field)
			}
		}
	case *ssa.Extract:
		return h.from(x.Tuple, depth+1)
	case *ssa.Next:
		return h.from(x.Iter, depth+1)
	case *ssa.Range:
		return h.from(x.X, depth+1)
	case *ssa.IndexAddr:
		return h.from(x.X, depth+1)
	case *ssa.Index:
		return h.from(x.X, depth+1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && !inRepo(f) && f.Signature.Recv() != nil {
			return h.from(x.Call.Args[0], depth+1)
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				if s := h.from(st.Val, depth+1); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func (h *hashes) takesDoc(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if derefNamed(q.Type()) == h.doc {
			return true
		}
	}
	return false
}

// roots are the functions that decide about indexing a document.
func (h *hashes) roots() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(fn *ssa.Function)
	up = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		callers := h.n.sc.k.callers[fn]
		if (h.sync[fn] || h.takesDoc(fn)) && len(callers) > 0 {
			for _, ci := range callers {
				up(ci.Parent())
			}
			return
		}
		if !h.sync[fn] {
			out = append(out, fn)
		}
	}
	for _, s := range h.n.syncs {
		up(s)
	}
	sort.Slice(out, func(i, j int) bool { return shortFn(out[i]) < shortFn(out[j]) })
	return out
}

// decide follows the paths of a function that indexes documents.
func (h *hashes) decide(root *ssa.Function) {
	c, p := h.c, h.p
	name := shortFn(root)
	b := newBridge(h.n.sc.k)
	mon := &Monitor{}
	struckHere := false
	for f := range p.reachable(root) {
		if h.sync[outermost(f)] {
			continue
		}
		eachCall(f, func(ci ssa.CallInstruction) {
			if h.strikes(ci) {
				struckHere = true
			}
		})
	}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		return f != nil && (h.sync[f] || h.n.hashFn[f] || h.loaders[f] || h.setters[f]) || h.strikes(ci)
	}))
	x.NoInline = func(f *ssa.Function) bool { return h.sync[f] || h.n.hashFn[f] || h.loaders[f] || h.setters[f] }
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if cl.Go {
			return nil, false
		}
		if cl.Fn != nil && h.n.hashFn[cl.Fn] {
			st.mon["hash"] = "1"
			delete(st.mon, "same")
			delete(st.mon, "synced")
			c.Seen("hashes compared", name)
			return []Out{{St: st, Val: mkNonNil("dochash(" + cl.Tok + ")")}}, true
		}
		switch cl.Name() {
		case "bytes.Equal", "bytes.Compare", "reflect.DeepEqual", "crypto/subtle.ConstantTimeCompare":
			for k, a := range cl.Args {
				if !strings.Contains(a.Strip().ID(), "dochash(") || len(cl.Args) != 2 {
					continue
				}
				com := cl.Instr.Common()
				h.recorded(b.at(cl.Frame), com.Args[1-k], com.Args[k], cl.Instr, name)
				if cl.Name() == "bytes.Equal" || cl.Name() == "reflect.DeepEqual" {
					return []Out{{St: st, Val: &V{K: KBool, Key: "samehash(" + cl.Tok + ")"}}}, true
				}
				return []Out{{St: st, Val: mkSym("cmphash(" + cl.Name() + "," + cl.Tok + ")")}}, true
			}
		}
		return nil, false
	}
	docArg := func(cl *Call) string {
		for k, a := range cl.Args {
			if k < len(cl.Fn.Params) && derefNamed(cl.Fn.Params[k].Type()) == h.doc {
				return a.Strip().ID()
			}
		}
		return ""
	}
	mon.OnCall = func(x *Ex, st *State, cl *Call) {
		if h.strikes(cl.Instr) {
			st.mon["struck"] = "1"
		}
		if cl.Fn == nil {
			return
		}
		switch {
		case h.loaders[cl.Fn]:
			st.mon["loaded:"+docArg(cl)] = "1"
		case h.setters[cl.Fn]:
			delete(st.mon, "loaded:"+docArg(cl))
		case h.sync[cl.Fn]:
			st.mon["synced"] = "1"
			c.Seen("documents indexed", name)
			if st.mon["loaded:"+docArg(cl)] == "" {
				c.Report("unloaded/"+name, p.InstrPos(cl.Instr), fmt.Sprintf("%s indexes a document whose symbols may not have been read: what was indexed of it is removed, and its hash says that it is up to date", shortFn(cl.Instr.Parent())), st.Path())
			}
		}
	}
	mon.OnBranch = func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool) {
		k := cond.Strip()
		if k.K != KBool {
			return
		}
		t := truth != k.Neg
		switch {
		case strings.HasPrefix(k.Key, "samehash("):
			if t {
				st.mon["same"] = "1"
			}
		case strings.HasPrefix(k.Key, "eq(") && strings.Contains(k.Key, "cmphash("):
			if t && (strings.Contains(k.Key, "bytes.Compare") && strings.Contains(k.Key, "c:0") || strings.Contains(k.Key, "ConstantTime") && strings.Contains(k.Key, "c:1")) {
				st.mon["same"] = "1"
			}
		case strings.HasPrefix(k.Key, "eq(") && strings.Contains(k.Key, "dochash(") && !strings.Contains(k.Key, "nil") && !strings.Contains(k.Key, "len("):
			if bo, ok := in.Cond.(*ssa.BinOp); ok {
				kf := b.at(fr)
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if !strings.Contains(x.val(fr, o).Strip().ID(), "dochash(") {
						other := bo.X
						if o == bo.X {
							other = bo.Y
						}
						h.recorded(kf, o, other, in, name)
					}
				}
			}
			if t {
				st.mon["same"] = "1"
			}
		}
	}
	exits := x.Run(root, x.RootArgs(root), nil, newState())
	c.Explored(x)
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		m := e.St.mon
		found := m["hash"] != ""
		for i, v := range e.Vals {
			if derefNamed(root.Signature.Results().At(i).Type()) == h.doc && x.IsNil(e.St, v) != 1 {
				found = true
			}
		}
		if !found {
			continue
		}
		if m["hash"] != "" && m["synced"] == "" && m["same"] == "" {
			c.Report("skipped/"+name, p.InstrPos(e.Instr), fmt.Sprintf("%s can leave out indexing a document although its content is not known to be that which was indexed", name), e.St.Path())
		}
		if struckHere {
			if m["struck"] == "" {
				c.Report("swept/"+name, p.InstrPos(e.Instr), fmt.Sprintf("%s can leave a document that is there among those that are deleted at the end of indexing", name), e.St.Path())
			} else {
				c.Seen("documents found again", name)
			}
		}
	}
}

// strikes tells whether a call takes a document from those that may be gone.
func (h *hashes) strikes(ci ssa.CallInstruction) bool {
	if h.waiting == "" {
		return false
	}
	com := ci.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return b.Name() == "delete" && h.n.class(com.Args[0]) == h.waiting
	}
	f := com.StaticCallee()
	if f == nil || inRepo(f) || f.Signature.Recv() == nil || len(com.Args) == 0 {
		return false
	}
	switch f.Name() {
	case "Remove", "Pop", "RemoveCb", "Delete", "LoadAndDelete":
		return h.n.class(com.Args[0]) == h.waiting
	}
	return false
}

// recorded checks that a hash is compared with the one that was recorded for
// the same document.
func (h *hashes) recorded(kf *kframe, v, hash ssa.Value, at ssa.Instruction, name string) {
	c := h.c
	own := map[string]bool{}
	if is, of := h.n.hashOf(kf, hash); is && of != nil {
		leaves(of, own)
	}
	alts := alternatives(h.n.sc.k.eval(kf, v))
	found := false
	for _, t := range alts {
		for t.op == "extract" && len(t.args) == 1 || t.op == "slice" {
			t = t.args[0]
		}
		if t.op == "const" {
			continue
		}
		ok := false
		if t.op == "invoke" && t.lit == "Get" && len(t.args) == 2 {
			k := segments(t.args[1])
			if len(k) > 1 {
				l, isLit := k[0].lit()
				ok = isLit && h.colls[l]
				of := map[string]bool{}
				for _, g := range k[1:] {
					for _, q := range g.parts {
						leaves(q, of)
					}
				}
				same := len(of) == 0 || len(own) == 0
				for l := range of {
					same = same || own[l]
				}
				if ok && !same {
					c.Report("other/"+name, h.p.InstrPos(at), fmt.Sprintf("%s: the hash of a document is compared with that recorded for another one", name), nil)
				}
			}
		}
		if t.op == "call" && t.fn != nil && inRepo(t.fn) {
			for f := range h.p.reachable(t.fn) {
				for _, s := range h.n.sc.all {
					if s.op == "Get" && h.colls[s.coll] && s.in.Parent() == f {
						ok = true
					}
				}
			}
		}
		if !ok {
			c.Report("stale/"+name, h.p.InstrPos(at), fmt.Sprintf("%s: the hash of a document is compared with one that is not read from the database, where the last indexing has recorded it", name), []string{t.String()})
		}
		found = found || ok
	}
	if found {
		c.Seen("comparisons with the recorded hash", name)
	}
}

func rulesHashes(c *Ctx) {
	c.Rule("every path that commits the entries of a document records the hash of its content in the same batch, after no inner batch has failed")
	c.Rule("a document is left out of indexing only if its hash equals the one that is read from the database")
	c.Rule("a document is only indexed after its symbols have been read from its present text")
	c.Rule("a document that is found is struck off the list of those that are deleted at the end of indexing")
	n := newIndexing(c)
	if n == nil {
		return
	}
	h := newHashes(n)
	if h == nil {
		return
	}
	for _, r := range n.syncs {
		n.explore(r, true, true)
	}
	for _, r := range h.roots() {
		c.Seen("functions that index documents", shortFn(r))
		h.decide(r)
	}
	c.AtLeast("hashes recorded", 1)
	c.AtLeast("functions that index documents", 1)
	c.AtLeast("documents indexed", 1)
	if h.waiting != "" {
		c.AtLeast("documents found again", 1)
	}
}

func init() {
	register("C16", "Path exploration of how the hash of a document is recorded and compared.", nil, rulesHashes)
}
