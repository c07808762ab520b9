package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const (
	analysisPkg = "analysis"
	keySep      = "\x00"
)

// dbSite is a place where an entry of a database is read, written or deleted,
// in a context in which its collection is known.
type dbSite struct {
	op   string // Get PrefixStream Put Delete
	db   string
	in   ssa.CallInstruction
	fr   *kframe
	keys [][]seg // alternatives of the key, split at the separator
	coll string  // literal collection, or "" when it is computed
	dyn  *term   // what computes the collection
	val  ssa.Value
}

func (s *dbSite) collection() string {
	if s.coll != "" {
		return s.coll
	}
	if s.dyn != nil {
		return s.dyn.op + " " + s.dyn.lit
	}
	return "?"
}

// seg is a segment of a key: what stands between two separators.
type seg struct {
	parts []*term
}

func (s seg) lit() (string, bool) {
	switch len(s.parts) {
	case 0:
		return "", true
	case 1:
		if s.parts[0].op == "lit" {
			return s.parts[0].lit, true
		}
	}
	return "", false
}

func (s seg) String() string {
	var out []string
	for _, p := range s.parts {
		out = append(out, p.String())
	}
	return strings.Join(out, "+")
}

func segments(t *term) []seg {
	parts := []*term{t}
	if t.op == "cat" {
		parts = t.args
	}
	out := []seg{{}}
	for _, p := range parts {
		if p.op != "lit" {
			out[len(out)-1].parts = append(out[len(out)-1].parts, p)
			continue
		}
		for n, l := range strings.Split(p.lit, keySep) {
			if n > 0 {
				out = append(out, seg{})
			}
			if l != "" {
				out[len(out)-1].parts = append(out[len(out)-1].parts, &term{op: "lit", lit: l})
			}
		}
	}
	return out
}

// dbs knows the databases of the store.
type dbs struct {
	p      *Program
	k      *keyer
	store  *types.Named
	fields map[string]bool      // fields of the store that are databases
	origin map[ssa.Value]string // what is stored to the fields
}

func isDBType(t types.Type) bool {
	n := derefNamed(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	path, name := n.Obj().Pkg().Path(), n.Obj().Name()
	return path == modPath+"/"+storagePkg && name == "DB" || strings.HasSuffix(path, "/pogreb") && name == "DB"
}

func isBatchType(t types.Type) bool {
	n := derefNamed(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+storagePkg && n.Obj().Name() == "Batch"
}

func newDBs(p *Program) *dbs {
	d := &dbs{p: p, k: newKeyer(p), fields: map[string]bool{}, origin: map[ssa.Value]string{}}
	for _, n := range p.NamedTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/"+analysisPkg {
			continue
		}
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			if isDBType(st.Field(i).Type()) {
				fs = append(fs, st.Field(i).Name())
			}
		}
		if len(fs) >= 2 {
			d.store = n
			for _, f := range fs {
				d.fields[f] = true
			}
		}
	}
	if d.store == nil {
		return d
	}
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || derefNamed(fa.X.Type()) != d.store {
					continue
				}
				if f := fieldNm(fa.X.Type(), fa.Field); d.fields[f] {
					v := st.Val
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					d.origin[v] = f
				}
			}
		}
	}
	return d
}

// name tells which database a term is.
func (d *dbs) name(t *term) string {
	switch t.op {
	case "field":
		if d.fields[t.lit] {
			return t.lit
		}
		// another holder of the database of the store
		return ""
	case "extract", "call", "tuple":
		if f := d.origin[t.val]; f != "" {
			return f
		}
	case "phi":
		n := d.name(t.args[0])
		for _, a := range t.args[1:] {
			if d.name(a) != n {
				return ""
			}
		}
		return n
	case "param":
		// the batch a closure is given
		if t.fr == nil || t.fr.fn.Parent() == nil {
			return ""
		}
		if b, at := d.batchOf(t.fr); b != nil {
			return d.name(d.k.eval(at, b))
		}
	}
	if f := d.origin[t.val]; f != "" {
		return f
	}
	return ""
}

// batchOf finds the database whose WriteBatch runs the closure.
func (d *dbs) batchOf(fr *kframe) (ssa.Value, *kframe) {
	lex := fr.lex
	if lex == nil {
		return nil, nil
	}
	for _, b := range lex.fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if !com.IsInvoke() || com.Method.Name() != "WriteBatch" || !isDBType(com.Value.Type()) {
				continue
			}
			for _, a := range com.Args {
				if t := d.k.eval(lex, a); t.op == "func" && t.fn == fr.fn {
					return com.Value, lex
				}
			}
		}
	}
	return nil, nil
}

// access recognises a call that reads or changes a database.
func access(ci ssa.CallInstruction) (op string, recv, key, val ssa.Value) {
	com := ci.Common()
	if com.IsInvoke() {
		m := com.Method.Name()
		if isDBType(com.Value.Type()) || isBatchType(com.Value.Type()) {
			switch m {
			case "Get", "PrefixStream", "Delete":
				return m, com.Value, com.Args[0], nil
			case "Put":
				return m, com.Value, com.Args[0], com.Args[1]
			}
		}
		return "", nil, nil, nil
	}
	f := com.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || !isDBType(f.Signature.Recv().Type()) || inRepo(f) {
		return "", nil, nil, nil
	}
	switch f.Name() {
	case "Get", "Delete", "Has":
		return f.Name(), com.Args[0], com.Args[1], nil
	case "Put":
		return f.Name(), com.Args[0], com.Args[1], com.Args[2]
	}
	return "", nil, nil, nil
}

// sites finds every access to a database, in every context its collection and
// database depend on.
func (d *dbs) sites() []*dbSite {
	var out []*dbSite
	for _, fn := range d.p.Repo {
		if strings.HasPrefix(pkgPathOf(fn), modPath+"/"+storagePkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if op, _, _, _ := access(ci); op != "" {
					out = append(out, d.contexts(d.k.base(fn), ci)...)
				}
			}
		}
	}
	return out
}

func (d *dbs) contexts(fr *kframe, ci ssa.CallInstruction) []*dbSite {
	ss := d.at(fr, ci)
	known := true
	for _, s := range ss {
		if s.db == "" || s.coll == "" && (s.dyn == nil || s.dyn.op != "invoke") {
			known = false
		}
	}
	if known || fr.n >= 6 {
		return ss
	}
	ups := d.k.expand(fr)
	if len(ups) == 0 || len(ups) > 60 {
		return ss
	}
	var out []*dbSite
	for _, u := range ups {
		out = append(out, d.contexts(u, ci)...)
	}
	return out
}

// at evaluates an access in a context, once for each collection.
func (d *dbs) at(fr *kframe, ci ssa.CallInstruction) []*dbSite {
	op, recv, key, val := access(ci)
	db := d.name(d.k.eval(fr, recv))
	by := map[string]*dbSite{}
	var out []*dbSite
	for _, alt := range alternatives(d.k.eval(fr, key)) {
		if alt.op == "cycle" {
			continue
		}
		k := segments(alt)
		s := &dbSite{op: op, db: db, in: ci, fr: fr, val: val}
		if l, ok := k[0].lit(); ok {
			s.coll = l
		} else if len(k[0].parts) == 1 {
			s.dyn = k[0].parts[0]
		}
		id := s.collection()
		if by[id] == nil {
			by[id] = s
			out = append(out, s)
		}
		by[id].keys = append(by[id].keys, k)
	}
	return out
}

func (s *dbSite) String() string {
	var ks []string
	for _, k := range s.keys {
		var gs []string
		for _, g := range k {
			gs = append(gs, g.String())
		}
		ks = append(ks, strings.Join(gs, " / "))
	}
	return fmt.Sprintf("%s %s %s [%s] in %s", s.op, s.db, s.collection(), strings.Join(ks, " | "), s.fr)
}

// written is the shape of the keys that are written to a collection.
type written struct {
	db    string
	coll  string
	segs  []seg // after the collection
	owner *types.Named
	site  *dbSite
	index bool // a search index, whose keys start with a word
	main  bool // the entry of a symbol itself
}

// kind is a type whose values are kept in a collection of their own.
type kind struct {
	t     *types.Named
	coll  string
	keys  [][]seg
	index string
	fn    *ssa.Function
}

// strOf evaluates a method without parameters of a type.
func (d *dbs) strOf(fn *ssa.Function) []*term {
	t := d.k.returned(d.k.base(fn), 0)
	if t == nil {
		return nil
	}
	return alternatives(t)
}

func recvNamed(fn *ssa.Function) *types.Named {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return derefNamed(fn.Signature.Recv().Type())
}

// schema is what the writes say about the collections.
type schema struct {
	*dbs
	all     []*dbSite
	written []*written
	kinds   map[*types.Named]*kind
	byColl  map[string]*kind
	index   map[string]bool
}

func newSchema(c *Ctx) *schema {
	d := newDBs(c.P)
	if d.store == nil {
		c.Undecided("no type that holds the databases was found")
		return nil
	}
	sc := &schema{dbs: d, all: d.sites(), kinds: map[*types.Named]*kind{}, byColl: map[string]*kind{}, index: map[string]bool{}}
	for _, s := range sc.all {
		c.Fn(s.in.Parent())
		debugf("%s %s", c.P.InstrPos(s.in), s)
		if s.op != "Put" {
			continue
		}
		if s.db == "" {
			c.Undecided("%s: which database is written", c.P.InstrPos(s.in))
			continue
		}
		if s.coll != "" {
			for _, k := range s.keys {
				sc.written = append(sc.written, &written{db: s.db, coll: s.coll, segs: k[1:], site: s})
			}
			continue
		}
		if s.dyn == nil || s.dyn.op != "invoke" {
			c.Undecided("%s: which collection is written: %s", c.P.InstrPos(s.in), s)
			continue
		}
		sc.instantiate(c, s)
	}
	return sc
}

// instantiate writes out a write whose collection depends on the type of the
// symbol.
func (sc *schema) instantiate(c *Ctx, s *dbSite) {
	call, ok := s.dyn.val.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() {
		c.Undecided("%s: collection", c.P.InstrPos(s.in))
		return
	}
	for _, get := range c.P.Implementors(call.Call.Method) {
		t := recvNamed(get)
		if t == nil {
			continue
		}
		for _, ct := range sc.strOf(get) {
			cs := segments(ct)
			coll, isLit := cs[0].lit()
			if !isLit {
				c.Undecided("%s: the collection of %s is not a constant", c.P.Pos(get.Pos()), typeName(t))
				continue
			}
			for _, k := range s.keys {
				for _, segs := range sc.substitute(t, s.dyn, k[1:]) {
					w := &written{db: s.db, coll: coll, segs: append(append([]seg{}, cs[1:]...), segs...), owner: t, site: s}
					// the entry of the symbol itself is its collection and its key
					if len(k) == 2 && len(k[1].parts) == 1 && k[1].parts[0].op == "invoke" {
						w.main = true
						if sc.kinds[t] == nil {
							sc.kinds[t] = &kind{t: t, coll: coll, fn: get}
						}
						sc.kinds[t].keys = append(sc.kinds[t].keys, segs)
					} else {
						w.index = true
						sc.index[coll] = true
					}
					sc.written = append(sc.written, w)
				}
			}
		}
	}
}

// substitute replaces what the interface of the symbol gives by what the type
// gives. It gives nothing for types that do not have all of the methods.
func (sc *schema) substitute(t *types.Named, dyn *term, segs []seg) [][]seg {
	outs := []*term{{op: "lit"}}
	add := func(alts []*term) {
		var next []*term
		for _, o := range outs {
			for _, a := range alts {
				next = append(next, catTerms(o, a))
			}
		}
		outs = next
	}
	for n, g := range segs {
		if n > 0 {
			add([]*term{{op: "lit", lit: keySep}})
		}
		for _, p := range g.parts {
			if p.op == "invoke" && len(p.args) > 0 && p.args[0].id() == dyn.args[0].id() {
				m := sc.p.Method(t, p.lit)
				if m == nil {
					return nil
				}
				var alts []*term
				for _, a := range sc.strOf(m) {
					if a.op == "lit" && a.lit == "" {
						continue // not stored
					}
					alts = append(alts, a)
				}
				add(alts)
				continue
			}
			add([]*term{p})
		}
	}
	var out [][]seg
	for _, o := range outs {
		out = append(out, segments(o))
	}
	return out
}

func mentionsField(g seg, name string) bool {
	var in func(t *term) bool
	in = func(t *term) bool {
		if t.op == "field" && t.lit == name {
			return true
		}
		for _, a := range t.args {
			if in(a) {
				return true
			}
		}
		return false
	}
	for _, p := range g.parts {
		if in(p) {
			return true
		}
	}
	return false
}

func renderSegs(segs []seg) string {
	var out []string
	for _, g := range segs {
		if l, ok := g.lit(); ok {
			out = append(out, fmt.Sprintf("%q", l))
		} else {
			out = append(out, "<"+g.String()+">")
		}
	}
	return strings.Join(out, " / ")
}

var foldings = []string{"strings.ToLower", "strings.ToUpper", "strings.TrimPrefix"}

func (sc *schema) folds(g seg) map[string]bool {
	out := map[string]bool{}
	for _, p := range g.parts {
		sc.k.transforms(p, out, 0)
	}
	return out
}

// opaque tells whether a segment is a key that was itself read from the store.
func opaque(g seg) bool {
	if len(g.parts) != 1 {
		return false
	}
	t := g.parts[0]
	if t.val == nil {
		return false
	}
	n, ok := t.val.Type().(*types.Named)
	return ok && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) && t.op != "lit"
}

// matches compares the key of a read or a delete with the keys written.
func (sc *schema) matches(s *dbSite, k []seg, w *written) string {
	for n, g := range k {
		last := n == len(k)-1
		if last && opaque(g) && w.main {
			return ""
		}
		if n >= len(w.segs) {
			if last && s.op == "PrefixStream" {
				if l, ok := g.lit(); ok && l == "" && n == len(w.segs) {
					return "the key has nothing after its last part, so that only longer keys are found"
				}
			}
			return fmt.Sprintf("the key has %d parts, %d are looked for", len(w.segs), len(k))
		}
		l, isLit := g.lit()
		wl, wLit := w.segs[n].lit()
		if s.op == "PrefixStream" && last {
			if isLit && l == "" {
				continue
			}
			if wLit && isLit && strings.HasPrefix(wl, l) {
				continue
			}
			tail := ""
			if p := g.parts[len(g.parts)-1]; p.op == "lit" {
				tail = p.lit
			}
			if !wLit && (strings.HasSuffix(tail, "/") || strings.HasSuffix(tail, "\\")) {
				continue
			}
			if w.index {
				continue
			}
			if !wLit {
				if b := boundary(s, g); b {
					continue
				}
				return "the prefix does not end where a part of the key ends, so that entries whose part only starts with it are found too"
			}
			return fmt.Sprintf("the prefix looks for %s where %q is written", g, wl)
		}
		if wLit && (!isLit || l != wl) {
			return fmt.Sprintf("part %d of the key is written as %q and looked for as %s", n+1, wl, g)
		}
		if !wLit && !isLit {
			if p := named(g); p != "" && p != named(w.segs[n]) {
				return fmt.Sprintf("part %d of the key is looked for with %q in front", n+1, p)
			}
		}
		if !wLit && isLit {
			return fmt.Sprintf("part %d of the key is looked for as the constant %q", n+1, l)
		}
	}
	if s.op != "PrefixStream" && len(k) != len(w.segs) {
		return fmt.Sprintf("the key has %d parts, %d are looked for", len(w.segs), len(k))
	}
	return ""
}

// named is the word that a part of a key starts with.
func named(g seg) string {
	if len(g.parts) == 0 || g.parts[0].op != "lit" {
		return ""
	}
	l := g.parts[0].lit
	if strings.Contains(l, "://") || !strings.ContainsFunc(l, unicode.IsLetter) {
		return ""
	}
	return l
}

// boundary tells whether a computed prefix is known to end at a separator of
// namespaces: the value was tested for it before.
func boundary(s *dbSite, g seg) bool {
	// alternatives of the same key that end with the separator
	for _, k := range s.keys {
		o := k[len(k)-1]
		if len(o.parts) == len(g.parts)+1 && (seg{o.parts[:len(g.parts)]}).String() == g.String() {
			if p := o.parts[len(o.parts)-1]; p.op == "lit" && (p.lit == "\\" || p.lit == "/") {
				return true
			}
		}
	}
	return false
}

func rulesKeys(c *Ctx) {
	p := c.P
	sc := newSchema(c)
	if sc == nil {
		return
	}
	c.Rule("every kind of symbol has collections of its own, and a key that names the file it is from, with its parts apart")
	c.Rule("every lookup and every removal uses the database and a key of the shape the entries of the collection are written with: all parts, or whole leading parts, in the same order and spelled the same way")
	c.Rule("what is found under a collection is read as the kind that is written to it, and a search by name goes through the index of the kind it reads")

	// kinds
	for _, n := range p.NamedTypes() {
		k := sc.kinds[n]
		if k == nil {
			continue
		}
		name := typeName(n)
		c.Seen("kinds of symbols", name)
		if o := sc.byColl[k.coll]; o != nil {
			c.Report("shared/"+name, p.Pos(k.fn.Pos()), fmt.Sprintf("%s is kept in the same collection as %s", name, typeName(o.t)), nil)
		}
		sc.byColl[k.coll] = k
		if m := p.Method(n, "GetIndexCollection"); m != nil {
			for _, t := range sc.strOf(m) {
				if l, ok := segments(t)[0].lit(); ok {
					k.index = l
				}
			}
		}
		for _, key := range k.keys {
			uri := false
			for i, g := range key {
				if mentionsField(g, "URI") {
					uri = true
				}
				vars := 0
				apart := true
				for n, q := range g.parts {
					if q.op != "lit" {
						vars++
						if n > 0 && g.parts[n-1].op != "lit" {
							apart = false
						}
					}
				}
				if !apart && i < len(key)-1 {
					c.Report("apart/"+name, p.Pos(k.fn.Pos()), fmt.Sprintf("the key of %s joins two parts without a separator: %s", name, g), nil)
				}
				if vars == 0 {
					c.Report("constant/"+name, p.Pos(k.fn.Pos()), fmt.Sprintf("a part of the key of %s does not depend on the symbol: %s", name, renderSegs(key)), nil)
				}
			}
			if !uri {
				c.Report("file/"+name, p.Pos(k.fn.Pos()), fmt.Sprintf("the key of %s does not name its file, the same name in another file overwrites it", name), nil)
			}
		}
	}
	// collections
	users := map[string]string{}
	collections := map[string]bool{}
	for _, w := range sc.written {
		who := w.coll
		if w.owner != nil {
			who = typeName(w.owner)
			if w.index {
				who += " index"
			}
		}
		id := w.db + "/" + w.coll
		if o, ok := users[id]; ok && o != who {
			c.Report("shared/"+w.coll, p.InstrPos(w.site.in), fmt.Sprintf("the collection %q of %s is used by %s and %s", w.coll, w.db, o, who), nil)
		}
		users[id] = who
		collections[w.coll] = true
		c.Seen("collections", id)
	}
	for _, s := range sc.all {
		for _, k := range s.keys {
			if s.coll != "" || len(k[0].parts) < 2 || k[0].parts[0].op != "lit" {
				continue
			}
			if l := k[0].parts[0].lit; collections[l] {
				c.Report("joined/"+shortFn(s.in.Parent())+"/"+l, p.InstrPos(s.in), fmt.Sprintf("%s joins the collection %q and a part of the key without a separator", shortFn(s.in.Parent()), l), []string{s.fr.String()})
			}
		}
	}
	// lookups
	readers := map[*ssa.Function]*types.Named{}
	for _, e := range codedTypes(p) {
		for _, r := range e.readers {
			readers[r] = e.t
		}
	}
	for _, s := range sc.all {
		if s.op == "Put" || s.coll == "" {
			if s.op != "Put" {
				c.Seen("keys taken from the store", p.InstrPos(s.in))
			}
			continue
		}
		c.Seen("lookups and removals", fmt.Sprintf("%s %s in %s", s.op, s.coll, shortFn(s.in.Parent())))
		sc.lookup(c, s)
		if k := sc.byColl[s.coll]; k != nil && s.op != "Delete" {
			got := sc.readAs(s, readers)
			for _, n := range sortedNamed(got) {
				c.Count("entries read as their kind", 1)
				if n != k.t {
					c.Report("kind/"+shortFn(s.in.Parent())+"/"+s.coll, p.InstrPos(s.in), fmt.Sprintf("%s reads an entry of %s as %s", shortFn(s.in.Parent()), typeName(k.t), typeName(n)), nil)
				}
			}
			if len(got) == 0 {
				c.Count("entries not read", 1)
			}
		}
		if sc.index[s.coll] && s.op == "PrefixStream" {
			sc.search(c, s)
		}
	}
	sc.splits(c)
	c.AtLeast("kinds of symbols", 10)
	c.AtLeast("collections", 20)
	c.AtLeast("lookups and removals", 40)
	c.AtLeast("entries read as their kind", 20)
	c.AtLeast("searches through an index", 8)
}

func sortedNamed(m map[*types.Named]bool) []*types.Named {
	var out []*types.Named
	for n := range m {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (sc *schema) lookup(c *Ctx, s *dbSite) {
	p := c.P
	fn := shortFn(s.in.Parent())
	var here []*written
	other := ""
	for _, w := range sc.written {
		if w.coll != s.coll {
			continue
		}
		if w.db != s.db {
			other = w.db
			continue
		}
		here = append(here, w)
	}
	if len(here) == 0 {
		what := "nothing is ever written to it"
		if other != "" {
			what = "it is written to " + other
		}
		c.Report("nowhere/"+fn+"/"+s.coll+"/"+s.db, p.InstrPos(s.in), fmt.Sprintf("%s uses the collection %q of %s, but %s", fn, s.coll, s.db, what), []string{s.fr.String()})
		return
	}
	for _, k := range s.keys {
		if emptyOf(k, s.keys) {
			continue
		}
		why := ""
		var match []*written
		for _, w := range here {
			if r := sc.matches(s, k[1:], w); r == "" {
				match = append(match, w)
			} else if why == "" {
				why = r
			}
		}
		if len(match) == 0 {
			c.Report("shape/"+fn+"/"+s.coll, p.InstrPos(s.in), fmt.Sprintf("%s looks for %s in %q: %s", fn, renderSegs(k[1:]), s.coll, why), []string{"written as " + renderSegs(here[0].segs)})
			continue
		}
		// spelling
		for n := range k[1:] {
			if opaque(k[1+n]) {
				continue
			}
			if _, lit := k[1+n].lit(); lit {
				continue
			}
			want := map[string]bool{}
			for _, w := range match {
				if n < len(w.segs) {
					for f := range sc.folds(w.segs[n]) {
						want[f] = true
					}
				}
			}
			if s.op == "PrefixStream" && n == len(k)-2 && !sc.index[s.coll] {
				continue // an incomplete part
			}
			c.Count("parts of keys compared", 1)
			sc.spelling(c, s, s.fr, n, want, 0)
		}
	}
}

// emptyOf tells whether a key is another one with nothing in one of its parts:
// whether that part is there is decided by a test.
func emptyOf(k []seg, keys [][]seg) bool {
	for n := 1; n < len(k)-1; n++ {
		if l, ok := k[n].lit(); !ok || l != "" {
			continue
		}
		for _, o := range keys {
			if len(o) != len(k) {
				continue
			}
			if _, lit := o[n].lit(); !lit {
				return true
			}
		}
	}
	return false
}

// spelling compares how a part of the key is spelled, in every context it
// comes from.
func (sc *schema) spelling(c *Ctx, s *dbSite, fr *kframe, n int, want map[string]bool, depth int) {
	got := map[string]bool{}
	param := false
	for _, a := range sc.at(fr, s.in) {
		if a.coll != s.coll {
			continue
		}
		for _, k := range a.keys {
			if 1+n < len(k) {
				for f := range sc.folds(k[1+n]) {
					got[f] = true
				}
				for _, q := range k[1+n].parts {
					if q.op == "param" {
						param = true
					}
				}
			}
		}
	}
	bad := ""
	for _, f := range foldings {
		if want[f] && !got[f] {
			bad = fmt.Sprintf("is not spelled with %s as when it is written", f)
		}
		if !want[f] && got[f] && f != "strings.TrimPrefix" {
			bad = fmt.Sprintf("is spelled with %s, but not when it is written", f)
		}
	}
	if param && depth < 4 {
		ups := sc.k.expand(fr)
		if len(ups) > 0 && len(ups) <= 80 {
			for _, u := range ups {
				sc.spelling(c, s, u, n, want, depth+1)
			}
			return
		}
	}
	if bad != "" && (!param || !strings.HasPrefix(bad, "is not")) {
		fn := shortFn(s.in.Parent())
		c.Report(fmt.Sprintf("spelling/%s/%s/%d", fn, s.coll, n), sc.p.InstrPos(s.in), fmt.Sprintf("%s: part %d of the key in %q %s", fn, n+1, s.coll, bad), []string{fr.String()})
	}
}

// readAs finds the types that are read from what a lookup gives.
func (sc *schema) readAs(s *dbSite, readers map[*ssa.Function]*types.Named) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	if s.op == "Get" {
		if v, ok := s.in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
					sc.flow(s.fr, e, readers, out, map[string]bool{})
				}
			}
		}
		return out
	}
	for _, f := range sc.iterators(s) {
		for _, q := range f.fn.Params {
			sc.flow(f, q, readers, out, map[string]bool{})
		}
	}
	return out
}

// iterators are the functions a stream hands its entries to.
func (sc *schema) iterators(s *dbSite) []*kframe {
	var out []*kframe
	for _, a := range s.in.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		for _, t := range alternatives(sc.k.eval(s.fr, a)) {
			if t.op == "func" && len(t.fn.Blocks) > 0 {
				f := &kframe{fn: t.fn, n: s.fr.n}
				if t.fn.Parent() != nil {
					f.lex = t.fr
				}
				out = append(out, f)
			}
		}
	}
	return out
}

func isIteratorType(t types.Type) bool {
	n := derefNamed(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+storagePkg && n.Obj().Name() == "Iterator"
}

// flow follows an entry to the functions that read it.
func (sc *schema) flow(fr *kframe, v ssa.Value, readers map[*ssa.Function]*types.Named, out map[*types.Named]bool, seen map[string]bool) {
	id := fmt.Sprintf("%p %p", fr, v)
	if seen[id] || v.Referrers() == nil || fr.n > 14 {
		return
	}
	seen[id] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Val == v {
				for _, l := range *i.Addr.Referrers() {
					if u, ok := l.(*ssa.UnOp); ok && u.X == i.Addr {
						sc.flow(fr, u, readers, out, seen)
					}
				}
			}
		case *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice:
			sc.flow(fr, r.(ssa.Value), readers, out, seen)
		case ssa.CallInstruction:
			com := i.Common()
			cv, _ := i.(ssa.Value)
			if com.IsInvoke() {
				if com.Value == v && isIteratorType(v.Type()) && com.Method.Name() == "Value" && cv != nil {
					sc.flow(fr, cv, readers, out, seen)
				}
				continue
			}
			f := com.StaticCallee()
			if f == nil {
				if t := sc.k.eval(fr, com.Value); t.op == "func" {
					f = t.fn
				}
			}
			if f == nil {
				continue
			}
			if t := readers[f]; t != nil {
				out[t] = true
				continue
			}
			if primitive(f) != "" {
				continue
			}
			if cv != nil && isCoder(cv.Type()) == "dec" {
				sc.flow(fr, cv, readers, out, seen)
				continue
			}
			if inRepo(f) && len(f.Blocks) > 0 && !sc.k.recursive(fr, f) {
				nf := sc.k.call(fr, f, i)
				for n, a := range com.Args {
					if a == v && n < len(f.Params) {
						sc.flow(nf, f.Params[n], readers, out, seen)
					}
				}
			}
		}
	}
}

// search checks that a search by name looks up entries of the kind whose
// index it goes through.
func (sc *schema) search(c *Ctx, s *dbSite) {
	found := false
	seen := map[*ssa.Function]bool{}
	var scan func(f *kframe, depth int)
	scan = func(f *kframe, depth int) {
		if depth > 6 || seen[f.fn] {
			return
		}
		seen[f.fn] = true
		for _, b := range f.fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if op, _, _, _ := access(ci); op == "Get" {
					for _, g := range sc.at(f, ci) {
						k := sc.byColl[g.coll]
						if k == nil {
							continue
						}
						found = true
						c.Count("searches through an index", 1)
						if k.index != s.coll {
							c.Report("index/"+shortFn(f.fn)+"/"+s.coll, sc.p.InstrPos(ci), fmt.Sprintf("%s looks up %s by what it finds in %q, the index of that kind is %q", shortFn(f.fn), typeName(k.t), s.coll, k.index), []string{s.fr.String()})
						}
					}
					continue
				}
				com := ci.Common()
				if com.IsInvoke() {
					continue
				}
				g := com.StaticCallee()
				var lex *kframe
				if g == nil {
					if t := sc.k.eval(f, com.Value); t.op == "func" {
						g, lex = t.fn, t.fr
					}
				}
				if g != nil && inRepo(g) && len(g.Blocks) > 0 && primitive(g) == "" && !sc.k.recursive(f, g) {
					nf := sc.k.call(f, g, ci)
					if lex != nil && g.Parent() != nil {
						nf.lex = lex
					}
					scan(nf, depth+1)
				}
			}
		}
	}
	for _, f := range sc.iterators(s) {
		scan(f, 0)
	}
	if !found {
		c.Count("searches that read no symbols", 1)
	}
}

// splits checks what is taken out of the keys that a stream gives.
func (sc *schema) splits(c *Ctx) {
	for _, s := range sc.all {
		if s.op != "PrefixStream" || s.coll == "" {
			continue
		}
		for _, f := range sc.iterators(s) {
			for _, b := range f.fn.Blocks {
				for _, i := range b.Instrs {
					ia, ok := i.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					t := sc.k.eval(f, ia.X)
					n := idxOf(sc.k.eval(f, ia.Index))
					if t.op != "call" || t.lit != "strings.Split" || len(t.args) != 2 || t.args[0].op != "invoke" || t.args[0].lit != "Key" {
						continue
					}
					c.Seen("keys taken apart", sc.p.InstrPos(i))
					if t.args[1].op != "lit" || t.args[1].lit != keySep {
						c.Report("split/"+shortFn(f.fn)+"/"+s.coll, sc.p.InstrPos(i), "a key is taken apart at something that is not the separator", nil)
						continue
					}
					for _, w := range sc.written {
						if w.coll != s.coll || w.db != s.db {
							continue
						}
						ok := false
						for _, k := range s.keys {
							if sc.matches(s, k[1:], w) == "" {
								ok = true
							}
						}
						if !ok {
							continue
						}
						var at int
						if _, err := fmt.Sscan(n, &at); err != nil || at < 1 || at > len(w.segs) {
							c.Report("split/"+shortFn(f.fn)+"/"+s.coll, sc.p.InstrPos(i), fmt.Sprintf("part %s of a key of %q is used, the key is %s", n, s.coll, renderSegs(w.segs)), nil)
							continue
						}
						if _, lit := w.segs[at-1].lit(); lit {
							c.Report("split/"+shortFn(f.fn)+"/"+s.coll, sc.p.InstrPos(i), fmt.Sprintf("part %d of a key of %q is a constant, the key is %s", at, s.coll, renderSegs(w.segs)), nil)
						}
					}
				}
			}
		}
	}
}

func init() {
	register("C13", "Symbolic evaluation of every key that is written to, looked up in or deleted from the databases, in every calling context, and comparison of the shapes.", nil, rulesKeys)
}
