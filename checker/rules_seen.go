package main

import (
	_ "embed" // of the places
	"fmt"
	"go/types"
	"sort"
	"strings"

	phplexer "github.com/john-nguyen09/go-phpparser/lexer"
	phpparser "github.com/john-nguyen09/go-phpparser/parser"
	phpphrase "github.com/john-nguyen09/go-phpparser/phrase"
	"golang.org/x/tools/go/ssa"
)

// seenPlaces are the places where an expression can stand, one per line; @ is
// where it stands, and what begins with # stands in a text of its own. Where only
// the name of a class can stand, the line begins with = and what is to be seen.
//
//go:embed places.txt
var seenPlaces string

// seenUse is an expression and what is used in it: % is a number.
type seenUse struct {
	text  string
	marks []seenMark
}

// seenMark is where in the expression something is used, and what is to be seen
// there.
type seenMark struct{ mark, typ string }

var seenUses = []seenUse{
	{"$p%", []seenMark{{"$p%", "Variable"}}},
	{"p%()", []seenMark{{"p%", "FunctionCall"}}},
	{"new P%", []seenMark{{"P%", "ClassTypeDesignator"}}},
	{"new P%($q%)", []seenMark{{"P%", "ClassTypeDesignator"}, {"$q%", "Variable"}}},
	{"P%::q%()", []seenMark{{"P%", "ClassAccess"}, {"q%", "ScopedMethodAccess"}}},
	{"Define::q%()", []seenMark{{"Define", "ClassAccess"}, {"q%", "ScopedMethodAccess"}}},
	{"P%::Q%", []seenMark{{"P%", "ClassAccess"}, {"Q%", "ScopedConstantAccess"}}},
	{"P%::$q%", []seenMark{{"P%", "ClassAccess"}, {"$q%", "ScopedPropertyAccess"}}},
	{"$o%->p%($q%)", []seenMark{{"p%", "MethodAccess"}, {"$o%", "Variable"}, {"$q%", "Variable"}}},
	{"$o%->p%", []seenMark{{"p%", "PropertyAccess"}, {"$o%", "Variable"}}},
	{"P%", []seenMark{{"P%", "ConstantAccess"}}},
	{"o%(p%(), $q%)", []seenMark{{"o%", "FunctionCall"}, {"p%", "FunctionCall"}, {"$q%", "Variable"}}},
	{"$o%[p%()]", []seenMark{{"$o%", "Variable"}, {"p%", "FunctionCall"}}},
	{"function() { p%($q%); }", []seenMark{{"p%", "FunctionCall"}, {"$q%", "Variable"}}},
	{"$o%->q%()->p%()", []seenMark{{"$o%", "Variable"}, {"q%", "MethodAccess"}, {"p%", "MethodAccess"}}},
	{"$o%->q%->p%", []seenMark{{"$o%", "Variable"}, {"q%", "PropertyAccess"}, {"p%", "PropertyAccess"}}},
	{"$p% = $q%", []seenMark{{"$p%", "Variable"}, {"$q%", "Variable"}}},
	{"$o%->q% = $p%", []seenMark{{"$o%", "Variable"}, {"q%", "PropertyAccess"}, {"$p%", "Variable"}}},
	{"$p%['a']", []seenMark{{"$p%", "Variable"}}},
	{`P%\Q::f()`, []seenMark{{`P%\Q`, "ClassAccess"}}},
	{`\p%()`, []seenMark{{`\p%`, "FunctionCall"}}},
	{"[$p%, 'a' => $q%]", []seenMark{{"$p%", "Variable"}, {"$q%", "Variable"}}},
	{"$p% + $q%", []seenMark{{"$p%", "Variable"}, {"$q%", "Variable"}}},
}

// seen is what C19 knows.
type seen struct {
	*scopes
	traverse *ssa.Function
	n        int
}

// seenHole is a place that is filled.
type seenHole struct {
	place, filled string
	start, end    int
	marks         []seenSpot
}

type seenSpot struct {
	name, typ string
	at        int
}

// seenText is a text with places that are filled.
type seenText struct {
	b     strings.Builder
	holes []*seenHole
}

func newSeenText() *seenText {
	t := &seenText{}
	t.b.WriteString("<?php\n")
	return t
}

// add fills a place.
func (t *seenText) add(place string, u seenUse, n int) {
	fill := func(s string) string { return strings.ReplaceAll(s, "%", fmt.Sprint(n)) }
	hole := strings.LastIndex(place, "@")
	t.b.WriteString(place[:hole])
	h := &seenHole{place: place, filled: fill(u.text), start: t.b.Len()}
	for _, m := range u.marks {
		name := fill(m.mark)
		h.marks = append(h.marks, seenSpot{name, m.typ, h.start + strings.LastIndex(h.filled, name)})
	}
	t.b.WriteString(h.filled)
	h.end = t.b.Len()
	t.b.WriteString(place[hole+1:])
	t.b.WriteString("\n")
	t.holes = append(t.holes, h)
}

// valid tells whether the parser reads a text without errors, with what is used
// as tokens of its own.
func (t *seenText) valid() (*phpphrase.Phrase, bool) {
	root := phpparser.Parse([]byte(t.b.String()))
	ok := true
	starts := map[int]bool{}
	var walk func(n phpphrase.AstNode)
	walk = func(n phpphrase.AstNode) {
		switch n := n.(type) {
		case *phplexer.Token:
			starts[n.Offset] = true
		case *phpphrase.Phrase:
			for _, ch := range n.Children {
				walk(ch)
			}
		default:
			ok = false
		}
	}
	walk(root)
	for _, h := range t.holes {
		for _, m := range h.marks {
			if !starts[m.at] {
				ok = false
			}
		}
	}
	return root, ok
}

// seenNode is a phrase of a tree that is read.
type seenNode struct {
	cell       *rCell
	typ        string
	start, end int
	parent     *seenNode
	by         *ssa.Function // what has read it
}

type seenRun struct {
	*scopeRun
	nodes []*seenNode
	of    map[*rCell]*seenNode
}

// tree is a tree that the parser has made.
func (r *seenRun) tree(n phpphrase.AstNode, parent *seenNode) rv {
	switch n := n.(type) {
	case *phplexer.Token:
		t := r.d.NewObject(r.token)
		r.d.Field(t, "Type").v = r.konst(r.lexer, n.Type.String())
		r.d.Field(t, "Offset").v = intOf(int64(n.Offset))
		r.d.Field(t, "Length").v = intOf(int64(n.Length))
		for p := parent; p != nil; p = p.parent {
			if p.start < 0 {
				p.start = n.Offset
			}
			p.end = n.Offset + n.Length
		}
		return rIface{types.NewPointer(r.token), t}
	case *phpphrase.Phrase:
		me := &seenNode{typ: n.Type.String(), start: -1, parent: parent}
		me.cell = r.d.NewObject(r.phrase)
		r.nodes = append(r.nodes, me)
		r.of[me.cell] = me
		var ch []rv
		for _, k := range n.Children {
			ch = append(ch, r.tree(k, me))
		}
		r.d.Field(me.cell, "Type").v = r.konst(r.phrases, n.Type.String())
		r.d.Field(me.cell, "Children").v = r.d.Slice(ch...)
		return rIface{types.NewPointer(r.phrase), me.cell}
	}
	r.d.fail("the syntax tree has a %T", n)
	return nil
}

// culprit is what has read the innermost phrase around a place that is read.
func (r *seenRun) culprit(at int) (fn *ssa.Function, in, of string) {
	best := map[*seenNode]bool{}
	for _, n := range r.nodes {
		if n.start <= at && at < n.end {
			best[n] = true
		}
	}
	// the path from the root
	var path []*seenNode
	for _, n := range r.nodes {
		if best[n] {
			path = append(path, n)
		}
	}
	for i, n := range path {
		if n.by != nil {
			fn, of = n.by, n.typ
			in = n.typ
			if i+1 < len(path) {
				in = path[i+1].typ
			}
		}
	}
	return fn, in, of
}

// read reads a text and compares what is seen with what is used.
func (s *seen) read(t *seenText) {
	c := s.c
	root, ok := t.valid()
	if !ok {
		c.Undecided("a text of valid statements is not valid")
		return
	}
	text := t.b.String()
	r := &seenRun{scopeRun: &scopeRun{scopes: s.scopes, d: newDom(s.p)}}
	d := r.d
	d.MaxPaths, d.MaxSteps = 16, 60000000
	type found struct {
		typ        string
		start, end int64
	}
	var got []found
	placeholder := s.p.Func("", "main")
	d.Hook = func(d *Dom, dc *DomCall) (rv, bool) {
		if dc.Fn == nil {
			return nil, false
		}
		if dc.Fn == placeholder {
			i, ok := dc.Args[0].(rIface)
			if !ok {
				d.fail("a symbol of the document is not known")
			}
			if cell, ok := i.v.(*rCell); ok {
				if loc := d.locationOf(cell); loc != nil {
					if st, en, ok := r.span(loc); ok {
						got = append(got, found{derefNamed(i.t).Obj().Name(), st, en})
					}
				}
			}
			return rTuple{}, true
		}
		if inRepo(dc.Fn) {
			if dc.Fn.Name() == "TimeTrack" {
				return rTuple{}, true
			}
			if recv := dc.Fn.Signature.Recv(); recv != nil && dc.Fn.Name() == "String" && derefNamed(recv.Type()) != nil && derefNamed(recv.Type()).Obj().Name() == "Position" {
				v := dc.Args[0]
				if c, ok := v.(*rCell); ok {
					v = c.v
				}
				return rStr(fmt.Sprint(lines(v))), true
			}
			for _, a := range dc.Args {
				if i, ok := a.(rIface); ok {
					a = i.v
				}
				if cell, ok := a.(*rCell); ok {
					if n := r.of[cell]; n != nil && inAnalysis(dc.Fn) && derefRecv(dc.Fn) != s.doc {
						n.by = dc.Fn
					}
				}
			}
			return nil, false
		}
		switch fnName(dc.Fn) {
		case "crypto/md5.Sum":
			return d.zero(dc.Fn.Signature.Results().At(0).Type()), true
		case "encoding/hex.EncodeToString":
			return rStr("00"), true
		}
		return nil, false
	}
	type finding struct {
		key, msg string
		fn       *ssa.Function
	}
	finds := map[string]finding{}
	say := func(h *seenHole, what string, at int, format string, a ...interface{}) {
		fn, in, of := r.culprit(at)
		key := what + "/" + h.place
		if _, ok := finds[key]; ok {
			return
		}
		msg := fmt.Sprintf(format, a...)
		if fn != nil {
			msg += fmt.Sprintf("; the %s is read by %s", of, shortFn(fn))
			if in != of {
				msg += fmt.Sprintf(", the %s in it is not", in)
			}
		}
		finds[key] = finding{key, msg, fn}
	}
	why := d.Explore(func() rv {
		r.nodes, r.of, got = nil, map[*rCell]*seenNode{}, nil
		r.text.Reset()
		r.text.WriteString(text)
		tree := r.tree(root, nil)
		doc := s.docOf(d, tree, text)
		r.call(s.begin, doc)
		r.call(s.traverse, doc, rFunc{fn: placeholder}, rNil{})
		sort.SliceStable(got, func(i, j int) bool { return got[i].start < got[j].start })
		for _, h := range t.holes {
			for _, m := range h.marks {
				c.Count("uses", 1)
				n := 0
				for _, g := range got {
					if g.typ == m.typ && int(g.start) == m.at && int(g.end) == m.at+len(m.name) {
						n++
					}
				}
				switch {
				case n == 0:
					say(h, "unseen", m.at, "%s of %q, where it stands in %q, is not seen as %s", m.name, h.filled, h.place, m.typ)
				case n > 1:
					say(h, "twice", m.at, "%s of %q, where it stands in %q, is seen %d times as %s", m.name, h.filled, h.place, n, m.typ)
				case m.typ == "Variable":
					c.Count("variables", 1)
					table := r.call(s.tableAt, doc, r.position(m.at))
					if _, none := r.call(s.tableGet, table, rStr(m.name), r.position(len(text)+1)).(rNil); none {
						say(h, "table", m.at, "the variable %s of %q, where it stands in %q, is not a variable of the function around it", m.name, h.filled, h.place)
					}
				}
			}
		}
		return nil
	}, func(res DomResult) {
		if res.Panics != "" {
			c.Report("panic", s.p.Pos(s.begin.Pos()), fmt.Sprintf("reading %q fails: %s", text, res.Panics), nil)
		}
	})
	for f := range d.Funcs {
		c.Fn(f)
	}
	c.Count("instructions interpreted", d.Steps)
	c.Count("texts", 1)
	if why != "" {
		c.Undecided("what is seen in %q is not known: %s", text[:min(len(text), 100)], why)
	}
	var keys []string
	for k := range finds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := finds[k]
		pos := "-"
		if f.fn != nil {
			pos = s.p.Pos(f.fn.Pos())
		}
		c.Report(f.key, pos, f.msg, nil)
	}
}

// docOf is a document with a syntax tree.
func (s *scopes) docOf(d *Dom, tree rv, text string) *rCell {
	doc := d.NewObject(s.doc)
	u := s.doc.Underlying().(*types.Struct)
	for i, f := range doc.v.(*rStruct).f {
		switch {
		case derefNamed(u.Field(i).Type()) == s.phrase:
			f.v = tree.(rIface).v
		case isBytes(u.Field(i).Type()):
			f.v = rByts(text)
		case types.Identical(u.Field(i).Type(), types.NewSlice(types.Typ[types.Int])):
			starts := []rv{intOf(0)}
			for i, b := range text {
				if b == '\n' {
					starts = append(starts, intOf(int64(i+1)))
				}
			}
			f.v = d.Slice(starts...)
		case u.Field(i).Name() == "hasChanges":
			f.v = rBool(true)
		}
	}
	if set := s.p.Method(s.doc, "SetText"); set != nil {
		d.Run(set, []rv{doc, rByts(text)}, nil)
	}
	return doc
}

// span is where a location begins and ends.
func (r *seenRun) span(v rv) (start, end int64, ok bool) {
	if c, is := v.(*rCell); is {
		v = c.v
	}
	ns := lines(v)
	if len(ns) != 4 {
		return 0, 0, false
	}
	offset := func(line, char int64) int64 {
		at := int64(0)
		text := r.text.String()
		for ; line > 0; line-- {
			at += int64(strings.IndexByte(text[at:], '\n')) + 1
		}
		return at + char
	}
	return offset(ns[0], ns[1]), offset(ns[2], ns[3]), true
}

func rulesSeen(c *Ctx) {
	p := c.P
	c.Rule("for every place where an expression can stand and every kind of expression that is valid there: what the expression uses is seen exactly once, as what it is and where it is, and its variables are variables of the function around the place (abstract interpretation of what reads a syntax tree)")
	s := &seen{scopes: &scopes{c: c, p: p}}
	if !s.find() {
		return
	}
	s.traverse = p.Func("analysis", "TraverseDocument")
	if s.traverse == nil {
		c.Undecided("what goes through the symbols of a document is not found")
		return
	}
	places := strings.Split(strings.TrimSpace(strings.ReplaceAll(seenPlaces, `\n`, "\r")), "\n")
	for i := range places {
		places[i] = strings.ReplaceAll(places[i], "\r", "\n")
	}
	var exprs []string
	names := map[string][]string{}
	for _, place := range places {
		if strings.HasPrefix(place, "=") {
			kind, at, _ := strings.Cut(place[1:], " ")
			names[kind] = append(names[kind], at)
		} else {
			exprs = append(exprs, place)
		}
	}
	for _, u := range seenUses {
		s.everywhere(exprs, u)
	}
	for _, kind := range sortedKeys(names) {
		for _, name := range []string{"P%", `\P%`, `P%\Q`, `\P%\Q`} {
			s.everywhere(names[kind], seenUse{name, []seenMark{{name, kind}}})
		}
	}
	places = exprs
	if c.Tier == "thorough" {
		// every kind of expression that has a place in every place
		done := map[string]bool{}
		for _, in := range places {
			if strings.HasPrefix(in, "#") || in == "@;" || strings.Count(in, ";") != 1 || !strings.HasSuffix(in, ";") || strings.Contains(in, "%") {
				continue
			}
			kind := seenKind(in)
			if kind == "" || done[kind] {
				continue
			}
			done[kind] = true
			c.Seen("kind of expression", kind)
			hole := strings.LastIndex(in, "@")
			s.everywhere(places, seenUse{in[:hole] + "$p%" + strings.TrimSuffix(in[hole+1:], ";"), []seenMark{{"$p%", "Variable"}}})
		}
	}
	c.AtLeast("place", 200)
	c.AtLeast("expression", len(seenUses))
	c.AtLeast("uses", 5000)
}

// seenKind is what kind of expression a statement is, and where its place is.
func seenKind(place string) string {
	t := newSeenText()
	t.add(place, seenUses[0], 0)
	root, ok := t.valid()
	if !ok {
		return ""
	}
	kind, at := "", t.holes[0].start
	var walk func(n phpphrase.AstNode, path string) bool
	walk = func(n phpphrase.AstNode, path string) bool {
		switch n := n.(type) {
		case *phplexer.Token:
			if n.Offset == at {
				kind = path
				return true
			}
		case *phpphrase.Phrase:
			for i, ch := range n.Children {
				if walk(ch, fmt.Sprintf("%s %s/%d", path, n.Type, i)) {
					return true
				}
			}
		}
		return false
	}
	walk(root, "")
	if !strings.Contains(kind, "ExpressionStatement") {
		return ""
	}
	if f := strings.Fields(kind); len(f) > 3 {
		return strings.Join(f[2:4], " ")
	}
	return kind
}

// everywhere reads an expression in all places.
func (s *seen) everywhere(places []string, u seenUse) {
	c := s.c
	t := newSeenText()
	for _, place := range places {
		alone := strings.HasPrefix(place, "#")
		place = strings.TrimPrefix(place, "#")
		s.n++
		one := newSeenText()
		one.add(place, u, s.n)
		if _, ok := one.valid(); !ok {
			c.Count("expressions that are not valid where they would stand", 1)
			continue
		}
		c.Seen("place", place)
		c.Seen("expression", u.text)
		if alone {
			s.read(one)
			continue
		}
		t.add(place, u, s.n)
		if len(t.holes) == seenBatch {
			s.read(t)
			t = newSeenText()
		}
	}
	if len(t.holes) > 0 {
		s.read(t)
	}
}

// seenBatch is how many statements are read together.
const seenBatch = 16

func init() {
	register("C19", "Abstract interpretation of the reading of every kind of expression in every place.", nil, rulesSeen)
}
