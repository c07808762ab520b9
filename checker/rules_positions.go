package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// C25: a position is a line and how many UTF-16 units are before it there, as
// the protocol has it; an edit replaces what is between two positions.

// textChars has a character of each kind that is counted differently.
var textChars = []string{"a", "é", "漢", "😀", "\n", "\r"}

type positions struct {
	c                     *Ctx
	p                     *Program
	doc                   *types.Named
	create, at, offset    *ssa.Function
	text, clone, apply    *ssa.Function
	load                  *ssa.Function
	changes, posT, rangeT types.Type
	nodeRange             *ssa.Function
	lexTok                *types.Named
}

// clientPos is a position as the client counts it.
type clientPos struct{ line, char int }

// clientLines is where the lines of a text begin and end, without their line
// breaks.
func clientLines(text string) (starts, ends []int) {
	starts = []int{0}
	for i := 0; i < len(text); i++ {
		switch {
		case text[i] == '\r' && i+1 < len(text) && text[i+1] == '\n':
			ends = append(ends, i)
			i++
			starts = append(starts, i+1)
		case text[i] == '\n' || text[i] == '\r':
			ends = append(ends, i)
			starts = append(starts, i+1)
		}
	}
	return starts, append(ends, len(text))
}

func units(s string) int { return len(utf16.Encode([]rune(s))) }

// clientBounds are the offsets that a client has a position for, with it.
func clientBounds(text string) (offsets []int, at []clientPos) {
	starts, ends := clientLines(text)
	for l := range starts {
		for o := starts[l]; o <= ends[l]; o++ {
			if o == len(text) || utf8.RuneStart(text[o]) {
				offsets = append(offsets, o)
				at = append(at, clientPos{l, units(text[starts[l]:o])})
			}
		}
	}
	return
}

func (s *positions) find() bool {
	p := s.p
	s.doc = p.Named("analysis", "Document")
	if s.doc == nil {
		s.c.Undecided("documents are not found")
		return false
	}
	s.create = p.Func("analysis", "NewDocument")
	s.offset = p.Method(s.doc, "OffsetAtPosition")
	s.text = p.Method(s.doc, "GetText")
	s.clone = p.Method(s.doc, "CloneForMutate")
	s.apply = p.Method(s.doc, "ApplyChanges")
	s.load = p.Method(s.doc, "Load")
	s.nodeRange = p.Method(s.doc, "NodeRange")
	for _, q := range p.Prog.AllPackages() {
		if strings.HasSuffix(q.Pkg.Path(), "go-phpparser/lexer") {
			if o := q.Pkg.Scope().Lookup("Token"); o != nil {
				s.lexTok, _ = o.Type().(*types.Named)
			}
		}
	}
	if s.create == nil || s.offset == nil || s.text == nil || s.clone == nil || s.apply == nil || s.load == nil || s.nodeRange == nil || s.lexTok == nil {
		s.c.Undecided("what counts the positions of documents, or edits them, is not found")
		return false
	}
	s.posT = s.offset.Params[1].Type()
	s.changes = s.apply.Params[1].Type()
	s.rangeT = s.nodeRange.Signature.Results().At(0).Type()
	return true
}

// value is a structure with some of its fields.
func (s *positions) value(d *Dom, t types.Type, fields map[string]rv) rv {
	v := d.zero(t).(*rStruct)
	u := t.Underlying().(*types.Struct)
	for i := range v.f {
		if x, ok := fields[u.Field(i).Name()]; ok {
			v.f[i].v = x
		}
	}
	return v
}

func (s *positions) position(d *Dom, p clientPos) rv {
	return s.value(d, s.posT, map[string]rv{"Line": intOf(int64(p.line)), "Character": intOf(int64(p.char))})
}

// clientEdit replaces what is between two offsets, or all of a text.
type clientEdit struct {
	all        bool
	start, end clientPos
	text       string
}

func (e clientEdit) String() string {
	if e.all {
		return fmt.Sprintf("the text becomes %q", e.text)
	}
	return fmt.Sprintf("%d:%d to %d:%d becomes %q", e.start.line, e.start.char, e.end.line, e.end.char, e.text)
}

func (s *positions) change(d *Dom, e clientEdit) rv {
	t := s.changes.Underlying().(*types.Slice).Elem()
	u := t.Underlying().(*types.Struct)
	fields := map[string]rv{"Text": rStr(e.text)}
	if !e.all {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() != "Range" {
				continue
			}
			rt := derefType(u.Field(i).Type())
			fields["Range"] = d.cell(s.value(d, rt, map[string]rv{"Start": s.position(d, e.start), "End": s.position(d, e.end)}))
		}
	}
	return s.value(d, t, fields)
}

// run explores one reading of the source.
func (s *positions) run(what string, f func(d *Dom, read *[]string)) {
	d := newDom(s.p)
	d.MaxPaths, d.MaxSteps = 400, 4000000
	var read []string
	d.Hook = func(d *Dom, dc *DomCall) (rv, bool) {
		if dc.Fn == nil {
			return nil, false
		}
		pkg := pkgPathOf(dc.Fn)
		switch {
		case strings.HasSuffix(pkg, "go-phpparser/parser") && dc.Fn.Name() == "Parse":
			t, ok := bytesText(dc.Args[0])
			if !ok {
				d.fail("what is parsed is not known at %s", d.P.InstrPos(dc.Instr))
			}
			read = append(read, t)
			return d.NewObject(derefNamed(dc.Fn.Signature.Results().At(0).Type())), true
		case pkg == "time" || inRepo(dc.Fn) && dc.Fn.Name() == "TimeTrack":
			if dc.Fn.Signature.Results().Len() == 0 {
				return rNil{}, true
			}
		}
		return nil, false
	}
	why := d.Explore(func() rv {
		read = nil
		f(d, &read)
		return nil
	}, func(res DomResult) {
		if res.Panics != "" {
			s.say("panic", s.apply, "%s: it fails: %s", what, res.Panics)
		}
	})
	for f := range d.Funcs {
		s.c.Fn(f)
	}
	s.c.Count("instructions interpreted", d.Steps)
	if why != "" {
		s.c.Undecided("what becomes of %s is not known: %s", what, why)
	}
}

func (s *positions) say(key string, fn *ssa.Function, format string, args ...any) {
	s.c.Report(key, s.p.Pos(fn.Pos()), fmt.Sprintf(format, args...), nil)
}

func bytesText(v rv) (string, bool) {
	if _, ok := v.(rStr); ok {
		return "", false
	}
	return byteSlice(v)
}

// agree is whether a document that was brought to a text has it, and counts
// its positions the way the client does.
func (s *positions) agree(d *Dom, doc rv, text, how string) {
	got, ok := bytesText(d.Run(s.text, []rv{doc}, nil))
	if !ok {
		d.fail("the text of the document is not known")
	}
	if got != text {
		s.say("text", s.apply, "%s: the server has the text %q, the client has %q", how, got, text)
		return
	}
	offsets, at := clientBounds(text)
	s.c.Count("positions", len(offsets))
	for i, o := range offsets {
		// what is between an offset and the end of the text
		tok := d.NewObject(s.lexTok)
		d.Field(tok, "Offset").v = intOf(int64(o))
		d.Field(tok, "Length").v = intOf(int64(len(text) - o))
		ns := lines(d.Run(s.nodeRange, []rv{doc, rIface{types.NewPointer(s.lexTok), tok}}, nil))
		if len(ns) != 4 {
			d.fail("the range of a token is not known")
		}
		end := at[len(at)-1]
		if ns[0] != int64(at[i].line) || ns[1] != int64(at[i].char) {
			s.say("position", s.nodeRange, "%s: what begins at byte %d of %q is said to begin at %d:%d, to the client that is at %d:%d", how, o, text, ns[0], ns[1], at[i].line, at[i].char)
		}
		if ns[2] != int64(end.line) || ns[3] != int64(end.char) {
			s.say("end", s.nodeRange, "%s: what ends at byte %d of %q is said to end at %d:%d, to the client that is at %d:%d", how, len(text), text, ns[2], ns[3], end.line, end.char)
		}
		last := i+1 == len(at) || at[i+1].line != at[i].line
		asked := []clientPos{at[i]}
		if last {
			asked = append(asked, clientPos{at[i].line, at[i].char + 1}, clientPos{at[i].line, at[i].char + 9})
		}
		for n, q := range asked {
			v, ok := d.Run(s.offset, []rv{doc, s.position(d, q)}, nil).(rInt)
			if !ok || !v.konst() {
				d.fail("where a position is, is not known")
			}
			if int(v.c) != o {
				if n == 0 {
					s.say("offset", s.offset, "%s: %d:%d of %q is taken for byte %d, the client means byte %d", how, q.line, q.char, text, v.c, o)
				} else {
					s.say("beyond", s.offset, "%s: %d:%d of %q is beyond the end of its line, which is at byte %d, and is taken for byte %d", how, q.line, q.char, text, o, v.c)
				}
			}
		}
	}
	for _, q := range []clientPos{{at[len(at)-1].line + 1, 0}, {at[len(at)-1].line + 2, 3}} {
		v, ok := d.Run(s.offset, []rv{doc, s.position(d, q)}, nil).(rInt)
		if !ok || !v.konst() {
			d.fail("where a position is, is not known")
		}
		if int(v.c) != len(text) {
			s.say("below", s.offset, "%s: %d:%d is below the last line of %q, and is taken for byte %d instead of the end", how, q.line, q.char, text, v.c)
		}
	}
}

// texts are all texts of up to n characters.
func shortTexts(n int, chars []string) []string {
	all, last := []string{""}, []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, t := range last {
			for _, c := range chars {
				next = append(next, t+c)
			}
		}
		all = append(all, next...)
		last = next
	}
	return all
}

func (s *positions) opened(d *Dom, text string) rv {
	return d.Run(s.create, []rv{rStr("file:///a.php"), rByts(text)}, nil)
}

// edits makes changes to a text, one after the other or at once.
func (s *positions) edits(text string, es []clientEdit, want string, atOnce bool) {
	s.c.Count("edits", len(es))
	var how []string
	for _, e := range es {
		how = append(how, e.String())
	}
	what := fmt.Sprintf("%q, where %s", text, strings.Join(how, ", and then "))
	s.run(what, func(d *Dom, read *[]string) {
		doc := s.opened(d, text)
		d.Run(s.load, []rv{doc}, nil)
		var groups [][]clientEdit
		if atOnce {
			groups = [][]clientEdit{es}
		} else {
			for _, e := range es {
				groups = append(groups, []clientEdit{e})
			}
		}
		old := doc
		for _, g := range groups {
			var cs []rv
			for _, e := range g {
				cs = append(cs, s.change(d, e))
			}
			doc = d.Run(s.clone, []rv{doc}, nil)
			d.Run(s.apply, []rv{doc, d.Slice(cs...)}, nil)
			d.Run(s.load, []rv{doc}, nil)
		}
		s.agree(d, doc, want, what)
		if n := len(*read); n == 0 || (*read)[n-1] != want {
			s.say("symbols", s.apply, "%s: the symbols of the document are not read from %q", what, want)
		}
		if t, ok := bytesText(d.Run(s.text, []rv{old}, nil)); ok && t != text {
			s.say("old", s.apply, "%s: the text of the document that is replaced changes to %q", what, t)
		}
	})
}

// ranges are the ranges of a text, with the text when one is replaced.
func (s *positions) each(text string, inserts []string, f func(e clientEdit, want string)) {
	offsets, at := clientBounds(text)
	for i := range offsets {
		for j := i; j < len(offsets); j++ {
			for _, t := range inserts {
				f(clientEdit{start: at[i], end: at[j], text: t}, text[:offsets[i]]+t+text[offsets[j]:])
			}
		}
	}
}

// inPlace looks for what writes over a text that is still in use.
func (s *positions) inPlace() {
	fromText := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if r, ok := fromText[v]; ok {
			return r
		}
		fromText[v] = false
		r := false
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if fa, ok := v.X.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == s.doc {
					r = true
				}
			}
		case *ssa.Call:
			r = v.Call.StaticCallee() == s.text
		case *ssa.Slice:
			// a slice that ends where its capacity ends is copied by append
			r = v.Max == nil && from(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				r = r || from(e)
			}
		case *ssa.ChangeType:
			r = from(v.X)
		}
		fromText[v] = r
		return r
	}
	n := 0
	for _, f := range s.p.Repo {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					bi, ok := in.Call.Value.(*ssa.Builtin)
					if !ok || len(in.Call.Args) < 2 || !isBytes(in.Call.Args[0].Type()) {
						continue
					}
					if n++; (bi.Name() == "append" || bi.Name() == "copy") && from(in.Call.Args[0]) {
						s.c.Report("in place", s.p.InstrPos(in), fmt.Sprintf("%s writes over the text of a document, which others read", bi.Name()), nil)
					}
				case *ssa.Store:
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isBytes(ia.X.Type()) && from(ia.X) {
						s.c.Report("in place", s.p.InstrPos(in), "the text of a document, which others read, is written over", nil)
					}
				}
			}
		}
	}
	s.c.Count("appends and copies of bytes", n)
}

func rulesPositions(c *Ctx) {
	s := &positions{c: c, p: c.P}
	c.Rule("for every text over characters of one to four bytes and every kind of line break: the position of each character is its line and how many UTF-16 units are before it there; that position is taken for that character; what is beyond the end of a line is its end, below the last line is the end of the text (abstract interpretation of what counts positions)")
	c.Rule("for every range of such a text and what it is replaced with, at once and one after the other: the server has the client's text, counts its positions the same, and reads symbols from it; the text that was replaced stays as it is")
	if !s.find() {
		return
	}
	size, edited, inserted := 4, 2, 2
	if c.Tier == "thorough" {
		size, edited, inserted = 5, 3, 2
	}
	for _, text := range shortTexts(size, textChars) {
		c.Seen("text", text)
		s.run(fmt.Sprintf("%q", text), func(d *Dom, read *[]string) {
			s.agree(d, s.opened(d, text), text, "it is opened")
		})
	}
	inserts := shortTexts(inserted, textChars)
	short := shortTexts(1, textChars)
	for _, text := range shortTexts(edited, textChars) {
		s.each(text, inserts, func(e clientEdit, want string) {
			s.edits(text, []clientEdit{e}, want, true)
		})
	}
	for _, text := range short {
		for _, t := range shortTexts(2, textChars) {
			s.edits(text, []clientEdit{{all: true, text: t}}, t, true)
		}
		s.each(text, short, func(e clientEdit, want string) {
			s.each(want, short, func(f clientEdit, want string) {
				s.edits(text, []clientEdit{e, f}, want, true)
			})
		})
	}
	for _, text := range []string{"a", "é", "😀", "\r", "\n"} {
		for _, t := range []string{"", "a😀", "é\r\n", "\n\ra"} {
			s.each(t, []string{"", "a", "漢", "\n"}, func(f clientEdit, want string) {
				s.edits(text, []clientEdit{{all: true, text: t}, f}, want, true)
				s.edits(text, []clientEdit{{all: true, text: t}, f}, want, false)
			})
		}
	}
	s.inPlace()
	c.AtLeast("text", 1000)
	c.AtLeast("edits", 2000)
	c.AtLeast("positions", 10000)
}

func init() {
	register("C25", "positions and edits", nil, rulesPositions)
}
