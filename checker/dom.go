package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Dom interprets functions over a finite abstract domain. A string is a
// sequence of characters and atoms, an atom (a private-use rune) stands for
// every word that is not empty and has none of the separators; lengths are
// linear in the lengths of the atoms; what is not known is forked on. One
// abstract input stands for all the inputs that are in the same relation.
type Dom struct {
	P *Program
	// Hook can replace a call.
	Hook func(d *Dom, c *DomCall) (rv, bool)
	// Enter tells whether the body of a function outside of the repository is
	// interpreted.
	Enter    func(fn *ssa.Function) bool
	MaxSteps int
	MaxPaths int
	// Backwards iterates maps in the opposite order.
	Backwards bool

	// Recv are the values received from channels, which are closed then.
	Recv []rv
	// Chans are the values that are received from channels by their names.
	Chans map[string][]rv
	// OnRecv is called before a value is received.
	OnRecv func(n int)
	// OnSend is called when a value is sent to a channel.
	OnSend func(at *ssa.Send, ch, v rv) bool

	Events []string
	Notes  map[string]string // per path
	Paths  int
	Steps  int
	Funcs  map[*ssa.Function]bool

	steps   int
	serial  int
	script  []bool
	at      int
	conds   map[string]bool
	trail   []string
	lazy    map[string]*rCell
	globals map[*ssa.Global]*rCell
	inited  map[*ssa.Package]bool
	bufs    map[*rCell]string
	depth   int
	recvd   int
	urls    map[*rCell]string
	maps    map[string]*rMap
	cmps    map[string]domCmp
	facts   []rInt // not negative
}

type domCmp struct {
	diff rInt
	op   token.Token
}

// DomCall is a call about to be made.
type DomCall struct {
	Instr ssa.CallInstruction
	Fn    *ssa.Function
	Iface *types.Func
	Args  []rv // with the receiver first
	Binds []rv // of the closure that is called
	Go    bool
}

func (c *DomCall) Name() string {
	if c.Fn != nil {
		return fnName(c.Fn)
	}
	if c.Iface != nil {
		return fnObjName(c.Iface)
	}
	return ""
}

type rv interface{}

type (
	rNil  struct{}
	rStr  string
	rByts string // []byte that is not written to
	rBool bool
	rInt  struct {
		c        int64
		pos, neg string
	}
	// rChar is a character of an atom
	rChar struct{ atom rune }
	rCond struct {
		id  string
		neg bool
	}
	rUnk struct {
		id     string
		t      types.Type
		nonNil bool
	}
	rIface struct {
		t types.Type
		v rv
	}
	rFunc struct {
		fn    *ssa.Function
		binds []rv
	}
	rTuple []rv
	rSlice struct {
		back     *[]*rCell
		off, len int
		cut      *int // the end of its capacity, if that is before the end of back
	}
)

// end is where the capacity of a slice ends.
func (s rSlice) end() int {
	if s.cut != nil {
		return *s.cut
	}
	return len(*s.back)
}

type rCell struct {
	id int
	v  rv
}

type rStruct struct {
	t types.Type
	f []*rCell
}

type rMap struct {
	id   int
	keys []rv
	vals []rv
}

type rIter struct {
	m    *rMap
	keys []rv
	s    string
	i    int
}

type domStop struct{ why string }
type domExc struct{ what string }

func isAtom(r rune) bool { return r >= 0xE000 && r <= 0xF8FF }

func atomRune(i int) rune { return rune(0xE000 + i) }

func newDom(p *Program) *Dom {
	return &Dom{P: p, MaxSteps: 400000, MaxPaths: 4096, Funcs: map[*ssa.Function]bool{}}
}

// DomResult is how one path ends.
type DomResult struct {
	Val    rv
	Panics string
	Trail  []string // what was assumed
}

// Explore interprets what run does on every path. It returns why it is
// incomplete, "" when it is not.
func (d *Dom) Explore(run func() rv, end func(DomResult)) (why string) {
	d.script = nil
	for {
		d.Paths++
		if d.MaxPaths > 0 && d.Paths > d.MaxPaths {
			return fmt.Sprintf("more than %d paths", d.MaxPaths)
		}
		d.at, d.steps, d.serial, d.depth, d.recvd = 0, 0, 0, 0, 0
		d.maps = map[string]*rMap{}
		d.Chans = map[string][]rv{}
		d.urls, d.cmps, d.facts = map[*rCell]string{}, map[string]domCmp{}, nil
		d.conds, d.lazy, d.trail = map[string]bool{}, map[string]*rCell{}, nil
		d.globals, d.inited, d.bufs = map[*ssa.Global]*rCell{}, map[*ssa.Package]bool{}, map[*rCell]string{}
		d.Events, d.Notes = nil, map[string]string{}
		res := DomResult{}
		stop := func() (stop string) {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case domStop:
						stop = r.why
					case domExc:
						res.Panics = r.what
					default:
						panic(r)
					}
				}
			}()
			res.Val = run()
			return ""
		}()
		d.Steps += d.steps
		if stop != "" {
			return stop
		}
		res.Trail = d.trail
		end(res)
		for len(d.script) > 0 && d.script[len(d.script)-1] {
			d.script = d.script[:len(d.script)-1]
		}
		if len(d.script) == 0 {
			return ""
		}
		d.script[len(d.script)-1] = true
	}
}

func (d *Dom) decide(id, pos string) bool {
	if v, ok := d.conds[id]; ok {
		return v
	}
	if d.at >= len(d.script) {
		d.script = append(d.script, false)
	}
	v := d.script[d.at]
	d.at++
	d.conds[id] = v
	if c, ok := d.cmps[id]; ok {
		op := c.op
		if !v {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ}[op]
		}
		switch op {
		case token.LSS:
			d.facts = append(d.facts, c.diff.minus().add(intOf(-1)))
		case token.LEQ:
			d.facts = append(d.facts, c.diff.minus())
		case token.GTR:
			d.facts = append(d.facts, c.diff.add(intOf(-1)))
		case token.GEQ:
			d.facts = append(d.facts, c.diff)
		case token.EQL:
			d.facts = append(d.facts, c.diff, c.diff.minus())
		}
	}
	d.trail = append(d.trail, fmt.Sprintf("%s: %s is %v", pos, id, v))
	return v
}

func (d *Dom) cell(v rv) *rCell {
	d.serial++
	return &rCell{id: d.serial, v: v}
}

func (d *Dom) fail(format string, a ...interface{}) {
	panic(domStop{fmt.Sprintf(format, a...)})
}

// Note records an event of the path.
func (d *Dom) Note(s string) { d.Events = append(d.Events, s) }

func (d *Dom) zero(t types.Type) rv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return rBool(false)
		case u.Info()&types.IsInteger != 0:
			return rInt{}
		case u.Info()&types.IsString != 0:
			return rStr("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return rNil{}
		}
		d.serial++
		return rUnk{id: fmt.Sprintf("zero%d", d.serial), t: t}
	case *types.Struct:
		s := &rStruct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, d.cell(d.zero(u.Field(i).Type())))
		}
		return s
	case *types.Array:
		back := []*rCell{}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			back = append(back, d.cell(d.zero(u.Elem())))
		}
		return rSlice{back: &back, len: len(back)}
	case *types.Tuple:
		var tu rTuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, d.zero(u.At(i).Type()))
		}
		return tu
	}
	return rNil{}
}

// Unknown is a value nothing is known about.
func (d *Dom) Unknown(id string, t types.Type) rv {
	if t == nil {
		return rUnk{id: id}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &rStruct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, d.cell(d.Unknown(id+"."+u.Field(i).Name(), u.Field(i).Type())))
		}
		return s
	case *types.Tuple:
		if u.Len() == 0 {
			return rNil{}
		}
		var tu rTuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, d.Unknown(fmt.Sprintf("%s#%d", id, i), u.At(i).Type()))
		}
		return tu
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return rCond{id: id}
		}
	}
	return rUnk{id: id, t: t}
}

// NewObject allocates a struct and gives its address. Fields are zero.
func (d *Dom) NewObject(t types.Type) *rCell { return d.cell(d.zero(t)) }

// Field is the cell of a field of the object at addr.
func (d *Dom) Field(addr *rCell, name string) *rCell {
	s, ok := addr.v.(*rStruct)
	if !ok {
		return nil
	}
	u := s.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.f[i]
		}
	}
	return nil
}

// Slice makes a slice of the values.
func (d *Dom) Slice(vs ...rv) rv {
	back := []*rCell{}
	for _, v := range vs {
		back = append(back, d.cell(v))
	}
	return rSlice{back: &back, len: len(back)}
}

// Elems are the values in a slice.
func (d *Dom) Elems(v rv) ([]rv, bool) {
	switch v := v.(type) {
	case rNil:
		return nil, true
	case rSlice:
		var out []rv
		for i := 0; i < v.len; i++ {
			out = append(out, (*v.back)[v.off+i].v)
		}
		return out, true
	}
	return nil, false
}

func copyVal(d *Dom, v rv) rv {
	switch v := v.(type) {
	case *rStruct:
		s := &rStruct{t: v.t}
		for _, c := range v.f {
			s.f = append(s.f, d.cell(copyVal(d, c.v)))
		}
		return s
	}
	return v
}

func (d *Dom) assign(c *rCell, v rv) {
	if s, ok := v.(*rStruct); ok {
		if o, ok := c.v.(*rStruct); ok && len(o.f) == len(s.f) {
			for i := range s.f {
				d.assign(o.f[i], s.f[i].v)
			}
			return
		}
		c.v = copyVal(d, s)
		return
	}
	c.v = v
}

func intOf(c int64) rInt { return rInt{c: c} }

func cancel(pos, neg []rune) (string, string) {
	var p, n []rune
	sort.Slice(pos, func(i, j int) bool { return pos[i] < pos[j] })
	sort.Slice(neg, func(i, j int) bool { return neg[i] < neg[j] })
	i, j := 0, 0
	for i < len(pos) || j < len(neg) {
		switch {
		case j >= len(neg) || i < len(pos) && pos[i] < neg[j]:
			p = append(p, pos[i])
			i++
		case i >= len(pos) || neg[j] < pos[i]:
			n = append(n, neg[j])
			j++
		default:
			i++
			j++
		}
	}
	return string(p), string(n)
}

func (a rInt) add(b rInt) rInt {
	p, n := cancel([]rune(a.pos+b.pos), []rune(a.neg+b.neg))
	return rInt{a.c + b.c, p, n}
}

func (a rInt) minus() rInt { return rInt{-a.c, a.neg, a.pos} }

func (a rInt) konst() bool { return a.pos == "" && a.neg == "" }

// bounds of the value, atoms have at least one character.
func (a rInt) bounds() (lo, hi int64, loInf, hiInf bool) {
	lo, hi = a.c, a.c
	if a.neg != "" {
		loInf = true
	} else {
		lo += int64(len([]rune(a.pos)))
	}
	if a.pos != "" {
		hiInf = true
	} else {
		hi -= int64(len([]rune(a.neg)))
	}
	return
}

// known are the bounds of a value with what is assumed.
func (d *Dom) known(a rInt) (lo, hi int64, loInf, hiInf bool) {
	lo, hi, loInf, hiInf = a.bounds()
	try := func(f rInt) {
		if l, _, inf, _ := a.add(f.minus()).bounds(); !inf && (loInf || l > lo) {
			lo, loInf = l, false
		}
		if l, _, inf, _ := a.minus().add(f.minus()).bounds(); !inf && (hiInf || -l < hi) {
			hi, hiInf = -l, false
		}
	}
	for i, f := range d.facts {
		try(f)
		for _, g := range d.facts[i+1:] {
			try(f.add(g))
			for _, h := range d.facts {
				if len(d.facts) < 12 {
					try(f.add(g).add(h))
				}
			}
		}
	}
	return
}

func lenOfStr(s string) rInt {
	var n int64
	var atoms []rune
	for _, r := range s {
		if isAtom(r) {
			atoms = append(atoms, r)
			n -= int64(len(string(r)))
		}
	}
	n += int64(len(s))
	sort.Slice(atoms, func(i, j int) bool { return atoms[i] < atoms[j] })
	return rInt{c: n, pos: string(atoms)}
}

// splitAt cuts a string at an offset, false when it is inside of an atom.
func splitAt(s string, at rInt) (string, string, bool) {
	if at.konst() && !strings.ContainsFunc(s, isAtom) {
		if at.c < 0 || at.c > int64(len(s)) {
			return "", "", false
		}
		return s[:at.c], s[at.c:], true
	}
	var n rInt
	if n == at {
		return "", s, true
	}
	for i, r := range s {
		n = n.add(lenOfStr(string(r)))
		if n == at {
			j := i + len(string(r))
			return s[:j], s[j:], true
		}
	}
	return "", "", false
}

// id identifies a value in assumptions.
func (d *Dom) id(v rv) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case rNil:
		return "nil"
	case rStr:
		return fmt.Sprintf("%q", showStr(string(v)))
	case rByts:
		return fmt.Sprintf("bytes%q", showStr(string(v)))
	case rBool:
		return fmt.Sprint(bool(v))
	case rInt:
		return fmt.Sprintf("%d%s-%s", v.c, showStr(v.pos), showStr(v.neg))
	case rChar:
		return "char of " + showStr(string(v.atom))
	case rCond:
		if v.neg {
			return "!" + v.id
		}
		return v.id
	case rUnk:
		return v.id
	case rIface:
		return "iface(" + d.id(v.v) + ")"
	case rFunc:
		return "func " + v.fn.Name()
	case *rCell:
		return fmt.Sprintf("&%d", v.id)
	case *rMap:
		return fmt.Sprintf("map%d", v.id)
	case rSlice:
		if v.off < len(*v.back) {
			return fmt.Sprintf("slice&%d[%d]", (*v.back)[v.off].id, v.len)
		}
		return fmt.Sprintf("slice[%d]", v.len)
	case *rStruct:
		var parts []string
		for _, c := range v.f {
			parts = append(parts, d.id(c.v))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case rTuple:
		var parts []string
		for _, c := range v {
			parts = append(parts, d.id(c))
		}
		return "(" + strings.Join(parts, ",") + ")"
	}
	return fmt.Sprintf("%T", v)
}

// showStr writes atoms as names.
func showStr(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if isAtom(r) {
			fmt.Fprintf(&sb, "<%c>", 'a'+(r-0xE000)%26)
		} else {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// eq compares: 1 equal, 0 different, -1 unknown.
func (d *Dom) eq(a, b rv) int {
	tri := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	if x, ok := a.(rIface); ok {
		if y, ok := b.(rIface); ok {
			if !types.Identical(x.t, y.t) {
				return 0
			}
			return d.eq(x.v, y.v)
		}
	}
	switch x := a.(type) {
	case rNil:
		switch y := b.(type) {
		case rNil:
			return 1
		case rUnk:
			if y.nonNil {
				return 0
			}
			return -1
		}
		return 0
	case rStr:
		if y, ok := b.(rStr); ok {
			return tri(x == y)
		}
	case rBool:
		if y, ok := b.(rBool); ok {
			return tri(x == y)
		}
	case rInt:
		if y, ok := b.(rInt); ok {
			lo, hi, li, hi2 := d.known(x.add(y.minus()))
			switch {
			case !li && !hi2 && lo == 0 && hi == 0:
				return 1
			case !li && lo > 0 || !hi2 && hi < 0:
				return 0
			}
			return -1
		}
		if y, ok := b.(rChar); ok {
			return d.eq(y, x)
		}
	case rChar:
		if y, ok := b.(rInt); ok && y.konst() {
			r := rune(y.c)
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r > 127) {
				return 0
			}
		}
		return -1
	case *rCell:
		switch y := b.(type) {
		case *rCell:
			return tri(x == y)
		case rNil:
			return 0
		}
	case *rStruct:
		if y, ok := b.(*rStruct); ok && len(x.f) == len(y.f) {
			res := 1
			for i := range x.f {
				switch d.eq(x.f[i].v, y.f[i].v) {
				case 0:
					return 0
				case -1:
					res = -1
				}
			}
			return res
		}
	case rUnk:
		if y, ok := b.(rUnk); ok && x.id == y.id {
			return 1
		}
		if _, ok := b.(rNil); ok {
			if x.nonNil {
				return 0
			}
			return -1
		}
	}
	if _, ok := b.(rNil); ok {
		switch a.(type) {
		case rCond, rUnk:
			return -1
		}
		return 0
	}
	if _, ok := b.(rUnk); ok {
		return -1
	}
	if _, ok := a.(rUnk); ok {
		return -1
	}
	return -1
}

func (d *Dom) eqCond(a, b rv) rv {
	switch d.eq(a, b) {
	case 1:
		return rBool(true)
	case 0:
		return rBool(false)
	}
	x, y := d.id(a), d.id(b)
	if y < x {
		x, y = y, x
	}
	return rCond{id: x + " == " + y}
}

func (d *Dom) truth(v rv, pos string) bool {
	switch v := v.(type) {
	case rBool:
		return bool(v)
	case rCond:
		return d.decide(v.id, pos) != v.neg
	case rUnk:
		return d.decide(v.id, pos)
	}
	d.fail("a condition that is a %T at %s", v, pos)
	return false
}

func notOf(v rv) rv {
	switch v := v.(type) {
	case rBool:
		return !v
	case rCond:
		return rCond{v.id, !v.neg}
	case rUnk:
		return rCond{v.id, true}
	}
	return v
}

func (d *Dom) constVal(c *ssa.Const) rv {
	if c.Value == nil {
		return d.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return rBool(constant.BoolVal(c.Value))
	case constant.String:
		return rStr(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return intOf(n)
		}
	}
	return rUnk{id: c.String(), t: c.Type(), nonNil: true}
}

type dframe struct {
	fn     *ssa.Function
	regs   map[ssa.Value]rv
	binds  []rv
	defers []func()
	pos    string
}

func (d *Dom) get(f *dframe, v ssa.Value) rv {
	switch v := v.(type) {
	case *ssa.Const:
		return d.constVal(v)
	case *ssa.Function:
		return rFunc{fn: v}
	case *ssa.Global:
		return d.global(v)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v && i < len(f.binds) {
				return f.binds[i]
			}
		}
		return rUnk{id: "free " + v.Name(), t: v.Type()}
	case *ssa.Builtin:
		return rUnk{id: v.Name(), t: v.Type()}
	}
	if r, ok := f.regs[v]; ok {
		return r
	}
	return rUnk{id: "undefined " + v.Name(), t: v.Type()}
}

func (d *Dom) global(g *ssa.Global) rv {
	if c := d.globals[g]; c != nil {
		return c
	}
	t := derefType(g.Type())
	if g.Pkg == nil || !isRepoPath(g.Pkg.Pkg.Path()) {
		c := d.cell(d.Unknown("global "+g.String(), t))
		d.globals[g] = c
		return c
	}
	c := d.cell(d.zero(t))
	d.globals[g] = c
	if !d.inited[g.Pkg] {
		d.inited[g.Pkg] = true
		if init := g.Pkg.Func("init"); init != nil {
			ev := d.Events
			d.Run(init, nil, nil)
			d.Events = ev
		}
	}
	return c
}

// Run interprets a function.
func (d *Dom) Run(fn *ssa.Function, args, binds []rv) rv {
	if fn.Blocks == nil {
		d.fail("%s has no body", fn)
	}
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 160 {
		d.fail("calls are nested too deep in %s", shortFn(fn))
	}
	d.Funcs[fn] = true
	f := &dframe{fn: fn, regs: map[ssa.Value]rv{}, binds: binds}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		} else {
			f.regs[p] = rUnk{id: "arg " + p.Name(), t: p.Type()}
		}
	}
	ran := false
	runDefers := func() {
		ran = true
		for len(f.defers) > 0 {
			g := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			g()
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(domExc); ok && !ran {
				runDefers()
			}
			panic(r)
		}
	}()
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		// phis are evaluated together
		n := 0
		var phis []rv
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, p := range b.Preds {
				if p == prev {
					phis = append(phis, d.get(f, phi.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n && i < len(phis); i++ {
			f.regs[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[n:] {
			d.steps++
			if d.steps > d.MaxSteps {
				d.fail("more than %d steps, in %s", d.MaxSteps, shortFn(fn))
			}
			switch in := in.(type) {
			case *ssa.If:
				if d.truth(d.get(f, in.Cond), d.P.InstrPos(in)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return rNil{}
				case 1:
					return copyVal(d, d.get(f, in.Results[0]))
				}
				var t rTuple
				for _, r := range in.Results {
					t = append(t, copyVal(d, d.get(f, r)))
				}
				return t
			case *ssa.Panic:
				panic(domExc{"panics at " + d.P.InstrPos(in)})
			case *ssa.RunDefers:
				runDefers()
			default:
				d.instr(f, in)
			}
		}
		if next == nil {
			d.fail("%s does not go on after block %d", shortFn(fn), b.Index)
		}
		prev, b = b, next
	}
}

func (d *Dom) exc(in ssa.Instruction, what string) {
	panic(domExc{what + " at " + d.P.InstrPos(in)})
}

// deref gives the cell of an address.
func (d *Dom) deref(in ssa.Instruction, v rv, t types.Type) *rCell {
	switch v := v.(type) {
	case *rCell:
		return v
	case rNil:
		d.exc(in, "nil pointer dereference")
	case rUnk:
		if !v.nonNil && d.truth(d.eqCond(v, rNil{}), d.P.InstrPos(in)) {
			d.exc(in, "nil pointer dereference")
		}
		if c := d.lazy[v.id]; c != nil {
			return c
		}
		c := d.cell(d.Unknown("*"+v.id, derefType(t)))
		d.lazy[v.id] = c
		return c
	}
	d.fail("an address that is a %T at %s", v, d.P.InstrPos(in))
	return nil
}

func (d *Dom) instr(f *dframe, in ssa.Instruction) {
	pos := d.P.InstrPos(in)
	unk := func(v ssa.Value) rv {
		return d.Unknown(fmt.Sprintf("%s@%s", v.Name(), pos), v.Type())
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.regs[i] = d.cell(d.zero(derefType(i.Type())))
	case *ssa.Store:
		c := d.deref(in, d.get(f, i.Addr), i.Addr.Type())
		d.assign(c, d.get(f, i.Val))
	case *ssa.UnOp:
		x := d.get(f, i.X)
		switch i.Op {
		case token.MUL:
			f.regs[i] = copyVal(d, d.deref(in, x, i.X.Type()).v)
		case token.NOT:
			f.regs[i] = notOf(x)
		case token.SUB:
			if n, ok := x.(rInt); ok {
				f.regs[i] = n.minus()
			} else {
				f.regs[i] = unk(i)
			}
		case token.ARROW:
			if id := d.id(x); d.Chans[id] != nil {
				v, more := rv(nil), len(d.Chans[id]) > 1
				if more {
					v, d.Chans[id] = d.Chans[id][0], d.Chans[id][1:]
				} else {
					// the last is what is received when it is closed
					v = d.Chans[id][0]
				}
				if i.CommaOk {
					f.regs[i] = rTuple{v, rBool(more)}
				} else {
					f.regs[i] = v
				}
				return
			}
			if d.OnRecv != nil {
				d.OnRecv(d.recvd)
			}
			ok := d.recvd < len(d.Recv)
			var v rv
			if ok {
				v = d.Recv[d.recvd]
				d.recvd++
			} else {
				v = d.zero(i.X.Type().Underlying().(*types.Chan).Elem())
			}
			if i.CommaOk {
				f.regs[i] = rTuple{v, rBool(ok)}
			} else if ok {
				f.regs[i] = v
			} else {
				panic(domExc{"waits for ever"})
			}
		default:
			f.regs[i] = unk(i)
		}
	case *ssa.FieldAddr:
		c := d.deref(in, d.get(f, i.X), i.X.Type())
		s, ok := c.v.(*rStruct)
		if !ok || i.Field >= len(s.f) {
			d.fail("a field of a %T at %s", c.v, pos)
		}
		f.regs[i] = s.f[i.Field]
	case *ssa.Field:
		s, ok := d.get(f, i.X).(*rStruct)
		if !ok {
			f.regs[i] = unk(i)
			break
		}
		f.regs[i] = s.f[i.Field].v
	case *ssa.IndexAddr:
		x := d.get(f, i.X)
		if c, ok := x.(*rCell); ok { // pointer to an array
			x = c.v
		}
		n, ok := d.get(f, i.Index).(rInt)
		switch s := x.(type) {
		case rSlice:
			if !ok || !n.konst() {
				d.fail("an index that is not known at %s", pos)
			}
			if n.c < 0 || n.c >= int64(s.len) {
				d.exc(in, "index out of range")
			}
			f.regs[i] = (*s.back)[s.off+int(n.c)]
		case rByts:
			f.regs[i] = d.cell(d.charAt(in, string(s), d.get(f, i.Index)))
		case rNil:
			d.exc(in, "index out of range")
		default:
			f.regs[i] = d.cell(d.Unknown(fmt.Sprintf("%s[%s]", d.id(x), d.id(d.get(f, i.Index))), derefType(i.Type())))
		}
	case *ssa.Index:
		switch s := d.get(f, i.X).(type) {
		case rStr:
			f.regs[i] = d.charAt(in, string(s), d.get(f, i.Index))
		case rSlice:
			n, ok := d.get(f, i.Index).(rInt)
			if !ok || !n.konst() || n.c < 0 || n.c >= int64(s.len) {
				d.fail("an index that is not known at %s", pos)
			}
			f.regs[i] = (*s.back)[s.off+int(n.c)].v
		default:
			f.regs[i] = unk(i)
		}
	case *ssa.Lookup:
		x := d.get(f, i.X)
		k := d.get(f, i.Index)
		switch m := x.(type) {
		case rStr:
			f.regs[i] = d.charAt(in, string(m), k)
		case *rMap, rNil:
			elem := i.Type()
			if i.CommaOk {
				elem = i.Type().(*types.Tuple).At(0).Type()
			}
			var val rv
			found := false
			if mm, ok := m.(*rMap); ok {
				for j, key := range mm.keys {
					if d.truth(d.eqCond(key, k), pos) {
						val, found = mm.vals[j], true
						break
					}
				}
			}
			if !found {
				val = d.zero(elem)
			}
			if i.CommaOk {
				f.regs[i] = rTuple{val, rBool(found)}
			} else {
				f.regs[i] = val
			}
		default:
			id := fmt.Sprintf("%s[%s]", d.id(x), d.id(k))
			f.regs[i] = d.Unknown(id, i.Type())
		}
	case *ssa.MapUpdate:
		m, ok := d.get(f, i.Map).(*rMap)
		if !ok {
			break
		}
		k, v := d.get(f, i.Key), d.get(f, i.Value)
		for j, key := range m.keys {
			if d.truth(d.eqCond(key, k), pos) {
				m.vals[j] = v
				return
			}
		}
		m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	case *ssa.MakeMap:
		d.serial++
		f.regs[i] = &rMap{id: d.serial}
	case *ssa.MakeSlice:
		n, ok := d.get(f, i.Len).(rInt)
		elem := i.Type().Underlying().(*types.Slice).Elem()
		if !ok || !n.konst() || n.c > 4096 {
			f.regs[i] = unk(i)
			break
		}
		if isBytes(i.Type()) && n.c == 0 {
			f.regs[i] = rByts("")
			break
		}
		back := []*rCell{}
		for j := int64(0); j < n.c; j++ {
			back = append(back, d.cell(d.zero(elem)))
		}
		f.regs[i] = rSlice{back: &back, len: len(back)}
	case *ssa.MakeChan:
		f.regs[i] = rUnk{id: "chan@" + pos, t: i.Type(), nonNil: true}
	case *ssa.MakeClosure:
		var binds []rv
		for _, b := range i.Bindings {
			binds = append(binds, d.get(f, b))
		}
		f.regs[i] = rFunc{i.Fn.(*ssa.Function), binds}
	case *ssa.MakeInterface:
		f.regs[i] = rIface{i.X.Type(), d.get(f, i.X)}
	case *ssa.ChangeInterface:
		f.regs[i] = d.get(f, i.X)
	case *ssa.ChangeType:
		v := d.get(f, i.X)
		if s, ok := v.(*rStruct); ok {
			n := copyVal(d, s).(*rStruct)
			n.t = i.Type()
			v = n
		}
		f.regs[i] = v
	case *ssa.Convert:
		f.regs[i] = d.convert(i, d.get(f, i.X), unk)
	case *ssa.BinOp:
		f.regs[i] = d.binop(i, d.get(f, i.X), d.get(f, i.Y), unk)
	case *ssa.Slice:
		f.regs[i] = d.slice(f, i, unk)
	case *ssa.Extract:
		switch t := d.get(f, i.Tuple).(type) {
		case rTuple:
			f.regs[i] = t[i.Index]
		case rUnk:
			f.regs[i] = d.Unknown(fmt.Sprintf("%s#%d", t.id, i.Index), i.Type())
		default:
			f.regs[i] = unk(i)
		}
	case *ssa.TypeAssert:
		d.assert(f, i)
	case *ssa.Range:
		switch m := d.get(f, i.X).(type) {
		case *rMap:
			keys := append([]rv(nil), m.keys...)
			if d.Backwards {
				for a, b := 0, len(keys)-1; a < b; a, b = a+1, b-1 {
					keys[a], keys[b] = keys[b], keys[a]
				}
			}
			f.regs[i] = &rIter{m: m, keys: keys}
		case rNil:
			f.regs[i] = &rIter{m: &rMap{}}
		case rStr:
			f.regs[i] = &rIter{s: string(m)}
		default:
			d.fail("iterates something unknown at %s", pos)
		}
	case *ssa.Next:
		it, ok := d.get(f, i.Iter).(*rIter)
		if !ok {
			d.fail("iterates something unknown at %s", pos)
		}
		if i.IsString {
			rs := []rune(it.s)
			if it.i >= len(rs) {
				f.regs[i] = rTuple{rBool(false), rInt{}, rInt{}}
				break
			}
			var ch rv = intOf(int64(rs[it.i]))
			if isAtom(rs[it.i]) {
				// a word is looked at through one of its characters
				ch = rChar{rs[it.i]}
			}
			f.regs[i] = rTuple{rBool(true), lenOfStr(string(rs[:it.i])), ch}
			it.i++
			break
		}
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			for j, key := range it.m.keys {
				if d.eq(key, k) == 1 {
					f.regs[i] = rTuple{rBool(true), k, it.m.vals[j]}
					return
				}
			}
		}
		f.regs[i] = rTuple{rBool(false), rNil{}, rNil{}}
	case *ssa.Call:
		f.regs[i] = d.call(f, i, false)
	case *ssa.Defer:
		c, fv := d.mkCall(f, i)
		f.defers = append(f.defers, func() { d.do(c, fv) })
	case *ssa.Go:
		d.call(f, i, true)
	case *ssa.Send:
		if d.OnSend != nil && d.OnSend(i, d.get(f, i.Chan), copyVal(d, d.get(f, i.X))) {
			return
		}
		d.Note("send " + d.id(d.get(f, i.Chan)))
	case *ssa.Select:
		d.fail("a select at %s", pos)
	default:
		if v, ok := in.(ssa.Value); ok {
			f.regs[v] = unk(v)
		}
	}
}

func (d *Dom) charAt(in ssa.Instruction, s string, at rv) rv {
	n, ok := at.(rInt)
	if !ok {
		return rUnk{id: fmt.Sprintf("%q[%s]", s, d.id(at))}
	}
	if lo, _, inf, _ := n.add(lenOfStr(s).minus()).bounds(); !inf && lo >= 0 {
		d.exc(in, "index out of range")
	}
	if _, hi, _, inf := n.bounds(); !inf && hi < 0 {
		d.exc(in, "index out of range")
	}
	if n.konst() && n.c >= 0 && n.c < int64(len(s)) && !strings.ContainsFunc(s, isAtom) {
		return intOf(int64(s[n.c]))
	}
	if _, rest, ok := splitAt(s, n); ok && rest != "" {
		r := []rune(rest)[0]
		if isAtom(r) {
			return rChar{r}
		}
		if r < 128 {
			return intOf(int64(r))
		}
	}
	// the last character of an atom
	if head, _, ok := splitAt(s, n.add(intOf(1))); ok && head != "" {
		rs := []rune(head)
		if r := rs[len(rs)-1]; isAtom(r) {
			return rChar{r}
		}
	}
	return rUnk{id: fmt.Sprintf("%q[%s]", showStr(s), d.id(at))}
}

// byteSlice is what is in bytes.
func byteSlice(v rv) (string, bool) {
	switch v := v.(type) {
	case rStr:
		return string(v), true
	case rByts:
		return string(v), true
	case rNil:
		return "", true
	case rSlice:
		b := make([]byte, v.len)
		for i := range b {
			n, ok := (*v.back)[v.off+i].v.(rInt)
			if !ok || !n.konst() || n.c < 0 || n.c > 255 {
				return "", false
			}
			b[i] = byte(n.c)
		}
		return string(b), true
	}
	return "", false
}

func (d *Dom) convert(i *ssa.Convert, x rv, unk func(ssa.Value) rv) rv {
	to, from := i.Type().Underlying(), i.X.Type().Underlying()
	switch {
	case isBytes(i.Type()):
		if s, ok := x.(rStr); ok {
			return rByts(s)
		}
	case isStringType(i.Type()):
		switch s := x.(type) {
		case rStr:
			return s
		case rByts:
			return rStr(s)
		case rNil:
			return rStr("")
		case rInt:
			if s.konst() {
				return rStr(string(rune(s.c)))
			}
		case rChar:
			return unk(i)
		case rSlice:
			if b, ok := byteSlice(s); ok && isBytes(i.X.Type()) {
				return rStr(b)
			}
			var sb strings.Builder
			for j := 0; j < s.len; j++ {
				n, ok := (*s.back)[s.off+j].v.(rInt)
				if !ok || !n.konst() {
					return unk(i)
				}
				sb.WriteRune(rune(n.c))
			}
			return rStr(sb.String())
		}
	default:
		if sl, ok := to.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				if s, ok := x.(rStr); ok && !strings.ContainsFunc(string(s), isAtom) {
					var rs []rv
					for _, r := range string(s) {
						rs = append(rs, intOf(int64(r)))
					}
					return d.Slice(rs...)
				}
			}
		}
		tb, ok1 := to.(*types.Basic)
		fb, ok2 := from.(*types.Basic)
		if ok1 && ok2 && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			return x
		}
	}
	return unk(i)
}

func (d *Dom) binop(i *ssa.BinOp, x, y rv, unk func(ssa.Value) rv) rv {
	switch i.Op {
	case token.EQL:
		return d.eqCond(x, y)
	case token.NEQ:
		return notOf(d.eqCond(x, y))
	}
	if a, ok := x.(rStr); ok {
		if b, ok := y.(rStr); ok {
			switch i.Op {
			case token.ADD:
				return a + b
			}
			return unk(i)
		}
	}
	if _, ok := i.Type().Underlying().(*types.Basic); ok && isStringType(i.Type()) && i.Op == token.ADD {
		return rUnk{id: d.id(x) + "+" + d.id(y), t: i.Type()}
	}
	if a, ok := x.(rChar); ok {
		_ = a
		if i.Op == token.LSS || i.Op == token.GTR || i.Op == token.LEQ || i.Op == token.GEQ {
			return rCond{id: d.id(x) + i.Op.String() + d.id(y)}
		}
	}
	a, ok1 := x.(rInt)
	b, ok2 := y.(rInt)
	if ok1 && ok2 {
		diff := a.add(b.minus())
		lo, hi, li, hinf := d.known(diff)
		cmp := func(yes, no bool) rv {
			if yes {
				return rBool(true)
			}
			if no {
				return rBool(false)
			}
			// conditions are written with one operator so that they are the same
			id := fmt.Sprintf("%s %s %s", d.id(a), i.Op, d.id(b))
			d.cmps[id] = domCmp{diff, i.Op}
			return rCond{id: id}
		}
		switch i.Op {
		case token.ADD:
			return a.add(b)
		case token.SUB:
			return diff
		case token.LSS:
			return cmp(!hinf && hi < 0, !li && lo >= 0)
		case token.LEQ:
			return cmp(!hinf && hi <= 0, !li && lo > 0)
		case token.GTR:
			return cmp(!li && lo > 0, !hinf && hi <= 0)
		case token.GEQ:
			return cmp(!li && lo >= 0, !hinf && hi < 0)
		}
		if a.konst() && b.konst() {
			switch i.Op {
			case token.MUL:
				return intOf(a.c * b.c)
			case token.QUO:
				if b.c != 0 {
					return intOf(a.c / b.c)
				}
			case token.REM:
				if b.c != 0 {
					return intOf(a.c % b.c)
				}
			case token.AND:
				return intOf(a.c & b.c)
			case token.OR:
				return intOf(a.c | b.c)
			case token.XOR:
				return intOf(a.c ^ b.c)
			case token.AND_NOT:
				return intOf(a.c &^ b.c)
			case token.SHL:
				if b.c < 62 {
					return intOf(a.c << uint(b.c))
				}
			case token.SHR:
				if b.c < 62 {
					return intOf(a.c >> uint(b.c))
				}
			}
		}
	}
	if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return rCond{id: fmt.Sprintf("%s %s %s", d.id(x), i.Op, d.id(y))}
	}
	return rUnk{id: fmt.Sprintf("(%s %s %s)", d.id(x), i.Op, d.id(y)), t: i.Type()}
}

func (d *Dom) slice(f *dframe, i *ssa.Slice, unk func(ssa.Value) rv) rv {
	x := d.get(f, i.X)
	if c, ok := x.(*rCell); ok {
		x = c.v
	}
	bound := func(v ssa.Value, def rInt) (rInt, bool) {
		if v == nil {
			return def, true
		}
		n, ok := d.get(f, v).(rInt)
		return n, ok
	}
	switch s := x.(type) {
	case rSlice:
		lo, ok1 := bound(i.Low, intOf(0))
		hi, ok2 := bound(i.High, intOf(int64(s.len)))
		if !ok1 || !ok2 || !lo.konst() || !hi.konst() {
			d.fail("the bounds of a slice are not known at %s", d.P.InstrPos(i))
		}
		max, ok3 := bound(i.Max, intOf(int64(s.end()-s.off)))
		if !ok3 || !max.konst() {
			d.fail("the capacity of a slice is not known at %s", d.P.InstrPos(i))
		}
		if lo.c < 0 || lo.c > hi.c || hi.c > max.c || int(max.c) > s.end()-s.off {
			d.exc(i, "slice bounds out of range")
		}
		end := s.off + int(max.c)
		return rSlice{back: s.back, off: s.off + int(lo.c), len: int(hi.c - lo.c), cut: &end}
	case rStr, rByts:
		str, bytes := "", false
		if b, ok := s.(rByts); ok {
			str, bytes = string(b), true
		} else {
			str = string(s.(rStr))
		}
		lo, ok1 := bound(i.Low, intOf(0))
		hi, ok2 := bound(i.High, lenOfStr(str))
		if ok1 && ok2 {
			if _, h, _, inf := hi.add(lo.minus()).bounds(); !inf && h < 0 {
				d.exc(i, "slice bounds out of range")
			}
			head, _, a := splitAt(str, hi)
			if a {
				if _, rest, b := splitAt(head, lo); b {
					if bytes {
						return rByts(rest)
					}
					return rStr(rest)
				}
			}
			if l, _, inf, _ := hi.add(lenOfStr(str).minus()).bounds(); !inf && l > 0 {
				d.exc(i, "slice bounds out of range")
			}
		}
		return rUnk{id: fmt.Sprintf("%s[%s:%s]", showStr(str), d.id(lo), d.id(hi)), t: i.Type()}
	case rNil:
		return rNil{}
	}
	return unk(i)
}

func (d *Dom) assert(f *dframe, i *ssa.TypeAssert) {
	x := d.get(f, i.X)
	pos := d.P.InstrPos(i)
	ok := false
	var val rv
	switch x := x.(type) {
	case rIface:
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(x.t, it)
			val = x
		} else {
			ok = types.Identical(x.t, i.AssertedType)
			val = x.v
		}
	case rNil:
	default:
		ok = d.decide(fmt.Sprintf("%s is a %s", d.id(x), types.TypeString(i.AssertedType, func(p *types.Package) string { return p.Name() })), pos)
		val = rUnk{id: d.id(x) + ".(" + typeName(i.AssertedType) + ")", t: i.AssertedType, nonNil: true}
		if _, isS := i.AssertedType.Underlying().(*types.Struct); isS {
			val = d.Unknown(d.id(x), i.AssertedType)
		}
	}
	if i.CommaOk {
		if !ok {
			val = d.zero(i.AssertedType)
		}
		f.regs[i] = rTuple{val, rBool(ok)}
		return
	}
	if !ok {
		d.exc(i, "type assertion fails")
	}
	f.regs[i] = val
}

func (d *Dom) mkCall(f *dframe, i ssa.CallInstruction) (*DomCall, rv) {
	cc := i.Common()
	c := &DomCall{Instr: i}
	if cc.IsInvoke() {
		c.Iface = cc.Method
		c.Args = append(c.Args, d.get(f, cc.Value))
	} else if fn := cc.StaticCallee(); fn != nil {
		c.Fn = fn
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, copyVal(d, d.get(f, a)))
	}
	var fv rv
	if !cc.IsInvoke() {
		fv = d.get(f, cc.Value)
	}
	return c, fv
}

func (d *Dom) call(f *dframe, i ssa.CallInstruction, isGo bool) rv {
	c, fv := d.mkCall(f, i)
	c.Go = isGo
	return d.do(c, fv)
}

func (d *Dom) do(c *DomCall, fv rv) rv {
	cc := c.Instr.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return d.builtin(c, b)
	}
	var binds []rv
	if c.Iface == nil && c.Fn == nil || c.Fn != nil {
		if fn, ok := fv.(rFunc); ok {
			c.Fn, binds = fn.fn, fn.binds
		}
	}
	if c.Iface != nil {
		switch r := c.Args[0].(type) {
		case rIface:
			if fn := d.P.Prog.LookupMethod(r.t, c.Iface.Pkg(), c.Iface.Name()); fn != nil {
				c.Fn = fn
				c.Args[0] = r.v
			}
		case rNil:
			if d.Hook != nil {
				if v, ok := d.Hook(d, c); ok {
					return v
				}
			}
			d.exc(c.Instr, "method of a nil interface")
		}
	}
	return d.Invoke(c, binds)
}

// Invoke makes a call whose callee has been found.
func (d *Dom) Invoke(c *DomCall, binds []rv) rv {
	c.Binds = binds
	if d.Hook != nil {
		if v, ok := d.Hook(d, c); ok {
			return v
		}
	}
	if c.Go {
		d.Note("go " + c.Name())
		return rNil{}
	}
	res := c.Instr.Common().Signature().Results()
	unknown := func() rv {
		d.serial++
		var t types.Type = res
		if res.Len() == 1 {
			t = res.At(0).Type()
		}
		return d.Unknown(fmt.Sprintf("%s@%s#%d", c.Name(), d.P.InstrPos(c.Instr), d.serial), t)
	}
	if c.Fn == nil {
		return unknown()
	}
	if v, ok := d.library(c); ok {
		return v
	}
	if c.Fn.Blocks != nil && (inRepo(c.Fn) || c.Fn.Synthetic != "" || d.Enter != nil && d.Enter(c.Fn)) {
		if c.Fn.Name() == "init" && len(c.Args) == 0 {
			return rNil{}
		}
		return d.Run(c.Fn, c.Args, binds)
	}
	return unknown()
}

// CallFunc calls a function value.
func (d *Dom) CallFunc(c *DomCall, fv rv, args ...rv) rv {
	f, ok := fv.(rFunc)
	if !ok {
		d.fail("a function that is not known is called by %s", c.Name())
	}
	return d.Run(f.fn, args, f.binds)
}

func (d *Dom) builtin(c *DomCall, b *ssa.Builtin) rv {
	a := c.Args
	call, _ := c.Instr.(ssa.Value)
	unknown := func() rv {
		d.serial++
		var t types.Type
		if call != nil {
			t = call.Type()
		}
		return d.Unknown(fmt.Sprintf("%s@%s#%d", b.Name(), d.P.InstrPos(c.Instr), d.serial), t)
	}
	if b.Name() == "ssa:wrapnilchk" {
		switch c.Args[0].(type) {
		case *rCell:
			return c.Args[0]
		case rNil:
			d.exc(c.Instr, "nil pointer dereference")
		}
	}
	switch b.Name() {
	case "len":
		switch s := a[0].(type) {
		case rStr:
			return lenOfStr(string(s))
		case rByts:
			return lenOfStr(string(s))
		case rSlice:
			return intOf(int64(s.len))
		case *rMap:
			return intOf(int64(len(s.keys)))
		case rNil:
			return intOf(0)
		case *rCell:
			if s, ok := s.v.(rSlice); ok {
				return intOf(int64(s.len))
			}
		}
		return rUnk{id: "len(" + d.id(a[0]) + ")", t: types.Typ[types.Int]}
	case "cap":
		if s, ok := a[0].(rSlice); ok {
			return intOf(int64(s.end() - s.off))
		}
	case "append":
		return d.append(c, unknown)
	case "copy":
		if b, ok := byteSlice(a[1]); ok && isBytes(c.Instr.Common().Args[0].Type()) {
			if dst, ok := a[0].(rSlice); ok && !strings.ContainsFunc(b, isAtom) {
				n := min(dst.len, len(b))
				for i := 0; i < n; i++ {
					d.assign((*dst.back)[dst.off+i], intOf(int64(b[i])))
				}
				return intOf(int64(n))
			}
		}
		dst, ok1 := a[0].(rSlice)
		src, ok2 := a[1].(rSlice)
		if ok1 && ok2 {
			n := dst.len
			if src.len < n {
				n = src.len
			}
			var vs []rv
			for i := 0; i < n; i++ {
				vs = append(vs, copyVal(d, (*src.back)[src.off+i].v))
			}
			for i, v := range vs {
				d.assign((*dst.back)[dst.off+i], v)
			}
			return intOf(int64(n))
		}
		if _, ok := a[1].(rNil); ok {
			return intOf(0)
		}
		d.fail("copy of something unknown at %s", d.P.InstrPos(c.Instr))
	case "delete":
		if m, ok := a[0].(*rMap); ok {
			for j, key := range m.keys {
				if d.truth(d.eqCond(key, a[1]), d.P.InstrPos(c.Instr)) {
					m.keys = append(append([]rv(nil), m.keys[:j]...), m.keys[j+1:]...)
					m.vals = append(append([]rv(nil), m.vals[:j]...), m.vals[j+1:]...)
					break
				}
			}
		}
		return rNil{}
	case "panic":
		d.exc(c.Instr, "panics")
	case "recover":
		return rNil{}
	case "print", "println", "close":
		return rNil{}
	case "min", "max":
		x, ok := a[0].(rInt)
		for _, v := range a[1:] {
			y, ok2 := v.(rInt)
			if !ok || !ok2 || !x.konst() || !y.konst() {
				return unknown()
			}
			if (b.Name() == "min") == (y.c < x.c) {
				x = y
			}
		}
		if ok {
			return x
		}
	}
	return unknown()
}

func (d *Dom) append(c *DomCall, unknown func() rv) rv {
	a := c.Args
	base, add := a[0], a[1]
	bytesOf := func(v rv) (string, bool) {
		switch v := v.(type) {
		case rStr:
			return string(v), true
		case rByts:
			return string(v), true
		case rNil:
			return "", true
		case rSlice:
			var sb strings.Builder
			for i := 0; i < v.len; i++ {
				switch n := (*v.back)[v.off+i].v.(type) {
				case rInt:
					if !n.konst() || n.c >= 128 {
						return "", false
					}
					sb.WriteByte(byte(n.c))
				default:
					return "", false
				}
			}
			return sb.String(), true
		}
		return "", false
	}
	if isBytes(c.Instr.Common().Args[0].Type()) {
		x, ok1 := bytesOf(base)
		y, ok2 := bytesOf(add)
		if ok1 && ok2 {
			return rByts(x + y)
		}
		return unknown()
	}
	items, ok := d.Elems(add)
	if !ok {
		return unknown()
	}
	switch s := base.(type) {
	case rNil:
		if len(items) == 0 {
			return rNil{}
		}
		return d.Slice(copyAll(d, items)...)
	case rSlice:
		items = copyAll(d, items)
		if len(items) == 0 {
			return s
		}
		if s.off+s.len+len(items) <= s.end() {
			for i, v := range items {
				d.assign((*s.back)[s.off+s.len+i], v)
			}
			return rSlice{back: s.back, off: s.off, len: s.len + len(items), cut: s.cut}
		}
		back := []*rCell{}
		for i := 0; i < s.len; i++ {
			back = append(back, d.cell(copyVal(d, (*s.back)[s.off+i].v)))
		}
		for _, v := range items {
			back = append(back, d.cell(v))
		}
		return rSlice{back: &back, len: len(back)}
	}
	return unknown()
}

func copyAll(d *Dom, vs []rv) []rv {
	out := make([]rv, 0, len(vs))
	for _, v := range vs {
		out = append(out, copyVal(d, v))
	}
	return out
}
