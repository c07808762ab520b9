package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ExitKind tells how a function ends.
type ExitKind int

const (
	XReturn ExitKind = iota
	XPanic
	XStop // the process ends
)

// Exit is one way a function can end.
type Exit struct {
	Kind  ExitKind
	Vals  []*V
	St    *State
	Instr ssa.Instruction
}

// Out is one outcome of a modelled call.
type Out struct {
	St   *State
	Val  *V
	Kind ExitKind
}

// Call describes a call about to be made.
type Call struct {
	Instr ssa.CallInstruction
	Fn    *ssa.Function // resolved callee, may be nil
	Iface *types.Func   // interface method, when invoked through an interface
	Recv  *V            // receiver of an interface call
	FnVal *V            // the called value otherwise
	Args  []*V          // with the receiver first for methods
	Defer bool
	Go    bool
	Frame *Frame
	Tok   string
}

// Name of the callee, "pkg/path.Func" or "(pkg/path.T).Method".
func (c *Call) Name() string {
	if c.Fn != nil {
		return fnName(c.Fn)
	}
	if c.Iface != nil {
		return fnObjName(c.Iface)
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok && o != nil {
		return fnObjName(o)
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnName(o)
	}
	return fn.String()
}

func fnObjName(o *types.Func) string {
	return strings.ReplaceAll(o.FullName(), modPath+"/", "")
}

// Monitor observes the paths of the program.
type Monitor struct {
	// Model can replace a call by its outcomes.
	Model func(x *Ex, st *State, c *Call) ([]Out, bool)
	// Observers
	OnCall  func(x *Ex, st *State, c *Call)
	OnStore func(x *Ex, st *State, fr *Frame, in ssa.Instruction, addr, val *V)
	OnLoad  func(x *Ex, st *State, fr *Frame, in ssa.Instruction, addr *V)
	// OnChan is called with "send", "recv" and "close", blocking is false in
	// a select with a default
	OnChan func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, ch, val *V, blocking bool)
	OnMap  func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, m, k, v *V)
	OnGo   func(x *Ex, st *State, c *Call)
	// OnReturn is called for every return of an inlined function
	OnReturn func(x *Ex, st *State, fr *Frame, in ssa.Instruction, vals []*V)
	// OnBranch is called after a branch has been taken
	OnBranch func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool)
	// Prune drops a branch that is excluded by an assumption
	Prune  func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool) bool
	OnExec func(x *Ex, st *State, fr *Frame, in ssa.Instruction)
}

// Ex explores the paths of functions.
type Ex struct {
	P        *Program
	M        *Monitor
	Reach    map[*ssa.Function]bool   // functions worth inlining
	NoInline func(*ssa.Function) bool // never inline these
	Fork     bool                     // follow interface calls into every implementation
	Err      []string                 // why the exploration is incomplete
	MaxSteps int
	MaxDepth int

	steps   int
	calling ssa.CallInstruction
	ctxIDs  map[string]int
	Funcs   map[*ssa.Function]bool // functions explored
	Forks   int
	Joined  int
}

func newEx(p *Program, m *Monitor, reach map[*ssa.Function]bool) *Ex {
	return &Ex{P: p, M: m, Reach: reach, Fork: true, MaxSteps: 6000000, MaxDepth: 40, ctxIDs: map[string]int{}, Funcs: map[*ssa.Function]bool{}}
}

type dcall struct {
	instr *ssa.Defer
	call  *Call
}

// Frame is the activation of a function.
type Frame struct {
	Fn     *ssa.Function
	call   ssa.CallInstruction // the call that was inlined, nil for roots
	parent *Frame
	depth  int
	ctx    int
	anc    map[int]bool // contexts of the callers
	regs   map[ssa.Value]*V
	defers []dcall
	loop   bool
	st     *State

	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	// panicking is set while deferred calls run because of a panic
}

func (f *Frame) fork() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]*V, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]dcall(nil), f.defers...)
	n.st = f.st.clone()
	return &n
}

// Stack renders the functions of the frames, innermost first.
func (f *Frame) Stack() string {
	var s []string
	for g := f; g != nil; g = g.parent {
		s = append(s, shortFn(g.Fn))
	}
	return strings.Join(s, " < ")
}

func (x *Ex) ctxID(parent int, site string) int {
	k := strconv.Itoa(parent) + "/" + site
	if id, ok := x.ctxIDs[k]; ok {
		return id
	}
	id := len(x.ctxIDs) + 1
	x.ctxIDs[k] = id
	return id
}

func (x *Ex) fail(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	for _, e := range x.Err {
		if e == m {
			return
		}
	}
	x.Err = append(x.Err, m)
}

// RootArgs makes symbolic arguments for the parameters of a function.
func (x *Ex) RootArgs(fn *ssa.Function) []*V {
	var out []*V
	for i, p := range fn.Params {
		v := mkSym(fmt.Sprintf("%%0.%d:%s;", i, p.Name()))
		if i == 0 && fn.Signature.Recv() != nil {
			v.NonNil = true
		}
		out = append(out, v)
	}
	return out
}

// Run explores a function from the given state.
func (x *Ex) Run(fn *ssa.Function, args, binds []*V, st *State) []Exit {
	return x.exec(fn, args, binds, st, nil, x.ctxID(0, "root:"+fn.String()), false)
}

var instrOrd = map[ssa.Instruction]int{}

func ordOf(i ssa.Instruction) int {
	if o, ok := instrOrd[i]; ok {
		return o
	}
	n := 0
	for _, b := range i.Parent().Blocks {
		for _, j := range b.Instrs {
			n++
			instrOrd[j] = n
		}
	}
	return instrOrd[i]
}

func (x *Ex) exec(fn *ssa.Function, args, binds []*V, st *State, parent *Frame, ctx int, loop bool) []Exit {
	x.Funcs[fn] = true
	if parent == nil {
		x.calling = nil
	}
	fr := &Frame{Fn: fn, parent: parent, call: x.calling, ctx: ctx, regs: map[ssa.Value]*V{}, loop: loop, st: st, anc: map[int]bool{0: true}}
	if parent != nil {
		fr.depth = parent.depth + 1
		for k := range parent.anc {
			fr.anc[k] = true
		}
		fr.anc[parent.ctx] = true
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		} else {
			fr.regs[p] = mkSym(fmt.Sprintf("%%%d.p%d;", ctx, i))
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.regs[p] = binds[i]
		} else {
			fr.regs[p] = mkNonNil(fmt.Sprintf("%%%d.f%d:%s;", ctx, i, p.Name()))
		}
	}
	if len(fn.Blocks) == 0 {
		return nil
	}
	fr.blk = fn.Blocks[0]
	cyc := x.P.InCycle(fn)
	live := x.P.LiveIn(fn)
	visited := map[string]bool{}
	exitSeen := map[string]bool{}
	groups := map[string]*group{}
	exitGroups := map[string]*exitGroup{}
	var exits []Exit
	if loop {
		// what earlier calls in a loop have left behind
		if xt := exitTok(ctx); st.mentions(xt) {
			st.retire(xt, xt[:len(xt)-1]+"~;")
		}
	}
	emit := func(e Exit) {
		x.gc(fr, e.St, e.Vals, nil)
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d|", e.Kind)
		for _, v := range e.Vals {
			sb.WriteString(v.ID() + "|")
		}
		e.St.serial(&sb)
		k := sb.String()
		if exitSeen[k] {
			x.Joined++
			return
		}
		exitSeen[k] = true
		gk := fmt.Sprintf("%d|", e.Kind) + exitShape(e.Vals) + "|" + e.St.monKey()
		g := exitGroups[gk]
		if g == nil {
			g = &exitGroup{}
			exitGroups[gk] = g
		}
		g.n++
		if g.n > mergeAfter {
			if g.n == mergeAfter+1 {
				g.at = len(exits)
				exits = append(exits, e)
				return
			}
			t := exitTok(ctx)
			old := exits[g.at]
			n := Exit{Kind: e.Kind, Instr: old.Instr, St: joinStates(old.St, e.St, t)}
			for i := range e.Vals {
				n.Vals = append(n.Vals, joinV(old.Vals[i], e.Vals[i], t, "r"+strconv.Itoa(i)))
			}
			exits[g.at] = n
			x.Joined++
			return
		}
		exits = append(exits, e)
	}
	stack := []*Frame{fr}
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if f.idx == 0 {
			// block entry: phis first
			phis := map[ssa.Value]*V{}
			for _, i := range f.blk.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range f.blk.Preds {
					if pr == f.prev {
						phis[ph] = x.val(f, ph.Edges[k])
						break
					}
				}
				f.idx++
			}
			for k, v := range phis {
				f.regs[k] = v
			}
			for v := range f.regs {
				if !live[f.blk.Index][v] {
					delete(f.regs, v)
				}
			}
			var roots []*V
			for _, v := range f.regs {
				roots = append(roots, v)
			}
			x.gc(f, f.st, roots, f.defers)
			var sb strings.Builder
			fmt.Fprintf(&sb, "b%d\n", f.blk.Index)
			var regs []string
			for v, a := range f.regs {
				regs = append(regs, v.Name()+"="+a.ID())
			}
			sortStrings(regs)
			sb.WriteString(strings.Join(regs, "\n"))
			sb.WriteString(defersKey(f.defers) + "\n")
			f.st.serial(&sb)
			k := sb.String()
			if visited[k] {
				x.Joined++
				continue
			}
			visited[k] = true
			gk := strconv.Itoa(f.blk.Index) + "|" + f.st.monKey() + defersKey(f.defers)
			g := groups[gk]
			if g == nil {
				g = &group{}
				groups[gk] = g
			}
			g.n++
			if g.n > mergeAfter {
				h, changed := g.merge(f)
				if !changed {
					x.Joined++
					continue
				}
				f = h
			}
		}
		stack = append(stack, x.block(f, cyc[f.blk.Index] || f.loop, emit)...)
		if x.steps > x.MaxSteps {
			x.fail("exploration of %s exceeds %d steps", shortFn(fn), x.MaxSteps)
			return exits
		}
	}
	return exits
}

// mergeAfter is how many states that agree in what the monitor has recorded
// are followed separately at one place.
var mergeAfter = 12

type group struct {
	n   int
	acc *Frame
}

type exitGroup struct{ n, at int }

func exitTok(ctx int) string { return fmt.Sprintf("%%%d.x;", ctx) }

// exitShape tells apart exits that callers distinguish.
func exitShape(vs []*V) string {
	s := ""
	for _, v := range vs {
		switch {
		case v.K == KConst:
			s += v.ID()
		case v.K == KIface:
			s += "i:" + typeName(v.Typ)
			if v.Elts[0].K == KConst {
				s += v.Elts[0].ID()
			}
		case v.K == KBool:
			s += v.ID()
		case v.NonNil:
			s += "nn"
		default:
			s += "?"
		}
		s += ","
	}
	return s
}

func (s *State) monKey() string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.mon) {
		sb.WriteString(k + "=" + s.mon[k] + "\n")
	}
	return sb.String()
}

func defersKey(ds []dcall) string {
	s := ""
	for _, d := range ds {
		s += fmt.Sprintf("|d%d:%s", ordOf(d.instr), callID(d.call))
	}
	return s
}

// merge adds a state to those seen, changed is false if it adds nothing.
func (g *group) merge(f *Frame) (*Frame, bool) {
	t := fmt.Sprintf("%%%d.j%d;", f.ctx, f.blk.Index)
	old := t[:len(t)-1] + "~;"
	if f.st.mentions(t) {
		f.st.retire(t, old)
	}
	for k, v := range f.regs {
		f.regs[k] = v.rename(t, old)
	}
	if g.acc == nil {
		g.acc = f.fork()
		return f, true
	}
	h := f.fork()
	h.st = joinStates(g.acc.st, f.st, t)
	changed := !sameState(g.acc.st, h.st)
	for k, v := range f.regs {
		w, ok := g.acc.regs[k]
		if !ok {
			h.regs[k] = mkSym("jn(" + t + "," + k.Name() + ")")
			changed = true
			continue
		}
		h.regs[k] = joinV(w, v, t, k.Name())
		changed = changed || h.regs[k].ID() != w.ID() || h.regs[k].NonNil != w.NonNil
	}
	if !changed {
		return nil, false
	}
	g.acc = h.fork()
	return h, true
}

func sameState(a, b *State) bool {
	var sa, sb strings.Builder
	a.serial(&sa)
	b.serial(&sb)
	return sa.String() == sb.String()
}

// joinV is a value that stands for either of two.
func joinV(a, b *V, tok, name string) *V {
	if a.ID() == b.ID() && a.NonNil == b.NonNil {
		return a
	}
	if a.ID() == b.ID() {
		if a.NonNil {
			return b
		}
		return a
	}
	if a.K == KTuple && b.K == KTuple && len(a.Elts) == len(b.Elts) {
		var es []*V
		for i := range a.Elts {
			es = append(es, joinV(a.Elts[i], b.Elts[i], tok, name+"."+strconv.Itoa(i)))
		}
		return mkTuple(es...)
	}
	if a.K == KIface && b.K == KIface && a.Typ != nil && b.Typ != nil && types.Identical(a.Typ, b.Typ) {
		return mkIface(joinV(a.Elts[0], b.Elts[0], tok, name), a.Typ)
	}
	v := mkSym("jn(" + tok + "," + name + ")")
	v.NonNil = a.NonNil && b.NonNil
	if a.Cls == b.Cls {
		v.Cls = a.Cls
	}
	return v
}

func locName(loc string) string {
	h := fnv.New32a()
	h.Write([]byte(loc))
	return fmt.Sprintf("m%x", h.Sum32())
}

// joinStates is what two states with the same monitor state have in common.
func joinStates(a, b *State, tok string) *State {
	n := newState()
	n.trace = a.trace
	for k, v := range a.mon {
		n.mon[k] = v
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && w == v {
			n.facts[k] = v
		}
	}
	for k, v := range a.bind {
		if w, ok := b.bind[k]; ok && w.ID() == v.ID() {
			n.bind[k] = v
		}
	}
	for k, v := range a.epoch {
		if b.epoch[k] == v {
			n.epoch[k] = v
		} else {
			n.epoch[k] = tok
		}
	}
	for k := range b.epoch {
		if _, ok := a.epoch[k]; !ok {
			n.epoch[k] = tok
		}
	}
	one := func(k, cls string) {
		if isAllocLoc(k) || cls == "" {
			n.mem[k] = mkSym("jn(" + tok + "," + locName(k) + ")")
			n.cls[k] = cls
		} else {
			n.epoch[cls] = tok
		}
	}
	for _, k := range sortedKeys(a.mem) {
		if w, ok := b.mem[k]; ok {
			n.mem[k] = joinV(a.mem[k], w, tok, locName(k))
			n.cls[k] = a.cls[k]
		} else {
			one(k, a.cls[k])
		}
	}
	for _, k := range sortedKeys(b.mem) {
		if _, ok := a.mem[k]; !ok {
			one(k, b.cls[k])
		}
	}
	return n
}

func callID(c *Call) string {
	s := c.Name()
	if c.FnVal != nil {
		s += c.FnVal.ID()
	}
	for _, a := range c.Args {
		s += "," + a.ID()
	}
	return s
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// tokens returns the tokens in a key.
func tokens(k string, fn func(tok string, ctx int)) {
	for {
		i := strings.IndexByte(k, '%')
		if i < 0 {
			return
		}
		k = k[i:]
		j := strings.IndexByte(k, ';')
		if j < 0 {
			return
		}
		tok := k[:j+1]
		c := 0
		for _, ch := range tok[1:] {
			if ch < '0' || ch > '9' {
				break
			}
			c = c*10 + int(ch-'0')
		}
		fn(tok, c)
		k = k[j+1:]
	}
}

func (v *V) eachKey(fn func(string)) {
	if v == nil {
		return
	}
	if v.K != KAgg && v.K != KTuple {
		fn(v.Key)
	}
	for _, e := range v.Elts {
		e.eachKey(fn)
	}
	for _, e := range v.Fields {
		e.eachKey(fn)
	}
}

// gc drops what is known about values of this activation (or ones it has
// called) that nothing refers to any more.
func (x *Ex) gc(f *Frame, st *State, roots []*V, defers []dcall) {
	alive := map[string]bool{}
	mark := func(k string) {
		tokens(k, func(tok string, ctx int) { alive[tok] = true })
	}
	for _, v := range roots {
		v.eachKey(mark)
	}
	for _, d := range defers {
		if d.call.FnVal != nil {
			d.call.FnVal.eachKey(mark)
		}
		if d.call.Recv != nil {
			d.call.Recv.eachKey(mark)
		}
		for _, a := range d.call.Args {
			a.eachKey(mark)
		}
	}
	// callers still hold their values
	for p := f.parent; p != nil; p = p.parent {
		for _, v := range p.regs {
			v.eachKey(mark)
		}
		for _, d := range p.defers {
			for _, a := range d.call.Args {
				a.eachKey(mark)
			}
		}
	}
	for k, v := range st.mon {
		mark(k)
		mark(v)
	}
	ok := func(k string) bool {
		good := true
		tokens(k, func(tok string, ctx int) {
			if !f.anc[ctx] && !alive[tok] {
				good = false
			}
		})
		return good
	}
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			if !done[k] && ok(k) {
				done[k] = true
				changed = true
				v.eachKey(mark)
			}
		}
	}
	for k := range st.mem {
		if !done[k] {
			delete(st.mem, k)
			delete(st.cls, k)
		}
	}
	for k := range st.facts {
		if !ok(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.bind {
		if !ok(k) {
			delete(st.bind, k)
		}
	}
	// epochs matter only while something was read through them
	for k, e := range st.epoch {
		if !ok(e) {
			st.epoch[k] = "%0.old;"
		}
	}
}

// val evaluates an operand.
func (x *Ex) val(f *Frame, v ssa.Value) *V {
	switch a := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		if a.Value == nil {
			return zeroOf(a.Type())
		}
		return mkConst(a.Value)
	case *ssa.Global:
		r := mkAddr("g:" + strings.ReplaceAll(a.String(), modPath+"/", ""))
		r.Cls = addrClass(a)
		return r
	case *ssa.Function:
		return mkFunc(a, nil)
	case *ssa.Builtin:
		return mkNonNil("builtin:" + a.Name())
	}
	if r, ok := f.regs[v]; ok {
		if r.K == KSym {
			if c, ok := f.st.bind[r.Key]; ok {
				return c
			}
		}
		return r
	}
	x.fail("no value for %s in %s", v.Name(), shortFn(f.Fn))
	return mkSym("?" + v.Name())
}

// tok makes the token of an instruction, retiring the previous value of it.
func (x *Ex) tok(f *Frame, i ssa.Instruction, loop bool) string {
	t := fmt.Sprintf("%%%d.%d;", f.ctx, ordOf(i))
	if loop {
		old := t[:len(t)-1] + "~;"
		mentioned := f.st.mentions(t)
		for _, v := range f.regs {
			if mentioned {
				break
			}
			mentioned = v.mentions(t)
		}
		for _, d := range f.defers {
			if mentioned {
				break
			}
			for _, a := range d.call.Args {
				mentioned = mentioned || a.mentions(t)
			}
		}
		if f.parentMentions(t) {
			// callers still hold the value, use another name for the new one
			for g := 1; g < 4; g++ {
				u := t[:len(t)-1] + "'" + strconv.Itoa(g) + ";"
				if !f.st.mentions(u) && !f.parentMentions(u) && !f.regsMention(u) {
					return u
				}
			}
			mentioned = true
		}
		if mentioned {
			f.st.retire(t, old)
			for k, v := range f.regs {
				f.regs[k] = v.rename(t, old)
			}
			for k, d := range f.defers {
				c := *d.call
				c.Args = append([]*V(nil), c.Args...)
				for j := range c.Args {
					c.Args[j] = c.Args[j].rename(t, old)
				}
				if c.FnVal != nil {
					c.FnVal = c.FnVal.rename(t, old)
				}
				f.defers[k].call = &c
			}
		}
	}
	return t
}

func (f *Frame) parentMentions(t string) bool {
	for p := f.parent; p != nil; p = p.parent {
		if p.regsMention(t) {
			return true
		}
	}
	return false
}

func (f *Frame) regsMention(t string) bool {
	for _, v := range f.regs {
		if v.mentions(t) {
			return true
		}
	}
	for _, d := range f.defers {
		for _, a := range d.call.Args {
			if a.mentions(t) {
				return true
			}
		}
	}
	return false
}

// locOf is the location a pointer value denotes.
func locOf(v *V) string {
	v = v.Strip()
	return v.Key
}

// split finds the prefixes of a location that end before a field or index.
func locPrefixes(loc string) []int {
	var out []int
	depth := 0
	for i := len(loc) - 1; i > 0; i-- {
		switch loc[i] {
		case ')', ']':
			depth++
			if loc[i] == ']' && depth == 1 {
				// handled when the bracket opens
			}
		case '(', '[':
			depth--
			if loc[i] == '[' && depth == 0 {
				out = append(out, i)
			}
		case '.':
			if depth == 0 && !insideToken(loc, i) {
				out = append(out, i)
			}
		}
	}
	return out
}

func insideToken(s string, i int) bool {
	for j := i - 1; j >= 0; j-- {
		if s[j] == ';' {
			return false
		}
		if s[j] == '%' {
			return true
		}
		if s[j] == '(' || s[j] == '[' {
			return false
		}
	}
	return false
}

func (x *Ex) load(st *State, p *V, t types.Type) *V {
	loc := locOf(p)
	_, isStruct := t.Underlying().(*types.Struct)
	_, isArr := t.Underlying().(*types.Array)
	var base *V
	if v, ok := st.mem[loc]; ok {
		base = v
	} else {
		for _, i := range locPrefixes(loc) {
			if v, ok := st.mem[loc[:i]]; ok && loc[i] == '.' {
				base = v.project(loc[i+1:], t)
				break
			}
		}
	}
	if base == nil {
		k := "*(" + loc + ")"
		if e, ok := st.epoch[p.Cls]; ok && p.Cls != "" {
			k = "*(" + loc + "@" + e + ")"
		}
		base = mkSym(k)
	}
	if isStruct || isArr {
		sub := map[string]*V{}
		pre := loc + "."
		for k, v := range st.mem {
			if strings.HasPrefix(k, pre) {
				sub[k[len(pre):]] = v
			}
		}
		if len(sub) > 0 {
			if base.K == KAgg {
				merged := map[string]*V{}
				for k, v := range base.Fields {
					merged[k] = v
				}
				for k, v := range sub {
					merged[k] = v
				}
				return &V{K: KAgg, Key: "agg", Elts: base.Elts, Fields: merged, Typ: t}
			}
			return &V{K: KAgg, Key: "agg", Elts: []*V{base}, Fields: sub, Typ: t}
		}
	}
	if c, ok := st.bind[base.Key]; ok && base.K == KSym {
		return c
	}
	return base
}

func isAllocLoc(loc string) bool {
	return strings.HasPrefix(loc, "%") && strings.Contains(loc, ";") && strings.HasPrefix(loc[strings.IndexByte(loc, ';'):], ";#a")
}

func (x *Ex) store(st *State, p *V, v *V, tok string) {
	loc := locOf(p)
	pre := loc + "."
	prei := loc + "["
	for k := range st.mem {
		if strings.HasPrefix(k, pre) || strings.HasPrefix(k, prei) {
			delete(st.mem, k)
			delete(st.cls, k)
		}
	}
	// other locations that may be the same one
	if p.Cls != "" && !isAllocLoc(loc) {
		for k := range st.mem {
			if k != loc && st.cls[k] == p.Cls && !isAllocLoc(k) {
				delete(st.mem, k)
				delete(st.cls, k)
			}
		}
		if strings.HasPrefix(p.Cls, "index:") {
			st.epoch[p.Cls] = tok
		}
	}
	st.mem[loc] = v
	st.cls[loc] = p.Cls
}

// havoc forgets the locations of the given classes.
func (x *Ex) havoc(st *State, classes map[string]bool, tok string) {
	for k := range st.mem {
		if classes[st.cls[k]] && !strings.Contains(k, "#al") {
			st.epoch[st.cls[k]] = tok
			delete(st.mem, k)
			delete(st.cls, k)
		}
	}
	// fields of zeroed objects that have no entry of their own
	for k, v := range st.mem {
		if v.K != KZero || strings.Contains(k, "#al") {
			continue
		}
		n := derefNamed(v.Typ)
		if n == nil {
			continue
		}
		pre := typeName(n) + "."
		for c := range classes {
			if strings.HasPrefix(c, pre) {
				l := k + "." + c[len(pre):]
				if _, ok := st.mem[l]; !ok {
					st.mem[l] = mkSym("hv(" + tok + "," + l + ")")
					st.cls[l] = c
				}
			}
		}
	}
	for c := range classes {
		if i := strings.LastIndexByte(c, '.'); i >= 0 && !strings.HasPrefix(c, "elem:") && !strings.HasPrefix(c, "index:") && !strings.HasPrefix(c, "global:") {
			if st.mentionsField(c[i:]) {
				st.epoch[c] = tok
			}
		} else if _, ok := st.epoch[c]; ok || strings.HasPrefix(c, "index:") || strings.HasPrefix(c, "global:") {
			if st.mentionsAnyLoad() {
				st.epoch[c] = tok
			}
		}
	}
}

func (s *State) mentionsField(f string) bool {
	for k := range s.facts {
		if strings.Contains(k, f+")") || strings.Contains(k, f+"@") {
			return true
		}
	}
	for k := range s.bind {
		if strings.Contains(k, f+")") || strings.Contains(k, f+"@") {
			return true
		}
	}
	return false
}

func (s *State) mentionsAnyLoad() bool {
	for k := range s.facts {
		if strings.Contains(k, "*(") {
			return true
		}
	}
	return false
}

// havocLoc forgets what is stored at and below a location.
func (x *Ex) havocLoc(st *State, loc string, tok string) {
	n := 0
	if _, ok := st.mem[loc]; ok {
		n++
	}
	for k := range st.mem {
		if strings.HasPrefix(k, loc+".") || strings.HasPrefix(k, loc+"[") {
			delete(st.mem, k)
			delete(st.cls, k)
			n++
		}
	}
	st.mem[loc] = mkSym("hv(" + tok + "," + loc + ")")
}

// ---- conditions

func cmpKey(op, a, b string) string { return op + "(" + a + "," + b + ")" }

func (x *Ex) cond(op token.Token, a, b *V) *V {
	neg := false
	switch op {
	case token.NEQ:
		op, neg = token.EQL, true
	case token.GTR:
		op, a, b = token.LSS, b, a
	case token.GEQ:
		op, neg = token.LSS, true
	case token.LEQ:
		op, a, b, neg = token.LSS, b, a, true
	}
	res := func(v bool) *V { return mkBoolConst(v != neg) }
	a, b = a.Strip(), b.Strip()
	if op == token.EQL {
		if a.isNil() && b.isNil() {
			return res(true)
		}
		if (a.isNil() && b.NonNil) || (b.isNil() && a.NonNil) {
			return res(false)
		}
		if a.K == KConst && b.K == KConst && a.C != nil && b.C != nil {
			if a.C.Kind() == b.C.Kind() {
				return res(constant.Compare(a.C, token.EQL, b.C))
			}
		}
		if a.ID() == b.ID() && a.K != KTuple {
			return res(true)
		}
		if a.K == KAddr && b.K == KAddr && isAllocLoc(a.Key) && isAllocLoc(b.Key) {
			return res(false)
		}
		// comparing a condition with a constant
		for i := 0; i < 2; i++ {
			if b.K == KConst && b.C != nil && b.C.Kind() == constant.Bool && (a.K == KBool || a.K == KSym) {
				n := *a
				if a.K == KSym {
					n = V{K: KBool, Key: a.Key}
				}
				n.Neg = n.Neg != (neg != !constant.BoolVal(b.C))
				return &n
			}
			a, b = b, a
		}
		ka, kb := a.ID(), b.ID()
		if kb < ka {
			ka, kb = kb, ka
		}
		return &V{K: KBool, Key: cmpKey("eq", ka, kb), Neg: neg, Elts: []*V{a, b}}
	}
	if op == token.LSS {
		if a.K == KConst && b.K == KConst && a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() {
			return res(constant.Compare(a.C, token.LSS, b.C))
		}
		if a.ID() == b.ID() {
			return res(false)
		}
		// a length is never negative
		if strings.HasPrefix(a.Key, "len(") && b.K == KConst && b.C != nil && b.C.Kind() == constant.Int && constant.Sign(b.C) <= 0 {
			return res(false)
		}
		return &V{K: KBool, Key: cmpKey("lt", a.ID(), b.ID()), Neg: neg, Elts: []*V{a, b}}
	}
	return nil
}

// Known evaluates a condition in a state: 1 true, -1 false, 0 unknown.
func (x *Ex) Known(st *State, c *V) int {
	c = c.Strip()
	sgn := func(b bool) int {
		if b {
			return 1
		}
		return -1
	}
	switch c.K {
	case KConst:
		if c.C != nil && c.C.Kind() == constant.Bool {
			return sgn(constant.BoolVal(c.C))
		}
	case KSym:
		if f, ok := st.facts[c.Key]; ok {
			return sgn(f)
		}
		if b, ok := st.bind[c.Key]; ok {
			return x.Known(st, b)
		}
	case KBool:
		if f, ok := st.facts[c.Key]; ok {
			return sgn(f != c.Neg)
		}
		if len(c.Elts) == 2 {
			a, b := c.Elts[0], c.Elts[1]
			ra, rb := x.resolve(st, a), x.resolve(st, b)
			if ra != a || rb != b {
				op := token.EQL
				if strings.HasPrefix(c.Key, "lt(") {
					op = token.LSS
				}
				if n := x.cond(op, ra, rb); n != nil && (n.K == KConst || n.Key != c.Key) {
					k := x.Known(st, n)
					if c.Neg {
						k = -k
					}
					return k
				}
			}
			// len(x) == 0 is the negation of 0 < len(x)
			if k := x.lenZero(st, c); k != 0 {
				return k
			}
		}
		if strings.HasPrefix(c.Key, "is(") {
			i := strings.IndexByte(c.Key, ',')
			subj := c.Key[i+1 : len(c.Key)-1]
			if dyn, ok := st.bind["dyn:"+subj]; ok && len(c.Elts) == 0 && !strings.HasPrefix(c.Key, "is(~") {
				return sgn((constant.StringVal(dyn.C) == c.Key[3:i]) != c.Neg)
			}
		}
	}
	return 0
}

// lenZero relates the two ways of asking whether a length is zero.
func (x *Ex) lenZero(st *State, c *V) int {
	zero := mkInt(0).ID()
	a, b := c.Elts[0], c.Elts[1]
	var l string
	var isEq bool
	switch {
	case strings.HasPrefix(c.Key, "eq(") && strings.HasPrefix(a.Key, "len(") && b.ID() == zero:
		l, isEq = a.Key, true
	case strings.HasPrefix(c.Key, "eq(") && strings.HasPrefix(b.Key, "len(") && a.ID() == zero:
		l, isEq = b.Key, true
	case strings.HasPrefix(c.Key, "lt(") && a.ID() == zero && strings.HasPrefix(b.Key, "len("):
		l = b.Key
	default:
		return 0
	}
	var other string
	if isEq {
		other = cmpKey("lt", zero, l)
	} else {
		ka, kb := l, zero
		if kb < ka {
			ka, kb = kb, ka
		}
		other = cmpKey("eq", ka, kb)
	}
	if f, ok := st.facts[other]; ok {
		if f == c.Neg {
			return 1
		}
		return -1
	}
	return 0
}

func (x *Ex) resolve(st *State, v *V) *V {
	if v.K == KSym {
		if c, ok := st.bind[v.Key]; ok {
			return c
		}
	}
	return v
}

// Assume adds a condition to a state, false if it cannot hold.
func (x *Ex) Assume(st *State, c *V, truth bool) bool {
	c = c.Strip()
	switch x.Known(st, c) {
	case 1:
		return truth
	case -1:
		return !truth
	}
	switch c.K {
	case KSym:
		st.facts[c.Key] = truth
	case KBool:
		val := truth != c.Neg
		st.facts[c.Key] = val
		if val && strings.HasPrefix(c.Key, "eq(") && len(c.Elts) == 2 {
			a, b := c.Elts[0], c.Elts[1]
			if b.K == KSym && a.K == KConst {
				a, b = b, a
			}
			if a.K == KSym && b.K == KConst {
				st.bind[a.Key] = b
			}
		}
		if val && strings.HasPrefix(c.Key, "is(") && !strings.HasPrefix(c.Key, "is(~") {
			i := strings.IndexByte(c.Key, ',')
			st.bind["dyn:"+c.Key[i+1:len(c.Key)-1]] = mkStr(c.Key[3:i])
		}
	}
	return true
}

// IsNil evaluates whether a value is nil: 1 yes, -1 no, 0 unknown.
func (x *Ex) IsNil(st *State, v *V) int {
	v = x.resolve(st, v.Strip())
	c := x.cond(token.EQL, v, mkNil())
	return x.Known(st, c)
}

// ---- blocks

func (x *Ex) block(f *Frame, loop bool, emit func(Exit)) []*Frame {
	for f.idx < len(f.blk.Instrs) {
		in := f.blk.Instrs[f.idx]
		f.idx++
		x.steps++
		if x.M.OnExec != nil {
			x.M.OnExec(x, f.st, f, in)
		}
		switch i := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// evaluated at the entry of the block
		case *ssa.Alloc:
			t := x.tok(f, i, loop)
			el := i.Type().Underlying().(*types.Pointer).Elem()
			a := mkAddr(t + "#a" + map[bool]string{true: "h", false: "l"}[i.Heap] + ":" + i.Comment)
			a.Key = strings.Map(func(r rune) rune {
				if r == '.' || r == '(' || r == ')' || r == '[' || r == ']' || r == '%' {
					return '_'
				}
				return r
			}, a.Key[len(t):])
			a.Key = t + a.Key
			a.Cls = "elem:" + typeName(i.Type())
			f.regs[i] = a
			x.store(f.st, a, zeroOf(el), t)
		case *ssa.UnOp:
			x.unop(f, i, loop)
		case *ssa.BinOp:
			x.binop(f, i, loop)
		case *ssa.Store:
			addr, val := x.val(f, i.Addr), x.val(f, i.Val)
			if addr.Cls == "" {
				addr = &V{K: addr.K, Key: addr.Key, NonNil: addr.NonNil, Elts: addr.Elts, Cls: addrClass(i.Addr)}
			}
			if x.M.OnStore != nil {
				x.M.OnStore(x, f.st, f, i, addr, val)
			}
			x.store(f.st, addr, val, fmt.Sprintf("%%%d.%d;", f.ctx, ordOf(i)))
		case *ssa.FieldAddr:
			b := x.val(f, i.X)
			_, fv := fieldOf(i.X.Type(), i.Field)
			a := mkAddr(locOf(b) + "." + fv.Name())
			a.Cls = fieldClass(i.X.Type(), i.Field)
			f.regs[i] = a
		case *ssa.Field:
			b := x.val(f, i.X)
			_, fv := fieldOf(i.X.Type(), i.Field)
			r := b.project(fv.Name(), i.Type())
			f.regs[i] = x.resolve(f.st, r)
		case *ssa.IndexAddr:
			b := x.val(f, i.X)
			l := locOf(b)
			if b.K == KSlice {
				l = b.Elts[0].Key
			}
			a := mkAddr(l + "[" + x.val(f, i.Index).ID() + "]")
			a.Cls = addrClass(i)
			f.regs[i] = a
		case *ssa.Index:
			b := x.val(f, i.X)
			f.regs[i] = x.term(f, i, loop, "ix("+b.ID()+","+x.val(f, i.Index).ID()+")")
		case *ssa.Lookup:
			m, k := x.val(f, i.X), x.val(f, i.Index)
			t := x.tok(f, i, loop)
			m, k = x.val(f, i.X), x.val(f, i.Index)
			r := mkSym("mapval(" + t + "," + m.ID() + "," + k.ID() + ")")
			if x.M.OnMap != nil {
				x.M.OnMap(x, f.st, f, i, "lookup", m, k, r)
			}
			if i.CommaOk {
				f.regs[i] = mkTuple(r, mkSym("mapok("+t+","+m.ID()+","+k.ID()+")"))
			} else {
				f.regs[i] = r
			}
		case *ssa.MapUpdate:
			if x.M.OnMap != nil {
				x.M.OnMap(x, f.st, f, i, "update", x.val(f, i.Map), x.val(f, i.Key), x.val(f, i.Value))
			}
		case *ssa.Extract:
			tp := x.val(f, i.Tuple)
			if tp.K == KTuple && i.Index < len(tp.Elts) {
				f.regs[i] = x.resolve(f.st, tp.Elts[i.Index])
			} else {
				f.regs[i] = mkSym(tp.ID() + "#" + strconv.Itoa(i.Index))
			}
		case *ssa.MakeInterface:
			f.regs[i] = mkIface(x.val(f, i.X), i.X.Type())
		case *ssa.ChangeInterface:
			f.regs[i] = x.val(f, i.X)
		case *ssa.ChangeType:
			f.regs[i] = x.val(f, i.X)
		case *ssa.Convert:
			f.regs[i] = x.val(f, i.X)
			if lossy(i.X.Type(), i.Type()) {
				f.regs[i] = x.term(f, i, loop, "conv("+i.Type().String()+","+x.val(f, i.X).ID()+")")
			}
		case *ssa.MultiConvert:
			f.regs[i] = x.val(f, i.X)
		case *ssa.SliceToArrayPointer:
			f.regs[i] = x.val(f, i.X)
		case *ssa.MakeClosure:
			var bs []*V
			for _, b := range i.Bindings {
				bs = append(bs, x.val(f, b))
			}
			f.regs[i] = mkFunc(i.Fn.(*ssa.Function), bs)
		case *ssa.MakeChan:
			f.regs[i] = mkNonNil("chan(" + x.tok(f, i, loop) + "," + x.val(f, i.Size).ID() + ")")
		case *ssa.MakeMap:
			f.regs[i] = mkNonNil("map(" + x.tok(f, i, loop) + ")")
		case *ssa.MakeSlice:
			f.regs[i] = mkNonNil("mkslice(" + x.tok(f, i, loop) + "," + x.val(f, i.Len).ID() + ")")
		case *ssa.Slice:
			b := x.val(f, i.X)
			if b.K == KAddr && i.Low == nil && i.High == nil {
				f.regs[i] = &V{K: KSlice, Key: "sl(" + b.Key + ")", NonNil: true, Elts: []*V{b}}
			} else {
				part := func(v ssa.Value) string {
					if v == nil {
						return ""
					}
					return x.val(f, v).ID()
				}
				f.regs[i] = x.term(f, i, loop, "slice("+b.ID()+","+part(i.Low)+","+part(i.High)+")")
			}
		case *ssa.Range:
			f.regs[i] = mkSym("range(" + x.val(f, i.X).ID() + ")")
		case *ssa.Next:
			t := x.tok(f, i, loop)
			it := x.val(f, i.Iter)
			f.regs[i] = mkTuple(mkSym("more("+t+")"), mkSym("key("+t+","+it.Key+")"), mkSym("elem("+t+","+it.Key+")"))
		case *ssa.TypeAssert:
			if outs := x.typeAssert(f, i); outs != nil {
				return outs
			}
		case *ssa.Send:
			if x.M.OnChan != nil {
				x.M.OnChan(x, f.st, f, i, "send", x.val(f, i.Chan), x.val(f, i.X), true)
			}
		case *ssa.Select:
			return x.sel(f, i, loop)
		case *ssa.Go:
			c := x.mkCall(f, i, loop)
			c.Go = true
			if x.M.OnGo != nil {
				x.M.OnGo(x, f.st, c)
			}
		case *ssa.Defer:
			c := x.mkCall(f, i, loop)
			c.Defer = true
			f.defers = append(f.defers, dcall{i, c})
		case *ssa.RunDefers:
			return x.runDefers(f, loop, emit)
		case *ssa.Call:
			c := x.mkCall(f, i, loop)
			outs, inline := x.docall(f, c, loop)
			if !inline && len(outs) == 1 && outs[0].Kind == XReturn {
				f.st = outs[0].St
				f.regs[i] = outs[0].Val
				continue
			}
			var res []*Frame
			for _, o := range outs {
				switch o.Kind {
				case XReturn:
					g := f.fork()
					g.st = o.St
					g.regs[i] = o.Val
					res = append(res, g)
				case XPanic:
					x.unwind(f, o.St, i, loop, emit)
				default:
					emit(Exit{Kind: o.Kind, St: o.St, Instr: i})
				}
			}
			x.Forks += len(res)
			return res
		case *ssa.Panic:
			x.unwind(f, f.st, i, loop, emit)
			return nil
		case *ssa.Return:
			var vals []*V
			for _, r := range i.Results {
				vals = append(vals, x.val(f, r))
			}
			if x.M.OnReturn != nil {
				x.M.OnReturn(x, f.st, f, i, vals)
			}
			emit(Exit{Kind: XReturn, Vals: vals, St: f.st, Instr: i})
			return nil
		case *ssa.Jump:
			f.prev, f.blk, f.idx = f.blk, f.blk.Succs[0], 0
			return []*Frame{f}
		case *ssa.If:
			c := x.val(f, i.Cond)
			var res []*Frame
			for k := 1; k >= 0; k-- {
				g := f.fork()
				truth := k == 0
				if !x.Assume(g.st, c, truth) {
					continue
				}
				if x.M.Prune != nil && x.M.Prune(x, g.st, g, i, c, truth) {
					continue
				}
				if x.Known(f.st, c) == 0 {
					g.st.step(x.P.InstrPos(i), fmt.Sprintf("%s: condition %s is %v", shortFn(f.Fn), clean(c.ID()), truth))
				}
				if x.M.OnBranch != nil {
					x.M.OnBranch(x, g.st, g, i, c, truth)
				}
				g.prev, g.blk, g.idx = f.blk, f.blk.Succs[k], 0
				res = append(res, g)
			}
			return res
		default:
			if v, ok := in.(ssa.Value); ok {
				f.regs[v] = mkSym("v(" + x.tok(f, in, loop) + ")")
			}
		}
	}
	return nil
}

// clean makes a key readable.
func clean(k string) string {
	var sb strings.Builder
	for i := 0; i < len(k); i++ {
		if k[i] == '%' {
			j := strings.IndexByte(k[i:], ';')
			if j > 0 {
				tok := k[i : i+j]
				if c := strings.IndexByte(tok, ':'); c > 0 {
					sb.WriteString(tok[c+1:])
				} else {
					sb.WriteString("$" + tok[1:])
				}
				i += j
				continue
			}
		}
		sb.WriteByte(k[i])
	}
	return sb.String()
}

// term is a symbol for a pure term, or for the instruction if that is too long.
func (x *Ex) term(f *Frame, i ssa.Instruction, loop bool, key string) *V {
	if len(key) > 240 || strings.Contains(key, "~;") {
		return mkSym("t(" + x.tok(f, i, loop) + ")")
	}
	return mkSym(key)
}

func (x *Ex) unop(f *Frame, i *ssa.UnOp, loop bool) {
	v := x.val(f, i.X)
	switch i.Op {
	case token.MUL:
		if v.Cls == "" {
			w := *v
			w.Cls = addrClass(i.X)
			v = &w
		}
		if x.M.OnLoad != nil {
			x.M.OnLoad(x, f.st, f, i, v)
		}
		r := x.load(f.st, v, i.Type())
		if r.K == KSym && len(r.Key) > 400 {
			r = mkSym("t(" + x.tok(f, i, loop) + ")")
		}
		if r.K == KCat && len(r.Key) > 600 {
			r = mkSym("t(" + x.tok(f, i, loop) + ")")
		}
		f.regs[i] = r
	case token.NOT:
		switch v.K {
		case KBool:
			n := *v
			n.Neg = !n.Neg
			f.regs[i] = &n
		case KConst:
			f.regs[i] = mkBoolConst(!constant.BoolVal(v.C))
		default:
			f.regs[i] = &V{K: KBool, Key: v.Key, Neg: true}
		}
	case token.ARROW:
		if x.M.OnChan != nil {
			x.M.OnChan(x, f.st, f, i, "recv", v, nil, true)
		}
		t := x.tok(f, i, loop)
		if i.CommaOk {
			f.regs[i] = mkTuple(mkSym("recv("+t+","+v.ID()+")"), mkSym("recvok("+t+")"))
		} else {
			f.regs[i] = mkSym("recv(" + t + "," + v.ID() + ")")
		}
	case token.SUB:
		if v.K == KConst && v.C != nil {
			f.regs[i] = mkConst(constant.UnaryOp(token.SUB, v.C, 0))
			return
		}
		f.regs[i] = mkSym("neg(" + v.ID() + ")")
	default:
		f.regs[i] = mkSym("un(" + x.tok(f, i, loop) + ")")
	}
}

func (x *Ex) binop(f *Frame, i *ssa.BinOp, loop bool) {
	a, b := x.val(f, i.X), x.val(f, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if c := x.cond(i.Op, a, b); c != nil {
			f.regs[i] = c
			return
		}
	case token.ADD:
		if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			r := mkCat(a, b)
			if len(r.Key) > 600 || strings.Contains(r.Key, "~;") {
				r = mkNonNil("t(" + x.tok(f, i, loop) + ")")
			}
			f.regs[i] = r
			return
		}
	}
	if a.K == KConst && b.K == KConst && a.C != nil && b.C != nil && !loop {
		switch i.Op {
		case token.ADD, token.SUB, token.MUL, token.OR, token.AND:
			if a.C.Kind() == b.C.Kind() {
				f.regs[i] = mkConst(constant.BinaryOp(a.C, i.Op, b.C))
				return
			}
		}
	}
	f.regs[i] = mkSym("op(" + x.tok(f, i, loop) + ")")
}

func (x *Ex) typeAssert(f *Frame, i *ssa.TypeAssert) []*Frame {
	v := x.val(f, i.X)
	tn := typeName(i.AssertedType)
	it, isIface := i.AssertedType.Underlying().(*types.Interface)
	okv := (*V)(nil)
	var res *V
	switch {
	case v.K == KIface && v.Typ != nil && !types.IsInterface(v.Typ):
		ok := false
		if isIface {
			ok = types.Implements(v.Typ, it)
			res = v
		} else {
			ok = types.Identical(v.Typ, i.AssertedType)
			res = v.Elts[0]
		}
		okv = mkBoolConst(ok)
		if !ok {
			res = zeroOf(i.AssertedType)
		}
	case v.isNil():
		okv = mkBoolConst(false)
		res = zeroOf(i.AssertedType)
	default:
		if isIface {
			okv = &V{K: KBool, Key: "is(~" + tn + "," + v.ID() + ")"}
			res = v
		} else {
			okv = &V{K: KBool, Key: "is(" + tn + "," + v.ID() + ")"}
			res = mkSym("as(" + tn + "," + v.ID() + ")")
		}
	}
	if i.CommaOk {
		f.regs[i] = mkTuple(res, okv)
		return nil
	}
	f.regs[i] = res
	return nil
}

func (x *Ex) sel(f *Frame, i *ssa.Select, loop bool) []*Frame {
	t := x.tok(f, i, loop)
	var res []*Frame
	build := func(g *Frame, idx int) {
		elts := []*V{mkInt(int64(idx)), mkSym("recvok(" + t + ")")}
		for k, s := range i.States {
			if s.Dir == types.RecvOnly {
				if k == idx {
					elts = append(elts, mkSym("recv("+t+","+x.val(f, s.Chan).ID()+")"))
				} else {
					elts = append(elts, zeroOf(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		g.regs[i] = mkTuple(elts...)
		res = append(res, g)
	}
	for k, s := range i.States {
		g := f.fork()
		kind := "recv"
		var sv *V
		if s.Dir == types.SendOnly {
			kind = "send"
			sv = x.val(f, s.Send)
		}
		g.st.step(x.P.Pos(s.Pos), fmt.Sprintf("select chooses %s %s", kind, clean(x.val(f, s.Chan).ID())))
		if x.M.OnChan != nil {
			x.M.OnChan(x, g.st, g, i, kind, x.val(f, s.Chan), sv, i.Blocking && len(i.States) == 1)
		}
		build(g, k)
	}
	if !i.Blocking {
		build(f.fork(), -1)
	}
	x.Forks += len(res)
	return res
}

func (x *Ex) runDefers(f *Frame, loop bool, emit func(Exit)) []*Frame {
	type item struct {
		st *State
		n  int
	}
	work := []item{{f.st, len(f.defers)}}
	var res []*Frame
	defers := f.defers
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.n == 0 {
			g := f.fork()
			g.st = w.st
			g.defers = nil
			res = append(res, g)
			continue
		}
		d := defers[w.n-1]
		g := f.fork()
		g.st = w.st
		c := *d.call
		c.Frame = g
		outs, _ := x.docall(g, &c, loop)
		for _, o := range outs {
			switch o.Kind {
			case XReturn:
				work = append(work, item{o.St, w.n - 1})
			default:
				emit(Exit{Kind: o.Kind, St: o.St, Instr: d.instr})
			}
		}
	}
	return res
}

// unwind runs the deferred calls of a panicking function.
func (x *Ex) unwind(f *Frame, st *State, in ssa.Instruction, loop bool, emit func(Exit)) {
	type item struct {
		st *State
		n  int
	}
	work := []item{{st, len(f.defers)}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.n == 0 {
			emit(Exit{Kind: XPanic, St: w.st, Instr: in})
			continue
		}
		g := f.fork()
		g.st = w.st.clone()
		c := *f.defers[w.n-1].call
		c.Frame = g
		outs, _ := x.docall(g, &c, loop)
		for _, o := range outs {
			switch o.Kind {
			case XReturn:
				work = append(work, item{o.St, w.n - 1})
			default:
				emit(Exit{Kind: o.Kind, St: o.St, Instr: in})
			}
		}
	}
}

// ---- calls

func (x *Ex) mkCall(f *Frame, i ssa.CallInstruction, loop bool) *Call {
	cm := i.Common()
	c := &Call{Instr: i, Frame: f, Tok: x.tok(f, i, loop)}
	if cm.IsInvoke() {
		c.Iface = cm.Method
		c.Recv = x.val(f, cm.Value)
		if r := c.Recv; r.K == KIface && r.Typ != nil && !types.IsInterface(r.Typ) {
			if sel := x.P.Prog.MethodSets.MethodSet(r.Typ).Lookup(cm.Method.Pkg(), cm.Method.Name()); sel != nil {
				c.Fn = x.P.Prog.MethodValue(sel)
			}
		}
		for _, a := range cm.Args {
			c.Args = append(c.Args, x.val(f, a))
		}
		if c.Fn != nil {
			c.Args = append([]*V{c.Recv.Elts[0]}, c.Args...)
		}
		return c
	}
	c.FnVal = x.val(f, cm.Value)
	if c.FnVal.K == KFunc {
		c.Fn = c.FnVal.Fn
	}
	for _, a := range cm.Args {
		c.Args = append(c.Args, x.val(f, a))
	}
	return c
}

func (x *Ex) onStack(f *Frame, fn *ssa.Function) bool {
	for g := f; g != nil; g = g.parent {
		if g.Fn == fn {
			return true
		}
	}
	return false
}

var smallCache = map[*ssa.Function]bool{}

// small functions are inlined because it is cheaper than to summarise them.
func small(fn *ssa.Function) bool {
	if r, ok := smallCache[fn]; ok {
		return r
	}
	n, ok := 0, len(fn.Blocks) > 0 && len(fn.Blocks) <= 4
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				ok = false
			}
		}
		for _, i := range b.Instrs {
			n++
			switch i.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Send, *ssa.Panic:
				ok = false
			}
		}
	}
	smallCache[fn] = ok && n <= 30
	return smallCache[fn]
}

// carriesReach tells whether a value holds a function worth following.
func (x *Ex) carriesReach(v *V, depth int) bool {
	if v == nil || depth > 4 {
		return false
	}
	if v.K == KFunc && x.Reach[v.Fn] {
		return true
	}
	if v.K == KIface || v.K == KAgg {
		for _, e := range v.Elts {
			if x.carriesReach(e, depth+1) {
				return true
			}
		}
		for _, e := range v.Fields {
			if x.carriesReach(e, depth+1) {
				return true
			}
		}
	}
	return false
}

func (x *Ex) wantInline(f *Frame, fn *ssa.Function, args []*V) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	if x.NoInline != nil && x.NoInline(fn) {
		return false
	}
	if f.depth >= x.MaxDepth || x.onStack(f, fn) {
		return false
	}
	if !inRepo(fn) {
		// synthetic wrappers of repository methods
		return false
	}
	if x.Reach[fn] {
		return true
	}
	for _, a := range args {
		if x.carriesReach(a, 0) {
			return true
		}
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") {
		return true
	}
	return small(fn)
}

// Inline explores a callee and turns its exits into outcomes.
func (x *Ex) Inline(f *Frame, c *Call, fn *ssa.Function, args, binds []*V, st *State, loop bool) []Out {
	site := strconv.Itoa(ordOf(c.Instr)) + ":" + fn.String()
	if c.Defer {
		site += "d"
	}
	ctx := x.ctxID(f.ctx, site)
	x.calling = c.Instr
	exits := x.exec(fn, args, binds, st, f, ctx, loop)
	var outs []Out
	for _, e := range exits {
		o := Out{St: e.St, Kind: e.Kind}
		switch len(e.Vals) {
		case 0:
			o.Val = mkSym("void")
		case 1:
			o.Val = e.Vals[0]
		default:
			o.Val = mkTuple(e.Vals...)
		}
		outs = append(outs, o)
	}
	return outs
}

var stopFuncs = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"runtime.Goexit": true, "syscall.Exit": true,
}

var panicFuncs = map[string]bool{
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true,
}

var nonNilFuncs = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "github.com/pkg/errors.Errorf": true, "github.com/pkg/errors.New": true,
	"context.Background": true, "context.TODO": true,
	"internal/jsonrpc2.NewErrorf": true,
	"bufio.NewReader":             true, "encoding/json.NewDecoder": true,
}

func (x *Ex) docall(f *Frame, c *Call, loop bool) (outs []Out, inlined bool) {
	st := f.st
	if x.M.Model != nil {
		if outs, ok := x.M.Model(x, st, c); ok {
			return outs, true
		}
	}
	if x.M.OnCall != nil {
		x.M.OnCall(x, st, c)
	}
	one := func(v *V) ([]Out, bool) { return []Out{{St: st, Val: v}}, false }
	// builtins
	if b, ok := c.Instr.Common().Value.(*ssa.Builtin); ok {
		return one(x.builtin(f, c, b))
	}
	name := c.Name()
	switch {
	case stopFuncs[name]:
		return []Out{{St: st, Kind: XStop}}, true
	case panicFuncs[name]:
		return []Out{{St: st, Kind: XPanic}}, true
	}
	// unwrap bound methods and thunks through Blocks of the synthetic function
	if c.Fn != nil && x.wantInline(f, c.Fn, c.Args) {
		return x.Inline(f, c, c.Fn, c.Args, boundElts(c.FnVal), st.clone(), loop), true
	}
	if c.Fn == nil && c.Iface != nil && x.Fork {
		var cands []*ssa.Function
		for _, m := range x.P.Implementors(c.Iface) {
			carry := false
			for _, a := range c.Args {
				carry = carry || x.carriesReach(a, 0)
			}
			if (x.Reach[m] || carry) && !x.onStack(f, m) && (x.NoInline == nil || !x.NoInline(m)) {
				cands = append(cands, m)
			}
		}
		if len(cands) > 0 && f.depth < x.MaxDepth {
			for _, m := range cands {
				s := st.clone()
				rt := m.Signature.Recv().Type()
				dyn := &V{K: KBool, Key: "is(" + typeName(rt) + "," + c.Recv.ID() + ")"}
				if !x.Assume(s, dyn, true) {
					continue
				}
				recv := mkNonNil("as(" + typeName(rt) + "," + c.Recv.ID() + ")")
				args := append([]*V{recv}, c.Args...)
				outs = append(outs, x.Inline(f, c, m, args, nil, s, loop)...)
			}
			return outs, true
		}
	}
	switch {
	case nonNilFuncs[name]:
		return one(mkNonNil("new(" + c.Tok + ")"))
	case name == "strings.ToLower" && len(c.Args) == 1:
		if a := c.Args[0]; a.isStr() {
			return one(mkStr(strings.ToLower(constant.StringVal(a.C))))
		}
		return one(mkSym("lower(" + c.Args[0].ID() + ")"))
	case name == "strconv.Itoa" || name == "strconv.FormatInt" || name == "fmt.Sprint" && len(c.Args) == 1:
		if name == "fmt.Sprint" {
			if vs := x.Varargs(st, c.Args[0]); len(vs) == 1 {
				return one(vs[0].Strip())
			}
			break
		}
		if c.Args[0].K == KConst {
			return one(mkStr(c.Args[0].C.ExactString()))
		}
		return one(c.Args[0])
	case name == "fmt.Sprintf" && len(c.Args) == 2 && c.Args[0].isStr():
		if r := x.Format(st, constant.StringVal(c.Args[0].C), c.Args[1]); r != nil {
			return one(r)
		}
	case name == "(*sync.Once).Do" && len(c.Args) == 2 && c.Args[1].K == KFunc:
		s2 := st.clone()
		outs := []Out{{St: s2, Val: mkSym("void")}}
		if fn := c.Args[1].Fn; fn.Blocks != nil && !x.onStack(f, fn) {
			outs = append(outs, x.Inline(f, c, fn, nil, c.Args[1].Elts, st.clone(), loop)...)
		}
		return outs, true
	}
	// callbacks given to functions that are not explored run any number of times
	outs = []Out{{St: st.clone()}}
	for ai, a := range c.Args {
		a = a.Strip()
		if a == nil || a.K != KFunc || a.Fn.Blocks == nil || !x.Reach[a.Fn] || x.onStack(f, a.Fn) {
			continue
		}
		must := alwaysCalls[name]
		var next []Out
		for _, o := range outs {
			if !must {
				next = append(next, o)
			}
			cc := *c
			var args []*V
			for k := range a.Fn.Params {
				args = append(args, mkSym(fmt.Sprintf("cb%d(%s,%d)", ai, c.Tok, k)))
			}
			for _, p := range x.Inline(f, &cc, a.Fn, args, a.Elts, o.St.clone(), loop) {
				if p.Kind == XReturn {
					next = append(next, Out{St: p.St})
				} else {
					next = append(next, p)
				}
			}
		}
		outs = next
	}
	for k := range outs {
		if outs[k].Kind != XReturn {
			continue
		}
		x.applyEffects(f, c, outs[k].St)
		outs[k].Val = x.freshResult(c)
	}
	return outs, len(outs) != 1
}

// Opaque is the outcome of a call that is not followed.
func (x *Ex) Opaque(st *State, c *Call) []Out {
	x.applyEffects(c.Frame, c, st)
	return []Out{{St: st, Val: x.freshResult(c)}}
}

// Candidates are the functions a call may execute.
func (x *Ex) Candidates(c *Call) []*ssa.Function {
	if c.Fn != nil {
		return []*ssa.Function{c.Fn}
	}
	if c.Iface != nil {
		return x.P.Implementors(c.Iface)
	}
	return x.P.siteCallees(c.Instr)
}

// alwaysCalls lists functions that call their callback exactly once.
var alwaysCalls = map[string]bool{
	"(github.com/orcaman/concurrent-map.ConcurrentMap).Upsert":   true,
	"(github.com/orcaman/concurrent-map.ConcurrentMap).RemoveCb": true,
}

func boundElts(v *V) []*V {
	if v != nil && v.K == KFunc {
		return v.Elts
	}
	return nil
}

func (x *Ex) freshResult(c *Call) *V {
	sig := c.Instr.Common().Signature()
	res := sig.Results()
	switch res.Len() {
	case 0:
		return mkSym("void")
	case 1:
		return mkSym("res(" + c.Tok + ")")
	}
	var elts []*V
	for i := 0; i < res.Len(); i++ {
		elts = append(elts, mkSym(fmt.Sprintf("res(%s,%d)", c.Tok, i)))
	}
	return mkTuple(elts...)
}

// applyEffects forgets what a call that is not explored may change.
func (x *Ex) applyEffects(f *Frame, c *Call, st *State) {
	var fns []*ssa.Function
	if c.Fn != nil {
		fns = []*ssa.Function{c.Fn}
	} else if c.Iface != nil {
		fns = x.P.Implementors(c.Iface)
	} else {
		fns = x.P.siteCallees(c.Instr)
	}
	for _, fn := range fns {
		if inRepo(fn) {
			x.havoc(st, x.P.ModSet(fn), c.Tok)
		}
	}
	for _, a := range c.Args {
		a = a.Strip()
		if a == nil {
			continue
		}
		switch a.K {
		case KAddr:
			ext := c.Fn == nil || !inRepo(c.Fn)
			if isAllocLoc(a.Key) && (ext || x.P.ModSet(c.Fn)[a.Cls]) && !readsOnly(c.Name()) {
				x.havocLoc(st, a.Key, c.Tok)
			}
		case KFunc:
			// cells the closure may write
			for i, fv := range a.Fn.FreeVars {
				if i < len(a.Elts) && closureWrites(a.Fn, fv, 0) {
					x.havocLoc(st, locOf(a.Elts[i]), c.Tok)
				}
			}
		}
	}
	if c.FnVal != nil && c.FnVal.K == KFunc {
		for i, fv := range c.FnVal.Fn.FreeVars {
			if i < len(c.FnVal.Elts) && closureWrites(c.FnVal.Fn, fv, 0) {
				x.havocLoc(st, locOf(c.FnVal.Elts[i]), c.Tok)
			}
		}
	}
}

// readsOnly lists external functions that do not write through pointers.
func readsOnly(name string) bool {
	return strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "fmt.Sscan") || strings.HasPrefix(name, "log.") ||
		strings.HasPrefix(name, "(*sync.") || name == "encoding/json.Marshal" || strings.HasPrefix(name, "sync/atomic.Load")
}

func closureWrites(fn *ssa.Function, fv *ssa.FreeVar, depth int) bool {
	if depth > 5 || fv.Referrers() == nil {
		return true
	}
	for _, r := range *fv.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == fv {
				return true
			}
			return true
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == fv && closureWrites(g, g.FreeVars[k], depth+1) {
					return true
				}
			}
		case *ssa.FieldAddr:
			// field writes of captured structs
			for _, rr := range *i.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == i {
					return true
				}
				if _, ok := rr.(ssa.CallInstruction); ok {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (x *Ex) builtin(f *Frame, c *Call, b *ssa.Builtin) *V {
	switch b.Name() {
	case "len":
		a := c.Args[0]
		if a.isStr() {
			return mkInt(int64(len(constant.StringVal(a.C))))
		}
		if a.isNil() {
			return mkInt(0)
		}
		if bt, ok := c.Instr.Common().Args[0].Type().Underlying().(*types.Map); ok {
			_ = bt
			return mkSym("len(" + c.Tok + ")")
		}
		return mkSym("len(" + a.ID() + ")")
	case "close":
		if x.M.OnChan != nil {
			x.M.OnChan(x, f.st, f, c.Instr, "close", c.Args[0], nil, false)
		}
	case "delete":
		if x.M.OnMap != nil {
			x.M.OnMap(x, f.st, f, c.Instr, "delete", c.Args[0], c.Args[1], nil)
		}
	case "append":
		if sl, ok := c.Instr.Common().Args[0].Type().Underlying().(*types.Slice); ok && len(c.Args) == 2 {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				a := c.Args[0]
				if a.isNil() || strings.HasPrefix(a.Key, "mkslice(") && strings.HasSuffix(a.Key, ","+mkInt(0).ID()+")") {
					a = mkStr("")
				}
				if r := mkCat(a, c.Args[1]); len(r.Key) < 400 && !strings.Contains(r.Key, "~;") {
					return r
				}
			}
		}
		return mkSym("append(" + c.Tok + ")")
	}
	return mkSym("res(" + c.Tok + ")")
}

// Varargs returns the elements of a variadic argument built at the call.
func (x *Ex) Varargs(st *State, v *V) []*V {
	if v == nil || v.K != KSlice {
		return nil
	}
	base := v.Elts[0].Key
	var out []*V
	for i := 0; ; i++ {
		e, ok := st.mem[base+"["+mkInt(int64(i)).ID()+"]"]
		if !ok {
			break
		}
		out = append(out, e)
	}
	return out
}

// Format evaluates a format string to the concatenation of its parts.
func (x *Ex) Format(st *State, f string, args *V) *V {
	vs := x.Varargs(st, args)
	parts := []*V{}
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			lit += "%"
		case 'v', 'd', 's':
			if k >= len(vs) {
				return nil
			}
			parts = append(parts, mkStr(lit))
			lit = ""
			v := vs[k].Strip()
			if v.K == KConst && v.C != nil && v.C.Kind() == constant.Int {
				v = mkStr(v.C.ExactString())
			}
			parts = append(parts, v)
			k++
		default:
			return nil
		}
	}
	if k != len(vs) {
		return nil
	}
	return catOf(append(parts, mkStr(lit)))
}

// lossy tells conversions that do not keep the value.
func lossy(from, to types.Type) bool {
	size := func(t types.Type) int64 {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return types.SizesFor("gc", "amd64").Sizeof(b)
		}
		return 0
	}
	runes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && size(s.Elem()) == 4
	}
	if runes(from) != runes(to) {
		return true
	}
	a, b := size(from), size(to)
	return a > b
}
