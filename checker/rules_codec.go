package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const storagePkg = "analysis/storage"

// A codec function is reduced to the language of the primitive operations it
// performs on its encoder or decoder, each with the path of the value it
// writes from the object, or of the place in the object it is read to.

type cframe struct {
	fn     *ssa.Function
	parent *cframe
	call   ssa.CallInstruction
	depth  int
}

type cop struct {
	kind  string
	fr    *cframe
	instr ssa.CallInstruction
	val   ssa.Value // the value written, or the value read
	konst string    // known value
}

// citem is one item of a trace: an operation, a loop or a condition.
type citem struct {
	op    *cop
	loop  [][]citem
	bound ssa.Value // of a loop: its condition
	fr    *cframe
	cond  ssa.Value
	truth string
}

type codec struct {
	p      *Program
	read   bool
	target func(ssa.Value) bool // only operations on this coder of the root
	err    string
	early  []ssa.Instruction // where loops are left in the middle
	drops  []ssa.Instruction // keeps what was read, but not every time
	funcs  map[*ssa.Function]bool
}

func isCoder(t types.Type) string {
	n := derefNamed(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/"+storagePkg {
		return ""
	}
	switch n.Obj().Name() {
	case "Encoder":
		return "enc"
	case "Decoder":
		return "dec"
	}
	return ""
}

// primitive tells the kind of a primitive operation on a coder.
func primitive(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil || isCoder(fn.Signature.Recv().Type()) == "" {
		return ""
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == fn.Params[0] {
				n := fn.Name()
				if k, ok := strings.CutPrefix(n, "Write"); ok {
					return k
				}
				if k, ok := strings.CutPrefix(n, "Read"); ok {
					return k
				}
				return ""
			}
		}
	}
	return ""
}

func (c *codec) fail(f string, a ...interface{}) {
	if c.err == "" {
		c.err = fmt.Sprintf(f, a...)
	}
}

// calls gives the traces of a call.
func (c *codec) calls(fr *cframe, ci ssa.CallInstruction) [][]citem {
	com := ci.Common()
	has := false
	for _, a := range com.Args {
		k := isCoder(a.Type())
		if k == "enc" && !c.read || k == "dec" && c.read {
			has = true
			if c.target != nil && fr.parent == nil && !c.target(a) {
				has = false
			}
		}
	}
	if !has {
		return nil
	}
	if com.IsInvoke() {
		return [][]citem{{{op: &cop{kind: "dynamic", fr: fr, instr: ci, val: com.Value}}}}
	}
	f := com.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		c.fail("a coder is given to an unknown function at %s", c.p.InstrPos(ci))
		return nil
	}
	c.funcs[f] = true
	if k := primitive(f); k != "" {
		op := &cop{kind: k, fr: fr, instr: ci}
		if c.read {
			op.val, _ = ci.(ssa.Value)
		} else if len(com.Args) > 1 {
			op.val = com.Args[1]
			if w := c.wpath(fr, op.val); strings.HasPrefix(w, "const:") {
				op.konst = strings.TrimPrefix(w, "const:")
			}
		}
		return [][]citem{{{op: op}}}
	}
	if f.Signature.Recv() != nil && isCoder(f.Signature.Recv().Type()) != "" && f.Signature.Params().Len() == 0 && basicResult(f) {
		return nil // what is left, the bytes
	}
	if fr.depth > 8 {
		c.fail("codec functions are nested too deeply at %s", c.p.InstrPos(ci))
		return nil
	}
	return c.walkFn(&cframe{fn: f, parent: fr, call: ci, depth: fr.depth + 1})
}

// basicResult tells accessors of a coder that read nothing.
func basicResult(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				return false
			case ssa.CallInstruction:
				if f := i.Common().StaticCallee(); f != nil {
					return false
				}
			}
		}
	}
	return true
}

func (c *codec) walkFn(fr *cframe) [][]citem {
	c.funcs[fr.fn] = true
	return c.seq(fr, fr.fn.Blocks[0], nil, nil)
}

func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var back []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back = append(back, p)
		}
	}
	if len(back) == 0 {
		return nil
	}
	l := map[*ssa.BasicBlock]bool{h: true}
	for len(back) > 0 {
		b := back[len(back)-1]
		back = back[:len(back)-1]
		if l[b] {
			continue
		}
		l[b] = true
		back = append(back, b.Preds...)
	}
	return l
}

func (c *codec) seq(fr *cframe, b, stop *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) [][]citem {
	if b == stop && stop != nil {
		return [][]citem{{}}
	}
	if in != nil && !in[b] {
		return nil
	}
	l := loopOf(b)
	if l == nil {
		return c.block(fr, b, stop, in)
	}
	body := dedupe(c.block(fr, b, b, l))
	some := false
	for _, t := range body {
		if len(t) > 0 {
			some = true
		}
	}
	// where the loop is left
	var exit *ssa.BasicBlock
	for _, s := range b.Succs {
		if !l[s] {
			exit = s
		}
	}
	if exit == nil {
		for _, q := range fr.fn.Blocks {
			if l[q] {
				for _, s := range q.Succs {
					if !l[s] && (exit == nil || !terminates(s)) {
						exit = s
					}
				}
			}
		}
	}
	rest := [][]citem{{}}
	if exit != nil {
		rest = c.seq(fr, exit, stop, in)
	}
	if !some {
		return rest
	}
	// a loop that is also left in the middle repeats less often than counted
	for _, q := range fr.fn.Blocks {
		if q == b || !l[q] {
			continue
		}
		for _, s := range q.Succs {
			_, dies := s.Instrs[len(s.Instrs)-1].(*ssa.Panic)
			if !l[s] && !dies && (s != exit || headerLeaves(b, l)) {
				c.early = append(c.early, instrPosOf(q))
			}
		}
	}
	if c.read {
		c.dropped(b, l)
	}
	var bound ssa.Value
	if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		bound = ifi.Cond
	}
	return c.product([][]citem{{{loop: body, bound: bound, fr: fr}}}, rest)
}

// dropped looks for ways round a loop that read something but do not keep it
// although others do.
func (c *codec) dropped(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) {
	keeps := map[*ssa.BasicBlock]ssa.Instruction{}
	for b := range l {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if bu, ok := x.Call.Value.(*ssa.Builtin); ok && bu.Name() == "append" {
					keeps[b] = i
				}
			case *ssa.MapUpdate:
				keeps[b] = i
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, local := ia.X.(*ssa.Alloc); !local {
						keeps[b] = i
					}
				}
			}
		}
	}
	if len(keeps) == 0 || keeps[h] != nil {
		return
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == h && b != h {
				return true
			}
			if !l[s] || seen[s] || keeps[s] != nil {
				continue
			}
			seen[s] = true
			if visit(s) {
				return true
			}
		}
		return false
	}
	if visit(h) {
		for _, i := range keeps {
			c.drops = append(c.drops, i)
		}
	}
}

func headerLeaves(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) bool {
	for _, s := range h.Succs {
		if !l[s] {
			return true
		}
	}
	return false
}

// instrPosOf is a position in a block.
func instrPosOf(b *ssa.BasicBlock) ssa.Instruction {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i]
		}
	}
	return b.Instrs[len(b.Instrs)-1]
}

func terminates(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 }

func (c *codec) block(fr *cframe, b, stop *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) [][]citem {
	pre := [][]citem{{}}
	for _, i := range b.Instrs {
		if ci, ok := i.(ssa.CallInstruction); ok {
			if _, isDefer := i.(*ssa.Defer); isDefer {
				continue
			}
			if t := c.calls(fr, ci); t != nil {
				pre = c.product(pre, t)
			}
		}
	}
	switch i := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump:
		return c.product(pre, c.seq(fr, b.Succs[0], stop, in))
	case *ssa.If:
		var out [][]citem
		for n, s := range b.Succs {
			k := "true"
			if n == 1 {
				k = "false"
			}
			cond := citem{cond: i.Cond, truth: k, fr: fr}
			out = append(out, c.product([][]citem{{cond}}, c.seq(fr, s, stop, in))...)
		}
		return dedupe(c.product(pre, out))
	}
	return pre
}

func (c *codec) product(a, b [][]citem) [][]citem {
	var out [][]citem
	for _, x := range a {
		for _, y := range b {
			t := append(append([]citem{}, x...), y...)
			out = append(out, c.settle(t))
		}
	}
	out = dedupe(out)
	if len(out) > 400 {
		c.fail("there are too many paths")
		out = out[:1]
	}
	return out
}

// settle moves conditions on the value of an operation into the operation, and
// drops the others.
func (c *codec) settle(t []citem) []citem {
	var out []citem
	for n, it := range t {
		if it.cond == nil {
			out = append(out, it)
			continue
		}
		if n == 0 {
			out = append(out, it) // what comes before is not known yet
			continue
		}
		v, truth := it.cond, it.truth
		for {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
				v = u.X
				truth = map[string]string{"true": "false", "false": "true"}[truth]
				continue
			}
			break
		}
		hit := false
		for k := len(out) - 1; k >= 0 && !hit; k-- {
			op := out[k].op
			if op == nil || op.konst != "" || op.kind != "Bool" {
				continue
			}
			same := op.val == v && op.fr == it.fr
			if !same && !c.read {
				w := c.wpath(it.fr, v)
				same = !strings.Contains(w, "?") && w == c.wpath(op.fr, op.val)
			}
			if same {
				cp := *op
				cp.konst = truth
				out[k].op = &cp
				hit = true
			}
		}
		if !hit && allConds(out) {
			out = append(out, it)
		}
	}
	return out
}

func allConds(t []citem) bool {
	for _, it := range t {
		if it.cond == nil {
			return false
		}
	}
	return true
}

func dedupe(ts [][]citem) [][]citem {
	seen := map[string]bool{}
	var out [][]citem
	for _, t := range ts {
		k := renderID(t)
		if !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	return out
}

// render gives the kinds of the operations of a trace.
func render(t []citem, consts bool) string {
	var ss []string
	for _, it := range t {
		switch {
		case it.op != nil:
			k := it.op.kind
			if consts && it.op.konst != "" && k == "Bool" {
				k += "=" + it.op.konst
			}
			ss = append(ss, k)
		case it.loop != nil:
			ss = append(ss, "("+renderSet(it.loop, consts)+")*")
		}
	}
	return strings.Join(ss, " ")
}

func renderSet(ts [][]citem, consts bool) string {
	seen := map[string]bool{}
	for _, t := range ts {
		seen[render(t, consts)] = true
	}
	return strings.Join(sortedKeys(seen), " | ")
}

// renderID also tells the instructions apart.
func renderID(t []citem) string {
	var sb strings.Builder
	for _, it := range t {
		switch {
		case it.op != nil:
			fmt.Fprintf(&sb, "%s=%s@%p.%p ", it.op.kind, it.op.konst, it.op.instr, it.op.fr)
		case it.loop != nil:
			sb.WriteString("(")
			for _, b := range it.loop {
				sb.WriteString(renderID(b) + "|")
			}
			sb.WriteString(")")
		default:
			fmt.Fprintf(&sb, "?%p%s ", it.cond, it.truth)
		}
	}
	return sb.String()
}

// wpath is where a value comes from, as a path from the object.
func (c *codec) wpath(fr *cframe, v ssa.Value) string { return c.wp(fr, v, 0) }

func (c *codec) wp(fr *cframe, v ssa.Value, depth int) string {
	if depth > 30 {
		return "?"
	}
	depth++
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value == nil {
			return "const:nil"
		}
		return "const:" + i.Value.ExactString()
	case *ssa.Parameter:
		if fr.parent == nil {
			if i == c.root(fr.fn) {
				return ""
			}
			return "param:" + i.Name()
		}
		for n, p := range fr.fn.Params {
			if p == i {
				args := fr.call.Common().Args
				if n < len(args) {
					return c.wp(fr.parent, args[n], depth)
				}
			}
		}
		return "?"
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			return c.wp(fr, i.X, depth)
		case token.NOT:
			return "!" + c.wp(fr, i.X, depth)
		}
		return "?"
	case *ssa.FieldAddr:
		return c.wp(fr, i.X, depth) + "." + fieldNm(i.X.Type(), i.Field)
	case *ssa.Field:
		return c.wp(fr, i.X, depth) + "." + fieldNm(i.X.Type(), i.Field)
	case *ssa.IndexAddr:
		return c.wp(fr, i.X, depth) + "[]"
	case *ssa.Index:
		return c.wp(fr, i.X, depth) + "[]"
	case *ssa.Lookup:
		return c.wp(fr, i.X, depth) + "{v}"
	case *ssa.Alloc:
		var st ssa.Value
		n := 0
		for _, r := range *i.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == i {
				st, n = s.Val, n+1
			}
		}
		if n == 1 {
			return c.wp(fr, st, depth)
		}
		return "?"
	case *ssa.Convert:
		return c.wp(fr, i.X, depth)
	case *ssa.ChangeType:
		return c.wp(fr, i.X, depth)
	case *ssa.ChangeInterface:
		return c.wp(fr, i.X, depth)
	case *ssa.MakeInterface:
		return c.wp(fr, i.X, depth)
	case *ssa.Slice:
		if i.Low == nil && i.High == nil {
			return c.wp(fr, i.X, depth)
		}
		return "?"
	case *ssa.Extract:
		if nx, ok := i.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return c.wp(fr, rg.X, depth) + map[int]string{1: "{k}", 2: "{v}"}[i.Index]
			}
		}
		return "?"
	case *ssa.BinOp:
		return "(" + c.wp(fr, i.X, depth) + i.Op.String() + c.wp(fr, i.Y, depth) + ")"
	case *ssa.Phi:
		w := ""
		for n, e := range i.Edges {
			q := c.wp(fr, e, depth+10)
			if n > 0 && q != w {
				return "?"
			}
			w = q
		}
		return w
	case *ssa.Call:
		com := i.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok && (b.Name() == "len") {
			return "len(" + c.wp(fr, com.Args[0], depth) + ")"
		}
		if f := com.StaticCallee(); f != nil && len(f.Blocks) == 1 && f.Signature.Results().Len() == 1 {
			if ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(f.Blocks[0].Instrs) < 12 {
				return c.wp(&cframe{fn: f, parent: fr, call: i, depth: fr.depth + 1}, ret.Results[0], depth+5)
			}
		}
		return "?"
	}
	return "?"
}

func fieldNm(t types.Type, n int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(n).Name()
	}
	return "?"
}

// root is the object a writer writes.
func (c *codec) root(fn *ssa.Function) *ssa.Parameter {
	for _, p := range fn.Params {
		if isCoder(p.Type()) == "" {
			return p
		}
	}
	return nil
}

// dests is where in the result a value that has been read ends up.
func (c *codec) dests(fr *cframe, v ssa.Value) map[string]bool {
	out := map[string]bool{}
	c.dest(fr, v, "", out, map[string]bool{})
	return out
}

func (c *codec) dest(fr *cframe, v ssa.Value, suf string, out, seen map[string]bool) {
	key := fmt.Sprintf("%p/%p/%s", fr, v, suf)
	if seen[key] || len(suf) > 200 || len(seen) > 2000 || v.Referrers() == nil {
		return
	}
	seen[key] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Convert:
			c.dest(fr, i, suf, out, seen)
		case *ssa.ChangeType:
			c.dest(fr, i, suf, out, seen)
		case *ssa.ChangeInterface:
			c.dest(fr, i, suf, out, seen)
		case *ssa.MakeInterface:
			c.dest(fr, i, suf, out, seen)
		case *ssa.Phi:
			c.dest(fr, i, suf, out, seen)
		case *ssa.Slice:
			c.dest(fr, i, suf, out, seen)
		case *ssa.UnOp:
			if i.Op == token.MUL {
				c.dest(fr, i, suf, out, seen)
			}
		case *ssa.Field:
			if rest, ok := strings.CutPrefix(suf, "."+fieldNm(i.X.Type(), i.Field)); ok {
				c.dest(fr, i, rest, out, seen)
			}
		case *ssa.FieldAddr:
			// a part of the object that holds the value is read again
			if rest, ok := strings.CutPrefix(suf, "."+fieldNm(i.X.Type(), i.Field)); ok && i.X == v && (rest == "" || rest[0] == '.' || rest[0] == '[') {
				c.dest(fr, i, rest, out, seen)
			}
		case *ssa.Extract:
		case *ssa.Store:
			if i.Val == v {
				c.destAddr(fr, i.Addr, suf, out, seen)
			}
		case *ssa.MapUpdate:
			if i.Value == v {
				c.dest(fr, i.Map, "{v}"+suf, out, seen)
			}
			if i.Key == v {
				c.dest(fr, i.Map, "{k}"+suf, out, seen)
			}
		case *ssa.Return:
			if fr.parent == nil {
				out[suf] = true
			} else if cv, ok := fr.call.(ssa.Value); ok {
				c.dest(fr.parent, cv, suf, out, seen)
			}
		case ssa.CallInstruction:
			com := i.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				if cv, isV := i.(ssa.Value); isV && b.Name() == "append" {
					c.dest(fr, cv, suf, out, seen)
				}
				continue
			}
			f := com.StaticCallee()
			if f == nil || len(f.Blocks) == 0 || !inRepo(f) || fr.depth > 8 || isCoderCall(com) {
				continue
			}
			nf := &cframe{fn: f, parent: fr, call: i, depth: fr.depth + 1}
			for n, a := range com.Args {
				if a == v && n < len(f.Params) {
					c.dest(nf, f.Params[n], suf, out, seen)
				}
			}
		}
	}
}

func isCoderCall(com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	return f != nil && f.Signature.Recv() != nil && isCoder(f.Signature.Recv().Type()) != ""
}

func (c *codec) destAddr(fr *cframe, addr ssa.Value, suf string, out, seen map[string]bool) {
	switch i := addr.(type) {
	case *ssa.FieldAddr:
		c.destAddr(fr, i.X, "."+fieldNm(i.X.Type(), i.Field)+suf, out, seen)
	case *ssa.IndexAddr:
		c.destAddr(fr, i.X, "[]"+suf, out, seen)
	case *ssa.Parameter:
		if fr.parent == nil {
			return
		}
		for n, p := range fr.fn.Params {
			if p == i && n < len(fr.call.Common().Args) {
				c.destAddr(fr.parent, fr.call.Common().Args[n], suf, out, seen)
			}
		}
	case *ssa.UnOp:
		c.destAddr(fr, i.X, suf, out, seen)
	case *ssa.Slice:
		c.dest(fr, i, suf, out, seen)
	default:
		c.dest(fr, addr, suf, out, seen)
	}
}

// coded is a pair of functions for a type.
type coded struct {
	t       *types.Named
	writers []*ssa.Function
	readers []*ssa.Function
}

func codedTypes(p *Program) []*coded {
	m := map[*types.Named]*coded{}
	get := func(t types.Type) *coded {
		n := derefNamed(t)
		if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return nil
		}
		if m[n] == nil {
			m[n] = &coded{t: n}
		}
		return m[n]
	}
	for _, fn := range p.Repo {
		if fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || primitive(fn) != "" {
			continue
		}
		enc, dec := 0, 0
		var other []*ssa.Parameter
		for _, q := range fn.Params {
			switch isCoder(q.Type()) {
			case "enc":
				enc++
			case "dec":
				dec++
			default:
				other = append(other, q)
			}
		}
		res := fn.Signature.Results()
		if enc == 1 && dec == 0 && len(other) == 1 {
			if e := get(other[0].Type()); e != nil {
				e.writers = append(e.writers, fn)
			}
		}
		if dec == 1 && enc == 0 && len(other) == 0 && res.Len() >= 1 {
			if e := get(res.At(0).Type()); e != nil {
				e.readers = append(e.readers, fn)
			}
		}
	}
	var out []*coded
	for _, e := range m {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.String() < out[j].t.String() })
	return out
}

func newCodec(p *Program, read bool) *codec {
	return &codec{p: p, read: read, funcs: map[*ssa.Function]bool{}}
}

func rulesCodec(c *Ctx) {
	c.Rule("for every type with a writer and a reader, the paths through the writer and the paths through the reader perform the same sequences of primitive operations, loops and optional parts included")
	c.Rule("every value that is read ends up in the part of the object that the writer took the value at that position from, and the number of repetitions that is read is the length of what the writer repeated")
	c.Rule("each primitive operation writes as many bytes as its counterpart reads and steps over")
	c.Rule("every kind of symbol that is written to the index has a reader")
	p := c.P
	pairs := 0
	for _, e := range codedTypes(p) {
		name := strings.TrimPrefix(e.t.String(), modPath+"/")
		if len(e.writers) == 0 || len(e.readers) == 0 {
			if len(e.writers) > 0 {
				c.Seen("types that are written and read elsewhere", name)
			}
			continue
		}
		for _, w := range e.writers {
			for _, r := range e.readers {
				pairs++
				c.Seen("codecs", name)
				comparePair(c, name, w, r)
			}
		}
	}
	primitives(c)
	c.AtLeast("codecs", 15)
}

// persisted is how many values of a type are kept at least.
var persisted = map[string]int{
	"analysis.Class":                 29,
	"analysis.ClassConst":            14,
	"analysis.CompletionValue":       1,
	"analysis.Const":                 13,
	"analysis.Define":                13,
	"analysis.Function":              34,
	"analysis.GlobalVariable":        11,
	"analysis.Interface":             16,
	"analysis.Method":                38,
	"analysis.Parameter":             17,
	"analysis.Property":              19,
	"analysis.Trait":                 8,
	"analysis.TypeComposite":         4,
	"analysis.TypeString":            3,
	"analysis.documentSymbol":        3,
	"analysis.entryInfo":             5,
	"analysis.tag":                   3,
	"analysis/filter.Filter":         3,
	"analysis/filter.Options":        5,
	"internal/lsp/protocol.Location": 5,
	"internal/lsp/protocol.Position": 2,
}

// size is the number of operations of the longest trace.
func size(ts [][]citem) int {
	max := 0
	for _, t := range ts {
		n := 0
		for _, it := range t {
			if it.op != nil {
				n++
			} else {
				n += size(it.loop)
			}
		}
		if n > max {
			max = n
		}
	}
	return max
}

func comparePair(c *Ctx, name string, w, r *ssa.Function) {
	p := c.P
	wc, rc := newCodec(p, false), newCodec(p, true)
	wts := clearConds(wc.walkFn(&cframe{fn: w}))
	rts := clearConds(rc.walkFn(&cframe{fn: r}))
	for f := range wc.funcs {
		c.Fn(f)
	}
	for f := range rc.funcs {
		c.Fn(f)
	}
	if wc.err+rc.err != "" {
		c.Undecided("%s: %s%s", name, wc.err, rc.err)
		return
	}
	for _, e := range append(wc.early, rc.early...) {
		c.Report("count/"+name, p.InstrPos(e), fmt.Sprintf("%s: what is repeated can end before the count is reached, the rest is then taken for something else", shortFn(e.Parent())), nil)
	}
	for _, e := range rc.drops {
		c.Report("dropped/"+name, p.InstrPos(e), fmt.Sprintf("%s: not everything that is read in the loop is kept", shortFn(e.Parent())), nil)
	}
	debugf("PERSISTED %q: %d,", name, size(wts))
	if n := size(wts); n < persisted[name] {
		c.Report("lost/"+name, p.Pos(w.Pos()), fmt.Sprintf("only %d values of %s are kept, %d have to be", n, name, persisted[name]), nil)
	}
	compareTraces(c, name, p.Pos(w.Pos()), p.Pos(r.Pos()), wc, rc, wts, rts)
}

func clearConds(ts [][]citem) [][]citem {
	var out [][]citem
	for _, t := range ts {
		var n []citem
		for _, it := range t {
			if it.cond != nil {
				continue
			}
			if it.loop != nil {
				it.loop = clearConds(it.loop)
			}
			n = append(n, it)
		}
		out = append(out, n)
	}
	return dedupe(out)
}

func compareTraces(c *Ctx, name, wpos, rpos string, wc, rc *codec, wts, rts [][]citem) {
	consts := true
	if renderSet(wts, false) == renderSet(rts, false) && !annotated(rts) {
		consts = false
	}
	ws, rs := renderSet(wts, consts), renderSet(rts, consts)
	if ws != rs {
		c.Report("format/"+name, rpos, fmt.Sprintf("%s is written as [%s] and read as [%s]", name, ws, rs), []string{"written at " + wpos, "read at " + rpos})
		return
	}
	for _, wt := range wts {
		k := render(wt, consts)
		var best []string
		found := false
		for _, rt := range rts {
			if render(rt, consts) != k {
				continue
			}
			bad := compareTrace(c, name, wc, rc, wt, rt)
			if !found || len(bad) < len(best) {
				best, found = bad, true
			}
		}
		for _, b := range best {
			c.Report("field/"+name+"/"+b, rpos, name+": "+b, []string{"written at " + wpos, "read at " + rpos})
		}
	}
}

func annotated(ts [][]citem) bool {
	for _, t := range ts {
		for _, it := range t {
			if it.op != nil && it.op.kind == "Bool" && it.op.konst != "" || it.loop != nil && annotated(it.loop) {
				return true
			}
		}
	}
	return false
}

func compareTrace(c *Ctx, name string, wc, rc *codec, wt, rt []citem) []string {
	var bad []string
	for n := range wt {
		if n >= len(rt) {
			break
		}
		a, b := wt[n], rt[n]
		if a.loop != nil && b.loop != nil {
			// the count
			if cnt := countOp(rt[:n], b, rc); cnt >= 0 && wt[cnt].op != nil {
				got := wc.wpath(wt[cnt].op.fr, wt[cnt].op.val)
				over := loopOver(wc, a)
				c.Count("counts of repetitions", 1)
				if over != "" && got != "len("+over+")" {
					bad = append(bad, fmt.Sprintf("what is repeated for %s is read as often as %s", over, got))
				}
			} else {
				c.Count("repetitions without a count", 1)
				bad = append(bad, "the number of repetitions is not one that has been read before")
			}
			for _, x := range a.loop {
				for _, y := range b.loop {
					if render(x, false) == render(y, false) {
						bad = append(bad, compareTrace(c, name, wc, rc, x, y)...)
					}
				}
			}
			continue
		}
		if a.op == nil || b.op == nil {
			continue
		}
		from := wc.wpath(a.op.fr, a.op.val)
		computed := strings.HasPrefix(from, "(") && a.op.kind != "Bool"
		if strings.Contains(from, "?") {
			c.Count("values of unknown origin", 1)
			if !isComputed(a.op.fr, a.op.val) {
				continue
			}
			computed = true
		}
		if computed {
			for _, d := range sortedKeys(rc.dests(b.op.fr, b.op.val)) {
				if d != "" {
					bad = append(bad, fmt.Sprintf("something computed is written for what is read to %s", d))
				}
			}
			continue
		}
		if strings.HasPrefix(from, "const:") || strings.HasPrefix(from, "len(") || strings.HasPrefix(from, "(") || strings.HasPrefix(from, "!") || a.op.konst != "" {
			c.Count("counts and flags", 1)
			if strings.HasPrefix(from, "const:") {
				for _, d := range sortedKeys(rc.dests(b.op.fr, b.op.val)) {
					if d != "" {
						bad = append(bad, fmt.Sprintf("the constant %s is written for what is read to %s", strings.TrimPrefix(from, "const:"), d))
					}
				}
			}
			continue
		}
		to := rc.dests(b.op.fr, b.op.val)
		c.Count("values", 1)
		if !to[from] {
			where := strings.Join(sortedKeys(to), ", ")
			if where == "" {
				where = "nowhere"
			}
			bad = append(bad, fmt.Sprintf("what is written from %q is read to %s", from, where))
		}
	}
	return bad
}

// isComputed tells values that are made by a call or an operation.
func isComputed(fr *cframe, v ssa.Value) bool {
	for {
		switch i := v.(type) {
		case *ssa.Convert:
			v = i.X
			continue
		case *ssa.ChangeType:
			v = i.X
			continue
		case *ssa.Parameter:
			if fr.parent != nil {
				for n, q := range fr.fn.Params {
					if q == i {
						v, fr = fr.call.Common().Args[n], fr.parent
						break
					}
				}
				if v != ssa.Value(i) {
					continue
				}
			}
		case *ssa.Call, *ssa.BinOp, *ssa.Slice:
			return true
		}
		return false
	}
}

// countOp is the operation whose value bounds the loop.
func countOp(before []citem, l citem, rc *codec) int {
	bin, ok := l.bound.(*ssa.BinOp)
	if !ok {
		return -1
	}
	for n := len(before) - 1; n >= 0; n-- {
		op := before[n].op
		if op == nil || op.val == nil {
			continue
		}
		for _, v := range []ssa.Value{bin.X, bin.Y} {
			for k := 0; k < 4; k++ {
				if cv, ok := v.(*ssa.Convert); ok {
					v = cv.X
				}
			}
			if v == op.val && l.fr == op.fr || reaches(rc, op, l.fr, v) {
				return n
			}
		}
	}
	return -1
}

// reaches tells whether v is the value of the operation, counted down in a
// phi, passed as an argument or returned by a helper.
func reaches(rc *codec, op *cop, fr *cframe, v ssa.Value) bool {
	for k := 0; k < 10; k++ {
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if e == op.val && fr == op.fr {
					return true
				}
			}
			return false
		case *ssa.Parameter:
			if fr.parent == nil {
				return false
			}
			for n, q := range fr.fn.Params {
				if q == i {
					v = fr.call.Common().Args[n]
				}
			}
			fr = fr.parent
			if v == op.val && fr == op.fr {
				return true
			}
		case *ssa.Call:
			if op.fr.call == i && op.fr.parent == fr {
				for _, b := range op.fr.fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && ret.Results[0] == op.val {
						return true
					}
				}
			}
			// the length of what was made with the count
			if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				for _, q := range sliceSources(i.Common().Args[0]) {
					if ms, ok := q.(*ssa.MakeSlice); ok && ms.Len == op.val && fr == op.fr {
						return true
					}
				}
			}
			return false
		default:
			return v == op.val && fr == op.fr
		}
	}
	return false
}

// sliceSources are the values a slice may be, as far as it is kept in a field
// or a variable of the function.
func sliceSources(v ssa.Value) []ssa.Value {
	out := []ssa.Value{v}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return out
	}
	for _, b := range u.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok1 := st.Addr.(*ssa.FieldAddr)
			fb, ok2 := u.X.(*ssa.FieldAddr)
			if st.Addr == u.X || ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

// loopOver is the path of what a loop of a writer goes over.
func loopOver(wc *codec, l citem) string {
	if bin, ok := l.bound.(*ssa.BinOp); ok {
		for _, v := range []ssa.Value{bin.Y, bin.X} {
			if w := wc.wpath(l.fr, v); strings.HasPrefix(w, "len(") {
				return w[4 : len(w)-1]
			}
		}
	}
	if ex, ok := l.bound.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return wc.wpath(l.fr, rg.X)
			}
		}
	}
	return ""
}

// primitives compares how much the primitive operations write and read.
func primitives(c *Ctx) {
	p := c.P
	w, r := map[string]*ssa.Function{}, map[string]*ssa.Function{}
	for _, fn := range p.Repo {
		k := primitive(fn)
		if k == "" {
			continue
		}
		if isCoder(fn.Signature.Recv().Type()) == "enc" {
			w[k] = fn
		} else {
			r[k] = fn
		}
	}
	for _, k := range sortedKeys(w) {
		rf := r[k]
		if rf == nil {
			c.Report("no-reader/"+k, p.Pos(w[k].Pos()), "what "+shortFn(w[k])+" writes cannot be read", nil)
			continue
		}
		c.Seen("primitive operations", k)
		c.Fn(w[k])
		c.Fn(rf)
		for _, blk := range rf.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
				if s, ok := ret.Results[0].(*ssa.Slice); ok && fromBuf(s.X) {
					c.Report("shared/"+k, p.InstrPos(ret), shortFn(rf)+" gives back bytes of the buffer itself, which is used again for the next entry", nil)
				}
			}
		}
		a, b := widthWritten(w[k]), widthsRead(rf)
		for _, n := range b {
			if n != a {
				c.Report("width/"+k, p.Pos(rf.Pos()), fmt.Sprintf("%s writes %s bytes, %s reads or steps over %s", shortFn(w[k]), a, shortFn(rf), n), nil)
			}
		}
		if len(b) == 0 {
			c.Report("width/"+k, p.Pos(rf.Pos()), shortFn(rf)+" does not step over what it reads", nil)
		}
	}
	c.AtLeast("primitive operations", 6)
}

func sizeof(t types.Type) string {
	return fmt.Sprint(types.SizesFor("gc", "amd64").Sizeof(t))
}

// widthWritten is the number of bytes appended to the buffer.
func widthWritten(fn *ssa.Function) string {
	total, unknown := int64(0), ""
	var visit func(f *ssa.Function, depth int)
	visit = func(f *ssa.Function, depth int) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					n := appended(f, ci.Common().Args[1])
					if n < 0 {
						unknown += "+data"
					} else {
						total += n
					}
				} else if g := ci.Common().StaticCallee(); g != nil && pkgPathOf(g) == modPath+"/"+storagePkg && depth < 4 {
					visit(g, depth+1)
				}
			}
		}
	}
	visit(fn, 0)
	return fmt.Sprint(total) + unknown
}

// appended is the length of a slice that is made from a whole value.
func appended(fn *ssa.Function, v ssa.Value) int64 {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		if pt, ok := s.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return at.Len()
			}
		}
	}
	// the bytes of a value seen through a slice header
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, ok := u.X.(*ssa.Alloc); ok {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fieldNm(fa.X.Type(), fa.Field) != "Len" {
						continue
					}
					if k, ok := st.Val.(*ssa.Const); ok {
						n, _ := constant.Int64Val(k.Value)
						return n
					}
				}
			}
		}
	}
	return -1
}

// widthsRead are the sizes of what a reader looks at and steps over.
func widthsRead(fn *ssa.Function) []string {
	var out []string
	steps := 0
	var nested int64
	data := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Slice:
				if i.Low == nil || !fromBuf(i.X) {
					continue
				}
				if k, ok := i.Low.(*ssa.Const); ok {
					n, _ := constant.Int64Val(k.Value)
					if n == 0 {
						continue
					}
					out = append(out, fmt.Sprint(n))
					steps++
				} else {
					data = true
					// as much as is given back
					if !slicedTo(fn, i.Low) {
						out = append(out, "other data")
					}
				}
			case ssa.CallInstruction:
				g := i.Common().StaticCallee()
				if g == nil || pkgPathOf(g) != modPath+"/"+storagePkg {
					continue
				}
				if k := primitive(g); k != "" {
					for _, n := range widthsRead(g) {
						var q int64
						fmt.Sscan(n, &q)
						nested = q
					}
					continue
				}
				for _, n := range looked(g, 0) {
					out = append(out, n)
				}
			case *ssa.UnOp:
				if ia, ok := i.X.(*ssa.IndexAddr); ok && i.Op == token.MUL && fromBuf(ia.X) {
					out = append(out, sizeof(i.Type()))
				}
			}
		}
	}
	if data {
		return append(out, fmt.Sprint(nested)+"+data")
	}
	if steps == 0 {
		return nil
	}
	return out
}

func slicedTo(fn *ssa.Function, n ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Slice); ok && s.High == n && s.Low == nil {
				return true
			}
			if s, ok := in.(*ssa.MakeSlice); ok && s.Len == n {
				return true
			}
		}
	}
	return false
}

// looked are the sizes of the values read through a pointer to the bytes.
func looked(fn *ssa.Function, depth int) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if cv, ok := u.X.(*ssa.Convert); ok && isUnsafe(cv.X.Type()) {
					out = append(out, sizeof(u.Type()))
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok && depth < 3 {
				if g := ci.Common().StaticCallee(); g != nil && pkgPathOf(g) == modPath+"/"+storagePkg {
					out = append(out, looked(g, depth+1)...)
				}
			}
		}
	}
	return out
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func init() {
	register("C12", "Extraction of the format of every codec function (its language of primitive operations with loops and optional parts, and the part of the object each value comes from or goes to) and comparison of writers and readers.", nil, rulesCodec)
}

// fromBuf tells loads of a field that is a byte slice.
func fromBuf(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || isCoder(derefType(fa.X.Type())) == "" {
		return false
	}
	s, ok := u.Type().Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
