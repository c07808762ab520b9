package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isOut tells values that are the output of a stream: something that can be
// written to, held in a field of the stream.
func isWriterField(cls string) bool { return strings.HasPrefix(cls, rpcPkg+".") }

var headerRe = regexp.MustCompile(`^(?:[A-Za-z-]+: [^\r\n]*\r\n)*Content-Length: \x00LEN\x00\r\n(?:[A-Za-z-]+: [^\r\n]*\r\n)*\r\n\x00DATA\x00$`)

func rulesStream(c *Ctx) {
	c.Rule("everything a stream writes for one message is written under one lock of the stream, which is held from the first byte to the last")
	c.Rule("the framed stream writes a header that ends with an empty line and has a Content-Length that is the length of the data, then the data, on every path that reports success")
	c.Rule("reading returns a buffer of the length the header announced only after it has been filled completely from the reader the header came from, and makes no buffer of a length that has not been found positive")
	c.Rule("standard output is only given to the stream, nothing else that runs while messages are served prints to it")
	p := c.P
	si := p.Named(rpcPkg, "Stream")
	wr, rd := ifaceMethod(si, "Write"), ifaceMethod(si, "Read")
	if wr == nil || rd == nil {
		c.Undecided("jsonrpc2.Stream is not found")
		return
	}
	framed := p.Func(rpcPkg, "NewHeaderStream")
	var framedT *types.Named
	if framed != nil {
		for _, b := range framed.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					framedT = derefNamed(mi.X.Type())
				}
			}
		}
	}
	if framedT == nil {
		c.Undecided("the type of the framed stream is not found")
		return
	}
	for _, m := range p.Implementors(wr) {
		c.Seen("stream writers", shortFn(m))
		streamWrite(c, m, derefNamed(m.Signature.Recv().Type()) == framedT)
	}
	for _, m := range p.Implementors(rd) {
		if derefNamed(m.Signature.Recv().Type()) == framedT {
			c.Seen("stream readers", shortFn(m))
			streamRead(c, m)
		}
	}
	c.AtLeast("stream writers", 1)
	c.AtLeast("stream readers", 1)
	stdout(c)
}

// sameCall names of functions that write bytes to their receiver or first argument
func writerCall(cl *Call) (dst *V, data *V, kind string) {
	switch cl.Name() {
	case "(io.Writer).Write", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(io.StringWriter).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write":
		if cl.Recv != nil {
			return cl.Recv, cl.Args[0], "write"
		}
		return cl.Args[0], cl.Args[1], "write"
	case "io.WriteString":
		return cl.Args[0], cl.Args[1], "write"
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		return cl.Args[0], nil, cl.Name()
	}
	return nil, nil, ""
}

func streamWrite(c *Ctx, m *ssa.Function, framed bool) {
	p := c.P
	mon := &Monitor{}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		if pkgPathOf(in.Parent()) != modPath+"/"+rpcPkg {
			return false
		}
		n := staticName(in)
		return isLockInstr(in) || strings.HasSuffix(n, ".Write") || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString"
	}))
	x.NoInline = func(fn *ssa.Function) bool { return pkgPathOf(fn) != modPath+"/"+rpcPkg }
	args := x.RootArgs(m)
	data := args[len(args)-1]
	render := func(v *V) string {
		s := ""
		for _, q := range v.Parts() {
			switch {
			case q.isStr():
				s += constant.StringVal(q.C)
			case q.ID() == data.ID():
				s += "\x00DATA\x00"
			case q.ID() == "len("+data.ID()+")":
				s += "\x00LEN\x00"
			default:
				s += "\x00?\x00"
			}
		}
		return s
	}
	buffers := map[string]bool{}
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		pos := p.InstrPos(cl.Instr)
		name := cl.Name()
		if op, _ := lockOp(name); op != "" {
			loc := locOf(cl.Args[0])
			if op == "lock" {
				st.mon["held:"+loc] = "1"
				st.mon["sections"] += "+"
			} else {
				delete(st.mon, "held:"+loc)
				st.mon["released"] = "1"
			}
			return nil, false
		}
		if (name == "(*bytes.Buffer).Bytes" || name == "(*bytes.Buffer).String" || name == "(*strings.Builder).String") && st.mon["buf:"+locOf(cl.Args[0])] != "" {
			return []Out{{St: st, Val: mkSym("contents(" + locOf(cl.Args[0]) + ")")}}, true
		}
		dst, d, kind := writerCall(cl)
		if dst == nil {
			return nil, false
		}
		key := dst.Strip().ID()
		isBuf := dst.Strip().K == KAddr && isAllocLoc(dst.Strip().Key)
		text := ""
		switch kind {
		case "write":
			if strings.HasPrefix(d.Strip().Key, "contents(") {
				text = st.mon["buf:"+d.Strip().Key[9:len(d.Strip().Key)-1]]
			} else {
				text = render(d.Strip())
			}
		case "fmt.Fprintf":
			text = "\x00?\x00"
			if cl.Args[1].isStr() {
				if v := x.Format(st, constant.StringVal(cl.Args[1].C), cl.Args[2]); v != nil {
					text = render(v)
				}
			}
		default:
			text = ""
			for _, v := range x.Varargs(st, cl.Args[1]) {
				text += render(v.Strip())
			}
			if kind == "fmt.Fprintln" {
				text += "\n"
			}
		}
		if isBuf {
			buffers[dst.Strip().Key] = true
			st.mon["buf:"+dst.Strip().Key] += text
			return []Out{{St: st, Val: mkTuple(mkSym("bn("+cl.Tok+")"), mkNil())}}, true
		}
		c.Seen("writes to the output", shortFn(cl.Instr.Parent())+" "+kind)
		held := false
		for k := range st.mon {
			if strings.HasPrefix(k, "held:") {
				held = true
			}
		}
		if !held {
			c.Report("unlocked-write/"+shortFn(m), pos, "part of a message is written without holding the lock of the stream", st.Path())
		}
		if st.mon["out"] != "" && st.mon["outsection"] != st.mon["sections"] {
			c.Report("split-write/"+shortFn(m), pos, "the lock is given up between two parts of one message", st.Path())
		}
		st.mon["outsection"] = st.mon["sections"]
		st.mon["out"] += text
		st.mon["outkey"] = key
		st.step(pos, "writes "+strings.ReplaceAll(text, "\x00", "'"))
		ok, bad := st.clone(), st.clone()
		bad.mon["wfailed"] = "1"
		return []Out{
			{St: ok, Val: mkTuple(mkSym("wn("+cl.Tok+")"), mkNil())},
			{St: bad, Val: mkTuple(mkSym("wn("+cl.Tok+")"), mkNonNil("werr("+cl.Tok+")"))},
		}, true
	}
	exits := x.Run(m, args, nil, newState())
	c.Explored(x)
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := p.InstrPos(e.Instr)
		errv := e.Vals[len(e.Vals)-1]
		isOK := x.IsNil(e.St, errv)
		if e.St.mon["wfailed"] != "" {
			if isOK == 1 {
				c.Report("lost-error/"+shortFn(m), pos, "a failed write is reported as success", e.St.Path())
			}
			continue
		}
		out := e.St.mon["out"]
		if isOK == -1 || isOK == 0 && out == "" {
			if out != "" {
				c.Report("partial/"+shortFn(m), pos, "an error is reported after part of the message has been written", e.St.Path())
			}
			continue
		}
		if framed && !headerRe.MatchString(out) {
			c.Report("framing/"+shortFn(m), pos, "a message is written as "+quoteNul(out)+", not as a header with the length of the data, an empty line and the data", e.St.Path())
		}
		if !framed && out != "\x00DATA\x00" {
			c.Report("plain/"+shortFn(m), pos, "a message is written as "+quoteNul(out), e.St.Path())
		}
	}
	c.AtLeast("writes to the output", 1)
}

func quoteNul(s string) string {
	return constant.MakeString(strings.ReplaceAll(strings.ReplaceAll(s, "\x00LEN\x00", "<length>"), "\x00DATA\x00", "<data>")).ExactString()
}

func streamRead(c *Ctx, m *ssa.Function) {
	p := c.P
	mon := &Monitor{}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		n := staticName(in)
		return pkgPathOf(in.Parent()) == modPath+"/"+rpcPkg && (strings.HasPrefix(n, "io.Read") || strings.HasPrefix(n, "(*bufio.Reader).") || strings.HasPrefix(n, "strconv."))
	}))
	x.NoInline = func(fn *ssa.Function) bool { return pkgPathOf(fn) != modPath+"/"+rpcPkg }
	args := x.RootArgs(m)
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		pos := p.InstrPos(cl.Instr)
		switch n := cl.Name(); n {
		case "(context.Context).Err":
			// asked after the context is done, as it is in a select of Done
			return []Out{{St: st, Val: mkNonNil("ctxerr(" + cl.Tok + ")")}}, true
		case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
			c.Seen("parsed lengths", shortFn(cl.Instr.Parent()))
			if st.mon["hdr"] != "length" {
				c.Report("wrong-header", pos, "the length is taken from a header that has not been found to be Content-Length", st.Path())
			}
			v := mkSym("parsed(" + cl.Tok + ")")
			ok, bad := st.clone(), st.clone()
			ok.mon["parsed"] = v.ID()
			ok.step(pos, "the length is parsed")
			bad.step(pos, "the length does not parse")
			return []Out{{St: ok, Val: mkTuple(v, mkNil())}, {St: bad, Val: mkTuple(mkInt(0), mkNonNil("perr("+cl.Tok+")"))}}, true
		case "io.ReadFull", "io.ReadAtLeast":
			c.Seen("reads of data", shortFn(cl.Instr.Parent()))
			if cl.Args[0].Strip().ID() != st.mon["from"] {
				c.Report("foreign-reader", pos, "the data is read from another reader than the header", st.Path())
			}
			ok, bad := st.clone(), st.clone()
			buf := cl.Args[1].Strip().ID()
			ok.mon["filled"] = buf
			if n == "io.ReadAtLeast" {
				if min := cl.Args[2].Strip().ID(); min != "len("+buf+")" && !strings.HasSuffix(buf, ","+min+")") {
					delete(ok.mon, "filled")
				}
			}
			return []Out{{St: ok, Val: mkTuple(mkSym("rn("+cl.Tok+")"), mkNil())}, {St: bad, Val: mkTuple(mkSym("rn("+cl.Tok+")"), mkNonNil("rerr("+cl.Tok+")"))}}, true
		}
		return nil, false
	}
	mon.OnCall = func(x *Ex, st *State, cl *Call) {
		if n := cl.Name(); strings.HasPrefix(n, "(*bufio.Reader).Read") || strings.HasPrefix(n, "(*net/textproto.Reader).Read") {
			delete(st.mon, "hdr")
			st.mon["from"] = cl.Args[0].Strip().ID()
			c.Seen("reads of header lines", shortFn(cl.Instr.Parent()))
		}
	}
	mon.OnBranch = func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool) {
		k := cond.Strip()
		if k.K == KBool && strings.HasPrefix(k.Key, "eq(") && strings.Contains(k.Key, `"Content-Length"`) {
			st.mon["hdr"] = "other"
			if truth != k.Neg {
				st.mon["hdr"] = "length"
			}
		}
	}
	mon.OnExec = func(x *Ex, st *State, fr *Frame, in ssa.Instruction) {
		ms, ok := in.(*ssa.MakeSlice)
		if !ok {
			return
		}
		l := x.val(fr, ms.Len)
		if l.K == KConst {
			return
		}
		pos := x.Known(st, x.cond(token.LSS, mkInt(0), l)) == 1 || x.Known(st, x.cond(token.LSS, l, mkInt(0))) == -1 || x.Known(st, x.cond(token.LSS, l, mkInt(1))) == -1
		if !pos {
			c.Report("unchecked-length", p.InstrPos(in), "a buffer is made of a length that may be negative, which panics", st.Path())
		}
	}
	exits := x.Run(m, args, nil, newState())
	c.Explored(x)
	n := 0
	for _, e := range exits {
		pos := p.InstrPos(e.Instr)
		if e.Kind == XPanic {
			c.Report("read-panics", pos, "reading a message panics", e.St.Path())
			continue
		}
		if e.Kind == XReturn && e.St.mon["hdr"] == "other" {
			c.Report("other-header", pos, "reading ends because of a header that is not Content-Length, the protocol has others", e.St.Path())
		}
		if e.Kind != XReturn || x.IsNil(e.St, e.Vals[len(e.Vals)-1]) == -1 {
			continue
		}
		n++
		d := e.Vals[0].ID()
		if e.St.mon["filled"] != d {
			c.Report("unfilled", pos, "data is returned that has not been read completely", e.St.Path())
		}
		if pr := e.St.mon["parsed"]; pr == "" || !strings.Contains(d, pr) {
			c.Report("other-length", pos, "data is returned that is not as long as the header says ("+clean(d)+")", e.St.Path())
		}
	}
	c.counts["successful reads"] += n
	if n == 0 {
		c.Report("no-read", p.Pos(m.Pos()), "no path reads a message", nil)
	}
	c.AtLeast("parsed lengths", 1)
	c.AtLeast("reads of data", 1)
}

// stdout: who may print to standard output.
func stdout(c *Ctx) {
	p := c.P
	main := p.Func("", "main")
	if main == nil {
		c.Undecided("main is not found")
		return
	}
	uses := 0
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				n := staticName(in)
				prints := n == "fmt.Print" || n == "fmt.Printf" || n == "fmt.Println"
				if prints && !(fn == main && !reachesServe(p, b)) {
					c.Report("prints/"+shortFn(fn), p.InstrPos(in), "it prints to standard output, which carries the protocol", nil)
				}
				if prints {
					c.Seen("prints outside of serving", shortFn(fn))
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.String() != "os.Stdout" {
						continue
					}
					uses++
					ld, ok := in.(*ssa.UnOp)
					if !ok {
						c.Report("stdout-changed/"+shortFn(fn), p.InstrPos(in), "standard output is replaced", nil)
						continue
					}
					if !onlyToStream(ld, 0) {
						c.Report("stdout-used/"+shortFn(fn), p.InstrPos(in), "standard output is used for something other than the stream of the protocol", nil)
					} else {
						c.Seen("streams on standard output", shortFn(fn))
					}
				}
			}
		}
	}
	c.AtLeast("streams on standard output", 1)
}

func onlyToStream(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface:
			if !onlyToStream(i, depth+1) {
				return false
			}
		case *ssa.ChangeInterface:
			if !onlyToStream(i, depth+1) {
				return false
			}
		case *ssa.Phi:
			if !onlyToStream(i, depth+1) {
				return false
			}
		case ssa.CallInstruction:
			f := i.Common().StaticCallee()
			if f == nil || !inRepo(f) || f.Signature.Results().Len() != 1 {
				return false
			}
			if typeName(f.Signature.Results().At(0).Type()) != rpcPkg+".Stream" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// reachesServe tells whether the server runs after the block.
func reachesServe(p *Program, b *ssa.BasicBlock) bool {
	run := p.Method(p.Named(rpcPkg, "Conn"), "Run")
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[q] {
			continue
		}
		seen[q] = true
		for _, in := range q.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && inRepo(f) && (f == run || p.reachFrom(f, nil)[run]) {
					return true
				}
			}
		}
		work = append(work, q.Succs...)
	}
	return false
}

func init() {
	register("C08", "Path-sensitive analysis of the writers and the reader of the streams, with the text they write evaluated symbolically, and of every use of standard output.", nil, rulesStream)
}
