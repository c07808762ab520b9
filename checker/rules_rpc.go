package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is known about the connection. The anchors are the types and the
// methods of the package, everything else is found from what the code does.
type rpcAnchors struct {
	p                    *Program
	run, reply, call     *ssa.Function
	read, write, deliver *types.Func
	reach                map[*ssa.Function]bool
	bufferedResponses    bool
	chanPos              string
	parallel             *ssa.Function
}

func ifaceMethod(n *types.Named, name string) *types.Func {
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i)
		}
	}
	return nil
}

const rpcPkg = "internal/jsonrpc2"

func rpcFind(c *Ctx) *rpcAnchors {
	p := c.P
	a := &rpcAnchors{p: p}
	conn, req := p.Named(rpcPkg, "Conn"), p.Named(rpcPkg, "Request")
	a.run, a.call, a.reply = p.Method(conn, "Run"), p.Method(conn, "Call"), p.Method(req, "Reply")
	a.read, a.write = ifaceMethod(p.Named(rpcPkg, "Stream"), "Read"), ifaceMethod(p.Named(rpcPkg, "Stream"), "Write")
	a.parallel = p.Method(req, "Parallel")
	a.deliver = ifaceMethod(p.Named(rpcPkg, "Handler"), "Deliver")
	for name, ok := range map[string]bool{"Conn.Run": a.run != nil, "Conn.Call": a.call != nil, "Request.Reply": a.reply != nil, "Stream.Read": a.read != nil, "Stream.Write": a.write != nil, "Handler.Deliver": a.deliver != nil} {
		if !ok {
			c.Undecided("jsonrpc2.%s is not found", name)
			return nil
		}
	}
	a.reach = p.ReachSet(func(in ssa.Instruction) bool {
		if pkgPathOf(in.Parent()) != modPath+"/"+rpcPkg {
			return false
		}
		switch i := in.(type) {
		case *ssa.Send, *ssa.Select, *ssa.Go:
			return true
		case *ssa.UnOp:
			return i.Op.String() == "<-"
		case *ssa.Store:
			return addrClass(i.Addr) == rpcPkg+".Request.state"
		case *ssa.MapUpdate:
			return true
		case *ssa.Lookup:
			_, m := i.X.Type().Underlying().(*types.Map)
			return m
		case ssa.CallInstruction:
			if b, ok := i.Common().Value.(*ssa.Builtin); ok {
				return b.Name() == "close" || b.Name() == "delete"
			}
			if i.Common().IsInvoke() {
				m := i.Common().Method
				return m == a.read || m == a.write || m == a.deliver
			}
		}
		return false
	})
	// only the package itself is followed
	for fn := range a.reach {
		if pkgPathOf(fn) != modPath+"/"+rpcPkg {
			delete(a.reach, fn)
		}
	}
	a.bufferedResponses, a.chanPos = true, ""
	n := 0
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				mc, ok := i.(*ssa.MakeChan)
				if !ok {
					continue
				}
				if typeName(mc.Type().Underlying().(*types.Chan).Elem()) != "*"+rpcPkg+".WireResponse" {
					continue
				}
				n++
				sz, ok := mc.Size.(*ssa.Const)
				if !ok || sz.Value == nil || constant.Sign(sz.Value) <= 0 {
					a.bufferedResponses = false
					a.chanPos = p.InstrPos(mc)
				}
			}
		}
	}
	if n == 0 {
		a.bufferedResponses = false
	}
	return a
}

// wirePtr tells pointers that are nil when the peer leaves something out.
func wirePtr(t types.Type) bool {
	switch typeName(t) {
	case "*" + rpcPkg + ".ID", "*encoding/json.RawMessage", "*" + rpcPkg + ".Error":
		return true
	}
	return false
}

func incr(st *State, k string) {
	n, _ := strconv.Atoi(st.mon[k])
	if n < 3 {
		n++
	}
	st.mon[k] = strconv.Itoa(n)
}

// exploreConn follows the connection: the loop that reads messages, the
// goroutine of every request and the replies. Findings of all properties of
// the connection are collected by class, the caller picks its own.
func exploreConn(c *Ctx, want map[string]bool) {
	a := rpcFind(c)
	if a == nil {
		return
	}
	p := c.P
	report := func(class, key, pos, msg string, path []string) {
		if want[class] {
			c.Report(key, pos, msg, path)
		}
	}
	mon := &Monitor{}
	x := newEx(p, mon, a.reach)
	x.NoInline = func(fn *ssa.Function) bool {
		return pkgPathOf(fn) != modPath+"/"+rpcPkg
	}
	goDepth := 0
	mon.Prune = func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool) bool {
		// a connection always has a handler
		return !truth && goDepth > 0 && st.mon["delivered"] == "" && strings.Contains(cond.ID(), ".handlers") && loopDelivers(in, a.deliver)
	}
	mon.OnExec = func(x *Ex, st *State, fr *Frame, in ssa.Instruction) {
		var ptr ssa.Value
		switch i := in.(type) {
		case *ssa.UnOp:
			if i.Op.String() == "*" {
				ptr = i.X
			}
		case *ssa.FieldAddr:
			ptr = i.X
		}
		if ptr == nil || !wirePtr(ptr.Type()) {
			return
		}
		v := x.val(fr, ptr)
		c.Seen("dereferences of optional wire values", shortFn(fr.Fn)+" "+ptr.Type().String())
		if x.IsNil(st, v) != -1 && !strings.HasPrefix(v.Key, "as(") {
			report("survive", "nil-wire/"+shortFn(fr.Fn), p.InstrPos(in), "a value the peer may leave out is dereferenced without a check", st.Path())
		}
	}
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		name := cl.Name()
		switch {
		case cl.Iface == a.read:
			c.Seen("reads of the stream", shortFn(cl.Instr.Parent()))
			checkProcessed(c, report, p, st, cl)
			for k := range st.mon {
				if k == "launched" || k == "sent" || strings.HasPrefix(k, "deleted:") || strings.HasPrefix(k, "respchan:") {
					delete(st.mon, k)
				}
			}
			ok, bad := st.clone(), st.clone()
			ok.mon["read"] = "ok"
			bad.mon["read"] = "failed"
			ok.step(p.InstrPos(cl.Instr), "a message is read")
			bad.step(p.InstrPos(cl.Instr), "reading fails")
			return []Out{
				{St: ok, Val: mkTuple(mkNonNil("data("+cl.Tok+")"), mkSym("n("+cl.Tok+")"), mkNil())},
				{St: bad, Val: mkTuple(mkNil(), mkSym("n("+cl.Tok+")"), mkNonNil("readerr("+cl.Tok+")"))},
			}, true
		case cl.Iface == a.deliver:
			c.Seen("deliveries", shortFn(cl.Instr.Parent()))
			pos := p.InstrPos(cl.Instr)
			if goDepth == 0 {
				report("wedge", "deliver-in-reader/"+shortFn(cl.Instr.Parent()), pos, "a handler is called by the goroutine that reads messages, nothing is read until it returns", st.Path())
			} else {
				checkWaited(report, p, st, cl)
			}
			st.mon["delivered"] = "1"
			var outs []Out
			ret := func() *V { return mkSym("delivers(" + cl.Tok + ")") }
			outs = append(outs, Out{St: st.clone(), Val: ret()})
			if a.parallel != nil {
				cc := *cl
				s := st.clone()
				s.step(pos, "the handler lets the next message proceed")
				for _, o := range x.Inline(cl.Frame, &cc, a.parallel, []*V{cl.Args[1]}, nil, s, true) {
					if o.Kind == XReturn {
						outs = append(outs, Out{St: o.St, Val: ret()})
					}
				}
			}
			cur := []*State{st}
			for n := 1; n <= 2; n++ {
				var next []*State
				for _, s := range cur {
					s = s.clone()
					s.step(pos, "the handler replies")
					args := []*V{cl.Args[1], mkNonNil("hctx(" + cl.Tok + ")"), mkSym("hres(" + cl.Tok + ")"), mkSym("herr(" + cl.Tok + ")")}
					cc := *cl
					for _, o := range x.Inline(cl.Frame, &cc, a.reply, args, nil, s, true) {
						if o.Kind == XReturn {
							next = append(next, o.St)
							outs = append(outs, Out{St: o.St.clone(), Val: ret()})
						}
					}
				}
				cur = next
			}
			return outs, true
		case cl.Iface == a.write:
			incr(st, "writes")
			pos := p.InstrPos(cl.Instr)
			st.step(pos, "a message is written")
			if goDepth > 0 {
				c.Seen("writes of replies", shortFn(cl.Instr.Parent()))
				if st.mon["respdata"] == "" || st.mon["respdata"] != cl.Args[len(cl.Args)-1].ID() {
					report("reply", "foreign-write/"+shortFn(cl.Instr.Parent()), pos, "something other than the marshalled response is written", st.Path())
				}
			}
			return []Out{{St: st, Val: mkTuple(mkSym("wn("+cl.Tok+")"), mkSym("werr("+cl.Tok+")"))}}, true
		case name == "encoding/json.Marshal" && len(cl.Args) == 1 && cl.Args[0].K == KIface && typeName(cl.Args[0].Typ) == "*"+rpcPkg+".WireResponse":
			d := mkNonNil("marshalled(" + cl.Tok + ")")
			checkResponse(report, p, x, st, cl)
			st.mon["respdata"] = d.ID()
			return []Out{{St: st, Val: mkTuple(d, mkNil())}}, true
		}
		return nil, false
	}
	mon.OnChan = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, ch, val *V, blocking bool) {
		pos := p.InstrPos(in)
		id := ch.ID()
		switch kind {
		case "close":
			if x.IsNil(st, ch) == 1 || (x.IsNil(st, ch) == 0 && strings.HasPrefix(id, "mapval(")) {
				report("survive", "close-nil/"+shortFn(fr.Fn), pos, "a channel that may be nil is closed", st.Path())
			}
			if st.mon["closed:"+id] != "" {
				report("order", "close-twice/"+shortFn(fr.Fn), pos, "a channel is closed that has been closed before", st.Path())
			}
			if goDepth > 0 {
				st.mon["goclosed:"+id] = "1"
				if st.mon["delivered"] == "" {
					report("order", "early-release/"+shortFn(fr.Fn), pos, "the next message is released before this one has been delivered", st.Path())
				}
			}
			st.mon["closed:"+id] = "1"
			st.step(pos, "closes "+clean(id))
		case "recv":
			if goDepth > 0 {
				st.mon["waited:"+id] = "1"
				st.step(pos, "waits for "+clean(id))
				return
			}
			if blocking {
				report("wedge", "reader-waits/"+shortFn(fr.Fn), pos, "the goroutine that reads messages waits on a channel", st.Path())
			}
		case "send":
			if goDepth > 0 || !blocking {
				return
			}
			c.Seen("deliveries of responses", shortFn(fr.Fn))
			incr(st, "sent")
			switch {
			case x.IsNil(st, ch) != -1 && !strings.HasPrefix(id, "chan("):
				report("wedge", "send-nil/"+shortFn(fr.Fn), pos, "the reader sends on a channel that may be nil, which blocks forever", st.Path())
			case !a.bufferedResponses:
				report("wedge", "send-unbuffered/"+shortFn(fr.Fn), pos, "the reader sends on a channel without room for the response, it waits for a caller that may be gone ("+a.chanPos+")", st.Path())
			case st.mon["sent"] != "1":
				report("wedge", "send-twice/"+shortFn(fr.Fn), pos, "the reader sends more than one response on a channel", st.Path())
			case !strings.HasPrefix(id, "mapval("):
				report("wedge", "send-unknown/"+shortFn(fr.Fn), pos, "the reader sends on a channel that is not the one of the pending call", st.Path())
			case st.mon["respchan:"+id] == "":
				report("wedge", "send-kept/"+shortFn(fr.Fn), pos, "the pending call is not removed before its response is sent, a second response would block the reader", st.Path())
			}
		}
	}
	mon.OnMap = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, m, k, v *V) {
		if goDepth > 0 {
			return
		}
		switch kind {
		case "delete":
			st.mon["deleted:"+m.ID()+"/"+k.ID()] = "1"
			for key := range st.mon {
				if strings.HasPrefix(key, "looked:") && st.mon[key] == m.ID()+"/"+k.ID() {
					st.mon["respchan:"+key[7:]] = "1"
				}
			}
		case "lookup":
			for key := range st.mon {
				if strings.HasPrefix(key, "looked:") {
					delete(st.mon, key)
				}
			}
			st.mon["looked:"+v.ID()] = m.ID() + "/" + k.ID()
		}
	}
	mon.OnGo = func(x *Ex, st *State, cl *Call) {
		if goDepth > 0 || cl.Fn == nil || !a.reach[cl.Fn] {
			return
		}
		pos := p.InstrPos(cl.Instr)
		goDepth++
		s := st.clone()
		delete(s.mon, "delivered")
		delete(s.mon, "writes")
		delete(s.mon, "respdata")
		reported := false
		id := requestID(x, cl, s)
		if id == nil {
			report("reply", "no-request", pos, "the request the goroutine handles is not found", nil)
			reported = true
		} else {
			s.mon["reqid"] = id.ID()
		}
		next := ""
		outs := x.Inline(cl.Frame, cl, cl.Fn, cl.Args, boundElts(cl.FnVal), s, true)
		goDepth--
		n := 0
		for _, o := range outs {
			if o.Kind != XReturn {
				continue
			}
			n++
			c.Seen("ends of the request goroutine", strconv.Itoa(n))
			if o.St.mon["delivered"] == "" {
				report("order", "undelivered/"+shortFn(cl.Fn), pos, "a request is finished without having been offered to the handlers", o.St.Path())
			}
			var closed []string
			for _, k := range sortedKeys(o.St.mon) {
				if strings.HasPrefix(k, "goclosed:") {
					closed = append(closed, k[9:])
				}
			}
			switch {
			case len(closed) != 1:
				report("order", "not-released/"+shortFn(cl.Fn), pos, fmt.Sprintf("a request ends without releasing the next message (%d channels closed)", len(closed)), o.St.Path())
			case next == "":
				next = closed[0]
			case next != closed[0]:
				report("order", "released-differently/"+shortFn(cl.Fn), pos, "different paths release different messages", o.St.Path())
			}
			if reported || id == nil {
				continue
			}
			writes := o.St.mon["writes"]
			if writes == "" {
				writes = "0"
			}
			switch x.IsNil(o.St, id) {
			case 1:
				if writes != "0" {
					report("reply", "notification-answered", pos, "a notification is answered", o.St.Path())
				}
			case -1:
				if writes != "1" {
					report("reply", "replies/"+writes, pos, "a request is answered "+writes+" times", o.St.Path())
				}
			default:
				report("reply", "blind-reply", pos, "a message is finished with "+writes+" answers whether it is a request or a notification", o.St.Path())
			}
		}
		c.counts["ends of request goroutines"] += n
		st.mon["prev"] = next
		incr(st, "launched")
		st.step(pos, "the request is handed to its goroutine")
	}
	exits := x.Run(a.run, x.RootArgs(a.run), nil, newState())
	c.Explored(x)
	for _, e := range exits {
		if e.Kind == XPanic {
			report("survive", "reader-panics", p.InstrPos(e.Instr), "the goroutine that reads messages panics", e.St.Path())
			continue
		}
		if e.St.mon["read"] != "failed" {
			report("wedge", "reader-stops", p.InstrPos(e.Instr), "the connection stops reading although the stream has not failed", e.St.Path())
		}
	}
	c.AtLeast("reads of the stream", 1)
	c.AtLeast("deliveries", 1)
	c.AtLeast("writes of replies", 1)
	c.AtLeast("ends of the request goroutine", 2)
	if want["wedge"] {
		c.AtLeast("deliveries of responses", 1)
	}
}

// loopDelivers tells whether the branch is the test of a loop that delivers.
func loopDelivers(i *ssa.If, deliver *types.Func) bool {
	head := i.Block()
	seen := map[*ssa.BasicBlock]bool{head: true}
	work := []*ssa.BasicBlock{head.Succs[0]}
	found, back := false, false
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == head {
			back = true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method == deliver {
				found = true
			}
		}
		work = append(work, b.Succs...)
	}
	return found && back
}

// requestID finds the ID of the request a goroutine handles.
func requestID(x *Ex, cl *Call, st *State) *V {
	var found *V
	try := func(v *V) {
		v = v.Strip()
		if v == nil || v.K != KAddr {
			return
		}
		for _, l := range []string{v.Key, ""} {
			if l == "" {
				// a captured variable that holds the request
				w, ok := st.mem[v.Key]
				if !ok || w.K != KAddr {
					return
				}
				l = w.Key
			}
			if st.cls[l] == "elem:*"+rpcPkg+".Request" {
				t := x.P.Named(rpcPkg, "Request")
				idt := types.Type(types.NewPointer(x.P.Named(rpcPkg, "ID")))
				_ = t
				found = x.load(st, &V{K: KAddr, Key: l + ".WireRequest.ID", Cls: rpcPkg + ".WireRequest.ID"}, idt)
			}
		}
	}
	for _, v := range cl.Args {
		try(v)
	}
	for _, v := range boundElts(cl.FnVal) {
		try(v)
	}
	return found
}

func checkWaited(report func(class, key, pos, msg string, path []string), p *Program, st *State, cl *Call) {
	pos := p.InstrPos(cl.Instr)
	prev := st.mon["prev"]
	n := 0
	for _, k := range sortedKeys(st.mon) {
		if !strings.HasPrefix(k, "waited:") {
			continue
		}
		ch := k[7:]
		if ch != prev && st.mon["closed:"+ch] == "" {
			report("order", "waits-forever", pos, "a request waits for something that does not happen when the message before it is done", st.Path())
		}
		n++
	}
	if prev != "" && st.mon["waited:"+prev] == "" {
		report("order", "does-not-wait", pos, "a message is delivered without waiting for the message before it", st.Path())
	}
}

// checkProcessed checks at the next read what became of the last message.
func checkProcessed(c *Ctx, report func(class, key, pos, msg string, path []string), p *Program, st *State, cl *Call) {
	if st.mon["read"] != "ok" {
		return
	}
	pos := p.InstrPos(cl.Instr)
	launched, sent := st.mon["launched"], st.mon["sent"]
	for k, v := range st.facts {
		if !strings.HasPrefix(k, "eq(") || strings.Contains(k, "~;") {
			continue
		}
		if strings.Contains(k, ".Method") && strings.Contains(k, mkStr("").ID()) {
			if !v && launched != "1" {
				report("wedge", "request-dropped", pos, "a message with a method is not handed to the handlers", st.Path())
			}
			if v && launched == "1" {
				report("wedge", "response-as-request", pos, "a message without a method is handed to the handlers", st.Path())
			}
		}
		if strings.Contains(k, "mapval(") && strings.Contains(k, ".pending") && strings.Contains(k, "nil") && !v && sent != "1" {
			report("wedge", "response-dropped", pos, "the response to a pending call is not given to it", st.Path())
		}
	}
}

// checkResponse checks the response that is about to be marshalled.
func checkResponse(report func(class, key, pos, msg string, path []string), p *Program, x *Ex, st *State, cl *Call) {
	pos := p.InstrPos(cl.Instr)
	fn := shortFn(cl.Instr.Parent())
	loc := locOf(cl.Args[0])
	ld := func(f string, t types.Type) *V {
		return x.load(st, &V{K: KAddr, Key: loc + "." + f, Cls: rpcPkg + ".WireResponse." + f}, t)
	}
	raw := types.Type(types.NewPointer(types.Typ[types.Int]))
	id := ld("ID", raw)
	if want := st.mon["reqid"]; want != "" && id.ID() != want {
		report("reply", "foreign-id/"+fn, pos, "the response does not carry the ID of its request", st.Path())
	}
	res, er := ld("Result", raw), ld("Error", raw)
	nres, ner := x.IsNil(st, res), x.IsNil(st, er)
	if strings.HasPrefix(er.Key, "as(") {
		ner = -1
	}
	if !(nres == 1 && ner == -1) && !(nres == -1 && ner == 1) {
		report("reply", "result-and-error/"+fn, pos, "a response is sent that does not have exactly one of result and error", st.Path())
	}
}

func init() {
	rpcAssume := []string{
		"encoding/json marshals a response made of an ID, raw JSON and an error without failing",
		"writing to the stream is the last step of an answer; that the operating system delivers it is not analysed",
		"a connection has at least one handler, NewConn installs the default one",
		"handlers call Reply at most twice per delivery in the analysis, more calls take the same guarded path",
	}
	register("C01", "Path-sensitive typestate analysis of the reading loop of the connection and of the goroutine every request runs in, with Reply inlined at every point at which a handler may call it zero, one or two times.", rpcAssume, func(c *Ctx) {
		c.Rule("on every path through the goroutine of a message, a request (ID present) writes exactly one response and a notification none, whatever its handlers do")
		c.Rule("the response carries the ID of its request and exactly one of result and error")
		c.Rule("Reply is only reached from the goroutine of the request")
		exploreConn(c, map[string]bool{"reply": true})
		replyNotFromGoroutines(c)
	})
	register("C09", "Path-sensitive typestate analysis of calls made to the client.", rpcAssume[:2], func(c *Ctx) {
		c.Rule("a call is registered under the ID it is sent with before it is written, and is removed again however it ends")
		c.Rule("a call that has been written waits for both its response and its context, and for nothing else")
		c.Rule("success is reported only for a response that is not an error, after its result has been decoded")
		c.Rule("every call is sent with an ID of its own")
		exploreCall(c)
	})
	register("C03", "Path-sensitive analysis of the goroutine that reads messages.", rpcAssume, func(c *Ctx) {
		c.Rule("the reading loop ends only when reading the stream fails")
		c.Rule("the reading goroutine never waits on a channel, never calls a handler itself and sends a response only to the channel of the pending call, which has room for it and is forgotten first")
		c.Rule("every message with a method is handed to exactly one goroutine, every response of a pending call is given to it")
		c.Rule("values the peer may leave out are checked before they are dereferenced, channels before they are closed")
		exploreConn(c, map[string]bool{"wedge": true, "survive": true})
	})
	register("C04", "Path-sensitive typestate analysis of the channel every message is released by.", rpcAssume, func(c *Ctx) {
		c.Rule("a message is delivered only after its goroutine has waited for the channel that the previous message closes")
		c.Rule("every path of the goroutine closes the channel of the next message exactly once, and not before delivering")
		c.Rule("handlers release the next message only by replying")
		c.Rule("the text of open documents is not changed from goroutines started by handlers")
		exploreConn(c, map[string]bool{"order": true})
		releaseOnlyByReply(c)
	})
}

// exploreCall follows a call to the client.
func exploreCall(c *Ctx) {
	a := rpcFind(c)
	if a == nil {
		return
	}
	p := c.P
	mon := &Monitor{}
	x := newEx(p, mon, a.reach)
	x.NoInline = func(fn *ssa.Function) bool { return pkgPathOf(fn) != modPath+"/"+rpcPkg }
	resultParam := ""
	reqID := func(st *State) string { return st.mon["id"] }
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		pos := p.InstrPos(cl.Instr)
		switch {
		case cl.Iface == a.write:
			c.Seen("writes of calls", shortFn(cl.Instr.Parent()))
			switch {
			case st.mon["registered"] == "":
				c.Report("sent-unregistered", pos, "the request is sent before anybody waits for its response", st.Path())
			case st.mon["wiredata"] == "" || st.mon["wiredata"] != cl.Args[len(cl.Args)-1].ID():
				c.Report("sent-other", pos, "something other than the marshalled request is sent", st.Path())
			}
			ok, bad := st.clone(), st.clone()
			ok.mon["written"] = "1"
			return []Out{{St: ok, Val: mkTuple(mkSym("wn("+cl.Tok+")"), mkNil())}, {St: bad, Val: mkTuple(mkSym("wn("+cl.Tok+")"), mkNonNil("werr("+cl.Tok+")"))}}, true
		case cl.Name() == "encoding/json.Marshal" && len(cl.Args) == 1 && cl.Args[0].K == KIface && typeName(cl.Args[0].Typ) == "*"+rpcPkg+".WireRequest":
			loc := locOf(cl.Args[0])
			id := x.load(st, &V{K: KAddr, Key: loc + ".ID", Cls: rpcPkg + ".WireRequest.ID"}, types.NewPointer(types.Typ[types.Int]))
			if x.IsNil(st, id) != -1 {
				c.Report("no-id", pos, "a call is sent without an ID", st.Path())
			} else {
				num := x.load(st, &V{K: KAddr, Key: id.Key + ".Number", Cls: rpcPkg + ".ID.Number"}, types.Typ[types.Int64])
				if !strings.HasPrefix(num.Key, "op(") && st.mon["unique:"+num.Key] == "" {
					c.Report("constant-id", pos, "calls are sent with an ID that does not come from counting them", st.Path())
				}
				st.mon["id"] = id.Key
			}
			d := mkNonNil("marshalled(" + cl.Tok + ")")
			st.mon["wiredata"] = d.ID()
			bad := st.clone()
			return []Out{{St: st, Val: mkTuple(d, mkNil())}, {St: bad, Val: mkTuple(mkNil(), mkNonNil("merr("+cl.Tok+")"))}}, true
		case cl.Name() == "encoding/json.Unmarshal":
			st.mon["decoded"] = "1"
			ok, bad := st.clone(), st.clone()
			x.applyEffects(cl.Frame, cl, ok)
			return []Out{{St: ok, Val: mkNil()}, {St: bad, Val: mkNonNil("uerr(" + cl.Tok + ")")}}, true
		}
		return nil, false
	}
	mon.OnCall = func(x *Ex, st *State, cl *Call) {
		n := cl.Name()
		if (strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ".Add")) && cl.Args[len(cl.Args)-1].ID() != mkInt(0).ID() {
			st.mon["unique:res("+cl.Tok+")"] = "1"
		}
	}
	mon.OnMap = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, m, k, v *V) {
		if !strings.Contains(m.ID(), ".pending") {
			return
		}
		pos := p.InstrPos(in)
		switch kind {
		case "update":
			c.Seen("registrations of calls", shortFn(fr.Fn))
			if want := reqID(st); want != "" && !sameID(x, st, want, k) {
				c.Report("registered-as-other", pos, "the call is registered under another ID than it is sent with", st.Path())
			}
			st.mon["registered"] = v.ID()
			st.mon["regkey"] = k.ID()
			st.step(pos, "registers the call")
		case "delete":
			if st.mon["regkey"] == k.ID() {
				st.mon["deregistered"] = "1"
			}
			st.step(pos, "removes the call")
		}
	}
	mon.OnChan = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, ch, val *V, blocking bool) {
		pos := p.InstrPos(in)
		if kind != "recv" {
			return
		}
		if sel, ok := in.(*ssa.Select); ok {
			hasResp, hasDone := false, false
			for _, s := range sel.States {
				v := x.val(fr, s.Chan)
				hasResp = hasResp || v.ID() == st.mon["registered"]
				hasDone = hasDone || strings.HasPrefix(v.ID(), "done(") || isDoneChan(s.Chan)
			}
			if hasResp && hasDone {
				c.Seen("waits for responses", shortFn(fr.Fn))
				if ch.ID() == st.mon["registered"] {
					st.mon["got"] = "response"
				} else {
					st.mon["got"] = "cancelled"
				}
				return
			}
			if !sel.Blocking {
				return
			}
		}
		c.Report("waits-only", pos, "the call waits without being ended by both its response and its context", st.Path())
	}
	mon.OnBranch = func(x *Ex, st *State, fr *Frame, in *ssa.If, cond *V, truth bool) {
		k := cond.Strip()
		if k.K != KBool || !strings.HasPrefix(k.Key, "eq(") || !strings.Contains(k.Key, "nil") || truth == k.Neg {
			return
		}
		switch {
		case strings.Contains(k.Key, "recv(") && strings.Contains(k.Key, ".Error)"):
			st.mon["okerr"] = "1"
		case strings.Contains(k.Key, "recv(") && strings.Contains(k.Key, ".Result)"), strings.Contains(k.Key, resultParam):
			st.mon["absent"] = "1"
		}
	}
	args := x.RootArgs(a.call)
	resultParam = args[len(args)-1].Key
	exits := x.Run(a.call, args, nil, newState())
	c.Explored(x)
	for _, e := range exits {
		if e.Kind != XReturn || len(e.Vals) != 1 {
			continue
		}
		pos := p.InstrPos(e.Instr)
		c.counts["ends of calls"]++
		errv := e.Vals[0]
		m := e.St.mon
		if m["registered"] != "" && m["deregistered"] == "" {
			c.Report("stays-registered", pos, "the call ends and stays registered as pending", e.St.Path())
		}
		if m["written"] != "" && m["got"] == "" {
			c.Report("does-not-wait", pos, "the call ends without having waited for its response", e.St.Path())
		}
		if m["got"] == "cancelled" && x.IsNil(e.St, errv) == 1 {
			c.Report("cancel-as-success", pos, "a cancelled call reports success", e.St.Path())
		}
		if m["got"] == "response" && x.IsNil(e.St, errv) == 1 {
			okErr, absent := m["okerr"] != "", m["absent"] != ""
			if !okErr {
				c.Report("error-as-success", pos, "the call reports success without having found that the response is not an error", e.St.Path())
			}
			if m["decoded"] == "" && !absent {
				c.Report("undecoded", pos, "the call reports success without decoding the result", e.St.Path())
			}
		}
	}
	c.AtLeast("writes of calls", 1)
	c.AtLeast("registrations of calls", 1)
	c.AtLeast("waits for responses", 1)
	// IDs are made by counting
	n := 0
	for _, fn := range p.Repo {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && addrClass(st.Addr) == rpcPkg+".Conn.seq" {
					c.Report("seq-store/"+shortFn(fn), p.InstrPos(in), "the counter of calls is set other than by atomically adding to it", nil)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(staticName(in), "sync/atomic.") && !strings.HasPrefix(staticName(in), "(*sync/atomic.") {
					continue
				}
				if len(ci.Common().Args) > 0 && addrClass(ci.Common().Args[0]) == rpcPkg+".Conn.seq" {
					n++
					c.Seen("uses of the counter of calls", shortFn(fn))
				}
			}
		}
	}
	_ = n
}

// sameID tells whether the key is the value of the ID the request points to.
func sameID(x *Ex, st *State, loc string, k *V) bool {
	v := x.load(st, &V{K: KAddr, Key: loc, Cls: "elem:*" + rpcPkg + ".ID"}, x.P.Named(rpcPkg, "ID"))
	return v.ID() == k.ID()
}

func isDoneChan(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Common().IsInvoke() && fnObjName(c.Common().Method) == "(context.Context).Done"
}

// replyNotFromGoroutines: the state of a request is not synchronised, so it
// must only be used by the goroutine that handles it.
func replyNotFromGoroutines(c *Ctx) {
	p := c.P
	reply := p.Method(p.Named(rpcPkg, "Request"), "Reply")
	if reply == nil {
		return
	}
	for _, m := range p.Implementors(ifaceMethod(p.Named(rpcPkg, "Handler"), "Deliver")) {
		for fn := range p.reachFrom(m, nil) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					g, ok := in.(*ssa.Go)
					if !ok || !inRepo(fn) {
						continue
					}
					c.Seen("goroutines started by handlers", shortFn(fn))
					for _, t := range p.goTargets(g) {
						if p.reachFrom(t, nil)[reply] {
							c.Report("reply-elsewhere/"+shortFn(fn), p.InstrPos(in), "a goroutine started while a request is handled replies to it, two goroutines decide whether it has been answered", nil)
						}
					}
				}
			}
		}
	}
}

func releaseOnlyByReply(c *Ctx) {
	p := c.P
	reply := p.Method(p.Named(rpcPkg, "Request"), "Reply")
	apply := p.Method(p.Named("analysis", "Document"), "ApplyChanges")
	if apply == nil {
		c.Undecided("Document.ApplyChanges is not found")
	}
	for _, m := range p.Implementors(ifaceMethod(p.Named(rpcPkg, "Handler"), "Deliver")) {
		c.Seen("handlers", shortFn(m))
		stop := map[*ssa.Function]bool{reply: true}
		for fn := range p.reachFrom(m, stop) {
			if !inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && fromField(ci.Common().Args[0], rpcPkg+".Request.nextRequest") {
							c.Report("released-by-handler/"+shortFn(m), p.InstrPos(in), shortFn(m)+" can release the next message before it has answered this one", nil)
						}
					}
					if g, ok := in.(*ssa.Go); ok && apply != nil {
						for _, t := range p.goTargets(g) {
							if p.reachFrom(t, nil)[apply] {
								c.Report("async-change/"+shortFn(fn), p.InstrPos(in), "the text of a document is changed by a goroutine, messages that follow do not see the change", nil)
							}
						}
					}
				}
			}
		}
	}
	c.AtLeast("handlers", 2)
}

// fromField tells whether a value is loaded from a field of the class.
func fromField(v ssa.Value, class string) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && addrClass(u.X) == class
}

// goTargets are the functions a go statement may start.
func (p *Program) goTargets(g *ssa.Go) []*ssa.Function {
	if f := g.Common().StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return p.siteCallees(g)
}

// reachFrom are the functions that can be reached by calls, closures
// included, not entering the functions of stop.
func (p *Program) reachFrom(fn *ssa.Function, stop map[*ssa.Function]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if !inRepo(f) {
			continue
		}
		for _, s := range p.succs(f) {
			if !seen[s] && !stop[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return seen
}
