package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const protoPkg = "internal/lsp/protocol"

type methodRow struct {
	wire   string
	method string // of the interface
	params string // type the params decode to, empty when there are none
	req    bool   // a request, a notification otherwise
}

// serverMethods is what the Language Server Protocol says the server gets.
var serverMethods = []methodRow{
	{"workspace/didChangeWorkspaceFolders", "DidChangeWorkspaceFolders", "DidChangeWorkspaceFoldersParams", false},
	{"initialized", "Initialized", "InitializedParams", false},
	{"exit", "Exit", "", false},
	{"workspace/didChangeConfiguration", "DidChangeConfiguration", "DidChangeConfigurationParams", false},
	{"textDocument/didOpen", "DidOpen", "DidOpenTextDocumentParams", false},
	{"textDocument/didChange", "DidChange", "DidChangeTextDocumentParams", false},
	{"textDocument/didClose", "DidClose", "DidCloseTextDocumentParams", false},
	{"textDocument/didSave", "DidSave", "DidSaveTextDocumentParams", false},
	{"textDocument/willSave", "WillSave", "WillSaveTextDocumentParams", false},
	{"workspace/didChangeWatchedFiles", "DidChangeWatchedFiles", "DidChangeWatchedFilesParams", false},
	{"textDocument/implementation", "Implementation", "ImplementationParams", true},
	{"textDocument/typeDefinition", "TypeDefinition", "TypeDefinitionParams", true},
	{"textDocument/documentColor", "DocumentColor", "DocumentColorParams", true},
	{"textDocument/colorPresentation", "ColorPresentation", "ColorPresentationParams", true},
	{"textDocument/foldingRange", "FoldingRange", "FoldingRangeParams", true},
	{"textDocument/declaration", "Declaration", "DeclarationParams", true},
	{"textDocument/selectionRange", "SelectionRange", "SelectionRangeParams", true},
	{"initialize", "Initialize", "InitializeParams", true},
	{"shutdown", "Shutdown", "", true},
	{"textDocument/willSaveWaitUntil", "WillSaveWaitUntil", "WillSaveTextDocumentParams", true},
	{"textDocument/completion", "Completion", "CompletionParams", true},
	{"completionItem/resolve", "Resolve", "CompletionItem", true},
	{"textDocument/hover", "Hover", "HoverParams", true},
	{"textDocument/signatureHelp", "SignatureHelp", "SignatureHelpParams", true},
	{"textDocument/definition", "Definition", "DefinitionParams", true},
	{"textDocument/references", "References", "ReferenceParams", true},
	{"textDocument/documentHighlight", "DocumentHighlight", "DocumentHighlightParams", true},
	{"textDocument/documentSymbol", "DocumentSymbol", "DocumentSymbolParams", true},
	{"textDocument/codeAction", "CodeAction", "CodeActionParams", true},
	{"workspace/symbol", "Symbol", "WorkspaceSymbolParams", true},
	{"textDocument/codeLens", "CodeLens", "CodeLensParams", true},
	{"codeLens/resolve", "ResolveCodeLens", "CodeLens", true},
	{"textDocument/documentLink", "DocumentLink", "DocumentLinkParams", true},
	{"documentLink/resolve", "ResolveDocumentLink", "DocumentLink", true},
	{"textDocument/formatting", "Formatting", "DocumentFormattingParams", true},
	{"textDocument/rangeFormatting", "RangeFormatting", "DocumentRangeFormattingParams", true},
	{"textDocument/onTypeFormatting", "OnTypeFormatting", "DocumentOnTypeFormattingParams", true},
	{"textDocument/rename", "Rename", "RenameParams", true},
	{"textDocument/prepareRename", "PrepareRename", "PrepareRenameParams", true},
	{"workspace/executeCommand", "ExecuteCommand", "ExecuteCommandParams", true},
	{"documentSignatures", "DocumentSignatures", "TextDocumentIdentifier", true},
}

// clientMethods is what the client gets.
var clientMethods = []methodRow{
	{"window/showMessage", "ShowMessage", "ShowMessageParams", false},
	{"window/logMessage", "LogMessage", "LogMessageParams", false},
	{"telemetry/event", "Event", "interface{}", false},
	{"textDocument/publishDiagnostics", "PublishDiagnostics", "PublishDiagnosticsParams", false},
	{"workspace/workspaceFolders", "WorkspaceFolders", "", true},
	{"workspace/configuration", "Configuration", "ParamConfig", true},
	{"client/registerCapability", "RegisterCapability", "RegistrationParams", true},
	{"client/unregisterCapability", "UnregisterCapability", "UnregistrationParams", true},
	{"window/showMessageRequest", "ShowMessageRequest", "ShowMessageRequestParams", true},
	{"workspace/applyEdit", "ApplyEdit", "ApplyWorkspaceEditParams", true},
}

func rulesDispatch(c *Ctx) {
	c.Rule("for every method of the protocol, every path of the server's Deliver decodes the params of the message into the params type of the method, calls exactly the handler method of that name with them, and answers a request with the result and the error of that call")
	c.Rule("a message whose params do not decode, that is cancelled or already delivered reaches no handler method and is not answered with success")
	c.Rule("an unknown method reaches no handler method and is left to the next handler")
	c.Rule("every message to the client is sent under the method name, and as the kind (request, notification), the protocol gives it, with the params passed in, and its error is passed on")
	p := c.P
	srv := p.Named(protoPkg, "Server")
	if srv == nil {
		c.Undecided("protocol.Server is not found")
		return
	}
	var deliver *ssa.Function
	// the handler that holds a Server
	for _, m := range p.Implementors(ifaceMethod(p.Named(rpcPkg, "Handler"), "Deliver")) {
		n := derefNamed(m.Signature.Recv().Type())
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), srv) {
				deliver = m
			}
		}
	}
	if deliver == nil {
		c.Undecided("no handler of a protocol.Server is found")
		return
	}
	for _, row := range serverMethods {
		if ifaceMethod(srv, row.method) == nil {
			c.Report("no-method/"+row.method, "-", "the server has no method "+row.method, nil)
			continue
		}
		dispatchOne(c, deliver, srv, row, false)
	}
	dispatchOne(c, deliver, srv, methodRow{wire: "no/suchMethod", req: true}, false)
	dispatchOne(c, deliver, srv, methodRow{wire: "textDocument/hover", method: "Hover", params: "HoverParams", req: true}, true)
	clientCalls(c)
}

func dispatchOne(c *Ctx, deliver *ssa.Function, srv *types.Named, row methodRow, delivered bool) {
	p := c.P
	reply := p.Method(p.Named(rpcPkg, "Request"), "Reply")
	isServer := map[*types.Func]string{}
	it := srv.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		isServer[it.Method(i)] = it.Method(i).Name()
	}
	reach := p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || pkgPathOf(in.Parent()) != modPath+"/"+protoPkg {
			return false
		}
		if ci.Common().IsInvoke() {
			return isServer[ci.Common().Method] != ""
		}
		f := ci.Common().StaticCallee()
		return f == reply || f != nil && fnName(f) == "encoding/json.Unmarshal"
	})
	mon := &Monitor{}
	x := newEx(p, mon, reach)
	x.NoInline = func(fn *ssa.Function) bool {
		path := pkgPathOf(fn)
		return path != modPath+"/"+protoPkg && !(path == modPath+"/"+rpcPkg && small(fn))
	}
	rep := func(key, pos, msg string, st *State) {
		c.Report(key+"/"+row.wire, pos, row.wire+": "+msg, st.Path())
	}
	args := x.RootArgs(deliver)
	if len(args) != 4 {
		c.Undecided("Deliver takes %d arguments", len(args))
		return
	}
	args[2].NonNil = true
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		pos := p.InstrPos(cl.Instr)
		name := cl.Name()
		switch {
		case cl.Iface != nil && isServer[cl.Iface] != "":
			m := isServer[cl.Iface]
			c.Seen("calls of handler methods", m)
			if delivered {
				rep("delivered-twice", pos, "a message that has been delivered is handled again", st)
			}
			if st.mon["called"] != "" {
				rep("called-twice", pos, "the message is handled more than once", st)
			}
			st.mon["called"] = m
			if m != row.method {
				rep("wrong-handler", pos, "the message is given to "+m, st)
			}
			switch st.mon["params"] {
			case "failed":
				rep("undecoded", pos, "the handler is called although the params could not be decoded", st)
			}
			sig := cl.Iface.Type().(*types.Signature)
			if sig.Params().Len() > 1 {
				got := locOf(cl.Args[1])
				if st.mon["params"] != got {
					rep("foreign-params", pos, "the handler is not given the params of the message", st)
				}
				if want := "*" + protoPkg + "." + row.params; typeName(sig.Params().At(1).Type()) != want {
					rep("wrong-params", pos, "the handler takes "+typeName(sig.Params().At(1).Type())+", not "+want, st)
				}
			}
			r := x.freshResult(cl)
			n := sig.Results().Len()
			errv := r
			if n > 1 {
				errv = r.Elts[n-1]
				st.mon["result"] = r.Elts[0].ID()
			}
			st.mon["error"] = errv.ID()
			st.step(pos, "calls "+m)
			return []Out{{St: st, Val: r}}, true
		case cl.Fn == reply && reply != nil:
			st.mon["replies"] += "+"
			st.step(pos, "replies")
			res, er := cl.Args[2].Strip(), cl.Args[3].Strip()
			if locOf(cl.Args[0]) != args[2].Key {
				rep("other-request", pos, "another request is answered", st)
			}
			if st.mon["called"] != "" {
				if st.mon["result"] != "" && res.ID() != st.mon["result"] {
					rep("other-result", pos, "the request is not answered with the result of its handler", st)
				}
				if er.ID() != st.mon["error"] {
					rep("other-error", pos, "the request is not answered with the error of its handler", st)
				}
			} else if x.IsNil(st, er) != -1 {
				rep("empty-success", pos, "a request that has not been handled is answered with success", st)
			}
			return []Out{{St: st, Val: mkSym("rerr(" + cl.Tok + ")")}}, true
		case name == "encoding/json.Unmarshal":
			c.Seen("decodings of params", shortFn(cl.Instr.Parent()))
			want := "*(*(" + args[2].Key + ".WireRequest.Params)"
			src := cl.Args[0].Strip()
			if !strings.Contains(src.ID(), args[2].Key) && !strings.Contains(src.ID(), "#a") && !isAbsent(src) {
				rep("foreign-source", pos, "the params are decoded from something other than the message ("+clean(src.ID())+")", st)
			}
			_ = want
			dst := cl.Args[1].Strip()
			if t := cl.Args[1].Typ; t != nil && row.params != "" && !delivered {
				if w := "*" + protoPkg + "." + row.params; typeName(t) != w && typeName(t) != "*"+row.params {
					rep("wrong-type", pos, "the params are decoded to "+typeName(t)+", not "+w, st)
				}
			}
			ok, bad := st.clone(), st.clone()
			x.havocLoc(ok, dst.Key, cl.Tok)
			ok.mon["params"] = dst.Key
			bad.mon["params"] = "failed"
			bad.step(pos, "the params do not decode")
			return []Out{{St: ok, Val: mkNil()}, {St: bad, Val: mkNonNil("perr(" + cl.Tok + ")")}}, true
		case name == "(context.Context).Err":
			ok, bad := st.clone(), st.clone()
			bad.mon["cancelled"] = "1"
			bad.step(pos, "the message has been cancelled")
			return []Out{{St: ok, Val: mkNil()}, {St: bad, Val: mkNonNil("cerr(" + cl.Tok + ")")}}, true
		}
		return nil, false
	}
	st := newState()
	ms := x.load(st, &V{K: KAddr, Key: args[2].Key + ".WireRequest.Method", Cls: rpcPkg + ".WireRequest.Method"}, types.Typ[types.String])
	if !x.Assume(st, x.cond(token.EQL, ms, mkStr(row.wire)), true) {
		c.Undecided("method %s", row.wire)
		return
	}
	args[3] = mkBoolConst(delivered)
	params := x.load(st, &V{K: KAddr, Key: args[2].Key + ".WireRequest.Params", Cls: rpcPkg + ".WireRequest.Params"}, types.NewPointer(types.Typ[types.Int]))
	exits := x.Run(deliver, args, nil, st)
	c.Explored(x)
	c.counts["method explorations"]++
	handled := false
	for _, e := range exits {
		if e.Kind != XReturn || len(e.Vals) != 1 {
			rep("panics", p.InstrPos(e.Instr), "delivering the message panics or ends the process", e.St)
			continue
		}
		m := e.St.mon
		pos := p.InstrPos(e.Instr)
		ret := e.Vals[0]
		isTrue := x.Known(e.St, ret) == 1
		isFalse := x.Known(e.St, ret) == -1
		if row.method == "" || delivered {
			if m["cancelled"] != "" {
				continue
			}
			if m["called"] != "" {
				rep("unknown-handled", pos, "a message that is not for a handler reaches "+m["called"], e.St)
			}
			if !isFalse && m["replies"] == "" {
				rep("claimed", pos, "the message is claimed as delivered although nothing was done with it", e.St)
			}
			continue
		}
		if m["called"] == "" {
			paramless := row.params == "" && x.IsNil(e.St, params) == -1
			if m["cancelled"] == "" && m["params"] != "failed" && !paramless && m["replies"] == "" {
				rep("unhandled", pos, "the message reaches no handler method", e.St)
			}
			if m["cancelled"] == "" && m["params"] != "failed" && !paramless && m["replies"] != "" {
				rep("refused", pos, "the message is answered with an error instead of being handled", e.St)
			}
			if row.req && !isTrue && m["replies"] == "" && m["cancelled"] == "" {
				rep("forgotten", pos, "the request is neither handled nor answered", e.St)
			}
			continue
		}
		handled = true
		if row.req && m["replies"] != "+" {
			rep("reply-count", pos, fmt.Sprintf("the request is answered %d times by its handler", len(m["replies"])), e.St)
		}
		if !row.req && m["replies"] != "" {
			rep("notification-reply", pos, "the notification is answered", e.St)
		}
		if !isTrue {
			rep("unclaimed", pos, "the message has been handled and is offered to the next handler", e.St)
		}
	}
	if row.method != "" && !delivered && !handled {
		rep("never-handled", p.Pos(deliver.Pos()), "no path handles the message", newState())
	}
}

// isAbsent tells raw JSON made up for missing params.
func isAbsent(v *V) bool {
	return v.K == KSym || v.K == KConst && v.C != nil && v.C.Kind() == constant.String
}

// clientCalls checks the messages to the client.
func clientCalls(c *Ctx) {
	p := c.P
	cli := p.Named(protoPkg, "Client")
	conn := p.Named(rpcPkg, "Conn")
	call, notify := p.Method(conn, "Call"), p.Method(conn, "Notify")
	if cli == nil || call == nil || notify == nil {
		c.Undecided("protocol.Client, Conn.Call or Conn.Notify is not found")
		return
	}
	for _, row := range clientMethods {
		im := ifaceMethod(cli, row.method)
		if im == nil {
			c.Report("no-method/"+row.method, "-", "the client has no method "+row.method, nil)
			continue
		}
		impls := p.Implementors(im)
		n := 0
		for _, m := range impls {
			if pkgPathOf(m) != modPath+"/"+protoPkg {
				continue
			}
			n++
			c.Seen("messages to the client", row.wire)
			sendOne(c, m, call, notify, row)
		}
		if n == 0 {
			c.Report("no-sender/"+row.wire, "-", "nothing sends "+row.wire, nil)
		}
	}
}

func sendOne(c *Ctx, m, call, notify *ssa.Function, row methodRow) {
	p := c.P
	mon := &Monitor{}
	x := newEx(p, mon, p.ReachSet(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && pkgPathOf(in.Parent()) == modPath+"/"+protoPkg && (ci.Common().StaticCallee() == call || ci.Common().StaticCallee() == notify)
	}))
	x.NoInline = func(fn *ssa.Function) bool { return pkgPathOf(fn) != modPath+"/"+protoPkg }
	rep := func(key, pos, msg string, st *State) {
		c.Report(key+"/"+row.wire, pos, row.wire+": "+msg, st.Path())
	}
	args := x.RootArgs(m)
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if cl.Fn != call && cl.Fn != notify {
			return nil, false
		}
		pos := p.InstrPos(cl.Instr)
		st.mon["sent"] += "+"
		if !cl.Args[2].isStr() || constant.StringVal(cl.Args[2].C) != row.wire {
			rep("wrong-name", pos, "the message is sent as "+clean(cl.Args[2].ID()), st)
		}
		if (cl.Fn == call) != row.req {
			rep("wrong-kind", pos, "the message is sent as the other of request and notification", st)
		}
		if len(args) > 2 && cl.Args[3].Strip().ID() != args[2].ID() {
			rep("other-params", pos, "the message is not sent with the params given", st)
		}
		ok, bad := st.clone(), st.clone()
		if cl.Fn == call {
			dst := cl.Args[4].Strip()
			if dst.K == KAddr {
				x.havocLoc(ok, dst.Key, cl.Tok)
				ok.mon["result"] = dst.Key
			}
		}
		bad.mon["failed"] = "1"
		bad.step(pos, "sending fails")
		return []Out{{St: ok, Val: mkNil()}, {St: bad, Val: mkNonNil("serr(" + cl.Tok + ")")}}, true
	}
	exits := x.Run(m, args, nil, newState())
	c.Explored(x)
	for _, e := range exits {
		pos := p.InstrPos(e.Instr)
		if e.Kind != XReturn {
			rep("panics", pos, "sending panics", e.St)
			continue
		}
		if e.St.mon["sent"] != "+" {
			rep("sent", pos, fmt.Sprintf("the message is sent %d times", len(e.St.mon["sent"])), e.St)
		}
		er := e.Vals[len(e.Vals)-1]
		if e.St.mon["failed"] != "" && x.IsNil(e.St, er) != -1 {
			rep("error-lost", pos, "an error is not passed on", e.St)
		}
		if e.St.mon["failed"] == "" && x.IsNil(e.St, er) != 1 {
			rep("error-made", pos, "an error is reported although sending succeeded", e.St)
		}
		if e.St.mon["failed"] == "" && len(e.Vals) == 2 {
			r := e.Vals[0].Strip()
			if loc := e.St.mon["result"]; loc == "" || !strings.Contains(r.ID(), loc) {
				rep("other-result", pos, "the result of the client is not passed on", e.St)
			}
		}
	}
}

func init() {
	register("C02", "Path-sensitive analysis of the dispatch of every protocol method, one exploration per method name, against the table of the Language Server Protocol.", []string{
		"the table of methods in the checker is the protocol's",
	}, rulesDispatch)
}
