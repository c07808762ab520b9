package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// wire is what C10 knows.
type wire struct {
	c    *Ctx
	p    *Program
	done map[types.Type]bool
	out  map[*types.Named]bool
}

// The members of the messages of the server that the protocol requires; all
// other members of these are optional.
var wireRequired = map[string]string{
	"CompletionItem":           "label",
	"CompletionList":           "isIncomplete items",
	"Position":                 "line character",
	"Range":                    "start end",
	"Location":                 "uri range",
	"Hover":                    "contents",
	"MarkupContent":            "kind value",
	"ParameterInformation":     "label",
	"SignatureInformation":     "label",
	"SignatureHelp":            "signatures",
	"SymbolInformation":        "name kind location",
	"DocumentSymbol":           "name kind range selectionRange",
	"TextEdit":                 "range newText",
	"Diagnostic":               "range message",
	"PublishDiagnosticsParams": "uri diagnostics",
	"Command":                  "title command",
	"WorkspaceEdit":            "",
	"InitializeResult":         "capabilities",
	"Registration":             "id method",
	"RegistrationParams":       "registrations",
	"Unregistration":           "id method",
	"UnregistrationParams":     "unregisterations",
	"FileSystemWatcher":        "globPattern",
	"TextDocumentIdentifier":   "uri",
	"CompletionOptions":        "",
	"SignatureHelpOptions":     "",
	"TextDocumentSyncOptions":  "",
	"SaveOptions":              "",
	"WireRequest":              "jsonrpc method",
	"WireResponse":             "jsonrpc",
	"Error":                    "code message",
	"DidChangeWatchedFilesRegistrationOptions": "watchers",
}

// Numbers and words of the protocol.
var wireConsts = map[string]string{
	"CompletionItemKind":     "TextCompletion=1 MethodCompletion=2 FunctionCompletion=3 ConstructorCompletion=4 FieldCompletion=5 VariableCompletion=6 ClassCompletion=7 InterfaceCompletion=8 ModuleCompletion=9 PropertyCompletion=10 UnitCompletion=11 ValueCompletion=12 EnumCompletion=13 KeywordCompletion=14 SnippetCompletion=15 ColorCompletion=16 FileCompletion=17 ReferenceCompletion=18 FolderCompletion=19 EnumMemberCompletion=20 ConstantCompletion=21 StructCompletion=22 EventCompletion=23 OperatorCompletion=24 TypeParameterCompletion=25",
	"SymbolKind":             "File=1 Module=2 Namespace=3 Package=4 Class=5 Method=6 Property=7 Field=8 Constructor=9 Enum=10 Interface=11 Function=12 Variable=13 Constant=14 String=15 Number=16 Boolean=17 Array=18 Object=19 Key=20 Null=21 EnumMember=22 Struct=23 Event=24 Operator=25 TypeParameter=26",
	"DiagnosticSeverity":     "SeverityError=1 SeverityWarning=2 SeverityInformation=3 SeverityHint=4",
	"DiagnosticTag":          "Unnecessary=1 Deprecated=2",
	"MarkupKind":             "PlainText=plaintext Markdown=markdown",
	"InsertTextFormat":       "PlainTextTextFormat=1 SnippetTextFormat=2",
	"MessageType":            "Error=1 Warning=2 Info=3 Log=4",
	"TextDocumentSyncKind":   "None=0 Full=1 Incremental=2",
	"FileChangeType":         "Created=1 Changed=2 Deleted=3",
	"WatchKind":              "WatchCreate=1 WatchChange=2 WatchDelete=4",
	"CompletionTriggerKind":  "Invoked=1 TriggerCharacter=2 TriggerForIncompleteCompletions=3",
	"#internal/jsonrpc2":     "CodeParseError=-32700 CodeInvalidRequest=-32600 CodeMethodNotFound=-32601 CodeInvalidParams=-32602 CodeInternalError=-32603",
	"#internal/lsp/protocol": "RequestCancelledError=-32800",
}

// wireName is the name the protocol gives a member: that of the field in lower
// camel case, with URI and ID as words.
func wireName(field string) string {
	var words []string
	rs := []rune(field)
	start := 0
	for i := 1; i < len(rs); i++ {
		if unicode.IsUpper(rs[i]) && (!unicode.IsUpper(rs[i-1]) || i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
			words = append(words, string(rs[start:i]))
			start = i
		}
	}
	words = append(words, string(rs[start:]))
	if field == "VersionTag" {
		return "jsonrpc"
	}
	for i, w := range words {
		l := strings.ToLower(w)
		// the extensions of the protocol for remote files begin with an x
		if i > 0 && !(i == 1 && rs[0] == 'X' && len(words[0]) == 1) {
			l = strings.ToUpper(l[:1]) + l[1:]
		}
		words[i] = l
	}
	return strings.Join(words, "")
}

// visit walks the types of a message.
func (w *wire) visit(t types.Type, out bool) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if !inRepoType(n) {
			return
		}
		if w.done[n] && (!out || w.out[n]) {
			return
		}
		w.done[n] = true
		if out {
			w.out[n] = true
		}
		if st, ok := n.Underlying().(*types.Struct); ok {
			if !w.custom(n) {
				w.structType(n.Obj().Name(), st, out)
			}
			return
		}
		w.visit(n.Underlying(), out)
		return
	}
	switch u := t.(type) {
	case *types.Pointer:
		w.visit(u.Elem(), out)
	case *types.Slice:
		w.visit(u.Elem(), out)
	case *types.Array:
		w.visit(u.Elem(), out)
	case *types.Map:
		w.visit(u.Elem(), out)
	case *types.Struct:
		w.structType("", u, out)
	}
}

// custom tells whether a type is encoded by its own method.
func (w *wire) custom(n *types.Named) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Lookup(n.Obj().Pkg(), "MarshalJSON") != nil || ms.Lookup(n.Obj().Pkg(), "UnmarshalJSON") != nil
}

func (w *wire) structType(name string, st *types.Struct, out bool) {
	req, known := wireRequired[name]
	required := map[string]bool{}
	for _, r := range strings.Fields(req) {
		required[r] = true
	}
	missing := map[string]bool{}
	for r := range required {
		missing[r] = true
	}
	tags := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
		parts := strings.Split(tag, ",")
		pos := w.p.Pos(f.Pos())
		id := name + "." + f.Name()
		if f.Embedded() && !has {
			w.visit(f.Type(), out)
			continue
		}
		if !f.Exported() {
			if has {
				w.c.Report("wire/hidden/"+id, pos, fmt.Sprintf("the member %s of a message is not exported, so it is never sent or read", id), nil)
			}
			continue
		}
		wireTag := parts[0]
		if wireTag == "" {
			wireTag = f.Name()
		}
		w.c.Seen("members of messages", id)
		if want := wireName(f.Name()); wireTag != want {
			w.c.Report("wire/name/"+id, pos, fmt.Sprintf("the member %s of a message is called %q on the wire, the protocol calls it %q", id, wireTag, want), nil)
		}
		if prev, dup := tags[strings.ToLower(wireTag)]; dup {
			w.c.Report("wire/twice/"+id, pos, fmt.Sprintf("the members %s and %s of a message have the same name %q on the wire", id, prev, wireTag), nil)
		}
		tags[strings.ToLower(wireTag)] = f.Name()
		omit := false
		for _, o := range parts[1:] {
			switch o {
			case "omitempty", "omitzero":
				omit = true
			default:
				w.c.Report("wire/option/"+id, pos, fmt.Sprintf("the member %s of a message is encoded with the option %q, which is not the protocol's", id, o), nil)
			}
		}
		if known && out {
			switch {
			case required[wireTag] && omit:
				w.c.Report("wire/omitted/"+id, pos, fmt.Sprintf("the member %s is required by the protocol and is left out when it is empty (%q)", id, tag), nil)
			case !required[wireTag] && !omit && name != "SignatureHelp" && name != "Error" && name != "InitializeResult" && !isBoolType(f.Type()):
				w.c.Report("wire/empty/"+id, pos, fmt.Sprintf("the member %s is optional and is sent with an empty value, which is not one of the protocol's, when there is none", id), nil)
			}
			delete(missing, wireTag)
		}
		w.visit(f.Type(), out)
	}
	if known && out {
		for _, r := range sortedKeys(missing) {
			w.c.Report("wire/missing/"+name+"."+r, "-", fmt.Sprintf("the member %q, which the protocol requires, is not in %s", r, name), nil)
		}
		w.c.Seen("messages with required members", name)
	}
}

// nullable tells why a list can be nil, or nothing if it cannot.
func (w *wire) nullable(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return ""
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
		return ""
	case *ssa.Slice:
		if _, ok := derefType(x.X.Type()).Underlying().(*types.Array); ok {
			return ""
		}
		return w.nullable(x.X, seen)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if w.notNilThere(e, x.Block().Preds[i], x.Block()) {
				continue
			}
			if r := w.nullable(e, seen); r != "" {
				return r
			}
		}
		return ""
	case *ssa.ChangeType:
		return w.nullable(x.X, seen)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return w.results(call, x.Index, seen)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// what is appended to is there, or something is appended
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
				if _, ok := derefType(sl.X.Type()).Underlying().(*types.Array); ok {
					return ""
				}
			}
			return w.nullable(x.Call.Args[0], seen)
		}
		return w.results(x, 0, seen)
	case *ssa.UnOp:
		if r, ok := w.loaded(x.X, x, seen); ok {
			return r
		}
	case *ssa.FreeVar:
		if b := w.cellOf(x); b != ssa.Value(x) {
			return w.nullable(b, seen)
		}
	case *ssa.Parameter:
		return w.passed(x, seen)
	}
	return fmt.Sprintf("what is not known to be there (%s)", w.p.Pos(v.Pos()))
}

// notNilThere tells whether a value is known not to be nil on an edge.
func (w *wire) notNilThere(v ssa.Value, from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	return nonNilOn(iff.Cond, v, from.Succs[0] == to)
}

// nonNilOn tells whether a condition says that a list is not nil.
func nonNilOn(cond, v ssa.Value, branch bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isNil := func(y ssa.Value) bool { k, ok := y.(*ssa.Const); return ok && k.IsNil() }
	same := func(y ssa.Value) bool { return y == v || sameLoad(y, v) }
	if !(same(b.X) && isNil(b.Y) || same(b.Y) && isNil(b.X)) {
		return false
	}
	return b.Op.String() == "!=" && branch || b.Op.String() == "==" && !branch
}

// sameLoad tells whether two values are read from the same member.
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != y.Op {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && f.X == g.X
}

func (w *wire) passed(x *ssa.Parameter, seen map[ssa.Value]bool) string {
	fn := x.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == x {
			idx = i
		}
	}
	node := w.p.CG.Nodes[fn]
	if node == nil || len(node.In) == 0 {
		return "a parameter of " + shortFn(fn)
	}
	for _, e := range node.In {
		if e.Site == nil {
			return "a parameter of " + shortFn(fn)
		}
		cc := e.Site.Common()
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		if idx >= len(args) {
			return "a parameter of " + shortFn(fn)
		}
		if r := w.nullable(args[idx], seen); r != "" {
			return r
		}
	}
	return ""
}

func (w *wire) results(call *ssa.Call, idx int, seen map[ssa.Value]bool) string {
	callees := w.p.siteCallees(call)
	if len(callees) == 0 {
		return "the result of an unknown function"
	}
	for _, fn := range callees {
		if fn.Blocks == nil || !inRepo(fn) {
			return "the result of " + fnName(fn)
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if s := w.nullable(r.Results[idx], seen); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// cellOf is the local variable of an address, also that of a function around.
func (w *wire) cellOf(addr ssa.Value) ssa.Value {
	for {
		fv, ok := addr.(*ssa.FreeVar)
		if !ok {
			return addr
		}
		fn := fv.Parent()
		var next ssa.Value
		for i, v := range fn.FreeVars {
			if v != fv || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						next = mc.Bindings[i]
					}
				}
			}
		}
		if next == nil {
			return addr
		}
		addr = next
	}
}

// loaded tells whether what is read from a local variable can be nil: every
// value it is given is there, and it is given one before it is read.
func (w *wire) loaded(addr ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) (string, bool) {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		// a list of a message is judged where the message is made and set
		if n := derefNamed(fa.X.Type()); n != nil && w.out[n] {
			return "", true
		}
		return "", false
	}
	al, ok := w.cellOf(addr).(*ssa.Alloc)
	if !ok {
		return "", false
	}
	first := false
	for _, s := range w.storesTo(al) {
		if r := w.nullable(s.Val, seen); r != "" {
			if !w.replaced(al, s, at) {
				return r, true
			}
			// what is put there instead is judged where it is put
		}
		if s.Parent() == al.Parent() && (at.Parent() != al.Parent() || before(s, at)) {
			first = true
		}
	}
	if !first {
		return "a variable that was not set", true
	}
	return "", true
}

// replaced tells whether what is stored in a variable is looked at and replaced
// when it is nil before the variable is read.
func (w *wire) replaced(al *ssa.Alloc, s *ssa.Store, at ssa.Instruction) bool {
	fn := al.Parent()
	if s.Parent() != fn {
		return false
	}
	// the place in the function of the variable
	for at.Parent() != fn {
		var mk ssa.Instruction
		in := at.Parent()
		if in.Parent() == nil {
			return false
		}
		for _, b := range in.Parent().Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == in {
					mk = i
				}
			}
		}
		if mk == nil {
			return false
		}
		at = mk
	}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !before(s, iff) || !before(iff, at) {
			continue
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		load, ok := cond.X.(*ssa.UnOp)
		if !ok || load.X != ssa.Value(al) {
			continue
		}
		for i, succ := range b.Succs {
			if nonNilOn(cond, load, i == 0) {
				continue
			}
			if !nonNilOn(cond, load, i != 0) {
				continue
			}
			for _, in := range succ.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) && w.nullable(st.Val, map[ssa.Value]bool{}) == "" {
					return true
				}
			}
		}
	}
	return false
}

// before tells whether an instruction comes before another on every way.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// storesTo are the assignments to a local variable, also in functions inside.
func (w *wire) storesTo(al *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	var fns func(fn *ssa.Function)
	fns = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && w.cellOf(s.Addr) == ssa.Value(al) {
					out = append(out, s)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			fns(a)
		}
	}
	fns(al.Parent())
	return out
}

// lists checks that the required lists of messages are never null.
func (w *wire) lists() {
	need := map[*types.Named]map[int]bool{}
	for n := range w.out {
		st, ok := n.Underlying().(*types.Struct)
		req, known := wireRequired[n.Obj().Name()]
		if !ok || !known {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && strings.Contains(" "+req+" ", " "+tag+" ") {
				if need[n] == nil {
					need[n] = map[int]bool{}
				}
				need[n][i] = true
			}
		}
	}
	for _, fn := range w.p.Repo {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n := derefNamed(fa.X.Type())
					if n == nil || !need[n][fa.Field] {
						continue
					}
					name := n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
					w.c.Fn(fn)
					w.c.Seen("required lists that are set", shortFn(fn)+" "+name)
					if r := w.nullable(x.Val, map[ssa.Value]bool{}); r != "" {
						w.c.Report("wire/null/"+shortFn(fn)+"/"+name, w.p.InstrPos(x), fmt.Sprintf("%s sets the list %s, which the protocol requires, to what can be nil and is then sent as null: %s", shortFn(fn), name, r), nil)
					}
				case *ssa.Alloc:
					if n, ok := types.Unalias(derefType(x.Type())).(*types.Named); ok {
						for i := range need[n] {
							w.made(fn, x, n, i)
						}
					}
				}
			}
		}
	}
}

// made checks that a new message is given its list before it is used.
func (w *wire) made(fn *ssa.Function, al *ssa.Alloc, n *types.Named, field int) {
	name := n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(field).Name()
	refs := *al.Referrers()
	var set []ssa.Instruction
	for _, r := range refs {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && x.Field == field && s.Addr == ssa.Value(x) {
					set = append(set, s)
				}
			}
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				return // a copy of another message
			}
		}
	}
	w.c.Seen("messages that are made", shortFn(fn)+" "+n.Obj().Name())
	for _, r := range refs {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
			continue
		case *ssa.MakeInterface:
			if w.onlyDecoded(x) {
				continue
			}
		}
		ok := false
		for _, s := range set {
			ok = ok || before(s, r)
		}
		if !ok {
			w.c.Report("wire/unset/"+shortFn(fn)+"/"+name, w.p.InstrPos(r), fmt.Sprintf("%s uses a message whose list %s, which the protocol requires, may not have been set and is then sent as null", shortFn(fn), name), nil)
		}
	}
}

// onlyDecoded tells whether a value is only handed over to be filled from what
// was received.
func (w *wire) onlyDecoded(mi *ssa.MakeInterface) bool {
	for _, u := range *mi.Referrers() {
		call, ok := u.(ssa.CallInstruction)
		if !ok {
			return false
		}
		fn := call.Common().StaticCallee()
		if fn == nil {
			return false
		}
		switch fnName(fn) {
		case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
		case "(*internal/jsonrpc2.Conn).Call":
			// method, parameters, result
			args := call.Common().Args
			if args[len(args)-1] != ssa.Value(mi) {
				return false
			}
		default:
			return false
		}
	}
	return len(*mi.Referrers()) > 0
}

func init() {
	register("C10", "messages have the form of the protocol", nil, func(c *Ctx) {
		p := c.P
		w := &wire{c: c, p: p, done: map[types.Type]bool{}, out: map[*types.Named]bool{}}
		c.Rule("The types of all messages (of the parameters and results of the methods of the server and of the client, of the envelopes, and all else that is sent as a value of any type) are walked. Every member has the name that the protocol gives it, which is the name of the field in lower camel case, no two of a message have the same, and none is hidden.")
		c.Rule("In the messages the server sends, members that the protocol requires are never left out, and optional ones are left out rather than sent empty (null, 0 or an empty text; booleans may be sent), by a table written from the protocol.")
		c.Rule("The numbers and words of the protocol (kinds, severities, tags, error codes) are those of a table written from the protocol.")
		c.Rule("A list that the protocol requires is never nil, which would be sent as null: every value it is given is made, a literal, appended to such a one, or the result of functions that return only such ones, and it is set before the message is used.")
		server, client := p.Named(lspPkg+"/protocol", "Server"), p.Named(lspPkg+"/protocol", "Client")
		if server == nil || client == nil {
			c.Undecided("the interfaces of the server and the client are not found")
			return
		}
		for _, n := range []*types.Named{server, client} {
			it := n.Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				sig := it.Method(i).Type().(*types.Signature)
				for k := 0; k < sig.Params().Len(); k++ {
					w.visit(sig.Params().At(k).Type(), n == client)
				}
				for k := 0; k < sig.Results().Len(); k++ {
					w.visit(sig.Results().At(k).Type(), n == server)
				}
				c.Seen("methods of the protocol", it.Method(i).Name())
			}
		}
		for _, n := range []string{"WireRequest", "WireResponse"} {
			if t := p.Named("internal/jsonrpc2", n); t != nil {
				w.visit(t, true)
			} else {
				c.Undecided("an envelope is not found: %s", n)
			}
		}
		for _, fn := range p.Repo {
			if !inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					mi, ok := in.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					n := derefNamed(mi.X.Type())
					if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg() != server.Obj().Pkg() {
						continue
					}
					if it, ok := mi.Type().Underlying().(*types.Interface); ok && it.Empty() {
						w.visit(n, !w.onlyDecoded(mi))
					}
				}
			}
		}
		c.AtLeast("members of messages", 250)
		c.AtLeast("messages with required members", 24)
		for _, tn := range sortedKeys(wireConsts) {
			pkg := lspPkg + "/protocol"
			byName := strings.HasPrefix(tn, "#")
			if byName {
				pkg = tn[1:]
			}
			scope := p.Pkg(pkg).Types.Scope()
			for _, kv := range strings.Fields(wireConsts[tn]) {
				name, want, _ := strings.Cut(kv, "=")
				k, ok := scope.Lookup(name).(*types.Const)
				if !ok {
					continue
				}
				if nt, ok := types.Unalias(k.Type()).(*types.Named); !byName && (!ok || nt.Obj().Name() != tn) {
					continue
				}
				got := ""
				if k.Val().Kind() == constant.String {
					got = constant.StringVal(k.Val())
				} else {
					got = constant.ToInt(k.Val()).ExactString()
				}
				c.Seen("constants of the protocol", name)
				if want != got {
					c.Report("wire/const/"+name, p.Pos(k.Pos()), fmt.Sprintf("%s is %s, the protocol gives it %s", name, got, want), nil)
				}
			}
		}
		c.AtLeast("constants of the protocol", 70)
		w.lists()
		c.AtLeast("required lists that are set", 4)
	})
}
