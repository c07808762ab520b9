package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	levelPkg = "github.com/syndtr/goleveldb/leveldb"
	radixPkg = "github.com/hashicorp/go-immutable-radix"
)

// backend is a key-value store of the repository with what it is made of.
type backend struct {
	c     *Ctx
	p     *Program
	named *types.Named
	reach map[*ssa.Function]bool
	recv  *V
	it    bool // follows an iterator of a library
	start func(x *Ex, st *State, cl *Call) ([]Out, bool)
}

func storageIface(p *Program, name string) *types.Interface {
	n := p.Named(storagePkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// treeOps are the changes a tree has compared to the one the store had.
func (b *backend) treeOps(v *V) string {
	v = v.Strip()
	switch {
	case strings.HasPrefix(v.Key, "TREE["):
		return v.Key[5 : len(v.Key)-1]
	case strings.HasPrefix(v.Key, "*("+locOf(b.recv)+"."):
		return ""
	}
	return "?"
}

func mkTree(ops string) *V { return mkNonNil("TREE[" + ops + "]") }

// content tells what the bytes of a value are.
func content(st *State, v *V) string {
	v = v.Strip()
	if c := st.mon["content:"+v.ID()]; c != "" {
		return c
	}
	if v.isNil() {
		return ""
	}
	return v.ID()
}

func putOp(st *State, k, v *V) string { return "put(" + content(st, k) + "," + content(st, v) + ");" }
func delOp(st *State, k *V) string    { return "del(" + content(st, k) + ");" }

func libFail(st *State, tok string, ok func(st *State), rest ...*V) []Out {
	good, bad := st.clone(), st.clone()
	ok(good)
	bad.mon["libfailed"] = "1"
	mk := func(st *State, err *V) Out {
		if len(rest) == 0 {
			return Out{St: st, Val: err}
		}
		return Out{St: st, Val: mkTuple(append(append([]*V{}, rest...), err)...)}
	}
	return []Out{mk(good, mkNil()), mk(bad, mkNonNil("liberr("+tok+")"))}
}

var bytesT = types.NewSlice(types.Typ[types.Byte])

// library models what the databases the stores are built on do.
func (b *backend) library(x *Ex, st *State, cl *Call) ([]Out, bool) {
	if bi, ok := cl.Instr.Common().Value.(*ssa.Builtin); ok {
		if bi.Name() == "copy" {
			dst, src := cl.Args[0].Strip(), cl.Args[1].Strip()
			if strings.HasPrefix(dst.Key, "mkslice(") && strings.HasSuffix(dst.Key, ",len("+src.ID()+"))") {
				st.mon["content:"+dst.ID()] = content(st, src)
			}
			return []Out{{St: st, Val: mkSym("n(" + cl.Tok + ")")}}, true
		}
		if bi.Name() == "append" && len(cl.Args) == 2 && emptySlice(cl.Instr.Common().Args[0]) {
			v := mkNonNil("copy(" + cl.Tok + ")")
			st.mon["content:"+v.ID()] = content(st, cl.Args[1])
			return []Out{{St: st, Val: v}}, true
		}
		return nil, false
	}
	name := cl.Name()
	args := cl.Args
	one := func(v *V) ([]Out, bool) { return []Out{{St: st, Val: v}}, true }
	pos := b.p.InstrPos(cl.Instr)
	switch name {
	case "bytes.Clone", "slices.Clone":
		return one(args[0])
	}
	if strings.Contains(name, levelPkg) {
		short := strings.ReplaceAll(name, levelPkg, "leveldb")
		b.c.Seen("library calls", shortFn(cl.Instr.Parent())+" "+short)
		if strings.HasPrefix(short, "(leveldb/iterator.") || short == "(leveldb/util.Releaser).Release" {
			return b.iterator(x, st, cl, short[strings.LastIndex(short, ".")+1:]), true
		}
		fromRecv := func() {
			if b.recv != nil && !strings.HasPrefix(args[0].Strip().Key, "*("+locOf(b.recv)+".") {
				b.c.Report("other-db/"+shortFn(cl.Instr.Parent()), pos, "the database that is used is not the one of the store", st.Path())
			}
		}
		switch short {
		case "leveldb.OpenFile":
			return libFail(st, cl.Tok, func(st *State) {
				st.mon["opened"] = args[0].ID()
			}, mkNonNil("DB("+cl.Tok+")")), true
		case "(*leveldb.DB).Put":
			fromRecv()
			op := putOp(st, args[1], args[2])
			return libFail(st, cl.Tok, func(st *State) { st.mon["db"] += op }), true
		case "(*leveldb.DB).Delete":
			fromRecv()
			if b.it && b.deletes(st, args[1], "") {
				return libFail(st, cl.Tok, func(st *State) {}), true
			}
			op := delOp(st, args[1])
			return libFail(st, cl.Tok, func(st *State) { st.mon["db"] += op }), true
		case "(*leveldb.DB).Get":
			fromRecv()
			return libFail(st, cl.Tok, func(st *State) { st.mon["got"] = content(st, args[1]) }, mkNonNil("LIBVAL")), true
		case "(*leveldb.DB).Write":
			fromRecv()
			ops := st.mon["wb:"+args[1].Strip().ID()]
			return libFail(st, cl.Tok, func(st *State) {
				st.mon["db"] += ops
				st.mon["writes"] += "w"
			}), true
		case "(*leveldb.DB).NewIterator":
			fromRecv()
			return b.open(x, st, cl, args[1].Strip()), true
		case "(*leveldb.Batch).Put":
			st.mon["wb:"+args[0].Strip().ID()] += putOp(st, args[1], args[2])
			return one(mkSym("void"))
		case "(*leveldb.Batch).Delete":
			if !b.it || !b.deletes(st, args[1], "wb:"+args[0].Strip().ID()) {
				st.mon["wb:"+args[0].Strip().ID()] += delOp(st, args[1])
			}
			return one(mkSym("void"))
		case "(*leveldb.Batch).Reset":
			st.mon["wb:"+args[0].Strip().ID()] = ""
			return one(mkSym("void"))
		case "leveldb/util.BytesPrefix":
			return one(mkNonNil("BYTESPREFIX(" + content(st, args[0]) + ")"))
		}
		return nil, false
	}
	if strings.Contains(name, radixPkg) {
		short := strings.ReplaceAll(name, radixPkg, "iradix")
		b.c.Seen("library calls", shortFn(cl.Instr.Parent())+" "+short)
		bytesV := func(key string) *V { return mkIface(mkNonNil(key), bytesT) }
		switch short {
		case "iradix.New":
			return one(mkTree("clear;"))
		case "(*iradix.Tree).Insert":
			return one(mkTuple(mkTree(b.treeOps(args[0])+putOp(st, args[1], args[2])), mkSym("old("+cl.Tok+")"), mkSym("had("+cl.Tok+")")))
		case "(*iradix.Tree).Delete":
			return one(mkTuple(mkTree(b.treeOps(args[0])+delOp(st, args[1])), mkSym("old("+cl.Tok+")"), mkSym("had("+cl.Tok+")")))
		case "(*iradix.Tree).Get", "(*iradix.Node).Get":
			good, bad := st.clone(), st.clone()
			if b.treeOps(args[0]) == "" {
				good.mon["got"] = content(st, args[1])
			}
			bad.mon["libfailed"] = "1"
			return []Out{
				{St: good, Val: mkTuple(bytesV("LIBVAL"), mkBoolConst(true))},
				{St: bad, Val: mkTuple(mkNil(), mkBoolConst(false))},
			}, true
		case "(*iradix.Tree).Txn":
			v := mkNonNil("TXN(" + cl.Tok + ")")
			st.mon["wb:"+v.ID()] = b.treeOps(args[0])
			return one(v)
		case "(*iradix.Txn).Insert":
			st.mon["wb:"+args[0].Strip().ID()] += putOp(st, args[1], args[2])
			return one(mkTuple(mkSym("old("+cl.Tok+")"), mkSym("had("+cl.Tok+")")))
		case "(*iradix.Txn).Delete":
			st.mon["wb:"+args[0].Strip().ID()] += delOp(st, args[1])
			return one(mkTuple(mkSym("old("+cl.Tok+")"), mkSym("had("+cl.Tok+")")))
		case "(*iradix.Txn).Commit", "(*iradix.Txn).CommitOnly":
			st.mon["writes"] += "w"
			return one(mkTree(st.mon["wb:"+args[0].Strip().ID()]))
		case "(*iradix.Tree).Root":
			if b.treeOps(args[0]) != "" {
				b.c.Report("other-db/"+shortFn(cl.Instr.Parent()), pos, "the tree that is iterated over is not the one of the store", st.Path())
			}
			return one(mkNonNil("ROOT(" + cl.Tok + ")"))
		case "(*iradix.Node).Iterator":
			return b.open(x, st, cl, mkNil()), true
		case "(*iradix.Iterator).SeekPrefix":
			if st.mon["it"] != "before" {
				b.c.Report("late-prefix/"+shortFn(cl.Instr.Parent()), pos, "the prefix is set after the iteration started", st.Path())
			}
			st.mon["range"] = "BYTESPREFIX(" + content(st, args[1]) + ")"
			return one(mkSym("void"))
		case "(*iradix.Iterator).Next":
			var outs []Out
			for _, o := range b.advance(st, cl) {
				if o.mon["it"] == "unread" {
					outs = append(outs, Out{St: o, Val: mkTuple(mkNonNil("KEY"), bytesV("VAL"), mkBoolConst(true))})
				} else {
					outs = append(outs, Out{St: o, Val: mkTuple(mkNil(), mkNil(), mkBoolConst(false))})
				}
			}
			return outs, true
		}
	}
	return nil, false
}

func (b *backend) open(x *Ex, st *State, cl *Call, rng *V) []Out {
	if st.mon["it"] != "" {
		b.c.Report("two-iterations/"+shortFn(cl.Instr.Parent()), b.p.InstrPos(cl.Instr), "the entries are iterated over more than once", st.Path())
	}
	st.mon["it"] = "before"
	if !rng.isNil() {
		st.mon["range"] = rng.ID()
	}
	return []Out{{St: st, Val: mkNonNil("LIBIT")}}
}

// emptySlice tells slices without elements.
func emptySlice(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.Const:
		return i.Value == nil
	case *ssa.MakeSlice:
		n, ok := i.Len.(*ssa.Const)
		return ok && n.Int64() == 0
	case *ssa.Slice:
		if a, ok := i.X.(*ssa.Alloc); ok {
			arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if ok && arr.Len() == 0 {
				return true
			}
		}
		n, ok := i.High.(*ssa.Const)
		return ok && n.Int64() == 0
	}
	return false
}

// advance moves to the next entry.
func (b *backend) advance(st *State, cl *Call) []*State {
	switch st.mon["it"] {
	case "unread":
		if st.mon["stopped"] == "" {
			b.c.Report("skipped/"+shortFn(cl.Instr.Parent()), b.p.InstrPos(cl.Instr), "an entry is skipped: the iterator moves on before the entry was given to the callback", st.Path())
		}
	case "end", "released":
		return []*State{st}
	}
	next, end := st.clone(), st.clone()
	next.mon["it"] = "unread"
	next.step(b.p.InstrPos(cl.Instr), "moves to the next entry")
	end.mon["it"] = "end"
	end.step(b.p.InstrPos(cl.Instr), "there are no more entries")
	return []*State{next, end}
}

func (b *backend) iterator(x *Ex, st *State, cl *Call, m string) []Out {
	valid := func(st *State) *V { return mkBoolConst(st.mon["it"] == "unread" || st.mon["it"] == "read") }
	switch m {
	case "Next", "First":
		if m == "First" && st.mon["it"] != "before" {
			break
		}
		var outs []Out
		for _, o := range b.advance(st, cl) {
			outs = append(outs, Out{St: o, Val: valid(o)})
		}
		return outs
	case "Valid":
		return []Out{{St: st, Val: valid(st)}}
	case "Key", "Value":
		if s := st.mon["it"]; s != "unread" && s != "read" {
			return []Out{{St: st, Val: mkNil()}}
		}
		return []Out{{St: st, Val: mkNonNil(map[string]string{"Key": "KEY", "Value": "VAL"}[m])}}
	case "Release":
		if s := st.mon["it"]; s != "end" && s != "released" && st.mon["stopped"] == "" {
			st.mon["left"] = "1"
		}
		st.mon["it"] = "released"
		return []Out{{St: st, Val: mkSym("void")}}
	case "Error":
		return []Out{{St: st, Val: mkNil()}}
	}
	b.c.Undecided("%s of an iterator is called in %s, which is not modelled", m, shortFn(cl.Instr.Parent()))
	return []Out{{St: st, Val: mkSym("res(" + cl.Tok + ")")}}
}

// deletes notes that the entry the iterator is at is deleted.
func (b *backend) deletes(st *State, k *V, batch string) bool {
	if st.mon["it"] == "" {
		return false
	}
	if st.mon["it"] == "unread" && content(st, k) == "KEY" {
		st.mon["it"] = "read"
	}
	if batch != "" {
		st.mon[batch] = "all;"
	}
	return true
}

func (b *backend) explore(fn *ssa.Function, args []*V, on func(x *Ex, st *State, cl *Call) ([]Out, bool)) (*Ex, []Exit) {
	mon := &Monitor{}
	x := newEx(b.p, mon, b.reach)
	mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if on != nil {
			if outs, ok := on(x, st, cl); ok {
				return outs, true
			}
		}
		return b.library(x, st, cl)
	}
	mon.OnStore = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, addr, val *V) {
		if b.recv != nil && strings.HasPrefix(locOf(addr), locOf(b.recv)+".") {
			if n := derefNamed(in.(*ssa.Store).Val.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == radixPkg {
				st.mon["db"] = b.treeOps(val)
			} else {
				b.c.Report("state/"+shortFn(in.Parent()), b.p.InstrPos(in), "a part of the store that is not its contents is changed", st.Path())
			}
		}
	}
	exits := x.Run(fn, args, nil, newState())
	b.c.Explored(x)
	return x, exits
}

func errOf(e Exit) *V { return e.Vals[len(e.Vals)-1] }

// shows writes operations for messages.
func shows(s string) string {
	if s == "" {
		return "nothing"
	}
	return clean(s)
}

func (b *backend) method(name string) (*ssa.Function, []*V) {
	m := b.p.Method(b.named, name)
	if m == nil || m.Blocks == nil {
		b.c.Undecided("%s of %s is not found", name, b.named.Obj().Name())
		return nil, nil
	}
	x := newEx(b.p, &Monitor{}, nil)
	args := x.RootArgs(m)
	b.recv = args[0]
	b.it = false
	return m, args
}

// ends checks the paths on which an operation returns.
func (b *backend) ends(m *ssa.Function, x *Ex, exits []Exit, want string) {
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := b.p.InstrPos(e.Instr)
		nilErr := x.IsNil(e.St, errOf(e))
		if e.St.mon["libfailed"] != "" {
			if nilErr != -1 {
				b.c.Report("lost-error/"+shortFn(m), pos, "a failure of the database is not reported", e.St.Path())
			}
			continue
		}
		if nilErr != 1 {
			b.c.Report("false-error/"+shortFn(m), pos, "an error is returned though the database reported none", e.St.Path())
			continue
		}
		if got := e.St.mon["db"]; got != want {
			b.c.Report("effect/"+shortFn(m), pos, "the database does "+shows(got)+", it should do "+shows(want), e.St.Path())
		}
	}
}

func (b *backend) point() {
	for _, name := range []string{"Put", "Delete", "Get"} {
		m, args := b.method(name)
		if m == nil {
			continue
		}
		b.c.Seen("operations", shortFn(m))
		x, exits := b.explore(m, args, nil)
		switch name {
		case "Put":
			b.ends(m, x, exits, "put("+args[1].ID()+","+args[2].ID()+");")
		case "Delete":
			b.ends(m, x, exits, "del("+args[1].ID()+");")
		case "Get":
			b.ends(m, x, exits, "")
			for _, e := range exits {
				if e.Kind != XReturn || e.St.mon["libfailed"] != "" || x.IsNil(e.St, errOf(e)) != 1 {
					continue
				}
				if e.St.mon["got"] != args[1].ID() || content(e.St, e.Vals[0]) != "LIBVAL" {
					b.c.Report("effect/"+shortFn(m), b.p.InstrPos(e.Instr), "what is returned is not the value of the key", e.St.Path())
				}
			}
		}
	}
}

// onArg handles the calls of the function that a method was given.
func isArg(cl *Call, arg *V) bool {
	return cl.Fn == nil && cl.Iface == nil && cl.FnVal != nil && cl.FnVal.ID() == arg.ID()
}

func (b *backend) batch() {
	m, args := b.method("WriteBatch")
	if m == nil {
		return
	}
	b.c.Seen("operations", shortFn(m))
	f := args[1]
	k, v := func(i string) *V { return mkNonNil("k" + i) }, mkNonNil("v")
	x, exits := b.explore(m, args, func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if !isArg(cl, f) {
			return nil, false
		}
		pos := b.p.InstrPos(cl.Instr)
		st.mon["built"] += "1"
		if st.mon["built"] != "1" {
			b.c.Report("built-twice/"+shortFn(m), pos, "the function that builds the batch is called more than once", st.Path())
			return []Out{{St: st, Kind: XStop}}, true
		}
		bt := cl.Args[0]
		if bt.K != KIface || bt.Typ == nil || types.IsInterface(bt.Typ) {
			b.c.Undecided("the type of the batch %s gives is not known", shortFn(m))
			return []Out{{St: st, Kind: XStop}}, true
		}
		// the function puts one entry, deletes one and puts another one
		sts := []*State{st}
		for i, op := range []string{"Put", "Delete", "Put"} {
			fn := b.p.Method(derefNamed(bt.Typ), op)
			if fn == nil || fn.Blocks == nil {
				b.c.Undecided("%s of %s is not found", op, typeName(bt.Typ))
				return nil, false
			}
			as := []*V{bt.Elts[0], k(string(rune('1' + i)))}
			if op == "Put" {
				as = append(as, v)
			}
			var next []*State
			for _, s := range sts {
				for _, o := range x.Inline(cl.Frame, cl, fn, as, nil, s, false) {
					if o.Kind == XReturn {
						next = append(next, o.St)
					}
				}
			}
			sts = next
		}
		var outs []Out
		for _, s := range sts {
			if s.mon["writes"] != "" || s.mon["db"] != "" {
				b.c.Report("early/"+shortFn(m), pos, "the database is changed before the batch is complete", s.Path())
			}
			good, bad := s.clone(), s.clone()
			bad.mon["ffailed"] = "1"
			bad.step(pos, "the batch is not complete")
			outs = append(outs, Out{St: good, Val: mkNil()}, Out{St: bad, Val: mkNonNil("ferr")})
		}
		return outs, true
	})
	want := "put(k1,v);del(k2);put(k3,v);"
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := b.p.InstrPos(e.Instr)
		nilErr := x.IsNil(e.St, errOf(e))
		switch {
		case e.St.mon["built"] == "":
			b.c.Report("not-built/"+shortFn(m), pos, "the function that builds the batch is not called", e.St.Path())
		case e.St.mon["ffailed"] != "":
			if nilErr != -1 {
				b.c.Report("lost-error/"+shortFn(m), pos, "the failure of the function that builds the batch is not reported", e.St.Path())
			}
			if e.St.mon["db"] != "" || e.St.mon["writes"] != "" && strings.Contains(e.St.mon["writes"], "w") && e.St.mon["db"] != "" {
				b.c.Report("half/"+shortFn(m), pos, "a batch that was not completed is written", e.St.Path())
			}
		case e.St.mon["libfailed"] != "":
			if nilErr != -1 {
				b.c.Report("lost-error/"+shortFn(m), pos, "a failure of the database is not reported", e.St.Path())
			}
		default:
			if nilErr != 1 {
				b.c.Report("false-error/"+shortFn(m), pos, "an error is returned though the batch was written", e.St.Path())
			}
			if got := e.St.mon["db"]; got != want {
				b.c.Report("effect/"+shortFn(m), pos, "the batch put k1, delete k2, put k3 makes the database do "+shows(got), e.St.Path())
			} else if len(e.St.mon["writes"]) != 1 {
				b.c.Report("parts/"+shortFn(m), pos, "a batch is not written as a whole", e.St.Path())
			}
		}
	}
}

func (b *backend) stream() {
	m, args := b.method("PrefixStream")
	if m == nil {
		return
	}
	b.c.Seen("operations", shortFn(m))
	prefix, onData := args[1], args[2]
	level := false
	seen := map[*types.Named]bool{}
	x, exits := b.explore(m, args, func(x *Ex, st *State, cl *Call) ([]Out, bool) {
		if strings.Contains(cl.Name(), levelPkg) {
			level = true
		}
		if !isArg(cl, onData) {
			return nil, false
		}
		pos := b.p.InstrPos(cl.Instr)
		what := "an entry is given"
		switch {
		case st.mon["stopped"] != "":
			b.c.Report("after-stop/"+shortFn(m), pos, "the callback is called again after it stopped the iteration", st.Path())
			return []Out{{St: st, Kind: XStop}}, true
		case st.mon["it"] == "read":
			b.c.Report("twice/"+shortFn(m), pos, "an entry is given to the callback twice", st.Path())
			return []Out{{St: st, Kind: XStop}}, true
		case st.mon["it"] != "unread":
			b.c.Report("no-entry/"+shortFn(m), pos, "the callback is called without an entry", st.Path())
			return []Out{{St: st, Kind: XStop}}, true
		}
		r := st.mon["range"]
		if r != "BYTESPREFIX("+prefix.ID()+")" && !(r == "" && b.emptyKnown(x, st, prefix)) {
			b.c.Report("range/"+shortFn(m), pos, "the entries that are iterated over are not those that have the prefix", st.Path())
		}
		it := cl.Args[0]
		if it.K != KIface || it.Typ == nil || types.IsInterface(it.Typ) {
			b.c.Undecided("the type of the iterator %s gives is not known", shortFn(m))
			return []Out{{St: st, Kind: XStop}}, true
		}
		n := derefNamed(it.Typ)
		sts := []*State{st}
		for _, part := range []string{"Key", "Value", "Key"} {
			fn := b.p.Method(n, part)
			if fn == nil || fn.Blocks == nil {
				b.c.Undecided("%s of %s is not found", part, typeName(it.Typ))
				return []Out{{St: st, Kind: XStop}}, true
			}
			want := map[string]string{"Key": "KEY", "Value": "VAL"}[part]
			var next []*State
			for _, s := range sts {
				for _, o := range x.Inline(cl.Frame, cl, fn, []*V{it.Elts[0]}, nil, s, false) {
					if o.Kind != XReturn {
						continue
					}
					if content(o.St, o.Val) != want {
						b.c.Report("entry/"+shortFn(fn), b.p.Pos(fn.Pos()), part+" of the iterator is not that of the entry it is at", o.St.Path())
					}
					next = append(next, o.St)
				}
			}
			sts = next
			if level && !seen[n] {
				b.aliases(fn)
			}
		}
		seen[n] = true
		stop := b.p.Method(n, "Stop")
		var outs []Out
		for _, s := range sts {
			s.mon["it"] = "read"
			s.step(pos, what)
			p := s.clone()
			p.step(pos, "the callback panics")
			outs = append(outs, Out{St: s.clone(), Val: mkSym("void")}, Out{St: p, Kind: XPanic})
			s = s.clone()
			s.step(pos, "the callback stops the iteration")
			for _, o := range x.Inline(cl.Frame, cl, stop, []*V{it.Elts[0]}, nil, s, false) {
				if o.Kind == XReturn {
					o.St.mon["stopped"] = "1"
					outs = append(outs, Out{St: o.St, Val: mkSym("void")})
				}
			}
		}
		return outs, true
	})
	_ = x
	got := false
	for _, e := range exits {
		if e.Kind == XStop {
			continue
		}
		pos := b.p.InstrPos(e.Instr)
		s := e.St.mon["it"]
		if level && s != "released" && s != "" {
			b.c.Report("leak/"+shortFn(m), pos, "the iterator is not released", e.St.Path())
		}
		if e.Kind != XReturn {
			continue
		}
		switch {
		case e.St.mon["stopped"] != "":
		case s == "":
			b.c.Report("no-iteration/"+shortFn(m), pos, "the entries are not iterated over", e.St.Path())
		case e.St.mon["left"] != "" || s == "unread" || s == "read" || s == "before":
			b.c.Report("incomplete/"+shortFn(m), pos, "the iteration ends before all entries were given to the callback", e.St.Path())
		}
		got = got || e.St.mon["stopped"] == ""
	}
	if !got {
		b.c.Undecided("no path of %s gives all entries", shortFn(m))
	}
}

func (b *backend) emptyKnown(x *Ex, st *State, v *V) bool {
	return x.Known(st, x.cond(token.EQL, mkSym("len("+v.ID()+")"), mkInt(0))) == 1 ||
		x.Known(st, x.cond(token.LSS, mkInt(0), mkSym("len("+v.ID()+")"))) == -1
}

// aliases reports results that share the memory of the library.
func (b *backend) aliases(fn *ssa.Function) {
	seen := map[ssa.Value]bool{}
	var trace func(v ssa.Value)
	trace = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				trace(e)
			}
		case *ssa.Slice:
			trace(i.X)
		case *ssa.ChangeType:
			trace(i.X)
		case *ssa.Convert:
			if types.Identical(i.X.Type().Underlying(), i.Type().Underlying()) {
				trace(i.X)
			}
		case *ssa.Call:
			if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				trace(i.Call.Args[0])
				return
			}
			if i.Call.IsInvoke() {
				if pk := i.Call.Method.Pkg(); pk != nil && strings.HasPrefix(pk.Path(), levelPkg) {
					b.c.Report("shared/"+shortFn(fn), b.p.InstrPos(i), "the bytes that are returned are those of the database, which change when the iterator moves on", nil)
				}
				return
			}
			callee := i.Call.StaticCallee()
			if callee == nil || !inRepo(callee) || callee.Blocks == nil {
				return
			}
			for _, blk := range callee.Blocks {
				if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						trace(res)
					}
				}
			}
			for k, p := range callee.Params {
				if seen[p] {
					trace(i.Call.Args[k])
				}
			}
		}
	}
	for _, blk := range fn.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			for _, res := range r.Results {
				trace(res)
			}
		}
	}
	b.c.Seen("accessors of entries", shortFn(fn))
}

func (b *backend) clear() {
	m, args := b.method("Clear")
	if m == nil {
		return
	}
	b.c.Seen("operations", shortFn(m))
	b.it = true
	x, exits := b.explore(m, args, nil)
	_ = x
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := b.p.InstrPos(e.Instr)
		if e.St.mon["db"] == "clear;" {
			continue
		}
		switch {
		case e.St.mon["it"] == "":
			b.c.Report("kept/"+shortFn(m), pos, "entries are left in the store", e.St.Path())
		case e.St.mon["range"] != "" && e.St.mon["range"] != "BYTESPREFIX()":
			b.c.Report("kept/"+shortFn(m), pos, "only some of the entries are deleted", e.St.Path())
		case e.St.mon["left"] != "" || e.St.mon["it"] != "released" && e.St.mon["it"] != "end":
			b.c.Report("kept/"+shortFn(m), pos, "the iteration ends before all entries were deleted", e.St.Path())
		case e.St.mon["libfailed"] != "":
		default:
			for k, ops := range e.St.mon {
				if strings.HasPrefix(k, "wb:") && ops == "all;" && !strings.Contains(e.St.mon["db"], "all;") {
					b.c.Report("kept/"+shortFn(m), pos, "the batch that deletes the entries is not written", e.St.Path())
				}
			}
		}
	}
	b.it = false
}

// opens checks the functions that make stores.
func (b *backend) opens(fn *ssa.Function) {
	b.recv = nil
	x := newEx(b.p, &Monitor{}, nil)
	args := x.RootArgs(fn)
	x, exits := b.explore(fn, args, nil)
	b.c.Seen("constructors", shortFn(fn))
	for _, e := range exits {
		if e.Kind != XReturn {
			continue
		}
		pos := b.p.InstrPos(e.Instr)
		if e.St.mon["libfailed"] != "" {
			if len(e.Vals) < 2 || x.IsNil(e.St, errOf(e)) != -1 {
				b.c.Report("lost-error/"+shortFn(fn), pos, "a database that could not be opened is not reported", e.St.Path())
			}
			continue
		}
		if e.St.mon["opened"] != "" {
			if x.IsNil(e.St, errOf(e)) != 1 {
				b.c.Report("false-error/"+shortFn(fn), pos, "an error is returned for a database that was opened", e.St.Path())
			}
			if len(args) > 0 && e.St.mon["opened"] != args[0].ID() {
				b.c.Report("path/"+shortFn(fn), pos, "the database is not opened at the path that was given", e.St.Path())
			}
		}
		if x.IsNil(e.St, e.Vals[0]) != -1 {
			b.c.Report("no-store/"+shortFn(fn), pos, "no store is returned", e.St.Path())
		}
	}
}

func rulesBackends(c *Ctx) {
	c.Rule("Put, Delete and Get of a store do exactly that with the key and the value they were given in the database of the store, and return its error")
	c.Rule("WriteBatch calls the function that builds the batch once, with nothing written before it returned; if it failed nothing is written and its error is returned; otherwise all operations of the batch are written at once and in order, and the error of that is returned")
	c.Rule("PrefixStream calls back exactly once for every entry of the prefix until it is stopped, with an iterator whose Key and Value are copies of those of the entry, and releases the iterator of the database on every way out, a panic of the callback included")
	c.Rule("Clear deletes every entry")
	c.Rule("a store that cannot be opened is reported, and it is opened at the path that was given")
	p := c.P
	di := storageIface(p, "DB")
	if di == nil {
		c.Undecided("storage.DB is not found")
		return
	}
	pkg := modPath + "/" + storagePkg
	reach := map[*ssa.Function]bool{}
	for _, fn := range p.Repo {
		if pkgPathOf(fn) == pkg {
			reach[fn] = true
		}
	}
	for _, n := range p.NamedTypes() {
		if types.IsInterface(n) || !types.Implements(types.NewPointer(n), di) {
			continue
		}
		c.Seen("stores", n.Obj().Name())
		b := &backend{c: c, p: p, named: n, reach: reach}
		b.point()
		b.batch()
		b.stream()
		b.clear()
		for _, fn := range p.Repo {
			res := fn.Signature.Results()
			if fn.Parent() == nil && fn.Signature.Recv() == nil && res.Len() > 0 && derefNamed(res.At(0).Type()) == n {
				b.opens(fn)
			}
		}
	}
	c.AtLeast("stores", 1)
	c.AtLeast("constructors", 1)
	c.AtLeast("operations", 6)
	c.AtLeast("accessors of entries", 2)
}

func init() {
	register("C17", "Path exploration of every operation of the key-value stores, with the libraries they are built on modelled.", nil, rulesBackends)
}
