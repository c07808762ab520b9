package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockOp classifies calls of the standard mutexes.
func lockOp(name string) (op string, mode string) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", "W"
	case "(*sync.RWMutex).RLock":
		return "lock", "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "unlock", "W"
	case "(*sync.RWMutex).RUnlock":
		return "unlock", "R"
	}
	return "", ""
}

func staticName(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if c.Common().IsInvoke() {
		return fnObjName(c.Common().Method)
	}
	if f := c.Common().StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func isLockInstr(in ssa.Instruction) bool {
	op, _ := lockOp(staticName(in))
	return op != ""
}

// hasRepoCaller tells whether a function is called by other functions of
// the repository other than through go statements.
func (p *Program) hasRepoCaller(fn *ssa.Function) bool {
	n := p.CG.Nodes[fn]
	if n == nil {
		return false
	}
	for _, e := range n.In {
		if e.Site == nil || !inRepo(e.Caller.Func) || e.Caller.Func == fn {
			continue
		}
		if _, ok := e.Site.(*ssa.Go); ok {
			continue
		}
		return true
	}
	return false
}

// lockClass names a lock by the field that holds it.
func lockClass(in ssa.CallInstruction, c *Call) string {
	if len(c.Args) > 0 && c.Args[0].Cls != "" {
		return c.Args[0].Cls
	}
	if len(c.Instr.Common().Args) > 0 {
		return addrClass(c.Instr.Common().Args[0])
	}
	return "lock"
}

type lockEdge struct{ from, to, pos, fn string }

// blocking calls: they wait for another goroutine or the peer
var blockingCalls = map[string]string{
	"(*sync.WaitGroup).Wait":          "waits for other goroutines",
	"(*internal/jsonrpc2.Conn).Call":  "waits for an answer of the peer",
	"(internal/jsonrpc2.Stream).Read": "waits for the peer",
	"time.Sleep":                      "sleeps",
	"(*sync.Cond).Wait":               "waits for other goroutines",
}

// reentrantCallbacks lists library functions that hold a lock of their own
// while they call back.
type lockFacts struct {
	held map[string]bool
}

func heldLocks(st *State) []string {
	var out []string
	for k := range st.mon {
		if strings.HasPrefix(k, "held:") {
			out = append(out, k[5:])
		}
	}
	sort.Strings(out)
	return out
}

func rulesLocks(c *Ctx) {
	c.Rule("on every path of every function, with its callees inlined, a lock that is acquired is released again before the function that is the root of the exploration ends (return, panic)")
	c.Rule("a lock is never acquired while the same lock is already held on that path, and never released while it is not held")
	c.Rule("while a lock is held no channel is waited on, no wait group is waited for and no request is sent to the peer")
	c.Rule("the order in which locks are nested has no cycle")
	p := c.P
	reach := p.ReachSet(isLockInstr)
	var roots []*ssa.Function
	for _, fn := range p.Repo {
		if reach[fn] {
			roots = append(roots, fn)
		}
	}
	size := map[*ssa.Function]int{}
	for _, fn := range roots {
		size[fn] = p.reachSize(fn)
	}
	sort.SliceStable(roots, func(i, j int) bool { return size[roots[i]] < size[roots[j]] })
	// functions that have been found to neither keep nor release locks of
	// their callers, they are not explored again where no lock is held
	neutral := map[*ssa.Function]bool{}
	edges := map[string]lockEdge{}
	for _, root := range roots {
		c.Seen("roots explored", shortFn(root))
		mon := &Monitor{}
		x := newEx(p, mon, reach)
		isRoot := !p.hasRepoCaller(root)
		construct := func(f *Frame, what string) string {
			return what + "/" + shortFn(f.Fn)
		}
		blocked := func(st *State, fr *Frame, in ssa.Instruction, why string) {
			if hs := heldLocks(st); len(hs) > 0 {
				cls := strings.SplitN(st.mon["held:"+hs[0]], "|", 3)
				c.Report(construct(fr, "blocking-under-lock/"+cls[1]), p.InstrPos(in),
					fmt.Sprintf("%s while %s is held (acquired at %s)", why, cls[1], cls[2]), st.Path())
			}
		}
		mon.Model = func(x *Ex, st *State, cl *Call) ([]Out, bool) {
			if len(heldLocks(st)) > 0 || cl.Go {
				return nil, false
			}
			for _, a := range cl.Args {
				if x.carriesReach(a, 0) {
					return nil, false
				}
			}
			n := 0
			for _, fn := range x.Candidates(cl) {
				if reach[fn] {
					if !neutral[fn] {
						return nil, false
					}
					n++
				}
			}
			if n == 0 {
				return nil, false
			}
			return x.Opaque(st, cl), true
		}
		mon.OnCall = func(x *Ex, st *State, cl *Call) {
			name := cl.Name()
			if why, ok := blockingCalls[name]; ok {
				blocked(st, cl.Frame, cl.Instr, "it calls "+name+", which "+why)
			}
			op, mode := lockOp(name)
			if op == "" {
				return
			}
			loc := locOf(cl.Args[0])
			cls := lockClass(cl.Instr, cl)
			pos := p.InstrPos(cl.Instr)
			if op == "lock" {
				c.Seen("lock acquisitions", shortFn(cl.Instr.Parent())+" "+cls)
				if h, ok := st.mon["held:"+loc]; ok {
					c.Report(construct(cl.Frame, "self-deadlock/"+cls), pos,
						fmt.Sprintf("%s is acquired while it is already held (acquired at %s)", cls, strings.SplitN(h, "|", 3)[2]), st.Path())
				}
				for _, h := range heldLocks(st) {
					hc := strings.SplitN(st.mon["held:"+h], "|", 3)[1]
					if hc != cls {
						edges[hc+"->"+cls] = lockEdge{hc, cls, pos, shortFn(cl.Instr.Parent())}
					}
				}
				st.mon["held:"+loc] = mode + "|" + cls + "|" + pos
				st.step(pos, "acquires "+cls)
				return
			}
			h, ok := st.mon["held:"+loc]
			switch {
			case ok && h[:1] != mode:
				c.Report(construct(cl.Frame, "wrong-unlock/"+cls), pos, fmt.Sprintf("%s is released in another mode than it was acquired", cls), st.Path())
				delete(st.mon, "held:"+loc)
			case ok:
				delete(st.mon, "held:"+loc)
				st.step(pos, "releases "+cls)
			default:
				// released on behalf of the caller
				if st.mon["rel:"+loc] != "" {
					c.Report(construct(cl.Frame, "double-unlock/"+cls), pos, fmt.Sprintf("%s is released twice", cls), st.Path())
				}
				st.mon["rel:"+loc] = cls + "|" + pos
			}
		}
		mon.OnChan = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, kind string, ch, val *V, blocking bool) {
			if blocking && kind != "close" {
				blocked(st, fr, in, "it waits on a channel ("+kind+")")
			}
		}
		mon.OnReturn = func(x *Ex, st *State, fr *Frame, in ssa.Instruction, vals []*V) {
			if len(st.mon) > 0 && fr.parent == nil {
				st.step(p.InstrPos(in), shortFn(fr.Fn)+" returns")
			}
		}
		x.MaxSteps = 2000000
		exits := x.Run(root, x.RootArgs(root), nil, newState())
		c.Explored(x)
		debugf("%s: steps %d forks %d joined %d exits %d", shortFn(root), x.steps, x.Forks, x.Joined, len(exits))
		type ex struct {
			e   Exit
			set string
		}
		clean := len(x.Err) == 0
		for _, e := range exits {
			for k := range e.St.mon {
				if strings.HasPrefix(k, "held:") || strings.HasPrefix(k, "rel:") {
					clean = false
				}
			}
		}
		neutral[root] = clean
		byLoc := map[string][2]int{}
		n := 0
		for _, e := range exits {
			if e.Kind == XStop {
				continue
			}
			n++
			for _, h := range heldLocks(e.St) {
				b := byLoc["held:"+h]
				b[0]++
				byLoc["held:"+h] = b
			}
			for k := range e.St.mon {
				if strings.HasPrefix(k, "rel:") {
					b := byLoc[k]
					b[0]++
					byLoc[k] = b
				}
			}
		}
		for _, e := range exits {
			if e.Kind == XStop {
				continue
			}
			for k, v := range e.St.mon {
				if strings.HasPrefix(k, "held:") {
					f := strings.SplitN(v, "|", 3)
					if isRoot || byLoc[k][0] < n {
						how := "returns"
						if e.Kind == XPanic {
							how = "panics"
						}
						c.Report("leak/"+f[1]+"/"+shortFn(root), f[2], fmt.Sprintf("%s acquired here is still held when %s %s at %s", f[1], shortFn(root), how, p.InstrPos(e.Instr)), e.St.Path())
					}
				}
				if strings.HasPrefix(k, "rel:") && e.St.mon["held:"+k[4:]] == "" {
					f := strings.SplitN(v, "|", 2)
					if isRoot || byLoc[k][0] < n {
						c.Report("unlock-unheld/"+f[0]+"/"+shortFn(root), f[1], fmt.Sprintf("%s is released here on a path on which it has not been acquired", f[0]), e.St.Path())
					}
				}
			}
		}
	}
	// cycles in the nesting order
	adj := map[string][]string{}
	for _, k := range sortedKeys(edges) {
		e := edges[k]
		adj[e.from] = append(adj[e.from], e.to)
		c.Seen("lock nestings", k)
	}
	for _, k := range sortedKeys(edges) {
		e := edges[k]
		if path := findPath(adj, e.to, e.from); path != nil {
			c.Report("lock-order/"+e.from+"/"+e.to, e.pos, fmt.Sprintf("%s is acquired while %s is held here, elsewhere they are nested the other way round (%s)", e.to, e.from, strings.Join(path, " -> ")), nil)
		}
	}
	c.AtLeast("lock acquisitions", 12)
	c.AtLeast("roots explored", 40)
	_ = types.Typ
}

func findPath(adj map[string][]string, from, to string) []string {
	seen := map[string]bool{}
	var dfs func(n string) []string
	dfs = func(n string) []string {
		if n == to {
			return []string{n}
		}
		if seen[n] {
			return nil
		}
		seen[n] = true
		for _, m := range adj[n] {
			if r := dfs(m); r != nil {
				return append([]string{n}, r...)
			}
		}
		return nil
	}
	return dfs(from)
}

func init() {
	register("C05", "Path-sensitive typestate analysis of every mutex over the SSA form of the repository, callees inlined.", nil, rulesLocks)
}
