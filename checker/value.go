package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of an abstract value.
type Kind int

const (
	KSym   Kind = iota // opaque value, identified by its key
	KConst             // compile-time constant, C == nil means nil/zero of reference type
	KAddr              // address of the location named by the key, never nil
	KFunc              // function value with its bindings
	KTuple
	KIface // interface holding Elts[0] with dynamic type Typ
	KCat   // string concatenation of Elts
	KBool  // a condition named by the key, negated when Neg
	KAgg   // struct value: Elts[0] is the base, Fields override
	KZero  // zero value of an aggregate
	KSlice // slice over the location Elts[0] (an address)
)

// V is an immutable abstract value.
type V struct {
	K      Kind
	Key    string
	NonNil bool
	Neg    bool
	C      constant.Value
	Fn     *ssa.Function
	Elts   []*V
	Fields map[string]*V
	Typ    types.Type
	Cls    string // for KAddr: the kind of location it is, "pkg.T.field" or "elem:type"
}

func mkSym(key string) *V    { return &V{K: KSym, Key: key} }
func mkNonNil(key string) *V { return &V{K: KSym, Key: key, NonNil: true} }
func mkAddr(key string) *V   { return &V{K: KAddr, Key: key, NonNil: true} }
func mkTuple(vs ...*V) *V    { return &V{K: KTuple, Key: "tup", Elts: vs} }
func mkNil() *V              { return &V{K: KConst, Key: "nil"} }
func mkBoolConst(b bool) *V  { return mkConst(constant.MakeBool(b)) }
func mkStr(s string) *V      { return mkConst(constant.MakeString(s)) }
func mkInt(i int64) *V       { return mkConst(constant.MakeInt64(i)) }
func mkConst(c constant.Value) *V {
	if c == nil {
		return mkNil()
	}
	return &V{K: KConst, Key: "c:" + c.ExactString(), C: c, NonNil: true}
}

func mkFunc(fn *ssa.Function, binds []*V) *V {
	key := "fn:" + fn.String()
	for _, b := range binds {
		key += "," + b.ID()
	}
	return &V{K: KFunc, Key: key, Fn: fn, Elts: binds, NonNil: true}
}

func mkIface(v *V, t types.Type) *V {
	if v.K == KIface {
		return v
	}
	return &V{K: KIface, Key: "if(" + v.ID() + ")", Elts: []*V{v}, Typ: t, NonNil: true}
}

func mkCat(a, b *V) *V {
	var parts []*V
	add := func(v *V) {
		if v.K == KCat {
			parts = append(parts, v.Elts...)
		} else {
			parts = append(parts, v)
		}
	}
	add(a)
	add(b)
	return catOf(parts)
}

func catOf(parts []*V) *V {
	// merge adjacent string constants
	var out []*V
	for _, p := range parts {
		if p.isStr() && constant.StringVal(p.C) == "" {
			continue
		}
		if n := len(out); n > 0 && p.isStr() && out[n-1].isStr() {
			out[n-1] = mkStr(constant.StringVal(out[n-1].C) + constant.StringVal(p.C))
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	key := "cat("
	for i, p := range out {
		if i > 0 {
			key += "+"
		}
		key += p.ID()
	}
	return &V{K: KCat, Key: key + ")", Elts: out, NonNil: true}
}

func (v *V) isStr() bool {
	return v.K == KConst && v.C != nil && v.C.Kind() == constant.String
}

func (v *V) isNil() bool { return v.K == KConst && v.C == nil }

// Parts returns the parts of a string value.
func (v *V) Parts() []*V {
	if v.K == KCat {
		return v.Elts
	}
	return []*V{v}
}

// ID is a canonical textual identity of a value.
func (v *V) ID() string {
	if v == nil {
		return "?"
	}
	switch v.K {
	case KAddr:
		return "&" + v.Key
	case KTuple:
		s := "("
		for _, e := range v.Elts {
			s += e.ID() + ","
		}
		return s + ")"
	case KBool:
		if v.Neg {
			return "!" + v.Key
		}
		return v.Key
	case KAgg:
		names := make([]string, 0, len(v.Fields))
		for n := range v.Fields {
			names = append(names, n)
		}
		sort.Strings(names)
		s := "agg{" + v.Elts[0].ID()
		for _, n := range names {
			s += "|" + n + "=" + v.Fields[n].ID()
		}
		return s + "}"
	}
	return v.Key
}

// Strip removes interface wrapping.
func (v *V) Strip() *V {
	for v != nil && v.K == KIface {
		v = v.Elts[0]
	}
	return v
}

// rename replaces token from by to in a value.
func (v *V) rename(from, to string) *V {
	if v == nil || !v.mentions(from) {
		return v
	}
	w := *v
	w.Key = strings.ReplaceAll(w.Key, from, to)
	if len(w.Elts) > 0 {
		w.Elts = make([]*V, len(v.Elts))
		for i, e := range v.Elts {
			w.Elts[i] = e.rename(from, to)
		}
	}
	if len(w.Fields) > 0 {
		w.Fields = map[string]*V{}
		for k, e := range v.Fields {
			w.Fields[k] = e.rename(from, to)
		}
	}
	return &w
}

func (v *V) mentions(tok string) bool {
	if v == nil {
		return false
	}
	if strings.Contains(v.Key, tok) {
		return true
	}
	for _, e := range v.Elts {
		if e.mentions(tok) {
			return true
		}
	}
	for _, e := range v.Fields {
		if e.mentions(tok) {
			return true
		}
	}
	return false
}

// project selects a (dotted) field of a struct value.
func (v *V) project(path string, t types.Type) *V {
	switch v.K {
	case KAgg:
		if f, ok := v.Fields[path]; ok {
			return f
		}
		// a longer path may be held by a prefix
		for i := len(path) - 1; i > 0; i-- {
			if path[i] == '.' {
				if f, ok := v.Fields[path[:i]]; ok {
					return f.project(path[i+1:], t)
				}
			}
		}
		// the selected field may itself be held field by field
		sub := map[string]*V{}
		for k, f := range v.Fields {
			if strings.HasPrefix(k, path+".") {
				sub[k[len(path)+1:]] = f
			}
		}
		base := v.Elts[0].project(path, t)
		if len(sub) > 0 {
			return &V{K: KAgg, Key: "agg", Elts: []*V{base}, Fields: sub}
		}
		return base
	case KZero:
		return zeroOf(t)
	case KIface:
		return v.Elts[0].project(path, t)
	}
	return mkSym(v.Key + "." + path)
}

func zeroOf(t types.Type) *V {
	if t == nil {
		return mkNil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBoolConst(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		}
		return mkNil()
	case *types.Struct, *types.Array:
		return &V{K: KZero, Key: "zero:" + t.String(), Typ: t, NonNil: true}
	}
	return mkNil()
}

// Step is one entry of the path that led to a state.
type Step struct {
	prev *Step
	pos  string
	what string
}

// Loc is a place captured variable cells live in, see State.mem.

// State is the abstract store at one point of one path.
type State struct {
	mem   map[string]*V
	epoch map[string]string
	facts map[string]bool
	bind  map[string]*V
	mon   map[string]string
	cls   map[string]string // location -> class
	trace *Step
}

func newState() *State {
	return &State{mem: map[string]*V{}, epoch: map[string]string{}, facts: map[string]bool{}, bind: map[string]*V{}, mon: map[string]string{}, cls: map[string]string{}}
}

func (s *State) clone() *State {
	n := &State{
		mem:   make(map[string]*V, len(s.mem)+2),
		epoch: make(map[string]string, len(s.epoch)),
		facts: make(map[string]bool, len(s.facts)+1),
		bind:  make(map[string]*V, len(s.bind)+1),
		mon:   make(map[string]string, len(s.mon)+1),
		cls:   make(map[string]string, len(s.cls)+1),
		trace: s.trace,
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.bind {
		n.bind[k] = v
	}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	for k, v := range s.cls {
		n.cls[k] = v
	}
	return n
}

func (s *State) step(pos, what string) {
	s.trace = &Step{s.trace, pos, what}
}

// Path renders the recorded steps, oldest first.
func (s *State) Path() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, fmt.Sprintf("%s: %s", t.pos, t.what))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *State) serial(sb *strings.Builder) {
	for _, k := range sortedKeys(s.mem) {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(s.mem[k].ID())
		sb.WriteByte('\n')
	}
	sb.WriteString("--\n")
	for _, k := range sortedKeys(s.epoch) {
		sb.WriteString(k + "=" + s.epoch[k] + "\n")
	}
	sb.WriteString("--\n")
	for _, k := range sortedKeys(s.facts) {
		if s.facts[k] {
			sb.WriteString("+")
		} else {
			sb.WriteString("-")
		}
		sb.WriteString(k)
		sb.WriteByte('\n')
	}
	sb.WriteString("--\n")
	for _, k := range sortedKeys(s.bind) {
		sb.WriteString(k + "=" + s.bind[k].Key + "\n")
	}
	sb.WriteString("--\n")
	for _, k := range sortedKeys(s.mon) {
		sb.WriteString(k + "=" + s.mon[k] + "\n")
	}
}

// mentions tells whether anything in the state refers to the token.
func (s *State) mentions(tok string) bool {
	for k, v := range s.mem {
		if strings.Contains(k, tok) || v.mentions(tok) {
			return true
		}
	}
	for k := range s.facts {
		if strings.Contains(k, tok) {
			return true
		}
	}
	for k := range s.bind {
		if strings.Contains(k, tok) {
			return true
		}
	}
	for k, v := range s.mon {
		if strings.Contains(k, tok) || strings.Contains(v, tok) {
			return true
		}
	}
	for _, v := range s.epoch {
		if strings.Contains(v, tok) {
			return true
		}
	}
	return false
}

// retire renames a token that is about to be produced again. What was known
// about older generations of it is dropped.
func (s *State) retire(tok, old string) {
	for k := range s.facts {
		if strings.Contains(k, old) {
			delete(s.facts, k)
		}
	}
	for k := range s.bind {
		if strings.Contains(k, old) {
			delete(s.bind, k)
		}
	}
	for k := range s.mem {
		if strings.Contains(k, old) {
			delete(s.mem, k)
		}
	}
	ren := func(k string) string { return strings.ReplaceAll(k, tok, old) }
	for _, k := range sortedKeys(s.mem) {
		v := s.mem[k]
		if strings.Contains(k, tok) || v.mentions(tok) {
			c := s.cls[k]
			delete(s.mem, k)
			delete(s.cls, k)
			s.mem[ren(k)] = v.rename(tok, old)
			s.cls[ren(k)] = c
		}
	}
	for _, k := range sortedKeys(s.facts) {
		if strings.Contains(k, tok) {
			v := s.facts[k]
			delete(s.facts, k)
			s.facts[ren(k)] = v
		}
	}
	for _, k := range sortedKeys(s.bind) {
		if strings.Contains(k, tok) {
			v := s.bind[k]
			delete(s.bind, k)
			s.bind[ren(k)] = v
		}
	}
	for _, k := range sortedKeys(s.epoch) {
		if strings.Contains(s.epoch[k], tok) {
			s.epoch[k] = ren(s.epoch[k])
		}
	}
	for _, k := range sortedKeys(s.mon) {
		v := s.mon[k]
		if strings.Contains(k, tok) || strings.Contains(v, tok) {
			delete(s.mon, k)
			s.mon[ren(k)] = ren(v)
		}
	}
}
