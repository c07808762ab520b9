package main

import (
	"fmt"
	"go/types"
	"net/url"
	"path"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// library models functions outside of the repository.
func (d *Dom) library(c *DomCall) (rv, bool) {
	if inRepo(c.Fn) {
		return nil, false
	}
	pkg := pkgPathOf(c.Fn)
	a := c.Args
	str := func(i int) (string, bool) {
		if i >= len(a) {
			return "", false
		}
		switch s := a[i].(type) {
		case rStr:
			return string(s), true
		case rByts:
			return string(s), true
		case rSlice:
			if i < len(c.Instr.Common().Args) && isBytes(c.Instr.Common().Args[i].Type()) {
				return byteSlice(s)
			}
		}
		return "", false
	}
	strs := func(ss []string) rv {
		var out []rv
		for _, s := range ss {
			out = append(out, rStr(s))
		}
		return d.Slice(out...)
	}
	num := func(i int) (int, bool) {
		if i < len(a) {
			if n, ok := a[i].(rInt); ok && n.konst() {
				return int(n.c), true
			}
		}
		return 0, false
	}
	at := func(s string, i int) rv {
		if i < 0 {
			return intOf(-1)
		}
		return lenOfStr(s[:i])
	}
	name := c.Fn.Name()
	recv := ""
	if r := c.Fn.Signature.Recv(); r != nil {
		recv = typeName(r.Type())
		if n := derefNamed(r.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	if strings.HasSuffix(pkg, "/concurrent-map") || pkg == "sync" && recv == "Map" {
		return d.sharedMap(c, name)
	}
	switch pkg {
	case "unicode/utf8":
		if t, ok := str(0); ok && !strings.ContainsFunc(t, isAtom) {
			switch name {
			case "DecodeRune", "DecodeRuneInString":
				r, n := utf8.DecodeRuneInString(t)
				return rTuple{intOf(int64(r)), intOf(int64(n))}, true
			case "RuneCount", "RuneCountInString":
				return intOf(int64(utf8.RuneCountInString(t))), true
			case "ValidString", "Valid":
				return rBool(utf8.ValidString(t)), true
			}
		}
	case "strconv":
		if n, ok := num(0); ok && name == "Itoa" {
			return rStr(strconv.Itoa(n)), true
		}
	case "log", "runtime/debug":
		if c.Fn.Signature.Results().Len() == 0 && !strings.HasPrefix(name, "Fatal") && !strings.HasPrefix(name, "Panic") {
			return rNil{}, true
		}
		if strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") {
			d.exc(c.Instr, name)
		}
	case "sync":
		switch name {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return rNil{}, true
		}
	case "sort", "slices":
		if name == "Search" && pkg == "sort" {
			size, ok := num(0)
			if !ok {
				return nil, false
			}
			// the condition stays true once it is
			for i := 0; i < size; i++ {
				if d.truth(d.CallFunc(c, a[1], intOf(int64(i))), d.P.InstrPos(c.Instr)) {
					return intOf(int64(i)), true
				}
			}
			return intOf(int64(size)), true
		}
		if name == "Slice" || name == "SliceStable" || name == "SortFunc" || name == "SortStableFunc" {
			v := a[0]
			if i, ok := v.(rIface); ok {
				v = i.v
			}
			s, ok := v.(rSlice)
			if !ok {
				if _, isNil := v.(rNil); isNil {
					return rNil{}, true
				}
				return nil, false
			}
			for i := 1; i < s.len; i++ {
				for j := i; j > 0; j-- {
					x, y := (*s.back)[s.off+j-1], (*s.back)[s.off+j]
					var less bool
					if pkg == "sort" {
						less = d.truth(d.CallFunc(c, a[1], intOf(int64(j)), intOf(int64(j-1))), d.P.InstrPos(c.Instr))
					} else {
						n, ok := d.CallFunc(c, a[1], y.v, x.v).(rInt)
						if !ok || !n.konst() {
							d.fail("the order of a sort is not known at %s", d.P.InstrPos(c.Instr))
						}
						less = n.c < 0
					}
					if !less {
						break
					}
					x.v, y.v = y.v, x.v
				}
			}
			return rNil{}, true
		}
		if pkg == "slices" {
			// generic helpers are interpreted
			if c.Fn.Blocks != nil && (name == "Contains" || name == "Index" || name == "IndexFunc" || name == "ContainsFunc" || name == "Reverse") {
				return d.Run(c.Fn, a, nil), true
			}
		}
	case "strings", "bytes":
		if recv == "Builder" || recv == "Buffer" {
			cell, ok := a[0].(*rCell)
			if !ok {
				return nil, false
			}
			switch name {
			case "WriteString", "Write":
				s, ok := str(1)
				if !ok {
					d.fail("an unknown string is built at %s", d.P.InstrPos(c.Instr))
				}
				d.bufs[cell] += s
				return rTuple{lenOfStr(s), rNil{}}, true
			case "WriteByte", "WriteRune":
				n, ok := num(1)
				if !ok {
					d.fail("an unknown string is built at %s", d.P.InstrPos(c.Instr))
				}
				d.bufs[cell] += string(rune(n))
				if name == "WriteByte" {
					return rNil{}, true
				}
				return rTuple{intOf(1), rNil{}}, true
			case "String":
				return rStr(d.bufs[cell]), true
			case "Bytes":
				return rByts(d.bufs[cell]), true
			case "Len":
				return lenOfStr(d.bufs[cell]), true
			case "Grow":
				return rNil{}, true
			case "Reset":
				d.bufs[cell] = ""
				return rNil{}, true
			}
			return nil, false
		}
		res := func(s string) rv {
			if pkg == "bytes" {
				return rByts(s)
			}
			return rStr(s)
		}
		x, ok1 := str(0)
		y, ok2 := str(1)
		if name == "Join" && ok2 {
			items, ok := d.Elems(a[0])
			if !ok {
				return nil, false
			}
			var parts []string
			for _, it := range items {
				s, ok := it.(rStr)
				if !ok {
					return nil, false
				}
				parts = append(parts, string(s))
			}
			return res(strings.Join(parts, y)), true
		}
		if !ok1 {
			return nil, false
		}
		switch name {
		case "ToLower":
			return res(strings.ToLower(x)), true
		case "ToUpper":
			if strings.IndexFunc(x, isAtom) >= 0 {
				return nil, false
			}
			return res(strings.ToUpper(x)), true
		case "TrimSpace":
			return res(strings.TrimSpace(x)), true
		case "Clone":
			return res(x), true
		case "Fields":
			return strs(strings.Fields(x)), true
		case "IndexByte", "IndexRune", "LastIndexByte":
			n, ok := num(1)
			if !ok {
				return nil, false
			}
			if name == "LastIndexByte" {
				return at(x, strings.LastIndexByte(x, byte(n))), true
			}
			return at(x, strings.IndexRune(x, rune(n))), true
		}
		if !ok2 {
			return nil, false
		}
		switch name {
		case "HasPrefix":
			return rBool(strings.HasPrefix(x, y)), true
		case "HasSuffix":
			return rBool(strings.HasSuffix(x, y)), true
		case "Contains":
			return rBool(strings.Contains(x, y)), true
		case "ContainsAny":
			return rBool(strings.ContainsAny(x, y)), true
		case "EqualFold":
			return rBool(strings.EqualFold(x, y)), true
		case "Equal":
			return rBool(x == y), true
		case "Compare":
			return intOf(int64(strings.Compare(x, y))), true
		case "TrimPrefix":
			return res(strings.TrimPrefix(x, y)), true
		case "TrimSuffix":
			return res(strings.TrimSuffix(x, y)), true
		case "Trim":
			return res(strings.Trim(x, y)), true
		case "TrimLeft":
			return res(strings.TrimLeft(x, y)), true
		case "TrimRight":
			return res(strings.TrimRight(x, y)), true
		case "Index":
			return at(x, strings.Index(x, y)), true
		case "LastIndex":
			return at(x, strings.LastIndex(x, y)), true
		case "IndexAny":
			return at(x, strings.IndexAny(x, y)), true
		case "Count":
			return intOf(int64(strings.Count(x, y))), true
		case "Split":
			if pkg == "strings" {
				return strs(strings.Split(x, y)), true
			}
		case "SplitN":
			if n, ok := num(2); ok && pkg == "strings" {
				return strs(strings.SplitN(x, y, n)), true
			}
		case "CutPrefix":
			s, ok := strings.CutPrefix(x, y)
			return rTuple{res(s), rBool(ok)}, true
		case "CutSuffix":
			s, ok := strings.CutSuffix(x, y)
			return rTuple{res(s), rBool(ok)}, true
		case "Cut":
			s, t, ok := strings.Cut(x, y)
			return rTuple{res(s), res(t), rBool(ok)}, true
		case "Replace":
			if z, ok := str(2); ok {
				if n, ok := num(3); ok {
					return res(strings.Replace(x, y, z, n)), true
				}
			}
		case "ReplaceAll":
			if z, ok := str(2); ok {
				return res(strings.ReplaceAll(x, y, z)), true
			}
		}
	case "net/url":
		if v, ok := d.urlCall(c, name); ok {
			return v, true
		}
	case "path", "path/filepath":
		if name == "Join" {
			items, ok := d.Elems(a[0])
			if !ok {
				return nil, false
			}
			var parts []string
			for _, it := range items {
				s, ok := it.(rStr)
				if !ok {
					return nil, false
				}
				parts = append(parts, string(s))
			}
			return rStr(path.Join(parts...)), true
		}
		if s, ok := str(0); ok {
			switch name {
			case "Ext":
				return rStr(path.Ext(s)), true
			case "Clean":
				return rStr(path.Clean(s)), true
			case "Dir":
				return rStr(path.Dir(s)), true
			case "Base":
				return rStr(path.Base(s)), true
			case "ToSlash", "FromSlash":
				return rStr(s), true
			case "Rel":
				// a path in a directory
				if t, ok := str(1); ok && path.IsAbs(s) && path.IsAbs(t) {
					s, t = path.Clean(s), path.Clean(t)
					if s == t {
						return rTuple{rStr("."), rNil{}}, true
					}
					if strings.HasPrefix(t, strings.TrimSuffix(s, "/")+"/") {
						return rTuple{rStr(t[len(strings.TrimSuffix(s, "/"))+1:]), rNil{}}, true
					}
				}
			}
		}
	case "fmt":
		if name == "Sprintf" || name == "Sprint" {
			items, ok := d.Elems(a[len(a)-1])
			if !ok {
				return nil, false
			}
			var parts []string
			for _, it := range items {
				if i, ok := it.(rIface); ok {
					it = i.v
				}
				switch s := it.(type) {
				case rStr:
					parts = append(parts, string(s))
				case rInt:
					if !s.konst() {
						return nil, false
					}
					parts = append(parts, d.id(intOf(s.c))[:len(d.id(intOf(s.c)))-1])
				default:
					return nil, false
				}
			}
			if name == "Sprint" {
				return rStr(strings.Join(parts, "")), true
			}
			f, ok := str(0)
			if !ok {
				return nil, false
			}
			var sb strings.Builder
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					sb.WriteByte(f[i])
					continue
				}
				i++
				if i >= len(f) {
					return nil, false
				}
				if f[i] == '%' {
					sb.WriteByte('%')
					continue
				}
				if (f[i] != 's' && f[i] != 'v' && f[i] != 'd') || len(parts) == 0 {
					return nil, false
				}
				sb.WriteString(parts[0])
				parts = parts[1:]
			}
			return rStr(sb.String()), true
		}
	}
	return nil, false
}

var _ *ssa.Function

// SharedMap is what is known about the contents of a concurrent map. Unless it
// was given, it is empty.
func (d *Dom) SharedMap(v rv) *rMap {
	id := d.id(v)
	m := d.maps[id]
	if m == nil {
		m = &rMap{}
		d.maps[id] = m
	}
	return m
}

// Lookup finds a key that is known.
func (m *rMap) Lookup(d *Dom, key rv) int {
	for i, k := range m.keys {
		if d.eq(k, key) == 1 {
			return i
		}
	}
	return -1
}

// Put sets the value of a key, nil removes it.
func (m *rMap) Put(d *Dom, key, v rv) {
	i := m.Lookup(d, key)
	switch {
	case v == nil && i >= 0:
		m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
		m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
	case v == nil:
	case i >= 0:
		m.vals[i] = v
	default:
		m.keys, m.vals = append(m.keys, key), append(m.vals, v)
	}
}

// sharedMap models the maps of concurrent-map and sync.
func (d *Dom) sharedMap(c *DomCall, name string) (rv, bool) {
	a := c.Args
	if c.Fn.Signature.Recv() == nil {
		if name == "New" {
			d.serial++
			return rUnk{id: "map" + d.id(intOf(int64(d.serial))), t: c.Fn.Signature.Results().At(0).Type(), nonNil: true}, true
		}
		return nil, false
	}
	m := d.SharedMap(a[0])
	key := func() (rv, int) {
		k := a[1]
		if i, ok := k.(rIface); ok {
			k = i.v
		}
		for i := range m.keys {
			if d.eq(m.keys[i], k) < 0 {
				d.fail("whether two keys are equal at %s", d.P.InstrPos(c.Instr))
			}
		}
		return k, m.Lookup(d, k)
	}
	val := func(i int) rv {
		if i < 0 {
			return rNil{}
		}
		return m.vals[i]
	}
	switch name {
	case "Set", "Store":
		k, _ := key()
		m.Put(d, k, a[2])
		return rNil{}, true
	case "Get", "Load":
		_, i := key()
		return rTuple{val(i), rBool(i >= 0)}, true
	case "Has":
		_, i := key()
		return rBool(i >= 0), true
	case "Remove", "Delete":
		k, _ := key()
		m.Put(d, k, nil)
		return rNil{}, true
	case "SetIfAbsent":
		k, i := key()
		if i < 0 {
			m.Put(d, k, a[2])
		}
		return rBool(i < 0), true
	case "LoadOrStore":
		k, i := key()
		if i < 0 {
			m.Put(d, k, a[2])
			return rTuple{a[2], rBool(false)}, true
		}
		return rTuple{val(i), rBool(true)}, true
	case "Pop", "LoadAndDelete":
		k, i := key()
		v := val(i)
		m.Put(d, k, nil)
		return rTuple{v, rBool(i >= 0)}, true
	case "RemoveCb":
		k, i := key()
		gone := d.truth(d.CallFunc(c, a[2], k, val(i), rBool(i >= 0)), d.P.InstrPos(c.Instr))
		if gone {
			m.Put(d, k, nil)
		}
		return rBool(gone), true
	case "Upsert":
		k, i := key()
		v := d.CallFunc(c, a[3], rBool(i >= 0), val(i), a[2])
		m.Put(d, k, v)
		return v, true
	case "CompareAndDelete":
		k, i := key()
		if i >= 0 && d.truth(d.eqCond(val(i), a[2]), d.P.InstrPos(c.Instr)) {
			m.Put(d, k, nil)
			return rBool(true), true
		}
		return rBool(false), true
	case "CompareAndSwap":
		k, i := key()
		if i >= 0 && d.truth(d.eqCond(val(i), a[2]), d.P.InstrPos(c.Instr)) {
			m.Put(d, k, a[3])
			return rBool(true), true
		}
		return rBool(false), true
	case "Iter", "IterBuffered":
		ch, ok := c.Fn.Signature.Results().At(0).Type().Underlying().(*types.Chan)
		if !ok || c.Fn.Signature.Params().Len() != 0 {
			return nil, false
		}
		d.serial++
		u := rUnk{id: fmt.Sprintf("channel %d", d.serial), t: ch, nonNil: true}
		var all []rv
		for i := range m.keys {
			t, ok := d.zero(ch.Elem()).(*rStruct)
			if !ok || len(t.f) != 2 {
				return nil, false
			}
			t.f[0].v, t.f[1].v = m.keys[i], m.vals[i]
			all = append(all, t)
		}
		if d.Chans == nil {
			d.Chans = map[string][]rv{}
		}
		d.Chans[d.id(u)] = append(all, d.zero(ch.Elem()))
		return u, true
	case "Count":
		return intOf(int64(len(m.keys))), true
	case "IsEmpty":
		return rBool(len(m.keys) == 0), true
	}
	return nil, false
}

// urlCall is what net/url does to texts that are known. The parts of a URL that
// has letters which are not known are those of a file without escapes.
func (d *Dom) urlCall(c *DomCall, name string) (rv, bool) {
	res := c.Fn.Signature.Results()
	var s string
	known := false
	if len(c.Args) > 0 {
		switch t := c.Args[0].(type) {
		case rStr:
			s, known = string(t), true
		case rByts:
			s, known = string(t), true
		}
	}
	pair := func(v string, err error) (rv, bool) {
		if err != nil {
			return rTuple{rStr(v), rUnk{id: "an error of net/url", t: res.At(1).Type(), nonNil: true}}, true
		}
		return rTuple{rStr(v), rNil{}}, true
	}
	if known {
		atoms := strings.ContainsFunc(s, isAtom)
		switch name {
		case "QueryEscape":
			if !atoms {
				return rStr(url.QueryEscape(s)), true
			}
		case "PathEscape":
			if !atoms {
				return rStr(url.PathEscape(s)), true
			}
		case "QueryUnescape":
			return pair(url.QueryUnescape(s))
		case "PathUnescape":
			return pair(url.PathUnescape(s))
		case "Parse", "ParseRequestURI":
			if res.Len() != 2 || atoms && (!strings.HasPrefix(s, "file://") || strings.ContainsAny(s, "%?#")) {
				return nil, false
			}
			parse := url.Parse
			if name == "ParseRequestURI" {
				parse = url.ParseRequestURI
			}
			u, err := parse(s)
			if err != nil {
				return rTuple{rNil{}, rUnk{id: "an error of net/url", t: res.At(1).Type(), nonNil: true}}, true
			}
			o := d.NewObject(derefType(res.At(0).Type()))
			for f, v := range map[string]string{"Scheme": u.Scheme, "Opaque": u.Opaque, "Host": u.Host, "Path": u.Path, "RawPath": u.RawPath, "RawQuery": u.RawQuery, "Fragment": u.Fragment, "RawFragment": u.RawFragment} {
				d.Field(o, f).v = rStr(v)
			}
			if atoms {
				d.urls[o] = s
			}
			return rTuple{o, rNil{}}, true
		}
		return nil, false
	}
	if len(c.Args) == 0 {
		return nil, false
	}
	if u, ok := c.Args[0].(*rCell); ok && d.urls[u] != "" {
		if name == "String" {
			return rStr(d.urls[u]), true
		}
		return nil, false
	}
	u := &url.URL{}
	for f, p := range map[string]*string{"Scheme": &u.Scheme, "Opaque": &u.Opaque, "Host": &u.Host, "Path": &u.Path, "RawPath": &u.RawPath, "RawQuery": &u.RawQuery, "Fragment": &u.Fragment, "RawFragment": &u.RawFragment} {
		v, ok := member(d, c.Args[0], f).(rStr)
		if !ok || strings.ContainsFunc(string(v), isAtom) {
			return nil, false
		}
		*p = string(v)
	}
	if none, _ := isNilRv(member(d, c.Args[0], "User")); !none {
		return nil, false
	}
	switch name {
	case "String":
		return rStr(u.String()), true
	case "EscapedPath":
		return rStr(u.EscapedPath()), true
	}
	return nil, false
}
