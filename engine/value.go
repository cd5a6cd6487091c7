package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a machine value. The static SSA type determines its
// interpretation:
//   - bool/integer: concrete in n if r == nil, otherwise r is *Term
//   - float: math.Float64bits in n
//   - string: r == nil (empty), string, or *SymStr
//   - pointer: r is *Object (n = slot offset), or nil
//   - slice: r is *Slice or nil
//   - map: r is *Map or nil; chan: *Chan or nil; func: *Closure or nil
//   - interface: *Iface or nil
//   - struct/array: *Agg (flattened slots, immutable)
//   - tuple: *Agg (one slot per component)
type Value struct {
	n uint64
	r any
}

type Object struct {
	slots []Value
	base  bool
	saved bool
	id    uint64
	name  string
}

type Slice struct {
	obj           *Object
	off, len, cap int // off in slots; len, cap in elements
	esz           int
}

type SymStr struct{ b []Value }

type Iface struct {
	typ types.Type // canonical
	v   Value
}

type Closure struct {
	fn    *fnInfo
	binds []Value
	// intr is set for engine-made functions.
	intr func(m *Machine, args []Value) Value
}

type Agg struct{ s []Value }

type mapEntry struct {
	key, val Value
	dead     bool
}

type Map struct {
	kt, vt  types.Type
	entries []mapEntry
	idx     map[string]int
	iidx    map[uint64]int
	live    int
	nsym    int
	base    bool
	saved   bool
	id      uint64
}

// canonical types ------------------------------------------------------

var canonMu sync.Mutex
var canonTab typeutil.Map

var canonFast sync.Map // types.Type -> types.Type

func canon(t types.Type) types.Type {
	if v, ok := canonFast.Load(t); ok {
		return v.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	var r types.Type
	if v := canonTab.At(t); v != nil {
		r = v.(types.Type)
	} else {
		canonTab.Set(t, t)
		r = t
	}
	canonFast.Store(t, r)
	return r
}

// layout ---------------------------------------------------------------

var sizeCache sync.Map

// slotSize is the number of value slots of t.
func slotSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v, ok := sizeCache.Load(u); ok {
			return v.(int)
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += slotSize(u.Field(i).Type())
		}
		sizeCache.Store(u, n)
		return n
	case *types.Array:
		return int(u.Len()) * slotSize(u.Elem())
	}
	return 1
}

func fieldOff(st *types.Struct, f int) int {
	n := 0
	for i := 0; i < f; i++ {
		n += slotSize(st.Field(i).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// zero values are Value{} for every non-aggregate type.
func zeroValue(t types.Type) Value {
	if isAgg(t) {
		return Value{r: &Agg{make([]Value, slotSize(t))}}
	}
	if tp, ok := t.(*types.Tuple); ok {
		s := make([]Value, tp.Len())
		for i := range s {
			s[i] = zeroValue(tp.At(i).Type())
		}
		return Value{r: &Agg{s}}
	}
	return Value{}
}

// intInfo returns the width and signedness of a basic scalar type; width 0
// means bool, -1 means not a bit-vector scalar.
func intInfo(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return -1, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// helpers --------------------------------------------------------------

func boolV(b bool) Value { return Value{n: b2u(b)} }
func intV(i int) Value   { return Value{n: uint64(i)} }
func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: s}
}

func (m *Machine) term(v Value, w uint8) *Term {
	if v.r == nil {
		return m.c.Const(w, v.n)
	}
	return v.r.(*Term)
}

func fromTerm(t *Term) Value {
	if t.op == OpConst {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func (m *Machine) newObject(n int) *Object {
	m.nextID++
	return &Object{slots: make([]Value, n), base: m.baseMode, id: m.nextID}
}

func (m *Machine) saveObj(o *Object) {
	if o.base && !o.saved && !m.baseMode {
		o.saved = true
		old := append([]Value(nil), o.slots...)
		m.undo = append(m.undo, func() { o.slots = old; o.saved = false })
	}
}

func (m *Machine) saveMap(o *Map) {
	if o.base && !o.saved && !m.baseMode {
		o.saved = true
		old := *o
		cp := *o
		cp.entries = append([]mapEntry(nil), o.entries...)
		cp.idx = map[string]int{}
		for k, v := range o.idx {
			cp.idx[k] = v
		}
		cp.iidx = map[uint64]int{}
		for k, v := range o.iidx {
			cp.iidx[k] = v
		}
		*o = cp
		m.undo = append(m.undo, func() { *o = old; o.saved = false })
	}
}

func (m *Machine) load(p Value, t types.Type, sz int, agg bool) Value {
	o := p.r.(*Object)
	if !agg {
		return o.slots[p.n]
	}
	s := make([]Value, sz)
	copy(s, o.slots[int(p.n):int(p.n)+sz])
	return Value{r: &Agg{s}}
}

func (m *Machine) store(p Value, v Value, agg bool) {
	o := p.r.(*Object)
	if o.base {
		m.saveObj(o)
	}
	if !agg {
		o.slots[p.n] = v
		return
	}
	copy(o.slots[p.n:], v.r.(*Agg).s)
}

// str returns the concrete string of v, if it is one.
func strOf(v Value) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strLen(v Value) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic("strLen")
}

func strBytes(v Value) []Value {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Value{n: uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func mkStr(b []Value) Value {
	buf := make([]byte, len(b))
	for i, x := range b {
		if x.r != nil {
			return Value{r: &SymStr{append([]Value(nil), b...)}}
		}
		buf[i] = byte(x.n)
	}
	return strV(string(buf))
}

func (s *Slice) bytes() []Value {
	if s == nil {
		return nil
	}
	return s.obj.slots[s.off : s.off+s.len*s.esz]
}

func sliceOf(v Value) *Slice {
	if v.r == nil {
		return nil
	}
	return v.r.(*Slice)
}

func sliceLen(v Value) int {
	if v.r == nil {
		return 0
	}
	return v.r.(*Slice).len
}

// concreteBytes returns the bytes if all are concrete.
func concreteBytes(b []Value) ([]byte, bool) {
	out := make([]byte, len(b))
	for i, x := range b {
		if x.r != nil {
			return nil, false
		}
		out[i] = byte(x.n)
	}
	return out, true
}

func (m *Machine) mkBytes(b []Value) Value {
	o := m.newObject(len(b))
	copy(o.slots, b)
	return Value{r: &Slice{obj: o, len: len(b), cap: len(b), esz: 1}}
}

func (m *Machine) mkConcBytes(b []byte) Value {
	o := m.newObject(len(b))
	for i, x := range b {
		o.slots[i].n = uint64(x)
	}
	return Value{r: &Slice{obj: o, len: len(b), cap: len(b), esz: 1}}
}

// concrete map key ------------------------------------------------------

// ckey returns a canonical encoding of a concrete key, or ok == false.
func ckey(sb *strings.Builder, t types.Type, v []Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slotSize(ft)
			if !ckey(sb, ft, v[off:off+n]) {
				return false
			}
			off += n
		}
		return true
	case *types.Array:
		n := slotSize(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			if !ckey(sb, u.Elem(), v[i*n:(i+1)*n]) {
				return false
			}
		}
		return true
	}
	x := v[0]
	switch r := x.r.(type) {
	case nil:
		fmt.Fprintf(sb, "n%d;", x.n)
	case *Term, *SymStr:
		return false
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(r), r)
	case *Object:
		fmt.Fprintf(sb, "o%d+%d;", r.id, x.n)
	case *Iface:
		fmt.Fprintf(sb, "i%p:", r.typ)
		return ckey(sb, r.typ, slotsOf(r.v))
	case *Map:
		fmt.Fprintf(sb, "m%d;", r.id)
	case *Chan:
		fmt.Fprintf(sb, "c%d;", r.id)
	default:
		panic(unsupported(fmt.Sprintf("map key %T", r)))
	}
	return true
}

func slotsOf(v Value) []Value {
	if a, ok := v.r.(*Agg); ok {
		return a.s
	}
	return []Value{v}
}

func fromSlots(t types.Type, s []Value) Value {
	if isAgg(t) {
		return Value{r: &Agg{append([]Value(nil), s...)}}
	}
	return s[0]
}

func (m *Machine) newMap(kt, vt types.Type) *Map {
	m.nextID++
	return &Map{kt: kt, vt: vt, idx: map[string]int{}, iidx: map[uint64]int{}, base: m.baseMode, id: m.nextID}
}

func (mp *Map) fastKey(k Value) (uint64, bool) {
	if k.r != nil {
		return 0, false
	}
	if w, _ := intInfo(mp.kt); w >= 0 {
		return k.n, true
	}
	return 0, false
}

// find returns the index of the entry with key k or -1.
func (m *Machine) mapFind(mp *Map, k Value) int {
	if ik, ok := mp.fastKey(k); ok {
		if i, ok := mp.iidx[ik]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	} else {
		var sb strings.Builder
		if ckey(&sb, mp.kt, slotsOf(k)) {
			if i, ok := mp.idx[sb.String()]; ok {
				return i
			}
			if mp.nsym == 0 {
				return -1
			}
		}
	}
	for i := range mp.entries {
		e := &mp.entries[i]
		if e.dead {
			continue
		}
		if m.branchV(m.equal(mp.kt, e.key, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	m.saveMap(mp)
	i := m.mapFind(mp, k)
	if i >= 0 {
		mp.entries[i].val = v
		return
	}
	i = len(mp.entries)
	mp.entries = append(mp.entries, mapEntry{key: k, val: v})
	mp.live++
	if ik, ok := mp.fastKey(k); ok {
		mp.iidx[ik] = i
		return
	}
	var sb strings.Builder
	if ckey(&sb, mp.kt, slotsOf(k)) {
		mp.idx[sb.String()] = i
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	m.saveMap(mp)
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	e := &mp.entries[i]
	if ik, ok := mp.fastKey(e.key); ok {
		delete(mp.iidx, ik)
	} else {
		var sb strings.Builder
		if ckey(&sb, mp.kt, slotsOf(e.key)) {
			delete(mp.idx, sb.String())
		} else {
			mp.nsym--
		}
	}
	e.dead = true
	mp.live--
}

// equality --------------------------------------------------------------

func (m *Machine) eqTerms(a, b Value, w uint8) Value {
	if a.r == nil && b.r == nil {
		return boolV(a.n == b.n)
	}
	return fromTerm(m.c.Eq(m.term(a, w), m.term(b, w)))
}

func (m *Machine) andV(a, b Value) Value {
	if a.r == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.r == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return fromTerm(m.c.And(a.r.(*Term), b.r.(*Term)))
}

func (m *Machine) orV(a, b Value) Value { return m.notV(m.andV(m.notV(a), m.notV(b))) }

func (m *Machine) notV(a Value) Value {
	if a.r == nil {
		return boolV(a.n == 0)
	}
	return fromTerm(m.c.Not(a.r.(*Term)))
}

func (m *Machine) equal(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.eqBytes(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return boolV(f64(a) == f64(b))
		}
		w, _ := intInfo(t)
		if w >= 0 {
			return m.eqTerms(a, b, uint8(w))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return boolV(a.r == b.r && a.n == b.n)
		}
	case *types.Pointer, *types.Chan, *types.Map:
		return boolV(a.r == b.r && a.n == b.n)
	case *types.Slice, *types.Signature:
		return boolV(a.r == b.r)
	case *types.Struct:
		res := boolV(true)
		off := 0
		as, bs := a.r.(*Agg).s, b.r.(*Agg).s
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slotSize(ft)
			if u.Field(i).Name() != "_" {
				res = m.andV(res, m.equal(ft, fromSlots2(ft, as[off:off+n]), fromSlots2(ft, bs[off:off+n])))
				if res.r == nil && res.n == 0 {
					return res
				}
			}
			off += n
		}
		return res
	case *types.Array:
		res := boolV(true)
		n := slotSize(u.Elem())
		as, bs := a.r.(*Agg).s, b.r.(*Agg).s
		if w, _ := intInfo(u.Elem()); w == 8 {
			return m.eqByteVals(as, bs)
		}
		for i := 0; i < int(u.Len()); i++ {
			res = m.andV(res, m.equal(u.Elem(), fromSlots2(u.Elem(), as[i*n:(i+1)*n]), fromSlots2(u.Elem(), bs[i*n:(i+1)*n])))
			if res.r == nil && res.n == 0 {
				return res
			}
		}
		return res
	case *types.Interface:
		if a.r == nil || b.r == nil {
			return boolV(a.r == b.r)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.typ != y.typ {
			return boolV(false)
		}
		if !types.Comparable(x.typ) {
			m.rtpanic("comparing uncomparable type")
		}
		return m.equal(x.typ, x.v, y.v)
	}
	panic(unsupported("equality of " + t.String()))
}

func fromSlots2(t types.Type, s []Value) Value {
	if isAgg(t) {
		return Value{r: &Agg{s}}
	}
	return s[0]
}

// eqBytes compares two strings.
func (m *Machine) eqBytes(a, b Value) Value {
	x, ok1 := strOf(a)
	y, ok2 := strOf(b)
	if ok1 && ok2 {
		return boolV(x == y)
	}
	if strLen(a) != strLen(b) {
		return boolV(false)
	}
	return m.eqByteVals(strBytes(a), strBytes(b))
}

// eqByteVals compares byte sequences, treating whole digests structurally.
func (m *Machine) eqByteVals(a, b []Value) Value {
	if len(a) != len(b) {
		return boolV(false)
	}
	// fast reject on concrete mismatch
	for i := range a {
		if a[i].r == nil && b[i].r == nil && a[i].n != b[i].n {
			return boolV(false)
		}
	}
	res := m.c.True
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		if t, n := m.digestEq(a[i:], b[i:]); n > 0 {
			res = m.c.And(res, t)
			i += n
		} else {
			res = m.c.And(res, m.c.Eq(m.term(a[i], 8), m.term(b[i], 8)))
			i++
		}
		if res.isFalse() {
			return boolV(false)
		}
	}
	return fromTerm(res)
}

// cmpByteVals returns lt, eq terms for lexicographic comparison.
func (m *Machine) cmpByteVals(a, b []Value) (lt, eq Value) {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	eq = m.eqByteVals(a[:n], b[:n])
	// lt over the common prefix, from the end
	l := m.c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		if a[i] == b[i] {
			continue
		}
		x, y := m.term(a[i], 8), m.term(b[i], 8)
		l = m.c.Or(m.c.Ult(x, y), m.c.And(m.c.Eq(x, y), l))
	}
	lt = fromTerm(l)
	if len(a) != len(b) {
		eq = boolV(false)
	}
	return
}

type fnValue = *ssa.Function
