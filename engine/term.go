package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is the operator of a term.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract
	OpSExt
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "sign_extend"}

// Term is a hash-consed bit-vector (w in 1..64) or boolean (w == 0) term.
type Term struct {
	id   int32
	op   Op
	w    uint8
	k    uint64 // const value; extract low bit; var index
	args []*Term
	name string // var
	dig  *HashApp

	evEpoch uint32
	evVal   uint64
	sent    uint32 // solver generation in which this term was defined
	vars    []int32
	varsOk  bool
	mx, mn  uint64
	mxok    bool
	mnok    bool
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

// Ctx is a per-worker term table.
type Ctx struct {
	tab    map[termKey]*Term
	ntab   map[string]*Term
	vtab   map[string]*Term
	vars   []*Term
	nterms int32
	True   *Term
	False  *Term

	epoch  uint32
	varVal []uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, ntab: map[string]*Term{}, vtab: map[string]*Term{}, epoch: 1}
	c.False = c.mk(OpConst, 0, 0)
	c.True = c.mk(OpConst, 0, 1)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	if len(args) <= 3 {
		key := termKey{op: op, w: w, k: k, a: -1, b: -1, c: -1}
		if len(args) > 0 {
			key.a = args[0].id
		}
		if len(args) > 1 {
			key.b = args[1].id
		}
		if len(args) > 2 {
			key.c = args[2].id
		}
		if t, ok := c.tab[key]; ok {
			return t
		}
		t := &Term{id: c.nterms, op: op, w: w, k: k}
		if len(args) > 0 {
			t.args = append([]*Term(nil), args...)
		}
		c.nterms++
		c.tab[key] = t
		return t
	}
	var sb strings.Builder
	sb.WriteByte(byte(op))
	sb.WriteByte(w)
	var tmp [8]byte
	for _, a := range args {
		binary.LittleEndian.PutUint32(tmp[:4], uint32(a.id))
		sb.Write(tmp[:4])
	}
	key := sb.String()
	if t, ok := c.ntab[key]; ok {
		return t
	}
	t := &Term{id: c.nterms, op: op, w: w, k: k, args: append([]*Term(nil), args...)}
	c.nterms++
	c.ntab[key] = t
	return t
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OpConst, w, v&mask(w)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns the variable with the given name, creating it if necessary.
func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vtab[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	t := &Term{id: c.nterms, op: OpVar, w: w, k: uint64(len(c.vars)), name: name}
	c.nterms++
	c.vtab[name] = t
	c.vars = append(c.vars, t)
	c.varVal = append(c.varVal, 0)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpNot:
		return a.args[0]
	case OpUlt:
		return c.Ule(a.args[1], a.args[0])
	case OpUle:
		return c.Ult(a.args[1], a.args[0])
	case OpSlt:
		return c.Sle(a.args[1], a.args[0])
	case OpSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(OpNot, 0, 0, a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return b
		}
		return a
	}
	if b.isConst() {
		if b.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
		return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
	}
	if cond.op == OpNot {
		cond, a, b = cond.args[0], b, a
	}
	return c.mk(OpIte, a.w, 0, cond, a, b)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
		return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k > c.umax(a) || b.k < c.umin(a) {
			return c.False
		}
		switch a.op {
		case OpConcat:
			res := c.True
			pos := int(a.w)
			for _, p := range a.args {
				pos -= int(p.w)
				res = c.And(res, c.Eq(p, c.Const(p.w, b.k>>uint(pos))))
				if res.isFalse() {
					return res
				}
			}
			return res
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OpAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(a.w, b.k-a.args[1].k))
			}
		case OpBNot:
			return c.Eq(a.args[0], c.Const(a.w, ^b.k))
		}
	} else if a.op == OpConcat || b.op == OpConcat {
		// Split along common boundaries.
		res := c.True
		for _, s := range c.align(a, b) {
			res = c.And(res, c.rawEq(s[0], s[1]))
			if res.isFalse() {
				return res
			}
		}
		return res
	}
	return c.rawEq(a, b)
}

func (c *Ctx) rawEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() || b.isConst() {
		if a.isConst() && b.isConst() {
			return c.Bool(a.k == b.k)
		}
		if a.isConst() {
			a, b = b, a
		}
		switch {
		case a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()),
			a.op == OpAdd && a.args[1].isConst(), a.op == OpBNot:
			return c.Eq(a, b)
		}
		// single-bit normalisation
		if a.w == 1 && b.k == 0 {
			return c.Not(c.rawEq(a, c.Const(1, 1)))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b)
}

func (c *Ctx) umax(t *Term) uint64 {
	if !t.mxok {
		t.mx = c.umax1(t)
		t.mxok = true
	}
	return t.mx
}

func (c *Ctx) umin(t *Term) uint64 {
	if !t.mnok {
		t.mn = c.umin1(t)
		t.mnok = true
	}
	return t.mn
}

func (c *Ctx) umax1(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpConcat:
		var v uint64
		for _, p := range t.args {
			if p.w >= 64 {
				v = 0
			} else {
				v <<= p.w
			}
			if p.isConst() {
				v |= p.k
			} else {
				v |= mask(p.w)
			}
		}
		return v
	case OpIte:
		a, b := t.args[1], t.args[2]
		if (a.isConst() || a.op == OpConcat) && (b.isConst() || b.op == OpConcat || b.op == OpIte) {
			x, y := c.umax(a), c.umax(b)
			if x > y {
				return x
			}
			return y
		}
	case OpURem:
		if t.args[1].isConst() && t.args[1].k > 0 {
			return t.args[1].k - 1
		}
	case OpUDiv:
		if t.args[1].isConst() && t.args[1].k > 0 {
			return c.umax(t.args[0]) / t.args[1].k
		}
	case OpAdd:
		x, y := c.umax(t.args[0]), c.umax(t.args[1])
		if s, cy := bits.Add64(x, y, 0); cy == 0 && s <= mask(t.w) {
			return s
		}
	case OpBAnd:
		x, y := c.umax(t.args[0]), c.umax(t.args[1])
		if x < y {
			return x
		}
		return y
	}
	return mask(t.w)
}

func (c *Ctx) umin1(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpConcat:
		var v uint64
		for _, p := range t.args {
			if p.w >= 64 {
				v = 0
			} else {
				v <<= p.w
			}
			if p.isConst() {
				v |= p.k
			}
		}
		return v
	case OpAdd:
		x, y := c.umax(t.args[0]), c.umax(t.args[1])
		if s, cy := bits.Add64(x, y, 0); cy == 0 && s <= mask(t.w) {
			return c.umin(t.args[0]) + c.umin(t.args[1])
		}
	}
	return 0
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if c.umax(a) < c.umin(b) {
		return c.True
	}
	if c.umin(a) >= c.umax(b) {
		return c.False
	}
	if b.isConst() && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a2, b2, ok := c.narrow(a, b); ok {
		return c.Ult(a2, b2)
	}
	return c.mk(OpUlt, 0, 0, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k <= b.k)
	}
	if c.umax(a) <= c.umin(b) {
		return c.True
	}
	if c.umin(a) > c.umax(b) {
		return c.False
	}
	if b.isConst() && b.k == 0 {
		return c.Eq(a, b)
	}
	if a2, b2, ok := c.narrow(a, b); ok {
		return c.Ule(a2, b2)
	}
	return c.mk(OpUle, 0, 0, a, b)
}

// narrow strips common zero high bits.
func (c *Ctx) narrow(a, b *Term) (*Term, *Term, bool) {
	if a.op != OpConcat && b.op != OpConcat {
		return nil, nil, false
	}
	m := c.umax(a) | c.umax(b)
	n := uint8(bits.Len64(m))
	if n == 0 {
		n = 1
	}
	if n >= a.w {
		return nil, nil, false
	}
	return c.Extract(n-1, 0, a), c.Extract(n-1, 0, b), true
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if c.umax(a) < half && c.umax(b) < half {
		return c.Ult(a, b)
	}
	if c.umax(a) < half && b.isConst() && b.k >= half {
		return c.False
	}
	if c.umax(b) < half && a.isConst() && a.k >= half {
		return c.True
	}
	return c.mk(OpSlt, 0, 0, a, b)
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if c.umax(a) < half && c.umax(b) < half {
		return c.Ule(a, b)
	}
	if c.umax(a) < half && b.isConst() && b.k >= half {
		return c.False
	}
	if c.umax(b) < half && a.isConst() && a.k >= half {
		return c.True
	}
	return c.mk(OpSle, 0, 0, a, b)
}

// ---- bit-vectors

func (c *Ctx) Extract(hi, lo uint8, t *Term) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return c.Const(w, t.k>>lo)
	case OpExtract:
		return c.Extract(hi+uint8(t.k), lo+uint8(t.k), t.args[0])
	case OpConcat:
		var parts []*Term
		pos := int(t.w)
		for _, p := range t.args {
			ph, pl := pos-1, pos-int(p.w)
			pos = pl
			if pl > int(hi) || ph < int(lo) {
				continue
			}
			h, l := ph, pl
			if h > int(hi) {
				h = int(hi)
			}
			if l < int(lo) {
				l = int(lo)
			}
			parts = append(parts, c.Extract(uint8(h-pl), uint8(l-pl), p))
		}
		return c.Concat(parts...)
	case OpBAnd, OpBOr, OpBXor:
		return c.bitop(t.op, c.Extract(hi, lo, t.args[0]), c.Extract(hi, lo, t.args[1]))
	case OpBNot:
		return c.BNot(c.Extract(hi, lo, t.args[0]))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.arith(t.op, c.Extract(hi, 0, t.args[0]), c.Extract(hi, 0, t.args[1]))
		}
	case OpIte:
		if t.args[1].isConst() || t.args[2].isConst() || lo == 0 {
			return c.Ite(t.args[0], c.Extract(hi, lo, t.args[1]), c.Extract(hi, lo, t.args[2]))
		}
	case OpSExt:
		x := t.args[0]
		if hi < x.w {
			return c.Extract(hi, lo, x)
		}
	}
	return c.mk(OpExtract, w, uint64(lo), t)
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	var out []*Term
	var w int
	add := func(p *Term) {
		w += int(p.w)
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.isConst() && p.isConst() {
				out[n-1] = c.Const(l.w+p.w, l.k<<p.w|p.k)
				return
			}
			// merge adjacent extracts
			lb, llo := l, uint8(0)
			if l.op == OpExtract {
				lb, llo = l.args[0], uint8(l.k)
			}
			pb, plo := p, uint8(0)
			if p.op == OpExtract {
				pb, plo = p.args[0], uint8(p.k)
			}
			if lb == pb && l.op == OpExtract && llo == plo+p.w {
				out[n-1] = c.Extract(llo+l.w-1, plo, lb)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if p.op == OpConcat {
			for _, q := range p.args {
				add(q)
			}
		} else {
			add(p)
		}
	}
	if w > 64 {
		panic("concat too wide")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(OpConcat, uint8(w), 0, out...)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if w <= t.w {
		return c.Extract(w-1, 0, t)
	}
	if t.isConst() {
		return c.Const(w, t.k)
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if w <= t.w {
		return c.Extract(w-1, 0, t)
	}
	if t.isConst() {
		return c.Const(w, uint64(sext(t.k, t.w)))
	}
	if c.umax(t) < uint64(1)<<(t.w-1) {
		return c.ZExt(t, w)
	}
	return c.mk(OpSExt, w, 0, t)
}

// align splits a and b along common piece boundaries, high to low.
func (c *Ctx) align(a, b *Term) [][2]*Term {
	cuts := map[int]bool{}
	add := func(t *Term) {
		if t.op == OpConcat {
			pos := int(t.w)
			for _, p := range t.args {
				cuts[pos] = true
				pos -= int(p.w)
			}
		}
	}
	add(a)
	add(b)
	cuts[int(a.w)] = true
	cuts[0] = true
	ks := make([]int, 0, len(cuts))
	for k := range cuts {
		ks = append(ks, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ks)))
	var out [][2]*Term
	for i := 0; i+1 < len(ks); i++ {
		hi, lo := uint8(ks[i]-1), uint8(ks[i+1])
		out = append(out, [2]*Term{c.Extract(hi, lo, a), c.Extract(hi, lo, b)})
	}
	return out
}

func foldBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("foldBin")
}

func (c *Ctx) arith(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("arith width mismatch %s %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Const(w, foldBin(op, w, a.k, b.k))
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return c.arith(OpAdd, a.args[0], c.Const(w, a.args[1].k+b.k))
			}
		}
		if a.op == OpConcat && (b.op == OpConcat || b.isConst()) {
			if r := c.disjointOr(a, b); r != nil {
				return r
			}
		}
		// (x - y) + y
		if a.op == OpSub && a.args[1] == b {
			return a.args[0]
		}
		if b.op == OpSub && b.args[1] == a {
			return b.args[0]
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
		// float constants outward: (x+c)+y -> (x+y)+c
		if !b.isConst() {
			if a.op == OpAdd && a.args[1].isConst() {
				return c.arith(OpAdd, c.arith(OpAdd, a.args[0], b), a.args[1])
			}
			if b.op == OpAdd && b.args[1].isConst() {
				return c.arith(OpAdd, c.arith(OpAdd, a, b.args[0]), b.args[1])
			}
		}
	case OpSub:
		if a == b {
			return c.Const(w, 0)
		}
		if b.isConst() {
			return c.arith(OpAdd, a, c.Const(w, -b.k))
		}
		if a.op == OpAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[1].isConst() {
				return c.arith(OpAdd, c.arith(OpSub, a.args[0], b), a.args[1])
			}
		}
		if b.op == OpAdd && b.args[1].isConst() {
			return c.arith(OpAdd, c.arith(OpSub, a, b.args[0]), c.Const(w, -b.args[1].k))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return c.Shl(a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OpUDiv:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Lshr(a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OpURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.bitop(OpBAnd, a, c.Const(w, b.k-1))
		}
	case OpSDiv:
		half := uint64(1) << (w - 1)
		if c.umax(a) < half && c.umax(b) < half {
			return c.arith(OpUDiv, a, b)
		}
	case OpSRem:
		half := uint64(1) << (w - 1)
		if c.umax(a) < half && c.umax(b) < half {
			return c.arith(OpURem, a, b)
		}
	}
	return c.mk(op, w, 0, a, b)
}

func (c *Ctx) disjointOr(a, b *Term) *Term {
	segs := c.align(a, b)
	var parts []*Term
	for _, s := range segs {
		if s[0].isConst() && s[0].k == 0 {
			parts = append(parts, s[1])
		} else if s[1].isConst() && s[1].k == 0 {
			parts = append(parts, s[0])
		} else {
			return nil
		}
	}
	return c.Concat(parts...)
}

func runs(v uint64, w uint8) int {
	n := 1
	for i := uint8(1); i < w; i++ {
		if (v>>i)&1 != (v>>(i-1))&1 {
			n++
		}
	}
	return n
}

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(w, foldBin(op, w, a.k, b.k))
	}
	if a == b {
		if op == OpBXor {
			return c.Const(w, 0)
		}
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	m := mask(w)
	if b.isConst() {
		switch {
		case b.k == 0 && op == OpBAnd:
			return b
		case b.k == 0:
			return a
		case b.k == m && op == OpBAnd:
			return a
		case b.k == m && op == OpBOr:
			return b
		case b.k == m && op == OpBXor:
			return c.BNot(a)
		}
		if n := runs(b.k, w); n <= 6 {
			var parts []*Term
			hi := int(w) - 1
			for hi >= 0 {
				bit := (b.k >> uint(hi)) & 1
				lo := hi
				for lo > 0 && (b.k>>uint(lo-1))&1 == bit {
					lo--
				}
				pw := uint8(hi - lo + 1)
				x := c.Extract(uint8(hi), uint8(lo), a)
				switch {
				case op == OpBAnd && bit == 0:
					parts = append(parts, c.Const(pw, 0))
				case op == OpBOr && bit == 1:
					parts = append(parts, c.Const(pw, mask(pw)))
				case op == OpBXor && bit == 1:
					parts = append(parts, c.BNot(x))
				default:
					parts = append(parts, x)
				}
				hi = lo - 1
			}
			return c.Concat(parts...)
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		segs := c.align(a, b)
		if len(segs) > 1 {
			parts := make([]*Term, len(segs))
			for i, s := range segs {
				parts[i] = c.bitop(op, s[0], s[1])
			}
			return c.Concat(parts...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, w, 0, a, b)
}

func (c *Ctx) BNot(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Const(a.w, ^a.k)
	case OpBNot:
		return a.args[0]
	case OpConcat:
		parts := make([]*Term, len(a.args))
		for i, p := range a.args {
			parts[i] = c.BNot(p)
		}
		return c.Concat(parts...)
	}
	return c.mk(OpBNot, a.w, 0, a)
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		k := uint8(b.k)
		if k == 0 {
			return a
		}
		return c.Concat(c.Extract(a.w-1-k, 0, a), c.Const(k, 0))
	}
	return c.mk(OpShl, a.w, 0, a, b)
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		k := uint8(b.k)
		if k == 0 {
			return a
		}
		return c.Concat(c.Const(k, 0), c.Extract(a.w-1, k, a))
	}
	return c.mk(OpLshr, a.w, 0, a, b)
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	if c.umax(a) < uint64(1)<<(a.w-1) {
		return c.Lshr(a, b)
	}
	if b.isConst() {
		k := b.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return c.SExt(c.Extract(a.w-1, uint8(k), a), a.w)
	}
	return c.mk(OpAshr, a.w, 0, a, b)
}

// ---- evaluation under the current model

func (c *Ctx) setModel(m Model) {
	c.epoch++
	for i, v := range c.vars {
		c.varVal[i] = m[v.name]
	}
}

func (c *Ctx) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.evEpoch == c.epoch {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpVar:
		if t.dig != nil && !t.dig.active {
			r = uint64(t.dig.evalDefault(c)[int(t.dig.index(t))])
		} else {
			r = c.varVal[t.k] & mask(t.w)
		}
	case OpNot:
		r = 1 - c.Eval(t.args[0])
	case OpAnd:
		r = c.Eval(t.args[0])
		if r == 1 {
			r = c.Eval(t.args[1])
		}
	case OpOr:
		r = c.Eval(t.args[0])
		if r == 0 {
			r = c.Eval(t.args[1])
		}
	case OpIte:
		if c.Eval(t.args[0]) == 1 {
			r = c.Eval(t.args[1])
		} else {
			r = c.Eval(t.args[2])
		}
	case OpEq:
		r = b2u(c.Eval(t.args[0]) == c.Eval(t.args[1]))
	case OpUlt:
		r = b2u(c.Eval(t.args[0]) < c.Eval(t.args[1]))
	case OpUle:
		r = b2u(c.Eval(t.args[0]) <= c.Eval(t.args[1]))
	case OpSlt:
		w := t.args[0].w
		r = b2u(sext(c.Eval(t.args[0]), w) < sext(c.Eval(t.args[1]), w))
	case OpSle:
		w := t.args[0].w
		r = b2u(sext(c.Eval(t.args[0]), w) <= sext(c.Eval(t.args[1]), w))
	case OpBNot:
		r = ^c.Eval(t.args[0]) & mask(t.w)
	case OpConcat:
		for _, p := range t.args {
			if p.w >= 64 {
				r = 0
			} else {
				r <<= p.w
			}
			r |= c.Eval(p)
		}
	case OpExtract:
		r = (c.Eval(t.args[0]) >> t.k) & mask(t.w)
	case OpSExt:
		r = uint64(sext(c.Eval(t.args[0]), t.args[0].w)) & mask(t.w)
	default:
		r = foldBin(t.op, t.w, c.Eval(t.args[0]), c.Eval(t.args[1]))
	}
	t.evEpoch, t.evVal = c.epoch, r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Vars returns the sorted var indices occurring in t.
func (c *Ctx) Vars(t *Term) []int32 {
	if t.varsOk {
		return t.vars
	}
	var res []int32
	switch t.op {
	case OpConst:
	case OpVar:
		res = []int32{int32(t.k)}
	default:
		if len(t.args) == 1 {
			res = c.Vars(t.args[0])
		} else {
			for _, a := range t.args {
				res = mergeVars(res, c.Vars(a))
			}
		}
	}
	t.vars, t.varsOk = res, true
	return res
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset shortcuts
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d", t.k)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if t.op == OpExtract {
		s += fmt.Sprintf("[%d:%d]", t.k+uint64(t.w)-1, t.k)
	}
	for _, a := range t.args {
		s += " " + a.str(d-1)
	}
	return s + ")"
}
