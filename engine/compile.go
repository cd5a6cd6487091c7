package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

type globalInfo struct {
	g   *ssa.Global
	idx int
	sz  int
	pkg *ssa.Package
}

type opnd struct {
	reg  int
	val  Value
	glob *globalInfo
}

type instrFn func(fr *frame)

type phiMove struct {
	dst int
	src opnd
}

type block struct {
	code  []instrFn
	phis  map[int][]phiMove // predecessor block index -> parallel moves
	term  func(fr *frame) int
	nphi  int
	index int
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	once     sync.Once
	nregs    int
	blocks   []*block
	recover  int
	hasDefer bool
	repo     bool
	harness  bool
	intr     func(m *Machine, fr *frame, args []Value) Value
	covered  uint32
	id       int
	ninstr   int
}

// Program is the shared, read-only (apart from lazy compilation) program.
type Program struct {
	prog      *ssa.Program
	fns       sync.Map // *ssa.Function -> *fnInfo
	nfn       int32
	globals   map[*ssa.Global]*globalInfo
	nglob     int
	gmu       sync.Mutex
	module    string
	mcache    sync.Map // methodKey -> *fnInfo
	sizes     types.Sizes
	fset      *token.FileSet
	inits     map[*ssa.Package]bool
	errString types.Type
	buildMu   sync.Mutex
}

func (p *Program) global(g *ssa.Global) *globalInfo {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if gi, ok := p.globals[g]; ok {
		return gi
	}
	gi := &globalInfo{g: g, idx: p.nglob, sz: slotSize(g.Type().(*types.Pointer).Elem()), pkg: g.Pkg}
	p.nglob++
	p.globals[g] = gi
	return gi
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, id: int(atomic.AddInt32(&p.nfn, 1))}
	fi.name = fn.String()
	if fn.Origin() != nil {
		fi.name = fn.Origin().String()
	}
	pkg := fn.Package()
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Package()
	}
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		fi.repo = isModPath(p.module, fn.Object().Pkg().Path())
	}
	if pkg != nil && pkg.Pkg != nil {
		fi.repo = isModPath(p.module, pkg.Pkg.Path())
	}
	if fi.repo {
		f := p.fset.Position(fn.Pos()).Filename
		fi.harness = isHarnessFile(f)
	}
	fi.intr = lookupIntrinsic(fi)
	v, _ := p.fns.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (fi *fnInfo) ensure(p *Program) {
	fi.once.Do(func() { compileFn(p, fi) })
}

type compiler struct {
	p    *Program
	fi   *fnInfo
	regs map[ssa.Value]int
}

func compileFn(p *Program, fi *fnInfo) {
	fn := fi.fn
	if len(fn.Blocks) == 0 {
		// body may not be built yet (lazily synthesised method wrappers are)
		if fn.Blocks == nil {
			return
		}
	}
	c := &compiler{p: p, fi: fi, regs: map[ssa.Value]int{}}
	n := 0
	for _, x := range fn.Params {
		c.regs[x] = n
		n++
	}
	for _, x := range fn.FreeVars {
		c.regs[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			if _, ok := ins.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
			fi.ninstr++
		}
	}
	fi.nregs = n
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		fi.blocks = append(fi.blocks, c.block(b))
	}
}

func (c *compiler) block(b *ssa.BasicBlock) *block {
	out := &block{index: b.Index}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if out.phis == nil {
			out.phis = map[int][]phiMove{}
		}
		out.nphi++
		for i, pred := range b.Preds {
			// A predecessor can occur twice; both edges carry the same value only
			// if equal. SSA builder keeps edges aligned, so use the first.
			mv := phiMove{dst: c.regs[phi], src: c.op(phi.Edges[i])}
			dup := false
			for _, e := range out.phis[pred.Index] {
				if e.dst == mv.dst {
					dup = true
				}
			}
			if !dup {
				out.phis[pred.Index] = append(out.phis[pred.Index], mv)
			}
		}
	}
	for _, ins := range b.Instrs[out.nphi:] {
		switch x := ins.(type) {
		case *ssa.If:
			cond := c.op(x.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			out.term = func(fr *frame) int {
				v := fr.get(&cond)
				if v.r == nil {
					if v.n != 0 {
						return t
					}
					return f
				}
				if fr.m.branch(v.r.(*Term)) {
					return t
				}
				return f
			}
		case *ssa.Jump:
			t := b.Succs[0].Index
			out.term = func(fr *frame) int { return t }
		case *ssa.Return:
			ops := make([]opnd, len(x.Results))
			for i, r := range x.Results {
				ops[i] = c.op(r)
			}
			out.term = func(fr *frame) int {
				switch len(ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ops[0])
				default:
					s := make([]Value, len(ops))
					for i := range ops {
						s[i] = fr.get(&ops[i])
					}
					fr.result = Value{r: &Agg{s}}
				}
				return -1
			}
		case *ssa.Panic:
			op := c.op(x.X)
			name := c.fi.name
			pos := x.Pos()
			out.term = func(fr *frame) int {
				v := fr.get(&op)
				panic(&tpanic{val: v, msg: "panic: " + fr.m.describe(v), where: name + " " + fr.m.p.posStr(pos)})
			}
		default:
			out.code = append(out.code, c.instr(ins))
		}
	}
	return out
}

func (p *Program) posStr(pos token.Pos) string {
	ps := p.fset.Position(pos)
	if !ps.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, val: constValue(x)}
	case *ssa.Global:
		return opnd{reg: -1, glob: c.p.global(x)}
	case *ssa.Function:
		return opnd{reg: -1, val: Value{r: &Closure{fn: c.p.info(x)}}}
	case *ssa.Builtin:
		return opnd{reg: -1}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("operand %T %s in %s", v, v, c.fi.name)))
	}
	return opnd{reg: r}
}

func constValue(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return zeroValue(t)
	}
	if isString(t) {
		return strV(constant.StringVal(x.Value))
	}
	if w, signed := intInfo(t); w == 0 {
		return boolV(constant.BoolVal(x.Value))
	} else if w > 0 {
		v := constant.ToInt(x.Value)
		if signed {
			i, _ := constant.Int64Val(v)
			return Value{n: uint64(i) & mask(uint8(w))}
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return Value{n: u & mask(uint8(w))}
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		return Value{n: math.Float64bits(f)}
	}
	return Value{}
}

func f64(v Value) float64 { return math.Float64frombits(v.n) }
func fV(f float64) Value  { return Value{n: math.Float64bits(f)} }

func (c *compiler) instr(ins ssa.Instruction) instrFn {
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.regs[v]
	}
	p := c.p
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return func(fr *frame) {}

	case *ssa.Alloc:
		sz := slotSize(x.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) { fr.regs[dst] = Value{r: fr.m.newObject(sz)} }

	case *ssa.UnOp:
		return c.unop(x, dst)

	case *ssa.BinOp:
		return c.binop(x, dst)

	case *ssa.Store:
		addr, val := c.op(x.Addr), c.op(x.Val)
		agg := isAgg(x.Val.Type())
		pos := x.Pos()
		return func(fr *frame) {
			a := fr.get(&addr)
			if a.r == nil {
				fr.m.rtpanicAt(fr, pos, "nil pointer dereference")
			}
			fr.m.store(a, fr.get(&val), agg)
		}

	case *ssa.FieldAddr:
		base := c.op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := uint64(fieldOff(st, x.Field))
		pos := x.Pos()
		return func(fr *frame) {
			b := fr.get(&base)
			if b.r == nil {
				fr.m.rtpanicAt(fr, pos, "nil pointer dereference")
			}
			fr.regs[dst] = Value{n: b.n + off, r: b.r}
		}

	case *ssa.Field:
		base := c.op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := fieldOff(st, x.Field)
		ft := st.Field(x.Field).Type()
		n, agg := slotSize(ft), isAgg(ft)
		return func(fr *frame) {
			s := fr.get(&base).r.(*Agg).s
			if agg {
				fr.regs[dst] = Value{r: &Agg{s[off : off+n : off+n]}}
			} else {
				fr.regs[dst] = s[off]
			}
		}

	case *ssa.IndexAddr:
		base, idx := c.op(x.X), c.op(x.Index)
		iw, isig := intInfo(x.Index.Type())
		pos := x.Pos()
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			return func(fr *frame) {
				b := fr.get(&base)
				n := 0
				var s *Slice
				if b.r != nil {
					s = b.r.(*Slice)
					n = s.len
				}
				i := fr.index(fr.get(&idx), iw, isig, n, pos)
				fr.regs[dst] = Value{n: uint64(s.off + i*s.esz), r: s.obj}
			}
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			n, esz := int(arr.Len()), slotSize(arr.Elem())
			return func(fr *frame) {
				b := fr.get(&base)
				if b.r == nil {
					fr.m.rtpanicAt(fr, pos, "nil pointer dereference")
				}
				i := fr.index(fr.get(&idx), iw, isig, n, pos)
				fr.regs[dst] = Value{n: b.n + uint64(i*esz), r: b.r}
			}
		}
		panic(unsupported("IndexAddr"))

	case *ssa.Index:
		base, idx := c.op(x.X), c.op(x.Index)
		iw, isig := intInfo(x.Index.Type())
		pos := x.Pos()
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			n, esz, agg := int(u.Len()), slotSize(u.Elem()), isAgg(u.Elem())
			return func(fr *frame) {
				s := fr.get(&base).r.(*Agg).s
				i := fr.index(fr.get(&idx), iw, isig, n, pos)
				if agg {
					fr.regs[dst] = Value{r: &Agg{s[i*esz : (i+1)*esz]}}
				} else {
					fr.regs[dst] = s[i]
				}
			}
		default: // string
			return func(fr *frame) {
				s := fr.get(&base)
				i := fr.index(fr.get(&idx), iw, isig, strLen(s), pos)
				fr.regs[dst] = strAt(s, i)
			}
		}

	case *ssa.Lookup:
		base, idx := c.op(x.X), c.op(x.Index)
		if isString(x.X.Type()) {
			iw, isig := intInfo(x.Index.Type())
			pos := x.Pos()
			return func(fr *frame) {
				s := fr.get(&base)
				i := fr.index(fr.get(&idx), iw, isig, strLen(s), pos)
				fr.regs[dst] = strAt(s, i)
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		zero := zeroValue(mt.Elem())
		commaOk := x.CommaOk
		return func(fr *frame) {
			b := fr.get(&base)
			k := fr.get(&idx)
			v, ok := zero, false
			if b.r != nil {
				mp := b.r.(*Map)
				if i := fr.m.mapFind(mp, k); i >= 0 {
					v, ok = mp.entries[i].val, true
				}
			}
			if commaOk {
				fr.regs[dst] = Value{r: &Agg{[]Value{v, boolV(ok)}}}
			} else {
				fr.regs[dst] = v
			}
		}

	case *ssa.MapUpdate:
		mp, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		pos := x.Pos()
		return func(fr *frame) {
			b := fr.get(&mp)
			if b.r == nil {
				fr.m.rtpanicAt(fr, pos, "assignment to entry in nil map")
			}
			fr.m.mapSet(b.r.(*Map), fr.get(&k), fr.get(&v))
		}

	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(fr *frame) { fr.regs[dst] = Value{r: fr.m.newMap(mt.Key(), mt.Elem())} }

	case *ssa.MakeSlice:
		ln, cp := c.op(x.Len), c.op(x.Cap)
		lw, lsig := intInfo(x.Len.Type())
		cw, csig := intInfo(x.Cap.Type())
		et := x.Type().Underlying().(*types.Slice).Elem()
		esz := slotSize(et)
		bsz := p.sizes.Sizeof(et)
		pos := x.Pos()
		return func(fr *frame) {
			l := fr.m.allocLen(fr, fr.get(&ln), lw, lsig, bsz, pos)
			k := l
			if x.Len != x.Cap {
				k = fr.m.allocLen(fr, fr.get(&cp), cw, csig, bsz, pos)
			}
			if l > k {
				fr.m.rtpanicAt(fr, pos, "makeslice: cap out of range")
			}
			o := fr.m.newObject(k * esz)
			fr.regs[dst] = Value{r: &Slice{obj: o, len: l, cap: k, esz: esz}}
		}

	case *ssa.Slice:
		return c.slice(x, dst)

	case *ssa.SliceToArrayPointer:
		base := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		pos := x.Pos()
		return func(fr *frame) {
			s := sliceOf(fr.get(&base))
			if s == nil {
				if n > 0 {
					fr.m.rtpanicAt(fr, pos, "slice to array pointer: length")
				}
				fr.regs[dst] = Value{}
				return
			}
			if s.len < n {
				fr.m.rtpanicAt(fr, pos, "slice to array pointer: length")
			}
			fr.regs[dst] = Value{n: uint64(s.off), r: s.obj}
		}

	case *ssa.MakeClosure:
		fi := p.info(x.Fn.(*ssa.Function))
		binds := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			binds[i] = c.op(b)
		}
		return func(fr *frame) {
			vs := make([]Value, len(binds))
			for i := range binds {
				vs[i] = fr.get(&binds[i])
			}
			fr.regs[dst] = Value{r: &Closure{fn: fi, binds: vs}}
		}

	case *ssa.MakeInterface:
		op := c.op(x.X)
		t := canon(x.X.Type())
		return func(fr *frame) { fr.regs[dst] = Value{r: &Iface{typ: t, v: fr.get(&op)}} }

	case *ssa.ChangeInterface:
		op := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&op) }

	case *ssa.ChangeType:
		op := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&op) }

	case *ssa.Convert:
		return c.convert(x.X, x.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), dst)

	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)

	case *ssa.Extract:
		op := c.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&op).r.(*Agg).s[i] }

	case *ssa.Call:
		f := c.call(&x.Call)
		return func(fr *frame) { fr.regs[dst] = f(fr) }

	case *ssa.Defer:
		f := c.prepCall(&x.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }

	case *ssa.Go:
		f := c.prepCall(&x.Call)
		return func(fr *frame) { fr.m.spawn(f(fr)) }

	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }

	case *ssa.Range:
		op := c.op(x.X)
		str := isString(x.X.Type())
		return func(fr *frame) {
			v := fr.get(&op)
			if str {
				fr.regs[dst] = Value{r: &strIter{b: strBytes(v)}}
				return
			}
			it := &mapIter{}
			if v.r != nil {
				it.mp = v.r.(*Map)
				it.order = fr.m.mapOrder(it.mp)
			}
			fr.regs[dst] = Value{r: it}
		}

	case *ssa.Next:
		op := c.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		if x.IsString {
			return func(fr *frame) { fr.regs[dst] = fr.get(&op).r.(*strIter).next() }
		}
		zk, zv := zeroOrInvalid(tt.At(1).Type()), zeroOrInvalid(tt.At(2).Type())
		return func(fr *frame) { fr.regs[dst] = fr.get(&op).r.(*mapIter).next(fr.m, zk, zv) }

	case *ssa.MakeChan:
		op := c.op(x.Size)
		return func(fr *frame) {
			n := fr.get(&op)
			fr.regs[dst] = Value{r: fr.m.newChan(int(n.n))}
		}
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.m.chanSend(chanOf(fr.get(&ch)), fr.get(&v)) }
	case *ssa.Select:
		return c.sel(x, dst)
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, c.fi.name)))
}

func zeroOrInvalid(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zeroValue(t)
}

func strAt(s Value, i int) Value {
	switch r := s.r.(type) {
	case string:
		return Value{n: uint64(r[i])}
	case *SymStr:
		return r.b[i]
	}
	panic("strAt")
}

func (c *compiler) slice(x *ssa.Slice, dst int) instrFn {
	base := c.op(x.X)
	var lo, hi, mx *opnd
	mkop := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = mkop(x.Low), mkop(x.High), mkop(x.Max)
	pos := x.Pos()
	type ti struct {
		w   int
		sig bool
	}
	tinfo := func(v ssa.Value) ti {
		if v == nil {
			return ti{}
		}
		w, s := intInfo(v.Type())
		return ti{w, s}
	}
	tl, th, tm := tinfo(x.Low), tinfo(x.High), tinfo(x.Max)
	// bound evaluates an index in [0, limit].
	bound := func(fr *frame, o *opnd, t ti, limit int) int {
		v := fr.get(o)
		return fr.index(v, t.w, t.sig, limit+1, pos)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		return func(fr *frame) {
			s := fr.get(&base)
			n := strLen(s)
			h := n
			if hi != nil {
				h = bound(fr, hi, th, n)
			}
			l := 0
			if lo != nil {
				l = bound(fr, lo, tl, h)
			}
			switch r := s.r.(type) {
			case nil:
				fr.regs[dst] = Value{}
			case string:
				fr.regs[dst] = strV(r[l:h])
			case *SymStr:
				fr.regs[dst] = mkStr(r.b[l:h])
			}
		}
	case *types.Slice, *types.Pointer:
		alen, aesz := -1, 0
		if pt, ok := u.(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			alen, aesz = int(at.Len()), slotSize(at.Elem())
		}
		return func(fr *frame) {
			b := fr.get(&base)
			var s Slice
			isNil := false
			if alen >= 0 {
				if b.r == nil {
					fr.m.rtpanicAt(fr, pos, "nil pointer dereference")
				}
				s = Slice{obj: b.r.(*Object), off: int(b.n), len: alen, cap: alen, esz: aesz}
			} else if b.r != nil {
				s = *b.r.(*Slice)
			} else {
				isNil = true
			}
			m := s.cap
			if mx != nil {
				m = bound(fr, mx, tm, s.cap)
			}
			h := s.len
			if hi != nil {
				h = bound(fr, hi, th, m)
			} else if h > m {
				fr.m.rtpanicAt(fr, pos, "slice bounds out of range")
			}
			l := 0
			if lo != nil {
				l = bound(fr, lo, tl, h)
			}
			if isNil {
				fr.regs[dst] = Value{}
				return
			}
			fr.regs[dst] = Value{r: &Slice{obj: s.obj, off: s.off + l*s.esz, len: h - l, cap: m - l, esz: s.esz}}
		}
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) instrFn {
	op := c.op(x.X)
	commaOk := x.CommaOk
	pos := x.Pos()
	zero := zeroValue(x.AssertedType)
	p := c.p
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		var cache sync.Map
		return func(fr *frame) {
			v := fr.get(&op)
			ok := false
			if v.r != nil {
				t := v.r.(*Iface).typ
				if r, hit := cache.Load(t); hit {
					ok = r.(bool)
				} else {
					ok = types.Implements(t, it)
					cache.Store(t, ok)
				}
			}
			if commaOk {
				if !ok {
					v = Value{}
				}
				fr.regs[dst] = Value{r: &Agg{[]Value{v, boolV(ok)}}}
				return
			}
			if !ok {
				fr.m.rtpanicAt(fr, pos, "interface conversion")
			}
			fr.regs[dst] = v
		}
	}
	_ = p
	at := canon(x.AssertedType)
	return func(fr *frame) {
		v := fr.get(&op)
		ok := v.r != nil && v.r.(*Iface).typ == at
		res := zero
		if ok {
			res = v.r.(*Iface).v
		}
		if commaOk {
			fr.regs[dst] = Value{r: &Agg{[]Value{res, boolV(ok)}}}
			return
		}
		if !ok {
			fr.m.rtpanicAt(fr, pos, "interface conversion")
		}
		fr.regs[dst] = res
	}
}

// ---- arithmetic ---------------------------------------------------------

func (c *compiler) unop(x *ssa.UnOp, dst int) instrFn {
	op := c.op(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		sz, agg := slotSize(t), isAgg(t)
		pos := x.Pos()
		return func(fr *frame) {
			a := fr.get(&op)
			if a.r == nil {
				fr.m.rtpanicAt(fr, pos, "nil pointer dereference")
			}
			if !agg {
				o, ok := a.r.(*Object)
				if !ok {
					panic(unsupported(fmt.Sprintf("load through %T", a.r)))
				}
				fr.regs[dst] = o.slots[a.n]
				return
			}
			fr.regs[dst] = fr.m.load(a, t, sz, true)
		}
	case token.NOT:
		return func(fr *frame) { fr.regs[dst] = fr.m.notV(fr.get(&op)) }
	case token.SUB:
		if isFloat(x.Type()) {
			return func(fr *frame) { fr.regs[dst] = fV(-f64(fr.get(&op))) }
		}
		w, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := fr.get(&op)
			if v.r == nil {
				fr.regs[dst] = Value{n: -v.n & mask(uint8(w))}
				return
			}
			fr.regs[dst] = fromTerm(fr.m.c.arith(OpSub, fr.m.c.Const(uint8(w), 0), v.r.(*Term)))
		}
	case token.XOR:
		w, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := fr.get(&op)
			if v.r == nil {
				fr.regs[dst] = Value{n: ^v.n & mask(uint8(w))}
				return
			}
			fr.regs[dst] = fromTerm(fr.m.c.BNot(v.r.(*Term)))
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		zero := zeroValue(et)
		return func(fr *frame) {
			v, ok := fr.m.chanRecv(chanOf(fr.get(&op)), zero)
			if commaOk {
				fr.regs[dst] = Value{r: &Agg{[]Value{v, boolV(ok)}}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (c *compiler) binop(x *ssa.BinOp, dst int) instrFn {
	a, b := c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	pos := x.Pos()
	switch x.Op {
	case token.EQL, token.NEQ:
		neq := x.Op == token.NEQ
		// comparisons of an interface with a concrete value do not occur in SSA
		if w, _ := intInfo(t); w >= 0 {
			return func(fr *frame) {
				x, y := fr.get(&a), fr.get(&b)
				var r Value
				if x.r == nil && y.r == nil {
					r = boolV((x.n == y.n) != neq)
				} else {
					tm := fr.m.c.Eq(fr.m.term(x, uint8(w)), fr.m.term(y, uint8(w)))
					if neq {
						tm = fr.m.c.Not(tm)
					}
					r = fromTerm(tm)
				}
				fr.regs[dst] = r
			}
		}
		if _, ok := x.Y.Type().Underlying().(*types.Basic); ok && !isString(t) && !isFloat(t) {
			if bt := x.Y.Type().Underlying().(*types.Basic); bt.Kind() == types.UntypedNil {
				t = x.X.Type()
			}
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			t = x.Y.Type()
		}
		return func(fr *frame) {
			r := fr.m.equal(t, fr.get(&a), fr.get(&b))
			if neq {
				r = fr.m.notV(r)
			}
			fr.regs[dst] = r
		}
	}
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return func(fr *frame) {
				x, y := fr.get(&a), fr.get(&b)
				s1, ok1 := strOf(x)
				s2, ok2 := strOf(y)
				if ok1 && ok2 {
					fr.regs[dst] = strV(s1 + s2)
					return
				}
				bs := append(append([]Value(nil), strBytes(x)...), strBytes(y)...)
				fr.regs[dst] = mkStr(bs)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			o := x.Op
			return func(fr *frame) {
				x, y := fr.get(&a), fr.get(&b)
				if o == token.GTR || o == token.GEQ {
					x, y = y, x
				}
				lt, eq := fr.m.cmpByteVals(strBytes(x), strBytes(y))
				if o == token.LEQ || o == token.GEQ {
					lt = fr.m.orV(lt, eq)
				}
				fr.regs[dst] = lt
			}
		}
	}
	if isFloat(t) {
		o := x.Op
		return func(fr *frame) {
			x, y := f64(fr.get(&a)), f64(fr.get(&b))
			switch o {
			case token.ADD:
				fr.regs[dst] = fV(x + y)
			case token.SUB:
				fr.regs[dst] = fV(x - y)
			case token.MUL:
				fr.regs[dst] = fV(x * y)
			case token.QUO:
				fr.regs[dst] = fV(x / y)
			case token.LSS:
				fr.regs[dst] = boolV(x < y)
			case token.LEQ:
				fr.regs[dst] = boolV(x <= y)
			case token.GTR:
				fr.regs[dst] = boolV(x > y)
			case token.GEQ:
				fr.regs[dst] = boolV(x >= y)
			default:
				panic(unsupported("float op"))
			}
		}
	}
	wi, signed := intInfo(t)
	if wi < 0 {
		panic(unsupported("binop on " + t.String()))
	}
	w := uint8(wi)
	mk := func(conc func(x, y uint64) uint64, sym func(c *Ctx, x, y *Term) *Term) instrFn {
		return func(fr *frame) {
			x, y := fr.get(&a), fr.get(&b)
			if x.r == nil && y.r == nil {
				fr.regs[dst] = Value{n: conc(x.n, y.n)}
				return
			}
			fr.regs[dst] = fromTerm(sym(fr.m.c, fr.m.term(x, w), fr.m.term(y, w)))
		}
	}
	mkArith := func(op Op) instrFn {
		return mk(func(x, y uint64) uint64 { return foldBin(op, w, x, y) },
			func(c *Ctx, x, y *Term) *Term { return c.arith(op, x, y) })
	}
	mkBit := func(op Op) instrFn {
		return mk(func(x, y uint64) uint64 { return foldBin(op, w, x, y) },
			func(c *Ctx, x, y *Term) *Term { return c.bitop(op, x, y) })
	}
	cmp := func(lt func(c *Ctx, x, y *Term) *Term, conc func(x, y uint64) bool) instrFn {
		return mk(func(x, y uint64) uint64 { return b2u(conc(x, y)) }, lt)
	}
	switch x.Op {
	case token.ADD:
		return mkArith(OpAdd)
	case token.SUB:
		return mkArith(OpSub)
	case token.MUL:
		return mkArith(OpMul)
	case token.AND:
		if w == 0 {
			return func(fr *frame) { fr.regs[dst] = fr.m.andV(fr.get(&a), fr.get(&b)) }
		}
		return mkBit(OpBAnd)
	case token.OR:
		return mkBit(OpBOr)
	case token.XOR:
		return mkBit(OpBXor)
	case token.AND_NOT:
		return mk(func(x, y uint64) uint64 { return x &^ y },
			func(c *Ctx, x, y *Term) *Term { return c.bitop(OpBAnd, x, c.BNot(y)) })
	case token.QUO, token.REM:
		op := OpUDiv
		switch {
		case x.Op == token.QUO && signed:
			op = OpSDiv
		case x.Op == token.REM && signed:
			op = OpSRem
		case x.Op == token.REM:
			op = OpURem
		}
		inner := mkArith(op)
		return func(fr *frame) {
			y := fr.get(&b)
			if y.r == nil {
				if y.n == 0 {
					fr.m.rtpanicAt(fr, pos, "integer divide by zero")
				}
			} else if fr.m.branch(fr.m.c.Eq(y.r.(*Term), fr.m.c.Const(w, 0))) {
				fr.m.rtpanicAt(fr, pos, "integer divide by zero")
			}
			inner(fr)
		}
	case token.SHL, token.SHR:
		bw, bsig := intInfo(x.Y.Type())
		left := x.Op == token.SHL
		return func(fr *frame) {
			v, s := fr.get(&a), fr.get(&b)
			fr.regs[dst] = fr.m.shift(fr, v, s, w, uint8(bw), signed, bsig, left, pos)
		}
	case token.LSS, token.GTR:
		if x.Op == token.GTR {
			a, b = b, a
		}
		if signed {
			return cmp(func(c *Ctx, x, y *Term) *Term { return c.Slt(x, y) },
				func(x, y uint64) bool { return sext(x, w) < sext(y, w) })
		}
		return cmp(func(c *Ctx, x, y *Term) *Term { return c.Ult(x, y) },
			func(x, y uint64) bool { return x < y })
	case token.LEQ, token.GEQ:
		if x.Op == token.GEQ {
			a, b = b, a
		}
		if signed {
			return cmp(func(c *Ctx, x, y *Term) *Term { return c.Sle(x, y) },
				func(x, y uint64) bool { return sext(x, w) <= sext(y, w) })
		}
		return cmp(func(c *Ctx, x, y *Term) *Term { return c.Ule(x, y) },
			func(x, y uint64) bool { return x <= y })
	}
	panic(unsupported("binop " + x.Op.String()))
}

func (m *Machine) shift(fr *frame, v, s Value, w, sw uint8, signed, ssig, left bool, pos token.Pos) Value {
	if s.r == nil {
		cnt := s.n
		if ssig && sext(cnt, sw) < 0 {
			m.rtpanicAt(fr, pos, "negative shift amount")
		}
		if v.r == nil {
			switch {
			case left:
				return Value{n: foldBin(OpShl, w, v.n, cnt)}
			case signed:
				return Value{n: foldBin(OpAshr, w, v.n, cnt)}
			default:
				return Value{n: foldBin(OpLshr, w, v.n, cnt)}
			}
		}
		if cnt > 255 {
			cnt = 255
		}
		t := v.r.(*Term)
		// widths below 8 bits do not occur; a constant >= w is handled exactly
		ct := &Term{op: OpConst, w: w, k: cnt}
		switch {
		case left:
			return fromTerm(m.c.Shl(t, ct))
		case signed:
			return fromTerm(m.c.Ashr(t, ct))
		default:
			return fromTerm(m.c.Lshr(t, ct))
		}
	}
	st := s.r.(*Term)
	if ssig {
		if m.branch(m.c.Slt(st, m.c.Const(sw, 0))) {
			m.rtpanicAt(fr, pos, "negative shift amount")
		}
	}
	c := m.c
	vt := m.term(v, w)
	var big *Term = c.False
	var cnt *Term
	if sw > w {
		big = c.Ule(c.Const(sw, uint64(w)), st)
		cnt = c.Extract(w-1, 0, st)
	} else {
		cnt = c.ZExt(st, w)
	}
	switch {
	case left:
		return fromTerm(c.Ite(big, c.Const(w, 0), c.Shl(vt, cnt)))
	case signed:
		return fromTerm(c.Ite(big, c.Ashr(vt, c.Const(w, uint64(w-1))), c.Ashr(vt, cnt)))
	default:
		return fromTerm(c.Ite(big, c.Const(w, 0), c.Lshr(vt, cnt)))
	}
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) instrFn {
	op := c.op(xv)
	from := xv.Type()
	fw, fsig := intInfo(from)
	tw, tsig := intInfo(to)
	switch {
	case fw > 0 && tw > 0:
		w, f := uint8(tw), uint8(fw)
		return func(fr *frame) {
			v := fr.get(&op)
			if v.r == nil {
				if fsig {
					fr.regs[dst] = Value{n: uint64(sext(v.n, f)) & mask(w)}
				} else {
					fr.regs[dst] = Value{n: v.n & mask(w)}
				}
				return
			}
			t := v.r.(*Term)
			if fsig {
				t = fr.m.c.SExt(t, w)
			} else {
				t = fr.m.c.ZExt(t, w)
			}
			fr.regs[dst] = fromTerm(t)
		}
	case isFloat(from) && isFloat(to):
		return func(fr *frame) { fr.regs[dst] = fr.get(&op) }
	case fw > 0 && isFloat(to):
		return func(fr *frame) {
			v := fr.get(&op)
			if v.r != nil {
				panic(unsupported("symbolic int to float"))
			}
			if fsig {
				fr.regs[dst] = fV(float64(sext(v.n, uint8(fw))))
			} else {
				fr.regs[dst] = fV(float64(v.n))
			}
		}
	case isFloat(from) && tw > 0:
		return func(fr *frame) {
			f := f64(fr.get(&op))
			if tsig {
				fr.regs[dst] = Value{n: uint64(int64(f)) & mask(uint8(tw))}
			} else {
				fr.regs[dst] = Value{n: uint64(f) & mask(uint8(tw))}
			}
		}
	}
	if isString(to) {
		if fw > 0 {
			return func(fr *frame) {
				v := fr.get(&op)
				if v.r != nil {
					panic(unsupported("symbolic rune to string"))
				}
				fr.regs[dst] = strV(string(rune(sext(v.n, uint8(fw)))))
			}
		}
		if st, ok := from.Underlying().(*types.Slice); ok {
			if ew, _ := intInfo(st.Elem()); ew == 8 {
				return func(fr *frame) { fr.regs[dst] = mkStr(sliceOf(fr.get(&op)).bytes()) }
			}
			return func(fr *frame) {
				var rs []rune
				for _, v := range sliceOf(fr.get(&op)).bytes() {
					if v.r != nil {
						panic(unsupported("symbolic runes to string"))
					}
					rs = append(rs, rune(sext(v.n, 32)))
				}
				fr.regs[dst] = strV(string(rs))
			}
		}
		if isString(from) {
			return func(fr *frame) { fr.regs[dst] = fr.get(&op) }
		}
	}
	if isString(from) {
		if st, ok := to.Underlying().(*types.Slice); ok {
			if ew, _ := intInfo(st.Elem()); ew == 8 {
				return func(fr *frame) { fr.regs[dst] = fr.m.mkBytes(strBytes(fr.get(&op))) }
			}
			return func(fr *frame) {
				s, ok := strOf(fr.get(&op))
				if !ok {
					panic(unsupported("symbolic string to runes"))
				}
				rs := []rune(s)
				o := fr.m.newObject(len(rs))
				for i, r := range rs {
					o.slots[i].n = uint64(uint32(r))
				}
				fr.regs[dst] = Value{r: &Slice{obj: o, len: len(rs), cap: len(rs), esz: 1}}
			}
		}
	}
	// unsafe.Pointer and friends, slice-to-array
	if st, ok := from.Underlying().(*types.Slice); ok {
		if at, ok := to.Underlying().(*types.Array); ok {
			_ = st
			n := int(at.Len()) * slotSize(at.Elem())
			ln := int(at.Len())
			return func(fr *frame) {
				s := sliceOf(fr.get(&op))
				if ln > 0 && (s == nil || s.len < ln) {
					fr.m.rtpanic("slice to array: length")
				}
				out := make([]Value, n)
				if n > 0 {
					copy(out, s.obj.slots[s.off:s.off+n])
				}
				fr.regs[dst] = Value{r: &Agg{out}}
			}
		}
	}
	return func(fr *frame) { fr.regs[dst] = fr.get(&op) }
}
