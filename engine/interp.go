package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"runtime"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// tpanic is a panic of the program under test.
type tpanic struct {
	val   Value
	msg   string
	where string
	rt    bool
}

// pathEnd aborts the current path.
type pathEnd struct{ why string }

type deferred struct {
	fn   *Closure
	args []Value
	// builtin or invoke resolved at defer time
	run func(m *Machine, fr *frame)
}

type frame struct {
	m         *Machine
	fi        *fnInfo
	regs      []Value
	result    Value
	defers    []*deferred
	panicking *tpanic
	recovered bool
	caller    *frame
	// deferOf is the frame on whose behalf this call runs as a deferred call.
	deferOf *frame
}

func (fr *frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob != nil {
		return Value{r: fr.m.globalObj(o.glob)}
	}
	return o.val
}

func (m *Machine) globalObj(g *globalInfo) *Object {
	if g.idx < len(m.globals) {
		if o := m.globals[g.idx]; o != nil {
			return o
		}
	}
	m.initPkg(g.pkg)
	for g.idx >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if m.globals[g.idx] == nil {
		was := m.baseMode
		m.baseMode = true
		m.globals[g.idx] = m.newObject(g.sz)
		m.globals[g.idx].name = g.g.String()
		m.baseMode = was
	}
	return m.globals[g.idx]
}

// initPkg runs a package's variable initialisers and init functions, once per
// machine, lazily and outside any path.
func (m *Machine) initPkg(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	initFn := pkg.Func("init")
	if initFn == nil {
		return
	}
	was, wasSteps := m.baseMode, m.steps
	m.baseMode = true
	defer func() { m.baseMode = was; m.steps = wasSteps }()
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case *unsupportedErr:
					m.note("init of " + pkg.Pkg.Path() + " incomplete: " + e.msg)
					if strings.HasPrefix(pkg.Pkg.Path(), module) {
						m.incomplete("init of " + pkg.Pkg.Path() + " incomplete: " + e.msg)
					}
				case *tpanic:
					m.note("init of " + pkg.Pkg.Path() + " panicked: " + e.msg + " " + e.where)
				case runtime.Error:
					m.note("init of " + pkg.Pkg.Path() + " incomplete: " + e.Error())
				default:
					panic(r)
				}
			}
		}()
		m.callFn(nil, m.p.info(initFn), nil, nil)
	}()
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/godebug": true, "time": true, "net": true}

func (m *Machine) rtpanic(msg string) {
	w := ""
	if m.cur != nil {
		w = m.cur.fi.name
	}
	panic(&tpanic{val: Value{r: &Iface{typ: m.rtErrType(), v: strV("runtime error: " + msg)}}, msg: "runtime error: " + msg, where: w, rt: true})
}

func (m *Machine) rtpanicAt(fr *frame, pos token.Pos, msg string) {
	panic(&tpanic{val: Value{r: &Iface{typ: m.rtErrType(), v: strV("runtime error: " + msg)}}, msg: "runtime error: " + msg, where: fr.fi.name + " " + m.p.posStr(pos), rt: true})
}

func (m *Machine) rtErrType() types.Type { return canon(types.Typ[types.String]) }

func (m *Machine) describe(v Value) string {
	if v.r == nil {
		return "nil"
	}
	i, ok := v.r.(*Iface)
	if !ok {
		return "?"
	}
	if s, ok := strOf(i.v); ok && isString(i.typ) {
		return s
	}
	return i.typ.String()
}

func (m *Machine) callClosure(caller *frame, c *Closure, args []Value) Value {
	if c.intr != nil {
		return c.intr(m, args)
	}
	return m.callFn(caller, c.fn, args, c.binds)
}

func (m *Machine) callFn(caller *frame, fi *fnInfo, args []Value, binds []Value) Value {
	return m.callFn2(caller, fi, args, binds, nil)
}

func (m *Machine) callFn2(caller *frame, fi *fnInfo, args []Value, binds []Value, deferOf *frame) Value {
	if fi.intr != nil {
		fr := &frame{m: m, fi: fi, caller: caller, deferOf: deferOf}
		return fi.intr(m, fr, args)
	}
	if caller != nil && fi.fn != nil && fi.fn.Synthetic == "package initializer" {
		return Value{} // every package is initialised when its globals are first used
	}
	fi.ensure(m.p)
	if len(fi.blocks) == 0 {
		panic(unsupported("no body: " + fi.name))
	}
	if fi.covered == 0 {
		atomic.StoreUint32(&fi.covered, 1)
	}
	m.depth++
	if m.depth > m.maxDepth {
		m.onLimit("stack depth limit in " + fi.name)
	}
	fr := &frame{m: m, fi: fi, caller: caller, regs: make([]Value, fi.nregs), deferOf: deferOf}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], binds)
	prev := m.cur
	m.cur = fr
	if fi.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	m.cur = prev
	m.depth--
	return fr.result
}

func (fr *frame) run(b int) {
	m := fr.m
	blk := fr.fi.blocks[b]
	prev := -1
	for {
		if blk.nphi > 0 {
			mv := blk.phis[prev]
			if len(mv) == 1 {
				fr.regs[mv[0].dst] = fr.get(&mv[0].src)
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range mv {
					vals = append(vals, fr.get(&mv[i].src))
				}
				for i := range mv {
					fr.regs[mv[i].dst] = vals[i]
				}
			}
		}
		m.steps += int64(len(blk.code)) + 1
		if m.steps > m.maxSteps {
			m.onLimit("step limit in " + fr.fi.name)
		}
		for _, ins := range blk.code {
			ins(fr)
		}
		n := blk.term(fr)
		if n < 0 {
			return
		}
		prev = blk.index
		blk = fr.fi.blocks[n]
	}
}

func (fr *frame) runWithDefers() {
	m := fr.m
	depth := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*tpanic)
				if !ok {
					panic(r)
				}
				fr.panicking = tp
				m.depth = depth
				m.cur = fr
			}
		}()
		fr.run(0)
	}()
	for fr.panicking != nil {
		// Run the remaining deferred calls; one may recover.
		tp := fr.panicking
		again := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					ntp, ok := r.(*tpanic)
					if !ok {
						panic(r)
					}
					fr.panicking = ntp
					m.depth = depth
					m.cur = fr
					again = true
				}
			}()
			fr.runDefers()
		}()
		if again {
			continue
		}
		if fr.panicking != nil {
			panic(tp)
		}
		// recovered
		if fr.fi.recover >= 0 {
			func() {
				defer func() {
					if r := recover(); r != nil {
						ntp, ok := r.(*tpanic)
						if !ok {
							panic(r)
						}
						fr.panicking = ntp
						again = true
					}
				}()
				fr.run(fr.fi.recover)
			}()
			if again {
				continue
			}
		} else {
			fr.result = zeroResult(fr.fi.fn.Signature)
		}
	}
}

func zeroResult(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return zeroValue(r.At(0).Type())
	}
	return zeroValue(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d.run(fr.m, fr)
	}
}

// ---- calls ---------------------------------------------------------------

func (c *compiler) call(cc *ssa.CallCommon) func(fr *frame) Value {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	eval := func(fr *frame) []Value {
		vs := make([]Value, len(args), len(args)+1)
		for i := range args {
			vs[i] = fr.get(&args[i])
		}
		return vs
	}
	pos := cc.Pos()
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) Value {
			r := fr.get(&recv)
			if r.r == nil {
				fr.m.rtpanicAt(fr, pos, "nil pointer dereference (method call on nil interface)")
			}
			i := r.r.(*Iface)
			fi := fr.m.p.method(i.typ, meth)
			vs := make([]Value, len(args)+1)
			vs[0] = i.v
			for j := range args {
				vs[j+1] = fr.get(&args[j])
			}
			return fr.m.callFn(fr, fi, vs, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		f := c.builtin(v, cc)
		return func(fr *frame) Value { return f(fr, eval(fr)) }
	case *ssa.Function:
		fi := c.p.info(v)
		return func(fr *frame) Value { return fr.m.callFn(fr, fi, eval(fr), nil) }
	}
	fo := c.op(cc.Value)
	return func(fr *frame) Value {
		f := fr.get(&fo)
		if f.r == nil {
			fr.m.rtpanicAt(fr, pos, "nil function call")
		}
		return fr.m.callClosure(fr, f.r.(*Closure), eval(fr))
	}
}

// prepCall evaluates the callee and arguments now and returns the delayed call.
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *frame) *deferred {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	pos := cc.Pos()
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) *deferred {
			r := fr.get(&recv)
			if r.r == nil {
				fr.m.rtpanicAt(fr, pos, "nil pointer dereference (method call on nil interface)")
			}
			i := r.r.(*Iface)
			fi := fr.m.p.method(i.typ, meth)
			vs := make([]Value, len(args)+1)
			vs[0] = i.v
			for j := range args {
				vs[j+1] = fr.get(&args[j])
			}
			return &deferred{run: func(m *Machine, fr *frame) { m.callFn2(fr, fi, vs, nil, fr) }}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc)
		return func(fr *frame) *deferred {
			vs := make([]Value, len(args))
			for i := range args {
				vs[i] = fr.get(&args[i])
			}
			return &deferred{run: func(m *Machine, fr *frame) { f(fr, vs) }}
		}
	}
	fo := c.op(cc.Value)
	return func(fr *frame) *deferred {
		f := fr.get(&fo)
		vs := make([]Value, len(args))
		for i := range args {
			vs[i] = fr.get(&args[i])
		}
		if f.r == nil {
			fr.m.rtpanicAt(fr, pos, "nil function call")
		}
		cl := f.r.(*Closure)
		return &deferred{run: func(m *Machine, fr *frame) {
			if cl.intr != nil {
				cl.intr(m, vs)
				return
			}
			m.callFn2(fr, cl.fn, vs, cl.binds, fr)
		}}
	}
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, meth *types.Func) *fnInfo {
	k := methodKey{t, meth}
	if v, ok := p.mcache.Load(k); ok {
		return v.(*fnInfo)
	}
	p.buildMu.Lock()
	fn := p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	p.buildMu.Unlock()
	if fn == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %s", meth.Name(), t)))
	}
	fi := p.info(fn)
	p.mcache.Store(k, fi)
	return fi
}

// ---- builtins --------------------------------------------------------------

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame, a []Value) Value {
	pos := cc.Pos()
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return func(fr *frame, a []Value) Value { return intV(sliceLen(a[0])) }
		case *types.Map:
			return func(fr *frame, a []Value) Value {
				if a[0].r == nil {
					return intV(0)
				}
				return intV(a[0].r.(*Map).live)
			}
		case *types.Chan:
			return func(fr *frame, a []Value) Value {
				ch := chanOf(a[0])
				if ch == nil {
					return intV(0)
				}
				return intV(len(ch.buf))
			}
		case *types.Array:
			n := int(u.Len())
			return func(fr *frame, a []Value) Value { return intV(n) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *frame, a []Value) Value { return intV(n) }
		}
		return func(fr *frame, a []Value) Value { return intV(strLen(a[0])) }
	case "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Array:
			n := int(u.Len())
			return func(fr *frame, a []Value) Value { return intV(n) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *frame, a []Value) Value { return intV(n) }
		case *types.Chan:
			return func(fr *frame, a []Value) Value {
				ch := chanOf(a[0])
				if ch == nil {
					return intV(0)
				}
				return intV(ch.cap)
			}
		}
		return func(fr *frame, a []Value) Value {
			if a[0].r == nil {
				return intV(0)
			}
			return intV(a[0].r.(*Slice).cap)
		}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		esz := slotSize(st.Elem())
		bsz := c.p.sizes.Sizeof(st.Elem())
		if len(cc.Args) == 1 {
			return func(fr *frame, a []Value) Value { return a[0] }
		}
		fromStr := isString(cc.Args[1].Type())
		return func(fr *frame, a []Value) Value {
			var src []Value
			n := 0
			if fromStr {
				src = strBytes(a[1])
				n = len(src)
			} else if s := sliceOf(a[1]); s != nil {
				src = s.bytes()
				n = s.len
			}
			return fr.m.appendVals(a[0], src, n, esz, bsz)
		}
	case "copy":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		esz := slotSize(st.Elem())
		fromStr := isString(cc.Args[1].Type())
		return func(fr *frame, a []Value) Value {
			d := sliceOf(a[0])
			if d == nil {
				return intV(0)
			}
			var src []Value
			n := 0
			if fromStr {
				src = strBytes(a[1])
				n = len(src)
			} else if s := sliceOf(a[1]); s != nil {
				src = s.bytes()
				n = s.len
			}
			if n > d.len {
				n = d.len
			}
			if n > 0 {
				if d.obj.base {
					fr.m.saveObj(d.obj)
				}
				copy(d.obj.slots[d.off:d.off+n*esz], src[:n*esz])
			}
			fr.m.steps += int64(n)
			return intV(n)
		}
	case "delete":
		return func(fr *frame, a []Value) Value {
			if a[0].r != nil {
				fr.m.mapDelete(a[0].r.(*Map), a[1])
			}
			return Value{}
		}
	case "panic":
		return func(fr *frame, a []Value) Value {
			panic(&tpanic{val: a[0], msg: "panic: " + fr.m.describe(a[0]), where: fr.fi.name + " " + fr.m.p.posStr(pos)})
		}
	case "recover":
		return func(fr *frame, a []Value) Value {
			d := fr.deferOf
			if d == nil || d.panicking == nil {
				return Value{}
			}
			v := d.panicking.val
			d.panicking = nil
			return v
		}
	case "print", "println":
		return func(fr *frame, a []Value) Value { return Value{} }
	case "close":
		return func(fr *frame, a []Value) Value { fr.m.chanClose(chanOf(a[0])); return Value{} }
	case "min", "max":
		isMin := b.Name() == "min"
		t := cc.Args[0].Type()
		w, signed := intInfo(t)
		if w <= 0 {
			break
		}
		return func(fr *frame, a []Value) Value {
			m := fr.m
			r := a[0]
			for _, x := range a[1:] {
				if r.r == nil && x.r == nil {
					lt := x.n < r.n
					if signed {
						lt = sext(x.n, uint8(w)) < sext(r.n, uint8(w))
					}
					if lt == isMin && x.n != r.n {
						r = x
					}
					continue
				}
				p, q := m.term(x, uint8(w)), m.term(r, uint8(w))
				var lt *Term
				if signed {
					lt = m.c.Slt(p, q)
				} else {
					lt = m.c.Ult(p, q)
				}
				if !isMin {
					lt = m.c.Not(lt)
				}
				r = fromTerm(m.c.Ite(lt, p, q))
			}
			return r
		}
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return func(fr *frame, a []Value) Value {
				if a[0].r != nil {
					mp := a[0].r.(*Map)
					fr.m.saveMap(mp)
					for i := range mp.entries {
						mp.entries[i].dead = true
					}
					mp.idx, mp.iidx, mp.live, mp.nsym = map[string]int{}, map[uint64]int{}, 0, 0
				}
				return Value{}
			}
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		z := slotsOf(zeroValue(et))
		return func(fr *frame, a []Value) Value {
			s := sliceOf(a[0])
			if s == nil {
				return Value{}
			}
			if s.obj.base {
				fr.m.saveObj(s.obj)
			}
			for i := 0; i < s.len; i++ {
				copy(s.obj.slots[s.off+i*s.esz:], z)
			}
			return Value{}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []Value) Value {
			if a[0].r == nil {
				fr.m.rtpanicAt(fr, pos, "nil pointer dereference (value method on nil pointer)")
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(fr *frame, a []Value) Value { return Value{} }
	}
	name := b.Name()
	fname := c.fi.name
	return func(fr *frame, a []Value) Value { panic(unsupported("builtin " + name + " in " + fname)) }
}

func (m *Machine) appendVals(dst Value, src []Value, n, esz int, bsz int64) Value {
	d := sliceOf(dst)
	if n == 0 {
		return dst
	}
	m.steps += int64(n)
	ln := 0
	if d != nil {
		ln = d.len
		if ln+n <= d.cap {
			if d.obj.base {
				m.saveObj(d.obj)
			}
			copy(d.obj.slots[d.off+ln*esz:], src[:n*esz])
			return Value{r: &Slice{obj: d.obj, off: d.off, len: ln + n, cap: d.cap, esz: esz}}
		}
	}
	oc := 0
	if d != nil {
		oc = d.cap
	}
	nc := growCap(oc, ln+n, bsz)
	o := m.newObject(nc * esz)
	if d != nil {
		copy(o.slots, d.bytes())
	}
	copy(o.slots[ln*esz:], src[:n*esz])
	return Value{r: &Slice{obj: o, len: ln + n, cap: nc, esz: esz}}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int64) int64 {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if n <= s {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen int, bsz int64) int {
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) / 4
		}
	}
	if bsz == 0 {
		return newLen
	}
	return int(roundUpSize(int64(newcap)*bsz) / bsz)
}

// ---- indices ----------------------------------------------------------------

// index checks 0 <= v < n and returns a concrete index.
func (fr *frame) index(v Value, w int, signed bool, n int, pos token.Pos) int {
	m := fr.m
	if v.r == nil {
		i := int64(v.n)
		if signed {
			i = sext(v.n, uint8(w))
		} else if w == 64 && v.n >= 1<<63 {
			i = -1
		}
		if i < 0 || i >= int64(n) {
			m.rtpanicAt(fr, pos, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	t := v.r.(*Term)
	if signed {
		t = m.c.SExt(t, 64)
	} else {
		t = m.c.ZExt(t, 64)
	}
	if !m.branch(m.c.Ult(t, m.c.Const(64, uint64(n)))) {
		m.rtpanicAt(fr, pos, fmt.Sprintf("index out of range with length %d", n))
	}
	return int(m.concretize(t))
}

func (m *Machine) allocLen(fr *frame, v Value, w int, signed bool, bsz int64, pos token.Pos) int {
	if v.r == nil {
		i := int64(v.n)
		if signed {
			i = sext(v.n, uint8(w))
		}
		if i < 0 || i > 1<<40 {
			m.rtpanicAt(fr, pos, "makeslice: len out of range")
		}
		if m.allocLimit > 0 && i*bsz > m.allocLimit {
			m.violate("allocation of excessive size", fr.fi.name+" "+m.p.posStr(pos))
			panic(&pathEnd{"alloc"})
		}
		if i > 1<<22 {
			panic(unsupported("huge concrete allocation in " + fr.fi.name))
		}
		return int(i)
	}
	t := v.r.(*Term)
	if signed {
		t = m.c.SExt(t, 64)
		if m.branch(m.c.Slt(t, m.c.Const(64, 0))) {
			m.rtpanicAt(fr, pos, "makeslice: len out of range")
		}
	} else {
		t = m.c.ZExt(t, 64)
	}
	if m.allocLimit > 0 && bsz > 0 {
		ok := m.c.Ule(t, m.c.Const(64, uint64(m.allocLimit/bsz)))
		m.assertTerm(ok, "allocation of excessive size", fr.fi.name+" "+m.p.posStr(pos), nil)
	}
	return int(m.concretize(t))
}

// ---- iterators -----------------------------------------------------------------

type strIter struct {
	b   []Value
	pos int
}

func (it *strIter) next() Value {
	if it.pos >= len(it.b) {
		return Value{r: &Agg{[]Value{boolV(false), {}, {}}}}
	}
	var buf [4]byte
	n := 0
	for n < 4 && it.pos+n < len(it.b) {
		if it.b[it.pos+n].r != nil {
			panic(unsupported("range over symbolic string"))
		}
		buf[n] = byte(it.b[it.pos+n].n)
		n++
	}
	r, sz := utf8.DecodeRune(buf[:n])
	p := it.pos
	it.pos += sz
	return Value{r: &Agg{[]Value{boolV(true), intV(p), {n: uint64(uint32(r))}}}}
}

type mapIter struct {
	mp    *Map
	order []int
	pos   int
}

func (it *mapIter) next(m *Machine, zk, zv Value) Value {
	if it.mp != nil {
		for it.pos < len(it.order) {
			e := it.mp.entries[it.order[it.pos]]
			it.pos++
			if e.dead {
				continue
			}
			return Value{r: &Agg{[]Value{boolV(true), e.key, e.val}}}
		}
	}
	return Value{r: &Agg{[]Value{boolV(false), zk, zv}}}
}

// mapOrder picks an iteration order: insertion order, or its reverse where the
// harness asked for map order to be explored.
func (m *Machine) mapOrder(mp *Map) []int {
	var out []int
	for i := range mp.entries {
		if !mp.entries[i].dead {
			out = append(out, i)
		}
	}
	if m.mapOrders > 0 && len(out) > 1 {
		m.mapOrders--
		if m.choose("maporder", 2) == 1 {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

var _ = bits.Len64
var _ = strings.Contains
