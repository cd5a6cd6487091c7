package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"path/filepath"
	"strings"
)

type intrFn = func(m *Machine, fr *frame, a []Value) Value

func isModPath(module, path string) bool {
	return path == module || strings.HasPrefix(path, module+"/")
}

func isHarnessFile(f string) bool {
	b := filepath.Base(f)
	return strings.HasPrefix(b, "zz_verif_") || strings.Contains(f, "/zzverif/")
}

var ndPkg = "github.com/Bren2010/katie/zzverif/nd."

func tuple(vs ...Value) Value { return Value{r: &Agg{vs}} }

var intrinsics map[string]intrFn

func lookupIntrinsic(fi *fnInfo) intrFn {
	if f, ok := intrinsics[fi.name]; ok {
		return f
	}
	return nil
}

func argStr(v Value) string {
	s, ok := strOf(v)
	if !ok {
		panic(unsupported("symbolic string argument to an nd function"))
	}
	return s
}

func errV(m *Machine, msg string) Value {
	// *errors.errorString
	t := m.ex.p.errString
	if t == nil {
		panic(unsupported("errors.New type unavailable"))
	}
	o := m.newObject(1)
	o.slots[0] = strV(msg)
	return Value{r: &Iface{typ: t, v: Value{r: o}}}
}

// fmtValue renders v for fmt-like functions; ok is false if it is symbolic.
func (m *Machine) fmtArgs(v Value) ([]any, bool) {
	s := sliceOf(v)
	if s == nil {
		return nil, true
	}
	var out []any
	ok := true
	for _, e := range s.bytes() {
		g, o := m.goVal(e)
		if !o {
			ok = false
		}
		out = append(out, g)
	}
	return out, ok
}

type rawErr string

func (m *Machine) goVal(e Value) (any, bool) {
	if e.r == nil {
		return nil, true
	}
	i := e.r.(*Iface)
	t := i.typ
	// honour String and Error methods
	for _, name := range []string{"Error", "String"} {
		if obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name); obj != nil {
			if f, ok := obj.(*types.Func); ok {
				sig := f.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
					if _, isPtr := t.Underlying().(*types.Pointer); isPtr && i.v.r == nil {
						return "<nil>", true
					}
					ms := m.p.method(t, f)
					r := m.callFn(nil, ms, []Value{i.v}, nil)
					s, ok := strOf(r)
					return s, ok
				}
			}
		}
	}
	w, signed := intInfo(t)
	switch {
	case w == 0:
		if i.v.r != nil {
			return nil, false
		}
		return i.v.n != 0, true
	case w > 0:
		if i.v.r != nil {
			return nil, false
		}
		if signed {
			return sext(i.v.n, uint8(w)), true
		}
		if w == 8 {
			return uint8(i.v.n), true
		}
		return i.v.n, true
	case isString(t):
		s, ok := strOf(i.v)
		return s, ok
	case isFloat(t):
		return f64(i.v), true
	}
	if st, ok := t.Underlying().(*types.Slice); ok {
		if ew, _ := intInfo(st.Elem()); ew == 8 {
			return concreteBytes(sliceOf(i.v).bytes())
		}
	}
	return "<" + t.String() + ">", true
}

func (m *Machine) sprintf(format string, args Value) string {
	gs, ok := m.fmtArgs(args)
	if !ok {
		return "<fmt:" + format + ">"
	}
	return fmt.Sprintf(format, gs...)
}

func bytesOf(v Value) []Value { return sliceOf(v).bytes() }

func init() {
	nop := func(m *Machine, fr *frame, a []Value) Value { return Value{} }
	I := map[string]intrFn{}
	intrinsics = I

	// ---- nd ----
	mkVar := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, a []Value) Value {
			return fromTerm(m.freshVar(argStr(a[0]), w))
		}
	}
	I[ndPkg+"Bool"] = func(m *Machine, fr *frame, a []Value) Value {
		t := m.freshVar(argStr(a[0]), 1)
		return fromTerm(m.c.Eq(t, m.c.Const(1, 1)))
	}
	I[ndPkg+"U8"] = mkVar(8)
	I[ndPkg+"U16"] = mkVar(16)
	I[ndPkg+"U32"] = mkVar(32)
	I[ndPkg+"U64"] = mkVar(64)
	I[ndPkg+"Bytes"] = func(m *Machine, fr *frame, a []Value) Value {
		name := argStr(a[0])
		n := int(a[1].n)
		o := m.newObject(n)
		base := m.uniq(name)
		for i := range o.slots {
			o.slots[i] = fromTerm(m.freshVar(fmt.Sprintf("%s[%d]", base, i), 8))
		}
		return Value{r: &Slice{obj: o, len: n, cap: n, esz: 1}}
	}
	I[ndPkg+"Choose"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[1].r != nil {
			panic(unsupported("nd.Choose with a symbolic bound"))
		}
		return intV(m.choose(argStr(a[0]), int(a[1].n)))
	}
	I[ndPkg+"Assume"] = func(m *Machine, fr *frame, a []Value) Value {
		m.assume(m.termOf(a[0]))
		return Value{}
	}
	callSite := func(fr *frame) string {
		if fr.caller != nil {
			return fr.caller.fi.name
		}
		return ""
	}
	I[ndPkg+"Assert"] = func(m *Machine, fr *frame, a []Value) Value {
		m.assertTerm(m.termOf(a[0]), argStr(a[1]), callSite(fr), nil)
		return Value{}
	}
	I[ndPkg+"AssertKnown"] = func(m *Machine, fr *frame, a []Value) Value {
		name := argStr(a[2])
		kc := m.termOf(a[3])
		m.assertTerm(m.termOf(a[0]), argStr(a[1]), callSite(fr), &knownSpec{name, kc})
		return Value{}
	}
	I[ndPkg+"Cover"] = func(m *Machine, fr *frame, a []Value) Value {
		m.covers[argStr(a[0])] = true
		return Value{}
	}
	I[ndPkg+"Concretize"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil {
			return a[0]
		}
		return Value{n: m.concretize(a[0].r.(*Term))}
	}
	I[ndPkg+"hash"] = func(m *Machine, fr *frame, a []Value) Value {
		out := m.hash(argStr(a[0]), bytesOf(a[1]), int(a[2].n), a[3].n != 0)
		return m.mkBytes(out)
	}
	I[ndPkg+"Param"] = func(m *Machine, fr *frame, a []Value) Value {
		return intV(m.cfg.Params[argStr(a[0])])
	}
	I[ndPkg+"Symbolic"] = func(m *Machine, fr *frame, a []Value) Value { return boolV(true) }
	I[ndPkg+"Skip"] = func(m *Machine, fr *frame, a []Value) Value { panic(&pathEnd{"skip"}) }
	I[ndPkg+"AllocLimit"] = func(m *Machine, fr *frame, a []Value) Value {
		m.allocLimit = int64(a[0].n)
		return Value{}
	}
	I[ndPkg+"StepLimit"] = func(m *Machine, fr *frame, a []Value) Value {
		m.maxSteps = m.steps + int64(a[0].n)
		return Value{}
	}
	I[ndPkg+"MapOrders"] = func(m *Machine, fr *frame, a []Value) Value {
		m.mapOrders = int(a[0].n)
		return Value{}
	}
	I[ndPkg+"EqBytes"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.eqByteVals(bytesOf(a[0]), bytesOf(a[1]))
	}
	and := func(m *Machine, fr *frame, a []Value) Value { return m.andV(a[0], a[1]) }
	I[ndPkg+"And"] = and
	I[ndPkg+"Or"] = func(m *Machine, fr *frame, a []Value) Value { return m.orV(a[0], a[1]) }
	I[ndPkg+"Not"] = func(m *Machine, fr *frame, a []Value) Value { return m.notV(a[0]) }
	I[ndPkg+"Implies"] = func(m *Machine, fr *frame, a []Value) Value { return m.orV(m.notV(a[0]), a[1]) }
	I[ndPkg+"IteU64"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil {
			if a[0].n != 0 {
				return a[1]
			}
			return a[2]
		}
		return fromTerm(m.c.Ite(a[0].r.(*Term), m.term(a[1], 64), m.term(a[2], 64)))
	}
	I[ndPkg+"Log"] = func(m *Machine, fr *frame, a []Value) Value {
		if debugLog {
			fmt.Println("nd.Log:", m.sprintf(argStr(a[0]), a[1]))
		}
		return Value{}
	}
	I[ndPkg+"Sched"] = func(m *Machine, fr *frame, a []Value) Value { m.schedChoices = int(a[0].n); return Value{} }
	I[ndPkg+"Gosched"] = func(m *Machine, fr *frame, a []Value) Value { m.gosched(); return Value{} }
	I["runtime.Gosched"] = I[ndPkg+"Gosched"]

	// ---- bytes ----
	eqB := func(m *Machine, fr *frame, a []Value) Value { return m.eqByteVals(bytesOf(a[0]), bytesOf(a[1])) }
	I["bytes.Equal"] = eqB
	I["internal/bytealg.Equal"] = eqB
	cmp3 := func(m *Machine, x, y []Value) Value {
		lt, eq := m.cmpByteVals(x, y)
		if lt.r == nil && eq.r == nil {
			switch {
			case eq.n == 1:
				return intV(0)
			case lt.n == 1:
				return intV(-1)
			}
			return intV(1)
		}
		c := m.c
		return fromTerm(c.Ite(m.termOf(eq), c.Const(64, 0), c.Ite(m.termOf(lt), c.Const(64, ^uint64(0)), c.Const(64, 1))))
	}
	cmpB := func(m *Machine, fr *frame, a []Value) Value { return cmp3(m, bytesOf(a[0]), bytesOf(a[1])) }
	I["bytes.Compare"] = cmpB
	I["internal/bytealg.Compare"] = cmpB
	cmpS := func(m *Machine, fr *frame, a []Value) Value { return cmp3(m, strBytes(a[0]), strBytes(a[1])) }
	I["strings.Compare"] = cmpS
	I["internal/bytealg.CompareString"] = cmpS
	I["runtime.cmpstring"] = cmpS
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *frame, a []Value) Value {
		n := int(a[0].n)
		o := m.newObject(n)
		return Value{r: &Slice{obj: o, len: n, cap: n, esz: 1}}
	}
	idx := func(get func(Value) []Value) intrFn {
		return func(m *Machine, fr *frame, a []Value) Value {
			for i, b := range get(a[0]) {
				if m.branchV(m.eqTerms(b, a[1], 8)) {
					return intV(i)
				}
			}
			return intV(-1)
		}
	}
	I["internal/bytealg.IndexByte"] = idx(bytesOf)
	I["bytes.IndexByte"] = idx(bytesOf)
	I["internal/bytealg.IndexByteString"] = idx(strBytes)
	I["strings.IndexByte"] = idx(strBytes)
	ctEq := func(m *Machine, fr *frame, a []Value) Value { return m.eqByteVals(bytesOf(a[0]), bytesOf(a[1])) }
	I["crypto/hmac.Equal"] = ctEq
	I["crypto/subtle.ConstantTimeCompare"] = func(m *Machine, fr *frame, a []Value) Value {
		v := ctEq(m, fr, a)
		if v.r == nil {
			return v
		}
		return fromTerm(m.c.Ite(v.r.(*Term), m.c.Const(64, 1), m.c.Const(64, 0)))
	}
	I["crypto/subtle.XORBytes"] = func(m *Machine, fr *frame, a []Value) Value {
		d, x, y := sliceOf(a[0]), bytesOf(a[1]), bytesOf(a[2])
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		for i := 0; i < n; i++ {
			var v Value
			if x[i].r == nil && y[i].r == nil {
				v = Value{n: x[i].n ^ y[i].n}
			} else {
				v = fromTerm(m.c.bitop(OpBXor, m.term(x[i], 8), m.term(y[i], 8)))
			}
			d.obj.slots[d.off+i] = v
		}
		return intV(n)
	}

	// ---- bits ----
	lenN := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, a []Value) Value {
			if a[0].r == nil {
				return intV(bits.Len64(a[0].n))
			}
			t := a[0].r.(*Term)
			r := m.c.Const(64, 0)
			for i := uint8(0); i < w; i++ {
				r = m.c.Ite(m.c.Eq(m.c.Extract(i, i, t), m.c.Const(1, 1)), m.c.Const(64, uint64(i)+1), r)
			}
			return fromTerm(r)
		}
	}
	I["math/bits.Len64"], I["math/bits.Len"] = lenN(64), lenN(64)
	I["math/bits.Len32"], I["math/bits.Len16"], I["math/bits.Len8"] = lenN(32), lenN(16), lenN(8)
	tz := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, a []Value) Value {
			if a[0].r == nil {
				n := bits.TrailingZeros64(a[0].n)
				if n > int(w) {
					n = int(w)
				}
				return intV(n)
			}
			t := a[0].r.(*Term)
			r := m.c.Const(64, uint64(w))
			for i := int(w) - 1; i >= 0; i-- {
				r = m.c.Ite(m.c.Eq(m.c.Extract(uint8(i), uint8(i), t), m.c.Const(1, 1)), m.c.Const(64, uint64(i)), r)
			}
			return fromTerm(r)
		}
	}
	I["math/bits.TrailingZeros64"], I["math/bits.TrailingZeros"] = tz(64), tz(64)
	I["math/bits.TrailingZeros32"], I["math/bits.TrailingZeros16"], I["math/bits.TrailingZeros8"] = tz(32), tz(16), tz(8)
	ones := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, a []Value) Value {
			if a[0].r == nil {
				return intV(bits.OnesCount64(a[0].n))
			}
			t := a[0].r.(*Term)
			r := m.c.Const(8, 0)
			for i := uint8(0); i < w; i++ {
				r = m.c.arith(OpAdd, r, m.c.ZExt(m.c.Extract(i, i, t), 8))
			}
			return fromTerm(m.c.ZExt(r, 64))
		}
	}
	I["math/bits.OnesCount64"], I["math/bits.OnesCount"] = ones(64), ones(64)
	I["math/bits.OnesCount32"], I["math/bits.OnesCount16"], I["math/bits.OnesCount8"] = ones(32), ones(16), ones(8)

	// ---- fmt, log ----
	I["fmt.Sprintf"] = func(m *Machine, fr *frame, a []Value) Value {
		f, ok := strOf(a[0])
		if !ok {
			return strV("<fmt>")
		}
		return strV(m.sprintf(f, a[1]))
	}
	I["fmt.Sprint"] = func(m *Machine, fr *frame, a []Value) Value {
		gs, ok := m.fmtArgs(a[0])
		if !ok {
			return strV("<fmt>")
		}
		return strV(fmt.Sprint(gs...))
	}
	I["fmt.Errorf"] = func(m *Machine, fr *frame, a []Value) Value {
		f, _ := strOf(a[0])
		return errV(m, m.sprintf(f, a[1]))
	}
	for _, n := range []string{"Printf", "Println", "Print"} {
		I["fmt."+n] = func(m *Machine, fr *frame, a []Value) Value { return tuple(intV(0), Value{}) }
		I["log."+n] = nop
	}
	for _, n := range []string{"Fprintf", "Fprintln", "Fprint"} {
		I["fmt."+n] = func(m *Machine, fr *frame, a []Value) Value { return tuple(intV(0), Value{}) }
	}

	// ---- sort.Slice family ----
	sortSlice := func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].r.(*Iface)
		s := sliceOf(i.v)
		less := a[1].r.(*Closure)
		n := 0
		if s != nil {
			n = s.len
		}
		// insertion sort (stable)
		for x := 1; x < n; x++ {
			for y := x; y > 0; y-- {
				if !m.branchV(m.callClosure(fr, less, []Value{intV(y), intV(y - 1)})) {
					break
				}
				for k := 0; k < s.esz; k++ {
					p, q := s.off+y*s.esz+k, s.off+(y-1)*s.esz+k
					s.obj.slots[p], s.obj.slots[q] = s.obj.slots[q], s.obj.slots[p]
				}
			}
		}
		return Value{}
	}
	I["sort.Slice"], I["sort.SliceStable"] = sortSlice, sortSlice

	// ---- encoding/binary reflection fallback ----
	// handled in wrap: binary.Read/Write run from source for the fast types
	// and fail for types whose size is not fixed.
	I["encoding/binary.dataSize"] = func(m *Machine, fr *frame, a []Value) Value { return intV(-1) }
	I["reflect.ValueOf"] = func(m *Machine, fr *frame, a []Value) Value { return zeroValue(fr.resultType(m, 0)) }
	I["internal/reflectlite.TypeOf"] = func(m *Machine, fr *frame, a []Value) Value { return Value{} }
	I["reflect.TypeOf"] = func(m *Machine, fr *frame, a []Value) Value { return Value{} }
	I["reflect.Indirect"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	I["(reflect.Value).Kind"] = nop
	I["(reflect.Value).Type"] = nop
	I["(reflect.Value).Elem"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }

	// ---- misc runtime ----
	I["internal/race.Enabled"] = nop
	for _, n := range []string{"Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "ReadObjectPC", "WriteObjectPC"} {
		I["internal/race."+n] = nop
	}
	I["runtime.KeepAlive"] = nop
	I["internal/abi.NoEscape"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	I["strings.noescape"] = func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	I["(*strings.Builder).copyCheck"] = nop
	I["(*strings.Builder).String"] = func(m *Machine, fr *frame, a []Value) Value {
		// struct { addr *Builder; buf []byte }
		o := a[0].r.(*Object)
		return mkStr(bytesOf(o.slots[int(a[0].n)+1]))
	}
	lock := func(m *Machine, fr *frame, a []Value) Value { return m.lock(a[0]) }
	unlock := func(m *Machine, fr *frame, a []Value) Value { return m.unlock(a[0]) }
	I["(*sync.Mutex).Lock"], I["(*sync.RWMutex).Lock"] = lock, lock
	I["(*sync.Mutex).Unlock"], I["(*sync.RWMutex).Unlock"] = unlock, unlock
	I["(*sync.RWMutex).RLock"], I["(*sync.RWMutex).RUnlock"] = lock, unlock
	I["(*sync.Once).Do"] = func(m *Machine, fr *frame, a []Value) Value {
		o := a[0].r.(*Object)
		if o.base {
			m.saveObj(o)
		}
		if o.slots[a[0].n].n == 0 {
			o.slots[a[0].n].n = 1
			m.callClosure(fr, a[1].r.(*Closure), nil)
		}
		return Value{}
	}

	// ---- crypto ----
	I["crypto/rand.Read"] = func(m *Machine, fr *frame, a []Value) Value {
		s := sliceOf(a[0])
		n := 0
		if s != nil {
			n = s.len
			base := m.uniq("rand")
			for i := 0; i < n; i++ {
				s.obj.slots[s.off+i] = fromTerm(m.freshVar(fmt.Sprintf("%s[%d]", base, i), 8))
			}
		}
		return tuple(intV(n), Value{})
	}
	I["crypto/internal/fips140only.Enforced"] = func(m *Machine, fr *frame, a []Value) Value { return boolV(false) }
	I["crypto/internal/boring.Unreachable"] = nop
	I["crypto/internal/fips140.RecordApproved"] = nop
	I["crypto/internal/fips140.RecordNonApproved"] = nop
	I["crypto/fips140.Enabled"] = func(m *Machine, fr *frame, a []Value) Value { return boolV(false) }
	I["crypto/fips140.Enforced"] = func(m *Machine, fr *frame, a []Value) Value { return boolV(false) }
	I["crypto/sha256.Sum256"] = func(m *Machine, fr *frame, a []Value) Value {
		return Value{r: &Agg{m.hash("sha256", bytesOf(a[0]), 32, false)}}
	}

	// ---- time ----
	I["time.Now"] = func(m *Machine, fr *frame, a []Value) Value {
		return Value{r: &Agg{[]Value{{}, m.now, {}}}}
	}
	I["(time.Time).UnixMilli"] = func(m *Machine, fr *frame, a []Value) Value { return a[0].r.(*Agg).s[1] }
	I["time.Since"] = func(m *Machine, fr *frame, a []Value) Value { return Value{} }
	I[ndPkg+"SetNow"] = func(m *Machine, fr *frame, a []Value) Value { m.now = a[0]; return Value{} }
}

var debugLog bool

func (fr *frame) resultType(m *Machine, i int) types.Type {
	return fr.fi.fn.Signature.Results().At(i).Type()
}

func (m *Machine) lock(p Value) Value {
	o := p.r.(*Object)
	if m.locks == nil {
		m.locks = map[lockKey]int{}
	}
	k := lockKey{o, p.n}
	if m.locks[k] != 0 {
		m.wait(func() bool { return m.locks[k] == 0 })
	}
	m.locks[k] = 1
	return Value{}
}

func (m *Machine) unlock(p Value) Value {
	k := lockKey{p.r.(*Object), p.n}
	delete(m.locks, k)
	return Value{}
}

type lockKey struct {
	o *Object
	n uint64
}
