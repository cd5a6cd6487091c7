package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded non-deterministic outcome along a path.
type Decision struct {
	v       uint64
	taken   bool
	implied bool
}

type workItem struct {
	trace []Decision
	model Model
	depth int
}

// HashApp is one application of an ideal (collision-free) hash on a path.
type HashApp struct {
	tag    string
	in     []Value
	out    []*Term // nil if concrete
	conc   []byte
	active bool
	first  int32 // id of out[0] for index()
	size   int

	defEpoch uint32
	def      []byte
}

func (h *HashApp) index(t *Term) int {
	for i, o := range h.out {
		if o == t {
			return i
		}
	}
	panic("digest index")
}

func idealDigest(tag string, in []byte, size int, bump uint32) []byte {
	if tag == "sha256" {
		x := sha256.Sum256(in)
		return x[:]
	}
	h := sha256.New()
	h.Write([]byte("nd|" + tag + "|"))
	var b [8]byte
	binary.BigEndian.PutUint32(b[:4], uint32(size))
	binary.BigEndian.PutUint32(b[4:], bump)
	h.Write(b[:])
	h.Write(in)
	seed := h.Sum(nil)
	out := append([]byte(nil), seed...)
	for i := byte(1); len(out) < size; i++ {
		x := sha256.Sum256(append(append([]byte(nil), seed...), i))
		out = append(out, x[:]...)
	}
	out = out[:size]
	zero := true
	for _, x := range out {
		if x != 0 {
			zero = false
		}
	}
	if zero {
		out[0] = 1
	}
	return out
}

func (h *HashApp) evalDefault(c *Ctx) []byte {
	if h.defEpoch == c.epoch && h.def != nil {
		return h.def
	}
	in := make([]byte, len(h.in))
	for i, v := range h.in {
		if v.r == nil {
			in[i] = byte(v.n)
		} else {
			in[i] = byte(c.Eval(v.r.(*Term)))
		}
	}
	h.def = idealDigest(h.tag, in, h.size, 0)
	h.defEpoch = c.epoch
	return h.def
}

// Violation is a solver counterexample (before replay).
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Where   string            `json:"where"`
	Known   string            `json:"known,omitempty"`
	Vars    map[string]uint64 `json:"vars"`
	Choices map[string]int    `json:"choices"`
	Hashes  [][3]string       `json:"hashes"` // tag, input, output
	Hang    bool              `json:"hang,omitempty"`
	Stack   string            `json:"stack,omitempty"`
	Pkg     string            `json:"pkg"`
	Params  map[string]int    `json:"params"`
	Covers  map[string]bool   `json:"covers,omitempty"`
	Replay  string            `json:"replay,omitempty"`
}

// HarnessCfg are per-harness bounds.
type HarnessCfg struct {
	Name       string
	MaxSteps   int64
	MaxDepth   int
	AllocLimit int64
	MapOrders  int
	Sched      int
	MaxEnum    int
	Params     map[string]int
}

// Machine executes one path at a time for one worker.
type Machine struct {
	p   *Program
	c   *Ctx
	s   *Solver
	ex  *Explorer
	cfg *HarnessCfg

	// persistent across paths
	globals  []*Object
	inited   map[*ssa.Package]bool
	baseMode bool
	nextID   uint64
	rootInfo *fnInfo
	qcache   map[string]qres
	notes    map[string]bool

	// per path
	undo         []func()
	cur          *frame
	depth        int
	maxDepth     int
	steps        int64
	maxSteps     int64
	allocLimit   int64
	mapOrders    int
	schedChoices int

	prefix  []Decision
	pos     int
	trace   []Decision
	pc      []*Term
	byVar   map[int32][]int
	known   map[*Term]bool
	names   map[string]int
	choices map[string]int
	vars    []*Term // nd variables created on this path
	apps    []*HashApp
	appKey  map[string]*HashApp
	concDig map[string]*HashApp
	nsym    int
	actives []*HashApp
	clock   int
	asserts int
	nbranch int
	covers  map[string]bool

	coros     []*coro
	running   *coro
	abort     any
	pending   []*workItem
	locks     map[lockKey]int
	now       Value
	pathModel Model
	killing   bool
	killed    chan struct{}
}

type qres struct {
	r    Sat
	vals []uint64
}

// Explorer owns the work list shared by the workers of one harness run.
type Explorer struct {
	p        *Program
	cfg      *HarnessCfg
	entry    *fnInfo
	deadline time.Time
	nworkers int
	solver   string
	qtimeout int

	mu        sync.Mutex
	cond      *sync.Cond
	queue     []*workItem
	idle      int
	stop      bool
	curDepths []int

	Paths       int
	Killed      int
	Asserts     int
	AssertsTriv int
	Queries     int
	CacheHits   int
	Unknowns    int
	SolverTime  time.Duration
	Steps       int64
	MaxPC       int
	Branches    int
	Incomplete  map[string]int
	Violations  []*Violation
	seenViol    map[string]bool
	Covers      map[string]int
	Notes       map[string]bool
	Fatal       string
	TimedOut    bool
	Samples     []string
	maxSamples  int
	HashApps    int
	Witnesses   []*Violation
	maxWit      int
}

func NewExplorer(p *Program, entry *fnInfo, cfg *HarnessCfg, workers int, deadline time.Time, solver string) *Explorer {
	ex := &Explorer{p: p, cfg: cfg, entry: entry, deadline: deadline, nworkers: workers, solver: solver, qtimeout: 20000,
		Incomplete: map[string]int{}, seenViol: map[string]bool{}, Covers: map[string]int{}, Notes: map[string]bool{}, maxSamples: 5, maxWit: 12}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) Run() {
	ex.queue = []*workItem{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < ex.nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker()
		}()
	}
	wg.Wait()
	if len(ex.queue) > 0 {
		ex.TimedOut = true
	}
}

func newMachine(ex *Explorer) *Machine {
	m := &Machine{p: ex.p, ex: ex, cfg: ex.cfg, inited: map[*ssa.Package]bool{}, qcache: map[string]qres{}, killed: make(chan struct{}), notes: map[string]bool{}}
	m.c = NewCtx()
	m.s = NewSolver(m.c, ex.solver, ex.qtimeout)
	m.rootInfo = &fnInfo{name: "goroutine"}
	m.resetPath(nil)
	return m
}

func (ex *Explorer) worker() {
	m := newMachine(ex)
	defer func() {
		ex.mu.Lock()
		ex.Queries += m.s.Queries
		ex.Unknowns += m.s.Unknowns
		ex.SolverTime += m.s.Time
		for n := range m.notes {
			ex.Notes[n] = true
		}
		ex.mu.Unlock()
		m.s.Close()
	}()
	var local []*workItem
	for {
		var it *workItem
		ex.mu.Lock()
		for {
			if ex.stop || time.Now().After(ex.deadline) {
				ex.stop = true
				ex.queue = append(ex.queue, local...)
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			if len(local) > 0 {
				// donate the shallowest item when others are idle
				if ex.idle > 0 && len(ex.queue) < ex.idle && len(local) > 1 {
					ex.queue = append(ex.queue, local[0])
					local = local[1:]
					ex.cond.Signal()
				}
				it = local[len(local)-1]
				local = local[:len(local)-1]
				break
			}
			if len(ex.queue) > 0 {
				it = ex.queue[len(ex.queue)-1]
				ex.queue = ex.queue[:len(ex.queue)-1]
				break
			}
			ex.idle++
			if ex.idle == ex.nworkers {
				ex.stop = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			ex.cond.Wait()
			ex.idle--
		}
		ex.mu.Unlock()
		if m.c.nterms > 3000000 {
			q, u, t := m.s.Queries, m.s.Unknowns, m.s.Time
			m.s.Close()
			notes := m.notes
			m = newMachine(ex)
			m.notes = notes
			m.s.Queries, m.s.Unknowns, m.s.Time = q, u, t
		}
		items := m.runPath(it)
		local = append(local, items...)
	}
}

func (m *Machine) note(s string) { m.notes[s] = true }

func (m *Machine) resetPath(it *workItem) {
	for i := len(m.undo) - 1; i >= 0; i-- {
		m.undo[i]()
	}
	m.undo = m.undo[:0]
	for _, a := range m.apps {
		for _, t := range a.out {
			t.dig = nil
		}
	}
	m.cur, m.depth = nil, 0
	m.steps, m.maxSteps = 0, m.cfg.MaxSteps
	m.maxDepth = m.cfg.MaxDepth
	m.allocLimit = m.cfg.AllocLimit
	m.mapOrders = m.cfg.MapOrders
	m.schedChoices = m.cfg.Sched
	m.pos = 0
	m.trace = nil
	m.pc = nil
	m.byVar = map[int32][]int{}
	m.known = map[*Term]bool{}
	m.names = map[string]int{}
	m.choices = map[string]int{}
	m.vars = nil
	m.apps, m.appKey, m.concDig = nil, map[string]*HashApp{}, map[string]*HashApp{}
	m.nsym = 0
	m.actives = nil
	m.clock = 0
	m.covers = map[string]bool{}
	m.locks = nil
	m.now = Value{}
	m.abort = nil
	if it != nil {
		m.prefix = it.trace
		m.c.setModel(it.model)
		m.pathModel = it.model
	}
}

func (m *Machine) runPath(it *workItem) (items []*workItem) {
	m.resetPath(it)
	m.pending = nil
	end := "done"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case *pathEnd:
				end = e.why
			case *tpanic:
				end = "panic"
				m.violate(e.msg, e.where)
			case *unsupportedErr:
				end = "unsupported"
				m.incomplete("unsupported: " + e.msg)
			default:
				end = "engine error"
				m.incomplete(fmt.Sprintf("engine error: %v", r))
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", r, debug.Stack())
					for f := m.cur; f != nil; f = f.caller {
						fmt.Fprintln(os.Stderr, "  in", f.fi.name)
					}
				}
			}
		}()
		m.callFn(nil, m.ex.entry, nil, nil)
	}()
	m.killCoros()
	ex := m.ex
	ex.mu.Lock()
	ex.Steps += m.steps
	ex.Branches += m.nbranch
	m.nbranch = 0
	if len(m.pc) > ex.MaxPC {
		ex.MaxPC = len(m.pc)
	}
	ex.HashApps += len(m.apps)
	switch end {
	case "done", "panic":
		ex.Paths++
		for k := range m.covers {
			ex.Covers[k]++
		}
		if len(ex.Samples) < ex.maxSamples && (ex.Paths < 3 || ex.Paths%17 == 0) {
			ex.Samples = append(ex.Samples, m.sample())
		}
		if end == "done" && len(ex.Witnesses) < ex.maxWit && (ex.Paths < 5 || ex.Paths&(ex.Paths-1) == 0) {
			v := m.witness(nil)
			v.Covers = m.covers
			ex.Witnesses = append(ex.Witnesses, v)
		}
	default:
		ex.Killed++
		for k := range m.covers {
			ex.Covers[k]++
		}
	}
	ex.mu.Unlock()
	// LIFO: later alternatives first
	return m.pending
}

func (m *Machine) sample() string {
	var sb strings.Builder
	n := 0
	for _, v := range m.vars {
		if n++; n > 12 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%d", v.name, m.c.Eval(v))
	}
	var ks []string
	for k := range m.choices {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, " %s:=%d", k, m.choices[k])
	}
	fmt.Fprintf(&sb, " |path condition %d conjuncts", len(m.pc))
	return strings.TrimSpace(sb.String())
}

func (m *Machine) incomplete(why string) {
	ex := m.ex
	ex.mu.Lock()
	ex.Incomplete[why]++
	ex.mu.Unlock()
}

func (m *Machine) onLimit(msg string) {
	if m.baseMode {
		panic(unsupported(msg + " during package init"))
	}
	m.violateHang("does not terminate: " + msg)
	panic(&pathEnd{"limit"})
}

// ---- names and variables -------------------------------------------------

func (m *Machine) uniq(name string) string {
	k := m.names[name]
	m.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) freshVar(name string, w uint8) *Term {
	n := m.uniq(name)
	known := m.c.vtab[n] != nil
	t := m.c.Var(n, w)
	if !known {
		m.c.varVal[t.k] = m.pathModel[n]
	}
	m.vars = append(m.vars, t)
	return t
}

// ---- constraints -----------------------------------------------------------

// activate adds the ideal-hash axioms for every digest mentioned by t.
func (m *Machine) activate(t *Term) {
	for _, v := range m.c.Vars(t) {
		if d := m.c.vars[v].dig; d != nil && !d.active {
			m.activateApp(d)
		}
	}
}

func (m *Machine) rawDigEq(a *HashApp, b *HashApp) *Term {
	res := m.c.True
	for i := range a.out {
		var y *Term
		if b.out != nil {
			y = b.out[i]
		} else {
			y = m.c.Const(8, uint64(b.conc[i]))
		}
		res = m.c.And(res, m.c.Eq(a.out[i], y))
	}
	return res
}

func (m *Machine) axiom(d, e *HashApp) *Term {
	if d.size != e.size {
		return m.c.True
	}
	eq := m.rawDigEq(d, e)
	if d.tag != e.tag || len(d.in) != len(e.in) {
		return m.c.Not(eq)
	}
	in := m.termOf(m.eqByteVals(d.in, e.in))
	return m.c.Eq(in, eq)
}

func (m *Machine) termOf(v Value) *Term {
	if v.r == nil {
		return m.c.Bool(v.n == 1)
	}
	return v.r.(*Term)
}

func (m *Machine) activateApp(d *HashApp) {
	def := d.evalDefault(m.c)
	for i, o := range d.out {
		if _, ok := m.pathModel[o.name]; !ok {
			m.c.varVal[o.k] = uint64(def[i])
		} else {
			m.c.varVal[o.k] = m.pathModel[o.name]
		}
	}
	d.active = true
	m.c.epoch++
	others := append([]*HashApp(nil), m.actives...)
	m.actives = append(m.actives, d)
	// D != 0
	nz := m.c.False
	for _, o := range d.out {
		nz = m.c.Or(nz, m.c.Not(m.c.Eq(o, m.c.Const(8, 0))))
	}
	m.addConstraint(nz)
	for _, e := range others {
		m.addConstraint(m.axiom(d, e))
	}
	for _, e := range m.apps {
		if e.out == nil {
			m.addConstraint(m.axiom(d, e))
		}
	}
}

// addConstraint adds t to the path condition. t must be consistent with it.
func (m *Machine) addConstraint(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(&pathEnd{"infeasible"})
	}
	if m.known[t] {
		return
	}
	if t.op == OpAnd {
		m.known[t] = true
		m.addConstraint(t.args[0])
		m.addConstraint(t.args[1])
		return
	}
	m.activate(t)
	if m.c.Eval(t) == 0 {
		r, ok := m.query(t)
		switch r {
		case Unsat:
			panic(&pathEnd{"infeasible"})
		case Unknown:
			m.incomplete("solver unknown")
			panic(&pathEnd{"unknown"})
		}
		m.applyVals(ok)
	}
	m.known[t] = true
	i := len(m.pc)
	m.pc = append(m.pc, t)
	for _, v := range m.c.Vars(t) {
		m.byVar[v] = append(m.byVar[v], i)
	}
}

type valSet struct {
	vars []int32
	vals []uint64
}

func (m *Machine) applyVals(vs *valSet) {
	for i, v := range vs.vars {
		m.c.varVal[v] = vs.vals[i]
	}
	m.c.epoch++
}

// query decides pc /\ t, restricted to the constraints connected with t.
func (m *Machine) query(t *Term) (Sat, *valSet) {
	if t.isTrue() {
		return SatYes, &valSet{}
	}
	if t.isFalse() {
		return Unsat, nil
	}
	seenV := map[int32]bool{}
	seenC := map[int]bool{}
	work := append([]int32(nil), m.c.Vars(t)...)
	for _, v := range work {
		seenV[v] = true
	}
	var cs []*Term
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ci := range m.byVar[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			cs = append(cs, m.pc[ci])
			for _, u := range m.c.Vars(m.pc[ci]) {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	cs = append(cs, t)
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	vars := make([]int32, 0, len(seenV))
	for v := range seenV {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	kb := make([]byte, 4*len(cs))
	for i, x := range cs {
		binary.LittleEndian.PutUint32(kb[4*i:], uint32(x.id))
	}
	key := string(kb)
	if q, ok := m.qcache[key]; ok {
		m.ex.mu.Lock()
		m.ex.CacheHits++
		m.ex.mu.Unlock()
		return q.r, &valSet{vars, q.vals}
	}
	r, vals := m.s.Check(cs, vars)
	if r != Unknown {
		if len(m.qcache) > 200000 {
			m.qcache = map[string]qres{}
		}
		m.qcache[key] = qres{r, vals}
	}
	return r, &valSet{vars, vals}
}

func (m *Machine) modelWith(vs *valSet) Model {
	out := make(Model, len(m.vars)+16)
	for k, v := range m.pathModel {
		out[k] = v
	}
	put := func(t *Term, v uint64) { out[t.name] = v }
	for _, t := range m.vars {
		put(t, m.c.varVal[t.k])
	}
	for _, a := range m.actives {
		for _, o := range a.out {
			put(o, m.c.varVal[o.k])
		}
	}
	if vs != nil {
		for i, v := range vs.vars {
			put(m.c.vars[v], vs.vals[i])
		}
	}
	return out
}

func (m *Machine) push(d Decision, vs *valSet) {
	tr := make([]Decision, len(m.trace)+1)
	copy(tr, m.trace)
	tr[len(m.trace)] = d
	m.pending = append(m.pending, &workItem{trace: tr, model: m.modelWith(vs), depth: len(tr)})
}

func (m *Machine) next() (Decision, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		return d, true
	}
	m.pos++
	return Decision{}, false
}

func (m *Machine) checkDeadline() {
	if len(m.trace)&63 == 0 && time.Now().After(m.ex.deadline) {
		m.ex.mu.Lock()
		m.ex.TimedOut = true
		m.ex.mu.Unlock()
		panic(&pathEnd{"deadline"})
	}
}

// branch decides a symbolic condition, exploring the other outcome later.
func (m *Machine) branch(cond *Term) bool {
	if cond.isConst() {
		return cond.k == 1
	}
	if m.known[cond] {
		return true
	}
	neg := m.c.Not(cond)
	if m.known[neg] {
		return false
	}
	if m.baseMode {
		panic(unsupported("symbolic branch in package init"))
	}
	m.activate(cond)
	if d, ok := m.next(); ok {
		c := cond
		if !d.taken {
			c = neg
		}
		if d.implied {
			m.known[c] = true
		} else {
			m.addConstraint(c)
		}
		return d.taken
	}
	m.checkDeadline()
	m.nbranch++
	v := m.c.Eval(cond) == 1
	c, alt := cond, neg
	if !v {
		c, alt = neg, cond
	}
	r, vs := m.query(alt)
	d := Decision{taken: v}
	switch r {
	case SatYes:
		m.push(Decision{taken: !v}, vs)
	case Unsat:
		d.implied = true
	case Unknown:
		m.incomplete("solver unknown at a branch")
	}
	m.trace = append(m.trace, d)
	if d.implied {
		m.known[c] = true
	} else {
		m.addConstraint(c)
	}
	return v
}

func (m *Machine) branchV(v Value) bool {
	if v.r == nil {
		return v.n != 0
	}
	return m.branch(v.r.(*Term))
}

// choose explores all of 0..n-1.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	nm := m.uniq("choose:" + name)
	v := 0
	if d, ok := m.next(); ok {
		v = int(d.v)
	} else {
		m.checkDeadline()
		for i := n - 1; i > 0; i-- {
			m.push(Decision{v: uint64(i)}, nil)
		}
		m.trace = append(m.trace, Decision{v: 0})
	}
	m.choices[nm] = v
	return v
}

// concretize enumerates every value of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	m.activate(t)
	for n := 0; ; n++ {
		if n > m.cfg.MaxEnum {
			m.incomplete("too many values enumerated")
			panic(&pathEnd{"enum limit"})
		}
		if d, ok := m.next(); ok {
			eq := m.c.Eq(t, m.c.Const(t.w, d.v))
			if d.taken {
				if !d.implied {
					m.addConstraint(eq)
				}
				return d.v
			}
			m.addConstraint(m.c.Not(eq))
			continue
		}
		m.checkDeadline()
		v := m.c.Eval(t)
		eq := m.c.Eq(t, m.c.Const(t.w, v))
		d := Decision{v: v, taken: true}
		if eq.isTrue() || m.known[eq] {
			d.implied = true
		} else {
			r, vs := m.query(m.c.Not(eq))
			switch r {
			case SatYes:
				m.push(Decision{v: v, taken: false}, vs)
			case Unsat:
				d.implied = true
				m.known[eq] = true
			case Unknown:
				m.incomplete("solver unknown at an enumeration")
			}
		}
		m.trace = append(m.trace, d)
		if !d.implied {
			m.addConstraint(eq)
		}
		return v
	}
}

// assume restricts the path.
func (m *Machine) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(&pathEnd{"assume"})
	}
	m.activate(t)
	if m.c.Eval(t) == 0 {
		r, vs := m.query(t)
		switch r {
		case Unsat:
			panic(&pathEnd{"assume"})
		case Unknown:
			m.incomplete("solver unknown at an assumption")
			panic(&pathEnd{"unknown"})
		}
		m.applyVals(vs)
	}
	m.addConstraint(t)
}

// assertTerm checks that t holds for every value on this path. kcond, if not
// nil, is the condition describing known finding kname.
func (m *Machine) assertTerm(t *Term, msg, where string, kn *knownSpec) {
	ex := m.ex
	if t.isTrue() {
		ex.mu.Lock()
		ex.Asserts++
		ex.AssertsTriv++
		ex.mu.Unlock()
		return
	}
	if !t.isFalse() {
		m.activate(t)
		if m.known[t] {
			return
		}
	}
	if d, ok := m.next(); ok {
		if d.implied {
			m.known[t] = true
		} else {
			m.addConstraint(t)
		}
		return
	}
	neg := m.c.Not(t)
	if kn != nil {
		// Outside the known condition the assertion must hold.
		kc := kn.cond
		m.activate(kc)
		r, vs := m.query(m.c.And(neg, kc))
		if r == SatYes {
			m.record(msg, where, vs, kn.name, false)
		}
		neg = m.c.And(neg, m.c.Not(kc))
	}
	r, vs := m.query(neg)
	ex.mu.Lock()
	ex.Asserts++
	ex.mu.Unlock()
	switch r {
	case Unsat:
		if kn == nil {
			m.known[t] = true
			m.trace = append(m.trace, Decision{implied: true})
			return
		}
	case SatYes:
		m.record(msg, where, vs, "", false)
	case Unknown:
		m.incomplete("solver unknown at an assertion")
	}
	if t.isFalse() {
		panic(&pathEnd{"assertion failed"})
	}
	m.trace = append(m.trace, Decision{})
	// continue under the assertion, if possible
	m.assume(t)
}

type knownSpec struct {
	name string
	cond *Term
}

func (m *Machine) violate(msg, where string) { m.record(msg, where, nil, "", false) }
func (m *Machine) violateHang(msg string)    { m.record(msg, "", nil, "", true) }

func (m *Machine) record(msg, where string, vs *valSet, known string, hang bool) {
	ex := m.ex
	key := msg + "|" + where + "|" + known
	ex.mu.Lock()
	if ex.seenViol[key] {
		ex.mu.Unlock()
		return
	}
	ex.seenViol[key] = true
	ex.mu.Unlock()
	v := m.witness(vs)
	v.Msg, v.Where, v.Known, v.Hang = msg, where, known, hang
	if os.Getenv("VERIF_PC") != "" {
		fmt.Fprintf(os.Stderr, "violation %s\n", msg)
		for _, c := range m.pc {
			fmt.Fprintf(os.Stderr, "  pc %s\n", c.str(12))
		}
		for _, c := range m.trace {
			fmt.Fprintf(os.Stderr, "  dec %+v\n", c)
		}
	}
	var st []string
	for f := m.cur; f != nil && len(st) < 12; f = f.caller {
		st = append(st, f.fi.name)
	}
	v.Stack = strings.Join(st, " < ")
	ex.mu.Lock()
	ex.Violations = append(ex.Violations, v)
	ex.mu.Unlock()
}

// ---- ideal hash ---------------------------------------------------------------

// hash applies the ideal hash named tag. With sym, the digest is symbolic even
// for concrete input.
func (m *Machine) hash(tag string, in []Value, size int, sym bool) []Value {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d/%v:", tag, size, sym)
	for _, v := range in {
		if v.r == nil {
			fmt.Fprintf(&sb, "%x,", v.n)
		} else {
			fmt.Fprintf(&sb, "t%d,", v.r.(*Term).id)
		}
	}
	key := sb.String()
	if a, ok := m.appKey[key]; ok {
		return a.outVals()
	}
	a := &HashApp{tag: tag, in: append([]Value(nil), in...), size: size}
	m.appKey[key] = a
	m.apps = append(m.apps, a)
	if b, ok := concreteBytes(in); ok && !sym {
		for bump := uint32(0); ; bump++ {
			a.conc = idealDigest(tag, b, size, bump)
			if m.concDig[string(a.conc)] == nil {
				break
			}
		}
		m.concDig[string(a.conc)] = a
		for _, d := range append([]*HashApp(nil), m.actives...) {
			m.addConstraint(m.axiom(d, a))
		}
		return a.outVals()
	}
	a.out = make([]*Term, size)
	for i := range a.out {
		a.out[i] = m.c.Var(fmt.Sprintf("H%d.%d", m.nsym, i), 8)
		a.out[i].dig = a
	}
	m.nsym++
	m.c.epoch++
	return a.outVals()
}

func (a *HashApp) outVals() []Value {
	out := make([]Value, a.size)
	for i := range out {
		if a.out != nil {
			out[i] = Value{r: a.out[i]}
		} else {
			out[i] = Value{n: uint64(a.conc[i])}
		}
	}
	return out
}

// wholeDigest reports the digest that b starts with, if any.
func (m *Machine) wholeDigest(b []Value) *HashApp {
	t, ok := b[0].r.(*Term)
	if !ok || t.op != OpVar || t.dig == nil {
		return nil
	}
	d := t.dig
	if len(b) < d.size {
		return nil
	}
	for i := 0; i < d.size; i++ {
		if b[i].r != any(d.out[i]) {
			return nil
		}
	}
	return d
}

// digestEq compares two sequences starting with whole digests structurally.
func (m *Machine) digestEq(a, b []Value) (*Term, int) {
	x, y := m.wholeDigest(a), m.wholeDigest(b)
	if x == nil {
		x, y = y, x
		a, b = b, a
	}
	if x == nil || len(b) < x.size {
		return nil, 0
	}
	if y == nil {
		cb, ok := concreteBytes(b[:x.size])
		if !ok {
			return nil, 0
		}
		zero := true
		for _, c := range cb {
			if c != 0 {
				zero = false
			}
		}
		if zero {
			return m.c.False, x.size
		}
		y = m.concDig[string(cb)]
		if y == nil {
			return nil, 0
		}
	}
	if x.size != y.size {
		return nil, 0
	}
	if x.tag != y.tag || len(x.in) != len(y.in) {
		return m.c.False, x.size
	}
	return m.termOf(m.eqByteVals(x.in, y.in)), x.size
}

// witness evaluates the inputs of the current path under the model, or under
// the model updated with vs.
func (m *Machine) witness(vs *valSet) *Violation {
	v := &Violation{Harness: m.cfg.Name, Vars: map[string]uint64{}, Choices: map[string]int{}}
	save := append([]uint64(nil), m.c.varVal...)
	if vs != nil {
		m.applyVals(vs)
	}
	for _, t := range m.vars {
		v.Vars[t.name] = m.c.Eval(t)
	}
	for k, c := range m.choices {
		v.Choices[k] = c
	}
	for _, a := range m.apps {
		in := make([]byte, len(a.in))
		for i, x := range a.in {
			if x.r == nil {
				in[i] = byte(x.n)
			} else {
				in[i] = byte(m.c.Eval(x.r.(*Term)))
			}
		}
		out := a.conc
		if a.out != nil {
			out = make([]byte, a.size)
			for i, o := range a.out {
				out[i] = byte(m.c.Eval(o))
			}
		}
		v.Hashes = append(v.Hashes, [3]string{a.tag, hex.EncodeToString(in), hex.EncodeToString(out)})
	}
	copy(m.c.varVal, save)
	m.c.epoch++
	return v
}
