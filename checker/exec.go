package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Call is a resolved call.
type Call struct {
	Instr   ssa.CallInstruction
	ID      string // stable name of the callee: pkg.Type.Method, pkg.Func, builtin:x
	Fn      *ssa.Function
	FnTerm  *Term
	Recv    *Term   // receiver of a method
	Args    []*Term // arguments without the receiver
	all     []*Term
	Sig     *types.Signature
	Invoke  bool
	Builtin string
	Caller  *ssa.Function
}

func (c *Call) name() string {
	if i := strings.LastIndex(c.ID, "."); i >= 0 {
		return c.ID[i+1:]
	}
	return c.ID
}

// Outcome is one possible effect of a modelled call.
type Outcome struct {
	Mod   func(s *State) bool // false: impossible
	Res   *Term
	Panic bool
}

// Action tells how a call is treated.
type Action int

const (
	ActDefault Action = iota
	ActInline
	ActOpaque // unknown effects on the reachable mutable state
	ActPure   // no effect, unknown result
	ActModel  // the outcomes given
	ActStop   // the path ends here
)

// Hooks specialises the analysis for a rule.
type Hooks struct {
	Call      func(x *Exec, s *State, c *Call) (Action, []Outcome)
	Store     func(x *Exec, s *State, addr, val *Term, pos token.Pos) bool // false: drop the store
	Load      func(x *Exec, s *State, addr *Term, t types.Type) *Term
	MapUpdate func(x *Exec, s *State, m, k, v *Term, pos token.Pos)
	MapRead   func(x *Exec, s *State, m, k *Term, pos token.Pos)
	Return    func(x *Exec, s *State, res []*Term, pos token.Pos)
	RootPanic func(x *Exec, s *State, pos token.Pos)
	FnReturn  func(x *Exec, s *State, fn *ssa.Function, res []*Term)
	Go        func(x *Exec, s *State, c *Call) Action
	MayPanic  func(c *Call) bool
	Enum      func(t types.Type) []int64
	Ignore    func(field string) bool
	Immutable func(field string) bool
	Inline    func(fn *ssa.Function) bool
	Recursive func(x *Exec, s *State, c *Call) (Action, []Outcome)
	Coll      func(s *State, c *Term) (keys, elems []*Term, others, ok bool)
	MapLen    func(x *Exec, s *State, m *Term) *Term
	NewElem   func(x *Exec, s *State, c *Term, k, v *Term)
	StrAt     func(s *State, str, i *Term) *Term // a character of a string; strings are tracked
	Before    func(s *State, a, b *Term) bool    // tracked elements of slices: a comes before b
	Visit     func(x *Exec, s *State, c *Term, k, v *Term)
	// KeepNested keeps the fields of structs within structs at joins
	KeepNested bool

	NilDeref  func(x *Exec, s *State, pos token.Pos)
	Branch    func(x *Exec, s *State, cond *Term, v bool)
	IgnoreMap func(s *State, m *Term) bool
	// KeepKeys remembers that a local map doesn't have a tracked key.
	KeepKeys bool
	// Append sees the elements put in a slice.
	Append    func(x *Exec, s *State, c *Call)
	OpaqueDyn func(s *State, v *Term) bool
	RecLimit  int
	MaxDepth  int
	MaxStates int
}

// Finding is a violation.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Trace     []string `json:"path,omitempty"`
}

func (f Finding) key() string { return f.Rule + " @ " + f.Construct }

// Exec is an abstract interpretation of one entry point.
type Exec struct {
	p         *Program
	h         Hooks
	rule      string
	root      *ssa.Function
	work      []*State
	seen      map[[32]byte]bool
	findings  map[string]Finding
	roots     []*Term
	states    int
	paths     int
	deadline  time.Time
	undecided string
	fnSeen    map[*ssa.Function]bool
	fnKeys    map[*ssa.Function]string
	counts    map[string]int
	info      map[*ssa.Function]*fnInfo
	curPos    token.Pos
}

type fnInfo struct {
	order   []ssa.Value
	livein  []map[ssa.Value]bool
	liveout []map[ssa.Value]bool
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

// started is when the process did: a check has 900 s
var started = time.Now()

func newExec(p *Program, rule string, h Hooks) *Exec {
	if h.MaxDepth == 0 {
		h.MaxDepth = 30
	}
	if m, _ := strconv.Atoi(os.Getenv("FC_MAX")); m > 0 {
		h.MaxStates = m
	}
	if h.MaxStates == 0 {
		h.MaxStates = 1500000
	}
	if h.RecLimit == 0 {
		h.RecLimit = 1
	}
	return &Exec{p: p, h: h, rule: rule, seen: map[[32]byte]bool{}, findings: map[string]Finding{}, fnSeen: map[*ssa.Function]bool{}, fnKeys: map[*ssa.Function]string{},
		counts: map[string]int{}, info: map[*ssa.Function]*fnInfo{}, deadline: started.Add(780 * time.Second)}
}

func (x *Exec) count(what string) { x.counts[what]++ }

func (x *Exec) report(s *State, construct string, pos token.Pos, format string, args ...interface{}) {
	f := Finding{Rule: x.rule, Construct: construct, Pos: x.p.pos(pos), Msg: fmt.Sprintf(format, args...)}
	if _, ok := x.findings[f.key()]; ok {
		return
	}
	var tr []string
	for t := s.trace; t != nil && len(tr) < 60; t = t.up {
		tr = append(tr, t.msg)
	}
	for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
		tr[i], tr[j] = tr[j], tr[i]
	}
	f.Trace = tr
	x.findings[f.key()] = f
}

func (x *Exec) fresh(name string, typ types.Type) *Term { return tm.fresh(KSym, name, typ) }
func (x *Exec) obj(name string, typ types.Type) *Term   { return tm.fresh(KObj, name, typ) }

// ---- function facts ----

func (x *Exec) fi(fn *ssa.Function) *fnInfo {
	if i := x.info[fn]; i != nil {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, p := range fn.Params {
		i.order = append(i.order, p)
	}
	for _, p := range fn.FreeVars {
		i.order = append(i.order, p)
	}
	n := len(fn.Blocks)
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	phiuse := make([]map[ssa.Value]bool, n) // used by phis of successors, by predecessor
	for b := range phiuse {
		phiuse[b] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		use[b.Index] = map[ssa.Value]bool{}
		def[b.Index] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for j, e := range phi.Edges {
					if local(e) {
						phiuse[b.Preds[j].Index][e] = true
					}
				}
			} else {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && local(*o) && !def[b.Index][*o] {
						use[b.Index][*o] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				i.order = append(i.order, v)
				def[b.Index][v] = true
			}
		}
	}
	i.livein = make([]map[ssa.Value]bool, n)
	i.liveout = make([]map[ssa.Value]bool, n)
	for b := 0; b < n; b++ {
		i.livein[b] = map[ssa.Value]bool{}
		i.liveout[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := i.liveout[b.Index]
			add := func(m map[ssa.Value]bool, v ssa.Value) {
				if !m[v] {
					m[v] = true
					changed = true
				}
			}
			for v := range phiuse[b.Index] {
				add(out, v)
			}
			for _, sb := range b.Succs {
				for v := range i.livein[sb.Index] {
					// phis are defined on entry
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == sb {
						continue
					}
					add(out, v)
				}
			}
			in := i.livein[b.Index]
			for v := range use[b.Index] {
				add(in, v)
			}
			for v := range out {
				if !def[b.Index][v] {
					add(in, v)
				}
			}
		}
	}
	// phis used inside the block count as live in
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				used := i.liveout[b.Index][ph]
				for _, r := range *ph.Referrers() {
					if r.Block() == b {
						used = true
					}
				}
				if used {
					i.livein[b.Index][ph] = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, sb := range b.Succs {
			if sb.Dominates(b) {
				body := i.loops[sb]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{sb: true}
					i.loops[sb] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[c] {
						continue
					}
					body[c] = true
					stack = append(stack, c.Preds...)
				}
			}
		}
	}
	x.info[fn] = i
	return i
}

func (x *Exec) ordered(fn *ssa.Function) []ssa.Value { return x.fi(fn).order }

func local(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

// ---- values ----

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
				return tm.mk(KOp, "const:"+c.Value.String(), 0, nil, nil)
			}
			return mkInt(i)
		}
	}
	return tm.mk(KOp, "const:"+c.Value.String(), 0, nil, nil)
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return tNil
		}
		return tm.mk(KOp, "const:0", 0, nil, nil)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroTerm(u.Field(i).Type()))
		}
		return mkTuple(fs...)
	case *types.Array:
		return tm.mk(KOp, "zeroarray", 0, nil, nil)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroTerm(u.At(i).Type()))
		}
		return mkTuple(fs...)
	}
	return tNil
}

func globalTerm(g *ssa.Global) *Term {
	return tm.named(KObj, "global "+g.RelString(nil), g.Type())
}

func (x *Exec) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Global:
		return globalTerm(v)
	case *ssa.Builtin:
		return tm.named(KSym, "builtin "+v.Name(), nil)
	}
	f := s.top()
	if t := f.env[v]; t != nil {
		return t
	}
	t := x.fresh(v.Name(), v.Type())
	f.env[v] = t
	return t
}

// fieldSel names a field: Type.field.
func fieldSel(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	n := "struct"
	if nt, ok := types.Unalias(t).(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return n + "." + st.Field(i).Name()
}

// ---- memory ----

func (x *Exec) ignored(addr *Term) bool {
	return x.h.Ignore != nil && addr.kind == KAddr && x.h.Ignore(addr.op)
}

func (x *Exec) load(s *State, addr *Term, t types.Type) *Term {
	if x.h.Load != nil {
		if v := x.h.Load(x, s, addr, t); v != nil {
			return v
		}
	}
	if x.ignored(addr) {
		return x.fresh(addr.op, t)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if v := s.heap[addr]; v != nil {
			return v
		}
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, x.load(s, mkAddr(addr, fieldSel(t, i)), st.Field(i).Type()))
		}
		return mkTuple(fs...)
	}
	if v := s.heap[addr]; v != nil {
		return v
	}
	name := addr.op
	if addr.kind != KAddr {
		name = "*" + addr.op
	}
	v := x.fresh(name, t)
	s.heap[addr] = v
	return v
}

func (x *Exec) store(s *State, addr, v *Term, t types.Type, pos token.Pos) {
	if x.h.Store != nil && !x.h.Store(x, s, addr, v, pos) {
		return
	}
	if x.ignored(addr) {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			x.store(s, mkAddr(addr, fieldSel(t, i)), fieldOf(v, i, t), st.Field(i).Type(), pos)
		}
		return
	}
	x.clobberAliases(s, addr)
	if addr.kind == KAddr && addr.op == "[]" && addr.args[1].kind != KInt {
		// an element of a slice being filled: remember it as a member
		ma := mkAddr(addr.args[0], "members")
		if b := s.heap[ma]; b != nil && b.isBag() {
			s.heap[ma] = bagAdd(b, v)
		}
	}
	s.heap[addr] = v
	if !x.localBase(s, addr) {
		x.escape(s, v)
	}
}

func fieldOf(v *Term, i int, t types.Type) *Term {
	if v.kind == KTuple && i < len(v.args) {
		return v.args[i]
	}
	return mkOp("fld:"+fieldSel(t, i), v)
}

func (x *Exec) clobberAliases(s *State, addr *Term) {
	if addr.kind != KAddr {
		for a := range s.heap {
			if a != addr && a.kind != KAddr && s.eq(a, addr) == Maybe {
				delete(s.heap, a)
			}
		}
		return
	}
	for a := range s.heap {
		if a != addr && a.kind == KAddr && a.op == addr.op && s.eq(a, addr) == Maybe {
			if a.op == "?{}" && s.heap[a] != tFalse && s.heap[mkAddr(a.args[0], "fresh")] != nil {
				s.heap[mkAddr(a.args[0], "touched")] = tTrue
			}
			delete(s.heap, a)
		}
	}
}

func (x *Exec) base(addr *Term) *Term {
	for addr.kind == KAddr {
		addr = addr.args[0]
	}
	return addr
}

func (x *Exec) localBase(s *State, addr *Term) bool {
	b := x.base(addr)
	return b.kind == KObj && b.i == 1 && !s.escaped[b]
}

// escape marks every local object reachable from v as shared.
func (x *Exec) escape(s *State, v *Term) {
	if v == nil {
		return
	}
	if v.kind == KObj && v.i == 1 {
		if s.escaped[v] {
			return
		}
		s.escaped[v] = true
		for a, w := range s.heap {
			if x.base(a) == v {
				x.escape(s, w)
			}
		}
		return
	}
	for _, a := range v.args {
		x.escape(s, a)
	}
}

// clobber forgets the mutable state an unknown callee may change.
func (x *Exec) clobber(s *State, args []*Term) {
	for _, a := range args {
		x.escape(s, a)
	}
	for a := range s.heap {
		if a.kind == KAddr && x.h.Immutable != nil && x.h.Immutable(a.op) {
			continue
		}
		if x.localBase(s, a) {
			continue
		}
		delete(s.heap, a)
	}
}

func bagAdd(b *Term, v *Term) *Term {
	if !b.isBag() {
		return mkBag([]*Term{tStar, v})
	}
	for _, e := range b.args {
		if e == v {
			if v == tStar {
				return b
			}
		}
	}
	n := append(append([]*Term(nil), b.args...), v)
	return mkBag(n)
}

// collapse keeps in the bags of the state the elements that concern a tracked value.
func (x *Exec) collapse(s *State) {
	conv := map[*Term]*Term{}
	var conc func(t *Term, depth int, seen map[*Term]bool) bool
	tracked := map[*Term]bool{}
	for r, t := range s.regs {
		if strings.HasPrefix(r, "w:") && t != nil && !t.isConst() {
			tracked[t] = true
		}
	}
	conc = func(t *Term, depth int, seen map[*Term]bool) bool {
		if tracked[t] {
			return true
		}
		if seen[t] || depth > 3 {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if conc(a, depth, seen) {
				return true
			}
		}
		if t.kind == KObj && t.i == 1 {
			for a, v := range s.heap {
				if x.base(a) == t && conc(v, depth+1, seen) {
					return true
				}
			}
		}
		return false
	}
	fix := func(t *Term) *Term {
		if t == nil || !t.isBag() {
			return t
		}
		if r := conv[t]; r != nil {
			return r
		}
		var n []*Term
		star := false
		has := map[*Term]bool{}
		var rest []*Term // the elements to summarise
		for _, e := range t.args {
			if isMany(e) || !e.isConst() && !conc(e, 0, map[*Term]bool{}) {
				if e == tStar {
					star = true
				} else {
					rest = append(rest, e)
				}
				continue
			}
			if has[e] {
				continue
			}
			has[e] = true
			n = append(n, e)
		}
		sort.Slice(n, func(i, j int) bool { return n[i].id < n[j].id })
		if !star && len(rest) > 0 {
			if len(rest) == 1 && isMany(rest[0]) {
				n = append(n, rest[0])
			} else if m := x.summary(s, rest); m != nil {
				n = append(n, m)
			} else {
				star = true
			}
		}
		if star {
			n = append(n, tStar)
		}
		r := mkBag(n)
		conv[t] = r
		return r
	}
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = fix(v)
		}
	}
	for k, v := range s.heap {
		s.heap[k] = fix(v)
	}
	for k, v := range s.regs {
		s.regs[k] = fix(v)
	}
}

// summary keeps what is known about all the elements (only the facts of the rules, which do not change).
func (x *Exec) summary(s *State, elems []*Term) *Term {
	var common map[string]*Term
	for _, e := range elems {
		if isMany(e) {
			e = e.args[0]
		}
		facts := map[string]*Term{}
		for a, v := range s.heap {
			if a.kind == KAddr && len(a.args) == 1 && a.args[0] == e && strings.HasPrefix(a.op, "$") && v.isConst() {
				facts[a.op] = v
			}
		}
		if common == nil {
			common = facts
			continue
		}
		for k, v := range common {
			if facts[k] != v {
				delete(common, k)
			}
		}
	}
	if len(common) == 0 {
		return nil
	}
	rep := x.fresh("others", nil)
	for k, v := range common {
		s.heap[mkAddr(rep, k)] = v
	}
	return mkMany(rep)
}

// ---- run ----

// Run interprets the root function from the given state.
func (x *Exec) Run(root *ssa.Function, s *State, args []*Term) {
	x.root = root
	f := &Frame{fn: root, blk: root.Blocks[0], env: map[ssa.Value]*Term{}}
	for i, p := range root.Params {
		if i < len(args) && args[i] != nil {
			f.env[p] = args[i]
		} else {
			f.env[p] = x.fresh(p.Name(), p.Type())
		}
	}
	s.frames = append(s.frames, f)
	x.fnSeen[root] = true
	x.work = append(x.work, s)
	x.loop()
}

func (x *Exec) loop() {
	for len(x.work) > 0 {
		if x.undecided != "" {
			return
		}
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runState(s)
	}
}

func (x *Exec) push(s *State) { x.work = append(x.work, s) }

// runState interprets a state until its path ends, forks are pushed on the work list.
func (x *Exec) runState(s *State) {
	for !s.dead {
		if len(s.frames) == 0 {
			return
		}
		if x.undecided != "" {
			return
		}
		f := s.top()
		if f.afterDef != 0 {
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				x.invokeDeferred(s, d)
				continue
			}
			mode := f.afterDef
			f.afterDef = 0
			if mode == 'r' {
				f.idx++
				continue
			}
			// end of the deferred calls of a panicking function
			if f.recovered {
				f.panicking = false
				f.recovered = false
				if f.fn.Recover != nil {
					f.prev = f.blk
					f.blk = f.fn.Recover
					f.idx = 0
					continue
				}
				x.doReturn(s, x.zeroResults(f.fn), f.fn.Pos())
				continue
			}
			x.popPanicking(s)
			continue
		}
		in := f.blk.Instrs[f.idx]
		if in.Pos().IsValid() {
			x.curPos = in.Pos()
		}
		x.step(s, f, in)
	}
}

func (x *Exec) zeroResults(fn *ssa.Function) []*Term {
	var res []*Term
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		res = append(res, zeroTerm(r.At(i).Type()))
	}
	return res
}

// startPanic unwinds from the current point.
func (x *Exec) startPanic(s *State) {
	f := s.top()
	f.panicking = true
	f.recovered = false
	f.afterDef = 'p'
}

func (x *Exec) popPanicking(s *State) {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 || f.spawned {
		x.paths++
		s.dead = true
		if x.h.RootPanic != nil {
			x.h.RootPanic(x, s, f.fn.Pos())
		}
		return
	}
	g := s.top()
	g.panicking = true
	g.recovered = false
	g.afterDef = 'p'
}

func (x *Exec) kill(s *State) { s.dead = true }

// jump enters a block.
func (x *Exec) jump(s *State, to *ssa.BasicBlock) {
	f := s.top()
	from := f.blk
	fi := x.fi(f.fn)
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(s, ph.Edges[pi]))
	}
	body, isLoop := fi.loops[to]
	back := isLoop && body[from]
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev = from
	f.blk = to
	f.idx = len(phis)
	live := fi.livein[to.Index]
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	if isLoop {
		key := loopKey(to, len(s.frames))
		if !back {
			delete(s.visited, key)
			delete(s.visited, "C"+key)
			// a descending loop starts at the last element
			for i, ph := range phis {
				if b, k := lin(vals[i]); b.kind == KOp && b.op == "len" && k == -1 && f.env[ph] != nil {
					s.visited["C"+key] = map[*Term]bool{b.args[0]: true}
				}
			}
		}
		x.collapse(s)
		x.generalise(s, f, phis, back)
	}
	for h, b := range fi.loops {
		if b[from] && !b[to] { // leaving a loop: its marks are dead
			key := loopKey(h, len(s.frames))
			delete(s.visited, key)
			delete(s.visited, "C"+key)
		}
	}
	if len(to.Preds) > 1 {
		x.checkSeen(s)
	}
}

func loopKey(h *ssa.BasicBlock, depth int) string {
	return fmt.Sprintf("L%p/%d", h, depth)
}

func (x *Exec) checkSeen(s *State) {
	k := x.canon(s)
	h := sha256.Sum256([]byte(k))
	if x.seen[h] {
		s.dead = true
		return
	}
	x.seen[h] = true
	prof(x, s, k)
	x.states++
	if x.states > x.h.MaxStates {
		x.undecided = fmt.Sprintf("more than %d abstract states", x.h.MaxStates)
	} else if x.states%64 == 0 && time.Now().After(x.deadline) {
		x.undecided = "time limit of the analysis"
	}
}

// generalise abstracts the integers that change in a loop to symbols related by differences.
func (x *Exec) generalise(s *State, f *Frame, phis []*ssa.Phi, back bool) {
	type slot struct {
		old *Term
		set func(t *Term)
		nm  string
		typ types.Type
		dir int // the direction in which the loop counts
	}
	var slots []slot
	intTyp := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && (x.h.Enum == nil || x.h.Enum(t) == nil)
	}
	for _, ph := range phis {
		ph := ph
		if t := f.env[ph]; t != nil && intTyp(ph.Type()) {
			dir := 0
			for i, e := range ph.Edges {
				if body := x.fi(f.fn).loops[ph.Block()]; body[ph.Block().Preds[i]] {
					switch {
					case stepOf(e, ph, 1) && dir >= 0:
						dir = 1
					case stepOf(e, ph, -1) && dir <= 0:
						dir = -1
					default:
						dir = 0
					}
					if dir == 0 {
						break
					}
				}
			}
			slots = append(slots, slot{t, func(n *Term) { f.env[ph] = n }, ph.Comment, ph.Type(), dir})
		}
	}
	for r, t := range s.regs {
		if r := r; strings.HasPrefix(r, "#") {
			slots = append(slots, slot{t, func(n *Term) { s.regs[r] = n }, r, types.Typ[types.Int], 0})
		}
	}
	if back {
		for a, v := range s.heap {
			a := a
			if (v.kind == KOp && v.op == "+") || v.kind == KInt && x.plainInt(a) {
				slots = append(slots, slot{v, func(n *Term) { s.heap[a] = n }, a.op, types.Typ[types.Int], 0})
			}
		}
	}
	if len(slots) == 0 {
		return
	}
	sort.SliceStable(slots, func(i, j int) bool { return slots[i].nm < slots[j].nm })
	// stale elements of the previous iteration
	for a := range s.heap {
		if a.kind == KAddr && a.op == "[]" {
			b, _ := lin(a.args[1])
			for _, sl := range slots {
				if lb, _ := lin(sl.old); lb == b && b.kind == KSym {
					delete(s.heap, a)
				}
			}
		}
	}
	var cur []*Term
	for _, sl := range slots {
		g := x.fresh(sl.nm, sl.typ)
		if !s.addDiff(g, sl.old, 0) || !s.addDiff(sl.old, g, 0) {
			s.dead = true
			return
		}
		sl.set(g)
		cur = append(cur, g)
	}
	// close, then clamp the constants so that there are finitely many, and keep only the relations of
	// the integers of this loop with each other, with zero and with the inputs of the analysis
	own := map[*Term]bool{}
	dir := map[*Term]int{}
	for i, g := range cur {
		own[g] = true
		dir[g] = slots[i].dir
	}
	nodes := map[*Term]bool{}
	for p := range s.diff {
		nodes[p[0]] = true
		nodes[p[1]] = true
	}
	nd := map[pair]int64{}
	for a := range nodes {
		for b := range nodes {
			fixed := func(t *Term) bool { return t == tZero || t.kind == KSym && t.i != 1 }
			if a == b || !(own[a] && own[b]) && !fixed(a) && !fixed(b) {
				continue
			}
			if d, ok := s.shortest(a, b); ok {
				if d > 2 || !own[a] && !own[b] && d > 0 || b == tZero && dir[a] > 0 || a == tZero && dir[b] < 0 {
					continue
				}
				if d < -2 {
					d = -2
				}
				if d < 0 && (a == tZero && dir[b] > 0 || b == tZero && dir[a] < 0) {
					d = 0
				}
				if !own[a] && !own[b] && d < -1 {
					d = -1
				}
				nd[pair{a, b}] = d
			}
		}
	}
	for p, d := range nd {
		if p[0] == tZero || p[1] == tZero {
			continue
		}
		d1, ok1 := nd[pair{p[0], tZero}]
		d2, ok2 := nd[pair{tZero, p[1]}]
		if ok1 && ok2 && d1+d2 <= d {
			delete(nd, p)
		}
	}
	s.diff = nd
}

// plainInt: the location holds an ordinary (not enumerated) integer.
func (x *Exec) plainInt(a *Term) bool {
	if a.kind == KObj && a.typ != nil {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			if b, ok := p.Elem().Underlying().(*types.Basic); ok {
				return b.Info()&types.IsInteger != 0 && (x.h.Enum == nil || x.h.Enum(p.Elem()) == nil)
			}
		}
	}
	return false
}

// ---- collections ----

// elements describes what a collection holds: definite elements (with their keys for maps), and whether there may be others.
func (x *Exec) elements(s *State, c *Term) (keys, elems []*Term, others bool) {
	if x.h.Coll != nil {
		if k, e, o, ok := x.h.Coll(s, c); ok {
			return k, e, o
		}
	}
	if c == tNil {
		return nil, nil, false
	}
	if b := s.heap[mkAddr(c, "members")]; b != nil && b.isBag() {
		c = b
	}
	if c.isBag() {
		for _, e := range c.args {
			if isMany(e) {
				others = true
			} else {
				elems = append(elems, e)
			}
		}
		return nil, elems, others
	}
	return nil, nil, true
}

func (x *Exec) newElem(s *State, c *Term, kt, vt types.Type) (k, v *Term) {
	if kt != nil {
		k = x.fresh("key", kt)
	}
	v = x.fresh("elem", vt)
	switch vt.Underlying().(type) {
	case *types.Pointer:
		s.neq[ordered(v, tNil)] = true
	case *types.Interface:
		if !types.Identical(vt.Underlying(), types.NewInterfaceType(nil, nil)) && vt.Underlying().(*types.Interface).NumMethods() > 0 {
			s.neq[ordered(v, tNil)] = true
		}
	}
	if b := s.heap[mkAddr(c, "members")]; b != nil && b.isBag() {
		c = b
	}
	if c.isBag() {
		var rep *Term
		for _, e := range c.args {
			switch {
			case e == tStar:
				rep = tStar
			case isMany(e):
				if rep != nil {
					rep = tStar
				} else {
					rep = e.args[0]
				}
			case !e.isConst():
				s.neq[ordered(v, e)] = true
			}
		}
		if rep != nil && rep != tStar {
			for a, w := range s.heap {
				if a.kind == KAddr && len(a.args) == 1 && a.args[0] == rep {
					s.heap[mkAddr(v, a.op)] = w
				}
			}
		}
	}
	if x.h.NewElem != nil {
		x.h.NewElem(x, s, c, k, v)
	}
	return
}

// enclosing loops of a block, innermost first.
func (x *Exec) loopsOf(fn *ssa.Function, b *ssa.BasicBlock) []*ssa.BasicBlock {
	fi := x.fi(fn)
	var hs []*ssa.BasicBlock
	for h, body := range fi.loops {
		if body[b] {
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return len(fi.loops[hs[i]]) < len(fi.loops[hs[j]]) })
	return hs
}

// rangeCond recognises the condition of a loop over a slice: index term, collection, the value of the condition
// that enters the body, and whether the loop covers every element.
func (x *Exec) rangeCond(s *State, f *Frame, iff *ssa.If, cond *Term) (idx, coll *Term, enter bool, full bool, key string, desc, ok bool) {
	neg := false
	if cond.kind == KOp && cond.op == "!" {
		neg = true
		cond = cond.args[0]
	}
	if cond.kind != KOp || cond.op != "<" {
		return
	}
	fi := x.fi(f.fn)
	for _, h := range x.loopsOf(f.fn, f.blk) {
		body := fi.loops[h]
		in0, in1 := body[f.blk.Succs[0]], body[f.blk.Succs[1]]
		if in0 == in1 {
			continue
		}
		for _, ins := range h.Instrs {
			ph, isPhi := ins.(*ssa.Phi)
			if !isPhi {
				break
			}
			g := f.env[ph]
			if g == nil || g.kind != KSym {
				continue
			}
			// ascending: g+k < len(C)
			b, k := lin(cond.args[0])
			var over *Term
			if cond.args[1].kind == KOp && cond.args[1].op == "len" {
				over = cond.args[1].args[0]
			} else if cond.args[1].kind == KInt {
				over = x.lenArg(f, iff)
			}
			if b == g && over != nil {
				enter = !neg
				if enter != in0 {
					continue
				}
				full = true
				for i, p := range h.Preds {
					e := ph.Edges[i]
					if body[p] {
						if !stepOf(e, ph, 1) {
							full = false
						}
					} else {
						c, isC := e.(*ssa.Const)
						if !isC || constTerm(c) != mkInt(-k) {
							full = false
						}
					}
				}
				return cond.args[0], over, enter, full, loopKey(h, len(s.frames)), false, true
			}
			// descending: 0 <= g, that is !(g < 0) or -1 < g
			desc1 := b == g && k == 0 && cond.args[1] == tZero
			desc2 := cond.args[0] == mkInt(-1) && cond.args[1] == g
			if desc1 || desc2 {
				enter = neg == desc1
				if desc2 {
					enter = !neg
				}
				if enter != in0 {
					continue
				}
				key := loopKey(h, len(s.frames))
				cs := s.visited["C"+key]
				if len(cs) != 1 {
					continue
				}
				for c := range cs {
					coll = c
				}
				full = true
				for i, p := range h.Preds {
					if body[p] && !stepOf(ph.Edges[i], ph, -1) {
						full = false
					}
				}
				return g, coll, enter, full, key, true, true
			}
		}
	}
	return
}

// early: another element that was not visited yet comes before the element.
func (x *Exec) early(s *State, elems []*Term, vis map[*Term]bool, e *Term, desc bool) bool {
	for _, o := range elems {
		if o == e || vis[o] {
			continue
		}
		if !desc && x.h.Before(s, o, e) || desc && x.h.Before(s, e, o) {
			return true
		}
	}
	return false
}

// lenArg is the slice whose length is compared, if it is known element by element.
func (x *Exec) lenArg(f *Frame, iff *ssa.If) *Term {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, o := range []ssa.Value{b.Y, b.X} {
		if c, ok := o.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if t := f.env[c.Call.Args[0]]; t != nil && t.isBag() {
					return t
				}
			}
		}
	}
	return nil
}

func stepOf(e ssa.Value, ph *ssa.Phi, step int64) bool {
	b, ok := e.(*ssa.BinOp)
	if !ok || b.X != ph {
		return false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok {
		return false
	}
	t := constTerm(c)
	return b.Op == token.ADD && t == mkInt(step) || b.Op == token.SUB && t == mkInt(-step)
}

func (x *Exec) branch(s *State, f *Frame, iff *ssa.If) {
	cond := x.val(s, iff.Cond)
	idx, coll, enter, full, key, desc, isRange := x.rangeCond(s, f, iff, cond)
	go2 := func(s *State, v bool) {
		if x.h.Branch != nil {
			x.h.Branch(x, s, cond, v)
		}
		f := s.top()
		to := f.blk.Succs[1]
		if v {
			to = f.blk.Succs[0]
		}
		x.jump(s, to)
	}
	pos := iff.Cond.Pos()
	if !pos.IsValid() {
		pos = x.curPos
	}
	if isRange {
		_, elems, others := x.elements(s, coll)
		et := elemType(x.collType(s, f, iff, coll))
		vis := s.visited[key]
		var outs []*State
		left := false
		for _, e := range elems {
			if vis[e] {
				continue
			}
			left = true
			if x.h.Before != nil && x.early(s, elems, vis, e, desc) {
				continue
			}
			n := s.clone()
			if !x.assume(n, cond, enter) {
				continue
			}
			if n.visited[key] == nil {
				n.visited[key] = map[*Term]bool{}
			}
			n.visited[key][e] = true
			n.heap[mkIdx(coll, idx)] = e
			n.note("%s: iteration for the tracked element %s", x.p.pos(pos), e)
			if x.h.Visit != nil {
				x.h.Visit(x, n, coll, nil, e)
			}
			outs = append(outs, n)
			go2(n, enter)
		}
		if others {
			n := s.clone()
			if x.assume(n, cond, enter) {
				if et != nil {
					_, e := x.newElem(n, coll, nil, et)
					n.heap[mkIdx(coll, idx)] = e
					if x.h.Visit != nil {
						x.h.Visit(x, n, coll, nil, e)
					}
				}
				n.note("%s: iteration for another element", x.p.pos(pos))
				outs = append(outs, n)
				go2(n, enter)
			}
		}
		if !(full && left) {
			n := s.clone()
			if x.assume(n, cond, !enter) {
				n.note("%s: end of the loop", x.p.pos(pos))
				outs = append(outs, n)
				go2(n, !enter)
			}
		}
		s.dead = true
		for _, n := range outs {
			if !n.dead {
				x.push(n)
			}
		}
		return
	}
	switch s.decide(cond) {
	case Yes:
		go2(s, true)
		return
	case No:
		go2(s, false)
		return
	}
	// enumerated comparisons: one state per value
	if sym := x.enumSym(s, cond); sym != nil {
		for _, d := range x.domain(sym) {
			n := s.clone()
			if s.neq[ordered(sym, mkInt(d))] || !x.subst(n, sym, mkInt(d)) {
				continue
			}
			c := x.val(n, iff.Cond)
			switch n.decide(c) {
			case Yes:
				n.note("%s: %s = %d, condition true", x.p.pos(pos), sym, d)
				go2(n, true)
			case No:
				n.note("%s: %s = %d, condition false", x.p.pos(pos), sym, d)
				go2(n, false)
			default:
				m := n.clone()
				if x.assume(m, c, true) {
					go2(m, true)
					if !m.dead {
						x.push(m)
					}
				}
				if x.assume(n, c, false) {
					go2(n, false)
				} else {
					n.dead = true
				}
			}
			if !n.dead {
				x.push(n)
			}
		}
		s.dead = true
		return
	}
	n := s.clone()
	if x.assume(n, cond, true) {
		n.note("%s: %s", x.p.pos(pos), cond)
		go2(n, true)
		if !n.dead {
			x.push(n)
		}
	}
	if x.assume(s, cond, false) {
		s.note("%s: not %s", x.p.pos(pos), cond)
		go2(s, false)
	} else {
		s.dead = true
	}
}

// enumSym finds an enumerated symbol in an ordering comparison.
func (x *Exec) enumSym(s *State, c *Term) *Term {
	if c.kind != KOp {
		return nil
	}
	if c.op == "!" {
		return x.enumSym(s, c.args[0])
	}
	if c.op == "<" {
		for _, a := range c.args {
			b, _ := lin(a)
			if x.domain(b) != nil {
				return b
			}
		}
	}
	if c.op == "==" {
		if x.domain(c.args[0]) != nil && x.domain(c.args[1]) != nil {
			return c.args[0]
		}
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

// collType finds the type of the slice a range condition is about.
func (x *Exec) collType(s *State, f *Frame, iff *ssa.If, coll *Term) types.Type {
	if coll.typ != nil {
		return coll.typ
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if ok {
		for _, v := range []ssa.Value{b.X, b.Y} {
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return c.Call.Args[0].Type()
				}
			}
		}
	}
	// a descending loop starts at the length
	for _, h := range x.loopsOf(f.fn, iff.Block()) {
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for _, e := range ph.Edges {
				if b, ok := e.(*ssa.BinOp); ok {
					if c, ok := b.X.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							return c.Call.Args[0].Type()
						}
					}
				}
			}
		}
	}
	return nil
}

// splitBools is called with the state for every value of the results that are not decided.
func (x *Exec) splitBools(s *State, res []*Term, f func(s *State, res []*Term)) {
	for i, r := range res {
		if r.kind == KInt || r.kind == KObj || r == tNil || r == tTrue || r == tFalse {
			continue
		}
		if r.kind == KOp && (r.op == "<" || r.op == "==" || r.op == "!") {
			for _, v := range []bool{true, false} {
				n := s.clone()
				if x.assume(n, r, v) {
					rs := append([]*Term(nil), res...)
					rs[i] = mkBool(v)
					x.splitBools(n, rs, f)
				}
			}
			return
		}
	}
	f(s, res)
}
