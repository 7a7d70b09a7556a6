package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pair [2]*Term

type deferred struct {
	instr ssa.CallInstruction
	fn    *Term
	args  []*Term
}

// Frame is an activation of a function.
type Frame struct {
	fn        *ssa.Function
	blk       *ssa.BasicBlock
	idx       int
	prev      *ssa.BasicBlock
	env       map[ssa.Value]*Term
	defers    []deferred
	call      ssa.CallInstruction // the call in the caller that waits for the result
	isDefer   bool                // runs a deferred call of the frame below
	afterDef  byte                // what follows the deferred calls: 0 nothing, 'r' continue, 'p' keep panicking
	panicking bool
	recovered bool
	spawned   bool // the body of a go statement
	depth     int
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

// Trace is the path that leads to a state, for the reports.
type Trace struct {
	up  *Trace
	msg string
}

// State is an abstract state of the program.
type State struct {
	frames  []*Frame
	heap    map[*Term]*Term
	neq     map[pair]bool
	dyn     map[*Term]types.Type
	notdyn  map[*Term]map[string]bool
	truth   map[*Term]bool
	diff    map[pair]int64
	visited map[string]map[*Term]bool
	escaped map[*Term]bool
	regs    map[string]*Term
	trace   *Trace
	dead    bool
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, neq: map[pair]bool{}, dyn: map[*Term]types.Type{}, notdyn: map[*Term]map[string]bool{},
		truth: map[*Term]bool{}, diff: map[pair]int64{}, visited: map[string]map[*Term]bool{}, escaped: map[*Term]bool{}, regs: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := newState()
	for _, f := range s.frames {
		n.frames = append(n.frames, f.clone())
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.neq {
		n.neq[k] = v
	}
	for k, v := range s.dyn {
		n.dyn[k] = v
	}
	for k, v := range s.notdyn {
		m := map[string]bool{}
		for a := range v {
			m[a] = true
		}
		n.notdyn[k] = m
	}
	for k, v := range s.truth {
		n.truth[k] = v
	}
	for k, v := range s.diff {
		n.diff[k] = v
	}
	for k, v := range s.visited {
		m := map[*Term]bool{}
		for a := range v {
			m[a] = true
		}
		n.visited[k] = m
	}
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.trace = s.trace
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(format string, args ...interface{}) {
	s.trace = &Trace{up: s.trace, msg: fmt.Sprintf(format, args...)}
}

// Registers of the rules.

func (s *State) get(r string) *Term {
	if t := s.regs[r]; t != nil {
		return t
	}
	return tZero
}
func (s *State) set(r string, t *Term) { s.regs[r] = t }
func (s *State) num(r string) int64    { return s.get(r).i }
func (s *State) setNum(r string, n int64) {
	if n == 0 {
		delete(s.regs, r)
		return
	}
	s.regs[r] = mkInt(n)
}
func (s *State) inc(r string) int64 {
	n := s.num(r) + 1
	if n > 2 {
		n = 2 // more than one is enough to know
	}
	s.setNum(r, n)
	return n
}
func (s *State) is(r string) bool { return s.num(r) != 0 }

// Tri is a three valued truth.
type Tri int

const (
	No Tri = iota
	Yes
	Maybe
)

func (t Tri) not() Tri {
	switch t {
	case No:
		return Yes
	case Yes:
		return No
	}
	return Maybe
}

func ordered(a, b *Term) pair {
	if a.id > b.id {
		return pair{b, a}
	}
	return pair{a, b}
}

func knownNonNil(t *Term) bool {
	switch t.kind {
	case KObj, KAddr, KFunc, KClos, KInt, KBool, KStr:
		return true
	case KOp:
		return t.op == "bag" && len(t.args) > 0 || t.op == "typednil" || t.op == "new" || t.op == "strcat"
	}
	return false
}

func isIntTerm(t *Term) bool {
	if t.kind == KInt || t.kind == KOp && (t.op == "+" || t.op == "len") {
		return true
	}
	if t.kind == KSym && t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

// eq decides a == b.
func (s *State) eq(a, b *Term) Tri {
	if a == b {
		if anyLen(a) {
			return Maybe
		}
		return Yes
	}
	if a.isConst() && b.isConst() {
		return No
	}
	if a == tNil && knownNonNil(b) || b == tNil && knownNonNil(a) {
		return No
	}
	if (a.kind == KObj || a.kind == KFunc || a.kind == KClos) && (b.kind == KObj || b.kind == KFunc || b.kind == KClos) {
		return No
	}
	if a.kind == KAddr && b.kind == KObj || a.kind == KObj && b.kind == KAddr {
		return No
	}
	if a.kind == KAddr && b.kind == KAddr {
		if a.op != b.op {
			return No
		}
		r := s.eq(a.args[0], b.args[0])
		if len(a.args) == 1 {
			return r
		}
		if a.op == "[]" && (a.args[0].kind == KObj && b.args[0].isBag() || b.args[0].kind == KObj && a.args[0].isBag()) {
			return No // an array that is allocated here and another slice
		}
		if r == No {
			return No
		}
		r2 := s.eq(a.args[1], b.args[1])
		if r2 == No && r == Yes {
			return No
		}
		if r == Yes && r2 == Yes {
			return Yes
		}
		return Maybe
	}
	if s.neq[ordered(a, b)] {
		return No
	}
	if anyLen(a) || anyLen(b) {
		if b.kind == KInt {
			a, b = b, a
		}
		if a.kind == KInt && a.i < int64(len(b.args[0].args)-1) {
			return No
		}
		return Maybe
	}
	if a.typ != nil && b.typ != nil && concrete(a.typ) && concrete(b.typ) && !types.Identical(a.typ, b.typ) && a.kind != KInt && b.kind != KInt {
		if _, ok := a.typ.Underlying().(*types.Pointer); ok {
			return No
		}
	}
	if isIntTerm(a) && isIntTerm(b) {
		if d, ok := s.bound(a, b); ok {
			if d < 0 {
				return No
			}
			if d == 0 {
				if e, ok := s.bound(b, a); ok && e == 0 {
					return Yes
				}
			}
		}
		if d, ok := s.bound(b, a); ok && d < 0 {
			return No
		}
	}
	return Maybe
}

func concrete(t types.Type) bool { return t != nil && !types.IsInterface(t) }

// bound is the least known k with a - b <= k.
func (s *State) bound(a, b *Term) (int64, bool) {
	la, ka := lin(a)
	lb, kb := lin(b)
	if la == lb {
		return ka - kb, true
	}
	// a - b = (la - lb) + ka - kb
	d, ok := s.shortest(la, lb)
	if !ok {
		return 0, false
	}
	return d + ka - kb, true
}

func (s *State) shortest(from, to *Term) (int64, bool) {
	if len(s.diff) == 0 {
		return 0, false
	}
	dist := map[*Term]int64{from: 0}
	for n := 0; n <= len(s.diff)+1; n++ {
		changed := false
		for p, k := range s.diff {
			if d, ok := dist[p[0]]; ok {
				if e, ok := dist[p[1]]; !ok || d+k < e {
					dist[p[1]] = d + k
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[to]
	return d, ok
}

// addDiff records a - b <= k, it reports whether the state remains possible.
func (s *State) addDiff(a, b *Term, k int64) bool {
	la, ka := lin(a)
	lb, kb := lin(b)
	k = k - ka + kb
	if la == lb {
		return k >= 0
	}
	if d, ok := s.shortest(la, lb); ok && d <= k {
		return true
	}
	if d, ok := s.shortest(lb, la); ok && d+k < 0 {
		return false
	}
	if anyLen(la) || anyLen(lb) {
		return true // the same term stands for the lengths of different slices
	}
	s.diff[pair{la, lb}] = k
	return true
}

// anyLen: the length of a slice of which only some elements are known.
func anyLen(t *Term) bool {
	return t.kind == KOp && t.op == "len" && t.args[0].isBag() && hasStar(t.args[0])
}

// less decides a < b on integers.
func (s *State) less(a, b *Term) Tri {
	if a.kind == KInt && anyLen(b) && a.i < int64(len(b.args[0].args)-1) {
		return Yes
	}
	if b.kind == KInt && anyLen(a) && b.i <= int64(len(a.args[0].args)-1) {
		return No
	}
	if d, ok := s.bound(a, b); ok && d <= -1 {
		return Yes
	}
	if d, ok := s.bound(b, a); ok && d <= 0 {
		return No
	}
	return Maybe
}

// decide evaluates a boolean term.
func (s *State) decide(c *Term) Tri {
	switch c.kind {
	case KBool:
		if c == tTrue {
			return Yes
		}
		return No
	case KOp:
		switch c.op {
		case "!":
			return s.decide(c.args[0]).not()
		case "==":
			return s.eq(c.args[0], c.args[1])
		case "<":
			return s.less(c.args[0], c.args[1])
		}
	}
	if v, ok := s.truth[c]; ok {
		if v {
			return Yes
		}
		return No
	}
	return Maybe
}

// assume restricts the state to c == v; false: the state is impossible.
func (x *Exec) assume(s *State, c *Term, v bool) bool {
	switch s.decide(c) {
	case Yes:
		return v
	case No:
		return !v
	}
	switch {
	case c.kind == KOp && c.op == "!":
		return x.assume(s, c.args[0], !v)
	case c.kind == KOp && c.op == "==":
		if v {
			return x.unify(s, c.args[0], c.args[1])
		}
		return x.differ(s, c.args[0], c.args[1])
	case c.kind == KOp && c.op == "<":
		if v {
			return s.addDiff(c.args[0], c.args[1], -1)
		}
		return s.addDiff(c.args[1], c.args[0], 0)
	case c.kind == KSym:
		return x.subst(s, c, mkBool(v))
	}
	s.truth[c] = v
	return true
}

func (x *Exec) domain(t *Term) []int64 {
	if t.kind != KSym || t.typ == nil || x.h.Enum == nil {
		return nil
	}
	return x.h.Enum(t.typ)
}

// differ records a != b.
func (x *Exec) differ(s *State, a, b *Term) bool {
	if anyLen(a) || anyLen(b) {
		return true
	}
	switch s.eq(a, b) {
	case Yes:
		return false
	case No:
		return true
	}
	if a.kind == KOp && a.op == "+" || b.kind == KOp && b.op == "+" {
		if isIntTerm(a) && isIntTerm(b) {
			la, ka := lin(a)
			b = addInt(b, -ka)
			a = la
		}
	}
	s.neq[ordered(a, b)] = true
	if isIntTerm(a) && isIntTerm(b) {
		if d, ok := s.bound(a, b); ok && d == 0 {
			if !s.addDiff(a, b, -1) {
				return false
			}
		} else if d, ok := s.bound(b, a); ok && d == 0 {
			if !s.addDiff(b, a, -1) {
				return false
			}
		}
	}
	for _, p := range []pair{{a, b}, {b, a}} {
		dom := x.domain(p[0])
		if dom == nil || p[1].kind != KInt {
			continue
		}
		var left []int64
		for _, d := range dom {
			if !s.neq[ordered(p[0], mkInt(d))] {
				left = append(left, d)
			}
		}
		if len(left) == 0 {
			return false
		}
		if len(left) == 1 {
			return x.subst(s, p[0], mkInt(left[0]))
		}
	}
	return true
}

// unify makes a and b equal.
func (x *Exec) unify(s *State, a, b *Term) bool {
	switch s.eq(a, b) {
	case Yes:
		return true
	case No:
		return false
	}
	if anyLen(a) || anyLen(b) {
		return true
	}
	if isIntTerm(a) && isIntTerm(b) {
		la, ka := lin(a)
		lb, kb := lin(b)
		if la.kind == KSym && la != lb {
			return x.subst(s, la, addInt(b, -ka))
		}
		if lb.kind == KSym && la != lb {
			return x.subst(s, lb, addInt(a, -kb))
		}
	}
	if a.kind == KSym && !b.mentions(a) {
		if b.kind == KSym && prefer(a, b) {
			a, b = b, a
		}
		return x.subst(s, a, b)
	}
	if b.kind == KSym && !a.mentions(b) {
		return x.subst(s, b, a)
	}
	s.truth[mkOp("==", a, b)] = true
	return true
}

// prefer reports whether a should be kept rather than b.
func prefer(a, b *Term) bool {
	if (a.i == 0) != (b.i == 0) {
		return a.i == 0
	}
	if concrete(a.typ) != concrete(b.typ) {
		return concrete(a.typ)
	}
	return false
}

// subst replaces a symbol in the whole state.
func (x *Exec) subst(s *State, from, to *Term) bool {
	if from.typ != nil && to.kind == KInt && x.domain(from) != nil {
		ok := false
		for _, d := range x.domain(from) {
			if d == to.i {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if from.typ != nil && concrete(from.typ) && to.kind == KSym && to.typ != nil && types.IsInterface(to.typ) && s.dyn[to] == nil {
		s.dyn[to] = from.typ
	}
	memo := map[*Term]*Term{}
	re := func(t *Term) *Term { return substTerm(t, from, to, memo) }
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = re(v)
		}
		for i, d := range f.defers {
			if d.fn != nil {
				f.defers[i].fn = re(d.fn)
			}
			as := make([]*Term, len(d.args))
			for j, a := range d.args {
				as[j] = re(a)
			}
			f.defers[i].args = as
		}
	}
	for k, v := range s.regs {
		s.regs[k] = re(v)
	}
	type upd struct{ k, v *Term }
	var ups []upd
	for k, v := range s.heap {
		k2, v2 := re(k), re(v)
		if k2 != k {
			delete(s.heap, k)
			ups = append(ups, upd{k2, v2})
		} else {
			s.heap[k] = v2
		}
	}
	var eqs []pair
	for _, u := range ups {
		if u.k.kind == KAddr && u.k.args[0] == tNil {
			continue
		}
		if old := s.heap[u.k]; old != nil && old != u.v {
			eqs = append(eqs, pair{old, u.v})
		}
		s.heap[u.k] = u.v
	}
	for p := range s.neq {
		a, b := re(p[0]), re(p[1])
		if a != p[0] || b != p[1] {
			delete(s.neq, p)
			switch s.eq(a, b) {
			case Yes:
				return false
			case Maybe:
				s.neq[ordered(a, b)] = true
			}
		}
	}
	for t, d := range s.dyn {
		u := re(t)
		if u == t {
			continue
		}
		delete(s.dyn, t)
		if u == tNil {
			return false
		}
		if u.typ != nil && concrete(u.typ) && u.kind != KInt && !types.Identical(u.typ, d) {
			return false
		}
		if o := s.dyn[u]; o != nil && !types.Identical(o, d) {
			return false
		}
		if u.kind == KSym {
			s.dyn[u] = d
		}
	}
	for t, m := range s.notdyn {
		u := re(t)
		if u == t {
			continue
		}
		delete(s.notdyn, t)
		if u.typ != nil && concrete(u.typ) {
			if m[u.typ.String()] {
				return false
			}
		} else {
			if s.notdyn[u] == nil {
				s.notdyn[u] = m
			} else {
				for k := range m {
					s.notdyn[u][k] = true
				}
			}
		}
	}
	for t, v := range s.truth {
		u := re(t)
		if u == t {
			continue
		}
		delete(s.truth, t)
		if !x.assume(s, u, v) {
			return false
		}
	}
	var dps []pair
	var dks []int64
	for p, k := range s.diff {
		a, b := re(p[0]), re(p[1])
		if a != p[0] || b != p[1] {
			delete(s.diff, p)
			dps = append(dps, pair{a, b})
			dks = append(dks, k)
		}
	}
	for i, p := range dps {
		if p[0] == tNil || p[1] == tNil {
			continue
		}
		if !s.addDiff(p[0], p[1], dks[i]) {
			return false
		}
	}
	for k, m := range s.visited {
		n := map[*Term]bool{}
		for t := range m {
			n[re(t)] = true
		}
		s.visited[k] = n
	}
	for t := range s.escaped {
		if u := re(t); u != t {
			delete(s.escaped, t)
			s.escaped[u] = true
		}
	}
	for _, e := range eqs {
		if !x.unify(s, re(e[0]), re(e[1])) {
			return false
		}
	}
	// an enumerated value excluded by now known inequalities was handled through neq
	return true
}

// ---- canonical form ----

// canon renders the state with its symbols renumbered, dropping what is unreachable.
func (x *Exec) canon(s *State) string {
	var sb strings.Builder
	num := map[*Term]int{}
	var order []*Term // reachable address bases in order of discovery
	seenBase := map[*Term]bool{}
	var str func(t *Term) string
	var discover func(t *Term)
	discover = func(t *Term) {
		if t.kind == KObj || t.kind == KSym || t.kind == KAddr {
			if !seenBase[t] {
				seenBase[t] = true
				order = append(order, t)
			}
		}
		for _, a := range t.args {
			discover(a)
		}
		if t.kind == KSym || t.kind == KObj {
			if t.i == 1 {
				if _, ok := num[t]; !ok {
					num[t] = len(num) + 1
				}
			}
		}
	}
	var write func(t *Term, b *strings.Builder)
	write = func(t *Term, b *strings.Builder) {
		switch t.kind {
		case KSym, KObj:
			b.WriteByte('0' + byte(t.kind))
			if t.i == 1 {
				b.WriteByte('#')
				b.WriteString(strconv.Itoa(num[t]))
			} else {
				b.WriteByte('@')
				b.WriteString(t.op)
			}
			return
		case KInt:
			b.WriteString(strconv.FormatInt(t.i, 10))
			return
		case KNil, KBool:
			b.WriteString(t.op)
			return
		case KStr:
			b.WriteString(strconv.Quote(t.op))
			return
		}
		b.WriteByte('(')
		b.WriteByte('0' + byte(t.kind))
		b.WriteByte(':')
		b.WriteString(t.op)
		if t.i != 0 {
			b.WriteByte(':')
			b.WriteString(strconv.FormatInt(t.i, 10))
		}
		if t.fn != nil {
			b.WriteByte(':')
			b.WriteString(x.fnKey(t.fn))
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			write(a, b)
		}
		b.WriteByte(')')
	}
	str = func(t *Term) string {
		var b strings.Builder
		write(t, &b)
		return b.String()
	}
	emit := func(t *Term) {
		discover(t)
		write(t, &sb)
		sb.WriteByte(';')
	}
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%s.%d.%d.%v%v%v%c%v[", x.fnKey(f.fn), f.blk.Index, f.idx, f.isDefer, f.panicking, f.recovered, f.afterDef+'0', f.spawned)
		for _, v := range x.ordered(f.fn) {
			if t := f.env[v]; t != nil {
				fmt.Fprintf(&sb, "%s=", v.Name())
				emit(t)
			}
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%p", d.instr)
			if d.fn != nil {
				emit(d.fn)
			}
			for _, a := range d.args {
				emit(a)
			}
		}
		sb.WriteString("]")
	}
	var rk []string
	for k := range s.regs {
		rk = append(rk, k)
	}
	sort.Strings(rk)
	for _, k := range rk {
		sb.WriteString(k + "=")
		emit(s.regs[k])
	}
	// visited marks of the active loops
	var vk []string
	for k := range s.visited {
		vk = append(vk, k)
	}
	sort.Strings(vk)
	for _, k := range vk {
		var es []string
		for t := range s.visited[k] {
			discover(t)
			es = append(es, str(t))
		}
		sort.Strings(es)
		sb.WriteString("V" + k + strings.Join(es, ","))
	}
	// occurrences of the symbols
	occ := map[*Term]int{}
	info := map[*Term]bool{}
	for a, v := range s.heap {
		for _, y := range v.syms() {
			occ[y]++
		}
		for _, y := range a.syms() {
			occ[y]++
		}
		if a.kind == KAddr {
			for _, y := range a.args[0].syms() {
				info[y] = true
			}
		}
	}
	mark := func(t *Term) {
		for _, y := range t.syms() {
			info[y] = true
		}
	}
	for p := range s.neq {
		mark(p[0])
		mark(p[1])
	}
	for t := range s.dyn {
		mark(t)
	}
	for t := range s.notdyn {
		mark(t)
	}
	for t := range s.truth {
		mark(t)
	}
	for p := range s.diff {
		mark(p[0])
		mark(p[1])
	}
	// heap, by base
	byBase := map[*Term][]*Term{}
	for a := range s.heap {
		b := a
		if a.kind == KAddr {
			b = a.args[0]
			for x.h.KeepNested && len(a.args) == 1 && b.kind == KAddr && len(b.args) == 1 {
				b = b.args[0]
			}
		}
		byBase[b] = append(byBase[b], a)
	}
	liveHeap := map[*Term]bool{}
	for _, g := range x.roots {
		discover(g)
	}
	type kv struct {
		s string
		a *Term
	}
	put := func(a *Term) {
		v := s.heap[a]
		// an entry that only names an unconstrained symbol says nothing
		if v.kind == KSym && v.i == 1 && num[v] == 0 && !info[v] && occ[v] <= 1 {
			return
		}
		liveHeap[a] = true
		discover(a)
		write(a, &sb)
		sb.WriteString("->")
		emit(v)
	}
	var pending []*Term // entries whose key is not known to be reachable
	for i := 0; i < len(order) || len(pending) > 0; i++ {
		if i >= len(order) {
			// keys that became reachable
			var ks []kv
			var rest []*Term
			for _, a := range pending {
				if x.termLive(a.args[1], num) {
					ks = append(ks, kv{str(a), a})
				} else {
					rest = append(rest, a)
				}
			}
			if len(ks) == 0 {
				break
			}
			pending = rest
			sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
			for _, k := range ks {
				put(k.a)
			}
			i--
			continue
		}
		as := byBase[order[i]]
		if len(as) == 0 {
			continue
		}
		var ks []kv
		for _, a := range as {
			k := a.op
			if a.kind == KAddr && len(a.args) > 1 {
				if !x.termLive(a.args[1], num) {
					pending = append(pending, a)
					continue
				}
				k += str(a.args[1])
			} else if a.kind == KAddr && a.args[0].kind == KAddr && x.h.KeepNested {
				k = a.args[0].op + "." + k
			}
			ks = append(ks, kv{k, a})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
		for _, k := range ks {
			put(k.a)
		}
	}
	live := func(t *Term) bool { return x.termLive(t, num) }
	var fs []string
	for p := range s.neq {
		if live(p[0]) && live(p[1]) {
			a, b := str(p[0]), str(p[1])
			if a > b {
				a, b = b, a
			}
			fs = append(fs, a+"!="+b)
		} else {
			delete(s.neq, p)
		}
	}
	for t, d := range s.dyn {
		if live(t) {
			fs = append(fs, str(t)+":"+d.String())
		} else {
			delete(s.dyn, t)
		}
	}
	for t, m := range s.notdyn {
		if live(t) {
			for d := range m {
				fs = append(fs, str(t)+"!:"+d)
			}
		} else {
			delete(s.notdyn, t)
		}
	}
	for t, v := range s.truth {
		if live(t) {
			fs = append(fs, fmt.Sprintf("%s=%v", str(t), v))
		} else {
			delete(s.truth, t)
		}
	}
	s.projectDiff(live)
	for p, k := range s.diff {
		fs = append(fs, fmt.Sprintf("%s-%s<=%d", str(p[0]), str(p[1]), k))
	}
	for t := range s.escaped {
		if live(t) {
			fs = append(fs, "esc"+str(t))
		} else {
			delete(s.escaped, t)
		}
	}
	sort.Strings(fs)
	sb.WriteString(strings.Join(fs, "&"))
	// collect garbage; a local map of which an entry is forgotten is no
	// longer known to lack the keys that it does not name
	var touched []*Term
	for a, v := range s.heap {
		if !liveHeap[a] {
			if a.kind == KAddr && a.op == "?{}" && v != tFalse {
				m := a.args[0]
				if x.termLive(m, num) && s.heap[mkAddr(m, "fresh")] != nil && s.heap[mkAddr(m, "touched")] == nil {
					touched = append(touched, m)
				}
			}
			delete(s.heap, a)
		}
	}
	if len(touched) > 0 {
		var ts []string
		for _, m := range touched {
			s.heap[mkAddr(m, "touched")] = tTrue
			ts = append(ts, str(m))
		}
		sort.Strings(ts)
		sb.WriteString("|t" + strings.Join(ts, ","))
	}
	return sb.String()
}

// projectDiff eliminates the integers that are no longer used.
func (s *State) projectDiff(live func(*Term) bool) {
	if len(s.diff) == 0 {
		return
	}
	nodes := map[*Term]bool{}
	for p := range s.diff {
		nodes[p[0]] = true
		nodes[p[1]] = true
	}
	var keep []*Term
	for n := range nodes {
		if live(n) {
			keep = append(keep, n)
		}
	}
	nd := map[pair]int64{}
	for _, a := range keep {
		for _, b := range keep {
			if a != b {
				if d, ok := s.shortest(a, b); ok {
					nd[pair{a, b}] = d
				}
			}
		}
	}
	for p, d := range nd {
		if p[0] == tZero || p[1] == tZero {
			continue
		}
		d1, ok1 := nd[pair{p[0], tZero}]
		d2, ok2 := nd[pair{tZero, p[1]}]
		if ok1 && ok2 && d1+d2 <= d {
			delete(nd, p)
		}
	}
	s.diff = nd
}

func (x *Exec) termLive(t *Term, num map[*Term]int) bool {
	if (t.kind == KSym || t.kind == KObj) && t.i == 1 {
		return num[t] != 0
	}
	for _, a := range t.args {
		if !x.termLive(a, num) {
			return false
		}
	}
	return true
}

// fnKey is a short name of a function.
func (x *Exec) fnKey(fn *ssa.Function) string {
	if k, ok := x.fnKeys[fn]; ok {
		return k
	}
	k := "f" + strconv.Itoa(len(x.fnKeys))
	x.fnKeys[fn] = k
	return k
}
