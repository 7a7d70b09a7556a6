package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks (C22) and the data they guard (C23): an interprocedural, context-sensitive dataflow analysis
// of which locks are held, per access path of the lock.

// status of a lock: 0 unknown, 'U' not held, 'H' held, 'R' held for reading, 'N' there is no lock.
type lockDis struct {
	st     map[string]byte
	defers []*ssa.Defer
	clos   map[ssa.Value]closVal // closures that calls returned
	single bool                  // tasks are not executed concurrently here
}

type closVal struct {
	fn    *ssa.Function
	binds []string
}

func (d *lockDis) clone() *lockDis {
	n := &lockDis{st: map[string]byte{}, defers: append([]*ssa.Defer(nil), d.defers...), clos: map[ssa.Value]closVal{}, single: d.single}
	for k, v := range d.st {
		n.st[k] = v
	}
	for k, v := range d.clos {
		n.clos[k] = v
	}
	return n
}

func (d *lockDis) key() string {
	var ks []string
	for k, v := range d.st {
		ks = append(ks, k+"="+string(v))
	}
	sort.Strings(ks)
	for _, f := range d.defers {
		ks = append(ks, fmt.Sprintf("%p", f))
	}
	var cs []string
	for v, c := range d.clos {
		cs = append(cs, v.Name()+":"+c.fn.String()+strings.Join(c.binds, ","))
	}
	sort.Strings(cs)
	return strings.Join(ks, ";") + "|" + strings.Join(cs, ";") + fmt.Sprint(d.single)
}

func (d *lockDis) held() []string {
	var r []string
	for k, v := range d.st {
		if v == 'H' || v == 'R' {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

type lockExit struct {
	d   *lockDis
	ret *closVal
}

type lockEdge struct {
	from, to string
	pos      token.Pos
	fn       *ssa.Function
}

type guard struct {
	field string // selector of the guarded field, or name of a global
	lock  string // selectors from the owner of the field to its lock
	conc  bool   // only has to be held where tasks may be executed concurrently
}

var guards = []guard{
	{"Instance.attrs", "Instance.lock", true},
	{"Instance.taskInsts", "Instance.lock", true},
	{"Instance.linkInsts", "Instance.lock", true},
	{"IndependentInstance.subflows", "IndependentInstance.Instance.Instance.subFlowLock", true},
	{"IndependentInstance.subflowCtr", "IndependentInstance.Instance.Instance.subFlowLock", true},
	{"SimpleChangeTracker.currentStep", "SimpleChangeTracker.lock", true},
	{"SimpleChangeTracker.stepCtr", "SimpleChangeTracker.lock", true},
	{"FlowManager.remoteFlows", "FlowManager.rfMu", false},
}

var globalGuards = map[string]string{"model.models": "G:model.modelsMu"}

type lockAnalysis struct {
	valued  map[*ssa.Function]bool // functions used as values
	p       *Program
	memo    map[string][]lockExit
	open    map[string]bool
	edges   map[[2]string]lockEdge
	impl    map[*types.Func][]*ssa.Function
	conc    bool // the current root may run concurrently with tasks
	reports map[string]func(c *Ctx)
	rule    string
	counts  map[string]int
	funcs   map[*ssa.Function]bool
	acq     map[string]bool // lock classes
	root    *ssa.Function
	fresh   map[*ssa.Function]int
	stack   []*ssa.Function
	locky   map[*ssa.Function]bool
}

func newLockAnalysis(p *Program) *lockAnalysis {
	a := &lockAnalysis{p: p, memo: map[string][]lockExit{}, open: map[string]bool{}, edges: map[[2]string]lockEdge{}, impl: map[*types.Func][]*ssa.Function{},
		reports: map[string]func(*Ctx){}, counts: map[string]int{}, funcs: map[*ssa.Function]bool{}, acq: map[string]bool{}, fresh: map[*ssa.Function]int{}}
	return a
}

func (a *lockAnalysis) rep(rule, construct string, fn *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	var path []string
	for _, f := range a.stack {
		path = append(path, fnName(f))
	}
	k := rule + construct + fnName(fn) + a.p.pos(pos) + msg
	if a.reports[k] == nil {
		a.reports[k] = func(c *Ctx) {
			if c.Prop == rule {
				c.add(Finding{Rule: rule, Construct: fnName(fn) + ": " + construct, Pos: a.p.pos(pos), Msg: msg, Trace: []string{"called through " + strings.Join(path, " -> ")}})
			}
		}
	}
}

func isMutex(t types.Type) bool {
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// path is the access path of a value or of the variable at an address.
func (a *lockAnalysis) path(d *lockDis, v ssa.Value, depth int) string {
	if depth > 24 {
		return "v" + v.Name()
	}
	switch t := v.(type) {
	case *ssa.Parameter:
		for i, p := range t.Parent().Params {
			if p == t {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range t.Parent().FreeVars {
			if p == t {
				return fmt.Sprintf("f%d", i)
			}
		}
	case *ssa.Global:
		return "G:" + rel(t.Pkg.Pkg.Path()) + "." + t.Name()
	case *ssa.FieldAddr:
		return a.path(d, t.X, depth+1) + "." + fieldSel(t.X.Type(), t.Field)
	case *ssa.Field:
		return a.path(d, t.X, depth+1) + "." + fieldSel(t.X.Type(), t.Field)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if al, ok := t.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					return a.path(d, s, depth+1)
				}
			}
			if fv, ok := t.X.(*ssa.FreeVar); ok {
				return a.path(d, fv, depth+1)
			}
			return a.path(d, t.X, depth+1)
		}
	case *ssa.ChangeType:
		return a.path(d, t.X, depth+1)
	case *ssa.MakeInterface:
		return a.path(d, t.X, depth+1)
	case *ssa.ChangeInterface:
		return a.path(d, t.X, depth+1)
	case *ssa.TypeAssert:
		return a.path(d, t.X, depth+1)
	case *ssa.Extract:
		if ta, ok := t.Tuple.(*ssa.TypeAssert); ok && t.Index == 0 {
			return a.path(d, ta.X, depth+1)
		}
		if c, ok := t.Tuple.(*ssa.Call); ok && a.freshResult(c, t.Index) {
			return "a" + t.Name()
		}
	case *ssa.Alloc:
		if s := onlyStore(t); s != nil && !t.Heap {
			return a.path(d, s, depth+1)
		}
		return "a" + t.Name()
	case *ssa.Phi:
		r := ""
		for _, e := range t.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() || e == v {
				continue
			}
			s := a.path(d, e, depth+6)
			if r != "" && r != s {
				return "v" + t.Name()
			}
			r = s
		}
		if r != "" {
			return r
		}
	case *ssa.Call:
		if a.freshResult(t, 0) {
			return "a" + t.Name()
		}
		if f := t.Call.StaticCallee(); f != nil && InRepo(f) && len(f.Blocks) == 1 {
			if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				s := a.path(nil, r.Results[0], depth+1)
				if root, rest := splitPath(s); strings.HasPrefix(root, "p") {
					var i int
					if _, err := fmt.Sscanf(root, "p%d", &i); err == nil && i < len(t.Call.Args) {
						return a.path(d, t.Call.Args[i], depth+1) + rest
					}
				} else if strings.HasPrefix(root, "G:") {
					return s
				}
			}
		}
	}
	return "v" + v.Name()
}

// freshResult: the call returns an object that the callee has created.
func (a *lockAnalysis) freshResult(c *ssa.Call, idx int) bool {
	f := c.Call.StaticCallee()
	if f == nil || !InRepo(f) {
		return false
	}
	switch a.fresh[f] {
	case 1:
		return true
	case 2:
		return false
	}
	a.fresh[f] = 2
	ok := false
	for _, b := range f.Blocks {
		r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is || idx >= len(r.Results) {
			continue
		}
		switch t := r.Results[idx].(type) {
		case *ssa.Alloc:
			ok = true
		case *ssa.Const:
		case *ssa.Call:
			if !a.freshResult(t, 0) {
				return false
			}
			ok = true
		default:
			return false
		}
	}
	if ok {
		a.fresh[f] = 1
	}
	return ok
}

func splitPath(s string) (root, rest string) {
	start := 0
	if strings.HasPrefix(s, "G:") {
		if i := strings.Index(s, "."); i >= 0 {
			start = i + 1
		}
	}
	if strings.HasPrefix(s, "^") {
		return s, ""
	}
	if i := strings.Index(s[start:], "."); i >= 0 {
		return s[:start+i], s[start+i:]
	}
	return s, ""
}

func onlyStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if v != nil {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

// class of a lock: the field or variable that holds it.
func lockClass(path string) string {
	path = strings.TrimPrefix(path, "^")
	if strings.HasPrefix(path, "G:") {
		return path
	}
	if i := strings.LastIndex(path, "."); i >= 0 {
		if j := strings.LastIndex(path[:i], "."); j >= 0 {
			return path[j+1:]
		}
	}
	return path
}

func lockOp(c *ssa.CallCommon) (recv ssa.Value, op string) {
	if c.IsInvoke() {
		if p := c.Method.Pkg(); p != nil && p.Path() == "sync" && (c.Method.Name() == "Lock" || c.Method.Name() == "Unlock") {
			return c.Value, c.Method.Name()
		}
		return nil, ""
	}
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || !isMutex(f.Signature.Recv().Type()) {
		// a bound method
		if f != nil && strings.HasSuffix(f.Name(), "$bound") && len(f.FreeVars) == 1 && isMutex(f.FreeVars[0].Type()) {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				return mc.Bindings[0], strings.TrimSuffix(f.Name(), "$bound")
			}
		}
		return nil, ""
	}
	if len(c.Args) == 0 {
		return nil, ""
	}
	return c.Args[0], f.Name()
}

func (a *lockAnalysis) implementers(m *types.Func, iface types.Type) []*ssa.Function {
	if r, ok := a.impl[m]; ok {
		return r
	}
	var r []*ssa.Function
	it, _ := iface.Underlying().(*types.Interface)
	if it != nil {
		for _, pk := range a.p.Pkgs {
			for _, n := range pk.Types.Scope().Names() {
				tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				pt := types.NewPointer(tn.Type())
				if types.Implements(pt, it) {
					if f := a.p.methodOf(pt, m.Name()); f != nil && InRepo(f) {
						r = append(r, f)
					}
				}
			}
		}
	}
	a.impl[m] = r
	return r
}

type lockTarget struct {
	fn    *ssa.Function
	args  []string // paths of the parameters
	binds []string
}

// targets of a call, and whether they are all of them.
func (a *lockAnalysis) targets(d *lockDis, c *ssa.CallCommon) (r []lockTarget) {
	paths := func(vs []ssa.Value) (ps []string) {
		for _, v := range vs {
			ps = append(ps, a.path(d, v, 0))
		}
		return ps
	}
	if c.IsInvoke() {
		if a.registered(c.Value, map[ssa.Value]bool{}) {
			return nil // the registered activity, an object without settings that no flow uses
		}
		args := append([]string{a.path(d, c.Value, 0)}, paths(c.Args)...)
		for _, f := range a.implementers(c.Method, c.Value.Type()) {
			r = append(r, lockTarget{fn: f, args: args})
		}
		return r
	}
	if f := c.StaticCallee(); f != nil {
		if InRepo(f) || f.Synthetic != "" && f.Blocks != nil {
			t := lockTarget{fn: f, args: paths(c.Args)}
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				t.binds = paths(mc.Bindings)
			}
			return []lockTarget{t}
		}
		return nil
	}
	if cv, ok := d.clos[c.Value]; ok {
		return []lockTarget{{fn: cv.fn, args: paths(c.Args), binds: cv.binds}}
	}
	if mc, ok := a.closureOf(c.Value); ok {
		return []lockTarget{{fn: mc.Fn.(*ssa.Function), args: paths(c.Args), binds: paths(mc.Bindings)}}
	}
	return nil
}

// registered: the value is an activity of the registry, handed down to helpers possibly.
func (a *lockAnalysis) registered(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch t := v.(type) {
	case *ssa.Call:
		f := t.Call.StaticCallee()
		return f != nil && f.String() == "github.com/project-flogo/core/activity.Get"
	case *ssa.ChangeInterface:
		return a.registered(t.X, seen)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !a.registered(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := t.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return a.registered(s, seen)
			}
		}
	case *ssa.Parameter:
		f := t.Parent()
		if token.IsExported(f.Name()) || f.Parent() != nil {
			return false
		}
		if a.valued == nil {
			a.valued = usedAsValue(a.p)
		}
		if a.valued[f] {
			return false
		}
		n := 0
		for _, g := range a.p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						for i, prm := range f.Params {
							if prm == t && !a.registered(ci.Common().Args[i], seen) {
								return false
							}
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// closureOf finds the closure a local function variable holds.
func (a *lockAnalysis) closureOf(v ssa.Value) (*ssa.MakeClosure, bool) {
	switch t := v.(type) {
	case *ssa.MakeClosure:
		return t, true
	case *ssa.UnOp:
		if al, ok := t.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return a.closureOf(s)
			}
		}
	}
	return nil, false
}

// callbacks are the methods of this repository that a function outside of it may call on its arguments.
func (a *lockAnalysis) callbacks(d *lockDis, c *ssa.CallCommon) (r []lockTarget) {
	sig := c.Signature()
	params := sig.Params()
	args := c.Args
	if !c.IsInvoke() && sig.Recv() != nil {
		args = args[1:]
	}
	for i, v := range args {
		if i >= params.Len() {
			break
		}
		pt := params.At(i).Type()
		p := a.path(d, v, 0)
		switch u := pt.Underlying().(type) {
		case *types.Interface:
			if n, ok := types.Unalias(pt).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "core/activity") && n.Obj().Name() == "Activity" {
				continue // the library registers activities and asks for their names, it doesn't run them
			}
			dyn := v.Type()
			if mi, ok := v.(*ssa.MakeInterface); ok {
				dyn = mi.X.Type()
			}
			for m := 0; m < u.NumMethods(); m++ {
				mt := u.Method(m)
				var fs []*ssa.Function
				if types.IsInterface(dyn) {
					fs = a.implementers(mt, pt)
				} else if f := a.p.methodOf(dyn, mt.Name()); f != nil && InRepo(f) {
					fs = []*ssa.Function{f}
				}
				for _, f := range fs {
					t := lockTarget{fn: f, args: []string{p}}
					for j := 1; j < len(f.Params); j++ {
						t.args = append(t.args, "v?")
					}
					r = append(r, t)
				}
			}
		case *types.Signature:
			if mc, ok := a.closureOf(v); ok {
				t := lockTarget{fn: mc.Fn.(*ssa.Function)}
				for _, b := range mc.Bindings {
					t.binds = append(t.binds, a.path(d, b, 0))
				}
				for range t.fn.Params {
					t.args = append(t.args, "v?")
				}
				r = append(r, t)
			}
		}
	}
	return r
}

func (a *lockAnalysis) op(d *lockDis, p, op string, fn *ssa.Function, pos token.Pos) bool {
	a.counts["lock operations"]++
	cls := lockClass(p)
	cur := d.st[p]
	switch op {
	case "Lock", "RLock":
		a.acq[cls] = true
		if cur == 'N' {
			a.rep("C22", "no lock", fn, pos, "%s is locked although it is nil", cls)
			return false
		}
		for _, h := range d.held() {
			hc := lockClass(h)
			if hc == cls {
				a.rep("C22", "deadlock", fn, pos, "%s is acquired while it may already be held", cls)
				return false
			}
			k := [2]string{hc, cls}
			if _, ok := a.edges[k]; !ok {
				a.edges[k] = lockEdge{hc, cls, pos, fn}
			}
		}
		if op == "Lock" {
			d.st[p] = 'H'
		} else {
			d.st[p] = 'R'
		}
	case "Unlock", "RUnlock":
		want := byte('H')
		if op == "RUnlock" {
			want = 'R'
		}
		if cur != want {
			a.rep("C22", "unlock", fn, pos, "%s is released (%s) although it is not held that way", cls, op)
			return false
		}
		d.st[p] = 'U'
	case "TryLock", "TryRLock":
		a.rep("C22", "try", fn, pos, "%s is not acquired unconditionally", cls)
	}
	return true
}

// call applies the effect of a call.
func (a *lockAnalysis) call(d *lockDis, fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon) []*lockDis {
	if recv, op := lockOp(c); op != "" {
		n := d.clone()
		if !a.op(n, a.path(d, recv, 0), op, fn, in.Pos()) {
			return nil
		}
		return []*lockDis{n}
	}
	if cv, ok := d.clos[c.Value]; ok && strings.HasSuffix(cv.fn.Name(), "$bound") && len(cv.binds) == 1 && isMutex(cv.fn.FreeVars[0].Type()) {
		n := d.clone()
		if !a.op(n, cv.binds[0], strings.TrimSuffix(cv.fn.Name(), "$bound"), fn, in.Pos()) {
			return nil
		}
		return []*lockDis{n}
	}
	ts := a.targets(d, c)
	if len(ts) == 0 {
		if len(d.held()) > 0 {
			for _, t := range a.callbacks(d, c) {
				a.counts["callbacks under locks"]++
				a.apply(d, fn, t, nil)
			}
		}
		return []*lockDis{d}
	}
	var out []*lockDis
	val, _ := in.(ssa.Value)
	if c.IsInvoke() && len(d.held()) > 0 && (c.Method.Pkg() == nil || !strings.HasPrefix(c.Method.Pkg().Path(), flowMod)) {
		// there may be implementations outside of the repository
		for _, t := range a.callbacks(d, c) {
			a.apply(d, fn, t, nil)
		}
	}
	seen := map[string]bool{}
	for _, t := range ts {
		for _, n := range a.apply(d, fn, t, val) {
			if k := n.key(); !seen[k] {
				seen[k] = true
				out = append(out, n)
			}
		}
	}
	return out
}

// apply analyses a callee in the caller's state.
func (a *lockAnalysis) apply(d *lockDis, caller *ssa.Function, t lockTarget, val ssa.Value) []*lockDis {
	if !a.locky[t.fn] {
		return []*lockDis{d}
	}
	entry := &lockDis{st: map[string]byte{}, clos: map[ssa.Value]closVal{}, single: d.single}
	back := map[string]string{}
	for p, s := range d.st {
		q, held := "", s == 'H' || s == 'R'
		best := -1
		try := func(arg, name string) {
			if len(arg) > best && (p == arg || strings.HasPrefix(p, arg+".")) {
				best, q = len(arg), name+p[len(arg):]
			}
		}
		for i, arg := range t.args {
			try(arg, fmt.Sprintf("p%d", i))
		}
		for i, b := range t.binds {
			try(b, fmt.Sprintf("f%d", i))
		}
		switch {
		case strings.HasPrefix(p, "G:") || strings.HasPrefix(p, "^"):
			q = p
		case q == "" && held:
			q = "^" + p + "@" + caller.Name()
			q = "^" + lockClass(p)
		case q == "":
			continue
		}
		entry.st[q] = s
		back[q] = p
	}
	exits := a.run(t.fn, entry, a.freshParams(d, t))
	var out []*lockDis
	for _, e := range exits {
		n := d.clone()
		n.single = d.single
		for p := range d.st {
			known := false
			for q, bp := range back {
				if bp == p {
					known = true
					if s, ok := e.d.st[q]; ok {
						n.st[p] = s
					} else {
						delete(n.st, p)
					}
				}
			}
			_ = known
		}
		for q, s := range e.d.st {
			if _, ok := back[q]; ok {
				continue
			}
			if p, ok := t.outer(q); ok {
				n.st[p] = s
			} else if s == 'H' || s == 'R' {
				a.rep("C22", "not released", t.fn, t.fn.Pos(), "%s is not released", lockClass(q))
			}
		}
		if e.ret != nil && val != nil {
			cv := closVal{fn: e.ret.fn}
			for _, b := range e.ret.binds {
				p, ok := t.outer(b)
				if !ok {
					p = "v?" + b
				}
				cv.binds = append(cv.binds, p)
			}
			n.clos[val] = cv
		}
		out = append(out, n)
	}
	return out
}

// outer translates a path of the callee.
func (t lockTarget) outer(q string) (string, bool) {
	if strings.HasPrefix(q, "G:") || strings.HasPrefix(q, "^") {
		return q, true
	}
	root, rest := splitPath(q)
	var i int
	if n, _ := fmt.Sscanf(root, "p%d", &i); n == 1 && i < len(t.args) {
		return t.args[i] + rest, true
	}
	if n, _ := fmt.Sscanf(root, "f%d", &i); n == 1 && i < len(t.binds) {
		return t.binds[i] + rest, true
	}
	return "", false
}

func (a *lockAnalysis) freshParams(d *lockDis, t lockTarget) string {
	var r []string
	for i, p := range t.args {
		if strings.HasPrefix(p, "a") {
			r = append(r, fmt.Sprintf("p%d", i))
		}
	}
	return strings.Join(r, ",")
}

func (a *lockAnalysis) run(fn *ssa.Function, entry *lockDis, fresh string) []lockExit {
	key := fmt.Sprintf("%s#%s#%s#%v", fn.String(), entry.key(), fresh, a.conc)
	if r, ok := a.memo[key]; ok {
		return r
	}
	if a.open[key] || len(a.stack) > 120 {
		return []lockExit{{d: entry}}
	}
	a.open[key] = true
	a.stack = append(a.stack, fn)
	a.funcs[fn] = true
	a.counts["contexts"]++
	r := a.body(fn, entry, fresh)
	a.stack = a.stack[:len(a.stack)-1]
	delete(a.open, key)
	a.memo[key] = r
	return r
}

type lockItem struct {
	b *ssa.BasicBlock
	d *lockDis
}

func (a *lockAnalysis) body(fn *ssa.Function, entry *lockDis, fresh string) []lockExit {
	freshP := map[string]bool{}
	for _, f := range strings.Split(fresh, ",") {
		freshP[f] = true
	}
	seen := map[string]bool{}
	var work []lockItem
	push := func(b *ssa.BasicBlock, d *lockDis) {
		k := fmt.Sprintf("%d %s", b.Index, d.key())
		if !seen[k] {
			seen[k] = true
			work = append(work, lockItem{b, d})
		}
	}
	push(fn.Blocks[0], entry)
	var exits []lockExit
	exitSeen := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if len(seen) > 20000 {
			anchorFail("locks: %s is too complex", fnName(fn))
		}
		cur := []*lockDis{it.d}
		for _, in := range it.b.Instrs {
			var next []*lockDis
			for _, d := range cur {
				next = append(next, a.instr(d, fn, in, freshP)...)
			}
			cur = next
		}
		for _, d := range cur {
			switch t := it.b.Instrs[len(it.b.Instrs)-1].(type) {
			case *ssa.If:
				a.branch(d, t, it.b, push)
			case *ssa.Jump:
				push(it.b.Succs[0], d)
			case *ssa.Return:
				n := d.clone()
				n.defers = nil
				e := lockExit{d: n}
				if len(t.Results) == 1 {
					if mc, ok := a.closureOf(t.Results[0]); ok {
						cv := &closVal{fn: mc.Fn.(*ssa.Function)}
						for _, b := range mc.Bindings {
							cv.binds = append(cv.binds, a.path(d, b, 0))
						}
						e.ret = cv
					} else if f, ok := t.Results[0].(*ssa.Function); ok {
						e.ret = &closVal{fn: f}
					}
				}
				n.clos = map[ssa.Value]closVal{}
				k := n.key() + fmt.Sprint(e.ret)
				if !exitSeen[k] {
					exitSeen[k] = true
					exits = append(exits, e)
				}
			}
		}
	}
	// locks that are held at no exit are of no interest to the caller
	dull := map[string]bool{}
	for _, e := range exits {
		for p, s := range e.d.st {
			if _, ok := dull[p]; !ok {
				dull[p] = true
			}
			if s == 'H' || s == 'R' {
				dull[p] = false
			}
		}
	}
	for p, s := range entry.st {
		if s == 'H' || s == 'R' || s == 'N' || s == 'U' {
			dull[p] = false
		}
	}
	var out []lockExit
	exitSeen = map[string]bool{}
	for _, e := range exits {
		for p, dl := range dull {
			if dl {
				delete(e.d.st, p)
			}
		}
		e.d.single = entry.single
		k := e.d.key()
		if e.ret != nil {
			k += e.ret.fn.String() + strings.Join(e.ret.binds, ",")
		}
		if !exitSeen[k] {
			exitSeen[k] = true
			out = append(out, e)
		}
	}
	return out
}

// branch splits the state on whether there is a lock.
func (a *lockAnalysis) branch(d *lockDis, t *ssa.If, b *ssa.BasicBlock, push func(*ssa.BasicBlock, *lockDis)) {
	yes, no := b.Succs[0], b.Succs[1]
	cond := t.Cond
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, yes, no = u.X, no, yes
	}
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		x, y := bo.X, bo.Y
		if c, ok := x.(*ssa.Const); ok && c.IsNil() {
			x, y = y, x
		}
		if c, ok := y.(*ssa.Const); ok && c.IsNil() && isMutex(x.Type()) {
			if bo.Op == token.EQL {
				yes, no = no, yes
			}
			// yes: there is a lock
			p := a.path(d, x, 0)
			switch d.st[p] {
			case 0:
				n := d.clone()
				n.st[p] = 'U'
				push(yes, n)
				n = d.clone()
				n.st[p] = 'N'
				push(no, n)
			case 'N':
				push(no, d)
			default:
				push(yes, d)
			}
			return
		}
	}
	if a.singleCond(cond) {
		push(yes, d)
		n := d.clone()
		n.single = true
		push(no, n)
		return
	}
	push(yes, d)
	push(no, d)
}

// singleCond: the condition tells whether tasks are executed concurrently.
func (a *lockAnalysis) singleCond(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.Call:
		f := t.Call.StaticCallee()
		return f != nil && f.Object() != nil && funcID(f.Object().(*types.Func)) == "instance.IsConcurrentTaskExcutionEnabled"
	case *ssa.UnOp:
		if fa, ok := t.X.(*ssa.FieldAddr); ok {
			return fieldSel(fa.X.Type(), fa.Field) == "Instance.concurrentExec"
		}
	}
	return false
}

func (a *lockAnalysis) instr(d *lockDis, fn *ssa.Function, in ssa.Instruction, fresh map[string]bool) []*lockDis {
	switch t := in.(type) {
	case *ssa.Call:
		return a.call(d, fn, in, &t.Call)
	case *ssa.Defer:
		n := d.clone()
		n.defers = append(n.defers, t)
		return []*lockDis{n}
	case *ssa.RunDefers:
		cur := []*lockDis{d}
		for i := len(d.defers) - 1; i >= 0; i-- {
			var next []*lockDis
			for _, c := range cur {
				next = append(next, a.call(c, fn, d.defers[i], &d.defers[i].Call)...)
			}
			cur = next
		}
		for i := range cur {
			n := cur[i].clone()
			n.defers = nil
			cur[i] = n
		}
		return cur
	case *ssa.Go:
		return []*lockDis{d} // a root of its own
	case *ssa.Send:
		a.blocking(d, fn, in, "sends to a channel")
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			a.blocking(d, fn, in, "receives from a channel")
		} else if t.Op == token.MUL {
			a.access(d, fn, t, t.X, fresh)
		}
	case *ssa.Select:
		if t.Blocking {
			a.blocking(d, fn, in, "waits for a channel")
		}
	case *ssa.Store:
		a.access(d, fn, t, t.Addr, fresh)
	}
	return []*lockDis{d}
}

func (a *lockAnalysis) blocking(d *lockDis, fn *ssa.Function, in ssa.Instruction, what string) {
	if h := d.held(); len(h) > 0 {
		a.rep("C22", "blocking", fn, in.Pos(), "%s while %s is held", what, lockClass(h[0]))
	}
}

// access checks that the lock of a guarded variable is held.
func (a *lockAnalysis) access(d *lockDis, fn *ssa.Function, in ssa.Instruction, addr ssa.Value, fresh map[string]bool) {
	var want, what string
	write := false
	switch t := addr.(type) {
	case *ssa.FieldAddr:
		sel := fieldSel(t.X.Type(), t.Field)
		for _, g := range guards {
			if g.field != sel || g.conc && (!a.conc || d.single) {
				continue
			}
			base := a.path(d, t.X, 0)
			root, _ := splitPath(base)
			if strings.HasPrefix(root, "a") || fresh[root] {
				continue
			}
			want, what = base+"."+g.lock, sel
		}
	case *ssa.Global:
		name := rel(t.Pkg.Pkg.Path()) + "." + t.Name()
		if l, ok := globalGuards[name]; ok && !strings.HasPrefix(fn.Name(), "init") {
			want, what = l, name
		}
	}
	if want == "" {
		return
	}
	a.counts["guarded accesses"]++
	switch t := in.(type) {
	case *ssa.Store:
		write = true
	case *ssa.UnOp:
		// the value is only compared or it is a map that is changed
		for _, r := range *t.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				write = write || u.Map == ssa.Value(t)
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					write = true
				}
			}
		}
	}
	switch d.st[want] {
	case 'N', 'H':
		return
	case 'R':
		if !write {
			return
		}
	}
	how := "read"
	if write {
		how = "changed"
	}
	a.rep("C23", what, fn, in.Pos(), "%s is %s without holding %s", what, how, lockClass(want))
}

// analyse runs the analysis from every root.
func (a *lockAnalysis) analyse() {
	called, gos := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	none := &lockDis{st: map[string]byte{}, clos: map[ssa.Value]closVal{}}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Go:
					for _, g := range a.targets(none, &t.Call) {
						gos[g.fn] = true
					}
				case ssa.CallInstruction:
					for _, g := range a.targets(none, t.Common()) {
						if g.fn != f {
							called[g.fn] = true
						}
					}
				}
			}
		}
	}
	// the functions from which a lock or a guarded variable is reached
	a.locky = map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.FieldAddr:
					sel := fieldSel(t.X.Type(), t.Field)
					for _, g := range guards {
						if g.field == sel {
							a.locky[f] = true
						}
					}
					if pt, ok := t.Type().(*types.Pointer); ok && isMutex(pt.Elem()) {
						a.locky[f] = true
					}
				case *ssa.Send, *ssa.Select:
					a.locky[f] = true
				case *ssa.UnOp:
					if g, ok := t.X.(*ssa.Global); ok && globalGuards[rel(g.Pkg.Pkg.Path())+"."+g.Name()] != "" || t.Op == token.ARROW {
						a.locky[f] = true
					}
				case ssa.CallInstruction:
					if _, op := lockOp(t.Common()); op != "" {
						a.locky[f] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range a.p.Funcs {
			if a.locky[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						if mc, ok := in.(*ssa.MakeClosure); ok && a.locky[mc.Fn.(*ssa.Function)] && !a.locky[f] {
							a.locky[f], changed = true, true
						}
						continue
					}
					for _, g := range append(a.targets(none, c.Common()), a.callbacks(none, c.Common())...) {
						if a.locky[g.fn] && !a.locky[f] {
							a.locky[f], changed = true, true
						}
					}
				}
			}
		}
	}
	for _, conc := range []bool{false, true} {
		a.conc = conc
		for _, f := range a.p.Funcs {
			if !a.locky[f] || gos[f] != conc || !conc && (called[f] || f.Parent() != nil) {
				continue
			}
			a.root = f
			a.counts["roots"]++
			for _, e := range a.run(f, none.clone(), "") {
				for _, h := range e.d.held() {
					a.rep("C22", "not released", f, f.Pos(), "%s is still held at the end", lockClass(h))
				}
			}
		}
	}
	// the functions that are neither roots nor reached: called by someone we do not see
	for _, f := range a.p.Funcs {
		if a.locky[f] && !a.funcs[f] {
			a.conc = false
			a.counts["roots"]++
			a.run(f, none.clone(), "")
		}
	}
	a.cycles()
}

// cycles reports locks that are acquired in different orders.
func (a *lockAnalysis) cycles() {
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var visit func(x string) bool
		visit = func(x string) bool {
			if x == to {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for k := range a.edges {
				if k[0] == x && visit(k[1]) {
					return true
				}
			}
			return false
		}
		return visit(from)
	}
	var ks [][2]string
	for k := range a.edges {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0]+ks[i][1] < ks[j][0]+ks[j][1] })
	for _, k := range ks {
		if reach(k[1], k[0]) {
			e := a.edges[k]
			a.rep("C22", "lock order", e.fn, e.pos, "%s is acquired while %s is held, and elsewhere in the opposite order", e.to, e.from)
		}
	}
}

func lockCheck(c *Ctx) {
	a := newLockAnalysis(c.P)
	a.analyse()
	for _, r := range a.reports {
		r(c)
	}
	for f := range a.funcs {
		c.fns[fnName(f)] = true
	}
	if profOn {
		for k, e := range a.edges {
			println(k[0], "->", k[1], c.P.pos(e.pos))
		}
	}
	c.must("roots", a.counts["roots"], 5)
	c.must("contexts", a.counts["contexts"], 20)
	c.calls += a.counts["lock operations"]
	if c.Prop == "C22" {
		c.must("lock operations", a.counts["lock operations"], 30)
		c.must("lock classes", len(a.acq), 4)
		c.must("lock orders", len(a.edges), 2)
	} else {
		c.must("guarded accesses", a.counts["guarded accesses"], 30)
	}
}

func init() {
	register("C22", lockCheck, "interprocedural lock-state dataflow: release on every path, no re-acquisition, one order")
	register("C23", lockCheck, "guarded-by: every access to shared data holds its lock where tasks may run concurrently")
}
