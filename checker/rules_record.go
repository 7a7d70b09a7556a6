package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Every change of the state of a flow instance is recorded with the change tracker (C26): a path that changes recorded
// state owes the tracker the matching notification, a notification of an addition or removal owes the change.

const trackerID = "instance.ChangeTracker."

type recordModel struct {
	p      *Program
	inline map[*ssa.Function]bool
	open   map[*ssa.Function]bool // a path of the function ends with something owed
	up     map[*ssa.Function]bool // its callers may settle it
	exempt map[*ssa.Function]bool
	root   *ssa.Function
}

// recorded maps and the notifications of an insertion and a removal.
var recordedMaps = map[string][2]string{
	"Instance.taskInsts":           {"TaskAdded", "TaskRemoved"},
	"Instance.linkInsts":           {"LinkAdded", "LinkRemoved"},
	"Instance.attrs":               {"AttrChange", ""},
	"IndependentInstance.subflows": {"SubflowCreated", ""},
}

var recordedFields = map[string]string{
	"Instance.status": "SetStatus",
	"TaskInst.status": "TaskUpdated",
	"LinkInst.status": "LinkUpdated",
}

// touches: the instruction changes recorded state or notifies the tracker.
func recordSite(in ssa.Instruction) bool {
	field := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
				return fieldSel(pt.Elem(), fa.Field)
			}
		}
		return ""
	}
	switch in := in.(type) {
	case *ssa.Store:
		f := field(in.Addr)
		_, m := recordedMaps[f]
		return recordedFields[f] != "" || m
	case *ssa.MapUpdate:
		return recordedMapType(in.Map.Type())
	case ssa.CallInstruction:
		cc := in.Common()
		if cc.IsInvoke() {
			return strings.HasPrefix(funcID(cc.Method), trackerID)
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return (b.Name() == "delete" || b.Name() == "clear") && recordedMapType(cc.Args[0].Type())
		}
		if f := cc.StaticCallee(); f != nil {
			if o, ok := f.Object().(*types.Func); ok {
				switch funcID(o) {
				case "core/support.SyncQueue.Push", "core/support.SyncQueue.Pop":
					return true
				}
			}
		}
	}
	return false
}

func recordedMapType(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	return hasPtrTo(m.Elem(), "TaskInst") || hasPtrTo(m.Elem(), "LinkInst") || hasPtrTo(m.Elem(), "Instance") || types.Identical(t, types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)))
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func (m *recordModel) debts(s *State) []*Term { return s.get("ob").args }

func (m *recordModel) setDebts(s *State, ds []*Term) {
	if len(ds) == 0 {
		delete(s.regs, "ob")
		return
	}
	s.regs["ob"] = mkTuple(ds...)
}

// settle cancels an entry that matches; otherwise the counterpart is entered.
func (m *recordModel) settle(s *State, want, enter string, args []*Term, pos string, open bool) bool {
	ds := m.debts(s)
	for i, d := range ds {
		if d.kind != KOp || d.op != want || len(d.args) != len(args)+1 {
			continue
		}
		ok := true
		for j, a := range args {
			if s.eq(a, d.args[j]) != Yes {
				ok = false
			}
		}
		if ok {
			m.setDebts(s, append(append([]*Term(nil), ds[:i]...), ds[i+1:]...))
			return true
		}
	}
	if open {
		for _, d := range ds {
			if d.kind == KOp && d.op == enter && d.args[len(d.args)-1].op == pos {
				return false // already open for an earlier one
			}
		}
		m.setDebts(s, append(append([]*Term(nil), ds...), mkOp(enter, append(append([]*Term(nil), args...), mkStr(pos))...)))
	}
	return false
}

func (m *recordModel) fieldOf(x *Exec, s *State, o *Term, f string, t types.Type) *Term {
	return x.load(s, fld(o, f), t)
}

// changed: recorded state was changed.
func (m *recordModel) changed(x *Exec, s *State, kind string, args []*Term, pos token.Pos) {
	m.settle(s, "told:"+kind, "owed:"+kind, args, m.where(x, s, pos), true)
}

// told: the tracker was notified.
func (m *recordModel) told(x *Exec, s *State, kind string, args []*Term, pos token.Pos, reverse bool) {
	m.settle(s, "owed:"+kind, "told:"+kind, args, m.where(x, s, pos), reverse)
}

func (m *recordModel) where(x *Exec, s *State, pos token.Pos) string {
	if !pos.IsValid() {
		pos = x.curPos
	}
	return fnName(outermost(s.top().fn)) + " " + m.p.pos(pos)
}

func isAlloc(x *Exec, t *Term) bool {
	b := x.base(t)
	return b.kind == KObj && b.i == 1
}

// ownerOf finds the field that holds the map.
func (m *recordModel) ownerOf(x *Exec, s *State, mp *Term) (field string, owner *Term) {
	var best *Term
	for a, v := range s.heap {
		if v != mp || a.kind != KAddr || len(a.args) != 1 {
			continue
		}
		if _, ok := recordedMaps[a.op]; ok && (best == nil || a.id < best.id) {
			best = a
		}
	}
	if best == nil {
		return "", nil
	}
	return best.op, best.args[0]
}

func (m *recordModel) mapUpdate(x *Exec, s *State, mp, k, v *Term, pos token.Pos) {
	f, owner := m.ownerOf(x, s, mp)
	if f == "" {
		return
	}
	sub := m.fieldOf(x, s, owner, "Instance.subflowId", types.Typ[types.Int])
	switch {
	case f == "Instance.attrs":
		if v == nil || s.eq(v, tNil) == Yes || isAlloc(x, owner) {
			return
		}
		x.count("attributes changed")
		m.changed(x, s, "AttrChange", []*Term{sub, k, v}, pos)
	case v == nil:
		if recordedMaps[f][1] == "" || isAlloc(x, owner) {
			return
		}
		x.count("removals")
		m.changed(x, s, recordedMaps[f][1], []*Term{sub, k}, pos)
	default:
		if isAlloc(x, owner) {
			return
		}
		x.count("insertions")
		m.changed(x, s, recordedMaps[f][0], []*Term{v}, pos)
	}
}

// emptied: all elements of the map of an instance are dropped.
func (m *recordModel) emptied(x *Exec, s *State, f string, owner *Term, old *Term, pos token.Pos) {
	r := recordedMaps[f][1]
	if r == "" || isAlloc(x, owner) || old == nil || isAlloc(x, old) {
		return
	}
	x.count("maps emptied")
	s.heap[fld(old, "$recorded")] = tTrue
	sub := m.fieldOf(x, s, owner, "Instance.subflowId", types.Typ[types.Int])
	m.changed(x, s, r, []*Term{sub, mkOp("keyof", old)}, pos)
}

func (m *recordModel) store(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
	if a.kind != KAddr || len(a.args) != 1 {
		return true
	}
	o := a.args[0]
	if k := recordedFields[a.op]; k != "" && !isAlloc(x, o) {
		x.count("status changes")
		if k == "SetStatus" {
			m.changed(x, s, k, []*Term{m.fieldOf(x, s, o, "Instance.subflowId", types.Typ[types.Int]), v}, pos)
		} else {
			// the notification reads the status: it has to come after the change
			m.settle(s, "", "owed:"+k, []*Term{o}, m.where(x, s, pos), true)
		}
	}
	if r, ok := recordedMaps[a.op]; ok && r[1] != "" {
		m.emptied(x, s, a.op, o, m.fieldOf(x, s, o, a.op, types.NewMap(types.Typ[types.String], types.Typ[types.Int])), pos)
	}
	return true
}

func (m *recordModel) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	pos := c.Instr.Pos()
	if strings.HasPrefix(c.ID, trackerID) {
		x.count("notifications")
		k := c.name()
		switch k {
		case "SetStatus", "AttrChange":
			m.told(x, s, k, c.Args, pos, true)
		case "TaskRemoved", "LinkRemoved":
			// for an element of a map that is visited the map may be dropped as a whole
			m.told(x, s, k, c.Args, pos, !(len(c.Args) == 2 && s.at(c.Args[1], "$other") == tTrue))
		case "TaskAdded", "LinkAdded", "SubflowCreated", "WorkItemAdded", "WorkItemRemoved":
			m.told(x, s, k, c.Args, pos, true)
		case "TaskUpdated", "LinkUpdated":
			m.told(x, s, k, c.Args, pos, false)
		}
		return ActPure, nil
	}
	switch c.ID {
	case "core/support.SyncQueue.Push":
		x.count("work items queued")
		item := c.Args[0]
		if !m.settle(s, "owed:WorkItemRemoved", "", []*Term{item}, "", false) {
			m.changed(x, s, "WorkItemAdded", []*Term{item}, pos)
		}
		return ActPure, nil
	case "core/support.SyncQueue.Pop":
		x.count("work items taken")
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				m.end(x, n, nil)
				item := nonNilResult(x, n, types.NewPointer(m.p.Named("instance", "WorkItem")), "item")
				m.changed(x, n, "WorkItemRemoved", []*Term{item}, pos)
				n.regs["$res"] = mkTuple(item, tTrue)
				return true
			}},
			{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(tNil, tFalse); return true }},
		}
	case "util.DeepCopy":
		return ActModel, []Outcome{{Res: c.Args[0]}}
	}
	if c.Builtin == "clear" && len(c.Args) == 1 {
		if f, o := m.ownerOf(x, s, c.Args[0]); f != "" {
			m.emptied(x, s, f, o, c.Args[0], pos)
		}
		return ActPure, nil
	}
	if c.Builtin != "" {
		return ActDefault, nil
	}
	// accessors of immutable things
	if strings.HasPrefix(c.ID, "definition.") || strings.HasPrefix(c.ID, "core/data.TypedValue.") {
		if c.Recv != nil && len(c.Args) == 0 && c.Sig.Results().Len() == 1 {
			return ActModel, []Outcome{{Res: mkOp("get:"+c.ID, c.Recv)}}
		}
		return ActPure, nil
	}
	if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
		if m.inline[c.Fn] || c.Fn.Parent() != nil || len(c.Fn.Blocks) == 1 && len(c.Fn.Blocks[0].Instrs) < 12 {
			return ActInline, nil
		}
	}
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	for a := range s.heap {
		if a.kind == KAddr && recordedFields[a.op] != "" {
			delete(s.heap, a)
		}
	}
	return ActPure, nil
}

func (m *recordModel) hooks() Hooks {
	imm := immutableHook("IndependentInstance.Instance", "Instance.subflowId", "Instance.master", "TaskInst.flowInst", "TaskInst.taskID", "TaskInst.task", "LinkInst.id", "LinkInst.link", "LinkInst.flowInst",
		"WorkItem.taskInst", "WorkItem.ID", "WorkItem.TaskID", "WorkItem.SubFlowID")
	return Hooks{
		Enum:      func(t types.Type) []int64 { return nil },
		Immutable: imm,
		Ignore: func(f string) bool {
			switch f {
			case "Instance.lock", "Instance.logger", "TaskInst.logger", "Instance.tracingCtx", "IndependentInstance.changeTracker":
				return true
			}
			return false
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if t == nil {
				return nil
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Coll: func(s *State, c *Term) (k, e []*Term, others, ok bool) {
			if s.at(c, "$recorded") == tTrue {
				return []*Term{mkOp("keyof", c)}, []*Term{mkOp("elemof", c)}, true, true
			}
			for a, v := range s.heap {
				if v == c && a.kind == KAddr && (a.op == "Instance.taskInsts" || a.op == "Instance.linkInsts") {
					return []*Term{mkOp("keyof", c)}, []*Term{mkOp("elemof", c)}, true, true
				}
			}
			return nil, nil, false, false
		},
		NewElem: func(x *Exec, s *State, c, k, v *Term) {
			if k != nil {
				s.neq[ordered(k, mkOp("keyof", c))] = true
				s.heap[fld(k, "$other")] = tTrue
			}
		},
		Store:     m.store,
		MapUpdate: m.mapUpdate,
		Call:      m.call,
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MayPanic:  func(c *Call) bool { return false },
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if res == nil {
				res = []*Term{}
			}
			m.end(x, s, res)
		},
	}
}

var recordNames = map[string]string{
	"SetStatus": "the change of the status of a flow instance", "TaskUpdated": "the change of the status of a task", "LinkUpdated": "the change of the status of a link",
	"AttrChange": "the change of an attribute", "TaskAdded": "the insertion of a task instance", "TaskRemoved": "the removal of a task instance", "LinkAdded": "the insertion of a link instance",
	"LinkRemoved": "the removal of a link instance", "SubflowCreated": "the insertion of a subflow", "WorkItemAdded": "the insertion of a work item", "WorkItemRemoved": "the removal of a work item",
}

func (m *recordModel) end(x *Exec, s *State, res []*Term) {
	x.count("paths")
	failed := false
	if n := len(res); n > 0 && isErrType(m.root.Signature.Results().At(n-1).Type()) && s.eq(res[n-1], tNil) == No {
		failed = true
	}
	for _, d := range m.debts(s) {
		kind := d.op[strings.Index(d.op, ":")+1:]
		if res == nil && kind != "WorkItemRemoved" {
			continue // the next work item is taken
		}
		if kind == "WorkItemRemoved" && strings.HasPrefix(d.op, "owed:") {
			// an item that is dropped because the flow fails; an item without a task
			if t := s.at(d.args[0], "WorkItem.taskInst"); failed || t != nil && s.eq(t, tNil) == Yes {
				continue
			}
		}
		m.open[m.root] = true
		at := d.args[len(d.args)-1].op
		i := strings.LastIndex(at, " ")
		if strings.HasPrefix(d.op, "owed:") {
			x.report(s, kind+" in "+at[:i], token.NoPos, "%s at %s is not recorded (a path through %s)", recordNames[kind], at[i+1:], fnName(m.root))
		} else {
			x.report(s, kind+" recorded in "+at[:i], token.NoPos, "%s is recorded at %s although it does not happen (a path through %s)", recordNames[kind], at[i+1:], fnName(m.root))
		}
	}
}

func recordCheck(c *Ctx) {
	p := c.P
	m := &recordModel{p: p, inline: map[*ssa.Function]bool{}, open: map[*ssa.Function]bool{}, exempt: map[*ssa.Function]bool{}}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	roots := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fnPkg(fn).Path() != flowMod+"/instance" || fn.Synthetic != "" {
			continue
		}
		top := outermost(fn)
		if r := top.Signature.Recv(); top.Name() == "UnmarshalJSON" || r != nil && p.trackerImpl(r.Type()) {
			m.exempt[top] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if recordSite(in) {
					roots[top] = true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && InRepo(f) {
						t := outermost(f)
						if callers[t] == nil {
							callers[t] = map[*ssa.Function]bool{}
						}
						if t != top {
							callers[t][top] = true
						}
					}
				}
			}
		}
	}
	// helpers of exempted functions only
	valued := usedAsValue(p)
	for changed := true; changed; {
		changed = false
		for f, cs := range callers {
			if m.exempt[f] || len(cs) == 0 || token.IsExported(f.Name()) || valued[f] || fnPkg(f).Path() != flowMod+"/instance" {
				continue
			}
			all := true
			for g := range cs {
				all = all && m.exempt[g]
			}
			if all {
				m.exempt[f], changed = true, true
			}
		}
	}
	for f := range roots {
		if m.exempt[f] {
			delete(roots, f)
		}
	}
	tot := map[string]int{}
	run := func(fn *ssa.Function) *Exec {
		m.root = fn
		if profOn {
			println("record root", fnName(fn))
		}
		x := newExec(p, "C26", m.hooks())
		x.h.RecLimit = 1
		s := newState()
		var args []*Term
		for _, prm := range fn.Params {
			var a *Term
			if _, ok := prm.Type().Underlying().(*types.Pointer); ok {
				a = tm.named(KSym, "param:"+prm.Name(), prm.Type())
				s.neq[ordered(a, tNil)] = true
			}
			args = append(args, a)
		}
		x.Run(fn, s, args)
		x.seen = nil
		if profOn {
			println("record", fnName(fn), x.states)
		}
		return x
	}
	// every function on its own; what an unexported one leaves open may be settled by its callers, which are
	// explored with it in line
	level := map[*ssa.Function]int{}
	results := map[*ssa.Function]*Exec{}
	todo := roots
	for len(todo) > 0 {
		var work []*ssa.Function
		for f := range todo {
			work = append(work, f)
		}
		sort.Slice(work, func(i, j int) bool { return fnName(work[i]) < fnName(work[j]) })
		todo = map[*ssa.Function]bool{}
		for _, f := range work {
			m.open[f] = false
			x := run(f)
			results[f] = x
			if !m.open[f] || token.IsExported(f.Name()) || level[f] >= 2 || m.inline[f] {
				continue
			}
			n := 0
			for g := range callers[f] {
				if m.exempt[g] {
					continue
				}
				n++
				todo[g] = true
				level[g] = max(level[g], level[f]+1)
			}
			m.inline[f] = n > 0
		}
	}
	var fns []*ssa.Function
	for f := range results {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, f := range fns {
		x := results[f]
		for k, n := range x.counts {
			tot[k] += n
		}
		if m.inline[f] {
			x.findings = nil // decided where it is called
		}
		c.absorb(x, nil)
	}
	for _, k := range []string{"status changes", "attributes changed", "insertions", "removals", "work items queued", "work items taken", "notifications"} {
		c.must(k, tot[k], 1)
	}
}

// usedAsValue are the functions that are used other than by calling them.
func usedAsValue(p *Program) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && (ci == nil || op != &ci.Common().Value) {
						r[f] = true
					}
				}
			}
		}
	}
	return r
}

func (p *Program) trackerImpl(t types.Type) bool {
	it, ok := p.Named("instance", "ChangeTracker").Underlying().(*types.Interface)
	return ok && (types.Implements(t, it) || types.Implements(types.NewPointer(t), it))
}

func init() {
	register("C26", recordCheck, "every path that changes recorded state notifies the change tracker accordingly, and the reverse")
	_ = fmt.Sprint
}
