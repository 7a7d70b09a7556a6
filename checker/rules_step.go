package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a recorded step holds (C27): after each notification the step being recorded holds the change, under its key.

type stepModel struct {
	p      *Program
	method string
	recv   *Term
	stepF  string // the tracker's field that holds the step
	modeF  string
	mode   string
	params []*Term
	fresh  map[string]bool
}

// the fields each notification may write in an entry that exists already.
var stepWrites = map[string]string{
	"SetStatus": "Flow.Status", "AttrChange": "Flow.Attrs",
	"TaskAdded": "Flow.Tasks Flow.TaskId Flow.FlowURI Task.Status Task.ChgType Task.Input", "TaskUpdated": "Flow.Tasks Flow.TaskId Flow.FlowURI Task.Status Task.ChgType Task.Input",
	"TaskRemoved": "Flow.Tasks Flow.TaskId Flow.FlowURI Task.Status Task.ChgType Task.Input",
	"LinkAdded":   "Flow.Links Link.Status Link.ChgType Link.From Link.To", "LinkUpdated": "Flow.Links Link.Status Link.ChgType Link.From Link.To", "LinkRemoved": "Flow.Links Link.Status Link.ChgType Link.From Link.To",
	"WorkItemAdded": "Step.QueueChanges Queue.ChgType Queue.TaskId Queue.SubflowId", "WorkItemRemoved": "Step.QueueChanges Queue.ChgType Queue.TaskId Queue.SubflowId",
	"FlowDone": "Flow.FlowURI Flow.Status Flow.ReturnData Flow.SubflowId", "SubflowDone": "Flow.FlowURI Flow.Status Flow.ReturnData Flow.SubflowId",
	"FlowCreated": "*", "SubflowCreated": "*", "ExtractStep": "",
}

func (m *stepModel) ld(x *Exec, s *State, o *Term, f string) *Term {
	return x.load(s, fld(o, f), types.Typ[types.Int])
}

func (m *stepModel) step0(s *State) *Term { return s.get("step0") }

// ps are the arguments of the notification.
func (m *stepModel) ps(s *State) []*Term { return s.get("params").args }

func changeField(f string) bool {
	for _, p := range []string{"Flow.", "Task.", "Link.", "Queue.", "Step."} {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	return false
}

// subflowOf is the id of the subflow a notification of a task is about.
func (m *stepModel) subflowOf(x *Exec, s *State) *Term {
	ps := m.ps(s)
	switch m.method {
	case "TaskAdded", "TaskUpdated":
		return m.ld(x, s, m.ld(x, s, ps[0], "TaskInst.flowInst"), "Instance.subflowId")
	case "TaskRemoved":
		return ps[0]
	}
	return nil
}

func (m *stepModel) hooks() Hooks {
	return Hooks{
		Enum: func(t types.Type) []int64 { return nil },
		Immutable: func(f string) bool {
			return strings.HasPrefix(f, "$") || strings.HasPrefix(f, "Instance.") || strings.HasPrefix(f, "IndependentInstance.") || strings.HasPrefix(f, "TaskInst.") || strings.HasPrefix(f, "LinkInst.") || strings.HasPrefix(f, "WorkItem.")
		},
		Ignore: func(f string) bool { return f == "SimpleChangeTracker.lock" },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if a.kind != KAddr || s.heap[a] != nil {
				return nil
			}
			switch a.op {
			case "IndependentInstance.Instance":
				v := nonNilResult(x, s, t, a.op)
				s.heap[a] = v
				return v
			case "Step.FlowChanges":
				if a.args[0] == m.step0(s) {
					s.heap[a] = tm.named(KObj, "flow changes", t)
					return s.heap[a]
				}
			case "Flow.Attrs", "Flow.Tasks", "Flow.Links", "Step.QueueChanges":
				// maps of different kinds are different
				v := x.fresh(a.op, t)
				for b, w := range s.heap {
					if b.kind == KAddr && b.op != a.op && changeField(b.op) && w.typ != nil {
						if _, ok := w.typ.Underlying().(*types.Map); ok {
							s.neq[ordered(v, w)] = true
						}
					}
				}
				s.heap[a] = v
				return v
			}
			return nil
		},
		Store: func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
			if a.kind != KAddr || !changeField(a.op) || isAlloc(x, a.args[0]) {
				return true
			}
			old := x.load(s, a, types.Typ[types.Int])
			if s.eq(old, v) == Yes {
				return true
			}
			w := stepWrites[m.method]
			ok := w == "*"
			for _, f := range strings.Fields(w) {
				ok = ok || f == a.op
			}
			if !ok {
				x.report(s, a.op+" in "+m.method, pos, "%s overwrites %s of the step, which another change recorded", m.method, a.op)
				return true
			}
			switch a.op {
			case "Flow.TaskId":
				// the change that created a subflow names its host
				sub := m.subflowOf(x, s)
				if nf := s.at(a.args[0], "Flow.NewFlow"); (nf == nil || s.decide(nf) != No) && (sub == nil || s.eq(sub, tZero) != Yes) && s.eq(old, mkStr("")) != Yes {
					x.report(s, a.op+" in "+m.method, pos, "%s replaces the task that hosts the subflow in the change that created it", m.method)
				}
			case "Flow.Attrs", "Flow.Tasks", "Flow.Links", "Step.FlowChanges", "Step.QueueChanges":
				if s.eq(old, tNil) != Yes {
					x.report(s, a.op+" replaced in "+m.method, pos, "%s replaces %s, so earlier changes of the step may be lost", m.method, a.op)
				}
			case "Flow.SubflowId":
				x.report(s, a.op+" in "+m.method, pos, "%s changes the id of the flow of earlier changes", m.method)
			}
			return true
		},
		MapUpdate: func(x *Exec, s *State, mp, k, v *Term, pos token.Pos) {
			if isAlloc(x, mp) {
				return
			}
			if v == nil {
				x.report(s, "deletion in "+m.method, pos, "%s removes an earlier change from the step", m.method)
				return
			}
			if mp == s.at(m.step0(s), "Step.FlowChanges") {
				old, has := s.heap[mkKey(mp, k)], s.heap[mkHas(mp, k)]
				fresh := has != nil && s.decide(has) == No || old != nil && s.eq(old, tNil) == Yes
				if !fresh && stepWrites[m.method] != "*" && !(old != nil && s.eq(old, v) == Yes) {
					x.report(s, "entry replaced in "+m.method, pos, "%s replaces the changes of the flow recorded earlier in the step", m.method)
				}
				if fresh {
					s.regs["newEntry"] = k
				}
			}
		},
		Call:      m.call,
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MayPanic:  func(c *Call) bool { return false },
		Return:    m.ret,
		NilDeref:  nil,
	}
}

func (m *stepModel) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	switch c.ID {
	case "util.DeepCopy", "util.DeepCopyMap":
		return ActModel, []Outcome{{Res: mkOp("copy", c.Args[0])}}
	case "instance.Instance.GetReturnData":
		return ActModel, []Outcome{{Res: mkTuple(mkOp("returnData", c.Recv), mkOp("returnError", c.Recv))}}
	}
	if strings.HasPrefix(c.ID, "definition.") && c.Recv != nil && len(c.Args) == 0 && c.Sig.Results().Len() == 1 {
		return ActModel, []Outcome{{Res: mkOp("get:"+c.ID, c.Recv)}}
	}
	if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
		return ActInline, nil
	}
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	return ActDefault, nil
}

// entry is the entry of a map of changes for a key.
func (m *stepModel) entry(s *State, mp, k *Term) *Term {
	if mp == nil {
		return nil
	}
	if v := s.heap[mkKey(mp, k)]; v != nil && s.heap[mkHas(mp, k)] != tFalse {
		return v
	}
	for a, v := range s.heap {
		if a.kind == KAddr && a.op == "{}" && a.args[0] == mp && s.eq(a.args[1], k) == Yes {
			return v
		}
	}
	return nil
}

func (m *stepModel) ret(x *Exec, s *State, res []*Term, pos token.Pos) {
	x.count("paths")
	bad := func(what, format string, args ...interface{}) {
		x.report(s, m.method+": "+what, token.NoPos, format, args...)
	}
	S := m.step0(s)
	if m.method == "ExtractStep" {
		m.extracted(x, s, res, bad)
		return
	}
	if cur := s.at(m.recv, m.stepF); cur == nil || s.eq(cur, S) != Yes {
		bad("step", "%s replaces the step being recorded", m.method)
		return
	}
	changed := m.method
	is := func(o *Term, f string, want *Term, what string) {
		if o == nil {
			return
		}
		got := s.at(o, f)
		if got == nil || s.eq(got, want) != Yes {
			bad(f, "after %s the step doesn't hold %s", changed, what)
		}
	}
	isCopy := func(got, v *Term, what string) {
		switch {
		case got == nil || s.eq(got, tNil) == Yes && s.eq(v, tNil) != Yes:
			bad(what, "after %s the step doesn't hold %s", changed, what)
		case got == mkOp("copy", v):
		case s.eq(got, v) == Yes && s.eq(v, tNil) != Yes:
			bad(what+" shared", "the step holds %s itself, not a copy: later changes show up in what was recorded", what)
		case got.kind == KOp && got.op == "copy" || got.kind == KStr || got.kind == KInt:
			bad(what, "after %s the step holds something else than %s", changed, what)
		}
	}
	debug := func() bool {
		if m.modeF == "" {
			return true
		}
		return s.eq(m.ld(x, s, m.recv, m.modeF), mkStr(m.mode)) != No
	}
	flow := func(k *Term) *Term {
		fc := m.entry(s, s.at(S, "Step.FlowChanges"), k)
		if fc == nil || s.eq(fc, tNil) == Yes {
			bad("flow", "after %s the step holds nothing under the id of the flow", changed)
			return nil
		}
		if ne := s.regs["newEntry"]; ne != nil {
			is(fc, "Flow.SubflowId", k, "the id of the flow")
		}
		return fc
	}
	sub := func(fc *Term, f string, k *Term, what string) *Term {
		if fc == nil {
			return nil
		}
		e := m.entry(s, s.at(fc, f), k)
		if e == nil || s.eq(e, tNil) == Yes {
			bad(what, "after %s the step holds nothing under the id of the %s", changed, what)
			return nil
		}
		return e
	}
	chg := func(o *Term, f, name string) {
		if o == nil {
			return
		}
		got, want := s.at(o, f), mkInt(m.p.constVal("state/change", name))
		if got == nil && name == "Add" || name == "Add" && !isAlloc(x, o) {
			return // an entry for an earlier change is kept
		}
		if got == nil || s.eq(got, want) != Yes {
			bad(f, "after %s the step doesn't say that it is the kind of change it is", changed)
		}
	}
	P := m.ps(s)
	switch m.method {
	case "SetStatus":
		is(flow(P[0]), "Flow.Status", P[1], "the status")
	case "AttrChange":
		if fc := flow(P[0]); fc != nil {
			isCopy(m.entry(s, s.at(fc, "Flow.Attrs"), P[1]), P[2], "the value of the attribute")
		}
	case "FlowCreated", "SubflowCreated":
		I := P[0]
		k := tZero
		if m.method == "FlowCreated" {
			I = m.ld(x, s, P[0], "IndependentInstance.Instance")
		} else {
			k = m.ld(x, s, I, "Instance.subflowId")
		}
		delete(s.regs, "newEntry")
		fc := flow(k)
		is(fc, "Flow.Status", m.ld(x, s, I, "Instance.status"), "the status of the new flow")
		is(fc, "Flow.FlowURI", m.ld(x, s, I, "Instance.flowURI"), "the uri of the new flow")
		is(fc, "Flow.NewFlow", tTrue, "that the flow is new")
		is(fc, "Flow.SubflowId", k, "the id of the flow")
		if m.method == "SubflowCreated" && fc != nil {
			is(fc, "Flow.TaskId", m.ld(x, s, m.ld(x, s, I, "Instance.host"), "TaskInst.taskID"), "the task that hosts the subflow")
		}
	case "FlowDone", "SubflowDone":
		if !debug() {
			return
		}
		I := P[0]
		if m.method == "FlowDone" {
			I = m.ld(x, s, P[0], "IndependentInstance.Instance")
		}
		fc := flow(m.ld(x, s, I, "Instance.subflowId"))
		is(fc, "Flow.Status", m.ld(x, s, I, "Instance.status"), "the status of the flow")
		if fc != nil {
			isCopy(s.at(fc, "Flow.ReturnData"), mkOp("returnData", I), "the data the flow returned")
		}
	case "TaskAdded", "TaskUpdated":
		I := m.ld(x, s, P[0], "TaskInst.flowInst")
		tc := sub(flow(m.ld(x, s, I, "Instance.subflowId")), "Flow.Tasks", m.ld(x, s, P[0], "TaskInst.taskID"), "task")
		is(tc, "Task.Status", m.ld(x, s, P[0], "TaskInst.status"), "the status of the task")
		if m.method == "TaskUpdated" {
			chg(tc, "Task.ChgType", "Update")
			if tc != nil && debug() {
				isCopy(s.at(tc, "Task.Input"), m.ld(x, s, P[0], "TaskInst.inputs"), "the inputs of the task")
			}
		} else {
			chg(tc, "Task.ChgType", "Add")
		}
	case "TaskRemoved":
		chg(sub(flow(P[0]), "Flow.Tasks", P[1], "task"), "Task.ChgType", "Delete")
	case "LinkAdded", "LinkUpdated":
		I := m.ld(x, s, P[0], "LinkInst.flowInst")
		lc := sub(flow(m.ld(x, s, I, "Instance.subflowId")), "Flow.Links", m.ld(x, s, P[0], "LinkInst.id"), "link")
		is(lc, "Link.Status", m.ld(x, s, P[0], "LinkInst.status"), "the status of the link")
		if m.method == "LinkUpdated" {
			chg(lc, "Link.ChgType", "Update")
		} else {
			chg(lc, "Link.ChgType", "Add")
		}
	case "LinkRemoved":
		chg(sub(flow(P[0]), "Flow.Links", P[1], "link"), "Link.ChgType", "Delete")
	case "WorkItemAdded", "WorkItemRemoved":
		qc := sub(S, "Step.QueueChanges", m.ld(x, s, P[0], "WorkItem.ID"), "work item")
		is(qc, "Queue.TaskId", m.ld(x, s, P[0], "WorkItem.TaskID"), "the task of the work item")
		is(qc, "Queue.SubflowId", m.ld(x, s, P[0], "WorkItem.SubFlowID"), "the flow of the work item")
		if m.method == "WorkItemRemoved" {
			chg(qc, "Queue.ChgType", "Delete")
		} else {
			chg(qc, "Queue.ChgType", "Add")
		}
	}
}

// extracted: the step is handed out; if it is handed out for good, the next one is new and empty.
func (m *stepModel) extracted(x *Exec, s *State, res []*Term, bad func(what, format string, args ...interface{})) {
	S := m.step0(s)
	if len(res) != 1 || s.eq(res[0], S) != Yes {
		bad("result", "something else than the step being recorded is handed out")
		return
	}
	cur := s.at(m.recv, m.stepF)
	switch s.decide(m.ps(s)[0]) {
	case No:
		if cur == nil || s.eq(cur, S) != Yes {
			bad("kept", "the step is replaced although it is not to be reset: changes of it are recorded in no step")
		}
		return
	case Maybe:
		if cur == nil || s.eq(cur, S) == Maybe {
			return
		}
	}
	if cur == nil || !isAlloc(x, cur) {
		bad("reset", "a step that was handed out for good is still recorded to")
		return
	}
	for _, f := range []string{"Step.FlowChanges", "Step.QueueChanges"} {
		mp := s.at(cur, f)
		if mp == nil || s.eq(mp, tNil) == Yes {
			if f == "Step.FlowChanges" {
				bad(f, "the next step has no place for the changes of flows")
			}
			continue
		}
		if !isAlloc(x, mp) {
			bad(f, "the next step doesn't start empty, its changes are those of the one handed out")
		}
		for a := range s.heap {
			if a.kind == KAddr && a.op == "{}" && a.args[0] == mp {
				bad(f, "the next step doesn't start empty")
			}
		}
	}
	id := s.at(cur, "Step.Id")
	ctr := s.regs["ctr0"]
	if id == nil || ctr == nil || s.less(ctr, id) != Yes {
		bad("Step.Id", "the next step isn't known to have a higher number")
	}
	if f := s.at(cur, "Step.FlowId"); f != nil && f.kind == KStr {
		bad("Step.FlowId", "the next step doesn't name its flow")
	}
}

// noopMethod: the function has no effect and returns nothing but nil.
func noopMethod(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				for _, r := range in.Results {
					if c, ok := r.(*ssa.Const); !ok || !c.IsNil() {
						return false
					}
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

func stepCheck(c *Ctx) {
	p := c.P
	iface := p.Named("instance", "ChangeTracker")
	it := iface.Underlying().(*types.Interface)
	trackers, tot := 0, map[string]int{}
	for _, pk := range p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), it) {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			ext := p.methodOf(types.NewPointer(tn.Type()), "ExtractStep")
			if ext == nil || noopMethod(ext) {
				continue
			}
			m0 := stepModel{p: p}
			ctrF := []string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				sel := tn.Name() + "." + f.Name()
				switch {
				case hasPtrTo(f.Type(), "Step"):
					m0.stepF = sel
				case strings.HasSuffix(f.Type().String(), "state.RecordingMode"):
					m0.modeF = sel
				default:
					if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						ctrF = append(ctrF, sel)
					}
				}
			}
			if m0.stepF == "" {
				anchorFail("the step a change tracker (%s) records to is not found", tn.Name())
			}
			m0.mode = p.strVal("state", "RecordingModeDebugger")
			trackers++
			for i := 0; i < it.NumMethods(); i++ {
				name := it.Method(i).Name()
				if _, ok := stepWrites[name]; !ok {
					continue
				}
				fn := p.methodOf(types.NewPointer(tn.Type()), name)
				if fn == nil || len(fn.Blocks) == 0 {
					continue
				}
				m := m0
				m.method = name
				x := newExec(p, "C27", m.hooks())
				s := newState()
				var args []*Term
				for j, prm := range fn.Params {
					a := tm.named(KSym, "C27:"+name+":"+prm.Name(), prm.Type())
					if _, ok := prm.Type().Underlying().(*types.Pointer); ok {
						s.neq[ordered(a, tNil)] = true
					}
					if j == 0 {
						m.recv = a
					} else {
						m.params = append(m.params, a)
					}
					args = append(args, a)
				}
				S := tm.named(KSym, "the step", types.NewPointer(p.Named("state", "Step")))
				s.neq[ordered(S, tNil)] = true
				s.regs["step0"] = S
				s.regs["params"] = mkTuple(m.params...)
				if name == "FlowDone" {
					// the main flow is the one with the id 0
					I := tm.named(KSym, "the main flow", nil)
					s.neq[ordered(I, tNil)] = true
					s.heap[fld(m.params[0], "IndependentInstance.Instance")] = I
					s.heap[fld(I, "Instance.subflowId")] = tZero
				}
				s.heap[fld(m.recv, m.stepF)] = S
				for _, f := range ctrF {
					ctr := tm.named(KSym, "number of the step", types.Typ[types.Int])
					s.regs["ctr0"] = ctr
					s.heap[fld(m.recv, f)] = ctr
				}
				x.roots = append(args, S)
				x.Run(fn, s, args)
				for k, n := range x.counts {
					tot[k] += n
				}
				tot["methods"]++
				c.absorb(x, nil)
			}
		}
	}
	c.must("recording trackers", trackers, 1)
	c.must("notifications explored", tot["methods"], 15)
	c.must("paths", tot["paths"], 15)
}

func init() {
	register("C27", stepCheck, "symbolic effect of every method of a recording change tracker on the step it records to")
}
