package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The monitor of the task engine: it follows one work item from the queue to the end of its processing.
// The interfaces of the flow model (TaskBehavior, FlowBehavior) are unknown code constrained by their signature.

const (
	resNone = iota
	resFail
	resDone
	resRepeat
	resWait
	resSkip
	resErr
	resPanic
)

type engineModel struct {
	p                                     *Program
	active, completed, failed             int64
	waiting, tdone, tskip, tfailed        int64
	erNot, erEval, erSkip                 int64
	evFail, evDone, evRep, evWait, evSkip int64
	panics                                bool
	mode                                  string // "entry": an arbitrary entry, "link": an arbitrary incoming link of the released task
	x                                     *Exec
	completers                            map[*ssa.Function]bool // functions that may take a completion transition
	nested                                map[*ssa.Function]bool // completers called for another task than the one of the work item
}

func newEngineModel(p *Program) *engineModel {
	m := &engineModel{p: p}
	m.active = p.constVal("model", "FlowStatusActive")
	m.completed = p.constVal("model", "FlowStatusCompleted")
	m.failed = p.constVal("model", "FlowStatusFailed")
	m.waiting = p.constVal("model", "TaskStatusWaiting")
	m.tdone = p.constVal("model", "TaskStatusDone")
	m.tskip = p.constVal("model", "TaskStatusSkipped")
	m.tfailed = p.constVal("model", "TaskStatusFailed")
	m.erNot = p.constVal("model", "ERNotReady")
	m.erEval = p.constVal("model", "EREval")
	m.erSkip = p.constVal("model", "ERSkip")
	m.evFail = p.constVal("model", "EvalFail")
	m.evDone = p.constVal("model", "EvalDone")
	m.evRep = p.constVal("model", "EvalRepeat")
	m.evWait = p.constVal("model", "EvalWait")
	m.evSkip = p.constVal("model", "EvalSkip")
	m.nested = map[*ssa.Function]bool{}
	m.completers = reaching(p, func(id string) bool {
		return id == "model.TaskBehavior.Done" || id == "model.TaskBehavior.Skip"
	})
	return m
}

// reaching is the set of the repository's functions from which a static call chain reaches a call accepted by want.
func reaching(p *Program, want func(id string) bool) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	res := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					callers[mc.Fn.(*ssa.Function)] = append(callers[mc.Fn.(*ssa.Function)], fn)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				id := ""
				if cc.IsInvoke() {
					id = funcID(cc.Method)
				} else if f := cc.StaticCallee(); f != nil {
					callers[f] = append(callers[f], fn)
					if o, ok := f.Object().(*types.Func); ok {
						id = funcID(o)
					}
				}
				if id != "" && want(id) && !res[fn] {
					res[fn] = true
					work = append(work, fn)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if !res[g] {
				res[g] = true
				work = append(work, g)
			}
		}
	}
	return res
}

var engineImmutable = []string{
	"IndependentInstance.Instance", "IndependentInstance.flowModel", "IndependentInstance.workItemQueue", "IndependentInstance.changeTracker",
	"Instance.master", "Instance.host", "Instance.flowDef", "Instance.subflowId", "Instance.concurrentExec", "Instance.flowURI",
	"IndependentInstance.concurrentExec",
	"TaskInst.flowInst", "TaskInst.task", "TaskInst.taskID", "TaskInst.settingsError",
	"WorkItem.taskInst", "WorkItem.TaskID", "WorkItem.SubFlowID", "WorkItem.ID",
	"LinkInst.link", "LinkInst.flowInst", "TaskEntry.Task",
}

func engineIgnore(f string) bool {
	switch f {
	case "Instance.lock", "Instance.actSchedLock", "Instance.subFlowLock", "Instance.logger", "TaskInst.logger",
		"IndependentInstance.stepID", "IndependentInstance.startTime", "IndependentInstance.wiCounter",
		"TaskInst.id", "TaskInst.counter", "IndependentInstance.subflowCtr", "IndependentInstance.changeTracker", "Task.loopCfg", "Instance.resultHandler",
		"Task.typeID", "Task.name", "Task.settingsMapper", "Task.activityCfg", "Instance.inputs", "Instance.returnData",
		"IndependentInstance.interceptor", "IndependentInstance.patch", "IndependentInstance.instRecorder", "IndependentInstance.startAttrs",
		"LinkExprError.msg", "ActivityEvalError.taskName", "ActivityEvalError.typeHint", "ActivityEvalError.errText":
		return true
	}
	return false
}

func (m *engineModel) hooks() Hooks {
	imm := immutableHook(engineImmutable...)
	return Hooks{
		Enum: enumHook(m.p, "model.FlowStatus", "model.TaskStatus", "model.EvalResult", "model.EnterResult"),
		Ignore: func(f string) bool {
			return engineIgnore(f)
		},
		Immutable: func(f string) bool { return strings.HasPrefix(f, "$") || imm(f) },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if a.kind == KAddr {
				switch a.op {
				case "TaskInst.traceContext", "Instance.tracingCtx":
					return tNil
				}
			}
			return nil
		},
		IgnoreMap: func(s *State, mp *Term) bool {
			C := s.regs["C"]
			return C != nil && (mp == s.at(C, "Instance.attrs") || mp == s.at(C, "Instance.taskInsts") || mp == s.at(C, "Instance.linkInsts") ||
				mp == s.at(s.get("inst"), "IndependentInstance.subflows"))
		},
		OpaqueDyn: func(s *State, v *Term) bool {
			if v == s.regs["err"] || v == s.regs["ferr"] {
				return true
			}
			T := s.regs["T"]
			return T != nil && v == s.at(T, "TaskInst.settingsError")
		},
		Call:      m.call,
		Store:     m.store,
		MapUpdate: m.mapUpdate,
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if s.num("evals") == 0 && len(res) == 1 && x.root.Signature.Results().At(0).Type().String() == "error" && s.eq(res[0], tNil) == No {
				return // the loop gives up before the task is executed
			}
			m.endItem(x, s, pos)
		},
		RootPanic: func(x *Exec, s *State, pos token.Pos) {
			m.rep(x, s, "C12", "escape", pos, "a panic raised while a task is executed escapes the worker")
		},
		Coll: func(s *State, c *Term) (k, e []*Term, others, ok bool) {
			if c == s.regs["entries"] && s.regs["w:entry"] != nil {
				return nil, []*Term{s.regs["w:entry"]}, true, true
			}
			if c == s.regs["links"] && s.regs["w:link"] != nil {
				return nil, []*Term{s.regs["w:link"]}, true, true
			}
			return nil, nil, false, false
		},
		NewElem: func(x *Exec, s *State, c, k, v *Term) {
			if w := s.regs["w:entry"]; w != nil && c == s.regs["entries"] {
				// another entry, of another task
				s.neq[ordered(v, w)] = true
				t := x.fresh("otherTask", nil)
				s.neq[ordered(t, tNil)] = true
				s.neq[ordered(t, s.regs["w:task"])] = true
				s.heap[fld(v, "TaskEntry.Task")] = t
			}
			if w := s.regs["w:link"]; w != nil && c == s.regs["links"] {
				s.neq[ordered(v, w)] = true
				id := x.fresh("otherLinkID", types.Typ[types.Int])
				s.neq[ordered(id, s.regs["w:linkid"])] = true
				s.heap[fld(v, "Link.id")] = id
			}
		},
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if t := argOfType(c, "TaskInst"); t != nil {
				// the recursive activation completes the task like this one
				m.transition(x, s, t, "nested", c.Instr.Pos())
			}
			return ActOpaque, nil
		},
		MayPanic: func(c *Call) bool {
			return false
		},
	}
}

func (m *engineModel) rep(x *Exec, s *State, prop, construct string, pos token.Pos, format string, args ...interface{}) {
	old := x.rule
	x.rule = prop
	x.report(s, construct, pos, format, args...)
	x.rule = old
}

func (m *engineModel) isTop(s *State, c *Term) Tri {
	return s.eq(c, s.get("I"))
}

// result registers hold a term, decided here.
func truthOf(s *State, t *Term) Tri {
	if t == nil {
		return No
	}
	return s.decide(t)
}

func (m *engineModel) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	id := c.ID
	pos := c.Instr.Pos()
	T := s.regs["T"]
	if T != nil && c.Fn != nil && !c.Invoke && m.completers[c.Fn] {
		if t := argOfType(c, "TaskInst"); t != nil && s.eq(t, T) != Yes {
			// the completion of another task: the callee is explored on its own for an arbitrary task
			m.transition(x, s, t, "nested", pos)
			m.nested[c.Fn] = true
			return ActModel, []Outcome{{Mod: func(n *State) bool { x.clobber(n, append([]*Term{n.get("inst")}, c.all...)); return true }}}
		}
	}
	switch id {
	case "core/support.SyncQueue.Pop":
		m.endItem(x, s, pos)
		I := s.get("I")
		if st := s.at(I, "Instance.status"); st != mkInt(m.active) {
			m.rep(x, s, "C06", "pop while not active", pos, "a work item is taken from the queue although the flow instance is not known to be active")
		}
		x.count("pop")
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				m.reset(n)
				x.clobber(n, []*Term{n.get("inst"), n.get("I")})
				item := x.fresh("item", types.NewPointer(m.p.Named("instance", "WorkItem")))
				n.neq[ordered(item, tNil)] = true
				n.heap[fld(item, "WorkItem.taskInst")] = m.track(x, n)
				n.regs["$res"] = mkTuple(item, tTrue)
				return true
			}},
			{Mod: func(n *State) bool {
				m.reset(n)
				x.clobber(n, []*Term{n.get("inst"), n.get("I")})
				n.regs["$res"] = mkTuple(tNil, tFalse)
				return true
			}},
		}
	case "core/support.SyncQueue.Push":
		item := c.Args[0]
		ti := s.at(item, "WorkItem.taskInst")
		if ti == nil {
			m.rep(x, s, "C08", "push of an unknown item", pos, "something else than a work item is added to the queue")
			return ActPure, nil
		}
		x.count("push")
		m.pushed(x, s, ti, pos)
		return ActPure, nil
	case "model.TaskBehavior.Eval", "model.TaskBehavior.PostEval":
		return m.evaluate(x, s, c, id == "model.TaskBehavior.PostEval")
	case "model.TaskBehavior.Done", "model.TaskBehavior.Skip":
		t := c.Args[0]
		kind := "Done"
		if id == "model.TaskBehavior.Skip" {
			kind = "Skip"
		}
		m.transition(x, s, t, kind, pos)
		return m.transitionOutcomes(x, s, t, kind)
	case "model.TaskBehavior.Error":
		x.count("error transition")
		if c.Args[0] != T {
			m.rep(x, s, "C10", "error of another task", pos, "the error transition is taken for another task than the one that failed")
		}
		if s.inc("errors") > 1 {
			m.rep(x, s, "C10", "error transition twice", pos, "the error transition of a task is taken twice for one error")
		}
		settings := false
		if se := s.at(T, "TaskInst.settingsError"); s.num("evals") == 0 && se != nil && s.eq(se, tNil) == No {
			settings = true
			s.setNum("res", resErr)
			s.regs["err"] = se
		}
		if !settings && s.num("res") != resErr {
			m.rep(x, s, "C07", "error transition without error", pos, "the error transition is taken although the evaluation of the task returned no error")
		}
		if s.regs["err"] != nil && s.eq(c.Args[1], s.regs["err"]) != Yes {
			m.rep(x, s, "C10", "error transition argument", pos, "the error transition does not get the error the task returned")
		}
		if st := s.at(T, "TaskInst.status"); st != mkInt(m.tfailed) {
			m.rep(x, s, "C10", "failed status", pos, "a task with an error does not have the failed status when its error transition is taken")
		}
		if e := s.at(T, "TaskInst.returnError"); e == nil || s.eq(e, s.get("err")) != Yes {
			m.rep(x, s, "C10", "task error recorded", pos, "a failed task does not carry its error when its error transition is taken")
		}
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				n.setNum("handled", 1)
				e := m.entries(x, n, T, true)
				n.regs["$res"] = mkTuple(tTrue, e)
				return true
			}},
			{Mod: func(n *State) bool {
				n.setNum("handled", 2)
				m.fatal(x, n, s.get("err"))
				n.regs["$res"] = mkTuple(tFalse, tNil)
				return true
			}},
		}
	case "model.TaskBehavior.Enter":
		return m.enter(x, s, c)
	case "model.FlowBehavior.TaskDone":
		if c.Args[0] != s.get("C") && s.eq(c.Args[0], s.get("C")) != Yes {
			m.rep(x, s, "C09", "flow asked about another instance", pos, "the flow is asked whether it is done for another instance than the one of the task")
		}
		s.inc("asked")
		return ActModel, []Outcome{{Mod: func(n *State) bool {
			b := x.fresh("flowDone", types.Typ[types.Bool])
			n.regs["td"] = b
			n.regs["$res"] = b
			return true
		}}}
	case "model.FlowBehavior.Done":
		s.inc("fdone")
		return ActPure, nil
	case "model.FlowBehavior.StartErrorHandler":
		x.count("error handler")
		s.inc("handler")
		C := s.get("C")
		if s.eq(c.Args[0], C) != Yes {
			m.rep(x, s, "C11", "handler of another instance", pos, "the error handler of another flow instance is started")
		}
		if s.regs["H"] == nil || s.decide(s.regs["H"]) != No {
			m.rep(x, s, "C11", "handler started again", pos, "the error handler is started although the flow instance may already be handling an error")
		}
		if s.at(C, "Instance.isHandlingError") != tTrue {
			m.rep(x, s, "C11", "handling not marked", pos, "the error handler is started although the flow instance is not marked as handling an error")
		}
		return ActModel, []Outcome{{Mod: func(n *State) bool { n.regs["$res"] = m.entries(x, n, T, true); return true }}}
	case "model.FlowModel.GetTaskBehavior", "model.FlowModel.GetDefaultTaskBehavior", "model.FlowModel.GetFlowBehavior":
		return ActModel, []Outcome{{Mod: func(n *State) bool {
			n.regs["$res"] = nonNilResult(x, n, c.Sig.Results().At(0).Type(), "behavior")
			return true
		}}}
	case "instance.Instance.FindOrCreateTaskInst":
		return m.findTask(x, s, c)
	case "instance.IndependentInstance.HasInterceptor":
		return ActModel, []Outcome{{Res: tFalse}}
	case "instance.IndependentInstance.RecordState", "instance.Instance.GetReturnData":
		if id == "instance.Instance.GetReturnData" {
			if c.Recv == s.get("C") || s.eq(c.Recv, s.get("C")) == Yes {
				return ActModel, []Outcome{{Mod: func(n *State) bool {
					r := x.fresh("returnData", nil)
					n.regs["rdata"] = r
					e := x.fresh("returnError", nil)
					n.regs["$res"] = mkTuple(r, e)
					return true
				}}}
			}
		}
		return ActPure, nil
	case "definition.ErrorHandler.Tasks":
		a := fld(c.Recv, "$tasks")
		if s.heap[a] == nil {
			s.heap[a] = x.fresh("handlerTasks", types.NewSlice(types.NewPointer(m.p.Named("definition", "Task"))))
		}
		return ActModel, []Outcome{{Res: s.heap[a]}}
	case "instance.TaskInst.SpanConfig", "instance.Instance.SpanConfig":
		return ActPure, nil
	}
	if strings.HasPrefix(id, "instance.ChangeTracker.") || strings.HasPrefix(id, "core/data/mapper.") {
		if c.Sig.Results().Len() == 0 {
			return ActPure, nil
		}
		return ActPure, nil
	}
	return stdCall(x, s, c)
}

// track makes an arbitrary task of an arbitrary flow instance the one that is followed.
func (m *engineModel) track(x *Exec, n *State) *Term {
	t := x.fresh("task", types.NewPointer(m.p.Named("instance", "TaskInst")))
	n.neq[ordered(t, tNil)] = true
	n.regs["T"] = t
	n.regs["w:T"] = t
	C := x.fresh("container", types.NewPointer(m.p.Named("instance", "Instance")))
	n.neq[ordered(C, tNil)] = true
	n.heap[fld(t, "TaskInst.flowInst")] = C
	n.heap[fld(C, "Instance.master")] = n.get("inst")
	n.regs["C"] = C
	tk := x.fresh("definition", types.NewPointer(m.p.Named("definition", "Task")))
	n.neq[ordered(tk, tNil)] = true
	n.heap[fld(t, "TaskInst.task")] = tk
	links := x.fresh("fromLinks", types.NewSlice(types.NewPointer(m.p.Named("definition", "Link"))))
	n.heap[fld(tk, "Task.fromLinks")] = links
	n.regs["task"] = tk
	if m.mode == "link" {
		n.regs["links"] = links
		w := tm.named(KObj, "w-link", types.NewPointer(m.p.Named("definition", "Link")))
		wid := tm.named(KSym, "w-link-id", types.Typ[types.Int])
		n.heap[fld(w, "Link.id")] = wid
		n.regs["w:link"] = w
		n.regs["w:linkid"] = wid
		n.addDiff(tZero, mkOp("len", links), -1)
	}
	return t
}

// reset forgets the previous work item.
func (m *engineModel) reset(s *State) {
	for k := range s.regs {
		switch k {
		case "inst", "I":
		default:
			if !strings.HasPrefix(k, "#") {
				delete(s.regs, k)
			}
		}
	}
}

func (m *engineModel) evaluate(x *Exec, s *State, c *Call, post bool) (Action, []Outcome) {
	pos := c.Instr.Pos()
	T := s.regs["T"]
	x.count("evaluation")
	if T == nil || s.eq(c.Args[0], T) != Yes {
		m.rep(x, s, "C06", "evaluates another task", pos, "a task is evaluated that is not the one of the work item")
		return ActPure, nil
	}
	if s.inc("evals") > 1 {
		m.rep(x, s, "C06", "evaluated twice", pos, "the task of a work item is evaluated more than once")
	}
	st := s.at(T, "TaskInst.status")
	is := func(v int64) Tri {
		if st == nil {
			return Maybe
		}
		return s.eq(st, mkInt(v))
	}
	if post && is(m.waiting) != Yes {
		m.rep(x, s, "C06", "post-evaluation", pos, "a task is post-evaluated although it is not known to be waiting")
	}
	if !post && (is(m.waiting) != No || is(m.tdone) != No || is(m.tskip) != No) {
		m.rep(x, s, "C06", "evaluation", pos, "a task is evaluated although it may be waiting, done or skipped")
	}
	var outs []Outcome
	base := func(n *State, res int) {
		x.clobber(n, []*Term{c.Recv, T, n.get("inst")})
		n.setNum("res", int64(res))
	}
	for _, r := range []struct {
		v   int64
		res int
	}{{m.evFail, resFail}, {m.evDone, resDone}, {m.evRep, resRepeat}, {m.evWait, resWait}, {m.evSkip, resSkip}} {
		r := r
		outs = append(outs, Outcome{Mod: func(n *State) bool {
			base(n, r.res)
			n.note("evaluation of the task returns result %d without error", r.v)
			n.regs["$res"] = mkTuple(mkInt(r.v), tNil)
			return true
		}})
	}
	outs = append(outs, Outcome{Mod: func(n *State) bool {
		base(n, resErr)
		e := newErr(x, n, "evalError")
		n.regs["err"] = e
		n.note("evaluation of the task returns an error")
		n.regs["$res"] = mkTuple(x.fresh("result", c.Sig.Results().At(0).Type()), e)
		return true
	}})
	if m.panics {
		outs = append(outs, Outcome{Panic: true, Mod: func(n *State) bool {
			base(n, resPanic)
			m.fatal(x, n, nil)
			return true
		}})
	}
	return ActModel, outs
}

// transition: Done or Skip of a task.
func (m *engineModel) transition(x *Exec, s *State, t *Term, kind string, pos token.Pos) {
	x.count("transition")
	T := s.regs["T"]
	if T != nil && s.eq(t, T) == Yes {
		if s.inc("trans") > 1 {
			m.rep(x, s, "C07", "completed twice", pos, "the completion transition of a task is taken twice for one evaluation")
		}
		if r := s.num("res"); r != resDone && r != resSkip {
			m.rep(x, s, "C07", "completed without being done", pos, "the completion transition is taken although the evaluation did not report the task as done or skipped")
		}
		st := s.at(t, "TaskInst.status")
		sk := Maybe
		if st != nil {
			sk = s.eq(st, mkInt(m.tskip))
		}
		if kind == "Skip" && sk != Yes {
			m.rep(x, s, "C09", "skip transition", pos, "the skip transition is taken for a task that is not known to be skipped")
		}
		if kind == "Done" && sk != No {
			m.rep(x, s, "C09", "done transition", pos, "the done transition is taken for a task that may be skipped")
		}
		return
	}
	// a task entered by this work item
	s.setNum("nested", 1)
	er := s.at(t, "$er")
	if er == nil || er != mkInt(m.erSkip) {
		m.rep(x, s, "C08", "completes a task", pos, "a task is completed although entering it did not report that it must be skipped")
	}
	if s.at(t, "$skipped") != nil {
		m.rep(x, s, "C08", "skipped twice", pos, "a task to skip is completed twice")
	}
	s.heap[fld(t, "$skipped")] = tTrue
	if t == s.regs["w:ti"] {
		s.inc("wskip")
	}
}

// entries is the list of successors a behavior returns.
func (m *engineModel) entries(x *Exec, s *State, T *Term, expect bool) *Term {
	e := x.fresh("entries", types.NewSlice(types.NewPointer(m.p.Named("model", "TaskEntry"))))
	s.regs["entries"] = e
	if m.mode == "entry" && expect {
		w := tm.named(KObj, "w-entry", types.NewPointer(m.p.Named("model", "TaskEntry")))
		wt := tm.named(KObj, "w-task", types.NewPointer(m.p.Named("definition", "Task")))
		s.regs["w:entry"] = w
		s.regs["w:task"] = wt
		s.heap[fld(w, "TaskEntry.Task")] = wt
		s.neq[ordered(e, tNil)] = true
		s.addDiff(tZero, mkOp("len", e), -1)
	}
	return e
}

func (m *engineModel) transitionOutcomes(x *Exec, s *State, t *Term, kind string) (Action, []Outcome) {
	if t != s.regs["T"] {
		return ActPure, nil
	}
	C := s.get("C")
	setup := func(n *State) *Term {
		nt := x.fresh("notify", types.Typ[types.Bool])
		n.regs["notify"] = nt
		fc := x.fresh("returnRequested", types.Typ[types.Bool])
		n.heap[fld(C, "Instance.forceCompletion")] = fc
		n.regs["fc"] = fc
		// the status of the task changes
		delete(n.heap, fld(t, "TaskInst.status"))
		return nt
	}
	if kind == "Done" {
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				nt := setup(n)
				n.setNum("ok", 1)
				n.regs["$res"] = mkTuple(nt, m.entries(x, n, t, true), tNil)
				return true
			}},
			{Mod: func(n *State) bool {
				setup(n)
				n.setNum("ok", 2)
				e := newErr(x, n, "transitionError")
				m.fatal(x, n, e)
				n.note("the done transition returns an error")
				n.regs["$res"] = mkTuple(x.fresh("notify", types.Typ[types.Bool]), x.fresh("entries", nil), e)
				return true
			}},
		}
	}
	return ActModel, []Outcome{
		{Mod: func(n *State) bool {
			nt := setup(n)
			n.setNum("ok", 1)
			n.regs["$res"] = mkTuple(nt, m.entries(x, n, t, true), tFalse)
			return true
		}},
	}
}

// fatal: from here on the flow instance must handle the error globally.
func (m *engineModel) fatal(x *Exec, s *State, err *Term) {
	C := s.get("C")
	h := x.fresh("wasHandling", types.Typ[types.Bool])
	s.heap[fld(C, "Instance.isHandlingError")] = h
	s.regs["H"] = h
	s.setNum("fatal", 1)
	if err != nil && err != tZero {
		s.regs["ferr"] = err
	}
}

func (m *engineModel) findTask(x *Exec, s *State, c *Call) (Action, []Outcome) {
	task := c.Args[0]
	return ActModel, []Outcome{{Mod: func(n *State) bool {
		ti := x.fresh("taskInst", types.NewPointer(m.p.Named("instance", "TaskInst")))
		n.neq[ordered(ti, tNil)] = true
		n.neq[ordered(ti, n.get("T"))] = true
		n.heap[fld(ti, "TaskInst.task")] = task
		n.heap[fld(ti, "TaskInst.flowInst")] = c.Recv
		if w := n.regs["w:task"]; w != nil && task == w {
			if n.regs["w:ti"] == nil {
				n.regs["w:ti"] = ti
				sch := x.fresh("alreadyScheduled", types.Typ[types.Bool])
				n.heap[fld(ti, "TaskInst.scheduled")] = sch
				n.regs["sch"] = sch
				if C := n.regs["C"]; C != nil && n.eq(c.Recv, C) != Yes {
					m.rep(x, n, "C08", "wrong instance", c.Instr.Pos(), "a successor is looked up in another flow instance than the one of the task")
				}
			} else {
				ti = n.regs["w:ti"]
			}
		} else if wt := n.regs["w:ti"]; wt != nil {
			n.neq[ordered(ti, wt)] = true
		}
		n.regs["$res"] = mkTuple(ti, x.fresh("created", types.Typ[types.Bool]))
		return true
	}}}
}

func (m *engineModel) enter(x *Exec, s *State, c *Call) (Action, []Outcome) {
	t := c.Args[0]
	pos := c.Instr.Pos()
	x.count("enter")
	if s.num("nested") > 0 {
		m.rep(x, s, "C08", "entered after a completion", pos, "a successor is entered after another one was already completed as skipped")
	}
	if sc := s.at(t, "TaskInst.scheduled"); sc == nil || s.decide(sc) != No {
		m.rep(x, s, "C08", "entered although scheduled", pos, "a task is entered although it may already be scheduled")
	}
	if s.at(t, "$er") != nil {
		m.rep(x, s, "C08", "entered twice", pos, "a task is entered twice")
	}
	if t == s.regs["w:ti"] {
		s.inc("wenter")
	} else if s.regs["w:entry"] != nil {
		if tk := s.at(t, "TaskInst.task"); tk == nil {
			m.rep(x, s, "C08", "enters an unknown task", pos, "a task is entered that is not the task of an entry")
		}
	}
	s.inc("entered")
	var outs []Outcome
	for _, r := range []int64{m.erNot, m.erEval, m.erSkip} {
		r := r
		outs = append(outs, Outcome{Mod: func(n *State) bool {
			delete(n.heap, fld(t, "TaskInst.status"))
			n.heap[fld(t, "$er")] = mkInt(r)
			n.note("entering the task returns %d", r)
			n.regs["$res"] = mkInt(r)
			return true
		}})
	}
	return ActModel, outs
}

func (m *engineModel) pushed(x *Exec, s *State, ti *Term, pos token.Pos) {
	T := s.regs["T"]
	if T != nil && s.eq(ti, T) == Yes {
		s.inc("tpush")
		if s.num("res") != resRepeat {
			m.rep(x, s, "C07", "rescheduled", pos, "a task is scheduled again although its evaluation did not ask to be repeated")
		} else if s.num("tpush") > 1 {
			m.rep(x, s, "C07", "rescheduled twice", pos, "a task that repeats is scheduled more than once")
		}
		return
	}
	if er := s.at(ti, "$er"); er != nil {
		if er != mkInt(m.erEval) {
			m.rep(x, s, "C08", "scheduled although not ready", pos, "a task is scheduled although entering it did not report it as ready")
		}
		if s.at(ti, "$pushed") != nil {
			m.rep(x, s, "C08", "scheduled twice", pos, "a ready task is scheduled twice")
		}
		s.heap[fld(ti, "$pushed")] = tTrue
		if ti == s.regs["w:ti"] {
			s.inc("wpush")
		}
		return
	}
	C := s.regs["C"]
	if C != nil {
		h := s.at(C, "Instance.host")
		if h != nil && s.eq(h, ti) == Yes {
			s.inc("hpush")
			return
		}
	}
	m.rep(x, s, "C08", "schedules a task", pos, "a task is scheduled that was neither entered, nor repeats, nor hosts the subflow that ended")
}

func (m *engineModel) store(x *Exec, s *State, addr, v *Term, pos token.Pos) bool {
	if addr.kind != KAddr {
		return true
	}
	C := s.regs["C"]
	b := addr.args[0]
	switch addr.op {
	case "Instance.status":
		x.count("flow status")
		if v == mkInt(m.failed) {
			e := s.at(b, "Instance.returnError")
			if e == nil || s.eq(e, tNil) != No {
				m.rep(x, s, "C05", "failed without error", pos, "a flow instance gets the failed status although it may carry no error")
			}
			s.inc("failed")
			if C == nil || s.eq(b, C) != Yes {
				m.rep(x, s, "C11", "another instance failed", pos, "another flow instance than the one of the failed task is failed")
			}
			if s.num("fatal") == 0 {
				m.rep(x, s, "C10", "failed without reason", pos, "a flow instance is failed although the error of its task was handled, or there was none")
			}
		}
		if v == mkInt(m.completed) {
			s.inc("completed")
			if C == nil || s.eq(b, C) != Yes {
				m.rep(x, s, "C09", "another instance completed", pos, "another flow instance than the one of the finished task is completed")
			}
		}
	case "Instance.returnError":
		if C != nil && s.num("failed") > 0 && s.eq(b, C) != No && s.eq(v, tNil) != No {
			m.rep(x, s, "C05", "error dropped", pos, "the error of a failed flow instance is dropped")
		}
	case "Instance.taskInsts":
		if C != nil && s.eq(b, C) != Yes {
			m.rep(x, s, "C11", "tasks of another instance", pos, "the tasks of another flow instance are discarded")
		}
		s.inc("cleared")
		if s.num("fatal") == 0 {
			m.rep(x, s, "C11", "tasks discarded", pos, "the tasks of a flow instance are discarded although no error has to be handled by it")
		}
	case "TaskInst.outputs":
		if C != nil {
			if h := s.at(C, "Instance.host"); h != nil && s.eq(h, b) == Yes {
				s.regs["hout"] = v
			}
		}
	}
	return true
}

func (m *engineModel) mapUpdate(x *Exec, s *State, mp, k, v *Term, pos token.Pos) {
	C := s.regs["C"]
	if C == nil {
		return
	}
	if v == nil { // delete
		switch {
		case mp == s.at(C, "Instance.taskInsts") && mp != nil:
			tk := s.regs["task"]
			if id := s.at(tk, "Task.id"); id != nil && s.eq(id, k) == Yes {
				s.inc("released")
			} else if s.num("fatal") == 0 {
				m.rep(x, s, "C09", "releases another task", pos, "another task than the finished one is released")
			}
		case mp == s.at(C, "Instance.linkInsts") && mp != nil:
			if w := s.regs["w:linkid"]; w != nil && s.eq(w, k) == Yes {
				s.inc("wlink")
			}
		case mp == s.at(s.get("inst"), "IndependentInstance.subflows") && mp != nil:
			if id := s.at(C, "Instance.subflowId"); id != nil && s.eq(id, k) == Yes {
				s.inc("unsub")
			} else {
				m.rep(x, s, "C09", "removes another subflow", pos, "another subflow than the one that ended is removed")
			}
		default:
			m.rep(x, s, "C09", "removes unrelated state", pos, "state is removed that belongs neither to the finished task nor to the subflow that ended")
		}
		return
	}
	if mp == s.at(C, "Instance.attrs") && mp != nil {
		tk := s.regs["task"]
		if k == mkStr("_E") {
			s.inc("_E")
		} else if k.kind == KOp && k.op == "strcat" && k.args[0] == mkStr("_E.") {
			if id := s.at(tk, "Task.id"); id != nil && s.eq(id, k.args[1]) == Yes {
				s.inc("_E.")
			}
		}
	}
}

// endItem checks what a work item must have led to.
func (m *engineModel) endItem(x *Exec, s *State, pos token.Pos) {
	T := s.regs["T"]
	if T == nil {
		return
	}
	x.count("work items")
	res := s.num("res")
	if s.num("evals") == 0 {
		st := s.at(T, "TaskInst.status")
		fin := st != nil && (st == mkInt(m.tdone) || st == mkInt(m.tskip))
		se := s.at(T, "TaskInst.settingsError")
		if se != nil && s.eq(se, tNil) == No {
			if s.num("errors") != 1 {
				m.rep(x, s, "C07", "settings error", pos, "an error in the settings of a task does not lead to its error transition")
			}
			res = resErr
		} else if !fin {
			m.rep(x, s, "C06", "not evaluated", pos, "the task of a work item is not evaluated although it is neither done nor skipped")
			return
		} else {
			if s.num("trans")+s.num("tpush")+s.num("errors")+s.num("entered") > 0 {
				m.rep(x, s, "C06", "finished task", pos, "a work item of a task that is already done or skipped has effects")
			}
			return
		}
	}
	trans, tpush, errs := s.num("trans"), s.num("tpush"), s.num("errors")
	chk := func(cond bool, prop, construct, format string, args ...interface{}) {
		if !cond {
			m.rep(x, s, prop, construct, pos, format, args...)
			if res == resPanic && prop != "C12" {
				m.rep(x, s, "C12", construct, pos, "after a panic: "+format, args...)
			}
		}
	}
	st := s.at(T, "TaskInst.status")
	switch res {
	case resDone, resSkip:
		chk(trans == 1, "C07", "done leads to completion", "the completion transition of a task that is done or skipped is taken %d times", trans)
	case resWait:
		chk(st == mkInt(m.waiting), "C07", "wait", "a task whose evaluation waits does not have the waiting status")
	case resFail:
		chk(st == mkInt(m.tfailed), "C07", "fail", "a task whose evaluation failed does not have the failed status")
	case resRepeat:
		chk(tpush == 1, "C07", "repeat", "a task that repeats is scheduled %d times", tpush)
	case resErr:
		chk(errs == 1, "C07", "error", "the error transition of a task with an error is taken %d times", errs)
	}
	if res == resWait || res == resFail || res == resRepeat {
		chk(s.num("entered") == 0 && s.num("completed") == 0 && s.num("failed") == 0 && s.num("released") == 0 && s.num("hpush") == 0, "C07", "no completion",
			"a task that waits, failed or repeats makes its successors or its flow instance progress")
	}
	if trans == 1 && s.num("ok") == 1 {
		m.endCompletion(x, s, pos, chk)
	}
	if s.num("handled") == 1 {
		chk(s.num("_E.") >= 1, "C10", "error data", "the data of a handled error is not made available under the id of the task")
		chk(s.num("released") == 1, "C10", "release after a handled error", "a task whose error was handled is released %d times", s.num("released"))
		if s.regs["w:link"] != nil {
			chk(s.num("wlink") == 1, "C10", "links released after a handled error", "an incoming link of a task whose error was handled is not released")
		}
		chk(s.num("handler") == 0 && s.num("failed") == 0, "C10", "handled error", "an error that an error link handles also fails the flow or starts its error handler")
		m.endEntries(x, s, pos, chk, "C10")
	}
	if s.is("fatal") {
		m.endFatal(x, s, pos, chk)
	}
}

type checker func(cond bool, prop, construct, format string, args ...interface{})

// endEntries: an arbitrary entry must have been entered, once.
func (m *engineModel) endEntries(x *Exec, s *State, pos token.Pos, chk checker, prop string) {
	if s.regs["w:entry"] == nil {
		return
	}
	x.count("entries")
	ti := s.regs["w:ti"]
	if ti == nil {
		chk(false, prop, "entry ignored", "a successor of the task is not entered")
		return
	}
	sch := s.decide(s.get("sch"))
	switch {
	case sch == Yes:
		chk(s.num("wenter") == 0 && s.num("wpush") == 0, "C08", "entered although scheduled", "a task that is already scheduled is entered again")
		return
	case sch == No:
		chk(s.num("wenter") == 1, "C08", "entry not entered", "a successor that is not scheduled yet is entered %d times", s.num("wenter"))
	default:
		chk(false, "C08", "entry not examined", "a successor is handled without examining whether it is already scheduled")
		return
	}
	er := s.at(ti, "$er")
	switch er {
	case mkInt(m.erEval):
		chk(s.num("wpush") == 1, "C08", "ready task scheduled", "a task that is ready is scheduled %d times", s.num("wpush"))
		chk(s.num("wskip") == 0, "C08", "ready task skipped", "a task that is ready is completed as skipped")
		chk(s.num("wsched") > 0 || s.at(ti, "TaskInst.scheduled") == tTrue || s.num("nested") > 0, "C08", "ready task marked", "a task that is scheduled is not marked as scheduled")
	case mkInt(m.erSkip):
		chk(s.num("wpush") == 0, "C08", "skipped task scheduled", "a task that must be skipped is scheduled")
		if s.num("wskip") != 1 {
			st := s.at(s.get("C"), "Instance.status")
			chk(s.num("wskip") == 0 && st != nil && s.eq(st, mkInt(m.active)) == No, "C08", "skip not propagated", "a task that must be skipped is completed %d times although its flow instance may still be active", s.num("wskip"))
		}
	case mkInt(m.erNot):
		chk(s.num("wpush") == 0 && s.num("wskip") == 0, "C08", "not ready", "a task that is not ready is scheduled or skipped")
	}
}

func (m *engineModel) endCompletion(x *Exec, s *State, pos token.Pos, chk checker) {
	x.count("completions")
	C := s.get("C")
	nt := s.decide(s.get("notify"))
	fc := s.decide(s.get("fc"))
	td := No
	if s.regs["td"] != nil {
		td = s.decide(s.regs["td"])
	}
	asked := s.num("asked")
	chk(nt == No && asked == 0 || nt == Yes && asked == 1, "C09", "flow asked", "the flow is asked %d times whether it is done, the task %s it", asked,
		map[Tri]string{No: "does not notify", Yes: "notifies", Maybe: "may notify"}[nt])
	flowDone := nt == Yes && td == Yes
	notDone := nt == No || td == No
	complete := flowDone || fc == Yes
	incomplete := notDone && fc == No
	if !complete && !incomplete {
		chk(false, "C09", "completion not examined", "the end of a task is handled without determining whether its flow instance is complete or a return was requested")
		return
	}
	rel := s.num("released")
	chk(rel == 1, "C09", "task released", "a finished task is released %d times", rel)
	if s.regs["w:link"] != nil {
		chk(s.num("wlink") == 1, "C09", "links released", "an incoming link of a finished task is released %d times", s.num("wlink"))
	}
	if complete {
		chk(s.num("completed") == 1, "C09", "completed", "a flow instance that is done is completed %d times", s.num("completed"))
		chk(s.num("entered") == 0, "C09", "no successor", "successors are entered although the flow instance is complete")
		switch m.isTop(s, C) {
		case Yes:
			chk(s.num("hpush") == 0, "C09", "main flow", "a task is scheduled at the end of the main flow")
		case No:
			h := s.at(C, "Instance.host")
			if h != nil && s.dyn[h] != nil || h != nil && concrete(h.typ) {
				chk(s.num("hpush") == 1, "C09", "host resumed", "the task that hosts a completed subflow is resumed %d times", s.num("hpush"))
				chk(s.regs["hout"] != nil && s.regs["rdata"] != nil && s.eq(s.regs["hout"], s.regs["rdata"]) == Yes, "C09", "host outputs", "the task that hosts a completed subflow does not get the return data of the subflow as outputs")
				e := s.at(h, "TaskInst.returnError")
				chk(e != nil && s.eq(e, tNil) == Yes, "C09", "host error", "the task that hosts a completed subflow may keep an old error")
			} else if h != nil && s.notdyn[h] == nil {
				chk(false, "C09", "host resumed", "the task that hosts a completed subflow is not resumed")
			} else if h == nil {
				chk(false, "C09", "host resumed", "the task that hosts a completed subflow is not resumed")
			}
			chk(s.num("unsub") == 1, "C09", "subflow removed", "a completed subflow is removed %d times from its parent", s.num("unsub"))
		default:
			chk(false, "C09", "kind of instance", "the end of a flow instance is handled without determining whether it is a subflow")
		}
		return
	}
	chk(s.num("completed") == 0 || s.num("nested") > 0, "C09", "completed early", "a flow instance is completed although it is not done")
	chk(s.num("hpush") == 0 || s.num("nested") > 0, "C09", "host resumed early", "the task that hosts a subflow is resumed although the subflow is not done")
	chk(s.num("unsub") == 0 || s.num("nested") > 0, "C09", "subflow removed early", "a subflow is removed although it is not done")
	m.endEntries(x, s, pos, chk, "C09")
}

func (m *engineModel) endFatal(x *Exec, s *State, pos token.Pos, chk checker) {
	x.count("fatal errors")
	C := s.get("C")
	h := s.decide(s.get("H"))
	if s.num("res") != resPanic {
		chk(s.num("completed") == 0, "C10", "completed after an error", "a flow instance is completed although its task failed")
	}
	failed, handler := s.num("failed"), s.num("handler")
	switch h {
	case Maybe:
		chk(false, "C11", "handling not examined", "an unhandled error is processed without examining whether the flow instance is already handling an error")
		return
	case Yes:
		chk(handler == 0, "C11", "handler started again", "the error handler of a flow instance is started a second time")
		chk(failed == 1, "C10", "error in the handler", "an error in the error handler fails the flow instance %d times", failed)
	case No:
		chk(s.num("_E") >= 1 && s.num("_E.") >= 1, "C10", "error data", "the data of an unhandled error is not made available to the error handler")
		chk(s.at(C, "Instance.isHandlingError") == tTrue || s.num("nested") > 0 || handler > 0, "C11", "handling marked", "a flow instance with an unhandled error is not marked as handling an error")
		chk(handler+failed == 1, "C10", "unhandled error", "an unhandled error starts the error handler %d times and fails the flow instance %d times", handler, failed)
		def := s.at(C, "Instance.flowDef")
		var eh *Term
		if def != nil {
			eh = s.at(def, "Definition.errorHandler")
		}
		has := Maybe
		if eh != nil {
			switch s.eq(eh, tNil) {
			case Yes:
				has = No
			case No:
				if ts := s.at(eh, "$tasks"); ts != nil {
					has = s.less(tZero, mkOp("len", ts))
				}
			}
		}
		if handler == 1 {
			chk(has == Yes, "C11", "empty handler", "an error handler that may have no task is started")
			chk(s.num("cleared") == 1, "C11", "tasks discarded", "the tasks of a flow instance that starts its error handler are discarded %d times", s.num("cleared"))
			m.endEntries(x, s, pos, chk, "C11")
		} else if failed == 1 {
			chk(has == No, "C11", "handler not started", "a flow instance is failed although it may have an error handler")
			chk(s.num("cleared") == 0, "C11", "tasks discarded", "the tasks of a failed flow instance are discarded")
		}
	}
	if failed == 1 {
		chk(s.num("entered") == 0, "C10", "successors of a failed task", "successors are entered although the flow instance failed")
		e := s.at(C, "Instance.returnError")
		fe := s.regs["ferr"]
		chk(e != nil && s.eq(e, tNil) == No, "C05", "error of a failed flow", "a failed flow instance carries no error")
		if fe != nil && s.num("res") == resErr {
			chk(e != nil && s.eq(e, fe) == Yes, "C05", "error of a failed flow", "a failed flow instance does not carry the error of the task that failed")
		}
		switch m.isTop(s, C) {
		case Yes:
			chk(s.num("hpush") == 0, "C10", "main flow", "a task is scheduled although the main flow failed")
		case No:
			hst := s.at(C, "Instance.host")
			if hst != nil && (s.dyn[hst] != nil || concrete(hst.typ)) {
				he := s.at(hst, "TaskInst.returnError")
				chk(s.num("hpush") == 1, "C10", "host resumed", "the task that hosts a failed subflow is resumed %d times", s.num("hpush"))
				chk(he != nil && s.eq(he, tNil) == No, "C05", "host error", "the task that hosts a failed subflow does not get the error")
				if he != nil && e != nil {
					chk(s.eq(he, e) == Yes, "C05", "host error", "the task that hosts a failed subflow does not get the error of the subflow")
				}
			} else if hst == nil || s.notdyn[hst] == nil {
				chk(false, "C10", "host resumed", "the task that hosts a failed subflow is not resumed")
			}
			chk(s.num("unsub") == 1, "C10", "subflow removed", "a failed subflow is removed %d times from its parent", s.num("unsub"))
		default:
			chk(false, "C10", "kind of instance", "a flow instance is failed without determining whether it is a subflow")
		}
	}
}

// engineRun is one exploration.
func engineRun(c *Ctx, m *engineModel, fn *ssa.Function, nested bool) *Exec {
	x := newExec(c.P, "engine", m.hooks())
	m.x = x
	s := newState()
	inst := tm.named(KObj, "inst", types.NewPointer(c.P.Named("instance", "IndependentInstance")))
	I := tm.named(KObj, "inst.Instance", types.NewPointer(c.P.Named("instance", "Instance")))
	s.heap[fld(inst, "IndependentInstance.Instance")] = I
	s.regs["inst"] = inst
	s.regs["I"] = I
	args := []*Term{inst}
	if nested {
		args = nil
		t := m.track(x, s)
		s.setNum("res", resSkip)
		s.setNum("evals", 1)
		for _, p := range fn.Params {
			var a *Term
			switch typeName(p.Type()) {
			case "TaskInst":
				a = t
			case "Instance":
				a = s.regs["C"]
			case "IndependentInstance":
				a = inst
			case "TaskBehavior":
				a = nonNilResult(x, s, p.Type(), "behavior")
			}
			args = append(args, a)
		}
	}
	x.Run(fn, s, args)
	return x
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// engineResult holds the explorations of the engine, done once for all the rules.
type engineResult struct {
	xs  []*Exec
	tot map[string]int
}

var engineMemo *engineResult

func engineExplore(c *Ctx) *engineResult {
	if engineMemo != nil {
		return engineMemo
	}
	r := &engineResult{tot: map[string]int{}}
	run := func(mode string, fn *ssa.Function, nested bool) map[*ssa.Function]bool {
		m := newEngineModel(c.P)
		m.mode = mode
		m.panics = true
		x := engineRun(c, m, fn, nested)
		if profOn {
			println(fn.String(), mode, x.states)
		}
		x.seen = nil
		r.xs = append(r.xs, x)
		for k, v := range x.counts {
			r.tot[k] += v
		}
		return m.nested
	}
	done := map[*ssa.Function]bool{}
	todo := map[*ssa.Function]bool{}
	for _, root := range []string{"DoStep", "DoStepInLoop"} {
		for _, mode := range []string{"entry", "link"} {
			for f := range run(mode, c.P.Method("instance", "IndependentInstance", root), false) {
				todo[f] = true
			}
		}
	}
	for len(todo) > 0 {
		for f := range todo {
			delete(todo, f)
			if done[f] {
				continue
			}
			done[f] = true
			for _, mode := range []string{"entry", "link"} {
				for g := range run(mode, f, true) {
					todo[g] = true
				}
			}
		}
	}
	engineMemo = r
	return r
}

func engineCheck(c *Ctx) {
	r := engineExplore(c)
	for _, x := range r.xs {
		c.absorb(x, func(rule string) bool { return rule == c.Prop })
	}
	for _, k := range []string{"pop", "push", "evaluation", "transition", "error transition", "enter", "error handler", "flow status", "work items", "completions", "fatal errors", "entries"} {
		c.must(k, r.tot[k], 1)
	}
}

func init() {
	for _, id := range []string{"C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"} {
		register(id, engineCheck, "task engine monitor over DoStep and DoStepInLoop")
	}
}
