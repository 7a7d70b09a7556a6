package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The evaluation of one task: inputs, activity and outputs (C20, C21).

type taskModel struct {
	p    *Program
	post bool

	relevant map[*ssa.Function]bool

	ti, inst, master, task, actCfg, act, patch, icp, wd *Term
	inMap, outMap, pInMap, pOutMap, mapped, values      *Term
	inK, inV, outK, outV, mK, mV, outputs, prev, lc     *Term
}

func newTaskModel(p *Program, post bool) *taskModel {
	m := &taskModel{p: p, post: post}
	m.relevant = reaching(p, func(id string) bool {
		switch id {
		case "core/activity.Activity.Eval", "core/activity.AsyncActivity.PostEval", "core/data/mapper.Mapper.Apply", "core/data/schema.Schema.Validate", "instance.Instance.SetValue":
			return true
		}
		return false
	})
	for f := range fieldWriters(p, "TaskInst.inputs", "TaskInst.returnError") {
		m.relevant[f] = true
	}
	// what reads or writes the outputs, unless it does so on behalf of an interceptor
	outputs, intercepts := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	defer func() {
		for f := range outputs {
			if !intercepts[f] {
				m.relevant[f] = true
			}
		}
	}()
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					sel := fieldSel(fa.X.Type(), fa.Field)
					if sel == "TaskInst.outputs" {
						outputs[f] = true
					}
					if strings.HasPrefix(sel, "TaskInterceptor.") {
						intercepts[f] = true
					}
					switch sel {
					case "TaskInterceptor.Skip", "TaskInterceptor.SkipExecution", "TaskInst.inputs":
						m.relevant[f] = true
					}
				}
			}
		}
	}
	inst := func(n, t string) *Term { return tm.named(KObj, n, types.NewPointer(p.Named("instance", t))) }
	def := func(n, t string) *Term { return tm.named(KObj, n, types.NewPointer(p.Named("definition", t))) }
	m.ti, m.inst, m.master = inst("task instance", "TaskInst"), inst("flow instance", "Instance"), inst("main flow", "IndependentInstance")
	m.task, m.actCfg = def("task", "Task"), def("activity configuration", "ActivityConfig")
	m.act = tm.named(KObj, "activity", nil)
	m.patch, m.icp, m.wd = tm.named(KSym, "patch", nil), tm.named(KSym, "interceptor", nil), tm.named(KSym, "working data", nil)
	m.inMap, m.outMap = tm.named(KSym, "input mapper", nil), tm.named(KSym, "output mapper", nil)
	m.pInMap, m.pOutMap = tm.named(KSym, "patched input mapper", nil), tm.named(KSym, "patched output mapper", nil)
	m.mapped, m.values, m.outputs = tm.named(KObj, "mapped inputs", nil), tm.named(KObj, "mapped outputs", nil), tm.named(KObj, "outputs", nil)
	m.inK, m.inV = tm.named(KSym, "input name", types.Typ[types.String]), tm.named(KSym, "input value", types.NewInterfaceType(nil, nil))
	m.outK, m.outV = tm.named(KSym, "output name", types.Typ[types.String]), tm.named(KSym, "output value", types.NewInterfaceType(nil, nil))
	m.mK, m.mV = tm.named(KSym, "mapped name", types.Typ[types.String]), tm.named(KSym, "mapped value", types.NewInterfaceType(nil, nil))
	m.prev = tm.named(KSym, "accumulated outputs", nil)
	m.lc = tm.named(KSym, "loop configuration", nil)
	return m
}

func (m *taskModel) rep(x *Exec, s *State, rule, construct string, pos token.Pos, format string, args ...interface{}) {
	x.rule = rule
	x.report(s, fnName(x.root)+": "+construct, pos, format, args...)
}

func (m *taskModel) state() *State {
	s := newState()
	for _, f := range []struct {
		o *Term
		f string
		v *Term
	}{
		{m.ti, "TaskInst.flowInst", m.inst}, {m.ti, "TaskInst.task", m.task}, {m.ti, "TaskInst.workingData", m.wd}, {m.ti, "TaskInst.outputs", m.outputs},
		{m.inst, "Instance.master", m.master}, {m.master, "IndependentInstance.patch", m.patch}, {m.master, "IndependentInstance.interceptor", m.icp},
		{m.actCfg, "ActivityConfig.Activity", m.act},
	} {
		s.heap[fld(f.o, f.f)] = f.v
	}
	for _, e := range [][3]*Term{{m.mapped, m.inK, m.inV}, {m.outputs, m.outK, m.outV}, {m.values, m.mK, m.mV}} {
		s.heap[mkHas(e[0], e[1])] = tTrue
		s.heap[mkKey(e[0], e[1])] = e[2]
	}
	for r, t := range map[string]*Term{"w:inK": m.inK, "w:outK": m.outK, "w:mK": m.mK, "w:outV": m.outV, "w:mV": m.mV, "w:inV": m.inV, "w:prev": m.prev, "patch": m.patch, "w:ti": m.ti, "icp0": m.icp, "wd": m.wd} {
		s.regs[r] = t
	}
	return s
}

// fails records that the evaluation has to report an error.
func fails(n *State, why string) {
	n.setNum("fail:"+why, 1)
	dropRegs(n, "in", "pin", "out", "pout", "inSchema", "inValid", "outSchema", "outValid", "bypass?", "validate?", "acc?", "applyOn?", "loop", "icp:", "old", "patch", "icp0", "wd")
}

// dropRegs forgets what is not needed any more, so that the paths that differ in it are joined.
func dropRegs(n *State, rs ...string) {
	for _, r := range rs {
		if !strings.HasSuffix(r, ":") {
			delete(n.regs, r)
			continue
		}
		for k := range n.regs {
			if strings.HasPrefix(k, r) {
				delete(n.regs, k)
			}
		}
	}
	for a := range n.heap {
		if a.kind == KAddr && (strings.HasPrefix(a.op, "TaskInterceptor.") && n.regs["icp0"] == nil || a.op == "ActivityConfig.IsLegacy") {
			delete(n.heap, a)
		}
	}
}

func failing(s *State) string {
	for r := range s.regs {
		if strings.HasPrefix(r, "fail:") && s.is(r) {
			return r[5:]
		}
	}
	return ""
}

// effective is the mapper that has to be applied: a patched one if there is one, otherwise the configured one.
func (m *taskModel) effective(s *State, cfg, patched string) (*Term, Tri) {
	if p := s.regs[patched]; p != nil {
		if s.eq(p, tNil) == No {
			return p, Yes
		}
	}
	c := s.regs[cfg]
	if c == nil {
		return nil, Maybe
	}
	return c, s.eq(c, tNil).not()
}

func (m *taskModel) hooks() Hooks {
	imm := immutableHook("TaskInst.flowInst", "TaskInst.task", "Instance.master", "IndependentInstance.patch", "IndependentInstance.interceptor", "TaskInst.workingData")
	return Hooks{
		Enum: func(t types.Type) []int64 { return nil },
		Immutable: func(f string) bool {
			return imm(f) || strings.HasPrefix(f, "Assertion.") || strings.HasPrefix(f, "TaskInterceptor.")
		},
		Ignore: func(f string) bool {
			switch f {
			case "TaskInterceptor.Result", "TaskInterceptor.Message", "TaskInst.traceContext", "TaskInst.logger", "Instance.logger":
				return true
			}
			return strings.HasPrefix(f, "Assertion.")
		},
		Coll: func(s *State, c *Term) (keys, elems []*Term, others, ok bool) {
			switch c {
			case m.mapped:
				return []*Term{s.regs["w:inK"]}, []*Term{s.regs["w:inV"]}, true, true
			case m.outputs:
				return []*Term{s.regs["w:outK"]}, []*Term{s.regs["w:outV"]}, true, true
			case m.values:
				return []*Term{s.regs["w:mK"]}, []*Term{s.regs["w:mV"]}, true, true
			}
			return nil, nil, false, false
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		// which inputs an interceptor overrides makes no difference
		IgnoreMap: func(s *State, mp *Term) bool { return mp == m.mapped || mp == s.heap[fld(m.ti, "TaskInst.inputs")] },
		NewElem: func(x *Exec, s *State, c, k, v *Term) {
			for _, e := range [][2]*Term{{m.mapped, s.regs["w:inK"]}, {m.outputs, s.regs["w:outK"]}, {m.values, s.regs["w:mK"]}} {
				if c == e[0] && k != nil {
					s.neq[ordered(k, e[1])] = true
				}
			}
		},
		Call:      m.call,
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MayPanic:  func(c *Call) bool { return false },
		RootPanic: func(x *Exec, s *State, pos token.Pos) {
			m.rep(x, s, "C20", "panic", pos, "a panic of the activity escapes the evaluation of its task")
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.splitBools(s, res, func(s *State, res []*Term) { m.ret(x, s, res, pos) })
		},
	}
}

func (m *taskModel) errOr(x *Exec, c *Call, why string, ok func(n *State) *Term, bad func(n *State, e *Term) *Term) (Action, []Outcome) {
	return ActModel, []Outcome{
		{Mod: func(n *State) bool { n.regs["$res"] = ok(n); return true }},
		{Mod: func(n *State) bool {
			n.note("%s fails", why)
			if why != "" {
				fails(n, why)
			}
			n.regs["$res"] = bad(n, newErr(x, n, strings.ReplaceAll(why, " ", "")+"Error"))
			return true
		}},
	}
}

func (m *taskModel) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	res := func(t *Term) (Action, []Outcome) { return ActModel, []Outcome{{Res: t}} }
	memo := func(key string, name string) (Action, []Outcome) {
		return res(option(s, key, tm.named(KSym, name, c.Sig.Results().At(0).Type())))
	}
	switch c.ID {
	case "definition.Task.ActivityConfig":
		return res(m.actCfg)
	case "definition.Task.ID", "definition.Task.Name", "instance.Instance.Name", "definition.Definition.Name":
		return res(tm.named(KSym, c.ID, types.Typ[types.String]))
	case "definition.ActivityConfig.InputMapper":
		return res(option(s, "in", m.inMap))
	case "definition.ActivityConfig.OutputMapper":
		return res(option(s, "out", m.outMap))
	case "support.Patch.GetInputMapper":
		return res(option(s, "pin", m.pInMap))
	case "support.Patch.GetOutputMapper":
		return res(option(s, "pout", m.pOutMap))
	case "core/data/mapper.Mapper.Apply":
		return m.apply(x, s, c)
	case "core/data.NewSimpleScope":
		o := nonNilResult(x, s, c.Sig.Results().At(0).Type(), "scope")
		s.heap[fld(o, "$values")] = c.all[0]
		return res(o)
	case "support.Interceptor.GetTaskInterceptor":
		k := c.Args[0]
		x.count("interceptors asked")
		s.inc("asked")
		return memo("icp:"+k.String(), "task interceptor "+k.String())
	case "core/data/schema.ValidationEnabled":
		return memo("validate?", "validation enabled")
	case "core/data/schema.ValidationBypass.BypassValidation":
		return memo("bypass?", "validation bypassed")
	case "definition.ActivityConfig.GetInputSchema":
		if s.eq(c.Args[0], s.regs["w:inK"]) == Yes {
			return memo("inSchema", "input schema")
		}
		return ActPure, nil
	case "definition.ActivityConfig.GetOutputSchema":
		if s.eq(c.Args[0], s.regs["w:outK"]) == Yes {
			return memo("outSchema", "output schema")
		}
		return ActPure, nil
	case "core/data/schema.Schema.Validate":
		x.count("validations")
		if c.Recv == s.regs["inSchema"] && s.eq(c.Args[0], s.regs["w:inV"]) == Yes {
			s.setNum("inValid", 1)
		}
		if c.Recv == s.regs["outSchema"] {
			s.setNum("outValid", 1)
		}
		return m.errOr(x, c, "validation", func(n *State) *Term { return tNil }, func(n *State, e *Term) *Term { return e })
	case "core/activity.Activity.Eval", "core/activity.AsyncActivity.PostEval":
		return m.eval(x, s, c)
	case "core/data/coerce.ToType", "core/data/coerce.ToBool":
		return m.errOr(x, c, "", func(n *State) *Term { n.setNum("other", 1); return mkTuple(x.fresh("value", nil), tNil) }, func(n *State, e *Term) *Term { return mkTuple(tNil, e) })
	case "core/data/coerce.ToArray":
		return m.errOr(x, c, "accumulation", func(n *State) *Term { return mkTuple(mkBag([]*Term{tStar, s.regs["w:prev"]}), tNil) }, func(n *State, e *Term) *Term { return mkTuple(tNil, e) })
	case "instance.Instance.SetValue":
		if c.Recv == m.inst {
			m.setValue(x, s, c)
		}
		return res(tNil)
	case "instance.Instance.GetValue":
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				n.setNum("old", 1)
				n.regs["$res"] = mkTuple(x.fresh("attribute", nil), tTrue)
				return true
			}},
			{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(tNil, tFalse); return true }},
		}
	case "definition.Task.LoopConfig":
		return res(option(s, "loop", m.lc))
	case "definition.LoopConfig.Accumulate":
		return memo("acc?", "accumulate")
	case "definition.LoopConfig.ApplyOutputOnAccumulate":
		return memo("applyOn?", "apply output mapper on accumulate")
	case "instance.TaskInst.getErrorObject", "instance.NewErrorObj", "instance.applyPrimitiveAssertion":
		return ActPure, nil
	}
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	if c.Fn != nil && InRepo(c.Fn) && !c.Invoke {
		if pk := fnPkg(c.Fn); pk != nil && pk.Path() == flowMod+"/instance" || c.Fn.Parent() != nil {
			if m.relevant[c.Fn] || c.Fn.Parent() != nil || len(c.Fn.Blocks) == 1 {
				return ActDefault, nil
			}
			// a helper that chooses what is used
			if r := c.Sig.Results(); r.Len() > 0 && !isErrType(r.At(r.Len()-1).Type()) {
				return ActDefault, nil
			}
		}
		if r := c.Sig.Results(); r.Len() == 1 && isErrType(r.At(0).Type()) {
			return m.errOr(x, c, "interception", func(n *State) *Term { return tNil }, func(n *State, e *Term) *Term { return e })
		}
		return ActPure, nil
	}
	if c.ID == "core/activity.NewError" {
		return res(nonNilResult(x, s, c.Sig.Results().At(0).Type(), "mockedError"))
	}
	if c.Invoke || c.Fn != nil && !InRepo(c.Fn) {
		return ActPure, nil
	}
	return ActDefault, nil
}

// apply is the application of a mapper.
func (m *taskModel) apply(x *Exec, s *State, c *Call) (Action, []Outcome) {
	pos := c.Instr.Pos()
	is := func(r string) bool { return s.regs[r] != nil && s.eq(c.Recv, s.regs[r]) == Yes }
	patchDecided := func(r string) bool {
		return s.eq(s.get("patch"), tNil) == Yes || s.regs[r] != nil && s.eq(s.regs[r], tNil) == Yes
	}
	scope := c.Args[0]
	switch {
	case is("in") || is("pin"):
		x.count("input mappings")
		if is("in") && !is("pin") && !patchDecided("pin") {
			m.rep(x, s, "C20", "patched mapper", pos, "the configured input mapper is applied although the flow may be patched with another one")
		}
		want := m.inst
		switch s.eq(s.get("wd"), tNil) {
		case No:
			want = s.get("wd")
		case Maybe:
			want = nil
		}
		if want == nil || s.eq(scope, want) != Yes {
			m.rep(x, s, "C20", "scope of the inputs", pos, "the input mapper is not applied to the data the task sees")
		}
		if s.inc("mappedIn") > 1 {
			m.rep(x, s, "C20", "inputs mapped twice", pos, "the inputs are mapped more than once")
		}
		return m.errOr(x, c, "input mapping", func(n *State) *Term { dropRegs(n, "wd"); return mkTuple(m.mapped, tNil) }, func(n *State, e *Term) *Term { return mkTuple(tNil, e) })
	case is("out") || is("pout"):
		x.count("output mappings")
		if is("out") && !is("pout") && !patchDecided("pout") {
			m.rep(x, s, "C21", "patched mapper", pos, "the configured output mapper is applied although the flow may be patched with another one")
		}
		if v := s.at(scope, "$values"); v == nil || s.eq(v, s.heap[fld(m.ti, "TaskInst.outputs")]) != Yes {
			m.rep(x, s, "C21", "scope of the outputs", pos, "the output mapper is not applied to the outputs of the activity")
		}
		if s.inc("mappedOut") > 1 {
			m.rep(x, s, "C21", "outputs mapped twice", pos, "the outputs are mapped more than once")
		}
		if w := failing(s); w != "" {
			m.rep(x, s, "C21", "outputs of a failed task", pos, "the outputs are mapped although the evaluation failed (%s)", w)
		}
		if !m.finished(s) {
			m.rep(x, s, "C21", "outputs too early", pos, "the outputs are mapped although the activity is not done")
		} else {
			m.checkedOut(x, s, pos)
		}
		return m.errOr(x, c, "output mapping", func(n *State) *Term {
			dropRegs(n, "out", "pout", "patch")
			n.heap[mkHas(m.values, n.regs["w:mK"])] = tTrue
			n.heap[mkKey(m.values, n.regs["w:mK"])] = n.regs["w:mV"]
			return mkTuple(m.values, tNil)
		}, func(n *State, e *Term) *Term {
			return mkTuple(tNil, e)
		})
	}
	return ActPure, nil
}

// finished: the activity is done, or it does not run at all.
func (m *taskModel) finished(s *State) bool {
	if s.num("evals") > 0 {
		return s.num("last") == 1
	}
	return m.post || m.suppressed(s)
}

// suppressed: an interceptor keeps the activity from running.
func (m *taskModel) suppressed(s *State) bool {
	for r, t := range s.regs {
		if !strings.HasPrefix(r, "icp:") || s.eq(t, tNil) != No {
			continue
		}
		for _, f := range []string{"TaskInterceptor.Skip", "TaskInterceptor.SkipExecution"} {
			if v := s.at(t, f); v != nil && s.decide(v) == Yes {
				return true
			}
		}
	}
	return false
}

func (m *taskModel) eval(x *Exec, s *State, c *Call) (Action, []Outcome) {
	pos := c.Instr.Pos()
	x.count("activity evaluations")
	post := c.ID == "core/activity.AsyncActivity.PostEval"
	if post != m.post {
		m.rep(x, s, "C20", "kind of evaluation", pos, "the activity is evaluated where it should be post-evaluated, or the other way round")
	}
	if s.inc("evals") > 1 {
		m.rep(x, s, "C20", "evaluated twice", pos, "the activity is evaluated more than once")
	}
	if c.Recv != m.act && s.eq(c.Recv, m.act) != Yes {
		m.rep(x, s, "C20", "another activity", pos, "another activity than the one of the task is evaluated")
	}
	if w := failing(s); w != "" {
		m.rep(x, s, "C20", "evaluated after a failure", pos, "the activity is evaluated although an earlier step failed (%s)", w)
	}
	ctx := c.Args[0]
	if ctx != m.ti {
		ok := false
		for a, v := range s.heap {
			if a.kind == KAddr && a.args[0] == ctx && v == m.ti {
				ok = true
			}
		}
		if !ok {
			m.rep(x, s, "C20", "context", pos, "the activity is not evaluated with the context of its own task")
		}
	}
	if !post {
		if s.eq(s.get("icp0"), tNil) != Yes {
			if m.suppressed(s) {
				m.rep(x, s, "C20", "suppressed activity", pos, "the activity is evaluated although it is skipped or mocked")
			}
			for _, f := range []string{"TaskInterceptor.Skip", "TaskInterceptor.SkipExecution"} {
				known := false
				n := 0
				for r, t := range s.regs {
					if !strings.HasPrefix(r, "icp:") {
						continue
					}
					n++
					if s.eq(t, tNil) == Yes {
						known = true
					} else if v := s.at(t, f); v != nil && s.decide(v) == No {
						known = true
					}
				}
				if !known || n == 0 {
					m.rep(x, s, "C20", "interceptor ignored", pos, "the activity is evaluated without asking whether it is skipped or mocked (%s)", f)
				}
			}
		}
		mp, has := m.effective(s, "in", "pin")
		switch {
		case mp == nil || has == Maybe:
			m.rep(x, s, "C20", "inputs not mapped", pos, "the activity may be evaluated without mapping its inputs")
		case has == Yes:
			v := s.heap[fld(m.ti, "TaskInst.inputs")]
			if s.num("mappedIn") != 1 || v == nil || s.eq(v, m.mapped) != Yes {
				m.rep(x, s, "C20", "inputs not mapped", pos, "the activity is evaluated without its mapped inputs")
			}
			m.validated(x, s, "C20", "in", pos)
		}
	}
	mk := func(kind int64) Outcome {
		return Outcome{Mod: func(n *State) bool {
			x.clobber(n, c.all)
			n.heap[fld(m.ti, "TaskInst.outputs")] = m.outputs
			n.heap[mkHas(m.outputs, n.regs["w:outK"])] = tTrue
			n.heap[mkKey(m.outputs, n.regs["w:outK"])] = n.regs["w:outV"]
			n.heap[mkHas(m.values, n.regs["w:mK"])] = tTrue
			n.heap[mkKey(m.values, n.regs["w:mK"])] = n.regs["w:mV"]
			n.setNum("last", kind)
			dropRegs(n, "in", "pin", "inSchema", "inValid", "bypass?", "icp:", "icp0", "asked", "wd", "mappedIn")
			switch kind {
			case 1:
				n.note("the activity is done")
				n.regs["$res"] = mkTuple(tTrue, tNil)
			case 2:
				n.note("the activity is not done")
				n.regs["$res"] = mkTuple(tFalse, tNil)
			case 3:
				n.note("the activity fails")
				fails(n, "activity")
				e := newErr(x, n, "activityError")
				n.regs["actErr"] = e
				n.regs["$res"] = mkTuple(x.fresh("done", types.Typ[types.Bool]), e)
			}
			return true
		}}
	}
	return ActModel, []Outcome{mk(1), mk(2), mk(3), {Panic: true, Mod: func(n *State) bool {
		x.clobber(n, c.all)
		n.note("the activity panics")
		n.setNum("last", 4)
		fails(n, "panic")
		return true
	}}}
}

// validated: the tracked input or output was checked against its schema, if that is required.
func (m *taskModel) validated(x *Exec, s *State, rule, what string, pos token.Pos) {
	if asked(s, "validate?") == No && s.regs["validate?"] != nil {
		return
	}
	if s.regs["validate?"] == nil {
		m.rep(x, s, rule, what+"puts not validated", pos, "the %sputs are not checked although validation may be enabled", what)
		return
	}
	if s.regs["bypass?"] != nil && asked(s, "bypass?") != No {
		return
	}
	sc := s.regs[what+"Schema"]
	if sc != nil && s.eq(sc, tNil) == Yes || s.is(what+"Valid") {
		return
	}
	m.rep(x, s, rule, what+"puts not validated", pos, "the %sputs are not checked against their schemas", what)
}

// checkedOut: the outputs have been checked before they are used.
func (m *taskModel) checkedOut(x *Exec, s *State, pos token.Pos) {
	if !m.post && !s.is("outChecked") {
		s.setNum("outChecked", 1)
		m.validated(x, s, "C21", "out", pos)
		dropRegs(s, "validate?", "bypass?", "outSchema", "outValid")
	}
}

func (m *taskModel) setValue(x *Exec, s *State, c *Call) {
	pos := c.Instr.Pos()
	x.count("attributes set")
	k, v := c.Args[0], c.Args[1]
	if s.eq(k, s.regs["w:mK"]) == Yes {
		if s.eq(v, s.regs["w:mV"]) != Yes {
			m.rep(x, s, "C21", "mapped value", pos, "a mapped output is set to another value")
		}
		if s.inc("setM") > 1 {
			m.rep(x, s, "C21", "set twice", pos, "a mapped output is set more than once")
		}
		return
	}
	if k.kind == KOp && k.op == "strcat" && k.args[0] == mkStr("_A.") {
		if s.inc("accs") > 1 {
			m.rep(x, s, "C21", "accumulated twice", pos, "the outputs are accumulated more than once")
		}
		if w := failing(s); w != "" || !m.finished(s) {
			m.rep(x, s, "C21", "accumulated too early", pos, "the outputs are accumulated although the activity is not done or failed")
		} else {
			m.checkedOut(x, s, pos)
		}
		_, es, oth := x.elements(s, v)
		own, prev := 0, 0
		for _, e := range es {
			switch {
			case e == s.regs["w:prev"] || s.eq(e, s.regs["w:prev"]) == Yes:
				prev++
			case e == m.outputs:
				m.rep(x, s, "C21", "shared outputs", pos, "the accumulated outputs are the ones the next iteration changes, not a copy")
				own++
			case e.kind == KObj:
				own++
				if w := s.heap[mkKey(e, s.regs["w:outK"])]; w == nil || s.eq(w, s.regs["w:outV"]) != Yes {
					m.rep(x, s, "C21", "copied outputs", pos, "an output is missing in the accumulated outputs")
				}
			}
		}
		if own != 1 {
			m.rep(x, s, "C21", "accumulated outputs", pos, "the outputs of an iteration are added %d times to the accumulated ones", own)
		}
		if s.is("old") && (prev != 1 || !oth) {
			m.rep(x, s, "C21", "earlier outputs", pos, "the outputs accumulated earlier are lost")
		}
	}
}

func (m *taskModel) ret(x *Exec, s *State, res []*Term, pos token.Pos) {
	x.count("results")
	done, err := s.decide(res[0]), s.eq(res[1], tNil).not()
	rule := "C20"
	w := failing(s)
	switch w {
	case "accumulation", "output mapping":
		rule = "C21"
	}
	if w != "" {
		if err != Yes {
			m.rep(x, s, rule, "error dropped", pos, "the evaluation reports no error although it failed (%s)", w)
		}
		if e := s.regs["actErr"]; e != nil && err == Yes && s.eq(res[1], e) != Yes {
			m.rep(x, s, "C20", "another error", pos, "another error than the one of the activity is reported")
		}
		return
	}
	if err == Maybe {
		m.rep(x, s, "C20", "result", pos, "it is not determined whether the evaluation reports an error")
		return
	}
	if m.post {
		re := s.heap[fld(m.ti, "TaskInst.returnError")]
		if err == No && (re == nil || s.eq(re, tNil) != Yes) {
			m.rep(x, s, "C20", "return error", pos, "the error a subflow returned is not reported")
		}
		if err == Yes && (re != nil && s.eq(re, res[1]) == Yes) {
			return
		}
	}
	if err == Yes {
		if s.regs["icp0"] != nil && s.eq(s.get("icp0"), tNil) == Yes {
			m.rep(x, s, "C20", "spurious error", pos, "an error is reported although nothing failed")
		}
		return
	}
	fin := m.finished(s)
	if done == Maybe {
		m.rep(x, s, "C20", "result", pos, "it is not determined whether the task is done")
		return
	}
	if (done == Yes) != fin {
		m.rep(x, s, "C20", "done", pos, "the task is reported done although its activity is not, or the other way round")
		return
	}
	if s.num("evals") == 0 && !m.post && !m.suppressed(s) {
		m.rep(x, s, "C20", "not evaluated", pos, "the activity is not evaluated although it is neither skipped nor mocked")
	}
	acc := s.regs["loop"] != nil && s.eq(s.regs["loop"], tNil) == No && asked(s, "acc?") == Yes
	noacc := s.regs["loop"] != nil && (s.eq(s.regs["loop"], tNil) == Yes || asked(s, "acc?") == No)
	if !fin {
		if s.num("accs") > 0 || s.num("setM") > 0 {
			m.rep(x, s, "C21", "outputs too early", pos, "outputs are set although the activity is not done")
		}
		return
	}
	m.checkedOut(x, s, pos)
	if !acc && !noacc {
		m.rep(x, s, "C21", "accumulation", pos, "the outputs of a task that is done are not handled according to its loop")
		return
	}
	if acc != (s.num("accs") == 1) {
		m.rep(x, s, "C21", "accumulation", pos, "the outputs are accumulated although the loop does not ask for it, or the other way round")
	}
	if acc && (m.post || asked(s, "applyOn?") == No) {
		if s.num("mappedOut") > 0 {
			m.rep(x, s, "C21", "accumulated outputs mapped", pos, "the outputs are mapped although they are accumulated")
		}
		return
	}
	if s.num("mappedOut") == 1 && s.num("setM") == 1 {
		return
	}
	mp, has := m.effective(s, "out", "pout")
	switch {
	case s.num("mappedOut") == 0 && mp == nil || has == Maybe:
		m.rep(x, s, "C21", "outputs not mapped", pos, "the outputs of a task that is done may not be mapped")
	case has == Yes || s.num("mappedOut") > 0:
		m.rep(x, s, "C21", "outputs not mapped", pos, "the mapped outputs of a task that is done are not set in the flow")
	}
}

func taskEval(c *Ctx, prop string) {
	for _, post := range []bool{false, true} {
		m := newTaskModel(c.P, post)
		name := "EvalActivity"
		if post {
			name = "PostEvalActivity"
		}
		x := newExec(c.P, prop, m.hooks())
		fn := c.P.Method("instance", "TaskInst", name)
		x.Run(fn, m.state(), []*Term{m.ti})
		if profOn {
			println(name, x.states)
		}
		c.absorb(x, func(rule string) bool { return rule == prop })
		c.must(name+": activity evaluations", x.counts["activity evaluations"], 1)
		c.must(name+": results", x.counts["results"], 4)
		if prop == "C20" && !post {
			c.must(name+": input mappings", x.counts["input mappings"], 1)
			c.must(name+": validations", x.counts["validations"], 1)
		}
		if prop == "C21" {
			c.must(name+": output mappings", x.counts["output mappings"], 1)
			c.must(name+": attributes set", x.counts["attributes set"], 1)
		}
	}
}

func init() {
	register("C20", func(c *Ctx) { taskEval(c, "C20") }, "order of mapping, interception, validation and evaluation on every path of a task's evaluation")
	register("C21", func(c *Ctx) { taskEval(c, "C21") }, "handling of the outputs on every path of a task's evaluation")
}
