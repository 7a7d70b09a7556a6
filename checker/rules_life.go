package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The monitor of a run: from the request to the end of the goroutine that executes the flow (C01 to C04).

// fieldWriters is the set of the repository's functions from which a static call chain reaches a store to the field.
func fieldWriters(p *Program, fields ...string) map[*ssa.Function]bool {
	want := map[string]bool{}
	for _, f := range fields {
		want[f] = true
	}
	seed := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && want[fieldSel(pt.Elem(), fa.Field)] {
						seed[fn] = true
					}
				}
			}
		}
	}
	return callersOf(p, seed)
}

// callersOf closes a set of functions under static callers (a closure is called by the function that makes it).
func callersOf(p *Program, seed map[*ssa.Function]bool) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					callers[mc.Fn.(*ssa.Function)] = append(callers[mc.Fn.(*ssa.Function)], fn)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						callers[f] = append(callers[f], fn)
					}
				}
			}
		}
	}
	res := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for f := range seed {
		res[f] = true
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if !res[g] {
				res[g] = true
				work = append(work, g)
			}
		}
	}
	return res
}

// globalsOf lists the package variables of the repository whose type satisfies want.
func globalsOf(p *Program, want func(g *ssa.Global) bool) map[*Term]bool {
	res := map[*Term]bool{}
	for _, pk := range p.Pkgs {
		sp := p.SSA.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && want(g) {
				res[globalTerm(g)] = true
			}
		}
	}
	return res
}

// initializedBy: the variable is initialised with the result of the function.
func initializedBy(g *ssa.Global, id string) bool {
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if c, ok := st.Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
					if o, ok := c.Call.StaticCallee().Object().(*types.Func); ok {
						return funcID(o) == id
					}
				}
			}
		}
	}
	return false
}

type lifeModel struct {
	p            *Program
	completed    int64
	failed       int64
	writers      map[*ssa.Function]bool // may change the status of an instance
	protocol     map[*ssa.Function]bool // takes part in the protocol with the caller or the recorder
	own          map[*ssa.Function]bool // helpers of the action: they may choose the instance or the options of the run
	limits       map[*Term]bool
	recorders    map[*Term]bool
	withRecorder bool
	limit        *Term
	recorder     *Term
	detach       *Term
	retID        *Term
	runID        *Term
	initStep     *Term
	initial      *Term
	alwaysID     bool
}

func newLifeModel(p *Program) *lifeModel {
	m := &lifeModel{p: p}
	m.completed = p.constVal("model", "FlowStatusCompleted")
	m.failed = p.constVal("model", "FlowStatusFailed")
	m.writers = fieldWriters(p, "Instance.status")
	for f := range reaching(p, func(id string) bool {
		return id == "instance.IndependentInstance.DoStep" || id == "instance.IndependentInstance.DoStepInLoop"
	}) {
		m.writers[f] = true
	}
	m.protocol = reaching(p, func(id string) bool {
		switch id {
		case "core/action.ResultHandler.HandleResult", "core/action.ResultHandler.Done", "instance.IndependentInstance.DoStep", "instance.IndependentInstance.DoStepInLoop",
			"state.Recorder.RecordStart", "state.Recorder.RecordDone":
			return true
		}
		return false
	})
	m.own = map[*ssa.Function]bool{}
	asserting := reaching(p, func(id string) bool { return id == "support.Interceptor.GetTaskInterceptor" })
	for _, fn := range p.Funcs {
		if pk := fnPkg(fn); pk != nil && (pk.Path() == flowMod || pk.Path() == flowMod+"/ondemand") && !asserting[fn] {
			m.own[fn] = true
		}
	}
	m.limits = globalsOf(p, func(g *ssa.Global) bool { return initializedBy(g, "util.GetMaxStepCount") })
	m.detach = tm.named(KSym, "detached run", types.Typ[types.Bool])
	m.initStep = tm.named(KSym, "initial step", types.Typ[types.Int])
	m.initial = tm.named(KSym, "initial state", types.NewPointer(p.Named("instance", "IndependentInstance")))
	m.runID = tm.named(KSym, "id of the run", types.Typ[types.String])
	m.retID = tm.named(KSym, "id asked for", types.Typ[types.Bool])
	m.recorders = globalsOf(p, func(g *ssa.Global) bool {
		n, ok := types.Unalias(g.Type().Underlying().(*types.Pointer).Elem()).(*types.Named)
		return ok && n.Obj().Name() == "Recorder" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == flowMod+"/state"
	})
	return m
}

func (m *lifeModel) rep(x *Exec, s *State, prop, construct string, pos token.Pos, format string, args ...interface{}) {
	old := x.rule
	x.rule = prop
	x.report(s, construct, pos, format, args...)
	x.rule = old
}

func (m *lifeModel) instance(s *State) *Term {
	inst := s.regs["inst"]
	if inst == nil {
		return nil
	}
	return s.at(inst, "IndependentInstance.Instance")
}

func (m *lifeModel) status(s *State) *Term {
	I := m.instance(s)
	if I == nil {
		return nil
	}
	return s.at(I, "Instance.status")
}

// option is the value of an option of the request.
func option(s *State, r string, sym *Term) *Term {
	if s.regs[r] == nil {
		s.regs[r] = sym
	}
	return s.regs[r]
}

// asked: the option is set; a request without options sets none.
func asked(s *State, r string) Tri {
	if s.regs[r] == nil {
		return No
	}
	return s.decide(s.regs[r])
}

func (m *lifeModel) setInst(x *Exec, s *State, inst *Term) {
	s.regs["inst"] = inst
	I := s.at(inst, "IndependentInstance.Instance")
	if I == nil {
		I = x.fresh("instance", types.NewPointer(m.p.Named("instance", "Instance")))
		s.heap[fld(inst, "IndependentInstance.Instance")] = I
	}
	s.neq[ordered(I, tNil)] = true
}

// forget drops what an execution step may change.
func (m *lifeModel) forget(x *Exec, s *State, c *Call) {
	x.clobber(s, c.all)
}

func (m *lifeModel) hooks() Hooks {
	imm := immutableHook("IndependentInstance.Instance")
	return Hooks{
		Enum: enumHook(m.p, "model.FlowStatus"),
		Immutable: func(f string) bool {
			return imm(f) || strings.HasPrefix(f, "RunOptions.") || strings.HasPrefix(f, "FlowAction.")
		},
		Ignore: func(f string) bool {
			switch f {
			case "Instance.lock", "Instance.logger", "Instance.attrs", "Instance.id", "Instance.tracingCtx", "IndependentInstance.startTime", "IndependentInstance.interceptor",
				"Instance.flowDef", "Instance.master":
				return true
			}
			return strings.HasPrefix(f, "TaskInterceptor.") || strings.HasPrefix(f, "Assertion.") || strings.HasPrefix(f, "Interceptor.")
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			switch {
			case m.limits[a]:
				return m.limit
			case m.recorders[a]:
				return m.recorder
			}
			if a.kind == KAddr && a.op == "RunOptions.DetachExecution" {
				return option(s, "detach?", m.detach)
			}
			if a.kind == KAddr && a.op == "RunOptions.InitStepId" {
				return option(s, "initStep", m.initStep)
			}
			if a.kind == KAddr && a.op == "RunOptions.InitialState" {
				if s.regs["initial"] == nil {
					m.setInst(x, s, m.initial)
				}
				return option(s, "initial", m.initial)
			}
			if a.kind == KAddr && a.op == "RunOptions.ReturnID" {
				return option(s, "retid?", m.retID)
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: m.call,
		MapUpdate: func(x *Exec, s *State, mp, k, v *Term, pos token.Pos) {
			if k == mkStr("id") && v != nil && s.regs["runID"] != nil {
				if s.eq(v, s.get("runID")) == Yes {
					s.regs["idMap"] = mp
				} else if s.regs["idMap"] == mp {
					delete(s.regs, "idMap")
				}
			}
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			m.end(x, s, res, pos)
		},
		Branch: func(x *Exec, s *State, cond *Term, v bool) {
			if i := s.regs["initStep"]; i != nil && s.less(tZero, i) != Maybe {
				m.base(s)
			}
		},
		RootPanic: func(x *Exec, s *State, pos token.Pos) {},
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
	}
}

func (m *lifeModel) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	pos := c.Instr.Pos()
	after := func(what string) {
		if s.is("done") && s.regs["detached"] != tTrue {
			m.rep(x, s, "C01", what+" after the end was signalled", pos, "%s happens after the end of the run was signalled", what)
		}
	}
	switch c.ID {
	case "instance.NewIndependentInstance":
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				i := nonNilResult(x, n, c.Sig.Results().At(0).Type(), "inst")
				m.setInst(x, n, i)
				n.regs["$res"] = mkTuple(i, tNil)
				return true
			}},
			{Mod: func(n *State) bool {
				n.regs["$res"] = mkTuple(tNil, newErr(x, n, "createError"))
				return true
			}},
		}
	case "core/action.ResultHandler.Done":
		x.count("end signalled")
		if c.Recv != s.regs["handler"] {
			m.rep(x, s, "C01", "other handler", pos, "the end is signalled to another handler than the one of the run")
			return ActPure, nil
		}
		if s.inc("done") > 1 {
			m.rep(x, s, "C01", "signalled twice", pos, "the end of a run is signalled more than once")
		}
		if asked(s, "detach?") == Yes {
			s.regs["detached"] = tTrue
		}
		return ActPure, nil
	case "core/action.ResultHandler.HandleResult":
		x.count("results")
		after("a result")
		m.result(x, s, c, pos)
		return ActPure, nil
	case "instance.IndependentInstance.DoStep", "instance.IndependentInstance.DoStepInLoop":
		x.count("steps")
		after("a step")
		if s.regs["inst"] == nil || s.eq(c.Recv, s.get("inst")) != Yes {
			m.rep(x, s, "C02", "another instance", pos, "another flow instance than the one of the run is executed")
		}
		if s.is("stopped") {
			m.rep(x, s, "C04", "step after the limit", pos, "the flow is executed further although the step limit was reported")
		}
		if s.is("ended") {
			m.rep(x, s, "C02", "step after the result", pos, "the flow is executed further after its terminal result was delivered")
		}
		if !s.is("stepped") && s.num("done") == 0 {
			if asked(s, "detach?") != No {
				m.rep(x, s, "C01", "detached", pos, "the end of a detached run is not signalled before the flow is executed")
			}
		}
		m.recordedBefore(x, s, pos)
		m.base(s)
		s.setNum("stepped", 1)
		if c.ID == "instance.IndependentInstance.DoStepInLoop" {
			return ActModel, []Outcome{
				{Mod: func(n *State) bool { m.forget(x, n, c); n.regs["$res"] = tNil; return true }},
				{Mod: func(n *State) bool {
					m.forget(x, n, c)
					n.setNum("stopped", 1)
					n.note("the step limit is reached")
					n.regs["$res"] = newErr(x, n, "limitError")
					return true
				}},
			}
		}
		st := m.status(s)
		if st == nil || s.less(st, mkInt(m.completed)) != Yes {
			m.rep(x, s, "C04", "step of an ended flow", pos, "a step is executed although the flow is not known to be in progress")
		}
		// the number of steps done so far in this run is below the limit
		if s.less(s.get("#steps"), m.limit) != Yes {
			m.rep(x, s, "C04", "limit", pos, "a step is executed although the number of steps may have reached the limit")
		}
		if s.regs["pendingRecord"] == tTrue && m.withRecorder {
			m.rep(x, s, "C03", "step not recorded", pos, "a step is executed although the previous one was not recorded")
		}
		return ActModel, []Outcome{{Mod: func(n *State) bool {
			m.forget(x, n, c)
			n.regs["#steps"] = addInt(n.get("#steps"), 1)
			n.regs["pendingRecord"] = tTrue
			b := x.fresh("hasWork", types.Typ[types.Bool])
			n.regs["hasWork"] = b
			n.regs["$res"] = b
			return true
		}}}
	case "instance.IndependentInstance.Start", "instance.Instance.UpdateAttrs":
		x.count("start")
		if c.Recv != s.regs["inst"] && c.Recv != m.instance(s) {
			m.rep(x, s, "C02", "another instance", pos, "another flow instance than the one of the run is started")
		}
		if s.inc("begun") > 1 {
			m.rep(x, s, "C02", "started twice", pos, "the flow instance is started twice")
		}
		if s.is("stepped") {
			m.rep(x, s, "C02", "started late", pos, "the flow instance is started after it was executed")
		}
		return ActModel, []Outcome{{Mod: func(n *State) bool { m.forget(x, n, c); return true }}}
	case "instance.Instance.GetReturnData":
		if I := m.instance(s); I != nil && s.eq(c.Recv, I) == Yes {
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				d, e := x.fresh("returnData", c.Sig.Results().At(0).Type()), x.fresh("returnError", c.Sig.Results().At(1).Type())
				n.regs["rdata"], n.regs["rerr"] = d, e
				n.regs["$res"] = mkTuple(d, e)
				return true
			}}}
		}
	case "instance.Instance.GetError":
		if I := m.instance(s); I != nil && s.eq(c.Recv, I) == Yes {
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				e := x.fresh("flowError", c.Sig.Results().At(0).Type())
				n.regs["ferr"] = e
				n.regs["$res"] = e
				return true
			}}}
		}
	case "instance.Instance.ID":
		if I := m.instance(s); I != nil && s.eq(c.Recv, I) == Yes {
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				if n.regs["runID"] == nil {
					n.regs["runID"] = m.runID
				}
				n.regs["$res"] = n.get("runID")
				return true
			}}}
		}
	case "instance.IndependentInstance.SetResultHandler":
		if c.Args[0] == s.regs["handler"] {
			s.setNum("handlerSet", 1)
		}
		if s.is("stepped") {
			m.rep(x, s, "C02", "reply handler", pos, "the handler for replies is set after the flow was executed")
		}
		return ActPure, nil
	case "instance.NewStateInstanceRecorder":
		return ActModel, []Outcome{{Mod: func(n *State) bool {
			r := nonNilResult(x, n, c.Sig.Results().At(0).Type(), "instanceRecorder")
			if len(c.Args) > 0 && n.eq(c.Args[0], m.recorder) == Yes {
				n.regs["instRec"] = r
			}
			n.regs["$res"] = r
			return true
		}}}
	case "state.Recorder.RecordStart":
		x.count("start recorded")
		if !m.withRecorder {
			m.rep(x, s, "C03", "no recorder", pos, "the start is recorded although there is no recorder")
		}
		if s.inc("recStart") > 1 {
			m.rep(x, s, "C03", "start recorded twice", pos, "the start of a run is recorded twice")
		}
		if s.is("stepped") || s.is("begun") {
			m.rep(x, s, "C03", "start recorded late", pos, "the start of a run is recorded after the flow was started")
		}
		return ActPure, nil
	case "state.Recorder.RecordDone":
		x.count("end recorded")
		after("recording the end")
		if !m.withRecorder {
			m.rep(x, s, "C03", "no recorder", pos, "the end is recorded although there is no recorder")
		}
		if s.inc("recDone") > 1 {
			m.rep(x, s, "C03", "end recorded twice", pos, "the end of a run is recorded twice")
		}
		if s.num("recStart") == 0 {
			m.rep(x, s, "C03", "end without start", pos, "the end of a run is recorded although its start was not")
		}
		return ActPure, nil
	case "state.Recorder.RecordStep", "state.Recorder.RecordSnapshot":
		return ActPure, nil
	case "instance.IndependentInstance.RecordState":
		x.count("steps recorded")
		after("recording a step")
		s.regs["pendingRecord"] = tFalse
		if !s.is("stepped") {
			s.inc("rec0")
		}
		if s.is("recDone") {
			m.rep(x, s, "C03", "step recorded late", pos, "a step is recorded after the end of the run")
		}
		return ActPure, nil
	case "instance.IndependentInstance.CurrentStep":
		if !s.is("stepped") {
			s.inc("step0")
		}
		return ActPure, nil
	case "instance.IsConcurrentTaskExcutionEnabled":
		return ActPure, nil
	case "util.GetMaxStepCount":
		return ActModel, []Outcome{{Res: m.limit}}
	case "core/action.GetCurrentRunner", "core/trigger.GetHandlerEventIdFromContext":
		return ActPure, nil
	case "core/support/trace.Enabled", "core/support/trace.Tracer.StartTrace", "core/support/trace.GetTracer":
		// tracing is explored too: starting the trace can fail
		if c.ID == "core/support/trace.Enabled" {
			return ActPure, nil
		}
		if c.ID == "core/support/trace.GetTracer" {
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.regs["$res"] = nonNilResult(x, n, c.Sig.Results().At(0).Type(), "tracer")
				return true
			}}}
		}
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				n.regs["$res"] = mkTuple(nonNilResult(x, n, c.Sig.Results().At(0).Type(), "trace"), tNil)
				return true
			}},
			{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(tNil, newErr(x, n, "traceError")); return true }},
		}
	}
	if c.Fn != nil && InRepo(c.Fn) && !c.Invoke {
		if m.protocol[c.Fn] || c.Fn.Parent() != nil || m.own[c.Fn] {
			return ActDefault, nil
		}
		res := c.Sig.Results()
		if n := res.Len(); n > 0 && isErrType(res.At(n-1).Type()) {
			// a call that can fail
			var outs []Outcome
			for _, fail := range []bool{false, true} {
				fail := fail
				outs = append(outs, Outcome{Mod: func(st *State) bool {
					if m.writers[c.Fn] {
						m.forget(x, st, c)
					}
					var rs []*Term
					for i := 0; i < n-1; i++ {
						rs = append(rs, x.fresh(c.name(), res.At(i).Type()))
					}
					e := tNil
					if fail {
						e = newErr(x, st, c.name()+"Error")
					}
					rs = append(rs, e)
					if len(rs) == 1 {
						st.regs["$res"] = rs[0]
					} else {
						st.regs["$res"] = mkTuple(rs...)
					}
					return true
				}})
			}
			return ActModel, outs
		}
		if m.writers[c.Fn] {
			return ActOpaque, nil
		}
		if c.ID == "instance.Instance.Status" {
			return ActDefault, nil
		}
		if hasPtrTo(firstType(res), "Interceptor") || hasPtrTo(firstType(res), "TaskInterceptor") {
			return ActPure, nil
		}
		return ActPure, nil
	}
	if c.Invoke && strings.HasPrefix(c.ID, "core/") {
		return ActPure, nil
	}
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	if c.Fn != nil && !InRepo(c.Fn) {
		return ActPure, nil
	}
	return ActDefault, nil
}

func firstType(t *types.Tuple) types.Type {
	if t.Len() == 0 {
		return types.Typ[types.Int]
	}
	return t.At(0).Type()
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (s *State) panicking() bool {
	for _, f := range s.frames {
		if f.panicking {
			return true
		}
	}
	return false
}

func (m *lifeModel) recordedBefore(x *Exec, s *State, pos token.Pos) {
	if s.is("stepped") || !m.withRecorder {
		return
	}
	if s.num("recStart") != 1 {
		m.rep(x, s, "C03", "start not recorded", pos, "the flow is executed although its start was not recorded")
	}
	if s.num("rec0")+s.num("step0") == 0 {
		m.rep(x, s, "C03", "initial state not recorded", pos, "the flow is executed although the state it starts from was not recorded")
	}
}

// base starts the count of the steps: a restarted run continues the count of the run it repeats.
func (m *lifeModel) base(s *State) {
	if s.is("counting") {
		return
	}
	s.setNum("counting", 1)
	if i := s.regs["initStep"]; i != nil && s.less(tZero, i) == Yes {
		s.regs["#steps"] = addInt(i, -1)
	}
}

// result classifies a result given to the caller.
func (m *lifeModel) result(x *Exec, s *State, c *Call, pos token.Pos) {
	if c.Recv != s.regs["handler"] {
		m.rep(x, s, "C02", "other handler", pos, "a result is given to another handler than the one of the run")
		return
	}
	m.base(s)
	d, e := c.Args[0], c.Args[1]
	st := m.status(s)
	is := func(v int64) Tri {
		if st == nil {
			return Maybe
		}
		return s.eq(st, mkInt(v))
	}
	terminal := func(kind string) {
		if s.inc("ended") > 1 {
			m.rep(x, s, "C02", "second result", pos, "a second terminal result is delivered")
		}
		s.setNum("over", 1)
		x.count("terminal results: " + kind)
	}
	if s.regs["rdata"] != nil && s.eq(d, s.get("rdata")) == Yes && s.eq(e, s.get("rerr")) == Yes {
		terminal("completed")
		s.setNum("kind", 1)
		if is(m.completed) != Yes {
			m.rep(x, s, "C02", "return data", pos, "the return data is delivered although the flow is not known to be completed")
		}
		return
	}
	if s.regs["ferr"] != nil && s.eq(e, s.get("ferr")) == Yes {
		terminal("failed")
		s.setNum("kind", 2)
		if is(m.failed) != Yes {
			m.rep(x, s, "C02", "flow error", pos, "the error of the flow is delivered although the flow is not known to have failed")
		}
		if s.eq(d, tNil) != Yes {
			m.rep(x, s, "C02", "data with an error", pos, "data is delivered together with the error of the flow")
		}
		return
	}
	if s.eq(e, tNil) == No {
		terminal("limit")
		s.setNum("kind", 3)
		if s.eq(d, tNil) != Yes {
			m.rep(x, s, "C02", "data with an error", pos, "data is delivered together with an error")
		}
		if is(m.completed) != No || is(m.failed) != No && !s.is("stopped") {
			m.rep(x, s, "C02", "limit error", pos, "an error is delivered although the flow may have completed or failed by itself")
		}
		if !s.is("stopped") && s.less(s.get("#steps"), m.limit) != No && s.is("stepped") {
			// a loop that stopped for another reason than the limit
			if hw := s.regs["hasWork"]; hw == nil || s.decide(hw) != No {
				m.rep(x, s, "C04", "limit error", pos, "the step limit is reported although it may not have been reached")
			}
		}
		s.setNum("stopped", 1)
		return
	}
	if s.eq(d, tNil) == Yes && s.eq(e, tNil) == Yes {
		// a failure that an assertion of the tester expects
		terminal("expected failure")
		s.setNum("kind", 2)
		if is(m.failed) != Yes {
			m.rep(x, s, "C02", "empty result", pos, "an empty result is delivered although the flow is not known to have failed")
		}
		return
	}
	if !s.is("stepped") && d.kind == KObj && d.i == 1 {
		x.count("id results")
		if asked(s, "retid?") != Yes && !m.alwaysID {
			m.rep(x, s, "C02", "id not asked for", pos, "the id of the flow instance is delivered although it was not asked for")
		}
		if s.regs["idMap"] == nil || s.eq(d, s.get("idMap")) != Yes {
			m.rep(x, s, "C02", "id", pos, "what is delivered as the id of the flow instance is not known to be its id")
		}
		if s.inc("ids") > 1 {
			m.rep(x, s, "C02", "second id", pos, "the id of the flow instance is delivered twice")
		}
		return
	}
	m.rep(x, s, "C02", "unexpected result", pos, "a result is delivered that is neither the return data, nor the error of the flow, nor an error of the run")
}

// end checks a run that is over.
func (m *lifeModel) end(x *Exec, s *State, res []*Term, pos token.Pos) {
	if len(res) != 1 {
		return
	}
	rejected := s.eq(res[0], tNil)
	if s.num("done") == 0 && s.num("stepped") == 0 && rejected != Yes {
		x.count("rejections")
		if s.num("ended")+s.num("ids") > 0 {
			m.rep(x, s, "C01", "result of a rejected run", pos, "a result is delivered although the run is rejected")
		}
		if s.num("recStart") > 0 {
			m.rep(x, s, "C03", "rejected run recorded", pos, "the start of a run that is rejected is recorded")
		}
		if s.num("begun") > 0 {
			m.rep(x, s, "C01", "rejected run started", pos, "the flow of a run that is rejected was started")
		}
		return
	}
	x.count("accepted runs")
	if rejected != Yes {
		m.rep(x, s, "C01", "rejected but executed", pos, "an error is returned although the run was executed or its end signalled")
	}
	if s.num("done") != 1 {
		m.rep(x, s, "C01", "not signalled", pos, "the end of an accepted run is signalled %d times", s.num("done"))
	}
	st := m.status(s)
	is := func(v int64) Tri {
		if st == nil {
			return Maybe
		}
		return s.eq(st, mkInt(v))
	}
	if s.num("begun") != 1 {
		m.rep(x, s, "C02", "not started", pos, "the flow of an accepted run is started %d times", s.num("begun"))
	}
	ended := s.num("ended")
	comp, fail := is(m.completed), is(m.failed)
	switch {
	case ended == 0 && comp != No:
		m.rep(x, s, "C02", "no result of a completed flow", pos, "no result is delivered although the flow may have completed")
	case ended == 0 && fail != No:
		m.rep(x, s, "C02", "no result of a failed flow", pos, "no result is delivered although the flow may have failed")
	case ended == 0 && s.is("stopped"):
		m.rep(x, s, "C02", "no result at the limit", pos, "no result is delivered although the step limit stopped the flow")
	case ended == 0 && st != nil && s.less(st, mkInt(m.completed)) == No:
		// cancelled: nothing is owed
	case ended == 0 && s.regs["hasWork"] == nil && s.num("stepped") == 0:
		m.rep(x, s, "C04", "not executed", pos, "the flow is neither executed nor is the step limit reported")
	case ended == 0 && s.regs["hasWork"] != nil && s.decide(s.regs["hasWork"]) != No:
		m.rep(x, s, "C04", "limit not reported", pos, "a flow that still has work is abandoned without an error")
	}
	if m.withRecorder {
		if s.num("recStart") != 1 {
			m.rep(x, s, "C03", "start not recorded", pos, "the start of a run is recorded %d times", s.num("recStart"))
		}
		if s.num("recDone") != 1 {
			m.rep(x, s, "C03", "end not recorded", pos, "the end of a run is recorded %d times", s.num("recDone"))
		}
		if s.regs["pendingRecord"] == tTrue {
			m.rep(x, s, "C03", "last step not recorded", pos, "the last step of a run is not recorded")
		}
	}
}

// stepHooks watches the execution of the queue: how many tasks a step executes, and that the loop stops at the limit.
func (m *lifeModel) stepHooks() Hooks {
	h := m.hooks()
	evals := reaching(m.p, func(id string) bool { return id == "model.TaskBehavior.Eval" || id == "model.TaskBehavior.PostEval" })
	pops := reaching(m.p, func(id string) bool { return id == "core/support.SyncQueue.Pop" })
	writers := fieldWriters(m.p, "Instance.status")
	active := m.p.constVal("model", "FlowStatusActive")
	h.Branch = nil
	h.Call = func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		pos := c.Instr.Pos()
		switch c.ID {
		case "core/support.SyncQueue.Pop":
			x.count("work items taken")
			return ActModel, []Outcome{
				{Mod: func(n *State) bool {
					n.regs["#popped"] = addInt(n.get("#popped"), 1)
					n.regs["$res"] = mkTuple(nonNilResult(x, n, c.Sig.Results().At(0).Type(), "item"), tTrue)
					return true
				}},
				{Mod: func(n *State) bool {
					n.setNum("empty", 1)
					n.regs["$res"] = mkTuple(tNil, tFalse)
					return true
				}},
			}
		case "model.TaskBehavior.Eval", "model.TaskBehavior.PostEval":
			x.count("executions")
			if s.less(s.get("#evals"), m.limit) != Yes && s.regs["single"] == nil {
				m.rep(x, s, "C04", "limit", pos, "a task is executed although the number of steps may have reached the limit")
			}
			if s.regs["single"] == tTrue && s.less(s.get("#evals"), mkInt(1)) != Yes {
				m.rep(x, s, "C04", "two tasks", pos, "one step executes more than one task")
			}
			if s.less(s.get("#evals"), s.get("#popped")) != Yes {
				m.rep(x, s, "C04", "work item", pos, "a task is executed without a work item")
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				m.forget(x, n, c)
				n.regs["#evals"] = addInt(n.get("#evals"), 1)
				rs := c.Sig.Results()
				var ts []*Term
				for i := 0; i < rs.Len(); i++ {
					ts = append(ts, x.fresh("eval", rs.At(i).Type()))
				}
				n.regs["$res"] = mkTuple(ts...)
				return true
			}}}
		case "util.GetMaxStepCount":
			return ActModel, []Outcome{{Res: m.limit}}
		case "instance.IsConcurrentTaskExcutionEnabled":
			return ActPure, nil
		}
		if c.Fn != nil && InRepo(c.Fn) && !c.Invoke {
			if evals[c.Fn] || pops[c.Fn] || c.Fn.Parent() != nil || c.ID == "instance.Instance.Status" {
				return ActDefault, nil
			}
			if writers[c.Fn] {
				return ActOpaque, nil
			}
			return ActPure, nil
		}
		if c.Invoke && strings.HasPrefix(c.ID, "core/") {
			return ActPure, nil
		}
		if a, o := stdCall(x, s, c); a != ActDefault {
			return a, o
		}
		if c.Fn != nil && !InRepo(c.Fn) {
			return ActPure, nil
		}
		return ActDefault, nil
	}
	h.FnReturn = nil
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 1 {
			return
		}
		st := m.status(s)
		idle := st != nil && s.eq(st, mkInt(active)) == No
		x.count("step ends")
		if s.regs["single"] == tTrue {
			took := s.less(tZero, s.get("#popped")) == Yes
			switch s.decide(res[0]) {
			case No:
				if took {
					m.rep(x, s, "C04", "no work reported", pos, "a step that executed a task reports that there is no work")
				}
				if !idle && !s.is("empty") {
					m.rep(x, s, "C04", "queue not looked at", pos, "a step of an active flow reports that there is no work without looking into the queue")
				}
			case Yes:
				if !took {
					m.rep(x, s, "C04", "work reported", pos, "a step that executed nothing reports work")
				}
			}
			return
		}
		if s.eq(res[0], tNil) == Yes {
			if !idle {
				m.rep(x, s, "C04", "loop left", pos, "the loop ends without an error although the flow may be active")
			}
		} else if s.less(m.limit, s.get("#popped")) != Yes {
			m.rep(x, s, "C04", "limit error", pos, "the step limit is reported although it may not have been reached")
		}
	}
	return h
}

type lifeResult struct {
	xs  []*Exec
	tot map[string]int
}

var lifeMemo *lifeResult

func lifeExplore(c *Ctx) *lifeResult {
	if lifeMemo != nil {
		return lifeMemo
	}
	r := &lifeResult{tot: map[string]int{}}
	run := func(pkg string, recorder bool) {
		m := newLifeModel(c.P)
		m.alwaysID = pkg == "ondemand" // the id is part of the contract of an on demand flow
		m.limit = tm.named(KSym, "step limit", types.Typ[types.Int])
		m.withRecorder = recorder
		m.recorder = tNil
		x := newExec(c.P, "life", m.hooks())
		s := newState()
		if recorder {
			m.recorder = tm.named(KObj, "recorder", nil)
		}
		fn := c.P.Method(pkg, "FlowAction", "Run")
		h := tm.named(KObj, "handler", nil)
		s.regs["handler"] = h
		s.regs["#steps"] = tZero
		var args []*Term
		for _, p := range fn.Params {
			var a *Term
			if n, ok := types.Unalias(p.Type()).(*types.Named); ok && n.Obj().Name() == "ResultHandler" {
				a = h
			}
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				a = tm.named(KObj, "action", pt)
			}
			args = append(args, a)
		}
		x.Run(fn, s, args)
		if profOn {
			println(fn.String(), recorder, x.states)
		}
		x.seen = nil
		r.xs = append(r.xs, x)
		for k, v := range x.counts {
			r.tot[k] += v
		}
	}
	run("", false)
	run("", true)
	run("ondemand", false)
	for _, name := range []string{"DoStep", "DoStepInLoop"} {
		m := newLifeModel(c.P)
		m.limit = tm.named(KSym, "step limit", types.Typ[types.Int])
		x := newExec(c.P, "life", m.stepHooks())
		s := newState()
		fn := c.P.Method("instance", "IndependentInstance", name)
		inst := tm.named(KObj, "inst", fn.Params[0].Type())
		m.setInst(x, s, inst)
		s.regs["#popped"], s.regs["#evals"] = tZero, tZero
		if name == "DoStep" {
			s.regs["single"] = tTrue
		}
		x.Run(fn, s, []*Term{inst})
		if profOn {
			println(fn.String(), x.states)
		}
		x.seen = nil
		r.xs = append(r.xs, x)
		for k, v := range x.counts {
			r.tot[k] += v
		}
	}
	lifeMemo = r
	return r
}

func lifeCheck(c *Ctx) {
	r := lifeExplore(c)
	for _, x := range r.xs {
		c.absorb(x, func(rule string) bool { return rule == c.Prop })
	}
	for _, k := range []string{"end signalled", "results", "steps", "start", "accepted runs", "rejections", "terminal results: completed", "terminal results: failed", "terminal results: limit"} {
		c.must(k, r.tot[k], 2)
	}
	for _, k := range []string{"start recorded", "end recorded", "steps recorded"} {
		c.must(k, r.tot[k], 1)
	}
}

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04"} {
		register(id, lifeCheck, "run monitor over both actions' Run and the goroutine it starts")
	}
}
