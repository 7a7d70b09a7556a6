package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The flow model: what the task and flow behaviors answer, for every list of links or tasks (C13 to C19).

// implementers lists the methods with the name that implement the interface, without duplicates (promoted methods are
// analysed where they are declared).
func implementers(p *Program, iface *types.Named, name string) []*ssa.Function {
	it := iface.Underlying().(*types.Interface)
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if !types.Implements(pt, it) {
				continue
			}
			obj, _, _ := types.LookupFieldOrMethod(pt, true, pk.Types, name)
			f, ok := obj.(*types.Func)
			if !ok {
				continue
			}
			fn := p.SSA.FuncValue(f)
			if fn == nil || fn.Blocks == nil || seen[fn] {
				continue
			}
			seen[fn] = true
			res = append(res, fn)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	if len(res) == 0 {
		anchorFail("no implementation of %s.%s found", iface.Obj().Name(), name)
	}
	return res
}

type behModel struct {
	p                                             *Program
	prop                                          string
	kind                                          string
	L, linkL, toL, ctx, fctx, task, rcfg, errArg  *Term
	lstat, ltype                                  int64 // of the tracked link
	coll                                          *Term
	lFalse, lTrue, lSkipped                       int64
	dep, expr, otherwise, label, errT             int64
	ready, entered, waiting, done, skipped, tfail int64
	evalFns                                       map[*ssa.Function]bool
}

func newBehModel(p *Program, prop, kind string) *behModel {
	m := &behModel{p: p, prop: prop, kind: kind}
	m.lFalse, m.lTrue, m.lSkipped = p.constVal("model", "LinkStatusFalse"), p.constVal("model", "LinkStatusTrue"), p.constVal("model", "LinkStatusSkipped")
	m.dep, m.expr, m.label, m.errT = p.constVal("definition", "LtDependency"), p.constVal("definition", "LtExpression"), p.constVal("definition", "LtLabel"), p.constVal("definition", "LtError")
	m.otherwise = p.constVal("definition", "LtExprOtherwise")
	m.entered, m.ready, m.waiting = p.constVal("model", "TaskStatusEntered"), p.constVal("model", "TaskStatusReady"), p.constVal("model", "TaskStatusWaiting")
	m.done, m.skipped, m.tfail = p.constVal("model", "TaskStatusDone"), p.constVal("model", "TaskStatusSkipped"), p.constVal("model", "TaskStatusFailed")
	m.L = tm.named(KObj, "link", nil)
	m.linkL = tm.named(KObj, "link definition", types.NewPointer(p.Named("definition", "Link")))
	m.toL = tm.named(KObj, "successor", types.NewPointer(p.Named("definition", "Task")))
	m.ctx = tm.named(KObj, "context", nil)
	m.fctx = tm.named(KObj, "flow context", nil)
	m.task = tm.named(KObj, "task", types.NewPointer(p.Named("definition", "Task")))
	m.rcfg = tm.named(KSym, "retry configuration", nil)
	m.errArg = tm.named(KObj, "task error", nil)
	m.evalFns = reaching(p, func(id string) bool {
		return id == "model.TaskContext.EvalActivity" || id == "model.TaskContext.PostEvalActivity"
	})
	return m
}

func (m *behModel) rep(x *Exec, s *State, construct string, pos token.Pos, format string, args ...interface{}) {
	if m.kind == "Eval" || m.kind == "PostEval" {
		// what belongs to loops is judged by C18
		if c := strings.Fields(construct)[0]; loopConstructs[c] != (m.prop == "C18") && c != "answer" {
			return
		}
	}
	x.rule = m.prop
	x.report(s, fnName(x.root)+": "+construct, pos, format, args...)
}

// loopConstructs are the first words of what is reported about loops.
var loopConstructs = map[string]bool{"condition": true, "advanced": true, "another-iterator": true, "no-element": true, "no-iteration": true, "iteration": true, "element": true, "index": true, "repeat": true}

func (m *behModel) hooks() Hooks {
	return Hooks{
		Enum: enumHook(m.p, "model.TaskStatus", "model.EvalResult", "model.EnterResult"),
		Immutable: func(f string) bool {
			return strings.HasPrefix(f, "$") || strings.HasPrefix(f, "RetryData.") || immutableHook()(f) || strings.HasSuffix(f, "Iterator.data") || strings.HasSuffix(f, "Iterator.count")
		},
		Ignore: func(f string) bool { return false },
		Call:   m.call,
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if a.kind == KAddr && a.op == "RetryData.Count" {
				s.regs["rd"] = a.args[0]
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Store: func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
			if a.kind == KAddr && a.op == "RetryData.Count" {
				if old := s.heap[a]; old != nil && s.less(tZero, old) == Yes && s.eq(addInt(old, -1), v) == Yes {
					s.setNum("paid", 1)
				}
			}
			if a.kind == KAddr && a.op == "DoWhile.Index" {
				if old := s.heap[a]; old != nil && s.eq(addInt(old, 1), v) == Yes {
					s.inc("index+")
				}
			}
			return true
		},
		NewElem: func(x *Exec, s *State, c, k, v *Term) {},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.splitBools(s, res, func(s *State, res []*Term) { m.ret(x, s, res, pos) })
		},
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if m.evalFns[c.Fn] {
				return m.evaluated(x, s, c)
			}
			return ActOpaque, nil
		},
		RootPanic: func(x *Exec, s *State, pos token.Pos) {},
		RecLimit:  2,
	}
}

// linkOf is the definition of a link instance.
func (m *behModel) linkOf(x *Exec, s *State, e *Term) *Term {
	if l := s.at(e, "$link"); l != nil {
		return l
	}
	l := nonNilResult(x, s, types.NewPointer(m.p.Named("definition", "Link")), "otherLink")
	s.neq[ordered(l, m.linkL)] = true
	s.heap[fld(e, "$link")] = l
	return l
}

func (m *behModel) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	pos := c.Instr.Pos()
	res := func(t *Term) (Action, []Outcome) { return ActModel, []Outcome{{Res: t}} }
	enum := func(obj *Term, ghost string, vals []int64, on func(n *State, v int64)) (Action, []Outcome) {
		if v := s.at(obj, ghost); v != nil {
			on(s, v.i)
			return res(v)
		}
		var outs []Outcome
		for _, v := range vals {
			v := v
			outs = append(outs, Outcome{Mod: func(n *State) bool {
				n.heap[fld(obj, ghost)] = mkInt(v)
				on(n, v)
				n.regs["$res"] = mkInt(v)
				return true
			}})
		}
		return ActModel, outs
	}
	switch c.ID {
	case "model.TaskContext.GetFromLinkInstances":
		if m.kind == "Enter" {
			x.count("links examined")
			return res(m.coll)
		}
	case "model.TaskContext.GetToLinkInstances":
		if m.kind != "Enter" {
			x.count("links examined")
			return res(m.coll)
		}
	case "model.LinkInstance.Link":
		return res(m.linkOf(x, s, c.Recv))
	case "model.LinkInstance.Status":
		return enum(c.Recv, "$status", []int64{0, m.lFalse, m.lTrue, m.lSkipped}, func(n *State, v int64) {
			switch v {
			case 0:
				n.setNum("undecided", 1)
			case m.lTrue:
				n.setNum("true", 1)
			}
		})
	case "model.LinkInstance.SetStatus":
		s.heap[fld(c.Recv, "$status")] = c.Args[0]
		x.count("link decided")
		return ActModel, []Outcome{{}}
	case "definition.Link.Type":
		l := c.Recv
		vals := []int64{m.dep, m.expr, m.label, m.errT}
		if m.ltype != m.otherwise {
			vals = append(vals, m.otherwise)
		}
		return enum(l, "$type", vals, func(n *State, v int64) {
			switch v {
			case m.expr:
				n.setNum("exprSeen", 1)
			case m.errT:
				n.setNum("errorSeen", 1)
			}
		})
	case "definition.Link.ToTask":
		if t := s.at(c.Recv, "$to"); t != nil {
			return res(t)
		}
		t := nonNilResult(x, s, c.Sig.Results().At(0).Type(), "otherSuccessor")
		s.neq[ordered(t, m.toL)] = true
		s.heap[fld(c.Recv, "$to")] = t
		return res(t)
	case "definition.Link.FromTask":
		return res(m.task)
	case "model.TaskContext.Task", "model.TaskInstance.Task":
		if c.Recv == m.ctx {
			return res(m.task)
		}
		return res(nonNilResult(x, s, c.Sig.Results().At(0).Type(), "task"))
	case "model.TaskContext.Status":
		if s.regs["cstat"] == nil {
			s.regs["cstat"] = x.fresh("status", c.Sig.Results().At(0).Type())
		}
		return res(s.regs["cstat"])
	case "model.TaskContext.SetStatus":
		s.regs["cstat"] = c.Args[0]
		s.setNum("statusSet", 1)
		return ActModel, []Outcome{{}}
	case "model.TaskContext.EvalLink":
		x.count("links evaluated")
		l := c.Args[0]
		if ty := s.at(l, "$type"); ty != mkInt(m.expr) {
			m.rep(x, s, "link without expression", pos, "a link is evaluated that is not known to be an expression link")
		}
		if l == m.linkL {
			if s.inc("evL") > 1 {
				m.rep(x, s, "link evaluated twice", pos, "a link is evaluated more than once")
			}
		}
		if s.is("linkErr") {
			m.rep(x, s, "evaluated after an error", pos, "a link is evaluated after the evaluation of another one failed")
		}
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				n.setNum("exprTrue", 1)
				if l == m.linkL {
					n.setNum("followL", 1)
				}
				n.note("the link is followed")
				n.regs["$res"] = mkTuple(tTrue, tNil)
				return true
			}},
			{Mod: func(n *State) bool {
				n.note("the link is not followed")
				n.regs["$res"] = mkTuple(tFalse, tNil)
				return true
			}},
			{Mod: func(n *State) bool {
				n.setNum("linkErr", 1)
				n.note("the evaluation of the link fails")
				n.regs["$res"] = mkTuple(x.fresh("follow", types.Typ[types.Bool]), newErr(x, n, "linkError"))
				return true
			}},
		}
	case "model.TaskContext.EvalActivity", "model.TaskContext.PostEvalActivity":
		return m.evaluated(x, s, c)
	case "core/activity.Error.Retriable":
		if r := s.at(c.Recv, "$retriable"); r != nil {
			return res(r)
		}
		r := x.fresh("retriable", types.Typ[types.Bool])
		s.heap[fld(c.Recv, "$retriable")] = r
		return res(r)
	case "definition.Task.RetryOnErrConfig":
		return res(option(s, "rcfg", m.rcfg))
	case "definition.RetryOnError.Count", "definition.RetryOnError.Interval", "definition.retryOnErrConfig.Count", "definition.retryOnErrConfig.Interval":
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				n.regs["$res"] = mkTuple(x.fresh("configured", types.Typ[types.Int]), tNil)
				return true
			}},
			{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(tZero, newErr(x, n, "retryConfigError")); return true }},
		}
	case "model.TaskContext.GetWorkingData":
		k := c.Args[0]
		if k.kind != KStr {
			break
		}
		if v := s.regs["wd:"+k.op]; v != nil {
			return res(mkTuple(v, tTrue))
		}
		if s.is("nowd:" + k.op) {
			return res(mkTuple(tNil, tFalse))
		}
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				v := newErr(x, n, "data "+k.op)
				n.regs["wd:"+k.op] = v
				n.setNum("had:"+k.op, 1)
				n.regs["$res"] = mkTuple(v, tTrue)
				return true
			}},
			{Mod: func(n *State) bool {
				n.setNum("nowd:"+k.op, 1)
				n.regs["$res"] = mkTuple(tNil, tFalse)
				return true
			}},
		}
	case "model.TaskContext.SetWorkingData":
		if k := c.Args[0]; k.kind == KStr {
			s.regs["wd:"+k.op] = c.Args[1]
			s.setNum("nowd:"+k.op, 0)
		}
		return ActModel, []Outcome{{}}
	case "core/data/expression.Expr.Eval":
		if s.num("evals") == 0 && m.kind == "Eval" || m.kind == "PostEval" && s.num("evals") == 0 {
			// what an iterator iterates on
			return ActModel, []Outcome{
				{Mod: func(n *State) bool {
					n.regs["$res"] = mkTuple(x.fresh("iterateOn", c.Sig.Results().At(0).Type()), tNil)
					return true
				}},
				{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(tNil, newErr(x, n, "iterateOnError")); return true }},
			}
		}
		x.count("conditions")
		if s.inc("conds") > 1 {
			m.rep(x, s, "condition twice", pos, "the condition of a loop is evaluated more than once for an iteration")
		}
		return ActModel, []Outcome{
			{Mod: func(n *State) bool { n.setNum("cond", 1); n.regs["$res"] = mkTuple(tTrue, tNil); return true }},
			{Mod: func(n *State) bool { n.setNum("cond", 2); n.regs["$res"] = mkTuple(tFalse, tNil); return true }},
			{Mod: func(n *State) bool {
				n.setNum("cond", 3)
				e := newErr(x, n, "conditionError")
				n.regs["conderr"] = e
				n.regs["$res"] = mkTuple(tNil, e)
				return true
			}},
		}
	case "definition.LoopConfig.Condition":
		if s.regs["condition"] == nil {
			s.regs["condition"] = x.fresh("condition", c.Sig.Results().At(0).Type())
		}
		return res(s.regs["condition"])
	case "definition.Task.LoopConfig":
		if s.regs["loop"] == nil {
			s.regs["loop"] = x.fresh("loopConfig", c.Sig.Results().At(0).Type())
		}
		return res(s.regs["loop"])
	case "model/simple.Iterator.next":
		x.count("iterations")
		if s.inc("nexts") > 1 {
			m.rep(x, s, "advanced twice", pos, "the iterator is advanced more than once for an iteration")
		}
		if s.regs["wd:_iterator"] == nil || s.eq(c.Recv, s.get("wd:_iterator")) != Yes {
			m.rep(x, s, "another-iterator", pos, "another iterator than the one kept in the working data of the task is advanced")
		}
		s.regs["it"] = c.Recv
		return ActModel, []Outcome{
			{Mod: func(n *State) bool { n.setNum("next", 1); n.regs["$res"] = tTrue; return true }},
			{Mod: func(n *State) bool { n.setNum("next", 2); n.regs["$res"] = tFalse; return true }},
		}
	case "model/simple.Iterator.Key", "model/simple.Iterator.Value", "model/simple.Iterator.Index":
		if s.num("next") != 1 {
			return ActPure, nil
		}
		if s.regs["it"] == nil || s.eq(c.Recv, s.get("it")) != Yes {
			return ActPure, nil
		}
		return res(tm.named(KSym, "current "+c.name(), c.Sig.Results().At(0).Type()))
	case "model/simple.Iterator.HasNext":
		return ActModel, []Outcome{
			{Mod: func(n *State) bool { n.setNum("hasNext", 1); n.regs["$res"] = tTrue; return true }},
			{Mod: func(n *State) bool { n.setNum("hasNext", 2); n.regs["$res"] = tFalse; return true }},
		}
	case "model.FlowContext.TaskInstances":
		x.count("tasks examined")
		return res(m.coll)
	case "model.TaskInstance.Status":
		x.count("task status read")
		return enum(c.Recv, "$status", []int64{0, m.entered, m.ready, m.waiting, m.done, m.skipped, m.tfail}, func(n *State, v int64) {
			if v < m.done {
				n.setNum("undone", 1)
			}
		})
	case "model.FlowContext.FlowDefinition":
		return res(tm.named(KObj, "definition", c.Sig.Results().At(0).Type()))
	case "definition.Definition.GetErrorHandler":
		return res(tm.named(KObj, "error handler", c.Sig.Results().At(0).Type()))
	case "definition.Definition.Tasks":
		if m.kind == "Start" && c.Recv.op == "definition" {
			return res(m.coll)
		}
	case "definition.ErrorHandler.Tasks":
		if m.kind == "StartErrorHandler" && c.Recv.op == "error handler" {
			return res(m.coll)
		}
	case "definition.Task.FromLinks":
		x.count("predecessors examined")
		if c.Recv == m.toL {
			if m.lstat == 1 {
				return res(mkBag([]*Term{tStar, tm.named(KObj, "predecessor link", nil)}))
			}
			return res(tNil)
		}
	}
	if c.Fn != nil && InRepo(c.Fn) && !c.Invoke {
		if pk := fnPkg(c.Fn); pk != nil && pk.Path() == flowMod+"/model/simple" || c.Fn.Parent() != nil {
			return ActDefault, nil
		}
		r := c.Sig.Results()
		if n := r.Len(); n > 1 && isErrType(r.At(n-1).Type()) {
			return ActPure, nil
		}
		return ActPure, nil
	}
	if c.ID == "core/data/coerce.ToInt" {
		return ActModel, []Outcome{
			{Mod: func(n *State) bool {
				n.regs["$res"] = mkTuple(x.fresh("int", types.Typ[types.Int]), tNil)
				return true
			}},
			{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(tZero, newErr(x, n, "coerceError")); return true }},
		}
	}
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	if c.Invoke || c.Fn != nil && !InRepo(c.Fn) {
		return ActPure, nil
	}
	return ActDefault, nil
}

// evaluated is an evaluation of the activity: the first one, or a retry that has to be justified.
func (m *behModel) evaluated(x *Exec, s *State, c *Call) (Action, []Outcome) {
	pos := c.Instr.Pos()
	post := c.ID == "model.TaskContext.PostEvalActivity"
	x.count("evaluations")
	if m.kind != "Eval" && m.kind != "PostEval" {
		m.rep(x, s, "evaluation", pos, "the activity is evaluated by %s", m.kind)
	}
	if m.kind == "PostEval" && s.num("evals") == 0 && !post || m.kind == "Eval" && post {
		m.rep(x, s, "kind of evaluation", pos, "the activity is evaluated when it should be post-evaluated, or the other way round")
	}
	if m.kind == "Eval" {
		if st := s.regs["cstat"]; st == nil || s.eq(st, mkInt(m.skipped)) != No {
			m.rep(x, s, "skipped task", pos, "the activity of a task that may be skipped is evaluated")
		}
		if s.is("iter") && s.num("evals") == 0 {
			m.beforeIteration(x, s, pos)
		}
	}
	if s.num("evals") > 0 {
		// a retry
		x.count("retries")
		switch {
		case s.num("last") != 3:
			m.rep(x, s, "evaluated twice", pos, "the activity is evaluated again although its evaluation returned no error")
		default:
			le := s.get("lastErr")
			ae := m.activityErr(s, le)
			retr := s.at(le, "$retriable")
			if ae == No || !s.is("lastPost") && (ae != Yes || retr == nil || s.decide(retr) != Yes) {
				m.rep(x, s, "retry of a permanent error", pos, "the activity is evaluated again although its error is not known to be retriable")
			}
			if rc := s.regs["rcfg"]; rc == nil || s.eq(rc, tNil) != No {
				m.rep(x, s, "retry not configured", pos, "the activity is evaluated again although the task is not configured to retry")
			}
			if nested := c.Fn != nil && !c.Invoke; !nested && !s.is("paid") {
				m.rep(x, s, "retry not counted", pos, "the activity is evaluated again without using up one of the remaining retries")
			}
		}
		s.setNum("paid", 0)
		if post {
			m.rep(x, s, "retried post-evaluation", pos, "the post-evaluation is repeated")
		}
	}
	nested := c.Fn != nil && !c.Invoke
	mk := func(kind int64) Outcome {
		return Outcome{Mod: func(n *State) bool {
			x.clobber(n, c.all)
			n.inc("evals")
			n.setNum("last", kind)
			n.setNum("lastPost", 0)
			if post {
				n.setNum("lastPost", 1)
			}
			delete(n.regs, "lastErr")
			n.setNum("final", 0)
			var r *Term
			switch kind {
			case 1:
				r = mkTuple(tTrue, tNil)
			case 2:
				r = mkTuple(tFalse, tNil)
			case 3:
				e := newErr(x, n, "activityError")
				n.regs["lastErr"] = e
				if nested {
					n.setNum("final", 1)
				}
				r = mkTuple(x.fresh("done", types.Typ[types.Bool]), e)
			}
			n.regs["$res"] = r
			return true
		}}
	}
	return ActModel, []Outcome{mk(1), mk(2), mk(3)}
}

// activityErr: the error is an error of the activity that may say it is retriable.
func (m *behModel) activityErr(s *State, e *Term) Tri {
	d := s.dyn[e]
	if d == nil {
		for t := range s.notdyn[e] {
			if strings.HasSuffix(t, "activity.Error") {
				return No
			}
		}
		return Maybe
	}
	if strings.HasSuffix(d.String(), "core/activity.Error") {
		return Yes
	}
	return No
}

// beforeIteration: the data of the iteration is the one of the element the iterator is at.
func (m *behModel) beforeIteration(x *Exec, s *State, pos token.Pos) {
	if s.num("next") != 1 {
		m.rep(x, s, "no-element", pos, "the activity of an iterator is evaluated although there is no next element")
		return
	}
	it := s.regs["wd:iteration"]
	if it == nil {
		m.rep(x, s, "no-iteration data", pos, "the activity of an iterator is evaluated without the data of the iteration")
		return
	}
	for k, w := range map[string]string{"key": "current Key", "value": "current Value", "index": "current Index"} {
		v := s.heap[mkKey(it, mkStr(k))]
		if v == nil || v.op != w {
			m.rep(x, s, "iteration "+k, pos, "the %s of the iteration is not the one of the element the iterator is at", k)
		}
	}
}

func (m *behModel) entry(x *Exec, s *State, es *Term) (*Term, int) {
	_, elems, _ := x.elements(s, es)
	var e *Term
	n := 0
	for _, el := range elems {
		if t := s.at(el, "TaskEntry.Task"); t != nil && s.eq(t, m.toL) == Yes {
			e = el
			n++
		}
	}
	return e, n
}

func (m *behModel) ret(x *Exec, s *State, res []*Term, pos token.Pos) {
	x.count("answers")
	lst := func() int64 {
		if v := s.at(m.L, "$status"); v != nil {
			return v.i
		}
		return -1
	}
	empty := m.coll == tNil
	cstat := func(v int64) bool { return s.regs["cstat"] != nil && s.eq(s.regs["cstat"], mkInt(v)) == Yes }
	wantNotify := func(t *Term) {
		w := No
		if empty {
			w = Yes
		}
		if s.decide(t) != w {
			m.rep(x, s, "notification", pos, "the flow must be notified exactly if the task has no outgoing links")
		}
	}
	oneEntry := func(es *Term) *Term {
		if empty {
			if _, el, oth := x.elements(s, es); len(el) > 0 || oth && !es.isBag() && s.eq(es, tNil) != Yes {
				m.rep(x, s, "successor without link", pos, "successors are entered although there are no links")
			}
			return nil
		}
		e, n := m.entry(x, s, es)
		if n != 1 {
			m.rep(x, s, "entries of a link", pos, "the successor of a link is entered %d times", n)
			return nil
		}
		return e
	}
	code := func(e *Term, followed bool) {
		if e == nil {
			return
		}
		v := s.at(e, "TaskEntry.EnterCode")
		if v == nil || followed && s.less(v, mkInt(4)) != Yes || !followed && s.eq(v, mkInt(4)) != Yes {
			m.rep(x, s, "enter code", pos, "successors of links that are not followed do not come after the ones of links that are followed")
		}
	}
	switch m.kind {
	case "Enter":
		r := res[0]
		nr, ev, sk := m.p.constVal("model", "ERNotReady"), m.p.constVal("model", "EREval"), m.p.constVal("model", "ERSkip")
		if r.kind != KInt {
			m.rep(x, s, "answer", pos, "the answer is not determined by the links")
			return
		}
		switch r.i {
		case nr:
			if empty || !s.is("undecided") {
				m.rep(x, s, "not ready", pos, "a task is not ready although all its incoming links are decided")
			}
			if !cstat(m.entered) {
				m.rep(x, s, "status entered", pos, "a task that is not ready does not have the entered status")
			}
		case ev:
			if !empty && m.lstat == 0 {
				m.rep(x, s, "ready too early", pos, "a task becomes ready although an incoming link is not decided")
			}
			if !empty && !s.is("true") {
				m.rep(x, s, "not followed", pos, "a task becomes ready although none of its incoming links was followed")
			}
			if !cstat(m.ready) {
				m.rep(x, s, "status ready", pos, "a task that is ready does not have the ready status")
			}
		case sk:
			if empty || m.lstat == 0 || m.lstat == m.lTrue {
				m.rep(x, s, "skipped", pos, "a task is skipped although an incoming link was followed or is not decided, or although it has none")
			}
			if !cstat(m.skipped) {
				m.rep(x, s, "status skipped", pos, "a task that is skipped does not have the skipped status")
			}
		default:
			m.rep(x, s, "answer", pos, "an unknown answer is given")
		}
	case "Done":
		if s.eq(res[2], tNil) != Yes {
			if !s.is("linkErr") {
				m.rep(x, s, "error", pos, "an error is returned although no link failed")
			}
			return
		}
		if s.is("linkErr") {
			m.rep(x, s, "error swallowed", pos, "the error of a link is dropped")
			return
		}
		if !cstat(m.done) {
			m.rep(x, s, "status", pos, "a task that is done does not have the done status")
		}
		wantNotify(res[0])
		e := oneEntry(res[1])
		if empty {
			return
		}
		want := false
		switch m.ltype {
		case m.dep, m.label:
			want = true
		case m.expr:
			want = s.is("followL")
			if s.num("evL") != 1 {
				m.rep(x, s, "expression not evaluated", pos, "an expression link is evaluated %d times", s.num("evL"))
			}
		case m.otherwise:
			want = s.is("exprSeen") && !s.is("exprTrue")
		}
		w := m.lFalse
		if want {
			w = m.lTrue
		}
		if lst() != w {
			m.rep(x, s, "link of type "+m.ltypeName(), pos, "a link (%s) gets the status %d instead of %d", m.ltypeName(), lst(), w)
		}
		code(e, want)
	case "Skip":
		if !cstat(m.skipped) {
			m.rep(x, s, "status", pos, "a task that is skipped does not have the skipped status")
		}
		wantNotify(res[0])
		oneEntry(res[1])
		if !empty && lst() != m.lSkipped {
			m.rep(x, s, "link", pos, "a link of a skipped task gets the status %d", lst())
		}
		if s.num("evL") > 0 {
			m.rep(x, s, "evaluation", pos, "a link of a skipped task is evaluated")
		}
	case "Error":
		has := s.is("errorSeen")
		h := s.decide(res[0])
		if has && h != Yes {
			m.rep(x, s, "not handled", pos, "an error is not handled although the task has an error link")
		}
		if !has && h != No {
			m.rep(x, s, "handled", pos, "an error is handled although the task has no error link")
		}
		if h == No {
			if _, n := m.entry(x, s, res[1]); n > 0 {
				m.rep(x, s, "successor of an unhandled error", pos, "successors are entered although the error is not handled")
			}
			if !empty && lst() > 0 {
				m.rep(x, s, "link of an unhandled error", pos, "a link is decided although the error is not handled")
			}
			return
		}
		e := oneEntry(res[1])
		w := m.lFalse
		if m.ltype == m.errT {
			w = m.lTrue
		}
		if lst() != w {
			m.rep(x, s, "link of type "+m.ltypeName(), pos, "a link (%s) gets the status %d instead of %d", m.ltypeName(), lst(), w)
		}
		code(e, m.ltype == m.errT)
	case "TaskDone":
		switch s.decide(res[0]) {
		case Yes:
			if !empty && m.lstat < m.done {
				m.rep(x, s, "done too early", pos, "the flow is done although a task is not")
			}
		case No:
			if !s.is("undone") {
				m.rep(x, s, "never done", pos, "the flow is not done although all its tasks are")
			}
		default:
			m.rep(x, s, "answer", pos, "the answer is not determined by the tasks")
		}
	case "Start", "StartErrorHandler":
		es := res[len(res)-1]
		if len(res) == 2 && s.decide(res[0]) != Yes {
			m.rep(x, s, "not started", pos, "a flow cannot be started")
		}
		_, n := m.entry(x, s, es)
		if !empty && n != 1-int(m.lstat) {
			m.rep(x, s, "first tasks", pos, "a task with %d incoming links is entered %d times when the flow starts", m.lstat, n)
		}
	case "Eval", "PostEval":
		m.evalRet(x, s, res, pos)
	}
}

func (m *behModel) ltypeName() string {
	switch m.ltype {
	case m.dep:
		return "dependency"
	case m.expr:
		return "expression"
	case m.label:
		return "label"
	case m.errT:
		return "error"
	}
	return "otherwise"
}

func (m *behModel) evalRet(x *Exec, s *State, res []*Term, pos token.Pos) {
	ev := func(n string) *Term { return mkInt(m.p.constVal("model", n)) }
	r, e := res[0], res[1]
	failed := s.eq(e, tNil).not()
	is := func(n string) bool { return s.eq(r, ev(n)) == Yes }
	if r.kind != KInt {
		m.rep(x, s, "answer", pos, "the answer is not determined by the evaluation")
		return
	}
	last := s.num("last")
	if is("EvalFail") != (failed == Yes) || failed == Maybe {
		m.rep(x, s, "error and answer", pos, "the answer fails without an error, or there is an error although it does not fail")
		return
	}
	if m.kind == "PostEval" && s.num("evals") == 0 {
		m.rep(x, s, "not post-evaluated", pos, "the activity is not post-evaluated")
		return
	}
	if last == 3 && failed != Yes {
		m.rep(x, s, "error dropped", pos, "the error of the activity is dropped")
		return
	}
	skipped := s.regs["cstat"] != nil && s.eq(s.regs["cstat"], mkInt(m.skipped)) == Yes
	loop := s.is("iter") || s.is("dowhile")
	if failed == Yes {
		if le := s.regs["lastErr"]; le != nil && !s.is("final") && s.eq(e, le) == Yes {
			// giving up: no retries are left
			retr := s.at(le, "$retriable")
			rc := s.regs["rcfg"]
			may := m.activityErr(s, le) != No && (rc == nil || s.eq(rc, tNil) != Yes)
			if !s.is("lastPost") && retr != nil && s.decide(retr) == No || m.kind == "PostEval" && loop {
				may = false
			}
			if may {
				var cnt *Term
				if rd := s.regs["rd"]; rd != nil {
					cnt = s.at(rd, "RetryData.Count")
				}
				if cnt == nil || s.less(tZero, cnt) != No {
					m.rep(x, s, "gives up", pos, "the error of the activity is returned although it may be retriable and retries may be left")
				}
			}
		} else if le != nil && s.is("final") && s.eq(e, le) != Yes {
			m.rep(x, s, "another error", pos, "another error than the one of the last evaluation is returned")
		}
		if !loop && s.num("evals") == 0 {
			m.rep(x, s, "spurious error", pos, "an error is returned although the activity was not evaluated")
		}
		if last != 3 && s.num("evals") > 0 && !(s.num("cond") == 3 && s.eq(e, s.get("conderr")) == Yes) {
			m.rep(x, s, "spurious error", pos, "an error is returned although the activity returned none")
		}
		return
	}
	want := ""
	switch {
	case s.num("evals") == 0 && skipped:
		want = "EvalSkip"
		if loop {
			want = "EvalDone"
		}
	case s.num("evals") == 0 && s.is("iter"):
		want = "EvalDone"
		if s.num("next") == 1 {
			m.rep(x, s, "element skipped", pos, "an element is taken from the iterator but the activity is not evaluated for it")
		}
	case s.num("evals") == 0:
		m.rep(x, s, "not evaluated", pos, "the activity of a task that is not skipped is not evaluated")
		return
	case m.kind == "PostEval" && s.num("evals") == 1 && s.is("iter"):
		switch s.num("hasNext") {
		case 1:
			want = "EvalRepeat"
		case 2:
			want = "EvalDone"
		}
	case m.kind == "PostEval" && s.num("evals") == 1 && !s.is("dowhile"):
		want = "EvalDone"
	case last == 2 && m.kind == "Eval" || last == 2 && s.num("evals") > 1:
		want = "EvalWait"
	case s.is("iter"):
		want = "EvalRepeat"
	case s.is("dowhile"):
		switch s.num("cond") {
		case 0:
			want = "EvalDone"
			lc, cd := s.regs["loop"], s.regs["condition"]
			if !(lc != nil && s.eq(lc, tNil) == Yes || cd != nil && s.eq(cd, tNil) == Yes) {
				m.rep(x, s, "condition not evaluated", pos, "the condition of the loop is not evaluated after an iteration")
				return
			}
		case 1:
			want = "EvalRepeat"
			if s.num("index+") != 1 {
				m.rep(x, s, "index", pos, "the index of the loop is not incremented by one for an iteration")
			}
		case 2:
			want = "EvalDone"
		default:
			want = "EvalFail"
		}
	default:
		want = "EvalDone"
	}
	if want == "" || !is(want) {
		m.rep(x, s, "answer "+want, pos, "the answer %s was expected", want)
	}
	if is("EvalRepeat") {
		st := s.regs["cstat"]
		if m.kind == "PostEval" && (st == nil || s.eq(st, mkInt(m.ready)) != Yes) || m.kind == "Eval" && s.is("statusSet") && s.eq(st, mkInt(m.ready)) != Yes {
			m.rep(x, s, "repeat status", pos, "a task that is repeated is not ready to be evaluated again")
		}
	}
	if m.kind == "Eval" && is("EvalWait") && s.is("statusSet") && s.eq(s.regs["cstat"], mkInt(m.waiting)) != Yes {
		m.rep(x, s, "wait status", pos, "a task that waits gets another status")
	}
	if s.is("conds") && last != 1 && m.kind == "Eval" {
		m.rep(x, s, "condition too early", pos, "the condition of the loop is evaluated although the iteration is not over")
	}
}

type behCase struct {
	kind         string
	lstat, ltype int64
	empty        bool
}

func behaviors(c *Ctx, prop, iface, method string, cases []behCase, min map[string]int) {
	tot := map[string]int{}
	for _, fn := range implementers(c.P, c.P.Named("model", iface), method) {
		for _, bc := range cases {
			m := newBehModel(c.P, prop, method)
			m.lstat, m.ltype = bc.lstat, bc.ltype
			m.coll = mkBag([]*Term{tStar, m.L})
			x := newExec(c.P, prop, m.hooks())
			s := newState()
			s.heap[fld(m.L, "$link")] = m.linkL
			s.heap[fld(m.linkL, "$to")] = m.toL
			s.heap[fld(m.linkL, "$type")] = mkInt(bc.ltype)
			s.regs["w:to"] = m.toL
			s.regs["w:L"] = m.L
			switch method {
			case "Enter", "TaskDone":
				s.heap[fld(m.L, "$status")] = mkInt(bc.lstat)
			case "Start", "StartErrorHandler":
				m.coll = mkBag([]*Term{tStar, m.toL})
			default:
				s.heap[fld(m.L, "$status")] = tZero
			}
			if bc.empty {
				m.coll = tNil
			}
			rt := recvName(fn)
			if method == "Eval" || method == "PostEval" {
				// a loop is recognised by what its evaluation relies on
				if strings.Contains(rt, "Iterator") {
					s.setNum("iter", 1)
				} else if strings.Contains(rt, "While") {
					s.setNum("dowhile", 1)
				}
			}
			var args []*Term
			for _, p := range fn.Params {
				var a *Term
				if n, ok := types.Unalias(p.Type()).(*types.Named); ok {
					switch n.Obj().Name() {
					case "TaskContext":
						a = m.ctx
					case "FlowContext":
						a = m.fctx
					case "error":
						a = m.errArg
					}
				}
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
					a = tm.named(KObj, "behavior", pt)
				}
				args = append(args, a)
			}
			s.dyn[m.ctx] = types.NewPointer(c.P.Named("instance", "TaskInst"))
			x.Run(fn, s, args)
			if profOn {
				println(fn.String(), fmt.Sprint(bc), x.states)
			}
			for k, v := range x.counts {
				tot[k] += v
			}
			c.absorb(x, func(rule string) bool { return true })
		}
	}
	for k, n := range min {
		c.must(method+": "+k, tot[k], n)
	}
}

func recvName(fn *ssa.Function) string {
	if len(fn.Params) == 0 {
		return ""
	}
	t := fn.Params[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func linkTypes(p *Program) []int64 {
	m := newBehModel(p, "", "")
	return []int64{m.dep, m.expr, m.label, m.errT, m.otherwise}
}

func init() {
	register("C13", func(c *Ctx) {
		m := newBehModel(c.P, "", "")
		behaviors(c, "C13", "TaskBehavior", "Enter", []behCase{{empty: true}, {lstat: 0}, {lstat: m.lFalse}, {lstat: m.lTrue}, {lstat: m.lSkipped}}, map[string]int{"answers": 5, "links examined": 5})
	}, "answer of every Enter implementation for a tracked incoming link among arbitrary others")
	register("C14", func(c *Ctx) {
		cases := []behCase{{empty: true}}
		for _, t := range linkTypes(c.P) {
			cases = append(cases, behCase{ltype: t})
		}
		behaviors(c, "C14", "TaskBehavior", "Done", cases, map[string]int{"answers": 6, "links evaluated": 1, "link decided": 5})
		evalLink(c)
	}, "transition of every Done implementation for a tracked outgoing link of each type among arbitrary others", "condition of a link: value of its expression, and whatever fails is an error")
	register("C15", func(c *Ctx) {
		cases := []behCase{{empty: true}}
		for _, t := range linkTypes(c.P) {
			cases = append(cases, behCase{ltype: t})
		}
		behaviors(c, "C15", "TaskBehavior", "Skip", cases, map[string]int{"answers": 6, "link decided": 5})
	}, "transition of every Skip implementation for a tracked outgoing link of each type among arbitrary others")
	register("C16", func(c *Ctx) {
		cases := []behCase{{empty: true}}
		for _, t := range linkTypes(c.P) {
			cases = append(cases, behCase{ltype: t})
		}
		behaviors(c, "C16", "TaskBehavior", "Error", cases, map[string]int{"answers": 6, "link decided": 5})
	}, "transition of every Error implementation for a tracked outgoing link of each type among arbitrary others")
	register("C17", func(c *Ctx) {
		behaviors(c, "C17", "TaskBehavior", "Eval", []behCase{{}}, map[string]int{"answers": 6, "evaluations": 3, "retries": 1})
		behaviors(c, "C17", "TaskBehavior", "PostEval", []behCase{{}}, map[string]int{"answers": 6, "evaluations": 3, "retries": 1})
	}, "answer of every Eval and PostEval implementation for every outcome of the activity")
	register("C18", func(c *Ctx) {
		behaviors(c, "C18", "TaskBehavior", "Eval", []behCase{{}}, map[string]int{"answers": 6, "evaluations": 3, "iterations": 1, "conditions": 1})
		behaviors(c, "C18", "TaskBehavior", "PostEval", []behCase{{}}, map[string]int{"answers": 6, "evaluations": 3, "conditions": 1})
		iterators(c)
	}, "protocol of every loop behavior: one element or one condition per evaluation, repeated exactly if there is more", "numeric contract of every iterator type: position, size, keys and values")
	register("C19", func(c *Ctx) {
		m := newBehModel(c.P, "", "")
		var st []behCase
		st = append(st, behCase{empty: true})
		for _, v := range []int64{0, m.entered, m.ready, m.waiting, m.done, m.skipped, m.tfail} {
			st = append(st, behCase{lstat: v})
		}
		behaviors(c, "C19", "FlowBehavior", "TaskDone", st, map[string]int{"answers": 8, "tasks examined": 8})
		for _, n := range []string{"Start", "StartErrorHandler"} {
			behaviors(c, "C19", "FlowBehavior", n, []behCase{{empty: true}, {lstat: 0}, {lstat: 1}}, map[string]int{"answers": 3, "predecessors examined": 2})
		}
	}, "answer of every flow behavior for a tracked task among arbitrary others")
}
