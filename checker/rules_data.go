package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C35: a flow starts with the inputs it is given, and returns the outputs it declares.

// dataWorld is a flow or subflow with one tracked name.
type dataWorld struct {
	p                    *Program
	name                 *Term
	ind, main, host      *Term
	parent               *Term // the flow of the host task
	def, mainDef, parDef *Term
	md, mdIn, mdOut      *Term
	decl, declVal        *Term
	given, val           *Term
	id, sub              *Term
}

const ctxPrefix = "_fctx."

func newDataWorld(p *Program, s *State) *dataWorld {
	w := &dataWorld{p: p, name: mkStr("the tracked name")}
	s.regs["w:the tracked name"] = w.name
	str := types.Typ[types.String]
	obj := func(n, pkg, t string) *Term {
		if t == "" {
			return tm.named(KObj, n, nil)
		}
		return tm.named(KObj, n, p.ptrTo(pkg, t))
	}
	w.ind, w.main = obj("independent instance", "instance", "IndependentInstance"), obj("main flow", "instance", "Instance")
	w.host, w.parent = obj("hosting task", "instance", "TaskInst"), obj("flow of the hosting task", "instance", "Instance")
	w.def, w.mainDef, w.parDef = obj("definition of the flow", "definition", "Definition"), obj("definition of the main flow", "definition", "Definition"), obj("definition of the parent", "definition", "Definition")
	w.md, w.mdIn, w.mdOut = obj("io metadata", "", ""), obj("io inputs", "", ""), obj("io outputs", "", "")
	w.decl = obj("io declaration", "", "")
	w.declVal = tm.named(KObj, "declared value", nil)
	w.given, w.val = obj("given values", "", ""), tm.named(KSym, "given value", nil)
	w.id, w.sub = tm.named(KSym, "instance id", str), tm.named(KSym, "number of the parent", types.Typ[types.Int])
	s.addDiff(tZero, w.sub, -1)
	s.heap[fld(w.ind, "IndependentInstance.Instance")] = w.main
	s.heap[fld(w.ind, "IndependentInstance.id")] = w.id
	ctr := tm.named(KSym, "number of subflows", types.Typ[types.Int])
	s.addDiff(tZero, ctr, 0)
	s.heap[fld(w.ind, "IndependentInstance.subflowCtr")] = ctr
	s.heap[fld(w.main, "Instance.master")] = w.ind
	s.heap[fld(w.main, "Instance.subflowId")] = tZero
	s.heap[fld(w.main, "Instance.host")] = tNil
	s.heap[fld(w.parent, "Instance.master")] = w.ind
	s.heap[fld(w.parent, "Instance.subflowId")] = w.sub
	s.heap[fld(w.host, "TaskInst.flowInst")] = w.parent
	s.heap[fld(w.main, "Instance.flowDef")] = w.mainDef
	s.heap[fld(w.parent, "Instance.flowDef")] = w.parDef
	for _, d := range []*Term{w.def, w.mainDef, w.parDef} {
		s.heap[fld(d, "Definition.name")] = w.nameOf(d)
	}
	s.heap[fld(w.def, "Definition.metadata")] = w.md
	s.heap[fld(w.md, "IOMetadata.Input")] = w.mdIn
	s.heap[fld(w.md, "IOMetadata.Output")] = w.mdOut
	return w
}

func (w *dataWorld) nameOf(d *Term) *Term {
	return tm.named(KSym, "name in "+d.op, types.Typ[types.String])
}

func (w *dataWorld) roots() []*Term {
	return []*Term{w.ind, w.main, w.host, w.parent, w.def, w.mainDef, w.parDef, w.md, w.mdIn, w.mdOut, w.decl, w.declVal, w.given, w.val, w.id, w.sub, tm.named(KObj, "subflows", nil)}
}

// declare: whether a map of the metadata declares the tracked name, and with which value.
func (w *dataWorld) declare(s *State, m *Term, how string) {
	s.heap[mkHas(m, w.name)] = mkBool(how != "")
	s.heap[mkKey(m, w.name)] = tNil
	if how != "" && how != "nothing" {
		s.heap[mkKey(m, w.name)] = w.decl
	}
}

func (w *dataWorld) hooks(how string) Hooks {
	return Hooks{
		KeepKeys:  true,
		Immutable: immutableHook("IndependentInstance.Instance", "IndependentInstance.id", "Instance.subflowId", "Instance.master", "Instance.host", "Instance.flowDef", "TaskInst.flowInst", "IOMetadata.Input", "IOMetadata.Output"),
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		NewElem: func(x *Exec, s *State, cc, k, e *Term) {
			if k == nil {
				return
			}
			s.neq[ordered(k, w.name)] = true
			for _, n := range []string{"FlowName", "FlowId", "ParentFlowName", "ParentFlowId", "AppName", "AppVersion", "TraceId", "SpanId"} {
				s.neq[ordered(k, mkStr(ctxPrefix+n))] = true
			}
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.Builtin != "" {
				return ActDefault, nil
			}
			switch {
			case strings.HasSuffix(c.ID, "data.TypedValue.Value"), c.Recv == w.decl && c.Recv != nil && strings.HasSuffix(c.ID, ".Value"):
				if c.Recv == w.decl {
					if how == "null" {
						return ActModel, []Outcome{{Res: tNil}}
					}
					return ActModel, []Outcome{{Res: w.declVal}}
				}
				return ActPure, nil
			case c.ID == "strconv.Itoa":
				return ActModel, []Outcome{{Res: mkOp("itoa", c.Args[0])}}
			case strings.HasSuffix(c.ID, "support.GetAppName"):
				return ActModel, []Outcome{{Res: tm.named(KSym, "name of the application", types.Typ[types.String])}}
			case strings.HasSuffix(c.ID, "support.GetAppVerison"):
				return ActModel, []Outcome{{Res: tm.named(KSym, "version of the application", types.Typ[types.String])}}
			case strings.HasSuffix(c.ID, "support.GetDefinition"):
				return ActModel, []Outcome{{Res: mkTuple(w.def, x.fresh("kept", types.Typ[types.Bool]), tNil)}, {Res: mkTuple(tNil, tFalse, tm.named(KObj, "failure", nil))}}
			}
			if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActPure, nil
		},
	}
}

// startRun explores the start of a flow, or of a subflow, up to the point where its tasks are asked for.
func startRun(c *Ctx, subflow bool, how string, given bool, tot map[string]int) {
	p := c.P
	s := newState()
	w := newDataWorld(p, s)
	w.declare(s, w.mdIn, how)
	s.heap[mkHas(w.given, w.name)] = mkBool(given)
	s.heap[mkKey(w.given, w.name)] = w.val
	if !given {
		s.heap[mkKey(w.given, w.name)] = tNil
	}
	what := "flow"
	fn := p.Method("instance", "IndependentInstance", "Start")
	args := []*Term{w.ind, w.given}
	if subflow {
		what = "subflow"
		fn = p.Func("instance", "StartSubFlow")
		args = []*Term{w.host, tm.named(KSym, "uri of the flow", types.Typ[types.String]), w.given}
		subs := tm.named(KObj, "subflows", nil)
		s.heap[fld(w.ind, "IndependentInstance.subflows")] = subs
		if !given {
			s.heap[fld(w.ind, "IndependentInstance.subflows")] = tNil
		}
	} else {
		attrs := tm.named(KObj, "attributes of the flow", nil)
		s.heap[fld(w.main, "Instance.attrs")] = attrs
		s.heap[mkHas(attrs, w.name)] = tFalse
		s.heap[fld(w.main, "Instance.flowDef")] = w.def
		w.mainDef = w.def
	}
	if how != "" {
		what += ", input declared with " + how
	}
	if given {
		what += ", value given"
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "data of a flow: "+id+" ("+what+")", pos, format, args...)
	}
	h := w.hooks(how)
	h.Coll = func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
		switch {
		case cc == w.mdIn && how != "":
			return []*Term{w.name}, []*Term{s.heap[mkKey(w.mdIn, w.name)]}, true, true
		case cc == w.given && given:
			return []*Term{w.name}, []*Term{w.val}, true, true
		}
		return nil, nil, false, false
	}
	h.MapLen = func(x *Exec, s *State, m *Term) *Term {
		if m == w.mdIn && how != "" || m == w.given && given {
			n := tm.named(KSym, "number of "+m.op, types.Typ[types.Int])
			s.addDiff(tZero, n, -1)
			return n
		}
		return nil
	}
	h.Store = func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
		if a.kind == KAddr && a.op == "Instance.subflowId" {
			if s.less(tm.named(KSym, "number of subflows", types.Typ[types.Int]), v) != Yes {
				bad(x, s, "number", pos, "the number of a subflow isn't a new one")
			}
			s.regs["w:number of the subflow"] = v
		}
		return true
	}
	call := h.Call
	h.Call = func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		if c.ID != "model.FlowBehavior.Start" {
			return call(x, s, c)
		}
		x.count("starts")
		pos := c.Instr.Pos()
		I := c.Args[0]
		if I == w.main == subflow || I == w.parent {
			bad(x, s, "flow", pos, "another flow than the one to start is started")
			return ActStop, nil
		}
		m := s.at(I, "Instance.attrs")
		if m == nil || m == tNil {
			bad(x, s, "none", pos, "a flow starts without attributes")
			return ActStop, nil
		}
		get := func(k string) *Term {
			if s.decide(x.mapHas(s, m, mkStr(k))) != Yes {
				return nil
			}
			return s.heap[mkKey(m, mkStr(k))]
		}
		v := get("the tracked name")
		switch {
		case given:
			if v == nil || s.eq(v, w.val) != Yes {
				bad(x, s, "input", pos, "a value that is given to the flow isn't the one it starts with")
			}
		case how == "a value":
			if v == nil || s.eq(v, w.declVal) != Yes {
				bad(x, s, "default", pos, "a declared input that isn't given doesn't have its declared value")
			}
		case how != "":
			if v == nil || s.eq(v, tNil) != Yes {
				bad(x, s, "default", pos, "a declared input without a value doesn't start as null")
			}
		default:
			if s.decide(x.mapHas(s, m, w.name)) == Yes {
				bad(x, s, "invented", pos, "a flow starts with a value that is neither declared nor given")
			}
		}
		fname, fid := w.nameOf(w.mainDef), w.id
		pname, pid := mkStr(""), mkStr("")
		if subflow {
			fname, pname = w.nameOf(w.def), w.nameOf(w.parDef)
			if d := s.at(I, "Instance.flowDef"); d != w.def || s.at(I, "Instance.host") != w.host || s.at(I, "Instance.master") != w.ind {
				bad(x, s, "link", pos, "a subflow isn't an instance of its definition, hosted by the task that started it in the same run")
			}
		}
		check := func(k string, want *Term, name string) {
			if v := get(ctxPrefix + k); v == nil || s.eq(v, want) != Yes {
				bad(x, s, k, pos, "a flow doesn't start with the %s", name)
			}
		}
		check("FlowName", fname, "name of the flow")
		check("ParentFlowName", pname, "name of its parent")
		check("AppName", tm.named(KSym, "name of the application", types.Typ[types.String]), "name of the application")
		check("AppVersion", tm.named(KSym, "version of the application", types.Typ[types.String]), "version of the application")
		if !subflow {
			check("FlowId", fid, "id of the flow")
			check("ParentFlowId", pid, "id of its parent")
		} else {
			for k, n := range map[string]*Term{"FlowId": s.get("w:number of the subflow"), "ParentFlowId": w.sub} {
				v := get(ctxPrefix + k)
				if v == nil || n == nil || !mentions(v, mkOp("itoa", n)) || !mentions(v, w.id) {
					bad(x, s, k, pos, "a subflow doesn't start with %s", map[string]string{"FlowId": "its own id", "ParentFlowId": "the id of its parent"}[k])
				}
			}
		}
		if st := s.at(I, "Instance.status"); st == nil || s.eq(st, mkInt(p.constVal("model", "FlowStatusActive"))) != Yes {
			bad(x, s, "status", pos, "a flow asks for its tasks before it is active")
		}
		return ActStop, nil
	}
	x := newExec(p, "data", h)
	x.roots = append(x.roots, w.roots()...)
	x.Run(fn, s, args)
	c.absorb(x, nil)
	tot["starts"] += x.counts["starts"]
	c.must("starts of a "+what, x.counts["starts"], 1)
}

// mentions: the term is built from another one.
func mentions(t, of *Term) bool {
	if t == of {
		return true
	}
	for _, a := range t.args {
		if mentions(a, of) {
			return true
		}
	}
	return false
}

// returnRun explores asking for the data a flow returns.
func returnRun(c *Ctx, explicit bool, how string, attr bool, tot map[string]int) {
	p := c.P
	fn := p.Method("instance", "Instance", "GetReturnData")
	s := newState()
	w := newDataWorld(p, s)
	s.heap[fld(w.main, "Instance.flowDef")] = w.def
	data, attrs := tm.named(KObj, "returned data", nil), tm.named(KObj, "attributes of the flow", nil)
	err := tm.named(KSym, "error of the flow", nil)
	av := tm.named(KSym, "value of the attribute", nil)
	s.heap[fld(w.main, "Instance.returnError")] = err
	s.heap[fld(w.main, "Instance.attrs")] = attrs
	s.heap[fld(w.main, "Instance.returnData")] = tNil
	if explicit {
		s.heap[fld(w.main, "Instance.returnData")] = data
	}
	w.declare(s, w.mdOut, how)
	s.heap[mkHas(attrs, w.name)] = mkBool(attr)
	s.heap[mkKey(attrs, w.name)] = av
	if !attr {
		s.heap[mkKey(attrs, w.name)] = tNil
	}
	if how == "no metadata" {
		s.heap[fld(w.def, "Definition.metadata")] = tNil
	}
	what := fmt.Sprintf("explicit: %v, declared: %s, attribute: %v", explicit, how, attr)
	h := w.hooks(how)
	h.Coll = func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
		switch {
		case cc == w.mdOut && how != "":
			return []*Term{w.name}, []*Term{s.heap[mkKey(w.mdOut, w.name)]}, true, true
		case cc == attrs && attr:
			return []*Term{w.name}, []*Term{av}, true, true
		}
		return nil, nil, false, false
	}
	h.MapLen = func(x *Exec, s *State, m *Term) *Term {
		if m == w.mdOut && how != "" || m == attrs && attr {
			n := tm.named(KSym, "number of "+m.op, types.Typ[types.Int])
			s.addDiff(tZero, n, -1)
			return n
		}
		return nil
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "data of a flow: "+id+" ("+what+")", pos, format, args...)
	}
	h.Store = func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
		if a.kind == KAddr && len(a.args) == 1 && a.args[0] == w.main && strings.HasPrefix(a.op, "Instance.") {
			bad(x, s, "changed", pos, "asking for the data of a flow changes the flow")
		}
		return true
	}
	h.MapUpdate = func(x *Exec, s *State, m, k, v *Term, pos token.Pos) {
		if m == attrs || m == data {
			bad(x, s, "changed", pos, "asking for the data of a flow changes the flow")
		}
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 2 {
			return
		}
		x.count("returns")
		if s.eq(res[1], err) != Yes {
			bad(x, s, "error", pos, "the error of the flow isn't returned with its data")
		}
		m := res[0]
		if explicit {
			if m != data {
				bad(x, s, "explicit", pos, "the data that was explicitly returned isn't what the flow returns")
			}
			return
		}
		has := m != tNil && s.decide(x.mapHas(s, m, w.name)) == Yes
		var v *Term
		if has {
			v = s.heap[mkKey(m, w.name)]
		}
		if m == attrs {
			bad(x, s, "shared", pos, "the data a flow returns is shared with its running tasks")
		}
		switch {
		case how == "a value":
			if v == nil || s.eq(v, w.declVal) != Yes {
				bad(x, s, "declared", pos, "a declared output with a value isn't returned with it")
			}
		case how == "null" && attr:
			if v == nil || s.eq(v, av) != Yes {
				bad(x, s, "output", pos, "a declared output isn't returned with the value it has in the flow")
			}
		default:
			if has {
				bad(x, s, "invented", pos, "a flow returns an output that isn't declared or doesn't have a value")
			}
		}
	}
	x := newExec(p, "data", h)
	x.roots = append(x.roots, w.roots()...)
	x.roots = append(x.roots, data, attrs, err, av)
	x.Run(fn, s, []*Term{w.main})
	c.absorb(x, nil)
	c.must("returns: "+what, x.counts["returns"], 1)
	tot["returns"] += x.counts["returns"]
}

// replyRun: what is returned or replied is kept, and passed on exactly once.
func replyRun(c *Ctx, m string, handler bool, tot map[string]int) {
	p := c.P
	fn := p.Method("instance", "Instance", m)
	s := newState()
	I, data, err, hd := tm.named(KObj, "main flow", p.ptrTo("instance", "Instance")), tm.named(KObj, "returned data", nil), tm.named(KSym, "error of the flow", nil), tm.named(KObj, "result handler", nil)
	s.heap[fld(I, "Instance.resultHandler")] = tNil
	if handler {
		s.heap[fld(I, "Instance.resultHandler")] = hd
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "data of a flow: "+m+" "+id, pos, format, args...)
	}
	x := newExec(p, "data", Hooks{
		Immutable: func(f string) bool { return f == "Instance.resultHandler" },
		MayPanic:  func(c *Call) bool { return false },
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.ID == "core/action.ResultHandler.HandleResult" {
				x.count("replies")
				if s.eq(c.Args[0], data) != Yes || s.eq(c.Args[1], err) != Yes {
					bad(x, s, "result", c.Instr.Pos(), "something else than what the activity replied is passed on")
				}
				return ActModel, []Outcome{{Mod: func(n *State) bool { n.inc("replied"); return true }}}
			}
			if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActDefault, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count(m)
			n := s.num("replied")
			if want := map[bool]int64{true: 1}[m == "Reply" && handler]; n != want {
				bad(x, s, "count", pos, "a reply isn't passed on exactly once")
			}
			if m == "Reply" {
				if v := s.at(I, "Instance.returnData"); handler && (v == nil || s.eq(v, data) != Yes) {
					bad(x, s, "kept", pos, "the data that was replied isn't what the flow returns")
				}
				if v := s.at(I, "Instance.forceCompletion"); v != nil {
					bad(x, s, "completion", pos, "a reply ends the flow")
				}
				return
			}
			if v := s.at(I, "Instance.returnData"); v == nil || s.eq(v, data) != Yes {
				bad(x, s, "kept", pos, "the data an activity returned isn't what the flow returns")
			}
			if v := s.at(I, "Instance.returnError"); v == nil || s.eq(v, err) != Yes {
				bad(x, s, "error", pos, "the error an activity returned isn't what the flow returns")
			}
			if v := s.at(I, "Instance.forceCompletion"); v == nil || s.decide(v) != Yes {
				bad(x, s, "completion", pos, "an activity that returns doesn't end the flow")
			}
		},
	})
	x.roots = append(x.roots, I, data, err, hd)
	x.Run(fn, s, []*Term{I, data, err})
	c.absorb(x, nil)
	c.must(m, x.counts[m], 1)
}

// scopeRun: the attributes of a flow are read and written by name.
func scopeRun(c *Ctx, get, has, attr bool) {
	p := c.P
	s := newState()
	w := newDataWorld(p, s)
	s.heap[fld(w.main, "Instance.flowDef")] = w.def
	attrs, dattrs := tm.named(KObj, "attributes of the flow", nil), tm.named(KObj, "attributes of the definition", nil)
	av, nv, da := tm.named(KSym, "value of the attribute", nil), tm.named(KSym, "new value", nil), tm.named(KObj, "attribute of the definition", nil)
	s.heap[fld(w.main, "Instance.attrs")] = attrs
	s.heap[fld(w.def, "Definition.attrs")] = dattrs
	s.heap[mkHas(attrs, w.name)] = mkBool(has)
	s.heap[mkKey(attrs, w.name)] = av
	if !has {
		s.heap[mkKey(attrs, w.name)] = tNil
	}
	s.heap[mkHas(dattrs, w.name)] = mkBool(attr)
	s.heap[mkKey(dattrs, w.name)] = da
	if !attr {
		s.heap[mkKey(dattrs, w.name)] = tNil
	}
	other := mkStr("another name")
	s.heap[mkHas(attrs, other)] = tTrue
	ov := tm.named(KSym, "value of another attribute", nil)
	s.heap[mkKey(attrs, other)] = ov
	h := w.hooks("")
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "data of a flow: "+id, pos, format, args...)
	}
	var fn *ssa.Function
	args := []*Term{w.main, w.name}
	if get {
		fn = p.Method("instance", "Instance", "GetValue")
		h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("scope")
			if len(res) != 2 {
				return
			}
			if s.decide(res[1]) != map[bool]Tri{true: Yes, false: No}[has || attr] {
				bad(x, s, "exists", pos, "an attribute isn't found exactly if the flow or its definition has it")
			}
			if v := s.heap[mkKey(attrs, w.name)]; has && (s.eq(res[0], av) != Yes || v != av) {
				bad(x, s, "value", pos, "an attribute of the flow isn't read with its value")
			}
			if !has && attr && !mentions(res[0], da) {
				bad(x, s, "default", pos, "an attribute of the definition isn't read with its value")
			}
		}
	} else {
		fn = p.Method("instance", "Instance", "SetValue")
		args = append(args, nv)
		h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("scope")
			if s.eq(res[0], tNil) != Yes {
				bad(x, s, "refused", pos, "an attribute of a flow can't be set")
			}
			if v := s.heap[mkKey(attrs, w.name)]; v == nil || s.eq(v, nv) != Yes || s.decide(x.mapHas(s, attrs, w.name)) != Yes {
				bad(x, s, "set", pos, "an attribute that is set doesn't have its value")
			}
			if v := s.heap[mkKey(attrs, other)]; v != ov {
				bad(x, s, "other", pos, "setting an attribute changes another one")
			}
		}
	}
	x := newExec(p, "data", h)
	x.roots = append(x.roots, w.roots()...)
	x.roots = append(x.roots, attrs, dattrs, av, nv, da, ov)
	x.Run(fn, s, args)
	c.absorb(x, nil)
	c.must("reads and writes of attributes", x.counts["scope"], 1)
}

// subflowActivity: the activity that runs a subflow passes every declared input on, and knows what the flow declares.
func subflowActivity(c *Ctx, detached, declared bool) {
	p := c.P
	s := newState()
	w := newDataWorld(p, s)
	w.declare(s, w.mdIn, map[bool]string{true: "a value"}[declared])
	a, md, ctx := tm.named(KObj, "subflow activity", p.ptrTo("activity/subflow", "SubFlowActivity")), tm.named(KObj, "activity metadata", nil), tm.named(KObj, "activity context", nil)
	uri := tm.named(KSym, "uri of the subflow", types.Typ[types.String])
	s.heap[fld(a, "SubFlowActivity.flowURI")] = uri
	s.heap[fld(a, "SubFlowActivity.detachedInvocation")] = mkBool(detached)
	s.heap[fld(a, "SubFlowActivity.activityMd")] = md
	s.heap[fld(md, "Metadata.IOMetadata")] = w.md
	what := fmt.Sprintf("detached: %v, declared: %v", detached, declared)
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "data of a flow: subflow activity "+id+" ("+what+")", pos, format, args...)
	}
	h := w.hooks("")
	imm := h.Immutable
	h.Immutable = func(f string) bool {
		return imm(f) || strings.HasPrefix(f, "SubFlowActivity.") && f != "SubFlowActivity.mdUpdated" || f == "Metadata.IOMetadata"
	}
	h.Coll = func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
		if cc == w.mdIn && declared {
			return []*Term{w.name}, []*Term{w.decl}, true, true
		}
		return nil, nil, false, false
	}
	h.MapLen = func(x *Exec, s *State, m *Term) *Term {
		if m == w.mdIn && declared {
			n := tm.named(KSym, "number of "+m.op, types.Typ[types.Int])
			s.addDiff(tZero, n, -1)
			return n
		}
		return nil
	}
	call := h.Call
	fails := func() []Outcome {
		return []Outcome{{Mod: func(n *State) bool { n.inc("started"); n.regs["$res"] = tNil; return true }}, {Mod: func(n *State) bool {
			n.inc("started")
			n.setNum("failed", 1)
			n.regs["$res"] = tm.named(KObj, "failure", nil)
			return true
		}}}
	}
	h.Call = func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.ID == "activity/subflow.SubFlowActivity.Metadata":
			return ActModel, []Outcome{{Res: md}}
		case strings.HasSuffix(c.ID, "activity.Context.GetInput"):
			return ActModel, []Outcome{{Res: mkOp("input", c.Args[0])}}
		case c.ID == "instance.StartSubFlow", c.ID == "instance.StartDetachedSubFlow":
			x.count("subflows")
			if detached != (c.ID == "instance.StartDetachedSubFlow") {
				bad(x, s, "mode", c.Instr.Pos(), "a subflow isn't detached exactly if it is configured so")
			}
			if c.Args[0] != ctx || s.eq(c.Args[1], uri) != Yes {
				bad(x, s, "flow", c.Instr.Pos(), "another flow than the configured one is started")
			}
			m := c.Args[2]
			has := m != tNil && s.decide(x.mapHas(s, m, w.name)) == Yes
			if has != declared || has && (s.heap[mkKey(m, w.name)] == nil || s.eq(s.heap[mkKey(m, w.name)], mkOp("input", w.name)) != Yes) {
				bad(x, s, "input", c.Instr.Pos(), "a subflow isn't started with exactly the inputs it declares")
			}
			return ActModel, fails()
		}
		return call(x, s, c)
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		x.count("evaluations")
		if s.num("started") != 1 {
			bad(x, s, "count", pos, "a subflow isn't started exactly once")
		}
		if e := s.eq(res[1], tNil); e != map[bool]Tri{true: No, false: Yes}[s.is("failed")] {
			bad(x, s, "error", pos, "the activity doesn't fail exactly if its subflow can't be started")
		}
		if !s.is("failed") && s.decide(res[0]) != map[bool]Tri{true: Yes, false: No}[detached] {
			bad(x, s, "done", pos, "the activity isn't done at once exactly if its subflow is detached")
		}
	}
	x := newExec(p, "data", h)
	x.roots = append(x.roots, w.roots()...)
	x.roots = append(x.roots, a, md, ctx, uri)
	x.Run(p.Method("activity/subflow", "SubFlowActivity", "Eval"), s, []*Term{a, ctx})
	c.absorb(x, nil)
	c.must("starts of subflows", x.counts["subflows"], 1)
	c.must("evaluations of the subflow activity", x.counts["evaluations"], 1)
}

// subflowMetadata: what the activity declares is what its flow declares, once that is known.
func subflowMetadata(c *Ctx) {
	p := c.P
	s := newState()
	a, md := tm.named(KObj, "subflow activity", p.ptrTo("activity/subflow", "SubFlowActivity")), tm.named(KObj, "activity metadata", nil)
	io := tm.named(KObj, "metadata of the flow", nil)
	uri := tm.named(KSym, "uri of the subflow", types.Typ[types.String])
	s.heap[fld(a, "SubFlowActivity.flowURI")] = uri
	s.heap[fld(a, "SubFlowActivity.activityMd")] = md
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "data of a flow: subflow activity metadata "+id, pos, format, args...)
	}
	x := newExec(p, "data", Hooks{
		Immutable: func(f string) bool {
			return f == "SubFlowActivity.flowURI" || f == "SubFlowActivity.activityMd" || f == "Metadata.IOMetadata"
		},
		MayPanic: func(c *Call) bool { return false },
		Store: func(x *Exec, s *State, ad, v *Term, pos token.Pos) bool {
			if ad.kind == KAddr && ad.op == "SubFlowActivity.mdUpdated" && v != tZero {
				s.inc("final")
			}
			return true
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			switch {
			case c.ID == "instance.GetFlowIOMetadata":
				x.count("lookups")
				if s.eq(c.Args[0], uri) != Yes {
					bad(x, s, "flow", c.Instr.Pos(), "the declarations of another flow are used")
				}
				return ActModel, []Outcome{{Mod: func(n *State) bool { n.setNum("known", 1); n.regs["$res"] = mkTuple(io, tNil); return true }},
					{Res: mkTuple(tNil, tm.named(KObj, "failure", nil))}}
			case strings.HasPrefix(c.ID, "sync/atomic.") && (strings.HasSuffix(c.ID, "Store") || strings.Contains(c.ID, ".Store")):
				return ActModel, []Outcome{{Mod: func(n *State) bool { n.inc("final"); return true }}}
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActDefault, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("metadata")
			if res[0] != md {
				bad(x, s, "own", pos, "the activity doesn't have its own declarations")
			}
			if s.is("known") {
				if v := s.at(md, "Metadata.IOMetadata"); v != io {
					bad(x, s, "declarations", pos, "the activity doesn't declare what its flow declares")
				}
			} else if s.num("final") > 0 {
				bad(x, s, "final", pos, "the activity never asks again for the declarations of a flow that wasn't found once")
			}
		},
	})
	x.roots = append(x.roots, a, md, io, uri)
	x.Run(p.Method("activity/subflow", "SubFlowActivity", "Metadata"), s, []*Term{a})
	c.absorb(x, nil)
	c.must("lookups of the declarations of a subflow", x.counts["lookups"], 1)
	c.must("declarations of the subflow activity", x.counts["metadata"], 2)
}

func dataCheck(c *Ctx) {
	tot := map[string]int{}
	for _, b := range []bool{false, true} {
		subflowActivity(c, b, false)
		subflowActivity(c, b, true)
	}
	subflowMetadata(c)
	for _, sub := range []bool{false, true} {
		for _, how := range []string{"", "nothing", "null", "a value"} {
			for _, given := range []bool{false, true} {
				startRun(c, sub, how, given, tot)
			}
		}
	}
	for _, explicit := range []bool{false, true} {
		for _, how := range []string{"", "null", "a value", "no metadata"} {
			for _, attr := range []bool{false, true} {
				returnRun(c, explicit, how, attr, tot)
			}
		}
	}
	for _, h := range []bool{false, true} {
		replyRun(c, "Reply", h, tot)
		replyRun(c, "Return", h, tot)
	}
	for _, has := range []bool{false, true} {
		for _, attr := range []bool{false, true} {
			scopeRun(c, true, has, attr)
			scopeRun(c, false, has, attr)
		}
	}
}

func init() {
	register("C35", dataCheck, "the values a flow or subflow starts with, for a tracked name that is declared or given in every way", "the data a flow returns, for a tracked output", "replies, returns, and reads and writes of attributes")
}
