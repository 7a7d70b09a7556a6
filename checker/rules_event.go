package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C36: an event says what the flow or task was when it was posted, and posting it has no other effect. What an event
// says is decided by exploring its accessors in the state in which it is posted.

// eventOf explores an accessor of a posted event; nil if it doesn't yield one value.
func eventOf(x *Exec, s *State, ev *Term, name string, h Hooks) (res *Term, st *State) {
	var t types.Type = ev.typ
	if t == nil {
		return nil, nil
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok && ev.kind == KObj {
		t = types.NewPointer(t)
	}
	fn := x.p.methodOf(t, name)
	if fn == nil {
		return nil, nil
	}
	y := newExec(x.p, x.rule, h)
	n := s.clone()
	n.frames = nil
	many := false
	y.h.Return = func(_ *Exec, m *State, r []*Term, _ token.Pos) {
		if len(r) != 1 || res != nil && res != r[0] {
			many = true
			return
		}
		res, st = r[0], m.clone()
	}
	y.roots = append(append([]*Term{}, x.roots...), ev)
	y.Run(fn, n, []*Term{ev})
	if many || len(y.findings) > 0 {
		return nil, nil
	}
	return res, st
}

type eventCase struct {
	task      bool
	listener  bool
	status    string
	want      string // constant of the event package
	sub       bool
	how       string // declaration of the tracked output, input or output
	has       bool   // the task has its own value
	direction string
	metadata  string
}

func eventRun(c *Ctx, e eventCase, tot map[string]int) {
	p := c.P
	s := newState()
	w := newDataWorld(p, s)
	what := "flow"
	if e.task {
		what = "task"
	}
	var what2 []string
	what2 = append(what2, e.status)
	if e.sub {
		what2 = append(what2, "subflow")
	}
	if e.how != "" {
		what2 = append(what2, "declared "+e.direction)
	}
	if e.has {
		what2 = append(what2, "with a value")
	}
	if e.metadata != "" {
		what2 = append(what2, e.metadata)
	}
	wh := strings.Join(what2, ", ")
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "event of a "+what+": "+id+" ("+wh+")", pos, format, args...)
	}
	str := types.Typ[types.String]
	I := w.main
	attrs := tm.named(KObj, "attributes of the flow", nil)
	av := tm.named(KSym, "value of the attribute", nil)
	s.neq[ordered(av, tNil)] = true
	ferr := tm.named(KSym, "error of the flow", nil)
	if e.sub {
		I = tm.named(KObj, "the subflow", p.ptrTo("instance", "Instance"))
		s.heap[fld(I, "Instance.master")] = w.ind
		n := tm.named(KSym, "number of the subflow", types.Typ[types.Int])
		s.addDiff(tZero, n, -1)
		s.heap[fld(I, "Instance.subflowId")] = n
		s.heap[fld(I, "Instance.host")] = w.host
	}
	s.heap[fld(I, "Instance.flowDef")] = w.def
	s.heap[fld(I, "Instance.attrs")] = attrs
	s.heap[fld(I, "Instance.returnData")] = tNil
	s.heap[fld(I, "Instance.returnError")] = ferr
	s.heap[mkHas(attrs, w.name)] = tTrue
	s.heap[mkKey(attrs, w.name)] = av
	hname, hid := tm.named(KSym, "name of the task", str), tm.named(KSym, "id of the task instance", str)
	htask := tm.named(KObj, "definition of the task", p.ptrTo("definition", "Task"))
	s.heap[fld(w.host, "TaskInst.task")] = htask
	s.heap[fld(w.host, "TaskInst.id")] = hid
	s.heap[fld(htask, "Task.name")] = hname
	w.declare(s, w.mdOut, "")
	var self *Term
	act, amd, io := tm.named(KObj, "the activity", nil), tm.named(KObj, "metadata of the activity", nil), tm.named(KObj, "io metadata of the activity", nil)
	cfg := tm.named(KObj, "configured activity", nil)
	ain, aout := tm.named(KObj, "inputs the activity declares", nil), tm.named(KObj, "outputs the activity declares", nil)
	vals := tm.named(KObj, "values of the task", nil)
	own := tm.named(KSym, "own value", nil)
	terr, ttype := tm.named(KSym, "error of the task", nil), tm.named(KSym, "type of the task", str)
	decl := aout
	if e.direction == "input" {
		decl = ain
	}
	if !e.task {
		w.declare(s, w.mdOut, e.how)
		self = I
	} else {
		self = w.host
		s.heap[fld(w.host, "TaskInst.flowInst")] = I
		s.heap[fld(w.host, "TaskInst.returnError")] = terr
		s.heap[fld(htask, "Task.typeID")] = ttype
		s.heap[fld(htask, "Task.activityCfg")] = cfg
		s.heap[fld(cfg, "ActivityConfig.Activity")] = act
		if e.metadata == "no activity" {
			s.heap[fld(cfg, "ActivityConfig.Activity")] = tNil
		}
		s.heap[fld(amd, "Metadata.IOMetadata")] = io
		if e.metadata == "nothing declared" {
			s.heap[fld(amd, "Metadata.IOMetadata")] = tNil
		}
		s.heap[fld(io, "IOMetadata.Input")], s.heap[fld(io, "IOMetadata.Output")] = ain, aout
		w.declare(s, ain, "")
		w.declare(s, aout, "")
		w.declare(s, decl, e.how)
		f := "TaskInst.outputs"
		if e.direction == "input" {
			f = "TaskInst.inputs"
		}
		s.heap[fld(w.host, f)] = vals
		s.heap[mkHas(vals, w.name)] = mkBool(e.has)
		s.heap[mkKey(vals, w.name)] = tNil
		if e.has {
			s.heap[mkKey(vals, w.name)] = own
		}
	}
	h := w.hooks(e.how)
	h.KeepNested = true
	imm := h.Immutable
	h.Immutable = func(f string) bool {
		return imm(f) || strings.HasPrefix(f, "Metadata.") || strings.HasPrefix(f, "Instance.") && f != "Instance.status" || strings.HasPrefix(f, "TaskInst.") && f != "TaskInst.status"
	}
	tracked := func(m *Term) *Term {
		switch {
		case m == attrs:
			return av
		case e.how != "" && (!e.task && m == w.mdOut || e.task && m == decl):
			return w.decl
		case m == vals && e.has:
			return own
		}
		return nil
	}
	h.Coll = func(s *State, cc *Term) (k, el []*Term, others, ok bool) {
		if v := tracked(cc); v != nil {
			return []*Term{w.name}, []*Term{v}, true, true
		}
		return nil, nil, false, false
	}
	h.MapLen = func(x *Exec, s *State, m *Term) *Term {
		if tracked(m) != nil {
			n := tm.named(KSym, "number of "+m.op, types.Typ[types.Int])
			s.addDiff(tZero, n, -1)
			return n
		}
		return nil
	}
	x := newExec(p, "event", h)
	x.h.RootPanic = func(x *Exec, s *State, pos token.Pos) {
		bad(x, s, "panic", pos, "changing the status of a %s panics when its events are observed", what)
	}
	x.h.Store = func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
		if a.kind == KAddr && len(a.args) == 1 && !isAlloc(x, a.args[0]) && (strings.HasPrefix(a.op, "Instance.") && a.op != "Instance.status" || strings.HasPrefix(a.op, "TaskInst.") && a.op != "TaskInst.status" || strings.HasPrefix(a.op, "IndependentInstance.")) {
			bad(x, s, "changed", pos, "posting an event changes the %s", what)
		}
		return true
	}
	x.h.MapUpdate = func(x *Exec, s *State, m, k, v *Term, pos token.Pos) {
		if !x.localBase(s, m) && m != nil && !x.mapFresh(s, m) {
			bad(x, s, "changed", pos, "posting an event changes the %s", what)
		}
	}
	etype := mkStr(p.strVal("support/event", map[bool]string{true: "TaskEventType", false: "FlowEventType"}[e.task]))
	now := tm.named(KSym, "now", nil)
	call := h.Call
	accH := h
	accH.Store, accH.MapUpdate, accH.RootPanic = nil, nil, nil
	x.h.Call = func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.ID == "core/engine/event.HasListener":
			x.count("listener")
			if s.eq(c.Args[0], etype) != Yes {
				bad(x, s, "type", c.Instr.Pos(), "the listeners of another type of event are looked for")
			}
			return ActModel, []Outcome{{Res: mkBool(e.listener)}}
		case c.ID == "time.Now":
			return ActModel, []Outcome{{Res: now}}
		case c.ID == "core/activity.GetRef":
			return ActModel, []Outcome{{Res: mkOp("ref", c.Args[0])}}
		case strings.HasSuffix(c.ID, "activity.Activity.Metadata"):
			if e.metadata == "no metadata" {
				return ActModel, []Outcome{{Res: tNil}}
			}
			return ActModel, []Outcome{{Res: amd}}
		case c.ID == "core/engine/event.Post":
			x.count("posts")
			pos := c.Instr.Pos()
			if s.eq(c.Args[0], etype) != Yes {
				bad(x, s, "type", pos, "the event is posted as another type of event")
			}
			ev := c.Args[1]
			get := func(m string) (*Term, *State) { return eventOf(x, s, ev, m, accH) }
			is := func(m string, want *Term, name string) {
				v, n := get(m)
				if v == nil || n.eq(v, want) != Yes {
					bad(x, s, m, pos, "the event doesn't have %s", name)
				}
			}
			isID := func(m string, of *Term, name string) {
				if of == w.main {
					is(m, w.id, name)
					return
				}
				v, _ := get(m)
				if v == nil || !mentions(v, w.id) || !mentions(v, mkOp("itoa", s.at(of, "Instance.subflowId"))) {
					bad(x, s, m, pos, "the event doesn't have %s", name)
				}
			}
			status, stm, errm, failed := "FlowStatus", ferr, "FlowError", "FAILED"
			if e.task {
				status, stm, errm = "TaskStatus", terr, "TaskError"
			}
			is("FlowName", w.nameOf(w.def), "the name of its flow")
			isID("FlowID", I, "the id of its flow")
			is(status, mkStr(p.strVal("support/event", e.want)), "the status of the "+what)
			if v, _ := get("Time"); v == nil || !mentions(v, now) {
				bad(x, s, "Time", pos, "the event doesn't have the time at which it was posted")
			}
			if e.want != failed {
				stm = tNil
			}
			is(errm, stm, "the error of the "+what+" exactly if it failed")
			// the tracked value
			entry := func(m string, want *Term, id, name string) {
				v, n := get(m)
				if v == nil {
					bad(x, s, m, pos, "the event doesn't have %s", name)
					return
				}
				if v == attrs || v == vals {
					bad(x, s, m+" shared", pos, "the event shares the data of the running %s", what)
					return
				}
				has := v != tNil && n.decide(x.mapHas(n, v, w.name)) == Yes
				var got *Term
				if has {
					got = n.heap[mkKey(v, w.name)]
				}
				switch {
				case want == nil && has:
					bad(x, s, m+" invented", pos, "the event has more than %s", name)
				case want != nil && (got == nil || n.eq(got, want) != Yes):
					bad(x, s, m, pos, "the event doesn't have %s", name)
				}
			}
			if !e.task {
				if e.sub {
					v, n := get("ParentFlowName")
					if v == nil || n.eq(v, w.nameOf(w.mainDef)) != Yes && n.eq(v, w.nameOf(w.parDef)) != Yes {
						bad(x, s, "ParentFlowName", pos, "the event of a subflow doesn't name the flow it runs in")
					}
					v, n = get("ParentFlowID")
					if v == nil || n.eq(v, w.id) != Yes && !(mentions(v, w.id) && mentions(v, mkOp("itoa", w.sub))) {
						bad(x, s, "ParentFlowID", pos, "the event of a subflow doesn't have the id of the flow it runs in")
					}
				} else {
					is("ParentFlowName", mkStr(""), "no parent")
					is("ParentFlowID", mkStr(""), "no parent")
				}
				v, n := get("HostTask")
				hn, hi := mkStr(""), mkStr("")
				if e.sub {
					hn, hi = hname, hid
				}
				part := func(f string) *Term {
					if v == nil {
						return nil
					}
					st, _ := p.Named("support/event", "HostTask").Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == f {
							if v.kind == KTuple && i < len(v.args) {
								return v.args[i]
							}
							return fieldOf(v, i, p.Named("support/event", "HostTask"))
						}
					}
					return nil
				}
				if a, b := part("TaskName"), part("TaskInstanceId"); a == nil || b == nil || n.eq(a, hn) != Yes || n.eq(b, hi) != Yes {
					bad(x, s, "HostTask", pos, "the event doesn't name the task that hosts the flow, if there is one")
				}
				var in, out *Term
				if e.want != "CREATED" {
					if e.how == "" {
						in = av
					} else if e.want == "COMPLETED" {
						out = av
					}
				}
				entry("FlowInput", in, "in", "the attributes of the flow that aren't outputs")
				entry("FlowOutput", out, "out", "the outputs of a flow exactly if it is completed")
			} else {
				is("TaskName", hname, "the name of the task")
				is("TaskInstanceId", hid, "the id of the task")
				is("TaskType", ttype, "the type of the task")
				ref := mkOp("ref", act)
				if e.metadata == "no activity" {
					ref = mkStr("")
				}
				is("ActivityRef", ref, "the activity of the task")
				var in, out *Term
				if e.how != "" && e.metadata == "" {
					v := w.declVal
					if e.has {
						v = own
					}
					if e.direction == "input" {
						in = v
					} else if e.want == "COMPLETED" {
						out = v
					}
				}
				entry("TaskInput", in, "in", "the inputs of the task")
				entry("TaskOutput", out, "out", "the outputs of a task exactly if it is completed")
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool { n.inc("posted"); return true }}}
		}
		return call(x, s, c)
	}
	x.h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		x.count("changes")
		if n := s.num("posted"); n != map[bool]int64{true: 1}[e.listener] {
			bad(x, s, "count", pos, "a change of the status isn't posted exactly once if there is a listener, and not at all if there is none")
		}
	}
	x.roots = append(x.roots, w.roots()...)
	x.roots = append(x.roots, I, attrs, av, ferr, hname, hid, htask, act, amd, io, cfg, ain, aout, vals, own, terr, ttype, now)
	pkg, typ := "model", "FlowStatus"
	fn := p.Method("instance", "Instance", "SetStatus")
	if e.task {
		typ = "TaskStatus"
		fn = p.Method("instance", "TaskInst", "SetStatus")
	}
	if e.sub {
		// the id of a subflow isn't the id of the run
		if v, _ := eventOf(x, s, I, "ID", h); v != nil {
			s.neq[ordered(v, w.id)] = true
		}
	}
	x.Run(fn, s, []*Term{self, mkInt(p.constVal(pkg, typ+e.status))})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot[what+" "+k] += n
	}
}

func eventCheck(c *Ctx) {
	tot := map[string]int{}
	flow := map[string]string{"NotStarted": "CREATED", "Active": "STARTED", "Completed": "COMPLETED", "Cancelled": "CANCELLED", "Failed": "FAILED"}
	task := map[string]string{"NotStarted": "CREATED", "Entered": "SCHEDULED", "Skipped": "SKIPPED", "Ready": "STARTED", "Failed": "FAILED", "Done": "COMPLETED", "Waiting": "WAITING"}
	for st, want := range flow {
		for _, sub := range []bool{false, true} {
			eventRun(c, eventCase{listener: false, status: st, want: want, sub: sub}, tot)
			eventRun(c, eventCase{listener: true, status: st, want: want, sub: sub}, tot)
			eventRun(c, eventCase{listener: true, status: st, want: want, sub: sub, how: "null", direction: "output"}, tot)
		}
	}
	for st, want := range task {
		eventRun(c, eventCase{task: true, listener: false, status: st, want: want}, tot)
		for _, sub := range []bool{false, true} {
			for _, d := range []string{"input", "output"} {
				for _, how := range []string{"", "a value"} {
					for _, has := range []bool{false, true} {
						eventRun(c, eventCase{task: true, listener: true, status: st, want: want, sub: sub, how: how, direction: d, has: has}, tot)
					}
				}
			}
		}
		for _, m := range []string{"no activity", "no metadata", "nothing declared"} {
			eventRun(c, eventCase{task: true, listener: true, status: st, want: want, metadata: m}, tot)
		}
	}
	for _, k := range []string{"posts", "listener", "changes"} {
		c.must("flow "+k, tot["flow "+k], 5)
		c.must("task "+k, tot["task "+k], 7)
	}
}

var _ = ssa.Function{}

func init() {
	register("C36", eventCheck, "the event of every status of a flow or subflow, by its accessors, with a tracked value", "the event of every status of a task, for every kind of activity", "what posting an event changes")
}
