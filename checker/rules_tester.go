package main

import (
	"go/token"
	"go/types"
	"strings"
)

// C39: a test request runs the flow or state it describes with the overrides it describes, and is answered accordingly.

const testerRef = "github.com/project-flogo/flow"

type testKind struct {
	method, req, what string
	op                int64
	state             string // field of the request that holds the state
	maps              []string
}

var testKinds = []testKind{
	{"StartFlow", "StartRequest", "start request", 0, "", []string{"Attrs", "Data"}},
	{"RestartFlow", "RestartRequest", "restart request", 2, "InitialState", []string{"Data"}},
	{"ResumeFlow", "ResumeRequest", "resume request", 1, "State", []string{"Data"}},
}

// testShape: which map of the request has a value of the tracked name (of those that hold anything), and what else it has.
type testShape struct {
	what     string
	attrs    int // 0: empty, 1: holds other names, 2: holds the tracked name
	data     int
	state    bool
	override bool
}

// testRequest: what a request makes the runner do.
func testRequest(c *Ctx, k testKind, sh testShape, tot map[string]int) {
	p := c.P
	s := newState()
	self, req, st := tm.named(KObj, "request processor", nil), tm.named(KObj, "request", nil), tm.named(KObj, "state of the request", nil)
	rn := tm.named(KObj, "runner", nil)
	uri, icp, patch := tm.named(KObj, "uri of the flow", types.Typ[types.String]), tm.named(KObj, "interceptor", nil), tm.named(KObj, "patch", nil)
	name := mkStr("the tracked name")
	maps := map[string]*Term{"Attrs": tm.named(KObj, "attributes", nil), "Data": tm.named(KObj, "data", nil)}
	vals := map[string]*Term{"Attrs": tm.named(KSym, "value of the attribute", nil), "Data": tm.named(KSym, "value of the data", nil)}
	hold := map[string]int{"Attrs": sh.attrs, "Data": sh.data}
	factory, act := tm.named(KObj, "factory", nil), tm.named(KObj, "action", nil)
	results, failure := tm.named(KObj, "results", nil), tm.named(KObj, "failure of the run", nil)
	f := func(n string) string { return k.req + "." + n }
	s.heap[fld(self, "RequestProcessor.runner")] = rn
	if !sh.override {
		icp, patch = tNil, tNil
	}
	s.heap[fld(req, f("Interceptor"))], s.heap[fld(req, f("Patch"))] = icp, patch
	if k.state == "" {
		st = tNil
		s.heap[fld(req, f("FlowURI"))] = uri
		s.addDiff(tZero, mkOp("len", uri), -1)
	} else {
		if !sh.state {
			st = tNil
		}
		s.heap[fld(req, f(k.state))] = st
	}
	s.regs["w:key"] = name
	var want *Term
	for _, n := range k.maps {
		if hold[n] == 2 {
			want = vals[n]
		}
		if hold[n] != 0 {
			break
		}
	}
	for _, n := range k.maps {
		m := maps[n]
		s.heap[fld(req, f(n))] = m
		s.heap[mkHas(m, name)] = mkBool(hold[n] == 2)
		s.heap[mkKey(m, name)] = tNil
		if hold[n] == 2 {
			s.heap[mkKey(m, name)] = vals[n]
		}
	}
	what := k.what + ", " + sh.what
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, what+": "+id, pos, format, args...)
	}
	get := func(x *Exec, s *State, m, k *Term) *Term {
		if m == nil || m == tNil || s.decide(x.mapHas(s, m, k)) != Yes {
			return nil
		}
		return s.heap[mkKey(m, k)]
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		pos := c.Instr.Pos()
		switch {
		case c.ID == "instance.Instance.FlowURI" || strings.HasSuffix(c.ID, "IndependentInstance.FlowURI"):
			if c.Recv == tNil {
				bad(x, s, "panic", pos, "the uri of a state that doesn't exist is asked for")
			}
			return ActModel, []Outcome{{Res: uri}}
		case c.ID == "core/action.GetFactory":
			if c.Args[0].kind != KStr || c.Args[0].op != testerRef {
				bad(x, s, "factory", pos, "something else than a flow is run")
			}
			return ActModel, []Outcome{{Res: factory}}
		case strings.HasSuffix(c.ID, "action.Factory.New"):
			a := c.Args[0]
			if u := get(x, s, s.at(a, "Config.Settings"), mkStr("flowURI")); u == nil || lookupUnwrap(u) != uri {
				bad(x, s, "flow", pos, "the flow that is run isn't the one of the request")
			}
			return ActModel, lookupFails(act, false)
		case strings.HasSuffix(c.ID, ".RunAction"):
			x.count("runs")
			if s.is("failed") || k.state != "" && st == tNil {
				bad(x, s, "run", pos, "a request is run that can't be")
			}
			if s.is("ran") {
				bad(x, s, "twice", pos, "a request is run twice")
			}
			if c.Recv != rn {
				bad(x, s, "runner", pos, "a request isn't run by the runner")
			}
			as := c.Args[len(c.Args)-3:]
			if as[1] != act {
				bad(x, s, "action", pos, "another action is run than the one of the request")
			}
			in := as[2]
			v := get(x, s, in, name)
			if v != want && (v == nil || want == nil || s.eq(v, want) != Yes) {
				bad(x, s, "inputs", pos, "what the request gives isn't what is run with")
			}
			ro := get(x, s, in, mkStr("_run_options"))
			ro = lookupUnwrap(ro)
			if ro == nil {
				bad(x, s, "options", pos, "the request is run without its options")
				return ActStop, nil
			}
			is := func(f string, v *Term) bool {
				g := s.at(ro, "RunOptions."+f)
				return g != nil && (g == v || s.eq(g, v) == Yes)
			}
			unset := func(f string, v *Term) bool { g := s.at(ro, "RunOptions."+f); return g == nil || s.eq(g, v) == Yes }
			if g := s.at(ro, "RunOptions.Op"); !(g == nil && k.op == 0) && !is("Op", mkInt(k.op)) {
				bad(x, s, "operation", pos, "a %s does something else", k.what)
			}
			if !is("ReturnID", tTrue) {
				bad(x, s, "id", pos, "the request doesn't ask for the id of the flow")
			}
			if g := s.at(ro, "RunOptions.FlowURI"); g != nil && g != uri && s.eq(g, mkStr("")) != Yes {
				bad(x, s, "flow", pos, "the flow that is run isn't the one of the request")
			}
			if st == tNil && !unset("InitialState", tNil) || st != tNil && !is("InitialState", st) {
				bad(x, s, "state", pos, "the request isn't run from its state")
			}
			for _, f := range []string{"Rerun", "DetachExecution"} {
				if !unset(f, tFalse) {
					bad(x, s, f, pos, "the request is run in a mode it doesn't ask for")
				}
			}
			eo := s.at(ro, "RunOptions.ExecOptions")
			for f, v := range map[string]*Term{"Patch": patch, "Interceptor": icp} {
				var g *Term
				if eo != nil && eo != tNil {
					g = s.at(eo, "ExecOptions."+f)
				}
				if g != v && !(v == tNil && (g == nil || s.eq(g, tNil) == Yes)) {
					bad(x, s, "overrides", pos, "the %s of a request isn't the one it is run with", strings.ToLower(f))
				}
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.setNum("ran", 1)
				n.regs["$res"] = mkTuple(results, tNil)
				return true
			}}, {Mod: func(n *State) bool {
				n.setNum("ran", 1)
				n.setNum("run failed", 1)
				n.regs["$res"] = mkTuple(tNil, failure)
				return true
			}}}
		}
		return ActDefault, nil
	})
	h.Immutable = func(f string) bool { return strings.HasPrefix(f, k.req+".") || f == "RequestProcessor.runner" }
	h.Coll = func(s *State, cc *Term) (ks, e []*Term, others, ok bool) {
		for n, m := range maps {
			if cc == m {
				switch hold[n] {
				case 2:
					return []*Term{name}, []*Term{vals[n]}, true, true
				case 1:
					return nil, nil, true, true
				}
				return nil, nil, false, true
			}
		}
		return nil, nil, false, false
	}
	h.MapLen = func(x *Exec, s *State, m *Term) *Term {
		for n, mm := range maps {
			if m == mm {
				if hold[n] == 0 {
					return tZero
				}
				l := tm.named(KSym, "number of "+n, types.Typ[types.Int])
				s.addDiff(tZero, l, -1)
				return l
			}
		}
		return nil
	}
	h.NewElem = func(x *Exec, s *State, cc, kk, e *Term) {
		if kk != nil {
			s.neq[ordered(kk, name)] = true
		}
	}
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "handling the request panics") }
	h.NilDeref = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "handling the request panics") }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		if s.is("failed") || k.state != "" && st == tNil {
			x.count("refused")
			if s.eq(r[1], tNil) != No {
				bad(x, s, "error dropped", pos, "a request that can't be run isn't reported as an error")
			}
			return
		}
		x.count("answered")
		if !s.is("ran") {
			bad(x, s, "not run", pos, "the request isn't run")
			return
		}
		if s.is("run failed") {
			if r[1] != failure && s.eq(r[1], tNil) != No {
				bad(x, s, "error dropped", pos, "the failure of the run isn't reported")
			}
		} else if r[0] != results || s.eq(r[1], tNil) != Yes {
			bad(x, s, "result", pos, "the result of the run isn't the one of the request")
		}
	}
	x := newExec(p, "tester", h)
	s.neq[ordered(failure, tNil)] = true
	x.roots = append(x.roots, self, req, st, uri, icp, patch, rn, factory, act, results, failure, maps["Attrs"], maps["Data"])
	x.Run(p.Method("tester", "RequestProcessor", k.method), s, []*Term{self, req})
	c.absorb(x, nil)
	for n, v := range x.counts {
		tot["request "+n] += v
	}
}

// testOverride: the override of a task is the one with its id, after initialisation, and there is none for another task.
func testOverride(c *Ctx, typ, list, elem, get string, has bool, tot map[string]int) {
	p := c.P
	s := newState()
	self, l, el, id := tm.named(KObj, "overrides", nil), tm.named(KObj, "list of overrides", nil), tm.named(KObj, "tracked override", nil), mkStr("the tracked task")
	s.heap[fld(self, typ+"."+list)] = l
	s.heap[fld(el, elem+".ID")] = id
	s.regs["w:key"] = id
	s.heap[fld(self, refField(p, "support", typ, isMap))] = tNil
	s.neq[ordered(el, tNil)] = true
	what := strings.ToLower(typ)
	if !has {
		what += " of other tasks"
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, what+": "+id, pos, format, args...)
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActDefault, nil })
	h.Immutable = func(f string) bool { return strings.HasPrefix(f, elem+".") || f == typ+"."+list }
	h.Coll = func(s *State, cc *Term) (ks, e []*Term, others, ok bool) {
		if cc == l {
			if has {
				return nil, []*Term{el}, true, true
			}
			return nil, nil, true, true
		}
		return nil, nil, false, false
	}
	h.NewElem = func(x *Exec, s *State, cc, kk, e *Term) {
		if cc == l {
			s.neq[ordered(e, tNil)], s.neq[ordered(e, el)] = true, true
			o := x.fresh("id of another task", types.Typ[types.String])
			s.neq[ordered(o, id)] = true
			s.heap[fld(e, elem+".ID")] = o
		}
	}
	if has {
		s.addDiff(tZero, mkOp("len", l), -1)
	}
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "the overrides panic") }
	g := h
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("ready")
		n := s.clone()
		n.frames = nil
		y := newExec(p, "tester", g)
		y.h.Return = func(y *Exec, s *State, r []*Term, pos token.Pos) {
			x.count("asked")
			if has && r[0] != el && s.eq(r[0], el) != Yes {
				bad(y, s, "lost", pos, "the override of a task isn't found by the id of the task")
			}
			if !has && s.eq(r[0], tNil) != Yes {
				bad(y, s, "foreign", pos, "a task without an override has one")
			}
		}
		y.roots = append(append([]*Term{}, x.roots...), self)
		y.Run(p.Method("support", typ, get), n, []*Term{self, id})
		c.absorb(y, nil)
	}
	x := newExec(p, "tester", h)
	x.roots = append(x.roots, self, l, el)
	x.Run(p.Method("support", typ, "Init"), s, []*Term{self})
	c.absorb(x, nil)
	for n, v := range x.counts {
		tot["override "+n] += v
	}
}

// testApply: the overrides of a run are those of its flow, ready for use.
func testApply(c *Ctx, opts, patched, icped bool, tot map[string]int) {
	p := c.P
	s := newState()
	ind, eo, patch, icp := tm.named(KObj, "flow", nil), tm.named(KObj, "options", nil), tm.named(KObj, "patch", nil), tm.named(KObj, "interceptor", nil)
	old := map[string]*Term{"patch": tm.named(KSym, "earlier patch", nil), "interceptor": tm.named(KSym, "earlier interceptor", nil)}
	for f, v := range old {
		s.heap[fld(ind, "IndependentInstance."+f)] = v
	}
	want := map[string]*Term{"patch": patch, "interceptor": icp}
	s.heap[fld(eo, "ExecOptions.Patch")], s.heap[fld(eo, "ExecOptions.Interceptor")] = patch, icp
	if !patched {
		s.heap[fld(eo, "ExecOptions.Patch")] = tNil
	}
	if !icped {
		s.heap[fld(eo, "ExecOptions.Interceptor")] = tNil
	}
	s.neq[ordered(patch, tNil)], s.neq[ordered(icp, tNil)] = true, true
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		if !pos.IsValid() {
			pos = p.Func("instance", "ApplyExecOptions").Pos()
		}
		x.report(s, "options of a run: "+id, pos, format, args...)
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch c.ID {
		case "support.Patch.Init", "support.Interceptor.Init":
			a := c.Recv
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.setNum("init "+a.op, 1)
				return true
			}}}
		}
		return ActDefault, nil
	})
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "applying the options panics") }
	h.NilDeref = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "applying the options panics") }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("applied")
		for f, given := range map[string]bool{"patch": patched, "interceptor": icped} {
			got := s.at(ind, "IndependentInstance."+f)
			if given && opts {
				if got != want[f] {
					bad(x, s, "lost", pos, "the %s of a run isn't the one of its flow", f)
				} else if !s.is("init " + want[f].op) {
					bad(x, s, "not ready", pos, "the %s of a run isn't made ready, so it overrides nothing", f)
				}
			} else if got != old[f] {
				bad(x, s, "changed", pos, "the %s of a flow changes although none is given", f)
			}
		}
	}
	x := newExec(p, "tester", h)
	x.roots = append(x.roots, ind, eo, patch, icp, old["patch"], old["interceptor"])
	a := eo
	if !opts {
		a = tNil
	}
	x.Run(p.Func("instance", "ApplyExecOptions"), s, []*Term{ind, a})
	c.absorb(x, nil)
	for n, v := range x.counts {
		tot["options "+n] += v
	}
}

// testMapper: the mappers of a patched task that a flow asks for.
func testMapper(c *Ctx, get, field string, has bool, tot map[string]int) {
	p := c.P
	s := newState()
	self, el, id, m, mp := tm.named(KObj, "patch", nil), tm.named(KObj, "patch of the task", nil), tm.named(KObj, "id of the task", types.Typ[types.String]), tm.named(KObj, "patches by task", nil), tm.named(KSym, "its mapper", nil)
	mf := refField(p, "support", "Patch", isMap)
	s.heap[fld(self, mf)] = m
	s.heap[mkHas(m, id)], s.heap[mkKey(m, id)] = mkBool(has), tNil
	if has {
		s.heap[mkKey(m, id)] = el
		s.neq[ordered(el, tNil)] = true
	}
	s.heap[fld(el, field)] = mp
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActDefault, nil })
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) {
		x.report(s, "patched mapper: panic", pos, "asking for the mapper of a patch panics")
	}
	h.NilDeref = h.RootPanic
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("mappers")
		if has && r[0] != mp || !has && s.eq(r[0], tNil) != Yes {
			x.report(s, "patched mapper: value", pos, "the mapper of a patched task isn't the one of its patch")
		}
	}
	x := newExec(p, "tester", h)
	x.roots = append(x.roots, self, el, id, m, mp)
	x.Run(p.Method("support", "Patch", get), s, []*Term{self, id})
	c.absorb(x, nil)
	tot["patched mappers"] += x.counts["mappers"]
}

// testRest: a request by web is read, run, and answered with the id of the flow or with an error.
func testRest(c *Ctx, k testKind, tot map[string]int) {
	p := c.P
	s := newState()
	self, w, r := tm.named(KObj, "tester", nil), tm.named(KObj, "response", nil), tm.named(KObj, "web request", nil)
	rp, body, results, dec := tm.named(KObj, "request processor", nil), tm.named(KObj, "body", nil), tm.named(KObj, "results", nil), tm.named(KObj, "decoder of the body", nil)
	enc, id := tm.named(KObj, "encoder of the response", nil), tm.named(KObj, "id of the flow", types.Typ[types.String])
	s.heap[fld(self, "RestFlowTester.reqProcessor")] = rp
	s.heap[fld(r, "Request.Body")] = body
	s.heap[mkKey(results, mkStr("id"))] = id
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		if !pos.IsValid() {
			pos = p.Method("tester", "RestFlowTester", k.method).Pos()
		}
		x.report(s, k.what+" by web: "+id, pos, format, args...)
	}
	// an answer with the id of the flow and nothing else
	hasID := func(x *Exec, s *State, v *Term) bool {
		v = lookupUnwrap(v)
		is := func(g *Term) bool {
			g = lookupUnwrap(g)
			return g != nil && (g == id || s.eq(g, id) == Yes)
		}
		for _, a := range v.args {
			if is(a) {
				return true
			}
		}
		return is(s.at(v, "IDResponse.ID")) || is(s.heap[mkKey(v, mkStr("id"))])
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		pos := c.Instr.Pos()
		switch {
		case c.ID == "encoding/json.NewDecoder":
			if lookupUnwrap(c.Args[0]) != body {
				bad(x, s, "body", pos, "something else than the body of the request is read")
			}
			return ActModel, []Outcome{{Res: dec}}
		case c.ID == "encoding/json.Decoder.Decode":
			to := lookupUnwrap(c.Args[len(c.Args)-1])
			o := lookupFails(nil, false)
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.regs["w:request"] = to
				if k.state != "" {
					v := tm.named(KObj, "state of the request", nil)
					n.heap[fld(to, k.req+"."+k.state)] = v
				}
				n.regs["$res"] = tNil
				return true
			}}, o[1]}
		case c.ID == "tester.RequestProcessor."+k.method:
			x.count("asked")
			if s.is("failed") {
				bad(x, s, "unread", pos, "a request is run that could not be read")
			}
			if c.Recv != rp || c.Args[0] != s.get("w:request") {
				bad(x, s, "request", pos, "another request is run than the one that was read")
			}
			if s.is("asked") {
				bad(x, s, "twice", pos, "a request is run twice")
			}
			o := lookupFails(nil, false)[1]
			var l []Outcome
			for _, has := range []bool{true, false} {
				has := has
				l = append(l, Outcome{Mod: func(n *State) bool {
					n.setNum("asked", 1)
					if has {
						n.setNum("has", 1)
					}
					n.heap[mkHas(results, mkStr("id"))] = mkBool(has)
					n.regs["$res"] = mkTuple(results, tNil)
					return true
				}})
			}
			fail := o.Mod
			return ActModel, append(l, Outcome{Mod: func(n *State) bool {
				fail(n)
				n.setNum("asked", 1)
				n.regs["$res"] = mkTuple(tNil, n.regs["$res"])
				return true
			}})
		case strings.HasPrefix(c.ID, "tester.RequestProcessor."):
			bad(x, s, "kind", pos, "a %s does something else", k.what)
			return ActStop, nil
		case c.ID == "net/http.Error":
			if c.Args[0] != w {
				bad(x, s, "response", pos, "an error isn't sent as the response")
			}
			if lookupUnwrap(c.Args[2]).kind != KInt || c.Args[2].i < 400 {
				bad(x, s, "status", pos, "an error isn't sent with the status of an error")
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool { n.inc("errors"); return true }}}
		case strings.HasSuffix(c.ID, "ResponseWriter.WriteHeader"):
			if c.Args[len(c.Args)-1].kind == KInt && c.Args[len(c.Args)-1].i >= 400 {
				return ActModel, []Outcome{{Mod: func(n *State) bool { n.inc("errors"); return true }}}
			}
			return ActPure, nil
		case c.ID == "encoding/json.NewEncoder":
			if lookupUnwrap(c.Args[0]) != w {
				return ActPure, nil
			}
			return ActModel, []Outcome{{Res: enc}}
		case c.ID == "encoding/json.Encoder.Encode" && c.Recv == enc:
			if !hasID(x, s, c.Args[len(c.Args)-1]) || s.is("failed") || !s.is("has") {
				bad(x, s, "id", pos, "something else than the id of the flow is answered")
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.inc("ids")
				n.regs["$res"] = tNil
				return true
			}}, {Mod: func(n *State) bool {
				n.inc("ids")
				n.regs["$res"] = tm.named(KObj, "failure to answer", nil)
				return true
			}}}
		}
		switch {
		case c.ID == "encoding/json.Marshal" || c.ID == "encoding/json.MarshalIndent":
			good := hasID(x, s, c.Args[0])
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				if good {
					n.setNum("answer", 1)
				}
				n.regs["$res"] = mkTuple(x.fresh("encoded", types.NewSlice(types.Typ[types.Byte])), tNil)
				return true
			}}}
		case strings.HasSuffix(c.ID, "ResponseWriter.Write"):
			if !s.is("answer") || s.is("failed") || !s.is("has") {
				bad(x, s, "id", pos, "something else than the id of the flow is answered")
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.inc("ids")
				n.regs["$res"] = mkTuple(x.fresh("written", types.Typ[types.Int]), tNil)
				return true
			}}}
		case c.ID == "fmt.Fprintf" || c.ID == "fmt.Fprint" || c.ID == "fmt.Fprintln" || c.ID == "io.WriteString" || c.ID == "io.Copy":
			// an answer that is put together as a text isn't followed
			return ActStop, nil
		}
		return ActDefault, nil
	})
	h.Immutable = func(f string) bool { return strings.HasPrefix(f, "RestFlowTester.") || f == "Request.Body" }
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "answering the request panics") }
	h.Return = func(x *Exec, s *State, _ []*Term, pos token.Pos) {
		if s.is("failed") {
			x.count("refused")
			if s.num("errors") != 1 || s.is("ids") {
				bad(x, s, "error dropped", pos, "a request that fails isn't answered with one error")
			}
			return
		}
		x.count("answered")
		if !s.is("asked") || s.is("errors") || s.is("has") != (s.num("ids") == 1) {
			bad(x, s, "answer", pos, "a request that is run isn't answered with the id of the flow")
		}
	}
	x := newExec(p, "tester", h)
	x.roots = append(x.roots, self, w, r, rp, body, results, dec, enc, id)
	ps := p.Method("tester", "RestFlowTester", k.method)
	x.Run(ps, s, []*Term{self, w, r, tm.named(KSym, "parameters", nil)})
	c.absorb(x, nil)
	for n, v := range x.counts {
		tot["web "+n] += v
	}
}

func testCheck(c *Ctx) {
	tot := map[string]int{}
	for _, k := range testKinds {
		shapes := []testShape{
			{"a value among the data", 0, 2, true, true}, {"no data", 0, 0, true, true}, {"other data", 0, 1, true, true}, {"no overrides", 0, 2, true, false},
		}
		if k.state != "" {
			shapes = append(shapes, testShape{"no state", 0, 2, false, true})
		} else {
			shapes = append(shapes, testShape{"a value among the attributes", 2, 2, true, true}, testShape{"other attributes", 1, 2, true, true})
		}
		for _, sh := range shapes {
			testRequest(c, k, sh, tot)
		}
		testRest(c, k, tot)
	}
	for _, has := range []bool{true, false} {
		testOverride(c, "Patch", "TaskPatches", "TaskPatch", "GetPatch", has, tot)
		testOverride(c, "Interceptor", "TaskInterceptors", "TaskInterceptor", "GetTaskInterceptor", has, tot)
		testMapper(c, "GetInputMapper", "TaskPatch.inputMapper", has, tot)
		testMapper(c, "GetOutputMapper", "TaskPatch.outputMapper", has, tot)
		testApply(c, true, has, !has, tot)
		testApply(c, has, true, true, tot)
	}
	testApply(c, true, false, false, tot)
	for _, k := range []string{"request runs", "request refused", "request answered", "web asked", "web refused", "web answered", "override ready", "override asked", "patched mappers", "options applied"} {
		c.must(k, tot[k], 1)
	}
}

func init() {
	register("C39", testCheck, "what a test request makes the runner do", "what a request by web is answered with", "the override of a task", "the overrides of a run")
}
