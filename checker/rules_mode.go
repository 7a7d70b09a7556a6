package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The recording mode (C28): what is recorded in which mode, what the configuration says, and initialisation.

var modeNames = []string{"RecordingModeOff", "RecordingModeDebugger", "RecordingModeStep", "RecordingModeFull", "RecordingModeSnapshot"}

func modeSteps(m string) bool     { return m != "RecordingModeOff" && m != "RecordingModeSnapshot" }
func modeSnapshots(m string) bool { return m == "RecordingModeFull" || m == "RecordingModeSnapshot" }

// recordState explores the recording of one step in one mode.
func recordState(c *Ctx, mode string, rec string) {
	p := c.P
	fn := p.Method("instance", "IndependentInstance", "RecordState")
	inst := tm.named(KObj, "inst", fn.Params[0].Type())
	inner := tm.named(KObj, "instance", types.NewPointer(p.Named("instance", "Instance")))
	ext := tm.named(KObj, "recorder", nil)
	ir := tm.named(KObj, "instance recorder", nil)
	snap, step := tm.named(KObj, "snapshot", nil), tm.named(KSym, "step", nil)
	modeV := mkStr(p.strVal("state", mode))
	s := newState()
	bad := func(x *Exec, s *State, what string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, what+" ("+mode+")", pos, format, args...)
	}
	x := newExec(p, "recording", Hooks{
		Immutable: immutableHook("IndependentInstance.Instance"),
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if a.kind != KAddr {
				return nil
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				switch n.Obj().Name() {
				case "Logger":
					return nonNilResult(x, s, t, "logger")
				case "RecordingMode":
					return modeV
				case "Recorder":
					if rec != "full" {
						return tNil
					}
					return ext
				}
			}
			if a.op == "IndependentInstance.Instance" {
				return inner
			}
			if hasPtrTo(t, "stateInstanceRecorder") {
				if rec == "" {
					return tNil
				}
				return ir
			}
			return nil
		},
		NilDeref: func(x *Exec, s *State, pos token.Pos) {
			bad(x, s, "nil dereference", pos, "recording a flow without a recorder dereferences nil")
		},
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MayPanic:  func(c *Call) bool { return false },
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			pos := c.Instr.Pos()
			fail := func() (Action, []Outcome) {
				return ActModel, []Outcome{{Res: tNil}, {Mod: func(n *State) bool { n.regs["$res"] = newErr(x, n, "recordError"); return true }}}
			}
			switch c.ID {
			case "instance.IndependentInstance.Snapshot":
				return ActModel, []Outcome{{Res: snap}}
			case "instance.IndependentInstance.CurrentStep", "instance.ChangeTracker.ExtractStep":
				if len(c.Args) == 1 && c.Args[0] == tTrue {
					s.inc("extracted")
					return ActModel, []Outcome{{Res: step}}
				}
				return ActPure, nil
			case "state.Recorder.RecordSnapshot":
				x.count("snapshots recorded")
				if c.Recv != ext || s.eq(c.Args[0], snap) != Yes {
					bad(x, s, "snapshot", pos, "something else than the snapshot of the flow is recorded as its snapshot, or to another recorder")
				}
				if s.inc("snapshots") > 1 {
					bad(x, s, "snapshot twice", pos, "the snapshot is recorded twice")
				}
				return fail()
			case "state.Recorder.RecordStep":
				x.count("steps recorded")
				if c.Recv != ext || s.eq(c.Args[0], step) != Yes {
					bad(x, s, "step", pos, "something else than the step that was executed is recorded as the step, or to another recorder")
				}
				if s.eq(step, tNil) != No && s.eq(c.Args[0], tNil) != No {
					bad(x, s, "no step", pos, "a step is recorded although there may be none")
				}
				if s.inc("steps") > 1 {
					bad(x, s, "step twice", pos, "the step is recorded twice")
				}
				return fail()
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActDefault, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActPure, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("recordings")
			steps, snaps := modeSteps(mode) && rec == "full", modeSnapshots(mode) && rec == "full"
			if got := s.num("snapshots") > 0; got != snaps {
				bad(x, s, "snapshots", pos, "in this mode snapshots are recorded: %v, expected: %v", got, snaps)
			}
			got := s.num("steps") > 0
			if got && !steps {
				bad(x, s, "steps", pos, "steps are recorded in a mode that doesn't record them")
			}
			if !got && steps && (s.num("extracted") == 0 || s.eq(s.get("step"), tNil) != Yes) {
				bad(x, s, "steps", pos, "a step is not recorded in a mode that records steps")
			}
			if steps && s.num("extracted") != 1 {
				bad(x, s, "extracted", pos, "the step is taken from the tracker %d times per recording", s.num("extracted"))
			}
		},
	})
	s.regs["step"] = step
	x.Run(fn, s, []*Term{inst})
	c.absorb(x, nil)
	for k, v := range x.counts {
		modeCounts[k] += v
	}
}

var modeCounts map[string]int

// trackerChoice: with change tracking on, a flow is given a tracker that records.
func trackerChoice(c *Ctx) {
	p := c.P
	set := p.Func("instance", "EnableChangeTracking")
	get := p.Func("instance", "NewInstanceChangeTracker")
	for _, on := range []bool{true, false} {
		on := on
		// what switching leaves in the package variables
		s0 := newState()
		hk := Hooks{
			Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
			Immutable: immutableHook(),
			MayPanic:  func(c *Call) bool { return false },
		}
		var after []*State
		hk.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) { after = append(after, s.clone()) }
		x := newExec(p, "tracking", hk)
		for g := range globalsOf(p, func(g *ssa.Global) bool { return g.Pkg == set.Pkg }) {
			x.roots = append(x.roots, g)
		}
		x.Run(set, s0, []*Term{mkBool(on), mkStr(p.strVal("state", "RecordingModeStep"))})
		c.absorb(x, nil)
		if len(after) == 0 {
			c.report("coverage", "EnableChangeTracking", p.pos(set.Pos()), "switching change tracking never returns")
		}
		for _, st := range after {
			hk := hk
			hk.Load = func(x *Exec, s *State, a *Term, t types.Type) *Term {
				if v := st.heap[a]; v != nil && v.isConst() {
					return v
				}
				return nil
			}
			hk.Call = func(x *Exec, s *State, c *Call) (Action, []Outcome) {
				if c.Fn != nil && InRepo(c.Fn) {
					return ActInline, nil
				}
				return ActDefault, nil
			}
			hk.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
				x.count("trackers")
				if len(res) != 1 {
					return
				}
				if on {
					pt, ok := types.Type(nil), false
					if t := res[0].typ; t != nil {
						pt, ok = t, true
					}
					if !ok || !isAlloc(x, res[0]) || !records(p, pt) {
						x.report(s, "tracker", pos, "with change tracking switched on, a flow isn't given a new tracker that records")
					}
				}
				if s.eq(res[0], tNil) == Yes {
					x.report(s, "no tracker", pos, "a flow is given no tracker")
				}
			}
			y := newExec(p, "tracking", hk)
			s := newState()
			y.Run(get, s, []*Term{nil, nil})
			c.absorb(y, nil)
			modeCounts["trackers"] += y.counts["trackers"]
		}
	}
}

// records: the type is a tracker whose ExtractStep can return a step.
func records(p *Program, t types.Type) bool {
	if !p.trackerImpl(t) {
		return false
	}
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	f := p.methodOf(pt, "ExtractStep")
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				if c, ok := r.Results[0].(*ssa.Const); !ok || !c.IsNil() {
					return true
				}
			}
		}
	}
	return false
}

// initialized explores the initialisation of an action.
func initialized(c *Ctx, pkg string) {
	p := c.P
	fn := p.Method(pkg, "ActionFactory", "Initialize")
	global := func(name string) *Term {
		g := globalsOf(p, func(g *ssa.Global) bool {
			if p.SSA.Package(g.Pkg.Pkg) != fn.Pkg {
				return false
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			n, ok := types.Unalias(t).(*types.Named)
			return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()[:min(len(flowMod), len(n.Obj().Pkg().Path()))] == flowMod
		})
		if len(g) != 1 {
			anchorFail("the package variable of type %s in %s not found", name, pkg)
		}
		for t := range g {
			return t
		}
		return nil
	}
	manager, mode, recorder := global("FlowManager"), global("RecordingMode"), global("Recorder")
	settings := tm.named(KObj, "runtime settings", nil)
	modeConst := func(n string) *Term { return mkStr(p.strVal("state", n)) }
	keys := map[string]string{}
	for _, k := range []string{"StateRecordingMode", "RtSettingStepMode", "RtSettingSnapshotMode"} {
		keys[k] = p.strVal(pkg, k)
	}
	must := []string{"definition.SetMapperFactory", "definition.SetExprFactory", "model.RegisterDefault", "support.InitDefaultDefLookup"}
	s := newState()
	s.heap[manager] = tNil
	s.heap[mode] = modeConst("RecordingModeOff")
	s.heap[recorder] = tNil
	for k, n := range keys {
		s.heap[mkKey(settings, mkStr(n))] = tm.named(KSym, "setting "+k, nil)
		s.heap[mkHas(settings, mkStr(n))] = tm.named(KSym, "has "+k, types.Typ[types.Bool])
	}
	s.regs["hasMode"] = s.heap[mkHas(settings, mkStr(keys["StateRecordingMode"]))]
	s.regs["settings"] = tm.named(KSym, "number of settings", types.Typ[types.Int])
	name := func(v *Term) string {
		for k, n := range keys {
			if v == tm.named(KSym, "setting "+k, nil) || v.mentions(mkStr(n)) {
				return k
			}
		}
		return v.op
	}
	x := newExec(p, "initialisation", Hooks{
		Immutable: immutableHook(),
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MapLen: func(x *Exec, s *State, m *Term) *Term {
			if m == settings {
				return s.regs["settings"]
			}
			return nil
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			pos := c.Instr.Pos()
			switch c.ID {
			case "core/action.InitContext.RuntimeSettings":
				return ActModel, []Outcome{{Res: settings}}
			case "core/support/service.Manager.FindService":
				return ActModel, []Outcome{
					{Res: tNil},
					{Mod: func(n *State) bool {
						n.regs["service"] = nonNilResult(x, n, c.Sig.Results().At(0).Type(), "recorder service")
						n.regs["$res"] = n.regs["service"]
						return true
					}},
				}
			case "core/data/coerce.ToString":
				return ActModel, []Outcome{{Res: mkTuple(mkOp("str", c.Args[0]), x.fresh("coerceError", nil))}}
			case "strings.EqualFold":
				a, b := c.Args[0], c.Args[1]
				if a.kind == KStr {
					a, b = b, a
				}
				if b.kind == KStr && a.kind == KOp && a.op == "str" {
					r := "$fold " + name(a.args[0]) + "=" + b.op
					if s.regs[r] == nil {
						s.regs[r] = tm.named(KSym, r, types.Typ[types.Bool])
					}
					return ActModel, []Outcome{{Res: s.regs[r]}}
				}
				return ActPure, nil
			case "state.ToRecordingMode":
				if s.eq(c.Args[0], s.get2(mkKey(settings, mkStr(keys["StateRecordingMode"])))) != Yes {
					x.report(s, "mode", pos, "another setting than the recording mode is taken as the recording mode")
				}
				var outs []Outcome
				for _, m := range modeNames {
					m := m
					outs = append(outs, Outcome{Mod: func(n *State) bool {
						n.regs["cfg"] = modeConst(m)
						n.regs["$res"] = mkTuple(modeConst(m), tNil)
						return true
					}})
				}
				return ActModel, append(outs, Outcome{Mod: func(n *State) bool {
					n.setNum("badMode", 1)
					n.regs["$res"] = mkTuple(modeConst("RecordingModeOff"), newErr(x, n, "modeError"))
					return true
				}})
			case "instance.EnableChangeTracking":
				if c.Args[0] == tTrue {
					s.inc("tracking")
					s.regs["trackMode"] = c.Args[1]
				} else {
					s.setNum("tracking", 0)
				}
				return ActPure, nil
			case "support.NewFlowManager":
				return ActModel, []Outcome{{Mod: func(n *State) bool {
					n.regs["manager"] = nonNilResult(x, n, c.Sig.Results().At(0).Type(), "flow manager")
					n.regs["$res"] = n.regs["manager"]
					return true
				}}}
			case "state.RecordSteps":
				return ActInline, nil
			}
			for _, m := range must {
				if c.ID == m {
					s.inc(m)
					if m == "support.InitDefaultDefLookup" && (s.regs["manager"] == nil || s.eq(c.Args[0], s.get("manager")) != Yes) {
						x.report(s, "lookup", pos, "the definitions of subflows are looked up elsewhere than in the flow manager of the action")
					}
					return ActPure, nil
				}
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && c.Fn.Pkg == fn.Pkg && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke {
				return ActPure, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Builtin == "" {
				return ActPure, nil // libraries don't know the variables of the package
			}
			return ActDefault, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("initialisations")
			if len(res) != 1 {
				return
			}
			mgr := s.heap[manager]
			if s.eq(res[0], tNil) != Yes {
				x.count("refused")
				if mgr == nil || s.eq(mgr, tNil) != Yes {
					x.report(s, "half initialised", pos, "initialisation fails but leaves a flow manager, so that the next attempt takes the action as initialised")
				}
				return
			}
			if s.is("badMode") {
				x.report(s, "unknown mode accepted", pos, "a recording mode that is not supported is not refused")
				return
			}
			if mgr == nil || s.regs["manager"] == nil || s.eq(mgr, s.get("manager")) != Yes {
				x.report(s, "no flow manager", pos, "initialisation succeeds without a flow manager")
			}
			for _, m := range must {
				if !s.is(m) {
					x.report(s, "missing "+m, pos, "initialisation succeeds without calling %s", m)
				}
			}
			want := modeConst("RecordingModeOff")
			known := true
			if s.less(tZero, s.get("settings")) != No {
				switch {
				case s.regs["cfg"] != nil:
					want = s.regs["cfg"]
				case s.decide(s.get("hasMode")) == Yes:
					x.report(s, "mode not read", pos, "the recording mode that is configured is not read")
					known = false
				default:
					full := func(k string) Tri {
						if r := s.regs["$fold "+k+"=full"]; r != nil {
							return s.decide(r)
						}
						return Maybe
					}
					steps, snaps := full("RtSettingStepMode"), full("RtSettingSnapshotMode")
					switch {
					case steps == Yes && snaps == Yes:
						want = modeConst("RecordingModeFull")
					case steps == Yes && snaps == No:
						want = modeConst("RecordingModeStep")
					case steps == No && snaps == Yes:
						want = modeConst("RecordingModeSnapshot")
					case steps == No && snaps == No:
					default:
						x.report(s, "legacy mode not read", pos, "the recording mode doesn't depend on both settings that stand for it")
						known = false
					}
				}
			}
			got := s.heap[mode]
			if known && (got == nil || s.eq(got, want) != Yes) {
				x.report(s, "mode", pos, "the recording mode in force is not the configured one: %v instead of %v", got, want)
			}
			rec := s.heap[recorder]
			svc := s.regs["service"]
			if svc == nil {
				if rec == nil || s.eq(rec, tNil) != Yes {
					x.report(s, "recorder", pos, "a recorder is used although none is registered")
				}
				return
			}
			if rec == nil || s.eq(rec, s.get("service")) != Yes {
				x.report(s, "recorder", pos, "the recorder that is registered is not used")
			}
			for _, m := range modeNames {
				if known && want == modeConst(m) {
					x.count("modes")
					if got := s.num("tracking") > 0; got != modeSteps(m) {
						x.report(s, "tracking ("+m+")", pos, "in this mode the changes of flows are tracked: %v, expected: %v", got, modeSteps(m))
					}
					if modeSteps(m) && s.is("tracking") && s.eq(s.get("trackMode"), want) != Yes {
						x.report(s, "tracking mode ("+m+")", pos, "changes are tracked in another mode than the configured one")
					}
				}
			}
		},
	})
	x.roots = append(x.roots, manager, mode, recorder, settings)
	x.Run(fn, s, []*Term{nil, nil})
	c.absorb(x, nil)
	for k, v := range x.counts {
		modeCounts[k] += v
	}
}

func (s *State) get2(a *Term) *Term {
	if v := s.heap[a]; v != nil {
		return v
	}
	return tm.named(KSym, "nothing", nil)
}

// parsed explores the reading of a recording mode.
func parsed(c *Ctx) {
	p := c.P
	fn := p.Func("state", "ToRecordingMode")
	text := tm.named(KSym, "mode text", types.Typ[types.String])
	x := newExec(p, "parsing", Hooks{
		Immutable: immutableHook(),
		MayPanic:  func(c *Call) bool { return false },
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			switch c.ID {
			case "core/data/coerce.ToString":
				e := x.fresh("coerceError", nil)
				return ActModel, []Outcome{{Res: mkTuple(mkOp("str", c.Args[0]), e)}}
			case "strings.ToLower":
				return ActModel, []Outcome{{Mod: func(n *State) bool {
					n.regs["text"] = text
					n.regs["$res"] = text
					return true
				}}}
			}
			return stdCall(x, s, c)
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if len(res) != 2 {
				return
			}
			if s.eq(res[1], tNil) != Yes {
				if t := s.regs["text"]; t != nil {
					for _, m := range modeNames {
						if s.eq(s.get("text"), mkStr(p.strVal("state", m))) == Yes {
							x.report(s, "refused "+m, pos, "a supported recording mode is refused")
						}
					}
				}
				return
			}
			for _, m := range modeNames {
				v := mkStr(p.strVal("state", m))
				if s.eq(res[0], v) == Yes && s.regs["text"] != nil && s.eq(s.get("text"), v) == Yes {
					x.count("modes read")
					return
				}
			}
			x.report(s, "accepted", pos, "a text that is no recording mode is accepted, or taken as another mode")
		},
	})
	x.Run(fn, newState(), []*Term{nil})
	c.absorb(x, nil)
	modeCounts["modes read"] += x.counts["modes read"]
}

func modeCheck(c *Ctx) {
	modeCounts = map[string]int{}
	for _, m := range modeNames {
		for _, rec := range []string{"", "none", "full"} {
			recordState(c, m, rec)
		}
	}
	trackerChoice(c)
	parsed(c)
	c.must("modes read", modeCounts["modes read"], len(modeNames))
	for _, pkg := range []string{"", "ondemand"} {
		initialized(c, pkg)
	}
	for _, k := range []string{"recordings", "steps recorded", "snapshots recorded", "trackers", "initialisations", "refused", "modes"} {
		c.must(k, modeCounts[k], 1)
	}
}

func init() {
	register("C28", modeCheck, "what is recorded in each recording mode, with and without a recorder", "the mode in force is the configured one, and changes are tracked iff steps are recorded", "initialisation is complete or refused")
}
