package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34: the activity of a task has the settings, inputs, outputs and schemas that are described for it. One of them is
// tracked, the others are arbitrary.

func actConfig(c *Ctx, fn *ssa.Function, kind, shape string, declared, factory bool, tot map[string]int) {
	p := c.P
	s := newState()
	w := newCfgWorld()
	name := mkStr("the tracked name")
	rep, task, def := tm.named(KObj, "activity description", nil), tm.named(KObj, "task", nil), tm.named(KObj, "definition", nil)
	act, md, io := tm.named(KObj, "registered activity", nil), tm.named(KObj, "metadata", nil), tm.named(KObj, "inputs and outputs", nil)
	mdIn, mdOut, mdSet := tm.named(KObj, "declared inputs", nil), tm.named(KObj, "declared outputs", nil), tm.named(KObj, "declared settings", nil)
	schemas := tm.named(KObj, "described schemas", nil)
	tracked := tm.named(KObj, "described "+kind, nil)
	newAct := tm.named(KObj, "new activity", nil)
	typ := tm.named(KSym, "described type", types.Typ[types.String])
	s.neq[ordered(typ, mkStr(""))] = true
	ref := tm.named(KSym, "described reference", types.Typ[types.String])
	s.neq[ordered(ref, mkStr(""))] = true
	tname, fname := tm.named(KSym, "name of the task", types.Typ[types.String]), tm.named(KSym, "name of the flow", types.Typ[types.String])
	s.regs["w:type"], s.regs["w:tname"], s.regs["w:fname"] = typ, tname, fname
	s.heap[fld(rep, "Config.Ref")] = ref
	s.heap[fld(rep, "Config.Type")] = typ
	s.heap[fld(task, "Task.definition")] = def
	s.heap[fld(task, "Task.name")] = tname
	s.heap[fld(def, "Definition.name")] = fname
	s.heap[fld(md, "Metadata.IOMetadata")] = io
	s.heap[fld(md, "Metadata.Settings")] = mdSet
	s.heap[fld(io, "IOMetadata.Input")] = mdIn
	s.heap[fld(io, "IOMetadata.Output")] = mdOut
	for _, f := range []string{"Settings", "Input", "Output", "Schemas"} {
		s.heap[fld(rep, "Config."+f)] = tNil
	}
	s.heap[fld(schemas, "SchemaConfig.Input")], s.heap[fld(schemas, "SchemaConfig.Output")] = tNil, tNil
	field := tm.named(KObj, "declaration", nil)
	for _, m := range []*Term{mdIn, mdOut} {
		s.heap[mkHas(m, name)] = mkBool(declared)
		s.heap[mkKey(m, name)] = tNil
		if declared {
			s.heap[mkKey(m, name)] = field
		}
	}
	var v *Term
	switch shape {
	case shExpr, shText, shEmpty:
		v = tm.named(KObj, "value ("+shape+")", types.Typ[types.String])
		s.addDiff(tZero, mkOp("len", v), map[bool]int64{true: 0, false: -1}[shape == shEmpty])
		if shape == shEmpty {
			s.addDiff(mkOp("len", v), tZero, 0)
		}
	case shNil:
		v = tNil
	default:
		v = tm.named(KObj, "value ("+shape+")", types.Typ[types.Float64])
	}
	w.shape[v] = shape
	switch kind {
	case "setting":
		s.heap[fld(rep, "Config.Settings")] = tracked
	case "input":
		s.heap[fld(rep, "Config.Input")] = tracked
	case "output":
		s.heap[fld(rep, "Config.Output")] = tracked
	case "input schema":
		s.heap[fld(rep, "Config.Schemas")] = schemas
		s.heap[fld(schemas, "SchemaConfig.Input")] = tracked
	case "output schema":
		s.heap[fld(rep, "Config.Schemas")] = schemas
		s.heap[fld(schemas, "SchemaConfig.Output")] = tracked
	}
	if strings.HasSuffix(kind, "schema") {
		// the other schemas are arbitrary
		o := tm.named(KObj, "other schemas", nil)
		f := map[string]string{"input schema": "Output", "output schema": "Input"}[kind]
		s.heap[fld(schemas, "SchemaConfig."+f)] = o
	}
	s.heap[mkHas(tracked, name)] = tTrue
	s.heap[mkKey(tracked, name)] = v
	what := kind + ", " + shape + map[bool]string{true: ", declared"}[declared]
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "activity of a task: "+id+" ("+what+")", pos, format, args...)
	}
	// has: the map has the described entry
	has := func(x *Exec, s *State, m *Term) bool {
		if m == nil || m == tNil || s.decide(x.mapHas(s, m, name)) != Yes {
			return false
		}
		got := s.heap[mkKey(m, name)]
		switch kind {
		case "setting":
			return w.is(got, "setting", v)
		case "input schema", "output schema":
			return w.is(got, "schema", v)
		}
		if shape == shExpr || shape == "a conditional mapping" || shape == "an object mapping" || !declared {
			return got == v
		}
		return w.is(got, "typed", v)
	}
	fails := func(r *Term, of *Term) []Outcome {
		return []Outcome{{Res: mkTuple(r, tNil)}, {Mod: func(n *State) bool {
			n.setNum("failed", 1)
			n.regs["$res"] = mkTuple(tNil, tm.named(KObj, "failure", nil))
			return true
		}}}
	}
	x := newExec(p, "activity", Hooks{
		MaxStates: 200000,
		KeepKeys:  true,
		Immutable: func(f string) bool {
			for _, q := range []string{"Task.", "Definition.", "Config.", "SchemaConfig.", "Metadata.", "IOMetadata."} {
				if strings.HasPrefix(f, q) {
					return f != "Task.activityCfg" && f != "Definition.explicitReply"
				}
			}
			return false
		},
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Coll: func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
			if cc == tracked {
				return []*Term{name}, []*Term{v}, true, true
			}
			return nil, nil, false, false
		},
		NewElem: func(x *Exec, s *State, cc, k, e *Term) {
			if k != nil {
				s.neq[ordered(k, name)] = true
			}
		},
		MapLen: func(x *Exec, s *State, m *Term) *Term {
			if m == tracked {
				n := tm.named(KSym, "number of entries", types.Typ[types.Int])
				s.addDiff(tZero, n, -1)
				return n
			}
			return nil
		},
		StrAt: func(s *State, str, i *Term) *Term {
			if i.kind != KInt || i.i != 0 {
				return nil
			}
			switch w.shape[str] {
			case shExpr:
				return mkInt('=')
			case shText:
				r := tm.named(KSym, "first character", types.Typ[types.Uint8])
				s.neq[ordered(r, mkInt('='))] = true
				return r
			}
			if str == ref || str == s.get("w:ref") {
				r := tm.named(KSym, "first character of the reference", types.Typ[types.Uint8])
				s.neq[ordered(r, mkInt('#'))] = true
				return r
			}
			return nil
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.Builtin != "" {
				return ActDefault, nil
			}
			r := c.Sig.Results()
			last := r.Len() - 1
			arg := func(i int) *Term { return c.Args[i] }
			switch {
			case c.ID == "core/activity.Get":
				return ActModel, []Outcome{{Res: act}}
			case strings.HasSuffix(c.ID, "activity.Activity.Metadata"):
				return ActModel, []Outcome{{Res: md}}
			case c.ID == "core/activity.GetFactory":
				if !factory {
					return ActModel, []Outcome{{Res: tNil}}
				}
				return ActModel, []Outcome{{Res: tm.named(KObj, "factory", r.At(0).Type())}}
			case c.Fn == nil && last == 1 && isErrType(r.At(1).Type()) && isNamed(r.At(0).Type(), "Activity"):
				x.count("factories")
				if kind == "setting" {
					found := false
					ctx := arg(0)
					for a, m := range s.heap {
						if a.kind == KAddr && len(a.args) == 1 && a.args[0] == ctx && m.kind == KObj && s.heap[mkKey(m, name)] != nil && has(x, s, m) {
							found = true
						}
					}
					if !found {
						bad(x, s, "created without", c.Instr.Pos(), "the activity is created without the settings that are described")
					}
				}
				return ActModel, fails(newAct, nil)
			case strings.HasSuffix(c.ID, "metadata.ResolveSettingValue"):
				x.count("entries")
				if arg(1) == v && arg(0) == name {
					if arg(2) != mdSet {
						bad(x, s, "declaration", c.Instr.Pos(), "a setting isn't resolved as the activity declares it")
					}
					return ActModel, fails(w.derive("setting", v, nil), v)
				}
				return ActModel, fails(x.fresh("other setting", nil), nil)
			case strings.HasSuffix(c.ID, "schema.FindOrCreate"):
				x.count("entries")
				if arg(0) == v {
					return ActModel, fails(w.derive("schema", v, nil), v)
				}
				return ActModel, fails(x.fresh("other schema", nil), nil)
			case c.ID == "core/data/coerce.ToType":
				x.count("entries")
				if arg(0) == v {
					if arg(1).kind != KOp || arg(1).op != "type" || arg(1).args[0] != field {
						bad(x, s, "type", c.Instr.Pos(), "a value isn't converted to its declared type")
					}
					return ActModel, fails(w.derive("typed", v, nil), v)
				}
				o := fails(x.fresh("other value", nil), nil)
				o[1].Mod = func(n *State) bool { // a connection may be accepted
					n.setNum("other", 1)
					n.regs["$res"] = mkTuple(tNil, tm.named(KObj, "failure", nil))
					return true
				}
				return ActModel, o
			case strings.HasSuffix(c.ID, "data.TypedValue.Type"):
				return ActModel, []Outcome{{Res: mkOp("type", c.Recv)}}
			case c.ID == "os.Getenv":
				return ActModel, []Outcome{{Res: mkStr("")}}
			case c.ID == "core/data/mapper.IsConditionalMapping":
				if arg(0) == v {
					return ActModel, []Outcome{{Res: mkBool(shape == "a conditional mapping")}}
				}
			case c.ID == "core/data/mapper.GetObjectMapping":
				if arg(0) == v {
					return ActModel, []Outcome{{Res: mkTuple(tm.named(KObj, "object mapping", nil), mkBool(shape == "an object mapping"))}}
				}
			case strings.HasSuffix(c.ID, "Factory.NewMapper"):
				x.count("mappers")
				m := arg(0)
				op := "mapper"
				if kind == "input" && has(x, s, m) {
					op = "mapper of the inputs"
				}
				return ActModel, fails(tm.named(KObj, op, r.At(0).Type()), nil)
			case c.ID == "core/activity.HasLegacyActivities" || c.ID == "core/activity.IsLegacyActivity":
				return ActModel, []Outcome{{Res: mkBool(factory || strings.HasSuffix(c.ID, "HasLegacyActivities"))}}
			case strings.HasPrefix(c.ID, "strings.HasPrefix") && (arg(0) == ref || arg(0) == s.get("w:ref")):
				return ActModel, []Outcome{{Res: tFalse}}
			}
			if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 && fnPkg(c.Fn).Path() == flowMod+"/definition" {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActPure, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if len(res) != 2 {
				return
			}
			if s.eq(res[1], tNil) != Yes {
				x.count("refused")
				if !s.is("failed") && !s.is("other") {
					bad(x, s, "refused", pos, "an activity is refused although nothing about it failed")
				}
				return
			}
			x.count("made")
			if s.is("failed") {
				bad(x, s, "error dropped", pos, "an activity is accepted although a part of its description is invalid")
				return
			}
			a := res[0]
			for _, f := range [][3]string{{"Type", "w:type", "described type"}, {"Name", "w:tname", "name of its task"}, {"HostName", "w:fname", "name of its flow"}} {
				if t := s.at(a, "ActivityConfig."+f[0]); t == nil || s.eq(t, s.get(f[1])) != Yes {
					bad(x, s, f[0], pos, "the activity doesn't have the %s", f[2])
				}
			}
			want := act
			if factory {
				want = newAct
			}
			if t := s.at(a, "ActivityConfig.Activity"); t != want {
				bad(x, s, "activity", pos, "the activity isn't the described one")
			}
			if t := s.at(a, "ActivityConfig.IsLegacy"); t == nil || s.decide(t) == No && factory || s.decide(t) != No && !factory {
				bad(x, s, "legacy", pos, "the activity isn't treated as a legacy one exactly if it is one")
			}
			switch kind {
			case "setting":
				if !has(x, s, s.at(a, "ActivityConfig.settings")) {
					bad(x, s, "missing", pos, "the activity doesn't have each described setting")
				}
			case "input":
				if t := s.at(a, "ActivityConfig.inputMapper"); t == nil || t.kind != KObj || t.op != "mapper of the inputs" {
					bad(x, s, "missing", pos, "the activity isn't given each described input")
				}
			case "output":
				if !has(x, s, s.at(a, "ActivityConfig.outputs")) {
					bad(x, s, "missing", pos, "the activity doesn't have each described output")
				}
			default:
				in, out := s.at(a, "ActivityConfig.inputSchemas"), s.at(a, "ActivityConfig.outputSchemas")
				if kind == "output schema" {
					in, out = out, in
				}
				if !has(x, s, in) {
					bad(x, s, "missing", pos, "the activity doesn't have each described schema")
				}
				if out != nil && has(x, s, out) {
					bad(x, s, "elsewhere", pos, "a schema of the inputs is used for the outputs, or the reverse")
				}
			}
		},
	})
	s.regs["w:ref"] = ref
	var args []*Term
	for _, q := range fn.Params {
		switch {
		case hasPtr(q.Type(), "Config"):
			args = append(args, rep)
		case hasPtr(q.Type(), "Task"):
			args = append(args, task)
		default:
			args = append(args, nonNilResult(x, s, q.Type(), q.Name()))
		}
	}
	x.roots = append(x.roots, rep, task, def, act, md, io, mdIn, mdOut, mdSet, schemas, tracked, field, v, newAct)
	x.Run(fn, s, args)
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot[k] += n
	}
}

// explicitReply: a flow replies explicitly if one of its activities does.
func explicitReply(c *Ctx, fn *ssa.Function, before, details, ret, reply bool, tot map[string]int) {
	p := c.P
	s := newState()
	rep, def := tm.named(KObj, "task description", nil), tm.named(KObj, "definition of the task", nil)
	cfg, det := tm.named(KObj, "made activity", nil), tm.named(KObj, "details of the activity", nil)
	s.heap[fld(def, "Definition.explicitReply")] = mkBool(before)
	s.heap[fld(cfg, "ActivityConfig.Details")] = tNil
	if details {
		s.heap[fld(cfg, "ActivityConfig.Details")] = det
		s.heap[fld(det, "Details.IsReturn")], s.heap[fld(det, "Details.IsReply")] = mkBool(ret), mkBool(reply)
	}
	s.heap[fld(rep, "TaskRep.ActivityCfgRep")] = tm.named(KObj, "activity description", nil)
	w := newCfgWorld()
	h := w.hooks(p)
	call := h.Call
	h.Immutable = func(f string) bool {
		return strings.HasPrefix(f, "TaskRep.") || strings.HasPrefix(f, "Details.") || strings.HasPrefix(f, "ActivityConfig.") || strings.HasPrefix(f, "Definition.")
	}
	h.Call = func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		r := c.Sig.Results()
		if c.Builtin == "" && r.Len() == 2 && hasPtr(r.At(0).Type(), "ActivityConfig") {
			return ActModel, []Outcome{{Res: mkTuple(cfg, tNil)}}
		}
		if c.Builtin == "" && r.Len() == 2 && isErrType(r.At(1).Type()) && (hasPtr(r.At(0).Type(), "LoopConfig") || isNamed(r.At(0).Type(), "RetryOnError")) {
			return ActModel, []Outcome{{Res: mkTuple(tNil, tNil)}}
		}
		return call(x, s, c)
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 2 || s.eq(res[1], tNil) != Yes {
			return
		}
		x.count("replies")
		want := before || details && (ret || reply)
		if v := s.heap[fld(def, "Definition.explicitReply")]; v == nil || s.eq(v, mkBool(want)) != Yes {
			x.report(s, "activity of a task: explicit reply", pos, "a flow doesn't reply explicitly exactly if it is described so or one of its activities returns or replies")
		}
	}
	x := newExec(p, "activity", h)
	x.roots = append(x.roots, rep, def, cfg, det)
	var args []*Term
	for _, q := range fn.Params {
		switch {
		case hasPtr(q.Type(), "TaskRep"):
			args = append(args, rep)
		case hasPtr(q.Type(), "Definition"):
			args = append(args, def)
		default:
			args = append(args, nonNilResult(x, s, q.Type(), q.Name()))
		}
	}
	x.Run(fn, s, args)
	c.absorb(x, nil)
	tot["replies"] += x.counts["replies"]
}

// actMethods: the engine sees what is configured.
func actMethods(c *Ctx, tot map[string]int) {
	p := c.P
	for m, f := range map[string]string{"GetInputSchema": "inputSchemas", "GetOutputSchema": "outputSchemas", "GetOutput": "outputs", "GetSetting": "settings", "InputMapper": "inputMapper", "OutputMapper": "outputMapper"} {
		fn := p.Method("definition", "ActivityConfig", m)
		for _, has := range []bool{true, false} {
			m, f, has := m, f, has
			s := newState()
			a, v, key := tm.named(KObj, "activity", nil), tm.named(KObj, "configured "+f, nil), mkStr("the tracked name")
			args := []*Term{a}
			want := v
			if len(fn.Params) == 2 {
				mp := tm.named(KObj, "map of "+f, nil)
				s.heap[fld(a, "ActivityConfig."+f)] = mp
				s.heap[mkHas(mp, key)] = mkBool(has)
				s.heap[mkKey(mp, key)] = v
				if !has {
					s.heap[mkKey(mp, key)] = tNil
					want = tNil
				}
				args = append(args, key)
			} else {
				s.heap[fld(a, "ActivityConfig."+f)] = v
			}
			x := newExec(p, "activity", Hooks{
				Immutable: func(n string) bool { return strings.HasPrefix(n, "ActivityConfig.") },
				Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
					x.count("accessors")
					if len(res) < 1 || s.eq(res[0], want) != Yes || len(res) == 2 && s.decide(res[1]) != map[bool]Tri{true: Yes, false: No}[has] {
						x.report(s, "activity of a task: accessor ("+m+")", pos, "%s doesn't yield what is configured", m)
					}
				}})
			x.roots = append(x.roots, a, v)
			x.Run(fn, s, args)
			c.absorb(x, nil)
			tot["accessors"] += x.counts["accessors"]
		}
	}
	c.must("accessors of activities", tot["accessors"], 6)
}

func actCheck(c *Ctx) {
	tot := map[string]int{}
	n := 0
	cand := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		r := fn.Signature.Results()
		if fn.Parent() != nil || fnPkg(fn) == nil || fnPkg(fn).Path() != flowMod+"/definition" || r.Len() != 2 || !hasPtr(r.At(0).Type(), "ActivityConfig") || !isErrType(r.At(1).Type()) {
			continue
		}
		for _, q := range fn.Params {
			if hasPtr(q.Type(), "Config") {
				cand[fn] = true
			}
		}
	}
	for fn := range cand {
		if inner(c.P, fn, cand) {
			continue
		}
		n++
		for _, factory := range []bool{false, true} {
			actConfig(c, fn, "setting", shValue, false, factory, tot)
			actConfig(c, fn, "input schema", shValue, false, factory, tot)
			actConfig(c, fn, "output schema", shValue, false, factory, tot)
			for _, kind := range []string{"input", "output"} {
				for _, sh := range []string{shExpr, shText, shEmpty, shValue, shNil, "a conditional mapping", "an object mapping"} {
					for _, declared := range []bool{false, true} {
						if factory && sh != shExpr {
							continue
						}
						actConfig(c, fn, kind, sh, declared, factory, tot)
					}
				}
			}
		}
	}
	if n == 0 {
		anchorFail("the function that creates the activity of a task not found")
	}
	ms := makers(c.P, "TaskRep", "Task")
	for fn := range ms {
		if inner(c.P, fn, ms) {
			continue
		}
		for i := 0; i < 16; i++ {
			explicitReply(c, fn, i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0, tot)
		}
	}
	actMethods(c, tot)
	for _, k := range []string{"made", "refused", "entries", "mappers", "factories", "replies"} {
		c.must("activities: "+k, tot[k], 2)
	}
}

// inner: another one of the functions calls it.
func inner(p *Program, fn *ssa.Function, set map[*ssa.Function]bool) bool {
	for m := range callersOf(p, map[*ssa.Function]bool{fn: true}) {
		if m != fn && set[m] {
			return true
		}
	}
	return false
}

func init() {
	register("C34", actCheck, "creating the activity of a task with a tracked setting, input, output or schema of each shape", "the explicit reply of a flow for every kind of activity")
}
