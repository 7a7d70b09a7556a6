package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: the loop and the retries of a task are those its settings describe. One setting is tracked, it has each of the
// shapes a setting can have; whatever is compiled or converted may fail.

const (
	shAbsent = "absent"
	shNil    = "null"
	shExpr   = "a text that starts with ="
	shText   = "a text"
	shEmpty  = "an empty text"
	shValue  = "another value"
)

type cfgWorld struct {
	maps  map[*Term]*Term    // the object a setting holds
	vals  map[string]*Term   // the tracked settings
	shape map[*Term]string   // the shape of a value
	made  map[*Term][2]*Term // what was compiled or converted: from what
	how   map[*Term]string
}

func (w *cfgWorld) derive(how string, from *Term, t types.Type) *Term {
	r := tm.named(KObj, how+" of "+from.String(), t)
	w.made[r] = [2]*Term{from}
	w.how[r] = how
	return r
}

// is: the value was made that way from the other one.
func (w *cfgWorld) is(v *Term, how string, from *Term) bool {
	return v != nil && w.how[v] == how && w.made[v][0] == from
}

// text is the text without its leading =.
func (w *cfgWorld) text(v *Term) *Term {
	if w.shape[v] == shExpr {
		return mkOp("slice", v, mkInt(1), tNil)
	}
	return v
}

func newCfgWorld() *cfgWorld {
	return &cfgWorld{maps: map[*Term]*Term{}, vals: map[string]*Term{}, shape: map[*Term]string{}, made: map[*Term][2]*Term{}, how: map[*Term]string{}}
}

func (w *cfgWorld) put(s *State, m *Term, key, shape string) {
	k := mkStr(key)
	s.heap[mkHas(m, k)] = mkBool(shape != shAbsent)
	v := tNil
	switch shape {
	case shExpr, shText, shEmpty:
		v = tm.named(KObj, "setting "+key+" ("+shape+")", types.Typ[types.String])
	case shValue:
		v = tm.named(KObj, "setting "+key+" ("+shape+")", types.Typ[types.Float64])
	case shAbsent:
		return
	}
	s.heap[mkKey(m, k)] = v
	w.vals[key] = v
	w.shape[v] = shape
	switch shape {
	case shExpr, shText:
		s.addDiff(tZero, mkOp("len", v), -1)
	case shEmpty:
		s.addDiff(tZero, mkOp("len", v), 0)
		s.addDiff(mkOp("len", v), tZero, 0)
	}
}

// object is a setting that is an object.
func (w *cfgWorld) object(s *State, m *Term, key string) *Term {
	k := mkStr(key)
	v := tm.named(KObj, "setting "+key, types.Typ[types.Complex128])
	o := tm.named(KObj, "content of "+key, nil)
	s.heap[mkHas(m, k)] = tTrue
	s.heap[mkKey(m, k)] = v
	w.maps[v] = o
	w.vals[key] = v
	return o
}

// hooks are the models of the libraries.
func (w *cfgWorld) hooks(p *Program) Hooks {
	var exprT types.Type
	if pk := p.SSA.ImportedPackage("github.com/project-flogo/core/data/expression"); pk != nil && pk.Type("Expr") != nil {
		exprT = pk.Type("Expr").Type()
	}
	isObj := func(v *Term) bool { return v != nil && v.kind == KObj }
	failing := func(name string, r *Term, zero *Term, fatal bool) []Outcome {
		return []Outcome{{Res: mkTuple(r, tNil)}, {Mod: func(n *State) bool {
			if fatal {
				n.setNum("failed", 1)
			} else {
				n.setNum("void", 1)
			}
			e := tm.named(KObj, name+" error", nil)
			n.regs["$res"] = mkTuple(zero, e)
			return true
		}}}
	}
	return Hooks{
		MaxStates: 200000,
		Immutable: func(f string) bool { return strings.HasPrefix(f, "TaskRep.") || strings.HasPrefix(f, "Definition.") },
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		StrAt: func(s *State, v, i *Term) *Term {
			if i.kind != KInt || i.i != 0 {
				return nil
			}
			switch w.shape[v] {
			case shExpr:
				return mkInt('=')
			case shText:
				r := tm.named(KSym, "first character", types.Typ[types.Uint8])
				s.neq[ordered(r, mkInt('='))] = true
				return r
			}
			return nil
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.Builtin != "" {
				return ActDefault, nil
			}
			r := c.Sig.Results()
			switch {
			case c.ID == "util.IsValidTaskType":
				return ActModel, []Outcome{{Res: tTrue}}
			case r.Len() == 2 && hasPtr(r.At(0).Type(), "ActivityConfig"):
				return ActModel, []Outcome{{Res: mkTuple(tm.named(KObj, "activity", r.At(0).Type()), tNil)}}
			case strings.HasSuffix(c.ID, "mapper.Factory.NewMapper"):
				return ActModel, []Outcome{{Res: mkTuple(tm.named(KObj, "mapper", nil), tNil)}}
			case c.ID == "core/data/coerce.ToObject":
				a := c.Args[0]
				if a == w.vals["*"] {
					return ActModel, []Outcome{{Res: mkTuple(a, tNil)}}
				}
				if o := w.maps[a]; o != nil {
					return ActModel, failing("not an object", o, tNil, true)
				}
			case strings.HasSuffix(c.ID, "expression.Factory.NewExpr"):
				if a := c.Args[0]; isObj(a) || a.kind == KOp {
					x.count("expressions")
					return ActModel, failing("invalid expression", w.derive("expression", a, exprT), tNil, true)
				}
			case c.ID == "core/app/resolve.Resolve":
				if a := c.Args[0]; isObj(a) || a.kind == KOp {
					return ActModel, failing("unresolved", w.derive("resolved", a, types.Typ[types.Float64]), tNil, true)
				}
			case c.ID == "core/data/coerce.ToInt":
				if a := c.Args[0]; isObj(a) {
					x.count("numbers")
					return ActModel, failing("not a number", w.derive("number", a, types.Typ[types.Int]), tZero, true)
				}
			case c.ID == "core/data/coerce.ToBool":
				if a := c.Args[0]; isObj(a) || a == tNil {
					t := tm.named(KSym, "flag", types.Typ[types.Bool])
					s.regs["flag of "+a.String()] = t
					return ActModel, failing("not a flag", t, tFalse, false)
				}
			case strings.HasSuffix(c.ID, "expression.Expr.Eval"):
				if isObj(c.Recv) {
					x.count("evaluations")
					if c.Args[0] != s.regs["w:scope"] {
						x.report(s, "scope", c.Instr.Pos(), "the expression of a setting isn't evaluated with the data of the flow")
					}
					return ActModel, failing("evaluation", w.derive("value", c.Recv, types.Typ[types.Float64]), tNil, true)
				}
			case c.ID == "strings.HasPrefix":
				if a := c.Args[0]; w.shape[a] != "" && isStrConst(c.Args[1], "=") {
					return ActModel, []Outcome{{Res: mkBool(w.shape[a] == shExpr)}}
				}
			case c.ID == "strings.TrimPrefix":
				if a := c.Args[0]; w.shape[a] != "" && isStrConst(c.Args[1], "=") {
					return ActModel, []Outcome{{Res: w.text(a)}}
				}
			case c.ID == "strings.CutPrefix":
				if a := c.Args[0]; w.shape[a] != "" && isStrConst(c.Args[1], "=") {
					return ActModel, []Outcome{{Res: mkTuple(w.text(a), mkBool(w.shape[a] == shExpr))}}
				}
			}
			if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 && fnPkg(c.Fn).Path() == flowMod+"/definition" {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActPure, nil
		},
	}
}

func isStrConst(t *Term, v string) bool { return t != nil && t.kind == KStr && t.op == v }

// taskConfig builds a task with the settings and compares its configuration with them.
func taskConfig(c *Ctx, fn *ssa.Function, what string, doWhile bool, setup func(w *cfgWorld, s *State, m *Term), check func(x *Exec, s *State, w *cfgWorld, t *Term, bad func(string, string, ...interface{})), tot map[string]int) {
	p := c.P
	w := newCfgWorld()
	s := newState()
	rep, def := tm.named(KObj, "task description", nil), tm.named(KObj, "definition of the task", nil)
	m := tm.named(KObj, "settings", nil)
	w.vals["*"] = m
	for _, k := range []string{"loopConfig", "doWhile", "accumulate", "retryOnError", "condition", "iterateOn", "iterate", "delay", "count", "interval"} {
		s.heap[mkHas(m, mkStr(k))] = tFalse
	}
	s.heap[fld(rep, "TaskRep.Settings")] = m
	s.heap[fld(rep, "TaskRep.ActivityCfgRep")] = tNil
	typ := tm.named(KSym, "other type", types.Typ[types.String])
	s.neq[ordered(typ, mkStr("doWhile"))] = true
	if doWhile {
		typ = mkStr("doWhile")
	}
	s.heap[fld(rep, "TaskRep.Type")] = typ
	setup(w, s, m)
	h := w.hooks(p)
	h.MapUpdate = func(x *Exec, s *State, mm, k, v *Term, pos token.Pos) {
		if mm == m {
			x.report(s, "settings of a task ("+what+")", pos, "the described settings are changed")
		}
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 2 {
			return
		}
		bad := func(id, format string, args ...interface{}) {
			x.report(s, "settings of a task: "+id+" ("+what+")", pos, format, args...)
		}
		if s.eq(res[1], tNil) != Yes {
			x.count("refused")
			if !s.is("failed") {
				bad("refused", "valid settings of a task are refused")
			}
			return
		}
		x.count("configured")
		if s.is("failed") {
			bad("error dropped", "invalid settings of a task are accepted")
			return
		}
		check(x, s, w, res[0], bad)
	}
	x := newExec(p, "settings", h)
	for _, v := range w.vals {
		x.roots = append(x.roots, v)
	}
	for _, v := range w.maps {
		x.roots = append(x.roots, v)
	}
	x.roots = append(x.roots, m, rep, def)
	var args []*Term
	for _, q := range fn.Params {
		switch {
		case hasPtr(q.Type(), "TaskRep"):
			args = append(args, rep)
		case hasPtr(q.Type(), "Definition"):
			args = append(args, def)
		default:
			args = append(args, nonNilResult(x, s, q.Type(), q.Name()))
		}
	}
	x.Run(fn, s, args)
	c.absorb(x, nil)
	for k, v := range x.counts {
		tot[k] += v
	}
}

func isNilT(s *State, v *Term) bool { return v != nil && s.eq(v, tNil) == Yes }

func configCheck(c *Ctx) {
	p := c.P
	tot := map[string]int{}
	n := 0
	ms := makers(p, "TaskRep", "Task")
	for fn := range ms {
		if inner(p, fn, ms) {
			continue
		}
		n++
		for _, nest := range []string{"", "loopConfig", "doWhile"} {
			for _, doWhile := range []bool{false, true} {
				loopConfigs(c, fn, nest, doWhile, tot)
			}
		}
		retryConfigs(c, fn, tot)
	}
	if n == 0 {
		anchorFail("the function that makes a task from its description not found")
	}
	retryMethods(c, tot)
	loopMethods(c, tot)
	for _, k := range []string{"configured", "refused", "expressions", "numbers", "evaluations", "values"} {
		c.must("settings: "+k, tot[k], 2)
	}
}

func loopConfigs(c *Ctx, fn *ssa.Function, nest string, doWhile bool, tot map[string]int) {
	name := "settings"
	if nest != "" {
		name = nest
	}
	type sc struct{ cond, on, iter, delay, acc, outer string }
	var scs []sc
	for _, sh := range []string{shAbsent, shExpr, shText, shEmpty} {
		scs = append(scs, sc{cond: sh, on: shAbsent, iter: shAbsent}, sc{cond: sh, on: shValue, iter: shAbsent})
	}
	for _, on := range []string{shAbsent, shNil, shExpr, shText, shValue} {
		for _, it := range []string{shAbsent, shNil, shExpr, shText, shValue} {
			scs = append(scs, sc{cond: shAbsent, on: on, iter: it})
		}
	}
	for _, d := range []string{shNil, shExpr, shText, shEmpty, shValue} {
		scs = append(scs, sc{cond: shAbsent, on: shValue, iter: shAbsent, delay: d}, sc{cond: shAbsent, on: shAbsent, iter: shAbsent, delay: d})
	}
	for _, a := range []string{shText, shValue} {
		scs = append(scs, sc{cond: shExpr, on: shAbsent, iter: shAbsent, acc: a})
		if nest == "doWhile" {
			scs = append(scs, sc{cond: shExpr, on: shAbsent, iter: shAbsent, outer: a}, sc{cond: shAbsent, on: shAbsent, iter: shAbsent, outer: a},
				sc{cond: shExpr, on: shAbsent, iter: shAbsent, outer: a, acc: shValue})
		}
	}
	for _, q := range scs {
		q := q
		taskConfig(c, fn, name, doWhile, func(w *cfgWorld, s *State, m *Term) {
			in := m
			if nest != "" {
				in = w.object(s, m, nest)
			}
			or := func(v string) string {
				if v == "" {
					return shAbsent
				}
				return v
			}
			w.put(s, in, "condition", or(q.cond))
			w.put(s, in, "iterateOn", or(q.on))
			w.put(s, in, "iterate", or(q.iter))
			w.put(s, in, "delay", or(q.delay))
			w.put(s, in, "accumulate", or(q.acc))
			if q.outer != "" {
				if v := w.vals["accumulate"]; v != nil {
					// told apart from the inner one
					o := tm.named(KObj, "inner setting accumulate", types.Typ[types.Bool])
					s.heap[mkKey(in, mkStr("accumulate"))] = o
				}
				w.put(s, m, "accumulate", q.outer)
			}
		}, func(x *Exec, s *State, w *cfgWorld, t *Term, bad func(string, string, ...interface{})) {
			x.count("values")
			l := s.at(t, "Task.loopCfg")
			cond, on := w.vals["condition"], w.vals["iterateOn"]
			if on == nil || on == tNil {
				on = w.vals["iterate"]
			}
			if cond != nil && w.shape[cond] == shEmpty {
				cond = nil
			}
			if on == tNil {
				on = nil
			}
			if r := s.at(t, "Task.retryOnErrConfig"); !isNilT(s, r) {
				bad("no retries", "a task is retried although its settings don't say so")
			}
			if cond == nil && on == nil {
				if !isNilT(s, l) {
					bad("no loop", "a task has a loop although its settings describe none")
				}
				return
			}
			if l == nil || s.eq(l, tNil) != No {
				bad("loop", "a task has no loop although its settings describe one")
				return
			}
			v := s.at(l, "LoopConfig.condition")
			if cond == nil && !isNilT(s, v) || cond != nil && !w.is(v, "expression", w.text(cond)) {
				bad("condition", "the condition of the loop isn't the described one")
			}
			v = s.at(l, "LoopConfig.iterateOn")
			switch {
			case on == nil && !isNilT(s, v), on != nil && w.shape[on] == shValue && v != on, on != nil && w.shape[on] != shValue && !w.is(v, "expression", w.text(on)):
				bad("collection", "the collection of the loop isn't the described one")
			}
			v = s.at(l, "LoopConfig.delay")
			d := w.vals["delay"]
			switch {
			case d == nil || d == tNil:
				if v == nil || s.eq(v, tZero) != Yes {
					bad("delay", "the loop has a delay although none is described")
				}
			case w.shape[d] == shExpr:
				if !(v != nil && w.how[v] == "number" && w.is(w.made[v][0], "resolved", w.text(d))) {
					bad("delay", "the delay of the loop isn't the described one")
				}
			case !w.is(v, "number", d):
				bad("delay", "the delay of the loop isn't the described one")
			}
			v = s.at(l, "LoopConfig.accumulate")
			want := tFalse
			if a := w.vals["accumulate"]; a != nil && !s.is("void") {
				want = s.regs["flag of "+a.String()]
			}
			if !(s.is("void") && w.vals["accumulate"] != nil) && (v == nil || want == nil || s.eq(v, want) != Yes && s.decide(mkOp("==", v, want)) != Yes) {
				bad("accumulate", "the loop doesn't accumulate as described")
			}
			v = s.at(l, "LoopConfig.accApplyOutput")
			if v == nil || s.eq(v, mkBool(doWhile)) != Yes {
				bad("outputs", "the outputs of a loop that accumulates are not applied exactly if the task is a do-while task")
			}
		}, tot)
	}
}

func retryConfigs(c *Ctx, fn *ssa.Function, tot map[string]int) {
	shapes := []string{shAbsent, shNil, shExpr, shText, shEmpty, shValue}
	for _, n := range shapes {
		for _, i := range shapes {
			n, i := n, i
			taskConfig(c, fn, "retryOnError", false, func(w *cfgWorld, s *State, m *Term) {
				in := w.object(s, m, "retryOnError")
				w.put(s, in, "count", n)
				w.put(s, in, "interval", i)
			}, func(x *Exec, s *State, w *cfgWorld, t *Term, bad func(string, string, ...interface{})) {
				x.count("values")
				r := s.at(t, "Task.retryOnErrConfig")
				if r == nil || s.eq(r, tNil) != No {
					bad("retries", "a task isn't retried although its settings say so")
					return
				}
				for _, f := range []string{"count", "interval"} {
					v, d := s.at(r, "retryOnErrConfig."+f), w.vals[f]
					switch {
					case d == nil || d == tNil:
						if !isNilT(s, v) {
							bad(f, "the %s of the retries is set although none is described", f)
						}
					case w.shape[d] == shExpr:
						if !w.is(v, "expression", w.text(d)) {
							bad(f, "the %s of the retries isn't the described expression", f)
						}
					case !w.is(v, "number", d):
						bad(f, "the %s of the retries isn't the described one", f)
					}
				}
				if l := s.at(t, "Task.loopCfg"); !isNilT(s, l) {
					bad("no loop", "a task has a loop although its settings describe none")
				}
			}, tot)
		}
	}
}

// retryMethods: the count and the interval are the values or what their expressions yield.
func retryMethods(c *Ctx, tot map[string]int) {
	p := c.P
	for _, f := range []string{"Count", "Interval"} {
		fn := p.Method("definition", "retryOnErrConfig", f)
		for _, sh := range []string{shNil, shExpr, shValue} {
			w := newCfgWorld()
			s := newState()
			h := w.hooks(p)
			r := tm.named(KObj, "retry settings", nil)
			scope := tm.named(KObj, "data of the flow", nil)
			s.regs["w:scope"] = scope
			var exprT types.Type
			if pk := p.SSA.ImportedPackage("github.com/project-flogo/core/data/expression"); pk != nil {
				exprT = pk.Type("Expr").Type()
			}
			v := tNil
			switch sh {
			case shExpr:
				v = tm.named(KObj, "compiled setting", exprT)
			case shValue:
				v = tm.named(KObj, "value of the setting", types.Typ[types.Int])
			}
			other := map[string]string{"Count": "interval", "Interval": "count"}[f]
			s.heap[fld(r, "retryOnErrConfig."+strings.ToLower(f))] = v
			s.heap[fld(r, "retryOnErrConfig."+other)] = tm.named(KObj, "other setting", types.Typ[types.Int])
			sh, f := sh, f
			h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
				if len(res) != 2 {
					return
				}
				x.count("values")
				bad := func(id, format string, args ...interface{}) {
					x.report(s, "settings of a task: "+id+" ("+f+")", pos, format, args...)
				}
				ok := s.eq(res[1], tNil)
				if s.is("failed") {
					if ok != No {
						bad("error dropped", "a setting that can't be evaluated isn't reported")
					}
					return
				}
				good := ok == Yes
				switch sh {
				case shNil:
					good = good && s.eq(res[0], tZero) == Yes
				case shExpr:
					good = good && w.how[res[0]] == "number" && w.is(w.made[res[0]][0], "value", v)
				case shValue:
					good = good && (w.is(res[0], "number", v) || res[0] == v)
				}
				if !good {
					bad("value", "the %s of the retries isn't the configured one", strings.ToLower(f))
				}
			}
			x := newExec(p, "settings", h)
			x.roots = append(x.roots, r, scope, v)
			x.Run(fn, s, []*Term{r, scope})
			c.absorb(x, nil)
			for k, n := range x.counts {
				tot[k] += n
			}
		}
	}
}

// loopMethods: the engine sees the loop as it is configured.
func loopMethods(c *Ctx, tot map[string]int) {
	p := c.P
	for m, f := range map[string]string{"Accumulate": "accumulate", "ApplyOutputOnAccumulate": "accApplyOutput", "Condition": "condition", "GetIterateOn": "iterateOn", "Delay": "delay"} {
		fn := p.Method("definition", "LoopConfig", m)
		s := newState()
		l := tm.named(KObj, "loop", nil)
		v := tm.named(KSym, "configured "+f, fn.Signature.Results().At(0).Type())
		s.heap[fld(l, "LoopConfig."+f)] = v
		s.regs["w:v"] = v
		x := newExec(p, "settings", Hooks{Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("accessors")
			if len(res) != 1 || s.eq(res[0], s.get("w:v")) != Yes && s.decide(mkOp("==", res[0], s.get("w:v"))) != Yes {
				x.report(s, "settings of a task: accessor ("+m+")", pos, "the %s of a loop isn't what is configured", m)
			}
		}})
		x.roots = append(x.roots, l)
		x.Run(fn, s, []*Term{l})
		c.absorb(x, nil)
		tot["accessors"] += x.counts["accessors"]
	}
	c.must("accessors of loops", tot["accessors"], 5)
}

func init() {
	register("C33", configCheck, "building a task from settings of each shape, every conversion may fail")
}
