package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conditions of links (part of C14): the condition is the boolean value of the expression, and whatever fails is an error.
func evalLink(c *Ctx) {
	p := c.P
	fn := p.Method("instance", "TaskInst", "EvalLink")
	ti := tm.named(KObj, "task instance", fn.Params[0].Type())
	link := tm.named(KObj, "link", fn.Params[1].Type())
	inst := tm.named(KObj, "flow instance of the task", types.NewPointer(p.Named("instance", "Instance")))
	expr := tm.named(KObj, "expression", nil)
	value, cond := tm.named(KSym, "value", nil), tm.named(KSym, "condition", types.Typ[types.Bool])
	s := newState()
	s.heap[fld(ti, "TaskInst.flowInst")] = inst
	s.regs["cond"] = cond
	evals := 0
	fail := func(x *Exec, name string, zero *Term) Outcome {
		return Outcome{Mod: func(n *State) bool {
			n.setNum("failed", 1)
			n.regs["$res"] = mkTuple(zero, newErr(x, n, name))
			return true
		}}
	}
	x := newExec(p, "condition", Hooks{
		Immutable: immutableHook("TaskInst.flowInst"),
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		MayPanic: func(c *Call) bool { return false },
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			pos := c.Instr.Pos()
			switch {
			case c.ID == "definition.Link.Expr":
				if c.Recv != link {
					return ActPure, nil
				}
				return ActModel, []Outcome{{Res: expr}, {Mod: func(n *State) bool { n.setNum("none", 1); n.regs["$res"] = tNil; return true }}}
			case strings.HasSuffix(c.ID, "expression.Expr.Eval"):
				x.count("evaluations")
				evals++
				if c.Recv != expr {
					x.report(s, "other expression", pos, "another expression than that of the link is evaluated")
				}
				if s.inc("evals") > 1 {
					x.report(s, "twice", pos, "the expression of a link is evaluated twice")
				}
				if s.eq(c.Args[0], inst) != Yes {
					x.report(s, "scope", pos, "the expression of a link is not evaluated with the data of the flow of its task")
				}
				return ActModel, []Outcome{{Res: mkTuple(value, tNil)}, fail(x, "evalError", tNil), {Panic: true}}
			case c.ID == "core/data/coerce.ToBool":
				if s.eq(c.Args[0], value) == Yes {
					s.setNum("coerced", 1)
					return ActModel, []Outcome{{Res: mkTuple(s.get("cond"), tNil)}, fail(x, "coerceError", tFalse)}
				}
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Builtin == "" {
				return ActPure, nil
			}
			return ActDefault, nil
		},
		RootPanic: func(x *Exec, s *State, pos token.Pos) {
			x.report(s, "panic", pos, "a panic in the expression of a link escapes")
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count("conditions")
			if len(res) != 2 {
				return
			}
			ok := s.eq(res[1], tNil)
			switch {
			case s.is("none"):
				if ok != Yes || s.decide(res[0]) != Yes {
					x.report(s, "no expression", pos, "a link without an expression is not followed")
				}
			case s.is("failed"):
				if ok != No {
					x.report(s, "error dropped", pos, "an expression that can't be evaluated is not reported as an error")
				}
			case s.is("coerced"):
				if ok != Yes || s.eq(res[0], s.get("cond")) != Yes {
					x.report(s, "value", pos, "the condition of a link is not the value of its expression")
				}
			default:
				// the evaluation panicked, or its value was used otherwise
				if ok != No {
					x.report(s, "panic dropped", pos, "a panic in the expression of a link, or a value that is no condition, is not reported as an error")
				}
			}
		},
	})
	x.Run(fn, s, []*Term{ti, link})
	c.absorb(x, nil)
	c.must("conditions of links", x.counts["conditions"], 4)
	c.must("expressions evaluated", x.counts["evaluations"], 1)
}

// The definition of a flow is the one that is described (C29).

// makers are the functions of package definition that take a pointer to rep and return a pointer to made and an error.
func makers(p *Program, rep, made string) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fnPkg(fn) == nil || fnPkg(fn).Path() != flowMod+"/definition" || fn.Parent() != nil {
			continue
		}
		r := fn.Signature.Results()
		if r.Len() != 2 || !hasPtrTo(r.At(0).Type(), made) || !isErrType(r.At(1).Type()) {
			continue
		}
		for _, q := range fn.Params {
			if hasPtr(q.Type(), rep) {
				res[fn] = true
			}
		}
	}
	return res
}

// hasPtr: a pointer to a type of that name, of any package.
func hasPtr(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == name
}

func argBy(c *Call, want func(t types.Type) bool) *Term {
	if c.Fn == nil {
		return nil
	}
	for i, p := range c.Fn.Params {
		if want(p.Type()) && i < len(c.all) {
			return c.all[i]
		}
	}
	return nil
}

func isMapOf(elem string) func(t types.Type) bool {
	return func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && hasPtr(m.Elem(), elem)
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

var defCounts map[string]int
var usedMakers map[*ssa.Function]bool // called when a definition is built, not by another maker

// defLibrary models the calls that building a definition makes into libraries: each may fail, which must fail the building.
func defLibrary(x *Exec, s *State, c *Call) (Action, []Outcome) {
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	return mayFail(x, c)
}

// mayFail models a call that may fail: the results are named after its arguments.
func mayFail(x *Exec, c *Call) (Action, []Outcome) {
	r := c.Sig.Results()
	n := r.Len()
	var vals []*Term
	for i := 0; i < n; i++ {
		if i == n-1 && isErrType(r.At(i).Type()) {
			continue
		}
		vals = append(vals, mkOp("result:"+c.ID+"#"+string(rune('0'+i)), c.all...))
	}
	if n == 0 || !isErrType(r.At(n-1).Type()) {
		if len(vals) == 1 && n == 1 {
			if isBool(r.At(0).Type()) {
				return ActPure, nil
			}
			if _, ok := r.At(0).Type().Underlying().(*types.Basic); ok {
				return ActPure, nil
			}
			return ActModel, []Outcome{{Res: vals[0]}}
		}
		return ActPure, nil
	}
	return ActModel, []Outcome{
		{Mod: func(st *State) bool {
			if n == 1 {
				st.regs["$res"] = tNil
			} else {
				st.regs["$res"] = mkTuple(append(append([]*Term(nil), vals...), tNil)...)
			}
			return true
		}},
		{Mod: func(st *State) bool {
			x.count("failures")
			e := newErr(x, st, c.name()+"Error")
			st.set("failed", mkInt(1))
			st.note("%s: %s fails", x.p.pos(c.Instr.Pos()), c.ID)
			st.regs["failedCall"] = mkStr(c.ID)
			if n == 1 {
				st.regs["$res"] = e
				return true
			}
			var rs []*Term
			for i := 0; i < n-1; i++ {
				rs = append(rs, x.fresh(c.name(), r.At(i).Type()))
			}
			st.regs["$res"] = mkTuple(append(rs, e)...)
			return true
		}},
	}
}

// buildDefinition explores the building of a definition with one tracked task or link.
func buildDefinition(c *Ctx, track string) {
	p := c.P
	fn := p.Func("definition", "NewDefinition")
	tasks, links := makers(p, "TaskRep", "Task"), makers(p, "LinkRep", "Link")
	if len(tasks) == 0 || len(links) == 0 {
		anchorFail("the functions that create tasks and links not found")
	}
	rep := tm.named(KObj, "description", fn.Params[0].Type())
	item := tm.named(KObj, "tracked "+track, nil)
	made := tm.named(KObj, "made from the tracked "+track, nil)
	id := tm.named(KSym, "id of the tracked task", types.Typ[types.String])
	colls := map[string]*Term{}
	for _, k := range []string{"task", "link", "handler task", "handler link"} {
		if k == track {
			colls[k] = mkBag([]*Term{tStar, item})
		} else {
			colls[k] = mkBag([]*Term{tStar, mkMany(tm.named(KObj, "a "+k, nil))})
			colls[k] = tm.named(KSym, "the "+k+"s", nil)
		}
	}
	isHandler := strings.HasPrefix(track, "handler")
	isTask := strings.HasSuffix(track, "task")
	s := newState()
	handlerRep := tm.named(KSym, "handler description", nil)
	if isHandler {
		handlerRep = tm.named(KObj, "error handler description", nil)
	}
	s.heap[fld(rep, "DefinitionRep.Tasks")] = colls["task"]
	s.heap[fld(rep, "DefinitionRep.Links")] = colls["link"]
	s.heap[fld(rep, "DefinitionRep.ErrorHandler")] = handlerRep
	s.heap[fld(handlerRep, "ErrorHandlerRep.Tasks")] = colls["handler task"]
	s.heap[fld(handlerRep, "ErrorHandlerRep.Links")] = colls["handler link"]
	for _, f := range []string{"Name", "ModelID", "Metadata", "ExplicitReply"} {
		s.heap[fld(rep, "DefinitionRep."+f)] = tm.named(KSym, "described "+f, nil)
		if f == "ExplicitReply" {
			s.heap[fld(rep, "DefinitionRep."+f)] = tm.named(KSym, "described "+f, types.Typ[types.Bool])
		}
	}
	if isTask {
		s.heap[fld(item, "TaskRep.ID")] = id
	}
	for a, v := range s.heap {
		if strings.HasPrefix(a.op, "DefinitionRep.") {
			s.regs["w:"+strings.TrimPrefix(a.op, "DefinitionRep.")] = v
		}
	}
	s.regs["w:id"], s.regs["w:item"], s.regs["w:made"] = id, item, made
	want := func(s *State, f string) *Term { return s.get("w:" + f) }
	bad := func(x *Exec, s *State, what string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, what+" ("+track+")", pos, format, args...)
	}
	x := newExec(p, "definition", Hooks{
		Immutable: func(f string) bool {
			return strings.HasPrefix(f, "$") || strings.HasPrefix(f, "DefinitionRep.") || strings.HasPrefix(f, "ErrorHandlerRep.") || strings.HasPrefix(f, "TaskRep.") || strings.HasPrefix(f, "LinkRep.")
		},
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		NewElem: func(x *Exec, s *State, c, k, v *Term) {
			if isTask {
				o := x.fresh("otherID", types.Typ[types.String])
				s.neq[ordered(o, s.get("w:id"))] = true
				s.heap[fld(v, "TaskRep.ID")] = o
			}
		},
		MapUpdate: func(x *Exec, s *State, mp, k, v *Term, pos token.Pos) {
			if s.num("made") == 0 {
				return
			}
			key := s.at(made, "$id")
			if v != nil && s.eq(v, made) == Yes {
				x.count("stored")
				if s.eq(k, key) != Yes {
					bad(x, s, "key", pos, "what is made from the description is stored under another id than its own")
				}
				s.regs["stored"] = mp
			} else if r := s.regs["stored"]; r == mp && key != nil && s.eq(k, key) == Yes {
				bad(x, s, "replaced", pos, "what was made from the description is replaced or removed")
			}
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			pos := c.Instr.Pos()
			if c.Fn != nil && (tasks[c.Fn] || links[c.Fn]) && !c.Invoke {
				usedMakers[c.Fn] = true
				r := argBy(c, func(t types.Type) bool { return hasPtr(t, "TaskRep") || hasPtr(t, "LinkRep") })
				mine := r == item
				isT := tasks[c.Fn]
				if mine && s.inc("made") > 1 {
					bad(x, s, "made twice", pos, "a %s is made twice from the same description", track)
				}
				fld2 := "Task.id"
				var key *Term
				if isT {
					key = x.load(s, fld(r, "TaskRep.ID"), types.Typ[types.String])
					if d := argBy(c, func(t types.Type) bool { return hasPtr(t, "Definition") }); d != nil {
						s.regs["defOfTask"] = d
					}
				} else {
					fld2 = "Link.id"
					key = argBy(c, isIntType)
					if mine {
						s.regs["tasksOfLink"] = argBy(c, isMapOf("Task"))
						m := colls["link"]
						switch {
						case key == nil:
						case key.kind == KInt:
							bad(x, s, "id", pos, "links have the same id")
						case isHandler && s.heap[mkIdx(colls[track], key)] == item:
							bad(x, s, "id", pos, "the links of the error handler have the same ids as those of the flow")
						case isHandler && key.kind == KOp && key.op == "bin+":
							ok := false
							for _, a := range key.args {
								ok = ok || a == mkOp("len", m)
							}
							if !ok {
								bad(x, s, "id", pos, "the links of the error handler may have the same ids as those of the flow")
							}
						}
					} else if !isTask && key != nil && s.regs["linkID"] != nil {
						s.neq[ordered(key, s.get("linkID"))] = true
					}
				}
				return ActModel, []Outcome{
					{Mod: func(n *State) bool {
						v := made
						if !mine {
							v = nonNilResult(x, n, c.Sig.Results().At(0).Type(), "made")
							n.neq[ordered(v, made)] = true
						}
						if key != nil {
							n.heap[fld(v, fld2)] = key
							if mine {
								n.heap[fld(v, "$id")] = key
							}
						}
						n.regs["$res"] = mkTuple(v, tNil)
						return true
					}},
					{Mod: func(n *State) bool {
						x.count("failures")
						n.setNum("failed", 1)
						n.regs["$res"] = mkTuple(tNil, newErr(x, n, "creationError"))
						return true
					}},
				}
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 && fnPkg(c.Fn).Path() == flowMod+"/definition" {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Builtin == "" {
				return ActPure, nil
			}
			return ActDefault, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if len(res) != 2 {
				return
			}
			x.count("definitions")
			if s.is("failed") {
				if s.eq(res[1], tNil) != No {
					bad(x, s, "error dropped", pos, "a task or link that can't be made is not reported as an error")
				}
				return
			}
			if s.eq(res[1], tNil) != Yes {
				bad(x, s, "refused", pos, "a flow is refused although all of its tasks and links could be made")
				return
			}
			d := res[0]
			for _, f := range [][2]string{{"name", "Name"}, {"modelID", "ModelID"}, {"metadata", "Metadata"}} {
				if v := s.at(d, "Definition."+f[0]); v == nil || s.eq(v, want(s, f[1])) != Yes {
					bad(x, s, f[0], pos, "the definition doesn't have the described %s", f[0])
				}
			}
			if v := s.at(d, "Definition.explicitReply"); v == nil || s.eq(v, want(s, "ExplicitReply")) != Yes {
				bad(x, s, "explicitReply", pos, "the definition doesn't say whether the flow replies explicitly")
			}
			if dt := s.regs["defOfTask"]; dt != nil && s.eq(s.get("defOfTask"), d) != Yes {
				bad(x, s, "definition of a task", pos, "a task belongs to another definition")
			}
			eh := s.at(d, "Definition.errorHandler")
			hasRep := s.eq(want(s, "ErrorHandler"), tNil)
			if eh == nil || (s.eq(eh, tNil) == Yes) != (hasRep == Yes) {
				bad(x, s, "error handler", pos, "the definition has an error handler although none is described, or the reverse")
				return
			}
			if s.num("made") == 0 {
				bad(x, s, "not made", pos, "a %s that is described is not made", track)
				return
			}
			owner, pre := d, "Definition."
			if isHandler {
				owner, pre = eh, "ErrorHandler."
			}
			f := pre + "links"
			if isTask {
				f = pre + "tasks"
			} else if t := s.at(owner, pre+"tasks"); s.regs["tasksOfLink"] != nil && (t == nil || s.eq(s.get("tasksOfLink"), t) != Yes) {
				bad(x, s, "tasks of a link", pos, "a link connects tasks of another part of the flow")
			}
			mp := s.at(owner, f)
			if mp == nil || s.regs["stored"] == nil || s.eq(s.get("stored"), mp) != Yes {
				bad(x, s, "not stored", pos, "a %s that is described is not part of the definition", track)
			}
		},
	})
	x.roots = append(x.roots, rep, item, made, handlerRep)
	x.Run(fn, s, []*Term{rep})
	c.absorb(x, nil)
	for k, v := range x.counts {
		defCounts[k] += v
	}
}

// buildLink explores the building of a link of one type; missing names the part that isn't there: from, to, value, or none.
func buildLink(c *Ctx, fn *ssa.Function, typ, missing string) {
	p := c.P
	s := newState()
	link := tm.named(KObj, "link description", nil)
	tasks := tm.named(KObj, "tasks", nil)
	id := tm.named(KSym, "id", types.Typ[types.Int])
	task := func(n string) *Term {
		if n == missing {
			return tNil
		}
		return tm.named(KObj, n, types.NewPointer(p.Named("definition", "Task")))
	}
	from, to := task("from"), task("to")
	sym := func(n string) *Term { return tm.named(KSym, "described "+n, types.Typ[types.String]) }
	types_ := map[string]string{"": "LtDependency", "default": "LtDependency", "dependency": "LtDependency", "0": "LtDependency", "expression": "LtExpression", "1": "LtExpression",
		"label": "LtLabel", "2": "LtLabel", "error": "LtError", "3": "LtError", "exprOtherwise": "LtExprOtherwise", "4": "LtExprOtherwise", "other": "LtDependency"}
	for _, f := range []string{"Name", "ToID", "FromID", "Label", "Value"} {
		s.heap[fld(link, "LinkRep."+f)] = sym(f)
	}
	s.neq[ordered(sym("ToID"), sym("FromID"))] = true
	value := mkStr("the described expression")
	if missing == "value" {
		value = mkStr("")
	}
	s.heap[fld(link, "LinkRep.Value")] = value
	tv := mkStr(typ)
	if typ == "other" {
		tv = sym("Type")
		for k := range types_ {
			s.neq[ordered(tv, mkStr(k))] = true
		}
	}
	s.heap[fld(link, "LinkRep.Type")] = tv
	for i, n := range []string{"FromID", "ToID"} {
		v := []*Term{from, to}[i]
		s.heap[mkKey(tasks, sym(n))] = v
		s.heap[mkHas(tasks, sym(n))] = tTrue
		if v == tNil {
			s.heap[mkHas(tasks, sym(n))] = tFalse
		}
	}
	if from != tNil {
		s.heap[fld(from, "Task.toLinks")] = mkBag([]*Term{tStar})
	}
	if to != tNil {
		s.heap[fld(to, "Task.fromLinks")] = mkBag([]*Term{tStar})
	}
	s.regs["w:label"] = sym("Label")
	want := mkInt(p.constVal("definition", types_[typ]))
	isExpr := types_[typ] == "LtExpression"
	incomplete := missing == "from" || missing == "to" || missing == "value" && isExpr
	var args []*Term
	for _, q := range fn.Params {
		switch {
		case isMapOf("Task")(q.Type()):
			args = append(args, tasks)
		case hasPtr(q.Type(), "LinkRep"):
			args = append(args, link)
		case isIntType(q.Type()):
			args = append(args, id)
		default:
			args = append(args, nonNilResult(newExec(p, "link", Hooks{}), s, q.Type(), q.Name()))
		}
	}
	bad := func(x *Exec, s *State, what string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, fnName(fn)+": "+what+" ("+typ+")"+map[bool]string{true: " without " + missing}[missing != ""], pos, format, args...)
	}
	x := newExec(p, "link", Hooks{
		Immutable: func(f string) bool { return strings.HasPrefix(f, "$") || strings.HasPrefix(f, "LinkRep.") },
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if strings.HasSuffix(c.ID, "expression.Factory.NewExpr") {
				x.count("expressions")
				if s.eq(c.Args[0], value) != Yes {
					bad(x, s, "expression", c.Instr.Pos(), "another text than the value of the link is compiled")
				}
				return ActModel, []Outcome{
					{Mod: func(n *State) bool {
						n.regs["expr"] = nonNilResult(x, n, c.Sig.Results().At(0).Type(), "expr")
						n.regs["$res"] = mkTuple(n.regs["expr"], tNil)
						return true
					}},
					{Mod: func(n *State) bool {
						n.setNum("failed", 1)
						n.regs["$res"] = mkTuple(tNil, newErr(x, n, "exprError"))
						return true
					}},
				}
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Builtin == "" {
				return ActPure, nil
			}
			return ActDefault, nil
		},
		RootPanic: func(x *Exec, s *State, pos token.Pos) {
			bad(x, s, "panic", pos, "a link that can't be made makes the building of the flow panic")
		},
		NilDeref: func(x *Exec, s *State, pos token.Pos) {
			bad(x, s, "panic", pos, "a link that can't be made makes the building of the flow panic")
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if len(res) != 2 {
				return
			}
			if s.eq(res[1], tNil) != Yes {
				x.count("links refused")
				if !incomplete && !s.is("failed") {
					bad(x, s, "refused", pos, "a link is refused although it is complete")
				}
				return
			}
			x.count("links made")
			l := res[0]
			if s.is("failed") || incomplete {
				bad(x, s, "accepted", pos, "a link without a task at both ends, or without a valid expression, is accepted")
				return
			}
			is := func(f string, w *Term, what string) {
				if v := s.at(l, "Link."+f); v == nil || s.eq(v, w) != Yes {
					bad(x, s, f, pos, "the link doesn't have the described %s", what)
				}
			}
			is("linkType", want, "type")
			is("id", id, "id")
			is("fromTask", from, "origin")
			is("toTask", to, "target")
			is("label", s.get("w:label"), "label")
			is("value", value, "value")
			if isExpr {
				is("expr", s.get("expr"), "expression")
			} else {
				is("expr", tNil, "expression")
			}
			has := func(o *Term, f, what string) {
				b := s.at(o, f)
				n, rest := 0, false
				if b != nil && b.isBag() {
					for _, e := range b.args {
						switch {
						case isMany(e):
							rest = true
						case s.eq(e, l) == Yes:
							n++
						}
					}
				}
				if n != 1 || !rest {
					bad(x, s, f, pos, "the link is not added exactly once to the %s", what)
				}
			}
			has(from, "Task.toLinks", "outgoing links of its origin")
			has(to, "Task.fromLinks", "incoming links of its target")
		},
	})
	x.Run(fn, s, args)
	c.absorb(x, nil)
	for k, v := range x.counts {
		defCounts[k] += v
	}
}

func definitionCheck(c *Ctx) {
	defCounts, usedMakers = map[string]int{}, map[*ssa.Function]bool{}
	for _, k := range []string{"task", "link", "handler task", "handler link"} {
		buildDefinition(c, k)
	}
	var fns []*ssa.Function
	for fn := range makers(c.P, "LinkRep", "Link") {
		if usedMakers[fn] {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		for _, t := range []string{"", "default", "dependency", "0", "expression", "1", "label", "2", "error", "3", "exprOtherwise", "4", "other"} {
			for _, missing := range []string{"", "from", "to", "value"} {
				buildLink(c, fn, t, missing)
			}
		}
	}
	for fn := range makers(c.P, "TaskRep", "Task") {
		if usedMakers[fn] {
			buildTask(c, fn)
		}
	}
	n := 0
	for _, fn := range c.P.Funcs {
		r := fn.Signature.Results()
		if fn.Parent() != nil || fnPkg(fn) == nil || fnPkg(fn).Path() != flowMod+"/definition" || r.Len() != 2 || !hasPtr(r.At(0).Type(), "ActivityConfig") || !isErrType(r.At(1).Type()) {
			continue
		}
		for _, q := range fn.Params {
			if hasPtr(q.Type(), "Config") {
				buildActivity(c, fn)
				n++
				break
			}
		}
	}
	if n == 0 {
		anchorFail("the function that creates the activity of a task not found")
	}
	for _, k := range []string{"activities made", "activities refused", "tasks made", "tasks refused", "definitions", "stored", "failures", "links made", "links refused", "expressions"} {
		c.must(k, defCounts[k], 1)
	}
}

func init() {
	register("C29", definitionCheck, "building a definition from an arbitrary description with one tracked task or link", "building a link of every type", "building a task", "building the activity of a task")
}

// buildTask explores the building of a task.
func buildTask(c *Ctx, fn *ssa.Function) {
	p := c.P
	s := newState()
	rep, def := tm.named(KObj, "task description", nil), tm.named(KObj, "definition of the task", nil)
	for _, f := range []string{"ID", "Type", "Name", "Settings", "ActivityCfgRep"} {
		v := tm.named(KSym, "described "+f, nil)
		s.heap[fld(rep, "TaskRep."+f)] = v
		s.regs["w:"+f] = v
	}
	writers := fieldWriters(p, "Task.id", "Task.name", "Task.typeID", "Task.definition", "Task.loopCfg", "Task.retryOnErrConfig", "Task.settingsMapper")
	var args []*Term
	for _, q := range fn.Params {
		switch {
		case hasPtr(q.Type(), "TaskRep"):
			args = append(args, rep)
		case hasPtr(q.Type(), "Definition"):
			args = append(args, def)
		default:
			args = append(args, nonNilResult(newExec(p, "task", Hooks{}), s, q.Type(), q.Name()))
		}
	}
	resultOf := func(s *State, v *Term, typ string, about string) bool {
		if v == nil || v.kind != KOp || !strings.HasPrefix(v.op, "result:") {
			return false
		}
		if about == "" {
			return true
		}
		for _, a := range v.args {
			if a == rep || s.eq(a, s.get("w:"+about)) == Yes {
				return true
			}
		}
		return false
	}
	x := newExec(p, "task", Hooks{
		Immutable: func(f string) bool { return strings.HasPrefix(f, "TaskRep.") || strings.HasPrefix(f, "Definition.") },
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.ID == "util.IsValidTaskType" {
				return ActModel, []Outcome{{Res: tTrue}, {Mod: func(n *State) bool { n.setNum("failed", 1); x.count("failures"); n.regs["$res"] = tFalse; return true }}}
			}
			r := c.Sig.Results()
			if n := r.Len(); c.Builtin == "" && n > 0 && isErrType(r.At(n-1).Type()) && !isStd(c.ID) {
				if n == 2 && hasPtr(r.At(0).Type(), "Task") || writers[c.Fn] {
					return ActInline, nil
				}
				return mayFail(x, c)
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 && fnPkg(c.Fn).Path() == flowMod+"/definition" {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Builtin == "" {
				return ActPure, nil
			}
			return ActDefault, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if len(res) != 2 {
				return
			}
			bad := func(what, format string, args ...interface{}) { x.report(s, what, pos, format, args...) }
			if s.eq(res[1], tNil) != Yes {
				x.count("tasks refused")
				if !s.is("failed") {
					bad("refused", "a task is refused although nothing about it failed")
				}
				return
			}
			x.count("tasks made")
			if s.is("failed") {
				bad("error dropped", "a task is accepted although a part of its description is invalid")
				return
			}
			t := res[0]
			for _, f := range [][2]string{{"id", "ID"}, {"name", "Name"}, {"typeID", "Type"}} {
				if v := s.at(t, "Task."+f[0]); v == nil || s.eq(v, s.get("w:"+f[1])) != Yes {
					bad(f[0], "the task doesn't have the described %s", f[0])
				}
			}
			if v := s.at(t, "Task.definition"); v == nil || s.eq(v, def) != Yes {
				bad("definition", "the task belongs to another definition")
			}
			for _, f := range [][2]string{{"loopCfg", "LoopConfig"}, {"retryOnErrConfig", "RetryOnError"}, {"settingsMapper", "Mapper"}} {
				if !resultOf(s, s.at(t, "Task."+f[0]), f[1], "Settings") {
					bad(f[0], "the %s of the task is not made from its settings", f[0])
				}
			}
			ac := s.at(t, "Task.activityCfg")
			if none := s.eq(s.get("w:ActivityCfgRep"), tNil); none == Yes {
				if ac == nil || s.eq(ac, tNil) != Yes {
					bad("activityCfg", "the task has an activity although none is described")
				}
			} else if !resultOf(s, ac, "ActivityConfig", "ActivityCfgRep") {
				bad("activityCfg", "the activity of the task is not made from its description")
			}
		},
	})
	x.Run(fn, s, args)
	c.absorb(x, nil)
	for k, v := range x.counts {
		defCounts[k] += v
	}
}

// buildActivity explores the building of the activity of a task.
func buildActivity(c *Ctx, fn *ssa.Function) {
	p := c.P
	s := newState()
	rep, task := tm.named(KObj, "activity description", nil), tm.named(KObj, "task", nil)
	act := tm.named(KSym, "registered activity", nil)
	var args []*Term
	for _, q := range fn.Params {
		switch {
		case hasPtr(q.Type(), "Config"):
			args = append(args, rep)
		case hasPtr(q.Type(), "Task"):
			args = append(args, task)
		default:
			args = append(args, nonNilResult(newExec(p, "activity", Hooks{}), s, q.Type(), q.Name()))
		}
	}
	s.regs["w:act"] = act
	fails := func(x *Exec, c *Call, ok *Term) []Outcome {
		return []Outcome{
			{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(ok, tNil); return true }},
			{Mod: func(n *State) bool {
				x.count("failures")
				n.setNum("failed", 1)
				n.note("%s: %s fails", x.p.pos(c.Instr.Pos()), c.name())
				n.regs["$res"] = mkTuple(tNil, newErr(x, n, "failure"))
				return true
			}},
		}
	}
	x := newExec(p, "activity", Hooks{
		Immutable: func(f string) bool { return strings.HasPrefix(f, "Task.") || strings.HasPrefix(f, "Definition.") },
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			r := c.Sig.Results()
			last := r.Len() - 1
			switch {
			case c.ID == "core/activity.Get":
				x.count("lookups")
				ref := x.load(s, fld(rep, "Config.Ref"), types.Typ[types.String])
				if s.eq(c.Args[0], ref) != Yes {
					x.report(s, "reference", c.Instr.Pos(), "another activity than the described one is looked up")
				}
				return ActModel, []Outcome{
					{Mod: func(n *State) bool {
						n.regs["$res"] = n.get("w:act")
						n.neq[ordered(n.get("w:act"), tNil)] = true
						return true
					}},
					{Mod: func(n *State) bool { n.setNum("failed", 1); n.regs["$res"] = tNil; return true }},
				}
			case c.ID == "core/activity.GetFactory":
				return ActModel, []Outcome{
					{Res: tNil},
					{Mod: func(n *State) bool {
						n.regs["w:factory"] = nonNilResult(x, n, r.At(0).Type(), "factory")
						n.regs["$res"] = n.regs["w:factory"]
						return true
					}},
				}
			case c.ID == "core/support.GetAliasRef":
				return ActModel, []Outcome{
					{Res: mkTuple(tm.named(KSym, "the reference of the alias", types.Typ[types.String]), tTrue)},
					{Mod: func(n *State) bool { n.setNum("failed", 1); n.regs["$res"] = mkTuple(mkStr(""), tFalse); return true }},
				}
			case c.Builtin == "" && c.Fn == nil && last == 1 && isErrType(r.At(1).Type()) && isNamed(r.At(0).Type(), "Activity"):
				v := nonNilResult(x, s, r.At(0).Type(), "new activity")
				s.regs["w:new"] = v
				return ActModel, fails(x, c, v)
			case strings.HasSuffix(c.ID, "Factory.NewMapper"):
				x.count("mappers")
				v := mkOp("mapper", c.Args[0])
				return ActModel, fails(x, c, v)
			case strings.HasSuffix(c.ID, "metadata.ResolveSettingValue"), strings.HasSuffix(c.ID, "schema.FindOrCreate"):
				return ActModel, fails(x, c, mkOp("result:"+c.ID, c.Args...))
			}
			if c.Builtin == "" && last == 0 && isBool(r.At(0).Type()) {
				return ActPure, nil
			}
			if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 && fnPkg(c.Fn).Path() == flowMod+"/definition" {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Builtin == "" {
				return ActPure, nil
			}
			return ActDefault, nil
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			if len(res) != 2 {
				return
			}
			if s.eq(res[1], tNil) != Yes {
				x.count("activities refused")
				return
			}
			x.count("activities made")
			bad := func(what, format string, args ...interface{}) { x.report(s, what, pos, format, args...) }
			if s.is("failed") {
				bad("error dropped", "an activity is accepted although a part of its description is invalid")
				return
			}
			want := s.get("w:act")
			if s.regs["w:factory"] != nil {
				want = s.regs["w:new"]
			}
			if v := s.at(res[0], "ActivityConfig.Activity"); want == nil || v == nil || s.eq(v, want) != Yes {
				bad("activity", "the activity of the task is not the described one, or not one of its own where it can be")
			}
			if v := s.at(res[0], "ActivityConfig.inputMapper"); v == nil || v.kind != KOp || v.op != "mapper" {
				bad("input", "the input of the activity is not mapped as described")
			}
			if v := s.at(res[0], "ActivityConfig.outputMapper"); v == nil || s.eq(v, tNil) != No {
				bad("output", "the activity has no output mapper")
			}
		},
	})
	x.roots = append(x.roots, rep, task)
	x.Run(fn, s, args)
	c.absorb(x, nil)
	for k, v := range x.counts {
		defCounts[k] += v
	}
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}
