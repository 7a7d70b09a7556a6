package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: a reference in a mapping or an expression reaches the value that was put where it points.

// refCat: the parts of a text that is put together.
func refCat(t *Term) []*Term {
	t = lookupUnwrap(t)
	if t.kind == KOp && t.op == "strcat" {
		var r []*Term
		for _, a := range t.args {
			for _, b := range refCat(a) {
				if n := len(r); n > 0 && b.kind == KStr && r[n-1].kind == KStr {
					r[n-1] = mkStr(r[n-1].op + b.op)
				} else {
					r = append(r, b)
				}
			}
		}
		return r
	}
	if t.kind == KStr && t.op == "" {
		return nil
	}
	return []*Term{t}
}

func refIs(t *Term, parts ...*Term) bool {
	if t == nil {
		return false
	}
	got := refCat(t)
	if len(got) != len(parts) {
		return false
	}
	for i := range got {
		if got[i] != parts[i] {
			return false
		}
	}
	return true
}

// refText: a text formatted from texts.
func refText(x *Exec, s *State, c *Call) *Term {
	if c.Args[0].kind != KStr {
		return nil
	}
	// the arguments, in their order
	var l []*Term
	as := c.Instr.Common().Args
	sl, ok := as[len(as)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				for int64(len(l)) <= k.Int64() {
					l = append(l, nil)
				}
				l[k.Int64()] = x.val(s, st.Val)
			}
		}
	}
	f := c.Args[0].op
	r := mkStr("")
	for i := 0; ; i++ {
		j := strings.IndexByte(f, '%')
		if j < 0 {
			return refJoin(r, mkStr(f))
		}
		if j+1 >= len(f) || f[j+1] != 's' && f[j+1] != 'v' {
			return nil
		}
		if i >= len(l) || l[i] == nil {
			return nil
		}
		r, f = refJoin(refJoin(r, mkStr(f[:j])), l[i]), f[j+2:]
	}
}

func refJoin(a, b *Term) *Term {
	if a.kind == KStr && a.op == "" {
		return b
	}
	if b.kind == KStr && b.op == "" {
		return a
	}
	return mkOp("strcat", a, b)
}

func refHooks(call func(x *Exec, s *State, c *Call) (Action, []Outcome)) Hooks {
	return Hooks{
		MaxStates: 200000,
		KeepKeys:  true,
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.Builtin != "" {
				return ActDefault, nil
			}
			if a, o := call(x, s, c); a != ActDefault {
				return a, o
			}
			if c.ID == "fmt.Sprintf" {
				if r := refText(x, s, c); r != nil {
					return ActModel, []Outcome{{Res: r}}
				}
			}
			if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActPure, nil
		},
	}
}

// refResolver: one kind of reference.
func refResolver(c *Ctx, fn *ssa.Function, kind string, item, value bool, tot map[string]int) {
	what := "$" + kind + map[bool]string{true: "[item]"}[item] + map[bool]string{true: ".value"}[value]
	s := newState()
	sc := tm.named(KObj, "scope", nil)
	in, vn := mkStr(""), mkStr("")
	if item {
		in = tm.named(KObj, "item", types.Typ[types.String])
		s.addDiff(tZero, mkOp("len", in), -1)
		s.neq[ordered(in, mkStr(""))] = true
	}
	if value {
		vn = tm.named(KObj, "value name", types.Typ[types.String])
		s.addDiff(tZero, mkOp("len", vn), -1)
		s.neq[ordered(vn, mkStr(""))] = true
	}
	found, at := tm.named(KObj, "value in the flow", nil), tm.named(KObj, "part of the value", nil)
	var key, sub []*Term
	switch kind {
	case "flow":
		key = []*Term{vn}
	case "flowctx":
		key = []*Term{mkStr("_fctx."), in}
	case "activity":
		key = []*Term{mkStr("_A."), in}
		if value {
			key = []*Term{mkStr("_A."), in, mkStr("."), vn}
		}
	case "error":
		key = []*Term{mkStr("_E")}
		if item {
			key = []*Term{mkStr("_E."), in}
		}
		if value {
			sub = []*Term{mkStr("."), vn}
		}
	case "iteration":
		key, sub = []*Term{mkStr("_W.iteration")}, []*Term{mkStr("."), in}
		if value {
			sub = []*Term{mkStr("."), in, mkStr("."), vn}
		}
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "reference "+what+": "+id, pos, format, args...)
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.Recv == sc && strings.HasSuffix(c.ID, ".GetValue"):
			if !refIs(c.Args[0], key...) {
				bad(x, s, "place", c.Instr.Pos(), "the reference looks in another place than the one its value is put in")
			}
			return ActModel, []Outcome{{Res: mkTuple(found, tTrue)}, {Mod: func(n *State) bool {
				n.setNum("missing", 1)
				n.regs["$res"] = mkTuple(tNil, tFalse)
				return true
			}}}
		case c.ID == "core/data/path.GetValue":
			if c.Args[0] != found || !refIs(c.Args[1], sub...) {
				bad(x, s, "path", c.Instr.Pos(), "the reference takes another part of the value than the one it names")
			}
			return ActModel, []Outcome{{Res: mkTuple(at, tNil)}, {Mod: func(n *State) bool {
				n.setNum("failed", 1)
				n.regs["$res"] = mkTuple(tNil, tm.named(KObj, "failure", nil))
				return true
			}}}
		}
		return ActDefault, nil
	})
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "a reference panics") }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		if s.is("missing") || s.is("failed") {
			x.count("missing")
			if s.eq(r[1], tNil) != No {
				bad(x, s, "missing", pos, "a reference to a value that doesn't exist isn't reported as an error")
			}
			return
		}
		x.count("found")
		w := found
		if sub != nil {
			w = at
		}
		if s.eq(r[1], tNil) != Yes || r[0] != w {
			bad(x, s, "value", pos, "the reference doesn't yield the value it names")
		}
	}
	x := newExec(c.P, "reference", h)
	self := tm.named(KObj, "resolver", nil)
	x.roots = append(x.roots, sc, found, at, self)
	x.Run(fn, s, []*Term{self, sc, in, vn})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["reference "+k] += n
	}
}

// refKinds: the resolver of each kind of reference, as registered.
func refKinds(p *Program) map[string]types.Type {
	res := map[string]types.Type{}
	for _, fn := range p.Funcs {
		if fnPkg(fn) == nil || fnPkg(fn).Path() != flowMod+"/definition" {
			continue
		}
		refScan(fn, res)
	}
	if m := p.Func("definition", "GetDataResolver"); m != nil && m.Pkg != nil {
		if f := m.Pkg.Func("init"); f != nil {
			refScan(f, res)
		}
	}
	return res
}

func refScan(fn *ssa.Function, res map[string]types.Type) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			u, ok := i.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			k, ok := u.Key.(*ssa.Const)
			m, ok2 := u.Value.(*ssa.MakeInterface)
			if !ok || !ok2 || k.Value == nil || !isNamed(u.Value.Type(), "Resolver") {
				continue
			}
			s := k.Value.ExactString()
			res[strings.Trim(s, `"`)] = m.X.Type()
		}
	}
}

func refField(p *Program, pkg, typ string, ok func(t types.Type) bool) string {
	st := p.Named(pkg, typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			return typ + "." + st.Field(i).Name()
		}
	}
	anchorFail("a field of %s not found", typ)
	return ""
}

func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// refScope: the working data of a task hides what its flow has under the same prefix, and nothing else.
func refScope(c *Ctx, working, has bool, tot map[string]int) {
	p := c.P
	fn := p.Method("instance", "WorkingDataScope", "GetValue")
	s := newState()
	self, m, parent := tm.named(KObj, "working data scope", nil), tm.named(KObj, "working data", nil), tm.named(KObj, "scope of the flow", nil)
	name := tm.named(KObj, "name", types.Typ[types.String])
	key := mkOp("slice", name, mkInt(3), tNil)
	v, pv := tm.named(KObj, "working value", nil), tm.named(KObj, "value of the flow", nil)
	s.heap[fld(self, refField(p, "instance", "WorkingDataScope", isMap))] = m
	s.heap[fld(self, refField(p, "instance", "WorkingDataScope", func(t types.Type) bool { return isNamed(t, "Scope") }))] = parent
	s.heap[mkHas(m, key)], s.heap[mkKey(m, key)] = mkBool(has), tNil
	if has {
		s.heap[mkKey(m, key)] = v
	}
	s.heap[mkHas(m, name)], s.heap[mkKey(m, name)] = tFalse, tNil
	s.addDiff(tZero, mkOp("len", name), -3)
	what := map[bool]string{true: "working data", false: "data of the flow"}[working]
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "scope of a task ("+what+"): "+id, pos, format, args...)
	}
	prefix := func(c *Call) bool {
		return len(c.Args) == 2 && c.Args[0] == name && c.Args[1].kind == KStr && c.Args[1].op == "_W."
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.ID == "strings.HasPrefix" && prefix(c):
			return ActModel, []Outcome{{Res: mkBool(working)}}
		case c.ID == "strings.TrimPrefix" && prefix(c):
			return ActModel, []Outcome{{Res: map[bool]*Term{true: key, false: name}[working]}}
		case c.ID == "strings.CutPrefix" && prefix(c):
			return ActModel, []Outcome{{Res: mkTuple(map[bool]*Term{true: key, false: name}[working], mkBool(working))}}
		case c.Recv == parent && strings.HasSuffix(c.ID, ".GetValue"):
			x.count("asked")
			if working || c.Args[0] != name {
				bad(x, s, "flow", c.Instr.Pos(), "the flow is asked for working data of the task, or for another name")
			}
			return ActModel, []Outcome{{Res: mkTuple(pv, tTrue)}, {Mod: func(n *State) bool {
				n.setNum("missing", 1)
				n.regs["$res"] = mkTuple(tNil, tFalse)
				return true
			}}}
		}
		return ActDefault, nil
	})
	h.StrAt = func(s *State, str, i *Term) *Term { return nil }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("values")
		want, ok := v, has
		if !working {
			want, ok = pv, !s.is("missing")
		}
		if s.decide(r[1]) != map[bool]Tri{true: Yes, false: No}[ok] || ok && r[0] != want {
			bad(x, s, "value", pos, "a task sees another value than the one of its working data or its flow")
		}
	}
	x := newExec(p, "reference", h)
	x.roots = append(x.roots, self, m, parent, name, v, pv)
	x.Run(fn, s, []*Term{self, name})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["scope "+k] += n
	}
}

// refWorking: what is set as working data is what is read, by the task and through its scope.
func refWorking(c *Ctx, first bool, tot map[string]int) {
	p := c.P
	s := newState()
	self, flow, sc, m := tm.named(KObj, "task", nil), tm.named(KObj, "flow of the task", nil), tm.named(KObj, "working data scope", nil), tm.named(KObj, "working data", nil)
	key, v := tm.named(KObj, "key", types.Typ[types.String]), tm.named(KSym, "value of the working data", nil)
	wd := refField(p, "instance", "TaskInst", func(t types.Type) bool { return isPtrNamed(t, "WorkingDataScope") })
	fi := refField(p, "instance", "TaskInst", func(t types.Type) bool { return isPtrNamed(t, "Instance") })
	mf := refField(p, "instance", "WorkingDataScope", isMap)
	pf := refField(p, "instance", "WorkingDataScope", func(t types.Type) bool { return isNamed(t, "Scope") })
	s.heap[fld(self, fi)] = flow
	s.heap[fld(self, wd)] = tNil
	if !first {
		s.heap[fld(self, wd)] = sc
		s.heap[fld(sc, mf)], s.heap[fld(sc, pf)] = m, flow
	}
	what := map[bool]string{true: "first", false: "later"}[first]
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActDefault, nil })
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) {
		x.report(s, "working data ("+what+"): panic", pos, "setting working data panics")
	}
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("set")
		d := s.at(self, wd)
		if d == nil || d == tNil || s.at(d, pf) != flow || s.at(d, mf) == nil || s.heap[mkKey(s.at(d, mf), key)] != v || !first && (d != sc || s.at(d, mf) != m) {
			x.report(s, "working data ("+what+"): value", pos, "what is set isn't in the working data of the task, or the rest of it is lost")
		}
	}
	x := newExec(p, "reference", h)
	x.roots = append(x.roots, self, flow, sc, m, key, v)
	x.Run(p.Method("instance", "TaskInst", "SetWorkingData"), s, []*Term{self, key, v})
	c.absorb(x, nil)
	tot["working set"] += x.counts["set"]
	// reading
	for _, has := range []bool{true, false} {
		if first && has {
			continue
		}
		has := has
		n := newState()
		n.heap[fld(self, wd)] = tNil
		if !first {
			n.heap[fld(self, wd)] = sc
			n.heap[fld(sc, mf)] = m
			n.heap[mkHas(m, key)], n.heap[mkKey(m, key)] = mkBool(has), tNil
			if has {
				n.heap[mkKey(m, key)] = v
			}
		}
		g := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActDefault, nil })
		g.RootPanic = h.RootPanic
		g.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
			x.count("read")
			if s.decide(r[1]) != map[bool]Tri{true: Yes, false: No}[has] || has && r[0] != v {
				x.report(s, "working data ("+what+"): reading", pos, "what is read isn't what was set as working data of the task")
			}
		}
		y := newExec(p, "reference", g)
		y.roots = append(y.roots, self, sc, m, key, v)
		y.Run(p.Method("instance", "TaskInst", "GetWorkingData"), n, []*Term{self, key})
		c.absorb(y, nil)
		tot["working read"] += y.counts["read"]
	}
}

// refOutput: without mappings each declared output of an activity is put where references to it look.
func refOutput(c *Ctx, has, declares bool, tot map[string]int) {
	p := c.P
	s := newState()
	task, id, cfg, act := tm.named(KObj, "task", nil), tm.named(KObj, "id of the task", types.Typ[types.String]), tm.named(KObj, "activity configuration", nil), tm.named(KObj, "activity", nil)
	md, io, out, sc := tm.named(KObj, "metadata", nil), tm.named(KObj, "inputs and outputs", nil), tm.named(KObj, "declared outputs", nil), tm.named(KObj, "scope", nil)
	name, v := mkStr("the tracked output"), tm.named(KSym, "value of the output", nil)
	s.heap[fld(task, "Task.id")], s.heap[fld(task, "Task.activityCfg")] = id, cfg
	s.heap[fld(cfg, "ActivityConfig.Activity")] = act
	s.heap[fld(md, "Metadata.IOMetadata")] = io
	if !declares {
		s.heap[fld(md, "Metadata.IOMetadata")] = tNil
	}
	s.heap[fld(io, "IOMetadata.Output")] = out
	s.heap[mkHas(out, name)], s.heap[mkKey(out, name)] = tTrue, tm.named(KObj, "declaration", nil)
	what := map[bool]string{true: "set", false: "not set"}[has]
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "output of an activity ("+what+"): "+id, pos, format, args...)
	}
	h := refHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case strings.HasSuffix(c.ID, "activity.Activity.Metadata"):
			return ActModel, []Outcome{{Res: md}}
		case c.Recv == sc && strings.HasSuffix(c.ID, ".GetValue"):
			if c.Args[0] == name {
				return ActModel, []Outcome{{Res: mkTuple(map[bool]*Term{true: v, false: tNil}[has], mkBool(has))}}
			}
			return ActPure, nil
		}
		return ActDefault, nil
	})
	h.Immutable = func(f string) bool {
		return strings.HasPrefix(f, "Task.") || strings.HasPrefix(f, "ActivityConfig.") || strings.HasPrefix(f, "Metadata.") || strings.HasPrefix(f, "IOMetadata.")
	}
	h.Coll = func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
		if cc == out {
			return []*Term{name}, []*Term{s.heap[mkKey(out, name)]}, true, true
		}
		return nil, nil, false, false
	}
	h.NewElem = func(x *Exec, s *State, cc, k, e *Term) {
		if k != nil {
			s.neq[ordered(k, name)] = true
		}
	}
	// nothing but the tracked value ends in the place of the tracked output
	place := []*Term{mkStr("_A."), id, mkStr(".the tracked output")}
	h.MapUpdate = func(x *Exec, s *State, m, k, val *Term, pos token.Pos) {
		if refIs(k, place...) {
			if val != v || !has {
				bad(x, s, "value", pos, "another value is put where references to the output look")
			}
			s.setNum("put", 1)
		}
		if val == v && !refIs(k, place...) {
			bad(x, s, "place", pos, "the value of an output is put elsewhere than where references to it look")
		}
	}
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "setting the outputs panics") }
	apply := h
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("mappers")
		mp := r[0]
		t := dynOf(s, mp)
		if t == nil {
			t = mp.typ
		}
		if t != nil {
			if _, ok := t.Underlying().(*types.Pointer); !ok && mp.kind == KObj {
				t = types.NewPointer(t)
			}
		}
		var fn *ssa.Function
		if t != nil {
			fn = p.methodOf(t, "Apply")
		}
		if fn == nil {
			return
		}
		n := s.clone()
		n.frames = nil
		y := newExec(p, "reference", apply)
		y.h.Return = func(y *Exec, s *State, r []*Term, pos token.Pos) {
			x.count("applied")
			if s.eq(r[1], tNil) != Yes {
				bad(y, s, "refused", pos, "the outputs of an activity are refused although nothing about them failed")
			}
			if declares && has != s.is("put") {
				bad(y, s, "missing", pos, "an output isn't put where references to it look exactly if it is set")
			}
		}
		y.roots = append(append([]*Term{}, x.roots...), mp)
		y.Run(fn, n, []*Term{mp, sc})
		c.absorb(y, nil)
	}
	x := newExec(p, "reference", h)
	x.roots = append(x.roots, task, id, cfg, act, md, io, out, sc, v)
	x.Run(p.Func("definition", "NewDefaultActivityOutputMapper"), s, []*Term{task})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["output "+k] += n
	}
}

func refCheck(c *Ctx) {
	tot := map[string]int{}
	kinds := refKinds(c.P)
	for _, k := range []struct {
		kind  string
		forms [][2]bool // item, value
	}{
		{"flow", [][2]bool{{false, true}}},
		{"flowctx", [][2]bool{{true, false}}},
		{"activity", [][2]bool{{true, true}, {true, false}}},
		{"error", [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}}},
		{"iteration", [][2]bool{{true, true}, {true, false}}},
	} {
		t := kinds[k.kind]
		if t == nil {
			anchorFail("no resolver is registered for references of the kind %q", k.kind)
		}
		fn := c.P.methodOf(t, "Resolve")
		if fn == nil {
			anchorFail("the resolver of references of the kind %q not found", k.kind)
		}
		for _, f := range k.forms {
			refResolver(c, fn, k.kind, f[0], f[1], tot)
		}
	}
	for _, has := range []bool{true, false} {
		refScope(c, true, has, tot)
		refWorking(c, has, tot)
		refOutput(c, has, true, tot)
		refOutput(c, has, false, tot)
	}
	refScope(c, false, false, tot)
	for _, k := range []string{"reference found", "reference missing", "scope values", "scope asked", "working set", "working read", "output mappers", "output applied"} {
		c.must(k, tot[k], 1)
	}
}

func init() {
	register("C38", refCheck, "where every kind of reference looks, and what it yields", "the scope of a task with working data", "the place of the outputs of an activity")
}
