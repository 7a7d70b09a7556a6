package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: the snapshot that is built from the recorded steps is the state after the last of them. Two of the steps have
// changes of one tracked thing; the other steps and changes are arbitrary changes of other things.

// chg is a change of what is tracked in one step.
type chg struct {
	typ  int64 // -1: none
	name string
}

const (
	chgNone   = -1
	chgAdd    = 0
	chgUpdate = 1
	chgDelete = 2
)

type stepsWorld struct {
	p            *Program
	kind         string
	inSub, rest  bool
	older, newer int64
	flowID       *Term
	steps        *Term
	cols         map[*Term][2][]*Term // keys and elements of the tracked collections
	objs         []*Term
	ignored      map[*Term]bool
	same         bool // both changes are in one step (queue)
}

func (w *stepsWorld) obj(name, pkg, typ string) *Term {
	var t types.Type
	if typ != "" {
		t = w.p.ptrTo(pkg, typ)
	}
	o := tm.named(KObj, name, t)
	w.objs = append(w.objs, o)
	return o
}

func (w *stepsWorld) coll(s *State, name string, keys, elems []*Term) *Term {
	m := w.obj(name, "", "")
	w.cols[m] = [2][]*Term{keys, elems}
	for i, k := range keys {
		s.heap[mkHas(m, k)] = tTrue
		s.heap[mkKey(m, k)] = elems[i]
	}
	return m
}

// sym is a tracked value.
func sym(s *State, name string, t types.Type) *Term {
	v := tm.named(KSym, name, t)
	s.regs["w:"+name] = v
	return v
}

func newStepsWorld(p *Program, s *State, kind string, inSub, rest bool, older, newer int64, same bool) *stepsWorld {
	w := &stepsWorld{p: p, kind: kind, inSub: inSub, rest: rest, older: older, newer: newer, cols: map[*Term][2][]*Term{}, ignored: map[*Term]bool{}, same: same}
	str, num := types.Typ[types.String], types.Typ[types.Int]
	w.flowID = sym(s, "id of the flow", str)
	var kt types.Type = str
	if kind == "link" {
		kt = num
	}
	key := sym(s, "key", kt)
	sid := tZero
	if inSub {
		sid = sym(s, "id of the subflow", num)
		s.addDiff(tZero, sid, -1)
	}
	q1, q2 := sym(s, "id of the first item", num), sym(s, "id of the second item", num)
	s.addDiff(q1, q2, -1)
	var steps []*Term
	for _, n := range []string{"older", "newer"} {
		ct := older
		if n == "newer" {
			ct = newer
		}
		if ct == chgNone {
			continue
		}
		st := w.obj(n+" step", "state", "Step")
		steps = append(steps, st)
		s.regs["w:step "+n] = st
		s.heap[fld(st, "Step.QueueChanges")] = tNil
		fc := w.obj(n+" change of the flow", "state/change", "Flow")
		s.heap[fld(st, "Step.FlowChanges")] = w.coll(s, "flow changes of the "+n+" step", []*Term{sid}, []*Term{fc})
		s.regs["w:flow change "+n] = fc
		s.heap[fld(fc, "Flow.SubflowId")] = sid
		s.heap[fld(fc, "Flow.TaskId")] = sym(s, "host of the "+n, str)
		s.heap[fld(fc, "Flow.NewFlow")] = mkBool(n == "older" && rest)
		s.heap[fld(fc, "Flow.FlowURI")] = sym(s, "uri of the "+n, str)
		s.heap[fld(fc, "Flow.Status")] = tZero
		if rest || kind == "status" && ct != chgDelete {
			v := sym(s, "status of the flow "+n, num)
			s.neq[ordered(v, tZero)] = true
			s.heap[fld(fc, "Flow.Status")] = v
		}
		if kind == "status" && ct == chgDelete { // no change of the status
			s.heap[fld(fc, "Flow.Status")] = tZero
		}
		if kind == "uri" {
			s.heap[fld(fc, "Flow.NewFlow")] = mkBool(n == "older")
		}
		for _, f := range []string{"Attrs", "Tasks", "Links"} {
			a := fld(fc, "Flow."+f)
			s.heap[a] = tNil
			if rest {
				m := w.obj("other "+f+" of the "+n, "", "")
				w.ignored[m] = true
				s.heap[a] = m
			}
		}
		switch kind {
		case "attr":
			if same && n == "newer" { // other attributes only
				m := w.coll(s, "other attributes", nil, nil)
				s.heap[mkHas(m, key)] = tFalse
				s.heap[fld(fc, "Flow.Attrs")] = m
				break
			}
			s.heap[fld(fc, "Flow.Attrs")] = w.coll(s, n+" attributes", []*Term{key}, []*Term{sym(s, n+" value", nil)})
		case "task", "link":
			T := map[string]string{"task": "Task", "link": "Link"}[kind]
			c := w.obj(n+" change of the "+kind, "state/change", T)
			s.regs["w:change "+n] = c
			s.heap[fld(c, T+".ChgType")] = mkInt(ct)
			s.heap[fld(c, T+".Status")] = sym(s, n+" status", num)
			s.heap[fld(fc, "Flow."+T+"s")] = w.coll(s, n+" "+kind+"s", []*Term{key}, []*Term{c})
		case "queue":
			var ks, es []*Term
			put := func(item string, id *Term, ct int64) {
				c := w.obj(n+" change of the "+item+" item", "state/change", "Queue")
				s.regs["w:change "+n+" "+item] = c
				s.heap[fld(c, "Queue.ChgType")] = mkInt(ct)
				s.heap[fld(c, "Queue.SubflowId")] = sym(s, "subflow of the "+item+" "+n, num)
				s.heap[fld(c, "Queue.TaskId")] = sym(s, "task of the "+item+" "+n, str)
				ks, es = append(ks, id), append(es, c)
			}
			if same {
				put("first", q1, ct)
				put("second", q2, chgAdd)
			} else if n == "older" {
				put("first", q1, ct)
			} else {
				put("first", q1, ct)
				put("second", q2, chgAdd)
			}
			if !same && newer == chgNone {
				put("second", q2, chgAdd)
			}
			s.heap[fld(st, "Step.QueueChanges")] = w.coll(s, "queue changes of the "+n+" step", ks, es)
		}
	}
	w.steps = w.coll(s, "steps", nil, steps)
	return w
}

func (w *stepsWorld) newElem(x *Exec, s *State, c, k, v *Term) {
	p := w.p
	_ = p
	if v == nil || v.typ == nil {
		return
	}
	nilMaps := func(fc *Term, sameFlow bool) {
		s.heap[fld(fc, "Flow.NewFlow")] = tFalse
		s.heap[fld(fc, "Flow.Status")] = tZero
		for _, f := range []string{"Attrs", "Tasks", "Links"} {
			s.heap[fld(fc, "Flow."+f)] = tNil
		}
	}
	switch {
	case hasPtr(v.typ, "Step"):
		s.heap[fld(v, "Step.QueueChanges")] = tNil
		if w.kind == "queue" {
			m := x.fresh("queue changes of another step", nil)
			s.neq[ordered(m, tNil)] = true
			s.heap[fld(v, "Step.QueueChanges")] = m
			for _, q := range []string{"w:id of the first item", "w:id of the second item"} {
				s.heap[mkHas(m, s.get(q))] = tFalse
			}
		}
	case isPtrIn(v.typ, "state/change", "Flow"):
		nilMaps(v, false)
		id := x.fresh("id of another flow", types.Typ[types.Int])
		if !s.addDiff(tZero, id, 0) {
			return
		}
		s.heap[fld(v, "Flow.SubflowId")] = id
		sid := tZero
		if w.inSub {
			sid = s.get("w:id of the subflow")
		}
		s.neq[ordered(id, sid)] = true
		if !w.inSub {
			s.addDiff(tZero, id, -1)
		}
	case isPtrIn(v.typ, "state", "Task"), isPtrIn(v.typ, "state", "Link"), isPtrIn(v.typ, "state", "WorkItem"):
		n := v.typ.Underlying().(*types.Pointer).Elem().(*types.Named).Obj().Name()
		f := ".Id"
		if n == "WorkItem" {
			f = ".ID"
		}
		id := x.fresh("another id", nil)
		s.heap[fld(v, n+f)] = id
		if n == "WorkItem" {
			s.neq[ordered(id, s.get("w:id of the first item"))] = true
			s.neq[ordered(id, s.get("w:id of the second item"))] = true
		} else {
			s.neq[ordered(id, s.get("w:key"))] = true
		}
	case isIntType(v.typ) && w.kind == "queue":
		for _, q := range []string{"w:id of the first item", "w:id of the second item"} {
			s.neq[ordered(v, s.get(q))] = true
		}
	}
	if k != nil && c.kind == KObj && c.op == "other attributes" {
		s.neq[ordered(k, s.get("w:key"))] = true
	}
	if k != nil && w.cols[c][0] != nil {
		for _, o := range w.cols[c][0] {
			s.neq[ordered(k, o)] = true
		}
	} else if k != nil && w.kind == "queue" && isIntType(k.typ) {
		for _, q := range []string{"w:id of the first item", "w:id of the second item"} {
			s.neq[ordered(k, s.get(q))] = true
		}
	}
}

func isPtrIn(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == flowMod+"/"+pkg
}

func stepsRun(c *Ctx, kind string, inSub, rest bool, older, newer int64, same bool, tot map[string]int) {
	p := c.P
	fn := p.Func("state", "StepsToSnapshot")
	s := newState()
	w := newStepsWorld(p, s, kind, inSub, rest, older, newer, same)
	what := kind
	if inSub {
		what += " of a subflow"
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "snapshot from steps: "+id+" ("+what+")", pos, format, args...)
	}
	h := Hooks{
		MaxStates: 300000,
		KeepKeys:  true,
		Enum:      func(t types.Type) []int64 { return nil },
		Immutable: func(f string) bool {
			return strings.HasPrefix(f, "$") || strings.HasPrefix(f, "Step.") || strings.HasPrefix(f, "Flow.") || strings.HasPrefix(f, "Queue.") || f == "members" || f == "mklen"
		},
		IgnoreMap: func(s *State, m *Term) bool { return w.ignored[m] },
		MapLen: func(x *Exec, s *State, m *Term) *Term {
			if w.ignored[m] {
				return mkInt(2)
			}
			if _, ok := w.cols[m]; ok {
				n := tm.named(KSym, "number of "+m.op, types.Typ[types.Int])
				s.addDiff(tZero, n, -1)
				return n
			}
			return nil
		},
		Coll: func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
			if t, ok := w.cols[cc]; ok {
				return t[0], t[1], true, true
			}
			if sid := s.get("w:id of the subflow"); inSub && sid != nil && cc.kind == KObj && s.heap[mkHas(cc, sid)] == tTrue && s.heap[mkKey(cc, sid)] != nil {
				return []*Term{sid}, []*Term{s.heap[mkKey(cc, sid)]}, true, true
			}
			return nil, nil, false, false
		},
		NewElem: w.newElem,
		Before: func(s *State, a, b *Term) bool {
			switch {
			case a == s.regs["w:step older"] && b == s.regs["w:step newer"]:
				return true
			case a == s.get("w:id of the first item") && b == s.get("w:id of the second item"):
				return s.is("sorted")
			case a == nil || b == nil:
			case a == s.regs["w:entry second"] && b == s.regs["w:entry first"]:
				return s.num("order") == -1
			case a == s.regs["w:entry first"] && b == s.regs["w:entry second"]:
				return s.num("order") == 1
			}
			return false
		},
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MayPanic:  func(c *Call) bool { return false },
	}
	h.Store = func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
		if a.kind != KAddr || len(a.args) != 1 {
			return true
		}
		o := a.args[0]
		if !isAlloc(x, o) && (strings.HasPrefix(a.op, "Step.") || strings.HasPrefix(a.op, "Flow.") || strings.HasPrefix(a.op, "Queue.")) {
			bad(x, s, "input", pos, "building a snapshot changes the recorded step (%s)", a.op)
			return true
		}
		mark := func(reg string, k *Term) {
			if k != nil && s.eq(v, k) == Yes {
				x.count("entries")
				s.regs[reg] = o
			}
		}
		switch a.op {
		case "Task.Id":
			if kind == "task" {
				mark("w:entry", s.get("w:key"))
			}
		case "Link.Id":
			if kind == "link" {
				mark("w:entry", s.get("w:key"))
			}
		case "Subflow.Id":
			if inSub {
				mark("w:entry of the subflow", s.get("w:id of the subflow"))
			}
		case "WorkItem.ID":
			if kind == "queue" {
				mark("w:entry first", s.get("w:id of the first item"))
				mark("w:entry second", s.get("w:id of the second item"))
			}
		}
		return true
	}
	h.MapUpdate = func(x *Exec, s *State, m, k, v *Term, pos token.Pos) {
		if _, ok := w.cols[m]; ok || w.ignored[m] {
			bad(x, s, "input", pos, "building a snapshot changes a map of a recorded step")
		}
	}
	h.Append = func(x *Exec, s *State, cl *Call) {
		if len(cl.Args) < 2 || kind != "queue" {
			return
		}
		in := func(b *Term, reg string) bool {
			e := s.regs[reg]
			if e == nil || b == tNil {
				return false
			}
			_, el, _ := x.elements(s, b)
			for _, a := range el {
				if a == e {
					return true
				}
			}
			return false
		}
		a, b := cl.Args[0], cl.Args[1]
		if in(a, "w:entry first") && in(b, "w:entry second") {
			s.set("order", mkInt(1))
		}
		if in(a, "w:entry second") && in(b, "w:entry first") {
			s.set("order", mkInt(-1))
		}
	}
	h.Call = func(x *Exec, s *State, cl *Call) (Action, []Outcome) {
		switch cl.ID {
		case "sort.Ints", "slices.Sort", "sort.Slice", "sort.SliceStable":
			return ActModel, []Outcome{{Mod: func(n *State) bool { n.setNum("sorted", 1); n.regs["$res"] = mkTuple(); return true }}}
		}
		if cl.Fn != nil && !cl.Invoke && InRepo(cl.Fn) && len(cl.Fn.Blocks) > 0 {
			return ActInline, nil
		}
		if a, o := stdCall(x, s, cl); a != ActDefault {
			return a, o
		}
		return ActPure, nil
	}
	holds := func(x *Exec, s *State, b, e *Term) int {
		if b == nil || b == tNil || e == nil {
			return 0
		}
		_, el, _ := x.elements(s, b)
		n := 0
		for _, a := range el {
			if s.eq(a, e) == Yes {
				n++
			}
		}
		return n
	}
	// withId counts the entries that have the tracked id
	withID := func(x *Exec, s *State, b *Term, f string, id *Term) int {
		if b == nil || b == tNil {
			return 0
		}
		_, el, _ := x.elements(s, b)
		n := 0
		for _, a := range el {
			if v := s.at(a, f); v == nil || s.eq(v, id) != No {
				n++
			}
		}
		return n
	}
	last := "newer"
	if newer == chgNone || kind == "attr" && same {
		last = "older"
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 1 {
			return
		}
		x.count("snapshots")
		r := res[0]
		is := func(o *Term, f string, want *Term, name string) {
			if v := s.at(o, f); v == nil || want == nil || s.eq(v, want) != Yes {
				bad(x, s, f, pos, "the snapshot doesn't hold %s", name)
			}
		}
		is(r, "Snapshot.Id", w.flowID, "the id of the flow")
		base := s.at(r, "Snapshot.SnapshotBase")
		if inSub {
			e := s.regs["w:entry of the subflow"]
			if holds(x, s, s.at(r, "Snapshot.Subflows"), e) != 1 || withID(x, s, s.at(r, "Snapshot.Subflows"), "Subflow.Id", s.get("w:id of the subflow")) != 1 {
				bad(x, s, "subflow", pos, "the snapshot doesn't hold the subflow once")
				return
			}
			first := "older"
			if older == chgNone {
				first = "newer"
			}
			is(e, "Subflow.TaskId", s.regs["w:host of the "+first], "the task that hosts the subflow")
			base = s.at(e, "Subflow.SnapshotBase")
		}
		if base == nil {
			bad(x, s, "base", pos, "the snapshot has no state of the flow")
			return
		}
		switch kind {
		case "status":
			want := s.regs["w:status of the flow "+last]
			if newer == chgDelete {
				want = s.regs["w:status of the flow older"]
			}
			is(base, "SnapshotBase.Status", want, "the last status of the flow")
		case "uri":
			is(base, "SnapshotBase.FlowURI", s.regs["w:uri of the older"], "the URI of the flow")
		case "attr":
			m := s.at(base, "SnapshotBase.Attrs")
			k := s.get("w:key")
			if m == nil || m == tNil || s.decide(x.mapHas(s, m, k)) != Yes || s.heap[mkKey(m, k)] == nil || s.eq(s.heap[mkKey(m, k)], s.get("w:"+last+" value")) != Yes {
				bad(x, s, "value", pos, "the snapshot doesn't hold the last value of each attribute")
			} else if _, ok := w.cols[m]; ok {
				bad(x, s, "shared", pos, "the snapshot shares the attributes of a recorded step")
			}
		case "task", "link":
			T := map[string]string{"task": "Task", "link": "Link"}[kind]
			b := s.at(base, "SnapshotBase."+T+"s")
			n := withID(x, s, b, T+".Id", s.get("w:key"))
			ct := newer
			if ct == chgNone {
				ct = older
			}
			if ct == chgDelete {
				if n != 0 {
					bad(x, s, "removed", pos, "the snapshot holds a %s that was removed", what)
				}
				return
			}
			e := s.regs["w:entry"]
			if n != 1 || holds(x, s, b, e) != 1 {
				bad(x, s, "missing", pos, "the snapshot doesn't hold the %s once", what)
				return
			}
			is(e, T+".Status", s.get("w:"+last+" status"), "the last status of the "+kind)
		case "queue":
			b := s.at(r, "Snapshot.WorkQueue")
			check := func(item string, ct int64, from string) {
				n := withID(x, s, b, "WorkItem.ID", s.get("w:id of the "+item+" item"))
				if ct == chgDelete {
					if n != 0 {
						bad(x, s, "removed", pos, "the snapshot holds a work item that was removed")
					}
					return
				}
				e := s.regs["w:entry "+item]
				if n != 1 || holds(x, s, b, e) != 1 {
					bad(x, s, "missing", pos, "the snapshot doesn't hold each queued work item once")
					return
				}
				is(e, "WorkItem.SubflowId", s.regs["w:subflow of the "+item+" "+from], "the flow of the work item")
				is(e, "WorkItem.TaskId", s.regs["w:task of the "+item+" "+from], "the task of the work item")
			}
			ct := newer
			if ct == chgNone {
				ct = older
			}
			check("first", ct, last)
			check("second", chgAdd, last)
			if ct != chgDelete && s.num("order") != -1 {
				bad(x, s, "order", pos, "the snapshot doesn't hold the work items in the order of the queue")
			}
		}
	}
	x := newExec(p, "steps", h)
	x.roots = append(x.roots, w.objs...)
	x.Run(fn, s, []*Term{w.flowID, w.steps})
	c.absorb(x, nil)
	for k, v := range x.counts {
		tot[k] += v
	}
}

func stepsCheck(c *Ctx) {
	tot := map[string]int{}
	for _, rest := range []bool{false, true} {
		for _, inSub := range []bool{false, true} {
			for _, kind := range []string{"status", "attr"} {
				stepsRun(c, kind, inSub, rest, chgAdd, chgUpdate, false, tot)
				stepsRun(c, kind, inSub, rest, chgAdd, chgNone, false, tot)
			}
			if !rest {
				stepsRun(c, "status", inSub, rest, chgAdd, chgDelete, false, tot)
			}
			stepsRun(c, "attr", inSub, rest, chgAdd, chgUpdate, true, tot)
			stepsRun(c, "uri", inSub, rest, chgAdd, chgUpdate, false, tot)
			for _, kind := range []string{"task", "link"} {
				for _, o := range []int64{chgNone, chgAdd, chgUpdate, chgDelete} {
					for _, n := range []int64{chgAdd, chgUpdate, chgDelete} {
						stepsRun(c, kind, inSub, rest, o, n, false, tot)
					}
				}
			}
		}
		stepsRun(c, "queue", false, rest, chgAdd, chgNone, false, tot)
		stepsRun(c, "queue", false, rest, chgAdd, chgDelete, false, tot)
		stepsRun(c, "queue", false, rest, chgDelete, chgAdd, false, tot)
		stepsRun(c, "queue", false, rest, chgNone, chgAdd, true, tot)
		stepsRun(c, "queue", false, rest, chgNone, chgDelete, true, tot)
	}
	c.must("snapshots built", tot["snapshots"], 100)
	c.must("entries of snapshots", tot["entries"], 50)
}

var _ *ssa.Function

func init() {
	register("C32", stepsCheck, "the last recorded change of every part of a flow decides about it in the snapshot built from the steps")
}
