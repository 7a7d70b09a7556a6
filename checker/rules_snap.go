package main

import (
	"go/token"
	"go/types"
	"strings"
)

// A snapshot is the whole state of a flow instance (C30), and so is its serialized form, from which it can be restored
// (C31). Each run of the analysis follows one tracked part of the state; the rest is arbitrary.

// snapWorld is a flow instance with a tracked part.
type snapWorld struct {
	p     *Program
	c     *Ctx
	kind  string // attr, task, link, subflow, queue, base
	inSub bool   // the part belongs to a subflow
	ind   *Term
	inst  *Term // the embedded instance of the flow
	of    *Term // the instance the part belongs to
	key   *Term
	item  *Term // what is in the map or list
	item2 *Term // a second one, behind it
	val   *Term // its status, or value
	sub   *Term
	subID *Term
	host  *Term
	coll  *Term // the map
	subs  *Term // the map of the subflows
	list  *Term

	ignored []*Term
}

func (p *Program) ptrTo(pkg, name string) types.Type { return types.NewPointer(p.Named(pkg, name)) }

func newSnapWorld(c *Ctx, s *State, kind string, inSub, rest bool) *snapWorld {
	p := c.P
	w := &snapWorld{p: p, c: c, kind: kind, inSub: inSub}
	str, num := types.Typ[types.String], types.Typ[types.Int]
	w.ind = tm.named(KObj, "flow instance", p.ptrTo("instance", "IndependentInstance"))
	w.inst = tm.named(KObj, "main instance", p.ptrTo("instance", "Instance"))
	w.sub = tm.named(KObj, "the subflow", p.ptrTo("instance", "Instance"))
	w.host = tm.named(KObj, "the host task", p.ptrTo("instance", "TaskInst"))
	w.subID = tm.named(KSym, "id of the subflow", num)
	s.heap[fld(w.ind, "IndependentInstance.Instance")] = w.inst
	set := func(o *Term, f, name string, t types.Type) *Term {
		v := tm.named(KSym, name, t)
		s.heap[fld(o, f)] = v
		s.regs["w:"+name] = v
		return v
	}
	for _, o := range []*Term{w.inst, w.sub} {
		set(o, "Instance.flowURI", "flow of "+o.op, str)
		set(o, "Instance.status", "status of "+o.op, p.Named("model", "FlowStatus"))
	}
	set(w.ind, "IndependentInstance.id", "id of the flow", str)
	for _, a := range []*Term{fld(w.inst, "Instance.lock"), fld(w.sub, "Instance.lock"), fld(w.ind, "IndependentInstance.subFlowLock"), fld(w.inst, "Instance.subFlowLock")} {
		if rest {
			s.heap[a] = tm.named(KObj, "lock "+a.op+a.args[0].op, nil)
		} else {
			s.heap[a] = tNil
		}
	}
	s.heap[fld(w.sub, "Instance.subflowId")] = w.subID
	s.addDiff(tZero, w.subID, -1)
	s.heap[fld(w.sub, "Instance.host")] = w.host
	set(w.host, "TaskInst.taskID", "id of the host task", str)
	w.of = w.inst
	if inSub {
		w.of = w.sub
	}
	if inSub || kind == "subflow" {
		w.subs = tm.named(KObj, "the subflows", nil)
		s.heap[fld(w.ind, "IndependentInstance.subflows")] = w.subs
		s.heap[fld(w.inst, "Instance.subflows")] = w.subs
		s.heap[mkHas(w.subs, w.subID)] = tTrue
		s.heap[mkKey(w.subs, w.subID)] = w.sub
		s.regs["w:subflow"], s.regs["w:subflow id"] = w.sub, w.subID
	}
	// what is in the other maps doesn't matter: rest says that there is something in each of them
	other := func(o *Term, f string) {
		if !rest {
			s.heap[fld(o, f)] = tNil
			return
		}
		m := tm.named(KObj, "other "+f+" of "+o.op, nil)
		s.heap[fld(o, f)] = m
		w.ignored = append(w.ignored, m)
	}
	for _, o := range []*Term{w.inst, w.sub} {
		for _, f := range []string{"Instance.attrs", "Instance.taskInsts", "Instance.linkInsts"} {
			other(o, f)
		}
	}
	if w.subs == nil {
		other(w.ind, "IndependentInstance.subflows")
	}
	own := func(f string, kt types.Type, item *Term) {
		w.coll = tm.named(KObj, "the "+kind+"s", nil)
		w.key = tm.named(KSym, "id of the "+kind, kt)
		w.item = item
		s.heap[fld(w.of, f)] = w.coll
		s.heap[mkHas(w.coll, w.key)] = tTrue
		s.heap[mkKey(w.coll, w.key)] = item
		s.regs["w:coll"], s.regs["w:key"], s.regs["w:item"] = w.coll, w.key, item
	}
	switch kind {
	case "attr":
		own("Instance.attrs", str, tm.named(KSym, "value of the attr", nil))
		w.val = w.item
	case "task":
		own("Instance.taskInsts", str, tm.named(KObj, "the task", p.ptrTo("instance", "TaskInst")))
		w.val = set(w.item, "TaskInst.status", "status of the task", p.Named("model", "TaskStatus"))
		s.heap[fld(w.item, "TaskInst.taskID")] = w.key
		s.heap[fld(w.item, "TaskInst.flowInst")] = w.of
		def := tm.named(KObj, "definition of the task", nil)
		s.heap[fld(w.item, "TaskInst.task")] = def
		s.heap[fld(def, "Task.id")] = w.key
	case "link":
		own("Instance.linkInsts", num, tm.named(KObj, "the link", p.ptrTo("instance", "LinkInst")))
		w.val = set(w.item, "LinkInst.status", "status of the link", p.Named("model", "LinkStatus"))
		s.heap[fld(w.item, "LinkInst.id")] = w.key
		s.heap[fld(w.item, "LinkInst.flowInst")] = w.of
		def := tm.named(KObj, "definition of the link", nil)
		s.heap[fld(w.item, "LinkInst.link")] = def
		s.heap[fld(def, "Link.id")] = w.key
	case "queue":
		w.list = tm.named(KObj, "queued items", nil)
		q := tm.named(KObj, "queue", nil)
		s.heap[fld(w.ind, "IndependentInstance.workItemQueue")] = q
		s.heap[fld(q, "SyncQueue.List")] = w.list
		mk := func(n string) *Term {
			it := tm.named(KObj, n+" queued item", p.ptrTo("instance", "WorkItem"))
			el := tm.named(KObj, "element of the "+n+" queued item", nil)
			s.heap[fld(el, "Element.Value")] = it
			set(it, "WorkItem.ID", "id of the "+n+" item", num)
			set(it, "WorkItem.SubFlowID", "subflow of the "+n+" item", num)
			set(it, "WorkItem.TaskID", "task of the "+n+" item", str)
			s.regs["w:element "+n], s.regs["w:item "+n] = el, it
			return it
		}
		w.item, w.item2 = mk("first"), mk("second")
		s.neq[ordered(s.get("w:id of the first item"), s.get("w:id of the second item"))] = true
		s.set("walked", tZero)
	}
	return w
}

// otherSub is a subflow that isn't the tracked one.
func (w *snapWorld) otherSub(s *State, v, k *Term) {
	s.heap[fld(v, "Instance.subflowId")] = k
	for _, f := range []string{"Instance.attrs", "Instance.taskInsts", "Instance.linkInsts", "Instance.lock"} {
		s.heap[fld(v, f)] = tNil
	}
}

func (w *snapWorld) roots() []*Term {
	r := []*Term{w.ind, w.inst, w.sub, w.host}
	for _, t := range []*Term{w.item, w.item2, w.coll, w.subs, w.list} {
		if t != nil && t.kind == KObj {
			r = append(r, t)
		}
	}
	return r
}

// common is what reading the state shares: the entries of maps, and walking the queue.
func (w *snapWorld) hooks() Hooks {
	return Hooks{
		MaxStates: 60000,
		Enum:      func(t types.Type) []int64 { return nil },
		Immutable: func(f string) bool {
			for _, p := range []string{"$", "Instance.", "IndependentInstance.", "TaskInst.", "LinkInst.", "Element.", "SyncQueue.", "Task.id", "Link.id"} {
				if strings.HasPrefix(f, p) {
					return true
				}
			}
			return f == "WorkItem.ID" || f == "WorkItem.SubFlowID" || f == "WorkItem.TaskID" || f == "{}" || f == "?{}"
		},
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if t == nil {
				return nil
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Coll: func(s *State, c *Term) (k, e []*Term, others, ok bool) {
			switch {
			case w.subs != nil && c == w.subs:
				return []*Term{s.get("w:subflow id")}, []*Term{s.get("w:subflow")}, true, true
			case w.coll != nil && c == w.coll:
				return []*Term{s.get("w:key")}, []*Term{s.get("w:item")}, true, true
			}
			return nil, nil, false, false
		},
		NewElem: func(x *Exec, s *State, c, k, v *Term) {
			if c == s.heap[fld(w.ind, "IndependentInstance.subflows")] && c != w.subs {
				w.otherSub(s, v, k)
			}
			if c == w.coll && k != nil {
				s.neq[ordered(k, s.get("w:key"))] = true
			}
			if c == w.subs && k != nil {
				s.neq[ordered(k, s.get("w:subflow id"))] = true
				w.otherSub(s, v, k)
			}
		},
		IgnoreMap: func(s *State, m *Term) bool {
			for _, i := range w.ignored {
				if i == m {
					return true
				}
			}
			return false
		},
		MapLen: func(x *Exec, s *State, m *Term) *Term {
			for _, i := range w.ignored {
				if i == m {
					return mkInt(2) // more than none
				}
			}
			if m == w.coll || m == w.subs {
				n := tm.named(KSym, "number of "+m.op, types.Typ[types.Int])
				s.addDiff(tZero, n, -1)
				return n
			}
			return nil
		},
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		MayPanic:  func(c *Call) bool { return false },
		Before:    func(s *State, a, b *Term) bool { return w.item2 != nil && a == s.get("w:item first") },
		Call:      w.call,
	}
}

// walk: the results of asking for the next element of the queue; dir is 1 for forward.
func (w *snapWorld) walk(x *Exec, s *State, c *Call, dir int64, start bool) (Action, []Outcome) {
	n := s.num("walked")
	if start {
		n = 0
		s.set("dir", mkInt(dir))
		s.setNum("walked", 0)
	} else if s.num("dir") != dir {
		return ActPure, nil
	}
	names := []string{"first", "second"}
	if dir < 0 {
		names = []string{"second", "first"}
	}
	t := c.Sig.Results().At(0).Type()
	other := Outcome{Mod: func(st *State) bool {
		e := nonNilResult(x, st, t, "element")
		v := nonNilResult(x, st, w.p.ptrTo("instance", "WorkItem"), "other item")
		st.heap[fld(e, "Element.Value")] = v
		st.regs["$res"] = e
		return true
	}}
	if n < 2 {
		return ActModel, []Outcome{other, {Mod: func(st *State) bool {
			st.inc("walked")
			st.regs["$res"] = st.get("w:element " + names[n])
			return true
		}}}
	}
	return ActModel, []Outcome{other, {Res: tNil}}
}

func (w *snapWorld) call(x *Exec, s *State, c *Call) (Action, []Outcome) {
	if w.kind == "queue" {
		switch c.ID {
		case "container/list.List.Front":
			return w.walk(x, s, c, 1, true)
		case "container/list.List.Back":
			return w.walk(x, s, c, -1, true)
		case "container/list.Element.Next":
			return w.walk(x, s, c, 1, false)
		case "container/list.Element.Prev":
			return w.walk(x, s, c, -1, false)
		}
	}
	if c.Builtin == "" && c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
		return ActInline, nil
	}
	if a, o := stdCall(x, s, c); a != ActDefault {
		return a, o
	}
	if c.Builtin == "" {
		return ActPure, nil
	}
	return ActDefault, nil
}

// appended notes in which order the entries of the first and the second item are put in a list.
func (w *snapWorld) appended(x *Exec, s *State, c *Call) {
	if len(c.Args) < 2 {
		return
	}
	in := func(b *Term, reg string) bool {
		e := s.regs[reg]
		if e == nil || b == tNil {
			return false
		}
		_, el, _ := x.elements(s, b)
		for _, a := range el {
			if a == e {
				return true
			}
		}
		return false
	}
	a, b := c.Args[0], c.Args[1]
	for _, r := range []string{"w:entry ", "w:item "} {
		if in(a, r+"first") && in(b, r+"second") {
			s.set("order", mkInt(1))
		}
		if in(a, r+"second") && in(b, r+"first") {
			s.set("order", mkInt(-1))
		}
	}
}

func snapshotCheck(c *Ctx) {
	tot := map[string]int{}
	for _, kind := range []string{"base", "attr", "task", "link"} {
		for _, inSub := range []bool{false, true} {
			snapshotRun(c, kind, inSub, false, tot)
			snapshotRun(c, kind, inSub, true, tot)
		}
	}
	for _, rest := range []bool{false, true} {
		snapshotRun(c, "subflow", false, rest, tot)
		snapshotRun(c, "queue", false, rest, tot)
	}
	c.must("snapshots taken", tot["snapshots"], 10)
	c.must("entries of snapshots", tot["entries"], 8)
}

// snapshotRun explores taking a snapshot with one tracked part of the state.
func snapshotRun(c *Ctx, kind string, inSub, rest bool, tot map[string]int) {
	p := c.P
	fn := p.Method("instance", "IndependentInstance", "Snapshot")
	s := newState()
	w := newSnapWorld(c, s, kind, inSub, rest)
	what := map[string]string{"base": "flow", "attr": "attribute", "task": "task", "link": "link", "subflow": "subflow", "queue": "work item"}[kind]
	if inSub {
		what += " of a subflow"
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "snapshot: "+id+" ("+what+")", pos, format, args...)
	}
	h := w.hooks()
	// an entry is a part of the snapshot with the id of something tracked
	h.Store = func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
		if a.kind != KAddr || len(a.args) != 1 {
			return true
		}
		if !isAlloc(x, a.args[0]) {
			if strings.HasPrefix(a.op, "Instance.") || strings.HasPrefix(a.op, "TaskInst.") || strings.HasPrefix(a.op, "LinkInst.") || strings.HasPrefix(a.op, "IndependentInstance.") {
				bad(x, s, a.op, pos, "taking a snapshot changes %s", a.op)
			}
			return true
		}
		mark := func(reg string, key *Term) {
			if key == nil || s.eq(v, key) != Yes {
				return
			}
			x.count("entries")
			if e := s.regs[reg]; e != nil && e != a.args[0] {
				bad(x, s, "twice", pos, "the snapshot holds the %s more than once", what)
			}
			s.regs[reg] = a.args[0]
		}
		switch a.op {
		case "Task.Id":
			if kind == "task" {
				mark("w:entry", s.get("w:key"))
			}
		case "Link.Id":
			if kind == "link" {
				mark("w:entry", s.get("w:key"))
			}
		case "Subflow.Id":
			if w.subs != nil {
				mark("w:entry of the subflow", s.get("w:subflow id"))
			}
		case "WorkItem.ID":
			if kind == "queue" {
				mark("w:entry first", s.get("w:id of the first item"))
				mark("w:entry second", s.get("w:id of the second item"))
			}
		}
		return true
	}
	h.Append = w.appended
	holds := func(s *State, o *Term, f string, e *Term) bool {
		b := s.at(o, f)
		if e == nil || b == nil || !b.isBag() {
			return false
		}
		n := 0
		for _, a := range b.args {
			if !isMany(a) && s.eq(a, e) == Yes {
				n++
			}
		}
		return n == 1
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 1 {
			return
		}
		x.count("snapshots")
		r := res[0]
		is := func(o *Term, f string, want *Term, name string) {
			if v := s.at(o, f); v == nil || s.eq(v, want) != Yes {
				bad(x, s, f, pos, "the snapshot doesn't hold %s", name)
			}
		}
		base := s.at(r, "Snapshot.SnapshotBase")
		if base == nil {
			bad(x, s, "base", pos, "the snapshot has no state of the flow")
			return
		}
		is(r, "Snapshot.Id", s.get("w:id of the flow"), "the id of the flow")
		owner := w.inst
		if w.subs != nil {
			e := s.regs["w:entry of the subflow"]
			if !holds(s, r, "Snapshot.Subflows", e) {
				bad(x, s, "missing subflow", pos, "the snapshot doesn't hold each subflow once")
				return
			}
			is(e, "Subflow.TaskId", s.get("w:id of the host task"), "the task that hosts the subflow")
			if base = s.at(e, "Subflow.SnapshotBase"); base == nil {
				bad(x, s, "base", pos, "the snapshot has no state of the subflow")
				return
			}
			owner = w.sub
		}
		is(base, "SnapshotBase.FlowURI", s.get("w:flow of "+owner.op), "the URI of the flow")
		is(base, "SnapshotBase.Status", s.get("w:status of "+owner.op), "the status of the flow")
		switch kind {
		case "attr":
			m := s.at(base, "SnapshotBase.Attrs")
			if m == nil || m == tNil {
				bad(x, s, "missing", pos, "the snapshot doesn't hold each attribute of the flow")
				return
			}
			if m == w.coll {
				bad(x, s, "shared", pos, "the snapshot shares the attributes of the running flow")
				return
			}
			k := s.get("w:key")
			if s.decide(x.mapHas(s, m, k)) != Yes || s.heap[mkKey(m, k)] == nil || s.eq(s.heap[mkKey(m, k)], s.get("w:item")) != Yes {
				bad(x, s, "missing", pos, "the snapshot doesn't hold each attribute of the flow with its value")
			}
		case "task", "link":
			f, sf := "SnapshotBase.Tasks", "Task.Status"
			if kind == "link" {
				f, sf = "SnapshotBase.Links", "Link.Status"
			}
			e := s.regs["w:entry"]
			if !holds(s, base, f, e) {
				bad(x, s, "missing", pos, "the snapshot doesn't hold each %s once", what)
				return
			}
			is(e, sf, s.get("w:status of the "+kind), "the status of the "+kind)
		case "queue":
			for _, n := range []string{"first", "second"} {
				e := s.regs["w:entry "+n]
				if !holds(s, r, "Snapshot.WorkQueue", e) {
					bad(x, s, "missing", pos, "the snapshot doesn't hold each queued work item once")
					return
				}
				is(e, "WorkItem.SubflowId", s.get("w:subflow of the "+n+" item"), "the flow of the work item")
				is(e, "WorkItem.TaskId", s.get("w:task of the "+n+" item"), "the task of the work item")
			}
			if s.num("order") != 1 {
				bad(x, s, "order", pos, "the snapshot doesn't hold the work items in the order of the queue")
			}
		}
	}
	x := newExec(p, "snapshot", h)
	x.roots = append(x.roots, w.roots()...)
	x.Run(fn, s, []*Term{w.ind})
	c.absorb(x, nil)
	for k, v := range x.counts {
		tot[k] += v
	}
}

func init() {
	register("C30", snapshotCheck, "every part of the state of a flow instance reaches the snapshot exactly once, on every path")
}
