package main

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: what is written when a flow instance is serialized is what is read when it is restored. Writing and reading are
// analysed separately; the keys under which the parts are written say what is found when they are read.

// serType is a type with its own serialized form.
type serType struct {
	name  string
	parts []serPart
}

type serPart struct {
	kind  string // what to track
	inSub bool
}

var serTypes = []serType{
	{"TaskInst", []serPart{{"task", false}}},
	{"LinkInst", []serPart{{"link", false}}},
	{"Instance", []serPart{{"base", true}, {"attr", true}, {"task", true}, {"link", true}}},
	{"IndependentInstance", []serPart{{"base", false}, {"attr", false}, {"task", false}, {"link", false}, {"subflow", false}, {"queue", false}, {"queue", true}}},
}

// content is a part of the state in the serialized form.
type content struct {
	name string
	// holds: the value is the content (nil: not the part that is followed)
	holds func(x *Exec, s *State, v *Term) bool
	// fill: the value that is read
	fill func(x *Exec, s *State, t types.Type) *Term
	// restored: the state has it
	restored func(x *Exec, s *State) bool
}

// collection is what the tracked part is read into.
func (w *serWorld) many(x *Exec, t types.Type, items ...*Term) *Term {
	return mkBag(append([]*Term{tStar}, items...))
}

type serWorld struct {
	*snapWorld
	recv  *Term
	typ   string
	read  *Term // the list the tracked part is in when it is read
	items []*Term
}

func (w *serWorld) contents(s *State) []content {
	scalar := func(name, f string, o func(s *State) *Term, reg string) content {
		return content{name,
			func(x *Exec, s *State, v *Term) bool { return v != nil && s.eq(v, s.get(reg)) == Yes },
			func(x *Exec, s *State, t types.Type) *Term { return s.get(reg) },
			func(x *Exec, s *State) bool {
				b := o(s)
				if b == nil {
					return false
				}
				v := s.at(b, f)
				return v != nil && s.eq(v, s.get(reg)) == Yes
			}}
	}
	embedded := func(s *State) *Term {
		if w.typ == "IndependentInstance" {
			return s.at(w.recv, "IndependentInstance.Instance")
		}
		return w.recv
	}
	self := func(s *State) *Term { return w.recv }
	list := func(name, f string) content {
		return content{name,
			func(x *Exec, s *State, v *Term) bool {
				if v == nil || v == tNil {
					return false
				}
				_, el, _ := x.elements(s, v)
				n := 0
				for _, e := range el {
					if s.eq(e, s.get("w:item")) == Yes {
						n++
					}
				}
				return n == 1
			},
			func(x *Exec, s *State, t types.Type) *Term { return w.many(x, t, s.get("w:item")) },
			func(x *Exec, s *State) bool { return w.inMap(x, s, s.at(embedded(s), f)) }}
	}
	switch w.typ {
	case "TaskInst":
		return []content{
			scalar("the id of the task", "TaskInst.taskID", self, "w:key"),
			scalar("the status of the task", "TaskInst.status", self, "w:status of the task"),
		}
	case "LinkInst":
		return []content{
			scalar("the id of the link", "LinkInst.id", self, "w:key"),
			scalar("the status of the link", "LinkInst.status", self, "w:status of the link"),
		}
	}
	var cs []content
	if w.typ == "IndependentInstance" {
		cs = append(cs, scalar("the id of the flow", "IndependentInstance.id", self, "w:id of the flow"))
	} else {
		cs = append(cs, scalar("the id of the subflow", "Instance.subflowId", self, "w:subflow id"))
	}
	cs = append(cs,
		scalar("the status of the flow", "Instance.status", embedded, "w:status of "+w.of.op),
		scalar("the URI of the flow", "Instance.flowURI", embedded, "w:flow of "+w.of.op))
	switch w.kind {
	case "attr":
		cs = append(cs, content{"the attributes",
			func(x *Exec, s *State, v *Term) bool { return w.inMap(x, s, v) },
			func(x *Exec, s *State, t types.Type) *Term { return w.coll },
			func(x *Exec, s *State) bool { return w.inMap(x, s, s.at(embedded(s), "Instance.attrs")) }})
	case "task":
		cs = append(cs, list("the tasks", "Instance.taskInsts"))
	case "link":
		cs = append(cs, list("the links", "Instance.linkInsts"))
	case "subflow":
		c := list("the subflows", "")
		c.restored = func(x *Exec, s *State) bool {
			m := s.at(w.recv, "IndependentInstance.subflows")
			if m == nil || !w.inMap(x, s, m) {
				return false
			}
			v := s.at(w.recv, "IndependentInstance.subflowCtr")
			return v != nil && s.less(v, s.get("w:key")) == No
		}
		cs = append(cs, c)
	case "queue":
		if w.inSub {
			cs = append(cs, content{"the subflows",
				nil,
				func(x *Exec, s *State, t types.Type) *Term { return w.many(x, t, s.get("w:subflow")) },
				func(x *Exec, s *State) bool { return true }})
		} else {
			cs = append(cs, content{"the tasks",
				nil,
				func(x *Exec, s *State, t types.Type) *Term { return w.many(x, t, s.get("w:task first")) },
				func(x *Exec, s *State) bool { return true }})
		}
		cs = append(cs, content{"the queued work items",
			func(x *Exec, s *State, v *Term) bool {
				if v == nil || v == tNil {
					return false
				}
				_, el, _ := x.elements(s, v)
				n := 0
				for _, e := range el {
					if s.eq(e, s.get("w:item first")) == Yes || s.eq(e, s.get("w:item second")) == Yes {
						n++
					}
				}
				a, b := s.regs["#at first"], s.regs["#at second"]
				return n == 2 && (s.num("order") == 1 || a != nil && b != nil && s.less(a, b) == Yes)
			},
			func(x *Exec, s *State, t types.Type) *Term {
				return w.many(x, t, s.get("w:item first"), s.get("w:item second"))
			},
			func(x *Exec, s *State) bool { return s.num("queued") == 3 }})
	}
	return cs
}

// inMap: the map has the tracked entry.
func (w *serWorld) inMap(x *Exec, s *State, m *Term) bool {
	if m == nil || m == tNil {
		return false
	}
	k := s.get("w:key")
	v := s.heap[mkKey(m, k)]
	return s.decide(x.mapHas(s, m, k)) == Yes && v != nil && s.eq(v, s.get("w:item")) == Yes
}

// jsonKey is the key of a field in the serialized form, "" if it is left out.
func jsonKey(st *types.Struct, i int) string {
	f := st.Field(i)
	if !f.Exported() {
		return ""
	}
	k := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
	if k == "-" {
		return ""
	}
	if k == "" {
		k = f.Name()
	}
	return strings.ToLower(k) // reading doesn't distinguish the case
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	st, _ := t.Underlying().(*types.Struct)
	return st, ptr
}

// keysOf are the contents by the key under which they are written.
type keysOf map[string]map[string]bool

func newSerWorld(c *Ctx, s *State, typ string, pt serPart, rest bool) *serWorld {
	w := &serWorld{snapWorld: newSnapWorld(c, s, pt.kind, pt.inSub, rest), typ: typ}
	switch typ {
	case "TaskInst", "LinkInst":
		w.recv = w.item
	case "Instance":
		w.recv = w.sub
	default:
		w.recv = w.ind
		if pt.kind == "queue" {
			w.of = w.inst
		}
	}
	if pt.kind == "subflow" {
		w.coll, w.key, w.item = w.subs, w.subID, w.sub
		s.regs["w:key"], s.regs["w:item"], s.regs["w:coll"] = w.subID, w.sub, w.subs
	}
	return w
}

// marshalRun explores how a type is written.
func marshalRun(c *Ctx, typ string, pt serPart, rest bool, keys keysOf, tot map[string]int) {
	fn := c.P.Method("instance", typ, "MarshalJSON")
	s := newState()
	w := newSerWorld(c, s, typ, pt, rest)
	data := tm.named(KObj, "the serialized form", nil)
	s.regs["w:data"] = data
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "writing "+typ+": "+id, pos, format, args...)
	}
	h := w.hooks()
	h.Append = w.appended
	h.Store = func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
		if a.kind == KAddr && a.op == "[]" && w.kind == "queue" {
			for _, n := range []string{"first", "second"} {
				if s.eq(v, s.get("w:item "+n)) == Yes {
					s.regs["#at "+n] = a.args[1]
				}
			}
		}
		return true
	}
	h.Call = func(x *Exec, s *State, cl *Call) (Action, []Outcome) {
		if cl.ID == "encoding/json.Marshal" || cl.ID == "encoding/json.MarshalIndent" {
			v := cl.Args[0]
			t := dynOf(s, v)
			if mi, ok := cl.Instr.Common().Args[0].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			st, ptr := structOf(t)
			x.count("forms written")
			if st == nil {
				bad(x, s, "form", cl.Instr.Pos(), "what is serialized isn't known to be the state of the flow")
				return ActPure, nil
			}
			for _, ct := range w.contents(s) {
				if ct.holds == nil {
					continue
				}
				n := 0
				for i := 0; i < st.NumFields(); i++ {
					k := jsonKey(st, i)
					if k == "" {
						continue
					}
					var fv *Term
					if ptr {
						fv = s.at(v, fieldSel(t, i))
					} else {
						fv = fieldOf(v, i, t)
					}
					if !ct.holds(x, s, fv) {
						continue
					}
					n++
					if keys[ct.name] == nil {
						keys[ct.name] = map[string]bool{}
					}
					keys[ct.name][k] = true
				}
				x.count("parts written")
				if n == 0 {
					bad(x, s, ct.name, cl.Instr.Pos(), "the serialized form doesn't have %s", ct.name)
				}
			}
			return ActModel, []Outcome{
				{Mod: func(n *State) bool { n.regs["$res"] = mkTuple(data, tNil); n.setNum("written", 1); return true }},
				{Mod: func(n *State) bool {
					n.regs["$res"] = mkTuple(tNil, newErr(x, n, "marshal error"))
					n.setNum("failed", 1)
					return true
				}}}
		}
		return w.call(x, s, cl)
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 2 {
			return
		}
		switch {
		case s.eq(res[1], tNil) != Yes:
			if !s.is("failed") {
				bad(x, s, "error", pos, "serializing fails although nothing went wrong")
			}
		case s.is("failed") || res[0] != data:
			bad(x, s, "result", pos, "the result isn't the serialized form of the state")
		}
	}
	x := newExec(c.P, "serialize", h)
	x.roots = append(x.roots, w.roots()...)
	x.Run(fn, s, []*Term{w.recv})
	c.absorb(x, nil)
	for k, v := range x.counts {
		tot[k] += v
	}
}

// unmarshalRun explores how a type is read.
func unmarshalRun(c *Ctx, typ string, pt serPart, rest bool, keys keysOf, tot map[string]int) {
	fn := c.P.Method("instance", typ, "UnmarshalJSON")
	s := newState()
	w := newSerWorld(c, s, typ, pt, rest)
	p := c.P
	data := tm.named(KObj, "the serialized form", nil)
	// the receiver is new
	recv := tm.named(KObj, "restored "+typ, p.ptrTo("instance", typ))
	w.recv = recv
	if w.kind == "queue" {
		for _, n := range []string{"first", "second"} {
			t := tm.named(KObj, "task of the "+n+" item, restored", p.ptrTo("instance", "TaskInst"))
			s.heap[fld(t, "TaskInst.taskID")] = s.get("w:task of the " + n + " item")
			s.regs["w:task "+n] = t
			s.heap[fld(s.get("w:item "+n), "WorkItem.taskInst")] = tNil
		}
		// the second item is for any task
		if w.inSub {
			s.heap[fld(s.get("w:item first"), "WorkItem.SubFlowID")] = w.subID
			m := tm.named(KObj, "restored tasks of the subflow", nil)
			s.heap[fld(w.sub, "Instance.taskInsts")] = m
			s.heap[mkHas(m, s.get("w:task of the first item"))] = tTrue
			s.heap[mkKey(m, s.get("w:task of the first item"))] = s.get("w:task first")
		} else {
			s.heap[fld(s.get("w:item first"), "WorkItem.SubFlowID")] = tZero
		}
		s.set("queued", tZero)
	}
	s.regs["w:data"] = data
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "reading "+typ+": "+id, pos, format, args...)
	}
	h := w.hooks()
	imm := h.Immutable
	h.Immutable = func(f string) bool { return imm(f) || f == "WorkItem.taskInst" }
	newElem := h.NewElem
	h.NewElem = func(x *Exec, s *State, cc, k, v *Term) {
		newElem(x, s, cc, k, v)
		if v == nil || v.typ == nil {
			return
		}
		differ := func(f string, other *Term) {
			a := x.fresh("another id", nil)
			s.heap[fld(v, f)] = a
			s.neq[ordered(a, other)] = true
		}
		switch {
		case hasPtr(v.typ, "TaskInst"):
			switch w.kind {
			case "task":
				differ("TaskInst.taskID", s.get("w:key"))
			case "queue":
				differ("TaskInst.taskID", s.get("w:task of the first item"))
			}
		case hasPtr(v.typ, "LinkInst"):
			if w.kind == "link" {
				differ("LinkInst.id", s.get("w:key"))
			}
		case hasPtr(v.typ, "Instance"):
			if w.kind == "subflow" || w.kind == "queue" && w.inSub {
				differ("Instance.subflowId", w.subID)
			}
		}
		s.neq[ordered(v, tNil)] = true
	}
	h.Call = func(x *Exec, s *State, cl *Call) (Action, []Outcome) {
		switch {
		case cl.ID == "encoding/json.Unmarshal":
			v := cl.Args[1]
			t := dynOf(s, v)
			st, ptr := structOf(t)
			x.count("forms read")
			if st == nil || !ptr || cl.Args[0] != data {
				bad(x, s, "form", cl.Instr.Pos(), "what is restored isn't known to be the serialized form")
				return ActPure, nil
			}
			return ActModel, []Outcome{
				{Mod: func(n *State) bool {
					n.setNum("failed", 1)
					n.regs["$res"] = newErr(x, n, "unmarshal error")
					return true
				}},
				{Mod: func(n *State) bool {
					for i := 0; i < st.NumFields(); i++ {
						ft := st.Field(i).Type()
						a := mkAddr(v, fieldSel(t, i))
						delete(n.heap, a)
						k := jsonKey(st, i)
						for _, ct := range w.contents(n) {
							if k != "" && keys[ct.name][k] {
								n.heap[a] = ct.fill(x, n, ft)
								x.count("parts read")
							}
						}
						if n.heap[a] != nil {
							continue
						}
						switch ft.Underlying().(type) {
						case *types.Slice:
							n.heap[a] = tNil
							if rest {
								n.heap[a] = mkBag([]*Term{tStar})
							}
						case *types.Map:
							n.heap[a] = tNil
						default:
							n.heap[a] = x.fresh("read", ft)
						}
					}
					n.regs["$res"] = tNil
					return true
				}}}
		case strings.HasSuffix(cl.ID, "support.NewSyncQueue"):
			q := nonNilResult(x, s, cl.Sig.Results().At(0).Type(), "new queue")
			s.heap[fld(q, "SyncQueue.List")] = nonNilResult(x, s, nil, "new list")
			return ActModel, []Outcome{{Res: q}}
		case strings.HasSuffix(cl.ID, "SyncQueue.Push"), strings.HasSuffix(cl.ID, "list.List.PushFront"), strings.HasSuffix(cl.ID, "list.List.PushBack"):
			if w.kind != "queue" || len(cl.Args) == 0 {
				return ActPure, nil
			}
			v := cl.Args[len(cl.Args)-1]
			for i, n := range []string{"first", "second"} {
				if s.eq(v, s.get("w:item "+n)) != Yes {
					continue
				}
				m := s.num("queued")
				front := !strings.HasSuffix(cl.ID, "PushBack")
				bit := int64(1) << uint(i)
				if m&bit != 0 {
					bad(x, s, "twice", cl.Instr.Pos(), "a work item is queued twice")
				}
				if m != 0 && m != 4 && front != (i == 0) {
					m |= 4 // the wrong order
				}
				s.setNum("queued", m|bit)
			}
			return ActPure, nil
		}
		return w.call(x, s, cl)
	}
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 1 {
			return
		}
		if s.eq(res[0], tNil) != Yes {
			if !s.is("failed") {
				bad(x, s, "error", pos, "restoring fails although the serialized form is valid")
			}
			return
		}
		if s.is("failed") {
			bad(x, s, "error", pos, "a serialized form that can't be read is not reported")
			return
		}
		for _, ct := range w.contents(s) {
			x.count("parts restored")
			if !ct.restored(x, s) {
				bad(x, s, ct.name, pos, "a restored instance doesn't have %s", ct.name)
			}
		}
		if w.kind == "queue" {
			if v := s.at(s.get("w:item first"), "WorkItem.taskInst"); v == nil || s.eq(v, s.get("w:task first")) != Yes {
				bad(x, s, "task", pos, "a restored work item isn't for the restored task of its flow")
			}
			for _, n := range []string{"first", "second"} {
				v := s.at(recv, "IndependentInstance.wiCounter")
				if v == nil || s.less(v, s.get("w:id of the "+n+" item")) != No {
					bad(x, s, "counter", pos, "the ids of new work items don't continue after those of the restored ones")
				}
			}
		}
	}
	x := newExec(p, "restore", h)
	x.roots = append(x.roots, w.roots()...)
	x.roots = append(x.roots, recv)
	x.Run(fn, s, []*Term{recv, data})
	c.absorb(x, nil)
	for k, v := range x.counts {
		tot[k] += v
	}
}

// plainForm: the fields of a type without its own serialized form are all written and read.
func plainForm(c *Ctx, pkg, name string, skip ...string) int {
	n := c.P.Named(pkg, name)
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
			if f, ok := o.(*types.Func); ok && f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), flowMod) {
				c.report("form", pkg+"."+name, c.P.pos(n.Obj().Pos()), "%s has its own serialized form, which isn't known to hold all of it", name)
			}
		}
	}
	fields := 0
	var walk func(st *types.Struct, seen map[string]bool)
	walk = func(st *types.Struct, seen map[string]bool) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			skipped := false
			for _, k := range skip {
				skipped = skipped || k == f.Name()
			}
			if skipped {
				continue
			}
			if f.Embedded() && reflect.StructTag(st.Tag(i)).Get("json") == "" {
				if e, _ := structOf(f.Type()); e != nil {
					walk(e, seen)
					continue
				}
			}
			fields++
			k := jsonKey(st, i)
			switch {
			case k == "":
				c.report("form", pkg+"."+name+"."+f.Name(), c.P.pos(f.Pos()), "%s of %s isn't serialized", f.Name(), name)
			case seen[k]:
				c.report("form", pkg+"."+name+"."+f.Name(), c.P.pos(f.Pos()), "two fields of %s are serialized with the key %s", name, k)
			}
			seen[k] = true
		}
	}
	if st, _ := structOf(n); st != nil {
		walk(st, map[string]bool{})
	}
	return fields
}

func serCheck(c *Ctx) {
	tot := map[string]int{}
	for _, t := range serTypes {
		keys := keysOf{}
		for _, pt := range t.parts {
			for _, rest := range []bool{false, true} {
				marshalRun(c, t.name, pt, rest, keys, tot)
			}
		}
		used := map[string]string{}
		for _, name := range sortedKeys(keys) {
			for k := range keys[name] {
				if o := used[k]; o != "" && o != name {
					fn := c.P.Method("instance", t.name, "MarshalJSON")
					c.report("keys", t.name+" "+k, c.P.pos(fn.Pos()), "%s and %s are written with the same key %s", o, name, k)
				}
				used[k] = name
			}
		}
		for _, pt := range t.parts {
			for _, rest := range []bool{false, true} {
				unmarshalRun(c, t.name, pt, rest, keys, tot)
			}
		}
	}
	n := plainForm(c, "instance", "WorkItem", "taskInst")
	for _, t := range []string{"Snapshot", "Subflow", "WorkItem", "Task", "Link", "Step", "FlowState", "FlowInfo"} {
		n += plainForm(c, "state", t)
	}
	for _, t := range []string{"Flow", "Task", "Link", "Queue"} {
		n += plainForm(c, "state/change", t)
	}
	c.must("fields of serialized types", n, 30)
	c.must("parts written", tot["parts written"], 40)
	c.must("parts read", tot["parts read"], 20)
	c.must("parts restored", tot["parts restored"], 40)
}

func sortedKeys(k keysOf) []string {
	var r []string
	for n := range k {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func init() {
	register("C31", serCheck, "every part of a flow instance that is written is read back into the same place")
}
