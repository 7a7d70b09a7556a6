package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The iterators of loops (C18): every element is visited once and in order, whatever the collection.

type iterType struct {
	named  *types.Named
	cursor string // selector of the position
	size   *Term
}

// iteratorTypes lists the implementations of the iterator interface.
func iteratorTypes(p *Program) (iface *types.Named, res []*types.Named) {
	iface = p.Named("model/simple", "Iterator")
	it := iface.Underlying().(*types.Interface)
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			if types.Implements(types.NewPointer(nt), it) {
				res = append(res, nt)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return iface, res
}

type iterModel struct {
	p    *Program
	t    *types.Named
	r, c *Term
	cur  *Term // address of the position
	vals map[string]*Term
	step string
	upd  bool
}

func (m *iterModel) hooks(c *Ctx) Hooks {
	return Hooks{
		Enum:      func(t types.Type) []int64 { return nil },
		Immutable: func(f string) bool { return f == "members" || f == "mklen" || strings.HasPrefix(f, "$") },
		Ignore:    func(f string) bool { return false },
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			switch c.ID {
			case "reflect.Value.Len":
				return ActModel, []Outcome{{Res: mkOp("rlen", c.all[0])}}
			case "reflect.Value.Index":
				return ActModel, []Outcome{{Res: mkOp("rindex", c.all[0], c.all[1])}}
			case "reflect.Value.Interface":
				return ActModel, []Outcome{{Res: mkOp("rval", c.all[0])}}
			}
			return stdCall(x, s, c)
		},
		Visit: func(x *Exec, s *State, c, k, v *Term) {
			if m.step == "new" {
				s.regs["#elem"] = addInt(s.get("#elem"), 1)
				s.regs["elem"] = k
			}
		},
		MapUpdate: func(x *Exec, s *State, mp, k, v *Term, pos token.Pos) {
			if m.step != "new" {
				x.report(s, m.name()+": changes", pos, "the collection of the iterator is changed while it is iterated")
				return
			}
			x.count("elements numbered")
			if s.eq(k, s.get("#upd")) != Yes || s.regs["elem"] == nil || s.eq(v, s.get("elem")) != Yes {
				x.report(s, m.name()+": numbering", pos, "the elements are not numbered one after the other from 0")
			}
			s.regs["#upd"] = addInt(s.get("#upd"), 1)
			delete(s.regs, "elem")
		},
		MapLen: func(x *Exec, s *State, mp *Term) *Term {
			if m.step == "new" && mp.kind == KObj {
				return s.get("#upd")
			}
			return nil
		},
		Store: func(x *Exec, s *State, a, v *Term, pos token.Pos) bool {
			if m.step != "next" && m.step != "new" {
				x.report(s, m.name()+": "+m.step+" changes", pos, "the iterator is changed by %s", m.step)
			}
			return true
		},
		Return: func(x *Exec, s *State, res []*Term, pos token.Pos) {
			x.count(m.step)
			x.splitBools(s, res, func(s *State, res []*Term) { m.check(x, s, res, pos) })
		},
		RootPanic: func(x *Exec, s *State, pos token.Pos) {},
	}
}

func (m *iterModel) name() string { return m.t.Obj().Name() }

func (m *iterModel) fields() *types.Struct { return m.t.Underlying().(*types.Struct) }

// sizes are the terms that stand for the number of elements of the collection.
func (m *iterModel) sizes(s *State) []*Term {
	var res []*Term
	st := m.fields()
	for i := 0; i < st.NumFields(); i++ {
		a := mkAddr(m.r, fieldSel(m.t, i))
		if a == m.cur {
			continue
		}
		v := m.vals[a.op]
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				res = append(res, v)
			}
		case *types.Slice, *types.Map:
			res = append(res, mkOp("len", v))
		case *types.Struct:
			res = append(res, mkOp("rlen", v))
		}
	}
	return res
}

// atPosition: the term is what the collection holds at the position.
func (m *iterModel) atPosition(s *State, t *Term) bool {
	if t == m.c || s.eq(t, m.c) == Yes {
		return true
	}
	if t.kind == KOp && (t.op == "rindex" && s.eq(t.args[1], m.c) == Yes || t.op == "rval" && m.atPosition(s, t.args[0])) {
		return true
	}
	for a, v := range s.heap {
		if v == t && a.kind == KAddr && (a.op == "[]" || a.op == "{}") && a.args[1] != t && m.atPosition(s, a.args[1]) {
			for _, fv := range m.vals {
				if fv == a.args[0] {
					return true
				}
			}
		}
	}
	return false
}

func (m *iterModel) check(x *Exec, s *State, res []*Term, pos token.Pos) {
	rep := func(construct, format string, args ...interface{}) {
		x.report(s, m.name()+": "+construct, pos, format, args...)
	}
	switch m.step {
	case "next", "HasNext":
		nxt := addInt(m.c, 1)
		if m.step == "next" {
			if v := s.heap[m.cur]; v == nil || s.eq(v, nxt) != Yes {
				rep("step", "the iterator does not advance by one element")
			}
		}
		yes := s.decide(res[0])
		fits := Maybe
		for _, sz := range m.sizes(s) {
			if t := s.less(nxt, sz); t != Maybe {
				fits = t
			} else if m.step == "HasNext" && (s.less(m.c, sz) == Yes || s.less(m.c, sz) == No) {
				// it may announce an element although there is none: the evaluation then finds none
				fits = s.less(m.c, sz)
			}
		}
		switch {
		case yes == Maybe:
			rep("answer", "the answer does not depend on the position and the size of the collection")
		case yes == Yes && fits != Yes:
			rep("too far", "a further element is announced although there may be none")
		case yes == No && fits != No:
			rep("too short", "the end is announced although there may be a further element")
		}
	case "Index":
		if s.eq(res[0], m.c) != Yes {
			rep("index", "the index is not the position of the iterator")
		}
	case "Key", "Value":
		if !m.atPosition(s, res[0]) {
			rep(m.step, "the %s is not the one at the position of the iterator", m.step)
		}
	case "new":
		o := res[0]
		if o.kind != KObj {
			return
		}
		if v := s.heap[mkAddr(o, m.cur.op)]; v == nil || s.eq(v, mkInt(-1)) != Yes {
			rep("first", "the iterator does not start before the first element")
		}
		st := m.fields()
		found := false
		for i := 0; i < st.NumFields(); i++ {
			sel := fieldSel(m.t, i)
			v := s.heap[mkAddr(o, sel)]
			for _, a := range m.vals {
				if v != nil && s.eq(v, a) == Yes {
					found = true
				}
			}
			if ft, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && ft.NumFields() > 0 {
				v := s.heap[mkAddr(mkAddr(o, sel), fieldSel(st.Field(i).Type(), 0))]
				for _, a := range m.vals {
					if types.Identical(a.typ, st.Field(i).Type()) && v == fieldOf(a, 0, st.Field(i).Type()) {
						found = true
					}
				}
			}
			if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok && isInt(mt.Key()) {
				if s.eq(s.get("#upd"), s.get("#elem")) != Yes {
					rep("numbering", "the iterator does not number every element")
				}
			}
		}
		if !found {
			rep("collection", "the iterator does not iterate over the collection it is created for")
		}
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func iterators(c *Ctx) {
	iface, its := iteratorTypes(c.P)
	if len(its) == 0 {
		anchorFail("no implementation of model/simple.Iterator found")
	}
	tot := map[string]int{}
	method := func(t *types.Named, n string) *ssa.Function {
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, iface.Obj().Pkg(), n)
		f, _ := obj.(*types.Func)
		if f == nil {
			anchorFail("%s has no method %s", t, n)
		}
		return c.P.SSA.FuncValue(f)
	}
	for _, t := range its {
		// the position is the integer field that advancing changes
		nf := method(t, "next")
		st := t.Underlying().(*types.Struct)
		cursor := -1
		for _, b := range nf.Blocks {
			for _, in := range b.Instrs {
				if sto, ok := in.(*ssa.Store); ok {
					if fa, ok := sto.Addr.(*ssa.FieldAddr); ok && isInt(st.Field(fa.Field).Type()) {
						cursor = fa.Field
					}
				}
			}
		}
		if cursor < 0 {
			// it advances by a helper: the integer field that the index reports
			for _, b := range method(t, "Index").Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && isInt(st.Field(fa.Field).Type()) {
						cursor = fa.Field
					}
				}
			}
		}
		if cursor < 0 {
			anchorFail("no position found in the iterator %s", t)
		}
		for _, n := range []string{"next", "HasNext", "Index", "Key", "Value"} {
			m := &iterModel{p: c.P, t: t, step: n, vals: map[string]*Term{}}
			m.r = tm.named(KObj, "iterator", types.NewPointer(t))
			m.c = tm.named(KSym, "position", types.Typ[types.Int])
			s := newState()
			for i := 0; i < st.NumFields(); i++ {
				a := mkAddr(m.r, fieldSel(t, i))
				if i == cursor {
					m.cur = a
					s.heap[a] = m.c
					continue
				}
				var v *Term
				if ft, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
					var fs []*Term
					for j := 0; j < ft.NumFields(); j++ {
						fs = append(fs, tm.named(KSym, st.Field(i).Name()+"."+ft.Field(j).Name(), ft.Field(j).Type()))
						s.heap[mkAddr(a, fieldSel(st.Field(i).Type(), j))] = fs[j]
					}
					v = mkTuple(fs...)
				} else {
					v = tm.named(KSym, st.Field(i).Name(), st.Field(i).Type())
					s.heap[a] = v
					if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
						l := mkOp("len", v)
						s.heap[mkAddr(v, "$maplen")] = l
						s.addDiff(tZero, l, 0)
					}
				}
				m.vals[a.op] = v
			}
			x := newExec(c.P, "C18", m.hooks(c))
			x.Run(method(t, n), s, []*Term{m.r})
			for k, v := range x.counts {
				tot[k] += v
			}
			c.absorb(x, func(string) bool { return true })
		}
		// constructors
		for _, fn := range c.P.Funcs {
			r := fn.Signature.Results()
			if fn.Parent() != nil || fn.Signature.Recv() != nil || r.Len() != 1 || !InRepo(fn) || fn.Blocks == nil {
				continue
			}
			if pt, ok := r.At(0).Type().(*types.Pointer); !ok || !types.Identical(pt.Elem(), t) {
				continue
			}
			m := &iterModel{p: c.P, t: t, step: "new", vals: map[string]*Term{}}
			m.r = tm.named(KObj, "iterator", types.NewPointer(t))
			m.cur = mkAddr(m.r, fieldSel(t, cursor))
			s := newState()
			s.regs["#upd"] = tZero
			s.regs["#elem"] = tZero
			var args []*Term
			for i, p := range fn.Params {
				a := tm.named(KSym, "argument "+p.Name(), p.Type())
				if _, ok := p.Type().Underlying().(*types.Map); ok {
					s.neq[ordered(a, tNil)] = true
				}
				m.vals[string(rune('0'+i))] = a
				args = append(args, a)
			}
			x := newExec(c.P, "C18", m.hooks(c))
			x.Run(fn, s, args)
			for k, v := range x.counts {
				tot[k] += v
			}
			c.absorb(x, func(string) bool { return true })
		}
	}
	c.must("iterator types", len(its), 3)
	for _, k := range []string{"next", "HasNext", "Index", "Key", "Value", "new"} {
		c.must("iterators: "+k, tot[k], 3)
	}
}
