package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) set(s *State, v ssa.Value, t *Term) { s.top().env[v] = t }

// derefNil reports whether the path is impossible because a nil pointer is dereferenced.
func (x *Exec) derefNil(s *State, a *Term) bool {
	if x.base(a) == tNil || a.kind == KOp && a.op == "typednil" {
		if x.h.NilDeref != nil {
			x.h.NilDeref(x, s, x.curPos)
		}
		x.startPanic(s)
		return true
	}
	return false
}

func (x *Exec) step(s *State, f *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := x.obj(in.Comment, in.Type())
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && in.Comment != "varargs" && in.Comment != "slicelit" {
			_ = at
		} else if !ok {
			x.initZero(s, o, et)
		}
		x.set(s, in, o)
	case *ssa.BinOp:
		x.set(s, in, x.binop(s, in))
	case *ssa.UnOp:
		v := x.val(s, in.X)
		switch in.Op {
		case token.MUL:
			if x.derefNil(s, v) {
				return
			}
			if x.elemLoad(s, in, v) {
				return
			}
			x.set(s, in, x.load(s, v, in.Type()))
		case token.NOT:
			x.set(s, in, mkOp("!", v))
		case token.ARROW:
			x.set(s, in, x.opaque("recv", in.Type()))
		case token.SUB:
			if v.kind == KInt {
				x.set(s, in, mkInt(-v.i))
			} else {
				x.set(s, in, x.fresh("neg", in.Type()))
			}
		default:
			x.set(s, in, x.fresh("unop", in.Type()))
		}
	case *ssa.ChangeInterface:
		x.set(s, in, x.val(s, in.X))
	case *ssa.ChangeType:
		x.set(s, in, x.val(s, in.X))
	case *ssa.Convert:
		v := x.val(s, in.X)
		if isInteger(in.X.Type()) && isInteger(in.Type()) {
			x.set(s, in, v)
		} else if v.kind == KStr {
			x.set(s, in, v)
		} else {
			x.set(s, in, mkOp("conv:"+in.Type().String(), v))
		}
	case *ssa.MultiConvert:
		x.set(s, in, mkOp("conv:"+in.Type().String(), x.val(s, in.X)))
	case *ssa.MakeInterface:
		v := x.val(s, in.X)
		if v == tNil {
			v = tm.mk(KOp, "typednil", 0, []*Term{tm.named(KSym, "type "+in.X.Type().String(), nil)}, nil)
		}
		x.set(s, in, v)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(s, b))
		}
		x.set(s, in, mkClos(in.Fn.(*ssa.Function), bs))
	case *ssa.MakeMap:
		o := x.obj("map", in.Type())
		s.heap[mkAddr(o, "fresh")] = tTrue
		x.set(s, in, o)
	case *ssa.MakeChan:
		x.set(s, in, x.obj("chan", in.Type()))
	case *ssa.MakeSlice:
		n := x.val(s, in.Len)
		if n == tZero {
			x.set(s, in, mkBag(nil))
		} else {
			o := x.obj("slice", in.Type())
			s.heap[mkAddr(o, "members")] = mkBag(nil)
			s.heap[mkAddr(o, "mklen")] = n
			x.set(s, in, o)
		}
	case *ssa.Extract:
		t := x.val(s, in.Tuple)
		if t.kind == KTuple && in.Index < len(t.args) {
			x.set(s, in, t.args[in.Index])
		} else {
			x.set(s, in, x.fresh("extract", in.Type()))
		}
	case *ssa.Field:
		x.set(s, in, fieldOf(x.val(s, in.X), in.Field, in.X.Type()))
	case *ssa.FieldAddr:
		b := x.val(s, in.X)
		if x.derefNil(s, b) {
			return
		}
		if b.kind == KSym {
			if !x.nonNil(s, b) {
				return
			}
			b = x.val(s, in.X)
		}
		x.set(s, in, mkAddr(b, fieldSel(in.X.Type(), in.Field)))
	case *ssa.Index:
		if x.h.StrAt != nil {
			if r := x.h.StrAt(s, x.val(s, in.X), x.val(s, in.Index)); r != nil {
				x.set(s, in, r)
				break
			}
		}
		x.set(s, in, x.fresh("index", in.Type()))
	case *ssa.IndexAddr:
		x.set(s, in, mkIdx(x.val(s, in.X), x.val(s, in.Index)))
	case *ssa.Lookup:
		x.lookup(s, in)
		if s.dead {
			return
		}
	case *ssa.MapUpdate:
		x.mapUpdate(s, x.val(s, in.Map), x.val(s, in.Key), x.val(s, in.Value), in.Pos())
	case *ssa.Next:
		x.next(s, in)
		return
	case *ssa.Range:
		m := x.val(s, in.X)
		key := fmt.Sprintf("N%p/%d", in, len(s.frames))
		delete(s.visited, key)
		x.set(s, in, mkOp("iter", m))
	case *ssa.Panic:
		s.note("%s: panic", x.p.pos(in.Pos()))
		x.startPanic(s)
		return
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, x.val(s, r))
		}
		x.doReturn(s, res, in.Pos())
		return
	case *ssa.RunDefers:
		f.afterDef = 'r'
		return
	case *ssa.Select:
		n := 0
		if t, ok := in.Type().(*types.Tuple); ok {
			n = t.Len()
		}
		var as []*Term
		for i := 0; i < n; i++ {
			as = append(as, x.fresh("select", in.Type().(*types.Tuple).At(i).Type()))
		}
		x.set(s, in, mkTuple(as...))
	case *ssa.Send:
		x.escape(s, x.val(s, in.X))
	case *ssa.Slice:
		x.set(s, in, x.sliceOf(s, in))
	case *ssa.SliceToArrayPointer:
		x.set(s, in, x.fresh("arr", in.Type()))
	case *ssa.Store:
		a := x.val(s, in.Addr)
		if x.derefNil(s, a) {
			return
		}
		et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		x.store(s, a, x.val(s, in.Val), et, in.Pos())
	case *ssa.TypeAssert:
		x.typeAssert(s, in)
		return
	case *ssa.Defer:
		c := x.resolve(s, in)
		f.defers = append(f.defers, deferred{instr: in, fn: c.FnTerm, args: c.all})
	case *ssa.Go:
		x.goStmt(s, in)
		return
	case *ssa.Call:
		x.call(s, in, x.resolve(s, in))
		return
	case *ssa.If:
		x.branch(s, f, in)
		return
	case *ssa.Jump:
		x.jump(s, f.blk.Succs[0])
		return
	case *ssa.Phi:
		x.set(s, in, x.fresh(in.Name(), in.Type()))
	case *ssa.DebugRef:
	default:
		x.undecided = fmt.Sprintf("instruction %T is not supported", in)
		return
	}
	if s.top() == f && f.afterDef == 0 {
		f.idx++
	}
}

// nonNil assumes a dereferenced pointer is not nil.
func (x *Exec) nonNil(s *State, b *Term) bool {
	if !x.differ(s, b, tNil) {
		s.dead = true
		return false
	}
	return true
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) opaque(name string, t types.Type) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		var as []*Term
		for i := 0; i < tt.Len(); i++ {
			as = append(as, x.fresh(name, tt.At(i).Type()))
		}
		return mkTuple(as...)
	}
	return x.fresh(name, t)
}

func (x *Exec) initZero(s *State, o *Term, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			x.initZero(s, mkAddr(o, fieldSel(t, i)), st.Field(i).Type())
		}
		return
	}
	if x.ignored(o) {
		return
	}
	s.heap[o] = zeroTerm(t)
}

func (x *Exec) binop(s *State, in *ssa.BinOp) *Term {
	a, b := x.val(s, in.X), x.val(s, in.Y)
	str := func(t types.Type) bool {
		u, ok := t.Underlying().(*types.Basic)
		return ok && u.Info()&types.IsString != 0
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		c := mkOp("==", a, b)
		switch s.decide(c) {
		case Yes:
			c = tTrue
		case No:
			c = tFalse
		}
		if isBool(in.X.Type()) {
			if a.kind == KBool {
				a, b = b, a
			}
			if b == tTrue {
				c = a
			} else if b == tFalse {
				c = mkOp("!", a)
			}
		}
		if in.Op == token.NEQ {
			return mkOp("!", c)
		}
		return c
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if str(in.X.Type()) || !isInteger(in.X.Type()) {
			return mkOp(in.Op.String(), a, b)
		}
		if in.Op == token.GTR || in.Op == token.LEQ {
			a, b = b, a
		}
		c := mkOp("<", a, b)
		if in.Op == token.LEQ || in.Op == token.GEQ {
			return mkOp("!", c)
		}
		return c
	case token.ADD:
		if str(in.X.Type()) {
			return mkOp("strcat", a, b)
		}
		if isInteger(in.X.Type()) {
			if b.kind == KInt {
				return addInt(a, b.i)
			}
			if a.kind == KInt {
				return addInt(b, a.i)
			}
		}
	case token.SUB:
		if isInteger(in.X.Type()) {
			if b.kind == KInt {
				return addInt(a, -b.i)
			}
			la, ka := lin(a)
			lb, kb := lin(b)
			if la == lb {
				return mkInt(ka - kb)
			}
		}
	case token.AND, token.OR:
		if isInteger(in.X.Type()) && a.kind == KInt && b.kind == KInt {
			if in.Op == token.AND {
				return mkInt(a.i & b.i)
			}
			return mkInt(a.i | b.i)
		}
	case token.MUL:
		if a.kind == KInt && b.kind == KInt {
			return mkInt(a.i * b.i)
		}
	}
	return mkOp("bin"+in.Op.String(), a, b)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// elemLoad reads an element whose index is not tied to a range loop; it forks over the definite elements.
func (x *Exec) elemLoad(s *State, in *ssa.UnOp, addr *Term) bool {
	if addr.kind != KAddr || addr.op != "[]" || s.heap[addr] != nil {
		return false
	}
	coll := addr.args[0]
	_, elems, others := x.elements(s, coll)
	if coll.isBag() && !others && addr.args[1].kind == KInt && int(addr.args[1].i) < len(elems) && addr.args[1].i >= 0 {
		s.heap[addr] = elems[addr.args[1].i]
		return false
	}
	if len(elems) == 0 {
		_, e := x.newElem(s, coll, nil, in.Type())
		s.heap[addr] = e
		return false
	}
	for _, e := range elems {
		n := s.clone()
		n.heap[addr] = e
		n.note("%s: reads the tracked element", x.p.pos(in.Pos()))
		x.push(n)
	}
	if others {
		n := s.clone()
		_, e := x.newElem(n, coll, nil, in.Type())
		n.heap[addr] = e
		x.push(n)
	}
	s.dead = true
	return true
}

func (x *Exec) sliceOf(s *State, in *ssa.Slice) *Term {
	v := x.val(s, in.X)
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && x.h.StrAt != nil && v.kind == KObj {
		from, to := tZero, tNil
		if in.Low != nil {
			from = x.val(s, in.Low)
		}
		if in.High != nil {
			to = x.val(s, in.High)
		}
		if from == tZero && to == tNil {
			return v
		}
		return mkOp("slice", v, from, to)
	}
	if v.kind == KObj {
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok && in.Low == nil && (in.High == nil || true) {
				n := int(at.Len())
				if in.High != nil {
					h := x.val(s, in.High)
					if h.kind == KInt && int(h.i) <= n {
						n = int(h.i)
					} else {
						// make([]T, n) with a constant capacity
						s.heap[mkAddr(v, "members")] = mkBag(nil)
						return v
					}
				}
				var es []*Term
				for i := 0; i < n; i++ {
					e := s.heap[mkIdx(v, mkInt(int64(i)))]
					if e == nil {
						if in.X.(ssa.Value).Name() != "" && isMakeSlice(in) {
							s.heap[mkAddr(v, "members")] = mkBag(nil)
							return v
						}
						e = x.load(s, mkIdx(v, mkInt(int64(i))), at.Elem())
					}
					es = append(es, e)
				}
				return mkBag(es)
			}
		}
	}
	if v.isBag() {
		if in.Low == nil && in.High == nil {
			return v
		}
		lo, hi := int64(0), int64(len(v.args))
		okc := !hasStar(v)
		if in.Low != nil {
			t := x.val(s, in.Low)
			if t.kind == KInt {
				lo = t.i
			} else {
				okc = false
			}
		}
		if in.High != nil {
			t := x.val(s, in.High)
			if t.kind == KInt {
				hi = t.i
			} else {
				okc = false
			}
		}
		if okc && lo >= 0 && hi <= int64(len(v.args)) && lo <= hi {
			return mkBag(append([]*Term(nil), v.args[lo:hi]...))
		}
		from, to := tZero, tNil
		if in.Low != nil {
			from = x.val(s, in.Low)
		}
		if in.High != nil {
			to = x.val(s, in.High)
		}
		if from == to {
			return mkBag(nil)
		}
		return mkOp("slice", v, from, to)
	}
	if in.Low == nil && in.High == nil && in.Max == nil {
		return v
	}
	return x.fresh("slice", in.Type())
}

func isMakeSlice(in *ssa.Slice) bool {
	a, ok := in.X.(*ssa.Alloc)
	return ok && a.Comment == "makeslice"
}

// ---- maps ----

func (x *Exec) mapFresh(s *State, m *Term) bool { return s.heap[mkAddr(m, "fresh")] == tTrue }

func (x *Exec) lookup(s *State, in *ssa.Lookup) {
	m, k := x.val(s, in.X), x.val(s, in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok { // string index
		if x.h.StrAt != nil {
			if r := x.h.StrAt(s, m, k); r != nil {
				x.set(s, in, r)
				return
			}
		}
		x.set(s, in, x.fresh("char", in.Type()))
		return
	}
	if x.h.MapRead != nil {
		x.h.MapRead(x, s, m, k, in.Pos())
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	has := x.mapHas(s, m, k)
	v := x.mapGet(s, m, k, vt, has)
	if in.CommaOk {
		x.set(s, in, mkTuple(v, has))
	} else {
		x.set(s, in, v)
	}
}

func (x *Exec) mapHas(s *State, m, k *Term) *Term {
	if m == tNil {
		return tFalse
	}
	if x.h.IgnoreMap != nil && x.h.IgnoreMap(s, m) {
		return x.fresh("has", types.Typ[types.Bool])
	}
	a := mkHas(m, k)
	h := s.heap[a]
	if h == nil {
		if x.mapFresh(s, m) && !x.mapTouched(s, m, k) {
			h = tFalse
		} else {
			h = x.fresh("has", types.Typ[types.Bool])
		}
		s.heap[a] = h
	}
	return h
}

// mapTouched: some other key of a local map may be the same key.
func (x *Exec) mapTouched(s *State, m, k *Term) bool {
	for a, v := range s.heap {
		if v != tFalse && a.kind == KAddr && a.op == "?{}" && a.args[0] == m && s.eq(a.args[1], k) != No {
			return true
		}
	}
	return s.heap[mkAddr(m, "touched")] == tTrue
}

func (x *Exec) mapGet(s *State, m, k *Term, vt types.Type, has *Term) *Term {
	if m == tNil || has == tFalse {
		return zeroTerm(vt)
	}
	a := mkKey(m, k)
	v := s.heap[a]
	if v == nil {
		v = x.load(s, a, vt)
		if has == tTrue {
			if _, ok := vt.Underlying().(*types.Pointer); ok && v.kind == KSym {
				s.neq[ordered(v, tNil)] = true
			}
		}
		s.heap[a] = v
	}
	return v
}

func (x *Exec) mapUpdate(s *State, m, k, v *Term, pos token.Pos) {
	if m == tNil {
		x.startPanic(s)
		return
	}
	if x.h.MapUpdate != nil {
		x.h.MapUpdate(x, s, m, k, v, pos)
	}
	if x.h.IgnoreMap != nil && x.h.IgnoreMap(s, m) {
		if v != nil && !x.localBase(s, m) {
			x.escape(s, v)
		}
		return
	}
	if x.h.KeepKeys && x.mapFresh(s, m) {
		// the tracked keys that a local map doesn't have
		for r, t := range s.regs {
			if strings.HasPrefix(r, "w:") && t != nil && (t.kind == KStr || t.kind == KSym && types.Identical(t.typ, k.typ)) && s.heap[mkHas(m, t)] == nil && !x.mapTouched(s, m, t) {
				s.heap[mkHas(m, t)] = tFalse
			}
		}
	}
	x.clobberAliases(s, mkKey(m, k))
	x.clobberAliases(s, mkHas(m, k))
	if v == nil { // delete
		s.heap[mkHas(m, k)] = tFalse
		delete(s.heap, mkKey(m, k))
		return
	}
	s.heap[mkKey(m, k)] = v
	s.heap[mkHas(m, k)] = tTrue
	if !x.localBase(s, m) {
		x.escape(s, v)
	}
}

// next advances an iteration over a map.
func (x *Exec) next(s *State, in *ssa.Next) {
	it := x.val(s, in.Iter)
	rg, _ := in.Iter.(*ssa.Range)
	f := s.top()
	fin := func(n *State, ok bool, k, v *Term) {
		g := n.top()
		if k == nil {
			k = tNil
		}
		if v == nil {
			v = tNil
		}
		g.env[in] = mkTuple(mkBool(ok), k, v)
		g.idx++
		x.push(n)
	}
	if in.IsString || rg == nil || it.kind != KOp || it.op != "iter" {
		n := s.clone()
		fin(n, true, x.fresh("i", types.Typ[types.Int]), x.fresh("r", types.Typ[types.Rune]))
		f.env[in] = mkTuple(tFalse, tZero, tZero)
		f.idx++
		return
	}
	m := it.args[0]
	key := fmt.Sprintf("N%p/%d", rg, len(s.frames))
	mt := rg.X.Type().Underlying().(*types.Map)
	keys, elems, others := x.elements(s, m)
	if x.mapFresh(s, m) && (x.h.Coll == nil || elems == nil) {
		others = true
	}
	vis := s.visited[key]
	left := false
	for i, e := range elems {
		var k *Term
		if i < len(keys) {
			k = keys[i]
		}
		mark := e
		if k != nil {
			mark = k // the values of two keys may be the same
		}
		if vis[mark] {
			continue
		}
		left = true
		n := s.clone()
		if n.visited[key] == nil {
			n.visited[key] = map[*Term]bool{}
		}
		n.visited[key][mark] = true
		if k == nil {
			k = x.fresh("key", mt.Key())
		}
		n.note("%s: iteration for the tracked entry", x.p.pos(rg.Pos()))
		if x.h.Visit != nil {
			x.h.Visit(x, n, m, k, e)
		}
		fin(n, true, k, e)
	}
	if others && m != tNil {
		n := s.clone()
		k, v := x.newElem(n, m, mt.Key(), mt.Elem())
		n.note("%s: iteration for another entry", x.p.pos(rg.Pos()))
		if x.h.IgnoreMap == nil || !x.h.IgnoreMap(n, m) {
			n.heap[mkHas(m, k)] = tTrue
			n.heap[mkKey(m, k)] = v
		}
		if x.h.Visit != nil {
			x.h.Visit(x, n, m, k, v)
		}
		fin(n, true, k, v)
	}
	if left {
		s.dead = true
		return
	}
	s.note("%s: end of the iteration", x.p.pos(rg.Pos()))
	delete(s.visited, key)
	f.env[in] = mkTuple(tFalse, tNil, tNil)
	f.idx++
}

// ---- types ----

func dynOf(s *State, v *Term) types.Type {
	if d := s.dyn[v]; d != nil {
		return d
	}
	if (v.kind == KObj || v.kind == KSym) && v.typ != nil && concrete(v.typ) {
		return v.typ
	}
	if v.kind == KStr {
		return types.Typ[types.String]
	}
	if v.kind == KBool {
		return types.Typ[types.Bool]
	}
	return nil
}

func (x *Exec) typeAssert(s *State, in *ssa.TypeAssert) {
	v := x.val(s, in.X)
	fin := func(n *State, ok bool) {
		g := n.top()
		r := v
		if v.kind == KSym {
			r = x.val(n, in.X)
		}
		if !ok {
			r = zeroTerm(in.AssertedType)
		}
		if in.CommaOk {
			g.env[in] = mkTuple(r, mkBool(ok))
			g.idx++
		} else if ok {
			g.env[in] = r
			g.idx++
		} else {
			n.note("%s: failed type assertion", x.p.pos(in.Pos()))
			x.startPanic(n)
		}
	}
	switch s.eq(v, tNil) {
	case Yes:
		fin(s, false)
		return
	}
	d := dynOf(s, v)
	if d == nil && x.h.OpaqueDyn != nil && x.h.OpaqueDyn(s, v) {
		// the outcome is not remembered
		n := s.clone()
		r := x.fresh("asserted", in.AssertedType)
		n.neq[ordered(r, tNil)] = true
		n.note("%s: dynamic type is %s", x.p.pos(in.Pos()), in.AssertedType)
		g := n.top()
		g.env[in] = r
		if in.CommaOk {
			g.env[in] = mkTuple(r, tTrue)
		}
		g.idx++
		x.push(n)
		s.note("%s: dynamic type is not %s", x.p.pos(in.Pos()), in.AssertedType)
		fin(s, false)
		return
	}
	if concrete(in.AssertedType) {
		if d != nil {
			ok := types.Identical(d, in.AssertedType)
			if v.kind == KStr && !ok {
				if b, isB := in.AssertedType.Underlying().(*types.Basic); isB && b.Kind() == types.String && v.typ == nil {
					ok = false
				}
			}
			if ok && v.kind == KSym && !x.differ(s, v, tNil) {
				s.dead = true
				return
			}
			fin(s, ok)
			return
		}
		ts := in.AssertedType.String()
		if s.notdyn[v][ts] {
			fin(s, false)
			return
		}
		if v.kind == KInt {
			fin(s, isInteger(in.AssertedType))
			return
		}
		n := s.clone()
		if x.differ(n, v, tNil) {
			n.dyn[v] = in.AssertedType
			n.note("%s: dynamic type is %s", x.p.pos(in.Pos()), in.AssertedType)
			fin(n, true)
			if !n.dead {
				x.push(n)
			}
		}
		if v.kind == KSym {
			if s.notdyn[v] == nil {
				s.notdyn[v] = map[string]bool{}
			}
			s.notdyn[v][ts] = true
		}
		s.note("%s: dynamic type is not %s", x.p.pos(in.Pos()), in.AssertedType)
		fin(s, false)
		return
	}
	it := in.AssertedType.Underlying().(*types.Interface)
	if d != nil {
		ok := types.Implements(d, it)
		if ok && v.kind == KSym && !x.differ(s, v, tNil) {
			s.dead = true
			return
		}
		fin(s, ok)
		return
	}
	if v.typ != nil && types.IsInterface(v.typ) && s.eq(v, tNil) == No && types.Implements(v.typ, it) {
		fin(s, true)
		return
	}
	c := mkOp("implements:"+in.AssertedType.String(), v)
	switch s.decide(c) {
	case Yes:
		fin(s, true)
		return
	case No:
		fin(s, false)
		return
	}
	n := s.clone()
	if x.differ(n, v, tNil) && x.assume(n, c, true) {
		n.note("%s: value implements %s", x.p.pos(in.Pos()), in.AssertedType)
		fin(n, true)
		if !n.dead {
			x.push(n)
		}
	}
	if x.assume(s, c, false) {
		s.note("%s: value does not implement %s", x.p.pos(in.Pos()), in.AssertedType)
		fin(s, false)
	} else {
		s.dead = true
	}
}

// ---- calls ----

func (x *Exec) resolve(s *State, in ssa.CallInstruction) *Call {
	c := in.Common()
	r := &Call{Instr: in, Sig: c.Signature(), Caller: in.Parent()}
	if c.IsInvoke() {
		r.Invoke = true
		r.Recv = x.val(s, c.Value)
		r.ID = funcID(c.Method)
		for _, a := range c.Args {
			r.Args = append(r.Args, x.val(s, a))
		}
		r.all = append([]*Term{r.Recv}, r.Args...)
		return r
	}
	for _, a := range c.Args {
		r.all = append(r.all, x.val(s, a))
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		r.Builtin = v.Name()
		r.ID = "builtin:" + v.Name()
		r.Args = r.all
		return r
	case *ssa.Function:
		r.Fn = v
		r.FnTerm = mkFunc(v)
	default:
		r.FnTerm = x.val(s, v)
		if r.FnTerm.kind == KFunc || r.FnTerm.kind == KClos {
			r.Fn = r.FnTerm.fn
		}
	}
	x.fill(r)
	return r
}

func (x *Exec) fill(r *Call) {
	r.Args = r.all
	if r.Fn != nil {
		if o, ok := r.Fn.Object().(*types.Func); ok {
			r.ID = funcID(o)
			if o.Type().(*types.Signature).Recv() != nil && len(r.all) > 0 {
				r.Recv = r.all[0]
				r.Args = r.all[1:]
			} else if len(r.Fn.FreeVars) == 1 && r.FnTerm != nil && r.FnTerm.kind == KClos && o.Type().(*types.Signature).Recv() != nil {
				r.Recv = r.FnTerm.args[0]
			}
		} else {
			r.ID = "func:" + fnName(r.Fn)
		}
		// the wrapper of a bound method
		if r.FnTerm != nil && r.FnTerm.kind == KClos && r.Fn.Synthetic != "" && len(r.FnTerm.args) == 1 {
			r.Recv = r.FnTerm.args[0]
			r.Args = r.all
		}
	}
}

func (x *Exec) invokeDeferred(s *State, d deferred) {
	c := &Call{Instr: d.instr, Sig: d.instr.Common().Signature(), FnTerm: d.fn, all: d.args, Caller: d.instr.Parent()}
	com := d.instr.Common()
	if com.IsInvoke() {
		c.Invoke = true
		c.Recv = d.args[0]
		c.Args = d.args[1:]
		c.ID = funcID(com.Method)
	} else if b, ok := com.Value.(*ssa.Builtin); ok {
		c.Builtin = b.Name()
		c.ID = "builtin:" + b.Name()
		c.Args = c.all
	} else {
		if d.fn != nil && (d.fn.kind == KFunc || d.fn.kind == KClos) {
			c.Fn = d.fn.fn
		}
		x.fill(c)
	}
	x.doCall(s, c, true, false)
}

func (x *Exec) goStmt(s *State, in *ssa.Go) {
	c := x.resolve(s, in)
	act := ActInline
	if x.h.Go != nil {
		act = x.h.Go(x, s, c)
	}
	if act == ActInline {
		x.doCall(s, c, false, true)
		return
	}
	for _, a := range c.all {
		x.escape(s, a)
	}
	if c.FnTerm != nil {
		x.escape(s, c.FnTerm)
	}
	s.top().idx++
}

func (x *Exec) call(s *State, in *ssa.Call, c *Call) { x.doCall(s, c, false, false) }

// bind gives the result to the caller and continues after the call.
func (x *Exec) bind(s *State, c *Call, res *Term, isDefer, spawned bool) {
	f := s.top()
	if isDefer {
		return
	}
	if !spawned {
		if v, ok := c.Instr.(*ssa.Call); ok {
			if res == nil {
				res = x.opaque(c.name(), v.Type())
			}
			f.env[v] = res
		}
	}
	f.idx++
}

func (x *Exec) doCall(s *State, c *Call, isDefer, spawned bool) {
	if c.Builtin != "" {
		x.builtin(s, c, isDefer)
		return
	}
	if c.Instr.Pos().IsValid() && !isDefer {
		x.curPos = c.Instr.Pos()
	}
	x.count("calls")
	act := ActDefault
	var outs []Outcome
	if x.h.Call != nil {
		act, outs = x.h.Call(x, s, c)
		if s.dead {
			return
		}
	}
	if act == ActDefault {
		if c.Invoke {
			// resolve through the dynamic type
			if s.eq(c.Recv, tNil) == Yes {
				x.startPanic(s)
				return
			}
			if d := dynOf(s, c.Recv); d != nil && concrete(d) {
				ms := types.NewMethodSet(d)
				if sel := ms.Lookup(c.Instr.Common().Method.Pkg(), c.Instr.Common().Method.Name()); sel != nil {
					fn := x.p.SSA.MethodValue(sel)
					if fn != nil && InRepo(fn) {
						c.Fn = fn
						if len(c.Args) == len(c.all) {
							c.all = append([]*Term{c.Recv}, c.Args...)
						}
						c.FnTerm = mkFunc(fn)
						act = ActInline
						if o, ok := sel.Obj().(*types.Func); ok && funcID(o) != c.ID {
							// let the rule see the resolved callee
							id := c.ID
							c.ID = funcID(o)
							if x.h.Call != nil {
								a2, o2 := x.h.Call(x, s, c)
								if s.dead {
									return
								}
								if a2 != ActDefault {
									act, outs = a2, o2
								}
							}
							_ = id
						}
					}
				}
			}
		} else if InRepo(c.Fn) {
			act = ActInline
		}
		if act == ActDefault {
			act = ActOpaque
			if c.Fn != nil && !InRepo(c.Fn) && x.p.getter(c.Fn) {
				act = ActPure
			}
		}
	}
	if act == ActInline && (c.Fn == nil || c.Fn.Blocks == nil) {
		act = ActOpaque
	}
	if act == ActInline {
		if x.h.Inline != nil && !x.h.Inline(c.Fn) {
			act = ActOpaque
		}
		rec := 0
		for _, f := range s.frames {
			if f.fn == c.Fn {
				rec++
			}
		}
		if rec >= x.h.RecLimit || len(s.frames) >= x.h.MaxDepth {
			act = ActOpaque
			if x.h.Recursive != nil {
				act, outs = x.h.Recursive(x, s, c)
			}
		}
	}
	switch act {
	case ActStop:
		s.dead = true
		return
	case ActInline:
		x.inline(s, c, isDefer, spawned)
		return
	case ActPure:
		x.mayPanic(s, c, isDefer)
		x.bind(s, c, nil, isDefer, spawned)
		return
	case ActOpaque:
		x.mayPanic(s, c, isDefer)
		args := c.all
		if c.FnTerm != nil {
			args = append(append([]*Term(nil), args...), c.FnTerm)
		}
		x.clobber(s, args)
		x.bind(s, c, nil, isDefer, spawned)
		return
	case ActModel:
		for i, o := range outs {
			n := s
			if i < len(outs)-1 {
				n = s.clone()
			}
			if o.Mod != nil && !o.Mod(n) {
				n.dead = true
				continue
			}
			if o.Panic {
				n.note("%s: %s panics", x.p.pos(c.Instr.Pos()), c.ID)
				x.startPanic(n)
			} else {
				res := o.Res
				if res == nil && n.regs["$res"] != nil {
					res = n.regs["$res"]
					delete(n.regs, "$res")
				}
				x.bind(n, c, res, isDefer, spawned)
			}
			if n != s && !n.dead {
				x.push(n)
			}
		}
		if len(outs) == 0 {
			s.dead = true
		}
		return
	}
}

func (x *Exec) mayPanic(s *State, c *Call, isDefer bool) {
	if x.h.MayPanic == nil || !x.h.MayPanic(c) {
		return
	}
	n := s.clone()
	n.note("%s: %s panics", x.p.pos(c.Instr.Pos()), c.ID)
	x.startPanic(n)
	x.push(n)
}

func (x *Exec) inline(s *State, c *Call, isDefer, spawned bool) {
	fn := c.Fn
	x.fnSeen[fn] = true
	// the caller only keeps what it still needs
	cf := s.top()
	if !isDefer {
		fi := x.fi(cf.fn)
		need := map[ssa.Value]bool{}
		for v := range fi.liveout[cf.blk.Index] {
			need[v] = true
		}
		var ops []*ssa.Value
		for _, in := range cf.blk.Instrs[cf.idx+1:] {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil {
					need[*o] = true
				}
			}
		}
		for v := range cf.env {
			if !need[v] {
				delete(cf.env, v)
			}
		}
	}
	f := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, call: c.Instr, isDefer: isDefer, spawned: spawned}
	for i, p := range fn.Params {
		if i < len(c.all) {
			f.env[p] = c.all[i]
		}
	}
	if c.FnTerm != nil && c.FnTerm.kind == KClos {
		for i, v := range fn.FreeVars {
			f.env[v] = c.FnTerm.args[i]
		}
	}
	s.frames = append(s.frames, f)
	x.states++
}

func (x *Exec) doReturn(s *State, res []*Term, pos token.Pos) {
	f := s.top()
	if x.h.FnReturn != nil {
		x.h.FnReturn(x, s, f.fn, res)
		if s.dead {
			return
		}
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		x.paths++
		if x.h.Return != nil {
			s.note("%s: returns", x.p.pos(pos))
			x.h.Return(x, s, res, pos)
		}
		s.dead = true
		return
	}
	g := s.top()
	if f.isDefer {
		return
	}
	if !f.spawned {
		if v, ok := f.call.(*ssa.Call); ok {
			if len(res) == 1 {
				g.env[v] = res[0]
			} else {
				g.env[v] = mkTuple(res...)
			}
		}
	}
	g.idx++
}

func (x *Exec) builtin(s *State, c *Call, isDefer bool) {
	var res *Term
	switch c.Builtin {
	case "len":
		a := c.Args[0]
		if _, ok := c.Instr.Common().Args[0].Type().Underlying().(*types.Map); ok {
			if a == tNil {
				res = tZero
			} else if l := x.mapLen(s, a); l != nil {
				res = l
			} else {
				res = x.fresh("len", types.Typ[types.Int])
				s.addDiff(tZero, res, 0)
			}
			break
		}
		if l := s.heap[mkAddr(a, "mklen")]; l != nil {
			res = l
			break
		}
		if b := a; b.isBag() && hasStar(b) {
			res = mkOp("len", b)
			s.addDiff(tZero, res, -int64(len(b.args)-1))
			break
		}
		res = mkOp("len", a)
		if res.kind != KInt {
			s.addDiff(tZero, res, 0)
		}
	case "cap":
		res = x.fresh("cap", types.Typ[types.Int])
	case "append":
		if x.h.Append != nil {
			x.h.Append(x, s, c)
		}
		res = x.appendTo(s, c)
	case "copy":
		res = x.fresh("copied", types.Typ[types.Int])
	case "delete":
		x.mapUpdate(s, c.Args[0], c.Args[1], nil, c.Instr.Pos())
		res = mkTuple()
	case "recover":
		res = tNil
		if n := len(s.frames); n >= 2 && s.frames[n-1].isDefer && s.frames[n-2].panicking && s.frames[n-2].afterDef == 'p' {
			p := s.frames[n-2]
			p.recovered = true
			p.panicking = false
			res = x.fresh("recovered", nil)
			s.neq[ordered(res, tNil)] = true
		}
	case "ssa:wrapnilchk":
		res = c.Args[0]
	case "print", "println", "close", "clear":
		res = mkTuple()
	}
	x.bind(s, c, res, isDefer, false)
}

// getter: the function only reads.
func (p *Program) getter(fn *ssa.Function) bool {
	if strings.HasPrefix(fnName(fn), "(*core/activity.Error).") {
		return !strings.HasSuffix(fn.Name(), "SetActivityName")
	}
	if fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic:
				return false
			case *ssa.Call:
				if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
				if n := i.Call.Value.Name(); n != "len" && n != "cap" {
					return false
				}
			}
		}
	}
	return true
}

func (x *Exec) appendTo(s *State, c *Call) *Term {
	a := c.Args[0]
	if r := x.without(s, c); r != nil {
		return r
	}
	var elems []*Term
	if a == tNil {
	} else if a.isBag() {
		elems = append(elems, a.args...)
	} else if k, e, o := x.elements(s, a); len(e) > 0 {
		_ = k
		elems = append(elems, e...)
		if o {
			elems = append(elems, tStar)
		}
	} else {
		elems = append(elems, tStar)
	}
	if len(c.Args) > 1 {
		b := c.Args[1]
		if b == tNil {
		} else if b.isBag() {
			elems = append(elems, b.args...)
		} else {
			_, e, o := x.elements(s, b)
			elems = append(elems, e...)
			if o {
				elems = append(elems, tStar)
			}
		}
	}
	// at most one star
	var n []*Term
	star := false
	for _, e := range elems {
		if e == tStar {
			if star { // once
				continue
			}
			star = true
		}
		n = append(n, e)
	}
	return mkBag(n)
}

// without is what append(v[:i], v[i+1:]...) leaves of v.
func (x *Exec) without(s *State, c *Call) *Term {
	if len(c.Args) != 2 {
		return nil
	}
	a, b := c.Args[0], c.Args[1]
	if a.kind != KOp || a.op != "slice" || b.kind != KOp || b.op != "slice" || a.args[0] != b.args[0] {
		return nil
	}
	if a.args[1] != tZero || b.args[2] != tNil || a.args[2] == tNil || addInt(a.args[2], 1) != b.args[1] {
		return nil
	}
	e := s.heap[mkIdx(a.args[0], a.args[2])]
	if e == nil {
		return nil
	}
	var rest []*Term
	for _, o := range a.args[0].args {
		if o == e {
			continue
		}
		if !isMany(o) && s.eq(o, e) != No {
			return nil
		}
		rest = append(rest, o)
	}
	return mkBag(rest)
}

// mapLen is the number of entries of a map, if it is known.
func (x *Exec) mapLen(s *State, m *Term) *Term {
	if x.h.MapLen != nil {
		if l := x.h.MapLen(x, s, m); l != nil {
			return l
		}
	}
	return s.heap[mkAddr(m, "$maplen")]
}
