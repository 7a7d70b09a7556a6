package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects at run time: flow definitions (C24) and package-level state (C25) are not changed by running flows.
// A flow-insensitive, field-based value-flow analysis finds the references into the protected data.

// callees of an instruction, as far as they are in the repository.
func callees(p *Program, in ssa.Instruction) (r []*ssa.Function) {
	switch t := in.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{t.Fn.(*ssa.Function)}
	case ssa.CallInstruction:
		c := t.Common()
		if c.IsInvoke() {
			return p.implementers(c.Method, c.Value.Type())
		}
		if f := c.StaticCallee(); f != nil {
			if InRepo(f) {
				r = append(r, f)
			}
		}
		// functions of the repository given to someone else
		for _, a := range c.Args {
			if f, ok := a.(*ssa.Function); ok && InRepo(f) {
				r = append(r, f)
			}
		}
	case *ssa.Store:
		if f, ok := t.Val.(*ssa.Function); ok && InRepo(f) {
			return []*ssa.Function{f}
		}
	}
	return r
}

var implCache = map[*types.Func][]*ssa.Function{}

// implementers are the methods of the repository an interface method may dispatch to.
func (p *Program) implementers(m *types.Func, iface types.Type) []*ssa.Function {
	if r, ok := implCache[m]; ok {
		return r
	}
	var r []*ssa.Function
	it, _ := iface.Underlying().(*types.Interface)
	if it != nil {
		for _, pk := range p.Pkgs {
			for _, n := range pk.Types.Scope().Names() {
				tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				pt := types.NewPointer(tn.Type())
				if types.Implements(pt, it) {
					if f := p.methodOf(pt, m.Name()); f != nil && InRepo(f) {
						r = append(r, f)
					}
				}
			}
		}
	}
	implCache[m] = r
	return r
}

// reachable is the set of functions the roots may call, not entering the functions in cut.
func reachable(p *Program, roots []*ssa.Function, cut func(f *ssa.Function) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if res[f] || !InRepo(f) || cut != nil && cut(f) {
			return
		}
		res[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range callees(p, in) {
					visit(g)
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return res
}

// runRoots are the entry points through which flows run.
func runRoots(p *Program) (r []*ssa.Function) {
	for _, f := range p.Funcs {
		o, ok := f.Object().(*types.Func)
		if !ok || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		pk := fnPkg(f).Path()
		switch {
		case f.Name() == "Run" && f.Signature.Results().Len() == 1:
			r = append(r, f)
		case o.Exported() && (pk == flowMod+"/instance" || strings.HasPrefix(pk, flowMod+"/model/") || strings.HasPrefix(pk, flowMod+"/activity/")):
			r = append(r, f)
		case strings.Contains(f.Signature.String(), "net/http.ResponseWriter"):
			r = append(r, f)
		}
	}
	return r
}

// flow is a value-flow analysis.
type flow struct {
	p        *Program
	val      map[ssa.Value]bool
	field    map[string]bool
	work     []ssa.Value
	loads    map[string][]ssa.Value // loads of a field or global
	callers  map[*ssa.Function][]ssa.CallInstruction
	closures map[*ssa.Function][]*ssa.MakeClosure
	stop     func(v ssa.Value) bool
	dyn      map[string]bool            // the concrete types that interfaces of the flow may hold
	waiting  map[string][]*ssa.Function // methods an interface of the flow may dispatch to, by type of the receiver
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Interface:
		return true
	case *types.Tuple:
		return u.Len() > 0
	case *types.Struct:
		return true
	}
	return false
}

func newFlow(p *Program) *flow {
	f := &flow{p: p, val: map[ssa.Value]bool{}, field: map[string]bool{}, loads: map[string][]ssa.Value{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, closures: map[*ssa.Function][]*ssa.MakeClosure{}, dyn: map[string]bool{}, waiting: map[string][]*ssa.Function{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.UnOp:
					if t.Op == token.MUL {
						if k := locKey(t.X); k != "" {
							f.loads[k] = append(f.loads[k], t)
						}
					}
				case *ssa.Field:
					k := fieldSel(t.X.Type(), t.Field)
					f.loads[k] = append(f.loads[k], t)
				case *ssa.MakeClosure:
					f.closures[t.Fn.(*ssa.Function)] = append(f.closures[t.Fn.(*ssa.Function)], t)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range callees(p, in) {
						f.callers[g] = append(f.callers[g], ci)
					}
				}
			}
		}
	}
	return f
}

func locKey(addr ssa.Value) string {
	switch t := addr.(type) {
	case *ssa.FieldAddr:
		return fieldSel(t.X.Type(), t.Field)
	case *ssa.Global:
		return "G:" + rel(t.Pkg.Pkg.Path()) + "." + t.Name()
	}
	return ""
}

func (f *flow) add(v ssa.Value) {
	if v == nil || f.val[v] || !refType(v.Type()) || f.stop != nil && f.stop(v) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	f.val[v] = true
	f.work = append(f.work, v)
}

// element adds what a container holds: if that is an interface, it may hold anything that implements it.
func (f *flow) element(v ssa.Value) {
	f.add(v)
	it, ok := v.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 || !f.val[v] {
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		for _, g := range f.p.implementers(it.Method(i), v.Type()) {
			f.addType(g.Signature.Recv().Type())
		}
	}
}

func (f *flow) addType(t types.Type) {
	k := t.String()
	if f.dyn[k] {
		return
	}
	f.dyn[k] = true
	for _, g := range f.waiting[k] {
		f.add(g.Params[0])
	}
}

func (f *flow) addField(k string) {
	if f.field[k] {
		return
	}
	f.field[k] = true
	for _, v := range f.loads[k] {
		f.add(v)
	}
}

func (f *flow) run() {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			f.step(v, r)
		}
	}
}

func (f *flow) step(v ssa.Value, r ssa.Instruction) {
	if mi, ok := r.(*ssa.MakeInterface); ok {
		f.addType(mi.X.Type())
	}
	switch t := r.(type) {
	case *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Slice, *ssa.Extract, *ssa.Next, *ssa.Field, *ssa.Index:
		f.add(r.(ssa.Value))
	case *ssa.Range:
		f.val[t] = true
		for _, n := range *t.Referrers() {
			if nx, ok := n.(*ssa.Next); ok {
				f.val[nx] = true
				for _, e := range *nx.Referrers() {
					if ex, ok := e.(*ssa.Extract); ok && ex.Index == 2 {
						f.element(ex)
					}
				}
			}
		}
	case *ssa.Lookup:
		if t.X == v {
			f.element(t)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// what is loaded through it is protected, too
		for _, u := range *r.(ssa.Value).Referrers() {
			if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
				f.element(l)
			}
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			f.add(t)
		}
	case *ssa.MakeClosure:
		for i, b := range t.Bindings {
			if b == v {
				f.add(t.Fn.(*ssa.Function).FreeVars[i])
			}
		}
	case *ssa.Store:
		if t.Val != v {
			return
		}
		if k := locKey(t.Addr); k != "" {
			f.addField(k)
			return
		}
		if al, ok := t.Addr.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
					f.add(l)
				}
				if mc, ok := u.(*ssa.MakeClosure); ok {
					for i, b := range mc.Bindings {
						if b == ssa.Value(al) {
							for _, fu := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
								if l, ok := fu.(*ssa.UnOp); ok && l.Op == token.MUL {
									f.add(l)
								}
							}
						}
					}
				}
			}
		}
	case *ssa.Return:
		fn := t.Parent()
		for i, x := range t.Results {
			if x != v {
				continue
			}
			for _, c := range f.callers[fn] {
				cv, ok := c.(*ssa.Call)
				if !ok {
					continue
				}
				if len(t.Results) == 1 {
					f.add(cv)
					continue
				}
				for _, u := range *cv.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						f.add(e)
					}
				}
			}
		}
	case ssa.CallInstruction:
		c := t.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if cv, ok := t.(*ssa.Call); ok && b.Name() == "append" && len(c.Args) > 0 && c.Args[0] == v {
				f.add(cv)
			}
			return
		}
		for _, g := range callees(f.p, r) {
			off := 0
			if c.IsInvoke() {
				off = 1
				if c.Value == v && len(g.Params) > 0 {
					k := g.Signature.Recv().Type().String()
					f.waiting[k] = append(f.waiting[k], g)
					if f.dyn[k] {
						f.add(g.Params[0])
					}
				}
			}
			for i, a := range c.Args {
				if a == v && i+off < len(g.Params) {
					f.add(g.Params[i+off])
				}
			}
		}
	}
}

// writes are the instructions that change what a value of the flow refers to.
func (f *flow) writes(in ssa.Instruction) (what string, ok bool) {
	switch t := in.(type) {
	case *ssa.MapUpdate:
		if f.val[t.Map] {
			return "an entry of a map is set", true
		}
	case *ssa.Store:
		switch a := t.Addr.(type) {
		case *ssa.IndexAddr:
			if f.val[a.X] {
				return "an element of a slice is set", true
			}
		case *ssa.FieldAddr:
			if f.val[a.X] {
				return "a field (" + fieldSel(a.X.Type(), a.Field) + ") is set", true
			}
		}
	case ssa.CallInstruction:
		c := t.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok && len(c.Args) > 0 && f.val[c.Args[0]] {
			switch b.Name() {
			case "delete", "clear":
				return "an entry of a map is removed", true
			case "append":
				return "elements are appended to a shared slice", true
			case "copy":
				return "elements of a slice are overwritten", true
			}
		}
		if g := c.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(g.Name(), "Sort")) && len(c.Args) > 0 && f.val[c.Args[0]] {
			return "a slice is sorted", true
		}
	}
	return "", false
}

// localBase: the object was created by the function itself.
func localBase(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return localBase(t.X, depth+1)
	case *ssa.IndexAddr:
		return localBase(t.X, depth+1)
	case *ssa.UnOp:
		if al, ok := t.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return localBase(s, depth+1)
			}
		}
		if fa, ok := t.X.(*ssa.FieldAddr); ok {
			// a field of a local object that only holds local objects
			_ = fa
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !localBase(e, depth+3) {
				return false
			}
		}
		return true
	}
	return false
}

func definitionEffects(c *Ctx) {
	p := c.P
	isDef := func(t types.Type) bool {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != flowMod+"/definition" {
			return false
		}
		_, ok = n.Underlying().(*types.Struct)
		return ok && !strings.HasSuffix(n.Obj().Name(), "Rep")
	}
	build := p.Func("definition", "NewDefinition")
	run := reachable(p, runRoots(p), func(f *ssa.Function) bool { return f == build })
	// what a builder calls only works on the definition that is being built
	f := newFlow(p)
	f.stop = func(v ssa.Value) bool {
		// copies made by functions of the repository end the flow
		cl, ok := v.(*ssa.Call)
		return ok && cl.Call.StaticCallee() != nil && strings.HasPrefix(cl.Call.StaticCallee().Name(), "DeepCopy")
	}
	sources := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Call:
					if run[fn] && declaration(t.Type()) {
						sources++
						f.add(t)
					}
				case *ssa.UnOp:
					if fa, ok := t.X.(*ssa.FieldAddr); ok && t.Op == token.MUL && isDef(fa.X.Type()) && run[fn] {
						switch t.Type().Underlying().(type) {
						case *types.Map, *types.Slice:
							sources++
							f.add(t)
						}
						if declaration(t.Type()) {
							sources++
							f.add(t)
						}
					}
				}
			}
		}
	}
	f.run()
	obj, writes := 0, 0
	for _, fn := range p.Funcs {
		if !run[fn] {
			continue
		}
		c.fns[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isDef(fa.X.Type()) {
						obj++
						if !localBase(fa.X, 0) {
							c.report("C24", fnName(fn)+": "+fieldSel(fa.X.Type(), fa.Field), p.pos(in.Pos()), "the definition of a flow is changed at run time: %s is set", fieldSel(fa.X.Type(), fa.Field))
						}
						continue
					}
				}
				switch in.(type) {
				case *ssa.MapUpdate, *ssa.Store, ssa.CallInstruction:
					writes++
				}
				if w, ok := f.writes(in); ok && !syncedWrite(in) {
					c.report("C24", fnName(fn)+": "+w, p.pos(in.Pos()), "the definition of a flow is changed at run time: %s", w)
				}
			}
		}
	}
	if profOn {
		for v := range f.val {
			if v.Parent() != nil && run[v.Parent()] {
				println(p.pos(v.Pos()), fnName(v.Parent()), v.Name(), v.Type().String())
			}
		}
	}
	c.must("functions that run flows", len(run), 150)
	c.must("reads of collections of definitions", sources, 10)
	c.must("references into definitions", len(f.val), 20)
	c.must("possible writes examined", writes, 500)
}

// declaration: the metadata of a flow or an activity.
func declaration(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Name() == "IOMetadata" || n.Obj().Name() == "Metadata") && !strings.HasPrefix(n.Obj().Pkg().Path(), flowMod)
}

// syncedWrite: the instruction is executed while a lock is held.
func syncedWrite(in ssa.Instruction) bool {
	fn := in.Parent()
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			if _, op := lockOp(&c.Call); op == "Lock" {
				if b == in.Block() {
					for _, y := range b.Instrs[i:] {
						if y == in {
							return true
						}
					}
				} else if b.Dominates(in.Block()) {
					return true
				}
			}
		}
	}
	return false
}

func globalEffects(c *Ctx) {
	p := c.P
	run := reachable(p, runRoots(p), func(f *ssa.Function) bool { return strings.HasPrefix(f.Name(), "init") && f.Parent() == nil })
	f := newFlow(p)
	sources := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if t, ok := in.(*ssa.UnOp); ok && t.Op == token.MUL {
					if g, ok := t.X.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), flowMod) {
						switch t.Type().Underlying().(type) {
						case *types.Map, *types.Slice, *types.Pointer:
							sources++
							f.add(t)
						}
					}
				}
			}
		}
	}
	f.run()
	writes := 0
	for _, fn := range p.Funcs {
		if !run[fn] {
			continue
		}
		c.fns[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.MapUpdate, *ssa.Store, ssa.CallInstruction:
					writes++
				}
				what, bad := f.writes(in)
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						what, bad = fmt.Sprintf("%s is set", g.Name()), true
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if g, ok := fa.X.(*ssa.Global); ok {
							what, bad = fmt.Sprintf("%s is set", g.Name()), true
						}
					}
				}
				if bad && !syncedWrite(in) {
					c.report("C25", fnName(fn)+": "+what, p.pos(in.Pos()), "state that all flows share is changed by running a flow: %s", what)
				}
			}
		}
	}
	c.must("functions that run flows", len(run), 150)
	c.must("reads of shared state", sources, 5)
	c.must("possible writes examined", writes, 500)
}

func init() {
	register("C24", definitionEffects, "no function reachable from running a flow writes to a definition or to what it refers to (field-based value flow)")
	register("C25", globalEffects, "no function reachable from running a flow writes to package-level state without a lock (field-based value flow)")
}
