package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of an abstract value.
type Kind uint8

const (
	KNil Kind = iota
	KInt
	KBool
	KStr
	KObj   // the address of an object: non nil, distinct from every other object
	KSym   // an unknown value
	KAddr  // address of a location: base + selector (op)
	KFunc  // a function
	KClos  // a closure: fn + bindings (args)
	KTuple // several values, also struct values
	KOp    // an operation on values
)

// Term is an interned abstract value.
type Term struct {
	id   int
	kind Kind
	op   string
	i    int64
	args []*Term
	typ  types.Type
	fn   *ssa.Function
	sy   []*Term
	syOK bool
}

// syms lists the anonymous symbols a term mentions.
func (t *Term) syms() []*Term {
	if t.syOK {
		return t.sy
	}
	t.syOK = true
	if (t.kind == KSym || t.kind == KObj) && t.i == 1 {
		t.sy = []*Term{t}
		return t.sy
	}
	for _, a := range t.args {
	next:
		for _, y := range a.syms() {
			for _, z := range t.sy {
				if z == y {
					continue next
				}
			}
			t.sy = append(t.sy, y)
		}
	}
	return t.sy
}

// Terms interns abstract values.
type Terms struct {
	n   int
	tab map[string]*Term
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

var tm = newTerms()

var (
	tNil   *Term
	tTrue  *Term
	tFalse *Term
	tZero  *Term
	tStar  *Term
)

func init() { resetTerms() }

func resetTerms() {
	tm = newTerms()
	tNil = tm.mk(KNil, "nil", 0, nil, nil)
	tTrue = tm.mk(KBool, "true", 1, nil, nil)
	tFalse = tm.mk(KBool, "false", 0, nil, nil)
	tZero = mkInt(0)
	tStar = tm.mk(KOp, "*", 0, nil, nil)
}

func (t *Terms) mk(k Kind, op string, i int64, args []*Term, fn *ssa.Function) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|", k, op, i)
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	if fn != nil {
		fmt.Fprintf(&sb, "|%p", fn)
	}
	key := sb.String()
	if x := t.tab[key]; x != nil {
		return x
	}
	t.n++
	x := &Term{id: t.n, kind: k, op: op, i: i, args: args, fn: fn}
	t.tab[key] = x
	return x
}

func (t *Terms) fresh(k Kind, name string, typ types.Type) *Term {
	t.n++
	return &Term{id: t.n, kind: k, op: name, typ: typ, i: 1}
}

// named creates a token or symbol with a stable name (i == 0: not renumbered).
func (t *Terms) named(k Kind, name string, typ types.Type) *Term {
	key := fmt.Sprintf("named|%d|%s", k, name)
	if x := t.tab[key]; x != nil {
		return x
	}
	t.n++
	x := &Term{id: t.n, kind: k, op: name, typ: typ}
	t.tab[key] = x
	return x
}

func mkInt(i int64) *Term { return tm.mk(KInt, "", i, nil, nil) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term                     { return tm.mk(KStr, s, 0, nil, nil) }
func mkAddr(base *Term, sel string) *Term      { return tm.mk(KAddr, sel, 0, []*Term{base}, nil) }
func mkIdx(base, idx *Term) *Term              { return tm.mk(KAddr, "[]", 0, []*Term{base, idx}, nil) }
func mkKey(base, key *Term) *Term              { return tm.mk(KAddr, "{}", 0, []*Term{base, key}, nil) }
func mkHas(base, key *Term) *Term              { return tm.mk(KAddr, "?{}", 0, []*Term{base, key}, nil) }
func mkFunc(fn *ssa.Function) *Term            { return tm.mk(KFunc, "", 0, nil, fn) }
func mkClos(fn *ssa.Function, b []*Term) *Term { return tm.mk(KClos, "", 0, b, fn) }
func mkTuple(args ...*Term) *Term              { return tm.mk(KTuple, "", 0, args, nil) }

func hasStar(b *Term) bool {
	for _, a := range b.args {
		if isMany(a) {
			return true
		}
	}
	return false
}

// mkMany stands for any number of other elements that share the facts known about a representative.
func mkMany(rep *Term) *Term { return tm.mk(KOp, "many", 0, []*Term{rep}, nil) }

func isMany(t *Term) bool { return t == tStar || t.kind == KOp && t.op == "many" }

// mkBag is a slice value known as a bag of elements; tStar stands for any number of others.
// mkBag is the collection of the elements in any order.
func mkBag(elems []*Term) *Term {
	es := append([]*Term(nil), elems...)
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	return tm.mk(KOp, "bag", 0, es, nil)
}

func mkOp(op string, args ...*Term) *Term {
	switch op {
	case "!":
		a := args[0]
		if a.kind == KBool {
			return mkBool(a == tFalse)
		}
		if a.kind == KOp && a.op == "!" {
			return a.args[0]
		}
	case "+":
		return addInt(args[0], args[1].i)
	case "==":
		if args[0].id > args[1].id {
			args[0], args[1] = args[1], args[0]
		}
	case "bag":
		return mkBag(args)
	case "len":
		a := args[0]
		if a == tNil {
			return mkInt(0)
		}
		if a.isBag() && !hasStar(a) {
			return mkInt(int64(len(a.args)))
		}
		if a.kind == KStr {
			return mkInt(int64(len(a.op)))
		}
	case "strcat":
		a, b := args[0], args[1]
		if a.kind == KStr && b.kind == KStr {
			return mkStr(a.op + b.op)
		}
		if b.kind == KStr && a.kind == KOp && a.op == "strcat" && a.args[1].kind == KStr {
			return mkOp("strcat", a.args[0], mkStr(a.args[1].op+b.op))
		}
	}
	return tm.mk(KOp, op, 0, args, nil)
}

// addInt is a + k.
func addInt(a *Term, k int64) *Term {
	b, c := lin(a)
	c += k
	if b == tZero {
		return mkInt(c)
	}
	if c == 0 {
		return b
	}
	return tm.mk(KOp, "+", c, []*Term{b}, nil)
}

// lin splits an integer term in base + constant.
func lin(t *Term) (*Term, int64) {
	if t.kind == KInt {
		return tZero, t.i
	}
	if t.kind == KOp && t.op == "+" {
		return t.args[0], t.i
	}
	return t, 0
}

func (t *Term) isConst() bool {
	return t.kind == KInt || t.kind == KBool || t.kind == KStr || t.kind == KNil
}

func (t *Term) isBag() bool { return t.kind == KOp && t.op == "bag" }

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	switch t.kind {
	case KNil:
		return "nil"
	case KInt:
		return fmt.Sprint(t.i)
	case KBool:
		return t.op
	case KStr:
		return fmt.Sprintf("%q", t.op)
	case KObj:
		return "&" + t.op
	case KSym:
		return t.op
	case KAddr:
		s := t.args[0].String()
		if t.op == "[]" {
			return s + "[" + t.args[1].String() + "]"
		}
		if t.op == "{}" || t.op == "?{}" {
			return s + "{" + t.args[1].String() + "}"
		}
		return s + "." + t.op
	case KFunc:
		return fnName(t.fn)
	case KClos:
		return "closure " + fnName(t.fn)
	}
	if t.kind == KOp && t.op == "+" {
		return fmt.Sprintf("%s%+d", t.args[0], t.i)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return t.op + "(" + strings.Join(as, ",") + ")"
}

// mentions reports whether x occurs in t.
func (t *Term) mentions(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.mentions(x) {
			return true
		}
	}
	return false
}

// substTerm replaces from by to in t.
func substTerm(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if len(t.args) == 0 {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substTerm(a, from, to, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		switch {
		case t.kind == KOp && t.op == "+":
			r = addInt(args[0], t.i)
		case t.kind == KOp:
			r = mkOp(t.op, args...)
		default:
			r = tm.mk(t.kind, t.op, t.i, args, t.fn)
		}
	}
	memo[t] = r
	return r
}
