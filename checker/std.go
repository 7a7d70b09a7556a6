package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constVal is the value of an integer constant of a package.
func (p *Program) constVal(pkg, name string) int64 {
	pk := p.pkg(abs(pkg))
	if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
		if i, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			return i
		}
	}
	anchorFail("constant %s.%s not found", pkg, name)
	return 0
}

// enums are the values of the enumerated types of the repository.
func (p *Program) enums() map[string][]int64 {
	m := map[string][]int64{}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			c, ok := sc.Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			nt, ok := types.Unalias(c.Type()).(*types.Named)
			if !ok {
				continue
			}
			if i, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				m[nt.String()] = append(m[nt.String()], i)
			}
		}
	}
	// an otherwise link is declared as an untyped constant
	lt := flowMod + "/definition.LinkType"
	if len(m[lt]) > 0 {
		m[lt] = append(m[lt], p.constVal("definition", "LtExprOtherwise"))
	}
	// the zero value of a link status means not evaluated yet
	ls := flowMod + "/model.LinkStatus"
	if len(m[ls]) > 0 {
		m[ls] = append(m[ls], 0)
	}
	for k, v := range m {
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
		var u []int64
		for i, d := range v {
			if i == 0 || d != v[i-1] {
				u = append(u, d)
			}
		}
		m[k] = u
	}
	return m
}

func enumHook(p *Program, only ...string) func(t types.Type) []int64 {
	es := p.enums()
	sel := map[string][]int64{}
	for _, o := range only {
		k := flowMod + "/" + o
		if len(es[k]) < 2 {
			anchorFail("enumerated type %s not found", o)
		}
		sel[k] = es[k]
	}
	return func(t types.Type) []int64 {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return sel[n.String()]
		}
		return nil
	}
}

// definition types never change once a flow is built; "$" marks facts of the rules.
var definitionTypes = []string{"Definition", "Task", "Link", "ActivityConfig", "LoopConfig", "retryOnErrConfig", "ErrorHandler"}

func immutableHook(extra ...string) func(f string) bool {
	ex := map[string]bool{}
	for _, e := range extra {
		ex[e] = true
	}
	return func(f string) bool {
		if strings.HasPrefix(f, "$") || ex[f] || f == "members" || f == "mklen" {
			return true
		}
		for _, d := range definitionTypes {
			if strings.HasPrefix(f, d+".") {
				return true
			}
		}
		return false
	}
}

func newErr(x *Exec, s *State, name string) *Term {
	e := x.fresh(name, nil)
	s.neq[ordered(e, tNil)] = true
	return e
}

// isStd: a package of the standard library.
func isStd(id string) bool {
	i := strings.Index(id, ".")
	if i < 0 {
		return false
	}
	p := id[:i]
	if j := strings.Index(p, "/"); j >= 0 {
		p = p[:j]
	}
	switch p {
	case "flow", "model", "instance", "definition", "support", "util", "state", "tester", "ondemand", "activity", "core":
		return false
	}
	return !strings.Contains(p, ".") && !strings.HasPrefix(id, "func:")
}

// stdCall models the calls that do not matter to the properties: logging, tracing, formatting.
func stdCall(x *Exec, s *State, c *Call) (Action, []Outcome) {
	id := c.ID
	switch {
	case id == "fmt.Errorf" || id == "errors.New":
		return ActModel, []Outcome{{Mod: func(s *State) bool { s.regs["$res"] = newErr(x, s, "err"); return true }}}
	case strings.HasPrefix(id, "core/support/log."):
		if strings.HasSuffix(id, "Enabled") {
			return ActPure, nil
		}
		if r := c.Sig.Results(); r.Len() == 1 {
			return ActModel, []Outcome{{Mod: func(s *State) bool { s.regs["$res"] = nonNilResult(x, s, r.At(0).Type(), "logger"); return true }}}
		}
		return ActPure, nil
	case strings.HasPrefix(id, "core/support/trace."):
		if id == "core/support/trace.Enabled" {
			return ActModel, []Outcome{{Res: tFalse}}
		}
		return ActPure, nil
	case id == "core/engine/event.HasListener":
		return ActModel, []Outcome{{Res: tFalse}}
	case strings.HasPrefix(id, "core/engine/event."), id == "core/activity.GetRef":
		return ActPure, nil
	case id == "encoding/json.Unmarshal", id == "encoding/json.Decoder.Decode":
		return ActDefault, nil
	case strings.HasPrefix(id, "sync."), strings.HasPrefix(id, "sync/atomic."):
		return ActPure, nil
	case id == "error.Error" || id == ".error.Error":
		return ActModel, []Outcome{{Res: mkOp("errtext", c.Recv)}}
	case isStd(id):
		return ActPure, nil
	}
	return ActDefault, nil
}

func nonNilResult(x *Exec, s *State, t types.Type, name string) *Term {
	r := x.fresh(name, t)
	s.neq[ordered(r, tNil)] = true
	return r
}

// fld is the address of a field.
func fld(base *Term, sel string) *Term { return mkAddr(base, sel) }

// known is the value of a location, if the state knows it.
func (s *State) at(base *Term, sel string) *Term { return s.heap[mkAddr(base, sel)] }

func hasPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), flowMod)
}

func argOfType(c *Call, name string) *Term {
	if c.Fn == nil {
		return nil
	}
	for i, p := range c.Fn.Params {
		if hasPtrTo(p.Type(), name) && i < len(c.all) {
			return c.all[i]
		}
	}
	return nil
}

var _ = ssa.Function{}

// strVal is the value of a string constant of a package.
func (p *Program) strVal(pkg, name string) string {
	if c, ok := p.pkg(abs(pkg)).Types.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
		return constant.StringVal(c.Val())
	}
	anchorFail("constant %s.%s not found", pkg, name)
	return ""
}
