package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C37: a flow is looked up by its uri. What can't be read, fetched or built is reported and not kept; what is read is what
// the flow is built from, uncompressed if it is compressed.

// lookupFails: a call of which the last result is an error, or a bool that says whether it succeeded, succeeds with r or
// fails.
func lookupFails(r *Term, ok bool) []Outcome {
	good, bad := tNil, tm.named(KObj, "failure", nil)
	if ok {
		good, bad = tTrue, tFalse
	}
	return []Outcome{{Mod: func(n *State) bool {
		n.regs["$res"] = good
		if r != nil {
			n.regs["$res"] = mkTuple(r, good)
		}
		return true
	}}, {Mod: func(n *State) bool {
		n.setNum("failed", 1)
		n.regs["$res"] = bad
		if r != nil {
			n.regs["$res"] = mkTuple(tNil, bad)
		}
		return true
	}}}
}

func lookupHooks(call func(x *Exec, s *State, c *Call) (Action, []Outcome)) Hooks {
	return Hooks{
		MaxStates: 200000,
		KeepKeys:  true,
		MayPanic:  func(c *Call) bool { return false },
		Recursive: func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActPure, nil },
		Load: func(x *Exec, s *State, a *Term, t types.Type) *Term {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Logger" {
				return nonNilResult(x, s, t, "logger")
			}
			return nil
		},
		Call: func(x *Exec, s *State, c *Call) (Action, []Outcome) {
			if c.Builtin != "" {
				return ActDefault, nil
			}
			if a, o := call(x, s, c); a != ActDefault {
				return a, o
			}
			if c.Fn != nil && !c.Invoke && InRepo(c.Fn) && len(c.Fn.Blocks) > 0 && fnPkg(c.Fn).Path() == flowMod+"/support" {
				return ActInline, nil
			}
			if a, o := stdCall(x, s, c); a != ActDefault {
				return a, o
			}
			return ActPure, nil
		},
	}
}

// lookupUnwrap: the data behind a conversion.
func lookupUnwrap(t *Term) *Term {
	for t != nil && t.kind == KOp && strings.HasPrefix(t.op, "conv:") {
		t = t.args[0]
	}
	return t
}

// lookupProvider: what a provider of flow descriptions makes of one uri.
func lookupProvider(c *Ctx, fn *ssa.Function, scheme, form string, status int64, tot map[string]int) {
	what := scheme + ", " + form
	uri := tm.named(KObj, "uri", types.Typ[types.String])
	path := tm.named(KObj, "path of the uri", types.Typ[types.String])
	content := tm.named(KObj, "content", types.NewSlice(types.Typ[types.Byte]))
	self, resp, rep := tm.named(KObj, "provider", nil), tm.named(KObj, "response", nil), tm.named(KObj, "description", nil)
	head := tm.named(KObj, "header value", types.Typ[types.String])
	s := newState()
	s.heap[fld(resp, "Response.StatusCode")] = mkInt(status)
	s.heap[fld(resp, "Response.Body")] = content
	s.heap[fld(resp, "Response.Status")] = tm.named(KSym, "status text", types.Typ[types.String])
	bytes, n := []int64{}, int64(-1) // the first bytes
	switch form {
	case "compressed":
		bytes = []int64{0x1f, 0x8b}
	case "first byte differs":
		bytes = []int64{'{', 0x8b}
	case "second byte differs":
		bytes = []int64{0x1f, '{'}
	case "one byte":
		bytes, n = []int64{0x1f}, 1
	case "empty":
		n = 0
	}
	if scheme == "file" {
		s.addDiff(tZero, mkOp("len", content), map[bool]int64{true: -2, false: -n}[n < 0])
		if n >= 0 {
			s.addDiff(mkOp("len", content), tZero, n)
		}
	}
	want := content
	if form == "compressed" {
		if scheme == "http" {
			want = mkOp("decoded", want)
		}
		want = mkOp("unzipped", want)
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "flow lookup: "+id+" ("+what+")", pos, format, args...)
	}
	h := lookupHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		r := c.Sig.Results()
		arg := func(i int) *Term { return lookupUnwrap(c.Args[i]) }
		switch {
		case c.ID == "strings.HasPrefix" && arg(0) == uri:
			if arg(1).kind == KStr {
				return ActModel, []Outcome{{Res: mkBool(arg(1).op == scheme+"://")}}
			}
		case c.ID == "bytes.HasPrefix" && arg(0) == content:
			return ActModel, []Outcome{{Res: mkBool(form == "compressed")}}
		case c.ID == "core/support.URLStringToFilePath":
			if arg(0) != uri {
				bad(x, s, "path", c.Instr.Pos(), "the path isn't that of the uri")
			}
			return ActModel, lookupFails(path, true)
		case c.ID == "os.ReadFile" || c.ID == "io/ioutil.ReadFile" || c.ID == "os.Open":
			x.count("read")
			if arg(0) != path || scheme != "file" {
				bad(x, s, "path", c.Instr.Pos(), "the file that is read isn't that of the uri")
			}
			return ActModel, lookupFails(content, false)
		case c.ID == "net/http.NewRequest" || c.ID == "net/http.NewRequestWithContext":
			i := len(c.Args) - 3
			if arg(i+1) != uri || arg(i).kind != KStr || arg(i).op != "GET" {
				bad(x, s, "request", c.Instr.Pos(), "what is requested isn't the uri")
			}
			return ActModel, lookupFails(tm.named(KObj, "request", nil), false)
		case strings.HasPrefix(c.ID, "net/http.") && r.Len() == 2 && isErrType(r.At(1).Type()) && isPtrNamed(r.At(0).Type(), "Response"):
			x.count("read")
			if scheme != "http" || arg(0) != uri && arg(0) != tm.named(KObj, "request", nil) {
				bad(x, s, "request", c.Instr.Pos(), "what is requested isn't the uri")
			}
			return ActModel, lookupFails(resp, false)
		case c.ID == "net/http.Header.Get":
			if arg(0).kind == KStr && strings.EqualFold(arg(0).op, "flow-compressed") {
				return ActModel, []Outcome{{Res: head}}
			}
			return ActPure, nil
		case (c.ID == "strings.ToLower" || c.ID == "strings.ToUpper") && arg(0) == head:
			v := map[bool]string{true: "true", false: "false"}[form == "compressed"]
			if c.ID == "strings.ToUpper" {
				v = strings.ToUpper(v)
			}
			return ActModel, []Outcome{{Res: mkStr(v)}}
		case c.ID == "strings.EqualFold" && (arg(0) == head || arg(1) == head):
			o := arg(0)
			if o == head {
				o = arg(1)
			}
			if o.kind == KStr {
				return ActModel, []Outcome{{Res: mkBool(strings.EqualFold(o.op, "true") == (form == "compressed"))}}
			}
		case c.ID == "bytes.NewBuffer" || c.ID == "bytes.NewReader" || c.ID == "bytes.NewBufferString" || c.ID == "strings.NewReader" || c.ID == "bufio.NewReader":
			return ActModel, []Outcome{{Res: arg(0)}}
		case c.ID == "io.ReadAll" || c.ID == "io/ioutil.ReadAll":
			return ActModel, lookupFails(arg(0), false)
		case c.ID == "compress/gzip.NewReader":
			return ActModel, lookupFails(mkOp("unzipped", arg(0)), false)
		case c.ID == "encoding/base64.Encoding.DecodeString":
			return ActModel, lookupFails(mkOp("decoded", arg(0)), false)
		case c.ID == "encoding/base64.NewDecoder":
			return ActModel, []Outcome{{Res: mkOp("decoded", arg(1))}}
		case c.ID == "encoding/json.NewDecoder":
			return ActModel, []Outcome{{Res: mkOp("json decoder", arg(0))}}
		case c.ID == "encoding/json.Unmarshal" || c.ID == "encoding/json.Decoder.Decode":
			x.count("parsed")
			var data, to *Term
			if c.ID == "encoding/json.Unmarshal" {
				data, to = arg(0), c.Args[1]
			} else {
				if c.Recv.kind == KOp && c.Recv.op == "json decoder" {
					data = c.Recv.args[0]
				}
				to = c.Args[0]
			}
			if data != want {
				bad(x, s, "content", c.Instr.Pos(), "the description isn't read from what the uri leads to, uncompressed if it is compressed")
			}
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.setNum("parsed", 1)
				n.heap[to] = rep
				n.regs["w:parsed"] = to
				n.regs["$res"] = tNil
				return true
			}}, {Mod: func(n *State) bool {
				n.setNum("failed", 1)
				n.regs["$res"] = tm.named(KObj, "failure", nil)
				return true
			}}}
		}
		return ActDefault, nil
	})
	load := h.Load
	h.Load = func(x *Exec, s *State, a *Term, t types.Type) *Term {
		if scheme == "file" && a == mkIdx(content, mkInt(0)) && len(bytes) > 0 {
			return mkInt(bytes[0])
		}
		if scheme == "file" && a == mkIdx(content, mkInt(1)) && len(bytes) > 1 {
			return mkInt(bytes[1])
		}
		if a.kind == KAddr && a.op == "[]" && len(a.args) == 2 && a.args[0] == content && a.args[1].kind == KInt && n >= 0 && a.args[1].i >= n {
			bad(x, s, "index", token.NoPos, "a byte beyond the end of the content is read")
			return mkInt(0)
		}
		return load(x, s, a, t)
	}
	h.Immutable = func(f string) bool { return strings.HasPrefix(f, "Response.") }
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "looking up a flow panics") }
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 2 {
			return
		}
		refused := scheme != "file" && scheme != "http" || scheme == "http" && status >= 300
		if s.is("failed") || refused {
			x.count("refused")
			if s.eq(res[1], tNil) != No {
				bad(x, s, "error dropped", pos, "a flow that can't be read, fetched or understood isn't reported as an error")
			}
			return
		}
		x.count("found")
		if s.eq(res[1], tNil) != Yes {
			bad(x, s, "refused", pos, "a flow is refused although nothing about it failed")
		} else if res[0] != rep && (res[0] == tNil || res[0] != s.get("w:parsed")) {
			bad(x, s, "result", pos, "the description that is returned isn't the one that was read")
		}
	}
	x := newExec(c.P, "lookup", h)
	x.roots = append(x.roots, self, resp, rep, content, uri, path, head)
	x.Run(fn, s, []*Term{self, uri})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["provider: "+k] += n
	}
}

func isPtrNamed(t types.Type, name string) bool {
	q, ok := types.Unalias(t).(*types.Pointer)
	return ok && isNamed(q.Elem(), name)
}

// lookupManager: a flow is asked for once and kept.
func lookupManager(c *Ctx, how string, tot map[string]int) {
	p := c.P
	fn := p.Method("support", "FlowManager", "GetFlow")
	s := newState()
	self, flows, kept := tm.named(KObj, "manager", nil), tm.named(KObj, "kept flows", nil), tm.named(KObj, "kept flow", nil)
	prov, rep, def := tm.named(KObj, "provider", nil), tm.named(KObj, "description", nil), tm.named(KObj, "built flow", nil)
	uri := tm.named(KObj, "uri", types.Typ[types.String])
	other := tm.named(KObj, "another uri", types.Typ[types.String])
	s.neq[ordered(uri, other)] = true
	if how == "nothing kept yet" {
		flows = tNil
	} else {
		s.heap[mkHas(flows, uri)] = mkBool(how == "kept")
		s.heap[mkKey(flows, uri)] = tNil
		if how == "kept" {
			s.heap[mkKey(flows, uri)] = kept
		}
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "flow manager: "+id+" ("+how+")", pos, format, args...)
	}
	h := lookupHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case strings.HasSuffix(c.ID, "definition.Provider.GetFlow"):
			x.count("asked")
			if how == "kept" || s.is("asked") {
				bad(x, s, "asked", c.Instr.Pos(), "the provider is asked again for a flow that is kept")
			}
			if lookupUnwrap(c.Args[0]) != uri || c.Recv != prov {
				bad(x, s, "uri", c.Instr.Pos(), "the provider isn't asked for the uri")
			}
			s.setNum("asked", 1)
			return ActModel, lookupFails(rep, false)
		case c.ID == "flow/definition.NewDefinition" || strings.HasSuffix(c.ID, "/definition.NewDefinition") || c.ID == "definition.NewDefinition":
			x.count("built")
			if c.Args[0] != rep {
				bad(x, s, "description", c.Instr.Pos(), "the flow isn't built from the description the provider gave")
			}
			return ActModel, []Outcome{{Res: mkTuple(def, tNil)}, {Mod: func(n *State) bool {
				n.setNum("failed", 1)
				n.regs["$res"] = mkTuple(tm.named(KObj, "broken flow", nil), tm.named(KObj, "failure", nil))
				return true
			}}}
		}
		return ActDefault, nil
	})
	load := h.Load
	h.Load = func(x *Exec, s *State, a *Term, t types.Type) *Term {
		if isNamed(t, "Provider") {
			return prov
		}
		return load(x, s, a, t)
	}
	isFlows := func(m *Term) bool { return m.typ == nil || strings.Contains(m.typ.String(), "Definition") }
	h.MapUpdate = func(x *Exec, s *State, m, k, v *Term, pos token.Pos) {
		if !isFlows(m) {
			return
		}
		if m == tNil {
			bad(x, s, "no map", pos, "a flow is kept before there is anything to keep it in")
		}
		if k != uri || v != def && v != kept || s.is("failed") {
			bad(x, s, "kept", pos, "something else than the built flow is kept under the uri")
			return
		}
		s.setNum("kept", 1)
	}
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "looking up a flow panics") }
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		if len(res) != 2 {
			return
		}
		if s.is("failed") {
			x.count("failed")
			if s.eq(res[1], tNil) != No {
				bad(x, s, "error dropped", pos, "a flow that can't be provided or built isn't reported as an error")
			}
			return
		}
		x.count("found")
		want := def
		if how == "kept" {
			want = kept
		}
		if s.eq(res[1], tNil) != Yes || res[0] != want {
			bad(x, s, "result", pos, "the flow that is returned isn't the one that is kept or was built")
		}
		if how != "kept" {
			if !s.is("kept") {
				bad(x, s, "forgotten", pos, "a flow that was built isn't kept, so the next lookup gives another one")
			}
			fl := s.at(self, lookupField(p, "FlowManager", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }))
			if fl == nil || s.heap[mkKey(fl, uri)] != def {
				bad(x, s, "forgotten", pos, "a flow that was built isn't kept, so the next lookup gives another one")
			}
		}
	}
	s.heap[fld(self, lookupField(p, "FlowManager", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }))] = flows
	x := newExec(p, "lookup", h)
	x.roots = append(x.roots, self, flows, kept, prov, rep, def, uri)
	x.Run(fn, s, []*Term{self, uri})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["manager: "+k] += n
	}
}

func lookupField(p *Program, typ string, ok func(t types.Type) bool) string {
	st := p.Named("support", typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			return typ + "." + st.Field(i).Name()
		}
	}
	anchorFail("a field of %s not found", typ)
	return ""
}

// lookupNew: the manager uses the provider it is given, or one of its own.
func lookupNew(c *Ctx, given bool, tot map[string]int) (mapped bool) {
	p := c.P
	fn := p.Func("support", "NewFlowManager")
	prov := tm.named(KObj, "given provider", nil)
	if !given {
		prov = tNil
	}
	mapped = true
	h := lookupHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) { return ActDefault, nil })
	h.Return = func(x *Exec, s *State, res []*Term, pos token.Pos) {
		x.count("new")
		v := s.at(res[0], lookupField(p, "FlowManager", func(t types.Type) bool { return isNamed(t, "Provider") }))
		if v == nil || given && v != prov || !given && (v == tNil || s.eq(v, tNil) == Yes) {
			x.report(s, "flow manager: provider", pos, "a flow manager doesn't use the provider it is given, or has none")
		}
		m := s.at(res[0], lookupField(p, "FlowManager", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }))
		if m == nil || m == tNil {
			mapped = false
		}
	}
	x := newExec(p, "lookup", h)
	x.roots = append(x.roots, prov)
	x.Run(fn, newState(), []*Term{prov})
	c.absorb(x, nil)
	tot["new"] += x.counts["new"]
	return mapped
}

// lookupDefinition: embedded flows come from the resources of the application, others from the flow manager.
func lookupDefinition(c *Ctx, how string, tot map[string]int) {
	p := c.P
	fn := p.Func("support", "GetDefinition")
	s := newState()
	uri := tm.named(KObj, "uri", types.Typ[types.String])
	fm, rm, res, def := tm.named(KObj, "flow manager", nil), tm.named(KObj, "resource manager", nil), tm.named(KObj, "resource", nil), tm.named(KObj, "flow", p.ptrTo("definition", "Definition"))
	remote := tm.named(KObj, "remote flow", nil)
	obj := tm.named(KSym, "object of the resource", nil)
	embedded := how != "remote"
	switch how {
	case "another kind of resource":
		s.dyn[obj] = types.Typ[types.Int]
		s.neq[ordered(obj, tNil)] = true
	case "a resource without content":
		obj = tNil
	case "a flow":
		obj = def
		s.dyn[def] = p.ptrTo("definition", "Definition")
	}
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "flow lookup: "+id+" ("+how+")", pos, format, args...)
	}
	h := lookupHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.ID == "strings.HasPrefix" && c.Args[0] == uri && c.Args[1].kind == KStr:
			return ActModel, []Outcome{{Res: mkBool(embedded && c.Args[1].op == "res://")}}
		case c.ID == "core/app/resource.Manager.GetResource":
			x.count("resources")
			if c.Args[0] != uri || c.Recv != rm || !embedded {
				bad(x, s, "resource", c.Instr.Pos(), "the resource that is looked up isn't that of the uri")
			}
			if how == "no such resource" {
				return ActModel, []Outcome{{Res: tNil}}
			}
			return ActModel, []Outcome{{Res: res}}
		case c.ID == "core/app/resource.Resource.Object":
			if c.Recv != res {
				return ActModel, []Outcome{{Mod: func(n *State) bool {
					bad(x, n, "panic", c.Instr.Pos(), "the content of no resource is used")
					return false
				}}}
			}
			return ActModel, []Outcome{{Res: obj}}
		case strings.HasSuffix(c.ID, "support.FlowManager.GetFlow"):
			x.count("managed")
			if c.Args[0] != uri || c.Recv != fm || embedded {
				bad(x, s, "manager", c.Instr.Pos(), "the flow manager isn't asked for the uri of a flow that isn't embedded")
			}
			return ActModel, lookupFails(remote, false)
		}
		return ActDefault, nil
	})
	load := h.Load
	h.Load = func(x *Exec, s *State, a *Term, t types.Type) *Term {
		if isPtrNamed(t, "FlowManager") {
			return fm
		}
		if isPtrNamed(t, "Manager") {
			return rm
		}
		return load(x, s, a, t)
	}
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "looking up a flow panics") }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		x.count("lookups")
		switch {
		case s.is("failed"):
			if s.eq(r[2], tNil) != No {
				bad(x, s, "error dropped", pos, "a flow that can't be looked up isn't reported as an error")
			}
		case how == "remote":
			if r[0] != remote || s.eq(r[2], tNil) != Yes || s.decide(r[1]) != No {
				bad(x, s, "result", pos, "a flow that isn't embedded isn't the one of the flow manager")
			}
		case how == "a flow":
			if r[0] != def || s.eq(r[2], tNil) != Yes || s.decide(r[1]) != Yes {
				bad(x, s, "result", pos, "an embedded flow isn't the one of its resource")
			}
		default:
			if s.eq(r[0], tNil) != Yes {
				bad(x, s, "result", pos, "there is a flow for a resource that doesn't exist or isn't a flow")
			}
		}
	}
	x := newExec(p, "lookup", h)
	x.roots = append(x.roots, uri, fm, rm, res, def, remote, obj)
	x.Run(fn, s, []*Term{uri})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["definition: "+k] += n
	}
}

// lookupLoader: a flow resource is the flow its data describes.
func lookupLoader(c *Ctx, fn *ssa.Function, tot map[string]int) {
	p := c.P
	s := newState()
	self, cfg, data := tm.named(KObj, "loader", nil), tm.named(KObj, "config", nil), tm.named(KObj, "data", types.NewSlice(types.Typ[types.Byte]))
	rep, def := tm.named(KObj, "description", nil), tm.named(KObj, "built flow", nil)
	made := tm.named(KObj, "made resource", nil)
	s.heap[fld(cfg, "Config.Data")] = data
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "flow resource: "+id, pos, format, args...)
	}
	h := lookupHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.ID == "encoding/json.Unmarshal":
			if lookupUnwrap(c.Args[0]) != data {
				bad(x, s, "data", c.Instr.Pos(), "a flow resource isn't read from its data")
			}
			to := c.Args[1]
			return ActModel, []Outcome{{Mod: func(n *State) bool {
				n.heap[to] = rep
				n.regs["w:parsed"] = to
				n.regs["$res"] = tNil
				return true
			}}, lookupFails(nil, false)[1]}
		case strings.HasSuffix(c.ID, "definition.NewDefinition"):
			if c.Args[0] != rep && c.Args[0] != s.get("w:parsed") {
				bad(x, s, "description", c.Instr.Pos(), "a flow resource isn't built from its description")
			}
			return ActModel, lookupFails(def, false)
		case c.ID == "core/app/resource.New":
			if c.Args[0].kind != KStr || c.Args[0].op != "flow" || c.Args[1] != def {
				bad(x, s, "resource", c.Instr.Pos(), "a flow resource isn't the flow that was built")
			}
			return ActModel, []Outcome{{Res: made}}
		}
		return ActDefault, nil
	})
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "loading a flow resource panics") }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		if s.is("failed") {
			x.count("refused")
			if s.eq(r[1], tNil) != No {
				bad(x, s, "error dropped", pos, "a flow resource that can't be read or built isn't reported as an error")
			}
			return
		}
		x.count("loaded")
		if s.eq(r[1], tNil) != Yes || r[0] != made {
			bad(x, s, "result", pos, "a flow resource isn't the flow that was built")
		}
	}
	x := newExec(p, "lookup", h)
	x.roots = append(x.roots, self, cfg, data, rep, def, made)
	x.Run(fn, s, []*Term{self, cfg})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["loader: "+k] += n
	}
}

// lookupSet: each resource that is set is loaded by the loader of its type and stored under its id.
func lookupSet(c *Ctx, tot map[string]int) {
	p := c.P
	fn := p.Func("support", "SetResource")
	s := newState()
	list, cfg := tm.named(KObj, "resources", nil), tm.named(KObj, "tracked resource", nil)
	id, typ := tm.named(KObj, "its id", types.Typ[types.String]), tm.named(KObj, "its type", types.Typ[types.String])
	loader, res, rm := tm.named(KObj, "its loader", nil), tm.named(KObj, "loaded resource", nil), tm.named(KObj, "resource manager", nil)
	s.heap[fld(cfg, "Config.ID")] = id
	bad := func(x *Exec, s *State, id string, pos token.Pos, format string, args ...interface{}) {
		x.report(s, "setting resources: "+id, pos, format, args...)
	}
	h := lookupHooks(func(x *Exec, s *State, c *Call) (Action, []Outcome) {
		switch {
		case c.ID == "core/app/resource.GetTypeFromID":
			t := typ
			if c.Args[0] != id {
				t = tm.named(KObj, "another type", types.Typ[types.String])
			}
			return ActModel, lookupFails(t, false)
		case c.ID == "core/app/resource.GetLoader":
			l := loader
			if c.Args[0] != typ {
				l = tm.named(KObj, "another loader", nil)
			}
			return ActModel, []Outcome{{Res: l}, {Mod: func(n *State) bool {
				n.setNum("failed", 1)
				n.regs["$res"] = tNil
				return true
			}}}
		case strings.HasSuffix(c.ID, "resource.Loader.LoadResource"):
			if c.Recv == tNil {
				bad(x, s, "panic", c.Instr.Pos(), "a loader is used that doesn't exist")
			}
			r := tm.named(KObj, "another resource", nil)
			if c.Args[0] == cfg {
				if c.Recv != loader {
					bad(x, s, "loader", c.Instr.Pos(), "a resource isn't loaded by the loader of its type")
				}
				r = res
			}
			return ActModel, lookupFails(r, false)
		case c.ID == "core/app/resource.Manager.SetResource":
			if s.is("failed") {
				bad(x, s, "failed", c.Instr.Pos(), "a resource is stored that could not be loaded")
			}
			if (c.Args[0] == id) != (c.Args[1] == res) || c.Recv != rm {
				bad(x, s, "id", c.Instr.Pos(), "a resource isn't stored under its id")
			} else if c.Args[1] == res {
				return ActModel, []Outcome{{Mod: func(n *State) bool { n.inc("set"); return true }}}
			}
			return ActPure, nil
		}
		return ActDefault, nil
	})
	load := h.Load
	h.Load = func(x *Exec, s *State, a *Term, t types.Type) *Term {
		if isPtrNamed(t, "Manager") {
			return rm
		}
		return load(x, s, a, t)
	}
	h.Coll = func(s *State, cc *Term) (k, e []*Term, others, ok bool) {
		if cc == list {
			return nil, []*Term{cfg}, true, true
		}
		return nil, nil, false, false
	}
	h.NewElem = func(x *Exec, s *State, cc, k, e *Term) {
		if cc == list {
			s.neq[ordered(e, tNil)] = true
			s.neq[ordered(e, cfg)] = true
		}
	}
	h.Immutable = func(f string) bool { return strings.HasPrefix(f, "Config.") }
	h.RootPanic = func(x *Exec, s *State, pos token.Pos) { bad(x, s, "panic", pos, "setting resources panics") }
	h.Return = func(x *Exec, s *State, r []*Term, pos token.Pos) {
		if s.is("failed") {
			x.count("refused")
			if s.eq(r[0], tNil) != No {
				bad(x, s, "error dropped", pos, "a resource that can't be loaded isn't reported as an error")
			}
			return
		}
		x.count("done")
		if s.eq(r[0], tNil) != Yes || s.num("set") != 1 {
			bad(x, s, "result", pos, "a resource isn't set exactly once")
		}
	}
	x := newExec(p, "lookup", h)
	x.roots = append(x.roots, list, cfg, id, typ, loader, res, rm)
	x.Run(fn, s, []*Term{list})
	c.absorb(x, nil)
	for k, n := range x.counts {
		tot["set: "+k] += n
	}
}

func lookupCheck(c *Ctx) {
	tot := map[string]int{}
	for _, fn := range implementers(c.P, c.P.Named("definition", "Provider"), "GetFlow") {
		if fnPkg(fn) == nil || fnPkg(fn).Path() != flowMod+"/support" {
			continue
		}
		for _, f := range []string{"compressed", "first byte differs", "second byte differs", "one byte", "empty"} {
			lookupProvider(c, fn, "file", f, 200, tot)
		}
		for _, f := range []string{"compressed", "not compressed"} {
			for _, st := range []int64{200, 299, 300, 404, 500} {
				lookupProvider(c, fn, "http", f, st, tot)
			}
		}
		lookupProvider(c, fn, "ftp", "not compressed", 200, tot)
	}
	a, b := lookupNew(c, true, tot), lookupNew(c, false, tot)
	for _, how := range []string{"kept", "not kept", "nothing kept yet"} {
		if how == "nothing kept yet" && a && b {
			continue
		}
		lookupManager(c, how, tot)
	}
	for _, how := range []string{"remote", "a flow", "no such resource", "another kind of resource", "a resource without content"} {
		lookupDefinition(c, how, tot)
	}
	for _, fn := range []*ssa.Function{c.P.Method("support", "FlowLoader", "LoadResource")} {
		lookupLoader(c, fn, tot)
	}
	lookupSet(c, tot)
	for _, k := range []string{"provider: read", "provider: parsed", "provider: found", "provider: refused", "manager: asked", "manager: found", "manager: failed", "new",
		"definition: lookups", "definition: resources", "definition: managed", "loader: loaded", "loader: refused", "set: done", "set: refused"} {
		c.must("lookup "+k, tot[k], 1)
	}
}

func init() {
	register("C37", lookupCheck, "what a provider makes of every kind of uri, content and response", "asking for a flow that is kept or isn't", "an embedded flow by the kind of its resource", "loading and setting resources")
}
