package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P03", "Path-sensitive analysis of every batch service from the dispatcher down (helpers, worker closures and defers inlined; work handed to the pool is analysed as if run once per submission). For each service: the operations are walked by a loop whose index runs over exactly the request's operation list; on every path through an iteration the result slot of that same index is written (or one result appended) before the task is reported done; the result list in the response has the length of the operation list, has been completely filled, and all submitted work has been waited for; no operation starts before the list was found non-empty and within the advertised limit of that service, and the two refusals use the standard status. Concurrent tasks share no variable that is written while they run. Historian results are the application's.", runP03)
}

type batchSpec struct {
	req, ops, resp, out string
	limit               string // OperationLimits field, "" = none advertised
	empty               bool   // an empty list must be refused
}

var batchSpecs = []batchSpec{
	{"BrowseRequest", "NodesToBrowse", "BrowseResponse", "Results", "MaxNodesPerBrowse", true},
	{"BrowseNextRequest", "ContinuationPoints", "BrowseNextResponse", "Results", "MaxNodesPerBrowse", true},
	{"TranslateBrowsePathsToNodeIDsRequest", "BrowsePaths", "TranslateBrowsePathsToNodeIDsResponse", "Results", "MaxNodesPerTranslateBrowsePathsToNodeIds", true},
	{"RegisterNodesRequest", "NodesToRegister", "RegisterNodesResponse", "RegisteredNodeIDs", "MaxNodesPerRegisterNodes", true},
	{"UnregisterNodesRequest", "NodesToUnregister", "UnregisterNodesResponse", "", "MaxNodesPerRegisterNodes", true},
	{"ReadRequest", "NodesToRead", "ReadResponse", "Results", "MaxNodesPerRead", true},
	{"WriteRequest", "NodesToWrite", "WriteResponse", "Results", "MaxNodesPerWrite", true},
	{"HistoryReadRequest", "NodesToRead", "HistoryReadResponse", "*historian", "MaxNodesPerHistoryReadData", true},
	{"CallRequest", "MethodsToCall", "CallResponse", "Results", "MaxNodesPerMethodCall", true},
	{"CreateMonitoredItemsRequest", "ItemsToCreate", "CreateMonitoredItemsResponse", "Results", "MaxMonitoredItemsPerCall", true},
	{"ModifyMonitoredItemsRequest", "ItemsToModify", "ModifyMonitoredItemsResponse", "Results", "MaxMonitoredItemsPerCall", true},
	{"SetMonitoringModeRequest", "MonitoredItemIDs", "SetMonitoringModeResponse", "Results", "MaxMonitoredItemsPerCall", true},
	{"SetTriggeringRequest", "LinksToAdd", "SetTriggeringResponse", "AddResults", "MaxMonitoredItemsPerCall", false},
	{"SetTriggeringRequest", "LinksToRemove", "SetTriggeringResponse", "RemoveResults", "MaxMonitoredItemsPerCall", false},
	{"DeleteMonitoredItemsRequest", "MonitoredItemIDs", "DeleteMonitoredItemsResponse", "Results", "MaxMonitoredItemsPerCall", true},
	{"SetPublishingModeRequest", "SubscriptionIDs", "SetPublishingModeResponse", "Results", "", true},
	{"DeleteSubscriptionsRequest", "SubscriptionIDs", "DeleteSubscriptionsResponse", "Results", "", true},
	{"PublishRequest", "SubscriptionAcknowledgements", "PublishResponse", "Results", "", false},
}

// opsField: t denotes the request's field f (the slice itself).
func isReqField(t *Term, f string) bool {
	if t == nil {
		return false
	}
	base, path := t.FieldPath()
	return len(path) == 1 && path[0] == f && base != nil && reqTypeOfTerm(base) != ""
}

func reqTypeOfTerm(t *Term) string {
	for t != nil {
		switch t.Op {
		case "extract":
			t = t.Args[0]
			continue
		case "assert":
			return reqTypeOf(t.Typ)
		case "param":
			return reqTypeOf(t.Typ)
		}
		return ""
	}
	return ""
}

func isLenOf(t *Term, f string) bool {
	t = t.Strip()
	return t.IsCall("builtin.len") && len(t.Args) == 1 && isReqField(t.Args[0], f)
}

// isCount: t is the number of operations: len(req.ops) or the length of the result slice made with it.
func isCount(t *Term, f string) bool {
	t = t.Strip()
	if isLenOf(t, f) {
		return true
	}
	if t.IsCall("builtin.len") && len(t.Args) == 1 {
		return isResultSlice(t.Args[0], f)
	}
	return false
}

func isResultSlice(t *Term, f string) bool {
	return t != nil && t.Op == "make" && t.Name == "slice" && len(t.Args) > 0 && isCount(t.Args[0], f)
}

func runP03(p *Program, r *Report) {
	r.Rule("length: the result list of a response has the length of the request's operation list")
	r.Rule("filled: every iteration over the operations writes the result of its own index, on every path")
	r.Rule("waited: all submitted tasks are waited for before the response, each signals completion exactly once and after its result is written")
	r.Rule("limits: empty and over-long lists are refused (BadNothingToDo, BadTooManyOperations) before any operation")
	r.Rule("private: concurrent tasks share no variable written while they run")

	root := p.Func("server.Server.handleRequest")
	bySvc := map[string][]batchSpec{}
	for _, b := range batchSpecs {
		bySvc[b.req] = append(bySvc[b.req], b)
	}
	nothing, tooMany := p.constVal("ua", "BadNothingToDo"), p.constVal("ua", "BadTooManyOperations")
	reach := p.Reach(func(n string, in ssa.CallInstruction) bool {
		return n == chWrite || n == "server.Session.addPublishRequest"
	}, func(in ssa.Instruction) bool {
		// functions that touch a slice of results or of operations
		switch in := in.(type) {
		case *ssa.IndexAddr:
			return strings.Contains(in.X.Type().String(), "/ua.") && isResultish(in)
		}
		return false
	})
	h := Hooks{MaxDepth: 10}
	h.Inline = func(fn *ssa.Function) bool {
		if fn.Pkg != p.SSA["server"] {
			return false
		}
		switch FuncName(fn) {
		case chWrite, "server.serverSecureChannel.Abort", "server.Session.addPublishRequest", "server.Session.removePublishRequest":
			return false
		}
		switch RecvType(fn) {
		case "server.SessionManager", "server.SubscriptionManager", "server.NamespaceManager", "server.Session", "server.serverSecureChannel":
			return false
		case "server.Subscription":
			return FuncName(fn) == "server.Subscription.handleLatePublishRequest"
		case "server.Server", "":
			return reach[fn] || isLoopy(fn) && takesSlice(fn)
		}
		return false
	}
	svc := func(st *State) string {
		if t := st.Get("svc"); t != nil {
			return t.Name
		}
		return ""
	}
	key := func(s string, b batchSpec) string { return s + "." + b.ops }
	specsOf := func(st *State) []batchSpec { return bySvc[svc(st)] }
	closeIter := func(st *State, b batchSpec, x *Exec) {
		k := b.ops
		if st.Has("iter:"+k) && st.Count("stored:"+k) == 0 {
			st.Set("gap:"+k, x.Flag())
		}
		st.Del("stored:" + k)
	}
	h.OnBranch = func(x *Exec, st *State, cond *Term, taken bool) {
		if s := svcOfBranch(cond, taken); s != "" && !st.Has("svc") {
			st.Set("svc", x.T.mk("const", s, nil, nil, nil, nil))
			return
		}
		for _, b := range specsOf(st) {
			k := b.ops
			if cond.Op != "bin" || len(cond.Args) != 2 {
				continue
			}
			l, rr, op := cond.Args[0], cond.Args[1], cond.Name
			if isCount(rr, k) && !isCount(l, k) {
				l, rr = rr, l
				op = flip(op)
			}
			if isSumWith(rr, k) {
				l, rr = rr, l
				op = flip(op)
			}
			if !isCount(l, k) && !(isSumWith(l, k) && limitField(rr) != "") {
				continue
			}
			if !taken {
				op = negate(op)
			}
			// now: len op rr holds
			if v := parseConst(rr.Strip()); v != nil && isLenOf(l, k) {
				if u, ok := constUint(v); ok {
					switch {
					case op == "!=" && u == 0, op == ">" && u == 0, op == ">=" && u == 1:
						st.Set("nonempty:"+k, x.Flag())
					case op == "==" && u == 0, op == "<=" && u == 0, op == "<" && u == 1:
						st.Set("isempty:"+k, x.Flag())
					}
				}
				if !loopIndexConst(st, cond) {
					continue
				}
			}
			if (isLenOf(l, k) || l.Strip().Op == "bin") && limitField(rr) != "" {
				switch op {
				case "<=":
					st.Set("limit:"+k, x.T.mk("const", limitField(rr), nil, nil, nil, nil))
				case ">":
					st.Set("over:"+k, x.Flag())
				default:
					r.Bad("limits", svc(st)+"/"+k+"/compare", p.Pos(x.Root.Pos()), svc(st)+": the operation count is compared with its limit by "+op+", so a list of exactly the limit is not treated as allowed", st.Trace(3)...)
					st.Set("limit:"+k, x.T.mk("const", limitField(rr), nil, nil, nil, nil))
				}
				continue
			}
			// loop test: index against count
			switch op {
			case ">": // index < count: an iteration begins
				closeIter(st, b, x)
				if !st.Has("iter:" + k) {
					if !st.Has("filled:" + k) {
						st.Del("into:" + k)
					}
					if why := loopFromZero(rr); why != "" {
						continue
					}
				}
				st.Set("iter:"+k, rr)
				st.Del("loopdone:" + k)
			case "<=": // index >= count: the loop is over
				if loopFromZero(rr) != "" && rr.Strip().Op != "phi" {
					if !inductive(rr) {
						continue
					}
				}
				closeIter(st, b, x)
				if !st.Has("gap:" + k) {
					st.Set("filled:"+k, x.Flag())
				}
				st.Del("gap:" + k)
				st.Del("iter:" + k)
				st.Set("loopdone:"+k, x.Flag())
			}
		}
	}
	started := func(x *Exec, st *State, b batchSpec, where string) {
		k := b.ops
		s := svc(st)
		r.Ob("limits", key(s, b)+" operation start")
		if b.empty && !st.Has("nonempty:"+k) {
			r.Bad("limits", key(s, b)+"/empty", where, s+": operations are carried out (or the response sent) although an empty list of "+k+" was not refused", st.Trace(6)...)
		}
		if b.limit != "" {
			got := "none"
			if t := st.Get("limit:" + k); t != nil {
				got = t.Name
			}
			if got != b.limit {
				r.Bad("limits", key(s, b)+"/limit", where, s+": operations are carried out although the length of "+k+" was not checked against OperationLimits."+b.limit+" (checked: "+got+")", st.Trace(6)...)
			}
		}
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		specs := specsOf(st)
		if len(specs) == 0 {
			return
		}
		switch in := in.(type) {
		case *ssa.Store:
			a := x.Val(st, in.Addr)
			for a != nil && a.Op == "fieldaddr" {
				a = a.Args[0]
			}
			if a == nil || a.Op != "indexaddr" {
				return
			}
			base := a.Args[0]
			for _, b := range specs {
				k := b.ops
				if !isResultSlice(base, k) || !sameElem(base, b, p) {
					continue
				}
				it := st.Get("iter:" + k)
				where := p.InstrPos(in)
				r.Ob("filled", key(svc(st), b)+" store in "+FuncName(in.Parent()))
				if it == nil {
					r.Bad("filled", key(svc(st), b)+"/outside", where, svc(st)+": a result is stored outside an iteration over "+k, st.Trace(5)...)
					continue
				}
				if a.Args[1] != it {
					r.Bad("filled", key(svc(st), b)+"/index", where, svc(st)+": the result of operation "+it.Key()+" is stored at index "+a.Args[1].Key(), st.Trace(5)...)
					continue
				}
				if st.Has("doneEarly") {
					r.Bad("waited", key(svc(st), b)+"/store-after-done", where, svc(st)+": a result is stored after the task was reported done", st.Trace(5)...)
				}
				started(x, st, b, where)
				st.Set("stored:"+k, x.Int(1))
				if prev := st.Get("into:" + k); prev != nil && prev != base {
					st.Set("gap:"+k, x.Flag())
				}
				st.Set("into:"+k, base)
			}
		case *ssa.IndexAddr:
			base := x.Val(st, in.X)
			for _, b := range specs {
				if !isReqField(base, b.ops) {
					continue
				}
				it := st.Get("iter:" + b.ops)
				if it == nil {
					continue
				}
				r.Ob("filled", key(svc(st), b)+" operand in "+FuncName(in.Parent()))
				if idx := x.Val(st, in.Index); idx != it {
					r.Bad("filled", key(svc(st), b)+"/operand", p.InstrPos(in), svc(st)+": iteration "+it.Key()+" works on operation "+idx.Key(), st.Trace(5)...)
				}
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		specs := specsOf(st)
		s := svc(st)
		where := p.InstrPos(ci.Instr)
		switch {
		case ci.Name == "builtin.append" && len(ci.Args) > 0:
			for _, b := range specs {
				if b.out == "" || st.Get("iter:"+b.ops) == nil {
					continue
				}
				call, ok := ci.Instr.(*ssa.Call)
				if !ok || !outTypeIs(p, b, call.Type()) || st.Has("ind:"+b.ops) {
					continue
				}
				st.Set("stored:"+b.ops, x.Int(min(2, st.Count("stored:"+b.ops)+1)))
				if st.Count("stored:"+b.ops) > 1 && isAppendChain(ci.Args[0]) {
					st.Set("gap:"+b.ops, x.Flag())
				}
				started(x, st, b, where)
			}
			return ActDefault
		case strings.HasSuffix(ci.Name, ".Submit") || ci.Go:
			var cl *Term
			if ci.Go {
				cl = ci.Callee
			} else {
				for _, a := range ci.Args {
					if a != nil && a.Op == "closure" {
						cl = a
					}
				}
			}
			inIter := false
			for _, b := range specs {
				if st.Has("iter:" + b.ops) {
					inIter = true
				}
			}
			if cl == nil || !inIter || cl.Op != "closure" {
				return ActDefault
			}
			p03Private(p, r, s, cl)
			ci.Callee = cl
			x.resolveCallee(ci)
			ci.Args = nil
			ci.Go = false
			st.Set("submitted", x.Flag())
			st.Set("async", x.Int(0))
			st.Del("doneEarly")
			return ActInline
		case ci.Name == "sync.WaitGroup.Add":
			if v := parseConst(ci.Args[1]); v != nil {
				if ci.Args[1].Name == "-1" {
					ci.Name = "sync.WaitGroup.Done"
				} else {
					st.Set("added", x.T.mk("const", "each:"+ci.Args[1].Name, nil, nil, nil, nil))
				}
			} else {
				for _, b := range specs {
					if isCount(ci.Args[1], b.ops) {
						st.Set("added", x.T.mk("const", "all", nil, nil, nil, nil))
					}
				}
			}
		case ci.Name == "sync.WaitGroup.Wait":
			st.Del("submitted")
			st.Set("waited", x.Flag())
		case ci.Name == chWrite:
			if fromDequeue(ci.Args[2]) {
				return ActOpaque
			}
			rt := strings.TrimPrefix(respType(ci.Args[1]), "ua.")
			if rt == "ServiceFault" {
				if c, ok := faultConst(x, st, ci.Args[1]); ok {
					for _, b := range specs {
						if st.Has("isempty:"+b.ops) && b.empty {
							r.Ob("limits", key(s, b)+" empty refusal")
							if c != nothing {
								r.Bad("limits", key(s, b)+"/empty-status", where, s+": an empty list is refused with a status other than BadNothingToDo", st.Trace(3)...)
							}
						}
						if st.Has("over:" + b.ops) {
							r.Ob("limits", key(s, b)+" over-limit refusal")
							if c != tooMany {
								r.Bad("limits", key(s, b)+"/limit-status", where, s+": an over-long list is refused with a status other than BadTooManyOperations", st.Trace(3)...)
							}
						}
					}
				}
				return ActOpaque
			}
			for _, b := range specs {
				if rt != b.resp {
					continue
				}
				started(x, st, b, where)
				if b.out == "" || b.out == "*historian" {
					r.Ob("length", key(s, b))
					if b.out == "*historian" {
						p03History(x, st, r, p, ci, b)
					}
					continue
				}
				r.Ob("length", key(s, b))
				out := faultField(x, st, ci.Args[1], b.out)
				p03Result(p, r, x, st, s, b, out, where)
				if st.Has("submitted") {
					r.Bad("waited", key(s, b)+"/no-wait", where, s+": the response is sent without waiting for the submitted tasks", st.Trace(6)...)
				}
			}
			return ActOpaque
		case ci.Name == "server.Session.addPublishRequest":
			for _, b := range specs {
				if b.req == "PublishRequest" && len(ci.Args) > 4 {
					r.Ob("length", key(s, b)+" queued")
					p03Result(p, r, x, st, s, b, ci.Args[4], where)
				}
			}
			return ActOpaque
		}
		if ci.Name == "sync.WaitGroup.Done" {
			if st.Has("async") {
				st.Set("async", x.Int(min(2, st.Count("async")+1)))
				st.Set("doneEarly", x.Flag())
			}
		}
		return ActDefault
	}
	h.OnPop = func(x *Exec, st *State, fr *Frame, res []*Term) {
		if !st.Has("async") || fr.call == nil {
			return
		}
		ci, ok := fr.call.(ssa.CallInstruction)
		if !ok {
			return
		}
		n, _ := CallName(ci.Common())
		_, isGo := fr.call.(*ssa.Go)
		if !strings.HasSuffix(n, ".Submit") && !isGo {
			return
		}
		if n != "dyn" && !isGo && fr.fn.Parent() == nil && fr.fn.Synthetic == "" {
			return
		}
		s := svc(st)
		r.Ob("waited", s+" task in "+FuncName(fr.fn))
		if st.Count("async") != 1 {
			r.Bad("waited", s+"/done", p.Pos(fr.fn.Pos()), s+": on some path a task signals completion "+map[bool]string{true: "twice", false: "never"}[st.Count("async") > 1], st.Trace(6)...)
		}
		if t := st.Get("added"); t == nil || t.Name != "all" && t.Name != "each:1" {
			r.Bad("waited", s+"/added", p.Pos(fr.fn.Pos()), s+": the number of tasks waited for is not the number of operations", st.Trace(6)...)
		}
		st.Del("async")
		st.Del("doneEarly")
	}
	x := NewExec(p, h)
	x.Run(root, nil)
	r.Saw(x)
	r.Min("length", 18)
	r.Min("filled", 30)
	r.Min("waited", 6)
	r.Min("limits", 40)
	r.Min("private", 6)
}

func isResultish(in *ssa.IndexAddr) bool {
	for _, ref := range *in.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == in {
			return true
		}
	}
	return false
}

func takesSlice(fn *ssa.Function) bool {
	for _, prm := range fn.Params {
		if strings.HasPrefix(prm.Type().String(), "[]") {
			return len(fn.Blocks) < 40
		}
	}
	return false
}

func flip(op string) string {
	switch op {
	case "<":
		return ">"
	case ">":
		return "<"
	case "<=":
		return ">="
	case ">=":
		return "<="
	}
	return op
}

func negate(op string) string {
	switch op {
	case "<":
		return ">="
	case ">":
		return "<="
	case "<=":
		return ">"
	case ">=":
		return "<"
	case "==":
		return "!="
	case "!=":
		return "=="
	}
	return op
}

// isSumWith: a sum of list lengths that includes len(req.f); an upper bound of it bounds len(req.f).
func isSumWith(t *Term, f string) bool {
	t = t.Strip()
	if t.Op != "bin" || t.Name != "+" {
		return false
	}
	for _, a := range t.Args {
		if !a.Strip().IsCall("builtin.len") && !isSumWith(a, f) {
			return false
		}
	}
	return isLenOf(t.Args[0], f) || isLenOf(t.Args[1], f) || isSumWith(t.Args[0], f) || isSumWith(t.Args[1], f)
}

// loopIndexConst: the constant compared with the count is a loop index (first iteration), not an emptiness test.
func loopIndexConst(st *State, cond *Term) bool {
	b := st.Tr
	_ = b
	// an index test is written index < count; emptiness tests were normalised to count op const.
	if cond.Op == "bin" && cond.Name == "<" && cond.Args[0].Op == "const" {
		return true
	}
	return false
}

// loopFromZero reports "" when the first index is zero.
func loopFromZero(t *Term) string {
	t = t.Strip()
	if t.Op == "const" && t.Name == "0" {
		return ""
	}
	if t.Op == "bin" && t.Name == "+" && t.Args[0].Op == "const" && t.Args[0].Name == "-1" && t.Args[1].Name == "1" {
		return ""
	}
	return "not zero"
}

// inductive: index phi (or phi+1 for range loops) that steps by one.
func inductive(t *Term) bool {
	t = t.Strip()
	if t.Op == "bin" && t.Name == "+" && t.Args[1].Op == "const" && t.Args[1].Name == "1" {
		t = t.Args[0]
	}
	if t.Op == "const" {
		return true
	}
	ph, ok := t.V.(*ssa.Phi)
	return t.Op == "phi" && ok && stepsByOne(ph)
}

func stepsByOne(ph *ssa.Phi) bool {
	back := 0
	for i, e := range ph.Edges {
		pred := ph.Block().Preds[i]
		if !ph.Block().Dominates(pred) {
			continue
		}
		back++
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Int64() != 1 || b.X != ph {
			// per-iteration copies (go 1.22 loop variables) end in a load; not in SSA registers
			return false
		}
	}
	return back > 0
}

func limitField(t *Term) string {
	t = t.Strip()
	_, path := t.FieldPath()
	for i, f := range path {
		if f == "OperationLimits" && i+1 < len(path) {
			return path[i+1]
		}
	}
	if len(path) > 0 && strings.HasPrefix(path[len(path)-1], "Max") && strings.Contains(path[len(path)-1], "Per") {
		return path[len(path)-1]
	}
	return ""
}

func outTypeIs(p *Program, b batchSpec, t interface{ String() string }) bool {
	s, ok := derefType(p.Named("ua", b.resp)).Underlying().(interface{ NumFields() int })
	_ = s
	if !ok {
		return false
	}
	return fieldTypeString(p, b.resp, b.out) == t.String()
}

func sameElem(base *Term, b batchSpec, p *Program) bool {
	if b.out == "" || base.Typ == nil {
		return false
	}
	return fieldTypeString(p, b.resp, b.out) == base.Typ.String()
}

func isAppendChain(t *Term) bool { return t != nil && t.IsCall("builtin.append") }

func p03Result(p *Program, r *Report, x *Exec, st *State, s string, b batchSpec, out *Term, where string) {
	k := s + "." + b.ops
	if out == nil {
		r.Bad("length", k+"/unknown", where, s+": the result list of the response cannot be traced to the operations", st.Trace(6)...)
		return
	}
	okLen := isResultSlice(out, b.ops)
	if !okLen && st.Has("loopdone:"+b.ops) {
		// built by appending in the loop
		o := out
		if o.Op == "phi" || o.IsCall("builtin.append") || o.Op == "make" && len(o.Args) > 0 && o.Args[0].Op == "const" && o.Args[0].Name == "0" || o.IsNil() {
			okLen = true
		}
	}
	if !okLen {
		r.Bad("length", k, where, s+": the response's "+b.out+" is "+out.Key()+", not a list with one entry per element of "+b.ops, st.Trace(6)...)
		return
	}
	if into := st.Get("into:" + b.ops); okLen && into != nil && out.Op == "make" && into != out {
		r.Bad("filled", k+"/other-list", where, s+": the results sent are not the list the operations' results were stored in", st.Trace(10)...)
	}
	if !st.Has("filled:"+b.ops) || st.Has("iter:"+b.ops) || st.Has("gap:"+b.ops) {
		r.Bad("filled", k+"/incomplete", where, s+": the response is sent on a path on which some operation has not been given its own result", st.Trace(10)...)
	}
}

func p03History(x *Exec, st *State, r *Report, p *Program, ci *CallInfo, b batchSpec) {
	out := faultField(x, st, ci.Args[1], "Results")
	where := p.InstrPos(ci.Instr)
	if out == nil || out.Op != "extract" || out.Args[0].Op != "call" || !strings.HasPrefix(out.Args[0].Name, "server.History") {
		r.Bad("length", "HistoryRead", where, "the history results are not those returned by the historian", st.Trace(4)...)
		return
	}
	for _, a := range out.Args[0].Args {
		if isReqField(a, b.ops) {
			return
		}
	}
	r.Bad("length", "HistoryRead/ops", where, "the historian is not given the request's complete list of nodes", st.Trace(4)...)
}

// p03Private: variables captured by a concurrently run task are not reassigned while tasks run.
func p03Private(p *Program, r *Report, s string, cl *Term) {
	mk, ok := cl.V.(*ssa.MakeClosure)
	if !ok {
		return
	}
	fn := mk.Fn.(*ssa.Function)
	r.Ob("private", s+" "+FuncName(fn))
	for i, bnd := range mk.Bindings {
		fv := fn.FreeVars[i]
		// stores inside the task to the captured variable itself
		var storesIn func(f *ssa.Function, v ssa.Value) bool
		storesIn = func(f *ssa.Function, v ssa.Value) bool {
			for _, ref := range *v.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
					return true
				}
				if m, ok := ref.(*ssa.MakeClosure); ok {
					for j, bb := range m.Bindings {
						if bb == v && storesIn(m.Fn.(*ssa.Function), m.Fn.(*ssa.Function).FreeVars[j]) {
							return true
						}
					}
				}
			}
			return false
		}
		al, isAlloc := bnd.(*ssa.Alloc)
		if isAlloc && inSameLoop(al.Block(), mk.Block()) {
			continue // one variable per task
		}
		if fv.Referrers() != nil && storesIn(fn, fv) {
			r.Bad("private", s+"/"+fv.Name()+"/written", p.Pos(fn.Pos()), s+": concurrent tasks assign the shared variable "+fv.Name())
		}
		if !isAlloc {
			continue
		}
		for _, ref := range *al.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == al && inSameLoop(st.Block(), mk.Block()) && st.Parent() == mk.Parent() {
				r.Bad("private", s+"/"+fv.Name()+"/reassigned", p.InstrPos(st), s+": the variable "+fv.Name()+" captured by a concurrent task is reassigned while the tasks run")
			}
		}
	}
}

// inSameLoop: some natural loop contains both blocks.
func inSameLoop(a, b *ssa.BasicBlock) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	for _, h := range a.Parent().Blocks {
		for _, t := range h.Preds {
			if h.Dominates(t) {
				body := loopBody(h, t)
				if body[a] && body[b] {
					return true
				}
			}
		}
	}
	return false
}

func loopBody(h, t *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	work := []*ssa.BasicBlock{t}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}
