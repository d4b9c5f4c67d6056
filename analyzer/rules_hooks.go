package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whether what was registered for an event or for the shutdown is run.

const hookPkg = "event_manager"

func init() {
	register(&Check{ID: "E01", Level: "proof", Tech: "path-sensitive abstract interpretation of the registry, keys symbolic, and of what it stores; who-may-touch rule over the syntax tree",
		Rule:  "Register, Get, Call and Delete are interpreted for a key with and without the manager's prefix: all of them use the same key of the registry for the same key given, and it has the prefix. Register stores with a single atomic insert-if-absent, says true exactly when it stored, and stores nothing without events; what it stores is a function that, when run, calls every event given, each once, with the arguments it is given. Call runs what is stored under the key once, with the arguments of the call. FuzzyCall goes over the whole registry and runs, once, everything whose key has the prefix and nothing else. A shutdown hook is stored under a key that has the prefix GracefullyShutdown goes over; the variant with a channel registers all events given and one that signals the channel it returns, and returns no live channel when refused. Nothing else changes the registry. Each handler of termination signals listens on a buffered channel and runs GracefullyShutdown after a signal and before it ends.",
		Assum: []string{"sync.Map.Range visits every entry that stays in the map and none twice (documented)", "an event returns (S09, K07 for this repository's own)"},
		Run: func(r *Report) {
			r.atLeast("registered", 4)
			r.atLeast("run", 4)
			r.atLeast("all", 2)
			r.atLeast("stopped", 2)
			h := newHooks(r)
			r.guard("register", func() { h.register("Register") })
			r.guard("lookup", func() {
				for _, n := range []string{"Get", "Call", "Delete"} {
					h.lookup(n)
				}
			})
			r.guard("all", func() { h.all() })
			r.guard("shutdown", func() { h.shutdown() })
			r.guard("channel", func() { h.channel() })
			r.guard("only", func() { h.only() })
			r.guard("signals", func() { h.signals() })
		}})
}

type hooks struct {
	*cliCase
	mgr    *types.Named
	prefix string // the manager's field
	reg    string // the registry
	stored types.Type
	keys   map[bool]string // key given has the prefix -> key stored
}

func newHooks(r *Report) *hooks {
	h := &hooks{cliCase: &cliCase{r: r, t: r.P.cliTypes()}, keys: map[bool]string{}}
	mk := r.P.fn(hookPkg, "CreateEventManage")
	pt, ok := mk.Signature.Results().At(0).Type().(*types.Pointer)
	if ok {
		h.mgr, ok = pt.Elem().(*types.Named)
	}
	if !ok {
		panic(undecided("anchor: CreateEventManage does not return a manager"))
	}
	for _, q := range leafPaths(h.mgr) {
		if typeAt(h.mgr, q) == types.Typ[types.String] {
			h.prefix = q
		}
	}
	p := r.P.pkg(hookPkg)
	for _, n := range sortedKeys(p.Members) {
		if g, ok := p.Members[n].(*ssa.Global); ok && g.Type().String() == "*sync.Map" {
			if h.reg != "" {
				panic(undecided("anchor: several registries of events"))
			}
			h.reg = "G:" + p.Pkg.Path() + "." + n
		}
	}
	if h.prefix == "" || h.reg == "" {
		panic(undecided("anchor: registry of events or prefix of its managers not found"))
	}
	return h
}

func (h *hooks) engine() *Engine {
	e := h.r.clientEngine(append([]string{"append", "appendall", "makechan", "summary"}, cliEvents...)...)
	e.NoMerge = true
	if h.stored != nil {
		// what is found is what Register stores
		e.CallHook["(*sync.Map).Load"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			if pt, ok := c.Args[0].(PtrV); !ok || pt.Obj != h.reg {
				return nil, false
			}
			f := c.St.fork()
			v := TermV{T: mk("nonnil:hooked", unIface(c.Args[1])), Typ: h.stored}
			e.event(c.St, "smload", c.Pos, "hit", true, c.Args[0], c.Args[1], v)
			e.event(f, "smload", c.Pos, "miss", false, c.Args[0], c.Args[1], v)
			return []Outcome{{St: c.St, Res: []Val{IfaceV{T: h.stored, V: v}, BoolV{C: cTrue}}}, {St: f, Res: []Val{NilV{}, BoolV{C: cFalse}}}}, true
		}
	}
	return e
}

// run interprets fn from a state in which the key given has the manager's prefix or not.
func (h *hooks) run(fn *ssa.Function, has *bool, round func(x *srvEnd, l *loopInfo)) (args []Val, names map[*Term]string) {
	h.fn = fn
	h.ends = nil
	h.extra = ""
	st := newState(h.r.P.base)
	st.ctx = "api"
	args = symArgs(h.e, fn)
	names = map[*Term]string{}
	var key, pre StrV
	for i, q := range fn.Params {
		switch a := args[i].(type) {
		case PtrV:
			h.e.NotNil[a.Obj] = true
			if types.Identical(q.Type(), types.NewPointer(h.mgr)) {
				if p, ok := st.obj(a.Obj).loadPath(h.prefix).(StrV); ok {
					pre = p
					names[p.T] = "prefix"
				}
			}
		case StrV:
			key = a
			names[a.T] = "key"
		}
	}
	if has != nil {
		c := h.hasPrefix(key, pre)
		if !*has {
			c = c.not()
			h.extra = " (key without the prefix)"
		} else {
			h.extra = " (key with the prefix)"
		}
		st.assume(c)
	}
	h.r.root(fn)
	h.e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		if l.fn.Pkg == fn.Pkg && round != nil {
			round(&srvEnd{st: st, evs: d}, l)
		}
	}
	for _, o := range h.e.Run(fn, args, nil, st, fn.Pos()) {
		x := srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic, res: o.Res}
		if len(o.Res) > 0 {
			x.act = o.Res[len(o.Res)-1]
		}
		h.ends = append(h.ends, x)
	}
	h.r.done(h.e, len(h.ends))
	dumpEnds(h.r.P, h.ends)
	return
}

func (h *hooks) hasPrefix(s, p StrV) Cond {
	if beginsWith(s, p) {
		return cTrue
	}
	return cTerm(mk("ext:strings.HasPrefix", s, p))
}

// ops are the operations on the registry.
func (h *hooks) ops(x *srvEnd) (evs []*Ev) {
	for _, ev := range x.all("smload", "smstore", "smdelete", "smloadorstore", "range") {
		if pt, ok := ev.Args[0].(PtrV); ok && pt.Obj == h.reg {
			evs = append(evs, ev)
		}
	}
	return
}

// register judges a function that registers events.
func (h *hooks) register(name string) {
	fn := h.r.P.method(types.NewPointer(h.mgr), name)
	if fn == nil {
		panic(undecided("anchor: method %s of the event manager not found", name))
	}
	for _, has := range []bool{true, false} {
		has := has
		h.e = h.engine()
		args, names := h.run(fn, &has, nil)
		events := args[len(args)-1].(SliceV)
		ends, extra := h.ends, h.extra
		for i := range ends {
			x := &ends[i]
			h.fn, h.extra = fn, extra
			ev := h.inserted(x, events)
			if ev == nil {
				continue
			}
			k, _ := unIface(ev.Args[1]).(StrV)
			if h.keys[has] == "" {
				h.keys[has] = shape(k, names)
			}
			p := h.prefixOf(x.st, args)
			switch {
			case h.keys[has] != shape(k, names):
				h.fail("registered", x, ev, "key", "the key used depends on more than the key given")
			case !x.st.holds(h.hasPrefix(k, p)):
				h.fail("registered", x, ev, "prefix", "an event is stored under a key without the manager's prefix: it does not run with the others")
			default:
				h.r.ok("registered", "")
			}
		}
		if h.keys[has] == "" {
			h.fail("registered", &srvEnd{}, nil, "never", "no path stores the events")
		}
	}
}

func (h *hooks) prefixOf(st *State, args []Val) StrV {
	for _, a := range args {
		if pt, ok := a.(PtrV); ok {
			if o := st.obj(pt.Obj); o != nil && isObj(o, h.mgr) {
				p, _ := o.loadPath(h.prefix).(StrV)
				return p
			}
		}
	}
	return StrV{}
}

// inserted judges a path that registers events; it is the operation by which it stores them.
func (h *hooks) inserted(x *srvEnd, events SliceV) *Ev {
	if x.panic {
		h.fail("registered", x, nil, "panic", "registering can fault")
		return nil
	}
	ops := h.ops(x)
	res, known := false, false
	if b, ok := x.act.(BoolV); ok {
		res, known = x.st.decide(b.C)
	}
	if len(ops) == 0 {
		switch {
		case !x.st.holds(cLe(events.Len, linC(0))):
			h.fail("registered", x, nil, "ignored", "events are not stored")
		case !known || res:
			h.fail("registered", x, nil, "nothing", "says that it registered although there are no events")
		}
		return nil
	}
	ev := ops[len(ops)-1]
	for _, o := range ops {
		if o.Kind == "smstore" || o.Kind == "smdelete" {
			h.fail("registered", x, o, "overwrites", "events are stored in a way that can replace what another registration stored meanwhile")
			return nil
		}
	}
	if ev.Kind != "smloadorstore" {
		// a look before the insertion
		if ev.Kind == "smload" && ev.Extra == true && known && !res {
			return nil
		}
		h.fail("registered", x, ev, "ignored", "events are not stored")
		return nil
	}
	if !known || res != (ev.Extra == "stored") {
		h.fail("registered", x, ev, "says", "does not say true exactly when the events were stored")
		return nil
	}
	if ev.Extra == "stored" {
		iv, ok := ev.Args[2].(IfaceV)
		var f FuncV
		if ok {
			f, ok = iv.V.(FuncV)
		}
		if !ok || f.Fn == nil {
			h.fail("run", x, ev, "what", "what is stored is not a function made here")
			return nil
		}
		h.stored = iv.T
		h.wrapper(x, f, events)
	}
	return ev
}

// wrapper judges the function stored for a list of events.
func (h *hooks) wrapper(x *srvEnd, f FuncV, events SliceV) {
	sig := f.Fn.Signature
	fn, e := h.fn, h.engine()
	h.fn = f.Fn
	defer func() { h.fn = fn }()
	if sig.Params().Len() != 1 || !sig.Variadic() {
		h.fail("run", x, nil, "arguments", "what is stored does not take arguments")
		return
	}
	args := symArgs(e, f.Fn)
	given := args[0].(SliceV)
	list := symObjs[events.Obj].Sym
	var over *Term
	n := 0
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		y := &srvEnd{st: st, evs: d}
		calls := y.all("dyncall")
		n++
		over = e.CurK
		if len(calls) != 1 {
			h.fail("run", y, nil, "once", "not every event is called once when what is stored is run")
			return
		}
		c := calls[0]
		el, i, ok := elemOf(c.Args[0])
		var got SliceV
		if len(c.Args) == 2 {
			got, _ = c.Args[1].(SliceV)
		}
		switch {
		case !ok || el != list || !st.eqL(i, linT(e.CurK)):
			h.fail("run", y, c, "which", "what is called is not each of the events registered in turn")
		case got.Obj != given.Obj || !st.eqL(got.Len, given.Len) || !st.eqL(got.Off, given.Off):
			h.fail("run", y, c, "arguments", "an event is not given the arguments of the call")
		default:
			h.r.ok("run", "")
		}
	}
	st := x.st.fork()
	st.trace = nil
	outs := e.Run(f.Fn, args, f.Bind, st, f.Fn.Pos())
	h.r.done(e, len(outs))
	if n == 0 {
		h.fail("run", x, nil, "none", "what is stored does not go over the events")
		return
	}
	for _, o := range outs {
		y := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic}
		if o.Panic || !o.St.holds(cLe(events.Len, linT(over))) {
			h.fail("run", y, nil, "short", "running what is stored ends before every event was called")
			return
		}
	}
}

// lookup judges a method that uses a stored event.
func (h *hooks) lookup(name string) {
	fn := h.r.P.method(types.NewPointer(h.mgr), name)
	if fn == nil {
		panic(undecided("anchor: method %s of the event manager not found", name))
	}
	for _, has := range []bool{true, false} {
		has := has
		h.e = h.engine()
		args, names := h.run(fn, &has, nil)
		for i := range h.ends {
			x := &h.ends[i]
			if x.panic {
				h.fail("run", x, nil, "panic", "can fault")
				continue
			}
			ops := h.ops(x)
			var hit *Ev
			bad := len(ops) == 0
			for _, ev := range ops {
				k, _ := unIface(ev.Args[1]).(StrV)
				bad = bad || shape(k, names) != h.keys[has]
				if (ev.Kind == "smdelete") != (name == "Delete") || ev.Kind == "smstore" || ev.Kind == "smloadorstore" || ev.Kind == "range" {
					bad = true
				}
				if ev.Kind == "smload" && ev.Extra == true {
					hit = ev
				}
			}
			if bad {
				h.fail("run", x, nil, "key", "does not look where Register stores an event under the same key")
				continue
			}
			calls := x.all("dyncall")
			var c *Ev
			if len(calls) > 0 {
				c = calls[0]
			}
			switch {
			case name != "Call" && c != nil:
				h.fail("run", x, c, "runs", "runs an event")
			case name == "Get":
				ok, known := false, false
				if b, isB := x.act.(BoolV); isB {
					ok, known = x.st.decide(b.C)
				}
				if !known || ok != (hit != nil) || hit != nil && x.res[0].key() != hit.Args[2].key() {
					h.fail("run", x, hit, "got", "does not return the event stored under the key, or says that there is one when there is none")
					continue
				}
			case name == "Call" && (c != nil) != (hit != nil) || len(calls) > 1:
				h.fail("run", x, hit, "once", "an event found is not run exactly once")
				continue
			case name == "Call" && c != nil:
				if c.Args[0].key() != hit.Args[2].key() || len(c.Args) != 2 || c.Args[1].key() != args[len(args)-1].key() {
					h.fail("run", x, c, "arguments", "the event is not run with the arguments of the call")
					continue
				}
			}
			h.r.ok("run", name)
		}
	}
}

// over judges a function that runs all events with a prefix, given by pre or found out.
func (h *hooks) over(fn *ssa.Function, pre func(args []Val, st *State) []StrV) (prefix StrV) {
	h.e = h.engine()
	type visit struct {
		x        srvEnd
		key, val *Term
	}
	var vs []visit
	h.e.OnRange = func(st *State, c *CallCtx, f *ssa.Function, a []Val, o Outcome, delta []*Ev) {
		if pt, ok := c.Args[0].(PtrV); ok && pt.Obj == h.reg {
			vs = append(vs, visit{x: srvEnd{st: o.St, evs: delta, panic: o.Panic, res: o.Res}, key: termOf(a[0]), val: termOf(a[1])})
		}
	}
	args, _ := h.run(fn, nil, nil)
	for i := range h.ends {
		x := &h.ends[i]
		n := 0
		for _, ev := range h.ops(x) {
			if ev.Kind == "range" {
				n++
			}
		}
		if x.panic || n != 1 || len(x.all("dyncall")) > 0 {
			h.fail("all", x, nil, "walk", "does not go over the registry once")
			return
		}
	}
	// what is stored is what Register stores, under texts
	typed := vs[:0]
	for _, v := range vs {
		if !h.mistyped(v.x.st, v.val) {
			typed = append(typed, v)
		}
	}
	vs = typed
	found := false
	for _, cand := range pre(args, h.ends[0].st) {
		fits := true
		for _, v := range vs {
			k := StrV{T: mk("as:string", TermV{T: v.key})}
			b, known := v.x.st.decide(cTerm(mk("ext:strings.HasPrefix", symVal(k.T, types.Typ[types.String]).(StrV), cand)))
			_, isStr := v.x.st.decide(cTerm(mk("is:string", TermV{T: v.key})))
			if s, _ := v.x.st.decide(cTerm(mk("is:string", TermV{T: v.key}))); isStr && !s {
				continue
			}
			if _, ok := cand.lit(); ok && cand.key() == litStr("").key() {
				b, known = true, true
			}
			if !known || b != (len(v.x.all("dyncall")) > 0 || h.missed(&v.x)) {
				fits = false
			}
		}
		if fits {
			prefix, found = cand, true
			break
		}
	}
	if !found || len(vs) == 0 {
		x := &srvEnd{}
		if len(vs) > 0 {
			x = &vs[0].x
		}
		h.fail("all", x, nil, "which", "what is run are not exactly the events whose key has the prefix")
		return
	}
	for i := range vs {
		v := &vs[i]
		x := &v.x
		b, ok := BoolV{}, false
		if len(x.res) == 1 {
			b, ok = x.res[0].(BoolV)
		}
		calls := x.all("dyncall")
		switch {
		case x.panic:
			h.fail("all", x, nil, "panic", "going over the events can fault")
		case !ok || !x.st.holds(b.C):
			h.fail("all", x, nil, "stops", "going over the events stops before the last")
		case len(calls) > 1:
			h.fail("all", x, calls[1], "twice", "an event is run more than once")
		case len(calls) == 1 && !h.under(calls[0].Args[0], v.key, v.val):
			h.fail("all", x, calls[0], "other", "what is run is not what is stored under the key")
		default:
			h.r.ok("all", "")
		}
	}
	return
}

// mistyped: the path assumes that something else than Register's functions is stored.
func (h *hooks) mistyped(st *State, val *Term) bool {
	for _, op := range sortedKeys(isTypes) {
		if h.stored != nil && types.Identical(isTypes[op], h.stored) && st.holds(cTerm(mk(op, TermV{T: val})).not()) {
			return true
		}
	}
	return false
}

// missed: the event was gone when it was looked up.
func (h *hooks) missed(x *srvEnd) bool {
	for _, ev := range h.ops(x) {
		if ev.Kind == "smload" && ev.Extra == false {
			return true
		}
	}
	return false
}

func (h *hooks) under(f Val, key, val *Term) bool {
	t := untyped(termOf(f))
	if t == nil {
		return false
	}
	if t == val {
		return true
	}
	if t.Op == "nonnil:hooked" {
		return untyped(termOf(t.Args[0])) == key
	}
	return false
}

func (h *hooks) all() {
	fn := h.r.P.method(types.NewPointer(h.mgr), "FuzzyCall")
	if fn == nil {
		panic(undecided("anchor: method FuzzyCall of the event manager not found"))
	}
	h.over(fn, func(args []Val, st *State) []StrV { return []StrV{h.prefixOf(st, args)} })
}

// literals are the text constants of the package.
func (h *hooks) literals() (ss []StrV) {
	p := h.r.P.pkg(hookPkg)
	for _, n := range sortedKeys(p.Members) {
		if c, ok := p.Members[n].(*ssa.NamedConst); ok && c.Value.Value.Kind() == constant.String {
			ss = append(ss, litStr(constant.StringVal(c.Value.Value)))
		}
	}
	for _, fn := range h.r.P.funcsOf(hookPkg, func(*ssa.Function) bool { return true }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						ss = append(ss, litStr(constant.StringVal(c.Value)))
					}
				}
			}
		}
	}
	return
}

// shutdown judges that what is registered for the shutdown is what the shutdown runs.
func (h *hooks) shutdown() {
	pre := h.over(h.r.P.fn(hookPkg, "GracefullyShutdown"), func([]Val, *State) []StrV { return h.literals() })
	if pre.T == nil {
		return
	}
	if s, ok := pre.lit(); ok && s == "" {
		h.fail("all", &srvEnd{}, nil, "everything", "the shutdown runs every event, not only the hooks registered for it")
		return
	}
	fn := h.r.P.fn(hookPkg, "RegisterShutdownHooker")
	h.e = h.engine()
	args, _ := h.run(fn, nil, nil)
	events := args[len(args)-1].(SliceV)
	ends := h.ends
	for i := range ends {
		x := &ends[i]
		h.fn = fn
		ev := h.inserted(x, events)
		if ev == nil {
			continue
		}
		k, _ := unIface(ev.Args[1]).(StrV)
		if !x.st.holds(h.hasPrefix(k, pre)) {
			h.fail("registered", x, ev, "prefix", "a hook is stored under a key the shutdown does not run")
			continue
		}
		h.r.ok("registered", "")
	}
}

// channel judges the registration that returns a signal.
func (h *hooks) channel() {
	fn := h.r.P.fn(hookPkg, "RegisterShutdownHookerAddChan")
	reg := h.r.P.fn(hookPkg, "RegisterShutdownHooker")
	h.e = h.engine()
	type call struct {
		key Val
		l   SliceV
	}
	h.e.Want["hooker"] = true
	h.e.CallHook[fullName(reg)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		f := c.St.fork()
		e.event(c.St, "hooker", c.Pos, "ok", true, c.Args...)
		e.event(f, "hooker", c.Pos, "refused", false, c.Args...)
		return []Outcome{{St: c.St, Res: []Val{BoolV{cTrue}}}, {St: f, Res: []Val{BoolV{cFalse}}}}, true
	}
	args, _ := h.run(fn, nil, nil)
	ends := h.ends
	for i := range ends {
		x := &ends[i]
		h.fn = fn
		regs := x.all("hooker")
		if x.panic || len(regs) != 1 || regs[0].Args[0].key() != args[0].key() {
			h.fail("registered", x, nil, "once", "does not register the events once under the key given")
			continue
		}
		l, _ := regs[0].Args[1].(SliceV)
		given := args[1].(SliceV)
		var extra Val
		whole := false
		for _, ev := range x.evs {
			switch ev.Kind {
			case "append":
				if ev.Args[3].(SliceV).Obj == l.Obj {
					b := ev.Args[2].(SliceV)
					extra, whole = ev.Args[0], b.Obj == given.Obj && x.st.eqL(b.Len, given.Len) && x.st.eqL(b.Off, given.Off)
				}
			case "appendall":
				if ev.Args[2].(SliceV).Obj == l.Obj {
					s, b := ev.Args[0].(SliceV), ev.Args[1].(SliceV)
					whole = s.Obj == given.Obj && x.st.eqL(s.Len, given.Len)
					if o := x.st.obj(b.Obj); o != nil {
						for _, v := range o.F {
							extra = v
						}
					}
				}
			}
		}
		f, isF := extra.(FuncV)
		switch {
		case !whole || !x.st.eqL(l.Len, given.Len.addC(1)):
			h.fail("registered", x, regs[0], "whole", "not all events given are registered")
			continue
		case !isF:
			h.fail("registered", x, regs[0], "signal", "no event that signals the channel is registered")
			continue
		}
		e := h.engine()
		st := x.st.fork()
		st.trace = nil
		outs := e.Run(f.Fn, symArgs(e, f.Fn), f.Bind, st, f.Fn.Pos())
		h.r.done(e, len(outs))
		var ch Val
		bad := len(outs) == 0
		for _, o := range outs {
			y := srvEnd{st: o.St, evs: o.St.trace.list()}
			ss := y.all("send", "chclose")
			if o.Panic || len(ss) == 0 {
				bad = true
				continue
			}
			ch = ss[0].Args[0]
		}
		room := false
		for _, m := range x.all("makechan") {
			if n, ok := m.Args[1].(IntV); ok && ch != nil && m.Args[0].key() == ch.key() {
				room = x.st.holds(cLe(linC(1), n.L))
			}
		}
		ok := regs[0].Extra == true
		got := chanOf(x.act)
		switch {
		case bad || ch == nil || !room:
			h.fail("registered", x, regs[0], "signal", "no event that signals the channel without waiting for its reader is registered")
		case ok && got != chanOf(ch):
			h.fail("registered", x, regs[0], "returned", "the channel returned is not the one that is signalled")
		case !ok && got == chanOf(ch) && len(x.all("chclose")) == 0:
			h.fail("registered", x, regs[0], "refused", "a channel that nobody signals is returned")
		default:
			h.r.ok("registered", "")
		}
	}
}

func chanOf(v Val) string {
	if t, ok := v.(TermV); ok {
		return t.T.String()
	}
	return v.key()
}

// only judges that nothing else changes the registry.
func (h *hooks) only() {
	may := map[string]bool{"Register": true, "Delete": true}
	p := h.r.P.pkg(hookPkg)
	for _, fn := range h.r.P.funcsOf(hookPkg, func(*ssa.Function) bool { return true }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || "G:"+p.Pkg.Path()+"."+g.Name() != h.reg {
						continue
					}
					c, isCall := in.(ssa.CallInstruction)
					n := ""
					if isCall && c.Common().StaticCallee() != nil {
						n = c.Common().StaticCallee().String()
					}
					switch n {
					case "(*sync.Map).Load", "(*sync.Map).Range":
						h.r.ok("only", "")
						continue
					case "(*sync.Map).LoadOrStore", "(*sync.Map).Delete":
						up := fn
						for up.Parent() != nil {
							up = up.Parent()
						}
						if may[up.Name()] || h.helperOf(up, may) {
							h.r.ok("only", "")
							continue
						}
					}
					h.r.fail("only", fullName(fn), in.Pos(), "registry "+fn.Name(), "the registry of events is changed by "+fn2(fn)+", which is neither Register nor Delete")
				}
			}
		}
	}
}

// helperOf: every caller of the function is one of these methods.
func (h *hooks) helperOf(fn *ssa.Function, may map[string]bool) bool {
	callers, _ := h.r.P.callersOf()
	cs := callers[fn]
	for _, c := range cs {
		if !may[c.Name()] {
			return false
		}
	}
	return len(cs) > 0
}

// signals judges the goroutines that wait for the process to be told to end.
func (h *hooks) signals() {
	down := fullName(h.r.P.fn(hookPkg, "GracefullyShutdown"))
	n := 0
	for _, pk := range []string{"msc_server", cliPkg} {
		for _, fn := range h.r.P.funcsOf(pk, func(*ssa.Function) bool { return true }) {
			if !callsTo(fn, "os/signal.Notify") {
				continue
			}
			n++
			h.fn, h.name = fn, ""
			e := h.engine()
			h.e = e
			e.Want["hooks"], e.Want["notify"] = true, true
			e.NoSpawn = true
			e.CallHook[down] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				e.event(c.St, "hooks", c.Pos, "", nil)
				return c.ret(c.St), true
			}
			e.CallHook["os/signal.Notify"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				e.event(c.St, "notify", c.Pos, "", nil, c.Args[0])
				return c.ret(c.St), true
			}
			ends := h.r.client(fn, "", e)
			dumpEnds(h.r.P, ends)
			for i := range ends {
				x := &ends[i]
				ns := x.all("notify")
				if x.panic || len(ns) == 0 {
					h.fail("stopped", x, nil, "wait", "does not wait for a signal")
					continue
				}
				room := false
				for _, m := range x.all("makechan") {
					if c, ok := m.Args[1].(IntV); ok && chanOf(m.Args[0]) == chanOf(ns[0].Args[0]) {
						room = x.st.holds(cLe(linC(1), c.L))
					}
				}
				if !room {
					h.fail("stopped", x, ns[0], "room", "the channel for signals has no room: one that comes while nobody is receiving is lost")
					continue
				}
				got, ran, told := -1, -1, -1
				for j, ev := range x.evs {
					switch ev.Kind {
					case "recv":
						if chanOf(ev.Args[0]) == chanOf(ns[0].Args[0]) {
							got = j
						}
					case "hooks":
						ran = j
					case "send":
						told = j
					case "chclose":
						if chanOf(ev.Args[0]) == chanOf(ns[0].Args[0]) {
							h.fail("stopped", x, ev, "close", "closes a channel the runtime may still send signals on")
						}
					}
				}
				switch {
				case got < 0 || ran < got:
					h.fail("stopped", x, nil, "hooks", "does not run the shutdown hooks once it got a signal")
				case told >= 0 && told < ran:
					h.fail("stopped", x, nil, "early", "tells the main goroutine to end before the shutdown hooks were run")
				default:
					h.r.ok("stopped", "")
				}
			}
		}
	}
	if n == 0 {
		panic(undecided("anchor: nothing waits for signals"))
	}
}

func callsTo(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && strings.HasSuffix(f.String(), name) {
					return true
				}
			}
		}
	}
	return false
}
