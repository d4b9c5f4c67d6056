package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const srvPkg = "msc_server/server"

var srvNames = []string{"cmpp", "sgip", "smgp"}

// srvEnd is one way through one arrival of data: the state, the events and what the handler asked for.
type srvEnd struct {
	res   []Val // what the function returned, where recorded
	st    *State
	evs   []*Ev
	act   Val // the action returned; nil when the loop goes on to the next frame
	panic bool
	ret   bool // the function returned
}

func (p *Program) srvMethod(name string) *ssa.Function {
	t := p.typ(srvPkg, "Server")
	fn := p.method(types.NewPointer(t), name)
	if fn == nil {
		panic(undecided("(*Server).%s not found", name))
	}
	return fn
}

// srvEngine is an engine for code of the server: what only builds log fields is left out.
func (r *Report) srvEngine(want ...string) *Engine {
	e := NewEngine(r.P)
	for _, w := range want {
		e.Want[w] = true
	}
	e.Skip = func(fn *ssa.Function) bool {
		return returnsLogFields(fn)
	}
	e.OneIter = func(l *loopInfo) bool {
		return strings.HasSuffix(l.fn.Pkg.Pkg.Path(), srvPkg) && takesConn(l.fn)
	}
	r.codecSummary(e)
	r.hexSummary(e)
	r.textSummary(e)
	return e
}

// hexSummary: rendering a number as text is a function of the number (C09 and C10 look inside).
func (r *Report) hexSummary(e *Engine) {
	for _, fn := range r.P.funcsOf("utils", func(f *ssa.Function) bool { return f.Parent() == nil && f.Synthetic == "" }) {
		sg := fn.Signature
		ok := sg.Recv() == nil && sg.Params().Len() == 1 && sg.Results().Len() == 1 && isInt(sg.Params().At(0).Type()) && sg.Results().At(0).Type() == types.Typ[types.String]
		if ok && readsOnly(fn) {
			e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) { return e.pure(c), true }
		}
	}
}

// textSummary: naming a status for people has no effect on memory. (The names of commands decide
// what happens to a frame.)
func (r *Report) textSummary(e *Engine) {
	op := r.P.iface("codec", "Operation")
	for _, pk := range protoPkgs {
		for _, fn := range r.P.funcsOf(pk, func(f *ssa.Function) bool { return f.Name() == "String" && f.Signature.Recv() != nil }) {
			if t := fn.Signature.Recv().Type(); isInt(t.Underlying()) && !types.Implements(t, op) {
				e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) { return e.pure(c), true }
			}
		}
	}
}

// readsOnly: the function stores nothing but locals and calls nothing but methods of them.
func readsOnly(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if baseGlobal(x.Addr) != nil {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f == nil || f.Pkg == nil || !hasStr([]string{"strings", "strconv"}, f.Pkg.Pkg.Path()) {
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}

// codecSummary replaces the codec's entry points by what the C properties establish:
// Decode reads the frame into the message or fails, Encode gives bytes that stand for the
// message, ToResponse is followed and recorded.
func (r *Report) codecSummary(e *Engine) {
	p := r.P
	pdu := p.iface("codec", "Pdu")
	for _, pk := range protoPkgs {
		for _, t := range p.implementers(p.pkg(pk), pdu) {
			pt := types.NewPointer(t)
			if fn := p.method(pt, "Decode"); fn != nil {
				sure := neverFails(fn)
				e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
					pt, ok := c.Args[0].(PtrV)
					if !ok {
						return nil, false
					}
					st := c.St
					f := st.fork()
					e.event(st, "decode", c.Pos, "", t, c.Args...)
					e.event(f, "decodefail", c.Pos, "", t, c.Args...)
					o := st.obj(pt.Obj).clone()
					var ver Val
					if typeAt(t, ".Version") != nil {
						ver = o.loadPath(pt.Path + ".Version")
					}
					dec := e.fresh(st, "decoded", c.Pos)
					st.storePath(pt.Obj, pt.Path, symVal(dec, t))
					if ver != nil {
						st.storePath(pt.Obj, pt.Path+".Version", ver)
					}
					hp := headerPath(t, "SequenceId", "SequenceNumber")
					if _, ok := st.obj(pt.Obj).loadPath(pt.Path + hp).(IntV); ok {
						st.storePath(pt.Obj, pt.Path+hp, c.Args[1])
					}
					if sure {
						return []Outcome{{St: st, Res: []Val{errNil}}}, true
					}
					return []Outcome{{St: st, Res: []Val{errNil}}, {St: f, Res: []Val{c.errVal(f, "decode")}}}, true
				}
			}
			if fn := p.method(pt, "Encode"); fn != nil {
				e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
					st := c.St
					pt, ok := c.Args[0].(PtrV)
					if !ok {
						return nil, false
					}
					x := mk("enc:"+t.Obj().Name(), pt, Lit(st.obj(pt.Obj).contentKey()))
					n := linT(mkR("enclen", &rng{0, 0, true, false}, TermV{T: x}))
					seq, cmd := o1(st, pt, headerPath(t, "SequenceId", "SequenceNumber")), o1(st, pt, headerPath(t, "CommandId", "RequestId"))
					e.event(st, "encode", c.Pos, "", t, pt, TermV{T: x}, seq, cmd)
					return c.ret(st, e.bytesOf(c, st, StrV{T: x, Len: n})), true
				}
			}
			if fn := p.method(pt, "Log"); fn != nil {
				e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
					return c.ret(c.St, c.res(c.St, "log")...), true
				}
			}
			if fn := p.method(pt, "ToResponse"); fn != nil {
				e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
					outs := e.Run(fn, c.Args, nil, c.St, c.Pos)
					for _, o := range outs {
						if len(o.Res) == 1 {
							body := ""
							if pt, ok := unIface(o.Res[0]).(PtrV); ok {
								body = Lit(o.St.obj(pt.Obj).contentKey()).key()
							}
							e.event(o.St, "respond", c.Pos, body, body, c.Args[0], c.Args[1], o.Res[0])
						}
					}
					return outs, true
				}
			}
		}
	}
}

// neverFails: every return of the function gives a constant nil error.
func neverFails(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				n++
				c, ok := ret.Results[len(ret.Results)-1].(*ssa.Const)
				if !ok || !c.IsNil() {
					return false
				}
			}
		}
	}
	return n > 0
}

func o1(st *State, pt PtrV, path string) Val {
	if o := st.obj(pt.Obj); o != nil && path != "" {
		if v := o.loadPath(pt.Path + path); v != nil {
			return v
		}
	}
	return NilV{}
}

func takesConn(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if strings.HasSuffix(q.Type().String(), "gnet/v2.Conn") {
			return true
		}
	}
	return false
}

// traffic interprets one arrival of data on a connection of the named server.
func (r *Report) traffic(name string, e *Engine, cmd int64) []srvEnd {
	p := r.P
	fn := p.srvMethod("OnTraffic")
	st := newState(p.base)
	st.ctx = "loop"
	args := symArgs(e, fn)
	setName(e, st, args[0], name)
	args[1] = connArg()
	if cmd >= 0 {
		e.inbound(st, args[1])
		st.addEq(streamWord(st, 4).addC(-cmd))
	}
	if e.Start != nil {
		e.Start(st)
	}
	return r.rootEnds(fn, e, args, st)
}

// rootEnds interprets a root and collects its ends: every return, and every completed pass of a loop.
func (r *Report) rootEnds(fn *ssa.Function, e *Engine, args []Val, st *State) []srvEnd {
	return r.rootEndsOf(fn, e, args, nil, st)
}

// rootEndsOf is rootEnds for a function literal with the given captured variables.
func (r *Report) rootEndsOf(fn *ssa.Function, e *Engine, args, binds []Val, st *State) []srvEnd {
	var ends []srvEnd
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		if l.fn.Pkg == fn.Pkg {
			ends = append(ends, srvEnd{st: st, evs: d})
		}
	}
	e.OnSide = func(o Outcome) { ends = append(ends, srvEnd{st: o.St, evs: o.St.trace.list()}) }
	r.root(fn)
	outs := e.Run(fn, args, binds, st, fn.Pos())
	for _, o := range outs {
		x := srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}
		if len(o.Res) > 0 {
			x.act = o.Res[len(o.Res)-1]
		}
		ends = append(ends, x)
	}
	r.done(e, len(ends))
	return ends
}

// srvRoot interprets one of the other callbacks of the server from an arbitrary state.
func (r *Report) srvRoot(fn *ssa.Function, e *Engine, name string) []srvEnd {
	st := newState(r.P.base)
	st.ctx = "loop"
	switch fn.Name() {
	case "OnTick": // runs on a goroutine of its own
		st.ctx = "tick"
	case "OnBoot", "OnShutdown": // run before the loops start and after they were told to stop
		st.ctx = "main"
	}
	args := symArgs(e, fn)
	for i, q := range fn.Params {
		if strings.HasSuffix(q.Type().String(), "gnet/v2.Conn") {
			args[i] = connArg()
		}
		if q.Type().String() == types.NewPointer(r.P.typ(srvPkg, "Server")).String() && name != "" {
			setName(e, st, args[i], name)
		}
	}
	return r.rootEnds(fn, e, args, st)
}

func connArg() Val {
	return TermV{T: mk("nonnil:conn", Lit("c"))}
}

func setName(e *Engine, st *State, srv Val, name string) {
	pt := srv.(PtrV)
	if q, ok := e.asPtr(st, pt, nil, 0); ok {
		pt = q
	}
	st.storePath(pt.Obj, ".name", litStr(name))
}

// ---- facts about one end

var byteT = types.Typ[types.Uint8]

const connKey = "c"

// stream reads a word of the unread input as it was when the data arrived.
func streamWord(st *State, off int64) Lin {
	return st.beInt(st.obj("STREAM"+connArg().key()), linC(off), 4)
}

// taken is how many bytes of input the end consumed.
func (x *srvEnd) taken() Lin {
	o := x.st.obj("INB" + connArg().key())
	if o == nil {
		return linC(0)
	}
	return o.loadPath(".pos").(IntV).L
}

func (x *srvEnd) consumed() bool { return !x.st.holds(cLe(x.taken(), linC(0))) }

// cmd is the command word when the path has pinned it down.
func (x *srvEnd) cmd() (int64, bool) { return x.st.constOf(streamWord(x.st, 4)) }

func (x *srvEnd) all(kinds ...string) []*Ev {
	var r []*Ev
	for _, ev := range x.evs {
		if hasStr(kinds, ev.Kind) {
			r = append(r, ev)
		}
	}
	return r
}

// goes reports what happens to the connection at the end: none, close, or "" when undetermined.
func (p *Program) action(x *srvEnd) string {
	if x.act == nil {
		return "none"
	}
	v, ok := x.act.(IntV)
	if !ok {
		return ""
	}
	c, ok := x.st.constOf(v.L)
	if !ok {
		return ""
	}
	switch c {
	case p.extConst("github.com/panjf2000/gnet/v2", "None"):
		return "none"
	case p.extConst("github.com/panjf2000/gnet/v2", "Close"):
		return "close"
	}
	return "other"
}

func (p *Program) extConst(pkg, name string) int64 {
	for _, sp := range p.Prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
				v, _ := constant.Int64Val(constant.ToInt(c.Val()))
				return v
			}
		}
	}
	panic(undecided("anchor: constant %s.%s not found", pkg, name))
}

func (p *Program) localConst(pk, name string) int64 {
	c, ok := p.pkg(pk).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided("anchor: constant %s.%s not found", pk, name))
	}
	v, _ := constant.Int64Val(constant.ToInt(c.Val()))
	return v
}

// frameTerm is the encoding a write event sends, nil when what it sends is not one whole encoding.
func frameTerm(ev *Ev) *Term {
	f, _ := ev.Extra.(*FrameSnap)
	if f == nil || f.S.Obj == "" {
		return nil
	}
	t := f.St.bytesVal(f.S).T
	if t.Op == "sub" && len(t.Args) == 3 {
		x, whole := t.Args[0].(TermV)
		if !whole {
			return nil
		}
		n := linT(mkR("enclen", &rng{0, 0, true, false}, TermV{T: x.T}))
		if a, isInt := t.Args[1].(IntV); !isInt || !f.St.eqL(a.L, linC(0)) || !f.St.eqL(f.S.Len, n) {
			return nil
		}
		t = x.T
	}
	if !strings.HasPrefix(t.Op, "enc:") || len(t.Args) != 2 {
		return nil
	}
	return t
}

// frameMsg is the message whose encoding a write event sends.
func frameMsg(ev *Ev) (typ string, obj PtrV, ok bool) {
	t := frameTerm(ev)
	if t == nil {
		return
	}
	pt, isP := t.Args[0].(PtrV)
	return t.Op[4:], pt, isP
}

// ownConn: the value is the connection the data came from, directly or through its session.
func ownConn(v Val) bool {
	if v.key() == connArg().key() {
		return true
	}
	return strings.Contains(v.key(), mk("connctx", connArg()).String()) || strings.Contains(show(v), "connctx(nonnil:conn(\"c\"))")
}

// sessionType and its fields.
type srvTypes struct {
	sess    *types.Named
	stat    string // path of the session state
	window  string // path of the window channel
	pool    string // path of the worker pool
	limiter string // path of the rate limiter
	client  string
	login   int64
	fresh   int64
	closed  int64
}

func (p *Program) srvTypes() *srvTypes {
	t := &srvTypes{sess: p.typ(srvPkg, "session")}
	for _, q := range leafPaths(t.sess) {
		ft := typeAt(t.sess, q)
		if n, ok := ft.(*types.Named); ok && n.Obj().Name() == "stat" && n.Obj().Pkg() == t.sess.Obj().Pkg() {
			t.stat = q
		}
		if _, ok := ft.Underlying().(*types.Chan); ok {
			t.window = q
		}
		pt, ok := ft.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		switch types.Unalias(pt.Elem()).String() {
		case "github.com/panjf2000/ants/v2.Pool":
			t.pool = q
		case "golang.org/x/time/rate.Limiter":
			t.limiter = q
		}
	}
	if t.stat == "" || t.window == "" || t.pool == "" || t.limiter == "" {
		panic(undecided("anchor: state, window, worker pool or rate limiter of the session not found"))
	}
	t.login, t.fresh, t.closed = p.localConst(srvPkg, "StatLogin"), p.localConst(srvPkg, "StatConnect"), p.localConst(srvPkg, "StatClosing")
	return t
}

func isObj(o *Obj, n *types.Named) bool {
	return o != nil && o.Kind == OCell && o.Typ != nil && types.Identical(o.Typ, n)
}

// srvTrack makes accesses to the session's and the server's mutable fields events.
func (r *Report) srvTrack(e *Engine, t *srvTypes, paths ...string) {
	srv := r.P.typ(srvPkg, "Server")
	e.Shared = func(typ types.Type, path string) bool {
		if types.Identical(typ, t.sess) {
			return path == t.stat || hasStr(allSess, path)
		}
		return types.Identical(typ, srv) && path == ".activeSessions"
	}
	e.Track = func(o *Obj, path string) string {
		if isObj(o, t.sess) && hasStr(paths, path) {
			return "session" + path
		}
		if isObj(o, srv) && hasStr(paths, path) {
			return "server" + path
		}
		return ""
	}
}

// lastState is the session state the path last saw and has tested.
func lastState(st *State, ev *Ev, t *srvTypes) Val {
	for x := ev; x != nil; x = x.prev {
		if (x.Kind == "rd" || x.Kind == "wr") && x.Extra == "session"+t.stat {
			return x.Args[1]
		}
	}
	return nil
}

func stateIs(st *State, v Val, want int64) bool {
	i, ok := v.(IntV)
	return ok && st.eqL(i.L, linC(want))
}

var srvEvents = []string{"asyncwrite", "writefail", "loopwrite", "submit", "submitfail", "taskend", "taskpanic", "close", "setctx", "allow", "discard", "discardall", "peek",
	"send", "recv", "sleep", "crash", "decode", "decodefail", "respond", "rd", "wr", "smstore", "smdelete", "poolrelease", "afterfunc", "timerend"}

func dbgServer(p *Program) {
	r := newReport(p, &Check{ID: "dbg"}, false)
	t := p.srvTypes()
	if m := os.Getenv("GOSMS_ROOT"); m != "" {
		e := r.srvEngine(append([]string{"lock", "unlock", "range"}, srvEvents...)...)
		r.srvTrack(e, t, append(append([]string{}, allSess...), ".activeSessions", ".sessionPoolCap", t.window, t.limiter, t.pool, ".ver")...)
		e.OnRange = func(st *State, c *CallCtx, fn *ssa.Function, args []Val, o Outcome, delta []*Ev) {
			fmt.Println("-- range outcome", show(TupleV(o.Res)))
			for _, s := range traceStr(p, delta) {
				fmt.Println("     ", s)
			}
		}
		for i, x := range r.srvRoot(p.srvMethod(m), e, os.Getenv("GOSMS_NAME")) {
			fmt.Println("--", i, "panic", x.panic, "act", p.action(&x))
			for _, s := range traceStr(p, x.evs) {
				fmt.Println("     ", s)
			}
		}
		return
	}
	for _, n := range srvNames {
		e := r.srvEngine(srvEvents...)
		r.srvTrack(e, t, t.stat)
		cmd := int64(-1)
		fmt.Sscan(os.Getenv("GOSMS_CMD"), &cmd)
		ends := r.traffic(n, e, cmd)
		fmt.Println("=====", n, len(ends), "ends", e.steps, "steps")
		for i, x := range ends {
			c, _ := x.cmd()
			fmt.Println("--", i, "panic", x.panic, "act", p.action(&x), "cmd", c, "taken", x.taken())
			for _, s := range traceStr(p, x.evs) {
				fmt.Println("     ", s)
			}
		}
	}
}
