package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rule on choosing a session: what is handed out is logged in and belongs to the number's carrier.

func init() {
	register(&Check{ID: "K05", Level: "proof", Tech: "path-sensitive abstract interpretation of session selection and of the senders (typestate, waits classified), plus a ranking argument for every loop reached",
		Rule:  "SelectSession is interpreted from an arbitrary state of the carriers' pools, through the creation of a pool, the constructor of sessions being an event that yields a session or nothing. A session that is returned was last found logged-in, and is an element of the list of, or was just added to, a pool whose number expression was found to match the very number asked for; a pool that is created takes every setting, its account, the address it dials and the name of its sessions from the one carrier it is created for, and is kept at that carrier's place. On these paths and on those of SendN, Session.Send and the constructor nothing waits but sleeps of a constant time of at most a second, dials with a positive constant time limit, writes and reads on a connection that was given a deadline in the future before, and mutexes; every loop reached has a ranking argument. SendN is interpreted with SelectSession returning a session or nothing for each number: it neither fails nor uses a session that is not there, and it asks for one for the very number it then sends to.",
		Assum: []string{"net.DialTimeout and connection deadlines are honoured by the runtime", "a regular expression match takes time bounded by its input"},
		Run:   checkK05})
}

func checkK05(r *Report) {
	r.atLeast("usable", 3)
	r.atLeast("carrier", 3)
	r.atLeast("bounded", 10)
	r.atLeast("sender", 2)
	t := r.P.cliTypes()
	r.guard("selection", func() { r.selection(t) })
	r.guard("maker", func() { r.poolMaker(t) })
	r.guard("sender", func() { r.senders(t) })
	r.guard("bounded", func() { r.boundedCalls(t) })
	r.guard("loops", func() {
		var roots []*ssa.Function
		roots = append(roots, r.P.fn(cliPkg, "SelectSession"), r.P.fn(cliPkg, "SendN"), t.make)
		r.loopsEnd(roots)
	})
}

// selEngine interprets session selection; sessions come out of the constructor or a pool's list.
func (r *Report) selEngine(t *cliTypes, pool *types.Named, list string, want ...string) *Engine {
	e := r.clientEngine(append(append([]string{"cfg", "made", "append", "match", "compile", "account"}, want...), cliEvents...)...)
	e.NoSpawn = true
	e.NonNil = func(o *Obj) bool { return isObj(o, t.sess) }
	e.Shared = func(typ types.Type, path string) bool {
		return types.Identical(typ, t.sess) && path == t.stat || types.Identical(typ, pool) && path == list
	}
	e.Peel = true
	in := r.P.pkg(cliPkg)
	e.General = func(l *loopInfo) bool { return l.fn.Pkg != nil && l.fn.Pkg == in }
	e.Track = func(o *Obj, path string) string {
		switch {
		case isObj(o, t.sess) && path == t.stat:
			return "session" + path
		case isObj(o, pool) && path != "":
			return "pool" + path
		case strings.HasPrefix(o.ID, "G:") && o.Typ != nil && strings.Contains(o.Typ.String(), pool.Obj().Name()):
			return "pools"
		}
		return ""
	}
	e.CallHook[fullName(t.make)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		f := c.St.fork()
		v := symVal(e.fresh(c.St, "made", c.Pos), types.NewPointer(t.sess)).(PtrV)
		e.event(c.St, "made", c.Pos, "", nil, append([]Val{v}, c.Args...)...)
		return []Outcome{{St: c.St, Res: []Val{v}}, {St: f, Res: []Val{NilV{}}}}, true
	}
	for _, n := range []string{"MatchString", "Match"} {
		e.CallHook["(*regexp.Regexp)."+n] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			f := c.St.fork()
			e.event(c.St, "match", c.Pos, "", true, c.Args...)
			e.event(f, "match", c.Pos, "", false, c.Args...)
			return []Outcome{{St: c.St, Res: []Val{BoolV{C: cTrue}}}, {St: f, Res: []Val{BoolV{C: cFalse}}}}, true
		}
	}
	for _, n := range []string{"GetString", "GetInt", "GetDuration", "GetBool", "GetInt64"} {
		e.CallHook["iface yaml_config.YmlConfig."+n] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			v := c.res(c.St, "cfg")
			e.event(c.St, "cfg", c.Pos, "", nil, c.Args[1], v[0])
			return c.ret(c.St, v...), true
		}
	}
	for _, n := range []string{"regexp.Compile", "regexp.MustCompile"} {
		e.CallHook[n] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			v := symVal(e.fresh(c.St, "regexp", c.Pos), c.Sig.Results().At(0).Type()).(PtrV)
			e.NotNil[v.Obj] = true
			f := c.St.fork()
			e.event(c.St, "compile", c.Pos, "", nil, c.Args[0], v)
			if c.Sig.Results().Len() == 1 {
				return c.ret(c.St, v), true
			}
			return []Outcome{{St: c.St, Res: []Val{v, errNil}}, {St: f, Res: []Val{NilV{}, c.errVal(f, "regexp")}}}, true
		}
	}
	return e
}

func (r *Report) selection(t *cliTypes) {
	pool, list := r.poolType(t)
	fn := r.P.fn(cliPkg, "SelectSession")
	e := r.selEngine(t, pool, list)
	c := &cliCase{r: r, t: t, fn: fn, e: e}
	c.waits("SelectSession")
	e.Oblige = true
	c.ends = r.client(fn, "", e)
	c.name = "selection"
	dumpEnds(r.P, c.ends)
	phone := symArgs(e, fn)[0]
	good := 0
	for k := range c.ends {
		x := &c.ends[k]
		c.deadlines(x)
		if x.panic {
			c.fail("usable", x, nil, "panic", "asking for a session ends in a panic")
			continue
		}
		if !x.ret {
			continue
		}
		v, ok := x.act.(PtrV)
		if !ok {
			r.check(x.act != nil && x.act.key() == NilV{}.key(), "usable", fullName(fn), fn.Pos(), "unknown", "client: what is returned is undetermined")
			continue
		}
		good++
		// the state found last
		var last *Ev
		for _, ev := range x.all("rd", "wr") {
			if ev.Extra == "session"+t.stat && ev.Args[0].(PtrV).Obj == v.Obj {
				last = ev
			}
		}
		iv, isI := IntV{}, false
		if last != nil {
			iv, isI = last.Args[1].(IntV)
		}
		if !isI || !x.st.eqL(iv.L, linC(t.login)) {
			c.fail("usable", x, last, "state", "a session is handed out that was not found logged in")
			continue
		}
		r.ok("usable", "logged in")
		// the pool it is from and the numbers of that pool
		var from *Ev
		for _, ev := range x.all("rd") {
			if ev.Extra == "pool"+list {
				if s, ok := ev.Args[1].(SliceV); ok && s.Obj != "" && listed(x.st, s, v) {
					from = ev
				}
			}
		}
		if from == nil {
			c.fail("usable", x, nil, "foreign", "a session is handed out that is in no list of sessions that was looked at")
			continue
		}
		f := from.Args[0].(PtrV).Obj
		matched := false
		for _, ev := range x.all("match") {
			if ev.Extra != true || ev.Args[1].key() != phone.key() {
				continue
			}
			for _, rd := range x.all("rd") {
				if rd.Args[0].(PtrV).Obj == f && rd.Args[1].key() == ev.Args[0].key() {
					matched = true
				}
			}
		}
		if !matched {
			c.fail("carrier", x, from, "unmatched", "a session is handed out although the number was not found to belong to the carrier of its pool")
			continue
		}
		r.ok("carrier", "number")
	}
	c.noNil()
	if good == 0 {
		r.fail("usable", fullName(fn), fn.Pos(), "never", "client: no path hands out a session")
	}
}

// noNil: no path uses what it knows to be nothing.
func (c *cliCase) noNil() {
	for _, k := range sortedKeys(c.e.Obls) {
		if o := c.e.Obls[k]; o.Kind == "nil" && o.Detail == "pointer not nil" && o.Bad > 0 {
			c.r.fail("usable", o.Fn, o.Pos, "nil", "client, "+fullName(c.fn)+": uses a session or a pool that is nil on a path: the caller crashes instead of being told that there is none", "via "+o.Stack)
		}
	}
}

// listed: the session is an element of the list as it was read.
func listed(st *State, s SliceV, v PtrV) bool {
	o := st.obj(s.Obj)
	if o == nil {
		return false
	}
	for _, y := range o.F {
		if p, ok := y.(PtrV); ok && p.Obj == v.Obj {
			return true
		}
	}
	so := symObjs[v.Obj]
	if so == nil || so.Sym == nil || len(so.Sym.Args) == 0 {
		return false
	}
	t, ok := so.Sym.Args[0].(TermV)
	if !ok || len(t.T.Args) == 0 {
		return false
	}
	b, ok := t.T.Args[0].(TermV)
	return ok && t.T.Op == "elem" && o.Sym != nil && b.T == o.Sym
}

// poolMaker judges how a pool comes by its settings.
func (r *Report) poolMaker(t *cliTypes) {
	pool, list := r.poolType(t)
	var makers []*ssa.Function
	for _, fn := range r.P.funcsOf(cliPkg, func(*ssa.Function) bool { return true }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), pool) && (len(makers) == 0 || makers[len(makers)-1] != fn) {
					makers = append(makers, fn)
				}
			}
		}
	}
	for _, fn := range makers {
		for i, carrier := range []string{"cmpp", "sgip", "smgp"} {
			e := r.selEngine(t, pool, list)
			st := newState(r.P.base)
			st.ctx = "api"
			args := symArgs(e, fn)
			set := false
			for k, a := range args {
				if _, ok := a.(StrV); ok {
					args[k], set = litStr(carrier), true
				}
			}
			if !set {
				panic(undecided("anchor: %s makes a pool but is not told the carrier", fullName(fn)))
			}
			c := &cliCase{r: r, t: t, fn: fn, e: e, name: carrier, args: args}
			r.root(fn)
			outs := e.Run(fn, args, nil, st, fn.Pos())
			made := 0
			for _, o := range outs {
				x := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic, res: o.Res}
				if x.panic {
					continue
				}
				c.ends = append(c.ends, *x)
				made += c.poolMade(x, pool, list, i)
			}
			dumpEnds(r.P, c.ends)
			r.done(e, len(outs))
			r.check(made > 0, "carrier", fullName(fn), fn.Pos(), carrier+" never", "client: no path makes a pool for "+carrier)
		}
	}
}

// poolMade judges one path that ends with a new pool; 0 if it does not.
func (c *cliCase) poolMade(x *srvEnd, pool *types.Named, list string, idx int) int {
	if len(x.res) == 0 {
		return 0
	}
	f, ok := x.res[0].(PtrV)
	if !ok || x.st.obj(f.Obj) == nil || !x.st.obj(f.Obj).Alloc {
		return 0
	}
	last := map[string]Val{}
	for _, ev := range x.all("wr") {
		if ev.Args[0].(PtrV).Obj == f.Obj {
			last[ev.Extra.(string)] = ev.Args[1]
		}
	}
	// every setting is one of the carrier
	for _, ev := range x.all("cfg") {
		k, ok := ev.Args[0].(StrV)
		lit, isL := "", false
		if ok {
			lit, isL = k.lit()
		}
		if !isL || !strings.HasPrefix(lit, c.name+".") {
			c.fail("carrier", x, ev, "setting", "a pool for "+c.name+" uses the setting "+shape(ev.Args[0], nil))
			return 1
		}
	}
	// the expression the numbers are matched against, the account and the address are the carrier's
	isCfg := func(v Val, key string) bool {
		for _, ev := range x.all("cfg") {
			k, _ := ev.Args[0].(StrV).lit()
			if ev.Args[1].key() == v.key() && k == c.name+key {
				return true
			}
		}
		return false
	}
	rx, name, addr, acc := false, false, false, Val(nil)
	for p, v := range last {
		for _, ev := range x.all("compile") {
			rx = rx || ev.Args[1].key() == v.key() && isCfg(ev.Args[0], ".segment")
		}
		if s, ok := v.(StrV); ok {
			if l, isL := s.lit(); isL && l == c.name {
				name = true
			}
			addr = addr || isCfg(v, ".address")
		}
		if fi, ok := fieldType(pool, p[len("pool"):]).(*types.Pointer); ok && fi.Elem().String() == c.t.make.Signature.Params().At(c.t.ctorConf).Type().(*types.Pointer).Elem().String() {
			acc = v
		}
	}
	switch {
	case !rx:
		c.fail("carrier", x, nil, "segment", "the numbers of a pool for "+c.name+" are not told by the carrier's configured expression")
	case !name || !addr || acc == nil:
		c.fail("carrier", x, nil, "parts", "a pool for "+c.name+" does not hold the carrier's name, address and account")
	default:
		c.r.ok("carrier", "settings")
	}
	// the sessions made for it are the carrier's
	for _, ev := range x.all("made") {
		a := ev.Args[1:]
		n, _ := a[c.t.ctorName].(StrV).lit()
		ok := n == c.name && acc != nil && a[c.t.ctorConf].key() == acc.key()
		dialed := false
		for _, d := range x.all("dial") {
			dialed = dialed || isCfg(d.Args[1], ".address")
		}
		if !ok || !dialed {
			c.fail("carrier", x, ev, "session", "a session of a pool for "+c.name+" is made with another carrier's name, account or address")
		} else {
			c.r.ok("carrier", "session")
		}
	}
	// it is kept at its own place
	for _, ev := range x.all("wr") {
		if ev.Extra == "pools" && ev.Args[1].key() == f.key() {
			p := ev.Args[0].(PtrV).Path
			if !strings.Contains(p, fmt.Sprintf("[#%d]", idx)) {
				c.fail("carrier", x, ev, "place", "a pool for "+c.name+" is kept at the place of another carrier: "+p)
			} else {
				c.r.ok("carrier", "place")
			}
		}
	}
	return 1
}

func fieldType(n *types.Named, path string) types.Type {
	s, ok := n.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if "."+s.Field(i).Name() == path {
			return types.Unalias(s.Field(i).Type())
		}
	}
	return nil
}

// waits has every call that leaves the analysed code and every channel operation judged.
func (c *cliCase) waits(what string) {
	r := c.r
	seen := map[string]bool{}
	found := func(st *State, pos token.Pos, key, msg string) {
		c.fail("bounded", &srvEnd{st: st, evs: st.trace.list()}, &Ev{Pos: pos, Ctx: st.ctx}, key, msg)
	}
	c.e.OnExt = func(st *State, n string, pos token.Pos) {
		if st.ctx != "api" && st.ctx != "main" {
			return
		}
		switch {
		case n == "time.Sleep", n == "net.DialTimeout", strings.HasPrefix(n, "iface net.Conn."), n == "io.ReadAll", n == "io.ReadFull", n == "io.ReadAtLeast":
			// judged by what they are given
		case waits(n) == "waits" || waits(n) == "unknown" || blockingExt(n):
			found(st, pos, n, "calls "+n+", which may wait for ever,")
		default:
			if k := n + r.P.pos(pos); !seen[k] {
				seen[k] = true
				r.ok("bounded", n)
			}
		}
	}
	c.e.OnEvent = func(st *State, ev *Ev) {
		switch ev.Kind {
		case "sleep":
			d, ok := st.constOf(intOf(ev.Args[0]))
			if !ok || d > 1e9 {
				found(st, ev.Pos, "sleep", "sleeps for a time that is not a constant of at most a second")
			}
		case "dial":
			ok := false
			if len(ev.Args) == 3 {
				d, isC := st.constOf(intOf(ev.Args[2]))
				ok = isC && d > 0
			}
			if !ok {
				found(st, ev.Pos, "dial", "opens a connection without a time limit")
			}
		case "recv", "send":
			// a session being closed has room for its signal (K07)
			if ev.Extra != "nonblocking" && ev.Extra != "select" && !(ev.Kind == "send" && len(st.locks) > 0) {
				found(st, ev.Pos, ev.Kind, "waits for a channel")
			}
		case "selectblock":
			found(st, ev.Pos, "select", "waits in a select")
		}
	}
}

func intOf(v Val) Lin {
	if i, ok := v.(IntV); ok {
		return i.L
	}
	return linT(mk("notint"))
}

// deadlines: before anything is written to or read from a connection it was given a time limit.
func (c *cliCase) deadlines(x *srvEnd) {
	for i, ev := range x.evs {
		kind := ""
		switch ev.Kind {
		case "netwrite", "netwritefail":
			kind = "Write"
		case "readfull", "netread", "readerr":
			kind = "Read"
		}
		if kind == "" || len(ev.Args) == 0 {
			continue
		}
		var d *Ev
		for _, b := range x.evs[:i] {
			if k, _ := b.Extra.(string); b.Kind == "deadline" && (k == "Deadline" || k == kind+"Deadline") && b.Args[0].key() == ev.Args[0].key() {
				d = b
			}
		}
		ok := false
		if d != nil {
			for _, n := range x.evs[:i] {
				if n.Kind == "now" {
					l, isC := x.st.constOf(timeLin(d.Args[1]).sub(timeLin(n.Args[0])))
					ok = ok || isC && l > 0
				}
			}
		}
		if !ok {
			c.fail("bounded", x, ev, strings.ToLower(kind), "uses a connection without having given it a time limit in the future: a peer that does nothing holds the caller for ever")
			continue
		}
		c.r.ok("bounded", kind)
	}
}

// boundedCalls judges the ways through the constructor and the session's own sending.
func (r *Report) boundedCalls(t *cliTypes) {
	fns := []*ssa.Function{t.make}
	for _, fn := range r.P.funcsOf(sessPkg, func(*ssa.Function) bool { return true }) {
		if rv := fn.Signature.Recv(); rv != nil && fn.Name() == "Send" && types.Identical(deref(rv.Type()), t.sess) {
			fns = append(fns, fn)
		}
	}
	if len(fns) < 2 {
		panic(undecided("anchor: the session's sending method was not found"))
	}
	for _, fn := range fns {
		for _, name := range []string{"cmpp", "sgip", "smgp"} {
			e := r.clientEngine(cliEvents...)
			e.NoSpawn = true
			c := &cliCase{r: r, t: t, fn: fn, e: e, name: name}
			c.waits(fn.Name())
			if fn == t.make {
				st := newState(r.P.base)
				st.ctx = "api"
				args := symArgs(e, fn)
				args[t.ctorName] = litStr(name)
				e.NotNil[args[t.ctorConf].(PtrV).Obj] = true
				c.ends = r.rootEndsOf(fn, e, args, nil, st)
			} else {
				c.ends = r.client(fn, name, e)
			}
			for k := range c.ends {
				c.deadlines(&c.ends[k])
			}
		}
	}
}

// senders judges what the senders do with a session, or none.
func (r *Report) senders(t *cliTypes) {
	sel := r.P.fn(cliPkg, "SelectSession")
	fn := r.P.fn(cliPkg, "SendN")
	e := r.clientEngine(append([]string{"selected", "sent"}, cliEvents...)...)
	e.NoSpawn = true
	e.General = func(l *loopInfo) bool { return l.fn == fn }
	e.Oblige = true
	e.CallHook[fullName(sel)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		f := c.St.fork()
		v := symVal(e.fresh(c.St, "selected", c.Pos), types.NewPointer(t.sess)).(PtrV)
		e.NotNil[v.Obj] = true
		e.event(c.St, "selected", c.Pos, "", nil, v, c.Args[0])
		e.event(f, "selected", c.Pos, "", nil, NilV{}, c.Args[0])
		return []Outcome{{St: c.St, Res: []Val{v}}, {St: f, Res: []Val{NilV{}}}}, true
	}
	c := &cliCase{r: r, t: t, fn: fn, e: e, name: "SendN"}
	used := 0
	for _, m := range r.P.funcsOf(sessPkg, func(*ssa.Function) bool { return true }) {
		rv := m.Signature.Recv()
		if rv == nil || m.Parent() != nil || !types.Identical(deref(rv.Type()), t.sess) {
			continue
		}
		m := m
		e.CallHook[fullName(m)] = func(e *Engine, k *CallCtx) ([]Outcome, bool) {
			used++
			x := &srvEnd{st: k.St, evs: k.St.trace.list()}
			pt, ok := k.Args[0].(PtrV)
			if !ok {
				c.fail("sender", x, &Ev{Pos: k.Pos, Ctx: k.St.ctx}, "none", "uses a session although none was available")
				return e.opaqueCall(k), true
			}
			var s *Ev
			for _, ev := range x.all("selected") {
				if ev.Args[0].key() == pt.key() {
					s = ev
				}
			}
			switch {
			case s == nil:
				c.fail("sender", x, &Ev{Pos: k.Pos, Ctx: k.St.ctx}, "unselected", "uses a session that was not selected")
			case m.Name() == "Send" && len(k.Args) > 1 && k.Args[1].key() != s.Args[1].key():
				c.fail("sender", x, &Ev{Pos: k.Pos, Ctx: k.St.ctx}, "number", "sends to another number than the one the session was selected for")
			default:
				r.ok("sender", m.Name())
			}
			return e.opaqueCall(k), true
		}
	}
	c.ends = r.client(fn, "", e)
	for k := range c.ends {
		if c.ends[k].panic {
			c.fail("sender", &c.ends[k], nil, "panic", "sending ends in a panic")
		}
	}
	c.noNil()
	if used == 0 {
		r.fail("sender", fullName(fn), fn.Pos(), "never", "client: nothing is sent")
	}
}

func dumpEnds(p *Program, ends []srvEnd) {
	if os.Getenv("GOSMS_TRACE") == "" {
		return
	}
	for i, x := range ends {
		fmt.Println("--", i, "panic", x.panic, "ret", x.ret, "result", x.act, x.res)
		for _, s := range traceStr(p, x.evs) {
			fmt.Println("     ", s)
		}
	}
}
