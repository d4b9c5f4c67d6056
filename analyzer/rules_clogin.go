package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rule on the client's login: a session exists only after the gateway confirmed it.

func init() {
	register(&Check{ID: "K01", Level: "proof", Tech: "path-sensitive abstract interpretation of the session constructor (typestate of connection and session)",
		Rule:  "The function that makes a client session is interpreted for each protocol and version with arbitrary account settings, an arbitrary reply and every read, write and decode failure. A path that returns a session wrote exactly one frame, the encoding of the protocol's login request, to the given connection; read exactly the length the protocol defines for the login response; found the announced length equal to it and the command equal to the login response's; decoded the body from it with its sequence number and found the status 0; left the connection open; and set the session's state, connection, account and protocol, starting exactly one goroutine for it. Every other path closes the connection, returns nothing and starts nothing. Apart from that function and what only it calls, nothing sets a session's state to logged-in.",
		Assum: []string{"a decoder that returns no error has read the fields of its layout (C04)"},
		Run:   checkK01})
}

func checkK01(r *Report) {
	r.atLeast("confirmed", 6)
	r.atLeast("refused", 30)
	r.atLeast("state", 1)
	t := r.P.cliTypes()
	for _, n := range srvNames {
		for _, v := range versions(r.Deep) {
			r.guard(fmt.Sprintf("%s login, version %#x", n, v), func() {
				e := r.clientEngine(append([]string{"deadline"}, cliEvents...)...)
				e.NoMerge = true
				e.NoSpawn = true
				c := &cliCase{r: r, t: t, name: n, pk: "codec/" + n, fn: t.make, e: e, extra: fmt.Sprintf(", version %#x", v)}
				c.login(v)
			})
		}
	}
	r.stateSites(t)
}

// login judges every way through the constructor.
func (c *cliCase) login(ver int64) {
	r, t := c.r, c.t
	st := newState(r.P.base)
	st.ctx = "api"
	args := symArgs(c.e, t.make)
	args[t.ctorName] = litStr(c.name)
	ac, ok := args[t.ctorConf].(PtrV)
	if !ok {
		panic(undecided("account parameter of the session constructor is not a pointer"))
	}
	c.e.NotNil[ac.Obj] = true
	if q, ok := c.e.asPtr(st, ac, nil, 0); ok {
		ac = q
	}
	st.storePath(ac.Obj, ".Version", IntV{linC(ver)})
	c.args = args
	c.ends = r.rootEndsOf(t.make, c.e, args, nil, st)
	good := 0
	for k := range c.ends {
		if c.loginEnd(&c.ends[k], ver) {
			good++
		}
	}
	if good == 0 {
		r.fail("confirmed", fullName(t.make), t.make.Pos(), c.name+" never", fmt.Sprintf("%s client%s: no path returns a session", c.name, c.extra))
	}
}

func (c *cliCase) loginEnd(x *srvEnd, ver int64) (made bool) {
	r, t, st := c.r, c.t, x.st
	con := c.args[t.ctorCon]
	if x.panic {
		c.fail("confirmed", x, nil, "panic", "ends in a panic")
		return
	}
	if !x.ret {
		return
	}
	gos := x.all("go", "submit", "afterfunc")
	closed := false
	for _, ev := range x.all("netclose") {
		closed = closed || ev.Args[0].key() == con.key()
	}
	pt, isP := x.act.(PtrV)
	if !isP {
		switch {
		case x.act == nil || x.act.key() != (NilV{}).key():
			c.fail("refused", x, nil, "result", "what is returned is undetermined")
		case !closed:
			c.fail("refused", x, nil, "open", "returns no session but leaves the connection open")
		case len(gos) > 0:
			c.fail("refused", x, gos[0], "goroutine", "returns no session but has started a goroutine")
		default:
			r.ok("refused", "")
		}
		return
	}
	made = true
	if closed {
		c.fail("confirmed", x, x.all("netclose")[0], "closed", "returns a session whose connection has been closed")
		return
	}
	if bad := x.all("netwritefail", "readerr", "decodefail"); len(bad) > 0 {
		c.fail("confirmed", x, bad[0], bad[0].Kind, "returns a session although "+map[string]string{"netwritefail": "the login request could not be sent", "readerr": "the reply could not be read", "decodefail": "the reply could not be decoded"}[bad[0].Kind])
		return
	}
	ws := x.all("netwrite")
	if len(ws) != 1 {
		c.fail("confirmed", x, nil, "writes", fmt.Sprintf("returns a session after writing %d frames", len(ws)))
		return
	}
	typ, _, ok := frameMsg(ws[0])
	if !ok || typ != specs[c.pk][0].typ || ws[0].Args[0].key() != con.key() {
		c.fail("confirmed", x, ws[0], "request", "what is written is not the login request "+specs[c.pk][0].typ+" on the given connection")
		return
	}
	rs := x.all("readfull", "netread")
	if len(rs) == 0 {
		c.fail("confirmed", x, nil, "no reply", "returns a session without having read a reply")
		return
	}
	arr, base := "", Lin{}
	total := linC(0)
	for _, ev := range rs {
		s, isS := ev.Args[len(ev.Args)-1].(SliceV)
		switch {
		case ev.Kind == "netread":
			c.fail("confirmed", x, ev, "partial", "reads part of the reply and takes it for the whole")
			return
		case ev.Args[0].key() != con.key() || !isS:
			c.fail("confirmed", x, ev, "source", "reads the reply from elsewhere")
			return
		case !st.eqL(s.Len, ev.Args[1].(IntV).L):
			c.fail("confirmed", x, ev, "over-read", "reads what belongs to the next frame")
			return
		}
		if arr == "" {
			arr, base = s.Obj, s.Off
		}
		total = total.add(s.Len)
	}
	resp := specs[c.pk][1]
	want := headLen(c.pk)
	for _, s := range parseLayout(resp.layout(ver)) {
		want += s.w
	}
	if !st.eqL(total, linC(want)) {
		c.fail("confirmed", x, rs[0], "length", fmt.Sprintf("the login response has %d bytes, %s are read", want, total))
		return
	}
	word := func(off int64) Lin { return st.beInt(st.obj(arr), base.addC(off), 4) }
	if !st.eqL(word(0), linC(want)) {
		c.fail("confirmed", x, rs[0], "announced", "returns a session although the reply may announce another length than was read")
		return
	}
	if !st.eqL(word(4), linC(int64(resp.cmd))) {
		c.fail("confirmed", x, rs[0], "command", "returns a session although the reply may not be a login response")
		return
	}
	ds := x.all("decode")
	if len(ds) != 1 || typeName(ds[0].Extra) != resp.typ {
		c.fail("confirmed", x, nil, "decode", fmt.Sprintf("returns a session after decoding %d messages", len(ds)))
		return
	}
	d := ds[0]
	body, isS := d.Args[2].(SliceV)
	lastR := rs[len(rs)-1].Args[2].(SliceV)
	whole := isS && st.eqL(body.Len, linC(want-12)) && body.Obj == lastR.Obj && st.eqL(body.Off.add(body.Len), lastR.Off.add(lastR.Len))
	if sq, ok := d.Args[1].(IntV); !ok || !st.eqL(sq.L, word(8)) || !whole {
		c.fail("confirmed", x, d, "decoded what", "what is decoded is not the sequence number and body of the reply")
		return
	}
	msg, _ := d.Args[0].(PtrV)
	status := ""
	for _, q := range leafPaths(r.P.typ(c.pk, resp.typ)) {
		if strings.EqualFold(q, ".status") {
			status = q
		}
	}
	sv, ok := o1(st, msg, status).(IntV)
	if status == "" || !ok || !st.eqL(sv.L, linC(0)) {
		c.fail("confirmed", x, d, "status", "returns a session although the reply may refuse the login")
		return
	}
	if len(gos) != 1 || gos[0].Kind != "go" || !before(x, d, gos[0]) {
		c.fail("confirmed", x, nil, "receiver", fmt.Sprintf("starts %d goroutines for a new session, or starts it before the login is confirmed", len(gos)))
		return
	}
	o := st.obj(pt.Obj)
	if o == nil || !o.Alloc {
		c.fail("confirmed", x, nil, "object", "the session returned is not a new one")
		return
	}
	get := func(q string) string {
		if v := o.loadPath(pt.Path + q); v != nil {
			return v.key()
		}
		return "?"
	}
	sv2, ok := o.loadPath(pt.Path + t.stat).(IntV)
	switch {
	case !ok || !st.eqL(sv2.L, linC(t.login)):
		c.fail("confirmed", x, nil, "state", "the session returned is not in the state logged-in")
	case get(t.con) != con.key():
		c.fail("confirmed", x, nil, "connection", "the session returned does not use the connection given")
	case get(t.conf) != c.args[t.ctorConf].key():
		c.fail("confirmed", x, nil, "account", "the session returned does not have the account given")
	case get(t.name) != c.args[t.ctorName].key():
		c.fail("confirmed", x, nil, "protocol", "the session returned does not have the protocol given")
	default:
		r.ok("confirmed", fmt.Sprintf("%s version %#x: session after %s", c.name, ver, resp.typ))
	}
	return
}

// before: event a comes before event b on the path.
func before(x *srvEnd, a, b *Ev) bool {
	for _, ev := range x.evs {
		if ev == a {
			return true
		}
		if ev == b {
			return false
		}
	}
	return false
}

// stateSites: only what the constructor alone calls sets a session's state to anything but closing.
func (r *Report) stateSites(t *cliTypes) {
	callers, loose := r.P.callersOf()
	memo := map[*ssa.Function]bool{}
	var inCtor func(fn *ssa.Function, path map[*ssa.Function]bool) bool
	inCtor = func(fn *ssa.Function, path map[*ssa.Function]bool) bool {
		if fn == t.make || path[fn] {
			return true
		}
		if v, ok := memo[fn]; ok {
			return v
		}
		ok := !loose[fn] && len(callers[fn]) > 0
		path[fn] = true
		for _, q := range callers[fn] {
			ok = ok && inCtor(q, path)
		}
		delete(path, fn)
		memo[fn] = ok
		return ok
	}
	for _, fn := range r.P.All {
		if fn.Pkg == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isFieldOf(fa, t.sess, t.stat) {
					continue
				}
				r.stateValue(t, fn, s.Val, s.Pos(), callers, inCtor, 0)
			}
		}
	}
}

// stateValue judges a value a session's state is set to, in fn; a helper's parameter is what its callers pass.
// Values computed in another way are left to K07, which interprets every function that sets the state.
func (r *Report) stateValue(t *cliTypes, fn *ssa.Function, val ssa.Value, pos token.Pos, callers map[*ssa.Function][]*ssa.Function, inCtor func(*ssa.Function, map[*ssa.Function]bool) bool, depth int) {
	switch v := val.(type) {
	case *ssa.Const:
		k, _ := constant.Int64Val(constant.ToInt(v.Value))
		r.check(k == t.closing || (k == t.fresh || k == t.login) && inCtor(fn, map[*ssa.Function]bool{}),
			"state", fullName(fn), pos, fmt.Sprintf("set to %d", k), "the session's state is set to something else than closing outside the login")
	case *ssa.Parameter:
		i := -1
		for k, p := range fn.Params {
			if p == v {
				i = k
			}
		}
		if depth > 4 || i < 0 {
			return
		}
		for _, c := range callers[fn] {
			for _, b := range c.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn && i < len(call.Common().Args) {
						r.stateValue(t, c, call.Common().Args[i], call.Pos(), callers, inCtor, depth+1)
					}
				}
			}
		}
	}
}
