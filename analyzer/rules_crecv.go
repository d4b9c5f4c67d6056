package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The rules on what the client does with the stream it receives.

// cliState prepares the session behind a value: its connection, account and protocol are set for
// good (K07), everything else is arbitrary and may change at any time.
func (c *cliCase) cliState(st *State, v Val) (PtrV, bool) {
	t, e := c.t, c.e
	pt, ok := v.(PtrV)
	if !ok {
		return pt, false
	}
	if q, ok := e.asPtr(st, pt, nil, 0); ok {
		pt = q
	}
	o := st.obj(pt.Obj)
	if o == nil || o.Kind != OCell {
		return pt, false
	}
	if p1, isP := o.Typ.Underlying().(*types.Pointer); isP { // a captured variable
		if !types.Identical(p1.Elem(), t.sess) {
			return pt, false
		}
		in, ok := o.loadPath("").(PtrV)
		if !ok {
			return pt, false
		}
		e.NotNil[in.Obj] = true
		return c.cliState(st, in)
	}
	if !types.Identical(o.Typ, t.sess) || pt.Path != "" {
		return pt, false
	}
	st.storePath(pt.Obj, t.con, TermV{T: mk("nonnil:conn", Lit("cli")), Typ: typeAt(t.sess, t.con)})
	st.storePath(pt.Obj, t.name, litStr(c.name))
	ac := symVal(mk("cliconf"), typeAt(t.sess, t.conf)).(PtrV)
	e.NotNil[ac.Obj] = true
	st.storePath(pt.Obj, t.conf, ac)
	if t.cancel != "" {
		ch := TermV{T: mk("nonnil:chan", Lit("cancel")), Typ: typeAt(t.sess, t.cancel)}
		st.setBool(mk("isnil", TermV{T: ch.T}), false)
		st.storePath(pt.Obj, t.cancel, ch)
	}
	return pt, true
}

func cliConn() string { return TermV{T: mk("nonnil:conn", Lit("cli"))}.key() }

// watchStat makes accesses to the session's state events; others may change it at any time.
func (c *cliCase) watchStat() {
	t := c.t
	c.e.Shared = func(typ types.Type, path string) bool { return types.Identical(typ, t.sess) && path == t.stat }
	c.e.Track = func(o *Obj, path string) string {
		if isObj(o, t.sess) && path == t.stat {
			return "session" + path
		}
		return ""
	}
}

// receiver finds the function the constructor starts for a new session.
func (r *Report) receiver(t *cliTypes) *ssa.Function {
	var fn *ssa.Function
	for _, n := range srvNames {
		e := r.clientEngine("go")
		e.NoSpawn = true
		st := newState(r.P.base)
		st.ctx = "api"
		args := symArgs(e, t.make)
		args[t.ctorName] = litStr(n)
		if ac, ok := args[t.ctorConf].(PtrV); ok {
			e.NotNil[ac.Obj] = true
		}
		for _, x := range r.rootEndsOf(t.make, e, args, nil, st) {
			for _, ev := range x.all("go") {
				f, ok := ev.Args[0].(FuncV)
				if !ok || fn != nil && fn != f.Fn {
					panic(undecided("anchor: the receiver of the client was not found"))
				}
				fn = f.Fn
			}
		}
	}
	if fn == nil {
		panic(undecided("anchor: the receiver of the client was not found"))
	}
	return fn
}

// receive interprets the receiver of a session of the named protocol.
func (r *Report) receive(t *cliTypes, fn *ssa.Function, name string, tune func(c *cliCase)) *cliCase {
	e := r.clientEngine(cliEvents...)
	e.NoMerge = true
	c := &cliCase{r: r, t: t, name: name, pk: "codec/" + name, fn: fn, e: e}
	c.watchStat()
	if tune != nil {
		tune(c)
	}
	st := newState(r.P.base)
	st.ctx = "api"
	args := symArgs(e, fn)
	var binds []Val
	for _, b := range fn.FreeVars {
		v := symVal(mk("free:"+b.Name()+":"+fullName(fn)), b.Type())
		if pt, ok := v.(PtrV); ok {
			e.NotNil[pt.Obj] = true
		}
		binds = append(binds, v)
	}
	found := false
	for _, v := range append(append([]Val{}, args...), binds...) {
		if pt, ok := v.(PtrV); ok {
			e.NotNil[pt.Obj] = true
		}
		if _, ok := c.cliState(st, v); ok {
			found = true
		}
	}
	if !found {
		panic(undecided("anchor: the receiver of the client does not work on a session"))
	}
	c.ends = r.rootEndsOf(fn, e, args, binds, st)
	return c
}

func init() {
	register(&Check{ID: "K02", Level: "proof", Tech: "path-sensitive abstract interpretation of the receiver loop (stream typestate)",
		Rule:  "The goroutine a new session starts is interpreted for each protocol, one round of its loop from an arbitrary state with an arbitrary stream, every read failing or not. A round either reads from the session's connection exactly 12 bytes and, if more are announced, exactly the rest of the announced frame, or ends the goroutine; nothing is decoded before a frame with a possible length has been read in full; what is decoded is the sequence number and the whole body of that frame, by the decoder its command belongs to; a failed read or an impossible length decodes nothing, closes the session and ends the goroutine, and the goroutine ends for no other reason while the session is in use.",
		Assum: []string{"the session's connection, account, protocol and cancel channel do not change (K07)"},
		Run: func(r *Report) {
			r.atLeast("frame", 20)
			r.atLeast("stop", 6)
			t := r.P.cliTypes()
			fn := r.receiver(t)
			for _, n := range srvNames {
				r.guard(n+" receiver", func() {
					c := r.receive(t, fn, n, nil)
					frames := 0
					for k := range c.ends {
						if c.recvEnd(&c.ends[k]) {
							frames++
						}
					}
					if frames == 0 {
						r.fail("frame", fullName(fn), fn.Pos(), n+" never", n+" client: no path receives a frame")
					}
				})
			}
		}})
}

// gone: the path leaves the session closed, or has seen that it is.
func (c *cliCase) gone(x *srvEnd) bool {
	for i := len(x.evs) - 1; i >= 0; i-- {
		ev := x.evs[i]
		if (ev.Kind == "rd" || ev.Kind == "wr") && ev.Extra == "session"+c.t.stat {
			v, ok := ev.Args[1].(IntV)
			return ok && x.st.eqL(v.L, linC(c.t.closing))
		}
	}
	return false
}

// unused: the path has seen the session in another state than logged-in.
func (c *cliCase) unused(x *srvEnd) bool {
	for i := len(x.evs) - 1; i >= 0; i-- {
		ev := x.evs[i]
		if (ev.Kind == "rd" || ev.Kind == "wr") && ev.Extra == "session"+c.t.stat {
			v, ok := ev.Args[1].(IntV)
			if !ok {
				return false
			}
			is, known := x.st.decide(cEqL(v.L, linC(c.t.login)))
			return known && !is
		}
	}
	return false
}

// recvEnd judges one round of the receiver.
func (c *cliCase) recvEnd(x *srvEnd) (frame bool) {
	r, st := c.r, x.st
	if x.panic {
		c.fail("frame", x, nil, "panic", "the receiver panics")
		return
	}
	rs := x.all("readfull", "netread", "readerr")
	acts := x.all("decode", "decodefail")
	for _, ev := range rs {
		if ev.Args[0].key() != cliConn() {
			c.fail("frame", x, ev, "source", "reads from something else than the session's connection")
			return
		}
		if ev.Kind == "netread" {
			c.fail("frame", x, ev, "partial", "a read that may return part of a frame is taken for the whole")
			return
		}
		if ev.Kind == "readfull" {
			if s, ok := ev.Args[2].(SliceV); !ok || !st.eqL(s.Len, ev.Args[1].(IntV).L) {
				c.fail("frame", x, ev, "over-read", "may read into the next frame")
				return
			}
		}
	}
	if len(rs) == 0 {
		switch {
		case len(acts) > 0:
			c.fail("frame", x, acts[0], "no frame", "decodes without having read a frame")
		case !x.ret:
			c.fail("frame", x, nil, "spins", "goes round again without having read anything")
		case len(x.all("recv")) > 0 || c.gone(x) || c.unused(x):
			r.ok("stop", "told to stop")
		default:
			c.fail("stop", x, nil, "silent", "the receiver ends although the session stays in use")
		}
		return
	}
	if rs[0].Kind == "readerr" {
		c.stopped(x, rs[0], acts, "a failed read")
		return
	}
	head := rs[0].Args[2].(SliceV)
	if !st.eqL(head.Len, linC(12)) {
		c.fail("frame", x, rs[0], "head", fmt.Sprintf("reads %s bytes before the length of the frame is known", head.Len))
		return
	}
	word := func(off int64) Lin { return st.beInt(rs[0].arr(st), head.Off.addC(off), 4) }
	length := word(0)
	max := r.P.localConst("codec", "PacketMax")
	possible := st.holds(cLe(linC(12), length)) && st.holds(cLe(length, linC(max)))
	if !possible {
		if !(st.holds(cLt(length, linC(12))) || st.holds(cLt(linC(max), length))) {
			c.fail("frame", x, rs[0], "length", "goes on without having compared the announced length with what is possible")
			return
		}
		if len(rs) > 1 {
			c.fail("frame", x, rs[1], "reads on", "reads on after an impossible length")
			return
		}
		c.stopped(x, rs[0], acts, "an impossible length")
		return
	}
	total := head.Len
	for _, ev := range rs[1:] {
		if ev.Kind == "readerr" {
			c.stopped(x, ev, acts, "a failed read")
			return
		}
		total = total.add(ev.Args[1].(IntV).L)
	}
	if !st.eqL(total, length) {
		c.fail("frame", x, rs[len(rs)-1], "amount", fmt.Sprintf("%s bytes are read for a frame of %s", total, length))
		return
	}
	if len(acts) > 1 {
		c.fail("frame", x, acts[1], "twice", "decodes more than one message for a frame")
		return
	}
	if x.ret && !c.gone(x) {
		c.fail("stop", x, nil, "after frame", "the receiver ends after a good frame although the session stays in use")
		return
	}
	frame = true
	if len(acts) == 0 {
		r.ok("frame", "a frame nothing is done with")
		return
	}
	d := acts[0]
	for _, ev := range rs {
		if !before(x, ev, d) {
			c.fail("frame", x, d, "early", "decodes before the frame has been read in full")
			return
		}
	}
	body, isS := d.Args[2].(SliceV)
	var whole bool
	switch {
	case !isS:
	case len(rs) == 1:
		whole = st.eqL(body.Len, linC(0))
	case len(rs) == 2:
		b := rs[1].Args[2].(SliceV)
		whole = b.Obj == body.Obj && st.eqL(b.Off, body.Off) && st.eqL(b.Len, body.Len)
	}
	sq, isI := d.Args[1].(IntV)
	if !whole || !isI || !st.eqL(sq.L, word(8)) {
		c.fail("frame", x, d, "decoded what", "what is decoded is not the sequence number and the whole body of the frame")
		return
	}
	sp := specOf(c.pk, typeName(d.Extra))
	if sp == nil || !st.eqL(word(4), linC(int64(sp.cmd))) {
		c.fail("frame", x, d, "command", "a frame is decoded as "+typeName(d.Extra)+", which its command does not announce")
		return
	}
	r.ok("frame", c.name+" "+sp.typ)
	return
}

// arr is the array a read filled.
func (ev *Ev) arr(st *State) *Obj { return st.obj(ev.Args[2].(SliceV).Obj) }

// stopped: nothing was done, the session is closed and the receiver ends.
func (c *cliCase) stopped(x *srvEnd, at *Ev, acts []*Ev, why string) {
	switch {
	case len(acts) > 0:
		c.fail("stop", x, acts[0], "acts "+why, "decodes after "+why)
	case !x.ret:
		c.fail("stop", x, at, "goes on "+why, "goes on after "+why)
	case !c.gone(x):
		c.fail("stop", x, at, "open "+why, "ends after "+why+" without closing the session")
	default:
		c.r.ok("stop", "closes after "+why)
	}
}

// recvWords are the head of the one frame the round read: nil when it read none in full.
func (c *cliCase) recvWords(x *srvEnd) func(off int64) Lin {
	rs := x.all("readfull", "readerr", "netread")
	if len(rs) == 0 {
		return nil
	}
	for _, ev := range rs {
		if ev.Kind != "readfull" {
			return nil
		}
	}
	head, ok := rs[0].Args[2].(SliceV)
	if !ok || x.st.holds(cLt(head.Len, linC(12))) {
		return nil
	}
	return func(off int64) Lin { return x.st.beInt(rs[0].arr(x.st), head.Off.addC(off), 4) }
}

// cliRequests are the requests a gateway may send on the connection the client opened.
var cliRequests = map[string][]string{
	"codec/cmpp": {"Delivery", "ActiveTest", "Terminate"},
	"codec/sgip": {"Unbind"},
	"codec/smgp": {"Delivery", "ActiveTest", "Exit"},
}

func init() {
	register(&Check{ID: "K04", Level: "proof", Tech: "path-sensitive abstract interpretation: exactly-one-response rule (linear obligation) over the client's receiver",
		Rule:  "One round of the receiver of each protocol is interpreted from an arbitrary state with an arbitrary frame and every write and decode failing or not. A round that received a delivery, link test or termination decodes it once and writes exactly one frame on the session's own connection: the response made by ToResponse from that request with result 0, unaltered, its head carrying the request's sequence number and the paired command; if that write fails, and after an answered termination, the session is closed. A request whose decoding fails is not answered and closes the session (decoders that cannot fail are told by their returns). A round that received anything else writes nothing after the frame.",
		Assum: []string{"the session's connection, account and protocol do not change (K07)"},
		Run: func(r *Report) {
			r.atLeast("answered", 10)
			r.atLeast("quiet", 10)
			t := r.P.cliTypes()
			fn := r.receiver(t)
			for _, n := range srvNames {
				r.guard(n+" receiver", func() {
					c := r.receive(t, fn, n, nil)
					seen := map[string]bool{}
					for k := range c.ends {
						c.answers(&c.ends[k], seen)
					}
					for _, typ := range cliRequests[c.pk] {
						r.check(seen[typ], "answered", fullName(fn), fn.Pos(), n+" handles "+typ, n+" client: a "+typ+" of the gateway is not answered")
					}
				})
			}
		}})
}

// answers judges what one round of the receiver writes.
func (c *cliCase) answers(x *srvEnd, seen map[string]bool) {
	r, st := c.r, x.st
	word := c.recvWords(x)
	if x.panic || word == nil {
		return
	}
	rs := x.all("readfull")
	var ws []*Ev
	after := false
	for _, ev := range x.evs {
		if ev == rs[len(rs)-1] {
			after = true
		}
		if after && (ev.Kind == "netwrite" || ev.Kind == "netwritefail") {
			ws = append(ws, ev)
		}
	}
	cmd, known := st.constOf(word(4))
	var sp *msgSpec
	for _, typ := range cliRequests[c.pk] {
		q := specOf(c.pk, typ)
		if known && cmd == int64(q.cmd) {
			sp = q
		}
		if eq, dec := st.decide(cEqL(word(4), linC(int64(q.cmd)))); !known && (!dec || eq) {
			if length := word(0); st.holds(cLe(linC(12), length)) && st.holds(cLe(length, linC(r.P.localConst("codec", "PacketMax")))) {
				c.fail("answered", x, nil, "not told", "a frame may be a "+typ+" and is not treated as one")
			}
			return
		}
	}
	if sp == nil {
		if len(ws) > 0 {
			c.fail("quiet", x, ws[0], fmt.Sprintf("%#x answered", cmd), "writes a frame although what was received asks for none")
			return
		}
		r.ok("quiet", "")
		return
	}
	what := sp.typ + " "
	if bad := x.all("decodefail"); len(bad) > 0 {
		switch {
		case len(ws) > 0:
			c.fail("answered", x, ws[0], what+"unreadable", "a "+sp.typ+" that cannot be read is answered")
		case !c.gone(x):
			c.fail("answered", x, bad[0], what+"unreadable stays", "a "+sp.typ+" that cannot be read leaves the session open")
		default:
			r.ok("answered", "unreadable "+sp.typ+" closes")
		}
		return
	}
	ds := x.all("decode")
	if len(ds) != 1 || typeName(ds[0].Extra) != sp.typ {
		c.fail("answered", x, nil, what+"undecoded", "a "+sp.typ+" is not decoded as one")
		return
	}
	if len(ws) == 0 {
		for _, ev := range x.all("deadline") {
			if ev.Extra != "ReadDeadline" && len(ev.Args) == 3 && isErr(st, c.e, ev.Args[2]) && c.gone(x) {
				r.ok("answered", "connection lost before the answer")
				return
			}
		}
	}
	if len(ws) != 1 {
		c.fail("answered", x, ds[0], what+"writes", fmt.Sprintf("%d frames are written for a %s", len(ws), sp.typ))
		return
	}
	w := ws[0]
	req, ok := ds[0].Args[0].(PtrV)
	typ, obj, enc := frameMsg(w)
	if !ok || !enc {
		c.fail("answered", x, w, what+"bytes", "what is written is not the encoding of a message")
		return
	}
	var made *Ev
	for _, ev := range x.all("respond") {
		if pt, ok := unIface(ev.Args[2]).(PtrV); ok && pt.Obj == obj.Obj && ev.Args[0].key() == req.key() {
			made = ev
		}
	}
	code := Lin{}
	if made != nil {
		iv, ok := made.Args[1].(IntV)
		if ok {
			code = iv.L
		} else {
			made = nil
		}
	}
	switch {
	case made == nil:
		c.fail("answered", x, w, what+"foreign", "the "+typ+" written was not made from the request")
	case w.Args[0].key() != cliConn():
		c.fail("answered", x, w, what+"elsewhere", "the response is written to something else than the session's connection")
	case !st.eqL(code, linC(0)):
		c.fail("answered", x, w, what+"code", "the request is answered with a failure")
	case frameTerm(w).Args[1].key() != made.Extra.(string):
		c.fail("answered", x, w, what+"altered", "the response is changed after it was made from the request")
	case !x.sameHead(w, obj, req, word(8), int64(sp.cmd|respBit)):
		c.fail("answered", x, w, what+"head", "the response does not carry the request's sequence number and the paired command")
	case w.Kind == "netwritefail" && !c.gone(x):
		c.fail("answered", x, w, what+"write failed", "the session stays open although the response could not be written")
	case hasStr([]string{"Terminate", "Unbind", "Exit"}, sp.typ) && !c.gone(x):
		c.fail("answered", x, w, what+"stays", "the session stays open after the termination was answered")
	default:
		seen[sp.typ] = true
		r.ok("answered", c.name+" "+sp.typ+" with "+typ)
	}
}
