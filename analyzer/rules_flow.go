package main

import "fmt"

// throttle is the status with which each protocol refuses a submission for flow control.
var throttle = map[string]int64{"cmpp": 8, "sgip": 33, "smgp": 1}

// rateLimit judges one way a submission is dealt with.
func (c *srvCase) rateLimit(x *srvEnd) {
	r, t := c.r, c.t
	dec := x.all("decode")
	asked := x.all("allow")
	if len(dec) == 0 {
		if len(asked) > 0 {
			c.fail("asked", x, asked[0], "early", "the rate limiter is asked without a submission")
		}
		return
	}
	req, ok := dec[0].Args[0].(PtrV)
	if !ok {
		panic(undecided("submission %s", show(dec[0].Args[0])))
	}
	before := true
	var ask *Ev
	for _, ev := range x.evs {
		if ev.Kind == "allow" {
			if ask != nil {
				c.fail("asked", x, ev, "twice", "the rate limiter is asked more than once for one submission")
				return
			}
			ask = ev
			before = false
		}
		if before && (hasStr([]string{"submit", "submitfail", "asyncwrite", "writefail", "loopwrite", "smstore"}, ev.Kind) || ev.Kind == "wr" && (fieldEv(ev, "wr", "session.counter.mt") || fieldEv(ev, "wr", "session.counter.report"))) {
			c.fail("asked", x, ev, "late", "something is done with a submission before the rate limiter is asked")
			return
		}
	}
	if ask == nil {
		c.fail("asked", x, dec[0], "never", "a submission is dealt with without asking the rate limiter")
		return
	}
	if !c.ownField(ask.Args[0], t.limiter) {
		c.fail("asked", x, ask, "other", "the rate limiter asked is not the session's own")
		return
	}
	if len(ask.Args) > 2 {
		if n, ok := ask.Args[2].(IntV); !ok || !x.st.eqL(n.L, linC(1)) {
			c.fail("asked", x, ask, "amount", "a submission takes something other than one token of the rate limiter")
			return
		}
	}
	r.ok("asked", "once, before anything else")
	ok, known := x.st.decide(ask.Args[1].(BoolV).C)
	if !known {
		c.fail("refused", x, ask, "ignored", "what is done with a submission does not depend on the rate limiter")
		return
	}
	if ok {
		return
	}
	code, resp, fine := c.answer(x, req)
	if !fine {
		return
	}
	if resp != nil && !x.st.eqL(code, linC(throttle[c.name])) {
		c.fail("refused", x, resp, "code", fmt.Sprintf("a submission over the rate is answered with %v, not with the throttling status %d", code, throttle[c.name]))
		return
	}
	for _, ev := range x.evs {
		switch {
		case fieldEv(ev, "wr", "session.counter.mt"), fieldEv(ev, "wr", "session.counter.report"), fieldEv(ev, "wr", "session.counter.dly"):
			c.fail("refused", x, ev, "counted", "a submission over the rate is counted")
			return
		case (ev.Kind == "asyncwrite" || ev.Kind == "writefail" || ev.Kind == "loopwrite") && ev != resp:
			c.fail("refused", x, ev, "more", "a submission over the rate is followed by more than its refusal")
			return
		}
	}
	r.ok("refused", "throttling status and nothing else")
}

// ownField: the value was loaded from that field of the connection's own session.
func (c *srvCase) ownField(v Val, path string) bool {
	pt, ok := v.(PtrV)
	if !ok {
		if tv, isT := v.(TermV); isT {
			return sessField(tv.T.String(), path)
		}
		return false
	}
	return sessField(symText(pt), path)
}

func sessField(s, path string) bool {
	const own = `connctx(nonnil:conn("c"))`
	i := indexOf(s, own)
	return i >= 0 && indexOf(s, `"`+path+`"`) > i
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// limiterMade: the limiter a session gets at its login lets the account's configured rate through.
func (c *srvCase) limiterMade(x *srvEnd) {
	st := x.st
	for _, ev := range x.evs {
		if !fieldEv(ev, "wr", "session"+c.t.limiter) {
			continue
		}
		var mk *Ev
		for _, m := range x.all("newlimiter") {
			if m.Args[2].key() == ev.Args[1].key() {
				mk = m
			}
		}
		if mk == nil {
			c.fail("rate", x, ev, "unknown", "a session's rate limiter is set to something not made here")
			return
		}
		thr := c.acctField(x, ".Throughput")
		tv, ok := thr.(IntV)
		if !ok {
			c.fail("rate", x, ev, "account", "the account whose rate is to be kept is not known when the rate limiter is made")
			return
		}
		var every Lin
		lim, ok := mk.Args[0].(TermV)
		if ok && lim.T.Op == "every" {
			d, isInt := lim.T.Args[0].(IntV)
			ok = isInt
			every = d.L
		} else {
			ok = false
		}
		if !ok {
			panic(undecided("rate of the limiter: %s", show(mk.Args[0])))
		}
		if zero, known := st.decide(cEqL(tv.L, linC(0))); known && zero {
			c.r.check(every.isConst() && every.C > 0, "rate", c.r.P.funcAt(ev.Pos), ev.Pos, c.name+" default", c.name+": without a configured rate the limiter has no fixed positive default")
			continue
		}
		if !c.perSecond(st, every, tv.L) {
			c.fail("rate", x, ev, "interval", fmt.Sprintf("the limiter's interval is %v ns, not a second divided by the account's configured rate", every))
			continue
		}
		n, ok := mk.Args[1].(IntV)
		w := c.acctField(x, ".MtWindowSize")
		wv, ok2 := w.(IntV)
		if !ok || !ok2 {
			panic(undecided("burst of the limiter: %s", show(mk.Args[1])))
		}
		n.L = x.capOf(n.L)
		if !st.eqL(n.L, wv.L) && !(st.eqL(n.L, linC(1)) && st.holds(cLe(wv.L, linC(0)))) {
			c.fail("rate", x, ev, "burst", fmt.Sprintf("the limiter's burst is %v, not the account's window", n.L))
			continue
		}
		c.r.ok("rate", "interval and burst from the account")
	}
}

// acctField is a setting of the account found for the login at hand.
func (c *srvCase) acctField(x *srvEnd, path string) Val {
	for _, ev := range x.evs {
		if ev.Kind == "findacct" {
			if pt, ok := ev.Args[2].(PtrV); ok {
				if o := x.st.obj(pt.Obj); o != nil && typeAt(o.Typ, path) != nil {
					return o.loadPath(pt.Path + path)
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "S06", Level: "proof", Tech: "path-sensitive abstract interpretation: must-precede and must-not-follow rules around the rate limiter, value tracking of its settings",
		Rule:  "For each protocol Server.OnTraffic is interpreted on a submission from an arbitrary state; every way on which the submission was decoded asks the session's own limiter for exactly one token before any task is started, anything sent or counted; where the limiter said no exactly one response is sent, with the protocol's throttling status (CMPP 8, SGIP 33, SMGP 1), no counter changes and no report follows (or the connection closes). On the login paths the limiter put into the session is made with the interval 1 s / Throughput of the account found for the login (a fixed default when not configured) and the account's window as burst.",
		Assum: []string{"rate.Limiter.Allow takes one token or none and lets rate tokens per second plus burst through, as documented"},
		Run: func(r *Report) {
			r.atLeast("asked", 12)
			r.atLeast("refused", 6)
			r.atLeast("rate", 3)
			r.srvCases(append([]string{"encode"}, srvEvents...), func(role string, _ int64) bool { return role == "submit" }, nil, func(c *srvCase) {
				for k := range c.ends {
					c.rateLimit(&c.ends[k])
				}
			})
			r.srvCases(append([]string{"encode"}, srvEvents...), func(role string, _ int64) bool { return role == "login" }, func(c *srvCase) {
				c.loginHooks()
				c.e.NoMerge = true
			}, func(c *srvCase) {
				for k := range c.ends {
					c.limiterMade(&c.ends[k])
				}
			})
		}})
}

// perSecond: the interval is one second divided by n, in whole micro- or nanoseconds.
func (c *srvCase) perSecond(st *State, every, n Lin) bool {
	for _, unit := range []int64{1000, 1} {
		for _, typ := range []string{"int", "int64", "time.Duration"} {
			q := linT(mk("ar/:"+typ, IntV{linC(1000000000 / unit)}, IntV{n}))
			if st.eqL(every, q.mulC(unit)) {
				return true
			}
		}
	}
	return false
}

// capOf replaces the capacity of a channel made on the path by the size it was made with.
func (x *srvEnd) capOf(l Lin) Lin {
	for _, ev := range x.all("makechan") {
		if l.eq(linT(mk("cap", ev.Args[0]))) || len(l.T) == 1 && l.C == 0 && l.String() == "cap("+show(ev.Args[0])+")" {
			return ev.Args[1].(IntV).L
		}
	}
	return l
}
