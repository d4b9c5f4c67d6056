package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// crashes lets every call made by server code run as a task, while a window slot is held, also
// end in a panic. What library and codec code does below such a call cannot touch a window, so
// a panic inside it is a panic of the call.
func (c *srvCase) crashes() {
	c.e.CrashAt = func(st *State, cc *CallCtx) bool {
		if st.ctx != "pool" || cc.Caller == nil || cc.Caller.Pkg == nil || !c.r.P.inPkg(cc.Caller, srvPkg) {
			return false
		}
		held := 0
		for ev := st.trace; ev != nil; ev = ev.prev {
			switch ev.Kind {
			case "send":
				held++
			case "recv":
				held--
			}
		}
		return held > 0
	}
}

// inPkg: the function belongs to the package.
func (p *Program) inPkg(fn *ssa.Function, pkg string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+pkg
}

// slots judges the slots of the session's window taken and given back along one path.
func (c *srvCase) slots(x *srvEnd) {
	r, t := c.r, c.t
	crash := len(x.all("crashed")) > 0
	held, taken := 0, 0
	var last *Ev
	for i, ev := range x.evs {
		switch ev.Kind {
		case "send", "recv":
			if !c.onWindow(ev) {
				if ev.Ctx == "pool" {
					c.fail("slots", x, ev, ev.Kind+" other", "a task sends to or receives from a channel that is not the window of its own session")
				}
				continue
			}
			if ev.Extra == "nonblocking" {
				panic(undecided("attempt to take a slot of the window without waiting at %s", r.P.pos(ev.Pos)))
			}
			if ev.Kind == "send" {
				if held > 0 {
					c.fail("slots", x, ev, "twice", "a slot of the window is taken while the task already holds one")
					return
				}
				held++
				taken++
				last = ev
			} else {
				if held == 0 {
					c.fail("slots", x, ev, "unheld", "a slot of the window is given back that the task does not hold")
					return
				}
				held--
			}
		case "taskend":
			if held > 0 && !callbackHolds(x, i) {
				how := "a task ends with"
				if crash {
					how = "a task that crashes keeps"
				}
				c.fail("slots", x, last, "kept", how+" its slot of the window")
				return
			}
		case "wr":
			if ev.Extra == "session"+t.window {
				r.check(fromFresh(x, i, t), "swapped", r.P.funcAt(ev.Pos), ev.Pos, c.name, c.name+": the window of a session is replaced although tasks of it may hold slots")
			}
		}
	}
	if held > 0 {
		c.fail("slots", x, last, "kept", "a slot of the window is never given back")
		return
	}
	if taken > 0 {
		how := "given back"
		if crash {
			how = "given back after a crash"
		}
		r.ok("slots", how+" "+r.P.funcAt(last.Pos))
	}
	accepted := false
	for _, ev := range x.all("allow") {
		ok, known := x.st.decide(ev.Args[1].(BoolV).C)
		accepted = ok || !known
	}
	if accepted && !crash {
		held := false
		for _, ev := range x.evs {
			switch ev.Kind {
			case "send":
				held = held || c.onWindow(ev)
			case "recv":
				if c.onWindow(ev) {
					held = false
				}
			case "asyncwrite", "writefail":
				r.check(held, "waits", r.P.funcAt(ev.Pos), ev.Pos, c.name, c.name+": an accepted submission is answered without a slot of the window being held")
			}
		}
	}
}

// callbackHolds: the slot is given back later, by a callback the task has arranged for.
func callbackHolds(x *srvEnd, i int) bool {
	for _, ev := range x.evs[i:] {
		if ev.Kind == "recv" && (ev.Ctx == "callback" || ev.Ctx == "timer") {
			return true
		}
	}
	return false
}

func (c *srvCase) onWindow(ev *Ev) bool { return c.ownField(ev.Args[0], c.t.window) }

// windowMade: the window a session gets at its login has room for what the account may have in work.
func (c *srvCase) windowMade(x *srvEnd) {
	st := x.st
	for _, ev := range x.evs {
		if !fieldEv(ev, "wr", "session"+c.t.window) {
			continue
		}
		var size Val
		for _, m := range x.all("makechan") {
			if m.Args[0].key() == ev.Args[1].key() {
				size = m.Args[1]
			}
		}
		n, ok := size.(IntV)
		if !ok {
			c.fail("size", x, ev, "unknown", "the window of a session is set to a channel that is not made here")
			continue
		}
		w, ok := c.acctField(x, ".MtWindowSize").(IntV)
		if !ok {
			c.fail("size", x, ev, "account", "the account whose window is to be kept is not known when the window is made")
			continue
		}
		if !st.eqL(n.L, w.L) && !(st.eqL(n.L, linC(1)) && st.holds(cLe(w.L, linC(0)))) || !st.holds(cLe(linC(1), n.L)) {
			c.fail("size", x, ev, "size", fmt.Sprintf("the window of a session is made for %v tasks, not for the number its account is given (one at least)", n.L))
			continue
		}
		c.r.ok("size", "the account's window")
	}
}

func init() {
	register(&Check{ID: "S07", Level: "proof", Tech: "path-sensitive abstract interpretation with a crash at every call: acquire/release balance (typestate) of the session's window channel",
		Rule:  "Every entry point of the server (OnTraffic for each protocol and command, OnOpen, OnClose, OnTick, OnBoot, OnShutdown) is interpreted with its worker tasks, write callbacks and timers; along every path each task sends at most once to the window channel loaded from its own session, receives only after it has sent, and has received again when it ends, touches no other channel, and the window is put into a session only on the step from waiting-for-login to logged-in. The same holds when any call a task's server code makes while it holds the slot ends in a panic (deferred calls run, the worker recovers). A submission is answered by its task only while the slot is held; the window made at login has max(1, MtWindowSize of the account) slots.",
		Assum: []string{"the worker pool recovers a panic of a task, as documented", "a panic inside a library or codec function is a panic of the call of it"},
		Run: func(r *Report) {
			r.atLeast("slots", 20)
			r.atLeast("size", 3)
			r.atLeast("waits", 6)
			r.atLeast("swapped", 3)
			r.srvCases(append([]string{"encode", "crashed", "lock", "unlock"}, srvEvents...), func(string, int64) bool { return true }, (*srvCase).crashes, func(c *srvCase) {
				for k := range c.ends {
					c.slots(&c.ends[k])
				}
			})
			r.srvEverywhere(append([]string{"crashed", "lock", "unlock"}, srvEvents...), []string{r.P.srvTypes().window}, (*srvCase).crashes, func(c *srvCase) {
				if c.root != "" {
					for k := range c.ends {
						c.slots(&c.ends[k])
					}
				}
			})
			r.srvCases(append([]string{"makechan"}, srvEvents...), func(role string, _ int64) bool { return role == "login" }, func(c *srvCase) {
				c.loginHooks()
				c.e.NoMerge = true
			}, func(c *srvCase) {
				for k := range c.ends {
					c.windowMade(&c.ends[k])
				}
			})
		}})
}
