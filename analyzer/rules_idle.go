package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tickPass is one way through the housekeeping of one session.
type tickPass struct {
	x   srvEnd
	key *Term // the registry entry looked at
	out []Val
}

// idleLimit is the configured time after which a session without activity is closed.
const idleLimit = "Server.ForceCloseConnTime"

// testAfter is the time without activity after which the link is tested.
const testAfter = 60_000_000_000

// tooMany is the number of unanswered link tests with which a session is given up.
const tooMany = 3

var idleEvents = append([]string{"lock", "unlock", "now", "range", "flush"}, srvEvents...)

// housekeeping interprets OnTick and gathers what it does with one session.
func (c *srvCase) housekeeping() (ps []*tickPass) {
	fn := c.r.P.srvMethod("OnTick")
	c.where = fn.Pos()
	c.e.OnRange = func(st *State, cc *CallCtx, fn *ssa.Function, args []Val, o Outcome, delta []*Ev) {
		if len(args) == 2 {
			ps = append(ps, &tickPass{x: srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic}, key: args[1].(TermV).T, out: o.Res})
		}
	}
	c.ends = c.r.srvRoot(fn, c.e, c.name)
	return
}

// of: the value was reached through this registry entry.
func (t *tickPass) of(v Val) bool {
	s := ""
	switch x := v.(type) {
	case PtrV:
		s = symText(x)
	case TermV:
		s = x.T.String()
	default:
		s = v.key()
	}
	return strings.Contains(s, t.key.String())
}

func (t *tickPass) rds(label string) (vs []Val) {
	for _, ev := range t.x.evs {
		if fieldEv(ev, "rd", "session"+label) && t.of(ev.Args[0]) {
			vs = append(vs, ev.Args[1])
		}
	}
	return
}

// idle: the session's last activity was found to lie more than d back, or not.
func (t *tickPass) idle(d Lin) (over, under bool) {
	for _, l := range t.rds(".lastUseTime") {
		for _, n := range t.x.all("now") {
			last, now := timeLin(l).add(d), timeLin(n.Args[0])
			over = over || t.x.st.holds(cLe(last, now))
			under = under || t.x.st.holds(cLe(now, last))
		}
	}
	return
}

// sends maps the kind of frame (end, link) to the event by which the pass sends it to its session.
func (c *srvCase) sends(t *tickPass, tasks map[*ssa.Function]string) map[string]*Ev {
	m := map[string]*Ev{}
	for _, ev := range t.x.evs {
		switch ev.Kind {
		case "asyncwrite", "writefail", "loopwrite":
			typ, _, known := frameMsg(ev)
			if !known {
				c.fail("closed", &t.x, ev, "bytes", "sends bytes that are not the encoding of a message")
				continue
			}
			k := roleOf(typ)
			if k == "" {
				k = "other"
			}
			if !t.of(ev.Args[0]) {
				c.fail("closed", &t.x, ev, "elsewhere", "housekeeping of one session sends a "+typ+" on another connection")
				continue
			}
			if m[k] != nil && k != "other" {
				c.fail("closed", &t.x, ev, "twice", "sends two "+typ+" frames in one go")
			}
			m[k] = ev
		case "submitfail":
			if f, ok := ev.Args[1].(FuncV); ok && tasks[f.Fn] != "" && m[tasks[f.Fn]] == nil {
				m[tasks[f.Fn]] = ev
			}
		}
	}
	return m
}

// tasksOf finds out what the tasks handed to worker pools send.
func tasksOf(ps []*tickPass) map[*ssa.Function]string {
	m := map[*ssa.Function]string{}
	for _, t := range ps {
		var cur *ssa.Function
		for _, ev := range t.x.evs {
			switch ev.Kind {
			case "submit":
				cur = nil
				if f, ok := ev.Args[1].(FuncV); ok {
					cur = f.Fn
				}
			case "taskend":
				cur = nil
			case "asyncwrite", "writefail":
				if typ, _, known := frameMsg(ev); known && cur != nil && m[cur] == "" {
					m[cur] = roleOf(typ)
				}
			}
		}
	}
	return m
}

// isSession decides whether the registry entry is a session on this pass.
func (c *srvCase) isSession(t *tickPass) bool {
	is, known := t.x.st.decide(cTerm(mk("is:*"+c.t.sess.String(), TermV{T: t.key})))
	return !known || is
}

func (c *srvCase) tickPass(t *tickPass, tasks map[*ssa.Function]string) {
	r, x := c.r, &t.x
	if x.panic {
		c.fail("visits", x, nil, "panic", "housekeeping can panic")
		return
	}
	if !c.isSession(t) {
		return
	}
	if len(t.out) == 1 {
		on, known := x.st.decide(boolOf(t.out[0]))
		r.check(on && known, "visits", "server.OnTick", c.where, c.name, c.name+": after one session the housekeeping may skip all others")
	}
	over, under := t.idle(c.limit(t))
	many, few := false, false
	for _, v := range t.rds(".nAt") {
		many = many || x.st.holds(cLe(linC(tooMany), v.(IntV).L))
		few = few || x.st.holds(cLe(v.(IntV).L, linC(tooMany-1)))
	}
	sent := c.sends(t, tasks)
	if end := sent["end"]; end != nil {
		if !over && !many {
			c.fail("closed", x, end, "early", "a session is closed that is neither idle beyond the limit nor owes too many answers to link tests")
		} else {
			r.ok("closed", "idle or unanswered")
		}
		if end.Kind == "asyncwrite" {
			closed := false
			for _, ev := range x.all("close") {
				closed = closed || ev.Ctx != "tick" && t.of(ev.Args[0])
			}
			if !closed {
				c.fail("closed", x, end, "open", "the connection of a dead session is not closed after the termination was sent")
			}
		}
	} else {
		for _, ev := range x.all("close") {
			if !over && !many {
				c.fail("closed", x, ev, "early", "a session is closed that is neither idle beyond the limit nor owes too many answers to link tests")
				return
			}
		}
		if len(x.all("close")) == 0 && (!under || !few) {
			why := "idle beyond the limit"
			if under {
				why = "owing too many answers to link tests"
			}
			c.fail("closed", x, nil, "stays", "a session "+why+" may be left open")
			return
		}
		r.ok("closed", "left open")
	}
	// link tests
	long, fresh := t.idle(linC(testAfter))
	in, out := false, false
	for _, v := range t.rds(c.t.stat) {
		is, known := x.st.decide(cEqL(v.(IntV).L, linC(c.t.login)))
		in, out = in || is && known, out || !is && known
	}
	link := sent["link"]
	switch {
	case link != nil && link.Kind != "submitfail":
		switch {
		case sent["end"] != nil:
			c.fail("tested", x, link, "closed", "a link test is sent on a session that is being closed")
		case !in:
			c.fail("tested", x, link, "login", "a link test is sent on a session that was not found logged in")
		case !long:
			c.fail("tested", x, link, "busy", "a link test is sent on a session that was not found idle")
		case c.name == "sgip":
			c.fail("tested", x, link, "sgip", "a link test is sent although the protocol has none")
		default:
			r.ok("tested", "")
		}
	case link == nil && sent["end"] == nil && c.name != "sgip":
		if !out && !fresh {
			c.fail("tested", x, nil, "never", "a logged-in idle session is not tested")
		} else {
			r.ok("tested", "not due")
		}
	}
	// the count of unanswered tests
	raised := 0
	for i, ev := range x.evs {
		if !fieldEv(ev, "wr", "session.nAt") {
			continue
		}
		switch {
		case link == nil || link.Kind != "asyncwrite" || ev.Ctx == "tick" || !after(x, link, i):
			c.fail("counted", x, ev, "unsent", "the number of unanswered link tests changes although no test was sent")
		case !t.of(ev.Args[0]):
			c.fail("counted", x, ev, "other", "a link test is counted on another session")
		case !raisesByOne(x, i):
			c.fail("counted", x, ev, "step", "a link test changes the number of unanswered tests by something other than one, or outside one hold of the session's lock")
		default:
			raised++
		}
	}
	if link != nil && link.Kind == "asyncwrite" && c.name != "sgip" {
		r.check(raised == 1, "counted", r.P.funcAt(link.Pos), link.Pos, c.name, fmt.Sprintf("%s: a link test sent is counted %d times", c.name, raised))
	}
}

// limit is the configured idle limit as this pass read it.
func (c *srvCase) limit(t *tickPass) Lin {
	return linT(mk("cfg", Lit("yaml_config.YmlConfig.GetDuration"), litStr(idleLimit)))
}

func boolOf(v Val) Cond {
	switch x := v.(type) {
	case BoolV:
		return x.C
	case TermV:
		return cTerm(x.T)
	}
	return cFalse
}

func after(x *srvEnd, ev *Ev, i int) bool {
	for _, y := range x.evs[:i] {
		if y == ev {
			return true
		}
	}
	return false
}

// raisesByOne: write i stores one more than was read from the same field under the same hold of its lock.
func raisesByOne(x *srvEnd, i int) bool {
	w := x.evs[i]
	lk := ownLock(w)
	if lk == "" {
		return false
	}
	for j := i - 1; j >= 0; j-- {
		ev := x.evs[j]
		if ev.Kind == "unlock" && ev.Args[0].key() == lk {
			return false
		}
		if ev.Kind == "rd" && ev.Extra == w.Extra && ev.Args[0].key() == w.Args[0].key() {
			a, ok := ev.Args[1].(IntV)
			b, ok2 := w.Args[1].(IntV)
			return ok && ok2 && x.st.eqL(stripTrunc(b.L), a.L.addC(1))
		}
	}
	return false
}

// stripTrunc drops the wrapping of a small counter.
func stripTrunc(l Lin) Lin {
	if len(l.T) != 1 || l.C != 0 || l.T[0].K != 1 {
		return l
	}
	t := l.T[0].T
	switch {
	case strings.HasPrefix(t.Op, "trunc:"):
		if v, ok := t.Args[0].(IntV); ok {
			return v.L
		}
	case strings.HasPrefix(t.Op, "wrap:") && strings.HasSuffix(t.Op, ":+"):
		a, ok := t.Args[0].(IntV)
		b, ok2 := t.Args[1].(IntV)
		if ok && ok2 {
			return a.L.add(b.L)
		}
	}
	return l
}

// activity judges what one arrival of a frame does to the session's idle clock and test count.
func (c *srvCase) activity(x *srvEnd) {
	r := c.r
	var touched, reset bool
	for _, ev := range x.evs {
		switch {
		case fieldEv(ev, "wr", "session.lastUseTime"):
			isNow := false
			for _, n := range x.all("now") {
				isNow = isNow || n.Args[0].key() == ev.Args[1].key()
			}
			if !isNow {
				c.fail("clock", x, ev, "value", "the time of a session's last activity is set to something other than the present")
			} else if c.root == "" && !ownSess(ev.Args[0]) {
				c.fail("clock", x, ev, "other", "a frame counts as activity of another session")
			} else if c.root == "OnTick" {
				c.fail("clock", x, ev, "tick", "housekeeping counts as activity of a session")
			} else {
				touched = true
				r.ok("clock", "")
			}
		case fieldEv(ev, "wr", "session.nAt") && c.root != "OnTick":
			v, ok := ev.Args[1].(IntV)
			if !ok || !x.st.eqL(v.L, linC(0)) {
				c.fail("counted", x, ev, "unsent", "the number of unanswered link tests changes although no test was sent")
			} else if !ownSess(ev.Args[0]) {
				c.fail("counted", x, ev, "reset", "the number of unanswered link tests of another session is reset")
			} else {
				reset = true
			}
		}
	}
	if c.root != "" || c.cmd < 0 || len(x.all("decode")) == 0 {
		return
	}
	if c.isTestAnswer() {
		if len(x.all("submit", "taskend")) > 0 && len(x.all("submitfail")) == 0 || c.r.P.action(x) != "close" {
			if !reset {
				c.fail("answered", x, nil, "kept", "an answer to a link test does not reset the number of unanswered tests")
			} else if !touched {
				c.fail("answered", x, nil, "idle", "an answer to a link test does not count as activity")
			} else {
				r.ok("answered", "")
			}
		}
		return
	}
	// a link test or an accepted submission of the peer is activity
	for _, ev := range x.all("respond") {
		code, ok := ev.Args[1].(IntV)
		if !ok || !x.st.eqL(code.L, linC(0)) || c.role != "submit" && c.role != "link" {
			continue
		}
		pt, _ := unIface(ev.Args[2]).(PtrV)
		for _, w := range x.all("asyncwrite") {
			if _, obj, known := frameMsg(w); known && obj.Obj == pt.Obj {
				r.check(touched, "active", r.P.funcAt(w.Pos), w.Pos, c.name+" "+c.role, c.name+": an answered "+c.role+" request does not count as activity of its session")
			}
		}
	}
}

// isTestAnswer: the command is the answer to a link test.
func (c *srvCase) isTestAnswer() bool {
	for _, sp := range specs[c.pk] {
		if roleOf(sp.typ) == "link" && c.cmd == int64(sp.cmd)|0x80000000 {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "S10", Level: "proof", Tech: "path-sensitive abstract interpretation: decision-table rule on every way through the housekeeping of one session, with linear facts about clocks and counters",
		Rule:  "OnTick is interpreted per protocol; each way through the callback over the registry, for an arbitrary session, sends a termination and closes the connection afterwards exactly when it has found the session's last activity longer ago than Server.ForceCloseConnTime or three or more unanswered link tests; it sends a link test only to a session found logged in and idle for a minute, never over SGIP or to a session being closed, and leaves one out only when the session was found not logged in or active; the count of unanswered tests rises by one, under the session's lock, in the callback of a test that was sent, and nowhere else; the housekeeping goes on to the next session. On OnTraffic and every other place that stores to these fields the count only goes to zero and the time of last activity only to the present, for the frame's own session; an answer to a link test does both, an answered link test or accepted submission counts as activity.",
		Assum: []string{"the worker pool runs what it accepts", "gnet calls OnTick repeatedly", "sync.Map.Range visits every key"},
		Run: func(r *Report) {
			r.atLeast("visits", 20)
			r.atLeast("closed", 20)
			r.atLeast("tested", 10)
			r.atLeast("counted", 2)
			r.atLeast("clock", 10)
			r.atLeast("answered", 2)
			r.atLeast("active", 5)
			t := r.P.srvTypes()
			for _, n := range srvNames {
				r.guard(n+" OnTick", func() {
					e := r.srvEngine(append([]string{"encode"}, idleEvents...)...)
					r.srvTrack(e, t, allSess...)
					c := &srvCase{r: r, name: n, pk: "codec/" + n, cmd: -1, t: t, e: e, root: "OnTick"}
					ps := c.housekeeping()
					tasks := tasksOf(ps)
					for _, p := range ps {
						c.tickPass(p, tasks)
					}
					for k := range c.ends {
						x := &c.ends[k]
						r.check(len(x.all("range")) > 0 && r.P.action(x) == "none", "visits", "server.OnTick", c.where, n, n+": a tick may not look at the sessions, or shuts the server down")
					}
				})
			}
			r.srvCases(append([]string{"encode"}, idleEvents...), func(_ string, cmd int64) bool { return cmd >= 0 }, nil, func(c *srvCase) {
				for k := range c.ends {
					c.activity(&c.ends[k])
				}
			})
			r.srvEverywhere(idleEvents, []string{".nAt", ".lastUseTime"}, nil, func(c *srvCase) {
				for k := range c.ends {
					c.activity(&c.ends[k])
				}
			})
		}})
}
