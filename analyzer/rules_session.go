package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// The rules on what a server does with the frames of one connection. Every rule looks at all
// ends of one arrival of data (Server.OnTraffic from an arbitrary state, one frame), for each
// protocol, with the command word pinned to each command of the protocol and once left open.

// srvCase is the analysis of one protocol and command.
type srvCase struct {
	r      *Report
	name   string // server name
	pk     string // codec package
	cmd    int64  // pinned command, -1 when open
	role   string // login, submit, link, end, or "" for everything else
	t      *srvTypes
	e      *Engine
	ends   []srvEnd
	where  token.Pos
	root   string   // entry point when not OnTraffic
	passes []srvEnd // passes of loops over the registry
	counts map[string]*counted
}

var allSess = []string{".stat", ".clientId", ".nAt", ".lastUseTime", ".counter.mt", ".counter.dly", ".counter.report"}

func roleOf(msg string) string {
	switch msg {
	case "Connect", "Bind", "Login":
		return "login"
	case "Submit":
		return "submit"
	case "ActiveTest":
		return "link"
	case "Terminate", "Unbind", "Exit":
		return "end"
	}
	return ""
}

// srvCases runs f on the analysis of each protocol and command that pick accepts.
func (r *Report) srvCases(events []string, pick func(role string, cmd int64) bool, tune func(c *srvCase), f func(c *srvCase)) {
	t := r.P.srvTypes()
	for _, n := range srvNames {
		cmds := []int64{-1}
		roles := map[int64]string{}
		for _, sp := range specs["codec/"+n] {
			cmds = append(cmds, int64(sp.cmd))
			roles[int64(sp.cmd)] = roleOf(sp.typ)
		}
		for _, cmd := range cmds {
			if !pick(roles[cmd], cmd) {
				continue
			}
			what := fmt.Sprintf("%s command %#x", n, cmd)
			if cmd < 0 {
				what = n + " any command"
			}
			r.guard(what, func() {
				e := r.srvEngine(events...)
				r.srvTrack(e, t, append(append([]string{}, allSess...), ".activeSessions", t.window, t.limiter, t.pool, ".ver")...)
				c := &srvCase{r: r, name: n, pk: "codec/" + n, cmd: cmd, role: roles[cmd], t: t, e: e, where: r.P.srvMethod("OnTraffic").Pos()}
				if tune != nil {
					tune(c)
				}
				c.ends = r.traffic(n, e, cmd)
				if len(c.ends) == 0 {
					r.fail("undecided", what, c.where, "ends", "no way through OnTraffic was found")
				}
				f(c)
			})
		}
	}
}

func (c *srvCase) cmdOf(x *srvEnd) (int64, bool) {
	if c.cmd >= 0 {
		return c.cmd, true
	}
	return x.cmd()
}

func (c *srvCase) roleAt(x *srvEnd) string {
	if c.cmd >= 0 {
		return c.role
	}
	if v, ok := x.cmd(); ok {
		for _, sp := range specs[c.pk] {
			if int64(sp.cmd) == v {
				return roleOf(sp.typ)
			}
		}
	}
	return ""
}

// at names an end by protocol, command and the function its last relevant event is in.
func (c *srvCase) fail(rule string, x *srvEnd, ev *Ev, key, msg string) {
	pos := c.where
	fn := "OnTraffic"
	if ev != nil {
		pos = ev.Pos
		fn = c.r.P.funcAt(pos)
	}
	what := "any command"
	if c.root != "" {
		what = c.root
		if ev == nil {
			fn = c.root
		}
	} else if v, ok := c.cmdOf(x); ok {
		what = fmt.Sprintf("command %#x", v)
	}
	who := c.name + " server"
	if c.name == "" {
		who = "server"
	}
	c.r.fail(rule, fn, pos, c.name+" "+what+" "+key, fmt.Sprintf("%s, %s: %s", who, what, msg), traceStr(c.r.P, x.evs)...)
}

// ownSess: the pointer leads into the session of the connection the data came from.
func ownSess(v Val) bool {
	pt, ok := v.(PtrV)
	if !ok {
		return false
	}
	so := symObjs[pt.Obj]
	return so != nil && so.Sym != nil && strings.Contains(so.Sym.String(), `connctx(nonnil:conn("c"))`)
}

func fieldEv(ev *Ev, kind, label string) bool { return ev.Kind == kind && ev.Extra == label }

// effects are the events by which a request is acted upon.
var effects = []string{"submit", "submitfail", "allow", "asyncwrite", "writefail", "loopwrite", "wr", "smstore", "smdelete", "setctx", "afterfunc"}

// gateAt is the session state the loop last looked at before event i.
func (c *srvCase) gateAt(x *srvEnd, i int) Val {
	for j := i - 1; j >= 0; j-- {
		ev := x.evs[j]
		if ev.Ctx == "loop" && fieldEv(ev, "rd", "session"+c.t.stat) && ownSess(ev.Args[0]) {
			return ev.Args[1]
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "S01", Level: "proof", Tech: "path-sensitive abstract interpretation of the event loop: dominating-state-check (typestate) rule",
		Rule:  "Server.OnTraffic is interpreted from an arbitrary connection state with arbitrary received bytes, through the handler chain, worker tasks and write callbacks of each protocol; on every path each effect of a request must be dominated by a read of the connection's own session state, under its lock, that the path has found equal to logged-in (for the login request: to waiting-for-login); a path whose read gave anything else must end in Close without effects; the state is set to logged-in only from waiting-for-login under one hold of the session lock, and never back to waiting.",
		Assum: []string{"gnet calls OnOpen before OnTraffic and never calls OnTraffic after OnClose on one connection"},
		Run: func(r *Report) {
			r.atLeast("gate", 60)
			r.atLeast("refused", 20)
			r.atLeast("login-once", 3)
			r.srvCases(append([]string{"lock", "unlock"}, srvEvents...), func(string, int64) bool { return true }, nil, func(c *srvCase) {
				handled := map[int64]bool{}
				for k := range c.ends {
					x := &c.ends[k]
					if v, ok := c.cmdOf(x); ok && len(x.all("decode", "submit")) > 0 {
						handled[v] = true
					}
				}
				for k := range c.ends {
					c.gate(&c.ends[k], handled)
					c.stateMoves(&c.ends[k], "login-once")
				}
			})
		}})
}

func (c *srvCase) gate(x *srvEnd, handled map[int64]bool) {
	r := c.r
	cmd, known := c.cmdOf(x)
	want, name := c.t.login, "logged in"
	if c.roleAt(x) == "login" {
		want, name = c.t.fresh, "waiting for its login"
	}
	passed := false
	for i, ev := range x.evs {
		if !hasStr(effects, ev.Kind) {
			continue
		}
		if !known {
			c.fail("gate", x, ev, ev.Kind, "acts on a frame ("+ev.Kind+") whose command it has not identified")
			return
		}
		g := c.gateAt(x, i)
		if g == nil || !stateIs(x.st, g, want) {
			c.fail("gate", x, ev, ev.Kind, ev.Kind+" is reached without the session having been found "+name)
			return
		}
		passed = true
		r.ok("gate", ev.Kind+" at "+r.P.pos(ev.Pos))
	}
	if passed || !x.consumed() || !known || !handled[cmd] {
		return
	}
	// no effect: either the gate let the frame through and the body did not decode, or the
	// connection is closed
	if r.P.action(x) != "close" {
		var last *Ev
		if n := len(x.evs); n > 0 {
			last = x.evs[n-1]
		}
		c.fail("refused", x, last, "stays open", "a request that is not acted upon leaves the connection open")
		return
	}
	r.ok("refused", "closed")
}

// stateMoves: the session becomes logged-in only from waiting-for-login, in one hold of its lock.
func (c *srvCase) stateMoves(x *srvEnd, rule string) {
	r := c.r
	for i, ev := range x.evs {
		if !fieldEv(ev, "wr", "session"+c.t.stat) {
			continue
		}
		if stateIs(x.st, ev.Args[1], c.t.closed) {
			continue
		}
		if !stateIs(x.st, ev.Args[1], c.t.login) {
			c.fail(rule, x, ev, "state", "the session state is set to something other than logged-in or closing")
			continue
		}
		c.r.check(fromFresh(x, i, c.t), rule, c.r.P.funcAt(ev.Pos), ev.Pos, c.name, c.name+": the session is set to logged-in without having been found waiting for its login under the same hold of its lock")
		_ = r
	}
}

// fromFresh: before write i, and in the same hold of the session's lock, the state was read and found fresh.
func fromFresh(x *srvEnd, i int, t *srvTypes) bool {
	w := x.evs[i]
	lk := ownLock(w)
	if lk == "" {
		return false
	}
	for j := i - 1; j >= 0; j-- {
		ev := x.evs[j]
		if ev.Kind == "unlock" && ev.Args[0].key() == lk {
			return false
		}
		if fieldEv(ev, "rd", "session"+t.stat) && ev.Args[0].(PtrV).Obj == w.Args[0].(PtrV).Obj {
			return stateIs(x.st, ev.Args[1], t.fresh)
		}
	}
	return false
}

// ownLock is the lock held at an access that belongs to the accessed object itself.
func ownLock(ev *Ev) string {
	pt, ok := ev.Args[0].(PtrV)
	if !ok {
		return ""
	}
	for _, l := range strings.Split(ev.Locks, ",") {
		if strings.HasPrefix(l, "&"+pt.Obj+".") || l == "&"+pt.Obj {
			return l
		}
	}
	return ""
}

// typeHas: the named type has a method of that name.
func (p *Program) loginTypes() map[string]*types.Named {
	m := map[string]*types.Named{}
	for _, n := range srvNames {
		m[n] = p.typ("codec/"+n, specs["codec/"+n][0].typ)
	}
	return m
}
