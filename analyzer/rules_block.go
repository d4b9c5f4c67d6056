package main

import (
	"go/token"
	"strings"
)

// calmPkgs are the packages outside the standard library whose functions only compute, log,
// or hand work on, apart from those waits names.
var calmPkgs = []string{"github.com/hrygo/log", "go.uber.org/zap", "github.com/panjf2000/gnet", "github.com/panjf2000/ants", "golang.org/x/time/rate", "golang.org/x/text/",
	"github.com/hrygo/yaml_config", "github.com/spf13/viper", "github.com/spf13/cast", "golang.org/x/exp/"}

// waitNames and waitPkgs are what waits or reads and writes outside the process.
var waitNames = []string{"time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*golang.org/x/time/rate.Limiter).Wait", "(*golang.org/x/time/rate.Limiter).WaitN",
	"(*github.com/panjf2000/ants/v2.Pool).ReleaseTimeout", "os.ReadFile", "os.WriteFile", "os.Open", "os.OpenFile", "os.Create", "os.ReadDir", "os.Remove", "os.Rename", "os.Mkdir",
	"io/ioutil.ReadFile", "io/ioutil.WriteFile", "io/ioutil.ReadDir", "(*os.File).", "(*os/exec.", "os/exec.", "(*os.Process)."}
var waitPkgs = []string{"net", "net/http", "net/rpc", "net/smtp", "database/sql", "database/sql/driver", "go.mongodb.org/mongo-driver", "github.com/go-sql-driver", "github.com/go-redis", "github.com/hrygo/gosms/database"}

// netCalm are functions of package net that only compute.
var netCalm = []string{"net.ParseIP", "net.ParseCIDR", "net.JoinHostPort", "net.SplitHostPort", "(net.IP).", "(*net.IPNet).", "(net.IPMask).", "(*net.TCPAddr).", "(*net.UDPAddr).", "iface net.Addr.", "iface net.Error.",
	"iface net.Conn.RemoteAddr", "iface net.Conn.LocalAddr", "iface net.Conn.Set"}

// waits: "waits", "calm" or "unknown" for a function outside the analysed code.
func waits(n string) string {
	for _, p := range waitNames {
		if strings.HasPrefix(n, p) {
			return "waits"
		}
	}
	for _, p := range netCalm {
		if strings.HasPrefix(n, p) {
			return "calm"
		}
	}
	if strings.HasPrefix(n, "iface ") {
		m := n[6:]
		switch {
		case strings.HasPrefix(m, "net."), strings.HasPrefix(m, "sql."), strings.HasPrefix(m, "driver."), strings.HasPrefix(m, "mongo."), strings.HasPrefix(m, "http."):
			return "waits"
		}
		return "calm"
	}
	pkg := pkgOf(strings.TrimPrefix(n, "global:"))
	for _, p := range waitPkgs {
		if pkg == p || strings.HasPrefix(pkg, p+"/") && p != "net" {
			return "waits"
		}
	}
	first, _, _ := strings.Cut(pkg, "/")
	if !strings.Contains(first, ".") {
		return "calm" // standard library
	}
	for _, p := range calmPkgs {
		if strings.HasPrefix(pkg, strings.TrimSuffix(p, "/")) {
			return "calm"
		}
	}
	return "unknown"
}

// onLoop: execution contexts that run on a network event loop.
func onLoop(ctx string) bool { return ctx == "loop" || ctx == "callback" }

// blocking watches every context of an entry point for waiting.
func (c *srvCase) blocking() {
	r := c.r
	seen := map[string]bool{}
	found := func(st *State, pos token.Pos, key, what string) {
		if seen[key+r.P.pos(pos)] {
			return
		}
		seen[key+r.P.pos(pos)] = true
		x := &srvEnd{st: st, evs: st.trace.list()}
		ev := &Ev{Pos: pos, Ctx: st.ctx}
		if onLoop(st.ctx) {
			where := "on the event loop"
			if st.ctx == "callback" {
				where = "in a write callback, which runs on the event loop"
			}
			c.fail("loop", x, ev, key, what+" "+where)
			return
		}
		if len(st.locks) > 0 {
			c.fail("held", x, ev, key, what+" while holding "+lockClass[st.locks[0]])
		}
	}
	c.e.OnExt = func(st *State, n string, pos token.Pos) {
		if !onLoop(st.ctx) && len(st.locks) == 0 {
			return
		}
		switch waits(n) {
		case "waits":
			found(st, pos, n, "calls "+n)
		case "unknown":
			found(st, pos, n, "calls "+n+", which is not known not to wait,")
		default:
			rule := "held"
			if onLoop(st.ctx) {
				rule = "loop"
			}
			if k := rule + " " + n + "@" + r.P.pos(pos); !seen[k] {
				seen[k] = true
				r.ok(rule, n+" "+st.ctx)
			}
		}
	}
	c.e.OnEvent = func(st *State, ev *Ev) {
		if !onLoop(st.ctx) && len(st.locks) == 0 {
			return
		}
		switch ev.Kind {
		case "send", "recv":
			if ev.Extra == "nonblocking" {
				return
			}
			if ev.Kind == "send" {
				found(st, ev.Pos, "send", "sends to a channel")
			} else {
				found(st, ev.Pos, "recv", "waits for a channel")
			}
		case "selectblock":
			found(st, ev.Pos, "select", "waits in a select")
		case "submit", "submitfail":
			if len(st.locks) > 0 {
				x := &srvEnd{st: st, evs: st.trace.list()}
				c.fail("held", x, ev, "submit", "waits for a free worker while holding "+lockClass[st.locks[0]])
			} else {
				r.ok("handed-on", r.P.funcAt(ev.Pos))
			}
		}
	}
}

func init() {
	register(&Check{ID: "S08", Level: "proof", Tech: "context-sensitive effect analysis: no waiting call reachable in event-loop or callback context, none while a lock is held",
		Rule:  "OnOpen, OnClose and OnTraffic (each protocol and command) are interpreted through everything they call, and so are the callbacks given to AsyncWrite, which run on the event loop; every call that leaves the analysed code, every channel operation and every select met in one of these contexts is classified, and none may sleep, wait for a channel, wait group, condition or rate token, or touch the network (other than through the connection of the event loop), a database, a file or a process; a function of an unknown package is reported too. In every context (worker tasks, timers and OnTick as well) none of these and no hand-over to a bounded worker pool happens while a lock is held, since the event loop takes the same locks.",
		Assum: []string{"logging, reading the loaded configuration and the non-waiting methods of gnet.Conn do not wait", "waiting for a free worker of a bounded pool is intended back-pressure"},
		Run: func(r *Report) {
			r.atLeast("loop", 100)
			r.atLeast("held", 10)
			r.atLeast("handed-on", 15)
			evs := append([]string{"lock", "unlock", "selectblock"}, srvEvents...)
			r.srvCases(evs, func(_ string, cmd int64) bool { return cmd >= 0 }, (*srvCase).blocking, func(c *srvCase) {})
			r.srvEverywhere(evs, nil, (*srvCase).blocking, func(c *srvCase) {})
		}})
}
