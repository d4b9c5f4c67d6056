package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// srvCallbacks are the entry points of the network library into the server besides OnTraffic.
var srvCallbacks = []string{"OnOpen", "OnClose", "OnTick", "OnBoot", "OnShutdown"}

// srvEverywhere runs f on every entry point of the server and on every function of the server
// package that stores to one of the fields but is not reached from them.
func (r *Report) srvEverywhere(events []string, fields []string, tune func(c *srvCase), f func(c *srvCase)) {
	t := r.P.srvTypes()
	covered := map[string]bool{}
	seen := func(c *srvCase) {
		c.ends = append(c.ends, c.passes...)
		for k := range c.ends {
			for _, ev := range c.ends[k].evs {
				if ev.Kind == "wr" {
					covered[r.P.pos(ev.Pos)] = true
				}
			}
		}
		f(c)
	}
	setup := func(c *srvCase) {
		if tune != nil {
			tune(c)
		}
		// a pass of a loop over the registry is a way through the code, too
		f := c.e.OnRange
		c.e.OnRange = func(st *State, cc *CallCtx, fn *ssa.Function, args []Val, o Outcome, delta []*Ev) {
			if f != nil {
				f(st, cc, fn, args, o, delta)
			}
			c.passes = append(c.passes, srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic})
		}
	}
	mk := func(name, root string) *srvCase {
		e := r.srvEngine(events...)
		r.srvTrack(e, t, append(append([]string{}, allSess...), ".activeSessions", ".sessionPoolCap", t.window, t.limiter, t.pool, ".ver")...)
		c := &srvCase{r: r, name: name, pk: "codec/" + name, cmd: -1, t: t, e: e, root: root}
		setup(c)
		return c
	}
	r.srvCases(events, func(_ string, cmd int64) bool { return cmd < 0 }, setup, seen)
	for _, m := range srvCallbacks {
		names := []string{""}
		if m == "OnTick" {
			names = srvNames
		}
		for _, n := range names {
			r.guard(strings.TrimSpace(n+" "+m), func() {
				fn := r.P.srvMethod(m)
				c := mk(n, m)
				c.where = fn.Pos()
				c.ends = r.srvRoot(fn, c.e, n)
				seen(c)
			})
		}
	}
	for _, s := range r.storeSites(fields) {
		if covered[r.P.pos(s.Pos())] {
			continue
		}
		fn := s.Parent()
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		r.guard(fullName(fn), func() {
			c := mk("", fn.Name())
			c.where = fn.Pos()
			c.ends = r.srvRoot(fn, c.e, "")
			seen(c)
			if !covered[r.P.pos(s.Pos())] {
				r.fail("undecided", fullName(fn), s.Pos(), "store", "the store to shared state here was not reached by the analysis")
			}
		})
	}
}

// storeSites are the stores of the server package to the named fields of its session and server,
// except to objects the storing function has itself just made.
func (r *Report) storeSites(fields []string) []*ssa.Store {
	p := r.P
	own := []*types.Named{p.typ(srvPkg, "session"), p.typ(srvPkg, "Server")}
	var out []*ssa.Store
	for _, fn := range p.funcsOf(srvPkg, func(*ssa.Function) bool { return true }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, ok := types.Unalias(deref(fa.X.Type())).(*types.Named)
				if !ok || !types.Identical(n, own[0]) && !types.Identical(n, own[1]) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				if hasStr(fields, "."+n.Underlying().(*types.Struct).Field(fa.Field).Name()) {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// lockOf is the lock of the given class held at the event.
func lockOf(ev *Ev, class string) string {
	for _, l := range strings.Split(ev.Locks, ",") {
		if strings.HasSuffix(lockClass[l], class) {
			return l
		}
	}
	return ""
}

const srvMutex = "server.Server.Mutex"

// sameHold: the lock is not given up between events i and j.
func sameHold(x *srvEnd, i, j int, lock string) bool {
	if lock == "" {
		return false
	}
	for _, ev := range x.evs[i:j] {
		if ev.Kind == "unlock" && ev.Args[0].key() == lock {
			return false
		}
	}
	return true
}

// counted is what a repeated callback does to one cell: its value before and the stand-in for its
// value at any later time.
type counted struct {
	before, stand Val
	id, path      string
	whole         bool // every pass goes on to the next element
	one, zero     int
	who           Val // the account every counted session was found under
	bad           string
}

// countHooks observes loops over the session registry that count sessions of one account.
func (c *srvCase) countHooks() {
	e := c.e
	c.loginHooks()
	e.Want["range"] = true
	c.counts = map[string]*counted{}
	var open []*counted
	e.OnCell = func(st *State, id, path string, before, after Val) {
		k := &counted{before: before, stand: after, id: id, path: path, whole: true}
		c.counts[after.key()] = k
		open = append(open, k)
	}
	e.OnRange = func(st *State, cc *CallCtx, fn *ssa.Function, args []Val, o Outcome, delta []*Ev) {
		for _, k := range open {
			ob := st.obj(k.id)
			if ob == nil {
				continue
			}
			now, ok1 := ob.loadPath(k.path).(IntV)
			was, ok2 := k.stand.(IntV)
			if !ok1 || !ok2 {
				continue
			}
			if len(o.Res) != 1 {
				k.whole = false
			} else if b, ok := o.Res[0].(BoolV); !ok {
				k.whole = false
			} else if v, known := st.decide(b.C); !known || !v {
				k.whole = false
			}
			var name, sess Val
			for _, ev := range delta {
				if fieldEv(ev, "rd", "session.clientId") {
					name, sess = ev.Args[1], ev.Args[0]
				}
			}
			_ = sess
			switch {
			case st.eqL(now.L, was.L.addC(1)):
				k.one++
				who := k.found(st, name)
				if who == nil {
					k.bad = "counts a session whose account it has not compared"
				} else if k.who != nil && k.who.key() != who.key() {
					k.bad = "counts sessions of different accounts"
				} else {
					k.who = who
				}
			case st.eqL(now.L, was.L):
				k.zero++
				if name != nil && k.notFound(st, name) == nil {
					k.bad = "leaves out a session without having found it to be another account's"
				}
				if name == nil && !typeRefused(st) {
					k.bad = "leaves out a session without looking at its account"
				}
			default:
				k.bad = "counts a session more than once"
			}
		}
	}
}

// typeRefused: the path found that the registry entry is not a session.
func typeRefused(st *State) bool {
	for b, v := range st.bools {
		if !v && strings.HasPrefix(b.Op, "is:") && strings.HasSuffix(b.Op, srvPkg+".session") {
			return true
		}
	}
	return false
}

func (k *counted) found(st *State, name Val) Val    { return compared(st, name, true) }
func (k *counted) notFound(st *State, name Val) Val { return compared(st, name, false) }

// compared is what the path has found the string equal (or unequal) to.
func compared(st *State, name Val, eq bool) Val {
	if name == nil {
		return nil
	}
	for b, v := range st.bools {
		if b.Op != "streq" || v != eq || len(b.Args) != 2 {
			continue
		}
		for i := range b.Args {
			if b.Args[i].key() == name.key() {
				return b.Args[1-i]
			}
		}
	}
	return nil
}

// registry judges what one end does to the registry of sessions and the count of live sessions.
func (c *srvCase) registry(x *srvEnd) {
	r, p := c.r, c.r.P
	for i, ev := range x.evs {
		switch {
		case fieldEv(ev, "wr", "server.sessionPoolCap"):
			c.fail("capacity", x, ev, "cap", "the configured capacity is changed")
		case fieldEv(ev, "wr", "server.activeSessions"):
			old := c.readInHold(x, i, "server.activeSessions")
			if old == nil {
				c.fail("capacity", x, ev, "unlocked", "the count of live sessions is changed without having been read under the same hold of the server's lock")
				continue
			}
			was, now := old.(IntV).L, ev.Args[1].(IntV).L
			switch {
			case x.st.eqL(now, was.addC(1)):
				if why := c.oneMore(x, i, was); why != "" {
					c.fail("capacity", x, ev, why, "a session is counted "+why)
					continue
				}
				r.ok("capacity", "one more below the capacity, registered in the same hold of the lock")
			case x.st.eqL(now, was.addC(-1)):
				if why := c.oneLess(x, i); why != "" {
					c.fail("given-back", x, ev, why, "the count of live sessions is lowered "+why)
					continue
				}
				r.ok("given-back", "one less, removed in the same hold of the lock")
			default:
				c.fail("capacity", x, ev, "step", "the count of live sessions changes by something other than one")
			}
		case ev.Kind == "smstore" && isRegistry(ev):
			l := lockOf(ev, srvMutex)
			if !c.inHold(x, i, l, func(w *Ev) bool { return fieldEv(w, "wr", "server.activeSessions") }) {
				c.fail("capacity", x, ev, "uncounted", "a session is registered without being counted under the same hold of the server's lock")
			}
		case ev.Kind == "smdelete" && isRegistry(ev):
			l := lockOf(ev, srvMutex)
			if !c.inHold(x, i, l, func(w *Ev) bool { return fieldEv(w, "wr", "server.activeSessions") }) {
				c.fail("given-back", x, ev, "uncounted", "a session is removed without the count being lowered under the same hold of the server's lock")
			}
		}
	}
	_ = p
}

func isRegistry(ev *Ev) bool {
	pt, ok := ev.Args[0].(PtrV)
	return ok && strings.HasSuffix(pt.Path, ".sessionPool")
}

// readInHold is the value of the field last read before event i under the same hold of its lock.
func (c *srvCase) readInHold(x *srvEnd, i int, label string) Val {
	lk := ownLock(x.evs[i])
	for j := i - 1; j >= 0 && lk != ""; j-- {
		ev := x.evs[j]
		if ev.Kind == "unlock" && ev.Args[0].key() == lk {
			return nil
		}
		if ev.Extra == label && (ev.Kind == "rd" || ev.Kind == "wr") && ev.Args[0].key() == x.evs[i].Args[0].key() {
			return ev.Args[1]
		}
	}
	return nil
}

// inHold: some event under the same hold of the lock as event i fits.
func (c *srvCase) inHold(x *srvEnd, i int, lock string, fits func(*Ev) bool) bool {
	for j, ev := range x.evs {
		if !fits(ev) {
			continue
		}
		a, b := i, j
		if a > b {
			a, b = b, a
		}
		if sameHold(x, a, b, lock) && strings.Contains(","+ev.Locks+",", ","+lock+",") {
			return true
		}
	}
	return false
}

// oneMore: the count goes up below the capacity, with exactly this connection's new session
// registered and attached under the same hold of the lock.
func (c *srvCase) oneMore(x *srvEnd, i int, was Lin) string {
	l := ownLock(x.evs[i])
	var capV Val
	for j := i - 1; j >= 0; j-- {
		if fieldEv(x.evs[j], "rd", "server.sessionPoolCap") && sameHold(x, j, i, l) {
			capV = x.evs[j].Args[1]
		}
	}
	cp, ok := capV.(IntV)
	if !ok || !x.st.holds(cLt(was, cp.L)) {
		return "without having found the count below the capacity under the same hold of the lock"
	}
	var stored, attached Val
	n := 0
	for j, ev := range x.evs {
		a, b := i, j
		if a > b {
			a, b = b, a
		}
		if !sameHold(x, a, b, l) {
			continue
		}
		switch {
		case ev.Kind == "smstore" && isRegistry(ev):
			n++
			stored = unIface(ev.Args[2])
			pt, ok := stored.(PtrV)
			if !ok || !isObj(x.st.obj(pt.Obj), c.t.sess) {
				return "while something other than a session is registered"
			}
			id := x.st.obj(pt.Obj).loadPath(".id")
			if unIface(ev.Args[1]).key() != id.key() {
				return "while the session is registered under something other than its id"
			}
			o := x.st.obj(pt.Obj)
			if s, ok := o.loadPath(".stat").(IntV); !ok || !x.st.eqL(s.L, linC(c.t.fresh)) {
				return "while a session that does not wait for its login is registered"
			}
			if s, ok := o.loadPath(".clientId").(StrV); !ok || !isEmptyStr(s) {
				return "while a session that already has an account is registered"
			}
			if o.loadPath(".conn").key() != connArg().key() {
				return "while a session of another connection is registered"
			}
		case ev.Kind == "setctx" && ownConn(ev.Args[0]):
			attached = unIface(ev.Args[1])
		}
	}
	if n != 1 {
		return fmt.Sprintf("although %d sessions are registered under the same hold of the lock", n)
	}
	if attached == nil || attached.key() != stored.key() {
		return "although the registered session is not attached to the connection"
	}
	return ""
}

func isEmptyStr(s StrV) bool {
	l, ok := s.lit()
	return ok && l == ""
}

// oneLess: the count goes down with exactly this connection's session removed.
func (c *srvCase) oneLess(x *srvEnd, i int) string {
	l := ownLock(x.evs[i])
	n := 0
	for j, ev := range x.evs {
		a, b := i, j
		if a > b {
			a, b = b, a
		}
		if !sameHold(x, a, b, l) || ev.Kind != "smdelete" || !isRegistry(ev) {
			continue
		}
		n++
		if c.root != "OnClose" {
			return "although the connection has not closed"
		}
		if !isSessID(ev.Args[1]) {
			return "while something other than the connection's own session is removed"
		}
	}
	if n != 1 {
		return fmt.Sprintf("although %d sessions are removed under the same hold of the lock", n)
	}
	return ""
}

// isSessID: the value is the id of the session of the connection at hand.
func isSessID(v Val) bool {
	s := show(unIface(v))
	k := unIface(v).key()
	return strings.Contains(k, `connctx(nonnil:conn("c"))`) && strings.Contains(k, ".id") || strings.Contains(s, `.id`) && strings.Contains(s, `connctx(nonnil:conn("c"))`)
}

// admission judges every store to a session's account.
func (c *srvCase) admission(x *srvEnd) {
	var given []*Ev
	for i, ev := range x.evs {
		if !fieldEv(ev, "wr", "session.clientId") {
			continue
		}
		v, ok := ev.Args[1].(StrV)
		if !ok {
			panic(undecided("account of a session: %s", show(ev.Args[1])))
		}
		again := false
		for _, g := range given {
			again = again || g.Args[0].key() == ev.Args[0].key() && g.Args[1].key() == v.key()
		}
		if again {
			c.r.ok("admission", "same account as admitted")
			continue
		}
		if why := c.admitted(x, i, v); why != "" {
			c.fail("admission", x, ev, why, "a session is put under an account "+why)
			continue
		}
		given = append(given, ev)
		c.r.ok("admission", "counted and put under the account in one hold of the server's lock")
	}
}

func (c *srvCase) admitted(x *srvEnd, i int, v StrV) string {
	w := x.evs[i]
	l := lockOf(w, srvMutex)
	if l == "" {
		return "without the server's lock"
	}
	free := false
	ranged := false
	for j := i - 1; j >= 0 && sameHold(x, j, i, l); j-- {
		ev := x.evs[j]
		if fieldEv(ev, "rd", "session.clientId") && ev.Args[0].key() == w.Args[0].key() {
			if s, ok := ev.Args[1].(StrV); ok {
				if eq, known := x.st.decide(c.e.equal(x.st, s, litStr(""))); known && eq {
					free = true
				}
			}
		}
		if ev.Kind == "range" && isRegistry(ev) {
			ranged = true
		}
	}
	if !free {
		return "without having found it under no account in the same hold of the lock"
	}
	if !ranged {
		return "without counting the account's sessions in the same hold of the lock"
	}
	why := "without having found the number of its sessions below its limit"
	for _, k := range c.counts {
		st, ok := k.stand.(IntV)
		b, isInt := k.before.(IntV)
		if !ok || !isInt || k.who == nil || k.who.key() != v.key() {
			continue
		}
		lim := c.limitOf(x, v)
		if lim == nil {
			continue
		}
		if !x.st.holds(cLt(st.L, lim.(IntV).L)) {
			continue
		}
		switch {
		case !x.st.eqL(b.L, linC(0)):
			why = "after a count that does not start at zero"
		case !k.whole:
			why = "after a count that can stop before the last session"
		case k.bad != "":
			why = "after a count that " + k.bad
		case k.one == 0 || k.zero == 0:
			why = "after a count that does not tell its sessions from others"
		default:
			return ""
		}
	}
	return why
}

// limitOf is the configured limit of the account whose client id is v.
func (c *srvCase) limitOf(x *srvEnd, v StrV) Val {
	for _, ev := range x.evs {
		if ev.Kind != "findacct" && ev.Kind != "copyacct" {
			continue
		}
		for _, a := range ev.Args {
			pt, ok := a.(PtrV)
			if !ok {
				continue
			}
			o := x.st.obj(pt.Obj)
			if o == nil || typeAt(o.Typ, ".MaxConns") == nil || o.loadPath(".ClientId").key() != v.key() {
				continue
			}
			if m, ok := o.loadPath(".MaxConns").(IntV); ok {
				return m
			}
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "S03", Level: "proof", Tech: "path-sensitive abstract interpretation: atomic check-and-reserve rule over lock holds, with a summary of the counting loop",
		Rule:  "Every entry point of the server (OnOpen, OnTraffic per protocol with workers and write callbacks, OnClose, OnTick, OnBoot, OnShutdown) and every other function that stores to these fields is interpreted from an arbitrary state; the count of live sessions rises only by one, under the server's lock, after the same hold found it below the configured capacity, with exactly one fresh session of this connection registered and attached in that hold; an OnOpen that registers nothing returns Close; a session is put under an account only under the server's lock, after that hold found it under none and counted (loop summary: starts at zero, adds one exactly for sessions of that account, visits all) fewer sessions of the account than its MaxConns.",
		Assum: []string{"gnet calls OnClose once for each connection it called OnOpen for", "sync.Map.Range visits every key that is neither stored nor deleted during the call"},
		Run: func(r *Report) {
			r.atLeast("capacity", 1)
			r.atLeast("admission", 3)
			r.atLeast("beyond", 1)
			r.srvEverywhere(append([]string{"lock", "unlock"}, srvEvents...), []string{".activeSessions", ".sessionPoolCap", ".clientId"}, (*srvCase).countHooks, func(c *srvCase) {
				for k := range c.ends {
					x := &c.ends[k]
					c.registry(x)
					c.admission(x)
					if c.root == "OnOpen" {
						if len(x.all("smstore")) == 0 {
							if r.P.action(x) != "close" || len(x.all("setctx")) > 0 {
								c.fail("beyond", x, nil, "stays", "a connection for which no session is registered is not closed")
							} else {
								r.ok("beyond", "closed without a session")
							}
						} else if r.P.action(x) != "none" {
							c.fail("capacity", x, nil, "refused", "a connection whose session is registered is refused")
						}
					}
				}
			})
		}})
}

// noSession: the path found that no session is attached to the connection.
func (c *srvCase) noSession(x *srvEnd) bool {
	ctx := mk("connctx", connArg()).String()
	for b, v := range x.st.bools {
		if s := b.String(); !strings.HasSuffix(s, "("+ctx+")") && !strings.HasSuffix(s, "("+ctx+"))") {
			continue
		}
		if b.Op == "isnil" && v || strings.HasPrefix(b.Op, "is:") && strings.HasSuffix(b.Op, srvPkg+".session") && !v {
			return true
		}
	}
	return false
}

func ctxSess(ev *Ev, i int) bool { return i < len(ev.Args) && ownSess(ev.Args[i]) }

// closed judges one way through OnClose.
func (c *srvCase) closed(x *srvEnd) {
	t := c.t
	var changes []*Ev
	marked, detached := false, false
	released, lowered, removed := 0, 0, 0
	for _, ev := range x.evs {
		switch {
		case fieldEv(ev, "wr", "session"+t.stat) && ctxSess(ev, 0) && stateIs(x.st, ev.Args[1], t.closed):
			marked = true
		case ev.Kind == "poolrelease":
			released++
			if pt, ok := ev.Args[0].(PtrV); !ok || !strings.Contains(symText(pt), `connctx(nonnil:conn("c"))`) {
				c.fail("given-back", x, ev, "pool", "a worker pool other than the closed session's is released")
			}
		case fieldEv(ev, "wr", "server.activeSessions"):
			lowered++
		case ev.Kind == "smdelete":
			removed++
		case ev.Kind == "setctx" && ownConn(ev.Args[0]):
			_, isNil := unIface(ev.Args[1]).(NilV)
			detached = isNil
		case ev.Kind == "wr" || ev.Kind == "smstore" || ev.Kind == "smdelete":
		default:
			continue
		}
		changes = append(changes, ev)
	}
	if c.noSession(x) {
		if len(changes) > 0 {
			c.fail("nothing-held", x, changes[0], changes[0].Kind, "the close of a connection without a session changes something ("+changes[0].Kind+")")
			return
		}
		c.r.ok("nothing-held", "")
		return
	}
	pool := false
	for b, v := range x.st.bools {
		if b.Op == "isnil" && v && strings.Contains(b.String(), `connctx(nonnil:conn("c"))`) && strings.Contains(b.String(), `"`+t.pool+`"`) {
			pool = true // never had one
		}
	}
	switch {
	case x.panic:
		c.fail("given-back", x, nil, "panic", "closing a connection can panic")
	case removed != 1 || lowered != 1:
		c.fail("given-back", x, nil, "registry", fmt.Sprintf("when a connection with a session closes, sessions removed from the registry: %d, changes of the count: %d; each must be one", removed, lowered))
	case released != 1 && !(pool && released == 0):
		c.fail("given-back", x, nil, "pool count", fmt.Sprintf("when a connection with a session closes its worker pool is released %d times", released))
	case !marked:
		c.fail("given-back", x, nil, "state", "when a connection closes its session does not become closing")
	case !detached:
		c.fail("given-back", x, nil, "context", "when a connection closes its session stays attached to it")
	default:
		c.r.ok("given-back", "registry, count, pool, state and context")
	}
}

// symText is what a symbolic pointer stands for.
func symText(pt PtrV) string {
	if so := symObjs[pt.Obj]; so != nil && so.Sym != nil {
		return so.Sym.String() + pt.Path
	}
	return pt.key()
}

func init() {
	register(&Check{ID: "S11", Level: "proof", Tech: "path-sensitive abstract interpretation: exactly-once release rule on every way through the close callback",
		Rule:  "Server.OnClose is interpreted from an arbitrary server and connection state; a path that found no session attached changes nothing; on every other path the session's state becomes closing, its worker pool is released exactly once (unless it never had one), exactly the session's own registry entry is removed and the count of live sessions lowered by one in a single hold of the server's lock, and the session is detached. On every other entry point (and every other function that stores to the count) nothing removes a session or lowers the count.",
		Assum: []string{"gnet calls OnClose exactly once per connection it called OnOpen for, and not concurrently with itself on one connection"},
		Run: func(r *Report) {
			r.atLeast("given-back", 2)
			r.atLeast("nothing-held", 1)
			r.srvEverywhere(append([]string{"lock", "unlock"}, srvEvents...), []string{".activeSessions"}, func(c *srvCase) { c.e.NoMerge = c.root == "OnClose" }, func(c *srvCase) {
				for k := range c.ends {
					x := &c.ends[k]
					c.registry(x)
					if c.root == "OnClose" {
						c.closed(x)
					}
					for _, ev := range x.all("poolrelease") {
						if c.root != "OnClose" {
							c.fail("given-back", x, ev, "early", "a worker pool is released although the connection has not closed")
						}
					}
				}
			})
		}})
}
