package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How a client session ends, and how the pool of sessions is kept up.

func init() {
	register(&Check{ID: "K07", Level: "proof", Tech: "path-sensitive abstract interpretation of every client entry point (one-way state rule per critical section) and of the upkeep of the session pool",
		Rule: "Every exported function, method and function literal of the client is interpreted from an arbitrary state. A session's connection, account, protocol and cancel channel are never changed once others can reach the session, and its constructor sets all of them before it starts the receiver. A session's state, once shared, is only ever set to closing; each place that does so has seen under the session's lock, or inside a sync.Once, that it was not closing yet, closes the connection exactly once before it gives the lock back, and sends on the cancel channel no more often than that channel holds without a reader; nothing else closes the connection or sends on the channel. " +
			"Where the pool's list of sessions is rebuilt, a session is kept only if its state was last seen logged-in and is closed if it is not kept; the only other change adds the session just made at the end; after a rebuild the upkeep ends only when the list has the configured length or it was told to stop, and each further round dials.",
		Assum: []string{"memory handed over through a goroutine start or a list of a shared object is published by it"},
		Run:   checkK07})
}

func checkK07(r *Report) {
	r.atLeast("fixed", 1)
	r.atLeast("set", 3)
	r.atLeast("closing", 1)
	r.atLeast("kept", 2)
	r.atLeast("added", 1)
	r.atLeast("full", 1)
	t := r.P.cliTypes()
	most := 0
	entered := map[string]bool{}
	r.cliRoots(t, entered, func(c *cliCase) {
		for k := range c.ends {
			most = max(most, c.closes(&c.ends[k]))
		}
	})
	for _, n := range srvNames {
		r.guard("constructor "+n, func() { r.ctorSets(t, n, most) })
	}
	r.guard("pool", func() { r.poolUpkeep(t) })
}

// closeEvents are what closes looks at.
var closeEvents = []string{"once", "onceend", "lock", "unlock", "rd", "wr", "netclose", "send", "chclose"}

// cliRoots interprets every entry point of the client with the session's fields watched.
func (r *Report) cliRoots(t *cliTypes, entered map[string]bool, visit func(c *cliCase)) {
	var roots []*ssa.Function
	for _, pk := range []string{sessPkg, cliPkg} {
		roots = append(roots, r.P.apiRoots(pk)...)
	}
	run := func(fn *ssa.Function) {
		r.guard(fullName(fn), func() {
			e := r.clientEngine(closeEvents...)
			e.Keep = func(st *State, kind string, args []Val) bool {
				if kind == "lock" || kind == "unlock" { // those of sessions
					pt, ok := args[0].(PtrV)
					return ok && isObj(st.obj(pt.Obj), t.sess)
				}
				return true
			}
			e.NoSpawn = true // goroutines are roots of their own
			e.General = func(l *loopInfo) bool {
				return l.fn.Pkg != nil && hasStr([]string{r.P.pkg(sessPkg).Pkg.Path(), r.P.pkg(cliPkg).Pkg.Path()}, l.fn.Pkg.Pkg.Path())
			}
			for _, f := range roots {
				if f != fn && e.CallHook[fullName(f)] == nil {
					e.CallHook[fullName(f)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
						if len(c.St.locks) > 0 {
							return nil, false
						}
						return e.opaqueCall(c), true // a root of its own, entered without locks
					}
				}
			}
			c := &cliCase{r: r, t: t, fn: fn, e: e}
			e.Shared = func(typ types.Type, path string) bool { return types.Identical(typ, t.sess) && path == t.stat }
			e.Track = func(o *Obj, path string) string {
				if isObj(o, t.sess) && (path == "" || hasStr([]string{t.con, t.conf, t.name, t.stat, t.cancel}, path)) {
					if o.Alloc && !o.Pub {
						return ""
					}
					return "session" + path
				}
				return ""
			}
			c.ends = r.client(fn, "", e)
			for f := range e.Fns {
				entered[f] = true
			}
			visit(c)
		})
	}
	for _, fn := range roots {
		run(fn)
	}
	for _, pk := range []string{sessPkg, cliPkg} {
		for _, fn := range r.P.closures(pk, entered) {
			run(fn)
		}
	}
}

// closeSec is one critical section of a session, or one run of a sync.Once.
type closeSec struct {
	open          bool
	usable        bool // the path has seen that the session is not closing
	marked        bool // and set it to closing
	closed, sends int
	at            *Ev
}

// closes judges what one path does to sessions others can reach; it returns how often a close sends.
func (c *cliCase) closes(x *srvEnd) (most int) {
	r, t, st := c.r, c.t, x.st
	conOf, chanOf := map[string]string{}, map[string]string{}
	secs := map[string]*closeSec{}
	once := 0
	sec := func(obj string) *closeSec {
		if secs[obj] == nil {
			secs[obj] = &closeSec{}
		}
		return secs[obj]
	}
	end := func(s *closeSec) bool {
		if s.marked != (s.closed > 0) {
			if s.marked {
				c.fail("closing", x, s.at, "marked", "a session is set to closing without its connection being closed")
			} else {
				c.fail("closing", x, s.at, "unmarked", "the connection of a session that may be used is closed without the session being set to closing")
			}
			return false
		}
		if s.marked {
			most = max(most, s.sends)
			r.ok("closing", c.fn.Name())
		}
		return true
	}
	for _, ev := range x.evs {
		label, _ := ev.Extra.(string)
		switch ev.Kind {
		case "once":
			once++
		case "onceend":
			once--
		case "lock", "unlock":
			pt, ok := ev.Args[0].(PtrV)
			if !ok || !isObj(st.obj(pt.Obj), t.sess) {
				continue
			}
			if ev.Kind == "unlock" && once == 0 {
				if !end(sec(pt.Obj)) {
					return
				}
			}
			if once == 0 || secs[pt.Obj] == nil {
				secs[pt.Obj] = &closeSec{at: ev}
			}
			sec(pt.Obj).open = ev.Kind == "lock"
		case "rd":
			pt, ok := ev.Args[0].(PtrV)
			if !ok || !strings.HasPrefix(label, "session") {
				continue
			}
			switch strings.TrimPrefix(label, "session") {
			case t.con:
				conOf[ev.Args[1].key()] = pt.Obj
			case t.cancel:
				chanOf[ev.Args[1].key()] = pt.Obj
			case t.stat:
				if v, ok := ev.Args[1].(IntV); ok {
					is, known := st.decide(cEqL(v.L, linC(t.closing)))
					sec(pt.Obj).usable = known && !is
				}
			}
		case "wr":
			pt, ok := ev.Args[0].(PtrV)
			if !ok || !strings.HasPrefix(label, "session") {
				continue
			}
			if q := strings.TrimPrefix(label, "session"); q != t.stat {
				c.fail("fixed", x, ev, "written"+q, "changes a field every user of a shared session relies on: "+q)
				return
			}
			v, ok := ev.Args[1].(IntV)
			s := sec(pt.Obj)
			switch {
			case !ok || !st.eqL(v.L, linC(t.closing)):
				c.fail("closing", x, ev, "reopened", "sets the state of a session others can reach to something else than closing")
				return
			case once == 0 && !(s.open && s.usable):
				c.fail("closing", x, ev, "again", "sets a session to closing without having seen, under its lock, that it was not")
				return
			}
			s.marked, s.at = true, ev
		case "netclose":
			obj, ok := conOf[ev.Args[0].key()]
			if !ok {
				continue
			}
			s := sec(obj)
			s.closed++
			s.at = ev
			if once == 0 && !(s.open && (s.usable || s.marked)) || s.closed > 1 {
				c.fail("closing", x, ev, "twice", "closes the connection of a session without having seen, under its lock, that this has not been done")
				return
			}
		case "send", "chclose":
			obj, ok := chanOf[ev.Args[0].key()]
			if !ok {
				continue
			}
			s := sec(obj)
			s.sends++
			if once == 0 && !(s.open && (s.usable || s.marked)) {
				c.fail("closing", x, ev, "signal", "signals the receiver of a session without having seen, under its lock, that it was not closing yet")
				return
			}
			if ev.Kind == "chclose" && s.sends > 1 {
				c.fail("closing", x, ev, "signal twice", "closes the cancel channel after another signal")
				return
			}
			if ev.Kind == "chclose" {
				s.sends = 0
			}
		}
	}
	for _, s := range secs {
		if s.marked || s.closed > 0 {
			if !x.panic && (once == 0 && !s.open) {
				continue // judged when the lock was given back
			}
			if !end(s) {
				return
			}
		}
	}
	r.ok("fixed", c.fn.Name())
	return
}

// ctorSets: the constructor sets what is fixed before anybody else gets the session.
func (r *Report) ctorSets(t *cliTypes, name string, most int) {
	e := r.clientEngine(append([]string{"makechan"}, cliEvents...)...)
	e.NoSpawn = true
	c := &cliCase{r: r, t: t, name: name, fn: t.make, e: e}
	st := newState(r.P.base)
	st.ctx = "api"
	args := symArgs(e, t.make)
	args[t.ctorName] = litStr(name)
	if ac, ok := args[t.ctorConf].(PtrV); ok {
		e.NotNil[ac.Obj] = true
	}
	shared := map[string]*Ev{}
	e.Track = func(o *Obj, path string) string {
		if isObj(o, t.sess) && hasStr([]string{t.con, t.conf, t.name, t.cancel}, path) {
			return "session" + path
		}
		return ""
	}
	c.ends = r.rootEndsOf(t.make, e, args, nil, st)
	for k := range c.ends {
		x := &c.ends[k]
		pt, ok := x.act.(PtrV)
		if !x.ret || !ok {
			continue
		}
		started := false
		for _, ev := range x.evs {
			if ev.Kind == "go" {
				started = true
			}
			if ev.Kind == "wr" && started && strings.HasPrefix(fmt.Sprint(ev.Extra), "session") {
				shared[fmt.Sprint(ev.Extra)] = ev
				c.fail("set", x, ev, "late", "the constructor changes a field of the session after it started the receiver")
			}
		}
		if t.cancel == "" {
			r.ok("set", name)
			continue
		}
		ch := x.st.obj(pt.Obj).loadPath(pt.Path + t.cancel)
		var mk *Ev
		for _, ev := range x.all("makechan") {
			if ch != nil && ev.Args[0].key() == ch.key() {
				mk = ev
			}
		}
		switch {
		case mk == nil:
			c.fail("set", x, nil, "cancel", "the session returned has no cancel channel")
		default:
			n, ok := mk.Args[1].(IntV)
			r.check(ok && x.st.holds(cLe(linC(int64(most)), n.L)), "set", fullName(t.make), mk.Pos, name+" room",
				fmt.Sprintf("%s client: closing a session sends %d signals under its lock, the channel does not hold as many", name, most))
		}
	}
}

// poolTypes are the session pool's type and its list of sessions.
func (r *Report) poolType(t *cliTypes) (*types.Named, string) {
	sp := r.P.pkg(cliPkg)
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m, ok := sp.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(m.Type()).(*types.Named)
		if !ok {
			continue
		}
		s, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
			if ok && types.Identical(sl.Elem(), types.NewPointer(t.sess)) {
				return nt, "." + s.Field(i).Name()
			}
		}
	}
	panic(undecided("anchor: the pool of client sessions was not found"))
}

// listUsers are the functions that change the pool's list, and what calls them inside the package.
func (r *Report) listUsers(pool *types.Named, list string) []*ssa.Function {
	callers, _ := r.P.callersOf()
	set := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || set[fn] || fn.Pkg != r.P.pkg(cliPkg) || fn.Parent() != nil {
			return
		}
		set[fn] = true
		for _, q := range callers[fn] {
			if onOwn(q, fn, pool) {
				set[q] = set[q] || q.Parent() == nil // of a pool it has just made
			} else {
				add(q)
			}
		}
	}
	for _, fn := range r.P.funcsOf(cliPkg, func(*ssa.Function) bool { return true }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isFieldOf(fa, pool, list) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					set[fn] = set[fn] || fn.Parent() == nil // its callers cannot change the list yet
				} else {
					add(fn)
				}
			}
		}
	}
	var fns []*ssa.Function
	for fn := range set {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	if len(fns) == 0 {
		panic(undecided("anchor: nothing changes the pool's list of sessions"))
	}
	return fns
}

func (r *Report) poolUpkeep(t *cliTypes) {
	pool, list := r.poolType(t)
	full := 0
	for _, fn := range r.listUsers(pool, list) {
		r.guard(fullName(fn), func() {
			e := r.clientEngine("cfg", "made", "append", "rd", "wr", "dial", "recv")
			e.Keep = func(st *State, kind string, args []Val) bool {
				return kind != "cfg" || strings.Contains(shape(args[0], nil), "max-conns")
			}
			e.NoSpawn = true
			c := &cliCase{r: r, t: t, fn: fn, e: e}
			e.Shared = func(typ types.Type, path string) bool {
				return types.Identical(typ, t.sess) && path == t.stat || types.Identical(typ, pool) && path == list
			}
			e.Track = func(o *Obj, path string) string {
				switch {
				case isObj(o, t.sess) && path == t.stat:
					return "session" + path
				case isObj(o, pool) && path == list:
					return "pool" + path
				}
				return ""
			}
			// the list holds no nil: that is part of what is checked of every write of it
			e.NonNil = func(o *Obj) bool { return isObj(o, t.sess) }
			e.CallHook["iface yaml_config.YmlConfig.GetInt"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				v := c.res(c.St, "cfg")
				e.event(c.St, "cfg", c.Pos, "", nil, c.Args[1], v[0])
				return c.ret(c.St, v...), true
			}
			e.CallHook[fullName(t.make)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				f := c.St.fork()
				v := symVal(e.fresh(c.St, "made", c.Pos), types.NewPointer(t.sess)).(PtrV)
				e.NotNil[v.Obj] = true
				c.St.assume(cTerm(mk("isnil", TermV{T: symObjs[v.Obj].Sym.Args[0].(TermV).T})).not())
				e.event(c.St, "made", c.Pos, "", nil, v)
				return []Outcome{{St: c.St, Res: []Val{v}}, {St: f, Res: []Val{NilV{}}}}, true
			}
			p := &poolCase{cliCase: c, list: "pool" + list, pool: pool, rebuilds: map[*loopInfo]bool{}}
			p.run()
			full += p.full
		})
	}
	if full == 0 {
		r.fail("full", cliPkg, pool.Obj().Pos(), "none", "client: nothing fills the pool up again after closed sessions were dropped")
	}
}

type poolRound struct {
	x    srvEnd
	d    []*Ev // what the round did
	l    *loopInfo
	sc   string // the session the round is about
	kept bool
}

type poolCase struct {
	*cliCase
	pool     *types.Named
	list     string
	rounds   []poolRound
	rebuilds map[*loopInfo]bool
	full     int
}

// onOwn: every call of the function is on a pool the caller has made itself.
func onOwn(q, fn *ssa.Function, pool *types.Named) bool {
	for _, b := range q.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != fn {
				continue
			}
			own := false
			for _, a := range c.Common().Args {
				if types.Identical(a.Type(), types.NewPointer(pool)) {
					_, own = a.(*ssa.Alloc)
					if !own {
						return false
					}
				}
			}
			if !own {
				return false
			}
		}
	}
	return true
}

func (p *poolCase) run() {
	r, e, t, fn := p.r, p.e, p.t, p.fn
	st := newState(r.P.base)
	st.ctx = "api"
	args := symArgs(e, fn)
	for _, a := range args {
		if pt, ok := a.(PtrV); ok {
			e.NotNil[pt.Obj] = true
		}
	}
	p.args = args
	r.root(fn)
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		if l.fn.Pkg == nil || l.fn.Pkg != fn.Pkg {
			return
		}
		q := poolRound{x: srvEnd{st: st, evs: st.trace.list()}, d: d, l: l}
		// the session of the round: the last one whose state was looked at
		for _, ev := range d {
			if (ev.Kind == "rd" || ev.Kind == "wr") && ev.Extra == "session"+t.stat {
				q.sc = ev.Args[0].(PtrV).Obj
			}
		}
		for _, ev := range d {
			if ev.Kind == "append" && q.sc != "" {
				if pt, ok := ev.Args[0].(PtrV); ok && pt.Obj == q.sc && !p.isMade(d, pt) {
					q.kept = true
				}
			}
		}
		for _, o := range st.heap {
			if o.Kind != OArr || !o.Alloc {
				continue
			}
			for _, v := range o.F {
				if pt, ok := v.(PtrV); ok && q.sc != "" && pt.Obj == q.sc && !p.isMade(d, pt) {
					q.kept = true
				}
			}
		}
		if q.kept {
			p.rebuilds[l] = true
		}
		p.rounds = append(p.rounds, q)
	}
	outs := e.Run(fn, args, nil, st, fn.Pos())
	var ends []srvEnd
	for _, o := range outs {
		ends = append(ends, srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic, res: o.Res})
	}
	r.done(e, len(ends)+len(p.rounds))
	fills := false
	for k := range p.rounds {
		q := &p.rounds[k]
		if p.rebuilds[q.l] {
			p.keeps(q)
		}
		fills = fills || p.rebuilt(&q.x) && has(q.d, "dial")
	}
	all := append([]srvEnd{}, ends...)
	for _, q := range p.rounds {
		all = append(all, q.x)
	}
	for k := range all {
		p.changes(&all[k])
	}
	for k := range ends {
		p.pooled(&ends[k], ends[k].evs)
	}
	for k := range p.rounds {
		p.pooled(&p.rounds[k].x, p.rounds[k].d)
	}
	if !fills {
		return
	}
	p.full++
	for k := range ends {
		p.filled(&ends[k])
	}
	for k := range p.rounds {
		if q := &p.rounds[k]; p.rebuilt(&q.x) && !p.rebuilds[q.l] {
			r.check(has(q.d, "dial", "recv"), "full", fullName(fn), fn.Pos(), "round", "client: a round of the upkeep that follows a rebuild makes no connection")
		}
	}
}

func has(evs []*Ev, kinds ...string) bool {
	for _, ev := range evs {
		for _, k := range kinds {
			if ev.Kind == k {
				return true
			}
		}
	}
	return false
}

func (p *poolCase) isMade(d []*Ev, pt PtrV) bool {
	for _, ev := range d {
		if ev.Kind == "made" && ev.Args[0].key() == pt.key() {
			return true
		}
	}
	return false
}

// keeps judges one round of a loop that builds the new list.
func (p *poolCase) keeps(q *poolRound) {
	r, t := p.r, p.t
	if q.sc == "" {
		for _, ev := range q.x.evs {
			println(ev.Kind, fmt.Sprint(ev.Extra), q.l.head.Index, q.l.fn.String())
		}
		r.fail("kept", fullName(q.l.fn), q.l.fn.Pos(), "unseen", "client: a round of the loop that rebuilds the list does not look at the session's state")
		return
	}
	var v *IntV
	for _, ev := range q.d {
		if (ev.Kind == "rd" || ev.Kind == "wr") && ev.Extra == "session"+t.stat && ev.Args[0].(PtrV).Obj == q.sc {
			if iv, ok := ev.Args[1].(IntV); ok {
				v = &iv
			}
		}
	}
	want, why := t.closing, "a session that is dropped from the list is left open"
	if q.kept {
		want, why = t.login, "a session is kept in the list although it is not logged in"
	}
	if v == nil || !q.x.st.eqL(v.L, linC(want)) {
		p.fail("kept", &q.x, nil, fmt.Sprint("kept ", q.kept), why)
		return
	}
	r.ok("kept", "")
}

// rebuilt: the path has put a list built from scratch in the place of the pool's.
func (p *poolCase) rebuilt(x *srvEnd) bool {
	for _, ev := range x.evs {
		if ev.Kind == "wr" && ev.Extra == p.list && !p.adds(x, ev) && !p.blank(x, ev) {
			return true
		}
	}
	return false
}

// adds: the write appends the session made last to the list as it was.
func (p *poolCase) adds(x *srvEnd, w *Ev) bool {
	var old, cur SliceV
	var made *Ev
	ok := false
	for _, ev := range x.evs {
		if ev == w {
			break
		}
		switch {
		case ev.Kind == "made":
			made = ev
		case ev.Kind == "rd" && ev.Extra == p.list && ev.Args[0].key() == w.Args[0].key():
			old, ok = ev.Args[1].(SliceV)
		case ev.Kind == "wr" && ev.Extra == p.list:
			ok = false
		}
	}
	cur, isS := w.Args[1].(SliceV)
	if !ok || !isS || !x.st.eqL(cur.Len, old.Len.addC(1)) {
		return false
	}
	v, isP := x.st.elemAt(x.st.obj(cur.Obj), cur.Off.add(old.Len), "").(PtrV)
	if !isP {
		return false
	}
	if made != nil && v.key() == made.Args[0].key() {
		return true
	}
	for _, a := range p.args {
		// a helper adds what it is given: its callers are judged as well
		if a.key() == v.key() && !token.IsExported(p.fn.Name()) {
			return true
		}
	}
	return false
}

// blank: the write gives a pool nobody has seen its empty list.
func (p *poolCase) blank(x *srvEnd, w *Ev) bool {
	o := x.st.obj(w.Args[0].(PtrV).Obj)
	if o == nil || !o.Alloc {
		return false
	}
	switch v := w.Args[1].(type) {
	case NilV:
		return true
	case SliceV:
		return x.st.eqL(v.Len, linC(0))
	}
	return false
}

// pooled: a session that logged in ends up in the list, or is closed again or handed out.
func (p *poolCase) pooled(x *srvEnd, evs []*Ev) {
	for i, ev := range evs {
		if ev.Kind != "made" || x.panic {
			continue
		}
		ok := false
		for _, l := range evs[i:] {
			switch {
			case l.Kind == "wr" && l.Extra == p.list:
				ok = ok || p.adds(x, l)
			case l.Kind == "wr" && l.Extra == "session"+p.t.stat:
				ok = ok || l.Args[0].(PtrV).Obj == ev.Args[0].(PtrV).Obj
			}
		}
		for _, v := range x.res {
			ok = ok || v.key() == ev.Args[0].key()
		}
		if !ok {
			p.fail("added", x, ev, "lost", "a session that was made is neither put in the list nor closed: its connection is never closed")
			continue
		}
		p.r.ok("added", "")
	}
}

// whole: the write puts a list in place that was built anew, all of it.
func (p *poolCase) whole(x *srvEnd, w *Ev) bool {
	s, ok := w.Args[1].(SliceV)
	if !ok {
		return w.Args[1].key() == NilV{}.key()
	}
	if x.st.eqL(s.Len, linC(0)) {
		return true
	}
	o := x.st.obj(s.Obj)
	if o == nil || !o.Alloc || !x.st.eqL(s.Off, linC(0)) {
		return false
	}
	// as many as were appended: a count of its own, or one for each session seen kept
	n := int64(0)
	for _, ev := range x.evs {
		if ev == w {
			break
		}
		if ev.Kind == "append" {
			n++
		}
	}
	return s.Len.C <= n && s.Len.C >= 0 && (len(s.Len.T) > 0 || s.Len.C == n)
}

// changes judges every write of the list on a path.
func (p *poolCase) changes(x *srvEnd) {
	for _, ev := range x.all("wr") {
		if ev.Extra != p.list {
			continue
		}
		switch {
		case p.adds(x, ev):
			p.r.ok("added", "")
		case p.blank(x, ev):
		case len(p.rebuilds) > 0 && p.whole(x, ev): // built by the loops judged above
			p.r.ok("kept", "")
		default:
			p.fail("added", x, ev, "other", "the list of sessions is replaced by something else than the list with the session just made")
		}
	}
}

// filled: an upkeep that rebuilt the list ends only when it is full or it was told to stop.
func (p *poolCase) filled(x *srvEnd) {
	if x.panic || !p.rebuilt(x) {
		return
	}
	if len(x.all("recv")) > 0 {
		p.r.ok("full", "told to stop")
		return
	}
	var n, want *IntV
	for _, ev := range x.evs {
		switch {
		case ev.Kind == "rd" && ev.Extra == p.list:
			if s, ok := ev.Args[1].(SliceV); ok {
				n = &IntV{L: s.Len}
			}
		case ev.Kind == "cfg" && strings.Contains(shape(ev.Args[0], nil), "max-conns"):
			if iv, ok := ev.Args[1].(IntV); ok {
				want = &iv
			}
		}
	}
	if n == nil || want == nil {
		p.fail("full", x, nil, "unread", "the upkeep ends without having compared the length of the list with the configured one")
		return
	}
	some, none := x.st.fork(), x.st.fork()
	ok := !some.assume(cLe(linC(1), want.L)) || some.holds(cLe(want.L, n.L))
	ok = ok && (!none.assume(cLe(want.L, linC(0))) || none.holds(cLe(linC(1), n.L)))
	if !ok {
		p.fail("full", x, nil, "short", "the upkeep ends although the list is shorter than configured")
		return
	}
	p.r.ok("full", "")
}
