package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The rules on locks and on the memory they protect.

// lockPkgs are the packages with state that several goroutines use.
var lockPkgs = []string{srvPkg, "smc_client/session", "smc_client", "auth", "event_manager", "utils", "utils/snowflake", "utils/snowflake32", "codec/sgip"}

// memUse is one access to a field of a lockable object or to a package variable.
type memUse struct {
	wr    bool
	own   string // path of the object's own lock held, "" none
	glob  map[string]bool
	alone bool // nobody else can have the object yet
	pos   token.Pos
	fn    string
	st    *State
	evs   []*Ev
	seen  []seenState // what the path had learnt about other fields under the object's lock
	pre   []seenState // for writes: fields read before and changed in the same section
	what  string
}

type seenState struct {
	label string
	val   Val
	after Val // value written later in the section
}

type lockWorld struct {
	r     *Report
	types map[string]*types.Named
	globs map[string]string
	uses  map[string][]*memUse
	edges map[string]map[string]string
	alone map[*Ev]bool
	roots []*ssa.Function
	maps  map[string][]mapUse
}

// lockable are the struct types of the packages that carry a lock of their own.
func (p *Program) lockable(pks []string) map[string]*types.Named {
	out := map[string]*types.Named{}
	for _, pk := range pks {
		sp := p.pkg(pk)
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := types.Unalias(t.Type()).(*types.Named)
			if !ok {
				continue
			}
			s, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if isLock(s.Field(i).Type()) {
					out[n.String()] = n
				}
			}
		}
	}
	return out
}

func isLock(t types.Type) bool {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// selfGuarded: values of the type are safe for concurrent use.
func selfGuarded(t types.Type) bool {
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// callersOf finds who calls each function statically, and which functions are used in other ways.
func (p *Program) callersOf() (map[*ssa.Function][]*ssa.Function, map[*ssa.Function]bool) {
	callers := map[*ssa.Function][]*ssa.Function{}
	loose := map[*ssa.Function]bool{} // used other than by a plain call
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(*ssa.Call); ok {
					callee = c.Call.StaticCallee()
				}
				if callee != nil {
					callers[callee] = append(callers[callee], fn)
				}
				if _, isC := in.(*ssa.MakeClosure); isC {
					continue // its uses count
				}
				for _, o := range in.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					f, ok := (*o).(*ssa.Function)
					if mc, isC := (*o).(*ssa.MakeClosure); isC {
						f, ok = mc.Fn.(*ssa.Function), true
					}
					if !ok {
						continue
					}
					if c, isCall := in.(*ssa.Call); isCall && c.Call.Value == *o {
						continue
					}
					if c, isCall := in.(*ssa.Call); isCall {
						if cal := c.Call.StaticCallee(); cal != nil && cal.String() == "(*sync.Once).Do" {
							callers[f] = append(callers[f], fn)
							continue
						}
					}
					loose[f] = true
				}
			}
		}
	}
	return callers, loose
}

// bootOnly: the function runs only while the program starts, before anything is concurrent.
func (p *Program) bootOnly() map[*ssa.Function]bool {
	callers, loose := p.callersOf()
	memo := map[*ssa.Function]int{}
	var boot func(fn *ssa.Function) bool
	boot = func(fn *ssa.Function) bool {
		if fn == nil {
			return true
		}
		if v := memo[fn]; v != 0 {
			return v != 2
		}
		memo[fn] = 1
		name := fn.Name()
		ok := fn.Parent() == nil && fn.Pkg != nil && (name == "init" || strings.HasPrefix(name, "init#") || name == "main" && fn.Pkg.Pkg.Name() == "main")
		if !ok && !loose[fn] && len(callers[fn]) > 0 {
			ok = true
			for _, c := range callers[fn] {
				ok = ok && boot(c)
			}
		}
		memo[fn] = 2
		if ok {
			memo[fn] = 3
		}
		return ok
	}
	out := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		if boot(fn) {
			out[fn] = true
		}
	}
	return out
}

// sharedGlobals are the package variables written while the program is running.
func (p *Program) sharedGlobals() map[string]string {
	boot := p.bootOnly()
	out := map[string]string{}
	for _, fn := range p.All {
		if boot[fn] || fn.Pkg == nil && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g := baseGlobal(s.Addr); g != nil && p.By[g.Pkg.Pkg.Path()] != nil && !selfGuarded(deref(g.Type())) {
					out["G:"+g.String()] = strings.ReplaceAll(g.String(), modPath, "")
				}
			}
		}
	}
	return out
}

func baseGlobal(v ssa.Value) *ssa.Global {
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return baseGlobal(x.X)
	case *ssa.IndexAddr:
		return baseGlobal(x.X)
	}
	return nil
}

func (r *Report) lockWorld() *lockWorld {
	return &lockWorld{r: r, types: r.P.lockable(lockPkgs), globs: r.P.sharedGlobals(), uses: map[string][]*memUse{}, maps: map[string][]mapUse{}, edges: map[string]map[string]string{}, alone: map[*Ev]bool{}}
}

func typeLabel(n *types.Named) string { return strings.TrimPrefix(n.String(), modPath) }

// watch makes the engine report every access to lockable memory and every lock operation.
func (w *lockWorld) watch(e *Engine) {
	for _, k := range []string{"rd", "wr", "lock", "unlock", "relock", "badunlock", "lockleak", "mapset", "mapdelete", "mapget", "range", "submit", "go"} {
		e.Want[k] = true
	}
	find := func(o *Obj) *types.Named {
		if o == nil || o.Kind != OCell || o.Typ == nil {
			return nil
		}
		return w.types[types.Unalias(o.Typ).String()]
	}
	e.Shared = func(typ types.Type, path string) bool {
		n := w.types[types.Unalias(typ).String()]
		return n != nil && path != ""
	}
	e.Track = func(o *Obj, path string) string {
		if o == nil {
			return ""
		}
		if g := w.globs[o.ID]; g != "" {
			return "variable " + g
		}
		n := find(o)
		if n == nil || path == "" {
			return ""
		}
		if t := typeAt(n, path); t != nil && selfGuarded(t) {
			return ""
		}
		return typeLabel(n) + path
	}
	e.OnLock = func(st *State, id, class string, pos token.Pos, again bool) {
		if again {
			w.r.fail("relock", w.r.P.funcAt(pos), pos, class, fmt.Sprintf("%s is locked by a goroutine that already holds it", class), traceStr(w.r.P, st.trace.list())...)
		}
	}
	e.OnBadUnlock = func(st *State, class string, pos token.Pos) {
		w.r.fail("unlock", w.r.P.funcAt(pos), pos, class, fmt.Sprintf("%s is unlocked although it is not held", class), traceStr(w.r.P, st.trace.list())...)
	}
	e.OnTask = func(kind string, o Outcome) {
		if kind == "go" {
			w.take("goroutine", &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}, false)
		}
	}
	old := e.OnEvent
	e.OnEvent = func(st *State, ev *Ev) {
		if ev.Kind == "rd" || ev.Kind == "wr" {
			if o := st.obj(ev.Args[0].(PtrV).Obj); o != nil && o.Alloc && !o.Pub {
				w.alone[ev] = true
			}
		}
		if old != nil {
			old(st, ev)
		}
	}
}

// take reads the accesses and lock operations of one path.
func (w *lockWorld) take(who string, x *srvEnd, boot bool) {
	r := w.r
	mine := func(ev *Ev, i int) (own string, at int) {
		pt := ev.Args[0].(PtrV)
		for _, l := range strings.Split(ev.Locks, ",") {
			if strings.HasPrefix(l, "&"+pt.Obj+".") {
				own = l
			}
		}
		if own == "" {
			return "", 0
		}
		for j := i - 1; j >= 0; j-- {
			if (x.evs[j].Kind == "lock" || x.evs[j].Kind == "unlock") && x.evs[j].Args[0].key() == own {
				return own, j
			}
		}
		return own, 0
	}
	for i, ev := range x.evs {
		switch ev.Kind {
		case "lock":
			for _, h := range strings.Split(ev.Locks, ",") {
				if h == "" || h == ev.Args[0].key() {
					continue
				}
				a, b := lockClass[h], ev.Extra.(string)
				if w.edges[a] == nil {
					w.edges[a] = map[string]string{}
				}
				if w.edges[a][b] == "" {
					w.edges[a][b] = r.P.funcAt(ev.Pos) + " (" + r.P.pos(ev.Pos) + ")"
				}
			}
			r.ok("locks", ev.Extra.(string)+" "+r.P.funcAt(ev.Pos))
		case "lockleak":
			r.fail("leak", r.P.funcAt(ev.Pos), ev.Pos, "task", fmt.Sprintf("%s: a task can end, or crash, with a lock held", who), traceStr(r.P, x.evs)...)
		case "rd", "wr":
			label := ev.Extra.(string)
			u := &memUse{wr: ev.Kind == "wr", pos: ev.Pos, fn: r.P.funcAt(ev.Pos), st: x.st, evs: x.evs, what: who, glob: map[string]bool{}}
			u.alone = w.alone[ev] || boot && ev.Ctx == "main"
			pt := ev.Args[0].(PtrV)
			for _, l := range strings.Split(ev.Locks, ",") {
				if strings.HasPrefix(l, "&G:") {
					u.glob[lockClass[l]] = true
				}
			}
			own, from := mine(ev, i)
			if own != "" {
				u.own = own[len("&"+pt.Obj):]
			}
			if u.wr && own != "" {
				for j := from + 1; j < len(x.evs); j++ {
					q := x.evs[j]
					if q.Kind == "unlock" && q.Args[0].key() == own {
						break
					}
					if q.Kind == "rd" && j < i && q.Args[0].(PtrV).Obj == pt.Obj && q.Args[0].key() != ev.Args[0].key() {
						s := seenState{label: q.Extra.(string), val: q.Args[1]}
						for _, z := range x.evs[j+1:] {
							if z.Kind == "unlock" && z.Args[0].key() == own {
								break
							}
							if z.Kind == "wr" && z.Args[0].key() == q.Args[0].key() {
								s.after = z.Args[1]
							}
						}
						u.pre = append(u.pre, s)
					}
				}
			}
			if !u.wr && own == "" {
				for j := 0; j < i; j++ {
					q := x.evs[j]
					if (q.Kind == "rd" || q.Kind == "wr") && q.Args[0].(PtrV).Obj == pt.Obj && (q.Ctx == ev.Ctx || ev.Ctx != "loop") {
						if o, _ := mine(q, j); o != "" {
							u.seen = append(u.seen, seenState{label: q.Extra.(string), val: q.Args[1]})
						}
					}
				}
			}
			w.uses[label] = append(w.uses[label], u)
		case "mapset", "mapdelete", "mapget":
			w.mapUse(who, x, ev)
		}
	}
	if x.ret && len(x.st.locks) > 0 {
		at := x.evs[0]
		for _, ev := range x.evs {
			if ev.Kind == "lock" && ev.Args[0].key() == x.st.locks[0] {
				at = ev
			}
		}
		r.fail("leak", r.P.funcAt(at.Pos), at.Pos, "return "+lockClass[x.st.locks[0]], fmt.Sprintf("%s can return with %s held", who, lockClass[x.st.locks[0]]), traceStr(r.P, x.evs)...)
	}
}

type mapUse struct {
	wr, locked bool
	pos        token.Pos
	fn, who    string
}

// mapUse notes the use of a map that other goroutines can reach.
func (w *lockWorld) mapUse(who string, x *srvEnd, ev *Ev) {
	var id, typ string
	switch m := ev.Args[0].(type) {
	case TermV:
		id = m.T.String()
		if m.Typ != nil {
			typ = types.TypeString(m.Typ, nil)
		}
		if strings.HasPrefix(id, "fresh") {
			return
		}
	case PtrV:
		o := x.st.obj(m.Obj)
		if o == nil || o.Alloc && !o.Pub || w.r.P.constMap(m.Obj) {
			return
		}
		id, typ = m.Obj, types.TypeString(o.Typ, nil)
		if o.Sym != nil {
			id = o.Sym.String()
		}
	default:
		return
	}
	if strings.HasPrefix(id, "G:") {
		id = "global:" + id[2:]
	}
	if strings.Contains(id, "global:") && !w.r.P.mutable(globalIn(id)) {
		return
	}
	w.maps[typ] = append(w.maps[typ], mapUse{ev.Kind != "mapget", ev.Locks != "", ev.Pos, w.r.P.funcAt(ev.Pos), who})
}

// judgeMaps: a map that is changed while others can reach it is always used under a lock.
func (w *lockWorld) judgeMaps() {
	for _, typ := range sortedKeys(w.maps) {
		changed := false
		for _, u := range w.maps[typ] {
			changed = changed || u.wr
		}
		for _, u := range w.maps[typ] {
			k := "reading"
			if u.wr {
				k = "changing"
			}
			w.r.check(!changed || u.locked, "maps", u.fn, u.pos, k+" "+strings.ReplaceAll(typ, modPath, ""), u.who+": a map that other goroutines can reach and change is used without a lock")
		}
	}
}

func globalIn(s string) string {
	i := strings.Index(s, "global:")
	s = s[i+len("global:"):]
	if j := strings.IndexAny(s, "(),@ "); j >= 0 {
		s = s[:j]
	}
	return "G:" + s
}

// constMap: the map was made by an initialiser for a package variable that is only read later.
func (p *Program) constMap(id string) bool {
	if p.base[id] == nil {
		return false
	}
	for g := range p.glob {
		if o := p.base["G:"+g.String()]; o != nil && !p.mut[g] {
			if pt, ok := o.loadPath("").(PtrV); ok && pt.Obj == id {
				return true
			}
		}
	}
	return false
}

// mutable: the package variable, or what it refers to, is changed after its initialisation.
func (p *Program) mutable(id string) bool {
	for g := range p.mut {
		if "G:"+g.String() == id {
			return true
		}
	}
	return false
}

// judge decides which lock owns each piece of memory and whether it is always held.
func (w *lockWorld) judge() {
	r := w.r
	labels := make([]string, 0, len(w.uses))
	for l := range w.uses {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	for _, l := range labels {
		w.judgeField(l)
	}
	w.judgeMaps()
	// one global order
	var classes []string
	for a := range w.edges {
		classes = append(classes, a)
	}
	sort.Strings(classes)
	for _, a := range classes {
		for b, at := range w.edges[a] {
			if path := w.pathTo(b, a, map[string]bool{}); path != "" {
				r.failAt("order", at, at, a+" before "+b, fmt.Sprintf("%s is locked while %s is held, but elsewhere the locks are nested the other way round: %s", b, a, path))
				continue
			}
			r.ok("order", a+" before "+b)
		}
	}
}

func (w *lockWorld) pathTo(a, b string, seen map[string]bool) string {
	if a == b {
		return "(" + a + ")"
	}
	if seen[a] {
		return ""
	}
	seen[a] = true
	var next []string
	for c := range w.edges[a] {
		next = append(next, c)
	}
	sort.Strings(next)
	for _, c := range next {
		if p := w.pathTo(c, b, seen); p != "" {
			return a + " before " + c + " in " + w.edges[a][c] + "; " + p
		}
	}
	return ""
}

func (w *lockWorld) judgeField(label string) {
	r := w.r
	uses := w.uses[label]
	changed := false
	votes := map[string]int{}
	for _, u := range uses {
		if u.alone {
			continue
		}
		changed = changed || u.wr
		for _, g := range u.guards() {
			votes[g]++
		}
	}
	if !changed {
		r.ok("unchanging", label)
		return
	}
	owner := ""
	for g, n := range votes {
		if owner == "" || n > votes[owner] || n == votes[owner] && g < owner {
			owner = g
		}
	}
	done := map[string]bool{}
	for _, u := range uses {
		if u.alone {
			r.ok("guarded", label+" "+u.fn+" before it is shared")
			continue
		}
		k := "reading"
		if u.wr {
			k = "writing"
		}
		if owner != "" && hasStr(u.guards(), owner) {
			r.ok("guarded", label+" "+u.fn)
			continue
		}
		if !u.wr && owner != "" && w.settled(label, owner, u) {
			r.ok("settled", label+" "+u.fn)
			continue
		}
		key := k + " " + label
		if done[key+r.P.pos(u.pos)] {
			continue
		}
		done[key+r.P.pos(u.pos)] = true
		lk := "any lock"
		if owner != "" {
			lk = "its lock (" + owner + ")"
		}
		r.fail("guarded", u.fn, u.pos, key, fmt.Sprintf("%s: %s %s without holding %s, although other goroutines may change it", u.what, k, label, lk), traceStr(r.P, u.evs)...)
	}
}

func (u *memUse) guards() (gs []string) {
	if u.own != "" {
		gs = append(gs, "own"+u.own)
	}
	for g := range u.glob {
		gs = append(gs, g)
	}
	return
}

// settled: every change of the memory happens under its lock while another field still has some
// value and moves that field to another one for good, and the reader has seen, under the lock,
// that the field no longer has that value.
func (w *lockWorld) settled(label, owner string, u *memUse) bool {
	for _, s := range u.seen {
		ok := true
		n := 0
		for _, x := range w.uses[label] {
			if x.alone || !x.wr {
				continue
			}
			n++
			found := false
			for _, pre := range x.pre {
				if pre.label != s.label {
					continue
				}
				a, isI := pre.val.(IntV)
				b, isJ := pre.after.(IntV)
				if !isI || !isJ {
					continue
				}
				c, k1 := x.st.constOf(a.L)
				d, k2 := x.st.constOf(b.L)
				v, isV := s.val.(IntV)
				if k1 && k2 && c != d && isV && u.st.holds(cEqL(v.L, linC(c)).not()) && w.never(s.label, c) {
					found = true
				}
			}
			ok = ok && found && hasStr(x.guards(), owner)
		}
		if ok && n > 0 {
			return true
		}
	}
	return false
}

// never: no shared object's field is ever set to the value.
func (w *lockWorld) never(label string, c int64) bool {
	for _, u := range w.uses[label] {
		if !u.wr || u.alone {
			continue
		}
		v, ok := u.wrote()
		if !ok || !u.st.holds(cEqL(v, linC(c)).not()) {
			return false
		}
	}
	return true
}

func (u *memUse) wrote() (Lin, bool) {
	for _, ev := range u.evs {
		if ev.Kind == "wr" && ev.Pos == u.pos {
			v, ok := ev.Args[1].(IntV)
			return v.L, ok
		}
	}
	return Lin{}, false
}

// apiRoots are the functions of a package that code outside may call at any time, except what
// only exists to be called back by the sort package.
func (p *Program) apiRoots(pk string) []*ssa.Function {
	boot := p.bootOnly()
	return p.funcsOf(pk, func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || boot[f] {
			return false
		}
		if !token.IsExported(f.Name()) {
			return false
		}
		if f.Signature.Recv() != nil && hasStr([]string{"Len", "Less", "Swap"}, f.Name()) {
			if m := p.method(f.Signature.Recv().Type(), "Less"); m != nil && p.method(f.Signature.Recv().Type(), "Swap") != nil {
				return false
			}
		}
		return true
	})
}

// closures are the function literals of the package that no analysis has entered.
func (p *Program) closures(pk string, done map[string]bool) []*ssa.Function {
	return p.funcsOf(pk, func(f *ssa.Function) bool { return f.Parent() != nil && !done[f.String()] })
}

func init() {
	register(&Check{ID: "S13", Level: "proof", Tech: "lockset analysis by abstract interpretation of every entry point (own-lock, publication and happens-after-state-change rules), lock-order graph acyclicity",
		Rule:  "All entry points (the server's callbacks for each protocol with the tasks, callbacks and timers they start; every exported function and method of the client, account store, event manager and generator packages with the goroutines they start; function literals not reached from these) are interpreted from arbitrary states with every access to a field of a struct type that carries a lock, and to package variables written while the program runs, recorded together with the locks held. A field that is ever written once its object is shared has one owning lock, and every access holds it, except before the object is handed to anybody else, or for a read after the path has seen, under the lock, that the only state in which the field is ever written has been left for good. Maps reachable by others are used under a lock. No path locks what it already holds, unlocks what it does not hold, or ends (for tasks: also by a panic of any call made with a lock held) with a lock held; the nesting of lock classes is acyclic.",
		Assum: []string{"memory handed over through sync.Map, a channel, a task or a goroutine start is published by it", "initialisation and the start-up code called from main only are not concurrent"},
		Run:   checkS13})
}

func checkS13(r *Report) {
	r.atLeast("locks", 20)
	r.atLeast("guarded", 40)
	r.atLeast("order", 1)
	w := r.lockWorld()
	entered := map[string]bool{}
	seen := func(c *srvCase) {
		for k := range c.ends {
			w.take(c.name+" server", &c.ends[k], c.root == "OnBoot")
		}
		for f := range c.e.Fns {
			entered[f] = true
		}
	}
	r.srvEverywhere([]string{"rd", "wr"}, nil, func(c *srvCase) {
		c.e.Skip = w.logging
		w.watch(c.e)
		w.crashes(c.e)
	}, seen)
	if o := os.Getenv("GOSMS_ROOTFN"); o != "" {
		for _, pk := range lockPkgs {
			for _, fn := range r.P.funcsOf(pk, func(f *ssa.Function) bool { return strings.HasSuffix(fullName(f), o) }) {
				w.root(fn, entered)
			}
		}
		return
	}
	for _, pk := range lockPkgs {
		if pk == srvPkg {
			continue
		}
		w.roots = append(w.roots, r.P.apiRoots(pk)...)
	}
	for _, fn := range w.roots {
		w.root(fn, entered)
	}
	for _, pk := range lockPkgs {
		for _, fn := range r.P.closures(pk, entered) {
			w.root(fn, entered)
		}
	}
	w.judge()
}

// root interprets one function from an arbitrary state.
func (w *lockWorld) root(fn *ssa.Function, entered map[string]bool) {
	r := w.r
	if o := os.Getenv("GOSMS_ONLY"); o != "" && !strings.Contains(fullName(fn), o) {
		return
	}
	if os.Getenv("GOSMS_TIME") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintln(os.Stderr, fullName(fn), time.Since(t0)) }()
	}
	r.guard(fullName(fn), func() {
		e := r.srvEngine()
		e.Skip = w.logging
		e.OneIter = nil
		e.General = func(l *loopInfo) bool {
			return l.fn.Pkg != nil && hasStr(lockPkgs, strings.TrimPrefix(l.fn.Pkg.Pkg.Path(), modPath))
		}
		for _, f := range w.roots {
			if f != fn && e.CallHook[fullName(f)] == nil {
				e.CallHook[fullName(f)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
					if len(c.St.locks) > 0 {
						return nil, false
					}
					return e.opaqueCall(c), true // a root of its own, entered without locks
				}
			}
		}
		e.NoSpawn = true // goroutines are roots of their own
		w.watch(e)
		w.crashes(e)
		st := newState(r.P.base)
		st.ctx = "api"
		args := symArgs(e, fn)
		var binds []Val
		for _, b := range fn.FreeVars {
			v := symVal(mk("free:"+b.Name()+":"+fullName(fn)), b.Type())
			if pt, ok := v.(PtrV); ok {
				e.NotNil[pt.Obj] = true
			}
			binds = append(binds, v)
		}
		ends := r.rootEndsOf(fn, e, args, binds, st)
		for k := range ends {
			w.take(fullName(fn), &ends[k], false)
		}
		for f := range e.Fns {
			entered[f] = true
		}
	})
}

// logging: functions of the codec packages that only describe a message for the log.
func (w *lockWorld) logging(fn *ssa.Function) bool {
	return returnsLogFields(fn) && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"codec")
}

// crashes lets every call made by a task while a lock is held end in a panic, too: the worker
// pools recover panics and go on.
func (w *lockWorld) crashes(e *Engine) {
	e.CrashAt = func(st *State, c *CallCtx) bool {
		if st.ctx != "pool" || len(st.locks) == 0 {
			return false
		}
		if c.Fn == nil {
			return len(c.Args) > 0 || c.Sig != nil // through an interface or a function value
		}
		if w.r.P.pkgOf(c.Fn) != nil && e.CallHook[c.Name] == nil && !(e.Skip != nil && e.Skip(c.Fn)) {
			return false // interpreted
		}
		for _, q := range []string{"sync.", "(*sync.", "sync/atomic.", "(*sync/atomic.", "time.Now", "(time.", "time.Since"} {
			if strings.HasPrefix(c.Name, q) {
				return false
			}
		}
		return true
	}
}

// pkgOf is the repository's package a function belongs to.
func (p *Program) pkgOf(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil || len(fn.Blocks) == 0 {
		return nil
	}
	return p.By[fn.Pkg.Pkg.Path()]
}
