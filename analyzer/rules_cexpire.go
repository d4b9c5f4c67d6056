package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How long the client keeps results, and whom it hands them to.

func init() {
	register(&Check{ID: "K06", Level: "proof", Tech: "path-sensitive abstract interpretation of the cleaner, the query and the multi-number send; entries, ages and list lengths symbolic",
		Rule:  "One round of the cleaning ticker is interpreted from arbitrary caches. It goes over every cache; for an arbitrary entry, the entry is marked for removal exactly when it was sent more than the configured limit ago (or is an empty list), under its own key; every marked key is deleted and no other; the results of a removed list, all of them and as copies, join the batch exactly once and those of a kept list never; everything in a batch is handed to the handler exactly once, and the memory of a batch handed over is not used again. Query returns copies of all the results filed under the id and removes nothing, and nothing only when nothing is filed. SendN files the results of every number under the id it returns, and marks each with it.",
		Assum: []string{"sync.Map.Range visits every entry that stays in the map and none twice (documented)", "results are sent at about the same time as the first of their list"},
		Run: func(r *Report) {
			r.atLeast("aged", 6)
			r.atLeast("deleted", 3)
			r.atLeast("handed", 2)
			r.atLeast("copied", 1)
			r.atLeast("query", 2)
			r.atLeast("filed", 2)
			k := newExpiry(r)
			r.guard("cleaner", func() { k.cleaner() })
			r.guard("query", func() { newExpiry(r).query() })
			r.guard("send", func() { newExpiry(r).sendN() })
		}})
}

// expiry gathers what is known of the result caches.
type expiry struct {
	*cliCase
	result  *types.Named
	caches  map[string]string // object -> name
	lists   map[string]map[string]bool
	removes map[string]map[string]bool
	copied  map[*Term]bool // lists copied element by element
	visits  int
}

func newExpiry(r *Report) *expiry {
	k := &expiry{cliCase: &cliCase{r: r, t: r.P.cliTypes()}, result: r.P.typ(sessPkg, "Result"),
		caches: map[string]string{}, lists: map[string]map[string]bool{}, removes: map[string]map[string]bool{}, copied: map[*Term]bool{}}
	for _, pk := range []string{cliPkg, sessPkg} {
		p := r.P.pkg(pk)
		for _, n := range sortedKeys(p.Members) {
			g, ok := p.Members[n].(*ssa.Global)
			if ok && g.Type().String() == "*sync.Map" {
				k.caches["G:"+p.Pkg.Path()+"."+n] = n
				k.lists[n], k.removes[n] = map[string]bool{}, map[string]bool{}
			}
		}
	}
	k.e = k.engine()
	return k
}

func (k *expiry) engine() *Engine {
	e := k.r.clientEngine(append([]string{"cfg", "append", "appendall", "elemstore", "sent", "picked"}, cliEvents...)...)
	e.Track = func(o *Obj, path string) string {
		switch {
		case isObj(o, k.result) && path != "":
			return "result" + path
		case o.Kind == OCell && path == "" && o.Typ != nil:
			if s, ok := o.Typ.Underlying().(*types.Slice); ok && !isByte(s.Elem()) {
				return "list"
			}
		}
		return ""
	}
	e.CallHook["iface yaml_config.YmlConfig.GetDuration"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		v := symVal(mk("config", c.Args[1]), c.Sig.Results().At(0).Type())
		e.event(c.St, "cfg", c.Pos, "", nil, c.Args[1], v)
		return c.ret(c.St, v), true
	}
	e.NonNil = func(o *Obj) bool { return isObj(o, k.result) }
	e.NoMerge = true
	e.Peel = true
	return e
}

// run interprets a function; rounds of its loops are judged by round.
func (k *expiry) run(fn *ssa.Function, args []Val, round func(x *srvEnd, l *loopInfo)) {
	k.fn = fn
	st := newState(k.r.P.base)
	st.ctx = "api"
	k.r.root(fn)
	k.e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		if l.fn.Pkg != fn.Pkg {
			return
		}
		x := &srvEnd{st: st, evs: d}
		k.copies(x)
		round(x, l)
	}
	for _, o := range k.e.Run(fn, args, nil, st, fn.Pos()) {
		x := srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic, res: o.Res}
		if len(o.Res) > 0 {
			x.act = o.Res[len(o.Res)-1]
		}
		k.ends = append(k.ends, x)
	}
	k.r.done(k.e, len(k.ends))
	dumpEnds(k.r.P, k.ends)
}

// cache is the name of the map an event is about.
func (k *expiry) cache(ev *Ev) string {
	if pt, ok := ev.Args[0].(PtrV); ok {
		return k.caches[pt.Obj]
	}
	return ""
}

// termOf is the term a value is, if it is one.
func termOf(v Val) *Term {
	switch x := unIface(v).(type) {
	case TermV:
		return x.T
	case StrV:
		return x.T
	case IntV:
		if x.L.C == 0 && len(x.L.T) == 1 && x.L.T[0].K == 1 {
			return x.L.T[0].T
		}
	case PtrV:
		if so := symObjs[x.Obj]; so != nil && x.Path == "" && so.Sym != nil && len(so.Sym.Args) > 0 {
			if t, ok := so.Sym.Args[0].(TermV); ok {
				return t.T
			}
		}
	case SliceV:
		if so := symObjs[x.Obj]; so != nil {
			return so.Sym
		}
	}
	return nil
}

// untyped strips the type assertions a value went through.
func untyped(t *Term) *Term {
	for t != nil && strings.HasPrefix(t.Op, "as:") && len(t.Args) == 1 {
		x, ok := t.Args[0].(TermV)
		if !ok {
			break
		}
		t = x.T
	}
	return t
}

// elemOf: the value is this element of this list.
func elemOf(v Val) (list *Term, idx Lin, ok bool) {
	t := untyped(termOf(v))
	if t == nil || t.Op != "elem" || len(t.Args) != 2 {
		return
	}
	l, ok1 := t.Args[0].(TermV)
	i, ok2 := t.Args[1].(IntV)
	if !ok1 || !ok2 {
		return
	}
	return l.T, i.L, true
}

// visit is what one call of the function given to Range does with an entry.
type visit struct {
	x        srvEnd
	cache    string
	key, val *Term
}

func (k *expiry) isKey(v *visit, a Val) bool {
	t := untyped(termOf(a))
	if t == nil {
		return false
	}
	if t == v.key {
		return true
	}
	// the result carries the key it is filed under (K03)
	if k.filedBySequence(v.cache) {
		for _, ev := range v.x.all("rd") {
			if ev.Extra == "result.SequenceId" && untyped(termOf(PtrV{Obj: ev.Args[0].(PtrV).Obj})) == v.val && ev.Args[1].key() == unIface(a).key() {
				return true
			}
		}
	}
	return false
}

// filedBySequence: the cache is the one results are filed in by Send, under numbers.
func (k *expiry) filedBySequence(cache string) bool {
	n, all := 0, true
	for _, pk := range []string{cliPkg, sessPkg} {
		for _, fn := range k.r.P.funcsOf(pk, func(*ssa.Function) bool { return true }) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch s := in.(type) {
					case ssa.CallInstruction:
						c := s.Common()
						f := c.StaticCallee()
						if f == nil || f.String() != "(*sync.Map).Store" {
							continue
						}
						g, ok := c.Args[0].(*ssa.Global)
						if !ok || g.Name() != cache {
							continue
						}
						n++
						mi, ok := c.Args[1].(*ssa.MakeInterface)
						all = all && ok && mi.X.Type().Underlying() == types.Typ[types.Uint64]
					case *ssa.Store:
						// the number a result carries does not change
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isFieldOf(fa, k.result, ".SequenceId") {
							_, fresh := fa.X.(*ssa.Alloc)
							all = all && fresh
						}
					}
				}
			}
		}
	}
	return n > 0 && all
}

// age: the entry was found to have been sent longer ago than the limit, or not.
func (k *expiry) age(v *visit, trace []*Ev) (over, under bool) {
	st := v.x.st
	for _, s := range v.x.all("rd") {
		if s.Extra != "result.SendTime" || !strings.Contains(symText(PtrV{Obj: s.Args[0].(PtrV).Obj}), v.val.String()) {
			continue
		}
		sent := timeLin(s.Args[1])
		for _, n := range trace {
			if n.Kind != "now" {
				continue
			}
			now := timeLin(n.Args[0])
			for _, c := range trace {
				if c.Kind != "cfg" || !strings.Contains(shape(c.Args[0], nil), "expire-time") {
					continue
				}
				lim := c.Args[1].(IntV).L
				if st.holds(cEqL(lim, linC(0))) { // not configured
					over = over || st.holds(cLt(sent.addC(1_000_000_000), now))
					under = under || st.holds(cLe(now, sent.addC(3600_000_000_000)))
				} else {
					over = over || st.holds(cLt(sent.add(lim), now))
					under = under || st.holds(cLe(now, sent.add(lim)))
				}
			}
		}
	}
	return
}

// listOf is the list an entry holds, if it holds one.
func (k *expiry) listOf(st *State, val *Term) (SliceV, bool) {
	for _, n := range sortedKeys(symObjs) {
		o := symObjs[n]
		if o.Kind == OArr && o.Sym != nil && strings.HasPrefix(o.Sym.Op, "as:[]") && untyped(o.Sym) == val {
			return SliceV{Obj: n, Off: linC(0), Len: linT(lenTerm(o.Sym)), Elem: o.Typ}, true
		}
	}
	return SliceV{}, false
}

// goods follows what lists hold through a stretch of events.
type goods struct {
	in     map[string][]string // array -> what it holds
	cell   map[string]SliceV   // variable -> list
	first  map[string]SliceV
	handed map[string]int
	spent  map[string]*Ev // arrays handed over
}

func isAnyList(s SliceV) bool {
	return s.Elem != nil && types.IsInterface(s.Elem)
}

func (k *expiry) follow(evs []*Ev, handler Val) *goods {
	g := &goods{in: map[string][]string{}, cell: map[string]SliceV{}, first: map[string]SliceV{}, handed: map[string]int{}, spent: map[string]*Ev{}}
	meet := func(id string, s SliceV) {
		if _, ok := g.cell[id]; !ok {
			g.first[id], g.cell[id] = s, s
			if s.Obj != "" {
				g.in[s.Obj] = []string{"held by " + id}
			}
		}
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "rd", "wr":
			s, ok := ev.Args[1].(SliceV)
			if ev.Extra != "list" || !ok {
				continue
			}
			id := ev.Args[0].(PtrV).Obj
			if ev.Kind == "rd" {
				meet(id, s)
			} else {
				if _, ok := g.cell[id]; !ok {
					g.first[id] = SliceV{}
				}
				g.cell[id] = s
			}
		case "append":
			b, r := ev.Args[2].(SliceV), ev.Args[3].(SliceV)
			if _, isPtr := unIface(ev.Args[0]).(PtrV); isPtr && g.in[b.Obj] == nil {
				g.in[r.Obj] = nil // a list of copies, judged where it is used
				continue
			}
			g.in[r.Obj] = append(append([]string{}, g.in[b.Obj]...), "one "+unIface(ev.Args[0]).key())
		case "appendall":
			b, r := ev.Args[1].(SliceV), ev.Args[2].(SliceV)
			src := ev.Args[0].(SliceV)
			add := g.in[src.Obj]
			if add == nil {
				add = []string{"all " + src.Obj}
			}
			g.in[r.Obj] = append(append([]string{}, g.in[b.Obj]...), add...)
		case "dyncall":
			if handler == nil || ev.Args[0].key() != handler.key() || len(ev.Args) != 2 {
				continue
			}
			s, ok := ev.Args[1].(SliceV)
			if !ok {
				continue
			}
			what := g.in[s.Obj]
			if what == nil {
				what = []string{"all " + s.Obj}
			}
			for _, w := range what {
				g.handed[w]++
			}
			g.spent[s.Obj] = ev
		}
	}
	return g
}

// cleaner judges the function that forgets results.
func (k *expiry) cleaner() {
	fn := k.r.P.fn(cliPkg, "StartCacheExpireTicker")
	args := symArgs(k.e, fn)
	handler := args[0]
	k.e.OnRange = func(st *State, c *CallCtx, f *ssa.Function, a []Val, o Outcome, delta []*Ev) {
		pt, _ := c.Args[0].(PtrV)
		m := k.caches[pt.Obj]
		if m == "" {
			return
		}
		v := &visit{x: srvEnd{st: o.St, evs: delta, panic: o.Panic, res: o.Res}, cache: m, key: termOf(a[0]), val: termOf(a[1])}
		k.visited(v, o.St.trace.list(), handler)
	}
	rounds := 0
	k.run(fn, args, func(x *srvEnd, l *loopInfo) {
		if len(x.all("range")) > 0 {
			rounds++
			k.round(x, handler)
		} else {
			k.deletes(x)
		}
	})
	if rounds == 0 {
		k.fail("deleted", &srvEnd{}, nil, "never", "nothing goes over the caches from time to time")
	}
	for _, c := range sortedKeys(k.removes) {
		for _, id := range sortedKeys(k.removes[c]) {
			if !k.lists[c][id] {
				k.fail("deleted", &srvEnd{}, nil, "unjudged "+c, "deletes from "+c+" what another list than that of its expired entries holds")
			}
		}
	}
}

// visited judges what is done with one entry.
func (k *expiry) visited(v *visit, trace []*Ev, handler Val) {
	x, st := &v.x, v.x.st
	k.visits++
	if x.panic {
		k.fail("aged", x, nil, v.cache+" panic", "going over "+v.cache+" can fault")
		return
	}
	if b, ok := x.res[0].(BoolV); !ok || !st.holds(b.C) {
		k.fail("aged", x, nil, v.cache+" stops", "going over "+v.cache+" stops before every entry was looked at")
		return
	}
	var gone *Ev
	for i, ev := range x.evs {
		switch ev.Kind {
		case "smdelete":
			if k.cache(ev) != v.cache || !k.isKey(v, ev.Args[1]) {
				k.fail("deleted", x, ev, v.cache+" another", "removes another entry than the one looked at")
				return
			}
			gone = ev
		case "smstore", "smloadorstore":
			k.fail("aged", x, ev, v.cache+" stores", "the cleaner files results")
		case "append":
			if isAnyList(ev.Args[3].(SliceV)) && !k.isKey(v, ev.Args[0]) {
				continue
			}
			var cell string
			for _, w := range x.evs[i:] {
				if s, ok := w.Args0List(); ok && s.Obj == ev.Args[3].(SliceV).Obj {
					cell = w.Args[0].(PtrV).Obj
				}
			}
			if !k.isKey(v, ev.Args[0]) || cell == "" {
				k.fail("deleted", x, ev, v.cache+" marks", "marks something else than the key of the entry looked at for removal")
				return
			}
			k.lists[v.cache][cell] = true
			gone = ev
		}
	}
	l, isList := k.listOf(st, v.val)
	empty := isList && st.holds(cEqL(l.Len, linC(0)))
	over, under := k.age(v, trace)
	switch {
	case gone != nil && !empty && !over:
		k.fail("aged", x, gone, v.cache+" early", "an entry of "+v.cache+" is removed although it is not known to be older than the limit")
		return
	case gone == nil && !under:
		k.fail("aged", x, nil, v.cache+" kept", "an entry of "+v.cache+" is kept although it is not known to be within the limit")
		return
	}
	k.r.ok("aged", v.cache)
	k.conserved(v, handler, isList && gone != nil && !empty, l)
}

// Args0List: the event stores a list in a variable.
func (ev *Ev) Args0List() (SliceV, bool) {
	if ev.Kind != "wr" || ev.Extra != "list" {
		return SliceV{}, false
	}
	s, ok := ev.Args[1].(SliceV)
	return s, ok
}

// conserved: what was in the batch and the results of the entry, if it is removed, are in the
// batch afterwards or were handed over, once.
func (k *expiry) conserved(v *visit, handler Val, handOver bool, l SliceV) {
	x, st := &v.x, v.x.st
	g := k.follow(x.evs, handler)
	count := map[string]int{}
	for w, n := range g.handed {
		count[w] += n
	}
	for _, id := range sortedKeys(g.cell) {
		s := g.cell[id]
		if !isAnyList(s) || s.Obj == "" {
			continue
		}
		if ev := g.spent[s.Obj]; ev != nil {
			k.fail("handed", x, ev, "reused", "the memory of a batch handed to the handler is used for the next one")
			return
		}
		for _, w := range g.in[s.Obj] {
			count[w]++
		}
	}
	want := map[string]bool{}
	for id, s := range g.first {
		if isAnyList(s) && s.Obj != "" {
			want["held by "+id] = true
		}
	}
	copies := ""
	for w := range count {
		if o, ok := strings.CutPrefix(w, "all "); ok {
			if copies != "" {
				k.fail("handed", x, nil, "more", "two lists of results join the batch for one entry")
				return
			}
			copies = o
			want[w] = true
		}
	}
	for _, w := range sortedKeys(count) {
		if !want[w] {
			k.fail("handed", x, nil, "odd", "something else than the results of an entry is handed to the handler")
			return
		}
		if count[w] != 1 {
			k.fail("handed", x, nil, "twice", "results are handed to the handler more than once")
			return
		}
	}
	for _, w := range sortedKeys(want) {
		if count[w] == 0 {
			k.fail("handed", x, nil, "lost", "results waiting in the batch are dropped without having been handed to the handler")
			return
		}
	}
	switch {
	case handOver && copies == "":
		k.fail("handed", x, nil, "missing", "the results of a removed entry do not reach the handler")
	case !handOver && copies != "":
		k.fail("handed", x, nil, "kept too", "results are handed to the handler although their entry is kept")
	case handOver && !k.isCopy(st, copies, l, x.evs):
		k.fail("handed", x, nil, "not all", "what is handed to the handler for a removed entry is not known to be copies of all its results")
	case handOver:
		k.r.ok("handed", "")
	}
}

// isCopy: the array was built by a loop that copies every element of the list.
func (k *expiry) isCopy(st *State, arr string, l SliceV, evs []*Ev) bool {
	so := symObjs[l.Obj]
	if so == nil || !k.copied[so.Sym] {
		return false
	}
	for _, ev := range evs {
		if ev.Kind == "appendall" {
			if s := ev.Args[0].(SliceV); s.Obj == arr {
				return st.eqL(s.Len, l.Len)
			}
		}
		if ev.Kind == "dyncall" && len(ev.Args) == 2 {
			if s, ok := ev.Args[1].(SliceV); ok && s.Obj == arr {
				return st.eqL(s.Len, l.Len)
			}
		}
	}
	return false
}

// copies judges a round of a loop that adds results to a list.
func (k *expiry) copies(x *srvEnd) {
	var adds []*Ev
	for _, ev := range x.evs {
		if ev.Kind == "elemstore" { // but not the list append is given
			if a := x.st.obj(ev.Args[2].(PtrV).Obj); a == nil || a.Len.isConst() {
				continue
			}
		}
		if ev.Kind == "append" || ev.Kind == "elemstore" {
			if pt, ok := unIface(ev.Args[0]).(PtrV); ok && isObj(x.st.obj(pt.Obj), k.result) {
				adds = append(adds, ev)
			}
		}
	}
	for _, ev := range adds {
		o := x.st.obj(unIface(ev.Args[0]).(PtrV).Obj)
		if !o.Alloc {
			k.fail("copied", x, ev, "shared", "a list of results is built from the results that the receiver goes on changing")
			continue
		}
		var list *Term
		var idx Lin
		odd := ""
		str := k.result.Underlying().(*types.Struct)
		for i := 0; i < str.NumFields(); i++ {
			if !str.Field(i).Exported() {
				continue
			}
			q := "." + str.Field(i).Name()
			got, found := o.loadPath(q), false
			for _, rd := range x.all("rd") {
				if rd.Extra != "result"+q || rd.Args[1].key() != got.key() {
					continue
				}
				if l, i, ok := elemOf(PtrV{Obj: rd.Args[0].(PtrV).Obj}); ok && (list == nil || list == l) {
					list, idx, found = l, i, true
				}
			}
			if !found {
				odd = q
			}
		}
		switch {
		case odd != "" || list == nil:
			k.fail("copied", x, ev, "field "+odd, "a copy of a result does not have the "+strings.TrimPrefix(odd, ".")+" of the result it is a copy of")
		case ev.Kind == "elemstore" && !(x.st.eqL(ev.Args[1].(IntV).L, idx) && k.toTheEnd(x.st, list)):
			k.fail("copied", x, ev, "place", "a copy of a result is not put in the place of its original")
		case len(adds) != 1 || !x.st.eqL(idx, linT(k.e.CurK)):
			k.fail("copied", x, ev, "order", "a list of copies is not built from one copy of each element")
		default:
			k.copied[list] = true
			k.r.ok("copied", "")
		}
	}
}

// toTheEnd: the loop has a round for the last element of the list.
func (k *expiry) toTheEnd(st *State, list *Term) bool {
	return st.fork().assume(cEqL(linT(k.e.CurK).addC(1), linT(lenTerm(list))))
}

// deletes judges a round of a loop that deletes marked entries.
func (k *expiry) deletes(x *srvEnd) {
	for _, ev := range x.all("smdelete") {
		c := k.cache(ev)
		if c == "" {
			continue
		}
		l, i, ok := elemOf(ev.Args[1])
		cell := k.holder(x.st, l)
		if !ok || cell == "" {
			k.fail("deleted", x, ev, c+" what", "deletes from "+c+" something else than the entries marked for removal")
			continue
		}
		if !x.st.eqL(i, linT(k.e.CurK)) {
			k.fail("deleted", x, ev, c+" skips", "does not delete every entry of "+c+" marked for removal")
			continue
		}
		k.removes[c][cell] = true
	}
}

// holder is the variable that holds the list.
func (k *expiry) holder(st *State, list *Term) string {
	if list == nil {
		return ""
	}
	for _, id := range sortedKeys(st.heap) {
		o := st.heap[id]
		if o.Kind != OCell {
			continue
		}
		if s, ok := o.loadPath("").(SliceV); ok && s.Obj != "" {
			if a := st.obj(s.Obj); a != nil && a.Sym == list {
				return id
			}
		}
	}
	return ""
}

// round judges one round of the ticker as a whole.
func (k *expiry) round(x *srvEnd, handler Val) {
	st := x.st
	over := map[string]int{}
	for i, ev := range x.evs {
		if ev.Kind == "range" {
			over[k.cache(ev)] = i
		}
	}
	caches := make([]string, 0, 3)
	for _, c := range k.caches {
		caches = append(caches, c)
	}
	sort.Strings(caches)
	for _, c := range caches {
		at, ok := over[c]
		if !ok {
			k.fail("deleted", x, nil, c+" never", "a round of the cleaner does not go over "+c)
			continue
		}
		// every marked entry is deleted
		var last *Ev
		for _, ev := range x.evs[at:] {
			if ev.Kind == "smdelete" && k.cache(ev) == c {
				last = ev
			}
		}
		for _, id := range sortedKeys(k.lists[c]) {
			o := st.obj(id)
			if o == nil {
				continue
			}
			s, ok := o.loadPath("").(SliceV)
			if !ok {
				continue
			}
			done := st.holds(cEqL(s.Len, linC(0)))
			if last != nil {
				if _, i, ok := elemOf(last.Args[1]); ok {
					done = done || st.holds(cLe(s.Len, i.addC(1)))
				}
			}
			if !done {
				k.fail("deleted", x, last, c+" left", "a round of the cleaner ends although entries of "+c+" that were marked for removal were not deleted")
				return
			}
		}
		k.r.ok("deleted", c)
	}
	// the rest of the batch
	for at, ev := range x.evs {
		if ev.Kind != "range" {
			continue
		}
		k.rest(x, at, handler)
		break
	}
}

func (k *expiry) rest(x *srvEnd, at int, handler Val) {
	st := x.st
	n := map[string]int{}
	for _, ev := range x.evs[at:] {
		if ev.Kind == "dyncall" && ev.Args[0].key() == handler.key() && len(ev.Args) == 2 {
			if s, ok := ev.Args[1].(SliceV); ok {
				n[s.Obj]++
			}
		}
	}
	cells := map[string]bool{}
	for _, ev := range x.evs[at:] {
		if ev.Kind == "rd" && ev.Extra == "list" {
			if s, ok := ev.Args[1].(SliceV); ok && isAnyList(s) {
				cells[ev.Args[0].(PtrV).Obj] = true
			}
		}
	}
	if st.holds(k.e.isNil(st, handler)) {
		return
	}
	for _, id := range sortedKeys(cells) {
		o := st.obj(id)
		s, ok := o.loadPath("").(SliceV)
		if !ok {
			continue
		}
		switch {
		case n[s.Obj] > 1:
			k.fail("handed", x, nil, "rest twice", "the last batch is handed to the handler more than once")
		case n[s.Obj] == 0 && !st.holds(cEqL(s.Len, linC(0))):
			k.fail("handed", x, nil, "rest", "a round ends although results of removed entries were not handed to the handler")
		default:
			k.r.ok("handed", "")
		}
	}
}

// query judges what a caller gets.
func (k *expiry) query() {
	fn := k.r.P.fn(cliPkg, "Query")
	k.run(fn, symArgs(k.e, fn), func(*srvEnd, *loopInfo) {})
	for i := range k.ends {
		x := &k.ends[i]
		if x.panic {
			k.fail("query", x, nil, "panic", "a query can fault")
			continue
		}
		var load *Ev
		bad := false
		for _, ev := range x.evs {
			switch ev.Kind {
			case "smload":
				load = ev
			case "smdelete", "smstore", "smloadorstore":
				k.fail("query", x, ev, "changes", "a query changes what is filed")
				bad = true
			}
		}
		if bad {
			continue
		}
		if load == nil || load.Args[1].key() != k.keyArg(x, fn) {
			k.fail("query", x, load, "elsewhere", "a query does not look up the id it was given")
			continue
		}
		s, isS := x.act.(SliceV)
		none := x.act.key() == NilV{}.key() || isS && x.st.holds(cEqL(s.Len, linC(0)))
		val := load.Args[2].(TermV).T
		l, known := k.listOf(x.st, val)
		switch {
		case load.Extra == false:
			if !none {
				k.fail("query", x, load, "invented", "a query for an unknown id returns results")
				continue
			}
		case none:
			if !(known && x.st.holds(cEqL(l.Len, linC(0)))) && !k.notThose(x.st, val, l) {
				k.fail("query", x, load, "none", "a query returns nothing although results are filed under its id")
				continue
			}
		case !known || !isS || !k.copied[symObjs[l.Obj].Sym] || !x.st.eqL(s.Len, l.Len):
			k.fail("query", x, load, "other", "a query does not return copies of all the results filed under its id")
			continue
		}
		k.r.ok("query", "")
	}
}

// keyArg is the id asked for, as the key of the cache.
func (k *expiry) keyArg(x *srvEnd, fn *ssa.Function) string {
	return IfaceV{T: fn.Params[0].Type(), V: symArgs(k.e, fn)[0]}.key()
}

// notThose: what is filed was found not to be a list of results.
func (k *expiry) notThose(st *State, val *Term, l SliceV) bool {
	for _, op := range sortedKeys(isTypes) {
		if st.holds(cTerm(mk(op, TermV{T: val})).not()) {
			return true
		}
		if so := symObjs[l.Obj]; so != nil && so.Sym != nil {
			if st.holds(cTerm(mk(op, TermV{T: mk("elem", TermV{T: so.Sym}, IntV{linC(0)})})).not()) {
				return true
			}
		}
	}
	return false
}

// sendN judges how a message to several numbers is filed.
func (k *expiry) sendN() {
	fn := k.r.P.fn(cliPkg, "SendN")
	send := k.r.P.method(types.NewPointer(k.t.sess), "Send")
	sel := k.r.P.fn(cliPkg, "SelectSession")
	if send == nil {
		panic(undecided("anchor: (*Session).Send not found"))
	}
	k.e.Peel = false
	k.e.CallHook[fullName(send)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		v := c.res(c.St, "sent")
		e.event(c.St, "sent", c.Pos, "", nil, append([]Val{v[0]}, c.Args...)...)
		return c.ret(c.St, v...), true
	}
	k.e.CallHook[fullName(sel)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		f := c.St.fork()
		v := symVal(e.fresh(c.St, "picked", c.Pos), types.NewPointer(k.t.sess)).(PtrV)
		e.NotNil[v.Obj] = true
		e.event(c.St, "picked", c.Pos, "", nil, v, c.Args[0])
		return []Outcome{{St: c.St, Res: []Val{v}}, {St: f, Res: []Val{NilV{}}}}, true
	}
	args := symArgs(k.e, fn)
	phones := args[1].(SliceV)
	rounds := 0
	var over *Term
	grown, marked := map[string]bool{}, map[*Term]markLoop{}
	k.run(fn, args, func(x *srvEnd, l *loopInfo) {
		for _, ev := range x.all("sent") {
			rounds++
			over = k.e.CurK
			src, isS := ev.Args[0].(SliceV)
			var add *Ev
			n := 0
			for _, a := range x.all("appendall") {
				if isS && a.Args[0].(SliceV).Obj == src.Obj {
					add = a
					n++
				}
			}
			pl, i, isE := elemOf(ev.Args[2])
			switch {
			case !isE || symObjs[phones.Obj].Sym != pl || !x.st.eqL(i, linT(k.e.CurK)):
				k.fail("filed", x, ev, "number", "the message is not sent to each of the numbers given")
			case n != 1:
				k.fail("filed", x, ev, "dropped", "the results of a number are not added to those of the others")
			default:
				base := add.Args[1].(SliceV)
				grown[base.Obj] = true
				k.r.ok("filed", "added")
			}
		}
		for _, w := range x.all("wr") {
			if w.Extra == "result.QueryId" {
				if l, i, ok := elemOf(PtrV{Obj: w.Args[0].(PtrV).Obj}); ok && x.st.eqL(i, linT(k.e.CurK)) {
					marked[l] = markLoop{w.Args[1], k.e.CurK}
				}
			}
		}
	})
	if rounds == 0 {
		k.fail("filed", &srvEnd{}, nil, "never", "no loop over the numbers sends the message")
	}
	for i := range k.ends {
		x := &k.ends[i]
		var filed []*Ev
		for _, ev := range x.all("smstore") {
			filed = append(filed, ev)
		}
		id, isI := x.act.(IntV)
		if x.panic || !isI {
			k.fail("filed", x, nil, "panic", "sending can fault")
			continue
		}
		if st := x.st; st.holds(cLe(phones.Len, linC(0))) {
			if len(filed) > 0 || len(x.all("sent")) > 0 {
				k.fail("filed", x, nil, "no numbers", "something is filed for a message without numbers")
			}
			continue
		}
		if over != nil && !x.st.holds(cLe(phones.Len, linT(over))) {
			k.fail("filed", x, nil, "short", "sending ends before every number had its turn")
			continue
		}
		if len(filed) != 1 || unIface(filed[0].Args[1]).key() != id.key() {
			k.fail("filed", x, nil, "key", "the results are not filed once under the id returned")
			continue
		}
		s, isS := unIface(filed[0].Args[2]).(SliceV)
		o := x.st.obj(s.Obj)
		switch {
		case !isS || o == nil || !grown[s.Obj]:
			k.fail("filed", x, filed[0], "what", "what is filed is not the list of all numbers' results")
		case o.Sym == nil && o.Sum == nil && !o.Hav:
			k.fail("filed", x, filed[0], "what", "what is filed is not the list of all numbers' results")
		case !k.isMarked(x, o, marked, id, s.Len):
			k.fail("filed", x, filed[0], "mark", "the results filed are not all marked with the id they are filed under")
		default:
			k.r.ok("filed", "")
		}
	}
}

// isMarked: the loop that marks the elements of the list reached its end.
func (k *expiry) isMarked(x *srvEnd, o *Obj, marked map[*Term]markLoop, id Val, n Lin) bool {
	m, ok := marked[o.Sym]
	return o.Sym != nil && ok && m.id.key() == id.key() && x.st.holds(cLe(n, linT(m.k)))
}

type markLoop struct {
	id Val
	k  *Term
}
