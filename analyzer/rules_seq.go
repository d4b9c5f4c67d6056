package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08", Level: "proof", Tech: "abstract interpretation (one generator step from an arbitrary state, linear arithmetic)",
		Rule:  "For every generator the step function is interpreted from an arbitrary state (counter anywhere in its range, any last time, any clock reading): every access to state it changes happens inside one section of its own lock; the identifier is a sum of counter, worker, datacentre and time multiplied by factors that leave each part its full range (so different parts give different identifiers) and fits its type; the step either moves to another time (the 64-bit generator: only forward) or raises the counter by one, and wraps it only where its range ends. Parse applied to a composed identifier returns each part. The decimal generator's ten bytes are worker, minute and counter digits, two per byte.",
		Assum: []string{"datacentre and worker numbers lie in the documented ranges", "the clock never shows a time before 2020", "for the second- and minute-based generators: the clock does not go back"},
		Run:   checkC08})
}

type genSpec struct {
	pkg, typ, ctor string
	dMax, wMax     int64
	period         int64 // counter values before a repeat
	clock          bool  // counter restarts with a new time
	forward        bool  // time may only grow
}

var gens = []genSpec{
	{"utils", "CycleSequence", "NewCycleSequence", 3, 7, 1 << 26, false, false},
	{"utils/snowflake", "Snowflake", "NewSnowflake", 7, 127, 1 << 12, true, true},
	{"utils/snowflake32", "Snowflake", "NewSnowflake", 3, 7, 1 << 9, true, false},
}

const seqEpochMs = 1577808000000 // 2020-01-01, the generators' documented origin

// clockHooks gives clock readings their ranges.
func clockHooks(e *Engine) {
	rangeHook := func(name string, lo, hi int64, hasHi bool) {
		e.CallHook[name] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			// lo plus an arbitrary amount
			t := mkR("clk:"+name, &rng{0, hi - lo, true, hasHi}, c.Args...)
			return c.ret(c.St, IntV{linT(t).addC(lo)}), true
		}
	}
	rangeHook("(time.Time).UnixNano", seqEpochMs*1000000, 0, false)
	rangeHook("(time.Time).UnixMicro", seqEpochMs*1000, 0, false)
	rangeHook("(time.Time).UnixMilli", seqEpochMs, 0, false)
	rangeHook("(time.Time).Unix", seqEpochMs/1000, 0, false)
	rangeHook("(time.Time).Hour", 0, 23, true)
	rangeHook("(time.Time).Minute", 0, 59, true)
	rangeHook("(time.Time).Second", 0, 59, true)
	rangeHook("(time.Time).Day", 1, 31, true)
	rangeHook("(time.Time).Month", 1, 12, true)
}

type genRun struct {
	outs   []Outcome
	obj    string
	fields []string // integer fields
	pre    map[string]Lin
	pos    token.Pos
	writes map[string]bool // fields the step stores
	reads  map[string][]access
	stores map[string][]access
	locks  int
	d, w   Lin
}

type access struct {
	pos  token.Pos
	held bool
	sec  int // which section of the lock
}

// step builds a generator and runs its step with the given assumptions on its state.
func (r *Report) step(g genSpec, pre func(st *State, gr *genRun), method string) *genRun {
	p := r.P
	named := p.typ(g.pkg, g.typ)
	ctor, next := p.fn(g.pkg, g.ctor), p.method(types.NewPointer(named), method)
	if ctor == nil || next == nil {
		panic(undecided("generator %s.%s has no %s or %s", g.pkg, g.typ, g.ctor, method))
	}
	e := NewEngine(p)
	clockHooks(e)
	e.NoMerge = true
	gr := &genRun{pre: map[string]Lin{}, writes: map[string]bool{}, reads: map[string][]access{}, stores: map[string][]access{}, pos: next.Pos()}
	st := newState(p.base)
	args := symArgs(e, ctor)
	gr.d, gr.w = args[0].(IntV).L, args[1].(IntV).L
	for i, m := range []int64{g.dMax, g.wMax} {
		l := args[i].(IntV).L
		st.addLe(l.neg())
		st.addLe(l.addC(-m))
	}
	outs := e.Run(ctor, args, nil, st, ctor.Pos())
	if len(outs) != 1 || outs[0].Panic {
		panic(undecided("%s: constructor with %d outcomes", fullName(ctor), len(outs)))
	}
	st = outs[0].St
	pt, ok := outs[0].Res[0].(PtrV)
	if !ok {
		panic(undecided("%s does not return a new generator", fullName(ctor)))
	}
	gr.obj = pt.Obj
	su := named.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		if isInt(f.Type()) {
			gr.fields = append(gr.fields, "."+f.Name())
		}
	}
	pre(st, gr)
	sec := map[string]int{}
	e.OnLock = func(st *State, id, class string, pos token.Pos, again bool) {
		if strings.Contains(id, gr.obj) {
			sec[id]++
			gr.locks++
		}
	}
	rec := func(m map[string][]access, st *State, o *Obj, path string, pos token.Pos) {
		if o.ID != gr.obj {
			return
		}
		held := false
		for _, l := range st.locks {
			held = held || strings.Contains(l, gr.obj)
		}
		m[path] = append(m[path], access{pos: pos, held: held})
	}
	e.OnLoad = func(st *State, o *Obj, path string, pos token.Pos) { rec(gr.reads, st, o, path, pos) }
	e.OnStore = func(st *State, o *Obj, path string, v Val, pos token.Pos) {
		if o.ID == gr.obj {
			gr.writes[path] = true
		}
		rec(gr.stores, st, o, path, pos)
	}
	e.Want["lock"] = true
	gr.outs = e.Run(next, []Val{pt}, nil, st, next.Pos())
	r.done(e, len(gr.outs))
	return gr
}

// fieldL is the integer in a field after (or before) the step.
func fieldL(st *State, obj, path string) (Lin, bool) {
	v, ok := st.obj(obj).loadPath(path).(IntV)
	return v.L, ok
}

func (r *Report) atomicStep(name string, gr *genRun) {
	for _, f := range sortedKeys(gr.writes) {
		for _, as := range [][]access{gr.reads[f], gr.stores[f]} {
			for _, a := range as {
				r.check(a.held, "under-lock", name, a.pos, f, fmt.Sprintf("%s: %s is used outside the generator's lock", name, f))
			}
		}
	}
	for _, o := range gr.outs {
		n := 0
		for _, ev := range o.St.trace.list() {
			if ev.Kind == "lock" {
				n++
			}
		}
		r.check(n == 1 && len(o.St.locks) == 0, "one-section", name, gr.pos, "", fmt.Sprintf("%s: the step takes the lock %d times and ends with %d held", name, n, len(o.St.locks)))
	}
}

func checkC08(r *Report) {
	for _, g := range gens {
		r.guard(g.pkg+"."+g.typ, func() { r.generator(g) })
	}
	r.guard("utils.BcdSequence", func() { r.bcdGenerator() })
	r.guard("sgip.sequence", func() { r.sgipGenerator() })
	r.guard("digits", func() { r.bcdDigits() })
	r.atLeast("under-lock", 12)
	r.atLeast("one-section", 8)
	r.atLeast("disjoint-parts", 6)
	r.atLeast("counter-step", 6)
	r.atLeast("parse-back", 8)
	r.atLeast("own-field", 6)
}

func (r *Report) generator(g genSpec) {
	p := r.P
	name := g.pkg + "." + g.typ
	r.root(p.method(types.NewPointer(p.typ(g.pkg, g.typ)), "NextVal"))
	nat := func(st *State, l Lin, hi int64) {
		st.addLe(l.neg())
		if hi >= 0 {
			st.addLe(l.addC(-hi))
		}
	}
	// which fields change in a step
	sym := func(st *State, gr *genRun, f string) Lin {
		t := mkR("pre:"+g.pkg+f, intRange(typeAt(p.typ(g.pkg, g.typ), f)))
		st.storePath(gr.obj, f, IntV{linT(t)})
		gr.pre[f] = linT(t)
		return linT(t)
	}
	try := func(cand string) *genRun {
		return r.step(g, func(st *State, gr *genRun) {
			for _, f := range gr.fields {
				if l, ok := fieldL(st, gr.obj, f); ok && (l.eq(gr.d) || l.eq(gr.w)) {
					continue
				}
				hi := int64(-1)
				if f == cand {
					hi = g.period - 2
				}
				if l := sym(st, gr, f); f != cand && g.forward {
					gr.pre[f] = l.addC(seqEpochMs)
					st.storePath(gr.obj, f, IntV{l.addC(seqEpochMs)})
					nat(st, l, 1<<42)
				} else {
					nat(st, l, hi)
				}
			}
		}, "NextVal")
	}
	probe := try("")
	r.atomicStep(name, probe)
	var counter, clock string
	for f := range probe.writes {
		if _, ok := probe.pre[f]; !ok {
			continue
		}
		q := try(f)
		for _, o := range q.outs {
			if post, ok := fieldL(o.St, q.obj, f); ok && post.eq(q.pre[f].addC(1)) {
				counter = f
			}
		}
	}
	for f := range probe.writes {
		if _, ok := probe.pre[f]; ok && f != counter {
			if clock != "" {
				panic(undecided("%s: more than one time field", name))
			}
			clock = f
		}
	}
	if counter == "" || (clock != "") != g.clock {
		r.fail("counter-step", name, probe.pos, "shape", fmt.Sprintf("%s: no step of one found in the generator's state (counter %q, time %q)", name, counter, clock))
		return
	}
	for _, full := range []bool{false, true} {
		for _, used := range []bool{false, true} {
			if used || g.forward {
				r.stepFrom(g, name, counter, clock, full, used, sym, nat)
			}
		}
	}
	if parse := p.pkg(g.pkg).Func("Parse"); parse != nil {
		r.parseBack(g, parse, counter)
	}
}

func (r *Report) stepFrom(g genSpec, name, counter, clock string, full, used bool, sym func(*State, *genRun, string) Lin, nat func(*State, Lin, int64)) {
	p := r.P
	{
		gr := r.step(g, func(st *State, gr *genRun) {
			if full {
				gr.pre[counter] = linC(g.period - 1)
				st.storePath(gr.obj, counter, IntV{linC(g.period - 1)})
			} else {
				nat(st, sym(st, gr, counter), g.period-2)
			}
			switch {
			case clock != "" && g.forward && used:
				t := linT(mkR("pre:since", &rng{0, 1<<41 - 1, true, true})).addC(seqEpochMs)
				gr.pre[clock] = t
				st.storePath(gr.obj, clock, IntV{t})
			case clock != "" && g.forward:
				gr.pre[clock] = linC(0)
			case clock != "":
				nat(st, sym(st, gr, clock), -1)
			}
		}, "NextVal")
		r.atomicStep(name, gr)
		for _, o := range gr.outs {
			if o.Panic {
				r.fail("counter-step", name, gr.pos, "panic", name+": the step can panic")
				continue
			}
			res, ok := o.Res[0].(IntV)
			if !ok {
				panic(undecided("%s: result is %s", name, show(o.Res[0])))
			}
			s1, ok1 := fieldL(o.St, gr.obj, counter)
			var t1 Lin
			ok2 := true
			if clock != "" {
				t1, ok2 = fieldL(o.St, gr.obj, clock)
			}
			if !ok1 || !ok2 {
				panic(undecided("%s: state after the step is not numeric", name))
			}
			if res.L.isConst() && res.L.C == 0 && g.forward && clockOver(o.St) {
				continue // beyond the generator's documented life
			}
			s0 := gr.pre[counter]
			why := ""
			inRange := o.St.le0(linC(0), s1) && o.St.le0(s1, linC(g.period-1))
			switch {
			case !inRange:
				why = fmt.Sprintf("the counter becomes %s, outside 0..%d", s1, g.period-1)
			case clock == "":
				want := s0.addC(1)
				if full {
					want = linC(0)
				}
				if !o.St.eqL(s1, want) {
					why = fmt.Sprintf("the counter becomes %s instead of %s", s1, want)
				}
			default:
				t0 := gr.pre[clock]
				moved := o.St.le0(t0.addC(1), t1) || !g.forward && o.St.entailsNe(t1.sub(t0))
				if g.forward && !o.St.eqL(t1, t0) && !o.St.le0(t1, linC(seqEpochMs+(1<<41)-1)) {
					why = fmt.Sprintf("the time %s may exceed its 41 bits", t1)
				}
				stays := o.St.eqL(t1, t0) && o.St.eqL(s1, s0.addC(1))
				if !moved && !stays {
					why = fmt.Sprintf("from time t and counter c it can go to time %s and counter %s, which may have been used before", t1, s1)
				}
			}
			r.check(why == "", "counter-step", name, gr.pos, fmt.Sprint(full, len(why) > 0), name+": "+why)
			if why := disjoint(o.St, g, res.L, gr, s1, t1, clock != "", p.method(types.NewPointer(p.typ(g.pkg, g.typ)), "NextVal").Signature.Results().At(0).Type()); why != "" {
				r.fail("disjoint-parts", name, gr.pos, "", name+": "+why)
			} else {
				r.ok("disjoint-parts", name)
			}
		}
	}
}

// clockOver: the path has seen a clock beyond the 41-bit life of the generator.
func clockOver(st *State) bool {
	for _, l := range st.le {
		for _, t := range l.T {
			if strings.HasPrefix(t.T.Op, "pre:") {
				continue
			}
			least := int64(1) << 41
			if strings.HasPrefix(t.T.Op, "$h:") {
				least += seqEpochMs
			}
			if st.le0(linC(least), linT(t.T)) {
				return true
			}
		}
	}
	return false
}

// disjoint explains why r is not an injective sum of its parts ("" if it is).
func disjoint(st *State, g genSpec, res Lin, gr *genRun, s1, t1 Lin, clock bool, typ types.Type) string {
	type part struct {
		what   string
		k, max int64
	}
	cd, cw := res.coef(gr.d.T[0].T), res.coef(gr.w.T[0].T)
	parts := []part{{"counter", 1, g.period - 1}, {"worker", cw, g.wMax}, {"datacentre", cd, g.dMax}}
	rest := res.sub(gr.d.mulC(cd)).sub(gr.w.mulC(cw)).sub(s1)
	if clock {
		ct := int64(0)
		for _, t := range t1.T {
			if k := rest.coef(t.T); k != 0 && k%t.K == 0 {
				ct = k / t.K
				break
			}
		}
		for _, t := range rest.T {
			if t.T.Op == "alias" && t.T.Args[0].(IntV).L.sub(t1).isConst() {
				ct, rest, t1 = t.K, rest.sub(linT(t.T).mulC(t.K)), linC(0)
				break
			}
		}
		if ct == 0 {
			return fmt.Sprintf("the identifier %s does not contain the time", res)
		}
		rest = rest.sub(t1.addC(-t1.C).mulC(ct))
		if msg := mixedRadix(t1); msg != "" {
			return msg
		}
		parts = append(parts, part{"time", ct, -1})
	}
	if !rest.isConst() {
		return fmt.Sprintf("the identifier is %s, not a sum of its parts", res)
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].k < parts[j].k })
	sum := int64(0)
	for _, q := range parts {
		if q.k <= 0 {
			return fmt.Sprintf("the %s does not enter the identifier", q.what)
		}
		if q.k <= sum {
			return fmt.Sprintf("the %s starts at bit value %d, inside the range of the lower parts (up to %d)", q.what, q.k, sum)
		}
		if q.max < 0 {
			break
		}
		sum += q.k * q.max
	}
	if ir := intRange(typ); ir != nil && ir.hasHi && !st.le0(res, linC(ir.hi)) || !st.le0(linC(0), res) {
		return fmt.Sprintf("the identifier %s can leave its type's range", res)
	}
	return ""
}

// mixedRadix explains why a time built from clock readings does not tell
// different readings apart ("" if it does).
func mixedRadix(t Lin) string {
	ts := append([]LT(nil), t.T...)
	if len(ts) < 2 {
		return ""
	}
	for _, x := range ts {
		if !strings.HasPrefix(x.T.Op, "clk:") {
			return ""
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].K < ts[j].K })
	sum := int64(0)
	for i, x := range ts {
		if x.K <= sum {
			return fmt.Sprintf("the time is %s, which is the same number for different clock readings", t)
		}
		if !x.T.HasHi {
			if i < len(ts)-1 {
				return fmt.Sprintf("the time is %s, which is the same number for different clock readings", t)
			}
			break
		}
		sum += x.K * x.T.Hi
	}
	return ""
}

// parseBack: Parse returns the parts of a composed identifier.
func (r *Report) parseBack(g genSpec, parse *ssa.Function, counter string) {
	p := r.P
	name := g.pkg + ".Parse"
	r.root(parse)
	named := p.typ(g.pkg, g.typ)
	// compose with the step's own result, from a state with an arbitrary counter
	gr := r.step(g, func(st *State, gr *genRun) {
		for _, f := range gr.fields {
			if l, ok := fieldL(st, gr.obj, f); ok && (l.eq(gr.d) || l.eq(gr.w)) {
				continue
			}
			if g.forward && f != counter {
				continue // a new generator
			}
			t := mkR("pre:"+g.pkg+f, intRange(typeAt(named, f)))
			st.storePath(gr.obj, f, IntV{linT(t)})
			st.addLe(linT(t).neg())
			if f == counter {
				st.addLe(linT(t).addC(2 - g.period))
			}
		}
	}, "NextVal")
	for _, o := range gr.outs {
		if o.Panic {
			continue
		}
		res, ok := o.Res[0].(IntV)
		if !ok || res.L.isConst() {
			continue
		}
		e := NewEngine(p)
		outs := e.Run(parse, []Val{res}, nil, o.St.fork(), parse.Pos())
		for _, q := range outs {
			pt, ok := q.Res[0].(PtrV)
			if q.Panic || !ok {
				r.fail("parse-back", name, parse.Pos(), "", name+" fails on a generated identifier")
				continue
			}
			for _, f := range gr.fields {
				want, ok1 := fieldL(o.St, gr.obj, f)
				got, ok2 := fieldL(q.St, pt.Obj, f)
				r.check(ok1 && ok2 && q.St.eqL(want, got), "parse-back", name, parse.Pos(), f,
					fmt.Sprintf("%s: %s comes back as %s instead of %s", name, f, got, want))
			}
		}
		r.done(e, len(outs))
	}
}

// lockedStep runs a step function on an arbitrary receiver.
func (r *Report) lockedStep(fn *ssa.Function, pre func(st *State, obj string), hook func(e *Engine)) *genRun {
	e := NewEngine(r.P)
	clockHooks(e)
	e.NoMerge = true
	if hook != nil {
		hook(e)
	}
	r.root(fn)
	st := newState(r.P.base)
	args := symArgs(e, fn)
	pt := args[0].(PtrV)
	e.NotNil = map[string]bool{pt.Obj: true}
	gr := &genRun{obj: pt.Obj, writes: map[string]bool{}, reads: map[string][]access{}, stores: map[string][]access{}, pos: fn.Pos()}
	pre(st, pt.Obj)
	rec := func(m map[string][]access, st *State, o *Obj, path string, pos token.Pos) {
		if o.ID == gr.obj {
			held := false
			for _, l := range st.locks {
				held = held || strings.Contains(l, gr.obj)
			}
			m[path] = append(m[path], access{pos: pos, held: held})
		}
	}
	e.OnLoad = func(st *State, o *Obj, path string, pos token.Pos) { rec(gr.reads, st, o, path, pos) }
	e.OnStore = func(st *State, o *Obj, path string, v Val, pos token.Pos) {
		if o.ID == gr.obj {
			gr.writes[path] = true
		}
		rec(gr.stores, st, o, path, pos)
	}
	e.Want["lock"] = true
	gr.outs = e.Run(fn, args, nil, st, fn.Pos())
	r.done(e, len(gr.outs))
	return gr
}

func (r *Report) sgipGenerator() {
	p := r.P
	v := p.pkg("codec/sgip").Var("Sequencer")
	if v == nil {
		panic(undecided("sgip.Sequencer not found"))
	}
	typ := deref(deref(v.Type()))
	fn := p.method(types.NewPointer(typ), "NextVal")
	if fn == nil {
		panic(undecided("the SGIP generator has no NextVal"))
	}
	name := "sgip.sequence"
	pre := map[string]Lin{}
	var fields []string
	su := typ.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		if isInt(su.Field(i).Type()) {
			fields = append(fields, "."+su.Field(i).Name())
		}
	}
	for _, low := range []bool{true, false} {
		gr := r.lockedStep(fn, func(st *State, obj string) {
			for _, f := range fields {
				t := mkR("pre:sgip"+f, intRange(types.Typ[types.Uint32]))
				pre[f] = linT(t)
				st.storePath(obj, f, IntV{linT(t)})
				if low {
					st.addLe(linT(t).addC(1 << 16).addC(-(1 << 32)))
				}
			}
		}, nil)
		r.atomicStep(name, gr)
		for _, o := range gr.outs {
			s, ok := o.Res[0].(SliceV)
			if o.Panic || !ok || !o.St.eqL(s.Len, linC(3)) {
				r.fail("own-field", name, gr.pos, "", name+": the step does not yield three numbers")
				continue
			}
			var w [3]Lin
			for i := range w {
				if v, ok := o.St.elemAt(o.St.obj(s.Obj), s.Off.addC(int64(i)), "").(IntV); ok {
					w[i] = v.L
				} else {
					panic(undecided("%s: part %d is not a number", name, i))
				}
			}
			// the third number is the state that changed by an odd constant step; the first never changes
			step, node := "", ""
			for _, f := range fields {
				post, ok := fieldL(o.St, gr.obj, f)
				if !ok {
					continue
				}
				if !gr.writes[f] && post.eq(w[0]) {
					node = f
				}
				if d := post.sub(pre[f]); gr.writes[f] && post.eq(w[2]) && d.isConst() && d.C%2 != 0 {
					step = f
				} else if !low && gr.writes[f] && post.eq(w[2]) {
					step = f // modulo 2^32
				}
			}
			r.check(node != "", "own-field", name, gr.pos, "node", name+": the first number is not the node's own number")
			r.check(step != "", "counter-step", name, gr.pos, "step", fmt.Sprintf("%s: the third number %s is not the counter advanced by an odd constant (so that it repeats only after 2^32 steps)", name, w[2]))
			clk := false
			leaves(IntV{w[1]}, func(t *Term) bool { clk = clk || strings.HasPrefix(t.Op, "clk:"); return true })
			r.check(clk, "own-field", name, gr.pos, "time", name+": the second number is not the time")
			if low {
				hi := int64(1231235959)
				ok := o.St.le0(w[1], linC(hi))
				r.check(ok, "own-field", name, gr.pos, "time-range", fmt.Sprintf("%s: the time %s is not month, day, hour, minute and second in two decimal digits each", name, w[1]))
			}
		}
	}
}

func (r *Report) bcdGenerator() {
	p := r.P
	typ := p.typ("utils", "BcdSequence")
	fn := p.method(types.NewPointer(typ), "NextVal")
	toBcd, fix := p.fn("utils", "StoBcd"), p.fn("utils", "IntToFixStr")
	name := "utils.BcdSequence"
	su := typ.Underlying().(*types.Struct)
	var cnt, tim, wrk string
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		switch {
		case isInt(f.Type()):
			cnt = "." + f.Name()
		case isStr(f.Type()):
			tim = "." + f.Name()
		case isByteSlice(f.Type()):
			wrk = "." + f.Name()
		}
	}
	if cnt == "" || tim == "" || wrk == "" {
		panic(undecided("%s: state without counter, minute or worker", name))
	}
	const per = 1000000
	for _, full := range []bool{false, true} {
		var s0 Lin
		var t0 Val
		var w0 SliceV
		gr := r.lockedStep(fn, func(st *State, obj string) {
			s0 = linC(per - 1)
			if !full {
				s0 = linT(mkR("pre:n", &rng{0, per - 2, true, true}))
			}
			st.storePath(obj, cnt, IntV{s0})
			t0 = st.obj(obj).loadPath(tim)
			w0 = st.obj(obj).loadPath(wrk).(SliceV)
			st.addEq(w0.Len.addC(-3))
		}, func(e *Engine) {
			e.CallHook["(time.Time).Format"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				l, ok := c.Args[1].(StrV)
				if !ok {
					return nil, false
				}
				lit, ok := l.lit()
				if !ok || strings.Trim(lit, "0123456789") != "" || !strings.Contains("01021504", lit) && lit != "060102150405" {
					return nil, false
				}
				return c.ret(c.St, StrV{T: mk("fmt:"+lit, c.Args[0]), Len: linC(int64(len(lit)))}), true
			}
			e.CallHook[fullName(toBcd)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				s, ok := c.Args[0].(StrV)
				if !ok {
					return nil, false
				}
				n, ok := c.St.constOf(s.Len)
				if !ok || n%2 != 0 {
					return nil, false
				}
				return c.ret(c.St, e.bytesOf(c, c.St, StrV{T: mk("bcd", s), Len: linC(n / 2)})), true
			}
			fixedFormat(e)
			e.CallHook[fullName(fix)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				n, ok := c.St.constOf(c.Args[1].(IntV).L)
				if !ok {
					return nil, false
				}
				return c.ret(c.St, StrV{T: mk("fix", c.Args[0]), Len: linC(n)}), true
			}
		})
		r.atomicStep(name, gr)
		for _, o := range gr.outs {
			s, ok := o.Res[0].(SliceV)
			if o.Panic || !ok || !o.St.eqL(s.Len, linC(10)) {
				r.fail("own-field", name, gr.pos, "", name+": the step does not yield ten bytes")
				continue
			}
			s1, ok := fieldL(o.St, gr.obj, cnt)
			if !ok {
				panic(undecided("%s: counter after the step", name))
			}
			t1, _ := o.St.obj(gr.obj).loadPath(tim).(StrV)
			e := NewEngine(p)
			same := e.equal(o.St, t0, t1)
			eq, known := o.St.decide(same)
			want := s0.addC(1)
			if full {
				want = linC(0) // documented: repeats after a million in one minute
			}
			good := o.St.le0(linC(0), s1) && o.St.le0(s1, linC(per-1)) && (known && !eq || o.St.eqL(s1, want))
			r.check(good, "counter-step", name, gr.pos, fmt.Sprint(full), fmt.Sprintf("%s: within one minute the counter goes from %s to %s", name, s0, s1))
			ob := o.St.obj(s.Obj)
			part := func(off, n int64) StrV { return o.St.regionVal(ob, s.Off.addC(off), linC(n), 0) }
			worker := o.St.bytesVal(w0)
			r.check(sameBytes(o.St, part(0, 3), worker), "own-field", name, gr.pos, "worker", name+": the first three bytes are not the worker's number")
			a, b := part(3, 4), part(7, 3)
			whole := func(x StrV) StrV {
				if x.T.Op == "sub" && x.T.Args[1].key() == (IntV{linC(0)}).key() {
					x.T = x.T.Args[0].(TermV).T
				}
				return x
			}
			a, b = whole(a), whole(b)
			isBcd := func(x StrV, of Val) bool { return x.T.Op == "bcd" && x.T.Args[0].key() == of.key() }
			r.check(isBcd(a, t1) && isMinute(o.St, t1), "own-field", name, gr.pos, "minute", fmt.Sprintf("%s: bytes four to seven are %s, not the digits of the minute kept in the state", name, show(a)))
			okc := b.T.Op == "bcd"
			if okc {
				f, isS := b.T.Args[0].(StrV)
				okc = isS && f.T.Op == "fix"
				if okc {
					v, isI := f.T.Args[0].(IntV)
					okc = isI && o.St.eqL(v.L, s1)
				}
			}
			r.check(okc, "own-field", name, gr.pos, "counter", fmt.Sprintf("%s: the last three bytes are %s, not the digits of the counter kept in the state", name, show(b)))
		}
	}
}

// fixedFormat models fmt.Sprintf with a zero-padded width.
func fixedFormat(e *Engine) {
	e.CallHook["fmt.Sprintf"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		f, ok := c.Args[0].(StrV)
		if !ok {
			return nil, false
		}
		va, ok2 := c.Args[1].(SliceV)
		lit, ok3 := f.lit()
		if !ok2 || !ok3 {
			return nil, false
		}
		arg := func(i int64) (Lin, bool) {
			v, ok := unIface(c.St.elemAt(c.St.obj(va.Obj), va.Off.addC(i), "")).(IntV)
			return v.L, ok
		}
		w, x := int64(0), Lin{}
		if lit == "%0*d" {
			wl, o1 := arg(0)
			v, o2 := arg(1)
			k, o3 := c.St.constOf(wl)
			if !o1 || !o2 || !o3 {
				return nil, false
			}
			w, x = k, v
		} else {
			if n, err := fmt.Sscanf(lit, "%%0%dd", &w); n != 1 || err != nil || fmt.Sprintf("%%0%dd", w) != lit {
				return nil, false
			}
			v, o := arg(0)
			if !o {
				return nil, false
			}
			x = v
		}
		max := int64(1)
		for i := int64(0); i < w && max < 1<<50; i++ {
			max *= 10
		}
		if !c.St.le0(linC(0), x) || !c.St.le0(x, linC(max-1)) {
			return nil, false
		}
		return c.ret(c.St, StrV{T: mk("fix", IntV{x}), Len: linC(w)}), true
	}
}

// paddedNumber: s is the decimal form of v, or zeros followed by it.
func paddedNumber(st *State, s StrV, v Lin) bool {
	num := mk("ext:strconv.FormatInt", IntV{v}, IntV{linC(10)})
	t, off := s.T, linC(0)
	if t.Op == "sub" {
		off = t.Args[1].(IntV).L
		t = t.Args[0].(TermV).T
	}
	isNum := func(t *Term) bool {
		if t == num {
			return true
		}
		if t.Op == "fix" || t.Op == "ext:strconv.Itoa" || t.Op == "ext:strconv.FormatInt" || t.Op == "ext:strconv.FormatUint" {
			x, ok := t.Args[0].(IntV)
			if len(t.Args) > 1 && t.Args[1].key() != (IntV{linC(10)}).key() {
				return false
			}
			return ok && st.eqL(x.L, v)
		}
		return false
	}
	if isNum(t) {
		return st.eqL(off, linC(0))
	}
	if t.Op != "cat" {
		return false
	}
	zeros := func(t *Term) (n int64, ok bool) { return 0, false }
	zeros = func(t *Term) (int64, bool) {
		switch {
		case t.Op == "beint1":
			x, ok := t.Args[0].(IntV)
			return 1, ok && st.eqL(x.L, linC('0'))
		case t.Op == "cat":
			a, ok1 := zeros(catPart(t, 0))
			b, ok2 := zeros(catPart(t, 1))
			return a + b, ok1 && ok2
		}
		if l, ok := (StrV{T: t}).lit(); ok {
			return int64(len(l)), strings.Trim(l, "0") == ""
		}
		return 0, false
	}
	n, ok := zeros(catPart(t, 0))
	last := catPart(t, 1)
	if !ok || !isNum(last) {
		return false
	}
	// the part taken ends where the number ends
	return st.eqL(off.add(s.Len), linC(n).add(linT(lenTerm(last))))
}

func catPart(t *Term, i int) *Term {
	switch x := t.Args[i].(type) {
	case StrV:
		return x.T
	case TermV:
		return x.T
	}
	return mk("?")
}

// bcdDigits: two decimal digits per byte, and back.
func (r *Report) bcdDigits() {
	p := r.P
	toBcd, back, fix := p.fn("utils", "StoBcd"), p.fn("utils", "BcdToString"), p.fn("utils", "IntToFixStr")
	for _, fn := range []*ssa.Function{toBcd, back, fix} {
		r.root(fn)
	}
	for _, n := range []int64{6, 8, 20} {
		e := NewEngine(p)
		e.NoMerge = true
		st := newState(p.base)
		dt := mk("digits")
		digit := func(st *State, i int64) Lin { return st.beOf(dt, linC(i), 1).addC(-'0') }
		for i := int64(0); i < n; i++ {
			d := digit(st, i)
			st.addLe(d.neg())
			st.addLe(d.addC(-9))
		}
		outs := e.Run(toBcd, []Val{StrV{T: dt, Len: linC(n)}}, nil, st, toBcd.Pos())
		for _, o := range outs {
			s, ok := o.Res[0].(SliceV)
			if o.Panic || !ok || !o.St.eqL(s.Len, linC(n/2)) {
				r.fail("digit-pairs", fullName(toBcd), toBcd.Pos(), "", fmt.Sprintf("%d digits do not become %d bytes", n, n/2))
				continue
			}
			good := true
			for i := int64(0); i < n/2; i++ {
				b := o.St.beInt(o.St.obj(s.Obj), s.Off.addC(i), 1)
				good = good && o.St.eqL(b, digit(o.St, 2*i).mulC(16).add(digit(o.St, 2*i+1)))
			}
			r.check(good, "digit-pairs", fullName(toBcd), toBcd.Pos(), "", fmt.Sprintf("%s does not put two digits into each of %d bytes", fullName(toBcd), n/2))
			if !good {
				continue
			}
			e2 := NewEngine(p)
			e2.NoMerge = true
			outs2 := e2.Run(back, []Val{s}, nil, o.St.fork(), back.Pos())
			r.done(e2, len(outs2))
			for _, q := range outs2 {
				v, ok := q.Res[0].(StrV)
				same := !q.Panic && ok && q.St.eqL(v.Len, linC(n))
				for i := int64(0); same && i < n; i++ {
					same = q.St.eqL(q.St.beOf(v.T, linC(i), 1), digit(q.St, i).addC('0'))
				}
				r.check(same, "digit-pairs", fullName(back), back.Pos(), "", fmt.Sprintf("%s does not return the digits: %s", fullName(back), show(q.Res[0])))
			}
		}
		r.done(e, len(outs))
	}
	e := NewEngine(p)
	e.NoMerge = true
	st := newState(p.base)
	fixedFormat(e)
	v := IntV{linT(mkR("number", &rng{0, 999999, true, true}))}
	outs := e.Run(fix, []Val{v, IntV{linC(6)}}, nil, st, fix.Pos())
	for _, o := range outs {
		s, ok := o.Res[0].(StrV)
		r.check(!o.Panic && ok && o.St.eqL(s.Len, linC(6)), "fixed-width", fullName(fix), fix.Pos(), "", fmt.Sprintf("%s does not yield six digits: %s", fullName(fix), show(o.Res[0])))
		if ok {
			r.check(paddedNumber(o.St, s, v.L), "fixed-width", fullName(fix), fix.Pos(), "value", fmt.Sprintf("%s does not yield the number padded with zeros: %s", fullName(fix), show(s)))
		}
	}
	r.done(e, len(outs))
}

// isMinute: the text is the clock's month, day, hour and minute, or has been seen to equal it.
func isMinute(st *State, t StrV) bool {
	clock := func(x StrV) bool {
		return x.T != nil && strings.HasPrefix(x.T.Op, "fmt:") && strings.HasSuffix(x.T.Op, "01021504")
	}
	if clock(t) {
		return true
	}
	for f, v := range st.bools {
		if !v || f.Op != "streq" || t.T == nil {
			continue
		}
		a, ok1 := f.Args[0].(StrV)
		b, ok2 := f.Args[1].(StrV)
		if ok1 && ok2 && (a.key() == t.key() && clock(b) || b.key() == t.key() && clock(a)) {
			return true
		}
	}
	return false
}
