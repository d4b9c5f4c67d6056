package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	fn     *ssa.Function
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo
	top   *loopInfo
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (i *fnInfo) loopAt(b *ssa.BasicBlock) *loopInfo { return i.loops[b] }

func buildInfo(fn *ssa.Function) *fnInfo {
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i := range order {
		in.rpo[order[i]] = len(order) - 1 - i
	}
	in.top = &loopInfo{fn: fn, blocks: map[*ssa.BasicBlock]bool{}}
	for _, b := range order {
		in.top.blocks[b] = true
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &loopInfo{head: s, fn: fn, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				// natural loop body
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						if seen[q] {
							st = append(st, q)
						}
					}
				}
			} else if in.rpo[s] <= in.rpo[b] && in.rpo[s] != 0 || s == b {
				if in.rpo[s] <= in.rpo[b] {
					panic(undecided("irreducible control flow in %s", fn))
				}
			}
		}
	}
	in.live = liveness(fn, order)
	// blocks that leave the loop by returning belong to the region that contains the loop;
	// they are executed there.
	return in
}

func liveness(fn *ssa.Function, post []*ssa.BasicBlock) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range post {
		live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					cur[v] = true
				}
				for pi, q := range s.Preds {
					if q != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						cur[phi.Edges[pi]] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); isPhi {
						// phis of the block itself stay live-in at its start (already evaluated)
						continue
					}
					delete(cur, v)
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						cur[*o] = true
					}
				}
			}
			if len(cur) != len(live[b]) {
				live[b] = cur
				ch = true
			}
		}
	}
	return live
}

// ---- joins

func (e *Engine) keepApart() bool { return e.NoMerge && !(e.TopOnly && len(e.stack) > 1) }

// mergePaths joins paths that differ only in soft data.
func (e *Engine) mergePaths(info *fnInfo, b *ssa.BasicBlock, ps []*path) []*path {
	if e.keepApart() {
		return ps
	}
	var out []*path
	for _, p := range ps {
		done := false
		for i, q := range out {
			if m := e.joinPath(info, b, q, p); m != nil {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, p)
		}
	}
	return out
}

func sameDefers(a, b []deferred) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].call != b[i].call || a[i].fn == nil != (b[i].fn == nil) || (a[i].fn != nil && a[i].fn.key() != b[i].fn.key()) || TupleV(a[i].args).key() != TupleV(b[i].args).key() {
			return false
		}
	}
	return true
}

func (e *Engine) joinPath(info *fnInfo, b *ssa.BasicBlock, p, q *path) *path {
	if p.pan != q.pan || !sameDefers(p.defers, q.defers) || !headSame(p.st, q.st) {
		return nil
	}
	j := &joiner{e: e, a: p.st, b: q.st, where: b.Parent().String() + strconv.Itoa(b.Index)}
	live := info.live[b]
	regs := map[ssa.Value]Val{}
	keys := make([]ssa.Value, 0, len(live))
	for v := range live {
		keys = append(keys, v)
	}
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if !live[phi] {
				keys = append(keys, phi)
			}
		} else {
			break
		}
	}
	sort.Slice(keys, func(i, k int) bool { return keys[i].Name() < keys[k].Name() })
	type pend struct {
		v    ssa.Value
		x, y Val
	}
	var diff []pend
	for _, v := range keys {
		x, ok1 := p.regs[v]
		y, ok2 := q.regs[v]
		if !ok1 || !ok2 {
			if ok1 != ok2 {
				// defined on one path only: not used without definition
				continue
			}
			continue
		}
		if x.key() == y.key() {
			regs[v] = x
			continue
		}
		if !j.soft(x, y) {
			return nil
		}
		diff = append(diff, pend{v, x, y})
	}
	if !j.heapSoft() {
		return nil
	}
	for _, d := range diff {
		regs[d.v] = j.join(d.x, d.y)
	}
	st := j.state()
	return &path{st: st, regs: regs, defers: p.defers, pred: p.pred, pan: p.pan}
}

func headSame(a, b *State) bool {
	return a.trace == b.trace && a.lockKey() == b.lockKey() && a.ctx == b.ctx && a.epoch == b.epoch && slices.Equal(a.lep, b.lep)
}

func (e *Engine) mergeOutcomes(os []Outcome) []Outcome {
	if e.keepApart() {
		return os
	}
	var out []Outcome
	for _, o := range os {
		done := false
		for i, q := range out {
			if m, ok := e.joinOutcome(q, o); ok {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, o)
		}
	}
	return out
}

func (e *Engine) joinOutcome(a, b Outcome) (Outcome, bool) {
	if a.Panic != b.Panic || !headSame(a.St, b.St) || len(a.Res) != len(b.Res) {
		return Outcome{}, false
	}
	j := &joiner{e: e, a: a.St, b: b.St, where: e.ctxKey()}
	for i := range a.Res {
		if a.Res[i].key() != b.Res[i].key() && !j.soft(a.Res[i], b.Res[i]) {
			return Outcome{}, false
		}
	}
	if !j.heapSoft() {
		return Outcome{}, false
	}
	var res []Val
	for i := range a.Res {
		if a.Res[i].key() == b.Res[i].key() {
			res = append(res, a.Res[i])
		} else {
			res = append(res, j.join(a.Res[i], b.Res[i]))
		}
	}
	return Outcome{St: j.state(), Res: res, Panic: a.Panic}, true
}

type joiner struct {
	e     *Engine
	a, b  *State
	where string
	extra []Lin // facts on join terms
	guard Cond
	gdone bool
	objs  []*Obj   // joined objects
	defs  [][2]Lin // value of a join term on either side
}

// soft: values that may differ without keeping the paths apart.
func (j *joiner) soft(x, y Val) bool {
	switch a := x.(type) {
	case IntV:
		b, ok := y.(IntV)
		if !ok {
			return false
		}
		return !(a.L.isConst() && b.L.isConst()) && !a.L.sub(b.L).isConst() || (a.L.isConst() != b.L.isConst())
	case StrV:
		_, ok := y.(StrV)
		return ok
	case TermV:
		b, ok := y.(TermV)
		if ok && a.Typ != nil && b.Typ != nil && types.IsInterface(a.Typ) {
			return false
		}
		return ok
	case *StructV:
		b, ok := y.(*StructV)
		if !ok || !types.Identical(a.Typ, b.Typ) {
			return false
		}
		for _, k := range unionKeys(a.F, b.F) {
			p, q := a.get(k), b.get(k)
			if p.key() != q.key() && !j.soft(p, q) {
				return false
			}
		}
		return a.Base == b.Base
	case TupleV:
		b, ok := y.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].key() != b[i].key() && !j.soft(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func unionKeys(a, b map[string]Val) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (j *joiner) heapSoft() bool {
	ids := map[string]bool{}
	for k := range j.a.heap {
		ids[k] = true
	}
	for k := range j.b.heap {
		ids[k] = true
	}
	ks := make([]string, 0, len(ids))
	for k := range ids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, id := range ks {
		x, y := j.a.heap[id], j.b.heap[id]
		if x == y {
			continue
		}
		if x == nil || y == nil {
			z := x
			if z == nil {
				z = y
			}
			if d := symObjs[id]; d != nil {
				// modified on one side only
				if x == nil {
					x = d
				} else {
					y = d
				}
			} else {
				j.objs = append(j.objs, z)
				continue
			}
		}
		m, ok := j.joinObj(x, y)
		if !ok {
			return false
		}
		j.objs = append(j.objs, m)
	}
	return true
}

func (j *joiner) joinObj(x, y *Obj) (*Obj, bool) {
	if x.contentKey() == y.contentKey() {
		return x, true
	}
	if x.Kind != y.Kind || x.Sym != y.Sym {
		return nil, false
	}
	n := x.clone()
	n.Pub = x.Pub || y.Pub
	if !x.Len.eq(y.Len) {
		return nil, false
	}
	if x.Kind == OArr && isByte(x.Typ) {
		// common prefix of the write logs, then unknown unless equal
		same := len(x.W) == len(y.W)
		if same {
			for i := range x.W {
				if x.W[i].key() != y.W[i].key() {
					same = false
				}
			}
		}
		if !same {
			return nil, false
		}
		n.Hav = x.Hav || y.Hav
		return n, true
	}
	if x.Kind == OList {
		return nil, false
	}
	if x.Kind == OMap {
		if x.Hav != y.Hav || len(x.F) != len(y.F) {
			return nil, false
		}
	}
	for _, k := range unionKeys(x.F, y.F) {
		var p, q Val
		if x.Kind == OCell {
			p, q = x.loadPath(k), y.loadPath(k)
		} else {
			p, q = x.F[k], y.F[k]
			if p == nil || q == nil {
				return nil, false
			}
		}
		if p.key() == q.key() {
			if x.Kind == OCell {
				setStruct(n.F, k, p)
			}
			continue
		}
		if !j.soft(p, q) {
			return nil, false
		}
		v := j.join(p, q)
		if x.Kind == OCell && k != "" {
			setStruct(n.F, k, v)
		} else {
			n.F[k] = v
		}
	}
	n.Hav = x.Hav || y.Hav
	if x.Kind == OArr {
		n.Sum = joinSum(x.Sum, y.Sum)
	}
	return n, true
}

// findGuard looks for a condition that holds on one side and fails on the other.
func (j *joiner) findGuard() Cond {
	if j.gdone {
		return j.guard
	}
	j.gdone = true
	best := -1
	for t, v := range j.a.bools {
		if w, ok := j.b.bools[t]; ok && w != v {
			if best < 0 || t.ID > best {
				best = t.ID
				j.guard = Cond{K: CTerm, B: v, T: t}
			}
		}
	}
	if best >= 0 {
		return j.guard
	}
	for _, l := range j.a.eq {
		if !hasLin(j.b.eq, l) && j.b.entailsNe(l) {
			j.guard = Cond{K: CEq, L: l}
			return j.guard
		}
	}
	for _, l := range j.b.eq {
		if !hasLin(j.a.eq, l) && j.a.entailsNe(l) {
			j.guard = Cond{K: CNe, L: l}
			return j.guard
		}
	}
	for _, l := range j.a.le {
		if !hasLin(j.b.le, l) && j.b.entailsLe(l.neg().addC(1)) {
			j.guard = Cond{K: CLe, L: l}
			return j.guard
		}
	}
	j.guard = cTrue
	return j.guard
}

func hasLin(ls []Lin, l Lin) bool {
	k := l.key()
	for _, x := range ls {
		if x.key() == k {
			return true
		}
	}
	return false
}

func (j *joiner) term(x, y Val, r *rng) *Term {
	g := j.findGuard()
	if g.K != CConst {
		// orient the guard canonically
		if g.K == CTerm && !g.B {
			return mkR("ite", r, BoolV{g.not()}, y, x)
		}
		if g.K == CNe {
			return mkR("ite", r, BoolV{g.not()}, y, x)
		}
		return mkR("ite", r, BoolV{g}, x, y)
	}
	return mkR("join", r, x, y)
}

func (j *joiner) join(x, y Val) Val {
	if x.key() == y.key() {
		return x
	}
	switch a := x.(type) {
	case IntV:
		b := y.(IntV)
		r := &rng{}
		l1, h1, o1, p1 := j.a.bounds(a.L)
		l2, h2, o2, p2 := j.b.bounds(b.L)
		if o1 && o2 {
			r.hasLo, r.lo = true, min(l1, l2)
		}
		if p1 && p2 {
			r.hasHi, r.hi = true, max(h1, h2)
		}
		t := j.term(x, y, r)
		tl := linT(t)
		j.defs = append(j.defs, [2]Lin{tl.sub(a.L), tl.sub(b.L)})
		// relational bounds that hold on both sides
		for pi, pr := range [][2]Lin{{a.L, b.L}, {b.L, a.L}} {
			u, v := pr[0], pr[1]
			sv := j.b
			if pi == 1 {
				sv = j.a
			}
			// v <= u on v's side: then join <= u (u's own side is equal)
			if sv.le0(v, u) {
				j.extra = append(j.extra, tl.sub(u))
			}
			if sv.le0(u, v) {
				j.extra = append(j.extra, u.sub(tl))
			}
		}
		return IntV{tl}
	case StrV:
		b := y.(StrV)
		t := j.term(x, y, nil)
		var ln Lin
		if a.Len.eq(b.Len) {
			ln = a.Len
		} else {
			ln = j.join(IntV{a.Len}, IntV{b.Len}).(IntV).L
		}
		return StrV{T: t, Len: ln}
	case TermV:
		return TermV{j.term(x, y, nil), a.Typ}
	case *StructV:
		b := y.(*StructV)
		n := &StructV{Typ: a.Typ, Base: a.Base, F: map[string]Val{}}
		for _, k := range unionKeys(a.F, b.F) {
			p, q := a.get(k), b.get(k)
			if p.key() == q.key() {
				n.F[k] = p
			} else {
				n.F[k] = j.join(p, q)
			}
		}
		return n
	case TupleV:
		b := y.(TupleV)
		var n TupleV
		for i := range a {
			n = append(n, j.join(a[i], b[i]))
		}
		return n
	}
	panic(undecided("join of %s and %s", show(x), show(y)))
}

// shifted restates facts of one side in terms of a joined integer whose two
// values differ by a constant, as far as they hold on both sides.
func (j *joiner) shifted() (out []Lin) {
	add := func(l Lin) {
		l = tighten(l)
		if !l.isConst() && !hasLin(out, l) && len(out) < 24 {
			out = append(out, l)
		}
	}
	for _, d := range j.defs {
		c := d[0].sub(d[1]) // (t-a)-(t-b) = b-a
		if !c.isConst() || c.C == 0 {
			continue
		}
		for side, s := range []*State{j.a, j.b} {
			def, odef, o := d[side], d[1-side], j.b
			if side == 1 {
				o = j.a
			}
			facts := append([]Lin{}, s.le...)
			for _, l := range s.eq {
				facts = append(facts, l, l.neg())
			}
			for _, f := range facts {
				for _, x := range def.T {
					if x.K != 1 && x.K != -1 || f.coef(x.T) == 0 {
						continue
					}
					if odef.coef(x.T) != x.K {
						continue
					}
					// def = t - a = 0, solved for x: x = x - K*def
					fx := f.subst(x.T, linT(x.T).sub(def.mulC(x.K)))
					if fx.coef(x.T) != 0 {
						continue
					}
					// on the other side the joined integer is its own value there
					fo := f.subst(x.T, linT(x.T).sub(def.sub(odef).mulC(x.K)))
					if hi, ok := o.upper(fo); ok {
						add(fx.addC(-max(0, hi)))
					}
				}
			}
		}
	}
	return
}

// unequal restates "is not c" for a joined integer that is not c on either side.
func (j *joiner) unequal() (out []Lin) {
	for _, d := range j.defs {
		for side, s := range []*State{j.a, j.b} {
			o := j.b
			if side == 1 {
				o = j.a
			}
			for _, f := range s.ne {
				for _, g := range []Lin{f, f.neg()} {
					// f = value + c, and d = t - value
					l := g.add(d[side])
					c := tighten(g).sub(g) // unchanged unless scaled
					if !c.isConst() || c.C != 0 {
						continue
					}
					if len(l.T) != 1 || len(d[side].T) == 0 || l.coef(l.T[0].T) != 1 || d[side].coef(l.T[0].T) != 1 {
						continue
					}
					// t + k with k = f - value
					other := l.sub(d[1-side])
					if o.entailsNe(other) && !hasLin(out, l) && len(out) < 16 {
						out = append(out, l)
					}
				}
			}
		}
	}
	return
}

// state builds the joined state (facts common to both sides).
func (j *joiner) state() *State {
	a, b := j.a, j.b
	n := a.fork()
	n.heap = make(map[string]*Obj, len(a.heap))
	n.own = true
	for k, v := range a.heap {
		n.heap[k] = v
	}
	for _, o := range j.objs {
		n.heap[o.ID] = o
	}
	n.bools = map[*Term]bool{}
	n.bown = true
	for t, v := range a.bools {
		if w, ok := b.bools[t]; ok && w == v {
			n.bools[t] = v
		}
	}
	n.le, n.eq, n.ne = nil, nil, nil
	common := func(xs, ys []Lin, test func(s *State, l Lin) bool) (out []Lin) {
		for _, l := range xs {
			if hasLin(ys, l) || test(b, l) {
				out = append(out, l)
			}
		}
		for _, l := range ys {
			if !hasLin(xs, l) && !hasLin(out, l) && test(a, l) {
				out = append(out, l)
			}
		}
		return
	}
	n.eq = common(a.eq, b.eq, func(s *State, l Lin) bool { return s.entailsEq(l) })
	n.le = common(a.le, b.le, func(s *State, l Lin) bool { return s.entailsLe(l) })
	n.ne = common(a.ne, b.ne, func(s *State, l Lin) bool { return s.entailsNe(l) })
	for _, l := range a.eq { // equalities on one side only weaken to inequalities
		if !hasLin(n.eq, l) {
			if b.entailsLe(l) {
				n.le = append(n.le, l)
			}
			if b.entailsLe(l.neg()) {
				n.le = append(n.le, l.neg())
			}
		}
	}
	for _, l := range b.eq {
		if !hasLin(n.eq, l) {
			if a.entailsLe(l) {
				n.le = append(n.le, l)
			}
			if a.entailsLe(l.neg()) {
				n.le = append(n.le, l.neg())
			}
		}
	}
	n.le = append(n.le, j.extra...)
	for _, l := range j.unequal() {
		if len(n.ne) < 40 && !hasLin(n.ne, l) {
			n.ne = append(n.ne, l)
		}
	}
	n.le = append(n.le, j.shifted()...)
	n.imp = nil
	for _, i := range a.imp {
		for _, k := range b.imp {
			if i.G == k.G && i.Eq == k.Eq && i.L.eq(k.L) {
				n.imp = append(n.imp, i)
				break
			}
		}
	}
	if g := j.findGuard(); g.K != CConst {
		side := func(s *State, g Cond) {
			k := g.key()
			m := 0
			for _, l := range s.le {
				if m < 30 && !hasLin(n.le, l) {
					n.imp = append(n.imp, implication{G: k, L: l})
					m++
				}
			}
			for _, l := range s.eq {
				if m < 30 && !hasLin(n.eq, l) {
					n.imp = append(n.imp, implication{G: k, L: l, Eq: true})
					m++
				}
			}
		}
		side(a, g)
		side(b, g.not())
		for _, d := range j.defs {
			n.imp = append(n.imp, implication{G: g.key(), L: d[0], Eq: true}, implication{G: g.not().key(), L: d[1], Eq: true})
		}
	}
	n.occ = map[string]int{}
	n.oown = true
	for k, v := range a.occ {
		n.occ[k] = v
	}
	for k, v := range b.occ {
		if v > n.occ[k] {
			n.occ[k] = v
		}
	}
	return n
}

// ---- loops

const unrollMax = 40

// headIf reports whether the loop head ends in a test that can leave the loop.
func (l *loopInfo) headIf() *ssa.If {
	f, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if l.blocks[l.head.Succs[0]] == l.blocks[l.head.Succs[1]] {
		return nil
	}
	return f
}

func (r *regionRun) loop(l *loopInfo, p *path) []edgePath {
	e := r.e
	// 1. iterate concretely while the head test is decided
	if l.headIf() != nil && !(e.General != nil && e.General(l)) {
		var exits []edgePath
		cur := []*path{p}
		ok := true
		outs0 := len(r.outs)
		start := p.fork()
		for it := 0; len(cur) > 0; it++ {
			if it > unrollMax {
				ok = false
				break
			}
			var next []*path
			for _, q := range cur {
				if !r.headDecided(l, q) {
					ok = false
					break
				}
				for _, ep := range r.run(l, l.head, []*path{q}) {
					if ep.to == l.head {
						next = append(next, ep.p)
					} else {
						exits = append(exits, ep)
					}
				}
			}
			if !ok {
				break
			}
			if len(next) > 1 {
				next = e.mergePaths(r.info, l.head, next)
			}
			cur = next
		}
		if ok {
			return exits
		}
		r.outs = r.outs[:outs0]
		p = start
	}
	if e.OneIter != nil && e.OneIter(l) {
		return r.oneIter(l, p)
	}
	if e.Unroll > 0 {
		var exits []edgePath
		cur := []*path{p}
		for it := 0; len(cur) > 0; it++ {
			if it > e.Unroll {
				panic(undecided("%s: loop still running after %d rounds", fullName(r.fn), e.Unroll))
			}
			var next []*path
			for _, ep := range r.run(l, l.head, cur) {
				if ep.to == l.head {
					next = append(next, ep.p)
				} else {
					exits = append(exits, ep)
				}
			}
			if len(next) > 1 {
				next = e.mergePaths(r.info, l.head, next)
			}
			cur = next
		}
		return exits
	}
	return r.generalise(l, p)
}

// oneIter follows one round of a loop whose state is arbitrary on entry: what the
// enclosing analysis assumes about memory must hold for an arbitrary moment. Loop
// variables start unknown; memory allocated before the loop must not change in it.
func (r *regionRun) oneIter(l *loopInfo, p *path) []edgePath {
	e := r.e
	q := p.fork()
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, ed := range ph.Edges {
			if l.blocks[l.head.Preds[i]] && ed != ssa.Value(ph) {
				if c, ok := ed.(*ssa.Const); ok {
					if x, ok := p.regs[ph]; ok && r.val(p, c).key() == x.key() {
						continue
					}
				}
				q.regs[ph] = symVal(e.fresh(q.st, "carried:"+ph.Comment, ph.Pos()), ph.Type())
			}
		}
	}
	pre := q.st.trace
	base := q.st.fork()
	var exits []edgePath
	for _, ep := range r.run(l, l.head, []*path{q}) {
		if ep.to != l.head {
			exits = append(exits, ep)
			continue
		}
		for _, id := range sortedKeys(ep.p.st.heap) {
			bo, no := base.heap[id], ep.p.st.heap[id]
			if bo == nil || bo == no || !bo.Alloc || bo.Pub || strings.HasPrefix(id, "INB") || bo.contentKey() == no.contentKey() {
				continue
			}
			panic(undecided("loop at %s of %s carries %s from one round to the next", posStr(e.P.Fset, l.head.Instrs[0].Pos()), r.fn, id))
		}
		if e.OnBack != nil && e.probing == 0 {
			e.OnBack(ep.p.st, l, delta(pre, ep.p.st.trace))
		}
	}
	return exits
}

// headDecided evaluates the head block on a copy to see whether its test is known.
func (r *regionRun) headDecided(l *loopInfo, p *path) bool {
	e := r.e
	e.probing++
	defer func() { e.probing-- }()
	q := p.fork()
	f := l.headIf()
	work := []*path{q}
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if in == ssa.Instruction(f) {
			break
		}
		switch in.(type) {
		case *ssa.Call:
			// lengths and similar builtins are fine; anything else: treat as undecided when it forks
		}
		if len(work) != 1 {
			return false
		}
		work = r.instr(in, work[0])
	}
	if len(work) != 1 {
		return false
	}
	_, known := work[0].st.decide(work[0].regs2bool(r, f.Cond))
	return known
}

type havocKey struct{ obj, path string }

// generalise analyses an unbounded loop: values changed by the body are replaced
// by unknowns (or, when they advance by a constant, by start + step*k), facts that
// every iteration preserves are kept, and the body is analysed once from there.
func (r *regionRun) generalise(l *loopInfo, p *path) []edgePath {
	e := r.e
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		} else {
			break
		}
	}
	tag := e.ctxKey() + "L" + strconv.Itoa(l.head.Index) + "#" + strconv.Itoa(p.st.next("loop"+e.ctxKey()+strconv.Itoa(l.head.Index)))
	k := mkR("$k:"+tag, &rng{0, 0, true, false})
	kl := linT(k)
	modes := map[ssa.Value]string{}  // "" unknown yet, "ind", "hav"
	steps := map[ssa.Value]Lin{}     // per-iteration step (int)
	sstep := map[ssa.Value][2]Lin{}  // slices: off, len step
	heapMod := map[havocKey]string{} // "ind" or "hav"
	hstep := map[havocKey]Lin{}
	arrMod := map[string]bool{}
	type fam struct {
		ws  []Write
		key string
		bad bool
	}
	fams := map[string]*fam{}
	sums := map[string]*ElemSum{}
	sumN := map[string]int{}
	setSum := func(name string, s *ElemSum) bool { // true when it changed
		old, ok := sums[name]
		if ok && old.key() == s.key() {
			return false
		}
		if ok {
			s = joinSum(old, s)
			if old.key() == s.key() {
				return false
			}
		}
		sumN[name]++
		if sumN[name] > 4 {
			s = nil
		}
		sums[name] = s
		return true
	}
	initSum := func(v Val) *ElemSum {
		s, ok := v.(SliceV)
		if !ok {
			return nil
		}
		return p.st.sumObj(p.st.obj(s.Obj))
	}
	freshSum := func(st *State, v Val) *ElemSum {
		s, ok := v.(SliceV)
		if !ok {
			return nil
		}
		o := st.obj(s.Obj)
		r := &ElemSum{None: true}
		if o == nil {
			return r
		}
		for _, x := range o.F {
			r = joinSum(r, st.sumOf(x))
		}
		if o.Hav || o.Sym != nil {
			r = joinSum(r, o.Sum)
		}
		return r
	}
	listVal := func(st *State, name string, typ types.Type, init Val) Val {
		v := r.havocList(st, "$h:"+tag+":"+name, typ)
		if s, ok := v.(SliceV); ok {
			if _, ok := sums[name]; !ok {
				sums[name] = initSum(init)
			}
			o := st.obj(s.Obj).clone()
			o.Sum = sums[name]
			st.setObj(o)
		}
		return v
	}
	lstep := map[string]Lin{} // lists that grow by a constant
	lbad := map[string]bool{}
	grow := func(name string, v, init Val) Val {
		s, ok := v.(SliceV)
		d, have := lstep[name]
		if !ok || !have || lbad[name] {
			return v
		}
		n := linC(0)
		if x, ok := init.(SliceV); ok {
			n = x.Len
		}
		s.Len, s.Cap = n.add(linMul(d, kl)), s.Cap.sub(s.Len).add(n.add(linMul(d, kl)))
		return s
	}
	listStep := func(name string, cur, nv Val) bool { // true when it changed
		if lbad[name] {
			return false
		}
		c, ok1 := cur.(SliceV)
		n, ok2 := nv.(SliceV)
		if !ok1 || !ok2 || !n.Len.sub(c.Len).isConst() {
			lbad[name] = true
			return true
		}
		d := n.Len.sub(c.Len)
		if old, ok := lstep[name]; ok {
			if old.eq(d) {
				return false
			}
			lbad[name] = true
			return true
		}
		lstep[name] = d
		return true
	}
	var cands []Lin

	fresh := func(name string, typ types.Type) Val { return symVal(mk("$h:"+tag+":"+name), typ) }

	build := func() *path {
		q := p.fork()
		for _, phi := range phis {
			init := p.regs[phi]
			switch modes[phi] {
			case "", "inv":
				// assume unchanged until shown otherwise
			case "ind":
				q.regs[phi] = IntV{init.(IntV).L.add(linMul(steps[phi], kl))}
			case "sind":
				s := init.(SliceV)
				st := sstep[phi]
				q.regs[phi] = SliceV{Obj: s.Obj, Off: s.Off.add(linMul(st[0], kl)), Len: s.Len.add(linMul(st[1], kl)), Cap: s.Cap.sub(linMul(st[0], kl)), Elem: s.Elem}
			case "shav":
				s := init.(SliceV)
				o := mkR("$h:"+tag+":"+phi.Name()+"off", &rng{0, 0, true, false})
				n := mkR("$h:"+tag+":"+phi.Name()+"len", &rng{0, 0, true, false})
				end := s.Off.add(s.Cap)
				q.regs[phi] = SliceV{Obj: s.Obj, Off: linT(o), Len: linT(n), Cap: end.sub(linT(o)), Elem: s.Elem}
				q.st.addLe(linT(o).add(linT(n)).sub(end))
			case "list":
				q.regs[phi] = grow(phi.Name(), listVal(q.st, phi.Name(), phi.Type(), init), init)
			default:
				q.regs[phi] = fresh(phi.Name(), phi.Type())
			}
		}
		hk := make([]havocKey, 0, len(heapMod))
		for h := range heapMod {
			hk = append(hk, h)
		}
		sort.Slice(hk, func(i, j int) bool { return hk[i].obj+hk[i].path < hk[j].obj+hk[j].path })
		for _, h := range hk {
			o := p.st.obj(h.obj)
			if o == nil {
				continue
			}
			typ := typeAt(o.Typ, h.path)
			if typ == nil {
				typ = o.Typ
			}
			switch heapMod[h] {
			case "ind":
				q.st.storePath(h.obj, h.path, IntV{o.loadPath(h.path).(IntV).L.add(linMul(hstep[h], kl))})
			case "list":
				q.st.storePath(h.obj, h.path, grow(h.obj+h.path, listVal(q.st, h.obj+h.path, typ, o.loadPath(h.path)), o.loadPath(h.path)))
			default:
				q.st.storePath(h.obj, h.path, fresh(h.obj+h.path, typ))
			}
		}
		ids := make([]string, 0, len(arrMod))
		for id := range arrMod {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			if o := p.st.obj(id); o != nil {
				n := o.clone()
				if f := fams[id]; f != nil && !f.bad {
					for _, w := range f.ws {
						w.Each, w.EachN = k, kl
						n.W = append(n.W, w)
					}
					q.st.setObj(n)
					continue
				}
				n.Hav = true
				n.F, n.Idx, n.W, n.List = map[string]Val{}, map[string]Lin{}, nil, nil
				if n.Kind == OArr && !isByte(n.Typ) {
					if _, ok := sums[id]; !ok {
						sums[id] = p.st.sumObj(o)
					}
					n.Sum = sums[id]
				}
				q.st.setObj(n)
			}
		}
		for _, c := range cands {
			q.st.addLe(c)
		}
		return q
	}

	// shift rewrites a fact about iteration k+1 into one about iteration k.
	stable := false
	for round := 0; round < 14 && !stable; round++ {
		stable = true
		e.probing++
		outs0 := len(r.outs)
		q := build()
		var backs []*path
		for _, ep := range r.run(l, l.head, []*path{q}) {
			if ep.to == l.head {
				backs = append(backs, ep.p)
			}
		}
		r.outs = r.outs[:outs0]
		e.probing--
		base := build()
		for _, phi := range phis {
			cur := base.regs[phi]
			for _, bp := range backs {
				nv := bp.regs[phi]
				switch modes[phi] {
				case "":
					if nv.key() == cur.key() {
						continue
					}
					stable = false
					switch c := cur.(type) {
					case IntV:
						if n, ok := nv.(IntV); ok && n.L.sub(c.L).isConst() {
							if modes[phi] == "" {
								modes[phi], steps[phi] = "ind", n.L.sub(c.L)
							} else if !steps[phi].eq(n.L.sub(c.L)) {
								modes[phi] = "hav"
							}
							continue
						}
						modes[phi] = "hav"
					case SliceV:
						n, ok := nv.(SliceV)
						if ok && n.Obj == c.Obj && c.Obj != "" {
							d1, d2 := n.Off.sub(c.Off), n.Len.sub(c.Len)
							if d1.isConst() && d2.isConst() {
								modes[phi], sstep[phi] = "sind", [2]Lin{d1, d2}
								continue
							}
							modes[phi] = "shav"
							continue
						}
						modes[phi] = "list"
					default:
						modes[phi] = "hav"
					}
				case "ind":
					n, ok := nv.(IntV)
					if !ok || !n.L.sub(cur.(IntV).L).eq(steps[phi]) {
						modes[phi] = "hav"
						stable = false
					}
				case "sind":
					n, ok := nv.(SliceV)
					c := cur.(SliceV)
					if !ok || n.Obj != c.Obj {
						modes[phi], stable = "list", false
					} else if !n.Off.sub(c.Off).eq(sstep[phi][0]) || !n.Len.sub(c.Len).eq(sstep[phi][1]) {
						modes[phi], stable = "shav", false
					}
				case "shav":
					n, ok := nv.(SliceV)
					if !ok || n.Obj != cur.(SliceV).Obj {
						modes[phi], stable = "list", false
					}
				case "list":
					if listStep(phi.Name(), cur, nv) {
						stable = false
					}
					if setSum(phi.Name(), joinSum(sums[phi.Name()], freshSum(bp.st, nv))) {
						stable = false
					}
				}
			}
		}
		// heap
		for _, bp := range backs {
			for id, no := range bp.st.heap {
				bo := base.st.obj(id)
				if bo == nil || bo == no {
					continue // allocated in the iteration, or untouched
				}
				if p.st.obj(id) == nil {
					continue
				}
				if bo.Pub != no.Pub && bo.Kind != OCell {
					continue
				}
				if bo.contentKey() == no.contentKey() {
					continue
				}
				if bo.Kind != OCell {
					if !arrMod[id] {
						arrMod[id] = true
						stable = false
					}
					if bo.Kind == OArr && isByte(bo.Typ) {
						f := fams[id]
						if f == nil {
							f = &fam{}
							fams[id] = f
						}
						if f.bad {
							continue
						}
						ws, ok := famWrites(bo, no, k)
						key := ""
						for _, w := range ws {
							key += w.key() + ";"
						}
						if !ok || (round > 8 && key != f.key) || len(backs) > 1 && famKeys(backs, id, bo) > 1 {
							f.bad, stable = true, false
							continue
						}
						if key != f.key {
							f.key, f.ws, stable = key, ws, false
						}
					} else if bo.Kind == OArr && !isByte(bo.Typ) {
						s := &ElemSum{None: true}
						for _, x := range no.F {
							s = joinSum(s, bp.st.sumOf(x))
						}
						if setSum(id, joinSum(sums[id], s)) {
							stable = false
						}
					}
					continue
				}
				for _, key := range unionKeys(bo.F, no.F) {
					x, y := bo.loadPath(key), no.loadPath(key)
					if x.key() == y.key() {
						continue
					}
					h := havocKey{id, key}
					switch heapMod[h] {
					case "":
						stable = false
						xi, ok1 := x.(IntV)
						yi, ok2 := y.(IntV)
						if ok1 && ok2 && yi.L.sub(xi.L).isConst() {
							heapMod[h], hstep[h] = "ind", yi.L.sub(xi.L)
						} else if _, ok := y.(SliceV); ok {
							heapMod[h] = "list"
						} else {
							heapMod[h] = "hav"
						}
					case "list":
						if listStep(id+key, x, y) {
							stable = false
						}
						if setSum(id+key, joinSum(sums[id+key], freshSum(bp.st, y))) {
							stable = false
						}
					case "ind":
						xi := x.(IntV)
						yi, ok := y.(IntV)
						if !ok || !yi.L.sub(xi.L).eq(hstep[h]) {
							heapMod[h], stable = "hav", false
						}
					}
				}
			}
		}
		if !stable {
			cands = nil
			continue
		}
		// facts preserved by every iteration
		if round < 13 && cands == nil {
			cands = r.inductive(build, p, backs, k, l)
			if len(cands) > 0 {
				stable = false
			} else {
				cands = []Lin{}
			}
		}
	}
	if !stable {
		panic(undecided("loop at %s of %s does not stabilise", posStr(e.P.Fset, l.head.Instrs[0].Pos()), r.fn))
	}
	q := build()
	preTrace := q.st.trace
	var exits []edgePath
	peel := e.Peel && l.headIf() != nil && len(arrMod) == 0 && len(heapMod) == 0
	leave := func(p *path) {
		for _, ep := range r.block(l.head, p) {
			if !l.blocks[ep.to] {
				exits = append(exits, ep)
			}
		}
	}
	if peel {
		leave(p.fork())
	}
	for _, ep := range r.run(l, l.head, []*path{q}) {
		if peel && ep.to != l.head && ep.p.pred == l.head {
			continue // taken from the entry and from the end of an arbitrary iteration instead
		}
		if peel && ep.to == l.head {
			leave(ep.p.fork())
		}
		if ep.to == l.head {
			if e.OnBack != nil && e.probing == 0 {
				e.CurK = k
				e.OnBack(ep.p.st, l, delta(preTrace, ep.p.st.trace))
			}
			continue
		}
		exits = append(exits, ep)
	}
	return exits
}

func delta(pre, cur *Ev) []*Ev {
	var r []*Ev
	for x := cur; x != nil && x != pre; x = x.prev {
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func linMul(step, k Lin) Lin {
	if !step.isConst() {
		panic(undecided("non-constant step"))
	}
	return k.mulC(step.C)
}

// inductive finds linear facts that hold on entry (k=0) and are preserved by every
// back edge. Candidates are the facts known at the back edges, moved one iteration.
func (r *regionRun) inductive(build func() *path, p *path, backs []*path, k *Term, l *loopInfo) []Lin {
	e := r.e
	if len(backs) == 0 {
		return nil
	}
	kl := linT(k)
	base := build()
	head := map[string]bool{}
	for _, f := range base.st.le {
		head[f.key()] = true
	}
	// terms that exist at the loop head
	known := map[*Term]bool{k: true}
	addT := func(l Lin) {
		for _, t := range l.T {
			known[t.T] = true
		}
	}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case IntV:
			addT(x.L)
		case SliceV:
			addT(x.Off)
			addT(x.Len)
			addT(x.Cap)
		case StrV:
			addT(x.Len)
		}
	}
	for _, v := range base.regs {
		walk(v)
	}
	for _, o := range base.st.heap {
		for _, v := range o.F {
			walk(v)
		}
	}
	for _, f := range base.st.le {
		addT(f)
	}
	for _, f := range base.st.eq {
		addT(f)
	}
	var cands []Lin
	seen := map[string]bool{}
	add := func(f Lin) {
		// f mentions k as the finished iteration; the next head has k' = k+1, k = k'-1
		if f.coef(k) == 0 {
			return
		}
		for _, t := range f.T {
			if !known[t.T] {
				return
			}
		}
		g := f.subst(k, kl.addC(-1))
		if seen[g.key()] {
			return
		}
		seen[g.key()] = true
		// must hold on entry
		if p.st.entailsLe(g.subst(k, linC(0))) {
			cands = append(cands, g)
		}
	}
	for _, f := range backs[0].st.le {
		add(f)
	}
	for _, f := range backs[0].st.eq {
		add(f)
		add(f.neg())
	}
	// preserved: at every back edge, cand[k := k+1] holds (assuming all candidates at the head)
	for changed := true; changed && len(cands) > 0; {
		changed = false
		e.probing++
		outs0 := len(r.outs)
		q := build()
		for _, c := range cands {
			q.st.addLe(c)
		}
		var bs []*path
		for _, ep := range r.run(l, l.head, []*path{q}) {
			if ep.to == l.head {
				bs = append(bs, ep.p)
			}
		}
		r.outs = r.outs[:outs0]
		e.probing--
		var keep []Lin
		for _, c := range cands {
			ok := true
			for _, b := range bs {
				if !b.st.entailsLe(c.subst(k, kl.addC(1))) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, c)
			} else {
				changed = true
			}
		}
		cands = keep
	}
	return append(cands, r.hull(base, p, backs, l)...)
}

// hull bounds the values a loop variable without a recurrence takes: each is the one
// on entry or one that some iteration leaves behind.
func (r *regionRun) hull(base, p *path, backs []*path, l *loopInfo) (out []Lin) {
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		h, ok := base.regs[phi].(IntV)
		if !ok || len(h.L.T) != 1 || h.L.C != 0 || h.L.T[0].K != 1 || !strings.HasPrefix(h.L.T[0].T.Op, "$h:") {
			continue
		}
		e0, ok := p.regs[phi].(IntV)
		if !ok {
			continue
		}
		lo, hi, hasLo, hasHi := p.st.bounds(e0.L)
		for _, b := range backs {
			v, ok := b.regs[phi].(IntV)
			if !ok {
				hasLo, hasHi = false, false
				break
			}
			l2, h2, o1, o2 := b.st.bounds(v.L)
			hasLo, hasHi = hasLo && o1, hasHi && o2
			lo, hi = min(lo, l2), max(hi, h2)
		}
		if hasLo && !base.st.entailsLe(linC(lo).sub(h.L)) {
			out = append(out, linC(lo).sub(h.L))
		}
		if hasHi && !base.st.entailsLe(h.L.addC(-hi)) {
			out = append(out, h.L.addC(-hi))
		}
	}
	return out
}

// havocList is a slice with unknown length and content (a list grown by a loop).
func (r *regionRun) havocList(st *State, name string, typ types.Type) Val {
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return symVal(mk(name), typ)
	}
	t := mk(name)
	ln := linT(lenTerm(t))
	cp := ln.add(linT(mkR("slack", &rng{0, 0, true, false}, TermV{T: t})))
	id := "A" + strings.TrimPrefix(name, "$")
	o := &Obj{ID: id, Kind: OArr, Typ: sl.Elem(), Sym: t, Len: cp, Alloc: true, F: map[string]Val{}, Tag: "list"}
	st.setObj(o)
	return SliceV{Obj: id, Off: linC(0), Len: ln, Cap: cp, Elem: sl.Elem()}
}

// famWrites: the writes one iteration adds to a byte array, if they form a family
// whose position depends on the iteration only linearly.
func famWrites(bo, no *Obj, k *Term) ([]Write, bool) {
	if bo.Hav != no.Hav || len(no.W) < len(bo.W) || bo.Sym != no.Sym {
		return nil, false
	}
	for i := range bo.W {
		if bo.W[i].key() != no.W[i].key() {
			return nil, false
		}
	}
	ws := no.W[len(bo.W):]
	for _, w := range ws {
		if w.Each != nil || len(ws) > 8 {
			return nil, false
		}
	}
	return ws, true
}

// famKeys counts the different write families of the back edges.
func famKeys(backs []*path, id string, bo *Obj) int {
	m := map[string]bool{}
	for _, b := range backs {
		o := b.st.obj(id)
		if o == nil || len(o.W) < len(bo.W) {
			return 2
		}
		s := ""
		for _, w := range o.W[len(bo.W):] {
			s += w.key() + ";"
		}
		m[s] = true
	}
	return len(m)
}

// whyApart prints, for some pairs of paths, what keeps them from being joined.
func (e *Engine) whyApart(info *fnInfo, b *ssa.BasicBlock, ps []*path) {
	for k := 0; k+1 < len(ps) && k < 40; k++ {
		p, q := ps[k], ps[k+1]
		switch {
		case p.pan != q.pan || !sameDefers(p.defers, q.defers):
			fmt.Println("apart: panic or defers")
			continue
		case p.st.trace != q.st.trace:
			var x, y []string
			for ev := p.st.trace; ev != nil; ev = ev.prev {
				x = append(x, ev.Kind)
			}
			for ev := q.st.trace; ev != nil; ev = ev.prev {
				y = append(y, ev.Kind)
			}
			fmt.Println("apart: events", x, y)
			continue
		case !headSame(p.st, q.st):
			fmt.Println("apart: locks", p.st.lockKey(), q.st.lockKey(), "ctx", p.st.ctx, q.st.ctx, "epoch", p.st.epoch, q.st.epoch, p.st.lep, q.st.lep)
			continue
		}
		j := &joiner{e: e, a: p.st, b: q.st}
		for v := range info.live[b] {
			x, y := p.regs[v], q.regs[v]
			if x != nil && y != nil && x.key() != y.key() && !j.soft(x, y) {
				fmt.Println("apart: register", v.Name(), v, show(x), show(y))
			}
		}
		for id, x := range p.st.heap {
			y := q.st.heap[id]
			if y == nil {
				y = symObjs[id]
			}
			if x == y || y == nil {
				continue
			}
			if _, ok := j.joinObj(x, y); !ok {
				fmt.Println("apart: object", id, x.Kind, x.Typ, x.contentKey(), "/", y.contentKey())
			}
		}
	}
}
