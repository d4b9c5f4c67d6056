package main

// Linear forms over terms, and the linear-inequality abstract domain
// (constraint representation; entailment by Fourier-Motzkin elimination with
// integer tightening). No external solver is involved.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic quantity or an opaque value.
type Term struct {
	ID           int
	Key          string
	Op           string
	Args         []Val
	HasLo, HasHi bool
	Lo, Hi       int64
	Ax           []Lin // facts (each <= 0) that hold wherever the term is used
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, show(a))
	}
	return t.Op + "(" + strings.Join(p, ",") + ")"
}

type LT struct {
	T *Term
	K int64
}

type Lin struct {
	C int64
	T []LT
}

func linC(c int64) Lin      { return Lin{C: c} }
func linT(t *Term) Lin      { return Lin{T: []LT{{t, 1}}} }
func (l Lin) isConst() bool { return len(l.T) == 0 }

func (l Lin) key() string {
	var b strings.Builder
	b.WriteString(strconv.FormatInt(l.C, 10))
	for _, t := range l.T {
		fmt.Fprintf(&b, "+%d*%d", t.K, t.T.ID)
	}
	return b.String()
}

func (l Lin) String() string {
	var p []string
	for _, t := range l.T {
		if t.K == 1 {
			p = append(p, t.T.String())
		} else {
			p = append(p, fmt.Sprintf("%d*%s", t.K, t.T))
		}
	}
	if l.C != 0 || len(p) == 0 {
		p = append(p, strconv.FormatInt(l.C, 10))
	}
	return strings.Join(p, "+")
}

const big = int64(1) << 61

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || r > big || r < -big {
		return 0, false
	}
	return r, true
}

func addOK(a, b int64) (int64, bool) {
	r := a + b
	if r > big || r < -big || (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r > 0) {
		return 0, false
	}
	return r, true
}

// add returns l + k*m; ok is false on coefficient overflow.
func (l Lin) addK(k int64, m Lin) (Lin, bool) {
	c, ok := mulOK(k, m.C)
	if !ok {
		return Lin{}, false
	}
	c, ok = addOK(l.C, c)
	if !ok {
		return Lin{}, false
	}
	r := Lin{C: c, T: make([]LT, 0, len(l.T)+len(m.T))}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].T.ID < m.T[j].T.ID):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].T.ID < l.T[i].T.ID:
			x, ok := mulOK(k, m.T[j].K)
			if !ok {
				return Lin{}, false
			}
			if x != 0 {
				r.T = append(r.T, LT{m.T[j].T, x})
			}
			j++
		default:
			x, ok := mulOK(k, m.T[j].K)
			if !ok {
				return Lin{}, false
			}
			x, ok = addOK(x, l.T[i].K)
			if !ok {
				return Lin{}, false
			}
			if x != 0 {
				r.T = append(r.T, LT{l.T[i].T, x})
			}
			i++
			j++
		}
	}
	return r, true
}

func (l Lin) add(m Lin) Lin {
	r, ok := l.addK(1, m)
	if !ok {
		panic(undecided("linear overflow"))
	}
	return r
}
func (l Lin) sub(m Lin) Lin {
	r, ok := l.addK(-1, m)
	if !ok {
		panic(undecided("linear overflow"))
	}
	return r
}
func (l Lin) addC(c int64) Lin { return l.add(linC(c)) }
func (l Lin) mulC(k int64) Lin {
	r, ok := linC(0).addK(k, l)
	if !ok {
		panic(undecided("linear overflow"))
	}
	return r
}
func (l Lin) neg() Lin      { return l.mulC(-1) }
func (l Lin) eq(m Lin) bool { return l.key() == m.key() }
func (l Lin) coef(t *Term) int64 {
	for _, x := range l.T {
		if x.T == t {
			return x.K
		}
	}
	return 0
}

// subst replaces t by m in l.
func (l Lin) subst(t *Term, m Lin) Lin {
	k := l.coef(t)
	if k == 0 {
		return l
	}
	r := Lin{C: l.C}
	for _, x := range l.T {
		if x.T != t {
			r.T = append(r.T, x)
		}
	}
	return r.add(m.mulC(k))
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// tighten divides an inequality l<=0 by the gcd of its coefficients.
func tighten(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	r := Lin{C: -floorDiv(-l.C, g)}
	// sum k x + C <= 0  <=>  sum (k/g) x <= floor(-C/g)
	for _, t := range l.T {
		r.T = append(r.T, LT{t.T, t.K / g})
	}
	return r
}

type Lins struct {
	le []Lin // each <= 0
	eq []Lin // each == 0
	ne []Lin // each != 0
}

// interval bounds of a linear form from term ranges only
func rangeOf(l Lin) (lo, hi int64, hasLo, hasHi bool) {
	lo, hi, hasLo, hasHi = l.C, l.C, true, true
	for _, t := range l.T {
		tl, th, hl, hh := t.T.Lo, t.T.Hi, t.T.HasLo, t.T.HasHi
		if t.K < 0 {
			tl, th, hl, hh = th, tl, hh, hl
		}
		if hl && hasLo {
			x, ok := mulOK(t.K, tl)
			if ok {
				lo, ok = addOK(lo, x)
			}
			hasLo = ok
		} else {
			hasLo = false
		}
		if hh && hasHi {
			x, ok := mulOK(t.K, th)
			if ok {
				hi, ok = addOK(hi, x)
			}
			hasHi = ok
		} else {
			hasHi = false
		}
	}
	return
}

// infeasible reports that the conjunction has no integer solution (sound, incomplete).
func infeasible(le, eq []Lin) bool {
	// gaussian elimination of equalities with a unit coefficient
	le = append([]Lin(nil), le...)
	eqs := append([]Lin(nil), eq...)
	type def struct {
		t *Term
		m Lin
	}
	terms := map[*Term]bool{}
	for _, l := range le {
		for _, t := range l.T {
			terms[t.T] = true
		}
	}
	for _, l := range eqs {
		for _, t := range l.T {
			terms[t.T] = true
		}
	}
	// ranges of all terms take part
	ts := make([]*Term, 0, len(terms))
	for t := range terms {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, t := range ts {
		if t.HasLo {
			le = append(le, Lin{C: t.Lo, T: []LT{{t, -1}}})
		}
		if t.HasHi {
			le = append(le, Lin{C: -t.Hi, T: []LT{{t, 1}}})
		}
	}
	for len(eqs) > 0 {
		// pick one with unit coef
		pi, pt := -1, (*Term)(nil)
		var pk int64
		for i, e := range eqs {
			if len(e.T) == 0 {
				if e.C != 0 {
					return true
				}
				continue
			}
			g := int64(0)
			for _, t := range e.T {
				g = gcd(g, t.K)
			}
			if g > 1 && e.C%g != 0 {
				return true
			}
			for _, t := range e.T {
				if t.K == 1 || t.K == -1 {
					pi, pt, pk = i, t.T, t.K
					break
				}
			}
			if pi >= 0 {
				break
			}
		}
		if pi < 0 {
			for _, e := range eqs {
				if len(e.T) > 0 {
					le = append(le, e, mustNeg(e))
				}
			}
			break
		}
		e := eqs[pi]
		// pk*pt + rest = 0 -> pt = -pk*rest
		rest := Lin{C: e.C}
		for _, t := range e.T {
			if t.T != pt {
				rest.T = append(rest.T, t)
			}
		}
		m, ok := linC(0).addK(-pk, rest)
		if !ok {
			return false
		}
		var ne []Lin
		for i, x := range eqs {
			if i != pi {
				y, ok := substOK(x, pt, m)
				if !ok {
					return false
				}
				ne = append(ne, y)
			}
		}
		eqs = ne
		for i := range le {
			y, ok := substOK(le[i], pt, m)
			if !ok {
				return false
			}
			le[i] = y
		}
	}
	return fm(le)
}

func mustNeg(l Lin) Lin { return l.neg() }

func substOK(l Lin, t *Term, m Lin) (Lin, bool) {
	k := l.coef(t)
	if k == 0 {
		return l, true
	}
	r := Lin{C: l.C}
	for _, x := range l.T {
		if x.T != t {
			r.T = append(r.T, x)
		}
	}
	return r.addK(k, m)
}

func coefKey(l Lin) string {
	var b strings.Builder
	for _, t := range l.T {
		fmt.Fprintf(&b, "%d*%d,", t.K, t.T.ID)
	}
	return b.String()
}

// simplify keeps the strongest constant per coefficient vector.
func simplifyLe(le []Lin) (out []Lin, contra bool) {
	idx := map[string]int{}
	for _, l := range le {
		l = tighten(l)
		if len(l.T) == 0 {
			if l.C > 0 {
				return nil, true
			}
			continue
		}
		k := coefKey(l)
		if i, ok := idx[k]; ok {
			if l.C > out[i].C {
				out[i] = l
			}
			continue
		}
		idx[k] = len(out)
		out = append(out, l)
	}
	return out, false
}

const fmLimit = 600

func fm(le []Lin) bool {
	le, contra := simplifyLe(le)
	if contra {
		return true
	}
	for {
		if len(le) == 0 {
			return false
		}
		// choose the variable with least pos*neg product
		type cnt struct{ p, n int }
		m := map[*Term]*cnt{}
		for _, l := range le {
			for _, t := range l.T {
				c := m[t.T]
				if c == nil {
					c = &cnt{}
					m[t.T] = c
				}
				if t.K > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		var best *Term
		bestC := math.MaxInt
		for t, c := range m {
			s := c.p*c.n - c.p - c.n
			if s < bestC || (s == bestC && t.ID < best.ID) {
				best, bestC = t, s
			}
		}
		if best == nil {
			return false
		}
		var pos, neg, rest []Lin
		for _, l := range le {
			k := l.coef(best)
			switch {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(pos)*len(neg)+len(rest) > fmLimit {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.coef(best), -n.coef(best)
				g := gcd(a, b)
				x, ok := linC(0).addK(b/g, p)
				if !ok {
					continue
				}
				y, ok := x.addK(a/g, n)
				if !ok {
					continue
				}
				rest = append(rest, y)
			}
		}
		le, contra = simplifyLe(rest)
		if contra {
			return true
		}
	}
}

// relevant selects the facts connected to the goal through shared terms.
func (f *Lins) relevant(goal Lin) (le, eq []Lin) {
	seen := map[*Term]bool{}
	var see func(l Lin)
	see = func(l Lin) {
		for _, t := range l.T {
			if !seen[t.T] {
				seen[t.T] = true
				for _, a := range t.T.Ax {
					le = append(le, a)
					see(a)
				}
			}
		}
	}
	see(goal)
	usedLe := make([]bool, len(f.le))
	usedEq := make([]bool, len(f.eq))
	for changed := true; changed; {
		changed = false
		scan := func(ls []Lin, used []bool) {
			for i, l := range ls {
				if used[i] {
					continue
				}
				hit := false
				for _, t := range l.T {
					if seen[t.T] {
						hit = true
						break
					}
				}
				if hit {
					used[i] = true
					changed = true
					see(l)
				}
			}
		}
		scan(f.le, usedLe)
		scan(f.eq, usedEq)
	}
	for i, u := range usedLe {
		if u {
			le = append(le, f.le[i])
		}
	}
	for i, u := range usedEq {
		if u {
			eq = append(eq, f.eq[i])
		}
	}
	return
}

// entailsLe: facts => l <= 0
func (f *Lins) entailsLe(l Lin) bool {
	if _, hi, _, ok := rangeOf(l); ok && hi <= 0 {
		return true
	}
	if l.isConst() {
		return l.C <= 0
	}
	if lo, _, ok, _ := rangeOf(l); ok && lo > 0 {
		// refuted by ranges alone: entailed only if facts are contradictory
		return false
	}
	ng := l.neg().addC(1) // l >= 1
	le, eq := f.relevant(l)
	return infeasible(append(le, ng), eq)
}

func (f *Lins) entailsEq(l Lin) bool {
	if l.isConst() {
		return l.C == 0
	}
	return f.entailsLe(l) && f.entailsLe(l.neg())
}

func (f *Lins) entailsNe(l Lin) bool {
	if l.isConst() {
		return l.C != 0
	}
	k, nk := l.key(), l.neg().key()
	for _, n := range f.ne {
		if x := n.key(); x == k || x == nk {
			return true
		}
	}
	le, eq := f.relevant(l)
	if infeasible(le, append(eq, l)) {
		return true
	}
	return false
}

// constOf returns the value of l if the facts pin it.
func (f *Lins) constOf(l Lin) (int64, bool) {
	if l.isConst() {
		return l.C, true
	}
	if len(f.eq) > 0 {
		r := l
		for i := 0; i < 4; i++ {
			ch := false
			for _, e := range f.eq {
				if len(e.T) == 1 && (e.T[0].K == 1 || e.T[0].K == -1) {
					if r.coef(e.T[0].T) != 0 {
						r = r.subst(e.T[0].T, linC(-e.C*e.T[0].K))
						ch = true
					}
				}
			}
			if !ch {
				break
			}
		}
		if r.isConst() {
			return r.C, true
		}
	}
	// single candidate from ranges / facts: try bounds
	lo, hi, a, b := f.bounds(l)
	if a && b && lo == hi {
		return lo, true
	}
	return 0, false
}

// bounds gives cheap interval bounds using term ranges refined by one-term facts.
func (f *Lins) bounds(l Lin) (lo, hi int64, hasLo, hasHi bool) {
	lo, hi, hasLo, hasHi = l.C, l.C, true, true
	for _, t := range l.T {
		tl, th, hl, hh := t.T.Lo, t.T.Hi, t.T.HasLo, t.T.HasHi
		upd := func(e Lin, isEq bool) {
			if len(e.T) != 1 || e.T[0].T != t.T {
				return
			}
			k, c := e.T[0].K, e.C
			if k > 0 { // k t <= -c
				v := floorDiv(-c, k)
				if !hh || v < th {
					th, hh = v, true
				}
			}
			if k < 0 { // t >= ceil(c/-k)
				v := -floorDiv(-c, -k)
				if !hl || v > tl {
					tl, hl = v, true
				}
			}
		}
		for _, e := range f.le {
			upd(e, false)
		}
		for _, e := range f.eq {
			upd(e, true)
			if len(e.T) == 1 {
				upd(e.neg(), true)
			}
		}
		if t.K < 0 {
			tl, th, hl, hh = th, tl, hh, hl
		}
		if hl && hasLo {
			x, ok := mulOK(t.K, tl)
			if ok {
				lo, ok = addOK(lo, x)
			}
			hasLo = ok
		} else {
			hasLo = false
		}
		if hh && hasHi {
			x, ok := mulOK(t.K, th)
			if ok {
				hi, ok = addOK(hi, x)
			}
			hasHi = ok
		} else {
			hasHi = false
		}
	}
	return
}

// upper is the least constant found to bound l from above (all facts used).
func (f *Lins) upper(l Lin) (int64, bool) {
	if l.isConst() {
		return l.C, true
	}
	const big = 1 << 17
	holds := func(c int64) bool { return f.entailsLe(l.addC(-c)) }
	hi := int64(big)
	if _, h, _, ok := f.bounds(l); ok {
		hi = h
	} else if !holds(hi) {
		return 0, false
	}
	lo := hi - 2*big
	if holds(lo) {
		return lo, true
	}
	for hi-lo > 1 { // holds(hi), not holds(lo)
		m := lo + (hi-lo)/2
		if holds(m) {
			hi = m
		} else {
			lo = m
		}
	}
	return hi, true
}

func (f *Lins) tight(l Lin) (lo, hi int64, hasLo, hasHi bool) {
	hi, hasHi = f.upper(l)
	lo, hasLo = f.upper(l.neg())
	return -lo, hi, hasLo, hasHi
}

type undecidedErr struct{ msg string }

func undecided(f string, a ...any) undecidedErr { return undecidedErr{fmt.Sprintf(f, a...)} }
