package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination: every loop reached has a ranking argument, and no function reaches itself.

func init() {
	register(&Check{ID: "C11", Level: "proof", Tech: "call-graph reachability and a ranking argument for every loop (induction variables, shrinking slices, list walks, consumed input) over the SSA form",
		Rule:  "From the decoders, encoders and every other method of every message type, the server's OnOpen, OnTraffic, OnClose and OnTick, the client's frame handling, senders and session selection, every reachable function of the workspace is collected, interface calls going to every implementation. No function reaches itself. Every loop of these functions has one of these arguments: it ranges over a value; a test met in every round compares a counter, which only moves towards the bound and cannot wrap around before reaching it, with a value the loop does not change; a slice or text tested for its length gets shorter in every round; it walks a list that it does not extend; every round takes an element off a list, or consumes input and leaves when there is none; or it waits for the clock to advance.",
		Assum: []string{"the system clock advances", "a round of the server's frame loop consumes a frame (S04)", "library functions return"},
		Run:   checkC11})
}

func checkC11(r *Report) {
	r.atLeast("loop", 15)
	r.atLeast("reached", 200)
	var roots []*ssa.Function
	for _, pk := range []string{"codec", "codec/cmpp", "codec/sgip", "codec/smgp", "utils", "utils/snowflake", "utils/snowflake32"} {
		for _, fn := range r.P.funcsOf(pk, func(*ssa.Function) bool { return true }) {
			if fn.Parent() == nil && fn.Name() != "init" {
				roots = append(roots, fn)
			}
		}
	}
	for _, n := range []string{"OnOpen", "OnTraffic", "OnClose", "OnTick"} {
		roots = append(roots, r.P.srvMethod(n))
	}
	t := r.P.cliTypes()
	for _, pk := range []string{sessPkg, cliPkg} {
		roots = append(roots, r.P.apiRoots(pk)...)
	}
	for _, fn := range r.P.funcsOf(sessPkg, func(*ssa.Function) bool { return true }) {
		if rv := fn.Signature.Recv(); rv != nil && fn.Parent() == nil && types.Identical(deref(rv.Type()), t.sess) {
			roots = append(roots, fn)
		}
	}
	r.loopsEnd(roots)
}

// reached are the workspace functions the roots may call, other than in a goroutine of their own.
func (p *Program) reached(roots []*ssa.Function) map[*ssa.Function][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	known := map[*ssa.Function]bool{}
	for _, f := range p.All {
		known[f] = true
	}
	impl := map[string][]*ssa.Function{}
	for _, f := range p.All {
		if f.Signature.Recv() != nil {
			impl[f.Name()] = append(impl[f.Name()], f)
		}
	}
	var todo []*ssa.Function
	todo = append(todo, roots...)
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if _, done := out[fn]; done || fn == nil {
			continue
		}
		out[fn] = nil
		add := func(f *ssa.Function) {
			if f != nil && (known[f] || f.Synthetic != "" && len(f.Blocks) > 0 && p.inWorkspace(f)) {
				out[fn] = append(out[fn], f)
				todo = append(todo, f)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					c := call.Common()
					if c.IsInvoke() {
						it, _ := c.Value.Type().Underlying().(*types.Interface)
						for _, f := range impl[c.Method.Name()] {
							if it != nil && types.Implements(f.Signature.Recv().Type(), it) {
								add(f)
							}
						}
					} else {
						add(c.StaticCallee())
					}
				}
				goes := false
				if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
					for _, u := range *v.Referrers() {
						if g, ok := u.(*ssa.Go); ok && g.Call.Value == v {
							goes = true
						}
					}
				}
				if goes {
					continue
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						if f, ok := v.Fn.(*ssa.Function); ok && !onlyGo(v) {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

func onlyGo(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		if g, ok := u.(*ssa.Go); !ok || g.Call.Value != v {
			return false
		}
	}
	return true
}

func (p *Program) inWorkspace(f *ssa.Function) bool {
	sp := p.pkgOf(f)
	for _, g := range p.All {
		if g.Pkg == sp && sp != nil {
			return true
		}
	}
	return false
}

// loopsEnd judges every loop and every cycle of calls reached.
func (r *Report) loopsEnd(roots []*ssa.Function) {
	g := r.P.reached(roots)
	var fns []*ssa.Function
	for f := range g {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, cyc := range callCycles(fns, g) {
		var ns []string
		for _, f := range cyc {
			ns = append(ns, fullName(f))
		}
		sort.Strings(ns)
		r.fail("recursion", ns[0], cyc[0].Pos(), strings.Join(ns, " "), "functions that call each other: "+strings.Join(ns, ", "))
	}
	w := &ranker{p: r.P, g: g, stores: map[*ssa.Function]map[string]bool{}}
	for _, f := range fns {
		r.ok("reached", "")
		if len(f.Blocks) == 0 {
			continue
		}
		info := r.P.info(f)
		var heads []*ssa.BasicBlock
		for b := range info.loops {
			heads = append(heads, b)
		}
		sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
		for n, b := range heads {
			l := info.loops[b]
			why := w.rank(l)
			pos := f.Pos()
			for _, blk := range f.Blocks {
				if l.blocks[blk] {
					for _, in := range blk.Instrs {
						if in.Pos().IsValid() && (pos == f.Pos() || in.Pos() < pos) {
							pos = in.Pos()
						}
					}
				}
			}
			if why == "" {
				r.fail("loop", fullName(f), pos, fmt.Sprintf("loop %d", n+1), "nothing shows that this loop ends: no counter moving to a bound it cannot skip or wrap past, no range, no slice that shrinks, no list walked or emptied, no input consumed")
			} else {
				r.ok("loop", fullName(f)+": "+why)
			}
		}
	}
	for _, f := range fns {
		r.Fns[f.String()] = true
	}
}

// callCycles are the sets of functions that reach themselves.
func callCycles(fns []*ssa.Function, g map[*ssa.Function][]*ssa.Function) (out [][]*ssa.Function) {
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		idx[f] = len(idx) + 1
		low[f] = idx[f]
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, q := range g[f] {
			self = self || q == f
			if idx[q] == 0 {
				visit(q)
				low[f] = min(low[f], low[q])
			} else if on[q] {
				low[f] = min(low[f], idx[q])
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				q := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[q] = false
				c = append(c, q)
				if q == f {
					break
				}
			}
			if len(c) > 1 || self {
				out = append(out, c)
			}
		}
	}
	for _, f := range fns {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

type ranker struct {
	p      *Program
	g      map[*ssa.Function][]*ssa.Function
	stores map[*ssa.Function]map[string]bool

	callers map[*ssa.Function][]*ssa.Function
	loose   map[*ssa.Function]bool
}

// rank names the argument why the loop ends, or is empty.
func (w *ranker) rank(l *loopInfo) string {
	for _, b := range l.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && w.everyRound(l, b) {
				if _, isR := n.Iter.(*ssa.Range); isR {
					return "ranges over a value"
				}
			}
		}
	}
	for _, b := range l.fn.Blocks {
		f, ok := lastIf(b)
		if !l.blocks[b] || !ok || !w.everyRound(l, b) || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			continue
		}
		cond, stay := f.Cond, l.blocks[b.Succs[0]]
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, stay = n.X, !stay
		}
		c, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if !stay {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		for _, s := range []struct {
			a, b ssa.Value
			op   token.Token
		}{{c.X, c.Y, op}, {c.Y, c.X, flip[op]}} {
			if why := w.test(l, s.a, s.b, s.op); why != "" {
				return why
			}
		}
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// cutting more off than there is would be a fault
		if w.everyLatch(l, ph, func(v ssa.Value) bool { return w.shorter(l, v, ph) }) {
			return "a slice or text gets shorter in every round"
		}
	}
	if w.consumes(l) {
		return "takes something off a list or an input in every round"
	}
	return ""
}

func lastIf(b *ssa.BasicBlock) (*ssa.If, bool) {
	if len(b.Instrs) == 0 {
		return nil, false
	}
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return f, ok
}

// everyRound: no round gets back to the head without passing the block.
func (w *ranker) everyRound(l *loopInfo, b *ssa.BasicBlock) bool {
	for _, q := range l.head.Preds {
		if l.blocks[q] && !b.Dominates(q) {
			return false
		}
	}
	return true
}

// test: the loop goes on only while "a op b" holds; does that end?
func (w *ranker) test(l *loopInfo, a, b ssa.Value, op token.Token) string {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
	default:
		return ""
	}
	// a slice or text that shrinks
	if s, ok := lenOfVal(a); ok {
		if k, isC := constOf64(b); isC && (op == token.GTR && k >= 0 || op == token.GEQ && k >= 1 || op == token.NEQ && k == 0) {
			if ph, ok := s.(*ssa.Phi); ok && ph.Block() == l.head && w.everyLatch(l, ph, func(v ssa.Value) bool { return w.shorter(l, v, ph) }) {
				return "a slice or text gets shorter in every round"
			}
		}
	}
	// a slice that grows by appending
	if s, ok := lenOfVal(a); ok && op == token.LSS && w.still(l, b) && w.grows(l, s) {
		return "a slice grows to a fixed length"
	}
	// a list walked
	if k, ok := b.(*ssa.Const); ok && k.IsNil() && op == token.NEQ {
		if ph, ok := a.(*ssa.Phi); ok && ph.Block() == l.head && !w.extends(l) && w.everyLatch(l, ph, func(v ssa.Value) bool { return w.nextOf(l, v, ph, 0) }) {
			return "walks a list"
		}
	}
	// waiting for the clock
	if w.clock(l, a, 0) && w.still(l, b) || w.clock(l, b, 0) && w.still(l, a) {
		return "waits for the clock to advance"
	}
	// a counter
	x, width := strip(a)
	ph, off, ok := w.counter(l, x)
	if !ok || !w.still(l, b) {
		return ""
	}
	_ = off
	var up, down, one bool
	up, down, one = true, true, true
	ok = w.everyLatch(l, ph, func(v ssa.Value) bool {
		d, k := w.step(l, v, ph, 0)
		up, down, one = up && d > 0, down && d < 0, one && k
		return d != 0
	})
	if !ok {
		return ""
	}
	bits, signed := intBits(ph.Type())
	if bits == 0 {
		return ""
	}
	lim := w.limit(b)
	if lim < 0 && bits == 64 && width == 64 {
		lim = -2 // unknown but the same width
	}
	maxv := int64(1)<<62 - 1
	if bits < 64 {
		maxv = int64(1)<<uint(bits) - 1
		if signed {
			maxv = int64(1)<<uint(bits-1) - 1
		}
	}
	same := sameWidth(b, bits, signed)
	switch {
	case up && op == token.LSS:
		if one && (same || lim >= 0 && lim <= maxv) {
			return "a counter rises to its bound"
		}
		if !one && lim >= 0 && lim <= maxv/2 {
			return "a counter rises to its bound"
		}
	case up && op == token.LEQ:
		if lim >= 0 && lim < maxv && (one || lim <= maxv/2) {
			return "a counter rises past its bound"
		}
	case down && op == token.GTR:
		if k, isC := constOf64(b); one && (same || isC && k >= 0) || isC && signed && k > -maxv/2 {
			return "a counter falls to its bound"
		} else if isC && k >= 0 && !signed && one {
			return "a counter falls to its bound"
		}
	case down && op == token.GEQ:
		if k, isC := constOf64(b); isC && (signed && k > -maxv/2 || !signed && one && k >= 1) {
			return "a counter falls past its bound"
		}
	}
	return ""
}

func constOf64(v ssa.Value) (int64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Int {
				return 0, false
			}
			return constant.Int64Val(x.Value)
		}
		return 0, false
	}
}

func lenOfVal(v ssa.Value) (ssa.Value, bool) {
	x, _ := strip(v)
	if c, ok := x.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && len(c.Call.Args) == 1 {
			return c.Call.Args[0], b.Name() == "len"
		}
	}
	return nil, false
}

func intBits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// strip removes conversions that keep the value; the width is that of the widest type met.
func strip(v ssa.Value) (ssa.Value, int) {
	wide, _ := intBits(v.Type())
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			f, fs := intBits(x.X.Type())
			t, ts := intBits(x.Type())
			if f == 0 || t == 0 || f > t || fs && !ts || f == t && fs != ts && f < 64 {
				return v, wide
			}
			v = x.X
			continue
		}
		return v, wide
	}
}

// sameWidth: the bound's own value fits the counter's type.
func sameWidth(b ssa.Value, bits int, signed bool) bool {
	x, _ := strip(b)
	f, fs := intBits(x.Type())
	return f != 0 && (f < bits || f == bits && fs == signed)
}

// limit is the largest value the bound may have, or -1.
func (w *ranker) limit(v ssa.Value) int64 {
	x, _ := strip(v)
	if k, ok := constOf64(x); ok {
		return max(k, 0)
	}
	if c, ok := x.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return 1 << 40
		}
	}
	if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB || b.Op == token.QUO || b.Op == token.REM || b.Op == token.MUL) {
		p, q := w.limit(b.X), w.limit(b.Y)
		switch {
		case p < 0 || q < 0 && b.Op != token.QUO:
			return -1
		case b.Op == token.ADD:
			return p + q
		case b.Op == token.MUL && (p < 1<<20 && q < 1<<40 || q < 1<<20 && p < 1<<40):
			return p * q
		case b.Op == token.MUL:
			return -1
		default:
			return p
		}
	}
	bits, signed := intBits(x.Type())
	switch {
	case bits == 0 || bits == 64:
		return -1
	case signed:
		return int64(1)<<uint(bits-1) - 1
	}
	return int64(1)<<uint(bits) - 1
}

// everyLatch: the condition holds for the value the variable gets on every way back to the head.
func (w *ranker) everyLatch(l *loopInfo, ph *ssa.Phi, ok func(ssa.Value) bool) bool {
	n := 0
	for i, q := range l.head.Preds {
		if l.blocks[q] {
			n++
			if !ok(ph.Edges[i]) {
				return false
			}
		}
	}
	return n > 0
}

// counter: the value is a variable of the loop's head, plus a constant.
func (w *ranker) counter(l *loopInfo, v ssa.Value) (*ssa.Phi, int64, bool) {
	var off int64
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			return x, off, x.Block() == l.head
		case *ssa.BinOp:
			k, isC := constOf64(x.Y)
			if !isC || x.Op != token.ADD && x.Op != token.SUB {
				return nil, 0, false
			}
			off += k
			v = x.X
			continue
		}
		return nil, 0, false
	}
}

// step: how the value relates to the variable at the head: above it (1), below it (-1) or unknown (0); one: by exactly one.
func (w *ranker) step(l *loopInfo, v ssa.Value, ph *ssa.Phi, depth int) (dir int, one bool) {
	if depth > 8 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return 0, false
		}
		base, inc := x.X, x.Y
		if x.Op == token.ADD && base != ssa.Value(ph) {
			if _, isC := constOf64(base); isC || inc == ssa.Value(ph) {
				base, inc = inc, base
			}
		}
		sign := 1
		if x.Op == token.SUB {
			sign = -1
		}
		k, isC := constOf64(inc)
		d := 0
		if isC && k > 0 || !isC && w.positive(l, inc, 0) {
			d = sign
		} else if isC && k < 0 {
			d = -sign
		}
		if d == 0 {
			return 0, false
		}
		if base == ssa.Value(ph) {
			return d, isC && (k == 1 || k == -1)
		}
		d2, _ := w.step(l, base, ph, depth+1)
		if d2 == d {
			return d, false
		}
	case *ssa.Phi:
		if x == ph || x.Block() == l.head || !l.blocks[x.Block()] {
			return 0, false
		}
		one = true
		for i, ed := range x.Edges {
			d, k := w.step(l, ed, ph, depth+1)
			if d == 0 || i > 0 && d != dir {
				return 0, false
			}
			dir, one = d, one && k
		}
		return dir, one
	}
	return 0, false
}

// positive: the value is at least one.
func (w *ranker) positive(l *loopInfo, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	x, _ := strip(v)
	if k, ok := constOf64(x); ok {
		return k > 0
	}
	switch x := x.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			for _, a := range x.Call.Args {
				if !w.positive(l, a, depth+1) {
					return false
				}
			}
			return true
		}
		if s, ok := lenOfVal(x); ok {
			return w.nonEmpty(l, s)
		}
	case *ssa.Phi:
		if x.Block() == l.head {
			return false
		}
		for _, ed := range x.Edges {
			if !w.positive(l, ed, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return w.argsPositive(x, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return w.positive(l, x.X, depth+1) && w.natural(x.Y, depth+1) || w.positive(l, x.Y, depth+1) && w.natural(x.X, depth+1)
		}
	}
	return false
}

// argsPositive: every call of the function passes at least one.
func (w *ranker) argsPositive(x *ssa.Parameter, depth int) bool {
	if w.callers == nil {
		w.callers, w.loose = w.p.callersOf()
	}
	f := x.Parent()
	i := -1
	for k, q := range f.Params {
		if q == x {
			i = k
		}
	}
	if i < 0 || w.loose[f] || len(w.callers[f]) == 0 {
		return false
	}
	for _, c := range w.callers[f] {
		for _, b := range c.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != f {
					continue
				}
				a := call.Common().Args[i]
				if a == ssa.Value(x) {
					continue // handed on unchanged
				}
				if k, ok := constOf64(a); ok && k > 0 {
					continue
				}
				if ph, ok := a.(*ssa.Phi); ok {
					all := true
					for _, ed := range ph.Edges {
						k, ok := constOf64(ed)
						all = all && ok && k > 0
					}
					if all {
						continue
					}
				}
				if q, ok := a.(*ssa.Parameter); ok && depth < 4 && w.argsPositive(q, depth+1) {
					continue
				}
				return false
			}
		}
	}
	return true
}

// natural: the value is not negative and far from overflow.
func (w *ranker) natural(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	if k, ok := constOf64(v); ok {
		return k >= 0
	}
	x, _ := strip(v)
	if _, ok := lenOfVal(x); ok {
		return true
	}
	bits, signed := intBits(x.Type())
	if bits != 0 && bits < 64 && !signed {
		tb, _ := intBits(v.Type())
		return tb > bits
	}
	if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.MUL) {
		return w.natural(b.X, depth+1) && w.natural(b.Y, depth+1)
	}
	return false
}

// grows: every round appends to the slice, a variable of the loop or the field of something the loop holds fixed.
func (w *ranker) grows(l *loopInfo, s ssa.Value) bool {
	longer := func(v ssa.Value, is func(ssa.Value) bool) bool {
		c, ok := v.(*ssa.Call)
		if !ok || len(c.Call.Args) != 2 {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || !is(c.Call.Args[0]) {
			return false
		}
		sl, ok := c.Call.Args[1].(*ssa.Slice) // the elements given one by one
		if !ok || sl.Low != nil || sl.High != nil {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		return ok && at.Len() > 0
	}
	if ph, ok := s.(*ssa.Phi); ok && ph.Block() == l.head {
		return w.everyLatch(l, ph, func(v ssa.Value) bool {
			return longer(v, func(x ssa.Value) bool { return x == ssa.Value(ph) })
		})
	}
	ld, ok := s.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || !fixedIn(l, fa.X) {
		return false
	}
	same := func(a ssa.Value) bool {
		x, ok := a.(*ssa.FieldAddr)
		return ok && x.X == fa.X && x.Field == fa.Field
	}
	key := cellKey(fa)
	stored := false
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if same(x.Addr) {
					if !longer(x.Val, func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && same(u.X)
					}) {
						return false
					}
					stored = stored || w.everyRound(l, b)
				} else if k := cellKey(x.Addr); k == "" || k == key {
					if _, elem := x.Addr.(*ssa.IndexAddr); !elem {
						return false
					}
				}
			case ssa.CallInstruction:
				if f := x.Common().StaticCallee(); f != nil {
					if w.storesOf(f)[key] {
						return false
					}
				} else if _, isB := x.Common().Value.(*ssa.Builtin); !isB {
					return false
				}
			}
		}
	}
	return stored
}

// fixedIn: the value does not change while the loop runs.
func fixedIn(l *loopInfo, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !l.blocks[in.Block()]
}

// nonEmpty: a test met in every round leaves the loop when the slice is empty.
func (w *ranker) nonEmpty(l *loopInfo, s ssa.Value) bool {
	for b := range l.blocks {
		f, ok := lastIf(b)
		if !ok || !w.everyRound(l, b) || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			continue
		}
		c, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		q, ok := lenOfVal(c.X)
		k, isC := constOf64(c.Y)
		if !ok || !isC || q != s {
			continue
		}
		in := l.blocks[b.Succs[0]]
		switch {
		case in && (c.Op == token.GTR && k >= 0 || c.Op == token.GEQ && k > 0 || c.Op == token.NEQ && k == 0),
			!in && (c.Op == token.EQL && k == 0 || c.Op == token.LEQ && k >= 0 || c.Op == token.LSS && k > 0):
			return true
		}
	}
	return false
}

// shorter: the value is the variable with at least one element cut off its front (or its end).
func (w *ranker) shorter(l *loopInfo, v ssa.Value, ph *ssa.Phi) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		base := x.X == ssa.Value(ph) || w.shorter(l, x.X, ph)
		if !base || x.Max != nil {
			return false
		}
		if x.Low != nil && x.High == nil {
			return w.positive(l, x.Low, 0) || x.X != ssa.Value(ph)
		}
		if x.Low == nil && x.High != nil {
			b, ok := x.High.(*ssa.BinOp)
			if ok && b.Op == token.SUB {
				s, isLen := lenOfVal(b.X)
				return isLen && s == x.X && w.positive(l, b.Y, 0)
			}
		}
	case *ssa.Phi:
		if x == ph || x.Block() == l.head {
			return false
		}
		for _, ed := range x.Edges {
			if !w.shorter(l, ed, ph) {
				return false
			}
		}
		return true
	}
	return false
}

func calleeName(v ssa.Instruction) string {
	c, ok := v.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if c.Common().IsInvoke() {
		return "iface " + c.Common().Method.Name()
	}
	if f := c.Common().StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// nextOf: the value is the list element after (or before) the variable.
func (w *ranker) nextOf(l *loopInfo, v ssa.Value, ph *ssa.Phi, depth int) bool {
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeName(x)
		return (n == "(*container/list.Element).Next" || n == "(*container/list.Element).Prev") && x.Call.Args[0] == ssa.Value(ph)
	case *ssa.Phi:
		if x == ph || depth > 4 {
			return false
		}
		for _, ed := range x.Edges {
			if !w.nextOf(l, ed, ph, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// calls lists the functions a loop may call, itself or through workspace functions.
func (w *ranker) calls(l *loopInfo, visit func(in ssa.Instruction, name string)) {
	seen := map[*ssa.Function]bool{}
	var in func(f *ssa.Function)
	look := func(i ssa.Instruction) {
		if n := calleeName(i); n != "" {
			visit(i, n)
		}
		if c, ok := i.(ssa.CallInstruction); ok {
			if c.Common().IsInvoke() {
				for _, q := range w.g[l.fn] {
					if q.Name() == c.Common().Method.Name() {
						in(q)
					}
				}
			} else {
				in(c.Common().StaticCallee())
			}
		}
	}
	in = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if _, ok := w.g[f]; !ok {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				look(i)
			}
		}
		for _, q := range w.g[f] {
			in(q)
		}
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			look(i)
		}
	}
}

// extends: the loop may add to a list.
func (w *ranker) extends(l *loopInfo) (yes bool) {
	w.calls(l, func(_ ssa.Instruction, n string) {
		if strings.HasPrefix(n, "(*container/list.List).") {
			m := n[len("(*container/list.List)."):]
			yes = yes || strings.HasPrefix(m, "Push") || strings.HasPrefix(m, "Insert") || strings.HasPrefix(m, "Move")
		}
	})
	return yes
}

// clock: the value is the present time, read again in every round.
func (w *ranker) clock(l *loopInfo, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == l.head && w.everyLatch(l, x, func(q ssa.Value) bool { return w.now(q, 0) })
	case *ssa.Convert:
		return w.clock(l, x.X, depth+1)
	case *ssa.Call:
		return l.blocks[x.Block()] && w.now(x, 0)
	case *ssa.BinOp:
		return l.blocks[x.Block()] && w.now(x, 0)
	}
	return false
}

// now: the value is computed from a reading of the clock and constants.
func (w *ranker) now(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return w.now(x.X, depth+1)
	case *ssa.Extract:
		return w.now(x.Tuple, depth+1)
	case *ssa.BinOp:
		_, isC := constOf64(x.Y)
		if g, ok := x.Y.(*ssa.UnOp); ok {
			_, isG := g.X.(*ssa.Global)
			isC = isC || isG
		}
		switch x.Op {
		case token.ADD, token.SUB:
			return (isC || w.now(x.Y, depth+1)) && w.now(x.X, depth+1)
		case token.QUO, token.MUL:
			return isC && w.now(x.X, depth+1)
		}
		return false
	case *ssa.Call:
		n := calleeName(x)
		if n == "time.Now" || n == "time.Since" {
			return true
		}
		if strings.HasPrefix(n, "(time.Time).") || strings.HasPrefix(n, "(time.Duration).") {
			return w.now(x.Call.Args[0], depth+1)
		}
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			if _, ok := w.g[f]; !ok {
				return false
			}
			rets := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if rt, ok := in.(*ssa.Return); ok {
						rets++
						if len(rt.Results) != 1 || !w.now(rt.Results[0], depth+1) {
							return false
						}
					}
				}
			}
			return rets > 0
		}
	}
	return false
}

// still: the value does not change while the loop runs.
func (w *ranker) still(l *loopInfo, v ssa.Value) bool { return w.stillV(l, v, 0) }

func (w *ranker) stillV(l *loopInfo, v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	case ssa.Instruction:
		if !l.blocks[x.Block()] {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return w.stillV(l, x.X, depth+1)
	case *ssa.ChangeType:
		return w.stillV(l, x.X, depth+1)
	case *ssa.BinOp:
		return w.stillV(l, x.X, depth+1) && w.stillV(l, x.Y, depth+1)
	case *ssa.Field:
		return w.stillV(l, x.X, depth+1)
	case *ssa.FieldAddr:
		return w.stillV(l, x.X, depth+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
			for _, a := range x.Call.Args {
				if !w.stillV(l, a, depth+1) {
					return false
				}
			}
			return true
		}
		// a getter of something that stays
		if f := x.Call.StaticCallee(); f != nil && w.pureRead(l, f) {
			for _, a := range x.Call.Args {
				if !w.stillV(l, a, depth+1) {
					return false
				}
			}
			return true
		}
		return w.reflectSize(l, x, depth)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return w.stillV(l, x.X, depth+1)
		}
		if !w.stillV(l, x.X, depth+1) {
			return false
		}
		k := cellKey(x.X)
		return k != "" && !w.written(l)[k]
	}
	return false
}

// reflectSize: the number of fields of a type does not change.
func (w *ranker) reflectSize(l *loopInfo, x *ssa.Call, depth int) bool {
	switch calleeName(x) {
	case "(reflect.Value).NumField", "(reflect.Value).Len", "(reflect.Value).NumMethod":
		return w.stillV(l, x.Call.Args[0], depth+1)
	case "iface NumField", "iface NumMethod":
		return w.stillV(l, x.Call.Value, depth+1)
	}
	return false
}

// pureRead: a function of one block that only loads what the loop does not write.
func (w *ranker) pureRead(l *loopInfo, f *ssa.Function) bool {
	if _, ok := w.g[f]; !ok || len(f.Blocks) != 1 {
		return false
	}
	wr := w.written(l)
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.Field, *ssa.Return, *ssa.Convert, *ssa.BinOp:
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if k := cellKey(x.X); k == "" || wr[k] {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// cellKey names the memory an address stands for: a field of a type, or a variable.
func cellKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", deref(x.X.Type()).String(), x.Field)
	case *ssa.Global:
		return "G " + x.String()
	case *ssa.Alloc:
		return fmt.Sprintf("L %s %s", x.Parent().String(), x.Name())
	case *ssa.FreeVar:
		return fmt.Sprintf("V %s %s", x.Parent().String(), x.Name())
	}
	return ""
}

// written is the memory the loop may write, itself or in what it calls.
func (w *ranker) written(l *loopInfo) map[string]bool {
	out := map[string]bool{}
	add := func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if k := cellKey(s.Addr); k != "" {
			out[k] = true
		}
		// a whole value is overwritten with its fields
		if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					out[fmt.Sprintf("%s.%d", pt.Elem().String(), i)] = true
				}
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			add(in)
		}
	}
	w.calls(l, func(in ssa.Instruction, _ string) {
		if c, ok := in.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil {
				for k := range w.storesOf(f) {
					out[k] = true
				}
			} else {
				for _, q := range w.g[l.fn] {
					for k := range w.storesOf(q) {
						out[k] = true
					}
				}
			}
		}
	})
	return out
}

// storesOf is the memory a function writes, itself or in what it calls.
func (w *ranker) storesOf(f *ssa.Function) map[string]bool {
	if m, ok := w.stores[f]; ok {
		return m
	}
	m := map[string]bool{}
	w.stores[f] = m
	if _, ok := w.g[f]; !ok {
		return m
	}
	l := &loopInfo{fn: f, blocks: map[*ssa.BasicBlock]bool{}}
	for _, b := range f.Blocks {
		l.blocks[b] = true
	}
	for k := range w.written(l) {
		m[k] = true
	}
	return m
}

// consumes: every round takes an element off a list it does not extend, or reads input and leaves when that fails.
func (w *ranker) consumes(l *loopInfo) bool {
	ext := w.extends(l)
	takes := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			n := calleeName(in)
			switch {
			case n == "(*container/list.List).Remove" && !ext:
				return true
			case n == "":
			case w.inputCall(l, in):
				return true
			}
		}
		return false
	}
	// is there a way from the head back to it that takes nothing? Tests on a value fixed by the way in are followed one way only.
	type at struct{ b, from *ssa.BasicBlock }
	seen := map[at]bool{}
	todo := []at{}
	for _, q := range l.head.Preds {
		todo = append(todo, at{l.head, q})
	}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] || takes(x.b) {
			continue
		}
		seen[x] = true
		for i, s := range x.b.Succs {
			if !l.blocks[s] {
				continue
			}
			if f, ok := lastIf(x.b); ok {
				if v, known := threaded(f.Cond, x.b, x.from); known && v != (i == 0) {
					continue
				}
			}
			if s == l.head {
				return false
			}
			todo = append(todo, at{s, x.b})
		}
	}
	return true
}

// threaded evaluates a test whose outcome the way into the block fixes.
func threaded(cond ssa.Value, b, from *ssa.BasicBlock) (bool, bool) {
	val := func(v ssa.Value) (constant.Value, bool) {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
			for i, q := range b.Preds {
				if q == from {
					v = ph.Edges[i]
				}
			}
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			return c.Value, true
		}
		if o, ok := v.(*ssa.BinOp); ok {
			x, ok1 := o.X.(*ssa.Const)
			y, ok2 := o.Y.(*ssa.Const)
			if ok1 && ok2 && x.Value != nil && y.Value != nil && (o.Op == token.ADD || o.Op == token.SUB) {
				return constant.BinaryOp(x.Value, o.Op, y.Value), true
			}
		}
		return nil, false
	}
	neg := false
	for {
		n, ok := cond.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		cond, neg = n.X, !neg
	}
	if c, ok := cond.(*ssa.BinOp); ok {
		x, ok1 := val(c.X)
		y, ok2 := val(c.Y)
		if ok1 && ok2 && x.Kind() == y.Kind() {
			switch c.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.Compare(x, c.Op, y) != neg, true
			}
		}
		return false, false
	}
	if v, ok := val(cond); ok && v.Kind() == constant.Bool {
		return constant.BoolVal(v) != neg, true
	}
	return false, false
}

// inputCall: a call that consumes input or fails, whose failure leaves the loop.
func (w *ranker) inputCall(l *loopInfo, in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok || !w.takesInput(c, 0) {
		return false
	}
	// the error (or the flag) it returns
	var errs []ssa.Value
	switch t := c.Type().(type) {
	case *types.Tuple:
		for _, u := range *c.Referrers() {
			if x, ok := u.(*ssa.Extract); ok && (types.Identical(x.Type(), types.Universe.Lookup("error").Type()) || isBool(x.Type())) {
				errs = append(errs, x)
			}
		}
		_ = t
	default:
		errs = append(errs, c)
	}
	for k := 0; k < len(errs); k++ {
		for _, u := range *errs[k].Referrers() {
			if ph, ok := u.(*ssa.Phi); ok && l.blocks[ph.Block()] && len(errs) < 20 && !hasVal(errs, ph) {
				errs = append(errs, ph)
			}
			if w.leavesOn(l, u, errs[k], !isBool(errs[k].Type()), 0) {
				return true
			}
		}
	}
	return false
}

func hasVal(vs []ssa.Value, v ssa.Value) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// leavesOn: the use is a test of the value that leaves the loop when it tells of a failure; bad is
// what the value is then: true for an error that is not nil, false for a flag that is off.
func (w *ranker) leavesOn(l *loopInfo, u ssa.Instruction, v ssa.Value, bad bool, depth int) bool {
	if depth > 3 {
		return false
	}
	switch x := u.(type) {
	case *ssa.If:
		s := x.Block().Succs
		if !l.blocks[x.Block()] {
			return false
		}
		if bad {
			return !l.blocks[s[0]] && l.blocks[s[1]]
		}
		return !l.blocks[s[1]] && l.blocks[s[0]]
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.anyUse(l, x, !bad, depth)
		}
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		if !ok || x.X != v || x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		switch {
		case k.IsNil(): // the error is not nil when bad
			return w.anyUse(l, x, x.Op == token.NEQ, depth)
		case k.Value != nil && k.Value.Kind() == constant.Bool:
			return w.anyUse(l, x, (constant.BoolVal(k.Value) == bad) == (x.Op == token.EQL), depth)
		}
	}
	return false
}

func (w *ranker) anyUse(l *loopInfo, v ssa.Value, bad bool, depth int) bool {
	for _, u := range *v.Referrers() {
		if w.leavesOn(l, u, v, bad, depth+1) {
			return true
		}
	}
	return false
}

// takesInput: a successful call has consumed at least one byte of a finite input or one received frame.
func (w *ranker) takesInput(c *ssa.Call, depth int) bool {
	if depth > 4 {
		return false
	}
	switch n := calleeName(c); n {
	case "io.ReadFull", "io.ReadAtLeast":
		// into a buffer of constant, positive size
		x, _ := strip(c.Call.Args[1])
		switch b := x.(type) {
		case *ssa.Slice:
			_, isA := b.X.(*ssa.Alloc)
			if b.High != nil {
				k, ok := constOf64(b.High)
				isA = isA && ok && k > 0
			}
			return isA && b.Low == nil
		case *ssa.MakeSlice:
			k, ok := constOf64(b.Len)
			return ok && k > 0
		}
		return false
	case "encoding/binary.Read":
		if m, ok := c.Call.Args[2].(*ssa.MakeInterface); ok {
			if pt, ok := m.X.Type().Underlying().(*types.Pointer); ok {
				switch u := pt.Elem().Underlying().(type) {
				case *types.Basic:
					return true
				case *types.Struct:
					return u.NumFields() > 0
				case *types.Array:
					return u.Len() > 0
				}
			}
		}
		return false
	case "iface ReadByte", "(*bytes.Buffer).ReadByte", "(*bytes.Reader).ReadByte", "(*bufio.Reader).ReadByte", "iface Discard", "iface Next":
		return true
	}
	// a workspace function whose every successful way has such a call
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if _, ok := w.g[f]; !ok {
		return false
	}
	var found bool
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if q, ok := in.(*ssa.Call); ok && w.takesInput(q, depth+1) {
				// every way past it or through its failure reports failure
				found = found || failsUnless(f, q)
			}
		}
	}
	return found
}

// failsUnless: every return of the function that is reached without the call, or after the call failed, reports failure.
func failsUnless(f *ssa.Function, q *ssa.Call) bool {
	var errs []ssa.Value // what the call says about its failure
	if _, isT := q.Type().(*types.Tuple); isT {
		for _, u := range *q.Referrers() {
			if x, ok := u.(*ssa.Extract); ok && (types.Identical(x.Type(), types.Universe.Lookup("error").Type()) || isBool(x.Type())) {
				errs = append(errs, x)
			}
		}
	} else if q.Type() != nil && (types.Identical(q.Type(), types.Universe.Lookup("error").Type()) || isBool(q.Type())) {
		errs = append(errs, q)
	}
	isE := func(v ssa.Value) bool { return hasVal(errs, v) }
	// test: the outcome of a condition in the world where the call failed
	var test func(v ssa.Value, depth int) (bool, bool)
	test = func(v ssa.Value, depth int) (bool, bool) {
		if depth > 4 {
			return false, false
		}
		if isE(v) && isBool(v.Type()) {
			return false, true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				r, ok := test(x.X, depth+1)
				return !r, ok
			}
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if ok && k.IsNil() && isE(x.X) && (x.Op == token.EQL || x.Op == token.NEQ) {
				return x.Op == token.NEQ, true
			}
		}
		return false, false
	}
	type at struct {
		b, from *ssa.BasicBlock
		failed  bool
	}
	var surely func(v ssa.Value, x at, depth int) bool
	surely = func(v ssa.Value, x at, depth int) bool {
		if depth > 6 {
			return false
		}
		if x.failed && isE(v) {
			return true
		}
		if r, ok := test(v, 0); ok && x.failed && isBool(v.Type()) {
			return !r
		}
		// on the far side of "v is not nil"
		if rs := v.Referrers(); rs != nil {
			for _, u := range *rs {
				c, ok := u.(*ssa.BinOp)
				if !ok || c.X != v {
					continue
				}
				k, ok := c.Y.(*ssa.Const)
				if !ok || !k.IsNil() || c.Op != token.EQL && c.Op != token.NEQ {
					continue
				}
				for _, uu := range *c.Referrers() {
					if i, ok := uu.(*ssa.If); ok {
						s := i.Block().Succs[0]
						if c.Op == token.EQL {
							s = i.Block().Succs[1]
						}
						if len(s.Preds) == 1 && (s.Dominates(x.b) || x.from != nil && s.Dominates(x.from)) {
							return true
						}
					}
				}
			}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && v.Value.Kind() == constant.Bool && !constant.BoolVal(v.Value)
		case *ssa.MakeInterface:
			return true
		case *ssa.Call:
			switch calleeName(v) {
			case "fmt.Errorf", "errors.New":
				return true
			}
		case *ssa.UnOp:
			_, isG := v.X.(*ssa.Global)
			return v.Op == token.MUL && isG
		case *ssa.Phi:
			for i, e := range v.Edges {
				if v.Block() == x.b && v.Block().Preds[i] != x.from {
					continue
				}
				if !surely(e, x, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	seen := map[at]bool{}
	todo := []at{{f.Blocks[0], nil, false}}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.b == q.Block() {
			if calleeName(q) == "iface Discard" {
				continue // takes what there is
			}
			x.failed = true // succeeded is fine
		}
		switch t := x.b.Instrs[len(x.b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(t.Results) == 0 || !surely(t.Results[len(t.Results)-1], x, 0) {
				return false
			}
		case *ssa.If:
			for i, s := range x.b.Succs {
				if r, ok := test(t.Cond, 0); ok && x.failed && r != (i == 0) {
					continue
				}
				todo = append(todo, at{s, x.b, x.failed})
			}
		default:
			for _, s := range x.b.Succs {
				todo = append(todo, at{s, x.b, x.failed})
			}
		}
	}
	return true
}
