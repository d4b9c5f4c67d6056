package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "S14", Level: "proof", Tech: "abstract interpretation (proof obligations on every access)",
		Rule:  "OnTraffic is interpreted for every protocol, every command number and arbitrary frame bytes, and OnOpen, OnClose, OnTick, OnBoot and OnShutdown for every protocol, with nothing skipped: every index, slice bound, division, nil dereference, type assertion, channel or slice size and ticker period on the way is an obligation, and so is that the handler returns. A pointer may be taken as set only where a rule shows it: the field is stored wherever the structure is created and never cleared; the global is stored by start-up code on every way; a field relied on after the session was seen logged-in is stored under the same hold as every step to logged-in (login-fills); the session is attached by OnOpen and taken off only by OnClose (session-kept).",
		Assum: []string{"gnet calls OnBoot first, OnOpen before the first OnTraffic of a connection, and no OnTraffic after its OnClose", "RemoteAddr of a live connection is not nil", "text conversions of an empty text give no bytes", "memory is not exhausted"},
		Run:   checkS14})
}

// extPre: what a library function demands of its arguments.
func (e *Engine) extPre(c *CallCtx) bool {
	if c.Sig == nil || c.Fn == nil {
		return true
	}
	if rv := c.Fn.Signature.Recv(); rv != nil && len(c.Args) > 0 {
		if _, isP := rv.Type().Underlying().(*types.Pointer); isP {
			if !e.oblige(c.St, "nil", e.isNil(c.St, c.Args[0]).not(), c.Pos, "receiver of "+c.Name+" not nil") {
				return false
			}
		}
	}
	switch c.Name {
	case "time.NewTicker", "(*time.Ticker).Reset":
		if i, ok := c.Args[len(c.Args)-1].(IntV); ok {
			return e.oblige(c.St, "period", cLe(linC(1), i.L), c.Pos, "period of the ticker positive")
		}
	}
	return true
}

// faultFree makes the engine prove every access.
func (r *Report) faultFree(e *Engine, given func(st *State, t *Term) bool) {
	e.Oblige, e.ExtPre = true, true
	emptied := r.P.emptyGuarded()
	e.Given = func(st *State, c Cond, pos token.Pos) bool {
		if emptied[pos] {
			return true
		}
		k := c.not()
		if k.K != CTerm || k.T == nil || k.T.Op != "isnil" || len(k.T.Args) != 1 {
			return false
		}
		x, ok := k.T.Args[0].(TermV)
		return ok && given(st, x.T)
	}
}

// startGlobals are the package variables that start-up code gives a value and nothing else changes.
func (r *Report) startGlobals(not string) map[string]bool {
	p := r.P
	boot := r.atStart(not)
	out := map[string]bool{}
	for _, fn := range p.All {
		if sp := p.pkgOf(fn); sp != nil && not != "" && strings.Contains(sp.Pkg.Path()+"/", not) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if _, seen := out[g.String()]; !seen {
					out[g.String()] = true
				}
				if k, isC := s.Val.(*ssa.Const); isC && k.IsNil() || !boot[fn] || !r.onEveryWay(b, fn) {
					out[g.String()] = false
				}
			}
		}
	}
	return out
}

// lastGate is the session state last read on the loop for the connection's own session.
func lastGate(st *State, t *srvTypes) Val {
	for ev := st.trace; ev != nil; ev = ev.prev {
		if fieldEv(ev, "rd", "session"+t.stat) && ownSess(ev.Args[0]) && (ev.Ctx == "loop") {
			return ev.Args[1]
		}
	}
	return nil
}

func checkS14(r *Report) {
	p := r.P
	r.atLeast("fault", 100)
	r.atLeast("session-kept", 1)
	r.atLeast("login-fills", 3)
	t := p.srvTypes()
	set := r.startGlobals("smc_client/")
	always := map[string]bool{}
	for f := range r.alwaysSet(t.sess) {
		always["session"+f] = true
	}
	srv := p.typ(srvPkg, "Server")
	for f := range r.alwaysSet(srv) {
		always["Server"+f] = true
	}
	atLogin := map[string]bool{} // fields of the session relied upon because it is logged in
	given := func(st *State, x *Term) bool {
		switch {
		case strings.HasPrefix(x.Op, "global:"):
			return set[strings.TrimPrefix(x.Op, "global:")]
		case strings.HasPrefix(x.Op, "$") && strings.HasSuffix(x.Op, "init#0"):
			return true // computed once by the initialisation of its package
		case strings.HasPrefix(x.Op, "$iface v2.Conn.RemoteAddr"), strings.HasPrefix(x.Op, "ext:(reflect.Value).Type"):
			return true
		case x.Op == "fld" && len(x.Args) == 2:
			s := x.String()
			lit, ok := x.Args[1].(Lit)
			f := string(lit)
			if !ok {
				return false
			}
			for n, who := range map[string]*types.Named{"session": t.sess, "Server": srv} {
				if strings.Contains(s, who.String()+"(") || strings.Contains(s, who.String()+").") {
					// as:*T(..), or the receiver of a method of T
					if always[n+f] {
						return true
					}
				}
			}
			if g := lastGate(st, t); g != nil && stateIs(st, g, t.login) && strings.Contains(s, mk("connctx", connArg()).String()) {
				atLogin[f] = true
				return true
			}
		}
		return false
	}
	events := []string{"rd", "wr", "setctx"}
	arm := func(e *Engine) {
		r.faultFree(e, given)
		e.Skip = nil
	}
	noPanic := func(root string, ends []srvEnd) {
		for _, x := range ends {
			r.check(!x.panic, "returns", root, 0, "panic", root+" can end in a panic")
		}
	}
	var logins []*srvCase
	r.srvCases(events, func(string, int64) bool { return true },
		func(c *srvCase) {
			arm(c.e)
			c.e.Start = func(st *State) {
				ctx := mk("connctx", connArg())
				ty := types.NewPointer(t.sess)
				is := mk("is:"+ty.String(), TermV{T: ctx})
				isTypes[is.Op] = ty
				st.assume(cTerm(mk("isnil", TermV{T: ctx})).not())
				st.assume(cTerm(is))
			}
		},
		func(c *srvCase) {
			r.takeObls(c.e, "fault")
			noPanic("OnTraffic", c.ends)
			if c.role == "login" {
				logins = append(logins, c)
			}
		})
	for _, c := range logins {
		for k := range c.ends {
			x := &c.ends[k]
			for i, w := range x.evs {
				if !fieldEv(w, "wr", "session"+t.stat) || !stateIs(x.st, w.Args[1], t.login) {
					continue
				}
				for _, f := range sortedKeys(atLogin) {
					given := false
					for j, v := range x.evs {
						if fieldEv(v, "wr", "session"+f) && v.Args[0].(PtrV).Obj == w.Args[0].(PtrV).Obj {
							if _, isNil := v.Args[1].(NilV); !isNil && (j < i || v.Locks == w.Locks) {
								given = true
							}
						}
					}
					r.check(given, "login-fills", p.funcAt(w.Pos), w.Pos, f, c.name+": a session is marked logged-in without its "+f[1:]+", which handlers use on logged-in sessions, being made")
				}
			}
		}
	}
	for _, fn := range p.All {
		for _, in := range instrs(fn) {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), t.sess) {
				continue
			}
			f := "." + t.sess.Underlying().(*types.Struct).Field(fa.Field).Name()
			if k, isC := s.Val.(*ssa.Const); isC && k.IsNil() && atLogin[f] {
				r.fail("login-fills", fn.String(), s.Pos(), "cleared "+f, "a session's "+f[1:]+" is cleared while handlers may still use it")
			}
		}
	}
	for _, m := range []string{"OnOpen", "OnClose", "OnTick", "OnBoot", "OnShutdown"} {
		for _, n := range srvNames {
			r.guard(m, func() {
				e := r.srvEngine(events...)
				r.srvTrack(e, t, t.stat)
				arm(e)
				ends := r.srvRoot(p.srvMethod(m), e, n)
				r.takeObls(e, "fault")
				noPanic(m, ends)
				if m != "OnOpen" {
					return
				}
				for k := range ends {
					x := &ends[k]
					if p.action(x) == "close" {
						continue
					}
					var last *Ev
					for _, ev := range x.all("setctx") {
						last = ev
					}
					good := false
					if last != nil {
						if iv, isI := last.Args[1].(IfaceV); isI && types.Identical(deref(iv.T), t.sess) {
							good = x.st.holds(e.isNil(x.st, iv.V).not())
						}
					}
					r.check(good, "session-kept", m, p.srvMethod(m).Pos(), "context", "a connection is opened without its session being attached to it")
				}
			})
		}
	}
	// nothing takes the session off a connection that still receives
	onClose := p.reached([]*ssa.Function{p.srvMethod("OnClose")})
	onOpen := p.reached([]*ssa.Function{p.srvMethod("OnOpen")})
	for _, fn := range p.funcsOf(srvPkg, func(*ssa.Function) bool { return true }) {
		_, a := onClose[fn]
		_, b := onOpen[fn]
		for _, in := range instrs(fn) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !c.Common().IsInvoke() || c.Common().Method.Name() != "SetContext" {
				continue
			}
			_, isNil := c.Common().Args[0].(*ssa.Const)
			r.check(a && !b || b && !isNil, "session-kept", fn.String(), in.Pos(), "setctx", "the session of a connection is replaced by code other than OnOpen and OnClose")
		}
	}
}

func instrs(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		out = append(out, b.Instrs...)
	}
	return out
}

// alwaysSet are the fields that every place creating the structure gives a value, on every way,
// and that nothing clears.
func (r *Report) alwaysSet(t *types.Named) map[string]bool {
	out := map[string]bool{}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		default:
			continue
		}
		ok, made := true, 0
		for _, fn := range r.P.All {
			var stores []*ssa.Store
			var news []*ssa.Alloc
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Alloc:
						if types.Identical(deref(x.Type()), t) {
							news = append(news, x)
						}
					case *ssa.Store:
						if fa, isF := x.Addr.(*ssa.FieldAddr); isF && fa.Field == i && types.Identical(deref(fa.X.Type()), t) {
							stores = append(stores, x)
						}
					}
				}
			}
			for _, s := range stores {
				if k, isC := s.Val.(*ssa.Const); isC && k.IsNil() {
					ok = false
				}
			}
			for _, a := range news {
				made++
				found := false
				for _, s := range stores {
					if s.Addr.(*ssa.FieldAddr).X == a && r.onEveryWay(s.Block(), fn) {
						found = true
					}
					if s.Addr.(*ssa.FieldAddr).X == a && beforeUse(a, s, i) {
						found = true
					}
				}
				ok = ok && (found || r.handedTo(a, fn, i, t, 0))
			}
		}
		if ok && made > 0 {
			out["."+f.Name()] = true
		}
	}
	return out
}

// beforeUse: nothing but fields of the new structure is used before the store.
func beforeUse(a ssa.Value, s ssa.Instruction, field int) bool {
	for _, u := range *a.Referrers() {
		switch u.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
			continue
		}
		if u == s || untouched(u, a, field, 0) {
			continue
		}
		if u.Block() == s.Block() {
			for _, in := range s.Block().Instrs {
				if in == s {
					break
				}
				if in == u {
					return false
				}
			}
			continue
		}
		if !s.Block().Dominates(u.Block()) {
			return false
		}
	}
	return true
}

// untouched: the use is a call of a function that does nothing with the field.
func untouched(u ssa.Instruction, a ssa.Value, field, depth int) bool {
	c, ok := u.(*ssa.Call)
	if !ok || depth > 3 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || c.Call.Value == a {
		return false
	}
	for i, x := range c.Call.Args {
		if x != a || i >= len(f.Params) {
			continue
		}
		for _, v := range *f.Params[i].Referrers() {
			fa, ok := v.(*ssa.FieldAddr)
			if ok && fa.Field != field {
				continue
			}
			if _, ok := v.(*ssa.DebugRef); !ok && !untouched(v, f.Params[i], field, depth+1) {
				return false
			}
		}
	}
	return true
}

// handedTo: the new structure is passed, on every way, to a function that stores its field i on every way.
func (r *Report) handedTo(a ssa.Value, fn *ssa.Function, i int, t *types.Named, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		every := r.onEveryWay(b, fn)
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !every && !beforeUse(a, c, i) {
				continue
			}
			f := c.Call.StaticCallee()
			for k, x := range c.Call.Args {
				if x != a || f == nil || k >= len(f.Params) {
					continue
				}
				q := f.Params[k]
				for _, y := range instrs(f) {
					if s, ok := y.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == q && fa.Field == i && types.Identical(deref(q.Type()), t) && r.onEveryWay(s.Block(), f) {
							return true
						}
					}
				}
				if r.handedTo(q, f, i, t, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// atStart are the functions that only start-up calls and that every start calls.
func (r *Report) atStart(not string) map[*ssa.Function]bool {
	boot := r.P.bootOnly()
	out := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, fn := range r.P.All {
		sp := r.P.pkgOf(fn)
		if sp == nil || not != "" && strings.Contains(sp.Pkg.Path()+"/", not) || fn.Parent() != nil {
			continue
		}
		if n := fn.Name(); n == "init" || strings.HasPrefix(n, "init#") || n == "main" && sp.Pkg.Name() == "main" {
			todo = append(todo, fn)
		}
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if fn == nil || out[fn] || !boot[fn] {
			continue
		}
		out[fn] = true
		for _, b := range fn.Blocks {
			if fn.Name() != "init" && !r.onEveryWay(b, fn) {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				todo = append(todo, f)
				if f != nil && f.String() == "(*sync.Once).Do" {
					switch x := c.Call.Args[1].(type) {
					case *ssa.MakeClosure:
						todo = append(todo, x.Fn.(*ssa.Function))
					case *ssa.Function:
						todo = append(todo, x)
					}
				}
			}
		}
	}
	return out
}

// onEveryWay: the block lies on every way to a return.
func (r *Report) onEveryWay(b *ssa.BasicBlock, fn *ssa.Function) bool {
	for _, x := range fn.Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if _, isR := x.Instrs[len(x.Instrs)-1].(*ssa.Return); isR && x != fn.Recover && !b.Dominates(x) {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "C12", Level: "proof", Tech: "abstract interpretation (proof obligations on every access)",
		Rule:  "Every exported function of the protocol packages that builds a message, and every method that builds one message from another, is interpreted for arbitrary arguments; every index, slice bound, division, nil dereference, type assertion and allocation size on the way is an obligation, and so is that the function returns. The same for every per-message option applied to arbitrary options.",
		Assum: []string{"pointers handed in are not nil, and no option is", "the identifier generators are set (start-up does; nothing else assigns them)", "encoding an empty text gives no bytes", "a message that another is built from was built here or decoded (C10 covers the decoded ones)"},
		Run:   checkC12})
}

func checkC12(r *Report) {
	p := r.P
	r.atLeast("fault", 60)
	set := r.startGlobals("")
	pdu := p.iface("codec", "Pdu")
	builds := func(sg *types.Signature) bool {
		for i := 0; i < sg.Results().Len(); i++ {
			t := sg.Results().At(i).Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			if types.Implements(t, pdu) || types.Implements(types.NewPointer(t), pdu) {
				return true
			}
		}
		return false
	}
	n := 0
	run := func(fn *ssa.Function) {
		n++
		r.root(fn)
		r.guard(fullName(fn), func() {
			e := NewEngine(p)
			r.faultFree(e, func(st *State, x *Term) bool {
				return strings.HasPrefix(x.Op, "global:") && (set[strings.TrimPrefix(x.Op, "global:")] || !strings.HasPrefix(strings.TrimPrefix(x.Op, "global:"), modPath)) ||
					strings.HasPrefix(x.Op, "ext:(reflect.Value).Type") || x.Op == "elem" && len(x.Args) > 0 && strings.HasPrefix(show(x.Args[0]), "arg:")
			})
			e.NonNil = func(o *Obj) bool { return true }
			e.Skip = returnsLogFields
			args := symArgs(e, fn)
			outs := e.Run(fn, args, nil, newState(p.base), fn.Pos())
			// an option is a function over the options
			for _, o := range outs {
				if len(o.Res) != 1 {
					continue
				}
				f, isF := o.Res[0].(FuncV)
				if !isF || o.Panic {
					continue
				}
				for _, q := range e.Run(f.Fn, symArgs(e, f.Fn), f.Bind, o.St, f.Fn.Pos()) {
					r.check(!q.Panic, "returns", fn.String(), fn.Pos(), "option panics", fullName(fn)+": the option can panic")
				}
			}
			r.takeObls(e, "fault")
			r.done(e, len(outs))
			r.ends(fn, outs)
		})
	}
	for _, pk := range protoPkgs {
		for _, fn := range p.funcsOf(pk, func(f *ssa.Function) bool {
			return f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported()
		}) {
			if builds(fn.Signature) {
				run(fn)
			}
		}
	}
	for _, fn := range p.funcsOf("codec", func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() == nil && f.Signature.Results().Len() == 1
	}) {
		if _, isF := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature); isF {
			run(fn)
		}
	}
	r.check(n >= 35, "fault", "codec", 0, "count", "too few message builders and options were found")
}

// emptyGuarded are the cuts x[:len(x)-1] met only while the encoded form of x has bytes.
func (p *Program) emptyGuarded() map[token.Pos]bool {
	out := map[token.Pos]bool{}
	for _, fn := range p.All {
		for _, in := range instrs(fn) {
			s, ok := in.(*ssa.Slice)
			if !ok || s.Low != nil || s.Max != nil || s.High == nil {
				continue
			}
			h, ok := s.High.(*ssa.BinOp)
			if !ok || h.Op != token.SUB || !isLenOf(h.X, s.X) {
				continue
			}
			if k, isC := h.Y.(*ssa.Const); !isC || k.Int64() != 1 {
				continue
			}
			for _, b := range fn.Blocks {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				c, ok := iff.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				for i, next := range b.Succs {
					if len(next.Preds) != 1 || !next.Dominates(s.Block()) {
						continue
					}
					if l := notEmpty(c, i == 0); l != nil && madeFrom(l, s.X, 0) {
						out[s.Pos()] = true
					}
				}
			}
		}
	}
	return out
}

// notEmpty: the value that the outcome of a comparison shows to have at least one element.
func notEmpty(c *ssa.BinOp, outcome bool) ssa.Value {
	op, x, y := c.Op, c.X, c.Y
	if !outcome {
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op = neg[op]
	}
	if _, isC := x.(*ssa.Const); isC {
		rev := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.NEQ: token.NEQ, token.EQL: token.EQL}
		op, x, y = rev[op], y, x
	}
	k, isC := y.(*ssa.Const)
	l, isL := x.(*ssa.Call)
	if !isC || !isL || k.Value == nil || len(l.Call.Args) != 1 || !isLenOf(l, l.Call.Args[0]) {
		return nil
	}
	n := k.Int64()
	if op == token.GTR && n >= 0 || op == token.GEQ && n >= 1 || op == token.NEQ && n == 0 || op == token.EQL && n >= 1 {
		return l.Call.Args[0]
	}
	return nil
}

func isLenOf(v, x ssa.Value) bool {
	if a, ok := v.(*ssa.Phi); ok {
		b, ok := x.(*ssa.Phi)
		if !ok || a.Block() != b.Block() {
			return false
		}
		for i, e := range a.Edges {
			if e == v || !isLenOf(e, b.Edges[i]) {
				return false
			}
		}
		return true
	}
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 || c.Call.Args[0] != x {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// madeFrom: y is empty when x is.
func madeFrom(y, x ssa.Value, depth int) bool {
	if y == x {
		return true
	}
	if depth > 8 {
		return false
	}
	if c, ok := x.(*ssa.Convert); ok && madeFrom(y, c.X, depth+1) {
		return true
	}
	switch v := y.(type) {
	case *ssa.Convert:
		return madeFrom(v.X, x, depth+1)
	case *ssa.ChangeType:
		return madeFrom(v.X, x, depth+1)
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok || v.Index != 0 {
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil || !hasStr([]string{"utils.Utf8ToUcs2", "utils.Utf8ToGB18030", "(*golang.org/x/text/encoding.Encoder).String", "(*golang.org/x/text/encoding.Encoder).Bytes"}, fullName(f)) {
			return false
		}
		return madeFrom(c.Call.Args[len(c.Call.Args)-1], x, depth+1)
	case *ssa.Phi:
		xp, same := x.(*ssa.Phi)
		same = same && xp.Block() == v.Block()
		for i, e := range v.Edges {
			t := x
			if same {
				t = xp.Edges[i]
			}
			if !madeFrom(e, t, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}
