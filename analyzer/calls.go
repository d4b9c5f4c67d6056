package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallCtx describes one call being interpreted.
type CallCtx struct {
	E      *Engine
	St     *State
	Name   string // full name of the callee, e.g. (*sync.Mutex).Lock or iface gnet.Conn.Close
	Fn     *ssa.Function
	Args   []Val
	Sig    *types.Signature
	Pos    token.Pos
	Caller *ssa.Function
}

func (c *CallCtx) ret(st *State, vs ...Val) []Outcome { return []Outcome{{St: st, Res: vs}} }

// res builds fresh results of the callee's signature.
func (c *CallCtx) res(st *State, what string) []Val {
	var r []Val
	rs := c.Sig.Results()
	for i := 0; i < rs.Len(); i++ {
		r = append(r, symVal(c.E.fresh(st, what+"/"+strconv.Itoa(i), c.Pos), rs.At(i).Type()))
	}
	return r
}

var errNil = NilV{}

func (c *CallCtx) errVal(st *State, what string) Val {
	return TermV{T: mk("nonnil:err:"+what, TermV{T: c.E.fresh(st, "err:"+what, c.Pos)}), Typ: types.Universe.Lookup("error").Type()}
}

// callee evaluates the called value and the arguments (receiver first).
func (r *regionRun) callee(p *path, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fn Val
	if cc.IsInvoke() {
		args = append(args, r.val(p, cc.Value))
	} else {
		fn = r.val(p, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, r.val(p, a))
	}
	return fn, args
}

func (r *regionRun) callInstr(x *ssa.Call, p *path) []*path {
	fn, args := r.callee(p, &x.Call)
	var out []*path
	outs := r.e.call(p.st, fn, args, &x.Call, x.Pos(), r.fn)
	for i, o := range outs {
		q := p
		if i < len(outs)-1 || len(outs) > 1 {
			q = p.fork()
		}
		q.st = o.St
		if o.Panic {
			r.unwind(q)
			continue
		}
		switch len(o.Res) {
		case 0:
		case 1:
			if x.Call.Signature().Results().Len() == 1 || isBuiltin(&x.Call) {
				q.regs[x] = o.Res[0]
			} else {
				q.regs[x] = TupleV(o.Res)
			}
		default:
			q.regs[x] = TupleV(o.Res)
		}
		out = append(out, q)
	}
	return out
}

func isBuiltin(cc *ssa.CallCommon) bool { _, ok := cc.Value.(*ssa.Builtin); return ok }

// call interprets a call and returns the possible outcomes.
func (e *Engine) call(st *State, fn Val, args []Val, cc *ssa.CallCommon, pos token.Pos, caller *ssa.Function) []Outcome {
	c := &CallCtx{E: e, St: st, Args: args, Pos: pos, Caller: caller}
	if cc != nil {
		c.Sig = cc.Signature()
	}
	if f, ok := fn.(FuncV); ok {
		c.Fn, c.Name = f.Fn, fullName(f.Fn)
	}
	e.Calls++
	if e.CrashAt != nil && e.probing == 0 && e.deferred == 0 && e.CrashAt(st, c) {
		f := st.fork()
		e.event(f, "crashed", pos, "", nil)
		return append(e.callTo(c, fn, cc), Outcome{St: f, Panic: true})
	}
	return e.callTo(c, fn, cc)
}

func (e *Engine) callTo(c *CallCtx, fn Val, cc *ssa.CallCommon) []Outcome {
	st, args, pos := c.St, c.Args, c.Pos
	_ = args
	if cc != nil && cc.IsInvoke() && fn == nil {
		return e.invoke(c, cc)
	}
	switch f := fn.(type) {
	case FuncV:
		return e.callFn(c, f)
	case BuiltinV:
		return e.builtin(c, f.B.Name(), cc)
	case NilV:
		e.oblige(st, "nil", cFalse, pos, "called function not nil")
		return nil
	case TermV:
		if f.Typ != nil {
			if s, ok := f.Typ.Underlying().(*types.Signature); ok {
				c.Sig = s
			}
		}
		if strings.HasPrefix(f.T.Op, "global:github.com/hrygo/log.") {
			c.Name = strings.TrimPrefix(f.T.Op, "global:")
			return e.external(c)
		}
		c.Name = "dynamic:" + f.T.String()
		if e.Oblige {
			if !e.oblige(st, "nil", cTerm(mk("isnil", TermV{T: f.T})).not(), pos, "called function not nil") {
				return nil
			}
		}
		e.event(st, "dyncall", pos, "", nil, append([]Val{f}, args...)...)
		return e.opaqueCall(c)
	}
	panic(undecided("call of %s", show(fn)))
}

func (e *Engine) invoke(c *CallCtx, cc *ssa.CallCommon) []Outcome {
	recv := c.Args[0]
	switch x := recv.(type) {
	case NilV:
		e.oblige(c.St, "nil", cFalse, c.Pos, "receiver not nil")
		return nil
	case IfaceV:
		m := e.P.Prog.LookupMethod(x.T, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			panic(undecided("no method %s on %s", cc.Method.Name(), x.T))
		}
		c.Args = append([]Val{x.V}, c.Args[1:]...)
		return e.callFn(c, FuncV{Fn: m})
	case TermV:
		if t := c.St.dynType(x.T); t != nil {
			if m := e.P.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.Args = append([]Val{symVal(mk("as:"+t.String(), TermV{T: x.T}), t)}, c.Args[1:]...)
				return e.callFn(c, FuncV{Fn: m})
			}
		}
		tn := cc.Value.Type().String()
		c.Name = "iface " + shortType(tn) + "." + cc.Method.Name()
		if e.Oblige {
			if !e.oblige(c.St, "nil", cTerm(mk("isnil", TermV{T: x.T})).not(), c.Pos, "receiver of "+shortType(tn)+"."+cc.Method.Name()+" not nil") {
				return nil
			}
		} else if !c.St.assume(cTerm(mk("isnil", TermV{T: x.T})).not()) && !strings.HasPrefix(x.T.Op, "nonnil") {
			return nil
		}
		if h, ok := e.CallHook[c.Name]; ok {
			if outs, ok := h(e, c); ok {
				return outs
			}
		}
		return e.external(c)
	}
	panic(undecided("invoke on %s", show(recv)))
}

// isTypes are the concrete types tested for by type assertions.
var isTypes = map[string]types.Type{}

// dynType is the concrete type an interface value was found to have.
func (st *State) dynType(t *Term) types.Type {
	for b, v := range st.bools {
		if v && strings.HasPrefix(b.Op, "is:") && len(b.Args) == 1 {
			if a, ok := b.Args[0].(TermV); ok && a.T == t && isTypes[b.Op] != nil {
				return isTypes[b.Op]
			}
		}
	}
	return nil
}

func shortType(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func fullName(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), modPath, "") }

// returnsLogFields: helpers that only build log fields.
func returnsLogFields(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if strings.Contains(rs.At(i).Type().String(), "zapcore.Field") || strings.Contains(rs.At(i).Type().String(), "zap.Field") {
			return true
		}
	}
	return false
}

func (e *Engine) callFn(c *CallCtx, f FuncV) []Outcome {
	c.Fn = f.Fn
	c.Name = fullName(f.Fn)
	if c.Sig == nil || c.Sig.Recv() != nil {
		c.Sig = f.Fn.Signature
	}
	if e.initOf != nil && f.Fn.Parent() == nil && (f.Fn.Name() == "init" || strings.HasPrefix(f.Fn.Name(), "init#")) {
		return c.ret(c.St)
	}
	if e.initOf != nil && len(f.Fn.Blocks) > 0 {
		return e.opaqueCall(c)
	}
	if h, ok := e.CallHook[c.Name]; ok {
		if outs, done := h(e, c); done {
			return outs
		}
	}
	if len(f.Fn.Blocks) == 0 {
		return e.external(c)
	}
	if e.Want["call"] {
		e.event(c.St, "call", c.Pos, c.Name, f.Fn, c.Args...)
	}
	if e.Skip != nil && e.Skip(f.Fn) {
		e.Opaque[c.Name]++
		return e.opaqueCall(c)
	}
	if e.NoInline != nil && e.NoInline(f.Fn) {
		e.event(c.St, "summary", c.Pos, c.Name, f.Fn, c.Args...)
		return e.opaqueCall(c)
	}
	depth := 0
	for _, fr := range e.stack {
		if fr.fn == f.Fn {
			depth++
		}
	}
	if depth >= 2 {
		e.event(c.St, "recursion", c.Pos, c.Name, f.Fn, c.Args...)
		return e.opaqueCall(c)
	}
	return e.Run(f.Fn, c.Args, f.Bind, c.St, c.Pos)
}

// opaqueCall: unknown effect on whatever the arguments reach, unknown results.
func (e *Engine) opaqueCall(c *CallCtx) []Outcome {
	e.havocArgs(c.St, c.Args, c.Pos)
	return c.ret(c.St, c.res(c.St, "ret:"+c.Name)...)
}

// havocArgs forgets the content of allocated memory directly passed by reference.
func (e *Engine) havocArgs(st *State, args []Val, pos token.Pos) {
	for id := range st.reach(args...) {
		o := st.obj(id)
		if o == nil || !o.Alloc {
			continue
		}
		n := o.clone()
		switch o.Kind {
		case OCell:
			n.F = map[string]Val{}
			n.Sym = e.fresh(st, "havoc:"+id, pos)
		default:
			n.Hav = true
			n.F, n.Idx = map[string]Val{}, map[string]Lin{}
		}
		n.Pub = true
		st.setObj(n)
	}
}

// inCtx runs fn in another execution context (no locks held) and comes back.
func (e *Engine) inCtx(st *State, ctx string, fn Val, args []Val, pos token.Pos, caller *ssa.Function) []Outcome {
	oc, ol, oe := st.ctx, st.locks, st.lep
	st.ctx = ctx
	st.locks, st.lep = nil, nil
	st.epoch++
	outs := e.callVal(st, fn, args, pos, caller)
	for i := range outs {
		s := outs[i].St
		if len(s.locks) > 0 {
			e.event(s, "lockleak", pos, s.lockKey(), nil)
		}
		if e.OnTask != nil && e.probing == 0 {
			e.OnTask(ctx, outs[i])
		}
		s.ctx, s.locks, s.lep = oc, ol, oe
		s.epoch++
	}
	return outs
}

// callVal calls a function value.
func (e *Engine) callVal(st *State, fn Val, args []Val, pos token.Pos, caller *ssa.Function) []Outcome {
	switch f := fn.(type) {
	case FuncV:
		return e.call(st, f, args, nil, pos, caller)
	case TermV:
		return e.call(st, f, args, nil, pos, caller)
	case IfaceV:
		return e.callVal(st, f.V, args, pos, caller)
	}
	return []Outcome{{St: st}}
}

// spawn interprets a goroutine body for its own sake.
func (e *Engine) spawn(kind string, st *State, fn Val, args []Val, cc *ssa.CallCommon, pos token.Pos, caller *ssa.Function) {
	if e.NoSpawn {
		return
	}
	if _, ok := fn.(FuncV); !ok {
		return
	}
	st.ctx = kind
	st.locks, st.lep = nil, nil
	st.epoch++
	for _, o := range e.call(st, fn, args, cc, pos, caller) {
		if e.OnTask != nil && e.probing == 0 {
			e.OnTask(kind, o)
		}
	}
}

// ---- builtins

func (e *Engine) lenOf(st *State, v Val) Lin {
	switch x := v.(type) {
	case StrV:
		return x.Len
	case SliceV:
		return x.Len
	case NilV:
		return linC(0)
	case PtrV:
		o := st.obj(x.Obj)
		if o != nil && o.Kind == OMap && !o.Hav && o.Sym == nil {
			return linC(int64(len(o.F)))
		}
		if o != nil && o.Kind == OArr {
			return o.Len
		}
		return linT(mkR("maplen@"+strconv.Itoa(st.epoch), &rng{0, 0, true, false}, v))
	case TermV:
		return linT(mkR("len@"+strconv.Itoa(st.epoch), &rng{0, 0, true, false}, v))
	case *StructV:
		if a, ok := x.Typ.Underlying().(*types.Array); ok {
			return linC(a.Len())
		}
	}
	panic(undecided("len of %s", show(v)))
}

func (e *Engine) minLin(st *State, a, b Lin) Lin {
	if st.le0(a, b) {
		return a
	}
	if st.le0(b, a) {
		return b
	}
	x, y := a, b
	if x.key() > y.key() {
		x, y = y, x
	}
	t := mkR("min", nil, IntV{x}, IntV{y})
	if st.le0(linC(0), a) && st.le0(linC(0), b) && !t.HasLo {
		t.HasLo, t.Lo = true, 0
	}
	if !st.le0(linT(t), a) {
		st.addLe(linT(t).sub(a))
	}
	if !st.le0(linT(t), b) {
		st.addLe(linT(t).sub(b))
	}
	return linT(t)
}

func (e *Engine) builtin(c *CallCtx, name string, cc *ssa.CallCommon) []Outcome {
	st := c.St
	switch name {
	case "len":
		return c.ret(st, IntV{e.lenOf(st, c.Args[0])})
	case "cap":
		switch x := c.Args[0].(type) {
		case SliceV:
			return c.ret(st, IntV{x.Cap})
		case PtrV, *StructV:
			return c.ret(st, IntV{e.lenOf(st, x)})
		}
		return c.ret(st, IntV{linT(mkR("cap", &rng{0, 0, true, false}, c.Args[0]))})
	case "copy":
		return e.copyBuiltin(c)
	case "append":
		return e.appendBuiltin(c, cc)
	case "delete":
		if pt, ok := c.Args[0].(PtrV); ok {
			if o := st.obj(pt.Obj); o != nil {
				n := o.clone()
				if isConstKey(c.Args[1]) {
					delete(n.F, c.Args[1].key())
				} else {
					n.Hav = true
				}
				st.setObj(n)
			}
		}
		e.event(st, "mapdelete", c.Pos, "", nil, c.Args...)
		return c.ret(st)
	case "close":
		e.event(st, "closechan", c.Pos, "", nil, c.Args[0])
		return c.ret(st)
	case "min", "max":
		if a, ok := c.Args[0].(IntV); ok && len(c.Args) == 2 {
			b := c.Args[1].(IntV)
			if name == "min" {
				return c.ret(st, IntV{e.minLin(st, a.L, b.L)})
			}
			return c.ret(st, IntV{e.minLin(st, a.L.neg(), b.L.neg()).neg()})
		}
	case "clear":
		e.havocArgs(st, c.Args, c.Pos)
		return c.ret(st)
	case "panic":
		return []Outcome{{St: st, Panic: true}}
	case "recover":
		return c.ret(st, e.freshVal(st, "recover", c.Pos, types.NewInterfaceType(nil, nil)))
	case "print", "println":
		return c.ret(st)
	case "ssa:wrapnilchk":
		if pt, ok := c.Args[0].(PtrV); ok {
			p2, ok := e.asPtr(st, pt, nil, c.Pos)
			if !ok {
				return nil
			}
			return c.ret(st, p2)
		}
		if _, ok := c.Args[0].(NilV); ok {
			e.oblige(st, "nil", cFalse, c.Pos, "receiver not nil")
			return nil
		}
		return c.ret(st, c.Args[0])
	}
	panic(undecided("builtin %s", name))
}

func (e *Engine) copyBuiltin(c *CallCtx) []Outcome {
	st := c.St
	d, ok := c.Args[0].(SliceV)
	if !ok {
		panic(undecided("copy to %s", show(c.Args[0])))
	}
	sl := e.lenOf(st, c.Args[1])
	n := e.minLin(st, d.Len, sl)
	if d.Obj == "" || (n.isConst() && n.C == 0) {
		return c.ret(st, IntV{n})
	}
	if e.OnStore != nil && e.probing == 0 {
		e.OnStore(st, st.obj(d.Obj), "[copy]", c.Args[1], c.Pos)
	}
	if isByte(d.Elem) {
		var src StrV
		switch x := c.Args[1].(type) {
		case StrV:
			src = x
		case SliceV:
			src = st.bytesVal(x)
		}
		so := linC(0)
		if src.T.Op == "sub" {
			so = src.T.Args[1].(IntV).L
			src = StrV{T: src.T.Args[0].(TermV).T, Len: src.Len}
		}
		st.writeBytes(d.Obj, Write{Off: d.Off, N: n, Win: d.Len, V: src, SrcOff: so, Pos: c.Pos, Src: sl})
		return c.ret(st, IntV{n})
	}
	// element-wise copy of a short known length
	if s, ok := c.Args[1].(SliceV); ok {
		if k, ok := st.constOf(n); ok && k <= 64 && s.Obj != "" {
			var vs []Val
			so := st.obj(s.Obj)
			for i := int64(0); i < k; i++ {
				vs = append(vs, st.elemAt(so, s.Off.addC(i), ""))
			}
			for i := int64(0); i < k; i++ {
				st.setElem(st.obj(d.Obj), d.Off.addC(i), "", vs[i])
			}
			return c.ret(st, IntV{n})
		}
	}
	if s, ok := c.Args[1].(SliceV); ok && s.Obj != "" {
		so := st.obj(s.Obj)
		if st.eqL(d.Off, linC(0)) && st.eqL(n, d.Len) && st.eqL(d.Len, d.Cap) && st.eqL(n, s.Len) && !so.Hav && (so.Sym == nil || st.eqL(s.Off, linC(0))) {
			o := st.obj(d.Obj).clone()
			o.F, o.Idx, o.Sum, o.Sym, o.Hav = map[string]Val{}, map[string]Lin{}, so.Sum, so.Sym, false
			for k, v := range so.F {
				i := so.Idx[k].sub(s.Off)
				o.F[i.key()] = v
				o.Idx[i.key()] = i
			}
			st.setObj(o)
			return c.ret(st, IntV{n})
		}
	}
	o := st.obj(d.Obj).clone()
	o.Hav = true
	o.F, o.Idx = map[string]Val{}, map[string]Lin{}
	st.setObj(o)
	return c.ret(st, IntV{n})
}

func (e *Engine) appendBuiltin(c *CallCtx, cc *ssa.CallCommon) []Outcome {
	st := c.St
	var s SliceV
	var elem types.Type
	if cc != nil {
		if sl, ok := cc.Signature().Results().At(0).Type().Underlying().(*types.Slice); ok {
			elem = sl.Elem()
		}
	}
	switch x := c.Args[0].(type) {
	case SliceV:
		s = x
	case NilV:
		s = SliceV{Elem: elem}
	default:
		panic(undecided("append to %s", show(c.Args[0])))
	}
	if elem == nil {
		elem = s.Elem
	}
	al := e.lenOf(st, c.Args[1])
	if al.isConst() && al.C == 0 {
		return c.ret(st, s)
	}
	ln := s.Len.add(al)
	slack := mkR("slack", &rng{0, 0, true, false}, TermV{T: e.fresh(st, "appendcap", c.Pos)})
	cp := ln.add(linT(slack))
	if isByte(elem) {
		a := st.bytesVal(s)
		var b StrV
		switch x := c.Args[1].(type) {
		case StrV:
			b = x
		case SliceV:
			b = st.bytesVal(x)
		}
		v := concat(a, b)
		n := e.alloc(st, OArr, elem, c.Pos, cp).clone()
		n.Sym = v.T
		if !st.eqL(s.Len, s.Cap) {
			n.Over = s.Obj
		}
		st.setObj(n)
		return c.ret(st, SliceV{Obj: n.ID, Off: linC(0), Len: ln, Cap: cp, Elem: elem})
	}
	n := e.alloc(st, OArr, elem, c.Pos, cp).clone()
	n.Idx = map[string]Lin{}
	if s.Obj != "" {
		so := st.obj(s.Obj)
		if so.Hav || so.Sym != nil {
			n.Hav = true
			n.Sum = so.Sum
		}
		if so.Sym != nil && !so.Hav && s.Off.isConst() && s.Off.C == 0 {
			// prefix known symbolically
			n.Hav = false
			n.Sym = so.Sym
		}
		for k, v := range so.F {
			i := so.Idx[k].sub(s.Off)
			n.F[i.key()] = v
			n.Idx[i.key()] = i
		}
		n.Pub = false
	}
	res := SliceV{Obj: n.ID, Off: linC(0), Len: ln, Cap: cp, Elem: elem}
	if b, ok := c.Args[1].(SliceV); ok && b.Obj != "" {
		bo := st.obj(b.Obj)
		if k, ok := st.constOf(al); ok && k <= 64 {
			for i := int64(0); i < k; i++ {
				v := st.elemAt(bo, b.Off.addC(i), "")
				x := s.Len.addC(i)
				n.F[x.key()] = v
				n.Idx[x.key()] = x
				if e.OnElem != nil && e.probing == 0 {
					e.OnElem(st, v, c.Pos)
				}
				e.event(st, "append", c.Pos, "", nil, v, IntV{s.Len}, s, res)
			}
		} else if (s.Obj == "" || st.eqL(s.Len, linC(0))) && !bo.Hav && (bo.Sym == nil || st.eqL(b.Off, linC(0))) {
			// a copy of the whole source
			n.F, n.Idx, n.Sum, n.Sym = map[string]Val{}, map[string]Lin{}, bo.Sum, bo.Sym
			for k, v := range bo.F {
				i := bo.Idx[k].sub(b.Off)
				n.F[i.key()] = v
				n.Idx[i.key()] = i
			}
			e.event(st, "appendall", c.Pos, "", nil, c.Args[1], s, res)
		} else {
			n.Sum = joinSum(st.sumObj(n), st.sumObj(bo))
			n.Hav = true
			e.event(st, "appendall", c.Pos, "", nil, c.Args[1], s, res)
		}
	}
	st.setObj(n)
	return c.ret(st, res)
}

// ---- normalised arguments of pure functions

func (e *Engine) norm(st *State, v Val, depth int) Val {
	switch x := v.(type) {
	case SliceV:
		if x.Obj == "" {
			return litStr("")
		}
		if isByte(x.Elem) {
			return st.bytesVal(x)
		}
		o := st.obj(x.Obj)
		if k, ok := st.constOf(x.Len); ok && k <= 24 && depth < 4 {
			var t TupleV
			for i := int64(0); i < k; i++ {
				t = append(t, e.norm(st, st.elemAt(o, x.Off.addC(i), ""), depth+1))
			}
			return t
		}
		return TupleV{Lit(o.ID), Lit(o.contentKey()), IntV{x.Off}, IntV{x.Len}}
	case IfaceV:
		return e.norm(st, x.V, depth)
	case PtrV:
		if o := st.obj(x.Obj); o != nil && o.Alloc {
			return TupleV{x, Lit(o.contentKey())}
		}
		return x
	}
	return v
}

func (e *Engine) pure(c *CallCtx) []Outcome {
	var as []Val
	for _, a := range c.Args {
		as = append(as, e.norm(c.St, a, 0))
	}
	t := mk("ext:"+c.Name, as...)
	rs := c.Sig.Results()
	var r []Val
	if rs.Len() == 1 {
		r = append(r, symVal(t, rs.At(0).Type()))
	} else {
		for i := 0; i < rs.Len(); i++ {
			r = append(r, symVal(mk("res"+strconv.Itoa(i), TermV{T: t}), rs.At(i).Type()))
		}
	}
	return c.ret(c.St, r...)
}

// ---- locks

func (e *Engine) lockID(st *State, v Val) string { return v.key() }

var lockClass = map[string]string{}

func (e *Engine) classOf(st *State, v Val) string {
	pt, ok := v.(PtrV)
	if !ok {
		return v.key()
	}
	o := st.obj(pt.Obj)
	if o == nil {
		return v.key()
	}
	if strings.HasPrefix(pt.Obj, "G:") {
		return strings.ReplaceAll(pt.Obj[2:]+pt.Path, modPath, "")
	}
	return strings.ReplaceAll(types.TypeString(o.Typ, nil), modPath, "") + pt.Path
}

func (e *Engine) lock(c *CallCtx, kind string) []Outcome {
	st := c.St
	id := e.lockID(st, c.Args[0])
	cl := e.classOf(st, c.Args[0])
	lockClass[id] = cl
	held := false
	for _, l := range st.locks {
		if l == id {
			held = true
		}
	}
	if held {
		e.event(st, "relock", c.Pos, cl, cl)
		if e.OnLock != nil && e.probing == 0 {
			e.OnLock(st, id, cl, c.Pos, true)
		}
		return nil // this goroutine never continues
	}
	if e.OnLock != nil && e.probing == 0 {
		e.OnLock(st, id, cl, c.Pos, false)
	}
	e.event(st, "lock", c.Pos, cl, cl, c.Args[0])
	st.locks = append(st.locks[:len(st.locks):len(st.locks)], id)
	st.epoch++
	st.lep = append(st.lep[:len(st.lep):len(st.lep)], st.epoch)
	return c.ret(st)
}

func (e *Engine) unlock(c *CallCtx) []Outcome {
	st := c.St
	id := e.lockID(st, c.Args[0])
	idx := -1
	for i, l := range st.locks {
		if l == id {
			idx = i
		}
	}
	cl := e.classOf(st, c.Args[0])
	if idx < 0 {
		e.event(st, "badunlock", c.Pos, cl, cl)
		if e.OnBadUnlock != nil && e.probing == 0 {
			e.OnBadUnlock(st, cl, c.Pos)
		}
		return []Outcome{{St: st, Panic: true}}
	}
	nl := append([]string(nil), st.locks[:idx]...)
	st.locks = append(nl, st.locks[idx+1:]...)
	ne := append([]int(nil), st.lep[:idx]...)
	st.lep = append(ne, st.lep[idx+1:]...)
	// what the lock protects may change from here on
	if pt, ok := c.Args[0].(PtrV); ok && e.Shared != nil {
		if o := st.obj(pt.Obj); o != nil && o.Pub && o.Sym != nil && o.Kind == OCell {
			n := o.clone()
			for k := range o.F {
				if e.Shared(o.Typ, k) {
					delete(n.F, k)
				}
			}
			st.setObj(n)
		}
	}
	e.event(st, "unlock", c.Pos, cl, cl, c.Args[0])
	st.epoch++
	return c.ret(st)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
