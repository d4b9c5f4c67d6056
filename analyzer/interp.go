package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is one abstract interpretation run.
type Engine struct {
	P    *Program
	Want map[string]bool                               // event kinds to record
	Keep func(st *State, kind string, args []Val) bool // of those, the ones to record (nil: all)
	// hooks
	CallHook map[string]func(e *Engine, c *CallCtx) ([]Outcome, bool) // by full function name
	OnBack   func(st *State, loop *loopInfo, delta []*Ev)             // loop iteration finished
	OnIter   func(st *State, what string, fn *ssa.Function, args []Val, res []Val)
	OnLoad   func(st *State, obj *Obj, path string, pos token.Pos)
	OnStore  func(st *State, obj *Obj, path string, v Val, pos token.Pos)
	OnEvent  func(st *State, ev *Ev)
	Track    func(o *Obj, path string) string // label of memory whose reads and writes are events (rd, wr)
	OnTask   func(kind string, o Outcome)
	OnElem   func(st *State, v Val, pos token.Pos) // element appended or stored in a loop
	Oblige   bool
	Start    func(st *State)                             // facts about the state a root is entered with
	ExtPre   bool                                        // library calls have preconditions too (receiver not nil, period positive)
	MayNil   map[string]bool                             // receivers that may be nil
	Given    func(st *State, c Cond, pos token.Pos) bool // holds for a reason outside the interpreted code
	Obls     map[string]*Obligation
	NotNil   map[string]bool                        // symbolic pointers assumed non-nil
	NonNil   func(o *Obj) bool                      // symbolic pointers assumed non-nil, by what they point to
	Shared   func(typ types.Type, path string) bool // mutable shared field: reload per epoch

	Skip        func(fn *ssa.Function) bool // workspace functions treated as opaque
	NoInline    func(fn *ssa.Function) bool // recorded as an event, not entered
	initOf      *ssa.Package
	NoSpawn     bool
	Strict      bool // slicing received memory beyond its length is a fault
	TaskOpaque  bool // pool tasks are not entered
	OnRange     func(st *State, c *CallCtx, fn *ssa.Function, args []Val, o Outcome, delta []*Ev)
	OnCell      func(st *State, id, path string, before, after Val) // memory a repeated callback changes: value before, stand-in after
	OnLock      func(st *State, id, class string, pos token.Pos, again bool)
	OnBadUnlock func(st *State, class string, pos token.Pos)

	CurK    *Term                  // iteration counter of the loop OnBack reports
	NoMerge bool                   // keep paths apart at joins
	TopOnly bool                   // NoMerge concerns the analysed function only, not its callees
	Unroll  int                    // follow loops for this many rounds instead of generalising them
	OneIter func(l *loopInfo) bool // follow one round from an arbitrary state; OnBack gets its end
	General func(l *loopInfo) bool // do not follow the loop round by round even if the number of rounds is known
	OnSide  func(o Outcome)        // a path followed for its own sake: its effects are not carried on
	Peel    bool                   // leave loops that write no arrays through their last iteration

	stack   []frameID
	probing int
	// CrashAt: this call may also end in a panic of its own
	// OnExt sees every call that leaves the analysed code
	OnExt    func(st *State, name string, pos token.Pos)
	CrashAt  func(st *State, c *CallCtx) bool
	deferred int
	steps    int
	MaxStep  int
	PathCap  int
	Fns      map[string]bool // functions analysed
	Calls    int
	Opaque   map[string]int
}

type frameID struct {
	fn  *ssa.Function
	pos token.Pos
	ctx string
}

type Obligation struct {
	Kind, Fn, Detail string
	Pos              token.Pos
	OK, Bad          int
	Why              string
	Stack            string
}

type Outcome struct {
	St    *State
	Res   []Val
	Panic bool
}

type path struct {
	st     *State
	regs   map[ssa.Value]Val
	defers []deferred
	pred   *ssa.BasicBlock
	pan    bool // unwinding a panic
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	pos  token.Pos
}

func (p *path) fork() *path {
	n := &path{st: p.st.fork(), regs: make(map[ssa.Value]Val, len(p.regs)+4), pred: p.pred, pan: p.pan}
	for k, v := range p.regs {
		n.regs[k] = v
	}
	n.defers = p.defers[:len(p.defers):len(p.defers)]
	return n
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, Want: map[string]bool{}, CallHook: map[string]func(*Engine, *CallCtx) ([]Outcome, bool){}, Obls: map[string]*Obligation{},
		NotNil: map[string]bool{}, MaxStep: 30_000_000, PathCap: 3000, Fns: map[string]bool{}, Opaque: map[string]int{}}
}

func (e *Engine) ctxKey() string {
	if len(e.stack) == 0 {
		return ""
	}
	return e.stack[len(e.stack)-1].ctx
}

func (e *Engine) event(st *State, kind string, pos token.Pos, extraKey string, extra any, args ...Val) {
	if !e.Want[kind] || e.Keep != nil && !e.Keep(st, kind, args) {
		return
	}
	st.trace = st.trace.push(kind, st.ctx, pos, st.lockKey(), extraKey, extra, args...)
	if e.OnEvent != nil && e.probing == 0 {
		e.OnEvent(st, st.trace)
	}
}

// oblige records a proof obligation and then assumes it. Returns false if the
// path is refuted.
func (e *Engine) oblige(st *State, kind string, c Cond, pos token.Pos, detail string) bool {
	if e.Oblige && e.probing == 0 {
		fn := ""
		if n := len(e.stack); n > 0 {
			fn = e.stack[n-1].fn.String()
		}
		k := kind + "|" + fn + "|" + strconv.Itoa(int(pos)) + "|" + detail
		o := e.Obls[k]
		if o == nil {
			o = &Obligation{Kind: kind, Fn: fn, Pos: pos, Detail: detail}
			e.Obls[k] = o
		}
		if st.holds(c) || e.Given != nil && e.Given(st, c, pos) {
			o.OK++
		} else {
			o.Bad++
			if o.Why == "" {
				o.Why = c.String()
				var s []string
				for _, f := range e.stack {
					s = append(s, f.fn.Name())
				}
				o.Stack = strings.Join(s, " > ")
			}
		}
	}
	return st.assume(c)
}

// ---- running a function

func (e *Engine) Run(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(undecided("no body for %s", fn))
	}
	if len(e.stack) > 60 {
		panic(undecided("call depth at %s", fn))
	}
	cx := e.ctxKey() + "/" + strconv.Itoa(int(pos)) + fn.Name()
	if len(cx) > 60 {
		cx = "c" + strconv.Itoa(mk("ctx", Lit(cx)).ID)
	}
	e.stack = append(e.stack, frameID{fn, pos, cx})
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.Fns[fn.String()] = true
	p := &path{st: st, regs: map[ssa.Value]Val{}}
	for i, a := range fn.Params {
		if i < len(args) {
			p.regs[a] = args[i]
		}
	}
	for i, b := range fn.FreeVars {
		p.regs[b] = bind[i]
	}
	info := e.P.info(fn)
	r := &regionRun{e: e, fn: fn, info: info, outs: nil}
	exits := r.run(info.top, fn.Blocks[0], []*path{p})
	if len(exits) != 0 {
		panic(undecided("stray exits in %s", fn))
	}
	return e.mergeOutcomes(r.outs)
}

type regionRun struct {
	e    *Engine
	fn   *ssa.Function
	info *fnInfo
	outs []Outcome
}

type edgePath struct {
	to *ssa.BasicBlock
	p  *path
}

// run executes the blocks of a region (whole function or loop body) starting at
// head, in reverse postorder with joins; edges leaving the region (and back edges
// to the head of a loop region) are returned.
func (r *regionRun) run(reg *loopInfo, head *ssa.BasicBlock, start []*path) (exits []edgePath) {
	pend := map[*ssa.BasicBlock][]*path{head: start}
	first := true
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || r.info.rpo[x] < r.info.rpo[b] {
				b = x
			}
		}
		ps := pend[b]
		delete(pend, b)
		if len(ps) > 1 {
			ps = r.e.mergePaths(r.info, b, ps)
		}
		if len(ps) > r.e.PathCap {
			if os.Getenv("GOSMS_DEBUG") != "" {
				r.e.whyApart(r.info, b, ps)
			}
			panic(undecided("%d paths at block %d of %s", len(ps), b.Index, r.fn))
		}
		route := func(eps []edgePath) {
			for _, ep := range eps {
				if reg != r.info.top && (!reg.blocks[ep.to] || ep.to == reg.head) {
					exits = append(exits, ep)
				} else {
					pend[ep.to] = append(pend[ep.to], ep.p)
				}
			}
		}
		if l := r.info.loopAt(b); l != nil && !(b == head && first && reg == l) {
			for _, p := range ps {
				route(r.loop(l, p))
			}
		} else {
			for _, p := range ps {
				route(r.block(b, p))
			}
		}
		first = false
	}
	return
}

// take moves a path along an edge, evaluating the phis of the target.
func (r *regionRun) take(from, to *ssa.BasicBlock, p *path) edgePath {
	idx := -1
	for i, q := range to.Preds {
		if q == from {
			idx = i
			break
		}
	}
	type pv struct {
		phi *ssa.Phi
		v   Val
	}
	var vs []pv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{phi, r.val(p, phi.Edges[idx])})
	}
	for _, x := range vs {
		p.regs[x.phi] = x.v
	}
	p.pred = from
	return edgePath{to, p}
}

// block executes the instructions of b on one path.
func (r *regionRun) block(b *ssa.BasicBlock, p *path) (out []edgePath) {
	work := []*path{p}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, q := range work {
				c := q.regs2bool(r, x.Cond)
				v, known := q.st.decide(c)
				if known {
					if v {
						out = append(out, r.take(b, b.Succs[0], q))
					} else {
						out = append(out, r.take(b, b.Succs[1], q))
					}
					continue
				}
				f := q.fork()
				if q.st.assume(c) {
					out = append(out, r.take(b, b.Succs[0], q))
				}
				if f.st.assume(c.not()) {
					out = append(out, r.take(b, b.Succs[1], f))
				}
			}
			return
		case *ssa.Jump:
			for _, q := range work {
				out = append(out, r.take(b, b.Succs[0], q))
			}
			return
		case *ssa.Return:
			for _, q := range work {
				if len(q.defers) > 0 && !q.pan {
					// RunDefers precedes Return in SSA; nothing left here
				}
				var res []Val
				for _, v := range x.Results {
					res = append(res, r.val(q, v))
				}
				r.outs = append(r.outs, Outcome{St: q.st, Res: res})
			}
			return
		case *ssa.Panic:
			for _, q := range work {
				r.e.event(q.st, "panic", x.Pos(), "", nil)
				r.unwind(q)
			}
			return
		}
		var next []*path
		for _, q := range work {
			next = append(next, r.instr(in, q)...)
		}
		work = next
		if len(work) == 0 {
			return
		}
		if len(work) > r.e.PathCap {
			panic(undecided("%d paths inside block %d of %s", len(work), b.Index, r.fn))
		}
	}
	return
}

// unwind runs deferred calls of a panicking frame.
func (r *regionRun) unwind(p *path) {
	ps := r.runDefers(p)
	for _, q := range ps {
		r.outs = append(r.outs, Outcome{St: q.st, Panic: true})
	}
}

func (r *regionRun) runDefers(p *path) []*path {
	work := []*path{p}
	for {
		var next []*path
		more := false
		for _, q := range work {
			if len(q.defers) == 0 {
				next = append(next, q)
				continue
			}
			more = true
			d := q.defers[len(q.defers)-1]
			q.defers = q.defers[:len(q.defers)-1]
			r.e.event(q.st, "deferrun", d.pos, "", nil)
			r.e.deferred++
			outs := r.e.call(q.st, d.fn, d.args, d.call, d.pos, r.fn)
			r.e.deferred--
			for _, o := range outs {
				n := q.fork()
				n.st = o.St
				r.e.event(n.st, "deferend", d.pos, "", nil)
				next = append(next, n)
			}
		}
		work = next
		if !more {
			return work
		}
	}
}

func (p *path) regs2bool(r *regionRun, v ssa.Value) Cond {
	x := r.val(p, v)
	switch y := x.(type) {
	case BoolV:
		return y.C
	case TermV:
		return cTerm(y.T)
	}
	panic(undecided("condition %s = %s", v, show(x)))
}

func (r *regionRun) val(p *path, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Global:
		r.e.P.globalObj(x)
		return PtrV{Obj: "G:" + x.String()}
	case *ssa.Builtin:
		return BuiltinV{x}
	}
	if y, ok := p.regs[v]; ok {
		return y
	}
	panic(undecided("unset register %s in %s", v.Name(), r.fn))
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolV{Cond{K: CConst, B: constant.BoolVal(c.Value)}}
		case b.Info()&types.IsString != 0:
			return litStr(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && i < big && i > -big {
				return IntV{linC(i)}
			}
			return IntV{linT(mkR("const:"+c.Value.ExactString(), intRange(c.Type())))}
		}
	}
	return TermV{mk("const:" + c.Value.ExactString()), c.Type()}
}

func (r *regionRun) set(p *path, v ssa.Value, x Val) []*path {
	p.regs[v] = x
	return []*path{p}
}

func (e *Engine) freshKey(st *State, what string) string {
	k := what + "@" + e.ctxKey()
	return k + "#" + strconv.Itoa(st.next(k))
}

// fresh makes a new unknown.
func (e *Engine) fresh(st *State, what string, pos token.Pos) *Term {
	t := mk("$" + e.freshKey(st, what+":"+strconv.Itoa(int(pos))))
	if e.Want["fresh"] {
		e.event(st, "fresh", pos, "", nil, TermV{T: t})
	}
	return t
}

func (e *Engine) freshVal(st *State, what string, pos token.Pos, typ types.Type) Val {
	return symVal(e.fresh(st, what, pos), typ)
}

func (e *Engine) alloc(st *State, kind ObjKind, typ types.Type, pos token.Pos, n Lin) *Obj {
	id := "A" + e.freshKey(st, strconv.Itoa(int(pos)))
	o := &Obj{ID: id, Kind: kind, Typ: typ, F: map[string]Val{}, Len: n, Site: pos, Alloc: true}
	st.setObj(o)
	return o
}

func (r *regionRun) instr(in ssa.Instruction, p *path) []*path {
	e := r.e
	e.steps++
	if e.steps > e.MaxStep {
		panic(undecided("step limit in %s", r.fn))
	}
	st := p.st
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*path{p}
	case *ssa.Alloc:
		t := deref(x.Type())
		if a, ok := t.Underlying().(*types.Array); ok {
			o := e.alloc(st, OArr, a.Elem(), x.Pos(), linC(a.Len()))
			return r.set(p, x, PtrV{Obj: o.ID})
		}
		o := e.alloc(st, OCell, t, x.Pos(), Lin{})
		return r.set(p, x, PtrV{Obj: o.ID})
	case *ssa.MakeSlice:
		ln := r.val(p, x.Len).(IntV).L
		cp := r.val(p, x.Cap).(IntV).L
		if !e.oblige(st, "makeslice", cLe(linC(0), ln), x.Pos(), "length >= 0") {
			return nil
		}
		if !cp.eq(ln) {
			if !e.oblige(st, "makeslice", cLe(ln, cp), x.Pos(), "length <= capacity") {
				return nil
			}
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		o := e.alloc(st, OArr, el, x.Pos(), cp)
		return r.set(p, x, SliceV{Obj: o.ID, Off: linC(0), Len: ln, Cap: cp, Elem: el})
	case *ssa.MakeMap:
		o := e.alloc(st, OMap, x.Type(), x.Pos(), Lin{})
		return r.set(p, x, PtrV{Obj: o.ID})
	case *ssa.MakeChan:
		if n, isI := r.val(p, x.Size).(IntV); isI && !e.oblige(st, "makechan", cLe(linC(0), n.L), x.Pos(), "capacity >= 0") {
			return nil
		}
		t := e.fresh(st, "chan", x.Pos())
		st.setBool(mk("isnil", TermV{T: t}), false)
		e.event(st, "makechan", x.Pos(), "", nil, TermV{T: t}, r.val(p, x.Size))
		return r.set(p, x, TermV{t, x.Type()})
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, r.val(p, b))
		}
		return r.set(p, x, FuncV{Fn: x.Fn.(*ssa.Function), Bind: bs})
	case *ssa.MakeInterface:
		v := r.val(p, x.X)
		return r.set(p, x, IfaceV{T: x.X.Type(), V: v})
	case *ssa.ChangeType:
		return r.set(p, x, retype(r.val(p, x.X), x.Type()))
	case *ssa.ChangeInterface:
		v := r.val(p, x.X)
		if t, ok := v.(TermV); ok {
			v = TermV{t.T, x.Type()}
		}
		return r.set(p, x, v)
	case *ssa.Convert:
		return r.convert(x, p)
	case *ssa.MultiConvert:
		panic(undecided("MultiConvert"))
	case *ssa.SliceToArrayPointer:
		s := r.val(p, x.X).(SliceV)
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		if !e.oblige(st, "slice2array", cLe(linC(n), s.Len), x.Pos(), "slice long enough") {
			return nil
		}
		if s.Off.isConst() && s.Off.C == 0 {
			return r.set(p, x, PtrV{Obj: s.Obj})
		}
		return r.set(p, x, e.freshVal(st, "s2a", x.Pos(), x.Type()))
	case *ssa.BinOp:
		return r.binop(x, p)
	case *ssa.UnOp:
		return r.unop(x, p)
	case *ssa.FieldAddr:
		b := r.val(p, x.X)
		pt, ok := e.asPtr(st, b, x.X.Type(), x.Pos())
		if !ok {
			return nil
		}
		return r.set(p, x, PtrV{Obj: pt.Obj, Path: pt.Path + "." + fieldName(deref(x.X.Type()), x.Field)})
	case *ssa.Field:
		sv, ok := r.val(p, x.X).(*StructV)
		if !ok {
			return r.set(p, x, e.freshVal(st, "field", x.Pos(), x.Type()))
		}
		return r.set(p, x, sv.get("."+fieldName(x.X.Type(), x.Field)))
	case *ssa.IndexAddr:
		return r.indexAddr(x, p)
	case *ssa.Index:
		iv := r.val(p, x.Index).(IntV).L
		switch b := r.val(p, x.X).(type) {
		case *StructV:
			n := x.X.Type().Underlying().(*types.Array).Len()
			if !e.oblige(st, "index", cLe(linC(0), iv), x.Pos(), "index >= 0") || !e.oblige(st, "index", cLt(iv, linC(n)), x.Pos(), "index < length") {
				return nil
			}
			if c, ok := st.constOf(iv); ok {
				return r.set(p, x, b.get(idxPath(linC(c))))
			}
			return r.set(p, x, symVal(mk("aelem", Lit(b.key()), IntV{iv}), x.Type()))
		case StrV:
			if !e.oblige(st, "index", cLe(linC(0), iv), x.Pos(), "index >= 0") || !e.oblige(st, "index", cLt(iv, b.Len), x.Pos(), "index < length") {
				return nil
			}
			return r.set(p, x, IntV{st.beOf(b.T, iv, 1)})
		}
		return r.set(p, x, e.freshVal(st, "idx", x.Pos(), x.Type()))
	case *ssa.Lookup:
		return r.lookup(x, p)
	case *ssa.Slice:
		return r.slice(x, p)
	case *ssa.Extract:
		tv, ok := r.val(p, x.Tuple).(TupleV)
		if !ok || x.Index >= len(tv) {
			return r.set(p, x, e.freshVal(st, "ext", x.Pos(), x.Type()))
		}
		return r.set(p, x, tv[x.Index])
	case *ssa.Store:
		v := r.val(p, x.Val)
		b := r.val(p, x.Addr)
		pt, ok := e.asPtr(st, b, x.Addr.Type(), x.Pos())
		if !ok {
			return nil
		}
		e.store(st, pt, v, x.Val.Type(), x.Pos())
		return []*path{p}
	case *ssa.MapUpdate:
		m := r.val(p, x.Map)
		k := r.val(p, x.Key)
		v := r.val(p, x.Value)
		if pt, ok := m.(PtrV); ok {
			o := st.obj(pt.Obj).clone()
			if isConstKey(k) {
				o.F[k.key()] = v
				if o.Idx == nil {
					o.Idx = map[string]Lin{}
				}
				mapKeys[k.key()] = k
			} else {
				o.Hav = true
			}
			st.setObj(o)
		}
		if t, ok := m.(TermV); ok {
			c := cTerm(mk("isnil", TermV{T: t.T}))
			if e.Oblige && !e.oblige(st, "mapwrite", c.not(), x.Pos(), "map not nil") {
				return nil
			}
		}
		if _, ok := m.(NilV); ok {
			e.oblige(st, "mapwrite", cFalse, x.Pos(), "map not nil")
			return nil
		}
		e.event(st, "mapset", x.Pos(), "", nil, m, k, v)
		return []*path{p}
	case *ssa.Range:
		return r.set(p, x, TermV{mk("range", r.val(p, x.X)), x.Type()})
	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		ok := e.fresh(st, "next", x.Pos())
		res := TupleV{BoolV{cTerm(ok)}}
		for i := 1; i < tt.Len(); i++ {
			ty := tt.At(i).Type()
			if b, isB := ty.(*types.Basic); isB && b.Kind() == types.Invalid {
				res = append(res, NilV{})
				continue
			}
			res = append(res, symVal(mk("nextkv"+strconv.Itoa(i), TermV{T: ok}), ty))
		}
		return r.set(p, x, res)
	case *ssa.TypeAssert:
		return r.typeAssert(x, p)
	case *ssa.Call:
		return r.callInstr(x, p)
	case *ssa.Defer:
		fn, args := r.callee(p, &x.Call)
		p.defers = append(p.defers[:len(p.defers):len(p.defers)], deferred{fn, args, &x.Call, x.Pos()})
		e.event(st, "defer", x.Pos(), "", nil)
		return []*path{p}
	case *ssa.RunDefers:
		return r.runDefers(p)
	case *ssa.Go:
		fn, args := r.callee(p, &x.Call)
		e.event(st, "go", x.Pos(), "", nil, append([]Val{fn}, args...)...)
		e.publish(st, append([]Val{fn}, args...)...)
		e.spawn("go", st.fork(), fn, args, &x.Call, x.Pos(), r.fn)
		return []*path{p}
	case *ssa.Send:
		e.event(st, "send", x.Pos(), "", nil, r.val(p, x.Chan), r.val(p, x.X))
		return []*path{p}
	case *ssa.Select:
		if x.Blocking {
			r.e.event(p.st, "selectblock", x.Pos(), "", nil)
		}
		return r.sel(x, p)
	}
	panic(undecided("instruction %T in %s", in, r.fn))
}

var mapKeys = map[string]Val{}

func isConstKey(k Val) bool {
	switch x := k.(type) {
	case IntV:
		return x.L.isConst()
	case StrV:
		_, ok := x.lit()
		return ok
	}
	return false
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case TermV:
		return TermV{x.T, t}
	case *StructV:
		return &StructV{Typ: t, Base: x.Base, F: x.F}
	case SliceV:
		if s, ok := t.Underlying().(*types.Slice); ok {
			x.Elem = s.Elem()
		}
		return x
	}
	return v
}

// asPtr turns a value used as an address into a location, checking for nil.
func (e *Engine) asPtr(st *State, v Val, typ types.Type, pos token.Pos) (PtrV, bool) {
	switch x := v.(type) {
	case PtrV:
		if x.Path == "" && strings.HasPrefix(x.Obj, "P") {
			t := symObjs[x.Obj].Sym.Args[0].(TermV).T
			if !e.notNil(x.Obj) {
				c := Cond{K: CTerm, B: false, T: mk("isnil", TermV{T: t})}
				if !e.oblige(st, "nil", c, pos, "pointer not nil: "+t.String()) {
					return x, false
				}
			}
		}
		return x, true
	case NilV:
		e.oblige(st, "nil", cFalse, pos, "pointer not nil")
		return PtrV{}, false
	case TermV:
		pv := symVal(x.T, typ)
		if y, ok := pv.(PtrV); ok {
			return e.asPtr(st, y, typ, pos)
		}
	}
	panic(undecided("address %s", show(v)))
}

func (e *Engine) load(st *State, pt PtrV, typ types.Type, pos token.Pos) Val {
	v := e.load1(st, pt, typ, pos)
	if e.Track != nil {
		if l := e.Track(st.obj(pt.Obj), pt.Path); l != "" {
			e.event(st, "rd", pos, l, l, pt, v)
		}
	}
	return v
}

func (e *Engine) load1(st *State, pt PtrV, typ types.Type, pos token.Pos) Val {
	o := st.obj(pt.Obj)
	if o == nil {
		panic(undecided("load from unknown object %s", pt.Obj))
	}
	if e.OnLoad != nil && e.probing == 0 {
		e.OnLoad(st, o, pt.Path, pos)
	}
	if o.Kind == OArr {
		if idx, sub, ok := parseIdx(pt.Path); ok {
			if isByte(o.Typ) {
				return IntV{st.beInt(o, idx, 1)}
			}
			return st.elemAt(o, idx, sub)
		}
		// whole array
		sv := &StructV{Typ: typ, Base: o.Sym, F: map[string]Val{}}
		if isByte(o.Typ) || o.Hav {
			sv.Base = mk("arr", Lit(o.ID), Lit(o.contentKey()))
			return sv
		}
		for k, v := range o.F {
			sv.F["[#"+k+"]"] = v
			linTab[k] = o.Idx[k]
		}
		return sv
	}
	if o.Pub && e.Shared != nil && e.Shared(o.Typ, pt.Path) {
		if _, ok := o.F[pt.Path]; !ok && o.Sym != nil {
			ep := st.epoch
			for i, l := range st.locks {
				if strings.HasPrefix(l, "&"+pt.Obj) && (len(l) == len(pt.Obj)+1 || l[len(pt.Obj)+1] == '.') {
					ep = st.lep[i]
				}
			}
			return symVal(mk("fld@"+strconv.Itoa(ep), TermV{T: o.Sym}, Lit(pt.Path)), typ)
		}
	}
	return retypeLoad(o.loadPath(pt.Path), typ)
}

func retypeLoad(v Val, typ types.Type) Val {
	if t, ok := v.(TermV); ok && t.Typ == nil {
		return symVal(t.T, typ)
	}
	return v
}

func (e *Engine) store(st *State, pt PtrV, v Val, typ types.Type, pos token.Pos) {
	o := st.obj(pt.Obj)
	if o == nil {
		panic(undecided("store to unknown object %s", pt.Obj))
	}
	if e.OnStore != nil && e.probing == 0 {
		e.OnStore(st, o, pt.Path, v, pos)
	}
	if e.Track != nil {
		if l := e.Track(o, pt.Path); l != "" {
			e.event(st, "wr", pos, l, l, pt, v)
		}
	}
	if o.Pub {
		e.publish(st, v)
	}
	if o.Kind == OArr {
		if idx, sub, ok := parseIdx(pt.Path); ok {
			if isByte(o.Typ) {
				st.writeBytes(pt.Obj, Write{Off: idx, N: linC(1), Win: linC(1), V: v, Pos: pos})
				return
			}
			st.setElem(o, idx, sub, v)
			if sub == "" {
				e.event(st, "elemstore", pos, "", nil, v, IntV{idx}, PtrV{Obj: pt.Obj})
			}
			return
		}
		// whole array store
		n := o.clone()
		n.F, n.Idx, n.W = map[string]Val{}, map[string]Lin{}, nil
		if sv, ok := v.(*StructV); ok {
			n.Sym = sv.Base
			for k, x := range sv.F {
				idx, _, ok := parseIdx(k)
				if !ok {
					panic(undecided("array store"))
				}
				n.F[idx.key()] = x
				n.Idx[idx.key()] = idx
			}
			if isByte(o.Typ) && len(sv.F) > 0 {
				n.F, n.Hav = map[string]Val{}, true
			}
		} else {
			n.Hav = true
		}
		st.setObj(n)
		return
	}
	st.storePath(pt.Obj, pt.Path, v)
}

// publish marks objects reachable from the values as shared with other goroutines.
func (e *Engine) publish(st *State, vs ...Val) {
	seen := map[string]bool{}
	var walk func(v Val)
	obj := func(id string) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.obj(id)
		if o == nil || strings.HasPrefix(id, "G:") {
			return
		}
		if !o.Pub {
			n := o.clone()
			n.Pub = true
			st.setObj(n)
			o = n
		} else if !o.Alloc && len(o.F) == 0 {
			return
		}
		ks := make([]string, 0, len(o.F))
		for k := range o.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(o.F[k])
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			obj(x.Obj)
		case SliceV:
			if x.Obj != "" {
				obj(x.Obj)
			}
		case IfaceV:
			walk(x.V)
		case FuncV:
			for _, b := range x.Bind {
				walk(b)
			}
		case *StructV:
			for _, y := range x.F {
				walk(y)
			}
		case TupleV:
			for _, y := range x {
				walk(y)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
}

// reach lists the objects reachable from the values.
func (st *State) reach(vs ...Val) map[string]bool {
	seen := map[string]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			if !seen[x.Obj] {
				seen[x.Obj] = true
				if strings.HasPrefix(x.Obj, "G:") {
					return
				}
				if o := st.obj(x.Obj); o != nil {
					for _, y := range o.F {
						walk(y)
					}
				}
			}
		case SliceV:
			if x.Obj != "" {
				walk(PtrV{Obj: x.Obj})
			}
		case IfaceV:
			walk(x.V)
		case FuncV:
			for _, b := range x.Bind {
				walk(b)
			}
		case *StructV:
			for _, y := range x.F {
				walk(y)
			}
		case TupleV:
			for _, y := range x {
				walk(y)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return seen
}

func (r *regionRun) unop(x *ssa.UnOp, p *path) []*path {
	e, st := r.e, p.st
	v := r.val(p, x.X)
	switch x.Op {
	case token.MUL:
		pt, ok := e.asPtr(st, v, x.X.Type(), x.Pos())
		if !ok {
			return nil
		}
		// element of a small constant table at an unknown index: one case per index
		if o := st.obj(pt.Obj); o != nil && o.Kind == OArr && !isByte(o.Typ) && !o.Hav && o.Sym == nil {
			if idx, sub, ok := parseIdx(pt.Path); ok && o.Len.isConst() && o.Len.C <= 24 && !idx.isConst() {
				if _, known := st.constOf(idx); !known && int64(len(o.F)) == o.Len.C && o.F[idx.key()] == nil {
					var out []*path
					for i := int64(0); i < o.Len.C; i++ {
						c := cEqL(idx, linC(i))
						if b, k := st.decide(c); k && !b {
							continue
						}
						q := p.fork()
						if !q.st.assume(c) {
							continue
						}
						q.regs[x] = q.st.elemAt(o, linC(i), sub)
						out = append(out, q)
					}
					return out
				}
			}
		}
		return r.set(p, x, e.load(st, pt, x.Type(), x.Pos()))
	case token.NOT:
		return r.set(p, x, BoolV{p.regs2bool(r, x.X).not()})
	case token.SUB:
		if i, ok := v.(IntV); ok {
			return r.set(p, x, IntV{e.fit(st, i.L.neg(), x.Type(), "neg", v)})
		}
		return r.set(p, x, TermV{mk("neg", v), x.Type()})
	case token.XOR:
		return r.set(p, x, symVal(mk("not", v), x.Type()))
	case token.ARROW:
		e.event(st, "recv", x.Pos(), "", nil, v)
		t := e.fresh(st, "recv", x.Pos())
		return r.set(p, x, symVal(t, x.Type()))
	}
	panic(undecided("unop %s", x.Op))
}

// fit keeps a linear form if it provably fits its integer type.
func (e *Engine) fit(st *State, l Lin, typ types.Type, op string, args ...Val) Lin {
	rg := intRange(typ)
	if rg == nil {
		panic(undecided("fit %s", typ))
	}
	b := typ.Underlying().(*types.Basic)
	if b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt {
		return l // assumed not to overflow
	}
	ok := true
	if rg.hasLo && !st.le0(linC(rg.lo), l) {
		ok = false
	}
	if ok && rg.hasHi && !st.le0(l, linC(rg.hi)) {
		ok = false
	}
	if ok && !rg.hasHi {
		// 64-bit unsigned: require a known finite bound
		if _, hi, _, has := rangeOf(l); !l.isConst() && !(has && hi < big) && len(l.T) > 1 {
			ok = false
		}
	}
	if ok {
		return l
	}
	return linT(mkR("wrap:"+b.Name()+":"+op, rg, args...))
}

func isPow2(k int64) (int, bool) {
	if k <= 0 || k&(k-1) != 0 {
		return 0, false
	}
	n := 0
	for k > 1 {
		k >>= 1
		n++
	}
	return n, true
}

// quot is floor(l/k) for l >= 0 (k > 0 constant).
func (e *Engine) quot(st *State, l Lin, k int64) Lin {
	if l.isConst() {
		return linC(floorDiv(l.C, k))
	}
	if k == 1 {
		return l
	}
	// exact division when every coefficient is divisible
	all := l.C%k == 0
	for _, t := range l.T {
		if t.K%k != 0 {
			all = false
		}
	}
	if all {
		r := Lin{C: l.C / k}
		for _, t := range l.T {
			r.T = append(r.T, LT{t.T, t.K / k})
		}
		return r
	}
	// split off the divisible part: floor((k*m + rest)/k) = m + floor(rest/k) when 0 <= rest
	var div, rest Lin
	for _, t := range l.T {
		if t.K%k == 0 {
			div.T = append(div.T, LT{t.T, t.K / k})
		} else {
			rest.T = append(rest.T, t)
		}
	}
	rest.C = l.C
	if m := floorDiv(l.C, k); m != 0 {
		// the constant's own multiple of k
		if low := rest.addC(-m * k); st.le0(linC(0), low) {
			return div.addC(m).add(e.quot(st, low, k))
		}
	}
	if len(div.T) > 0 && st.le0(linC(0), rest) {
		if st.le0(rest, linC(k-1)) {
			return div
		}
		return div.add(e.quot(st, rest, k))
	}
	q := mkR("quot", &rng{0, 0, true, false}, IntV{l}, IntV{linC(k)})
	if _, hi, _, ok := rangeOf(l); ok && !q.HasHi {
		q.HasHi, q.Hi = true, floorDiv(hi, k)
	}
	ql := linT(q).mulC(k)
	// l-k+1 <= k*q <= l
	if !st.entailsLe(ql.sub(l)) {
		st.addLe(ql.sub(l))
	}
	if !st.entailsLe(l.addC(1 - k).sub(ql)) {
		st.addLe(l.addC(1 - k).sub(ql))
	}
	return linT(q)
}

// disjointBits: x is a multiple of 2^k and 0 <= y < 2^k.
func (e *Engine) disjointBits(st *State, x, y Lin) bool {
	if x.isConst() && x.C == 0 || y.isConst() && y.C == 0 {
		return true
	}
	g := x.C
	for _, t := range x.T {
		g = gcd(g, t.K)
	}
	if g < 0 {
		g = -g
	}
	if g == 0 {
		return false
	}
	low := g & (-g)
	return st.le0(linC(0), y) && st.le0(y, linC(low-1)) && st.le0(linC(0), x)
}

func (r *regionRun) binop(x *ssa.BinOp, p *path) []*path {
	e, st := r.e, p.st
	a, b := r.val(p, x.X), r.val(p, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		c := e.equal(st, a, b)
		if x.Op == token.NEQ {
			c = c.not()
		}
		return r.set(p, x, BoolV{c})
	}
	ai, aok := a.(IntV)
	bi, bok := b.(IntV)
	if aok && bok {
		switch x.Op {
		case token.LSS:
			return r.set(p, x, BoolV{cLt(ai.L, bi.L)})
		case token.LEQ:
			return r.set(p, x, BoolV{cLe(ai.L, bi.L)})
		case token.GTR:
			return r.set(p, x, BoolV{cLt(bi.L, ai.L)})
		case token.GEQ:
			return r.set(p, x, BoolV{cLe(bi.L, ai.L)})
		}
		if isInt(x.Type()) {
			if (x.Op == token.QUO || x.Op == token.REM) && bok {
				if !e.oblige(st, "div", Cond{K: CNe, L: bi.L}.norm(), x.Pos(), "divisor not zero") {
					return nil
				}
			}
			return r.set(p, x, IntV{e.arith(st, x.Op, ai.L, bi.L, x.Type())})
		}
	}
	as, aok2 := a.(StrV)
	bs, bok2 := b.(StrV)
	if aok2 && bok2 {
		if x.Op == token.ADD {
			return r.set(p, x, concat(as, bs))
		}
		return r.set(p, x, BoolV{cTerm(mk("str"+x.Op.String(), a, b))})
	}
	if isBool(x.Type()) {
		return r.set(p, x, BoolV{cTerm(mk("cmp"+x.Op.String(), a, b))})
	}
	return r.set(p, x, symVal(mk("op"+x.Op.String(), a, b), x.Type()))
}

func (c Cond) norm() Cond {
	if c.K == CNe && c.L.isConst() {
		return Cond{K: CConst, B: c.L.C != 0}
	}
	if c.K == CEq && c.L.isConst() {
		return Cond{K: CConst, B: c.L.C == 0}
	}
	return c
}

func concat(a, b StrV) StrV {
	la, ok1 := a.lit()
	lb, ok2 := b.lit()
	if ok1 && ok2 {
		return litStr(la + lb)
	}
	if ok1 && la == "" {
		return b
	}
	if ok2 && lb == "" {
		return a
	}
	return StrV{T: mk("cat", a, b), Len: a.Len.add(b.Len)}
}

func (e *Engine) arith(st *State, op token.Token, a, b Lin, typ types.Type) Lin {
	opaque := func() Lin {
		return linT(mkR("ar"+op.String()+":"+typ.Underlying().String(), intRange(typ), IntV{a}, IntV{b}))
	}
	if a.isConst() && b.isConst() {
		switch op {
		case token.AND:
			return linC(a.C & b.C)
		case token.OR:
			return linC(a.C | b.C)
		case token.XOR:
			return e.fit(st, linC(a.C^b.C), typ, "^", IntV{a}, IntV{b})
		case token.AND_NOT:
			return linC(a.C &^ b.C)
		case token.QUO:
			if b.C != 0 {
				return linC(a.C / b.C)
			}
		case token.REM:
			if b.C != 0 {
				return linC(a.C % b.C)
			}
		case token.SHR:
			if b.C >= 0 && b.C < 63 {
				return linC(a.C >> uint(b.C))
			}
		}
	}
	switch op {
	case token.ADD:
		r, ok := a.addK(1, b)
		if !ok {
			return opaque()
		}
		return e.fit(st, r, typ, "+", IntV{a}, IntV{b})
	case token.SUB:
		r, ok := a.addK(-1, b)
		if !ok {
			return opaque()
		}
		return e.fit(st, r, typ, "-", IntV{a}, IntV{b})
	case token.MUL:
		if c, ok := st.constOf(b); ok {
			if r, ok := scale(st, a, c); ok {
				return e.fit(st, r, typ, "*", IntV{a}, IntV{b})
			}
			return opaque()
		}
		if c, ok := st.constOf(a); ok {
			if r, ok := scale(st, b, c); ok {
				return e.fit(st, r, typ, "*", IntV{a}, IntV{b})
			}
			return opaque()
		}
		if st.le0(linC(0), a) && st.le0(linC(0), b) {
			t := mkR("mul", &rng{0, 0, true, false}, IntV{a}, IntV{b})
			return e.fit(st, linT(t), typ, "*", IntV{a}, IntV{b})
		}
	case token.SHL:
		if c, ok := st.constOf(b); ok && c >= 0 && c < 62 {
			if r, ok := scale(st, a, 1<<uint(c)); ok {
				return e.fit(st, r, typ, "<<", IntV{a}, IntV{b})
			}
		}
	case token.SHR:
		if c, ok := st.constOf(b); ok && c >= 0 && c < 62 && st.le0(linC(0), a) {
			return e.quot(st, a, 1<<uint(c))
		}
	case token.QUO:
		if c, ok := st.constOf(b); ok && c > 0 && st.le0(linC(0), a) {
			return e.quot(st, a, c)
		}
	case token.REM:
		if c, ok := st.constOf(b); ok && c > 0 && st.le0(linC(0), a) {
			return a.sub(e.quot(st, a, c).mulC(c))
		}
	case token.AND:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() && a.C >= 0 {
			m := a.C
			if st.le0(linC(0), b) {
				if _, ok := isPow2(m + 1); ok {
					if st.le0(b, linC(m)) {
						return b
					}
					return b.sub(e.quot(st, b, m+1).mulC(m + 1))
				}
			}
			if m == 0 {
				return linC(0)
			}
			return linT(mkR("and", &rng{0, m, true, true}, IntV{linC(m)}, IntV{b}))
		}
	case token.OR, token.XOR:
		if e.disjointBits(st, a, b) || e.disjointBits(st, b, a) {
			return a.add(b)
		}
		if a.key() > b.key() {
			a, b = b, a
		}
		return opaque()
	}
	return opaque()
}

// scale is c*a; a constant too large to multiply is hidden by naming the operand.
func scale(st *State, a Lin, c int64) (Lin, bool) {
	if r, ok := linC(0).addK(c, a); ok {
		return r, true
	}
	if len(a.T) == 0 || a.C == 0 {
		return Lin{}, false
	}
	n := linT(mk("alias", IntV{a}))
	r, ok := linC(0).addK(c, n)
	if ok {
		st.addEq(n.sub(a))
	}
	return r, ok
}

// equal builds the condition a == b.
func (e *Engine) equal(st *State, a, b Val) Cond {
	if ai, ok := a.(IntV); ok {
		if bi, ok := b.(IntV); ok {
			return cEqL(ai.L, bi.L)
		}
	}
	if as, ok := a.(StrV); ok {
		if bs, ok := b.(StrV); ok {
			la, o1 := as.lit()
			lb, o2 := bs.lit()
			if o1 && o2 {
				return Cond{K: CConst, B: la == lb}
			}
			if as.T == bs.T {
				return cTrue
			}
			if o1 {
				as, bs = bs, as
				la, lb = lb, la
				o1, o2 = o2, o1
			}
			if !o1 && !o2 && as.T.ID > bs.T.ID {
				as, bs = bs, as
			}
			return cTerm(mk("streq", as, bs))
		}
	}
	if ab, ok := a.(BoolV); ok {
		if bb, ok := b.(BoolV); ok {
			if v, k := st.decide(bb.C); k {
				if v {
					return ab.C
				}
				return ab.C.not()
			}
			if v, k := st.decide(ab.C); k {
				if v {
					return bb.C
				}
				return bb.C.not()
			}
			return cTerm(mk("booleq", a, b))
		}
	}
	if _, ok := b.(NilV); ok {
		return e.isNil(st, a)
	}
	if _, ok := a.(NilV); ok {
		return e.isNil(st, b)
	}
	if isNilSlice(b) {
		return e.isNil(st, a)
	}
	if isNilSlice(a) {
		return e.isNil(st, b)
	}
	if ai, ok := a.(IfaceV); ok {
		if bi, ok := b.(IfaceV); ok {
			if !types.Identical(ai.T, bi.T) {
				return cFalse
			}
			return e.equal(st, ai.V, bi.V)
		}
	}
	if a.key() == b.key() {
		return cTrue
	}
	if ap, ok := a.(PtrV); ok {
		if bp, ok := b.(PtrV); ok {
			oa, ob := st.obj(ap.Obj), st.obj(bp.Obj)
			if oa != nil && ob != nil && (oa.Alloc || ob.Alloc) {
				return cFalse // distinct locations
			}
		}
	}
	if at, ok := a.(TermV); ok {
		if bt, ok := b.(TermV); ok && strings.HasPrefix(at.T.Op, "nonnil:global:") && strings.HasPrefix(bt.T.Op, "nonnil:global:") {
			return cFalse // different error variables
		}
	}
	x, y := a, b
	if x.key() > y.key() {
		x, y = y, x
	}
	return cTerm(mk("eq", x, y))
}

func isNilSlice(v Val) bool { s, ok := v.(SliceV); return ok && s.Obj == "" }

func (e *Engine) notNil(id string) bool {
	return e.NotNil[id] || e.NonNil != nil && e.NonNil(symObjs[id])
}

func (e *Engine) isNil(st *State, v Val) Cond {
	switch x := v.(type) {
	case NilV:
		return cTrue
	case FuncV, IfaceV, BuiltinV:
		return cFalse
	case PtrV:
		if x.Path == "" && strings.HasPrefix(x.Obj, "P") {
			if e.notNil(x.Obj) {
				return cFalse
			}
			return cTerm(mk("isnil", TermV{T: symObjs[x.Obj].Sym.Args[0].(TermV).T}))
		}
		return cFalse
	case SliceV:
		if x.Obj == "" {
			return cTrue
		}
		if o := st.obj(x.Obj); o != nil && o.Alloc {
			return cFalse
		}
		if o := st.obj(x.Obj); o != nil && o.Sym != nil {
			if st.le0(linC(1), x.Len) {
				return cFalse
			}
			return cTerm(mk("isnil", TermV{T: o.Sym}))
		}
		return cFalse
	case TermV:
		if strings.HasPrefix(x.T.Op, "nonnil") {
			return cFalse
		}
		return cTerm(mk("isnil", TermV{T: x.T}))
	}
	return cTerm(mk("isnilv", v))
}

func (r *regionRun) convert(x *ssa.Convert, p *path) []*path {
	e, st := r.e, p.st
	v := r.val(p, x.X)
	to, from := x.Type().Underlying(), x.X.Type().Underlying()
	if isInt(to) && isInt(from) {
		i := v.(IntV)
		l := i.L
		rg := intRange(to)
		rf := intRange(from)
		// widening or provably in range
		in := true
		if rg.hasLo && !(rf.hasLo && rf.lo >= rg.lo) && !st.le0(linC(rg.lo), l) {
			in = false
		}
		if in && rg.hasHi && !(rf.hasHi && rf.hi <= rg.hi) && !st.le0(l, linC(rg.hi)) {
			in = false
		}
		if in && !rg.hasHi && !rg.hasLo && rf.hasLo && !rf.hasHi {
			// uint64 -> int64: keep only when bounded
			if _, hi, _, ok := rangeOf(l); !(ok && hi < big) && !l.isConst() {
				in = false
			}
		}
		if in {
			return r.set(p, x, IntV{l})
		}
		if c, ok := st.constOf(l); ok {
			if b, ok := to.(*types.Basic); ok {
				switch b.Kind() {
				case types.Uint8:
					return r.set(p, x, IntV{linC(int64(uint8(c)))})
				case types.Uint16:
					return r.set(p, x, IntV{linC(int64(uint16(c)))})
				case types.Uint32:
					return r.set(p, x, IntV{linC(int64(uint32(c)))})
				case types.Int32:
					return r.set(p, x, IntV{linC(int64(int32(c)))})
				}
			}
		}
		tr := linT(mkR("trunc:"+to.String(), rg, v))
		if rg.hasLo && rg.lo == 0 && st.le0(linC(0), l) {
			st.addLe(tr.sub(l)) // dropping high bits never increases
		}
		return r.set(p, x, IntV{tr})
	}
	switch {
	case isStr(to) && isStr(from):
		return r.set(p, x, v)
	case isStr(to):
		if s, ok := v.(SliceV); ok && isByteSlice(from) {
			return r.set(p, x, st.bytesVal(s))
		}
		return r.set(p, x, symVal(mk("tostr", v), x.Type()))
	case isByteSlice(to) && isStr(from):
		s := v.(StrV)
		el := to.(*types.Slice).Elem()
		o := e.alloc(st, OArr, el, x.Pos(), s.Len)
		n := o.clone()
		n.Sym = s.T
		st.setObj(n)
		return r.set(p, x, SliceV{Obj: o.ID, Off: linC(0), Len: s.Len, Cap: s.Len, Elem: el})
	}
	return r.set(p, x, symVal(mk("conv:"+x.Type().String(), v), x.Type()))
}

func (r *regionRun) indexAddr(x *ssa.IndexAddr, p *path) []*path {
	e, st := r.e, p.st
	i := r.val(p, x.Index).(IntV).L
	switch b := r.val(p, x.X).(type) {
	case SliceV:
		if !e.oblige(st, "index", cLe(linC(0), i), x.Pos(), "index >= 0") || !e.oblige(st, "index", cLt(i, b.Len), x.Pos(), "index < length") {
			return nil
		}
		if b.Obj == "" {
			return nil
		}
		return r.set(p, x, PtrV{Obj: b.Obj, Path: idxPath(b.Off.add(i))})
	default:
		pt, ok := e.asPtr(st, b, x.X.Type(), x.Pos())
		if !ok {
			return nil
		}
		n := deref(x.X.Type()).Underlying().(*types.Array).Len()
		if !e.oblige(st, "index", cLe(linC(0), i), x.Pos(), "index >= 0") || !e.oblige(st, "index", cLt(i, linC(n)), x.Pos(), "index < length") {
			return nil
		}
		o := st.obj(pt.Obj)
		if o != nil && o.Kind == OArr && pt.Path == "" {
			return r.set(p, x, PtrV{Obj: pt.Obj, Path: idxPath(i)})
		}
		if c, ok := st.constOf(i); ok {
			return r.set(p, x, PtrV{Obj: pt.Obj, Path: pt.Path + idxPath(linC(c))})
		}
		if strings.HasPrefix(pt.Obj, "G:") && n <= 24 {
			// small table held in a package variable: one case per index
			var out []*path
			for k := int64(0); k < n; k++ {
				q := p.fork()
				if q.st.assume(cEqL(i, linC(k))) {
					q.regs[x] = PtrV{Obj: pt.Obj, Path: pt.Path + idxPath(linC(k))}
					out = append(out, q)
				}
			}
			return out
		}
		return r.set(p, x, PtrV{Obj: pt.Obj, Path: pt.Path + idxPath(i)})
	}
}

func (r *regionRun) slice(x *ssa.Slice, p *path) []*path {
	e, st := r.e, p.st
	b := r.val(p, x.X)
	opt := func(v ssa.Value, d Lin) Lin {
		if v == nil {
			return d
		}
		return r.val(p, v).(IntV).L
	}
	if s, ok := b.(StrV); ok {
		lo, hi := opt(x.Low, linC(0)), opt(x.High, s.Len)
		if !e.oblige(st, "slice", cLe(linC(0), lo), x.Pos(), "low >= 0") || !e.oblige(st, "slice", cLe(lo, hi), x.Pos(), "low <= high") ||
			!e.oblige(st, "slice", cLe(hi, s.Len), x.Pos(), "high <= length") {
			return nil
		}
		return r.set(p, x, subContent(st, s.T, lo, hi.sub(lo)))
	}
	var s SliceV
	switch y := b.(type) {
	case SliceV:
		s = y
	default:
		pt, ok := e.asPtr(st, b, x.X.Type(), x.Pos())
		if !ok {
			return nil
		}
		a := deref(x.X.Type()).Underlying().(*types.Array)
		o := st.obj(pt.Obj)
		if o == nil || o.Kind != OArr || pt.Path != "" {
			// array inside a struct or package variable: content as a symbolic snapshot
			cur := e.load(st, pt, deref(x.X.Type()), x.Pos())
			no := e.alloc(st, OArr, a.Elem(), x.Pos(), linC(a.Len())).clone()
			no.Sym = mk("arrsnap", cur)
			if sv, ok := cur.(*StructV); ok && !isByte(a.Elem()) {
				no.Sym = sv.Base
				no.Idx = map[string]Lin{}
				for k, v := range sv.F {
					if idx, sub, ok := parseIdx(k); ok && sub == "" {
						no.F[idx.key()] = v
						no.Idx[idx.key()] = idx
					}
				}
			}
			no.Tag = "snapshot"
			st.setObj(no)
			o, pt = no, PtrV{Obj: no.ID}
		}
		s = SliceV{Obj: pt.Obj, Off: linC(0), Len: linC(a.Len()), Cap: linC(a.Len()), Elem: a.Elem()}
	}
	lo, hi := opt(x.Low, linC(0)), opt(x.High, s.Len)
	mx := opt(x.Max, s.Cap)
	if !e.oblige(st, "slice", cLe(linC(0), lo), x.Pos(), "low >= 0") || !e.oblige(st, "slice", cLe(lo, hi), x.Pos(), "low <= high") {
		return nil
	}
	if x.Max == nil {
		// reading past len but within cap is accepted by Go; for received data it
		// exposes stale bytes, so the stricter bound is required where asked for
		lim, what := s.Cap, "high <= capacity"
		if o := st.obj(s.Obj); e.Strict && o != nil && !o.Alloc {
			lim, what = s.Len, "high <= length of the received bytes"
		}
		if !e.oblige(st, "slice", cLe(hi, lim), x.Pos(), what) {
			return nil
		}
	} else if !e.oblige(st, "slice", cLe(hi, mx), x.Pos(), "high <= max") || !e.oblige(st, "slice", cLe(mx, s.Cap), x.Pos(), "max <= capacity") {
		return nil
	}
	if s.Obj == "" {
		return r.set(p, x, s)
	}
	return r.set(p, x, SliceV{Obj: s.Obj, Off: s.Off.add(lo), Len: hi.sub(lo), Cap: mx.sub(lo), Elem: s.Elem})
}

func (r *regionRun) lookup(x *ssa.Lookup, p *path) []*path {
	e, st := r.e, p.st
	m := r.val(p, x.X)
	k := r.val(p, x.Index)
	if s, ok := m.(StrV); ok {
		i := k.(IntV).L
		if !e.oblige(st, "index", cLe(linC(0), i), x.Pos(), "index >= 0") || !e.oblige(st, "index", cLt(i, s.Len), x.Pos(), "index < length") {
			return nil
		}
		return r.set(p, x, IntV{st.beOf(s.T, i, 1)})
	}
	vt := x.Type()
	if x.CommaOk {
		vt = x.Type().(*types.Tuple).At(0).Type()
	}
	mk1 := func(v Val, ok Cond) Val {
		if x.CommaOk {
			return TupleV{v, BoolV{ok}}
		}
		return v
	}
	if pt, ok := m.(PtrV); ok {
		if o := st.obj(pt.Obj); o != nil && o.Kind == OMap && !o.Hav && o.Sym == nil {
			if isConstKey(k) {
				if v, ok := o.F[k.key()]; ok {
					return r.set(p, x, mk1(v, cTrue))
				}
				return r.set(p, x, mk1(zeroVal(vt), cFalse))
			}
			if len(o.F) <= 40 {
				ks := make([]string, 0, len(o.F))
				for kk := range o.F {
					ks = append(ks, kk)
				}
				sort.Strings(ks)
				var out []*path
				rest := p.fork()
				alive := true
				for _, kk := range ks {
					c := e.equal(st, k, mapKeys[kk])
					if b, kn := st.decide(c); kn && !b {
						continue
					}
					q := p.fork()
					if q.st.assume(c) {
						q.regs[x] = mk1(o.F[kk], cTrue)
						out = append(out, q)
					}
					if !rest.st.assume(c.not()) {
						alive = false
						break
					}
				}
				if alive {
					rest.regs[x] = mk1(zeroVal(vt), cFalse)
					out = append(out, rest)
				}
				return out
			}
		}
	}
	t := mk("lookup@"+strconv.Itoa(st.epoch), m, k)
	e.event(st, "mapget", x.Pos(), strconv.Itoa(st.epoch), t, m, k)
	okT := mk("present@"+strconv.Itoa(st.epoch), m, k)
	v := symVal(t, vt)
	if !x.CommaOk {
		return r.set(p, x, v)
	}
	return r.set(p, x, mk1(v, cTerm(okT)))
}

func (r *regionRun) typeAssert(x *ssa.TypeAssert, p *path) []*path {
	e, st := r.e, p.st
	v := r.val(p, x.X)
	finish := func(q *path, v Val, ok bool) *path {
		if x.CommaOk {
			if !ok {
				v = zeroVal(x.AssertedType)
			}
			q.regs[x] = TupleV{v, BoolV{Cond{K: CConst, B: ok}}}
		} else {
			q.regs[x] = v
		}
		return q
	}
	conc := !types.IsInterface(x.AssertedType)
	switch y := v.(type) {
	case IfaceV:
		var ok bool
		res := y.V
		if conc {
			ok = types.Identical(y.T, x.AssertedType)
		} else {
			ok = types.Implements(y.T, x.AssertedType.Underlying().(*types.Interface))
			res = y
		}
		if !ok && !x.CommaOk {
			e.oblige(st, "typeassert", cFalse, x.Pos(), "dynamic type is "+y.T.String())
			return nil
		}
		return []*path{finish(p, res, ok)}
	case NilV:
		if !x.CommaOk {
			e.oblige(st, "typeassert", cFalse, x.Pos(), "nil interface")
			return nil
		}
		return []*path{finish(p, nil, false)}
	case TermV:
		c := cTerm(mk("is:"+x.AssertedType.String(), TermV{T: y.T}))
		val := symVal(mk("as:"+x.AssertedType.String(), TermV{T: y.T}), x.AssertedType)
		if !conc {
			val = TermV{y.T, x.AssertedType}
		} else {
			isTypes[c.T.Op] = x.AssertedType
		}
		if !x.CommaOk {
			if !e.oblige(st, "typeassert", c, x.Pos(), "dynamic type known") {
				return nil
			}
			return []*path{finish(p, val, true)}
		}
		b, known := st.decide(c)
		var out []*path
		if !known || b {
			q := p
			if !known {
				q = p.fork()
			}
			if q.st.assume(c) {
				if pv, ok := val.(PtrV); ok && e.assertNonNil(y) {
					q.st.assume(Cond{K: CTerm, T: mk("isnil", TermV{T: symObjs[pv.Obj].Sym.Args[0].(TermV).T})})
				}
				out = append(out, finish(q, val, true))
			}
		}
		if !known || !b {
			q := p
			if q.st.assume(c.not()) {
				out = append(out, finish(q, nil, false))
			}
		}
		return out
	}
	panic(undecided("type assertion on %s", show(v)))
}

// assertNonNil: values found in these containers are never typed nils.
func (e *Engine) assertNonNil(TermV) bool { return true }

func (r *regionRun) sel(x *ssa.Select, p *path) []*path {
	var out []*path
	tt := x.Type().(*types.Tuple)
	n := len(x.States)
	mkRes := func(q *path, idx int) {
		res := TupleV{IntV{linC(int64(idx))}, BoolV{cTerm(r.e.fresh(q.st, "selok", x.Pos()))}}
		ri := 0
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				_ = i
				res = append(res, r.e.freshVal(q.st, "selrecv", x.Pos(), tt.At(2+ri).Type()))
				ri++
			}
		}
		q.regs[x] = res
	}
	for i := 0; i < n; i++ {
		q := p.fork()
		s := x.States[i]
		kind := "recv"
		if s.Dir == types.SendOnly {
			kind = "send"
		}
		bl := "select"
		if !x.Blocking {
			bl = "nonblocking"
		}
		if s.Dir == types.SendOnly {
			r.e.event(q.st, kind, x.Pos(), bl, bl, r.val(q, s.Chan), r.val(q, s.Send))
		} else {
			r.e.event(q.st, kind, x.Pos(), bl, bl, r.val(q, s.Chan))
		}
		mkRes(q, i)
		out = append(out, q)
	}
	if !x.Blocking {
		mkRes(p, -1)
		out = append(out, p)
	}
	return out
}

func posStr(fset *token.FileSet, pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
