package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "K08", Level: "proof", Tech: "abstract interpretation (proof obligations on every access)",
		Rule:  "Every exported function and method of the client, and every goroutine, timer, walk and hook it starts, is interpreted for each protocol with arbitrary arguments, frames, registries and settings: every index, slice bound, division, nil dereference, type assertion, channel or slice size and ticker period is an obligation, and so is that it does not end in a panic. A pointer may be taken as set only where a rule shows it: the field is stored before the structure is used and never cleared; the global is stored by start-up code; what comes out of a registry or list has the one type that every place putting something in uses, and is made there.",
		Assum: []string{"arguments handed in by the user are not nil, and the carrier is one of the three", "net.Dial returns a connection when it returns no error; RemoteAddr is not nil", "sgip sequence numbers have three words (C03)", "only sessions that were made are put in a pool (K07)", "memory is not exhausted"},
		Run:   checkK08})
}

func checkK08(r *Report) {
	p := r.P
	r.atLeast("fault", 100)
	t := p.cliTypes()
	set := r.startGlobals("msc_server/")
	always := map[string]bool{}
	for f := range r.alwaysSet(t.sess) {
		always[f] = true
	}
	pool, list := r.poolType(t)
	for f := range r.alwaysSet(pool) {
		always[f] = true
	}
	k := r.keptValues()
	asks := map[string]bool{} // arguments that may be nil
	fields := map[string]bool{}
	for f := range always {
		fields[f] = true
	}
	given := func(st *State, c Cond, pos token.Pos) bool {
		if strings.Contains(c.String(), ".SequenceNumber\")") && c.K != CTerm {
			return true // three words (C03)
		}
		n, neg := c, !c.B
		if n.K != CTerm || n.T == nil || len(n.T.Args) != 1 {
			return false
		}
		v, ok := n.T.Args[0].(TermV)
		if !ok {
			return false
		}
		x := v.T
		if !neg {
			if ty := isTypes[n.T.Op]; ty != nil {
				return k.holds(x, ty)
			}
			return false
		}
		if n.T.Op != "isnil" {
			return false
		}
		switch {
		case strings.HasPrefix(x.Op, "global:"):
			return set[strings.TrimPrefix(x.Op, "global:")]
		case strings.HasPrefix(x.Op, "$") && strings.HasSuffix(x.Op, "init#0"), strings.HasPrefix(x.Op, "$recv:"), strings.HasPrefix(x.Op, "$context.WithTimeout/1"):
			return true
		case strings.HasPrefix(x.Op, "$iface net.Conn.RemoteAddr"), strings.HasPrefix(x.Op, "ext:(reflect.Value).Type"):
			return true
		case strings.HasPrefix(x.Op, "arg:"):
			return !asks[x.Op]
		case x.Op == "*" && strings.HasPrefix(x.String(), "*(free:"):
			return true
		case strings.HasPrefix(x.Op, "as:"):
			if y, ok := x.Args[0].(TermV); ok {
				return k.holds(y.T, k.typeOf(strings.TrimPrefix(x.Op, "as:")))
			}
		case x.Op == "elem":
			// options handed in; sessions of a pool (K07: only those that were made)
			return strings.HasPrefix(show(x.Args[0]), "arg:") || strings.Contains(x.String(), list)
		case x.Op == "res0":
			return st.holds(cTerm(mk("isnil", TermV{T: mk("res1", x.Args...)})))
		case x.Op == "fld" && len(x.Args) == 2:
			lit, ok := x.Args[1].(Lit)
			return ok && fields[string(lit)]
		}
		return false
	}
	isp := p.typ(cliPkg, "ISP")
	onISP := func(fn *ssa.Function) bool { // documented: other carriers end the program
		return fn.Signature.Recv() != nil && types.Identical(fn.Signature.Recv().Type(), isp)
	}
	var roots []*ssa.Function
	for _, pk := range []string{sessPkg, cliPkg} {
		roots = append(roots, p.apiRoots(pk)...)
	}
	for _, fn := range roots {
		for _, q := range fn.Params {
			if testsNil(fn, q) {
				asks["arg:"+fn.String()+"."+q.Name()] = true
			}
		}
	}
	entered := map[string]bool{}
	run := func(fn *ssa.Function, name string) {
		r.guard(fullName(fn), func() {
			e := r.clientEngine()
			e.NoSpawn = true
			r.faultFree(e, nil)
			e.Given = given
			e.MayNil = asks
			e.Skip = nil
			e.General = func(l *loopInfo) bool { return l.fn.Pkg != nil && strings.Contains(l.fn.Pkg.Pkg.Path(), cliPkg) }
			for _, f := range roots {
				if f != fn && len(f.Blocks) > 1 && !onISP(f) && e.CallHook[fullName(f)] == nil {
					e.CallHook[fullName(f)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
						for i, q := range f.Params {
							_, isP := q.Type().Underlying().(*types.Pointer)
							if it, ok := q.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
								isP = true
							}
							if isP && i < len(c.Args) && !testsNil(f, q) &&
								!e.oblige(c.St, "nil", e.isNil(c.St, c.Args[i]).not(), c.Pos, "argument of "+fullName(f)+" not nil") {
								return nil, true
							}
						}
						return e.opaqueCall(c), true // a root of its own
					}
				}
			}
			ends := r.client(fn, name, e)
			for f := range e.Fns {
				entered[f] = true
			}
			r.takeObls(e, "fault")
			for k := range ends {
				r.check(!ends[k].panic, "returns", fullName(fn), fn.Pos(), "panic", fullName(fn)+" can end in a panic")
			}
		})
	}
	for _, n := range srvNames {
		for _, fn := range roots {
			if !onISP(fn) {
				run(fn, n)
			}
		}
	}
	for _, pk := range []string{sessPkg, cliPkg} {
		for _, fn := range p.closures(pk, entered) {
			if k.ranged[fn] {
				continue
			}
			for _, n := range srvNames {
				run(fn, n)
			}
		}
	}
}

// testsNil: the function starts by asking whether its parameter is nil.
func testsNil(fn *ssa.Function, q *ssa.Parameter) bool {
	iff, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	k, isC := c.Y.(*ssa.Const)
	return c.X == q && isC && k.IsNil()
}

// kept are the types of values put into the client's registries and result lists.
type kept struct {
	maps   map[string]map[string]types.Type // by registry, "k"/"v": the one type stored
	at     map[string]string                // position of a walk -> registry
	ranged map[*ssa.Function]bool
	elems  map[string]types.Type // by element interface: the one pointer type put in a list
	types  map[string]types.Type
}

func (k *kept) typeOf(s string) types.Type {
	if t := k.types[s]; t != nil {
		return t
	}
	return isTypes["is:"+s]
}

// holds: the value is known to be of the type (and not nil).
func (k *kept) holds(x *Term, ty types.Type) bool {
	if ty == nil {
		return false
	}
	same := func(t types.Type) bool { return t != nil && types.Identical(types.Unalias(t), types.Unalias(ty)) }
	switch {
	case strings.HasPrefix(x.Op, "smval@"):
		for g, m := range k.maps {
			if strings.Contains(show(x.Args[0]), g) {
				return same(m["v"])
			}
		}
	case x.Op == "rval" || x.Op == "rkey":
		s := x.String()
		i := strings.Index(s, "$rangekv:")
		if i < 0 {
			return false
		}
		at := s[i+len("$rangekv:"):]
		if j := strings.Index(at, "@"); j > 0 {
			return same(k.maps[k.at[at[:j]]][x.Op[1:2]])
		}
	case x.Op == "elem":
		for _, t := range k.elems {
			if same(t) {
				return true
			}
		}
	}
	return false
}

func (r *Report) keptValues() *kept {
	k := &kept{maps: map[string]map[string]types.Type{}, at: map[string]string{}, ranged: map[*ssa.Function]bool{}, elems: map[string]types.Type{}, types: map[string]types.Type{}}
	var fns []*ssa.Function
	for _, pk := range append([]string{sessPkg, cliPkg, "event_manager"}, protoPkgs...) {
		fns = append(fns, r.P.funcsOf(pk, func(*ssa.Function) bool { return true })...)
	}
	bad := types.Typ[types.Invalid]
	put := func(m map[string]types.Type, key string, v ssa.Value, what bool) {
		t := types.Type(bad)
		if mi, ok := v.(*ssa.MakeInterface); ok && (!what || made(mi.X, 0) || askedNil(mi.X, mi.Block())) {
			t = mi.X.Type()
		}
		if o := m[key]; o != nil && !types.Identical(o, t) {
			t = bad
		}
		m[key] = t
		k.types[t.String()] = t
	}
	for _, fn := range fns {
		for _, in := range instrs(fn) {
			switch c := in.(type) {
			case ssa.CallInstruction:
				f := c.Common().StaticCallee()
				if f == nil || len(c.Common().Args) == 0 || !strings.HasPrefix(f.String(), "(*sync.Map).") {
					continue
				}
				g, ok := c.Common().Args[0].(*ssa.Global)
				if !ok {
					continue
				}
				n := g.String()
				if k.maps[n] == nil {
					k.maps[n] = map[string]types.Type{}
				}
				switch f.Name() {
				case "Store", "LoadOrStore", "Swap":
					put(k.maps[n], "k", c.Common().Args[1], false)
					put(k.maps[n], "v", c.Common().Args[2], true)
				case "Range":
					k.at[strconv.Itoa(int(in.Pos()))] = n
					switch x := c.Common().Args[1].(type) {
					case *ssa.MakeClosure:
						k.ranged[x.Fn.(*ssa.Function)] = true
					case *ssa.Function:
						k.ranged[x] = true
					}
				}
			case *ssa.Store:
				ia, ok := c.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				el := deref(ia.Type())
				if !types.IsInterface(el) || !listed1(ia) {
					continue
				}
				sp := r.P.pkgOf(fn)
				put(k.elems, sp.Pkg.Path()+" "+el.String(), c.Val, true)
			}
		}
	}
	return k
}

// listed1: the array behind the element goes to an append or is returned, not to a variadic call.
func listed1(ia *ssa.IndexAddr) bool {
	a, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, u := range *a.Referrers() {
		s, ok := u.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, v := range *s.Referrers() {
			c, ok := v.(*ssa.Call)
			if !ok {
				return true
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return true
			}
		}
	}
	return false
}

// askedNil: the block is entered only when the value is not nil.
func askedNil(v ssa.Value, at *ssa.BasicBlock) bool {
	for _, b := range at.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// out of a registry, in the form that tells whether it was of the type
		if x, isX := v.(*ssa.Extract); isX && x.Index == 0 {
			_, isA := x.Tuple.(*ssa.TypeAssert)
			y, isY := iff.Cond.(*ssa.Extract)
			if isA && isY && y.Tuple == x.Tuple && y.Index == 1 && len(b.Succs[0].Preds) == 1 && b.Succs[0].Dominates(at) {
				return true
			}
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.X != v || c.Op != token.EQL && c.Op != token.NEQ {
			continue
		}
		if k, isC := c.Y.(*ssa.Const); !isC || !k.IsNil() {
			continue
		}
		next := b.Succs[0]
		if c.Op == token.EQL {
			next = b.Succs[1]
		}
		if len(next.Preds) == 1 && next.Dominates(at) {
			return true
		}
	}
	return false
}

// made: the value is a new object, or a list.
func made(v ssa.Value, depth int) bool {
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.TypeAssert: // out of a registry, which holds none that is nil
		return !x.CommaOk
	case *ssa.Phi:
		for _, e := range x.Edges {
			if depth > 4 || !made(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || depth > 4 {
			return false
		}
		for _, in := range instrs(f) {
			if ret, ok := in.(*ssa.Return); ok && (len(ret.Results) != 1 || !made(ret.Results[0], depth+1)) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a captured or spilled local: every store to it
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					n++
					if depth > 4 || !made(s.Val, depth+1) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}
