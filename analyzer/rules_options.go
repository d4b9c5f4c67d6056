package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C07", Level: "proof", Tech: "abstract interpretation (symbolic option records, value comparison)",
		Rule:  "Every option function is interpreted on an arbitrary option record: it changes only the field it is named after, to the value it was given (an invalid value leaves the option unset). The loader is interpreted on every ordered pair of option functions: a record without options is unset everywhere, each option reaches its field and a later one wins. Each submission constructor must hand its own options to the loader; it is interpreted with every option set to an arbitrary value or left unset (all unset, all set, each one flipped; thorough: every pair), and in every message it builds the option's slot must hold exactly the supplied value when set and the account's own setting when not, while no other slot changes with that option.",
		Assum: []string{"SGIP submissions carry no fee type, fee code, charged number or link options; SMGP submissions carry no fee user type, terminal type or link id (the protocols have no such field, or the constructor defines it otherwise)"},
		Run:   checkC07})
}

type optSlot struct {
	opt, slot, acct string
	mode            string // "": direct, "suffix": account + option, "derived": computed from the account's setting, "none": empty by default
}

var optTable = map[string][]optSlot{
	"codec/cmpp": {{"NeedReport", "RegisteredDel", "NeedReport", ""}, {"MsgLevel", "MsgLevel", "DefaultMsgLevel", ""}, {"FeeUsertype", "FeeUsertype", "FeeUserType", ""},
		{"FeeTerminalType", "FeeTerminalType", "FeeTerminalType", ""}, {"ServiceId", "ServiceId", "ServiceId", ""}, {"FeeTerminalId", "FeeTerminalId", "FeeTerminalId", ""},
		{"FeeType", "FeeType", "FeeType", ""}, {"FeeCode", "FeeCode", "FeeCode", ""}, {"ValidTime", "ValidTime", "MtValidDuration", "derived"}, {"AtTime", "AtTime", "", "none"},
		{"SpSubNo", "SrcId", "SmsDisplayNo", "suffix"}, {"LinkID", "LinkID", "LinkId", ""}},
	"codec/smgp": {{"NeedReport", "NeedReport", "NeedReport", ""}, {"MsgLevel", "Priority", "DefaultMsgLevel", ""}, {"ServiceId", "ServiceID", "ServiceId", ""},
		{"FeeTerminalId", "ChargeTermID", "FeeTerminalId", ""}, {"FeeType", "FeeType", "FeeType", ""}, {"FeeCode", "FeeCode", "FeeCode", ""},
		{"ValidTime", "ValidTime", "MtValidDuration", "derived"}, {"AtTime", "AtTime", "", "none"}, {"SpSubNo", "SrcTermID", "SmsDisplayNo", "suffix"}},
	"codec/sgip": {{"NeedReport", "ReportFlag", "NeedReport", ""}, {"MsgLevel", "Priority", "DefaultMsgLevel", ""}, {"ServiceId", "ServiceType", "ServiceId", ""},
		{"ValidTime", "ExpireTime", "MtValidDuration", "derived"}, {"AtTime", "ScheduleTime", "", "none"}, {"SpSubNo", "SPNumber", "SmsDisplayNo", "suffix"}},
}

const unsetByte = 0xf

func checkC07(r *Report) {
	p := r.P
	rec := p.typ("codec", "MtOptions")
	fields := leafPaths(rec)
	optFn := p.typ("codec", "OptionFunc")
	// the option functions
	fns := p.funcsOf("codec", func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), optFn)
	})
	type made struct {
		fn    *ssa.Function
		st    *State
		f     FuncV
		field string
		val   Val
	}
	var mk1 []made
	for _, fn := range fns {
		r.root(fn)
		r.guard(fullName(fn), func() { r.optionFn(fn, rec, fields) })
		r.guard(fullName(fn), func() {
			// one accepted value, for the loader
			e := NewEngine(p)
			e.NoMerge = true
			args := symArgs(e, fn)
			field := optField(fn, fields)
			if field == "" || len(args) != 1 {
				return
			}
			n := 0
			for _, o := range e.Run(fn, args, nil, newState(p.base), fn.Pos()) {
				f, ok := o.Res[0].(FuncV)
				if !ok || o.Panic {
					continue
				}
				if n++; n > 2 && !r.Deep {
					break
				}
				mk1 = append(mk1, made{fn, o.St, f, field, args[0]})
			}
		})
	}
	// the loader
	load := p.funcsOf("codec", func(f *ssa.Function) bool {
		s := f.Signature
		return f.Parent() == nil && s.Recv() == nil && s.Variadic() && s.Params().Len() == 1 && s.Params().At(0).Type().String() == "[]"+optFn.String() && s.Results().Len() == 1 && deref(s.Results().At(0).Type()) == types.Type(rec)
	})
	r.check(len(load) == 1, "loader", "codec", rec.Obj().Pos(), "loader", "the function that turns options into a record is not found")
	if len(load) != 1 {
		return
	}
	r.root(load[0])
	runLoad := func(st *State, e *Engine, fs []FuncV) []Outcome {
		o := e.alloc(st, OArr, optFn, load[0].Pos(), linC(int64(len(fs)))).clone()
		o.Idx = map[string]Lin{}
		for i, f := range fs {
			x := linC(int64(i))
			o.F[x.key()] = f
			o.Idx[x.key()] = x
		}
		st.setObj(o)
		n := linC(int64(len(fs)))
		return e.Run(load[0], []Val{SliceV{Obj: o.ID, Off: linC(0), Len: n, Cap: n, Elem: optFn}}, nil, st, load[0].Pos())
	}
	r.guard("loader", func() {
		e := NewEngine(p)
		outs := runLoad(newState(p.base), e, nil)
		for _, o := range outs {
			ro := o.St.obj(o.Res[0].(PtrV).Obj)
			for _, f := range fields {
				r.check(!o.Panic && isUnset(o.St, ro.loadPath(f)), "loader", load[0].String(), load[0].Pos(), "unset"+f, "without options "+f[1:]+" is "+show(ro.loadPath(f)))
			}
		}
	})
	for i := range mk1 {
		for j := range mk1 {
			a, b := mk1[i], mk1[j]
			if a.fn == b.fn && i != j {
				continue
			}
			r.guard("loader", func() {
				e := NewEngine(p)
				e.NoMerge = true
				st := a.st.fork()
				// the second closure, made in the same state
				var fb FuncV
				bval := b.val
				if a.fn != b.fn {
					for _, o := range e.Run(b.fn, []Val{b.val}, nil, st, b.fn.Pos()) {
						if f, ok := o.Res[0].(FuncV); ok && f.key() == b.f.key() {
							fb, st = f, o.St
						}
					}
					if fb.Fn == nil {
						return
					}
				} else {
					fb = a.f
				}
				want := func(o Outcome, m made, v Val) {
					ro := o.St.obj(o.Res[0].(PtrV).Obj)
					got := ro.loadPath(m.field)
					ok := sameVal(o.St, got, v) || isUnset(o.St, got) || dependsOn(got, v)
					r.check(ok, "loader", load[0].String(), load[0].Pos(), a.fn.Name()+"+"+b.fn.Name(), fmt.Sprintf("after %s and %s the option %s is %s", a.fn.Name(), b.fn.Name(), m.field[1:], show(got)))
				}
				for _, o := range runLoad(st, e, []FuncV{a.f, fb}) {
					if o.Panic {
						r.fail("loader", load[0].String(), load[0].Pos(), "panic", "loading options panics")
						continue
					}
					want(o, b, bval)
					if a.field != b.field {
						want(o, a, a.val)
					}
					ro := o.St.obj(o.Res[0].(PtrV).Obj)
					for _, f := range fields {
						if f != a.field && f != b.field {
							r.check(isUnset(o.St, ro.loadPath(f)), "loader", load[0].String(), load[0].Pos(), a.fn.Name()+"+"+b.fn.Name()+f, fmt.Sprintf("%s and %s also set %s", a.fn.Name(), b.fn.Name(), f[1:]))
						}
					}
				}
			})
		}
	}
	for _, pk := range protoPkgs {
		for _, fn := range p.makers() {
			if pkOf2(fn) != pk || !takesOptions(fn, optFn) {
				continue
			}
			r.root(fn)
			for _, ver := range []int64{0x20, 0x30} {
				r.guard(fullName(fn), func() { r.optionSlots(pk, fn, ver, rec, fields, load[0]) })
			}
		}
	}
	r.atLeast("option-function", 100)
	r.atLeast("loader", 100)
	r.atLeast("option-wins", 50)
	r.atLeast("default-used", 50)
	r.atLeast("only-its-own", 200)
	r.atLeast("options-passed", 3)
}

func pkOf2(fn *ssa.Function) string { return strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath) }

func takesOptions(fn *ssa.Function, optFn *types.Named) bool {
	s := fn.Signature
	return s.Variadic() && s.Params().At(s.Params().Len()-1).Type().String() == "[]"+optFn.String()
}

// optField: the record field an option function is named after.
func optField(fn *ssa.Function, fields []string) string {
	n := strings.ToLower(strings.TrimPrefix(fn.Name(), "Mt"))
	best := ""
	for _, f := range fields {
		lf := strings.ToLower(f[1:])
		if strings.HasPrefix(n, lf) && len(f) > len(best) {
			best = f
		}
	}
	return best
}

func isUnset(st *State, v Val) bool {
	switch x := v.(type) {
	case IntV:
		return st.eqL(x.L, linC(unsetByte))
	case StrV:
		return st.eqL(x.Len, linC(0))
	}
	return false
}

func sameVal(st *State, a, b Val) bool {
	if a == nil || b == nil {
		return false
	}
	switch x := a.(type) {
	case IntV:
		y, ok := b.(IntV)
		return ok && st.eqL(x.L, y.L)
	case StrV:
		y, ok := b.(StrV)
		return ok && (x.key() == y.key() || sameBytes(st, x, y))
	}
	return a.key() == b.key()
}

// dependsOn: v is computed from w.
func dependsOn(v, w Val) bool {
	want := map[*Term]bool{}
	collect := func(x Val) {
		switch y := x.(type) {
		case IntV:
			for _, t := range y.L.T {
				want[t.T] = true
			}
		case StrV:
			want[y.T] = true
		case TermV:
			want[y.T] = true
		case *StructV:
			leaves(y, func(t *Term) bool { want[t] = true; return false })
		}
	}
	collect(w)
	found := false
	leaves(v, func(t *Term) bool { found = found || want[t]; return true })
	return found
}

func (r *Report) optionFn(fn *ssa.Function, rec *types.Named, fields []string) {
	p := r.P
	e := NewEngine(p)
	e.NoMerge = true
	args := symArgs(e, fn)
	field := optField(fn, fields)
	for _, a := range args {
		if pt, ok := a.(PtrV); ok {
			e.NotNil[pt.Obj] = true
		}
	}
	for _, o := range e.Run(fn, args, nil, newState(p.base), fn.Pos()) {
		f, ok := o.Res[0].(FuncV)
		if !ok || o.Panic {
			panic(undecided("%s returns no closure", fullName(fn)))
		}
		t := symVal(mk("optrec"), types.NewPointer(rec)).(PtrV)
		e.NotNil[t.Obj] = true
		before := newState(p.base).obj(t.Obj)
		for _, q := range e.Run(f.Fn, []Val{t}, f.Bind, o.St.fork(), fn.Pos()) {
			if q.Panic {
				r.fail("option-function", fn.String(), fn.Pos(), fn.Name()+"|panic", fn.Name()+" can panic")
				continue
			}
			after := q.St.obj(t.Obj)
			for _, x := range fields {
				got := after.loadPath(x)
				key := fn.Name() + x
				switch {
				case x == field:
					ok := sameVal(q.St, got, args[0]) || isUnset(q.St, got) || isAppendOf(got, args[0])
					if isUnset(q.St, got) && !sameVal(q.St, got, args[0]) {
						ok = !acceptable(q.St, x, args[0])
					}
					r.check(ok, "option-function", fn.String(), fn.Pos(), key, fmt.Sprintf("%s sets %s to %s", fn.Name(), x[1:], show(got)))
				case field == "":
					// the whole record at once
					src, ok := args[0].(PtrV)
					r.check(ok && sameVal(q.St, got, newState(p.base).obj(src.Obj).loadPath(x)), "option-function", fn.String(), fn.Pos(), key, fmt.Sprintf("%s gives %s the value %s", fn.Name(), x[1:], show(got)))
				default:
					r.check(sameVal(q.St, got, before.loadPath(x)), "option-function", fn.String(), fn.Pos(), key, fmt.Sprintf("%s changes %s to %s", fn.Name(), x[1:], show(got)))
				}
			}
		}
	}
	r.done(e, 1)
}

// isAppendOf: computed from the argument (a formatted time).
func isAppendOf(v, arg Val) bool {
	if s, ok := v.(StrV); ok {
		return dependsOn(s, arg) || len(leafArgs(s)) > 0
	}
	return false
}

func leafArgs(v Val) (r []*Term) {
	leaves(v, func(t *Term) bool {
		if strings.HasPrefix(t.Op, "arg:") {
			r = append(r, t)
		}
		return true
	})
	return
}

// acceptable: the path admits a value of the argument that the protocol allows.
func acceptable(st *State, field string, v Val) bool {
	hi := map[string]int64{".NeedReport": 1, ".MsgLevel": 9, ".FeeUsertype": 3, ".FeeTerminalType": 1}
	switch x := v.(type) {
	case IntV:
		h, ok := hi[field]
		if !ok {
			h = 255
		}
		for c := int64(0); c <= h; c++ {
			f := st.fork()
			if f.assume(cEqL(x.L, linC(c))) && !infeasible(f.le, f.eq) {
				return true
			}
		}
		return false
	case StrV:
		if field != ".FeeType" {
			return !st.eqL(x.Len, linC(0))
		}
		for _, w := range []string{"01", "02", "03", "04", "05"} {
			if b, known := st.decide(cTerm(mk("streq", x, litStr(w)))); !known || b {
				return true
			}
		}
	}
	return false
}

func (r *Report) optionSlots(pk string, fn *ssa.Function, ver int64, rec *types.Named, fields []string, load *ssa.Function) {
	p := r.P
	rs := &resolver{p: p, memo: map[string]string{}}
	name := fullName(fn)
	ot := mk("options")
	recV := symVal(ot, types.NewPointer(rec)).(PtrV)
	optVal := newState(p.base).obj(recV.Obj)
	var acct PtrV
	for _, q := range fn.Params {
		if n, ok := deref(q.Type()).(*types.Named); ok && n.Obj().Name() == "AuthConf" {
			acct = symVal(mk("arg:"+fn.String()+"."+q.Name()), q.Type()).(PtrV)
		}
	}
	if acct.Obj == "" {
		panic(undecided("%s takes no account", name))
	}
	ao := newState(p.base).obj(acct.Obj)
	at := deref(fn.Params[0].Type()).(*types.Named)
	acctPath := func(n string) string {
		for _, q := range leafPaths(at) {
			if strings.EqualFold(q[1:], n) {
				return q
			}
		}
		panic(undecided("no account setting %s", n))
	}
	optArg := mk("arg:" + fn.String() + "." + fn.Params[len(fn.Params)-1].Name())
	// run with a given choice of options
	run := func(set map[string]bool) (vals map[string]map[string]bool, objs []func(path string) (Val, *State), typ *types.Named) {
		r.tune = func(e *Engine) {
			e.NotNil[recV.Obj] = true
			e.CallHook[fullName(load)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				s, ok := c.Args[0].(SliceV)
				so := symObjs[s.Obj]
				r.check(ok && so != nil && so.Sym == optArg && s.Off.key() == linC(0).key() && s.Len.key() == linT(lenTerm(optArg)).key(), "options-passed", fn.String(), c.Pos, name, name+" does not hand all its options to the loader")
				return c.ret(c.St, recV), true
			}
		}
		defer func() { r.tune = nil }()
		pdus, _ := r.makePdus(fn, ver, func(st *State, _ []Val) {
			for _, f := range fields {
				switch x := optVal.loadPath(f).(type) {
				case IntV:
					if set[f] {
						st.addLe(x.L.addC(-9))
					} else {
						st.storePath(recV.Obj, f, IntV{linC(unsetByte)})
					}
				case StrV:
					if set[f] {
						st.addLe(linC(1).sub(x.Len))
					} else {
						st.storePath(recV.Obj, f, litStr(""))
					}
				}
			}
		})
		r.check(len(pdus) > 0, "submission", fn.String(), fn.Pos(), name, "no message produced")
		vals = map[string]map[string]bool{}
		for _, x := range pdus {
			x := x
			typ = x.typ
			objs = append(objs, func(path string) (Val, *State) { return x.st.obj(x.obj).loadPath(path), x.st })
			for _, s := range optTable[pk] {
				q := rs.path(x.typ, s.slot)
				if q == "" {
					panic(undecided("no field for slot %s of %s", s.slot, x.typ))
				}
				if vals[s.opt] == nil {
					vals[s.opt] = map[string]bool{}
				}
				vals[s.opt][x.st.obj(x.obj).loadPath(q).key()] = true
			}
		}
		return
	}
	all := map[string]bool{}
	for _, f := range fields {
		all[f] = true
	}
	verify := func(s optSlot, set map[string]bool, objs []func(string) (Val, *State), typ *types.Named) {
		isSet := set["."+s.opt]
		rule := "default-used"
		if isSet {
			rule = "option-wins"
		}
		for _, get := range objs {
			v, st := get(rs.path(typ, s.slot))
			var want Val
			switch {
			case s.mode == "suffix" && isSet:
				want = concat(ao.loadPath(acctPath(s.acct)).(StrV), optVal.loadPath("."+s.opt).(StrV))
			case isSet:
				want = optVal.loadPath("." + s.opt)
			case s.mode == "none":
				want = litStr("")
			case s.mode == "derived":
				d := ao.loadPath(acctPath(s.acct))
				r.check(dependsOn(v, d), rule, fn.String(), fn.Pos(), name+"."+s.slot, fmt.Sprintf("%s (version %#x): without the option %s, %s is %s and does not follow the account's %s", name, ver, s.opt, s.slot, show(v), s.acct))
				continue
			default:
				want = ao.loadPath(acctPath(s.acct))
			}
			how := "not given"
			if isSet {
				how = "given"
			}
			r.check(sameVal(st, v, want), rule, fn.String(), fn.Pos(), name+"."+s.slot+"|"+how, fmt.Sprintf("%s (version %#x): with the option %s %s, %s is %s instead of %s", name, ver, s.opt, how, s.slot, show(v), show(want)))
		}
	}
	known := map[string]bool{}
	for _, s := range optTable[pk] {
		known[s.opt] = true
	}
	for _, base := range []map[string]bool{{}, all} {
		bv, objs, typ := run(base)
		for _, s := range optTable[pk] {
			verify(s, base, objs, typ)
		}
		for _, f := range fields {
			flip := map[string]bool{}
			for k, v := range base {
				flip[k] = v
			}
			flip[f] = !base[f]
			fv, objs, typ := run(flip)
			for _, s := range optTable[pk] {
				verify(s, flip, objs, typ)
				if "."+s.opt != f {
					r.check(fmt.Sprint(sortedKeys(fv[s.opt])) == fmt.Sprint(sortedKeys(bv[s.opt])), "only-its-own", fn.String(), fn.Pos(), name+"."+s.slot+f, fmt.Sprintf("%s (version %#x): the option %s also changes %s", name, ver, f[1:], s.slot))
				}
			}
			if r.Deep {
				for _, g := range fields {
					if g <= f {
						continue
					}
					two := map[string]bool{}
					for k, v := range flip {
						two[k] = v
					}
					two[g] = !base[g]
					_, objs, typ := run(two)
					for _, s := range optTable[pk] {
						verify(s, two, objs, typ)
					}
				}
			}
		}
	}
}
