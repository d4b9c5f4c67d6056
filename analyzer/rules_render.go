package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10", Level: "proof", Tech: "abstract interpretation (proof obligations on every access)",
		Rule:  "For every message type, decoding an arbitrary byte string into a new message of an arbitrary protocol version is interpreted, and from every state in which it reports success each method that a handler may call on the message without arguments (log fields, text, accessors) and the building of its response is interpreted too; every index, slice bound, nil dereference and type assertion on the way is an obligation. The same for the text and log form of every code type (command, status, version, result) at an arbitrary value.",
		Assum: []string{"the identifier generators are set (start-up does)", "optional parameter lists: see C09", "the message was decoded into a new object (as every handler does)", "panics inside fmt's own formatting are contained by fmt"},
		Run:   checkC10})
}

func rendering(fn *ssa.Function) bool {
	switch fn.Name() {
	case "Log", "OpLog", "String", "ToInt":
		return true
	}
	return false
}

func checkC10(r *Report) {
	p := r.P
	codes, msgs := 0, 0
	for _, pk := range codecPkgs {
		sp := p.pkg(pk)
		for _, m := range sortedKeys(sp.Members) {
			tm, ok := sp.Members[m].(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := tm.Type().(*types.Named)
			if !ok || !isInt(n) {
				continue
			}
			ms := types.NewMethodSet(n)
			for i := 0; i < ms.Len(); i++ {
				fn := p.method(n, ms.At(i).Obj().Name())
				if fn == nil || len(fn.Params) != 1 || len(fn.Blocks) == 0 || !rendering(fn) {
					continue
				}
				codes++
				r.root(fn)
				r.guard(fullName(fn), func() {
					e := NewEngine(p)
					e.Oblige, e.Strict = true, true
					outs := e.Run(fn, symArgs(e, fn), nil, newState(p.base), fn.Pos())
					r.takeObls(e, "code-text")
					r.done(e, len(outs))
					r.ends(fn, outs)
				})
			}
		}
	}
	used := map[*ssa.Function]bool{}
	pdu := p.iface("codec", "Pdu")
	for _, pk := range protoPkgs {
		for _, t := range p.implementers(p.pkg(pk), pdu) {
			msgs++
			r.guard(t.String(), func() { r.refine(func(r *Report) { r.renders(pk, t, used) }) })
		}
	}
	// the helpers those calls went through, for any arguments
	hs := map[string]*ssa.Function{}
	for f := range used {
		hs[fullName(f)] = f
	}
	for _, k := range sortedKeys(hs) {
		fn := hs[k]
		r.root(fn)
		r.guard(k, func() {
			e := NewEngine(p)
			e.Oblige, e.Strict = true, true
			outs := e.Run(fn, symArgs(e, fn), nil, newState(p.base), fn.Pos())
			r.takeObls(e, "helper")
			r.done(e, len(outs))
			r.ends(fn, outs)
		})
	}
	r.check(codes >= 10, "code-text", "codec", 0, "count", fmt.Sprintf("only %d text methods of code types found", codes))
	r.check(msgs >= 28, "message-text", "codec", 0, "count", fmt.Sprintf("only %d message types found", msgs))
	r.atLeast("decoded", 28)
	r.atLeast("message-text", 100)
}

// plainHelper: a function of package utils over numbers and texts; it is judged by itself.
func plainHelper(fn *ssa.Function) bool {
	if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/utils") || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
		return false
	}
	vs := append([]*ssa.Parameter{}, fn.Params...)
	for _, v := range vs {
		if _, ok := v.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	_, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return ok
}

func (r *Report) ends(fn *ssa.Function, outs []Outcome) {
	for _, o := range outs {
		if o.Panic {
			r.fail("returns", fn.String(), fn.Pos(), "panic", fullName(fn)+" can panic")
			return
		}
	}
	r.check(len(outs) > 0, "returns", fn.String(), fn.Pos(), "none", fullName(fn)+" never returns")
}

// renders decodes an arbitrary message and calls everything that shows it.
func (r *Report) renders(pk string, t *types.Named, used map[*ssa.Function]bool) {
	p := r.P
	pt := types.NewPointer(t)
	t0 := time.Now()
	dec := p.method(pt, "Decode")
	r.root(dec)
	e := NewEngine(p)
	e.NoMerge = r.fine
	e.Skip = returnsLogFields
	st := newState(p.base)
	o := e.alloc(st, OCell, t, dec.Pos(), linC(0))
	for _, q := range leafPaths(t) {
		if strings.HasSuffix(q, "Version") {
			if lt := typeAt(t, q); lt != nil {
				st.storePath(o.ID, q, symVal(mk("ver:"+t.String()), lt))
			}
		}
	}
	self := PtrV{Obj: o.ID}
	args := symArgs(e, dec)
	args[0] = self
	outs := e.Run(dec, args, nil, st, dec.Pos())
	r.done(e, len(outs))
	var seqs []*ssa.Global // generators, set at start-up
	for _, k := range []string{"codec", pk} {
		for _, m := range sortedKeys(p.pkg(k).Members) {
			if g, ok := p.pkg(k).Members[m].(*ssa.Global); ok && strings.Contains(m, "Seq") {
				p.globalObj(g)
				seqs = append(seqs, g)
			}
		}
	}
	ms := types.NewMethodSet(pt)
	n := 0
	for _, o := range outs {
		if o.Panic || len(o.Res) == 1 && isErr(o.St, e, o.Res[0]) {
			continue
		}
		n++
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if !m.Exported() || m.Name() == "Encode" {
				continue
			}
			fn := p.method(pt, m.Name())
			if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() == 0 {
				continue
			}
			if len(fn.Params) != 1 && m.Name() != "ToResponse" {
				continue
			}
			if os.Getenv("GOSMS_TIME") != "" {
				fmt.Println("  ", fn, time.Since(t0))
			}
			e2 := NewEngine(p)
			e2.Oblige, e2.Strict, e2.NoMerge = true, true, r.fine
			e2.Skip = func(f *ssa.Function) bool {
				if f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "/utils.TlvList") {
					return true // judged by C09
				}
				if !plainHelper(f) {
					return false
				}
				used[f] = true
				return true
			}
			as := symArgs(e2, fn)
			as[0] = self
			s2 := o.St.fork()
			for _, g := range seqs {
				s2.assume(e2.isNil(s2, e2.load(s2, PtrV{Obj: "G:" + g.String()}, deref(g.Type()), fn.Pos())).not())
			}
			res := e2.Run(fn, as, nil, s2, fn.Pos())
			r.takeObls(e2, "message-text")
			r.done(e2, len(res))
			for _, q := range res {
				r.check(!q.Panic, "message-text", fn.String(), fn.Pos(), t.Obj().Name()+"|panic", fmt.Sprintf("%s of a received %s can panic", m.Name(), t.Obj().Name()))
			}
			if len(res) == 0 {
				r.fail("message-text", fn.String(), fn.Pos(), t.Obj().Name()+"|none", fullName(fn)+" never returns")
			}
		}
	}
	if os.Getenv("GOSMS_TIME") != "" {
		fmt.Println(t, n, time.Since(t0))
	}
	r.check(n > 0, "decoded", dec.String(), dec.Pos(), t.Obj().Name(), t.Obj().Name()+" is never decoded successfully")
}

// isErr: the result is certainly an error.
func isErr(st *State, e *Engine, v Val) bool {
	isNil, known := st.decide(e.isNil(st, v))
	return known && !isNil
}
