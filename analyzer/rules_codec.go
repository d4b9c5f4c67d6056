package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var codecPkgs = []string{"codec", "codec/cmpp", "codec/sgip", "codec/smgp"}
var protoPkgs = []string{"codec/cmpp", "codec/sgip", "codec/smgp"}

// methodsOf lists the declared methods with the given name in the package.
func (p *Program) funcsOf(path string, want func(f *ssa.Function) bool) []*ssa.Function {
	sp := p.pkg(path)
	var r []*ssa.Function
	for _, f := range p.All {
		if f.Pkg == sp && f.Synthetic == "" && want(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func takesBytes(f *ssa.Function) bool {
	for i, q := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if isByteSlice(q.Type()) {
			return true
		}
	}
	return false
}

// symArgs makes unknown arguments; the receiver is a non-nil pointer.
func symArgs(e *Engine, fn *ssa.Function) []Val {
	var as []Val
	for i, q := range fn.Params {
		t := mk("arg:" + fn.String() + "." + q.Name())
		v := symVal(t, q.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if pt, ok := v.(PtrV); ok && !e.MayNil[t.Op] {
				e.NotNil[pt.Obj] = true
			}
		}
		as = append(as, v)
	}
	return as
}

func init() {
	register(&Check{ID: "C01", Level: "proof", Tech: "abstract interpretation (proof obligations on every access)",
		Rule:  "Every Decode method and Unpack function of the codec packages that takes received bytes is interpreted abstractly for an arbitrary byte string, arbitrary protocol version and arbitrary prior receiver content; every index, slice bound, conversion, nil dereference, type assertion, map lookup and library precondition on every path is an obligation that must follow from the path's own length tests. A loop must have a decided bound or a checked invariant.",
		Assum: []string{"the receiver of Decode is a non-nil pointer made by the package (zero value or constructor); fields holding pointers may be nil unless the path set them"},
		Run:   checkC01})
}

func checkC01(r *Report) {
	p := r.P
	n := 0
	for _, pk := range codecPkgs {
		for _, fn := range p.funcsOf(pk, func(f *ssa.Function) bool {
			return f.Parent() == nil && (f.Name() == "Decode" || strings.HasPrefix(f.Name(), "Unpack") || strings.HasPrefix(f.Name(), "Parse")) && (takesBytes(f) || f.Name() == "Decode")
		}) {
			n++
			r.root(fn)
			r.guard(fullName(fn), func() {
				e := NewEngine(p)
				e.Oblige, e.Strict = true, true
				e.Skip = returnsLogFields
				outs := e.Run(fn, symArgs(e, fn), nil, newState(p.base), fn.Pos())
				r.takeObls(e, "no-fault")
				r.done(e, len(outs))
				ret := 0
				for _, o := range outs {
					if o.Panic {
						r.fail("returns", fn.String(), fn.Pos(), "panic", "a path of the decoder panics")
					} else {
						ret++
					}
				}
				r.check(ret > 0, "returns", fn.String(), fn.Pos(), "returns", "no path of the decoder returns")
			})
		}
	}
	// every received message type has its decoder among the roots
	pdu := p.iface("codec", "Pdu")
	have := map[string]bool{}
	for _, x := range r.Roots {
		have[x] = true
	}
	for _, pk := range protoPkgs {
		for _, t := range p.implementers(p.pkg(pk), pdu) {
			m := p.method(types.NewPointer(t), "Decode")
			name := ""
			if m != nil {
				name = fullName(m)
			}
			r.check(have[name], "decoder-covered", t.String(), t.Obj().Pos(), t.Obj().Name(), "message type without an analysed decoder: "+t.String())
		}
	}
	r.atLeast("no-fault", 100)
	r.atLeast("decoder-covered", 25)
	r.atLeast("returns", 30)
}
