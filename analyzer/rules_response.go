package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04", Level: "proof", Tech: "abstract interpretation (symbolic frame contents)",
		Rule:  "Every ToResponse method is interpreted for an arbitrary request and arbitrary result code at each protocol version, and the response is encoded in the same state. On every path: the command word is the request's code with the response bit, the sequence bytes are the request's own, a version byte is the request's, the result slot holds the caller's code, the message identifier of a delivery response is the one of the delivery, and an accepted submission's identifier is one drawn from the generator for this response.",
		Assum: []string{"result codes fit the protocol's result slot (0..255)"},
		Run:   checkC04})
}

func checkC04(r *Report) {
	p := r.P
	req := p.iface("codec", "RequestPdu")
	for _, pk := range protoPkgs {
		for _, t := range p.implementers(p.pkg(pk), req) {
			fn := p.method(types.NewPointer(t), "ToResponse")
			sp := specOf(pk, t.Obj().Name())
			if sp == nil || fn == nil {
				r.fail("undecided", t.String(), t.Obj().Pos(), "spec", "request type without an entry in the layout table: "+t.String())
				continue
			}
			r.root(fn)
			for _, ver := range versions(r.Deep) {
				r.guard(fullName(fn), func() {
					r.refine(func(r *Report) { r.response(pk, t, sp, fn, ver) })
				})
			}
		}
	}
	r.atLeast("response", 15)
	r.atLeast("paired-code", 15)
	r.atLeast("same-sequence", 15)
	r.atLeast("result-code", 9)
	r.atLeast("message-id", 4)
	r.atLeast("version-kept", 2)
}

func (r *Report) response(pk string, t *types.Named, sp *msgSpec, fn *ssa.Function, ver int64) {
	p := r.P
	name := pk[6:] + "." + t.Obj().Name()
	rs := &resolver{p: p, memo: map[string]string{}}
	idPath := rs.path(t, "MsgId")
	pdus, nils := r.makePdus(fn, ver, func(st *State, args []Val) {
		// a result code fits its slot; a decoded identifier fills its slot
		if c, ok := args[1].(IntV); ok {
			st.addLe(linC(0).sub(c.L))
			st.addLe(c.L.addC(-255))
		}
		if idPath != "" {
			if s, ok := st.obj(args[0].(PtrV).Obj).loadPath(idPath).(SliceV); ok {
				st.addEq(s.Len.addC(-10))
			}
		}
	})
	r.check(len(pdus) > 0 && nils == 0, "response", fn.String(), fn.Pos(), name, name+": no response on some path")
	base := newState(p.base)
	self := symVal(mk("arg:"+fn.String()+"."+fn.Params[0].Name()), fn.Params[0].Type()).(PtrV)
	setVersion(base, self, t, ver)
	ro := base.obj(self.Obj)
	code := linT(mk("arg:" + fn.String() + "." + fn.Params[1].Name()))
	if v, ok := symVal(mk("arg:"+fn.String()+"."+fn.Params[1].Name()), fn.Params[1].Type()).(IntV); ok {
		code = v.L
	}
	for _, x := range pdus {
		rsp := specOf(x.pk, x.typ.Obj().Name())
		if rsp == nil {
			r.fail("undecided", x.typ.String(), x.typ.Obj().Pos(), "spec", "message type without an entry in the layout table: "+x.typ.String())
			continue
		}
		for _, f := range r.encode(x, "") {
			fail := func(rule, key, why string) {
				r.fail(rule, fn.String(), fn.Pos(), name+"|"+key, fmt.Sprintf("%s (version %#x): %s", name, ver, why))
			}
			cmd := f.be(4, 4)
			if f.St.eqL(cmd, linC(int64(sp.cmd|respBit))) {
				r.ok("paired-code", name)
			} else {
				fail("paired-code", "", fmt.Sprintf("the response's command code is %s instead of %#x", cmd, sp.cmd|respBit))
			}
			// sequence
			ok := false
			var got []Lin
			switch v := ro.loadPath(headerPath(t, "SequenceId", "SequenceNumber")).(type) {
			case IntV:
				got = []Lin{f.be(8, 4)}
				ok = f.St.eqL(got[0], v.L)
			case SliceV:
				ok = true
				for i := int64(0); i < 3; i++ {
					w := f.be(8+4*i, 4)
					got = append(got, w)
					e, isI := base.elemAt(base.obj(v.Obj), v.Off.addC(i), "").(IntV)
					ok = ok && isI && f.St.eqL(w, e.L)
				}
			}
			if ok {
				r.ok("same-sequence", name)
			} else {
				fail("same-sequence", "", fmt.Sprintf("the response's sequence bytes are %v, not the request's", got))
			}
			// where the response's layout puts result, identifier and version
			ps, end := place(headLen(pk), parseLayout(rsp.layout(ver)), f)
			if f.St.eqL(end, f.S.Len) {
				r.ok("same-version", name)
			} else {
				fail("same-version", "", fmt.Sprintf("the response has %s bytes, this version's layout has %s", f.S.Len, end))
				continue
			}
			for _, q := range ps {
				o := f.St.obj(f.S.Obj)
				switch q.name {
				case "Status", "Result":
					v := f.St.beInt(o, f.S.Off.add(q.off), q.w)
					if f.St.eqL(v, code) {
						r.ok("result-code", name)
					} else {
						fail("result-code", q.name, fmt.Sprintf("the result slot holds %s, not the code the caller gave", show(IntV{v})))
					}
				case "Version":
					v := f.St.beInt(o, f.S.Off.add(q.off), 1)
					want := linC(ver)
					if f.St.eqL(v, want) {
						r.ok("version-kept", name)
					} else {
						fail("version-kept", "", fmt.Sprintf("the response announces version %s", v))
					}
				case "MsgId":
					r.msgID(f, q, sp, ro, base, idPath, code, name, fn, ver)
				}
			}
		}
	}
}

// sameBytes: two contents of equal length and the same source.
func sameBytes(st *State, a, b StrV) bool {
	norm := func(s StrV) (string, Lin, Lin) {
		t, off := s.T, linC(0)
		for t.Op == "sub" {
			off = off.add(t.Args[1].(IntV).L)
			t = t.Args[0].(TermV).T
		}
		return TermV{T: t}.key(), off, s.Len
	}
	ka, oa, la := norm(a)
	kb, ob, lb := norm(b)
	return ka == kb && st.eqL(oa, ob) && st.eqL(la, lb)
}

// msgID: a delivery's response repeats the delivery's identifier, a submission's names a new one.
func (r *Report) msgID(f *FrameSnap, q placed, sp *msgSpec, ro *Obj, base *State, path string, code Lin, name string, fn *ssa.Function, ver int64) {
	st := f.St
	o := st.obj(f.S.Obj)
	off := f.S.Off.add(q.off)
	// what was last written at the slot's beginning
	var content Val = litStr("")
	for i := len(o.W) - 1; i >= 0; i-- {
		if w := o.W[i]; w.Each == nil && w.V != nil && st.eqL(w.Off, off) && st.eqL(w.SrcOff, linC(0)) {
			content = w.V
			break
		}
	}
	ok, why := false, ""
	if !strings.HasPrefix(sp.typ, "Submit") { // the request names a message
		if path == "" {
			panic(undecided("no identifier field in %s", name))
		}
		switch v := ro.loadPath(path).(type) {
		case IntV:
			got := st.beInt(o, off, q.w)
			ok = st.eqL(got, v.L)
			why = fmt.Sprintf("the identifier slot holds %s, not the request's identifier", got)
		case SliceV:
			srcs := sources(ownTerms(base, ro.ID, deref(fn.Params[0].Type())), content)
			got := st.bytesVal(SliceV{Obj: f.S.Obj, Off: off, Len: linC(q.w), Cap: linC(q.w), Elem: types.Typ[types.Byte]})
			ok = len(srcs) == 1 && srcs[0] == path && sameBytes(st, got, base.bytesVal(v))
			why = fmt.Sprintf("the identifier slot is filled from %v, not from the request's identifier", srcs)
		}
	} else {
		accepted := true
		if v, known := st.decide(cEqL(code, linC(0))); known {
			accepted = v
		}
		for _, ev := range st.trace.list() {
			if ev.Kind != "nextval" {
				continue
			}
			switch d := ev.Args[1].(type) {
			case IntV:
				got := st.beInt(o, off, q.w)
				ok = ok || st.eqL(got, d.L) || mentions(got, d.L)
			default:
				found := false
				want := ev.Args[1].key()
				leaves(content, func(t *Term) bool {
					if (TermV{T: t}).key() == want {
						found = true
					}
					return true
				})
				if s, isS := d.(SliceV); isS && !found {
					if so := st.obj(s.Obj); so != nil && so.Sym != nil {
						leaves(content, func(t *Term) bool { found = found || t == so.Sym; return true })
					}
				}
				ok = ok || found
			}
		}
		if !accepted {
			ok = true
		}
		why = "the identifier of an accepted submission is not drawn from the generator: " + show(content)
	}
	if ok {
		r.ok("message-id", name)
	} else {
		r.fail("message-id", fn.String(), fn.Pos(), name, fmt.Sprintf("%s (version %#x): %s", name, ver, why))
	}
}
