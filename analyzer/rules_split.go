package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06", Level: "proof", Tech: "abstract interpretation (symbolic part contents, linear coverage argument)",
		Rule:  "The splitting function the submission constructors call is interpreted for arbitrary content at each part size they use. A result that is one slice is the whole content and fits; in the loop that builds the parts, part k of the general iteration carries 05 00 03, a reference computed outside the loop, the total, k+1 and then bytes c*k.. of the content, ending at c*(k+1) or, exactly for k = total-1, at the end of the content; total is proved to be ceil(length/c), at most 255, and the returned list has that length; nothing is returned only if 255 parts do not suffice. In every submission constructor the splitter gets the whole encoded content with a size the coding allows, message k carries exactly part k, the UDH indicator is set if and only if there are several parts and the total and number fields are the list's length and k+1.",
		Assum: []string{"character set conversion (UCS-2, GB 18030) by golang.org/x/text is lossless for convertible text"},
		Run:   checkC06})
}

// splitters: functions that cut bytes into a list of parts.
func (p *Program) splitters() []*ssa.Function {
	var r []*ssa.Function
	for _, pk := range []string{"utils", "codec", "codec/cmpp", "codec/sgip", "codec/smgp"} {
		r = append(r, p.funcsOf(pk, func(f *ssa.Function) bool {
			rs, ps := f.Signature.Results(), f.Signature.Params()
			if f.Parent() != nil || rs.Len() != 1 || rs.At(0).Type().String() != "[][]byte" || ps.Len() == 0 || !isByteSlice(ps.At(0).Type()) {
				return false
			}
			for i := 1; i < ps.Len(); i++ {
				if !isInt(ps.At(i).Type()) {
					return false
				}
			}
			return true
		})...)
	}
	return r
}

type splitCall struct {
	fn   *ssa.Function
	args []int64
}

func checkC06(r *Report) {
	p := r.P
	sp := p.splitters()
	calls := map[string]splitCall{}
	for _, pk := range protoPkgs {
		for _, fn := range p.funcsOf(pk, func(f *ssa.Function) bool {
			s, ok := f.Signature.Results(), f.Object() != nil && f.Object().Exported() && f.Parent() == nil
			if !ok || s.Len() != 1 {
				return false
			}
			_, isList := s.At(0).Type().Underlying().(*types.Slice)
			return isList && types.Implements(s.At(0).Type().Underlying().(*types.Slice).Elem(), p.iface("codec", "Pdu"))
		}) {
			r.root(fn)
			for _, ver := range []int64{0x20, 0x30} {
				r.guard(fullName(fn), func() {
					r.refine(func(r *Report) { r.partsCarried(pk, fn, ver, sp, calls) })
				})
			}
		}
	}
	for _, k := range sortedKeys(calls) {
		c := calls[k]
		r.root(c.fn)
		r.guard(k, func() { r.splitExact(c, k) })
	}
	r.atLeast("submission", 6)
	r.atLeast("whole-content", 6)
	r.atLeast("part-carried", 6)
	r.atLeast("part-number", 4)
	r.atLeast("udh-flag", 6)
	r.atLeast("part-header", 2)
	r.atLeast("part-range", 2)
	r.atLeast("part-total", 2)
	r.atLeast("list-length", 2)
	r.atLeast("refusal", 2)
	r.atLeast("single", 2)
}

// partsCarried checks a submission constructor against the list the splitter gives it.
func (r *Report) partsCarried(pk string, fn *ssa.Function, ver int64, sp []*ssa.Function, calls map[string]splitCall) {
	p := r.P
	name := fullName(fn)
	type call struct {
		st      *State
		content StrV
		size    int64
		list    *Term
	}
	var made []call
	r.tune = func(e *Engine) {
		e.NoMerge, e.TopOnly = true, true
		for _, s := range sp {
			e.CallHook[fullName(s)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				b, ok := c.Args[0].(SliceV)
				if !ok {
					return nil, false
				}
				sc := splitCall{fn: s}
				key := fullName(s)
				size := int64(0)
				for _, a := range c.Args[1:] {
					n, ok := c.St.constOf(a.(IntV).L)
					if !ok {
						panic(undecided("the part size given to %s is not a constant", fullName(s)))
					}
					sc.args = append(sc.args, n)
					if n > size {
						size = n
					}
					key += fmt.Sprintf(",%d", n)
				}
				calls[key] = sc
				v := c.St.bytesVal(b)
				t := mk("parts", v, IntV{linC(size)})
				l := symVal(t, c.Sig.Results().At(0).Type()).(SliceV)
				o := c.St.obj(l.Obj).clone()
				o.Sum = &ElemSum{Lo: 0, Hi: size, HasLo: true, HasHi: true}
				c.St.setObj(o)
				c.St.addLe(l.Len.addC(-255))
				if e.probing == 0 {
					made = append(made, call{c.St.fork(), v, size, t})
				}
				return c.ret(c.St, l), true
			}
		}
	}
	defer func() { r.tune = nil }()
	pdus, _ := r.makePdus(fn, ver)
	r.check(len(pdus) > 0 && len(made) > 0, "submission", fn.String(), fn.Pos(), name, name+" does not build its messages from split content")
	own := map[*Term]string{}
	for _, q := range fn.Params {
		own[mk("arg:"+fn.String()+"."+q.Name())] = q.Name()
	}
	var text string
	for _, q := range fn.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			text = q.Name()
		}
	}
	for _, c := range made {
		src := sources(own, c.content)
		whole := len(src) == 1 && src[0] == text
		if whole {
			// nothing cut off: the argument itself or a conversion of all of it
			leaves(c.content, func(t *Term) bool {
				if t.Op == "sub" || t.Op == "cat" {
					whole = false
				}
				return true
			})
		}
		raw := c.content.T == mk("arg:"+fn.String()+"."+text)
		limit := int64(140)
		if raw {
			limit = 160
		}
		r.check(whole, "whole-content", fn.String(), fn.Pos(), name, fmt.Sprintf("%s splits %s, which is not the whole of its text", name, show(c.content)))
		r.check(c.size <= limit && c.size > 6, "part-size", fn.String(), fn.Pos(), name, fmt.Sprintf("%s splits into parts of %d bytes, one message holds %d", name, c.size, limit))
	}
	for _, x := range pdus {
		sp := specOf(x.pk, x.typ.Obj().Name())
		for _, f := range r.encode(x, "") {
			st := f.St
			fr := st.obj(f.S.Obj)
			ps, _ := place(headLen(x.pk), parseLayout(sp.layout(ver)), f)
			var list *Term
			slotInt := func(n string) (Lin, bool) {
				for _, q := range ps {
					if q.name == n {
						return st.beInt(fr, f.S.Off.add(q.off), q.w), true
					}
				}
				return Lin{}, false
			}
			idx := linC(0)
			if x.part {
				idx = linT(x.k)
			}
			carried, why := false, "no content"
			for _, q := range ps {
				if q.size == "" {
					continue
				}
				got := st.bytesVal(SliceV{Obj: f.S.Obj, Off: f.S.Off.add(q.off), Len: q.n, Cap: q.n, Elem: types.Typ[types.Byte]})
				why = "it carries " + show(got)
				for _, c := range made {
					l := symVal(c.list, types.NewSlice(types.NewSlice(types.Typ[types.Byte]))).(SliceV)
					el, ok := st.elemAt(st.obj(l.Obj), l.Off.add(idx), "").(SliceV)
					if ok && sameBytes(st, got, st.bytesVal(el)) {
						carried, list = true, c.list
					}
				}
			}
			r.check(carried, "part-carried", fn.String(), fn.Pos(), name, fmt.Sprintf("%s (version %#x): message %s does not carry exactly part %s: %s", name, ver, idx, idx, why))
			if !carried {
				continue
			}
			total := linT(lenTerm(list))
			many := true
			if v, known := st.decide(cEqL(total, linC(1))); known {
				many = !v
			}
			udh, ok := slotInt("TpUdhi")
			number, ok2 := slotInt("PkNumber")
			all, ok3 := slotInt("PkTotal")
			if tl := r.tlvInts(x, f); tl != nil {
				get := func(tag int64) (Lin, bool) { v, ok := tl[tag]; return v, ok }
				udh, ok = get(tlvTag(p, pk, "TP_udhi"))
				number, ok2 = get(tlvTag(p, pk, "PkNumber"))
				all, ok3 = get(tlvTag(p, pk, "PkTotal"))
			}
			want := int64(0)
			if many {
				want = 1
			}
			if !ok && !many {
				udh, ok = linC(0), true // no indicator at all
			}
			r.check(ok && st.eqL(udh, linC(want)), "udh-flag", fn.String(), fn.Pos(), name, fmt.Sprintf("%s (version %#x): the concatenation indicator is %s for a text of %s parts", name, ver, udh, total))
			if !many && x.pk == "codec/smgp" || x.pk == "codec/sgip" {
				continue // no such fields
			}
			r.check(ok2 && st.eqL(number, idx.addC(1)), "part-number", fn.String(), fn.Pos(), name+"|n", fmt.Sprintf("%s (version %#x): message %s is numbered %s", name, ver, idx, number))
			r.check(ok3 && st.eqL(all, total), "part-number", fn.String(), fn.Pos(), name+"|t", fmt.Sprintf("%s (version %#x): message %s announces %s of %s parts", name, ver, idx, all, total))
		}
	}
}

func tlvTag(p *Program, pk, name string) int64 {
	for _, m := range p.pkg(pk).Members {
		if c, ok := m.(*ssa.NamedConst); ok && strings.EqualFold(c.Name(), name) {
			return c.Value.Int64()
		}
	}
	for _, m := range p.pkg("utils").Members {
		if c, ok := m.(*ssa.NamedConst); ok && strings.EqualFold(c.Name(), name) {
			return c.Value.Int64()
		}
	}
	panic(undecided("no tag %s", name))
}

// tlvInts: the one-byte optional parameters of a message by tag; nil without a list.
func (r *Report) tlvInts(x *pdu, f *FrameSnap) map[int64]Lin {
	var m map[int64]Lin
	for _, ref := range f.St.reachList(x.obj) {
		l := f.St.obj(ref)
		if l == nil || l.Hav {
			continue
		}
		m = map[int64]Lin{}
		for _, el := range l.List {
			pt, ok := unIface(f.St.obj(el).loadPath(".Value")).(PtrV)
			if !ok {
				continue
			}
			o := f.St.obj(pt.Obj)
			var tag int64 = -1
			var val Lin
			for _, q := range leafPaths(o.Typ) {
				switch v := o.loadPath(q).(type) {
				case IntV:
					if tag < 0 && strings.HasPrefix(strings.ToLower(q), ".t") {
						tag, _ = f.St.constOf(v.L)
					}
				case SliceV:
					val = f.St.beInt(f.St.obj(v.Obj), v.Off, 1)
				}
			}
			m[tag] = val
		}
	}
	return m
}

// splitExact proves the splitter's list covers the content exactly.
func (r *Report) splitExact(c splitCall, name string) {
	p := r.P
	e := NewEngine(p)
	e.NoMerge = true
	for _, k := range []string{"append", "elemstore", "fresh"} {
		e.Want[k] = true
	}
	st := newState(p.base)
	args := symArgs(e, c.fn)
	size := int64(0)
	for i, n := range c.args {
		args[1+i] = IntV{linC(n)}
		if n > size {
			size = n
		}
	}
	body := size - 6
	content := args[0].(SliceV)
	ct := symObjs[content.Obj].Sym
	fn := c.fn
	parts := 0
	e.OnBack = func(s *State, l *loopInfo, d []*Ev) {
		k := e.CurK
		inside := map[*Term]bool{k: true}
		for _, ev := range d {
			if ev.Kind == "fresh" {
				inside[ev.Args[0].(TermV).T] = true
			}
		}
		appended := false
		for _, ev := range d {
			_, isS := ev.Args[0].(SliceV)
			appended = appended || ev.Kind == "append" && isS
		}
		for _, ev := range d {
			if ev.Kind != "append" && (appended || ev.Kind != "elemstore") {
				continue
			}
			part, ok := ev.Args[0].(SliceV)
			if !ok || !isByte(part.Elem) {
				continue
			}
			parts++
			fail := func(rule, key, msg string) { r.fail(rule, fn.String(), ev.Pos, name+key, name+": "+msg) }
			kl := linT(k)
			// it is element k of the list
			r.check(s.eqL(ev.Args[1].(IntV).L, kl), "part-position", fn.String(), ev.Pos, name, fmt.Sprintf("%s: part k is stored as element %s", name, ev.Args[1].(IntV).L))
			o := s.obj(part.Obj)
			if !s.le0(linC(7), part.Len) || !s.le0(part.Len, linC(size)) {
				fail("part-size", "|len", fmt.Sprintf("a part has %s bytes, one message holds %d", part.Len, size))
			} else {
				r.ok("part-size", name)
			}
			at := func(i int64) Lin { return s.beInt(o, part.Off.addC(i), 1) }
			good := true
			for i, v := range []int64{5, 0, 3} {
				good = good && s.eqL(at(int64(i)), linC(v))
			}
			if good {
				r.ok("part-header", name)
			} else {
				fail("part-header", "", fmt.Sprintf("a part starts with %s %s %s instead of 5 0 3", at(0), at(1), at(2)))
			}
			// shared reference
			shared := true
			leaves(IntV{at(3)}, func(t *Term) bool {
				if inside[t] {
					shared = false
				}
				return true
			})
			if g := at(3); len(g.T) == 1 && strings.HasPrefix(g.T[0].T.Op, "be") && g.T[0].T.Args != nil {
				if tv, ok := g.T[0].T.Args[0].(TermV); ok && tv.T.Op == "mem" {
					shared = false
				}
			}
			if shared {
				r.ok("part-reference", name)
			} else {
				fail("part-reference", "", fmt.Sprintf("the reference number %s is not the same for all parts", at(3)))
			}
			if s.eqL(at(5), kl.addC(1)) {
				r.ok("part-number", name)
			} else {
				fail("part-number", "|udh", fmt.Sprintf("part k is numbered %s", at(5)))
			}
			// its bytes
			bv := s.bytesVal(SliceV{Obj: part.Obj, Off: part.Off.addC(6), Len: part.Len.addC(-6), Cap: part.Len, Elem: part.Elem})
			t, from := bv.T, linC(0)
			for t.Op == "sub" {
				from = from.add(t.Args[1].(IntV).L)
				t = t.Args[0].(TermV).T
			}
			if t != ct {
				fail("part-range", "|src", fmt.Sprintf("a part's text is %s, not a piece of the content", show(bv)))
				continue
			}
			step := from.coef(k)
			if step <= 0 || step > body || !s.eqL(from, kl.mulC(step)) {
				fail("part-range", "|from", fmt.Sprintf("part k starts at byte %s of the content", from))
				continue
			}
			r.ok("part-range", name)
			total := at(4)
			to := from.add(bv.Len)
			n := content.Len
			if !s.le0(n, total.mulC(step)) || !s.le0(total.addC(-1).mulC(step).addC(1), n) || !s.le0(total, linC(255)) {
				fail("part-total", "", fmt.Sprintf("the total %s is not proved to be the number of %d-byte pieces of the content", total, step))
				continue
			}
			r.ok("part-total", name)
			last, known := s.decide(cEqL(kl, total.addC(-1)))
			switch {
			case known && last && s.eqL(to, n):
				r.ok("part-range", name)
			case s.eqL(to, kl.addC(1).mulC(step)) && s.le0(to, n):
				r.ok("part-range", name)
			case s.eqL(to, n) && s.le0(total.addC(-1), kl):
				r.ok("part-range", name)
			default:
				fail("part-range", "|to", fmt.Sprintf("part k (last: %v) ends at byte %s of the content", known && last, to))
			}
		}
	}
	outs := e.Run(fn, args, nil, st, fn.Pos())
	r.done(e, len(outs))
	r.check(parts > 0, "part-range", fn.String(), fn.Pos(), name+"|none", name+": no part is built in a loop")
	n := content.Len
	for _, o := range outs {
		if o.Panic {
			r.fail("refusal", fn.String(), fn.Pos(), name+"|panic", name+": the split can panic")
			continue
		}
		s, ok := o.Res[0].(SliceV)
		if _, isNil := o.Res[0].(NilV); isNil || ok && s.Obj == "" {
			r.check(o.St.le0(linC(255*body+1), n), "refusal", fn.String(), fn.Pos(), name, fmt.Sprintf("%s: content is refused that fits 255 parts of %d bytes", name, body))
			continue
		}
		if !ok {
			panic(undecided("%s returns %s", name, show(o.Res[0])))
		}
		a := o.St.obj(s.Obj)
		if k, isC := o.St.constOf(s.Len); isC && k == 1 && len(a.F) == 1 {
			el, isS := o.St.elemAt(a, s.Off, "").(SliceV)
			r.check(isS && sameBytes(o.St, o.St.bytesVal(el), o.St.bytesVal(content)) && o.St.le0(n, linC(size)), "single", fn.String(), fn.Pos(), name, name+": a single part is not the whole content, or too long")
			continue
		}
		fits := false
		for step := body; step > 0 && !fits; step-- {
			fits = o.St.le0(n, s.Len.mulC(step)) && o.St.le0(s.Len.addC(-1).mulC(step).addC(1), n)
			if step < body-1 {
				break
			}
		}
		r.check(fits, "list-length", fn.String(), fn.Pos(), name, fmt.Sprintf("%s: the list of %s parts is not proved to cover the content", name, s.Len))
	}
}
