package main

import (
	"fmt"
	"go/types"
)

func init() {
	register(&Check{ID: "C09", Level: "other", Tech: "abstract interpretation (symbolic entries, lists up to a length bound)",
		Rule:  "Reading one entry is interpreted for an arbitrary byte string: success takes exactly type, length and that many value bytes and happens exactly when they are all there. Lists of up to four (thorough: five) entries with arbitrary types, values and value lengths are built, written, read back, searched and pruned by an arbitrary type or entry: the bytes written are each entry's type, length and value in order, reading them gives the same entries, and a search or removal touches exactly the matching entries whatever the pattern of equal types.",
		Assum: []string{"value lengths up to 65535 bytes, the largest a TLV can announce", "lists longer than the bound behave like shorter ones"},
		Run:   checkC09})
}

type tlvRun struct {
	r    *Report
	e    *Engine
	list types.Type
	obj  types.Type
}

type tlvEntry struct {
	tag Lin
	val StrV
	arg SliceV
}

func (t *tlvRun) entry(st *State, name string) tlvEntry {
	tag := symVal(mk("tlvtag:"+name), types.Typ[types.Uint16]).(IntV).L
	v := symVal(mk("tlvval:"+name), byteSliceT()).(SliceV)
	st.addLe(v.Len.addC(-65535))
	return tlvEntry{tag, st.bytesVal(v), v}
}

// call runs a function or method and keeps the outcomes; any panic is a finding.
func (t *tlvRun) call(st *State, name string, args ...Val) []Outcome {
	p := t.r.P
	fn := p.pkg("utils").Func(name)
	if fn == nil {
		fn = p.method(t.list, name)
	}
	if fn == nil {
		panic(undecided("no function or method %s", name))
	}
	outs := t.e.Run(fn, args, nil, st, fn.Pos())
	t.r.done(t.e, len(outs))
	var good []Outcome
	for _, o := range outs {
		if o.Panic {
			t.r.fail("no-fault", fn.String(), fn.Pos(), name, name+" can panic")
			continue
		}
		t.r.ok("no-fault", name)
		good = append(good, o)
	}
	return good
}

// methodInt and methodBytes read an entry through its own interface.
func (t *tlvRun) get(st *State, v Val, m string) Val {
	iv, ok := v.(IfaceV)
	if !ok {
		panic(undecided("an entry is %s", show(v)))
	}
	fn := t.r.P.method(iv.T, m)
	outs := t.e.Run(fn, []Val{iv.V}, nil, st, fn.Pos())
	if len(outs) != 1 || outs[0].Panic {
		panic(undecided("%s has %d outcomes", m, len(outs)))
	}
	return outs[0].Res[0]
}

func (t *tlvRun) same(st *State, v Val, want tlvEntry) string {
	tag, _ := t.get(st, v, "Type").(IntV)
	ln, _ := t.get(st, v, "Length").(IntV)
	val, _ := t.get(st, v, "Value").(SliceV)
	switch {
	case !st.eqL(tag.L, want.tag):
		return fmt.Sprintf("its type is %s, not %s", tag.L, want.tag)
	case !st.eqL(ln.L, want.val.Len):
		return fmt.Sprintf("its length is %s for a value of %s bytes", ln.L, want.val.Len)
	case !st.eqL(val.Len, want.val.Len):
		return fmt.Sprintf("its value has %s bytes, not %s", val.Len, want.val.Len)
	case !sameContent(st, st.bytesVal(val), want.val):
		return fmt.Sprintf("its value is %s, not %s", show(st.bytesVal(val)), show(want.val))
	}
	return ""
}

func sameContent(st *State, a, b StrV) bool {
	return a.T == b.T || st.eqL(a.Len, linC(0)) && st.eqL(b.Len, linC(0)) ||
		st.eqL(a.Len, b.Len) && subContent(st, a.T, linC(0), b.Len).T == subContent(st, b.T, linC(0), b.Len).T
}

// buffer makes an empty buffer as an io.Writer and io.Reader.
func (t *tlvRun) buffer(st *State, v Val) IfaceV {
	var bt types.Type
	for _, q := range t.r.P.pkg("utils").Pkg.Imports() {
		if q.Path() == "bytes" {
			bt = q.Scope().Lookup("Buffer").Type()
		}
	}
	if bt == nil {
		panic(undecided("package bytes is not imported by utils"))
	}
	fn := t.r.P.fn("utils", "Read")
	o := t.e.alloc(st, OCell, bt, fn.Pos(), linC(0))
	if v == nil {
		v = litStr("")
	}
	st.storePath(o.ID, ".buf", v)
	return IfaceV{T: types.NewPointer(bt), V: PtrV{Obj: o.ID}}
}

// written checks the bytes against the entries.
func (t *tlvRun) written(st *State, b StrV, want []tlvEntry) string {
	off := linC(0)
	for i, w := range want {
		if g := st.beOf(b.T, off, 2); !st.eqL(g, w.tag) {
			return fmt.Sprintf("entry %d is written with type %s instead of %s", i, g, w.tag)
		}
		if g := st.beOf(b.T, off.addC(2), 2); !st.eqL(g, w.val.Len) {
			return fmt.Sprintf("entry %d is written with length %s for %s value bytes", i, g, w.val.Len)
		}
		if g := subContent(st, b.T, off.addC(4), w.val.Len); !sameContent(st, g, w.val) {
			return fmt.Sprintf("entry %d is written with value %s instead of %s", i, show(g), show(w.val))
		}
		off = off.addC(4).add(w.val.Len)
	}
	if !st.eqL(b.Len, off) {
		return fmt.Sprintf("%s bytes are written for entries of %s bytes", b.Len, off)
	}
	return ""
}

func okErr(st *State, e *Engine, v Val) (bool, bool) {
	return st.decide(e.isNil(st, v))
}

// listHas checks a list's length and what it writes.
func (t *tlvRun) listHas(rule, key string, st *State, l Val, want []tlvEntry, what string) {
	fn := t.r.P.fn("utils", "Read")
	for _, o := range t.call(st.fork(), "Length", l) {
		n, _ := o.Res[0].(IntV)
		t.r.check(o.St.eqL(n.L, linC(int64(len(want)))), rule, "utils.TlvList", fn.Pos(), key+"|len", fmt.Sprintf("%s: the list announces %s entries instead of %d", what, n.L, len(want)))
	}
	st = st.fork()
	buf := t.buffer(st, nil)
	for _, o := range t.call(st, "Write", l, buf) {
		isNil, known := okErr(o.St, t.e, o.Res[0])
		if !t.r.check(known && isNil, rule, "utils.TlvList", fn.Pos(), key+"|err", what+": writing the list fails") {
			continue
		}
		msg := t.written(o.St, o.St.bufContent(buf.V.(PtrV)), want)
		t.r.check(msg == "", rule, "utils.TlvList", fn.Pos(), key+"|bytes", what+": "+msg)
	}
}

func checkC09(r *Report) {
	p := r.P
	maxN := 4
	if r.Deep {
		maxN = 5
	}
	for _, n := range []string{"New", "FromBytes", "ToBytes", "ReadObject", "WriteObject", "Read", "NewTlvList"} {
		r.root(p.fn("utils", n))
	}
	mkRun := func() *tlvRun {
		e := NewEngine(p)
		e.NoMerge, e.Unroll = true, 16
		return &tlvRun{r: r, e: e, list: types.NewPointer(p.typ("utils", "TlvList"))}
	}
	// one entry from arbitrary bytes
	r.guard("utils.ReadObject", func() {
		t := mkRun()
		st := newState(p.base)
		d := symVal(mk("tlvdata"), byteSliceT()).(SliceV)
		buf := t.buffer(st, d)
		fn := p.fn("utils", "ReadObject")
		for _, o := range t.call(st, "ReadObject", buf) {
			s := o.St
			isNil, known := okErr(s, t.e, o.Res[1])
			if !known {
				panic(undecided("ReadObject: error of unknown kind"))
			}
			do := symObjs[d.Obj]
			ln := s.beInt(do, linC(2), 2)
			all := linC(4).add(ln)
			if !isNil {
				a, k := s.decide(cLt(d.Len, linC(4)))
				b, k2 := s.decide(cLt(d.Len, all))
				r.check(k && a || k2 && b, "read-accepts", fn.String(), fn.Pos(), "refuse", "an entry whose bytes are all there can be refused")
				continue
			}
			r.check(s.le0(all, d.Len), "read-accepts", fn.String(), fn.Pos(), "accept", "an entry is accepted although bytes are missing")
			msg := t.same(s, o.Res[0], tlvEntry{tag: s.beInt(do, linC(0), 2), val: s.bytesVal(SliceV{Obj: d.Obj, Off: linC(4), Len: ln, Cap: ln, Elem: d.Elem})})
			r.check(msg == "", "read-parts", fn.String(), fn.Pos(), "parts", "an entry read from bytes: "+msg)
			rest := s.bufContent(buf.V.(PtrV)).Len
			r.check(s.eqL(rest, d.Len.sub(all)), "read-consumes", fn.String(), fn.Pos(), "rest", fmt.Sprintf("reading an entry of %s bytes leaves %s of %s", all, rest, d.Len))
		}
	})
	// an entry made of any value, however long
	r.guard("utils.New", func() {
		t := mkRun()
		st := newState(p.base)
		fn := p.fn("utils", "New")
		v := symVal(mk("tlvany"), byteSliceT()).(SliceV)
		for _, o := range t.call(st, "New", symVal(mk("tlvtag:any"), types.Typ[types.Uint16]), v) {
			ln, _ := t.get(o.St, o.Res[0], "Length").(IntV)
			val, _ := t.get(o.St, o.Res[0], "Value").(SliceV)
			r.check(o.St.eqL(ln.L, val.Len), "new-entry", fn.String(), fn.Pos(), "any", fmt.Sprintf("a new entry announces %s bytes for a value of %s", ln.L, val.Len))
		}
	})
	// entry to bytes and back
	r.guard("utils.ToBytes", func() {
		t := mkRun()
		st := newState(p.base)
		en := t.entry(st, "x")
		fn := p.fn("utils", "ToBytes")
		for _, o := range t.call(st, "New", IntV{en.tag}, en.arg) {
			msg := t.same(o.St, o.Res[0], en)
			r.check(msg == "", "new-entry", fn.String(), fn.Pos(), "new", "a new entry: "+msg)
			for _, o := range t.call(o.St, "ToBytes", o.Res[0]) {
				isNil, known := okErr(o.St, t.e, o.Res[1])
				if !r.check(known && isNil, "entry-bytes", fn.String(), fn.Pos(), "err", "an entry cannot be turned into bytes") {
					continue
				}
				b, ok := o.Res[0].(SliceV)
				if !ok {
					panic(undecided("ToBytes returns %s", show(o.Res[0])))
				}
				msg := t.written(o.St, o.St.bytesVal(b), []tlvEntry{en})
				r.check(msg == "", "entry-bytes", fn.String(), fn.Pos(), "bytes", "ToBytes: "+msg)
				for _, o := range t.call(o.St, "FromBytes", b) {
					isNil, known := okErr(o.St, t.e, o.Res[1])
					if !r.check(known && isNil, "round-trip", fn.String(), fn.Pos(), "from-err", "the bytes of an entry are not read back") {
						continue
					}
					msg := t.same(o.St, o.Res[0], en)
					r.check(msg == "", "round-trip", fn.String(), fn.Pos(), "from", "an entry read back: "+msg)
				}
			}
		}
	})
	for n := 0; n <= maxN; n++ {
		n := n
		r.guard(fmt.Sprintf("utils.TlvList of %d", n), func() { listOps(r, mkRun, n) })
	}
	r.atLeast("list-write", 8)
	r.atLeast("list-remove", 20)
	r.atLeast("list-get", 10)
	r.atLeast("round-trip", 8)
}

func listOps(r *Report, mkRun func() *tlvRun, n int) {
	p := r.P
	t := mkRun()
	st := newState(p.base)
	pos := p.fn("utils", "NewTlvList").Pos()
	var es []tlvEntry
	outs := t.call(st, "NewTlvList")
	if len(outs) != 1 {
		panic(undecided("NewTlvList has %d outcomes", len(outs)))
	}
	st, l := outs[0].St, outs[0].Res[0]
	for i := 0; i < n; i++ {
		en := t.entry(st, fmt.Sprint(i))
		es = append(es, en)
		var o []Outcome
		if i%2 == 0 {
			o = t.call(st, "Add", l, IntV{en.tag}, en.arg)
		} else {
			o = t.call(st, "New", IntV{en.tag}, en.arg)
			if len(o) == 1 {
				o = t.call(o[0].St, "AddObject", l, o[0].Res[0])
			}
		}
		if len(o) != 1 {
			panic(undecided("adding an entry has %d outcomes", len(o)))
		}
		st = o[0].St
	}
	what := fmt.Sprintf("a list of %d", n)
	t.listHas("list-write", "write", st, l, es, what)
	for _, o := range t.call(st.fork(), "String", l) {
		r.check(len(o.Res) == 1, "no-fault", "utils.TlvList.String", pos, "text", what+": no text")
	}
	// read back
	s := st.fork()
	buf := t.buffer(s, nil)
	for _, o := range t.call(s, "Write", l, buf) {
		for _, o := range t.call(o.St, "Read", buf) {
			isNil, known := okErr(o.St, t.e, o.Res[1])
			if !r.check(known && isNil, "round-trip", "utils.Read", pos, "list-err", what+" is not read back") {
				continue
			}
			t.listHas("round-trip", "list", o.St, o.Res[0], es, what+", written and read back")
		}
	}
	q := symVal(mk("tlvtag:q"), types.Typ[types.Uint16]).(IntV).L
	match := func(s *State, i int) (bool, bool) { return s.decide(cEqL(es[i].tag, q)) }
	// Get
	for _, o := range t.call(st.fork(), "Get", l, IntV{q}) {
		isNil, known := okErr(o.St, t.e, o.Res[1])
		if !known {
			panic(undecided("Get: error of unknown kind"))
		}
		first := -1
		for i := range es {
			m, k := match(o.St, i)
			if !k {
				break
			}
			if m {
				first = i
				break
			}
		}
		if isNil {
			msg := "an entry is found although none is known to have the type"
			if first >= 0 {
				msg = t.same(o.St, o.Res[0], es[first])
			}
			r.check(msg == "", "list-get", "utils.TlvList.Get", pos, "found", "Get: the first entry of the type: "+msg)
		} else {
			none := true
			for i := range es {
				m, k := match(o.St, i)
				none = none && k && !m
			}
			r.check(none, "list-get", "utils.TlvList.Get", pos, "missing", "Get: nothing is found although an entry may have the type")
		}
	}
	// GetAll
	for _, o := range t.call(st.fork(), "GetAll", l, IntV{q}) {
		sl, ok := o.Res[0].(SliceV)
		if !ok {
			panic(undecided("GetAll returns %s", show(o.Res[0])))
		}
		msg := ""
		k := int64(0)
		for i := range es {
			m, known := match(o.St, i)
			if !known {
				msg = fmt.Sprintf("whether entry %d matches is not looked at", i)
				break
			}
			if m {
				if !o.St.le0(linC(k+1), sl.Len) {
					msg = fmt.Sprintf("it returns %s entries, entry %d is missing", sl.Len, i)
					break
				}
				if d := t.same(o.St, o.St.elemAt(o.St.obj(sl.Obj), sl.Off.addC(k), ""), es[i]); d != "" {
					msg = fmt.Sprintf("match %d: %s", k, d)
					break
				}
				k++
			}
		}
		if msg == "" && !o.St.eqL(sl.Len, linC(k)) {
			msg = fmt.Sprintf("it returns %s entries of %d", sl.Len, k)
		}
		r.check(msg == "", "list-get", "utils.TlvList.GetAll", pos, "all", "GetAll: "+msg)
	}
	// Remove
	for _, o := range t.call(st.fork(), "Remove", l, IntV{q}) {
		var left []tlvEntry
		gone := int64(0)
		msg := ""
		for i := range es {
			m, known := match(o.St, i)
			switch {
			case !known:
				msg = fmt.Sprintf("whether entry %d matches is not looked at", i)
			case m:
				gone++
			default:
				left = append(left, es[i])
			}
		}
		if msg != "" {
			r.check(false, "list-remove", "utils.TlvList.Remove", pos, "seen", "Remove: "+msg)
			continue
		}
		c, _ := o.Res[0].(IntV)
		r.check(o.St.eqL(c.L, linC(gone)), "list-remove", "utils.TlvList.Remove", pos, "count", fmt.Sprintf("Remove: %s removals reported, %d entries match", c.L, gone))
		t.listHas("list-remove", "left", o.St, l, left, fmt.Sprintf("%s after removing %d by type", what, gone))
	}
	// RemoveObject
	s = st.fork()
	qe := t.entry(s, "q")
	qo := t.call(s, "New", IntV{qe.tag}, qe.arg)
	if len(qo) != 1 {
		panic(undecided("New has %d outcomes", len(qo)))
	}
	for _, o := range t.call(qo[0].St, "RemoveObject", l, qo[0].Res[0]) {
		var left []tlvEntry
		gone := int64(0)
		msg := ""
		for i := range es {
			tm, k1 := o.St.decide(cEqL(es[i].tag, qe.tag))
			lm, k2 := o.St.decide(cEqL(es[i].val.Len, qe.val.Len))
			vm, k3 := o.St.decide(t.e.equal(o.St, es[i].val, qe.val))
			switch {
			case k1 && !tm || k2 && !lm || k3 && !vm:
				left = append(left, es[i])
			case k1 && tm && k3 && vm:
				gone++
			default:
				msg = fmt.Sprintf("whether entry %d is the same is not looked at", i)
			}
		}
		if msg != "" {
			r.check(false, "list-remove", "utils.TlvList.RemoveObject", pos, "seen", "RemoveObject: "+msg)
			continue
		}
		c, _ := o.Res[0].(IntV)
		r.check(o.St.eqL(c.L, linC(gone)), "list-remove", "utils.TlvList.RemoveObject", pos, "count", fmt.Sprintf("RemoveObject: %s removals reported, %d entries match", c.L, gone))
		t.listHas("list-remove", "left-obj", o.St, l, left, fmt.Sprintf("%s after removing %d equal entries", what, gone))
	}
}
