package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Models of bytes.Buffer and container/list with exact contents where they are known.

func byteSliceT() types.Type { return types.NewSlice(types.Typ[types.Uint8]) }

// bufPtr finds the *bytes.Buffer behind a value (io.Reader, io.Writer or the pointer itself).
func (e *Engine) bufPtr(st *State, v Val) (PtrV, bool) {
	v = unIface(v)
	p, ok := v.(PtrV)
	if !ok {
		return p, false
	}
	o := st.obj(p.Obj)
	if o == nil || o.Kind != OCell {
		return p, false
	}
	t := typeAt(o.Typ, p.Path)
	if p.Path == "" {
		t = o.Typ
	}
	return p, t != nil && (t.String() == "bytes.Buffer" || t.String() == "strings.Builder")
}

func (st *State) bufContent(p PtrV) StrV {
	switch x := st.obj(p.Obj).loadPath(p.Path + ".buf").(type) {
	case StrV:
		return x
	case SliceV:
		return st.bytesVal(x)
	}
	return litStr("")
}

// bufTake removes n bytes from the front.
func (st *State) bufTake(p PtrV, n Lin) StrV {
	switch x := st.obj(p.Obj).loadPath(p.Path + ".buf").(type) {
	case SliceV:
		h := SliceV{Obj: x.Obj, Off: x.Off, Len: n, Cap: n, Elem: x.Elem}
		st.storePath(p.Obj, p.Path+".buf", SliceV{Obj: x.Obj, Off: x.Off.add(n), Len: x.Len.sub(n), Cap: x.Cap.sub(n), Elem: x.Elem})
		return st.bytesVal(h)
	case StrV:
		h := subContent(st, x.T, linC(0), n)
		st.storePath(p.Obj, p.Path+".buf", subContent(st, x.T, n, x.Len.sub(n)))
		return h
	}
	return litStr("")
}

func (e *Engine) bufAppend(st *State, p PtrV, s StrV) {
	st.storePath(p.Obj, p.Path+".buf", concat(st.bufContent(p), s))
}

// bytesOf makes a slice holding the content.
func (e *Engine) bytesOf(c *CallCtx, st *State, v StrV) SliceV {
	el := types.Typ[types.Uint8]
	o := e.alloc(st, OArr, el, c.Pos, v.Len).clone()
	o.Sym = v.T
	st.setObj(o)
	return SliceV{Obj: o.ID, Off: linC(0), Len: v.Len, Cap: v.Len, Elem: el}
}

func fixedWidth(t string) int64 {
	switch t {
	case "uint8", "int8", "byte", "bool":
		return 1
	case "uint16", "int16":
		return 2
	case "uint32", "int32":
		return 4
	case "uint64", "int64":
		return 8
	}
	return 0
}

func underName(t types.Type) string { return t.Underlying().String() }

// binaryWrite models encoding/binary.Write to a bytes.Buffer.
func (e *Engine) binaryWrite(c *CallCtx) ([]Outcome, bool) {
	st := c.St
	p, ok := e.bufPtr(st, c.Args[0])
	iv, ok2 := c.Args[2].(IfaceV)
	if !ok || !ok2 || !strings.HasSuffix(typeLit(c.Args[1]).key(), "bigEndian\"") {
		return nil, false
	}
	if s, ok := iv.V.(SliceV); ok && isByte(s.Elem) {
		e.bufAppend(st, p, st.bytesVal(s))
		return c.ret(st, errNil), true
	}
	w := fixedWidth(underName(iv.T))
	if w == 0 {
		return nil, false
	}
	e.bufAppend(st, p, StrV{T: mk("beint"+strconv.FormatInt(w, 10), iv.V), Len: linC(w)})
	return c.ret(st, errNil), true
}

// binaryRead models encoding/binary.Read from a bytes.Buffer.
func (e *Engine) binaryRead(c *CallCtx) ([]Outcome, bool) {
	st := c.St
	p, ok := e.bufPtr(st, c.Args[0])
	iv, ok2 := c.Args[2].(IfaceV)
	if !ok || !ok2 || !strings.HasSuffix(typeLit(c.Args[1]).key(), "bigEndian\"") {
		return nil, false
	}
	pt, ok := iv.V.(PtrV)
	w := int64(0)
	if ok {
		w = fixedWidth(underName(deref(iv.T)))
	}
	if w == 0 {
		return nil, false
	}
	ln := st.bufContent(p).Len
	var outs []Outcome
	f := st.fork()
	if st.assume(cLe(linC(w), ln)) {
		h := st.bufTake(p, linC(w))
		e.store(st, pt, IntV{st.beOf(h.T, linC(0), w)}, deref(iv.T), c.Pos)
		outs = append(outs, Outcome{St: st, Res: []Val{errNil}})
	}
	if f.assume(cLt(ln, linC(w))) {
		g := f.fork()
		if g.assume(cLe(ln, linC(0))) {
			outs = append(outs, Outcome{St: g, Res: []Val{libErr("io.EOF")}})
		}
		if f.assume(cLe(linC(1), ln)) {
			f.bufTake(p, ln)
			outs = append(outs, Outcome{St: f, Res: []Val{libErr("io.ErrUnexpectedEOF")}})
		}
	}
	return outs, true
}

func (e *Engine) bufferModel(c *CallCtx) ([]Outcome, bool) {
	st := c.St
	n := c.Name
	if n == "bytes.NewBuffer" || n == "bytes.NewBufferString" {
		tn := deref(c.Sig.Results().At(0).Type())
		o := e.alloc(st, OCell, tn, c.Pos, linC(0))
		st.storePath(o.ID, ".buf", c.Args[0])
		return c.ret(st, PtrV{Obj: o.ID}), true
	}
	m, ok := strings.CutPrefix(n, "(*bytes.Buffer).")
	if !ok {
		m, ok = strings.CutPrefix(n, "(*strings.Builder).")
		if !ok || m == "WriteRune" {
			return nil, false
		}
	}
	p, ok := e.bufPtr(st, c.Args[0])
	if !ok {
		return nil, false
	}
	switch m {
	case "Write", "WriteString":
		var s StrV
		switch x := c.Args[1].(type) {
		case SliceV:
			s = st.bytesVal(x)
		case StrV:
			s = x
		default:
			return nil, false
		}
		e.bufAppend(st, p, s)
		return c.ret(st, IntV{e.lenOf(st, c.Args[1])}, errNil), true
	case "WriteByte":
		e.bufAppend(st, p, StrV{T: mk("beint1", c.Args[1]), Len: linC(1)})
		return c.ret(st, errNil), true
	case "Bytes":
		if s, ok := st.obj(p.Obj).loadPath(p.Path + ".buf").(SliceV); ok {
			return c.ret(st, s), true
		}
		return c.ret(st, e.bytesOf(c, st, st.bufContent(p))), true
	case "String":
		return c.ret(st, st.bufContent(p)), true
	case "Len":
		return c.ret(st, IntV{st.bufContent(p).Len}), true
	case "Reset":
		st.storePath(p.Obj, p.Path+".buf", litStr(""))
		return c.ret(st), true
	case "Grow":
		return c.ret(st), true
	case "Next":
		a := c.Args[1].(IntV).L
		k := e.minLin(st, a, st.bufContent(p).Len)
		if x, ok := st.obj(p.Obj).loadPath(p.Path + ".buf").(SliceV); ok {
			st.bufTake(p, k)
			return c.ret(st, SliceV{Obj: x.Obj, Off: x.Off, Len: k, Cap: k, Elem: x.Elem}), true
		}
		return c.ret(st, e.bytesOf(c, st, st.bufTake(p, k))), true
	case "ReadByte":
		ln := st.bufContent(p).Len
		var outs []Outcome
		f := st.fork()
		if st.assume(cLe(linC(1), ln)) {
			h := st.bufTake(p, linC(1))
			outs = append(outs, Outcome{St: st, Res: []Val{IntV{st.beOf(h.T, linC(0), 1)}, errNil}})
		}
		if f.assume(cLe(ln, linC(0))) {
			outs = append(outs, Outcome{St: f, Res: []Val{IntV{linC(0)}, libErr("io.EOF")}})
		}
		return outs, true
	case "Read":
		d, ok := c.Args[1].(SliceV)
		if !ok {
			return nil, false
		}
		ln := st.bufContent(p).Len
		var outs []Outcome
		f := st.fork()
		// empty buffer: EOF unless nothing is asked for
		if f.assume(cLe(ln, linC(0))) {
			g := f.fork()
			if f.assume(cLe(linC(1), d.Len)) {
				outs = append(outs, Outcome{St: f, Res: []Val{IntV{linC(0)}, libErr("io.EOF")}})
			}
			if g.assume(cLe(d.Len, linC(0))) {
				outs = append(outs, Outcome{St: g, Res: []Val{IntV{linC(0)}, errNil}})
			}
		}
		if st.assume(cLe(linC(1), ln)) {
			take := func(s *State, k Lin) {
				h := s.bufTake(p, k)
				if d.Obj != "" {
					so := linC(0)
					if h.T.Op == "sub" {
						so = h.T.Args[1].(IntV).L
						h = StrV{T: h.T.Args[0].(TermV).T, Len: h.Len}
					}
					s.writeBytes(d.Obj, Write{Off: d.Off, N: k, Win: d.Len, V: h, SrcOff: so, Pos: c.Pos, Src: k})
				}
				outs = append(outs, Outcome{St: s, Res: []Val{IntV{k}, errNil}})
			}
			short := st.fork()
			if st.assume(cLe(d.Len, ln)) {
				take(st, d.Len)
			}
			if short.assume(cLt(ln, d.Len)) {
				take(short, ln)
			}
		}
		return outs, true
	}
	return nil, false
}

// bufReadFull models io.ReadFull and io.ReadAtLeast from a bytes.Buffer.
func (e *Engine) bufReadFull(c *CallCtx, p PtrV, d SliceV, need Lin) []Outcome {
	st := c.St
	ln := st.bufContent(p).Len
	var outs []Outcome
	take := func(s *State, k Lin, err Val) {
		if d.Obj != "" && !s.eqL(k, linC(0)) {
			h := s.bufTake(p, k)
			so := linC(0)
			if h.T.Op == "sub" {
				so = h.T.Args[1].(IntV).L
				h = StrV{T: h.T.Args[0].(TermV).T, Len: h.Len}
			}
			s.writeBytes(d.Obj, Write{Off: d.Off, N: k, Win: d.Len, V: h, SrcOff: so, Pos: c.Pos, Src: k})
		}
		outs = append(outs, Outcome{St: s, Res: []Val{IntV{k}, err}})
	}
	none := st.fork()
	if none.assume(cLe(ln, linC(0))) && none.assume(cLe(linC(1), need)) {
		take(none, linC(0), libErr("io.EOF"))
	}
	short := st.fork()
	if short.assume(cLe(linC(1), ln)) && short.assume(cLt(ln, need)) {
		take(short, ln, libErr("io.ErrUnexpectedEOF"))
	}
	if st.assume(cLe(need, ln)) {
		more := st.fork()
		if st.assume(cLe(d.Len, ln)) {
			take(st, d.Len, errNil)
		}
		if more.assume(cLt(ln, d.Len)) {
			take(more, ln, errNil)
		}
	}
	return outs
}

// listModel models container/list; lists with unknown elements yield events and unknown results.
func (e *Engine) listModel(c *CallCtx) ([]Outcome, bool) {
	st := c.St
	n := c.Name
	if n == "container/list.New" {
		o := e.alloc(st, OList, deref(c.Sig.Results().At(0).Type()), c.Pos, linC(0))
		return c.ret(st, PtrV{Obj: o.ID}), true
	}
	m, ok := strings.CutPrefix(n, "(*container/list.")
	if !ok {
		return nil, false
	}
	recv, ok := c.Args[0].(PtrV)
	if !ok {
		return nil, false
	}
	known := func(id string) *Obj {
		o := st.obj(id)
		if o == nil || o.Kind != OList || o.Hav {
			return nil
		}
		return o
	}
	elem := func(id string) Val { return PtrV{Obj: id} }
	at := func(l *Obj, id string) int {
		for i, x := range l.List {
			if x == id {
				return i
			}
		}
		return -1
	}
	set := func(l *Obj, ids []string) {
		q := l.clone()
		q.List = append([]string{}, ids...)
		st.setObj(q)
	}
	if strings.HasPrefix(m, "Element).") {
		// which list holds the element?
		o := st.obj(recv.Obj)
		if o == nil || !o.Alloc {
			return nil, false
		}
		lv, isLit := o.F["$list"].(Lit)
		if o.F["$list"] != nil && !isLit {
			return nil, false
		}
		if lv == "" {
			return c.ret(st, NilV{}), true // removed
		}
		l := known(string(lv))
		if l == nil {
			return nil, false
		}
		i := at(l, recv.Obj)
		switch m {
		case "Element).Next":
			if i >= 0 && i+1 < len(l.List) {
				return c.ret(st, elem(l.List[i+1])), true
			}
			return c.ret(st, NilV{}), true
		case "Element).Prev":
			if i > 0 {
				return c.ret(st, elem(l.List[i-1])), true
			}
			return c.ret(st, NilV{}), true
		}
		return nil, false
	}
	l := known(recv.Obj)
	if l == nil {
		if o := st.obj(recv.Obj); o != nil && o.Kind == OList {
			switch m {
			case "List).PushBack", "List).PushFront":
				e.publish(st, c.Args[1])
				e.event(st, "list", c.Pos, n, n, c.Args...)
				r := c.res(st, n)
				return c.ret(st, r...), true
			}
		}
		return nil, false
	}
	switch m {
	case "List).Len":
		return c.ret(st, IntV{linC(int64(len(l.List)))}), true
	case "List).Front", "List).Back":
		if len(l.List) == 0 {
			return c.ret(st, NilV{}), true
		}
		if m == "List).Front" {
			return c.ret(st, elem(l.List[0])), true
		}
		return c.ret(st, elem(l.List[len(l.List)-1])), true
	case "List).PushBack", "List).PushFront":
		et := deref(c.Sig.Results().At(0).Type())
		o := e.alloc(st, OCell, et, c.Pos, linC(0))
		st.storePath(o.ID, ".Value", c.Args[1])
		q := st.obj(o.ID).clone()
		q.F["$list"] = Lit(l.ID)
		st.setObj(q)
		e.event(st, "list", c.Pos, n, n, c.Args...)
		if m == "List).PushBack" {
			set(st.obj(l.ID), append(append([]string{}, l.List...), o.ID))
		} else {
			set(st.obj(l.ID), append([]string{o.ID}, l.List...))
		}
		return c.ret(st, elem(o.ID)), true
	case "List).Remove":
		ep, ok := c.Args[1].(PtrV)
		if !ok {
			return nil, false
		}
		o := st.obj(ep.Obj)
		v := o.loadPath(".Value")
		e.event(st, "list", c.Pos, n, n, c.Args...)
		if i := at(l, ep.Obj); i >= 0 {
			ids := append(append([]string{}, l.List[:i]...), l.List[i+1:]...)
			set(l, ids)
			q := o.clone()
			delete(q.F, "$list")
			st.setObj(q)
		}
		return c.ret(st, v), true
	case "List).Init":
		set(l, nil)
		return c.ret(st, c.Args[0]), true
	}
	// anything else: forget the elements
	q := l.clone()
	q.Hav, q.List = true, nil
	st.setObj(q)
	return nil, false
}
