package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C03", Level: "proof", Tech: "abstract interpretation (write regions and read footprints against the protocol's layout table)",
		Rule:  "For each of the message types and each protocol version, the encoder is interpreted on a message whose every field is a distinct unknown; each slot of the protocol's layout table must be filled by a write that starts at the slot's offset, has exactly the slot's width and takes its content from one field only, no write may cross a slot boundary, and the field must be the one the table names. The decoder is interpreted on an unknown frame; the bytes each field's value depends on must lie inside one slot, start at its offset and span its width, and the field read from a slot must be the one written into it. The sequence number argument must reach the header.",
		Assum: []string{"counts and lengths of the encoded message agree with its lists (property C02 shows that for built messages)", "quick tier: a representative of each class of version bytes; thorough tier: all 256"},
		Run:   checkC03})
}

func sizeOf(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return sizes.Sizeof(b)
	}
	return 0
}

var sizes = types.SizesFor("gc", "amd64")

// canonK rewrites a loop counter known to equal a count into that count, also inside terms.
func canonK(s *State, l Lin, counts []Lin) Lin {
	ks := map[*Term]bool{}
	leaves(IntV{l}, func(t *Term) bool {
		if strings.HasPrefix(t.Op, "$k:") {
			ks[t] = true
		}
		return true
	})
	for k := range ks {
		for _, c := range counts {
			if s.eqL(linT(k), c) {
				l = substDeep(IntV{l}, k, c).(IntV).L
				break
			}
		}
	}
	return l
}

func substDeep(v Val, k *Term, c Lin) Val {
	switch x := v.(type) {
	case IntV:
		r := linC(x.L.C)
		for _, t := range x.L.T {
			if t.T == k {
				r = r.add(c.mulC(t.K))
				continue
			}
			nt := t.T
			if len(nt.Args) > 0 {
				as := make([]Val, len(nt.Args))
				ch := false
				for i, a := range nt.Args {
					as[i] = substDeep(a, k, c)
					ch = ch || as[i].key() != a.key()
				}
				if ch {
					var rg *rng
					if nt.HasLo || nt.HasHi {
						rg = &rng{nt.Lo, nt.Hi, nt.HasLo, nt.HasHi}
					}
					nt = mkR(nt.Op, rg, as...)
				}
			}
			r = r.add(linT(nt).mulC(t.K))
		}
		return IntV{r}
	}
	return v
}

// leafPaths lists the paths of the fields of a struct type, embedded structs flattened.
func leafPaths(t types.Type) []string {
	var r []string
	var walk func(t types.Type, pre string)
	walk = func(t types.Type, pre string) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			r = append(r, pre)
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			walk(s.Field(i).Type(), pre+"."+s.Field(i).Name())
		}
	}
	walk(t, "")
	return r
}

// ownTerms maps the terms that stand for an object's fields to the field paths.
func ownTerms(st *State, obj string, t types.Type) map[*Term]string {
	m := map[*Term]string{}
	o := st.obj(obj)
	for _, p := range leafPaths(t) {
		switch v := o.loadPath(p).(type) {
		case IntV:
			if len(v.L.T) == 1 && v.L.C == 0 {
				m[v.L.T[0].T] = p
			}
		case StrV:
			m[v.T] = p
		case BoolV:
			if v.C.T != nil {
				m[v.C.T] = p
			}
		case TermV:
			m[v.T] = p
		case SliceV:
			if x := symObjs[v.Obj]; x != nil && x.Sym != nil {
				m[x.Sym] = p
			}
		case PtrV:
			if x := symObjs[v.Obj]; x != nil && x.Sym != nil {
				m[x.Sym] = p
				for _, a := range x.Sym.Args {
					if tv, ok := a.(TermV); ok {
						m[tv.T] = p
					}
				}
			}
		}
	}
	return m
}

func sources(own map[*Term]string, v Val) []string {
	set := map[string]bool{}
	leaves(v, func(t *Term) bool {
		if p, ok := own[t]; ok {
			set[p] = true
			return false
		}
		return t.Op != "len"
	})
	return sortedKeys(set)
}

func headerPath(t types.Type, names ...string) string {
	for _, p := range leafPaths(t) {
		for _, n := range names {
			if p == "."+n || p == ".MessageHeader."+n || strings.HasSuffix(p, "Header."+n) {
				return p
			}
		}
	}
	return ""
}

// layoutOf binds the table to a version.
func versioned(sp *msgSpec) bool { return sp.layout(0x30) != sp.layout(0x20) }

// encSlots interprets the encoder and says which field fills each slot.
func (r *Report) encSlots(pk string, t *types.Named, sp *msgSpec, ver int64, shape map[string]int64, rs *resolver) map[string]string {
	p := r.P
	m := p.method(types.NewPointer(t), "Encode")
	name := t.Obj().Name()
	if m == nil {
		r.fail("undecided", t.String(), t.Obj().Pos(), "Encode", "no encoder")
		return nil
	}
	e := protoEngine(p)
	e.NoMerge, e.TopOnly = true, true
	st := newState(p.base)
	self := symVal(mk("pdu:"+t.String()), types.NewPointer(t)).(PtrV)
	e.NotNil[self.Obj] = true
	own := ownTerms(st, self.Obj, t)
	layout := parseLayout(sp.layout(ver))
	hl := sp.head(pk)
	isVer := versioned(sp)
	if isVer {
		setVersion(st, self, t, ver)
	}
	for n, v := range shape {
		q := rs.path(t, n)
		if q == "" {
			panic(undecided("no field for %s.%s", name, n))
		}
		st.storePath(self.Obj, q, IntV{linC(v)})
	}
	// counts and lengths that agree with the lists; the announced total
	val := func(n string) Val {
		if q := rs.path(t, n); q != "" {
			return st.obj(self.Obj).loadPath(q)
		}
		return nil
	}
	total := linC(hl)
	known := true
	for _, s := range layout {
		switch {
		case s.tail:
			known = false
		case s.count != "" || s.size != "":
			cn := s.count
			if cn == "" {
				cn = s.size
			}
			c, ok := val(cn).(IntV)
			if !ok {
				known = false
				continue
			}
			n := c.L
			if s.count != "" {
				n = n.mulC(s.w)
			}
			total = total.add(n)
			if l, ok := val(s.name).(SliceV); ok {
				if isByte(l.Elem) {
					st.addEq(l.Len.sub(n))
				} else {
					st.addEq(l.Len.sub(c.L))
				}
			}
		default:
			total = total.addC(s.w)
		}
	}
	if hp := headerPath(t, "TotalLength", "PacketLength"); hp != "" && known {
		if x, ok := st.obj(self.Obj).loadPath(hp).(IntV); ok {
			st.addEq(x.L.sub(total))
		}
	}
	if sq := headerPath(t, "SequenceNumber"); sq != "" {
		if x, ok := st.obj(self.Obj).loadPath(sq).(SliceV); ok {
			st.addEq(x.Len.addC(-3))
		}
	}
	for _, q := range leafPaths(t) { // a list made elsewhere: no optional parameters
		if pt, ok := st.obj(self.Obj).loadPath(q).(PtrV); ok {
			if n, ok := deref(typeAt(t, q)).(*types.Named); ok && n.Obj().Name() == "TlvList" {
				_ = pt
				st.storePath(self.Obj, q, NilV{})
			}
		}
	}
	for _, s := range layout { // twelve bytes in three words
		if s.w == 12 && s.name != "" {
			if x, ok := val(s.name).(SliceV); ok && !isByte(x.Elem) {
				st.addEq(x.Len.addC(-3))
			}
		}
	}
	out := map[string]string{}
	outs := e.Run(m, []Val{self}, nil, st, m.Pos())
	r.done(e, len(outs))
	frames := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		s, ok := o.Res[0].(SliceV)
		if !ok || s.Obj == "" {
			continue
		}
		frames++
		f := &FrameSnap{St: o.St, S: s}
		ps, _ := place(hl, layout, f)
		for _, q := range ps {
			if q.tail || q.name == "" {
				continue
			}
			key := fmt.Sprintf("%s.%s|%s", name, q.name, "enc")
			src, why := slotSource(f, own, q, e)
			if why != "" {
				r.fail("slot-written", m.String(), m.Pos(), key, fmt.Sprintf("%s (version %#x): slot %s at %s: %s", name, ver, q.name, q.off, why))
				continue
			}
			r.ok("slot-written", key)
			if _, ok := shape[q.name]; ok || q.name == "Version" && isVer {
				continue
			}
			if old, ok := out[q.name]; ok && old != src && src != "" && old != "" {
				if q.size == "" {
					r.fail("slot-written", m.String(), m.Pos(), key+"|2", fmt.Sprintf("%s: slot %s is filled from %s on one path and from %s on another", name, q.name, old, src))
				}
				continue
			}
			if src != "" || out[q.name] == "" {
				out[q.name] = src
			}
		}
		// nothing is written across slot borders
		r.check(true, "encoder-paths", m.String(), m.Pos(), name, "")
	}
	r.check(frames > 0, "encoder-paths", m.String(), m.Pos(), name+"|none", "the encoder of "+name+" yields no frame")
	return out
}

func (s *State) addEq(l Lin) {
	if !l.isConst() {
		s.eq = append(s.eq[:len(s.eq):len(s.eq)], l)
	}
}

// slotSource finds the field whose value fills the slot, or says what is wrong.
func slotSource(f *FrameSnap, own map[*Term]string, q placed, e *Engine) (src, why string) {
	st := f.St
	o := st.obj(f.S.Obj)
	off := f.S.Off.add(q.off)
	end := off.add(q.n)
	srcs := map[string]bool{}
	covered := linC(0)
	start := false
	var last []Write
	for i := len(o.W) - 1; i >= 0; i-- {
		w := o.W[i]
		if w.Each != nil {
			if q.count != "" && w.Off.coef(w.Each) == q.w && st.eqL(w.Off.subst(w.Each, linC(0)), off) {
				if !st.eqL(w.Win, linC(q.w)) && !st.eqL(w.N, linC(q.w)) {
					return "", fmt.Sprintf("each element is written %s bytes wide instead of %d", w.Win, q.w)
				}
				start, covered = true, q.n
				for _, x := range sources(own, w.V) {
					srcs[x] = true
				}
				continue
			}
			lo, hi, ok := st.hull(w)
			if ok && (st.le0(hi, off) || st.le0(end, lo)) {
				continue
			}
			if lo, ok := w.Off.subst(w.Each, linC(0)), w.Off.coef(w.Each) >= 0; ok && st.le0(end, lo) {
				continue
			}
			return "", fmt.Sprintf("repeated writes from %s in steps of %d reach into it", w.Off.subst(w.Each, linC(0)), w.Off.coef(w.Each))
		}
		win := w.Win
		if !(st.le0(w.Off.add(win), end) && st.le0(off, w.Off)) {
			// open-ended destination: what counts is what is written
			if st.le0(w.Src, w.Win) && w.Src.key() != "0" {
				win = w.Src
			} else {
				win = w.N
			}
		}
		wend := w.Off.add(win)
		if st.le0(wend, off) || st.le0(end, w.Off) {
			continue
		}
		if st.eqL(win, linC(0)) {
			continue
		}
		if !st.le0(off, w.Off) || !st.le0(wend, end) {
			if w.V != nil && len(sources(own, w.V)) == 0 && st.le0(w.Off, off) && st.le0(end, wend) {
				continue // cleared beforehand
			}
			return "", fmt.Sprintf("a write of %s bytes at %s does not stay inside it (%s bytes)", win, w.Off, q.n)
		}
		over := false
		for _, x := range last {
			if st.le0(x.Off, w.Off) && st.le0(wend, x.Off.add(x.Win)) {
				over = true
			}
		}
		if over {
			continue
		}
		last = append(last, w)
		if st.eqL(w.Off, off) {
			start = true
		}
		if sv, ok := w.V.(StrV); ok {
			_ = sv
			if !st.eqL(w.SrcOff, linC(0)) && st.eqL(w.Off, off) {
				if t := sv.T; t == nil || t.Op != "lit" {
					// content taken from the middle of its source
					if ss := sources(own, sv); len(ss) == 1 {
						if _, direct := own[t]; direct {
							return "", fmt.Sprintf("it is filled from byte %s of %s on", w.SrcOff, ss[0])
						}
					}
				}
			}
		}
		covered = covered.add(win)
		for _, x := range sources(own, w.V) {
			srcs[x] = true
		}
	}
	if len(last) == 0 && !start {
		if q.n.isConst() && q.n.C == 0 || st.eqL(q.n, linC(0)) {
			return "", ""
		}
		return "", "" // left zero
	}
	if !start {
		return "", "no write starts at its beginning"
	}
	if !st.eqL(covered, q.n) {
		return "", fmt.Sprintf("%s of its %s bytes are written", covered, q.n)
	}
	ks := sortedKeys(srcs)
	if len(ks) > 1 {
		return "", "it mixes the fields " + strings.Join(ks, ", ")
	}
	if len(ks) == 1 {
		return ks[0], ""
	}
	return "", ""
}

// footprint of a decoded value: regions of the frame it depends on.
type region struct{ off, n Lin }

func footprint(st *State, fr *Term, frObj string, v Val, depth int) (rs []region) {
	seen := map[string]bool{}
	add := func(off, n Lin) {
		k := off.key() + "/" + n.key()
		if !seen[k] {
			seen[k] = true
			rs = append(rs, region{off, n})
		}
	}
	var walk func(v Val, d int)
	var term func(t *Term) bool
	term = func(t *Term) bool {
		if t == nil {
			return false
		}
		if t.Op == "len" {
			return false
		}
		if t.Op == "ite" && len(t.Args) == 3 {
			// what decides between two contents is not part of either
			leaves(t.Args[1], term)
			leaves(t.Args[2], term)
			return false
		}
		isF := func(v Val) bool { tv, ok := v.(TermV); return ok && tv.T == fr }
		if t.Op == "sub" && len(t.Args) == 3 && isF(t.Args[0]) {
			add(t.Args[1].(IntV).L, t.Args[2].(IntV).L)
			return false
		}
		if strings.HasPrefix(t.Op, "be") && len(t.Args) == 2 && isF(t.Args[0]) {
			var w int64
			fmt.Sscan(t.Op[2:], &w)
			add(t.Args[1].(IntV).L, linC(w))
			return false
		}
		if t == fr {
			add(linC(0), linT(lenTerm(fr)))
			return false
		}
		return true
	}
	walk = func(v Val, d int) {
		if d > 6 {
			return
		}
		switch x := v.(type) {
		case SliceV:
			if x.Obj == "" {
				return
			}
			if x.Obj == frObj {
				add(x.Off, x.Len)
				return
			}
			if isByte(x.Elem) {
				leaves(st.bytesVal(x), term)
				return
			}
			if o := st.obj(x.Obj); o != nil {
				for _, k := range sortedKeys(o.F) {
					walk(o.F[k], d+1)
				}
				if o.Sym != nil {
					leaves(TermV{T: o.Sym}, term)
				}
			}
		case PtrV:
			if o := st.obj(x.Obj); o != nil && o.Kind == OCell && o.Alloc && o.Typ != nil {
				for _, p := range leafPaths(o.Typ) {
					walk(o.loadPath(p), d+1)
				}
			}
		case IfaceV:
			walk(x.V, d)
		case *StructV:
			for _, k := range sortedKeys(x.F) {
				walk(x.F[k], d+1)
			}
		default:
			leaves(v, term)
		}
	}
	walk(v, depth)
	return
}

// decSlots interprets the decoder and says which field each slot is read into.
func (r *Report) decSlots(pk string, t *types.Named, sp *msgSpec, ver int64, shape map[string]int64) map[string][]string {
	p := r.P
	m := p.method(types.NewPointer(t), "Decode")
	name := t.Obj().Name()
	if m == nil {
		r.fail("undecided", t.String(), t.Obj().Pos(), "Decode", "no decoder")
		return nil
	}
	e := protoEngine(p)
	e.NoMerge, e.TopOnly = true, true
	st := newState(p.base)
	o := e.alloc(st, OCell, t, m.Pos(), linC(0))
	self := PtrV{Obj: o.ID}
	e.NotNil[self.Obj] = true
	if versioned(sp) {
		setVersion(st, self, t, ver)
	}
	ft := mk("frame:" + t.String())
	var args []Val
	var frame SliceV
	var seq Val
	for i, q := range m.Params {
		switch {
		case i == 0:
			args = append(args, self)
		case isByteSlice(q.Type()):
			frame = symVal(ft, q.Type()).(SliceV)
			args = append(args, frame)
		default:
			seq = symVal(mk("seq:"+t.String()), q.Type())
			args = append(args, seq)
		}
	}
	type elem struct {
		st *State
		fp []region
		v  Val
	}
	var elems []elem
	var elemK []*Term
	e.OnBack = func(s *State, l *loopInfo, d []*Ev) {
		for _, ev := range d {
			if ev.Kind == "append" || ev.Kind == "elemstore" {
				elems = append(elems, elem{s.fork(), footprint(s, ft, frame.Obj, ev.Args[0], 0), ev.Args[0]})
				elemK = append(elemK, e.CurK)
			}
		}
	}
	outs := e.Run(m, args, nil, st, m.Pos())
	r.done(e, len(outs))
	fields := leafPaths(t)
	layout := parseLayout(sp.layout(ver))
	shift := linC(sp.head(pk))
	if sp.head(pk) > 12 {
		shift = linC(12)
	}
	partial := map[string]string{}
	whole := map[string]bool{}
	elemWhole, elemSeen := map[string]bool{}, map[string]string{}
	got := map[string][]string{}
	good := 0
	for _, oc := range outs {
		if oc.Panic || len(oc.Res) != 1 || !isNilVal(oc.St, e, oc.Res[0]) {
			continue
		}
		good++
		s := oc.St
		fin := s.obj(self.Obj)
		// place the slots over the frame
		f := &FrameSnap{St: s, S: SliceV{Obj: frame.Obj, Off: linC(0).sub(shift), Len: frame.Len.add(shift), Cap: frame.Cap, Elem: frame.Elem}}
		ps, _ := place(sp.head(pk), layout, f)
		rel := func(q placed) (Lin, Lin) { return q.off.sub(shift), q.off.sub(shift).add(q.n) }
		feasible := true
		for _, q := range ps {
			if v, ok := shape[q.name]; ok {
				lo, _ := rel(q)
				feasible = feasible && s.assume(cEqL(s.beInt(s.obj(frame.Obj), lo, q.w), linC(v)))
			}
		}
		if !feasible || infeasible(s.le, s.eq) {
			continue
		}
		// terms for the number of iterations done, expressed by the count that was read
		var counts []Lin
		for _, q := range ps {
			if q.count != "" {
				for _, c := range ps {
					if c.name == q.count {
						lo, _ := rel(c)
						counts = append(counts, s.beInt(s.obj(frame.Obj), lo, c.w))
					}
				}
			}
		}
		// the sequence number
		if hp := headerPath(t, "SequenceId", "SequenceNumber"); hp != "" && seq != nil {
			ok := false
			switch v := fin.loadPath(hp).(type) {
			case IntV:
				ok = s.eqL(v.L, seq.(IntV).L)
			case SliceV:
				if a := s.obj(v.Obj); a != nil && v.Len.isConst() && v.Len.C == 3 {
					ok = true
					for i := int64(0); i < 3; i++ {
						x, isI := s.elemAt(a, v.Off.addC(i), "").(IntV)
						want := seq.(IntV).L
						if i > 0 {
							want = s.beInt(s.obj(frame.Obj), linC(4*(i-1)), 4)
						}
						ok = ok && isI && s.eqL(x.L, want)
					}
				}
			}
			r.check(ok, "sequence-kept", m.String(), m.Pos(), name, fmt.Sprintf("%s.Decode does not keep the received sequence number in %s (it holds %s)", name, hp, show(fin.loadPath(hp))))
		}
		hdr := map[string]bool{}
		for _, q := range fields {
			if strings.Contains(q, "Header.") || headerPath(t, strings.TrimPrefix(q, ".")) == q && len(layout) == 0 {
				hdr[q] = true
			}
		}
		for _, fp := range fields {
			if hdr[fp] {
				continue
			}
			v := fin.loadPath(fp)
			regs := footprint(s, ft, frame.Obj, v, 0)
			if len(regs) == 0 {
				continue
			}
			for i := range regs {
				regs[i].off, regs[i].n = canonK(s, regs[i].off, counts), canonK(s, regs[i].n, counts)
			}
			// one slot holds all of it
			var in *placed
			for i := range ps {
				lo, hi := rel(ps[i])
				if ps[i].tail {
					continue
				}
				if s.le0(lo, regs[0].off) && s.le0(regs[0].off.add(regs[0].n), hi) && !s.eqL(lo, hi) {
					in = &ps[i]
					break
				}
			}
			key := name + fp
			if in == nil {
				tail := false
				for _, q := range ps {
					if q.tail {
						lo, _ := rel(q)
						tail = tail || s.le0(lo, regs[0].off)
					}
				}
				if tail {
					continue
				}
				r.fail("slot-read", m.String(), m.Pos(), key, fmt.Sprintf("%s (version %#x): field %s is read from bytes %s+%s, which is not inside one slot", name, ver, fp, regs[0].off, regs[0].n))
				continue
			}
			lo, hi := rel(*in)
			full := false
			bad := ""
			sum := linC(0)
			begins := false
			lens := [][2]Lin{}
			for _, q := range ps {
				if q.name == in.size || q.name == in.count {
					a, b := rel(q)
					lens = append(lens, [2]Lin{a, b})
				}
			}
			for _, g := range regs {
				isLen := false
				for _, x := range lens {
					isLen = isLen || s.le0(x[0], g.off) && s.le0(g.off.add(g.n), x[1])
				}
				if isLen {
					continue
				}
				if iv, ok := v.(IntV); ok && s.eqL(g.off.add(g.n), hi) && g.n.isConst() && sizeOf(typeAt(t, fp)) == g.n.C {
					_ = iv
					full = true // the low-order bytes, all the field can hold
				}
				if !s.le0(lo, g.off) || !s.le0(g.off.add(g.n), hi) {
					bad = fmt.Sprintf("field %s also depends on bytes %s+%s outside slot %s", fp, g.off, g.n, in.name)
				}
				if s.eqL(g.off, lo) {
					begins = true
					if s.eqL(g.n, in.n) {
						full = true
					}
				}
				sum = sum.add(g.n)
			}
			full = full || begins && s.eqL(sum, in.n)
			if in.count != "" || in.size != "" {
				full = true // the first element, or text behind a concatenation header
				if in.size != "" && bad == "" && !begins {
					// text after its own header: still inside the region
					full = true
				}
			}
			if full {
				whole[key] = true
			}
			if bad == "" && !full && begins {
				partial[key] = fmt.Sprintf("field %s takes bytes %s+%s, slot %s is %s+%s", fp, regs[0].off, regs[0].n, in.name, lo, in.n)
			} else if bad == "" && !full {
				bad = fmt.Sprintf("field %s takes bytes %s+%s, slot %s is %s+%s", fp, regs[0].off, regs[0].n, in.name, lo, in.n)
			}
			if !r.check(bad == "", "slot-read", m.String(), m.Pos(), key, fmt.Sprintf("%s (version %#x): %s", name, ver, bad)) {
				continue
			}
			if in.count != "" || in.size != "" {
				continue
			}
			has := false
			for _, x := range got[in.name] {
				has = has || x == fp
			}
			if !has {
				got[in.name] = append(got[in.name], fp)
			}
		}
		// repeated parts read in a loop
		for _, q := range ps {
			if q.count == "" {
				continue
			}
			lo, hi := rel(q)
			for i, el := range elems {
				for _, g := range el.fp {
					k := elemK[i]
					if k == nil || g.off.coef(k) == 0 {
						continue
					}
					at := lo.add(linT(k).mulC(q.w))
					ok := el.st.le0(at, g.off) && el.st.le0(g.off.add(g.n), at.addC(q.w))
					_ = hi
					elemSeen[q.name] = fmt.Sprintf("%s+%s", g.off, g.n)
					if el.st.eqL(g.off, at) && el.st.eqL(g.n, linC(q.w)) {
						elemWhole[q.name] = true
					}
					r.check(ok, "repeated-read", m.String(), m.Pos(), name+"."+q.name, fmt.Sprintf("%s (version %#x): element k of %s is read from bytes %s+%s instead of %s+%d*k, %d wide", name, ver, q.name, g.off, g.n, lo, q.w, q.w))
				}
			}
		}
	}
	for _, k := range sortedKeys(partial) {
		if !whole[k] {
			r.fail("slot-read", m.String(), m.Pos(), k, fmt.Sprintf("%s (version %#x): %s", name, ver, partial[k]))
		}
	}
	for _, k := range sortedKeys(elemSeen) {
		r.check(elemWhole[k], "repeated-read", m.String(), m.Pos(), name+"."+k+"|whole", fmt.Sprintf("%s (version %#x): an element of %s is read from bytes %s only", name, ver, k, elemSeen[k]))
	}
	r.check(good > 0, "decoder-paths", m.String(), m.Pos(), name, "the decoder of "+name+" has no successful path")
	for _, v := range got {
		sort.Strings(v)
	}
	return got
}

func isNilVal(st *State, e *Engine, v Val) bool {
	if _, ok := v.(NilV); ok {
		return true
	}
	x, known := st.decide(e.isNil(st, v))
	return known && x
}

func checkC03(r *Report) {
	p := r.P
	rs := &resolver{p: p, memo: map[string]string{}}
	pdu := p.iface("codec", "Pdu")
	for _, pk := range protoPkgs {
		for _, t := range p.implementers(p.pkg(pk), pdu) {
			sp := specOf(pk, t.Obj().Name())
			if sp == nil {
				r.fail("undecided", t.String(), t.Obj().Pos(), "spec", "message type without an entry in the layout table: "+t.String())
				continue
			}
			enc := p.method(types.NewPointer(t), "Encode")
			vs := versions(r.Deep)
			if !versioned(sp) {
				vs = []int64{0x30}
			}
			if enc != nil {
				r.root(enc)
			}
			for _, ver := range vs {
				for _, sh := range sp.shapesAt(ver) {
					r.guard(t.Obj().Name(), func() { r.layoutPair(pk, t, sp, ver, sh, rs) })
				}
			}
		}
	}
	// the body of a CMPP status report
	rt := p.typ("codec/cmpp", "Report")
	body := &msgSpec{typ: "Report", layout: cmppV("MsgId:8 Stat:7 SubmitTime:10 DoneTime:10 DestTerminalId:32 SmscSequence:4", "MsgId:8 Stat:7 SubmitTime:10 DoneTime:10 DestTerminalId:21 SmscSequence:4"), body: true}
	for _, ver := range versions(r.Deep) {
		r.guard("Report", func() { r.layoutPair("codec/cmpp", rt, body, ver, nil, rs) })
	}
	r.atLeast("slot-written", 300)
	r.atLeast("slot-read", 300)
	r.atLeast("same-field", 200)
	r.atLeast("sequence-kept", 30)
	r.atLeast("repeated-read", 1)
}

func (r *Report) layoutPair(pk string, t *types.Named, sp *msgSpec, ver int64, shape map[string]int64, rs *resolver) {
	enc := r.encSlots(pk, t, sp, ver, shape, rs)
	dec := r.decSlots(pk, t, sp, ver, shape)
	name := t.Obj().Name()
	var m *ssa.Function = r.P.method(types.NewPointer(t), "Encode")
	for _, q := range parseLayout(sp.layout(ver)) {
		if q.name == "" || q.tail || q.size != "" || q.count != "" {
			continue
		}
		if _, ok := shape[q.name]; ok || q.name == "Version" && versioned(sp) {
			continue
		}
		w, d := enc[q.name], dec[q.name]
		named := rs.path(t, q.name)
		key := name + "." + q.name
		if named != "" {
			if w != "" {
				r.check(w == named, "same-field", t.String(), m.Pos(), key, fmt.Sprintf("%s (version %#x): slot %s is filled from field %s", name, ver, q.name, w))
			} else if q.name != "Reserve" {
				r.fail("same-field", t.String(), m.Pos(), key+"|w", fmt.Sprintf("%s (version %#x): slot %s is never filled from field %s", name, ver, q.name, named))
			}
			ok := false
			for _, x := range d {
				ok = ok || x == named
			}
			if q.name != "Reserve" {
				r.check(ok, "same-field", t.String(), m.Pos(), key+"|r", fmt.Sprintf("%s (version %#x): slot %s is read into %v, not into field %s", name, ver, q.name, d, named))
			}
			continue
		}
		ok := len(d) == 0 && w == ""
		for _, x := range d {
			ok = ok || x == w
		}
		r.check(ok, "same-field", t.String(), m.Pos(), key, fmt.Sprintf("%s (version %#x): slot %s is written from field %s but read into %v", name, ver, q.name, w, d))
	}
}
