package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type ObjKind int

const (
	OCell ObjKind = iota // struct or single variable
	OArr                 // backing array of a slice (or array variable)
	OMap
	OOpaque
	OList // container/list with known elements (unless Hav)
)

// Write is one entry of a byte array's write log.
type Write struct {
	Off, N Lin // region written
	Win    Lin // size of the destination window the source was copied into
	V      Val // IntV (big endian integer of N bytes), StrV (content from SrcOff), or nil (unknown)
	SrcOff Lin
	Src    Lin // full length of the copied source
	Pos    token.Pos
	// Each: the write is one of a family indexed by Each in [0, EachN)
	Each  *Term
	EachN Lin
}

func (w Write) key() string {
	k := w.Off.key() + "/" + w.N.key() + "/"
	if w.V != nil {
		k += w.V.key() + "@" + w.SrcOff.key()
	}
	if w.Each != nil {
		k += "*" + strconv.Itoa(w.Each.ID) + "<" + w.EachN.key()
	}
	return k
}

type Obj struct {
	ID    string
	Kind  ObjKind
	Typ   types.Type // cell: type of the variable; array: element type
	Sym   *Term      // symbolic base; nil: zero initialised
	F     map[string]Val
	Idx   map[string]Lin // arrays: index of an element key
	Len   Lin            // arrays
	W     []Write        // byte arrays
	Hav   bool           // array content beyond F/W unknown
	Pub   bool           // may be reached by another goroutine
	Lent  bool           // memory lent by the network layer
	Site  token.Pos
	Tag   string
	Alloc bool     // allocated on the path (not symbolic)
	List  []string // OList: element objects in order
	Over  string   // appending may have reused the memory of this array
	Sum   *ElemSum // bounds on the length of elements not listed in F
}

// ElemSum bounds the lengths of the elements of an array of slices or strings.
type ElemSum struct {
	Lo, Hi       int64
	HasLo, HasHi bool
	None         bool // no elements
}

func (s *ElemSum) key() string {
	if s == nil {
		return "T"
	}
	return fmt.Sprint(*s)
}

func joinSum(a, b *ElemSum) *ElemSum {
	if a == nil || b == nil {
		return nil
	}
	if a.None {
		return b
	}
	if b.None {
		return a
	}
	return &ElemSum{Lo: min(a.Lo, b.Lo), Hi: max(a.Hi, b.Hi), HasLo: a.HasLo && b.HasLo, HasHi: a.HasHi && b.HasHi}
}

func (st *State) sumOf(v Val) *ElemSum {
	var l Lin
	switch x := v.(type) {
	case SliceV:
		l = x.Len
	case StrV:
		l = x.Len
	default:
		return nil
	}
	s := &ElemSum{}
	s.Lo, s.Hi, s.HasLo, s.HasHi = st.tight(l)
	return s
}

// sumObj summarises all elements of an array.
func (st *State) sumObj(o *Obj) *ElemSum {
	s := &ElemSum{None: true}
	if o == nil {
		return s
	}
	switch {
	case o.Hav || (o.Sym != nil):
		s = o.Sum
	case !(o.Len.isConst() && o.Len.C <= int64(len(o.F))):
		s = &ElemSum{HasLo: true, HasHi: true} // zero values
		if o.Sum != nil {
			s = joinSum(s, o.Sum)
		}
	}
	for _, v := range o.F {
		s = joinSum(s, st.sumOf(v))
	}
	return s
}

// bounded applies the summary to an element read from the array.
func (st *State) bounded(o *Obj, v Val) Val {
	if o.Sum == nil || o.Sum.None {
		return v
	}
	var l Lin
	switch x := v.(type) {
	case SliceV:
		l = x.Len
	case StrV:
		l = x.Len
	default:
		return v
	}
	if o.Sum.HasLo && !st.le0(linC(o.Sum.Lo), l) {
		st.addLe(linC(o.Sum.Lo).sub(l))
	}
	if o.Sum.HasHi && !st.le0(l, linC(o.Sum.Hi)) {
		st.addLe(l.addC(-o.Sum.Hi))
	}
	return v
}

func (o *Obj) clone() *Obj {
	n := *o
	n.F = make(map[string]Val, len(o.F)+1)
	for k, v := range o.F {
		n.F[k] = v
	}
	if o.Idx != nil {
		n.Idx = make(map[string]Lin, len(o.Idx)+1)
		for k, v := range o.Idx {
			n.Idx[k] = v
		}
	}
	n.W = o.W[:len(o.W):len(o.W)]
	return &n
}

// contentKey identifies the content of the object.
func (o *Obj) contentKey() string {
	var ks []string
	for k, v := range o.F {
		ks = append(ks, k+"="+v.key())
	}
	sort.Strings(ks)
	for _, w := range o.W {
		ks = append(ks, w.key())
	}
	s := ""
	if o.Sym != nil {
		s = strconv.Itoa(o.Sym.ID)
	}
	return s + "|" + o.Len.key() + "|" + strings.Join(ks, ";") + fmt.Sprint(o.Hav, o.Pub) + strings.Join(o.List, ",") + o.Sum.key()
}

// Ev is an event of the abstract trace (hash-consed list).
type Ev struct {
	prev  *Ev
	N     int
	Kind  string
	Args  []Val
	Ctx   string // execution context: loop, pool, callback, timer, go, caller ...
	Pos   token.Pos
	Extra any
	Locks string
	id    int
}

var evTab = map[string]*Ev{}

func (e *Ev) push(kind, ctx string, pos token.Pos, locks string, extraKey string, extra any, args ...Val) *Ev {
	pid, n := -1, 0
	if e != nil {
		pid, n = e.id, e.N
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|%d|%s|%s", pid, kind, ctx, pos, locks, extraKey)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(a.key())
	}
	k := b.String()
	if x, ok := evTab[k]; ok {
		return x
	}
	x := &Ev{prev: e, N: n + 1, Kind: kind, Args: args, Ctx: ctx, Pos: pos, Extra: extra, Locks: locks, id: len(evTab)}
	evTab[k] = x
	return x
}

func (e *Ev) list() []*Ev {
	var r []*Ev
	for x := e; x != nil; x = x.prev {
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// State is one abstract state.
type State struct {
	Lins
	heap  map[string]*Obj
	own   bool
	bools map[*Term]bool
	bown  bool
	locks []string // held locks, in acquisition order
	lep   []int    // epochs at which they were taken
	trace *Ev
	occ   map[string]int
	oown  bool
	ctx   string
	epoch int // bumped when other goroutines may have changed shared state
	imp   []implication
}

// implication: fact L (<= 0, or == 0) holds whenever the guard does.
type implication struct {
	G  string
	L  Lin
	Eq bool
}

func newState(base map[string]*Obj) *State {
	if base == nil {
		base = map[string]*Obj{}
	}
	return &State{heap: base, own: false, bools: map[*Term]bool{}, bown: true, occ: map[string]int{}, oown: true, ctx: "caller"}
}

func (st *State) fork() *State {
	n := *st
	st.own, n.own = false, false
	st.bown, n.bown = false, false
	st.oown, n.oown = false, false
	n.locks = st.locks[:len(st.locks):len(st.locks)]
	n.lep = st.lep[:len(st.lep):len(st.lep)]
	n.le = st.le[:len(st.le):len(st.le)]
	n.eq = st.eq[:len(st.eq):len(st.eq)]
	n.ne = st.ne[:len(st.ne):len(st.ne)]
	st.le, st.eq, st.ne = n.le, n.eq, n.ne
	n.imp = st.imp[:len(st.imp):len(st.imp)]
	st.imp = n.imp
	return &n
}

func (st *State) setObj(o *Obj) {
	if !st.own {
		h := make(map[string]*Obj, len(st.heap)+4)
		for k, v := range st.heap {
			h[k] = v
		}
		st.heap, st.own = h, true
	}
	st.heap[o.ID] = o
}

func (st *State) setBool(t *Term, b bool) {
	if !st.bown {
		h := make(map[*Term]bool, len(st.bools)+4)
		for k, v := range st.bools {
			h[k] = v
		}
		st.bools, st.bown = h, true
	}
	st.bools[t] = b
}

// next returns the occurrence number of key on this path.
func (st *State) next(key string) int {
	if !st.oown {
		h := make(map[string]int, len(st.occ)+4)
		for k, v := range st.occ {
			h[k] = v
		}
		st.occ, st.oown = h, true
	}
	n := st.occ[key]
	st.occ[key] = n + 1
	return n
}

func (st *State) lockKey() string { return strings.Join(st.locks, ",") }

// ---- facts

func (st *State) addLe(l Lin) bool {
	if l.isConst() {
		return l.C <= 0
	}
	st.le = append(st.le[:len(st.le):len(st.le)], l)
	return true
}

func (st *State) assume(c Cond) bool {
	if !st.assume1(c) {
		return false
	}
	if len(st.imp) > 0 && c.K != CConst {
		k := c.key()
		for _, i := range st.imp {
			if i.G != k {
				continue
			}
			kind := CLe
			if i.Eq {
				kind = CEq
			}
			if !st.assume1(Cond{K: kind, L: i.L}) {
				return false
			}
		}
	}
	return true
}

func (st *State) assume1(c Cond) bool {
	switch c.K {
	case CConst:
		return c.B
	case CTerm:
		if v, ok := st.bools[c.T]; ok {
			return v == c.B
		}
		st.setBool(c.T, c.B)
		return st.implied(c)
	case CLe:
		if st.entailsLe(c.L.neg().addC(1)) {
			return false
		}
		if !st.entailsLe(c.L) {
			st.addLe(c.L)
			st.refineNe()
		}
		return true
	case CEq:
		if st.entailsNe(c.L) {
			return false
		}
		if !st.entailsEq(c.L) {
			st.eq = append(st.eq[:len(st.eq):len(st.eq)], c.L)
		}
		return true
	case CNe:
		if st.entailsEq(c.L) {
			return false
		}
		st.ne = append(st.ne[:len(st.ne):len(st.ne)], c.L)
		st.refineNe()
		return true
	}
	return true
}

// implied adds consequences of an opaque boolean fact.
func (st *State) implied(c Cond) bool {
	t := c.T
	switch t.Op {
	case "streq":
		a, b := t.Args[0].(StrV), t.Args[1].(StrV)
		if c.B {
			return st.assume(cEqL(a.Len, b.Len))
		}
		if l, ok := a.lit(); ok && l == "" {
			return st.assume(cLe(linC(1), b.Len))
		}
		if l, ok := b.lit(); ok && l == "" {
			return st.assume(cLe(linC(1), a.Len))
		}
	}
	return true
}

func (st *State) refineNe() {
	for i, n := range st.ne {
		if i >= 12 && i < len(st.ne)-4 {
			continue // the oldest and the newest
		}
		if st.entailsLe(n) {
			if !st.entailsLe(n.addC(1)) {
				st.addLe(n.addC(1))
			}
		} else if st.entailsLe(n.neg()) {
			if !st.entailsLe(n.neg().addC(1)) {
				st.addLe(n.neg().addC(1))
			}
		}
	}
}

// decide returns the truth of c if the facts determine it.
func (st *State) decide(c Cond) (bool, bool) {
	switch c.K {
	case CConst:
		return c.B, true
	case CTerm:
		if v, ok := st.bools[c.T]; ok {
			return v == c.B, true
		}
		if c.T.Op == "isnil" {
			if a, ok := c.T.Args[0].(TermV); ok && strings.HasPrefix(a.T.Op, "nonnil") {
				return !c.B, true
			}
		}
		if c.T.Op == "streq" {
			a, b := c.T.Args[0].(StrV), c.T.Args[1].(StrV)
			if st.entailsNe(a.Len.sub(b.Len)) {
				return !c.B, true
			}
			if a.Len.eq(b.Len) && a.Len.isConst() && a.Len.C == 0 {
				return c.B, true
			}
			// x == lit1 known, lit1 != lit2
			if la, ok := b.lit(); ok {
				for t, v := range st.bools {
					if v && t.Op == "streq" && t.Args[0].key() == a.key() {
						if lb, ok := t.Args[1].(StrV).lit(); ok && lb != la {
							return !c.B, true
						}
					}
				}
			}
		}
		return false, false
	case CLe:
		if st.entailsLe(c.L) {
			return true, true
		}
		if st.entailsLe(c.L.neg().addC(1)) {
			return false, true
		}
	case CEq:
		if st.entailsEq(c.L) {
			return true, true
		}
		if st.entailsNe(c.L) {
			return false, true
		}
	case CNe:
		b, k := st.decide(Cond{K: CEq, L: c.L})
		return !b, k
	}
	return false, false
}

func (st *State) holds(c Cond) bool { b, k := st.decide(c); return k && b }
func (st *State) le0(a, b Lin) bool { return st.entailsLe(a.sub(b)) }
func (st *State) eqL(a, b Lin) bool {
	return a.eq(b) || st.entailsEq(a.sub(b))
}

// ---- objects

var symObjs = map[string]*Obj{}

func (st *State) obj(id string) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := symObjs[id]; ok {
		return o
	}
	return nil
}

var linTab = map[string]Lin{}

func idxPath(l Lin) string {
	k := l.key()
	linTab[k] = l
	return "[#" + k + "]"
}

func parseIdx(p string) (Lin, string, bool) {
	if !strings.HasPrefix(p, "[#") {
		return Lin{}, "", false
	}
	e := strings.IndexByte(p, ']')
	return linTab[p[2:e]], p[e+1:], true
}

func symID(prefix string, t *Term) string { return prefix + strconv.Itoa(t.ID) }

// symVal is the abstract value of type typ denoted by a term.
func symVal(t *Term, typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if r := intRange(typ); r != nil && !t.HasLo && !t.HasHi {
				t.Lo, t.Hi, t.HasLo, t.HasHi = r.lo, r.hi, r.hasLo, r.hasHi
			}
			return IntV{linT(t)}
		case u.Info()&types.IsString != 0:
			return StrV{T: t, Len: linT(lenTerm(t))}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{cTerm(t)}
		}
		return TermV{t, typ}
	case *types.Slice:
		id := symID("S", t)
		ln := linT(lenTerm(t))
		cp := ln.add(linT(mkR("slack", &rng{0, 0, true, false}, TermV{T: t})))
		if _, ok := symObjs[id]; !ok {
			symObjs[id] = &Obj{ID: id, Kind: OArr, Typ: u.Elem(), Sym: t, Len: cp, Pub: true}
		}
		return SliceV{Obj: id, Off: linC(0), Len: ln, Cap: cp, Elem: u.Elem()}
	case *types.Pointer:
		id := symID("P", t)
		if _, ok := symObjs[id]; !ok {
			o := &Obj{ID: id, Kind: OCell, Typ: u.Elem(), Sym: mk("*", TermV{T: t}), Pub: true}
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				o.Kind, o.Typ, o.Len = OArr, a.Elem(), linC(a.Len())
			}
			symObjs[id] = o
		}
		return PtrV{Obj: id}
	case *types.Struct, *types.Array:
		return &StructV{Typ: typ, Base: t}
	case *types.Tuple:
		var r TupleV
		for i := 0; i < u.Len(); i++ {
			r = append(r, symVal(mk("res"+strconv.Itoa(i), TermV{T: t}), u.At(i).Type()))
		}
		return r
	}
	return TermV{t, typ}
}

func zeroVal(typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{linC(0)}
		case u.Info()&types.IsString != 0:
			return litStr("")
		case u.Info()&types.IsBoolean != 0:
			return BoolV{cFalse}
		}
		return TermV{mk("zero:" + typ.String()), typ}
	case *types.Slice:
		return SliceV{Elem: u.Elem()}
	case *types.Struct, *types.Array:
		return &StructV{Typ: typ}
	case *types.Tuple:
		var r TupleV
		for i := 0; i < u.Len(); i++ {
			r = append(r, zeroVal(u.At(i).Type()))
		}
		return r
	}
	return NilV{}
}

func (s *StructV) get(path string) Val {
	if path == "" {
		return s
	}
	if v, ok := s.F[path]; ok {
		return v
	}
	if path[0] == '$' {
		return Lit("")
	}
	// a struct value stored at a prefix
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '.' || path[i] == '[' {
			if v, ok := s.F[path[:i]]; ok {
				if sv, ok := v.(*StructV); ok {
					return sv.get(path[i:])
				}
			}
		}
	}
	typ := typeAt(s.Typ, path)
	if typ == nil {
		panic(undecided("no type at %s of %s", path, s.Typ))
	}
	// deeper entries
	sub := &StructV{Typ: typ, F: map[string]Val{}}
	if s.Base != nil {
		sub.Base = fldTerm(s.Base, path)
	}
	for k, v := range s.F {
		if strings.HasPrefix(k, path) && len(k) > len(path) && (k[len(path)] == '.' || k[len(path)] == '[') {
			sub.F[k[len(path):]] = v
		}
	}
	switch typ.Underlying().(type) {
	case *types.Struct, *types.Array:
		return sub
	}
	if s.Base == nil {
		return zeroVal(typ)
	}
	return symVal(sub.Base, typ)
}

// loadCell reads a path of a cell object.
func (o *Obj) loadPath(path string) Val {
	s := &StructV{Typ: o.Typ, Base: o.Sym, F: o.F}
	if path == "" {
		if v, ok := o.F[""]; ok {
			if len(o.F) == 1 {
				return v
			}
			if sv, ok := v.(*StructV); ok {
				n := &StructV{Typ: sv.Typ, Base: sv.Base, F: map[string]Val{}}
				for k, x := range sv.F {
					n.F[k] = x
				}
				for k, x := range o.F {
					if k != "" {
						setStruct(n.F, k, x)
					}
				}
				return n
			}
			return v
		}
		switch o.Typ.Underlying().(type) {
		case *types.Struct, *types.Array:
			c := &StructV{Typ: o.Typ, Base: o.Sym, F: map[string]Val{}}
			for k, v := range o.F {
				c.F[k] = v
			}
			return c
		}
		if o.Sym != nil {
			return symVal(o.Sym, o.Typ)
		}
		return zeroVal(o.Typ)
	}
	if v, ok := o.F[""]; ok {
		if sv, ok := v.(*StructV); ok {
			n := &StructV{Typ: o.Typ, Base: sv.Base, F: map[string]Val{}}
			for k, x := range sv.F {
				n.F[k] = x
			}
			for k, x := range o.F {
				if k != "" {
					setStruct(n.F, k, x)
				}
			}
			return n.get(path)
		}
	}
	return s.get(path)
}

func setStruct(f map[string]Val, path string, v Val) {
	for k := range f {
		if strings.HasPrefix(k, path) && (len(k) == len(path) || k[len(path)] == '.' || k[len(path)] == '[') {
			delete(f, k)
		}
	}
	f[path] = v
}

func (st *State) storePath(id, path string, v Val) {
	o := st.obj(id)
	if o == nil {
		panic(undecided("store to unknown object %s", id))
	}
	n := o.clone()
	if path == "" {
		n.F = map[string]Val{"": v}
	} else {
		setStruct(n.F, path, v)
	}
	st.setObj(n)
}

// ---- arrays

// elemAt reads a non-byte element.
func (st *State) elemAt(o *Obj, idx Lin, sub string) Val {
	k := idx.key()
	pick := func(v Val) Val {
		if sub == "" {
			return v
		}
		sv, ok := v.(*StructV)
		if !ok {
			panic(undecided("element path %s", sub))
		}
		return sv.get(sub)
	}
	if v, ok := o.F[k]; ok {
		return pick(v)
	}
	for ek := range o.F {
		d := o.Idx[ek].sub(idx)
		if st.entailsEq(d) {
			return pick(o.F[ek])
		}
	}
	for ek := range o.F {
		d := o.Idx[ek].sub(idx)
		if !st.entailsNe(d) {
			return pick(st.bounded(o, symVal(mk("elem?", Lit(o.ID), Lit(o.contentKey()), IntV{idx}), o.Typ)))
		}
	}
	if o.Hav {
		return pick(st.bounded(o, symVal(mk("elem?", Lit(o.ID), Lit(o.Sum.key()), IntV{idx}), o.Typ)))
	}
	if o.Sym != nil {
		return pick(st.bounded(o, symVal(mk("elem", TermV{T: o.Sym}, IntV{idx}), o.Typ)))
	}
	return pick(zeroVal(o.Typ))
}

func (st *State) setElem(o *Obj, idx Lin, sub string, v Val) {
	if sub != "" {
		cur := st.elemAt(o, idx, "")
		sv, ok := cur.(*StructV)
		if !ok {
			panic(undecided("element store path %s", sub))
		}
		n := &StructV{Typ: sv.Typ, Base: sv.Base, F: map[string]Val{}}
		for k, x := range sv.F {
			n.F[k] = x
		}
		setStruct(n.F, sub, v)
		v = n
	}
	n := o.clone()
	if n.Idx == nil {
		n.Idx = map[string]Lin{}
	}
	for ek := range o.F {
		if ek == idx.key() {
			continue
		}
		d := o.Idx[ek].sub(idx)
		if !st.entailsNe(d) {
			delete(n.F, ek)
			delete(n.Idx, ek)
			if !st.entailsEq(d) {
				if !n.Hav {
					n.Sum = st.sumObj(o)
				} else {
					n.Sum = joinSum(n.Sum, st.sumOf(o.F[ek]))
				}
				n.Hav = true
			}
		}
	}
	n.F[idx.key()] = v
	n.Idx[idx.key()] = idx
	st.setObj(n)
}

// ---- bytes

func (st *State) writeBytes(id string, w Write) {
	o := st.obj(id)
	if o == nil {
		panic(undecided("write to unknown array"))
	}
	if w.N.isConst() && w.N.C == 0 {
		return
	}
	n := o.clone()
	n.W = append(n.W, w)
	st.setObj(n)
}

// baseTerm is the content term of the array before any write.
func (o *Obj) baseTerm() *Term {
	if o.Sym != nil {
		return o.Sym
	}
	return mk("zeros")
}

// content returns the content term of the n bytes at off (and an offset into it).
func (st *State) content(o *Obj, off, n Lin) (t *Term, srcOff Lin) {
	for i := len(o.W) - 1; i >= 0; i-- {
		w := o.W[i]
		if w.Each != nil {
			if lo, hi, ok := st.hull(w); ok && (st.le0(hi, off) || st.le0(off.add(n), lo)) {
				continue
			}
		}
		if w.Each == nil {
			end := w.Off.add(w.N)
			if st.le0(w.Off, off) && st.le0(off.add(n), end) {
				switch v := w.V.(type) {
				case StrV:
					return v.T, w.SrcOff.add(off.sub(w.Off))
				case IntV:
					if w.N.isConst() {
						return mk("beint"+strconv.FormatInt(w.N.C, 10), v), off.sub(w.Off)
					}
				}
				return mk("mem", Lit(o.ID), Lit(o.contentKey())), off
			}
			if st.le0(end, off) || st.le0(off.add(n), w.Off) {
				continue
			}
		}
		return mk("mem", Lit(o.ID), Lit(o.contentKey())), off
	}
	if o.Hav {
		return mk("mem", Lit(o.ID), Lit(o.contentKey())), off
	}
	return o.baseTerm(), off
}

// hull is the region covered by a family of writes.
func (st *State) hull(w Write) (lo, hi Lin, ok bool) {
	c := w.Off.coef(w.Each)
	first := w.Off.subst(w.Each, linC(0))
	last := w.Off.subst(w.Each, w.EachN.addC(-1))
	if w.N.coef(w.Each) != 0 {
		return Lin{}, Lin{}, false
	}
	if c < 0 {
		first, last = last, first
	}
	n := w.N
	if !n.isConst() && w.Win.coef(w.Each) == 0 {
		n = w.Win // no more than the window, whatever the element
	}
	end := last.add(n)
	if !st.le0(linC(1), w.EachN) && !st.le0(first, end) {
		end = first.add(n) // possibly empty family
		if !st.le0(w.EachN, linC(1)) {
			return Lin{}, Lin{}, false
		}
	}
	return first, end, true
}

// bytesVal is the content of a byte slice as a string value.
func (st *State) bytesVal(s SliceV) StrV {
	if s.Obj == "" {
		return litStr("")
	}
	if s.Len.isConst() && s.Len.C == 0 {
		return litStr("")
	}
	return st.regionVal(st.obj(s.Obj), s.Off, s.Len, 0)
}

// regionVal is the content of a region; regions made of several writes are put together.
func (st *State) regionVal(o *Obj, from, n Lin, depth int) StrV {
	t, off := st.content(o, from, n)
	if t.Op == "mem" && depth < 80 {
		for i := len(o.W) - 1; i >= 0; i-- {
			w := o.W[i]
			if w.Each != nil {
				break
			}
			end := w.Off.add(w.N)
			to := from.add(n)
			if st.le0(end, from) || st.le0(to, w.Off) {
				continue
			}
			if w.V == nil {
				break
			}
			var cut Lin
			switch {
			case st.le0(from.addC(1), w.Off) && st.le0(w.Off, to):
				cut = w.Off
			case st.le0(from.addC(1), end) && st.le0(end.addC(1), to) && st.le0(w.Off, from):
				cut = end
			default:
				return subContent(st, t, off, n)
			}
			a := st.regionVal(o, from, cut.sub(from), depth+1)
			b := st.regionVal(o, cut, to.sub(cut), depth+1)
			return concat(a, b)
		}
	}
	return subContent(st, t, off, n)
}

// subContent is the content term for [off, off+n) of t.
func subContent(st *State, t *Term, off, n Lin) StrV {
	if t.Op == "zeros" {
		if n.isConst() && n.C <= 64 {
			return litStr(strings.Repeat("\x00", int(n.C)))
		}
		return StrV{T: mk("zerosN", IntV{n}), Len: n}
	}
	if l, ok := (StrV{T: t}).lit(); ok && off.isConst() && n.isConst() && off.C >= 0 && off.C+n.C <= int64(len(l)) && n.C >= 0 {
		return litStr(l[off.C : off.C+n.C])
	}
	if off.isConst() && off.C == 0 && n.eq(linT(lenTerm(t))) {
		return StrV{T: t, Len: n}
	}
	if t.Op == "cat" {
		a, b := t.Args[0].(StrV), t.Args[1].(StrV)
		switch {
		case st.le0(off.add(n), a.Len):
			return subContent(st, a.T, off, n)
		case st.le0(a.Len, off):
			return subContent(st, b.T, off.sub(a.Len), n)
		case st.le0(off, a.Len) && st.le0(a.Len, off.add(n)):
			x := subContent(st, a.T, off, a.Len.sub(off))
			return concat(x, subContent(st, b.T, linC(0), off.add(n).sub(a.Len)))
		}
	}
	if t.Op == "sub" {
		return subContent(st, t.Args[0].(TermV).T, t.Args[1].(IntV).L.add(off), n)
	}
	return StrV{T: mk("sub", TermV{T: t}, IntV{off}, IntV{n}), Len: n}
}

// byteInt reads w bytes big endian at off as an integer.
func (st *State) beInt(o *Obj, off Lin, w int64) Lin {
	n := linC(w)
	for i := len(o.W) - 1; i >= 0; i-- {
		wr := o.W[i]
		if wr.Each != nil {
			if lo, hi, ok := st.hull(wr); ok && (st.le0(hi, off) || st.le0(off.add(n), lo)) {
				continue
			}
			break
		}
		if wr.Each == nil && st.eqL(wr.Off, off) && st.eqL(wr.N, n) {
			if v, ok := wr.V.(IntV); ok {
				return v.L
			}
		}
		if wr.Each == nil && (st.le0(wr.Off.add(wr.N), off) || st.le0(off.add(n), wr.Off)) {
			continue
		}
		break
	}
	t, so := st.content(o, off, n)
	return st.beOf(t, so, w)
}

func (st *State) beOf(t *Term, so Lin, w int64) Lin {
	if t.Op == "zeros" || t.Op == "zerosN" {
		return linC(0)
	}
	if l, ok := (StrV{T: t}).lit(); ok && so.isConst() && so.C >= 0 && so.C+w <= int64(len(l)) && w <= 7 {
		var x int64
		for i := int64(0); i < w; i++ {
			x = x<<8 | int64(l[so.C+i])
		}
		return linC(x)
	}
	if t.Op == "sub" {
		return st.beOf(t.Args[0].(TermV).T, t.Args[1].(IntV).L.add(so), w)
	}
	if t.Op == "cat" {
		a, b := t.Args[0].(StrV), t.Args[1].(StrV)
		if st.le0(so.addC(w), a.Len) {
			return st.beOf(a.T, so, w)
		}
		if st.le0(a.Len, so) {
			return st.beOf(b.T, so.sub(a.Len), w)
		}
	}
	if strings.HasPrefix(t.Op, "beint") {
		wn, _ := strconv.ParseInt(t.Op[5:], 10, 64)
		if so.isConst() && so.C == 0 && wn == w {
			return t.Args[0].(IntV).L
		}
		if so.isConst() && so.C >= 0 && so.C+w <= wn {
			if c := t.Args[0].(IntV).L; c.isConst() && wn <= 7 {
				return linC((c.C >> uint(8*(wn-so.C-w))) & (1<<uint(8*w) - 1))
			}
		}
	}
	r := &rng{0, 0, true, false}
	if w <= 7 {
		r.hasHi, r.hi = true, int64(1)<<uint(8*w)-1
	}
	return linT(mkR("be"+strconv.FormatInt(w, 10), r, TermV{T: t}, IntV{so}))
}
