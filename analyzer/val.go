package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{ key() string }

type IntV struct{ L Lin }
type BoolV struct{ C Cond }

// StrV is a string: its content term and its length.
type StrV struct {
	T   *Term // op "lit" for constants (Args[0] = Lit)
	Len Lin
}
type SliceV struct {
	Obj           string
	Off, Len, Cap Lin
	Elem          types.Type
}
type PtrV struct {
	Obj, Path string
}
type NilV struct{}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}
type IfaceV struct {
	T types.Type
	V Val
}
type StructV struct {
	Typ  types.Type
	Base *Term // nil: zero based
	F    map[string]Val
	k    string
}
type TupleV []Val
type TermV struct {
	T   *Term
	Typ types.Type
}
type Lit string // argument of a literal term

// BuiltinV is an ssa.Builtin used as a value (go/defer)
type BuiltinV struct{ B *ssa.Builtin }

func (v IntV) key() string  { return "i" + v.L.key() }
func (v BoolV) key() string { return "b" + v.C.key() }
func (v StrV) key() string  { return "s" + strconv.Itoa(v.T.ID) }
func (v SliceV) key() string {
	return "[" + v.Obj + ":" + v.Off.key() + ":" + v.Len.key() + ":" + v.Cap.key() + "]"
}
func (v PtrV) key() string { return "&" + v.Obj + v.Path }
func (v NilV) key() string { return "nil" }
func (v FuncV) key() string {
	var b strings.Builder
	b.WriteString("f:" + v.Fn.String())
	for _, x := range v.Bind {
		b.WriteString("," + x.key())
	}
	return b.String()
}
func (v IfaceV) key() string { return "I<" + v.T.String() + ">" + v.V.key() }
func (v *StructV) key() string {
	if v.k == "" {
		var ks []string
		for k, x := range v.F {
			ks = append(ks, k+"="+x.key())
		}
		sort.Strings(ks)
		b := "0"
		if v.Base != nil {
			b = strconv.Itoa(v.Base.ID)
		}
		v.k = "{" + b + ";" + strings.Join(ks, ";") + "}"
	}
	return v.k
}
func (v TupleV) key() string {
	var p []string
	for _, x := range v {
		p = append(p, x.key())
	}
	return "(" + strings.Join(p, ",") + ")"
}
func (v TermV) key() string    { return "t" + strconv.Itoa(v.T.ID) }
func (v Lit) key() string      { return strconv.Quote(string(v)) }
func (v BuiltinV) key() string { return "builtin:" + v.B.Name() }

func show(v Val) string {
	switch x := v.(type) {
	case IntV:
		return x.L.String()
	case BoolV:
		return x.C.String()
	case StrV:
		return x.T.String()
	case TermV:
		return x.T.String()
	case Lit:
		return strconv.Quote(string(x))
	case IfaceV:
		return "iface{" + x.T.String() + " " + show(x.V) + "}"
	case FuncV:
		return x.Fn.Name()
	case TupleV:
		var p []string
		for _, y := range x {
			p = append(p, show(y))
		}
		return "(" + strings.Join(p, ",") + ")"
	case nil:
		return "<none>"
	}
	return v.key()
}

// Cond is an atomic condition.
type Cond struct {
	K CK
	B bool // CConst value / CTerm polarity
	L Lin
	T *Term
}
type CK int

const (
	CConst CK = iota
	CLe       // L <= 0
	CEq       // L == 0
	CNe       // L != 0
	CTerm
)

func (c Cond) key() string {
	switch c.K {
	case CConst:
		return strconv.FormatBool(c.B)
	case CTerm:
		if c.B {
			return "t" + strconv.Itoa(c.T.ID)
		}
		return "!t" + strconv.Itoa(c.T.ID)
	}
	return strconv.Itoa(int(c.K)) + ":" + c.L.key()
}
func (c Cond) String() string {
	switch c.K {
	case CConst:
		return strconv.FormatBool(c.B)
	case CTerm:
		if c.B {
			return c.T.String()
		}
		return "!" + c.T.String()
	case CLe:
		return c.L.String() + "<=0"
	case CEq:
		return c.L.String() + "==0"
	}
	return c.L.String() + "!=0"
}
func (c Cond) not() Cond {
	switch c.K {
	case CConst:
		return Cond{K: CConst, B: !c.B}
	case CTerm:
		return Cond{K: CTerm, B: !c.B, T: c.T}
	case CLe:
		return Cond{K: CLe, L: c.L.neg().addC(1)}
	case CEq:
		return Cond{K: CNe, L: c.L}
	}
	return Cond{K: CEq, L: c.L}
}

var cTrue, cFalse = Cond{K: CConst, B: true}, Cond{K: CConst}

func cLe(a, b Lin) Cond { // a <= b
	l := a.sub(b)
	if l.isConst() {
		return Cond{K: CConst, B: l.C <= 0}
	}
	return Cond{K: CLe, L: l}
}
func cLt(a, b Lin) Cond { return cLe(a.addC(1), b) }
func cEqL(a, b Lin) Cond {
	l := a.sub(b)
	if l.isConst() {
		return Cond{K: CConst, B: l.C == 0}
	}
	if l.T[0].K < 0 {
		l = l.neg()
	}
	return Cond{K: CEq, L: l}
}
func cTerm(t *Term) Cond { return Cond{K: CTerm, B: true, T: t} }

// ---- term table

type termTable struct {
	m   map[string]*Term
	all []*Term
}

var tt = &termTable{m: map[string]*Term{}}

func mk(op string, args ...Val) *Term { return mkR(op, nil, args...) }

type rng struct {
	lo, hi       int64
	hasLo, hasHi bool
}

func mkR(op string, r *rng, args ...Val) *Term {
	var b strings.Builder
	b.WriteString(op)
	if len(args) > 0 {
		b.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.key())
		}
		b.WriteByte(')')
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		if r != nil && !t.HasLo && !t.HasHi {
			t.Lo, t.Hi, t.HasLo, t.HasHi = r.lo, r.hi, r.hasLo, r.hasHi
		}
		return t
	}
	t := &Term{ID: len(tt.all), Key: k, Op: op, Args: args}
	if r != nil {
		t.Lo, t.Hi, t.HasLo, t.HasHi = r.lo, r.hi, r.hasLo, r.hasHi
	}
	tt.m[k] = t
	tt.all = append(tt.all, t)
	return t
}

// intRange is the value range of an integer type; unsigned 64-bit has no usable upper bound.
func intRange(t types.Type) *rng {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch b.Kind() {
	case types.Int8:
		return &rng{-128, 127, true, true}
	case types.Int16:
		return &rng{-32768, 32767, true, true}
	case types.Int32, types.UntypedRune:
		return &rng{math.MinInt32, math.MaxInt32, true, true}
	case types.Uint8:
		return &rng{0, 255, true, true}
	case types.Uint16:
		return &rng{0, 65535, true, true}
	case types.Uint32:
		return &rng{0, math.MaxUint32, true, true}
	case types.Uint64, types.Uint, types.Uintptr:
		return &rng{0, 0, true, false}
	case types.Int, types.Int64, types.UntypedInt:
		return &rng{}
	}
	return nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func litStr(s string) StrV {
	return StrV{T: mk("lit", Lit(s)), Len: linC(int64(len(s)))}
}
func (v StrV) lit() (string, bool) {
	if v.T.Op == "lit" {
		return string(v.T.Args[0].(Lit)), true
	}
	return "", false
}

func lenTerm(t *Term) *Term {
	return mkR("len", &rng{0, 0, true, false}, TermV{T: t})
}

// fldTerm is the term of the location path within a symbolic base.
func fldTerm(base *Term, path string) *Term {
	if path == "" {
		return base
	}
	return mk("fld", TermV{T: base}, Lit(path))
}

// typeAt resolves the type of a path within typ.
func typeAt(typ types.Type, path string) types.Type {
	for path != "" {
		if path[0] == '.' {
			e := strings.IndexAny(path[1:], ".[")
			name := path[1:]
			if e >= 0 {
				name = path[1 : 1+e]
			}
			st, ok := typ.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			var ft types.Type
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					ft = st.Field(i).Type()
				}
			}
			if ft == nil {
				return nil
			}
			typ = ft
			path = path[1+len(name):]
		} else {
			e := strings.IndexByte(path, ']')
			switch a := typ.Underlying().(type) {
			case *types.Array:
				typ = a.Elem()
			case *types.Slice:
				typ = a.Elem()
			default:
				return nil
			}
			path = path[e+1:]
		}
	}
	return typ
}

func fieldName(st types.Type, i int) string {
	return st.Underlying().(*types.Struct).Field(i).Name()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

var _ = fmt.Sprint
