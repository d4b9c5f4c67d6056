package main

import (
	"go/types"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FrameSnap is the byte slice handed to a write, with the state it was handed over in.
type FrameSnap struct {
	St *State
	S  SliceV
}

// be reads an integer field of the frame.
func (f *FrameSnap) be(off, w int64) Lin {
	if f.S.Obj == "" {
		return linC(0)
	}
	return f.St.beInt(f.St.obj(f.S.Obj), f.S.Off.addC(off), w)
}

func (e *Engine) snap(st *State, v Val) (*FrameSnap, string) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, ""
	}
	k := s.key()
	if s.Obj != "" {
		if o := st.obj(s.Obj); o != nil {
			k += o.contentKey()
		}
	}
	return &FrameSnap{St: st.fork(), S: s}, k
}

var foldStrings = map[string]func(a, b string) bool{"strings.HasSuffix": strings.HasSuffix, "strings.HasPrefix": strings.HasPrefix,
	"strings.Contains": strings.Contains, "strings.EqualFold": strings.EqualFold}

var foldText = map[string]func(a string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "bytes": true, "math": true, "errors": true, "fmt": true, "time": true,
	"unicode/utf8": true, "unicode": true, "encoding/hex": true, "crypto/md5": true, "regexp": true, "path": true, "path/filepath": true,
	"reflect": true, "encoding/base64": true, "slices": true, "maps": true, "cmp": true, "crypto/sha256": true, "crypto/subtle": true, "net": true}

// beginsWith: the text a is known to begin with b.
func beginsWith(a, b StrV) bool {
	if a.key() == b.key() {
		return true
	}
	if y, ok := b.lit(); ok {
		if x, ok := a.lit(); ok {
			return strings.HasPrefix(x, y)
		}
		if y == "" {
			return true
		}
	}
	if a.T != nil && a.T.Op == "cat" {
		if h, ok := a.T.Args[0].(StrV); ok {
			return beginsWith(h, b)
		}
	}
	return false
}

func pkgOf(name string) string {
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndexByte(n, '/')
	j := strings.IndexByte(n[i+1:], '.')
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func splitErr(c *CallCtx, st *State, okRes []Val, errRes func(s *State) []Val, okEv, errEv func(s *State)) []Outcome {
	f := st.fork()
	if okEv != nil {
		okEv(st)
	}
	if errEv != nil {
		errEv(f)
	}
	return []Outcome{{St: st, Res: okRes}, {St: f, Res: errRes(f)}}
}

func (e *Engine) external(c *CallCtx) []Outcome {
	st := c.St
	n := c.Name
	if e.OnExt != nil && e.probing == 0 {
		e.OnExt(st, n, c.Pos)
	}
	if e.ExtPre && !e.extPre(c) {
		return nil
	}
	switch n {
	// ---- byte order
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		w := bitsOf(n) / 8
		s, ok := c.Args[1].(SliceV)
		if !ok {
			panic(undecided("%s on %s", n, show(c.Args[1])))
		}
		if !e.oblige(st, "index", cLe(linC(w), s.Len), c.Pos, "room for "+strconv.FormatInt(w, 10)+" bytes") || s.Obj == "" {
			return nil
		}
		if strings.Contains(n, "little") {
			st.writeBytes(s.Obj, Write{Off: s.Off, N: linC(w), Win: linC(w), V: IntV{linT(mk("bswap", c.Args[2]))}, Pos: c.Pos, Src: linC(w)})
		} else {
			st.writeBytes(s.Obj, Write{Off: s.Off, N: linC(w), Win: linC(w), V: c.Args[2], Pos: c.Pos, Src: linC(w)})
		}
		return c.ret(st)
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		w := bitsOf(n) / 8
		s, ok := c.Args[1].(SliceV)
		if !ok {
			panic(undecided("%s on %s", n, show(c.Args[1])))
		}
		if !e.oblige(st, "index", cLe(linC(w), s.Len), c.Pos, strconv.FormatInt(w, 10)+" bytes present") || s.Obj == "" {
			return nil
		}
		l := st.beInt(st.obj(s.Obj), s.Off, w)
		if strings.Contains(n, "little") {
			l = linT(mkR("bswap", &rng{0, 0, true, false}, IntV{l}))
		}
		return c.ret(st, IntV{l})
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64":
		w := bitsOf(n) / 8
		s := c.Args[1].(SliceV)
		v := concat(st.bytesVal(s), StrV{T: mk("beint"+strconv.FormatInt(w, 10), c.Args[2]), Len: linC(w)})
		o := e.alloc(st, OArr, s.Elem, c.Pos, v.Len).clone()
		o.Sym = v.T
		st.setObj(o)
		return c.ret(st, SliceV{Obj: o.ID, Off: linC(0), Len: v.Len, Cap: v.Len, Elem: s.Elem})
	case "encoding/binary.Write":
		if outs, ok := e.binaryWrite(c); ok {
			return outs
		}
		x := c.Args[2]
		e.event(st, "bwrite", c.Pos, "", nil, c.Args[0], unIface(x), typeLit(x))
		return splitErr(c, st, []Val{errNil}, func(s *State) []Val { return []Val{c.errVal(s, "binary.Write")} }, nil, func(s *State) { e.event(s, "bwritefail", c.Pos, "", nil) })
	case "encoding/binary.Read":
		if outs, ok := e.binaryRead(c); ok {
			return outs
		}
		x := c.Args[2]
		var v Val = NilV{}
		if iv, ok := x.(IfaceV); ok {
			if pt, ok := iv.V.(PtrV); ok {
				v = e.freshVal(st, "bread", c.Pos, deref(iv.T))
				e.store(st, pt, v, deref(iv.T), c.Pos)
			}
		}
		e.event(st, "bread", c.Pos, "", nil, c.Args[0], v, typeLit(x))
		return splitErr(c, st, []Val{errNil}, func(s *State) []Val { return []Val{c.errVal(s, "binary.Read")} }, nil, func(s *State) { e.event(s, "breadfail", c.Pos, "", nil) })

	// ---- locks
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return e.lock(c, n)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return e.unlock(c)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		f := st.fork()
		c2 := *c
		c2.St = f
		var outs []Outcome
		for _, o := range e.lock(&c2, n) {
			outs = append(outs, Outcome{St: o.St, Res: []Val{BoolV{cTrue}}})
		}
		return append(outs, Outcome{St: st, Res: []Val{BoolV{cFalse}}})
	case "(*sync.Once).Do":
		e.event(st, "once", c.Pos, "", nil, c.Args[0])
		f := st.fork()
		outs := e.callVal(st, c.Args[1], nil, c.Pos, c.Caller)
		for i := range outs {
			outs[i].Res = nil
			e.event(outs[i].St, "onceend", c.Pos, "", nil)
		}
		e.event(f, "onceend", c.Pos, "", nil)
		f.epoch++
		return append(outs, Outcome{St: f})

	// ---- sync.Map
	case "(*sync.Map).Load":
		t := mk("smval@"+strconv.Itoa(st.epoch), c.Args[0], c.Args[1])
		okT := mk("smok@"+strconv.Itoa(st.epoch), c.Args[0], c.Args[1])
		f := st.fork()
		var outs []Outcome
		if st.assume(cTerm(okT)) {
			e.event(st, "smload", c.Pos, "hit", true, c.Args[0], c.Args[1], TermV{T: t})
			outs = append(outs, Outcome{St: st, Res: []Val{TermV{t, c.Sig.Results().At(0).Type()}, BoolV{cTrue}}})
		}
		if f.assume(cTerm(okT).not()) {
			e.event(f, "smload", c.Pos, "miss", false, c.Args[0], c.Args[1], TermV{T: t})
			outs = append(outs, Outcome{St: f, Res: []Val{NilV{}, BoolV{cFalse}}})
		}
		return outs
	case "(*sync.Map).Store", "(*sync.Map).Swap":
		e.publish(st, c.Args[1:]...)
		e.event(st, "smstore", c.Pos, "", nil, c.Args...)
		st.epoch++
		if strings.HasSuffix(n, "Swap") {
			return c.ret(st, c.res(st, "swap")...)
		}
		return c.ret(st)
	case "(*sync.Map).Delete":
		e.event(st, "smdelete", c.Pos, "", nil, c.Args...)
		st.epoch++
		return c.ret(st)
	case "(*sync.Map).CompareAndDelete":
		f := st.fork()
		e.event(st, "smdelete", c.Pos, "", nil, c.Args[:2]...)
		st.epoch++
		return []Outcome{{St: st, Res: []Val{BoolV{cTrue}}}, {St: f, Res: []Val{BoolV{cFalse}}}}
	case "(*sync.Map).LoadAndDelete":
		f := st.fork()
		t := e.fresh(st, "lad", c.Pos)
		e.event(st, "smload", c.Pos, "hit", true, c.Args[0], c.Args[1], TermV{T: t})
		e.event(f, "smload", c.Pos, "miss", false, c.Args[0], c.Args[1], TermV{T: t})
		e.event(st, "smdelete", c.Pos, "", nil, c.Args...)
		st.epoch++
		return []Outcome{{St: st, Res: []Val{TermV{t, c.Sig.Results().At(0).Type()}, BoolV{cTrue}}}, {St: f, Res: []Val{NilV{}, BoolV{cFalse}}}}
	case "(*sync.Map).LoadOrStore":
		f := st.fork()
		e.publish(st, c.Args[1:]...)
		e.event(st, "smloadorstore", c.Pos, "stored", "stored", c.Args...)
		st.epoch++
		v := e.fresh(f, "los", c.Pos)
		e.event(f, "smloadorstore", c.Pos, "loaded", "loaded", c.Args...)
		return []Outcome{{St: st, Res: []Val{c.Args[2], BoolV{cFalse}}}, {St: f, Res: []Val{TermV{v, c.Sig.Results().At(0).Type()}, BoolV{cTrue}}}}
	case "(*sync.Map).Range":
		return e.rangeModel(c, c.Args[1], func(s *State) []Val {
			t := e.fresh(s, "rangekv", c.Pos)
			any := types.NewInterfaceType(nil, nil)
			return []Val{TermV{mk("rkey", TermV{T: t}), any}, TermV{mk("rval", TermV{T: t}), any}}
		})

	// ---- worker pools, timers
	case "(*github.com/panjf2000/ants/v2.Pool).Submit":
		e.publish(st, c.Args[1])
		f := st.fork()
		e.event(st, "submit", c.Pos, "", nil, c.Args[0], c.Args[1])
		var outs []Outcome
		if e.TaskOpaque {
			outs = append(outs, Outcome{St: st, Res: []Val{errNil}})
		} else {
			for _, o := range e.inCtx(st, "pool", c.Args[1], nil, c.Pos, c.Caller) {
				if o.Panic {
					e.event(o.St, "taskpanic", c.Pos, "", nil)
				}
				e.event(o.St, "taskend", c.Pos, "", nil, c.Args[0])
				outs = append(outs, Outcome{St: o.St, Res: []Val{errNil}})
			}
		}
		e.event(f, "submitfail", c.Pos, "", nil, c.Args[0], c.Args[1])
		return append(outs, Outcome{St: f, Res: []Val{c.errVal(f, "submit")}})
	case "(*github.com/panjf2000/ants/v2.Pool).Release":
		e.event(st, "poolrelease", c.Pos, "", nil, c.Args[0])
		return c.ret(st)
	case "time.AfterFunc":
		e.publish(st, c.Args[1])
		e.event(st, "afterfunc", c.Pos, "", nil, c.Args[0], c.Args[1])
		var outs []Outcome
		for _, o := range e.inCtx(st, "timer", c.Args[1], nil, c.Pos, c.Caller) {
			e.event(o.St, "timerend", c.Pos, "", nil)
			outs = append(outs, Outcome{St: o.St, Res: c.res(o.St, "timer")})
		}
		return outs
	case "time.Sleep":
		e.event(st, "sleep", c.Pos, "", nil, c.Args...)
		st.epoch++
		return c.ret(st)
	case "time.Now":
		r := c.res(st, "now")
		e.event(st, "now", c.Pos, "", nil, r[0])
		return c.ret(st, r...)
	case "time.Since", "time.Until":
		now := symVal(e.fresh(st, "now", c.Pos), c.Sig.Params().At(0).Type())
		e.event(st, "now", c.Pos, "", nil, now)
		d := timeLin(now).sub(timeLin(e.norm(st, c.Args[0], 0)))
		if n == "time.Until" {
			d = d.neg()
		}
		return c.ret(st, IntV{d})
	case "(time.Time).Before", "(time.Time).After", "(time.Time).Equal":
		a, b := timeLin(e.norm(st, c.Args[0], 0)), timeLin(e.norm(st, c.Args[1], 0))
		switch n[len("(time.Time)."):] {
		case "Before":
			return c.ret(st, BoolV{cLt(a, b)})
		case "After":
			return c.ret(st, BoolV{cLt(b, a)})
		}
		return c.ret(st, BoolV{cEqL(a, b)})
	case "(time.Time).Sub":
		return c.ret(st, IntV{timeLin(e.norm(st, c.Args[0], 0)).sub(timeLin(e.norm(st, c.Args[1], 0)))})
	case "time.NewTicker", "time.NewTimer", "time.Tick", "time.After":
		r := c.res(st, "ticker")
		if pt, ok := r[0].(PtrV); ok {
			st.assume(cTerm(mk("isnil", TermV{T: symObjs[pt.Obj].Sym.Args[0].(TermV).T})).not())
		}
		e.event(st, "ticker", c.Pos, "", nil, c.Args...)
		return c.ret(st, r...)
	case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n":
		r := c.res(st, "rand")
		if a, ok := c.Args[0].(IntV); ok {
			if !e.oblige(st, "rand", cLe(linC(1), a.L), c.Pos, "argument > 0") {
				return nil
			}
			v := r[0].(IntV).L
			if len(v.T) == 1 {
				v.T[0].T.HasLo, v.T[0].T.Lo = true, 0
			}
			st.addLe(v.addC(1).sub(a.L))
		}
		return c.ret(st, r...)
	case "(*golang.org/x/time/rate.Limiter).Allow":
		t := e.fresh(st, "allow", c.Pos)
		e.event(st, "allow", c.Pos, "", nil, c.Args[0], BoolV{cTerm(t)})
		return c.ret(st, BoolV{cTerm(t)})
	case "(*golang.org/x/time/rate.Limiter).AllowN":
		t := e.fresh(st, "allow", c.Pos)
		e.event(st, "allow", c.Pos, "n", nil, c.Args[0], BoolV{cTerm(t)}, c.Args[2])
		return c.ret(st, BoolV{cTerm(t)})
	case "golang.org/x/time/rate.Every":
		return c.ret(st, TermV{T: mk("every", c.Args[0]), Typ: c.Sig.Results().At(0).Type()})
	case "golang.org/x/time/rate.NewLimiter":
		v := c.res(st, "limiter")
		if pt, ok := v[0].(PtrV); ok {
			e.asPtrQuiet(st, pt)
		}
		e.event(st, "newlimiter", c.Pos, "", nil, c.Args[0], c.Args[1], v[0])
		return c.ret(st, v...)
	case "os.Exit":
		e.event(st, "exit", c.Pos, "", nil)
		return nil

	// ---- io
	case "io.ReadFull", "io.ReadAtLeast":
		s, ok := c.Args[1].(SliceV)
		if !ok {
			panic(undecided("ReadFull into %s", show(c.Args[1])))
		}
		need := s.Len
		if n == "io.ReadAtLeast" {
			need = c.Args[2].(IntV).L
		}
		if p, ok := e.bufPtr(st, c.Args[0]); ok {
			return e.bufReadFull(c, p, s, need)
		}
		st.epoch++
		f := st.fork()
		e.event(st, "readfull", c.Pos, "", nil, c.Args[0], IntV{need}, c.Args[1])
		data := e.fresh(st, "netdata", c.Pos)
		if s.Obj != "" {
			st.writeBytes(s.Obj, Write{Off: s.Off, N: s.Len, Win: s.Len, V: StrV{T: data, Len: s.Len}, Pos: c.Pos, Src: s.Len})
			f.writeBytes(s.Obj, Write{Off: s.Off, N: s.Len, Win: s.Len, Pos: c.Pos, Src: s.Len})
		}
		got := s.Len
		if !st.eqL(need, s.Len) { // may read more than asked for
			g := linT(e.fresh(st, "readn", c.Pos))
			st.addLe(need.sub(g))
			st.addLe(g.sub(s.Len))
			got = g
		}
		e.event(f, "readerr", c.Pos, "", nil, c.Args[0])
		m := e.fresh(f, "readn", c.Pos)
		m.HasLo = true
		f.addLe(linT(m).sub(s.Len))
		if !f.assume(cLe(linC(1), need)) {
			return []Outcome{{St: st, Res: []Val{IntV{got}, errNil}}}
		}
		return []Outcome{{St: st, Res: []Val{IntV{got}, errNil}}, {St: f, Res: []Val{IntV{linT(m)}, c.errVal(f, "read")}}}
	case "sort.Sort", "sort.Stable":
		if x, ok := c.Args[0].(IfaceV); ok {
			return e.sortBy(c, x)
		}
	case "net.Dial", "net.DialTimeout":
		e.event(st, "dial", c.Pos, "", nil, c.Args...)
		rs := c.Sig.Results()
		con := TermV{mk("nonnil:conn", TermV{T: e.fresh(st, "dial", c.Pos)}), rs.At(0).Type()}
		return splitErr(c, st, []Val{con, errNil}, func(s *State) []Val { return []Val{NilV{}, c.errVal(s, "dial")} }, func(s *State) { e.event(s, "dialok", c.Pos, "", nil, con) }, nil)
	case "bytes.Equal":
		a, ok1 := c.Args[0].(SliceV)
		b, ok2 := c.Args[1].(SliceV)
		if ok1 && ok2 {
			return c.ret(st, BoolV{e.equal(st, st.bytesVal(a), st.bytesVal(b))})
		}
	case "bytes.IndexByte", "bytes.Index", "strings.IndexByte", "strings.Index", "bytes.LastIndexByte", "strings.LastIndex", "strings.LastIndexByte",
		"bytes.IndexRune", "strings.IndexRune", "strings.IndexAny", "bytes.IndexAny", "bytes.LastIndex":
		if v := foldLit(st, n, c.Args); v != nil {
			return c.ret(st, v...)
		}
		ln := e.lenOf(st, c.Args[0])
		outs := e.pure(c)
		if v, ok := outs[0].Res[0].(IntV); ok {
			lo, hi := v.L.neg().addC(-1), v.L.sub(ln)
			if n == "bytes.IndexByte" || n == "strings.IndexByte" {
				hi = hi.addC(1)
			}
			st.addLe(lo)
			st.addLe(hi)
			// the length of a part of something is part of its term
			if len(v.L.T) == 1 && v.L.C == 0 && v.L.T[0].K == 1 {
				if t := v.L.T[0].T; len(t.Args) > 0 && len(t.Ax) == 0 {
					var of *Term
					switch x := t.Args[0].(type) {
					case TermV:
						of = x.T
					case StrV:
						of = x.T
					}
					if of != nil && of.Op == "sub" && len(of.Args) == 3 {
						if l, ok := of.Args[2].(IntV); ok && l.L.eq(ln) {
							t.Ax = []Lin{lo, hi}
						}
					}
				}
			}
		}
		return outs
	case "golang.org/x/text/encoding/unicode.UTF16", "golang.org/x/text/transform.NewReader", "(golang.org/x/text/encoding.Encoding).NewEncoder", "(golang.org/x/text/encoding.Encoding).NewDecoder", "iface encoding.Encoding.NewEncoder", "iface encoding.Encoding.NewDecoder",
		"(*golang.org/x/text/encoding.Decoder).Reader", "(*golang.org/x/text/encoding.Encoder).Writer":
		var as []Val
		for _, a := range c.Args {
			as = append(as, e.norm(st, a, 0))
		}
		t := mk("nonnil:"+n, as...)
		r := symVal(t, c.Sig.Results().At(0).Type())
		st.assume(cTerm(mk("isnil", TermV{T: t})).not())
		return c.ret(st, r)
	case "io.ReadAll", "io/ioutil.ReadAll":
		if t := readerTerm(c.Args[0]); t != nil {
			c2 := *c
			c2.Args = []Val{TermV{T: t}}
			return e.pure(&c2)
		}
	case "(*golang.org/x/text/encoding.Encoder).Bytes", "(*golang.org/x/text/encoding.Encoder).String", "(*golang.org/x/text/encoding.Decoder).Bytes", "(*golang.org/x/text/encoding.Decoder).String":
		return e.pure(c) // resets its state first
	case "bytes.NewReader", "strings.NewReader":
		v := e.norm(st, c.argOr(0), 0)
		t := mk("nonnil:"+n, v)
		r := symVal(t, c.Sig.Results().At(0).Type())
		if pt, ok := r.(PtrV); ok {
			st.assume(cTerm(mk("isnil", TermV{T: t})).not())
			r = pt
		}
		e.event(st, "newbuf", c.Pos, "", nil, r, v)
		return c.ret(st, r)
	}
	if v, ok := e.splitLit(c, n); ok {
		return c.ret(st, v)
	}
	switch n {
	case "bytes.Clone", "slices.Clone":
		if s, ok := c.Args[0].(SliceV); ok && isByte(s.Elem) {
			o := e.alloc(st, OArr, s.Elem, c.Pos, s.Len)
			d := SliceV{Obj: o.ID, Off: linC(0), Len: s.Len, Cap: s.Len, Elem: s.Elem}
			cc := *c
			cc.Args = []Val{d, s}
			e.copyBuiltin(&cc)
			return c.ret(st, d)
		}
	}
	if v := foldLit(st, n, c.Args); v != nil {
		return c.ret(st, v...)
	}
	if f := foldText[n]; f != nil && len(c.Args) == 1 {
		if a, ok := c.Args[0].(StrV); ok {
			if x, ok := a.lit(); ok {
				return c.ret(st, litStr(f(x)))
			}
		}
	}
	if f := foldStrings[n]; f != nil && len(c.Args) == 2 {
		a, ok1 := c.Args[0].(StrV)
		b, ok2 := c.Args[1].(StrV)
		if ok1 && ok2 && n == "strings.HasPrefix" && beginsWith(a, b) {
			return c.ret(st, BoolV{cTrue})
		}
		if ok1 && ok2 {
			x, ok1 := a.lit()
			y, ok2 := b.lit()
			if ok1 && ok2 {
				if f(x, y) {
					return c.ret(st, BoolV{cTrue})
				}
				return c.ret(st, BoolV{cFalse})
			}
		}
	}
	if outs, ok := e.bufferModel(c); ok {
		return outs
	}
	if outs, ok := e.listModel(c); ok {
		return outs
	}
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log.") {
		e.logged(c)
	}
	if n == "fmt.Sprintf" {
		outs := e.pure(c)
		if f, ok := c.Args[0].(StrV); ok {
			if s, ok := f.lit(); ok {
				if v, ok := outs[0].Res[0].(StrV); ok && !v.Len.isConst() {
					st.addLe(linC(minLen(s)).sub(v.Len))
				}
			}
		}
		return outs
	}
	if strings.HasPrefix(n, "iface ") {
		if outs, ok := e.ifaceModel(c, n[6:]); ok {
			return outs
		}
	}
	if strings.HasPrefix(n, "github.com/hrygo/log.") {
		lv := strings.TrimPrefix(n, "github.com/hrygo/log.")
		e.logged(c)
		if strings.HasPrefix(lv, "Fatal") {
			e.event(st, "exit", c.Pos, "", nil)
			return nil
		}
		if strings.HasPrefix(lv, "Panic") || strings.HasPrefix(lv, "DPanic") {
			return []Outcome{{St: st, Panic: true}}
		}
		if c.Sig == nil || c.Sig.Results().Len() == 0 {
			return c.ret(st)
		}
		return c.ret(st, c.res(st, "log")...)
	}
	if strings.HasPrefix(n, "(*go.uber.org/zap") || strings.HasPrefix(n, "go.uber.org/zap") {
		e.logged(c)
	}
	if strings.HasPrefix(n, "(*go.uber.org/zap") || strings.HasPrefix(n, "go.uber.org/zap") {
		return c.ret(st, c.res(st, "zap")...)
	}
	if strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "sync/atomic.") {
		return e.atomicModel(c)
	}
	if strings.HasPrefix(n, "(*container/list.") {
		e.event(st, "list", c.Pos, n, n, c.Args...)
		r := c.res(st, n)
		return c.ret(st, r...)
	}
	if n == "context.WithTimeout" || n == "context.WithCancel" || n == "context.Background" {
		return c.ret(st, c.res(st, n)...)
	}
	if n == "errors.New" || n == "fmt.Errorf" {
		return c.ret(st, c.errVal(st, n))
	}
	if strings.HasPrefix(n, "iface error.Error") || strings.HasPrefix(n, "(time.Time)") {
		return e.pure(c)
	}
	if strings.HasPrefix(pkgOf(n), "golang.org/x/text/") && c.Sig != nil && c.Sig.Results().Len() == 1 && types.IsInterface(c.Sig.Results().At(0).Type()) {
		return c.ret(st, TermV{mk("nonnil:"+n, TermV{T: e.fresh(st, n, c.Pos)}), c.Sig.Results().At(0).Type()})
	}
	if n == "reflect.ValueOf" {
		// what it points to can be set through the result
		e.havocArgs(st, c.Args, c.Pos)
	}
	if p := pkgOf(n); purePkgs[p] && !strings.HasPrefix(n, "(*bytes.") && !strings.HasPrefix(n, "(*strings.") && !strings.HasPrefix(n, "(*time.") {
		return e.pure(c)
	}
	if e.Want["ext"] {
		e.event(st, "ext", c.Pos, n, n, c.Args...)
	}
	e.Opaque[n]++
	e.publish(st, c.Args...)
	e.havocArgs(st, c.Args, c.Pos)
	if blockingExt(n) {
		e.event(st, "block", c.Pos, n, n)
		st.epoch++
	}
	if c.Sig == nil {
		return c.ret(st)
	}
	return c.ret(st, c.res(st, n)...)
}

// readerTerm is the term of a reader whose content is a pure function of known values.
func readerTerm(v Val) *Term {
	switch x := unIface(v).(type) {
	case TermV:
		if strings.HasPrefix(x.T.Op, "nonnil:") {
			return x.T
		}
	case PtrV:
		if o := symObjs[x.Obj]; o != nil && o.Sym != nil && len(o.Sym.Args) > 0 {
			if t, ok := o.Sym.Args[0].(TermV); ok && strings.HasPrefix(t.T.Op, "nonnil:") {
				return t.T
			}
		}
	}
	return nil
}

// minLen is the least length of a formatted string: the text outside the verbs and the widths.
func minLen(format string) int64 {
	n := int64(0)
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			n++
			continue
		}
		i++
		w, inPrec := int64(0), false
		for i < len(format) && strings.IndexByte("0123456789+-# .*[]", format[i]) >= 0 {
			switch ch := format[i]; {
			case ch == '.':
				inPrec = true
			case ch >= '0' && ch <= '9' && !inPrec:
				w = w*10 + int64(ch-'0')
			}
			i++
		}
		if i < len(format) && format[i] == '%' {
			n++
		} else {
			n += w
		}
	}
	return n
}

func (c *CallCtx) argOr(i int) Val {
	if i < len(c.Args) {
		return c.Args[i]
	}
	return NilV{}
}

func unIface(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.V
	}
	return v
}
func typeLit(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return Lit(i.T.String())
	}
	return Lit("?")
}

func bitsOf(n string) int64 {
	switch {
	case strings.HasSuffix(n, "16"):
		return 16
	case strings.HasSuffix(n, "32"):
		return 32
	}
	return 64
}

// blockingExt: external calls that may wait for something outside this goroutine.
func blockingExt(n string) bool {
	for _, p := range []string{"(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*golang.org/x/time/rate.Limiter).Wait", "net.Dial", "net.Listen", "net/http.", "os/exec.",
		"(*go.mongodb.org/mongo-driver/", "go.mongodb.org/mongo-driver/mongo.Connect", "(*golang.org/x/time/rate.Limiter).WaitN", "(*time.Timer).", "os.ReadFile", "os.WriteFile", "(*os.File).", "io/ioutil.", "io.ReadAll", "io.Copy", "bufio."} {
		if strings.HasPrefix(strings.TrimPrefix(n, "iface "), p) || strings.HasPrefix(n, p) {
			return n != "(*time.Timer).Stop" && n != "(*time.Timer).Reset"
		}
	}
	return false
}

// timeLin is an instant as a number of nanoseconds.
func timeLin(v Val) Lin {
	var t *Term
	switch x := v.(type) {
	case *StructV:
		if len(x.F) == 0 {
			t = x.Base
		}
	case TermV:
		t = x.T
	}
	if t != nil && t.Op == "ext:(time.Time).Add" {
		if d, ok := t.Args[1].(IntV); ok {
			return timeLin(t.Args[0]).add(d.L)
		}
	}
	return linT(mk("instant", v))
}

func (e *Engine) atomicModel(c *CallCtx) []Outcome {
	st := c.St
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	e.event(st, "atomic", c.Pos, m, m, c.Args...)
	return c.ret(st, c.res(st, "atomic")...)
}

// rangeModel interprets a callback invoked any number of times.
func (e *Engine) rangeModel(c *CallCtx, fn Val, kv func(s *State) []Val) []Outcome {
	st := c.St
	f, ok := fn.(FuncV)
	if !ok {
		return c.ret(st)
	}
	// which visible objects does an iteration change?
	changed := map[string]map[string]bool{}
	var arr []string
	for round := 0; round < 4; round++ {
		base := st.fork()
		e.havocSet(base, changed, arr, c)
		probe := base.fork()
		e.probing++
		outs := e.call(probe, f, kv(probe), nil, c.Pos, c.Caller)
		e.probing--
		more := false
		for _, o := range outs {
			for _, id := range sortedKeys(o.St.heap) {
				no := o.St.heap[id]
				bo := base.obj(id)
				if bo == nil || bo == no || bo.contentKey() == no.contentKey() {
					continue
				}
				if bo.Kind != OCell {
					if !hasStr(arr, id) {
						arr = append(arr, id)
						more = true
					}
					continue
				}
				for _, k := range unionKeys(bo.F, no.F) {
					x, y := bo.loadPath(k), no.loadPath(k)
					if x.key() != y.key() {
						if changed[id] == nil {
							changed[id] = map[string]bool{}
						}
						if !changed[id][k] {
							changed[id][k] = true
							more = true
						}
					}
				}
			}
		}
		if !more {
			break
		}
	}
	if e.OnCell != nil && e.probing == 0 {
		for _, id := range sortedKeys(changed) {
			for _, k := range sortedKeys(changed[id]) {
				was := st.obj(id).loadPath(k)
				h := st.fork()
				e.havocSet(h, map[string]map[string]bool{id: {k: true}}, nil, c)
				e.OnCell(st, id, k, was, h.obj(id).loadPath(k))
			}
		}
	}
	e.havocSet(st, changed, arr, c)
	e.event(st, "range", c.Pos, "", nil, c.Args[0])
	it := st.fork()
	pre := it.trace
	args := kv(it)
	outs := e.call(it, f, args, nil, c.Pos, c.Caller)
	for _, o := range outs {
		if e.OnIter != nil && e.probing == 0 {
			e.OnIter(o.St, "range", f.Fn, args, o.Res)
		}
		if e.OnRange != nil && e.probing == 0 {
			e.OnRange(o.St, c, f.Fn, args, o, delta(pre, o.St.trace))
		}
	}
	st.epoch++
	st.next("range" + e.ctxKey())
	return c.ret(st)
}

func hasStr(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func (e *Engine) havocSet(st *State, changed map[string]map[string]bool, arr []string, c *CallCtx) {
	for _, id := range sortedKeys(changed) {
		o := st.obj(id)
		if o == nil {
			continue
		}
		for _, k := range sortedKeys(changed[id]) {
			t := typeAt(o.Typ, k)
			if t == nil {
				t = o.Typ
			}
			name := "$r:" + e.ctxKey() + strconv.Itoa(int(c.Pos)) + id + k
			if sl, ok := t.Underlying().(*types.Slice); ok {
				_ = sl
				v := (&regionRun{e: e}).havocList(st, name, t)
				st.storePath(id, k, v)
				continue
			}
			st.storePath(id, k, symVal(mk(name), t))
		}
	}
	for _, id := range arr {
		if o := st.obj(id); o != nil {
			n := o.clone()
			n.Hav = true
			n.F, n.Idx, n.W = map[string]Val{}, map[string]Lin{}, nil
			st.setObj(n)
		}
	}
}

// inbound stream of a network connection
func (e *Engine) inbound(st *State, conn Val) (id string) {
	id = "INB" + conn.key()
	if st.obj(id) == nil {
		data := mk("stream", conn)
		o := &Obj{ID: id, Kind: OCell, Typ: streamType, F: map[string]Val{
			".pos": IntV{linC(0)}, ".avail": IntV{linT(mkR("buffered", &rng{0, 0, true, false}, conn))}}, Alloc: true}
		st.setObj(o)
		s := &Obj{ID: "STREAM" + conn.key(), Kind: OArr, Typ: types.Typ[types.Uint8], Sym: data, Lent: true, Pub: true, Len: linT(mkR("streamlen", &rng{0, 0, true, false}, conn)), F: map[string]Val{}}
		st.setObj(s)
	}
	return
}

var streamType = func() types.Type {
	return types.NewStruct([]*types.Var{
		types.NewField(0, nil, "pos", types.Typ[types.Int], false),
		types.NewField(0, nil, "avail", types.Typ[types.Int], false),
		types.NewField(0, nil, "ctx", types.NewInterfaceType(nil, nil), false)}, nil)
}()

func (e *Engine) ifaceModel(c *CallCtx, n string) ([]Outcome, bool) {
	st := c.St
	switch n {
	case "v2.Conn.AsyncWrite":
		e.publish(st, c.Args...)
		sn, k := e.snap(st, c.Args[1])
		f := st.fork()
		e.event(st, "asyncwrite", c.Pos, k, sn, c.Args[0], c.Args[1])
		var outs []Outcome
		if _, isNil := c.Args[2].(NilV); isNil {
			outs = append(outs, Outcome{St: st, Res: []Val{errNil}})
		} else {
			for _, o := range e.inCtx(st, "callback", c.Args[2], []Val{c.Args[0]}, c.Pos, c.Caller) {
				if o.Panic {
					e.event(o.St, "crash", c.Pos, "", nil)
				}
				outs = append(outs, Outcome{St: o.St, Res: []Val{errNil}})
			}
		}
		e.event(f, "writefail", c.Pos, k, sn, c.Args[0], c.Args[1])
		return append(outs, Outcome{St: f, Res: []Val{c.errVal(f, "asyncwrite")}}), true
	case "v2.Conn.Write", "v2.Conn.Writev", "v2.Conn.AsyncWritev", "v2.Conn.SendTo":
		sn, k := e.snap(st, c.Args[1])
		e.event(st, "loopwrite", c.Pos, k, sn, c.Args...)
		return c.ret(st, c.res(st, n)...), true
	case "v2.Conn.Peek":
		id := e.inbound(st, c.Args[0])
		o := st.obj(id)
		pos, av := o.F[".pos"].(IntV).L, o.F[".avail"].(IntV).L
		a := c.Args[1].(IntV).L
		var outs []Outcome
		short := st.fork()
		if short.assume(cLt(av, a)) {
			e.event(short, "peekshort", c.Pos, "", nil, c.Args[0], IntV{a})
			outs = append(outs, Outcome{St: short, Res: []Val{SliceV{Elem: types.Typ[types.Uint8]}, c.errVal(short, "short")}})
		}
		if st.assume(cLe(a, av)) {
			all := st.fork()
			el := types.Typ[types.Uint8]
			if all.assume(cLe(a, linC(0))) {
				e.event(all, "peek", c.Pos, "", nil, c.Args[0], IntV{pos}, IntV{av})
				outs = append(outs, Outcome{St: all, Res: []Val{SliceV{Obj: "STREAM" + c.Args[0].key(), Off: pos, Len: av, Cap: av, Elem: el}, errNil}})
			}
			if st.assume(cLe(linC(1), a)) {
				e.event(st, "peek", c.Pos, "", nil, c.Args[0], IntV{pos}, IntV{a})
				outs = append(outs, Outcome{St: st, Res: []Val{SliceV{Obj: "STREAM" + c.Args[0].key(), Off: pos, Len: a, Cap: a, Elem: el}, errNil}})
			}
		}
		return outs, true
	case "v2.Conn.Discard":
		id := e.inbound(st, c.Args[0])
		o := st.obj(id)
		pos, av := o.F[".pos"].(IntV).L, o.F[".avail"].(IntV).L
		a := c.Args[1].(IntV).L
		var outs []Outcome
		norm := st.fork()
		if norm.assume(cLe(linC(1), a)) && norm.assume(cLe(a, av)) {
			norm.storePath(id, ".pos", IntV{pos.add(a)})
			norm.storePath(id, ".avail", IntV{av.sub(a)})
			e.event(norm, "discard", c.Pos, "", nil, c.Args[0], IntV{pos}, IntV{a})
			outs = append(outs, Outcome{St: norm, Res: []Val{IntV{a}, errNil}})
		}
		reset := func(s *State, why string) {
			s.storePath(id, ".pos", IntV{pos.add(av)})
			s.storePath(id, ".avail", IntV{linC(0)})
			e.event(s, "discardall", c.Pos, why, why, c.Args[0], IntV{pos}, IntV{av})
			outs = append(outs, Outcome{St: s, Res: []Val{IntV{av}, errNil}})
		}
		low := st.fork()
		if low.assume(cLe(a, linC(0))) {
			reset(low, "count<=0")
		}
		hi := st.fork()
		if hi.assume(cLe(linC(1), a)) && hi.assume(cLt(av, a)) {
			reset(hi, "count>buffered")
		}
		return outs, true
	case "v2.Conn.Next":
		id := e.inbound(st, c.Args[0])
		o := st.obj(id)
		pos, av := o.F[".pos"].(IntV).L, o.F[".avail"].(IntV).L
		a := c.Args[1].(IntV).L
		var outs []Outcome
		el := types.Typ[types.Uint8]
		short := st.fork()
		if short.assume(cLt(av, a)) {
			outs = append(outs, Outcome{St: short, Res: []Val{SliceV{Elem: el}, c.errVal(short, "short")}})
		}
		all := st.fork()
		if all.assume(cLe(a, linC(0))) {
			all.storePath(id, ".pos", IntV{pos.add(av)})
			all.storePath(id, ".avail", IntV{linC(0)})
			e.event(all, "peek", c.Pos, "", nil, c.Args[0], IntV{pos}, IntV{av})
			e.event(all, "discardall", c.Pos, "count<=0", "count<=0", c.Args[0], IntV{pos}, IntV{av})
			outs = append(outs, Outcome{St: all, Res: []Val{SliceV{Obj: "STREAM" + c.Args[0].key(), Off: pos, Len: av, Cap: av, Elem: el}, errNil}})
		}
		if st.assume(cLe(a, av)) && st.assume(cLe(linC(1), a)) {
			st.storePath(id, ".pos", IntV{pos.add(a)})
			st.storePath(id, ".avail", IntV{av.sub(a)})
			e.event(st, "peek", c.Pos, "", nil, c.Args[0], IntV{pos}, IntV{a})
			e.event(st, "discard", c.Pos, "", nil, c.Args[0], IntV{pos}, IntV{a})
			outs = append(outs, Outcome{St: st, Res: []Val{SliceV{Obj: "STREAM" + c.Args[0].key(), Off: pos, Len: a, Cap: a, Elem: el}, errNil}})
		}
		return outs, true
	case "v2.Conn.InboundBuffered":
		id := e.inbound(st, c.Args[0])
		return c.ret(st, IntV{st.obj(id).F[".avail"].(IntV).L}), true
	case "v2.Conn.Context":
		id := e.inbound(st, c.Args[0])
		o := st.obj(id)
		if v, ok := o.F[".ctx"]; ok {
			return c.ret(st, v), true
		}
		return c.ret(st, TermV{mk("connctx", c.Args[0]), types.NewInterfaceType(nil, nil)}), true
	case "v2.Conn.SetContext":
		id := e.inbound(st, c.Args[0])
		e.publish(st, c.Args[1])
		st.storePath(id, ".ctx", c.Args[1])
		e.event(st, "setctx", c.Pos, "", nil, c.Args...)
		return c.ret(st), true
	case "v2.Conn.Close":
		e.event(st, "close", c.Pos, "", nil, c.Args[0])
		return c.ret(st, c.res(st, "closeerr")...), true
	case "v2.Conn.CloseWithCallback":
		e.event(st, "close", c.Pos, "", nil, c.Args[0])
		return c.ret(st, c.res(st, "closeerr")...), true
	case "v2.Conn.Flush":
		e.event(st, "flush", c.Pos, "", nil, c.Args[0])
		return c.ret(st, c.res(st, "flusherr")...), true
	case "net.Conn.Close":
		e.event(st, "netclose", c.Pos, "", nil, c.Args[0])
		st.epoch++
		return c.ret(st, c.res(st, "closeerr")...), true
	case "net.Conn.SetDeadline", "net.Conn.SetReadDeadline", "net.Conn.SetWriteDeadline":
		res := c.res(st, "deadlineerr")
		e.event(st, "deadline", c.Pos, "", n[len("net.Conn.Set"):], append(append([]Val{}, c.Args...), res...)...)
		return c.ret(st, res...), true
	case "net.Conn.Write":
		sn, k := e.snap(st, c.Args[1])
		st.epoch++
		f := st.fork()
		e.event(st, "netwrite", c.Pos, k, sn, c.Args[0], c.Args[1])
		e.event(f, "netwritefail", c.Pos, k, sn, c.Args[0], c.Args[1])
		s, _ := c.Args[1].(SliceV)
		return []Outcome{{St: st, Res: []Val{IntV{s.Len}, errNil}}, {St: f, Res: []Val{IntV{linT(e.fresh(f, "wn", c.Pos))}, c.errVal(f, "netwrite")}}}, true
	case "net.Conn.Read", "io.Reader.Read":
		s, ok := c.Args[1].(SliceV)
		if !ok {
			return nil, false
		}
		st.epoch++
		f := st.fork()
		m := e.fresh(st, "readn", c.Pos)
		m.HasLo = true
		st.addLe(linT(m).sub(s.Len))
		e.event(st, "netread", c.Pos, "", nil, c.Args[0], IntV{s.Len}, IntV{linT(m)})
		data := e.fresh(st, "netdata", c.Pos)
		if s.Obj != "" {
			st.writeBytes(s.Obj, Write{Off: s.Off, N: s.Len, Win: s.Len, V: StrV{T: data, Len: s.Len}, Pos: c.Pos, Src: s.Len})
		}
		e.event(f, "readerr", c.Pos, "", nil, c.Args[0])
		return []Outcome{{St: st, Res: []Val{IntV{linT(m)}, errNil}}, {St: f, Res: []Val{IntV{linC(0)}, c.errVal(f, "read")}}}, true
	case "io.Writer.Write":
		v := e.norm(st, c.Args[1], 0)
		e.event(st, "iowrite", c.Pos, "", nil, c.Args[0], v)
		f := st.fork()
		m := e.fresh(st, "wn", c.Pos)
		return []Outcome{{St: st, Res: []Val{IntV{linT(m)}, errNil}}, {St: f, Res: []Val{IntV{linC(0)}, c.errVal(f, "write")}}}, true
	case "codec.Sequence32.NextVal", "codec.Sequence64.NextVal", "codec.SequenceBCD.NextVal":
		r := c.res(st, "seq")
		e.event(st, "nextval", c.Pos, n, n, c.Args[0], r[0])
		if n == "codec.SequenceBCD.NextVal" {
			if s, ok := r[0].(SliceV); ok { // [10]byte or []byte
				_ = s
			}
		}
		return c.ret(st, r...), true
	}
	if strings.HasPrefix(n, "yaml_config.YmlConfig.Get") {
		var as []Val
		as = append(as, Lit(n))
		as = append(as, c.Args[1:]...)
		return c.ret(st, symVal(mk("cfg", as...), c.Sig.Results().At(0).Type())), true
	}
	if strings.HasSuffix(n, ".Error") || strings.HasSuffix(n, ".String") || strings.HasPrefix(n, "utils.TLV.") || strings.HasPrefix(n, "net.Addr") {
		return e.pure(c), true
	}
	return nil, false
}

var _ = (*ssa.Function)(nil)

// sortBy: the sort package compares and swaps elements of the collection, nothing else.
func (e *Engine) sortBy(c *CallCtx, x IfaceV) []Outcome {
	method := func(st *State, name string, args ...Val) []Outcome {
		m := e.P.Prog.LookupMethod(x.T, nil, name)
		if m == nil {
			panic(undecided("no method %s on %s", name, x.T))
		}
		return e.callVal(st, FuncV{Fn: m}, append([]Val{x.V}, args...), c.Pos, c.Caller)
	}
	e.event(c.St, "sort", c.Pos, "", nil, x.V)
	var out []Outcome
	for _, o := range method(c.St, "Len") {
		if o.Panic {
			out = append(out, o)
			continue
		}
		n := o.Res[0].(IntV).L
		few := o.St.fork()
		if few.assume(cLe(n, linC(1))) {
			out = append(out, Outcome{St: few})
		}
		if !o.St.assume(cLe(linC(2), n)) {
			continue
		}
		out = append(out, Outcome{St: o.St.fork()}) // the same elements in another order
		idx := func(what string) Val {
			t := e.fresh(o.St, what, c.Pos)
			t.HasLo = true
			o.St.addLe(linT(t).addC(1).sub(n))
			return IntV{linT(t)}
		}
		i, j := idx("sorti"), idx("sortj")
		for _, q := range method(o.St, "Less", i, j) {
			if q.Panic {
				out = append(out, q)
				continue
			}
			for _, w := range method(q.St, "Swap", i, j) {
				if w.Panic {
					out = append(out, w)
				} else if e.OnSide != nil && e.probing == 0 {
					e.OnSide(w)
				}
			}
		}
	}
	return out
}

// splitLit evaluates a function that cuts a constant text into pieces.
func (e *Engine) splitLit(c *CallCtx, n string) (Val, bool) {
	var a []string
	k := -1
	for _, x := range c.Args {
		switch x := x.(type) {
		case StrV:
			l, ok := x.lit()
			if !ok {
				return nil, false
			}
			a = append(a, l)
		case IntV:
			if !x.L.isConst() {
				return nil, false
			}
			k = int(x.L.C)
		default:
			return nil, false
		}
	}
	var out []string
	switch {
	case n == "strings.Split" && len(a) == 2:
		out = strings.Split(a[0], a[1])
	case n == "strings.SplitN" && len(a) == 2:
		out = strings.SplitN(a[0], a[1], k)
	case n == "strings.SplitAfter" && len(a) == 2:
		out = strings.SplitAfter(a[0], a[1])
	case n == "strings.SplitAfterN" && len(a) == 2:
		out = strings.SplitAfterN(a[0], a[1], k)
	case n == "strings.Fields" && len(a) == 1:
		out = strings.Fields(a[0])
	default:
		return nil, false
	}
	ln := linC(int64(len(out)))
	o := e.alloc(c.St, OArr, types.Typ[types.String], c.Pos, ln)
	for i, s := range out {
		c.St.setElem(c.St.obj(o.ID), linC(int64(i)), "", litStr(s))
	}
	return SliceV{Obj: o.ID, Off: linC(0), Len: ln, Cap: ln, Elem: types.Typ[types.String]}, true
}

// foldLit evaluates a text function of constants.
func foldLit(st *State, n string, args []Val) []Val {
	var t []string
	var c []int64
	for _, a := range args {
		switch x := a.(type) {
		case StrV:
			l, ok := x.lit()
			if !ok {
				return nil
			}
			t = append(t, l)
		case IntV:
			if !x.L.isConst() {
				return nil
			}
			c = append(c, x.L.C)
		default:
			return nil
		}
	}
	num := func(i int) []Val { return []Val{IntV{linC(int64(i))}} }
	txt := func(s string) []Val { return []Val{litStr(s)} }
	yes := func(b bool) Val {
		if b {
			return BoolV{cTrue}
		}
		return BoolV{cFalse}
	}
	switch {
	case len(t) == 2 && len(c) == 0:
		a, b := t[0], t[1]
		switch n {
		case "strings.Index":
			return num(strings.Index(a, b))
		case "strings.LastIndex":
			return num(strings.LastIndex(a, b))
		case "strings.IndexAny":
			return num(strings.IndexAny(a, b))
		case "strings.Count":
			return num(strings.Count(a, b))
		case "strings.TrimSuffix":
			return txt(strings.TrimSuffix(a, b))
		case "strings.TrimPrefix":
			return txt(strings.TrimPrefix(a, b))
		case "strings.TrimRight":
			return txt(strings.TrimRight(a, b))
		case "strings.TrimLeft":
			return txt(strings.TrimLeft(a, b))
		case "strings.Trim":
			return txt(strings.Trim(a, b))
		case "strings.Cut":
			x, y, ok := strings.Cut(a, b)
			return []Val{litStr(x), litStr(y), yes(ok)}
		case "strings.CutSuffix":
			x, ok := strings.CutSuffix(a, b)
			return []Val{litStr(x), yes(ok)}
		case "strings.CutPrefix":
			x, ok := strings.CutPrefix(a, b)
			return []Val{litStr(x), yes(ok)}
		}
	case len(t) == 1 && len(c) == 1:
		switch n {
		case "strings.IndexByte":
			return num(strings.IndexByte(t[0], byte(c[0])))
		case "strings.LastIndexByte":
			return num(strings.LastIndexByte(t[0], byte(c[0])))
		case "strings.IndexRune":
			return num(strings.IndexRune(t[0], rune(c[0])))
		case "strings.Repeat":
			if c[0] >= 0 && c[0] <= 64 {
				return txt(strings.Repeat(t[0], int(c[0])))
			}
		}
	case len(t) == 1 && len(c) == 0:
		switch n {
		case "path/filepath.Ext", "path.Ext":
			return txt(filepath.Ext(t[0]))
		case "path/filepath.Base", "path.Base":
			return txt(filepath.Base(t[0]))
		}
	}
	return nil
}

// logged reports what is written to the log.
func (e *Engine) logged(c *CallCtx) {
	if !e.Want["logged"] {
		return
	}
	var as []Val
	for _, a := range c.Args {
		as = append(as, e.norm(c.St, a, 0))
	}
	e.event(c.St, "logged", c.Pos, c.Name, c.Name, as...)
}
