package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whether a secret can reach a log.

func init() {
	register(&Check{ID: "X01", Level: "proof", Tech: "context-sensitive backward data-dependence slicing from every log sink over SSA, with a field-based fixpoint of what holds a secret; path-sensitive abstract interpretation for raw login frames",
		Rule:  "Every argument of every call that writes to a log, to the terminal or into a panic is followed back through assignments, conversions, calls (into the callee and back to the call's own arguments), closures, variables and the bytes written into buffers. None of its origins is a field that holds a secret (a shared secret or password, and every field something secret is stored to), an environment variable or setting named as a password, a structure with such a field rendered whole, or an encoded message that has a secret in clear. One-way digests, comparisons and lengths end the following. The frame of a login with a clear password is never rendered, on any path from its arrival on.",
		Assum: []string{"errors of libraries do not quote credentials", "a digest does not reveal what it was made from", "secrets are held in fields and settings whose names say so (secret, password, passwd, pwd) when they enter the process"},
		Run: func(r *Report) {
			r.atLeast("sink", 150)
			r.atLeast("secret", 4)
			r.atLeast("frame", 1)
			r.guard("sinks", func() { newSlicer(r).sinks() })
			r.guard("frames", func() { r.loginFrames() })
		}})
}

var secretName = regexp.MustCompile(`(?i)(secret|passw|pwd|credential)`)

var errorType = types.Universe.Lookup("error").Type()

type fieldID struct {
	t string
	i int
}

type slicer struct {
	r       *Report
	secret  map[fieldID]string // field -> why
	sites   map[*ssa.Function][]ssa.CallInstruction
	dyn     map[string][]ssa.CallInstruction // by signature
	loose   map[*ssa.Function]bool
	binds   map[*ssa.Function][]*ssa.MakeClosure
	gstores map[*ssa.Global][]ssa.Value
	methods map[string][]*ssa.Function // by name
	memo    map[string]string
	open    map[string]bool
	carry   map[string]string
	steps   int
	visited map[*ssa.Function]bool
}

func newSlicer(r *Report) *slicer {
	s := &slicer{r: r, secret: map[fieldID]string{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, dyn: map[string][]ssa.CallInstruction{},
		binds: map[*ssa.Function][]*ssa.MakeClosure{}, gstores: map[*ssa.Global][]ssa.Value{}, methods: map[string][]*ssa.Function{}, visited: map[*ssa.Function]bool{}}
	_, s.loose = r.P.callersOf()
	for _, fn := range r.P.All {
		if fn.Signature.Recv() != nil {
			s.methods[fn.Name()] = append(s.methods[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					c := x.Common()
					if f := c.StaticCallee(); f != nil {
						s.sites[f] = append(s.sites[f], x)
					} else if !c.IsInvoke() {
						k := c.Signature().String()
						s.dyn[k] = append(s.dyn[k], x)
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					s.binds[f] = append(s.binds[f], x)
				case *ssa.Store:
					if g := baseGlobal(x.Addr); g != nil {
						s.gstores[g] = append(s.gstores[g], x.Val)
					}
				}
			}
		}
	}
	for _, fn := range r.P.All { // calls through interfaces
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok && x.Common().IsInvoke() {
					for _, f := range s.impls(x.Common()) {
						s.sites[f] = append(s.sites[f], x)
					}
				}
			}
		}
	}
	return s
}

// impls are the workspace's methods an interface call can run.
func (s *slicer) impls(c *ssa.CallCommon) (out []*ssa.Function) {
	i, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, f := range s.methods[c.Method.Name()] {
		if types.Implements(f.Signature.Recv().Type(), i) {
			out = append(out, f)
		}
	}
	return
}

func namedStruct(t types.Type) (*types.Named, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, nil
	}
	st, _ := n.Underlying().(*types.Struct)
	return n, st
}

// initial marks the fields and returns their number.
func (s *slicer) initial() {
	for _, pk := range s.r.P.Pkgs {
		for _, n := range sortedKeys(pk.Members) {
			t, ok := pk.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				_, isSl := f.Type().Underlying().(*types.Slice)
				if secretName.MatchString(f.Name()) && (isStr(f.Type()) || isSl) {
					s.secret[fieldID{types.Unalias(t.Type()).String(), i}] = strings.TrimPrefix(t.Type().String(), modPath) + "." + f.Name()
				}
			}
		}
	}
}

func (s *slicer) fieldOf(t types.Type, i int) fieldID {
	n, _ := namedStruct(t)
	if n == nil {
		return fieldID{t.Underlying().String(), i}
	}
	return fieldID{n.String(), i}
}

// fixpoint adds the fields something secret is stored to.
func (s *slicer) fixpoint() {
	for again := true; again; {
		again = false
		s.reset()
		for _, fn := range s.r.P.All {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					id := s.fieldOf(fa.X.Type(), fa.Field)
					if s.secret[id] != "" || !textual(st.Val.Type()) {
						continue
					}
					if why := s.from(st.Val, nil); why != "" {
						s.secret[id] = why
						again = true
					}
				}
			}
		}
	}
	s.reset()
}

func (s *slicer) reset() {
	s.memo, s.open, s.carry = map[string]string{}, map[string]bool{}, map[string]string{}
}

// textual: values of the type can hold text.
func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByte(u.Elem()) || textual(u.Elem())
	case *types.Array:
		return isByte(u.Elem())
	case *types.Interface:
		return true
	}
	return false
}

// frame is the calls a value was followed into.
type callCtx struct {
	site ssa.CallInstruction
	up   *callCtx
}

func (c *callCtx) key() string {
	if c == nil {
		return ""
	}
	return fmt.Sprintf("%p<%s", c.site, c.up.key())
}

func (c *callCtx) depth() int {
	if c == nil {
		return 0
	}
	return 1 + c.up.depth()
}

// from says which secret the value can come from, if any.
func (s *slicer) from(v ssa.Value, ctx *callCtx) string {
	if v == nil {
		return ""
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return ""
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsFloat) != 0 {
		return ""
	}
	k := fmt.Sprintf("%p|%s", v, ctx.key())
	if w, ok := s.memo[k]; ok {
		return w
	}
	if s.open[k] {
		return ""
	}
	s.open[k] = true
	s.steps++
	w := s.origin(v, ctx)
	delete(s.open, k)
	if w != "" || len(s.open) == 0 {
		s.memo[k] = w
	} else {
		s.memo[k] = w
	}
	return w
}

func (s *slicer) any(ctx *callCtx, vs ...ssa.Value) string {
	for _, v := range vs {
		if w := s.from(v, ctx); w != "" {
			return w
		}
	}
	return ""
}

func (s *slicer) origin(v ssa.Value, ctx *callCtx) string {
	if fn := v.Parent(); fn != nil {
		s.visited[fn] = true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return s.param(x, ctx)
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				for _, mc := range s.binds[x.Parent()] {
					if w := s.from(mc.Bindings[i], nil); w != "" {
						return w
					}
				}
			}
		}
		return ""
	case *ssa.Phi:
		return s.any(ctx, x.Edges...)
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			return s.any(ctx, x.X, x.Y)
		}
		return ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.load(x.X, ctx)
		}
		if x.Op == token.ARROW {
			return s.received(x.X.Type())
		}
		return ""
	case *ssa.Convert:
		return s.from(x.X, ctx)
	case *ssa.ChangeType:
		return s.from(x.X, ctx)
	case *ssa.ChangeInterface:
		return s.from(x.X, ctx)
	case *ssa.MakeInterface:
		if w := s.carries(x.X.Type(), 0); w != "" {
			if m := s.ownText(x.X.Type()); m != nil {
				return s.result(m, 0, nil)
			}
			return w
		}
		return s.from(x.X, ctx)
	case *ssa.TypeAssert:
		return s.from(x.X, ctx)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return s.call(c, x.Index, ctx)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return s.from(ta.X, ctx)
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return s.from(l, ctx)
		}
		return ""
	case *ssa.Call:
		if w := s.call(x, 0, ctx); w != "" {
			return w
		}
		return s.written(x, ctx)
	case *ssa.Slice:
		return s.from(x.X, ctx)
	case *ssa.Field:
		if w := s.secret[s.fieldOf(x.X.Type(), x.Field)]; w != "" {
			return w
		}
		return ""
	case *ssa.Index:
		return s.from(x.X, ctx)
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			return s.from(x.X, ctx)
		}
		return s.written(x.X, ctx)
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return s.written(v, ctx)
	case *ssa.FieldAddr:
		return s.load(x, ctx)
	case *ssa.IndexAddr:
		return s.from(x.X, ctx)
	}
	return ""
}

// load: what the memory at the address can hold.
func (s *slicer) load(addr ssa.Value, ctx *callCtx) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if w := s.secret[s.fieldOf(x.X.Type(), x.Field)]; w != "" {
			return w
		}
		if !textual(deref(x.Type())) {
			return ""
		}
		if a, ok := x.X.(*ssa.Alloc); ok && !textual(a.Type()) {
			return s.written(x, ctx)
		}
		return ""
	case *ssa.IndexAddr:
		return s.from(x.X, ctx)
	case *ssa.Global:
		for _, w := range s.gstores[x] {
			if why := s.from(w, nil); why != "" {
				return why
			}
		}
		return ""
	}
	return s.from(addr, ctx)
}

// family are the values in the function that share the memory of v.
func family(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{v: true}
	list := []ssa.Value{v}
	for i := 0; i < len(list); i++ {
		refs := list[i].Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			var w ssa.Value
			switch x := in.(type) {
			case *ssa.Slice:
				w = x
			case *ssa.IndexAddr:
				if x.X == list[i] {
					w = x
				}
			case *ssa.ChangeType:
				w = x
			case *ssa.Phi:
				w = x
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == list[i] {
					w = x
				}
			}
			if w != nil && !seen[w] {
				seen[w] = true
				list = append(list, w)
			}
		}
	}
	return list
}

// written: what is put into the memory v stands for.
func (s *slicer) written(v ssa.Value, ctx *callCtx) string {
	for _, w := range family(v) {
		refs := w.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == w {
					if why := s.from(x.Val, ctx); why != "" {
						return why
					}
				}
			case *ssa.MapUpdate:
				if x.Map == w {
					if why := s.any(ctx, x.Key, x.Value); why != "" {
						return why
					}
				}
			case ssa.CallInstruction:
				if why := s.writes(x, w, ctx); why != "" {
					return why
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == w {
						if why := s.written(f.FreeVars[i], nil); why != "" {
							return why
						}
					}
				}
			}
		}
	}
	return ""
}

// writes: what a call puts into the memory of one of its arguments.
func (s *slicer) writes(x ssa.CallInstruction, w ssa.Value, ctx *callCtx) string {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" && c.Args[0] == w || b.Name() == "append" && c.Args[0] == w {
			return s.any(ctx, c.Args[1:]...)
		}
		return ""
	}
	f := c.StaticCallee()
	if f == nil {
		return ""
	}
	if f.Blocks == nil || !s.inRepo(f) {
		// a library fills its first argument or receiver from the others
		if len(c.Args) > 1 && c.Args[0] == w && !oneWay(f.String()) {
			return s.any(ctx, c.Args[1:]...)
		}
		return ""
	}
	if ctx.depth() > 8 || recursion(ctx, x) {
		return ""
	}
	for i, a := range c.Args {
		if a == w && i < len(f.Params) {
			k := fmt.Sprintf("w%p|%s", f.Params[i], (&callCtx{x, ctx}).key())
			if s.open[k] {
				continue
			}
			s.open[k] = true
			why := s.written(f.Params[i], &callCtx{x, ctx})
			delete(s.open, k)
			if why != "" {
				return why
			}
		}
	}
	return ""
}

func recursion(c *callCtx, x ssa.CallInstruction) bool {
	for ; c != nil; c = c.up {
		if c.site == x {
			return true
		}
	}
	return false
}

func (s *slicer) inRepo(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return s.r.P.By[g.Pkg.Pkg.Path()] == g.Pkg && (strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || strings.HasPrefix(g.Pkg.Pkg.Path(), "smc_client"))
		}
		if o := g.Origin(); o != nil && o != g {
			return s.inRepo(o)
		}
	}
	return f.Blocks != nil && f.Synthetic != ""
}

// param: what callers pass.
func (s *slicer) param(x *ssa.Parameter, ctx *callCtx) string {
	fn := x.Parent()
	at := -1
	for i, q := range fn.Params {
		if q == x {
			at = i
		}
	}
	arg := func(c ssa.CallInstruction) ssa.Value {
		cc := c.Common()
		i := at
		if cc.IsInvoke() {
			if i == 0 {
				return cc.Value
			}
			i--
		}
		if i < len(cc.Args) {
			return cc.Args[i]
		}
		return nil
	}
	if ctx != nil {
		return s.any(ctx.up, arg(ctx.site))
	}
	for _, c := range s.sites[fn] {
		if w := s.from(arg(c), nil); w != "" {
			return w
		}
	}
	if s.loose[fn] || fn.Parent() != nil {
		for _, c := range s.dyn[fn.Signature.String()] {
			if fn.Signature.Recv() != nil {
				continue
			}
			if w := s.from(arg(c), nil); w != "" {
				return w
			}
		}
	}
	return ""
}

func oneWay(n string) bool {
	for _, p := range []string{"crypto/md5.", "crypto/sha1.", "crypto/sha256.", "crypto/sha512.", "crypto/hmac.", "(*crypto/", "crypto/subtle.", "bytes.Equal", "bytes.Compare", "strings.Compare", "strings.EqualFold", "strings.Index", "bytes.Index", "unicode/utf8.", "time.", "(time.", "reflect.TypeOf"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// call: what result i of a call can hold.
func (s *slicer) call(x *ssa.Call, i int, ctx *callCtx) string {
	c := &x.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max":
			return s.any(ctx, c.Args...)
		}
		return ""
	}
	rt := c.Signature().Results().At(i).Type()
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		return ""
	}
	if c.IsInvoke() {
		in := s.impls(c)
		for _, f := range in {
			if w := s.into(f, i, x, ctx); w != "" {
				return w
			}
		}
		if len(in) > 0 {
			return ""
		}
		if w := s.setting(c.Method.Name(), c.Args); w != "" {
			return w
		}
		if types.Identical(rt, errorType) {
			return ""
		}
		return s.any(ctx, append([]ssa.Value{c.Value}, c.Args...)...)
	}
	f := c.StaticCallee()
	if f == nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		}
	}
	if f == nil {
		return ""
	}
	if f.Blocks != nil && s.inRepo(f) {
		return s.into(f, i, x, ctx)
	}
	n := f.String()
	if oneWay(n) {
		return ""
	}
	if w := s.setting(f.Name(), c.Args); w != "" {
		return w
	}
	if n == "os.Environ" {
		return "the environment"
	}
	if types.Identical(rt, errorType) && n != "fmt.Errorf" && n != "errors.New" {
		return ""
	}
	return s.any(ctx, operands(c)...)
}

// operands are the arguments of a call whose text can show in the result: with a constant format,
// what is only rendered as an address or a type is left out.
func operands(c *ssa.CallCommon) []ssa.Value {
	n := len(c.Args)
	if n < 2 {
		return c.Args
	}
	sl, ok := c.Args[n-1].(*ssa.Slice)
	if !ok {
		return c.Args
	}
	f, ok := c.Args[n-2].(*ssa.Const)
	if !ok || f.Value == nil || f.Value.Kind() != constant.String {
		return c.Args
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return c.Args
	}
	verbs, ok := verbsOf(constant.StringVal(f.Value))
	if !ok {
		return c.Args
	}
	out := append([]ssa.Value{}, c.Args[:n-1]...)
	for _, in := range *arr.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			if in == ssa.Instruction(sl) {
				continue
			}
			return c.Args
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return c.Args
		}
		at := int(i.Int64())
		for _, u := range *ia.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(ia) {
				return c.Args
			}
			if at < len(verbs) && (verbs[at] == 'p' || verbs[at] == 'T') {
				continue
			}
			out = append(out, st.Val)
		}
	}
	return out
}

// verbsOf are the verbs of a format without explicit indexes.
func verbsOf(f string) (out []byte, ok bool) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		switch {
		case i == len(f) || f[i] == '[' || f[i] == '*':
			return nil, false
		case f[i] != '%':
			out = append(out, f[i])
		}
	}
	return out, true
}

// setting: a setting or environment variable named as a secret.
func (s *slicer) setting(m string, args []ssa.Value) string {
	if !strings.HasPrefix(m, "Get") && !strings.HasPrefix(m, "LookupEnv") {
		return ""
	}
	for _, a := range args {
		if c := constTail(a); secretName.MatchString(c) {
			return "the setting " + c
		}
	}
	return ""
}

// constTail is the constant end of a text.
func constTail(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return constTail(x.Y)
		}
	}
	return ""
}

func (s *slicer) into(f *ssa.Function, i int, site ssa.CallInstruction, ctx *callCtx) string {
	if ctx.depth() > 8 || recursion(ctx, site) {
		return ""
	}
	return s.result(f, i, &callCtx{site, ctx})
}

// result: what result i of the function can hold.
func (s *slicer) result(f *ssa.Function, i int, ctx *callCtx) string {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			if w := s.from(ret.Results[i], ctx); w != "" {
				return w
			}
		}
	}
	return ""
}

func (s *slicer) received(t types.Type) string {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok || !textual(ch.Elem()) {
		return ""
	}
	for _, fn := range s.r.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Send); ok && types.Identical(x.Chan.Type().Underlying(), t.Underlying()) {
					if w := s.from(x.X, nil); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

// ownText is the method that renders a value of the type, if it has one.
func (s *slicer) ownText(t types.Type) *ssa.Function {
	for _, m := range []string{"Error", "String"} {
		if f := s.r.P.method(t, m); f != nil && f.Signature.Params().Len() == 0 && f.Blocks != nil && s.inRepo(f) {
			return f
		}
	}
	return nil
}

// carries: rendering a value of the type renders a secret.
func (s *slicer) carries(t types.Type, depth int) string {
	k := t.String()
	if w, ok := s.carry[k]; ok {
		return w
	}
	s.carry[k] = ""
	w := ""
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth == 0 { // further pointers are rendered as addresses, but not by all encoders
			w = s.carries(u.Elem(), depth)
		} else {
			w = s.carries(u.Elem(), depth+1)
		}
	case *types.Slice:
		w = s.carries(u.Elem(), depth+1)
	case *types.Array:
		w = s.carries(u.Elem(), depth+1)
	case *types.Map:
		w = s.carries(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields() && w == ""; i++ {
			if y := s.secret[s.fieldOf(t, i)]; y != "" {
				w = y + " in a " + shortType(strings.TrimPrefix(t.String(), modPath)) + " as a whole"
			} else {
				w = s.carries(u.Field(i).Type(), depth+1)
			}
		}
	}
	s.carry[k] = w
	return w
}

// isSink: the call puts its arguments where people read them.
func isSink(c *ssa.CallCommon) (string, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name(), b.Name() == "print" || b.Name() == "println"
	}
	name, pkg := "", ""
	if c.IsInvoke() {
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
	} else if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil { // a function variable of the log package
			name, pkg = g.Name(), g.Pkg.Pkg.Path()
		}
	} else if f := c.StaticCallee(); f != nil {
		name = f.Name()
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			pkg = f.Object().Pkg().Path()
		}
	}
	switch {
	case pkg == "github.com/hrygo/log" || strings.HasPrefix(pkg, "go.uber.org/zap") || pkg == "log" || pkg == "log/slog":
		return pkg[strings.LastIndex(pkg, "/")+1:] + "." + name, true
	case pkg == "fmt" && (strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fprint")):
		return "fmt." + name, true
	case pkg == "os" && (name == "WriteString" || name == "Write"):
		return "os.File." + name, true
	}
	return "", false
}

func (s *slicer) sinks() {
	s.initial()
	s.fixpoint()
	var names []string
	for id, w := range s.secret {
		names = append(names, id.t+" "+fmt.Sprint(id.i)+" "+w)
		s.r.ok("secret", w)
	}
	sort.Strings(names)
	for _, fn := range s.r.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var args []ssa.Value
				what := ""
				switch x := in.(type) {
				case ssa.CallInstruction:
					n, ok := isSink(x.Common())
					if !ok {
						continue
					}
					what, args = n, operands(x.Common())
				case *ssa.Panic:
					what, args = "panic", []ssa.Value{x.X}
				default:
					continue
				}
				s.visited[fn] = true
				bad := ""
				for _, a := range args {
					if w := s.from(a, nil); w != "" {
						bad = w
						break
					}
				}
				s.r.check(bad == "", "sink", fullName(fn), in.Pos(), what+" "+bad, fmt.Sprintf("%s writes %s to the log", what, bad))
			}
		}
	}
	for fn := range s.visited {
		s.r.Fns[fullName(fn)] = true
	}
}

// clearLogins are the protocols whose login frame has a password in clear.
func (s *slicer) clearLogins() map[string]string {
	out := map[string]string{}
	for _, n := range srvNames {
		t := s.r.P.loginTypes()[n]
		fn := s.r.P.method(types.NewPointer(t), "Encode")
		if fn == nil {
			panic(undecided("anchor: the encoding of the login of %s not found", n))
		}
		if w := s.result(fn, 0, nil); w != "" {
			out[n] = w
		}
	}
	return out
}

// loginFrames: the bytes of a login frame with a clear password are not rendered on any path from
// their arrival on.
func (r *Report) loginFrames() {
	s := newSlicer(r)
	s.initial()
	s.fixpoint()
	clear := s.clearLogins()
	if len(clear) == 0 {
		panic(undecided("anchor: no login has a password in clear"))
	}
	rendered := 0
	r.srvCases([]string{"logged", "decode", "decodefail"}, func(role string, cmd int64) bool { return role == "login" || cmd < 0 }, func(c *srvCase) {
		c.e.Skip = nil
	}, func(c *srvCase) {
		if clear[c.name] == "" {
			return
		}
		head := headLen(c.pk)
		for i := range c.ends {
			x := &c.ends[i]
			if c.roleAt(x) != "login" && c.cmd >= 0 {
				continue
			}
			bad := false
			for _, ev := range x.all("logged") {
				rendered++
				for _, a := range ev.Args {
					if sub := rawBytes(x.st, a, head, map[*Term]bool{}); sub != nil && !c.otherCmd(x) {
						c.fail("frame", x, ev, "rendered", "the bytes of a login frame, its password among them, are written to the log")
						bad = true
					}
				}
			}
			if !bad {
				r.ok("frame", c.name)
			}
		}
	})
	if rendered == 0 {
		panic(undecided("anchor: no log call was met after the arrival of a login"))
	}
}

// otherCmd: the frame is known to be of a command other than a login.
func (c *srvCase) otherCmd(x *srvEnd) bool {
	if _, known := c.cmdOf(x); known {
		return c.roleAt(x) != "login"
	}
	for _, sp := range specs[c.pk] {
		if roleOf(sp.typ) == "login" && !x.st.holds(cEqL(streamWord(x.st, 4), linC(int64(sp.cmd))).not()) {
			return false
		}
	}
	return true
}

// rawBytes finds bytes of the inbound stream that may lie beyond the head of a frame.
func rawBytes(st *State, v Val, head int64, seen map[*Term]bool) *Term {
	switch x := v.(type) {
	case StrV:
		return rawTerm(st, x.T, x.Len, head, seen)
	case TermV:
		return rawTerm(st, x.T, linT(lenTerm(x.T)), head, seen)
	case IfaceV:
		return rawBytes(st, x.V, head, seen)
	case TupleV:
		for _, y := range x {
			if t := rawBytes(st, y, head, seen); t != nil {
				return t
			}
		}
	case SliceV:
		if isByte(x.Elem) && x.Obj != "" {
			return rawBytes(st, st.bytesVal(x), head, seen)
		}
	}
	return nil
}

func rawTerm(st *State, t *Term, n Lin, head int64, seen map[*Term]bool) *Term {
	if t == nil || seen[t] {
		return nil
	}
	seen[t] = true
	switch {
	case t.Op == "stream":
		if !st.holds(cLe(n, linC(head))) {
			return t
		}
		return nil
	case t.Op == "sub" && len(t.Args) == 3:
		if in, ok := t.Args[0].(TermV); ok && in.T.Op == "stream" {
			if l, ok := t.Args[2].(IntV); ok && st.holds(cLe(l.L, linC(head))) {
				return nil
			}
			return t
		}
	case strings.HasPrefix(t.Op, "ext:crypto/"):
		return nil
	}
	for _, a := range t.Args {
		if y := rawBytes(st, a, head, seen); y != nil {
			return y
		}
	}
	return nil
}
