package main

// Abstract values. A Term is a hash-consed value number: two program values
// that the analysis knows to be equal are the same *Term. Integer terms are
// kept in a canonical affine form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	id   int
	Op   string
	Aux  string
	Ref  any
	Args []*Term
	Typ  types.Type
	lin  *Lin // for integer terms
}

// Lin is an affine form k + sum(co[i]*at[i]) over integer atoms.
type Lin struct {
	k  int64
	at []*Term
	co []int64
}

type TermTab struct {
	tab  map[string]*Term
	next int
	syms int
}

var TT *TermTab

func newTermTab() *TermTab { return &TermTab{tab: map[string]*Term{}} }

func mk(op, aux string, typ types.Type, ref any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := TT.tab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	TT.next++
	t := &Term{id: TT.next, Op: op, Aux: aux, Ref: ref, Args: args, Typ: typ}
	TT.tab[k] = t
	return t
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var tyInt = types.Typ[types.Int]
var tyBool = types.Typ[types.Bool]

func freshSym(name string, typ types.Type) *Term {
	TT.syms++
	return mk("sym", fmt.Sprintf("%s#%d", name, TT.syms), typ, nil)
}

func mkBool(b bool) *Term {
	if b {
		return mk("const", "true", tyBool, nil)
	}
	return mk("const", "false", tyBool, nil)
}
func mkInt(k int64) *Term { return linTerm(&Lin{k: k}) }
func mkNil(typ types.Type) *Term {
	return mk("nil", "", nil, nil)
}

func isTrue(t *Term) bool  { return t.Op == "const" && t.Aux == "true" }
func isFalse(t *Term) bool { return t.Op == "const" && t.Aux == "false" }
func isNil(t *Term) bool   { return t.Op == "nil" }

func (t *Term) intConst() (int64, bool) {
	if t != nil && t.Op == "int" {
		return t.lin.k, true
	}
	return 0, false
}

// toLin views an integer term as an affine form.
func toLin(t *Term) *Lin {
	if t.lin != nil {
		return t.lin
	}
	return &Lin{at: []*Term{t}, co: []int64{1}}
}

func linAdd(a, b *Lin, f int64) *Lin { return linComb(a, 1, b, f) }

// linComb is fa*a + fb*b.
func linComb(a *Lin, fa int64, b *Lin, fb int64) *Lin {
	r := &Lin{k: fa*a.k + fb*b.k}
	n := len(a.at) + len(b.at)
	r.at = make([]*Term, 0, n)
	r.co = make([]int64, 0, n)
	put := func(x *Term, c int64) {
		if c != 0 {
			r.at = append(r.at, x)
			r.co = append(r.co, c)
		}
	}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j == len(b.at) || i < len(a.at) && a.at[i].id < b.at[j].id:
			put(a.at[i], fa*a.co[i])
			i++
		case i == len(a.at) || b.at[j].id < a.at[i].id:
			put(b.at[j], fb*b.co[j])
			j++
		default:
			put(a.at[i], fa*a.co[i]+fb*b.co[j])
			i++
			j++
		}
	}
	return r
}

func mkLin(k int64, m map[*Term]int64) *Lin {
	r := &Lin{k: k}
	for x, c := range m {
		if c != 0 {
			r.at = append(r.at, x)
		}
	}
	sort.Slice(r.at, func(i, j int) bool { return r.at[i].id < r.at[j].id })
	for _, x := range r.at {
		r.co = append(r.co, m[x])
	}
	return r
}

func linScale(a *Lin, f int64) *Lin { return linAdd(&Lin{}, a, f) }

func linTerm(l *Lin) *Term {
	if len(l.at) == 0 {
		t := mk("int", fmt.Sprint(l.k), tyInt, nil)
		t.lin = l
		return t
	}
	if len(l.at) == 1 && l.co[0] == 1 && l.k == 0 {
		return l.at[0]
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.k)
	for _, c := range l.co {
		fmt.Fprintf(&b, ",%d", c)
	}
	t := mk("lin", b.String(), tyInt, nil, l.at...)
	t.lin = l
	return t
}

func add(a, b *Term) *Term { return linTerm(linAdd(toLin(a), toLin(b), 1)) }
func sub(a, b *Term) *Term { return linTerm(linAdd(toLin(a), toLin(b), -1)) }
func addK(a *Term, k int64) *Term {
	return add(a, mkInt(k))
}
func mul(a, b *Term) *Term {
	if k, ok := a.intConst(); ok {
		return linTerm(linScale(toLin(b), k))
	}
	if k, ok := b.intConst(); ok {
		return linTerm(linScale(toLin(a), k))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("mul", "", tyInt, nil, a, b)
}

func le0(l *Lin) *Term { // l <= 0
	// integer tightening
	if len(l.at) == 0 {
		return mkBool(l.k <= 0)
	}
	g := int64(0)
	for _, c := range l.co {
		g = gcd64(g, c)
	}
	if g > 1 {
		n := &Lin{at: l.at}
		for _, c := range l.co {
			n.co = append(n.co, c/g)
		}
		// sum <= -k  =>  sum/g <= floor(-k/g)
		n.k = -floorDiv(-l.k, g)
		l = n
	}
	// canonical polarity: l<=0, or its negation -l+1<=0; choose positive
	// leading coefficient and express the other one through not.
	if l.co[0] < 0 {
		n := linAdd(&Lin{k: 1}, l, -1) // -l+1 <= 0 is the negation
		return mkNot(rawLe0(n))
	}
	return rawLe0(l)
}

func rawLe0(l *Lin) *Term { return mk("le0", "", tyBool, nil, linTerm(l)) }

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func lt(a, b *Term) *Term { return le0(linAdd(linAdd(toLin(a), toLin(b), -1), &Lin{k: 1}, 1)) }
func le(a, b *Term) *Term { return le0(linAdd(toLin(a), toLin(b), -1)) }

func mkNot(t *Term) *Term {
	switch {
	case isTrue(t):
		return mkBool(false)
	case isFalse(t):
		return mkBool(true)
	case t.Op == "not":
		return t.Args[0]
	}
	return mk("not", "", tyBool, nil, t)
}

func eqInt(a, b *Term) *Term {
	l := linAdd(toLin(a), toLin(b), -1)
	if len(l.at) == 0 {
		return mkBool(l.k == 0)
	}
	if l.co[0] < 0 {
		l = linScale(l, -1)
	}
	return mk("eq0", "", tyBool, nil, linTerm(l))
}

// neverNil reports that a term is known to denote a non-nil value.
func neverNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "mkiface", "panicval", "makemap", "makechan", "makeslice", "fieldaddr", "idxaddr", "global", "nonnil":
		return true
	case "ext":
		switch t.Aux[:strings.IndexByte(t.Aux+"@", '@')] {
		case "fmt.Errorf", "errors.New", "sync.NewCond":
			return true
		}
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		// floats/T compare may be NaN; callers handle that
		return mkBool(true)
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		if neverNil(a) {
			return mkBool(false)
		}
		return mk("eq", "", tyBool, nil, a, b)
	}
	if isConstTerm(a) && isConstTerm(b) {
		return mkBool(a.Op == b.Op && a.Aux == b.Aux)
	}
	if isBoolType(a.Typ) {
		if isTrue(a) {
			return b
		}
		if isFalse(a) {
			return mkNot(b)
		}
		if isTrue(b) {
			return a
		}
		if isFalse(b) {
			return mkNot(a)
		}
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return mkBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", tyBool, nil, a, b)
}

func isConstTerm(t *Term) bool { return t.Op == "const" || t.Op == "int" }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.Int:
		if isIntType(c.Type()) {
			if v, ok := constant.Int64Val(c.Value); ok {
				return mkInt(v)
			}
		}
	}
	return mk("const", c.Value.ExactString()+":"+typeKind(c.Type()), c.Type(), nil)
}

func typeKind(t types.Type) string {
	if _, ok := t.(*types.TypeParam); ok {
		return "T"
	}
	return t.Underlying().String()
}

func zeroTerm(t types.Type) *Term {
	if t == nil {
		return mkNil(nil)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return mk("zero", tp.Obj().Name(), t, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mk("const", `"":string`, t, nil)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return mkNil(t)
		}
		return mk("const", "0:"+typeKind(t), t, nil)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroTerm(u.Field(i).Type()))
		}
		return mk("struct", "", t, nil, fs...)
	case *types.Array:
		return mk("zeroarr", t.String(), t, nil)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroTerm(u.At(i).Type()))
		}
		return mk("tuple", "", t, nil, fs...)
	}
	return mkNil(t)
}

// mkSlice is root[lo:hi] for a slice (or string) root.
func mkSliceOf(root, lo, hi *Term, typ types.Type) *Term {
	if root.Op == "slice" {
		base := root.Args[1]
		return mkSliceOf(root.Args[0], add(base, lo), add(base, hi), typ)
	}
	if k, ok := lo.intConst(); ok && k == 0 && hi == mkLen(root) && root.Op != "alloc" {
		return root
	}
	return mk("slice", "", typ, nil, root, lo, hi)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case "slice":
		return sub(t.Args[2], t.Args[1])
	case "nil":
		return mkInt(0)
	case "list":
		return mkInt(int64(len(t.Args)))
	case "append": // append(x, list or slice)
		return add(mkLen(t.Args[0]), mkLen(t.Args[1]))
	case "makeslice":
		return t.Args[0]
	case "clone":
		return mkLen(t.Args[0])
	case "const":
		if strings.HasPrefix(t.Aux, `"`) {
			if strings.HasPrefix(t.Aux, `"":`) {
				return mkInt(0)
			}
		}
	}
	if t.Typ != nil {
		if a, ok := deref(t.Typ).Underlying().(*types.Array); ok && t.Op != "sym" {
			return mkInt(a.Len())
		}
	}
	return mk("len", "", tyInt, nil, t)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mkField(x *Term, i int, typ types.Type) *Term {
	if (x.Op == "struct" || x.Op == "tuple") && i < len(x.Args) {
		return x.Args[i]
	}
	return mk("field", fmt.Sprint(i), typ, nil, x)
}

func mkIdxAddr(base, idx *Term, typ types.Type) *Term {
	if base.Op == "slice" {
		return mkIdxAddr(base.Args[0], add(base.Args[1], idx), typ)
	}
	return mk("idxaddr", "", typ, nil, base, idx)
}

func mkFieldAddr(base *Term, i int, name string, typ types.Type) *Term {
	return mk("fieldaddr", fmt.Sprintf("%d.%s", i, name), typ, nil, base)
}

func fieldName(t *Term) string {
	if t.Op != "fieldaddr" {
		return ""
	}
	return t.Aux[strings.IndexByte(t.Aux, '.')+1:]
}

// rootOf returns the base object of an address.
func rootOf(a *Term) *Term {
	for a.Op == "fieldaddr" || a.Op == "idxaddr" {
		a = a.Args[0]
	}
	return a
}

// loadAddr returns the address a loaded value came from, or nil.
func loadAddr(t *Term) *Term {
	if t.Op == "load" {
		return t.Args[0]
	}
	return nil
}

// Path renders a value as an access path that is independent of when memory
// was read: node.channel, p.pipelineState.ctx, thunks[1].
// pathAlias gives the place of slices that a loop put together and that were
// stored there.
var pathAlias = map[*Term]string{}

func Path(t *Term) string {
	if t == nil {
		return "<nil>"
	}
	if p, ok := pathAlias[t]; ok {
		return p
	}
	switch t.Op {
	case "load":
		return addrPath(t.Args[0])
	case "fieldaddr", "idxaddr", "alloc", "global":
		return "&" + addrPath(t)
	}
	return t.String()
}

func addrPath(a *Term) string {
	switch a.Op {
	case "fieldaddr":
		b := a.Args[0]
		if b.Op == "fieldaddr" || b.Op == "idxaddr" || b.Op == "alloc" || b.Op == "global" {
			return addrPath(b) + "." + fieldName(a)
		}
		return Path(b) + "." + fieldName(a)
	case "idxaddr":
		return Path(a.Args[0]) + "[" + a.Args[1].String() + "]"
	case "alloc", "global":
		return a.Aux
	}
	return "*" + Path(a)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	switch t.Op {
	case "int":
		return t.Aux
	case "const", "sym", "param", "func", "alloc", "global":
		return t.Aux
	case "nil":
		return "nil"
	case "lin":
		var p []string
		for i, a := range t.lin.at {
			c := t.lin.co[i]
			switch c {
			case 1:
				p = append(p, "+"+a.str(d+1))
			case -1:
				p = append(p, "-"+a.str(d+1))
			default:
				p = append(p, fmt.Sprintf("%+d*%s", c, a.str(d+1)))
			}
		}
		if t.lin.k != 0 {
			p = append(p, fmt.Sprintf("%+d", t.lin.k))
		}
		return "(" + strings.TrimPrefix(strings.Join(p, ""), "+") + ")"
	case "load":
		return addrPath(t.Args[0])
	case "le0":
		return t.Args[0].str(d+1) + "<=0"
	case "eq0":
		return t.Args[0].str(d+1) + "==0"
	case "eq":
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case "not":
		return "!(" + t.Args[0].str(d+1) + ")"
	case "slice":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "]"
	case "fieldaddr", "idxaddr":
		return "&" + addrPath(t)
	case "closure":
		return "closure(" + t.Aux + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	x := t.Op
	if t.Aux != "" {
		x += "{" + t.Aux + "}"
	}
	return x + "(" + strings.Join(as, ", ") + ")"
}

// contains reports whether sub occurs in t.
func contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == sub {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces terms by terms (used for loop transition relations).
func subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if t.lin != nil {
		r := &Lin{k: t.lin.k}
		for i, a := range t.lin.at {
			r = linAdd(r, toLin(subst(a, m)), t.lin.co[i])
		}
		return linTerm(r)
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "le0":
		return le0(toLin(args[0]))
	case "eq0":
		return eqInt(args[0], mkInt(0))
	case "eq":
		return mkEq(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "len":
		return mkLen(args[0])
	case "mul":
		return mul(args[0], args[1])
	case "slice":
		return mkSliceOf(args[0], args[1], args[2], t.Typ)
	case "idxaddr":
		return mkIdxAddr(args[0], args[1], t.Typ)
	}
	return mk(t.Op, t.Aux, t.Typ, t.Ref, args...)
}

func atomsOf(t *Term, m map[*Term]bool) {
	if t.lin != nil {
		for _, a := range t.lin.at {
			m[a] = true
		}
		return
	}
	m[t] = true
}

var _ = token.ADD
var _ = big.NewInt
