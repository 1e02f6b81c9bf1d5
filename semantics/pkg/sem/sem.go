// Package sem has small functions whose results the compiled code gives, and
// which run.py then has gover and Verus prove. Functions named Xxx_panic panic:
// their bodies must not be provable.
package sem

import (
	"bytes"
	"errors"
	"sort"
	"strings"
)

type point struct{ x, y int }

type box struct {
	v  int
	l  []int
	p  point
	ar [3]int
}

func (b box) setByValue(v int) int { b.v = v; return b.v }
func (b *box) set(v int)           { b.v = v }
func (b *box) push(v int) int      { b.l = append(b.l, v); return len(b.l) }

type shape interface{ area() int }

func (p point) area() int { return p.x * p.y }

type square struct{ s int }

func (s square) area() int { return s.s * s.s }

func WrapAdd8() int      { a := uint8(250); a += 10; return int(a) }
func WrapSub8() int      { a := uint8(3); a -= 10; return int(a) }
func WrapMul64() uint64  { a := uint64(0x8000000000000001); return a * 3 }
func ShiftOut() uint64   { a := uint64(1); n := uint(64); return a << n }
func ShiftByte() int     { b := byte(0x81); return int(b << 1) }
func ShiftRight() int    { b := byte(0x81); return int(b >> 7) }
func AndNot() int        { a := byte(0xff); a &^= 0x0f; return int(a) }
func NegDiv() int        { a := -7; return a / 2 }
func NegRem() int        { a := -7; return a % 2 }
func NegDiv2() int       { a := 7; return a / -2 }
func Complement() uint64 { a := uint64(5); return ^a }
func Xor8() int          { a := byte(0x5a); return int(a ^ 0xff) }
func ConvTrunc() int     { a := 300; return int(byte(a)) }
func ConvNeg() int       { a := -1; return int(byte(a)) }
func ConvNeg64() uint64  { a := -1; return uint64(a) }
func Minus64() uint64    { a := uint64(6); return a & -a }
func Precedence() int    { a, b := 2, 3; return a + b*a<<1 }
func Swap() int          { a, b := 1, 2; a, b = b, a; return a*10 + b }
func SwapIndex() int     { s := []int{0, 1, 2}; i := 0; i, s[i] = 2, 7; return s[0]*10 + i }
func SwapElems() []int   { s := []int{4, 5, 6}; s[0], s[2] = s[2], s[0]; return s }
func Shadow() int {
	a := 1
	if a := 2; a > 1 {
		a = 5
		_ = a
	}
	return a
}
func ShadowBlock() int {
	a := 1
	{
		a := a + 1
		a = a * 2
		_ = a
	}
	return a
}
func ArrayCopy() int    { a := [3]int{1, 2, 3}; b := a; b[0] = 9; return a[0]*10 + b[0] }
func ArrayEqual() bool  { a := [3]int{1, 2, 3}; b := a; b[2] = 4; return a == b }
func StructCopy() int   { a := point{1, 2}; b := a; b.x = 9; return a.x*10 + b.x }
func StructEqual() bool { a := point{1, 2}; b := point{y: 2, x: 1}; return a == b }
func NestedCopy() int {
	a := box{p: point{1, 2}}
	b := a
	b.p.x = 7
	b.ar[1] = 3
	return a.p.x*100 + b.p.x*10 + a.ar[1]
}
func ValueReceiver() int   { b := box{v: 1}; r := b.setByValue(5); return b.v*10 + r }
func PointerReceiver() int { b := box{v: 1}; b.set(5); return b.v }
func PointerPush() int     { b := box{}; b.push(3); b.push(4); return b.l[1]*10 + len(b.l) }
func MapZero() int         { m := map[int]int{1: 2}; return m[1]*10 + m[7] }
func MapOk() bool          { m := map[int]int{1: 0}; _, ok := m[1]; _, no := m[2]; return ok && !no }
func MapLen() int          { m := map[string]int{"a": 1, "b": 2}; m["a"] = 3; m["c"] = 0; return len(m) }
func MapDelete() int {
	m := map[int]int{1: 2, 2: 3}
	delete(m, 1)
	delete(m, 9)
	return len(m)*10 + m[1]
}
func MapOfMap() int     { m := map[int]map[int]int{1: {}}; m[1][2] = 5; return m[1][2] }
func MapNilRead() int   { var m map[int]int; return m[3] + len(m) }
func MapSetField() int  { m := map[int]point{}; p := m[1]; p.x = 4; m[1] = p; return m[1].x*10 + m[1].y }
func SliceLen() int     { s := make([]int, 3, 8); return len(s)*10 + s[2] }
func SliceOf() []int    { s := []int{1, 2, 3, 4, 5}; return s[1:4] }
func SliceTail() []int  { s := []int{1, 2, 3}; return s[len(s):] }
func AppendMany() []int { s := []int{1}; s = append(s, 2, 3); s = append(s, []int{4, 5}...); return s }
func AppendNil() int    { var s []int; s = append(s, 1); return len(s) }
func CopyShort() []int {
	a := []int{1, 2, 3}
	b := make([]int, 2)
	n := copy(b, a)
	return append(b, n)
}
func CopyInto() []int       { a := make([]int, 4); copy(a[1:], []int{7, 8}); return a }
func Concat() string        { a := "ab"; b := a + "c"; a += "d"; return a + b }
func StringIndex() int      { s := "héllo"; return int(s[1])*1000 + len(s) }
func StringSlice() string   { s := "hello"; return s[1:3] + s[4:] }
func StringCompare() bool   { return "ab" == "a"+"b" && "ab" != "ba" }
func Escapes() string       { return "\t\\\"\x00\u00e9\n" + `\n"` }
func BytesToString() string { b := []byte{'a', 'b'}; s := string(b); b[0] = 'x'; return s + string(b) }
func ByteLiteral() int      { return int('a') + int('\n') + int('\x7f') }
func Switch3() int          { return sw(1)*100 + sw(2)*10 + sw(9) }
func sw(a int) int {
	switch a {
	case 1:
		return 3
	case 2, 3:
		return 4
	default:
		return 5
	}
}
func SwitchFall() int {
	r := 0
	switch a := 1; a {
	case 1:
		r += 1
		fallthrough
	case 2:
		r += 10
	case 3:
		r += 100
	}
	return r
}
func SwitchTrue() int {
	a := 5
	switch {
	case a > 7:
		return 1
	case a > 3:
		return 2
	}
	return 3
}
func SwitchBreak() int {
	r := 0
	for i := 0; i < 3; i++ {
		switch i {
		case 1:
			break
		default:
			r += 10
		}
		r++
	}
	return r
}
func LoopContinue() int {
	r := 0
	for i := 0; i < 5; i++ {
		if i == 2 {
			r += 100
		}
		r += i
	}
	return r
}
func LoopRangeArray() int {
	a := [3]int{1, 2, 3}
	r := 0
	for i, v := range a {
		a[2] = 50
		r += i * v
	}
	return r*100 + a[2]
}
func LoopRangeCopyVar() int {
	a := [2]point{{1, 2}, {3, 4}}
	for _, p := range a {
		p.x = 9
		_ = p
	}
	return a[0].x*10 + a[1].x
}
func LoopReturn() int {
	a := [4]int{5, 6, 7, 8}
	for i, v := range a {
		if v == 7 {
			return i
		}
	}
	return -1
}
func LoopBreak() int {
	r := 0
	for i := 0; i < 8; i++ {
		if i == 3 {
			break
		}
		r += 2
	}
	return r
}
func Closure() int {
	n := 1
	add := func(k int) { n += k }
	add(2)
	add(3)
	return n
}
func ClosureResult() int {
	f := func(a, b int) int { return a - b }
	return f(7, 2)*10 + f(1, 1)
}
func Iface() int {
	var s shape = point{2, 3}
	var t shape = square{4}
	return s.area()*100 + t.area()
}
func IfaceSwitch() int { return kind(point{1, 1})*100 + kind(square{2})*10 + kind(nil) }
func kind(s shape) int {
	switch v := s.(type) {
	case point:
		return v.x
	case square:
		return v.s
	case nil:
		return 7
	}
	return 9
}
func IfaceAssert() int {
	var s shape = square{4}
	q, ok := s.(square)
	_, no := s.(point)
	if ok && !no {
		return q.s
	}
	return 0
}
func IfaceNil() bool { var s shape; return s == nil }
func ErrNil() bool   { var e error; f := errors.New("x"); return e == nil && f != nil }
func Named() (r int) { r = 4; return }
func NamedEarly() (r int, s int) {
	r = 4
	s = 2
	if r > 3 {
		return s, r
	}
	return
}
func two() (int, int)    { return 3, 4 }
func CallTwo() int       { a, b := two(); return a*10 + b }
func ShortCircuit() bool { var s []int; return len(s) > 0 && s[0] == 1 || len(s) == 0 }
func Builder() string {
	var b strings.Builder
	b.WriteByte('a')
	b.WriteString("bc")
	return b.String()
}
func Replace() string     { return strings.ReplaceAll("aaab", "aa", "x") }
func ReplaceGrow() string { return strings.ReplaceAll("a\\b", "\\", "\\\\") }
func Buffer() int         { b := bytes.NewBufferString("abc"); return len(b.Bytes()) }
func Prefix() bool        { return strings.HasPrefix("abc", "ab") && !strings.HasSuffix("abc", "ab") }
func SliceOfSlices() int {
	s := [][]int{{1}, {2, 3}}
	s[0] = append(s[0], 9)
	return len(s[0])*10 + s[1][1]
}
func Ptr() int              { a := 3; p := &a; *p += 4; return a }
func PtrStruct() int        { b := box{v: 2}; p := &b; p.v++; p.p.y = 6; return b.v*10 + b.p.y }
func passPtr(p *int, k int) { *p = *p * k }
func PassPtr() int          { a := 3; passPtr(&a, 5); passPtr(&a, 2); return a }
func passSlice(s []int)     { s[0] = 8 }
func PassSlice() int        { s := []int{1, 2}; passSlice(s); return s[0]*10 + s[1] }
func passMap(m map[int]int) { m[5] = 6 }
func PassMap() int          { m := map[int]int{}; passMap(m); return m[5] }
func passArray(a [2]int)    { a[0] = 8 }
func PassArray() int        { a := [2]int{1, 2}; passArray(a); return a[0] }
func passStruct(b box)      { b.v = 8; b.ar[0] = 9 }
func PassStruct() int       { b := box{}; passStruct(b); return b.v + b.ar[0] }
func variadic(v ...int) int { return len(v) }
func Variadic() int         { return variadic()*100 + variadic(1, 2)*10 + variadic([]int{1, 2, 3}...) }
func IncIndex() int {
	s := []int{1, 2}
	i := 0
	s[i]++
	i++
	s[i] += 5
	return s[0]*10 + s[1]
}
func ConstIota() int {
	const (
		a = iota * 3
		b
		c
	)
	return a + b*10 + c*100
}
func OpAssign() int {
	a := 7
	a -= 2
	a *= 3
	a /= 4
	a %= 2
	a |= 6
	a ^= 1
	return a
}
func AliasRead() int { s := []int{1, 2, 3}; t := s[1:]; return t[0]*10 + len(t) }
func BoolOps() bool  { a, b := true, false; return (a || b) && !(a && b) && a != b }
func LabelBreak() int {
	r := 0
	a := [3]int{1, 2, 3}
	for _, v := range a {
		if v == 2 {
			break
		}
		r += v
	}
	return r
}
func Search() int { return sort.SearchInts([]int{1, 3, 5}, 3) }

// wide results
func Pair() (string, bool) { m := map[string]string{"a": "b"}; v, ok := m["a"]; return v, ok }
func EvalOrder() int {
	s := []int{1}
	next := func() int { s = append(s, len(s)); return len(s) }
	a := next()
	b := next()
	return a*10 + b
}

// panics
func Index_panic() int       { s := []int{1}; i := 1; return s[i] }
func IndexNeg_panic() int    { s := []int{1}; i := -1; return s[i] }
func StrIndex_panic() int    { s := "a"; i := len(s); return int(s[i]) }
func SliceHi_panic() []int   { s := []int{1}; n := 2; s = s[:n:n]; return s }
func SliceLoHi_panic() []int { s := []int{1, 2}; n := 2; m := 1; return s[n:m] }
func NilMap_panic() int      { var m map[int]int; m[1] = 2; return m[1] }
func NilPtr_panic() int      { var p *point; return p.x }
func NilIface_panic() int    { var s shape; return s.area() }
func Assert_panic() int      { var s shape = point{}; return s.(square).s }
func DivZero_panic() int     { a := 0; return 1 / a }
func Explicit_panic() int    { panic("x") }
func NilFunc_panic() int     { var f func() int; return f() }
func MakeNeg_panic() int     { n := -1; return len(make([]int, n)) }
func Overflow_panic() int    { a := 0x7fffffffffffffff; a++; return a } // wraps in Go; gover asks for no overflow
func ArrIndex_panic() int    { a := [2]int{}; i := 2; return a[i] }
func Shift_panic() uint64    { a := uint64(1); n := -1; return a << n }

// order of evaluation
func (b *box) get() int  { return b.v }
func (b *box) bump() int { b.v++; return b.v }
func CallOrder() int     { b := box{v: 1}; return b.get()*10 + b.bump() }
func CallOrder2() int    { b := box{v: 1}; p := &b; return p.get()*10 + p.bump() }
func minus(a, b int) int { return a - b }
func CallArgsOrder() int { b := &box{v: 1}; return minus(b.get(), b.bump()) }
func CallCompare() bool  { b := &box{v: 1}; return b.get() < b.bump() }
func CallCond() int {
	b := &box{v: 1}
	if b.get() == 1 && b.bump() == 2 && b.get() == 2 {
		return 7
	}
	return 8
}
func flip(a, b int) (int, int)      { return b, a }
func SwapCall() int                 { a, b := 1, 2; a, b = flip(a, b); return a*10 + b }
func after(a int, p *int) int       { *p = 9; return a }
func InlineParamAlias() int         { x := 1; return after(x, &x)*10 + x }
func afterSlice(n int, s []int) int { s[0] = 9; return n }
func InlineParamElem() int          { s := []int{1, 2}; return afterSlice(s[0], s) }
func apply(n int, f func()) int     { f(); return n }
func InlineParamClosure() int       { x := 1; r := apply(x, func() { x = 5 }); return r*10 + x }
func ReturnOrder() (int, int)       { b := &box{v: 1}; return b.get(), b.bump() }
func ReturnField() (int, int)       { b := &box{v: 1}; x := b.get(); b.set(6); return x, b.get() }
func CompositeOrder() int {
	b := &box{v: 1}
	s := []int{b.get(), b.bump(), b.get()}
	return s[0]*100 + s[1]*10 + s[2]
}
func StructOrder() int  { b := &box{v: 1}; p := point{b.get(), b.bump()}; return p.x*10 + p.y }
func AssignOrder() int  { b := &box{v: 1}; x, y := b.get(), b.bump(); return x*10 + y }
func AssignMapOk() bool { m := map[bool]int{true: 1}; k := true; _, k = m[k]; return k }
func AssignMapOk2() int {
	m := map[int]int{1: 5}
	k := 1
	k, ok := m[k]
	if ok {
		return k
	}
	return 0
}
func Rotate() int       { a, b, c := 1, 2, 3; a, b, c = b, c, a; return a*100 + b*10 + c }
func RotateFields() int { p := point{1, 2}; p.x, p.y = p.y, p.x; return p.x*10 + p.y }
func SwapMixed() int    { s := []int{1, 2}; k := 5; s[0], k = k, s[0]; return s[0]*10 + k }
func SwapStructs() int  { a, b := point{1, 2}, point{3, 4}; a, b = b, a; return a.x*10 + b.x }
func SwapSlices() int   { a, b := []int{1}, []int{2}; a, b = b, a; return a[0]*10 + b[0] }
func Fib() int {
	a, b := 0, 1
	for i := 0; i < 6; i++ {
		a, b = b, a+b
	}
	return a
}
func OpAssignCall() int { b := &box{v: 2}; x := 10; x += b.bump(); x -= b.get(); return x }
func IndexCall() int    { b := &box{}; s := []int{5, 6, 7}; return s[b.bump()]*10 + s[b.bump()] }
func PostIncIndex() int { s := []int{5, 6, 7}; i := 0; x := s[i]; i++; return x*10 + s[i] }

// sharing
func AliasWrite() int { s := []int{1, 2, 3}; t := s[1:]; t[0] = 9; return s[1] }
func AppendShared() int {
	s := make([]int, 2, 4)
	t := append(s, 1)
	u := append(s, 2)
	return t[2]*10 + u[2]
}
func AliasStructSlice() int { b := box{l: []int{1}}; c := b; c.l[0] = 9; return b.l[0] }
func AliasMap() int         { m := map[int]int{}; n := m; n[1] = 2; return m[1] }
func AliasInMap() int       { s := []int{1}; m := map[int][]int{1: s}; s[0] = 5; return m[1][0] }
func ident(s []int) []int   { return s }
func AliasReturned() int    { s := []int{1}; t := ident(s); t[0] = 5; return s[0] }
func AliasField() int       { s := []int{1}; b := box{}; b.l = s; s[0] = 9; return b.l[0] }
func AliasRangeVar() int {
	a := [2][]int{{1}, {2}}
	for _, v := range a {
		v[0] = 9
	}
	return a[0][0]
}
func CopyOverlap() []int { s := []int{1, 2, 3}; copy(s[1:], s); return s }
func AppendSelf() []int  { s := []int{1, 2}; s = append(s, s...); return s }
func DeleteIdiom() []int { s := []int{1, 2, 3}; s = append(s[:1], s[2:]...); return s }
func DeleteShared() int  { s := []int{1, 2, 3}; t := append(s[:1], s[2:]...); return s[1]*10 + t[1] }
func ArraySlice() int    { a := [3]int{1, 2, 3}; s := a[:]; a[0] = 7; return s[0] }
func ArraySlice2() int   { a := [3]int{1, 2, 3}; s := a[:]; s[0] = 7; return a[0] }
func PtrInSlice() int    { a := point{1, 2}; s := []*point{&a}; a.x = 5; return s[0].x }
func newBox() *box       { return &box{v: 1} }
func NewPtr() int        { b := newBox(); b.set(4); return b.v }
func TwoPtrs() int       { a := newBox(); c := a; c.v = 7; return a.v }
func PtrAlias() int {
	b := box{v: 1}
	p := &b
	b.v = 3
	r := p.v
	p.v = 4
	return r*10 + b.v
}
func PtrElem() int  { s := []int{1, 2}; p := &s[1]; *p = 6; return s[1] }
func PtrElem2() int { s := []int{1, 2}; p := &s[1]; s[1] = 6; return *p }
func PtrElem3() int { s := []int{1, 2}; p := &s[1]; s = []int{3, 4}; *p = 6; return s[1] }
func PtrElem4() int {
	s := []int{1, 2}
	i := 0
	p := &s[i]
	i = 1
	*p = 6
	return s[0]*10 + s[1]
}
func Variadic2() int                  { s := []int{1, 2}; setv(s...); return s[0] }
func setv(v ...int)                   { v[0] = 9 }
func PassBuilder() string             { var b strings.Builder; wr(&b, "x"); wr(&b, "y"); return b.String() }
func wr(b *strings.Builder, s string) { b.WriteString(s) }
func BytesShared() string             { b := []byte("ab"); c := b; c[0] = 'x'; return string(b) }
func MapSlices() int {
	m := map[int][]int{}
	m[1] = append(m[1], 4)
	m[1] = append(m[1], 5)
	return m[1][1]*10 + len(m[1])
}
func MapAliasStruct() int {
	m := map[int]box{1: {l: []int{3}}}
	b := m[1]
	b.v = 8
	b.l[0] = 4
	return m[1].v*10 + m[1].l[0]
}
func ClosureAlias() int { s := []int{1}; f := func() { s[0] = 4 }; t := s; f(); return t[0] }
func ClosureState() int {
	b := box{v: 1}
	f := func(k int) int { b.v += k; return b.v }
	return f(2)*10 + f(3)
}
func MethodValue() int { b := box{v: 1}; f := b.bump; f(); return b.v }
func StructInArray() int {
	a := [2]point{}
	a[1].x++
	a[1].x += 4
	b := a
	b[1].x = 0
	return a[1].x
}
func TwoDim() int      { a := [2][2]int{{1, 2}, {3, 4}}; b := a; b[1][0] = 9; return a[1][0]*10 + b[1][0] }
func IfaceEqual() bool { var a, b shape = point{1, 2}, point{1, 2}; return a == b }
func IfaceCopy() int   { p := point{1, 2}; var s shape = p; p.x = 9; return s.area() }
func MinMax() int      { return min(3, 1, 2)*10 + max(4, 7) }
func ArrayKey() int    { m := map[[2]int]int{{1, 2}: 3}; k := [2]int{1, 2}; return m[k] }
func RangeInt() int {
	r := 0
	a := [5]int{}
	for i := range a {
		r += i
	}
	return r
}
func RangeEmpty() int {
	r := 1
	a := [0]int{}
	for range a {
		r = 5
	}
	return r
}
func NamedDefer() (r int) { defer func() { r = 9 }(); return 1 }
func NamedShadow() (r int) {
	r = 1
	{
		r := 5
		_ = r
	}
	return
}
func NamedClosure() (r int) { f := func() { r = 6 }; f(); return }
func SwitchMiddle() int {
	a := 5
	switch {
	default:
		return 1
	case a == 5:
		return 2
	}
}
func SwitchOnce() int {
	b := &box{}
	switch b.bump() {
	case 2:
		return 7
	case 1:
		return b.v
	}
	return 0
}
func Nested() int {
	r := 0
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 2 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			r += i*3 + j + 1
		}
	}
	return r
}
func RuneRange() int {
	r := 0
	for i, c := range "hé" {
		r += i*1000 + int(c)
	}
	return r
}
func RuneConv() int         { return len([]rune("hé")) }
func FromRune() string      { return string(rune(233)) }
func Int8() int             { a := 200; return int(int8(a)) }
func Int32() int            { a := 1 << 40; return int(int32(a + 5)) }
func CompareStr() bool      { return "a" < "b" && "Z" < "a" && "ab" > "a" }
func EmptyStr() bool        { var s string; return s == "" && len(s) == 0 }
func Hex() int              { return 0xff + 0b11 + 0o17 + 'a' }
func FloatFree() int        { const k = 7 / 2; return k }
func StrConcatByte() string { b := byte('q'); return "a" + string(b) }
func UintCompare() bool     { a := uint8(200); return a > 100 && int8(a) < 0 }
func CondAssign() int {
	a := 1
	b := &a
	if *b == 1 {
		*b = 2
	}
	return a
}
func TypedNil() bool       { var p *point; return p == nil }
func StructNilSlice() bool { var b box; return b.l == nil && len(b.l) == 0 }
func EmptyNotNil() bool    { s := []int{}; return s == nil }
func MakeNotNil() bool     { s := make([]int, 0); var t []int; return s != nil && t == nil }
func AppendNilNil() bool   { var s []int; s = append(s, s...); return s == nil }
func SliceNil() bool       { var s []int; return s[:0] == nil }
func BytesNil() bool       { b := []byte(""); return b == nil }
func MapNilTest() bool     { var m map[int]int; n := map[int]int{}; return m == nil && n != nil }

var counter = 5

func SetCounter()        { counter++ }
func Global_refuse() int { return counter }

func NilSliceLen() int {
	var a []int
	b := []int{1}
	n := 0
	if b != nil {
		n += 1
	}
	if a == nil {
		n += 10
	} else if len(a) == 0 {
		n += 100
	}
	return n
}

func NilSliceElse() int {
	f := func(s []int) int {
		if s == nil {
			return len(s)
		}
		return len(s) + 1
	}
	return f([]int{4, 5})
}

type hue interface{ tint() string }
type red struct{ s string }
type blue struct {
	s string
	n int
}

func (r red) tint() string  { return r.s }
func (b blue) tint() string { return b.s }

type withPointer struct{ p *int }

func HueSame() bool {
	var a, b hue = red{"x"}, red{"x"}
	return a == b
}
func HueKind() bool {
	var a, b hue = red{"x"}, blue{"x", 0}
	return a == b
}
func HueConcrete() bool {
	var a hue = blue{"x", 2}
	return a == blue{"x", 2} && a != red{"x"}
}
func HueNil() bool {
	var a, b hue
	return a == b && a != red{""}
}
func HueFirst() int {
	l := []hue{red{"a"}, blue{"a", 1}, red{"b"}, blue{"a", 2}}
	n := 0
	if l[0] == l[2] {
		n += 1
	}
	if l[1] == l[3] {
		n += 2
	}
	l[2] = l[0]
	if l[0] == l[2] {
		n += 4
	}
	return n
}
func StructPointers() bool {
	x, y := 1, 1
	return withPointer{&x} == withPointer{&y}
}
func ArrayCompare() bool { return [2]string{"a", "b"} == [2]string{"a", "b"} }

func LoopBreakFirst() int {
	n := 0
	for i := 0; ; i++ {
		if i >= 4 {
			break
		}
		n = n*2 + i
	}
	return n
}
func LoopBreakNot() int {
	n := 0
	for i := 4; ; i -= 1 {
		if !(i > 0) {
			break
		}
		if i == 2 {
			continue
		}
		n = n*2 + i
	}
	return n
}
func LoopBreakEqual() int {
	n := 0
	for i := 0; ; i = i + 1 {
		if i == 3 {
			break
		}
		n = n*2 + i
	}
	return n
}
func LoopTailStep() int {
	n := 0
	for i := 0; i < 5; {
		n = n*2 + i
		i++
	}
	return n
}
func LoopTailLeft() int {
	n := 0
	for i := 0; i < 5; {
		if n > 2 {
			break
		}
		n += i
		i++
	}
	return n
}
func LoopTailReturn() int {
	n := 0
	for i := 0; i != 5; {
		if n > 2 {
			return n*10 + i
		}
		n += i
		i += 1
	}
	return n
}
func LoopStepDown() int {
	n := 0
	for i := 5; i > 0; {
		n = n*2 + i
		i = i - 1
	}
	return n
}
func LoopBreakOuter() int {
	n := 0
outer:
	for i := 0; i < 3; i++ {
		for j := 0; ; j++ {
			if j == 2 {
				break
			}
			if n > 4 {
				break outer
			}
			n += 2 + j
		}
		n++
	}
	return n
}

// what a branch rebinds stays shared on the other one
func pick(b bool) bool { return b }

func AliasCondMake() int {
	c := pick(false)
	x := []int{1}
	y := x
	if c {
		x = []int{5}
	}
	y[0] = 2
	return x[0]
}
func AliasCondMakeMap() int {
	c := pick(false)
	x := map[int]int{1: 1}
	y := x
	if c {
		x = make(map[int]int)
	}
	y[1] = 2
	return x[1]
}
func AliasElseMake() int {
	x := []int{1}
	y := x
	switch {
	case pick(false):
		y = []int{3}
	case pick(true):
	default:
		y = []int{4}
	}
	y[0] = 2
	return x[0]
}
func AliasLoopMake() int {
	x := []int{1}
	y := x
	for i := 0; i < 0; i++ {
		y = []int{3}
	}
	y[0] = 2
	return x[0]
}
func AliasWriteThenCond() int {
	x := []int{1}
	y := x
	if pick(false) {
		y = []int{3}
	}
	x[0] = 7
	return y[0]
}
func overwrite(s []int, v int) []int {
	s[0] = v
	return s
}
func keepTwo(s []int, v int) ([]int, []int) {
	t := s
	s[0] = v
	return s, t
}
func AliasSelfCall() int {
	x := []int{1, 2}
	x = overwrite(x, 5)
	x = overwrite(x, x[0]+1)
	return x[0]*10 + x[1]
}
func AliasSelfCallKept() int {
	x := []int{1, 2}
	y := x
	x = overwrite(x, 5)
	return y[0]
}
func AliasSelfCallOther() int {
	x := []int{1, 2}
	y := overwrite(x, 5)
	return x[0]*10 + y[0]
}
func AliasSelfCallTwo() int {
	x := []int{1, 2}
	var y []int
	x, y = keepTwo(x, 5)
	x[0] = 9
	return y[0]
}
func AliasSelfCallCond() int {
	x := []int{1, 2}
	z := x
	if pick(false) {
		x = overwrite(z, 3)
	} else {
		z = overwrite(x, 4)
	}
	return x[0]*10 + z[0]
}
func AliasSelfCallLoop() int {
	x := []int{1, 2}
	for i := 0; i < 3; i++ {
		x = overwrite(x, x[0]+i)
	}
	return x[0]
}
func AliasSelfCallOld() int {
	x := []int{1, 2}
	var old []int
	for i := 0; i < 3; i++ {
		old = x
		x = overwrite(x, x[0]+i)
	}
	return old[0]
}
func twoInts() []int         { return []int{1, 2} }
func holder(s []int) [][]int { return [][]int{s} }
func sameOne(s []int) []int  { return s }
func spare() []int           { return make([]int, 1, 4) }
func FreshFromHelper() int {
	x := twoInts()
	y := twoInts()
	x[0] = 7
	return y[0]*10 + x[0]
}
func FreshHolder() int {
	x := []int{1}
	h := holder(x)
	h[0][0] = 3
	return x[0]
}
func FreshSame() int {
	x := []int{1}
	y := sameOne(x)
	y[0] = 3
	return x[0]
}
func AliasAppendSpare() int {
	x := spare()
	y := append(x, 5)
	z := append(x, 6)
	return y[1]*10 + z[1]
}
func AliasAppendElem() int {
	x := [][]int{}
	row := []int{1}
	x = append(x, row)
	row[0] = 2
	return x[0][0]
}
func AliasAppendElemBack() int {
	x := [][]int{}
	row := []int{1}
	x = append(x, row)
	x[0][0] = 2
	return row[0]
}
func AliasAppendElemLoop() int {
	x := [][]int{}
	row := []int{1}
	for i := 0; i < 3; i++ {
		row[0] = i
		x = append(x, row)
	}
	return x[0][0]
}
func AliasTwoElems() int {
	row := []int{1}
	x := [][]int{row, row}
	x[0][0] = 5
	return x[1][0]
}
func AliasTwoElemsLater() int {
	row := []int{1}
	x := make([][]int, 2)
	x[0] = row
	x[1] = row
	x[0][0] = 5
	return x[1][0]
}
func AliasTwoElemsLoop() int {
	row := []int{1}
	x := make([][]int, 2)
	for i := range x {
		x[i] = row
	}
	row = nil
	x[0][0] = 5
	return x[1][0]
}
func AliasElemToElem() int {
	x := [][]int{{1}, {2}}
	x[1] = x[0]
	x[0][0] = 5
	return x[1][0]
}
func AliasAppendLit() int {
	row := []int{1}
	x := append([][]int{}, row)
	row[0] = 5
	return x[0][0]
}
func AliasAppendSpread() int {
	x := [][]int{{1}}
	y := append([][]int{}, x...)
	y[0][0] = 5
	return x[0][0]
}
func AliasCopied() int {
	x := [][]int{{1}}
	y := make([][]int, 1)
	copy(y, x)
	y[0][0] = 5
	return x[0][0]
}
func AliasMapElem() int {
	m := map[int][]int{1: {1}}
	s := m[1]
	s[0] = 4
	return m[1][0]
}
func AliasMapElemOk() int {
	m := map[int][]int{1: {1}}
	v, ok := m[1]
	if ok {
		v[0] = 4
	}
	return m[1][0]
}
func AliasRangeElems() int {
	x := [][]int{{1}, {2}}
	for _, r := range x {
		r[0] = 7
	}
	return x[0][0]
}
func AliasStructCopyLoop() int {
	b := []box{{l: []int{1}}, {l: []int{2}}}
	for _, c := range b {
		c.l[0] = 8
	}
	return b[1].l[0]
}
func namedBare(s []int) (t []int) {
	t = s
	s[0] = 9
	return
}
func AliasNamedBare() int {
	x := []int{1}
	y := namedBare(x)
	return y[0]
}
func AliasMulti() int {
	x, y := []int{1}, []int{2}
	x, y = y, x
	z := x
	x[0] = 7
	return z[0]*10 + y[0]
}
func AliasSwapWrite() int {
	x, y := []int{1}, []int{2}
	z := x
	x, y = y, x
	x[0] = 7
	y[0] = 8
	return z[0]*10 + x[0]
}
func AliasClosureWrite() int {
	x := []int{1}
	y := x
	f := func() { x[0] = 6 }
	f()
	return y[0]
}
func AliasPtrStruct() int {
	b := &box{l: []int{1}}
	c := b
	c.l = []int{5}
	return b.l[0]
}
func AliasPtrStructField() int {
	b := box{l: []int{1}}
	p := &b
	p.l[0] = 6
	p.l = append(p.l, 3)
	return b.l[0]*10 + b.l[1]
}
func AliasArrayCopy() int {
	a := [2]int{1, 2}
	b := a
	b[0] = 7
	return a[0]*10 + b[0]
}
func AliasBreakRebind() int {
	x := []int{1}
	y := x
	for i := 0; i < 3; i++ {
		if pick(true) {
			break
		}
		y = []int{5}
	}
	y[0] = 3
	return x[0]
}
func AliasReturnEarly() int {
	x := []int{1}
	y := x
	if pick(false) {
		y = []int{2}
		return y[0]
	}
	y[0] = 3
	return x[0]
}
func BuilderCopy_panic() string {
	var a strings.Builder
	a.WriteString("x")
	b := a
	b.WriteString("y")
	return a.String() + b.String()
}
func addTo(b strings.Builder) strings.Builder {
	b.WriteString("x")
	return b
}
func BuilderParam_panic() string {
	var a strings.Builder
	a = addTo(a)
	a = addTo(a)
	return a.String()
}
func BufferCopy() string {
	var a bytes.Buffer
	a.WriteString("x")
	b := a
	b.WriteString("y")
	a.WriteString("z")
	return a.String() + b.String()
}
func RangeWriteAhead() int {
	x := []int{1, 2, 3}
	n := 0
	for i, v := range x {
		if i+1 < len(x) {
			x[i+1] = 10
		}
		n += v
	}
	return n
}
func RangeWriteCur() int {
	x := []int{1, 2, 3}
	n := 0
	for i, v := range x {
		x[i] = 10
		n += v
	}
	return n
}
func RangeWriteKeyMoved() int {
	x := []int{1, 2, 3}
	n := 0
	for i, v := range x {
		i++
		if i < len(x) {
			x[i] = 10
		}
		n += v
	}
	return n
}
func RangeMapDelete() int {
	m := map[int]int{1: 1}
	n := 0
	for k := range m {
		delete(m, k)
		n++
	}
	return n*10 + len(m)
}
func first(s []int) int { return s[0] }
func PureRead() int {
	x := []int{1}
	y := x
	x[0] = 4
	return first(y)
}
func PredLater() bool {
	y := []int{1}
	p := func(i int) bool { return y[0] == i }
	y = []int{2}
	return p(2)
}
func PredShared() bool {
	x := []int{1}
	y := x
	p := func(i int) bool { return y[0] == i }
	x[0] = 2
	return p(2)
}
func DeferredClosureShare() int {
	x := []int{1}
	f := func() { x[0] = 6 }
	y := x
	f()
	return y[0]
}
func ClosureBoth() int {
	x := []int{1}
	y := x
	n := 0
	f := func() { x[0] = 6; n = y[0] }
	f()
	return n
}
func bumpAll(s []int) {
	for i := range s {
		s[i]++
	}
}
func HelperWrites() int {
	x := []int{1, 2}
	y := x[1:]
	bumpAll(x)
	return y[0]
}

type grid struct{ rows [][]int }

func (g *grid) put(i int, r []int) { g.rows[i] = r }
func MethodKeeps() int {
	r := []int{1}
	g := &grid{rows: make([][]int, 1)}
	g.put(0, r)
	r[0] = 5
	return g.rows[0][0]
}
func MethodKeepsValue() int {
	r := []int{1}
	g := grid{rows: make([][]int, 2)}
	h := g
	h.rows[1] = r
	g.rows[1][0] = 8
	return r[0]
}

func PartOf() int {
	g := grid{rows: [][]int{{1}}}
	p := partOf(g)
	p[0] = 3
	return g.rows[0][0]
}
func partOf(g grid) []int { return g.rows[0] }
func NestedMaps() int {
	m := map[string]map[string]int{"a": {"x": 1}}
	in := m["a"]
	in["x"] = 2
	return m["a"]["x"]
}
func GrowInLoop() int {
	x := []int{}
	var keep [][]int
	for i := 0; i < 3; i++ {
		x = append(x, i)
		keep = append(keep, x)
	}
	x[0] = 9
	return keep[2][0]
}
func GrowFreshRows() int {
	var rows [][]int
	for i := 0; i < 3; i++ {
		row := []int{i}
		row = append(row, i+1)
		rows = append(rows, row)
	}
	rows[0][0] = 7
	return rows[1][0]*10 + rows[0][0]
}
func CondAlias() int {
	x, y := []int{1}, []int{2}
	z := x
	if pick(true) {
		z = y
	}
	z[0] = 9
	return y[0]
}
func SwitchAlias() int {
	x, y := []int{1}, []int{2}
	var z []int
	switch n := len(x); {
	case n > 5:
		z = x
	case n == 1:
		z = y
	}
	y[0] = 4
	return z[0]
}

// helpers that write what they are given

func setAt(xs []int, i, v int) { xs[i] = v }

func setBoth(xs, ys []int) {
	xs[0] = 7
	ys[0] = ys[0] + 1
}

func ParamWritten() int {
	a := []int{1, 2}
	setAt(a, 0, 5)
	return a[0]
}

func ParamWrittenAlias() int {
	a := []int{1, 2}
	b := a
	setAt(a, 0, 5)
	return b[0]
}

func ParamTwice() int {
	a := []int{1, 2}
	setBoth(a, a)
	return a[0]
}

func ParamTwiceAlias() int {
	a := []int{1, 2}
	b := a
	setBoth(a, b)
	return a[0]
}

func setDeep(xs []int, i int) { setAt(xs, i, i+3) }

func ParamDeep() int {
	a := []int{1, 2}
	setDeep(a, 1)
	return a[1]
}

func putIn(m map[int]int, k, v int) { m[k] = v }

func ParamMap() int {
	m := map[int]int{}
	putIn(m, 3, 4)
	return m[3]
}

func ParamMapAlias() int {
	m := map[int]int{}
	n := m
	putIn(m, 3, 4)
	return n[3]
}

func ParamMap_panic() int {
	var m map[int]int
	putIn(m, 3, 4)
	return m[3]
}

type pholder struct{ xs []int }

func setHeld(h *pholder, xs []int) {
	h.xs = []int{9, 9}
	xs[0] = 8
}

func ParamHeld() int {
	h := pholder{xs: []int{1}}
	setHeld(&h, h.xs)
	return h.xs[0]
}

func (h *pholder) setOwn(xs []int) {
	h.xs = []int{9, 9}
	xs[0] = 8
}

func ParamHeldMethod() int {
	h := pholder{xs: []int{1}}
	h.setOwn(h.xs)
	return h.xs[0]
}

func ParamField() int {
	h := pholder{xs: []int{1}}
	setAt(h.xs, 0, 8)
	return h.xs[0]
}

func ParamFieldAlias() int {
	h := pholder{xs: []int{1}}
	g := h
	setAt(h.xs, 0, 8)
	return g.xs[0]
}

func setNew(xs []int) {
	xs[0] = 3
	xs = []int{4}
	xs[0] = 5
}

func ParamRebound() int {
	a := []int{1}
	setNew(a)
	return a[0]
}

func appendTo(xs []int, v int) []int { return append(xs, v) }

func ParamAppend() int {
	a := make([]int, 0, 4)
	b := appendTo(a, 1)
	c := appendTo(a, 2)
	return b[0] + 10*c[0]
}

func either(p bool, a, b []int) []int {
	if p {
		return a
	}
	return b
}

func EitherWritten() int {
	a, b := []int{1}, []int{2}
	c := either(len(a) > 0, a, b)
	c[0] = 9
	return a[0]
}

func EitherWritten2() int {
	a, b := []int{1}, []int{2}
	c := either(len(a) > 1, a, b)
	c[0] = 9
	return b[0]
}

func wrapped(xs []int) pholder { return pholder{xs: xs} }

func WrappedWritten() int {
	a := []int{1}
	h := wrapped(a)
	h.xs[0] = 9
	return a[0]
}

func (h pholder) first() []int { return h.xs[:1] }

func FirstWritten() int {
	h := pholder{xs: []int{1, 2}}
	f := h.first()
	f[0] = 9
	return h.xs[0]
}

func rowOf(m map[int][]int, k int) []int { return m[k] }

func RowWritten() int {
	m := map[int][]int{1: {1}}
	r := rowOf(m, 1)
	r[0] = 9
	return m[1][0]
}

func RowAppended() int {
	m := map[int][]int{1: make([]int, 0, 3)}
	r := append(rowOf(m, 1), 4)
	q := append(rowOf(m, 1), 5)
	return r[0] + 10*q[0]
}

func ParamGrow() int {
	h := pholder{xs: make([]int, 0, 3)}
	k := h.xs
	h.xs = appendTo(h.xs, 4)
	k = appendTo(k, 5)
	return h.xs[0]
}

func ParamLoop() int {
	a := make([]int, 3)
	for i := 0; i < 3; i++ {
		setAt(a, i, i*i)
	}
	return a[0] + a[1] + a[2]
}

func ParamRange() int {
	a := []int{1, 2, 3}
	s := 0
	for i, v := range a {
		if i < 2 {
			setAt(a, i+1, v*2)
		}
		s += v
	}
	return s
}

// more ways to share

type nested struct {
	rows [][]int
	idx  map[string][]int
}

func (n *nested) add(name string, row []int) {
	n.rows = append(n.rows, row)
	n.idx[name] = row
}

func NestedShared() int {
	n := nested{idx: map[string][]int{}}
	n.add("a", []int{1})
	n.rows[0][0] = 5
	return n.idx["a"][0]
}

func NestedKept() int {
	n := nested{idx: map[string][]int{}}
	r := []int{1}
	n.add("a", r)
	r[0] = 6
	return n.rows[0][0]
}

func NestedLoop() int {
	n := nested{}
	buf := make([]int, 1)
	for i := 0; i < 3; i++ {
		buf[0] = i
		n.rows = append(n.rows, buf)
	}
	return n.rows[0][0]
}

func NestedLoopFresh() int {
	n := nested{}
	for i := 0; i < 3; i++ {
		buf := make([]int, 1)
		buf[0] = i
		n.rows = append(n.rows, buf)
	}
	return n.rows[0][0] + 10*n.rows[2][0]
}

func NestedLoopReset() int {
	n := nested{}
	buf := []int{}
	for i := 0; i < 3; i++ {
		buf = append(buf[:0], i)
		n.rows = append(n.rows, buf)
	}
	return n.rows[1][0]
}

func RowThenOuter() int {
	n := nested{rows: [][]int{{1}, {2}}}
	r := n.rows[0]
	n.rows[0] = []int{7}
	r[0] = 3
	return n.rows[0][0]
}

func RowThenInner() int {
	n := nested{rows: [][]int{{1}, {2}}}
	r := n.rows[0]
	n.rows[0][0] = 4
	return r[0]
}

func RowSwap() int {
	rows := [][]int{{1}, {2}}
	rows[0], rows[1] = rows[1], rows[0]
	rows[0][0] = 8
	return rows[0][0]*10 + rows[1][0]
}

func RowCopied() int {
	rows := [][]int{{1}, {2}}
	cp := append([][]int{}, rows...)
	cp[0][0] = 9
	return rows[0][0]
}

func RowCopyBuiltin() int {
	rows := [][]int{{1}, {2}}
	cp := make([][]int, 2)
	copy(cp, rows)
	rows[1][0] = 9
	return cp[1][0]
}

func MapOfRows() int {
	m := map[int][]int{}
	r := []int{1}
	m[1] = r
	m[2] = r
	m[1][0] = 5
	return m[2][0]
}

func MapRangeRow() int {
	m := map[int][]int{1: {1}}
	for _, r := range m {
		r[0] = 5
	}
	return m[1][0]
}

func StructCopyMap() int {
	a := nested{idx: map[string][]int{"x": {1}}}
	b := a
	b.idx["y"] = []int{2}
	return len(a.idx)
}

func StructCopyRow() int {
	a := nested{rows: [][]int{{1}}}
	b := a
	b.rows[0] = []int{2}
	return a.rows[0][0]
}

func named2() (r []int, s []int) {
	r = []int{1}
	s = r
	return
}

func NamedShared() int {
	a, b := named2()
	a[0] = 5
	return b[0]
}

func both(a []int) ([]int, []int) { return a, a }

func BothShared() int {
	x, y := both([]int{1})
	x[0] = 7
	return y[0]
}

func split(a []int) ([]int, []int) { return a[:1], a[1:] }

func SplitAppend() int {
	l, r := split([]int{1, 2})
	l = append(l, 9)
	return r[0] + len(l)
}

func ptrRow(n *nested) *[]int { return &n.rows[0] }

func PtrRow() int {
	n := nested{rows: [][]int{{1}}}
	p := ptrRow(&n)
	*p = []int{6}
	return n.rows[0][0]
}

func ClosureRow() int {
	rows := [][]int{{1}}
	set := func(v int) { rows[0][0] = v }
	r := rows[0]
	set(4)
	return r[0]
}

func ClosureKeep() int {
	var kept []int
	keep := func(r []int) { kept = r }
	x := []int{1}
	keep(x)
	x[0] = 3
	return kept[0]
}

func ClosureResultB() int {
	x := []int{1}
	get := func() []int { return x }
	y := get()
	y[0] = 8
	return x[0]
}

func SwitchKeep() int {
	x := []int{1}
	var y []int
	switch len(x) {
	case 1:
		y = x
	default:
		y = []int{2}
	}
	y[0] = 6
	return x[0]
}

func BreakKeep() int {
	x := []int{1}
	y := []int{2}
	for i := 0; i < 3; i++ {
		if i == 1 {
			y = x
			break
		}
	}
	y[0] = 6
	return x[0]
}

func ContinueKeep() int {
	x := []int{1}
	y := []int{2}
	for i := 0; i < 3; i++ {
		if i == 1 {
			y = x
			continue
		}
		x[0] = x[0] + 1
	}
	return y[0]
}

func LoopCarried() int {
	x, y, z := []int{1}, []int{2}, []int{3}
	for i := 0; i < 2; i++ {
		z = y
		y = x
	}
	x[0] = 9
	return z[0]
}

func SpareShared() int {
	base := make([]int, 1, 4)
	var all [][]int
	for i := 0; i < 3; i++ {
		all = append(all, append(base, i))
	}
	return all[0][1]
}

func SpareCut() int {
	s := []int{1, 2, 3}
	t := s[:1]
	t = append(t, 9)
	return s[1] + len(t)
}

func IfaceRow() int {
	var e any = []int{1}
	r := e.([]int)
	r[0] = 4
	return e.([]int)[0]
}

func StructInSlice() int {
	hs := []pholder{{xs: []int{1}}}
	h := hs[0]
	h.xs[0] = 5
	return hs[0].xs[0]
}

func PtrInSliceB() int {
	h := &pholder{xs: []int{1}}
	hs := []*pholder{h, h}
	hs[0].xs = []int{7}
	return hs[1].xs[0]
}

func ArrayOfRows() int {
	var a [2][]int
	a[0] = []int{1}
	b := a
	b[0][0] = 6
	return a[0][0]
}

var swaps = []struct {
	from, to string
}{
	{"a", "b"},
	{"b", "cc"},
}

var sevens = []int{7, 77, 777}

func ListedTable() int {
	n := 0
	for _, s := range swaps {
		n = n*10 + len(s.from)
		n = n*10 + len(s.to)
	}
	return n
}

func ListedBreak() (int, int) {
	sum, last := 0, 0
	for i, s := range sevens {
		last = i
		sum += s
		if sum > 80 {
			break
		}
	}
	return sum, last
}

func ListedGrow() int {
	n, xs := 0, []int{1}
	for _, x := range []int{1, 2, 3} {
		xs = append(xs, x+len(xs))
		n += xs[len(xs)-1]
	}
	return n
}

func ListedSame() int {
	x := 1
	n := 0
	for _, v := range []int{x, x + 1} {
		x += 10
		n = n*100 + v
	}
	return n
}

func ListedEmpty() int {
	n := 3
	for _, v := range []int{} {
		n += v
	}
	return n
}

func ListedReturn() int {
	for i, v := range sevens {
		if v > 70 {
			return i
		}
	}
	return -1
}

func AnonStruct() (int, int) {
	p := struct{ a, b int }{1, 2}
	q := p
	q.a = 9
	ps := []struct{ a, b int }{p, q, {b: 7}}
	ps[2].a += 3
	s := ps[0].a*100 + ps[1].a*10 + ps[2].a
	var z struct{ a, b int }
	return s, z.b + ps[2].b
}

func AnonShared() int {
	p := struct{ xs []int }{[]int{1, 2}}
	q := p
	q.xs[0] = 8
	return p.xs[0]
}

func AnonMap() int {
	m := map[string]struct {
		n int
		s string
	}{}
	m["a"] = struct {
		n int
		s string
	}{4, "x"}
	return m["a"].n*10 + len(m["a"].s)
}

func AnonPtr() int {
	p := &struct{ a, b int }{1, 2}
	q := p
	q.a = 5
	return p.a
}

func pushRow(row []int, v int) []int {
	return append(row, v)
}

func PushedRows() int {
	m := map[int][]int{}
	for i := 0; i < 2; i++ {
		m[i] = []int{i}
	}
	m[1] = pushRow(m[1], 7)
	m[1] = pushRow(m[1], 8)
	m[0] = pushRow(m[0], 9)
	return len(m[1])*100 + len(m[0])*10 + m[1][2]
}

func PushedCrossed() int {
	m := map[int][]int{1: make([]int, 1, 4)}
	m[2] = pushRow(m[1], 7)
	m[3] = pushRow(m[1], 8)
	return m[2][1]
}

func pushInto(m map[int][]int, k, v int) []int {
	return append(m[k], v)
}

func PushedInto() int {
	m := map[int][]int{}
	m[1] = pushInto(m, 1, 5)
	m[1] = pushInto(m, 1, 6)
	return m[1][0]*10 + m[1][1]
}

func PushedIntoOther() int {
	m := map[int][]int{1: make([]int, 1, 4)}
	m[2] = pushInto(m, 1, 5)
	m[3] = pushInto(m, 1, 6)
	return m[2][1]
}

type cursorT struct {
	at   int
	seen []int
}

func newCursor(at int) *cursorT { return &cursorT{at: at} }

func (c *cursorT) run() int {
	c.seen = append(c.seen, c.at)
	c.at++
	c.seen = append(c.seen, c.at)
	return len(c.seen)*10 + c.seen[1]
}

func CursorRun() int {
	return newCursor(1).run()
}

func makeCursor(xs []int) cursorT { return cursorT{1, xs} }

func CursorShares() int {
	xs := []int{1, 2}
	c := makeCursor(xs)
	c.seen[0] = 9
	return xs[0]
}
