// Package main holds functions that are run twice: by Go, and by the VC
// generator (concretely and symbolically).  engine/selftest.py compares the
// results.  Every exported function takes three integers and an int64.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type B = *big.Int

func nb(x int64) B { return big.NewInt(x) }
func ib(b bool) B {
	if b {
		return nb(1)
	}
	return nb(0)
}
func bs(x ...B) []B { return x }

func TAdd(a, b, c B, n int64) []B  { return bs(new(big.Int).Add(a, b), new(big.Int).Sub(a, b)) }
func TMul(a, b, c B, n int64) []B  { return bs(new(big.Int).Mul(a, b), new(big.Int).Neg(a)) }
func TMod(a, b, c B, n int64) []B  { return bs(new(big.Int).Mod(a, b)) }
func TDiv(a, b, c B, n int64) []B  { return bs(new(big.Int).Div(a, b)) }
func TQuo(a, b, c B, n int64) []B  { return bs(new(big.Int).Quo(a, b)) }
func TRem(a, b, c B, n int64) []B  { return bs(new(big.Int).Rem(a, b)) }
func TCmp(a, b, c B, n int64) []B  { return bs(nb(int64(a.Cmp(b))), nb(int64(a.CmpAbs(b))), nb(int64(a.Sign()))) }
func TAbs(a, b, c B, n int64) []B  { return bs(new(big.Int).Abs(a)) }
func TSet(a, b, c B, n int64) []B  { x := new(big.Int).Set(a); x.Add(x, b); return bs(x, a, b) }
func TDivMod(a, b, c B, n int64) []B {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	return bs(q, m)
}
func TQuoRem(a, b, c B, n int64) []B {
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	return bs(q, m)
}
func TInt64(a, b, c B, n int64) []B { return bs(nb(a.Int64()), ib(a.IsInt64()), ib(a.IsUint64())) }
func TUint64(a, b, c B, n int64) []B {
	return bs(new(big.Int).SetUint64(a.Uint64()), new(big.Int).SetInt64(n))
}
func TRsh(a, b, c B, n int64) []B {
	k := uint(n & 63)
	return bs(new(big.Int).Rsh(a, k), new(big.Int).Lsh(b, k))
}
func TRsh5(a, b, c B, n int64) []B { return bs(new(big.Int).Rsh(a, 5), new(big.Int).Lsh(b, 5)) }
func TBit(a, b, c B, n int64) []B  { return bs(nb(int64(a.Bit(0))), nb(int64(a.Bit(3)))) }
func TBitLen(a, b, c B, n int64) []B {
	return bs(ib(a.BitLen() <= 8), ib(a.BitLen() < 64), nb(int64(a.BitLen())))
}
func TExp(a, b, c B, n int64) []B {
	m := new(big.Int).Abs(c)
	e := new(big.Int).Abs(b)
	m.Add(m, nb(2))
	return bs(new(big.Int).Exp(a, e, m))
}
func TExp2(a, b, c B, n int64) []B { return bs(new(big.Int).Exp(nb(2), nb(n&31), nil)) }
func TExpNeg(a, b, c B, n int64) []B { return bs(new(big.Int).Exp(a, nb(-n&3), nil)) }
func TInv(a, b, c B, n int64) []B {
	p := nb(1000003)
	x := new(big.Int).ModInverse(a, p)
	if x == nil {
		return bs(nb(-1))
	}
	return bs(x)
}
func TAnd(a, b, c B, n int64) []B { return bs(new(big.Int).And(new(big.Int).Abs(a), nb(255))) }
func TAlias1(a, b, c B, n int64) []B {
	x := new(big.Int).Set(a)
	y := x
	x.Mul(x, y)
	y.Sub(x, b)
	return bs(x, y)
}
func TAlias2(a, b, c B, n int64) []B {
	x := new(big.Int).Set(a)
	x.Mod(x, c)
	x.Add(x, x)
	x.Sub(x, x)
	return bs(x)
}
func TBytes(a, b, c B, n int64) []B {
	x := new(big.Int).SetBytes(a.Bytes())
	return bs(x, nb(int64(len(b.Bytes()))))
}
func TFill(a, b, c B, n int64) []B {
	buf := make([]byte, 8)
	a.FillBytes(buf)
	return bs(new(big.Int).SetBytes(buf), nb(int64(buf[7])), nb(int64(buf[0])), new(big.Int).SetBytes(buf[2:5]))
}
func TJacobi(a, b, c B, n int64) []B { return bs(nb(int64(big.Jacobi(a, nb(23))))) }

// machine integers
func TWrap(a, b, c B, n int64) []B {
	m := int32(n)
	k := uint8(n)
	return bs(nb(int64(m)), nb(int64(k)), nb(int64(int8(k))), nb(int64(m*m)), nb(n*n), nb(n+n), nb(-n))
}
func TWrapU(a, b, c B, n int64) []B {
	u := uint64(n)
	v := uint32(u)
	v -= 7
	u -= 7
	return bs(new(big.Int).SetUint64(u), nb(int64(v)), nb(int64(uint16(v))+1))
}
func TDivInt(a, b, c B, n int64) []B {
	return bs(nb(n/7), nb(n%7), nb(n/-7), nb(n%-7), nb(n/8), nb(n%8))
}
func TDivIntVar(a, b, c B, n int64) []B {
	d := b.Int64()
	if d == 0 {
		return nil
	}
	return bs(nb(n/d), nb(n%d))
}
func TShift(a, b, c B, n int64) []B {
	return bs(nb(n<<3), nb(n>>3), new(big.Int).SetUint64(uint64(n)>>3), nb(int64(uint8(n)<<3)), nb(n>>63))
}
func TShiftVar(a, b, c B, n int64) []B {
	k := uint64(n) & 127
	return bs(nb(1<<k), nb(int64(-5)>>k), new(big.Int).SetUint64(uint64(255)<<k))
}
func TBitops(a, b, c B, n int64) []B {
	return bs(nb(n&15), nb(n&1), nb(n|1), nb(n^1), nb(^n), nb(n&^3), nb(n&(n-1)), nb(n&0x70f0), nb(n&^64), nb(n|0x30), nb(n^0xff0), nb(n&-8), nb(int64(uint16(n)&^uint16(0x101))), nb(0x3c&n))
}
func TPow2(a, b, c B, n int64) []B { return bs(ib(n > 0 && n&(n-1) == 0), ib(n != 0 && n&(-n) == n)) }
func TBitsPkg(a, b, c B, n int64) []B {
	u := uint64(n)
	return bs(nb(int64(bits.Len64(u))), nb(int64(bits.TrailingZeros64(u))), nb(int64(bits.OnesCount64(u))))
}
func TCmpInt(a, b, c B, n int64) []B {
	m := b.Int64()
	return bs(ib(n < m), ib(n <= m), ib(n == m), ib(n != m), ib(uint64(n) < uint64(m)), nb(min(n, m)), nb(max(n, m)))
}
func TFloat(a, b, c B, n int64) []B { return bs(nb(int64(float64(n & 1023)))) }

// control flow, slices, closures, maps, structs
func TSwitch(a, b, c B, n int64) []B {
	switch {
	case a.Sign() < 0:
		return bs(nb(1))
	case b.Cmp(a) > 0 && c.Sign() != 0:
		return bs(nb(2))
	case n == 3:
		fallthrough
	case n == 4:
		return bs(nb(3))
	default:
		return bs(nb(4), a)
	}
}
func TSlices(a, b, c B, n int64) []B {
	x := []int64{1, 2, 3, 4}
	y := x[1:3]
	y[0] = n
	y = append(y, 9)
	z := append(x[:1:1], 7)
	z[0] = 5
	return bs(nb(x[0]), nb(x[1]), nb(x[2]), nb(x[3]), nb(int64(len(y))), nb(int64(cap(y))), nb(z[0]), nb(z[1]), nb(int64(copy(x, x[2:]))), nb(x[0]))
}
func TIndex(a, b, c B, n int64) []B {
	x := []B{a, b, c}
	return bs(x[n], nb(int64(len(x[1:]))))
}
func TSub(a, b, c B, n int64) []B {
	x := []B{a, b, c}
	if n < -2 || n > 6 {
		n = 2
	}
	y := x[:n]
	return y
}
func TArr(a, b, c B, n int64) []B {
	var u, v [3]int64
	u[1] = n
	v = u
	v[0] = 4
	return bs(nb(u[0]), nb(v[1]), nb(v[0]), ib(u == v))
}

type pair struct {
	x B
	n int64
}

func (p pair) val(k int64) int64 { p.n += k; return p.n }
func (p *pair) ptr(k int64) int64 { p.n += k; return p.n }

type valer interface{ val(int64) int64 }

func TStruct(a, b, c B, n int64) []B {
	p := pair{a, n}
	q := p
	r := &p
	r.ptr(3)
	q.val(5)
	var v valer = q
	q.n = 11
	f := p.ptr
	f(1)
	var nilv valer
	return bs(nb(p.n), nb(q.n), nb(r.n), nb(v.val(1)), ib(nilv == nil), ib(p.x == q.x))
}
func TClosure(a, b, c B, n int64) []B {
	s := int64(0)
	add := func(k int64) func() { return func() { s += k } }
	f := add(n)
	f()
	f()
	add(2)()
	return bs(nb(s))
}
func TDefer(a, b, c B, n int64) (r []B) {
	x := nb(0)
	defer func() { r = append(r, x) }()
	defer x.Add(x, a)
	x.Set(b)
	return bs(nb(n))
}
func TMap(a, b, c B, n int64) []B {
	m := map[int64]B{1: a, 2: b}
	m[3] = c
	v, ok := m[2]
	_, no := m[7]
	delete(m, 1)
	return bs(v, ib(ok), ib(no), nb(int64(len(m))))
}
func TErr(a, b, c B, n int64) []B {
	f := func(k int64) (int64, error) {
		if k > 5 {
			return 0, errors.New("big")
		}
		if k < 0 {
			return 1, fmt.Errorf("neg %d: %w", k, errors.New("x"))
		}
		return k, nil
	}
	v, err := f(n)
	if err != nil {
		return bs(nb(v), nb(-1), ib(errors.Join(nil, nil) == nil), ib(errors.Join(nil, err) == nil))
	}
	return bs(nb(v))
}
func TType(a, b, c B, n int64) []B {
	var x any = a
	if n > 0 {
		x = n
	}
	switch y := x.(type) {
	case int64:
		return bs(nb(y))
	case B:
		return bs(nb(-1), y)
	}
	_, ok := x.(string)
	return bs(ib(ok))
}
func TNil(a, b, c B, n int64) []B {
	var p *pair
	if n > 0 {
		p = &pair{a, n}
	}
	return bs(nb(p.n))
}

// strings
func TStr(a, b, c B, n int64) []B {
	s := a.String() + "," + strconv.Itoa(int(n)) + strings.Join([]string{"x", "y"}, "-")
	t := fmt.Sprint(a) + "," + fmt.Sprintf("%d%s", n, "x-y")
	x, ok := new(big.Int).SetString(b.String(), 10)
	_, bad := new(big.Int).SetString("12z", 10)
	return bs(ib(s == t), x, ib(ok), ib(bad))
}

// loops: with a bound that depends on n
func lim(n int64) int {
	return int(uint64(n) % 7)
}
func TLoopSum(a, b, c B, n int64) []B {
	s := nb(0)
	for i := 0; i < lim(n); i++ {
		s.Add(s, a)
	}
	return bs(s)
}
func TLoopPow(a, b, c B, n int64) []B {
	s := nb(1)
	for i := lim(n); i > 0; i-- {
		s.Mul(s, a)
	}
	return bs(s)
}
func TLoopPowMod(a, b, c B, n int64) []B {
	m := nb(1000003)
	s := nb(1)
	t := nb(0)
	for i := 0; i < lim(n); i++ {
		s.Mod(s.Mul(s, a), m)
		t.Mod(t.Add(t, s), m)
	}
	return bs(s, t)
}
func TLoopVec(a, b, c B, n int64) []B {
	k := lim(n)
	out := make([]B, k)
	for i := range out {
		out[i] = new(big.Int).Mul(a, nb(int64(i)))
		out[i].Add(out[i], b)
	}
	return out
}
func TLoopAppend(a, b, c B, n int64) []B {
	var out []B
	for i := 0; i < lim(n); i++ {
		out = append(out, new(big.Int).Add(a, nb(int64(2*i+1))))
	}
	return out
}
func TLoopPrefix(a, b, c B, n int64) []B {
	out := make([]B, 0)
	cur := new(big.Int).Set(a)
	for i := 0; i < lim(n); i++ {
		out = append(out, new(big.Int).Set(cur))
		cur.Mul(cur, b)
	}
	return out
}
func TLoopShared(a, b, c B, n int64) []B {
	out := make([]B, lim(n))
	cur := new(big.Int).Set(a)
	for i := range out {
		cur.Add(cur, b)
		out[i] = cur
	}
	return out
}
func TLoopRev(a, b, c B, n int64) []B {
	k := lim(n)
	out := make([]B, k)
	for i := k - 1; i >= 0; i-- {
		out[i] = nb(int64(k - i))
	}
	return out
}
func TLoopDot(a, b, c B, n int64) []B {
	k := lim(n)
	x, y := make([]B, k), make([]B, k)
	for i := 0; i < k; i++ {
		x[i] = new(big.Int).Add(a, nb(int64(i)))
		y[i] = new(big.Int).Sub(b, nb(int64(i*i)))
	}
	s := new(big.Int)
	for i := range x {
		s.Add(s, new(big.Int).Mul(x[i], y[i]))
	}
	return bs(s)
}
func TLoopNest(a, b, c B, n int64) []B {
	s := nb(0)
	k := lim(n)
	for i := 0; i < k; i++ {
		for j := 0; j < k; j++ {
			s.Add(s, nb(int64(i-j)))
		}
		s.Add(s, a)
	}
	return bs(s)
}
func TLoopBreak(a, b, c B, n int64) []B {
	k := lim(n)
	for i := 0; i < k; i++ {
		if a.Cmp(nb(int64(i))) == 0 {
			return bs(nb(int64(i)), nb(1))
		}
	}
	return bs(nb(int64(k)))
}
func TLoopDigits(a, b, c B, n int64) []B {
	x := new(big.Int).Abs(a)
	out := make([]B, lim(n))
	for i := range out {
		out[i] = new(big.Int).Mod(x, nb(3))
		x.Div(x, nb(3))
	}
	return append(out, x)
}
func TLoopStep(a, b, c B, n int64) []B {
	s := nb(0)
	cnt := 0
	for i := 0; i < 2*lim(n); i += 2 {
		s.Add(s, nb(int64(i)))
		cnt++
	}
	return bs(s, nb(int64(cnt)))
}
func TLoopHalf(a, b, c B, n int64) []B {
	k := 1 << uint(lim(n))
	cnt := int64(0)
	for k > 1 {
		k /= 2
		cnt++
	}
	return bs(nb(cnt), nb(int64(k)))
}
func TLoopInPlace(a, b, c B, n int64) []B {
	k := lim(n)
	out := make([]B, k)
	for i := 0; i < k; i++ {
		out[i] = new(big.Int).Set(a)
	}
	for i := 0; i < k; i++ {
		out[i].Add(out[i], nb(int64(i)))
	}
	return out
}
func TLoopAliasIn(a, b, c B, n int64) []B {
	k := lim(n)
	x := new(big.Int).Set(a)
	out := make([]B, k)
	for i := 0; i < k; i++ {
		out[i] = x
	}
	for i := 0; i < k; i++ {
		out[i].Add(out[i], b)
	}
	return out
}
func TLoopCond(a, b, c B, n int64) []B {
	k := lim(n)
	s := nb(0)
	for i := 0; i < k; i++ {
		if i%2 == 0 {
			s.Add(s, a)
		} else {
			s.Sub(s, b)
		}
	}
	return bs(s)
}
func TLoopAlt(a, b, c B, n int64) []B {
	k := lim(n)
	x, y := new(big.Int).Set(a), new(big.Int).Set(b)
	for i := 0; i < k; i++ {
		x, y = y, x
	}
	return bs(x, y)
}
func TLoopFib(a, b, c B, n int64) []B {
	k := lim(n)
	x, y := new(big.Int).Set(a), new(big.Int).Set(b)
	for i := 0; i < k; i++ {
		x, y = y, new(big.Int).Add(x, y)
	}
	return bs(x, y)
}
func TLoopLast(a, b, c B, n int64) []B {
	k := lim(n)
	var last B
	last = c
	for i := 0; i < k; i++ {
		last = new(big.Int).Mul(a, nb(int64(i)))
	}
	return bs(last)
}
func TLoopZero(a, b, c B, n int64) []B {
	k := lim(n)
	s := new(big.Int).Set(a)
	for i := 0; i < k; i++ {
		s.SetInt64(0)
		s.Add(s, b)
	}
	return bs(s)
}
func TLoopWrap(a, b, c B, n int64) []B {
	s := uint8(250)
	for i := 0; i < lim(n)*3; i++ {
		s++
	}
	return bs(nb(int64(s)))
}
func TLoopShift(a, b, c B, n int64) []B {
	v := int64(1)
	for i := 0; i < lim(n)*12; i++ {
		v <<= 1
	}
	return bs(nb(v))
}
func TLoopSubslice(a, b, c B, n int64) []B {
	k := lim(n)
	x := make([]B, 2*k)
	for i := range x {
		x[i] = new(big.Int).Mul(a, nb(int64(i+1)))
	}
	lo, hi := x[:k], x[k:]
	out := make([]B, k)
	for i := range lo {
		out[i] = new(big.Int).Add(lo[i], new(big.Int).Mul(b, hi[i]))
	}
	return out
}
func TLoopOver(a, b, c B, n int64) []B {
	k := lim(n)
	x := make([]B, 3)
	for i := 0; i < k; i++ {
		x[i] = a
	}
	return bs(nb(1))
}
func TRec(a, b, c B, n int64) []B {
	var f func(k int) B
	f = func(k int) B {
		if k == 0 {
			return nb(1)
		}
		return new(big.Int).Add(f(k-1), a)
	}
	return bs(f(3))
}
func TGenArr(a, b, c B, n int64) []B {
	x := []B{a, b, c}
	r := make([]B, 0, 3)
	for i, v := range x {
		if i == lim(n) {
			continue
		}
		r = append(r, v)
	}
	return r
}
func TLabel(a, b, c B, n int64) []B {
	cnt := int64(0)
outer:
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			if int64(i*j) == n {
				break outer
			}
			if j > i {
				continue outer
			}
			cnt++
		}
	}
	return bs(nb(cnt))
}
func TGoto(a, b, c B, n int64) []B {
	i := int64(0)
again:
	i++
	if i < 4 && i != n {
		goto again
	}
	return bs(nb(i))
}

var sizes = map[int64]bool{1: true, 2: true, 4: true, 8: true}
var names = map[string]int64{"x": 3, "y": 4}

func TMapPkg(a, b, c B, n int64) []B {
	v, ok := names["y"]
	return bs(ib(sizes[n]), nb(v), ib(ok), nb(names["z"]))
}
func TDefer2(a, b, c B, n int64) []B {
	f := func() (r int64) {
		if n > 3 {
			defer func() { r += 10 }()
		}
		defer func() { r *= 2 }()
		return n
	}
	if n > 1<<40 || n < -1<<40 {
		return nil
	}
	return bs(nb(f()))
}
