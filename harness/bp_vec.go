package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func vzVec(n int, q *big.Int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		switch vzRnd.Intn(6) {
		case 0:
			r[i] = vzInt(0)
		case 1:
			r[i] = vzInt(int64(vzRnd.Intn(5) - 2))
		case 2:
			r[i] = vzAdd(q, vzInt(int64(vzRnd.Intn(5)-2)))
		case 3:
			r[i] = vzNeg(vzBelow(vzMul(q, q)))
		case 4:
			r[i] = vzBelow(vzMul(q, q))
		default:
			r[i] = vzBelow(q)
		}
	}
	return r
}

func vzEls(g group.Group, n int) []group.Element {
	r := make([]group.Element, n)
	for i := range r {
		if vzRnd.Intn(8) == 0 {
			r[i] = g.Identity()
		} else {
			r[i] = g.Element().BaseScale(vzBelow(g.N()))
		}
	}
	return r
}

// vzSame compares a vector of integers with its definition modulo m, and the inputs with what they were.
func vzSame(what string, got []*big.Int, err error, n int, m *big.Int, def func(i int) *big.Int, before string, in ...any) {
	if !vzCheck(err == nil && len(got) == n, "%s: %d entries, %v", what, len(got), err) {
		return
	}
	for i := range got {
		w := def(i)
		x := got[i]
		if m != nil {
			w = new(big.Int).Mod(w, m)
		}
		if x == nil || x.Cmp(w) != 0 {
			vzFail("%s: entry %d of %d is %v, not %s", what, i, n, got[i], w)
			return
		}
	}
	vzCheck(before == vzSnap(in...), "%s: an input is modified", what)
}

func TestVerifC14(t *testing.T) {
	defer vzDone()
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 33, 61, 62, 63, 64, 65, 67, 100, 127, 130}
	for gi, g := range vzCurves() {
		q := g.N()
		for round := 0; round < vzN(2, 8); round++ {
			for _, n := range lens {
				a, b, c := vzVec(n, q), vzVec(n, q), vzVec(1, q)[0]
				mod := []*big.Int{q, q, vzInt(7), vzBelow(q).Add(vzInt(2), vzBelow(q))}[vzRnd.Intn(4)]
				in := []any{a, b, c, mod}
				before := vzSnap(in...)
				what := func(f string) string {
					return fmt.Sprintf("%s(a=%s, b=%s, c=%s, modulus %s)", f, vzClip(fmt.Sprint(a)), vzClip(fmt.Sprint(b)), c, mod)
				}
				same := func(f string, m *big.Int, got []*big.Int, err error, def func(i int) *big.Int) {
					vzSame(what(f), got, err, n, m, def, before, in...)
				}
				vzCase("vectors", func() {
					r, err := VectorAdd(a, b, mod)
					same("VectorAdd", mod, r, err, func(i int) *big.Int { return vzAdd(a[i], b[i]) })
					r, err = VectorSub(a, b, mod)
					same("VectorSub", mod, r, err, func(i int) *big.Int { return vzAdd(a[i], vzNeg(b[i])) })
					r, err = VectorMul(a, b, mod)
					same("VectorMul", mod, r, err, func(i int) *big.Int { return vzMul(a[i], b[i]) })
					r, err = VectorScalarMul(a, c, mod)
					same("VectorScalarMul", mod, r, err, func(i int) *big.Int { return vzMul(a[i], c) })
					same("VectorAddConst", mod, VectorAddConst(a, c, mod), nil, func(i int) *big.Int { return vzAdd(a[i], c) })
					r, err = VectorCopy(c, int64(n))
					same("VectorCopy", nil, r, err, func(i int) *big.Int { return c })
					same("powerOf", q, powerOf(c, int64(n), g), nil, func(i int) *big.Int {
						return new(big.Int).Exp(new(big.Int).Mod(c, q), vzInt(int64(i)), q)
					})
					k := make([]int64, n)
					for i := range k {
						k[i] = []int64{0, 1, -1, 5, 1 << 40, -1 << 63, 1<<63 - 1}[vzRnd.Intn(7)]
					}
					r, err = VectorConvertToBig(k, int64(n))
					same("VectorConvertToBig", nil, r, err, func(i int) *big.Int { return vzInt(k[i]) })
					one := func(f string, got *big.Int, err error, m, want *big.Int) {
						vzSame(what(f), []*big.Int{got}, err, 1, m, func(int) *big.Int { return want }, before, in...)
					}
					one("VectorInnerProduct", VectorInnerProduct(a, b, mod), nil, mod, vzInner0(a, b))
					s, err := ScalarProduct(a, b, g)
					one("ScalarProduct", s, err, q, vzInner0(a, b))
				})
				// different lengths
				for _, m := range []int{0, n - 1, n + 1, 2 * n} {
					if m < 0 || m == n {
						continue
					}
					s := vzVec(m, q)
					vzCase("lengths", func() {
						w := fmt.Sprintf("vectors of length %d and %d", n, m)
						_, err := VectorAdd(a, s, mod)
						vzCheck(err != nil, "VectorAdd of %s: no error", w)
						_, err = VectorSub(a, s, mod)
						vzCheck(err != nil, "VectorSub of %s: no error", w)
						_, err = VectorMul(a, s, mod)
						vzCheck(err != nil, "VectorMul of %s: no error", w)
						_, err = ScalarProduct(a, s, g)
						vzCheck(err != nil, "ScalarProduct of %s: no error", w)
						if n < 40 && m < 40 {
							_, err = VectorExp(vzEls(g, n), s, g)
							vzCheck(err != nil, "VectorExp of %s: no error", w)
							_, err = VectorECAdd(vzEls(g, n), vzEls(g, m), g)
							vzCheck(err != nil, "VectorECAdd of %s: no error", w)
						}
					})
				}
				if n > 16 && (gi > 0 || round > 0) && !vzThorough() || n > 64 && (gi > 0 || round > 0 || n == 100) {
					continue
				}
				G, H := vzEls(g, n), vzEls(g, n)
				h := g.Element().BaseScale(vzBelow(q))
				snap := vzSnap(G, H, h, a, b, c)
				els := func(f string, got []group.Element, err error, def func(i int) group.Element) {
					if !vzCheck(err == nil && len(got) == n, "%s: %d of %d entries, %v", what(f), len(got), n, err) {
						return
					}
					for i := range got {
						if !vzCheck(got[i] != nil && got[i].IsEqual(def(i)), "%s: entry %d of %d differs from its definition", what(f), i, n) {
							return
						}
					}
					vzCheck(vzSnap(G, H, h, a, b, c) == snap, "%s: an input is modified", what(f))
				}
				el := func(f string, got group.Element, err error, want group.Element) {
					vzCheck(err == nil && got.IsEqual(want), "%s over %d generators differs from its definition (%v)", what(f), n, err)
					vzCheck(vzSnap(G, H, h, a, b, c) == snap, "%s: an input is modified", what(f))
				}
				vzCase("elements", func() {
					r, err := VectorECAdd(G, H, g)
					els("VectorECAdd", r, err, func(i int) group.Element { return g.Element().Add(G[i], H[i]) })
					els("vectorScalarExp", vectorScalarExp(G, c, g), nil, func(i int) group.Element { return vzSum(g, c, G[i]) })
					e, err := VectorExp(G, a, g)
					el("VectorExp", e, err, vzCommit0(g, G, a))
					full := g.Element().Add(vzCommit0(g, G, a), vzCommit0(g, H, b))
					el("commitInnerProduct", commitInnerProduct(G, H, a, b, g), nil, full)
					el("commitVectorBig", commitVectorBig(a, b, c, h, G, H, int64(n), g), nil, g.Element().Add(full, vzSum(g, c, h)))
					k, l := make([]int64, n), make([]int64, n)
					for i := range k {
						k[i], l[i] = int64(vzRnd.Intn(2)), []int64{0, -1, 1, -7, 1 << 40}[vzRnd.Intn(5)]
					}
					kb, lb := make([]*big.Int, n), make([]*big.Int, n)
					for i := range k {
						kb[i], lb[i] = vzInt(k[i]), vzInt(l[i])
					}
					el(fmt.Sprint("commitVector ", k, l), commitVector(k, l, c, h, G, H, int64(n), g), nil, g.Element().Add(vzSum(g, c, h), g.Element().Add(vzCommit0(g, G, kb), vzCommit0(g, H, lb))))
					ar, err := computeAR(k)
					if vzCheck(err == nil && len(ar) == n, "computeAR(%v): %v %v", k, ar, err) {
						for i := range ar {
							vzCheck(ar[i] == k[i]-1, "computeAR(%v) is %v", k, ar)
						}
					}
				})
				y, z := c, vzVec(1, q)[0]
				if new(big.Int).Mod(y, q).Sign() == 0 {
					y = vzInt(3)
				}
				vzCase("generators and constant", func() {
					w := fmt.Sprintf("%s, %d generators, y=%s, z=%s", g.Name(), n, y, z)
					if n > 0 {
						r := updateGenerators(H, y, int64(n), g)
						els("updateGenerators "+w, r, nil, func(i int) group.Element { return vzSum(g, vzPow0(y, -i, q), H[i]) })
					}
					params := BulletProofSetupParams{N: int64(n), GP: g, H: h, Gg: G, Hh: H}
					sy := new(big.Int)
					for i := 0; i < n; i++ {
						sy.Add(sy, vzPow0(y, i, q))
					}
					bef := vzSnap(y, z)
					d := vzMul(vzAdd(z, vzNeg(vzMul(z, z))), sy)
					d1 := vzAdd(d, vzNeg(vzMul(z, z, z, vzAdd(new(big.Int).Lsh(vzInt(1), uint(n)), vzInt(-1)))))
					got := params.delta(y, z)
					vzCheck(new(big.Int).Mod(vzAdd(got, vzNeg(d1)), q).Sign() == 0, "delta: %s: %s differs from its definition", w, got)
					for m := 1; m <= n; m++ {
						if n%m != 0 {
							continue
						}
						dm := new(big.Int).Set(d)
						for j := 0; j < m; j++ {
							dm.Sub(dm, vzMul(vzPow0(z, 3+j, q), vzAdd(new(big.Int).Lsh(vzInt(1), uint(n/m)), vzInt(-1))))
						}
						got := params.deltaMul(y, z, int64(m))
						vzCheck(new(big.Int).Mod(vzAdd(got, vzNeg(dm)), q).Sign() == 0, "deltaMul: %s, m=%d: %s differs from its definition", w, m, got)
					}
					vzCheck(bef == vzSnap(y, z), "delta: %s: an input is modified", w)
				})
			}
		}
	}
	for _, k := range [][]int64{{2}, {0, 1, -1}, {1, 0, 3}, {0, 1 << 40}} {
		_, err := computeAR(k)
		vzCheck(err != nil, "computeAR(%v) gives no error", k)
	}
	for e := 0; e < 63; e++ {
		x := int64(1) << e
		vzCheck(IsPowerOfTwo(x), "IsPowerOfTwo(%d)", x)
		vzCheck(!IsPowerOfTwo(-x), "IsPowerOfTwo(%d)", -x)
		if x > 2 {
			vzCheck(!IsPowerOfTwo(x+1) && !IsPowerOfTwo(x-1), "IsPowerOfTwo(%d+-1)", x)
		}
	}
	vzCheck(!IsPowerOfTwo(0) && !IsPowerOfTwo(-1<<63), "IsPowerOfTwo(0 or the minimum)")
}

func vzInner0(a, b []*big.Int) *big.Int {
	c := new(big.Int)
	for i := range a {
		c.Add(c, vzMul(a[i], b[i]))
	}
	return c
}

func vzCommit0(g group.Group, G []group.Element, a []*big.Int) group.Element {
	P := g.Identity()
	for i := range a {
		P = g.Element().Add(P, vzSum(g, a[i], G[i]))
	}
	return P
}

func vzPow0(b *big.Int, e int, q *big.Int) *big.Int {
	b = new(big.Int).Mod(b, q)
	if e < 0 {
		return new(big.Int).Exp(new(big.Int).ModInverse(b, q), vzInt(int64(-e)), q)
	}
	return new(big.Int).Exp(b, vzInt(int64(e)), q)
}
