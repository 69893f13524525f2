package util

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC15(t *testing.T) {
	defer vzDone()
	var xs []*big.Int
	for _, n := range []int64{0, 1, 2, 3, 7, 8, 9, 10, 255, 256, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1} {
		xs = append(xs, vzInt(n))
	}
	for k := uint(1); k < 300; k += 7 {
		p := new(big.Int).Lsh(vzInt(1), k)
		xs = append(xs, p, vzAdd(p, vzInt(-1)), vzAdd(p, vzInt(1)), vzBelow(p))
	}
	us := []int64{2, 3, 4, 5, 7, 8, 10, 16, 256, 1000, 65536, 1 << 31, 1 << 32, 1<<62 + 1, 1<<63 - 1}
	ls := []int64{0, 1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 100, 256}
	for _, x := range xs {
		what := fmt.Sprintf("Decompose(%s, ...)", x)
		vzCase(what, func() {
			for _, u := range us {
				for _, l := range ls {
					vzCases++
					in := new(big.Int).Set(x)
					d := Decompose(in, u, l)
					w := fmt.Sprintf("Decompose(%s, %d, %d)", x, u, l)
					vzCheck(in.Cmp(x) == 0, "%s: modifies its argument", w)
					if !vzCheck(int64(len(d)) == l, "%s: %d digits", w, len(d)) {
						continue
					}
					q, r := new(big.Int).Set(x), new(big.Int)
					for i := range d {
						q.QuoRem(q, vzInt(u), r)
						if !vzCheck(r.Cmp(vzInt(d[i])) == 0, "%s: digit %d is %d, not %s", w, i, d[i], r) {
							break
						}
					}
				}
			}
		})
	}
}

func TestVerifC14(t *testing.T) {
	defer vzDone()
	for _, g := range append(vzCurves(), vzModP()) {
		q := g.N()
		h := g.Element().BaseScale(vzBelow(q))
		vals := []*big.Int{vzInt(0), vzInt(1), vzInt(-1), vzBelow(q), vzNeg(vzBelow(q)), vzAdd(q, vzInt(3)), vzBelow(vzMul(q, q)), q}
		for _, x := range vals {
			for _, r := range vals {
				if g.P().BitLen() > 1000 && !vzThorough() && (x == vals[6] || r == vals[7] || x == vals[4]) {
					continue
				}
				what := fmt.Sprintf("%s, commitment to %s under %s", g.Name(), vzClip(x.String()), vzClip(r.String()))
				vzCase(what, func() {
					before := vzSnap(x, r, h)
					c := PedersenCommit(x, r, h, g)
					vzCheck(c.IsEqual(vzSum(g, x, g.Generator(), r, h)), "%s differs from its definition", what)
					vzCheck(before == vzSnap(x, r, h), "%s: an input is modified", what)
				})
			}
		}
	}
}
