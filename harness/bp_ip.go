package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func vzVector(n int, q *big.Int, kind int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		switch kind {
		case 0:
			r[i] = vzBelow(q)
		case 1:
			r[i] = vzInt(int64(vzRnd.Intn(3) - 1))
		case 2:
			r[i] = vzInt(0)
		case 3: // neither reduced nor positive
			r[i] = new(big.Int).Sub(vzBelow(vzMul(q, q)), vzMul(q, vzInt(int64(vzRnd.Intn(1000)))))
		default:
			r[i] = vzInt(int64(i))
		}
	}
	return r
}

func vzInner(a, b []*big.Int, q *big.Int) *big.Int {
	c := new(big.Int)
	for i := range a {
		c.Add(c, vzMul(a[i], b[i]))
	}
	return c.Mod(c, q)
}

func vzCommit(g group.Group, G, H []group.Element, a, b []*big.Int) group.Element {
	P := g.Identity()
	for i := range a {
		P = g.Element().Add(P, vzSum(g, a[i], G[i], b[i], H[i]))
	}
	return P
}

func TestVerifC06(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		q := g.N()
		for _, n := range []int{1, 2, 4, 8, 16, 32, 64, 128, 256, 512} {
			if gi > 0 && (n > 8 && !vzThorough()) {
				continue
			}
			ipp, err := setupInnerProduct(nil, nil, int64(n), g)
			if !vzCheck(err == nil, "%s, length %d: %v", g.Name(), n, err) {
				continue
			}
			for kind := 0; kind < 5; kind++ {
				if n > 16 && kind > 1 && !vzThorough() || n > 64 && kind%3 > 0 {
					continue
				}
				a, b := vzVector(n, q, kind), vzVector(n, q, (kind*3+1)%5)
				what := fmt.Sprintf("%s, vectors a=%s b=%s", g.Name(), vzClip(fmt.Sprint(a)), vzClip(fmt.Sprint(b)))
				c := vzInner(a, b, q)
				P := vzCommit(g, ipp.Gg, ipp.Hh, a, b)
				var proof InnerProductProof
				vzCase(what, func() {
					p, err := proveInnerProduct(a, b, P, c, ipp)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					ok, err := p.Verify()
					vzCheck(ok && err == nil, "%s: argument for the true product rejected (%v)", what, err)
					vzCheck(p.P.IsEqual(P) && p.Cc.Cmp(c) == 0, "%s: the argument carries another statement", what)
					proof = p
				})
				if proof.A == nil {
					continue
				}
				for i, d := range []*big.Int{vzInt(1), vzInt(-1), vzBelow(q), vzAdd(q, vzInt(1)), new(big.Int).Rsh(q, 1)} {
					if n > 64 && i > 0 {
						break
					}
					c2 := vzAdd(c, d)
					vzCase(what, func() {
						p, err := proveInnerProduct(a, b, P, c2, ipp)
						if err != nil {
							return
						}
						ok, _ := p.Verify()
						vzCheck(!ok, "%s: argument for %s instead of the product %s accepted", what, c2, c)
					})
				}
				vzCase(what, func() { // another commitment
					P2 := g.Element().Add(P, g.Generator())
					p, err := proveInnerProduct(a, b, P2, c, ipp)
					if err == nil {
						ok, _ := p.Verify()
						vzCheck(!ok, "%s: argument for another commitment accepted", what)
					}
				})
				if !vzThorough() && (kind > 0 && (gi > 0 || n != 4) || n > 8 || gi > 0 && n > 2) || n > 16 {
					continue
				}
				tr := vzTranscript{A: g.Generator(), S: g.Generator(), T1: g.Generator(), T2: g.Generator(), Taux: vzInt(1), Mu: vzInt(1), Tp: vzInt(1), Vs: []group.Element{g.Generator()}, IP: proof}
				vzAlter(g, BulletProofSetupParams{GP: g, H: ipp.Uu, Gg: ipp.Gg, Hh: ipp.Hh}, tr, func(name string, x vzTranscript) {
					x.IP.Params = ipp
					for _, extra := range []bool{false, true} {
						if extra && (name != "none" && name != "L and R swapped") {
							continue
						}
						if extra { // the generators in another order
							x.IP.Params.Gg, x.IP.Params.Hh = ipp.Hh, ipp.Gg
						}
						w := what + ", altered: " + name
						vzCase(w, func() {
							got, err := x.IP.Verify()
							want := vzIPHolds(g, x.IP.Params.Gg, x.IP.Params.Hh, x.IP.P, x.IP.Cc, x.IP.A, x.IP.B, x.IP.L, x.IP.R)
							vzCheck(got == want && !(want && err != nil), "%s: verifier says %v (%v), the equation %v", w, got, err, want)
							if n != 1<<min(len(x.IP.L), 40) || len(x.IP.L) != len(x.IP.R) {
								vzCheck(err != nil, "%s: wrong number of rounds without an error", w)
							}
						})
					}
				})
			}
			// wrong lengths
			for _, m := range []int{0, 1, n - 1, n + 1, 2 * n} {
				if m == n || m < 0 {
					continue
				}
				what := fmt.Sprintf("%s, vectors of length %d and %d", g.Name(), n, m)
				vzCase(what, func() {
					_, err := proveInnerProduct(vzVector(n, q, 0), vzVector(m, q, 0), g.Generator(), vzInt(1), ipp)
					vzCheck(err != nil, "%s: no error", what)
				})
				vzCase(what, func() {
					p := InnerProductProof{P: g.Generator(), Cc: vzInt(1), A: vzInt(1), B: vzInt(1), Params: ipp}
					for 1<<len(p.L) < n {
						p.L, p.R = append(p.L, g.Generator()), append(p.R, g.Generator())
					}
					p.Params.Gg = append(append([]group.Element{}, ipp.Gg...), ipp.Gg...)[:m]
					ok, err := p.Verify()
					vzCheck(!ok && err != nil, "%s of generators: %v, %v", what, ok, err)
					p.Params.Gg, p.Params.Hh = ipp.Gg, append(append([]group.Element{}, ipp.Hh...), ipp.Hh...)[:m]
					ok, err = p.Verify()
					vzCheck(!ok && err != nil, "%s of generators: %v, %v", what, ok, err)
				})
			}
		}
		// a forgery that works unless every part of the equation is used: zero everything
		for _, n := range []int{3, 5, 6, 12} {
			ipp, err := setupInnerProduct(nil, nil, int64(n), g)
			if err != nil {
				continue
			}
			vzCase(fmt.Sprint(g.Name(), n, " generators"), func() {
				for k := 0; k < 5; k++ {
					p := InnerProductProof{P: g.Identity(), Cc: vzInt(0), A: vzInt(0), B: vzInt(0), Params: ipp}
					for i := 0; i < k; i++ {
						p.L, p.R = append(p.L, g.Identity()), append(p.R, g.Identity())
					}
					ok, err := p.Verify()
					vzCheck(!ok && err != nil, "%s: %d generators and %d rounds: %v, %v", g.Name(), n, k, ok, err)
				}
			})
		}
		for _, n := range []int64{0, -1, -5} {
			_, err := setupInnerProduct(nil, nil, n, g)
			vzCheck(err != nil, "%s: inner-product setup for length %d", g.Name(), n)
		}
	}
}
