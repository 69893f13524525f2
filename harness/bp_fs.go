package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestVerifC17(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		// the challenges in force are those of the whole transcript: the equations hold under them
		for _, n := range []int{1, 4, 8} {
			if gi > 0 && n > 4 {
				continue
			}
			params := vzParams(g, n)
			what := fmt.Sprintf("%s, range 2^%d", g.Name(), n)
			vzCase(what, func() {
				p, _, err := Prove(vzInt(1), params)
				if err == nil {
					ok, _ := p.Verify()
					vzCheck(!ok || vzBPHolds(&p), "%s: a proof is accepted under challenges other than those of its transcript", what)
				}
				for m := 1; m <= n; m *= 2 {
					vs := make([]*big.Int, m)
					for j := range vs {
						vs[j] = vzInt(int64(j & 1))
					}
					p, _, err := MultiProve(vs, params)
					if err == nil {
						ok, _ := p.Verify()
						vzCheck(!ok || vzMBHolds(&p), "%s: an aggregated proof of %d values is accepted under challenges other than those of its transcript", what, m)
					}
				}
			})
		}
	}
	// If V were not part of the transcript, it could be chosen once all challenges are fixed.
	g := group.P256()
	params := vzParams(g, 1)
	vzCase("forgery", func() {
		q := g.N()
		mod := func(a *big.Int) *big.Int { return a.Mod(a, q) }
		rnd := func() *big.Int { return vzBelow(q) }
		gamma, alpha, rho, sL, sR, tau1, tau2 := rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), rnd()
		var p BulletProof
		p.Params = params
		p.A = vzSum(g, alpha, params.H, vzInt(-1), params.Hh[0])
		p.S = vzSum(g, rho, params.H, sL, params.Gg[0], sR, params.Hh[0])
		_, z := vzHash2(p.A, p.S)
		l0, r0 := vzNeg(z), vzAdd(vzInt(-1), z, vzMul(z, z))
		t1 := vzAdd(vzMul(l0, sR), vzMul(sL, r0))
		p.T1 = vzSum(g, vzAdd(t1, vzInt(1)), g.Generator(), tau1, params.H) // one too much
		p.T2 = vzSum(g, vzMul(sL, sR), g.Generator(), tau2, params.H)
		x, _ := vzHash2(p.T1, p.T2)
		l, r := mod(vzAdd(l0, vzMul(sL, x))), mod(vzAdd(r0, vzMul(sR, x)))
		p.Tprime = mod(vzMul(l, r))
		p.Taux = mod(vzAdd(vzMul(tau2, x, x), vzMul(tau1, x), vzMul(z, z, gamma)))
		p.Mu = mod(vzAdd(alpha, vzMul(rho, x)))
		ipp, _ := setupInnerProduct(params.Gg, params.Hh, 1, g)
		ip, err := proveInnerProduct([]*big.Int{l}, []*big.Int{r}, vzSum(g, l, params.Gg[0], r, params.Hh[0]), p.Tprime, ipp)
		if err != nil {
			return
		}
		p.InnerProductProof = ip
		v := mod(vzNeg(vzMul(x, new(big.Int).ModInverse(vzMul(z, z), q))))
		p.V = vzSum(g, v, g.Generator(), gamma, params.H)
		if ok, _ := p.Verify(); ok && v.BitLen() > 1 {
			vzFail("BulletProof.Verify: the challenges depend on the commitment V: a commitment to %s, chosen after the challenges, is accepted for the range below 2", v)
		}
	})
	// If x did not depend on A and S, T1 and T2 could be chosen first, and then the bit.
	for k := 0; k < 20; k++ {
		done := false
		vzCase("forgery", func() {
			q := g.N()
			mod := func(a *big.Int) *big.Int { return a.Mod(a, q) }
			rnd := func() *big.Int { return vzBelow(q) }
			gamma, alpha, rho, sL, sR, tau1, tau2, t1, t2 := rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), rnd()
			var p BulletProof
			p.Params = params
			p.T1 = vzSum(g, t1, g.Generator(), tau1, params.H)
			p.T2 = vzSum(g, t2, g.Generator(), tau2, params.H)
			x, _ := vzHash2(p.T1, p.T2)
			// v(v-1) = t1.x + t2.x^2
			half := new(big.Int).ModInverse(vzInt(2), q)
			d := mod(vzAdd(vzInt(1), vzMul(vzInt(4), vzAdd(vzMul(t1, x), vzMul(t2, x, x)))))
			root := new(big.Int).ModSqrt(d, q)
			if root == nil {
				return
			}
			done = true
			v := mod(vzMul(vzAdd(root, vzInt(1)), half))
			p.V = vzSum(g, v, g.Generator(), gamma, params.H)
			p.A = vzSum(g, alpha, params.H, vzAdd(v, vzNeg(vzMul(sL, x))), params.Gg[0], vzAdd(v, vzInt(-1), vzNeg(vzMul(sR, x))), params.Hh[0])
			p.S = vzSum(g, rho, params.H, sL, params.Gg[0], sR, params.Hh[0])
			_, z := vzHash2(p.A, p.S)
			l, r := mod(vzAdd(v, vzNeg(z))), mod(vzAdd(v, vzInt(-1), z, vzMul(z, z)))
			p.Tprime = mod(vzMul(l, r))
			p.Taux = mod(vzAdd(vzMul(tau2, x, x), vzMul(tau1, x), vzMul(z, z, gamma)))
			p.Mu = mod(vzAdd(alpha, vzMul(rho, x)))
			ipp, _ := setupInnerProduct(params.Gg, params.Hh, 1, g)
			ip, err := proveInnerProduct([]*big.Int{l}, []*big.Int{r}, vzSum(g, l, params.Gg[0], r, params.Hh[0]), p.Tprime, ipp)
			if err != nil {
				return
			}
			p.InnerProductProof = ip
			if ok, _ := p.Verify(); ok && v.BitLen() > 1 {
				vzFail("BulletProof.Verify: the challenge after T1, T2 depends on the earlier A, S: a commitment to %s, with A and S chosen after x, is accepted for the range below 2", v)
			}
		})
		if done {
			break
		}
	}
	// If the folding challenges did not depend on the statement, it could be chosen after them.
	vzCase("forgery", func() {
		q := g.N()
		mod := func(a *big.Int) *big.Int { return a.Mod(a, q) }
		rnd := func() *big.Int { return vzBelow(q) }
		params := vzParams(g, 2)
		ipp, _ := setupInnerProduct(params.Gg, params.Hh, 2, g)
		alpha, beta, a, b := rnd(), rnd(), rnd(), rnd()
		p := InnerProductProof{Params: ipp, A: a, B: b}
		L := g.Element().Scale(params.Gg[0], alpha)
		R := g.Element().Scale(params.Hh[0], beta)
		x, _ := vzHash2(L, R)
		xi := new(big.Int).ModInverse(x, q)
		// P' = P + x^2 L + x^-2 R has to be g1^(a/x) g2^(ax) h1^(bx) h2^(b/x)
		x2 := mod(vzMul(x, x))
		xi2 := mod(vzMul(xi, xi))
		rest := g.Element().Add(g.Element().Scale(L, x2), g.Element().Scale(R, xi2))
		full := vzSum(g, vzMul(a, xi), params.Gg[0], vzMul(a, x), params.Gg[1], vzMul(b, x), params.Hh[0], vzMul(b, xi), params.Hh[1])
		p.P = g.Element().Subtract(full, rest)
		p.Cc = mod(vzMul(a, b))
		p.L, p.R = []group.Element{L}, []group.Element{R}
		va := []*big.Int{vzAdd(vzMul(a, xi), vzNeg(vzMul(alpha, x2))), vzMul(a, x)}
		vb := []*big.Int{vzAdd(vzMul(b, x), vzNeg(vzMul(beta, xi2))), vzMul(b, xi)}
		if !p.P.IsEqual(vzSum(g, va[0], params.Gg[0], va[1], params.Gg[1], vb[0], params.Hh[0], vb[1], params.Hh[1])) {
			return
		}
		wrong := mod(vzAdd(vzMul(va[0], vb[0]), vzMul(va[1], vb[1]))).Cmp(p.Cc) != 0
		if ok, _ := p.Verify(); ok && wrong {
			vzFail("InnerProductProof.Verify: the challenge after round 1 depends on the earlier statement: vectors and a product chosen after the challenge are accepted although the product is wrong")
		}
	})
}
