package bulletproofs

import (
	"crypto/rand"
	"fmt"
	"math/big"
	mrand "math/rand"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// vzReader stands in for the cryptographic source: repeatable, and it keeps what it gave.
type vzReader struct {
	src   *mrand.Rand
	bytes int
	draws []*big.Int
	q     *big.Int
}

func (r *vzReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(r.src.Intn(256))
	}
	r.bytes += len(b)
	c := append([]byte{}, b...)
	if k := r.q.BitLen() % 8; k != 0 && len(c) > 0 {
		c[0] &= 1<<k - 1
	}
	if d := new(big.Int).SetBytes(c); d.Cmp(r.q) < 0 {
		r.draws = append(r.draws, d)
	}
	return len(b), nil
}

func vzOnly(params BulletProofSetupParams, which string, i int) BulletProofSetupParams {
	g := params.GP
	p := params
	p.H = g.Identity()
	p.Gg, p.Hh = make([]group.Element, params.N), make([]group.Element, params.N)
	for k := range p.Gg {
		p.Gg[k], p.Hh[k] = g.Identity(), g.Identity()
	}
	switch which {
	case "H":
		p.H = g.Generator()
	case "g":
		p.Gg[i] = g.Generator()
	case "h":
		p.Hh[i] = g.Generator()
	}
	return p
}

type vzRun struct {
	A, S, T1, T2 group.Element
	taux, mu     *big.Int
	gammas       []*big.Int
	draws        []*big.Int
	bytes        int
}

func TestVerifC19(t *testing.T) {
	defer vzDone()
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for gi, g := range vzCurves() {
		q := g.N()
		for _, n := range []int{1, 2, 4, 8} {
			if gi > 0 && n > 2 && !vzThorough() {
				continue
			}
			for m := 0; m <= n; m++ { // 0: a single range proof
				if m > 0 && n%m != 0 {
					continue
				}
				what := fmt.Sprintf("%s, %d bits, range proof", g.Name(), n)
				if m > 0 {
					what = fmt.Sprintf("%s, %d bits, aggregated proof of %d values", g.Name(), n, m)
				}
				vzCase(what, func() {
					params, err := Setup(int64(1)<<n, g)
					if err != nil {
						vzFail("%s: %v", what, err)
						return
					}
					seed := vzRnd.Int63()
					// the same randomness each time, one generator in force at a time
					run := func(which string, i int) (vzRun, bool) {
						p := params
						if which != "" {
							p = vzOnly(params, which, i)
						}
						rd := &vzReader{src: mrand.New(mrand.NewSource(seed)), q: q}
						rand.Reader = rd
						defer func() { rand.Reader = old }()
						var r vzRun
						if m == 0 {
							pr, gamma, err := Prove(vzInt(1), p)
							if err != nil {
								return r, false
							}
							r = vzRun{pr.A, pr.S, pr.T1, pr.T2, pr.Taux, pr.Mu, []*big.Int{gamma}, nil, 0}
						} else {
							vs := make([]*big.Int, m)
							for j := range vs {
								vs[j] = vzInt(int64(j % 2))
							}
							pr, gs, err := MultiProve(vs, p)
							if err != nil {
								return r, false
							}
							r = vzRun{pr.A, pr.S, pr.T1, pr.T2, pr.Taux, pr.Mu, gs, nil, 0}
						}
						r.draws, r.bytes = rd.draws, rd.bytes
						return r, true
					}
					r, ok := run("", 0)
					if !vzCheck(ok, "%s: fails", what) {
						return
					}
					k := len(r.gammas)
					need := (2*n + 4 + k) * q.BitLen()
					vzCheck(8*r.bytes >= need, "%s: %d bits from the cryptographic source where the blinding takes %d", what, 8*r.bytes, need)
					used := map[int]string{}
					lost := false
					mark := func(name string, i int) {
						if i < 0 {
							lost = true
						} else if o, ok := used[i]; ok {
							vzFail("%s: %s and %s are the same draw", what, name, o)
						} else {
							used[i] = name
						}
					}
					find := func(d *big.Int) int {
						for i, x := range r.draws {
							if x.Cmp(d) == 0 {
								return i
							}
						}
						return -1
					}
					log := func(e group.Element) int {
						for i, x := range r.draws {
							if g.Element().BaseScale(x).IsEqual(e) {
								return i
							}
						}
						return -1
					}
					for j, x := range r.gammas {
						for l := 0; l < j; l++ {
							vzCheck(x.Cmp(r.gammas[l]) != 0, "%s: blinding factors %d and %d are equal", what, j, l)
						}
						vzCheck(x.Sign() >= 0 && x.Cmp(q) < 0, "%s: blinding factor %d is not below the order", what, j)
						mark(fmt.Sprint("gamma ", j), find(new(big.Int).Mod(x, q)))
					}
					if h, ok := run("H", 0); ok {
						vzCheck(!h.A.IsIdentity() && !h.S.IsIdentity(), "%s: A or S is not blinded", what)
						mark("alpha", log(h.A))
						mark("rho", log(h.S))
					}
					for i := 0; i < n; i++ {
						for _, w := range []string{"g", "h"} {
							if h, ok := run(w, i); ok {
								vzCheck(!h.S.IsIdentity(), "%s: no mask for %s[%d] in S", what, w, i)
								mark(fmt.Sprintf("s over %s[%d]", w, i), log(h.S))
							}
						}
					}
					// taux = tau2 x^2 + tau1 x + sum z^(2+j) gamma_j
					x, _, _ := HashBP(r.T1, r.T2)
					_, z, _ := HashBP(r.A, r.S)
					rest := new(big.Int).Set(r.taux)
					for j, gm := range r.gammas {
						rest.Sub(rest, vzMul(new(big.Int).Exp(z, vzInt(int64(2+j)), q), gm))
					}
					t1, t2 := -1, -1
					for i, d := range r.draws {
						w := vzAdd(rest, vzNeg(vzMul(d, x, x)))
						w.Mul(w, new(big.Int).ModInverse(x, q)).Mod(w, q)
						if j := find(w); j >= 0 {
							t1, t2 = j, i
						}
					}
					if t1 >= 0 {
						mark("tau1", t1)
						mark("tau2", t2)
					}
					_ = lost
				})
			}
		}
		// over many proofs the blinding factors fill the range
		params, _ := Setup(2, g)
		top := vzInt(0)
		for i := 0; i < 40; i++ {
			vzCase("range of the blinding factor", func() {
				if _, gamma, err := Prove(vzInt(1), params); err == nil && gamma.Cmp(top) > 0 {
					top = gamma
				}
			})
		}
		vzCheck(vzMul(top, vzInt(2)).Cmp(q) > 0, "%s: in 40 proofs the blinding factor never exceeds half the order", g.Name())
	}
}
