package bulletproofs

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// ---- an independent verifier: the equations, evaluated directly ----

func vzDigest(text string) *big.Int {
	d := sha256.Sum256([]byte(text))
	return new(big.Int).SetBytes(d[:])
}

// The challenges that follow the elements.
func vzHash2(e ...group.Element) (*big.Int, *big.Int) {
	text := ""
	for _, x := range e {
		text += x.String()
	}
	y := vzDigest(text)
	return y, vzDigest(text + y.String())
}

// The challenges y, z and x of a range proof.
func vzYZX(Vs []group.Element, A, S, T1, T2 group.Element) (y, z, x *big.Int) {
	e := append(append([]group.Element{}, Vs...), A, S)
	y, z = vzHash2(e...)
	x, _ = vzHash2(append(e, T1, T2)...)
	return
}

func vzHashIP(g, h []group.Element, P group.Element, c *big.Int) *big.Int {
	text := P.String()
	for i := range g {
		text += g[i].String() + h[i].String()
	}
	// read as two's complement
	x := vzDigest(text + c.String())
	if x.Bit(255) == 1 {
		x.Sub(x, new(big.Int).Lsh(vzInt(1), 256))
	}
	return x
}

func vzHashRound(L, R group.Element, x *big.Int) *big.Int {
	return vzDigest(L.String() + R.String() + x.String())
}

func vzPow(b *big.Int, e int, q *big.Int) *big.Int {
	if e < 0 {
		return new(big.Int).Exp(new(big.Int).ModInverse(b, q), vzInt(int64(-e)), q)
	}
	return new(big.Int).Exp(b, vzInt(int64(e)), q)
}

// vzIPHolds: the inner-product equation for generators G, H.
func vzIPHolds(GP group.Group, G, H []group.Element, P group.Element, c, a, b *big.Int, L, R []group.Element) bool {
	n, q := len(G), GP.N()
	if n == 0 || len(H) != n || len(L) != len(R) || n&(n-1) != 0 || n != 1<<len(L) {
		return false
	}
	u, _ := GP.Element().MapToGroup("BulletproofsDoesNotNeedTrustedSetupU")
	x0 := vzHashIP(G, H, P, c)
	lhs := vzSum(GP, vzInt(1), P, vzMul(x0, c), u)
	k := len(L)
	xs := make([]*big.Int, k)
	for j, x := 0, x0; j < k; j++ {
		x = vzHashRound(L[j], R[j], x)
		xs[j] = x
		lhs = GP.Element().Add(lhs, vzSum(GP, vzPow(xs[j], 2, q), L[j], vzPow(xs[j], -2, q), R[j]))
	}
	rhs := vzSum(GP, vzMul(x0, a, b), u)
	for i := 0; i < n; i++ {
		s := vzInt(1)
		for j := range xs {
			e := -1
			if i>>(k-1-j)&1 == 1 {
				e = 1
			}
			s.Mul(s, vzPow(xs[j], e, q)).Mod(s, q)
		}
		si := new(big.Int).ModInverse(s, q)
		rhs = GP.Element().Add(rhs, vzSum(GP, vzMul(a, s), G[i], vzMul(b, si), H[i]))
	}
	return lhs.IsEqual(rhs)
}

// vzHolds: the equations of a range proof of m commitments over the parameters.
func vzHolds(params BulletProofSetupParams, Vs []group.Element, A, S, T1, T2 group.Element, taux, mu, tp *big.Int, ip InnerProductProof) bool {
	GP, q, N, m := params.GP, params.GP.N(), int(params.N), len(Vs)
	if m == 0 || N%m != 0 {
		return false
	}
	n := N / m
	y, z, x := vzYZX(Vs, A, S, T1, T2)
	one := vzInt(1)
	sy := new(big.Int)
	for i := 0; i < N; i++ {
		sy.Add(sy, vzPow(y, i, q))
	}
	delta := vzMul(vzAdd(z, vzNeg(vzMul(z, z))), sy)
	two := new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
	rhs := GP.Identity()
	for j, v := range Vs {
		delta.Sub(delta, vzMul(vzPow(z, 3+j, q), two))
		rhs = GP.Element().Add(rhs, vzSum(GP, vzPow(z, 2+j, q), v))
	}
	rhs = GP.Element().Add(rhs, vzSum(GP, delta, GP.Generator(), x, T1, vzMul(x, x), T2))
	if !rhs.IsEqual(vzSum(GP, tp, GP.Generator(), taux, params.H)) {
		return false
	}
	hp := make([]group.Element, N)
	P := vzSum(GP, one, A, x, S)
	for i := 0; i < N; i++ {
		hp[i] = vzSum(GP, vzPow(y, -i, q), params.Hh[i])
		e := vzAdd(vzMul(z, vzPow(y, i, q)), vzMul(vzPow(z, 2+i/n, q), vzPow(vzInt(2), i%n, q)))
		P = GP.Element().Add(P, vzSum(GP, vzNeg(z), params.Gg[i], e, hp[i]))
	}
	if !P.IsEqual(vzSum(GP, mu, params.H, one, ip.P)) {
		return false
	}
	return ip.Cc.Cmp(tp) == 0 && vzIPHolds(GP, params.Gg, hp, ip.P, ip.Cc, ip.A, ip.B, ip.L, ip.R)
}

func vzBPHolds(p *BulletProof) bool {
	return vzHolds(p.Params, []group.Element{p.V}, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof)
}

func vzMBHolds(p *MultiBulletProof) bool {
	return vzHolds(p.Params, p.Vs, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof)
}

var vzSetups = map[string]BulletProofSetupParams{}

func vzParams(g group.Group, n int) BulletProofSetupParams {
	k := fmt.Sprint(g.Name(), n)
	if p, ok := vzSetups[k]; ok {
		return p
	}
	p, err := Setup(int64(1)<<n, g)
	if err != nil {
		panic(err)
	}
	vzSetups[k] = p
	return p
}

func vzInRange(n int) []*big.Int {
	top := new(big.Int).Sub(new(big.Int).Lsh(vzInt(1), uint(n)), vzInt(1))
	r := []*big.Int{vzInt(0), vzInt(1), top, new(big.Int).Rsh(top, 1), new(big.Int).Lsh(vzInt(1), uint(n-1))}
	for i := 0; i < vzN(2, 12); i++ {
		r = append(r, vzBelow(vzAdd(top, vzInt(1))))
	}
	return r
}

func vzSizes(gi int) []int {
	if gi == 0 || vzThorough() {
		return []int{1, 2, 4, 8, 16, 32}
	}
	return []int{4, 16}
}

func TestVerifC02(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		for _, n := range vzSizes(gi) {
			params := vzParams(g, n)
			for _, v := range vzInRange(n) {
				what := fmt.Sprintf("%s, range 2^%d, value %s", g.Name(), n, v)
				vzCase(what, func() {
					p, gamma, err := Prove(new(big.Int).Set(v), params)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					ok, err := p.Verify()
					vzCheck(ok && err == nil, "%s: honest proof rejected (%v)", what, err)
					vzCheck(vzBPHolds(&p), "%s: the equations do not hold for the honest proof", what)
					ok, _ = p.Verify()
					vzCheck(ok, "%s: rejected the second time", what)
					vzCheck(p.V.IsEqual(vzSum(g, v, g.Generator(), gamma, params.H)), "%s: the commitment does not open under the returned blinding factor", what)
				})
			}
			one := vzInt(1)
			top := new(big.Int).Lsh(one, uint(n))
			for _, v := range []*big.Int{top, vzAdd(top, one), vzMul(top, vzInt(5)), vzInt(-1), vzNeg(top), g.N(), vzAdd(g.N(), vzInt(-1)), vzAdd(g.N(), one), new(big.Int).Lsh(one, 64), vzAdd(new(big.Int).Lsh(one, 64), one), new(big.Int).Lsh(one, 40)} {
				what := fmt.Sprintf("%s, range 2^%d, value %s", g.Name(), n, v)
				vzCase(what, func() {
					p, _, err := Prove(new(big.Int).Set(v), params)
					if err != nil {
						return
					}
					ok, _ := p.Verify()
					vzCheck(!ok, "%s: proof of a value outside the range accepted", what)
				})
			}
		}
	}
}

// ---- alterations of a transcript ----

type vzTranscript struct {
	Vs           []group.Element
	A, S, T1, T2 group.Element
	Taux, Mu, Tp *big.Int
	IP           InnerProductProof
}

func (t vzTranscript) clone() vzTranscript {
	t.Vs = append([]group.Element{}, t.Vs...)
	t.IP.L = append([]group.Element{}, t.IP.L...)
	t.IP.R = append([]group.Element{}, t.IP.R...)
	t.IP.Params.Gg = append([]group.Element{}, t.IP.Params.Gg...)
	t.IP.Params.Hh = append([]group.Element{}, t.IP.Params.Hh...)
	return t
}

// vzAlter calls f with altered transcripts; each alteration has a name.
// vzCheat proves that the entries of aL are the bits of the values vs, with T1 for another coefficient and t' made to match it (or not).
func vzCheat(params BulletProofSetupParams, vs, aL []*big.Int, dT, dt *big.Int, gamma ...*big.Int) vzTranscript {
	g, N, m := params.GP, int(params.N), len(vs)
	q, n := g.N(), N/m
	rnd := func() *big.Int { return vzBelow(q) }
	t := vzTranscript{}
	gammas := make([]*big.Int, m)
	for j, v := range vs {
		gammas[j] = rnd()
		if len(gamma) > 0 {
			gammas[j] = gamma[j%len(gamma)]
		}
		t.Vs = append(t.Vs, vzSum(g, v, g.Generator(), gammas[j], params.H))
	}
	alpha, rho, tau1, tau2 := rnd(), rnd(), rnd(), rnd()
	sL, sR := make([]*big.Int, N), make([]*big.Int, N)
	t.A, t.S = vzSum(g, alpha, params.H), vzSum(g, rho, params.H)
	for i := range sL {
		sL[i], sR[i] = rnd(), rnd()
		t.A = g.Element().Add(t.A, vzSum(g, aL[i], params.Gg[i], vzAdd(aL[i], vzInt(-1)), params.Hh[i]))
		t.S = g.Element().Add(t.S, vzSum(g, sL[i], params.Gg[i], sR[i], params.Hh[i]))
	}
	y, z, _ := vzYZX(t.Vs, t.A, t.S, t.A, t.A)
	t1, t2 := vzInt(0), vzInt(0)
	l0, r0, r1 := make([]*big.Int, N), make([]*big.Int, N), make([]*big.Int, N)
	for i := range l0 {
		yi := vzPow(y, i, q)
		l0[i] = vzAdd(aL[i], vzNeg(z))
		r0[i] = vzAdd(vzMul(yi, vzAdd(aL[i], vzInt(-1), z)), vzMul(vzPow(z, 2+i/n, q), vzPow(vzInt(2), i%n, q)))
		r1[i] = vzMul(yi, sR[i])
		t1.Add(t1, vzAdd(vzMul(l0[i], r1[i]), vzMul(sL[i], r0[i])))
		t2.Add(t2, vzMul(sL[i], r1[i]))
	}
	t.T1 = vzSum(g, vzAdd(t1, dT), g.Generator(), tau1, params.H)
	t.T2 = vzSum(g, t2, g.Generator(), tau2, params.H)
	_, _, x := vzYZX(t.Vs, t.A, t.S, t.T1, t.T2)
	l, r, hp := make([]*big.Int, N), make([]*big.Int, N), make([]group.Element, N)
	prod, P := vzInt(0), g.Identity()
	for i := range l {
		l[i], r[i] = vzAdd(l0[i], vzMul(sL[i], x)), vzAdd(r0[i], vzMul(r1[i], x))
		l[i].Mod(l[i], q)
		r[i].Mod(r[i], q)
		prod.Add(prod, vzMul(l[i], r[i]))
		hp[i] = vzSum(g, vzPow(y, -i, q), params.Hh[i])
		P = g.Element().Add(P, vzSum(g, l[i], params.Gg[i], r[i], hp[i]))
	}
	prod.Mod(prod, q)
	t.Tp = vzAdd(prod, vzMul(dt, x))
	t.Tp.Mod(t.Tp, q)
	t.Taux = vzAdd(vzMul(tau2, x, x), vzMul(tau1, x))
	for j := range vs {
		t.Taux.Add(t.Taux, vzMul(vzPow(z, 2+j, q), gammas[j]))
	}
	t.Taux.Mod(t.Taux, q)
	t.Mu = vzAdd(alpha, vzMul(rho, x))
	t.Mu.Mod(t.Mu, q)
	ipp, _ := setupInnerProduct(params.Gg, hp, params.N, g)
	t.IP, _ = proveInnerProduct(l, r, P, prod, ipp)
	return t
}

func vzAlter(g group.Group, params BulletProofSetupParams, t vzTranscript, f func(name string, t vzTranscript)) {
	q := g.N()
	one := vzInt(1)
	f("none", t.clone())
	els := func(get func(*vzTranscript) *group.Element, name string) {
		for k, alt := range map[string]func(group.Element) group.Element{
			"+G":       func(e group.Element) group.Element { return g.Element().Add(e, g.Generator()) },
			"negated":  func(e group.Element) group.Element { return g.Element().Negate(e) },
			"identity": func(e group.Element) group.Element { return g.Identity() },
			"copied":   func(e group.Element) group.Element { return vzCopy(e, g) },
			"+H":       func(e group.Element) group.Element { return g.Element().Add(e, params.H) },
		} {
			c := t.clone()
			p := get(&c)
			*p = alt(*p)
			f(name+" "+k, c)
		}
	}
	els(func(c *vzTranscript) *group.Element { return &c.A }, "A")
	els(func(c *vzTranscript) *group.Element { return &c.S }, "S")
	els(func(c *vzTranscript) *group.Element { return &c.T1 }, "T1")
	els(func(c *vzTranscript) *group.Element { return &c.T2 }, "T2")
	els(func(c *vzTranscript) *group.Element { return &c.IP.P }, "P")
	for i := range t.Vs {
		els(func(c *vzTranscript) *group.Element { return &c.Vs[i] }, fmt.Sprint("V", i))
	}
	for i := range t.IP.L {
		els(func(c *vzTranscript) *group.Element { return &c.IP.L[i] }, fmt.Sprint("L", i))
		els(func(c *vzTranscript) *group.Element { return &c.IP.R[i] }, fmt.Sprint("R", i))
	}
	nums := func(get func(*vzTranscript) **big.Int, name string) {
		for k, alt := range map[string]func(*big.Int) *big.Int{
			"+1":      func(x *big.Int) *big.Int { return vzAdd(x, one) },
			"-1":      func(x *big.Int) *big.Int { return vzAdd(x, vzInt(-1)) },
			"+q":      func(x *big.Int) *big.Int { return vzAdd(x, q) },
			"-q":      func(x *big.Int) *big.Int { return vzAdd(x, vzNeg(q)) },
			"negated": func(x *big.Int) *big.Int { return vzNeg(x) },
			"q-x":     func(x *big.Int) *big.Int { return vzAdd(q, vzNeg(x)) },
			"zero":    func(x *big.Int) *big.Int { return vzInt(0) },
			"random":  func(x *big.Int) *big.Int { return vzBelow(q) },
		} {
			c := t.clone()
			p := get(&c)
			*p = alt(*p)
			f(name+" "+k, c)
		}
	}
	nums(func(c *vzTranscript) **big.Int { return &c.Taux }, "taux")
	nums(func(c *vzTranscript) **big.Int { return &c.Mu }, "mu")
	nums(func(c *vzTranscript) **big.Int { return &c.Tp }, "tprime")
	nums(func(c *vzTranscript) **big.Int { return &c.IP.Cc }, "Cc")
	nums(func(c *vzTranscript) **big.Int { return &c.IP.A }, "a")
	nums(func(c *vzTranscript) **big.Int { return &c.IP.B }, "b")
	both := func(name string, d *big.Int) {
		c := t.clone()
		c.Tp, c.IP.Cc = vzAdd(c.Tp, d), vzAdd(c.IP.Cc, d)
		f(name, c)
	}
	both("tprime and Cc +1", one)
	both("tprime and Cc +q", q)
	c := t.clone()
	c.IP.A, c.IP.B = c.IP.B, c.IP.A
	f("a and b swapped", c)
	c = t.clone()
	c.A, c.S = c.S, c.A
	f("A and S swapped", c)
	c = t.clone()
	c.T1, c.T2 = c.T2, c.T1
	f("T1 and T2 swapped", c)
	c = t.clone()
	c.IP.L, c.IP.R = c.IP.R, c.IP.L
	f("L and R swapped", c)
	if k := len(t.IP.L); k > 0 {
		c = t.clone()
		c.IP.L = c.IP.L[:k-1]
		f("L shorter", c)
		c = t.clone()
		c.IP.R = c.IP.R[:k-1]
		f("R shorter", c)
		c = t.clone()
		c.IP.L, c.IP.R = c.IP.L[:k-1], c.IP.R[:k-1]
		f("L and R shorter", c)
		c = t.clone()
		c.IP.L, c.IP.R = nil, nil
		f("L and R empty", c)
		if k > 1 {
			c = t.clone()
			c.IP.L[0], c.IP.L[k-1] = c.IP.L[k-1], c.IP.L[0]
			c.IP.R[0], c.IP.R[k-1] = c.IP.R[k-1], c.IP.R[0]
			f("rounds swapped", c)
		}
	}
	for _, n := range []int{1, 2, 70} {
		c = t.clone()
		for i := 0; i < n; i++ {
			c.IP.L = append(c.IP.L, g.Identity())
			c.IP.R = append(c.IP.R, g.Identity())
		}
		f(fmt.Sprint(n, " rounds more"), c)
	}
	c = t.clone()
	c.IP.R = append(c.IP.R, g.Identity())
	f("R longer", c)
	// parameters embedded by the prover are not to be used
	c = t.clone()
	c.IP.Params = InnerProductParams{Gg: []group.Element{g.Generator()}, Hh: []group.Element{g.Generator()}, Uu: g.Identity(), GP: g}
	f("embedded generators of the prover's choice", c)
	c = t.clone()
	c.IP.Params = InnerProductParams{GP: g}
	f("no embedded generators", c)
	c = t.clone()
	c.IP.Params.Uu = g.Identity()
	f("embedded u is the identity", c)
	// a consistent lie about t': V makes up for it in the first equation, nothing else changes
	_, z, _ := vzYZX(t.Vs, t.A, t.S, t.T1, t.T2)
	c = t.clone()
	c.Tp = vzAdd(t.Tp, one)
	zi := vzPow(z, -2, q)
	c.Vs[0] = g.Element().Add(t.Vs[0], g.Element().BaseScale(zi))
	f("tprime + 1 made up for in V", c)
	m, N := len(t.Vs), int(params.N)
	if N > 0 {
		// provers who follow the protocol except in one point
		n := N / m
		bits := make([]*big.Int, N)
		for i := range bits {
			bits[i] = vzInt(int64(vzRnd.Intn(2)))
		}
		values := func(aL []*big.Int) []*big.Int {
			vs := make([]*big.Int, m)
			for j := range vs {
				vs[j] = vzInt(0)
				for i := 0; i < n; i++ {
					vs[j].Add(vs[j], new(big.Int).Lsh(aL[n*j+i], uint(i)))
				}
			}
			return vs
		}
		zero := vzInt(0)
		f("another honest proof", vzCheat(params, values(bits), bits, zero, zero))
		f("T1 off by one, made up for in t' alone", vzCheat(params, values(bits), bits, one, one))
		f("T1 off by one", vzCheat(params, values(bits), bits, one, zero))
		f("t' off by one", vzCheat(params, values(bits), bits, zero, one))
		for j := 0; j < m; j++ {
			vs := values(bits)
			vs[j] = vzAdd(vs[j], one)
			f(fmt.Sprint("bits of another value ", j), vzCheat(params, vs, bits, zero, zero))
			vs = values(bits)
			vs[j] = vzAdd(vs[j], new(big.Int).Lsh(one, uint(n)))
			f(fmt.Sprint("bits of a value beyond the range ", j), vzCheat(params, vs, bits, zero, zero))
		}
		for i := 0; i < N; i++ {
			for _, b := range []int64{2, -1} {
				if (i == 0 || i == n-1 || i == N-1) && b == 2 || i == N/2 {
					aL := append([]*big.Int{}, bits...)
					aL[i] = vzInt(b)
					f(fmt.Sprintf("bit %d is %d", i, b), vzCheat(params, values(aL), aL, zero, zero))
				}
			}
		}
		if m > 1 {
			vs := values(bits)
			vs[0], vs[m-1] = vzAdd(vs[0], one), vzAdd(vs[m-1], vzInt(-1))
			f("value moved between values", vzCheat(params, vs, bits, zero, zero))
			vs = values(bits)
			vs[0], vs[m-1] = vs[m-1], vs[0]
			f("values exchanged", vzCheat(params, vs, bits, zero, zero))
		}
	}
	// the last commitment absorbs what another one gains
	if m > 1 {
		c = t.clone()
		c.Vs[0] = g.Element().Add(t.Vs[0], g.Generator())
		c.Vs[m-1] = g.Element().Subtract(t.Vs[m-1], g.Generator())
		f("value moved between commitments", c)
		c = t.clone()
		c.Vs[0], c.Vs[m-1] = c.Vs[m-1], c.Vs[0]
		f("commitments swapped", c)
		c = t.clone()
		c.Vs[m-1] = g.Element().Add(t.Vs[m-1], g.Generator())
		c.Vs[0] = g.Element().Subtract(t.Vs[0], g.Element().BaseScale(vzPow(z, m-1, q)))
		f("value moved between commitments at the rate of the challenge", c)
		c = t.clone()
		c.Vs = c.Vs[:m-1]
		f("a commitment less", c)
	}
	c = t.clone()
	c.Vs = append(c.Vs, g.Identity())
	f("a commitment more", c)
	if len(t.Vs) > 1 {
		c = t.clone()
		c.Vs = nil
		f("no commitments", c)
	}
	// an argument for vectors of length one, over the embedded generators
	c = t.clone()
	a1, b1 := vzInt(3), vzInt(5)
	c.IP.Params = InnerProductParams{Gg: params.Gg[:1], Hh: params.Hh[:1], Uu: t.IP.Params.Uu, GP: g}
	c.IP.L, c.IP.R, c.IP.A, c.IP.B, c.IP.Cc = nil, nil, a1, b1, vzInt(15)
	c.IP.P = vzSum(g, a1, params.Gg[0], b1, params.Hh[0])
	c.Tp = vzInt(15)
	f("argument of length one over embedded generators", c)
}

func vzVerdict(what string, got func() (bool, error), want func() bool) {
	vzCase(what, func() {
		ok, err := got()
		w := want()
		vzCheck(ok == w, "%s: Verify says %v (%v), the equations say %v", what, ok, err, w)
		vzCheck(!ok || err == nil, "%s: accepted with an error", what)
	})
}

func TestVerifC03(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		ns := []int{4}
		if gi == 0 {
			ns = []int{1, 2, 8}
		}
		if vzThorough() {
			ns = []int{1, 2, 4, 8, 16, 32}
		}
		for _, n := range ns {
			params := vzParams(g, n)
			p, _, err := Prove(vzBelow(new(big.Int).Lsh(vzInt(1), uint(n))), params)
			if err != nil {
				vzFail("%s 2^%d: %v", g.Name(), n, err)
				continue
			}
			again := p // one proof object, verified, altered and verified again
			vzAlter(g, params, vzTranscript{[]group.Element{p.V}, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof}, func(name string, c vzTranscript) {
				if len(c.Vs) != 1 {
					return
				}
				fresh := BulletProof{Params: params}
				m := &fresh
				if gi%2 == 0 {
					m = &again
				}
				m.V, m.A, m.S, m.T1, m.T2, m.Taux, m.Mu, m.Tprime, m.InnerProductProof = c.Vs[0], c.A, c.S, c.T1, c.T2, c.Taux, c.Mu, c.Tp, c.IP
				vzVerdict(fmt.Sprintf("%s, range 2^%d, %s", g.Name(), n, name), m.Verify, func() bool { return vzBPHolds(m) })
			})
			// another honest proof in the object that has been verified
			if o, _, err := Prove(vzBelow(new(big.Int).Lsh(vzInt(1), uint(n))), params); err == nil {
				m := &again
				m.V, m.A, m.S, m.T1, m.T2, m.Taux, m.Mu, m.Tprime, m.InnerProductProof = o.V, o.A, o.S, o.T1, o.T2, o.Taux, o.Mu, o.Tprime, o.InnerProductProof
				vzVerdict(fmt.Sprintf("%s, range 2^%d, another proof in the same object", g.Name(), n), m.Verify, func() bool { return vzBPHolds(m) })
			}
			// the parameters of another range
			q := p
			q.Params = vzParams(g, 16)
			vzVerdict(fmt.Sprintf("%s, proof for 2^%d under 2^16", g.Name(), n), q.Verify, func() bool { return vzBPHolds(&q) })
			// other generators
			r := p
			r.Params.H = g.Element().Add(params.H, g.Generator())
			vzVerdict(fmt.Sprintf("%s, 2^%d, another H", g.Name(), n), r.Verify, func() bool { return vzBPHolds(&r) })
			r = p
			r.Params.Gg = append([]group.Element{}, params.Gg...)
			r.Params.Gg[n-1] = g.Generator()
			vzVerdict(fmt.Sprintf("%s, 2^%d, another generator", g.Name(), n), r.Verify, func() bool { return vzBPHolds(&r) })
		}
	}
}

func vzMulti(g group.Group, n, m int, vs []*big.Int) (MultiBulletProof, []*big.Int, error) {
	return MultiProve(vs, vzParams(g, n))
}

func TestVerifC04(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		ns := []int{1, 2, 4, 8, 16, 32}
		if gi != 0 && !vzThorough() {
			ns = []int{8}
		}
		for _, n := range ns {
			params := vzParams(g, n)
			for m := 1; m <= n; m *= 2 {
				if n == 32 && m < 16 && !vzThorough() {
					continue
				}
				top := new(big.Int).Lsh(vzInt(1), uint(n/m))
				for i := 0; i < vzN(2, 6); i++ {
					vs := make([]*big.Int, m)
					for j := range vs {
						vs[j] = vzBelow(top)
						if i == 0 && j%2 == 0 {
							vs[j] = vzAdd(top, vzInt(-1))
						}
					}
					what := fmt.Sprintf("%s, %d bits, values %v", g.Name(), n, vs)
					vzCase(what, func() {
						p, gs, err := MultiProve(vs, params)
						if !vzCheck(err == nil, "%s: %v", what, err) {
							return
						}
						ok, err := p.Verify()
						vzCheck(ok && err == nil, "%s: honest proof rejected (%v)", what, err)
						vzCheck(vzMBHolds(&p), "%s: the equations do not hold for the honest proof", what)
						if vzCheck(len(gs) == m && len(p.Vs) == m, "%s: number of commitments", what) {
							for j := range vs {
								vzCheck(p.Vs[j].IsEqual(vzSum(g, vs[j], g.Generator(), gs[j], params.H)), "%s: commitment %d does not open", what, j)
							}
						}
						// one value too large
						bad := append([]*big.Int{}, vs...)
						bad[m-1] = vzAdd(bad[m-1], top)
						p, _, err = MultiProve(bad, params)
						if err == nil {
							ok, _ = p.Verify()
							vzCheck(!ok, "%s: accepted with the last value too large", what)
						}
					})
				}
			}
			for _, m := range []int{0, 3, 5, 6, 7, n + 1, 2 * n, 3 * n} {
				if m != 0 && n%m == 0 {
					continue
				}
				what := fmt.Sprintf("%s, %d values in %d bits", g.Name(), m, n)
				vzCase(what, func() {
					vs := make([]*big.Int, m)
					for j := range vs {
						vs[j] = vzInt(0)
					}
					_, _, err := MultiProve(vs, params)
					vzCheck(err != nil, "%s: not refused", what)
				})
			}
		}
	}
}

func TestVerifC05(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		type nm struct{ n, m int }
		cs := []nm{{4, 2}}
		if gi == 0 {
			cs = []nm{{1, 1}, {4, 2}, {8, 4}, {4, 1}}
		}
		if vzThorough() {
			cs = []nm{{1, 1}, {2, 2}, {4, 2}, {8, 4}, {4, 1}, {16, 4}, {8, 8}, {16, 2}}
		}
		for _, c := range cs {
			params := vzParams(g, c.n)
			vs := make([]*big.Int, c.m)
			for j := range vs {
				vs[j] = vzBelow(new(big.Int).Lsh(vzInt(1), uint(c.n/c.m)))
			}
			p, _, err := MultiProve(vs, params)
			if err != nil {
				vzFail("%s %d/%d: %v", g.Name(), c.n, c.m, err)
				continue
			}
			again := p
			vzAlter(g, params, vzTranscript{p.Vs, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof}, func(name string, x vzTranscript) {
				fresh := MultiBulletProof{Params: params}
				m := &fresh
				if gi%2 == 0 {
					m = &again
				}
				m.Vs, m.A, m.S, m.T1, m.T2, m.Taux, m.Mu, m.Tprime, m.InnerProductProof = x.Vs, x.A, x.S, x.T1, x.T2, x.Taux, x.Mu, x.Tp, x.IP
				vzVerdict(fmt.Sprintf("%s, %d values in %d bits, %s", g.Name(), c.m, c.n, name), m.Verify, func() bool { return vzMBHolds(m) })
			})
			if o, _, err := MultiProve(vs, params); err == nil {
				m := &again
				m.Vs, m.A, m.S, m.T1, m.T2, m.Taux, m.Mu, m.Tprime, m.InnerProductProof = o.Vs, o.A, o.S, o.T1, o.T2, o.Taux, o.Mu, o.Tprime, o.InnerProductProof
				vzVerdict(fmt.Sprintf("%s, %d values in %d bits, another proof in the same object", g.Name(), c.m, c.n), m.Verify, func() bool { return vzMBHolds(m) })
			}
			// commitments that are equal, and commitments without blinding
			for what, gamma := range map[string][]*big.Int{"equal commitments": {vzInt(5)}, "commitments without blinding": {vzInt(0)}, "two blindings": {vzInt(3), vzInt(4)}} {
				for _, v := range []int64{1, 0} {
					vals, bits := make([]*big.Int, c.m), make([]*big.Int, c.n)
					for j := range vals {
						vals[j] = vzInt(v)
						for i := 0; i < c.n/c.m; i++ {
							bits[j*(c.n/c.m)+i] = vzInt(int64(vals[j].Bit(i)))
						}
					}
					t := vzCheat(params, vals, bits, vzInt(0), vzInt(0), gamma...)
					m := &MultiBulletProof{Params: params}
					m.Vs, m.A, m.S, m.T1, m.T2, m.Taux, m.Mu, m.Tprime, m.InnerProductProof = t.Vs, t.A, t.S, t.T1, t.T2, t.Taux, t.Mu, t.Tp, t.IP
					vzVerdict(fmt.Sprintf("%s, %d times the value %d in %d bits, %s", g.Name(), c.m, v, c.n, what), m.Verify, func() bool { return vzMBHolds(m) })
				}
			}
			for _, m := range []int{3, 5, c.n + 1, 0} {
				x := p
				x.Vs = make([]group.Element, m)
				for j := range x.Vs {
					x.Vs[j] = p.Vs[0]
				}
				if m != 0 && c.n%m == 0 {
					continue
				}
				vzCase("uneven", func() {
					ok, err := x.Verify()
					vzCheck(!ok && err != nil, "%s: %d commitments in %d bits: %v %v", g.Name(), m, c.n, ok, err)
				})
			}
		}
	}
	// honest transcripts for every number of values
	for _, n := range []int{1, 2, 4, 8, 16, 32} {
		for m := 1; m <= n; m *= 2 {
			g := vzCurves()[2]
			params := vzParams(g, n)
			vs := make([]*big.Int, m)
			for j := range vs {
				vs[j] = vzBelow(new(big.Int).Lsh(vzInt(1), uint(n/m)))
			}
			p, _, err := MultiProve(vs, params)
			if err != nil {
				vzFail("%s %d/%d: %v", g.Name(), n, m, err)
				continue
			}
			what := fmt.Sprintf("%s, %d values in %d bits", g.Name(), m, n)
			vzVerdict(what+", honest", p.Verify, func() bool { return vzMBHolds(&p) })
			q := p
			q.Taux = vzAdd(q.Taux, vzInt(1))
			vzVerdict(what+", another Taux", q.Verify, func() bool { return vzMBHolds(&q) })
			q = p
			q.Vs = append([]group.Element{}, p.Vs...)
			q.Vs[0], q.Vs[m-1] = q.Vs[m-1], q.Vs[0]
			vzVerdict(what+", first and last commitment exchanged", q.Verify, func() bool { return vzMBHolds(&q) })
		}
	}
}

func TestVerifC16(t *testing.T) {
	defer vzDone()
	g := group.P256()
	good := map[int64]int64{2: 1, 4: 2, 16: 4, 256: 8, 65536: 16, 1 << 32: 32}
	var bs []int64
	for i := 0; i < 63; i++ {
		bs = append(bs, 1<<i, 1<<i-1, 1<<i+1, -(1 << i), 3<<i, 5<<i)
	}
	bs = append(bs, -1<<63, -1<<63+1, 0, 1<<63-1)
	for i := 0; i < vzN(200, 5000); i++ {
		bs = append(bs, vzRnd.Int63()>>vzRnd.Intn(63), -(vzRnd.Int63() >> vzRnd.Intn(63)))
	}
	for _, b := range bs {
		what := fmt.Sprintf("range end %d", b)
		vzCase(what, func() {
			p, err := Setup(b, g)
			n, ok := good[b]
			vzCheck((err == nil) == ok, "%s: error %v", what, err)
			if err != nil || !ok {
				return
			}
			vzCheck(p.N == n && int64(len(p.Gg)) == n && int64(len(p.Hh)) == n, "%s: %d bits, %d and %d generators", what, p.N, len(p.Gg), len(p.Hh))
			seen := map[string]bool{g.Identity().String(): true}
			u, _ := g.Element().MapToGroup("BulletproofsDoesNotNeedTrustedSetupU")
			for _, e := range append(append([]group.Element{p.G, p.H, u}, p.Gg...), p.Hh...) {
				vzCheck(!seen[e.String()], "%s: a generator occurs twice or is the identity", what)
				seen[e.String()] = true
			}
			vzCheck(p.G.IsEqual(g.Generator()), "%s: G is not the generator", what)
			vzCheck(p.GP.Name() == g.Name() && p.GP.N().Cmp(g.N()) == 0, "%s: another group", what)
			// no generator is a small multiple of another
			for k := int64(1); k < 40; k++ {
				for _, e := range append(append([]group.Element{p.H}, p.Gg...), p.Hh...) {
					vzCheck(!e.IsEqual(g.Element().BaseScale(vzInt(k))), "%s: a generator has logarithm %d", what, k)
				}
			}
		})
	}
	for _, g := range vzCurves() {
		for n := 1; n <= 32; n *= 2 {
			vzCase("parameters", func() {
				p, q := vzParams(g, n), BulletProofSetupParams{}
				q, _ = Setup(1<<n, g)
				what := fmt.Sprintf("%s, range end 2^%d after other setups", g.Name(), n)
				vzCheck(q.GP.Name() == g.Name() && q.GP.N().Cmp(g.N()) == 0 && q.N == int64(n), "%s: group %v, %d bits", what, q.GP.Name(), q.N)
				vzCheck(q.G.IsEqual(g.Generator()), "%s: G is not the generator of the group", what)
				fresh := map[string]bool{}
				for _, e := range append(append([]group.Element{q.G, q.H}, q.Gg...), q.Hh...) {
					vzCheck(g.Element().Set(e).IsEqual(e) && !e.IsIdentity() && !fresh[e.String()], "%s: a generator is not of the group or not its own", what)
					fresh[e.String()] = true
				}
				vzCheck(vzSnap(p.G, p.H, p.Gg, p.Hh) == vzSnap(q.G, q.H, q.Gg, q.Hh), "%s: setup is not deterministic", g.Name())
			})
		}
	}
}

func vzSnapParams(p BulletProofSetupParams) string {
	return vzSnap(p.N, p.G, p.H, p.Gg, p.Hh, p.GP)
}

func vzSnapIP(p InnerProductProof) string {
	return vzSnap(p.P, p.Cc, p.A, p.B, p.L, p.R, p.Params.Gg, p.Params.Hh, p.Params.Uu, p.Params.GP)
}

func TestVerifC18(t *testing.T) {
	defer vzDone()
	for _, g := range vzCurves() {
		for _, n := range []int{1, 4, 8} {
			params := vzParams(g, n)
			what := fmt.Sprintf("%s, 2^%d", g.Name(), n)
			vzCase(what, func() {
				before := vzSnapParams(params)
				v := vzInt(1)
				p, gamma, err := Prove(v, params)
				vzCheck(err == nil && v.Cmp(vzInt(1)) == 0, "%s: Prove modified the secret", what)
				vzCheck(vzSnapParams(params) == before, "%s: Prove modified the parameters", what)
				snap := func() string {
					return vzSnap(p.V, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, gamma) + vzSnapIP(p.InnerProductProof) + vzSnapParams(p.Params)
				}
				b := snap()
				for i := 0; i < 3; i++ {
					ok, _ := p.Verify()
					vzCheck(ok, "%s: verification %d fails", what, i+1)
					vzCheck(snap() == b && vzSnapParams(params) == before, "%s: Verify modified the proof or the parameters", what)
				}
				// two proofs do not share state
				Prove(vzInt(0), params)
				vzCheck(snap() == b, "%s: proving again modified an earlier proof", what)
				bad := p
				bad.Mu = vzAdd(p.Mu, vzInt(1))
				bad.Verify()
				vzCheck(snap() == b, "%s: verifying a bad proof modified the shared parts", what)
			})
			for m := 1; m <= n; m *= 2 {
				vzCase(what, func() {
					before := vzSnapParams(params)
					vs := make([]*big.Int, m)
					for j := range vs {
						vs[j] = vzInt(int64(j % 2))
					}
					vb := vzSnap(vs)
					p, gs, err := MultiProve(vs, params)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					vzCheck(vzSnap(vs) == vb, "%s: MultiProve modified the secrets", what)
					vzCheck(vzSnapParams(params) == before, "%s: MultiProve modified the parameters", what)
					snap := func() string {
						return vzSnap(p.Vs, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, gs) + vzSnapIP(p.InnerProductProof) + vzSnapParams(p.Params)
					}
					b := snap()
					for i := 0; i < 3; i++ {
						ok, _ := p.Verify()
						vzCheck(ok, "%s, %d values: verification %d fails", what, m, i+1)
						vzCheck(snap() == b && vzSnapParams(params) == before, "%s, %d values: Verify modified the proof or the parameters", what, m)
					}
					// vectors that are part of longer ones of the caller's
					eG, eB := params.GP.Element().BaseScale(vzInt(5)), vzInt(5)
					vs = vzRoom(vs, eB)
					params := params
					params.Gg, params.Hh = vzRoom(params.Gg, eG), vzRoom(params.Hh, eG)
					p, gs, err = MultiProve(vs, params)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					p.Vs = vzRoom(p.Vs, eG)
					p.Params.Gg, p.Params.Hh = vzRoom(p.Params.Gg, eG), vzRoom(p.Params.Hh, eG)
					ip := &p.InnerProductProof
					ip.L, ip.R, ip.Params.Gg, ip.Params.Hh = vzRoom(ip.L, eG), vzRoom(ip.R, eG), vzRoom(ip.Params.Gg, eG), vzRoom(ip.Params.Hh, eG)
					all := func() string {
						return vzSnap(vs[:cap(vs)], params.Gg[:cap(params.Gg)], params.Hh[:cap(params.Hh)], p.Vs[:cap(p.Vs)], p.Params.Gg[:cap(p.Params.Gg)], p.Params.Hh[:cap(p.Params.Hh)],
							ip.L[:cap(ip.L)], ip.R[:cap(ip.R)], ip.Params.Gg[:cap(ip.Params.Gg)], ip.Params.Hh[:cap(ip.Params.Hh)])
					}
					b = all()
					ok, _ := p.Verify()
					vzCheck(ok, "%s, %d values: verification with longer vectors behind fails", what, m)
					MultiProve(vs, params)
					if m == 1 {
						Prove(vs[0], params)
					}
					vzCheck(all() == b, "%s, %d values: what lies behind a vector given is modified", what, m)
				})
			}
		}
	}
}

func TestVerifC12(t *testing.T) {
	defer vzDone()
	for gi, g := range vzCurves() {
		for _, n := range vzSizes(gi) {
			params := vzParams(g, n)
			what := fmt.Sprintf("%s, 2^%d", g.Name(), n)
			for i := 0; i < vzN(2, 10); i++ {
				vzCase(what, func() {
					p, _, _ := Prove(vzBelow(new(big.Int).Lsh(vzInt(1), uint(n))), params)
					switch i {
					case 1: // elements and numbers an honest prover does not send
						p.V, p.T1 = g.Identity(), g.Identity()
						p.Mu, p.Taux = vzInt(0), vzInt(-5)
						p.InnerProductProof.A = vzAdd(p.InnerProductProof.A, g.N())
					}
					ok1, _ := p.Verify()
					b, err := json.Marshal(p)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					r, err := BulletProofUnmarshalJSON(b, params)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					f := func(p BulletProof) string {
						return vzSnap(p.V, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime) + vzSnapIP(p.InnerProductProof) + vzSnapParams(p.Params)
					}
					vzCheck(f(p) == f(r), "%s: the decoded proof differs", what)
					ok2, _ := r.Verify()
					vzCheck(ok1 == ok2, "%s: the decoded proof verifies differently", what)
				})
			}
		}
	}
}

func TestVerifC13(t *testing.T) {
	defer vzDone()
	for _, g := range vzCurves()[:vzN(3, 4)] {
		params := vzParams(g, 4)
		p, _, _ := Prove(vzInt(5), params)
		doc := vzJSON(p)
		vzAlterDoc(doc, g, func(name, alt string, needed bool) {
			what := fmt.Sprintf("%s, range proof with %s", g.Name(), name)
			vzCase(what, func() {
				r, err := BulletProofUnmarshalJSON([]byte(alt), params)
				if err != nil {
					return
				}
				vzCheck(!needed, "%s: accepted", what)
				// what was accepted is what was encoded
				var x, y map[string]any
				b := vzJSON(r)
				vzUnmarshal(alt, &x)
				vzUnmarshal(b, &y)
				delete(x, "Params")
				delete(y, "Params")
				vzSameDoc(what, x, y)
				r.Verify()
			})
		})
	}
}

// vzRoom: the same vector as the front of a longer one.
func vzRoom[T any](s []T, fill T) []T {
	r := make([]T, len(s)+8)
	copy(r, s)
	for i := len(s); i < len(r); i++ {
		r[i] = fill
	}
	return r[:len(s)]
}
