package voteproof

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func vzGP(g group.Group, h *big.Int) GroupParameters {
	return GroupParameters{G: g.Generator(), H: g.Element().BaseScale(h), N: g.N(), F: g.P(), I: g}
}

type vzConf struct {
	name   string
	params ProofParams
}

func vzConfs() []vzConf {
	var r []vzConf
	c := vzCurves()
	for _, x := range []struct {
		gff, gec group.Group
		bx       uint8
		bc, bg   uint16
	}{
		{c[3], c[0], 16, 224, 256},
		{c[3], c[0], 8, 128, 138}, // one bit of room: most attempts abort
		{c[0], c[1], 16, 224, 256},
		{c[1], c[2], 16, 128, 200},
		{c[2], c[3], 1, 8, 252},
		{c[3], c[0], 31, 64, 97},
		{c[3], c[2], 20, 200, 252},
		{vzModP(), c[0], 16, 224, 256},
		{c[3], c[3], 100, 256, 384},
	} {
		p, err := Setup(x.bx, x.bc, x.bg, 101, 2000, AlgebraicParameters{GFF: vzGP(x.gff, vzInt(13)), GEC: vzGP(x.gec, vzInt(77))})
		if err != nil {
			vzFail("setup of %d, %d, %d: %v", x.bx, x.bc, x.bg, err)
			continue
		}
		r = append(r, vzConf{fmt.Sprintf("%s/%s, lengths %d, %d, %d", x.gff.Name(), x.gec.Name(), x.bx, x.bc, x.bg), p})
	}
	return r
}

func vzPed(m, r *big.Int, gp GroupParameters) group.Element {
	return vzSum(gp.I, m, gp.I.Generator(), r, gp.H)
}

func vzStatement(m, rp, rq1, rq2 *big.Int, p ProofParams) VerCommitments {
	return VerCommitments{Y: vzSum(p.GFF.I, rp, p.GFF.I.Generator()), Xp: vzPed(m, rp, p.GFF), Xq1: vzPed(m, rq1, p.GEC), Xq2: vzPed(m, rq2, p.GEC)}
}

func vzChallenge(x VerCommitments, W, Kp, Kq1, Kq2 group.Element, bc uint16) *big.Int {
	return vzCut(bc, x.Y, x.Xp, x.Xq1, x.Xq2, W, Kp, Kq1, Kq2)
}

func vzCut(bc uint16, e ...group.Element) *big.Int {
	text := ""
	for _, x := range e {
		text += x.String()
	}
	d := sha256.Sum256([]byte(text))
	return new(big.Int).SetBytes(d[:bc/8])
}

func vzBounds(p ProofParams) (*big.Int, *big.Int) {
	lo := new(big.Int).Lsh(vzInt(1), uint(p.Bx)+uint(p.Bc))
	return lo, new(big.Int).Lsh(lo, uint(p.Bb))
}

// vzAccepts: the acceptance condition, evaluated directly.
func vzAccepts(p *SigmaProof, x VerCommitments) bool {
	lo, hi := vzBounds(p.Params)
	if p.Z.Cmp(lo) < 0 || p.Z.Cmp(hi) >= 0 {
		return false
	}
	c := vzChallenge(x, p.W, p.Kp, p.Kq1, p.Kq2, p.Params.Bc)
	if c.Cmp(p.Challenge) != 0 {
		return false
	}
	ff, ec, one := p.Params.GFF, p.Params.GEC, vzInt(1)
	return vzSum(ff.I, p.Sp, ff.I.Generator()).IsEqual(vzSum(ff.I, one, p.W, c, x.Y)) &&
		vzPed(p.Z, p.Sp, ff).IsEqual(vzSum(ff.I, one, p.Kp, c, x.Xp)) &&
		vzPed(p.Z, p.Sq1, ec).IsEqual(vzSum(ec.I, one, p.Kq1, c, x.Xq1)) &&
		vzPed(p.Z, p.Sq2, ec).IsEqual(vzSum(ec.I, one, p.Kq2, c, x.Xq2))
}

func vzSecrets(p ProofParams, n int) []*big.Int {
	top := new(big.Int).Lsh(vzInt(1), uint(p.Bx))
	r := []*big.Int{vzInt(0), vzInt(1), vzAdd(top, vzInt(-1))}
	for i := 0; i < n; i++ {
		r = append(r, vzBelow(top))
	}
	return r
}

func vzBlind(q *big.Int) *big.Int {
	switch vzRnd.Intn(6) {
	case 0:
		return vzInt(0)
	case 1:
		return vzNeg(vzBelow(q))
	case 2:
		return vzBelow(vzMul(q, q))
	default:
		return vzBelow(q)
	}
}

func TestVerifC07(t *testing.T) {
	defer vzDone()
	for i, c := range vzConfs() {
		p := c.params
		lo, hi := vzBounds(p)
		n := vzN(6, 40)
		if p.GFF.I.P().BitLen() > 1000 {
			n = vzN(0, 6)
		}
		if i == 1 {
			n = vzN(25, 80)
		}
		for k, m := range vzSecrets(p, n) {
			rp, rq1, rq2 := vzBlind(p.GFF.N), vzBlind(p.GEC.N), vzBlind(p.GEC.N)
			if k == 3 {
				rq2 = vzNeg(rq1)
			}
			what := fmt.Sprintf("%s, secret %s, blinding %s, %s, %s", c.name, m, vzClip(rp.String()), rq1, rq2)
			vzCase(what, func() {
				pr := Prove(m, rp, rq1, rq2, p)
				x := vzStatement(m, rp, rq1, rq2, p)
				vzCheck(pr.Verify(x), "%s: honest proof rejected", what)
				vzCheck(pr.Z.Cmp(lo) >= 0 && pr.Z.Cmp(hi) < 0, "%s: response %s outside its interval", what, pr.Z)
				vzCheck(pr.Z.Cmp(p.GFF.N) < 0 && pr.Z.Cmp(p.GEC.N) < 0, "%s: response %s exceeds a group order", what, pr.Z)
				vzCheck(vzAccepts(&pr, x), "%s: the equations do not hold for the honest proof", what)
			})
		}
	}
	// short lengths, many runs: the ends of the response's interval are met
	c := vzCurves()
	for _, x := range []struct {
		bx     uint8
		bc, bg uint16
	}{{1, 8, 11}, {2, 8, 12}, {1, 8, 13}} {
		p, err := Setup(x.bx, x.bc, x.bg, 101, 2000, AlgebraicParameters{GFF: vzGP(c[2], vzInt(13)), GEC: vzGP(c[2], vzInt(77))})
		if err != nil {
			vzFail("setup of %d, %d, %d: %v", x.bx, x.bc, x.bg, err)
			continue
		}
		lo, hi := vzBounds(p)
		for k := 0; k < vzN(1200, 8000); k++ {
			m := vzInt(int64(k) % (1 << x.bx))
			rp, rq1, rq2 := vzBlind(p.GFF.N), vzBlind(p.GEC.N), vzBlind(p.GEC.N)
			what := fmt.Sprintf("%s, lengths %d, %d, %d, secret %s, blinding %s, %s, %s", c[2].Name(), x.bx, x.bc, x.bg, m, rp, rq1, rq2)
			vzCase(what, func() {
				pr := Prove(m, rp, rq1, rq2, p)
				vzCheck(pr.Verify(vzStatement(m, rp, rq1, rq2, p)), "%s: honest proof rejected", what)
				vzCheck(pr.Z.Cmp(lo) >= 0 && pr.Z.Cmp(hi) < 0, "%s: response %s outside its interval", what, pr.Z)
			})
		}
	}
}

// vzRun plays the prover for any statement, with masks of one's choice.
func vzRun(p ProofParams, x VerCommitments, m, rp, rq1, rq2, k, tp, t1, t2 *big.Int) SigmaProof {
	return vzRunFor(func(c *big.Int) *big.Int { return c }, p, x, m, rp, rq1, rq2, k, tp, t1, t2)
}

// vzRunFor answers a challenge derived from the one the proof should answer.
func vzRunFor(f func(c *big.Int) *big.Int, p ProofParams, x VerCommitments, m, rp, rq1, rq2, k, tp, t1, t2 *big.Int) SigmaProof {
	ff, ec := p.GFF, p.GEC
	pr := SigmaProof{Params: p}
	pr.W, pr.Kp, pr.Kq1, pr.Kq2 = vzSum(ff.I, tp, ff.I.Generator()), vzPed(k, tp, ff), vzPed(k, t1, ec), vzPed(k, t2, ec)
	c := f(vzChallenge(x, pr.W, pr.Kp, pr.Kq1, pr.Kq2, p.Bc))
	resp := func(t, r, q *big.Int) *big.Int { s := vzAdd(t, vzMul(c, r)); return s.Mod(s, q) }
	pr.Challenge, pr.Z = c, vzAdd(k, vzMul(c, m))
	pr.Sp, pr.Sq1, pr.Sq2 = resp(tp, rp, ff.N), resp(t1, rq1, ec.N), resp(t2, rq2, ec.N)
	return pr
}

// vzSimulate is a transcript whose equations all hold, with a response of one's choice: the secret is zero.
func vzSimulate(p ProofParams, z *big.Int) (SigmaProof, VerCommitments) {
	ff, ec := p.GFF.N, p.GEC.N
	rp, rq1, rq2, m := vzBelow(ff), vzBelow(ec), vzBelow(ec), vzInt(0)
	x := vzStatement(m, rp, rq1, rq2, p)
	return vzRun(p, x, m, rp, rq1, rq2, z, vzBelow(ff), vzBelow(ec), vzBelow(ec)), x
}

func vzJudge(what string, p SigmaProof, x VerCommitments) {
	vzCase(what, func() {
		got, want := p.Verify(x), vzAccepts(&p, x)
		vzCheck(got == want, "%s: Verify says %v, the equations say %v", what, got, want)
	})
}

func TestVerifC08(t *testing.T) {
	defer vzDone()
	for ci, c := range vzConfs() {
		p := c.params
		ff, ec := p.GFF, p.GEC
		slow := ff.I.P().BitLen() > 1000 && !vzThorough()
		lo, hi := vzBounds(p)
		one := vzInt(1)
		zs := map[string]*big.Int{
			"lower bound - 1": vzAdd(lo, vzInt(-1)), "lower bound": lo, "lower bound + 1": vzAdd(lo, one),
			"upper bound - 1": vzAdd(hi, vzInt(-1)), "upper bound": hi, "upper bound + 1": vzAdd(hi, one),
			"zero": vzInt(0), "minus one": vzInt(-1), "minus the lower bound": vzNeg(lo), "minus a middle": vzNeg(vzMul(lo, vzInt(1))),
			"group order": ec.N, "twice the upper bound": vzMul(hi, vzInt(2)), "middle": vzAdd(lo, vzBelow(vzAdd(hi, vzNeg(lo)))),
			"far above": new(big.Int).Lsh(one, 4000), "negated upper bound + 1": vzAdd(vzNeg(hi), one), "half the upper bound": new(big.Int).Rsh(hi, 1),
			"2^challenge length": new(big.Int).Lsh(one, uint(p.Bc)), "upper bound of the other order": vzAdd(new(big.Int).Lsh(one, uint(p.Bg)), vzInt(-1)),
		}
		for name, z := range zs {
			if slow && len(name) > 15 {
				continue
			}
			pr, x := vzSimulate(p, z)
			vzJudge(c.name+", response: "+name+" "+vzClip(z.String()), pr, x)
		}
		// other responses, not reduced
		pr, x := vzSimulate(p, vzAdd(lo, one))
		pr.Sp, pr.Sq1, pr.Sq2 = vzAdd(pr.Sp, ff.N), vzAdd(pr.Sq1, vzNeg(ec.N)), vzAdd(pr.Sq2, vzMul(ec.N, ec.N))
		vzJudge(c.name+", unreduced responses", pr, x)
		zero := vzInt(0)
		x = vzStatement(zero, zero, zero, zero, p)
		pr = vzRun(p, x, zero, zero, zero, zero, vzAdd(lo, one), zero, zero, zero)
		vzJudge(c.name+", zero responses", pr, x)
		// an honest proof and its alterations
		m := vzSecrets(p, 1)[3]
		rp, rq1, rq2 := vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
		base := Prove(m, rp, rq1, rq2, p)
		bx := vzStatement(m, rp, rq1, rq2, p)
		vzJudge(c.name+", honest", base, bx)
		base.Verify(bx)          // the alterations are of a proof that has been verified
		for k := 0; k < 2; k++ { // another proof in the same object
			o, ox := vzSimulate(p, vzAdd(lo, vzInt(int64(k))))
			q := base
			q.SigmaCommit, q.SigmaChallenge, q.SigmaResponse = o.SigmaCommit, o.SigmaChallenge, o.SigmaResponse
			vzJudge(c.name+", another proof in the same object", q, ox)
		}
		shift := func(g group.Group, e group.Element) []group.Element {
			return []group.Element{g.Element().Add(e, g.Generator()), g.Element().Negate(e), g.Identity(), vzCopy(e, g)}
		}
		alt := func(name string, f func(p *SigmaProof, x *VerCommitments)) {
			q, y := base, bx
			f(&q, &y)
			vzJudge(c.name+", altered: "+name, q, y)
			if !slow {
				q.Challenge = vzChallenge(y, q.W, q.Kp, q.Kq1, q.Kq2, p.Bc)
				vzJudge(c.name+", altered, with its challenge: "+name, q, y)
			}
		}
		for k := 0; k < 4; k++ {
			if slow && k > 0 {
				break
			}
			n := []string{" + G", " negated", " identity", " copied"}[k]
			alt("W"+n, func(p *SigmaProof, x *VerCommitments) { p.W = shift(ff.I, p.W)[k] })
			alt("Kp"+n, func(p *SigmaProof, x *VerCommitments) { p.Kp = shift(ff.I, p.Kp)[k] })
			alt("Kq1"+n, func(p *SigmaProof, x *VerCommitments) { p.Kq1 = shift(ec.I, p.Kq1)[k] })
			alt("Kq2"+n, func(p *SigmaProof, x *VerCommitments) { p.Kq2 = shift(ec.I, p.Kq2)[k] })
			alt("Y"+n, func(p *SigmaProof, x *VerCommitments) { x.Y = shift(ff.I, x.Y)[k] })
			alt("Xp"+n, func(p *SigmaProof, x *VerCommitments) { x.Xp = shift(ff.I, x.Xp)[k] })
			alt("Xq1"+n, func(p *SigmaProof, x *VerCommitments) { x.Xq1 = shift(ec.I, x.Xq1)[k] })
			alt("Xq2"+n, func(p *SigmaProof, x *VerCommitments) { x.Xq2 = shift(ec.I, x.Xq2)[k] })
		}
		for _, d := range []*big.Int{one, vzInt(-1), ff.N, ec.N, vzNeg(ec.N), new(big.Int).Lsh(one, uint(p.Bc)), new(big.Int).Lsh(one, 256)} {
			n := " + " + vzClip(d.String())
			alt("challenge"+n, func(p *SigmaProof, x *VerCommitments) { p.Challenge = vzAdd(p.Challenge, d) })
			if slow {
				continue
			}
			alt("Z"+n, func(p *SigmaProof, x *VerCommitments) { p.Z = vzAdd(p.Z, d) })
			alt("Sp"+n, func(p *SigmaProof, x *VerCommitments) { p.Sp = vzAdd(p.Sp, d) })
			alt("Sq1"+n, func(p *SigmaProof, x *VerCommitments) { p.Sq1 = vzAdd(p.Sq1, d) })
			alt("Sq2"+n, func(p *SigmaProof, x *VerCommitments) { p.Sq2 = vzAdd(p.Sq2, d) })
		}
		alt("challenge negated", func(p *SigmaProof, x *VerCommitments) { p.Challenge = vzNeg(p.Challenge) })
		// another challenge, answered correctly; the secret is zero, so that the response lies where it should
		for name, f := range map[string]func(c *big.Int) *big.Int{
			"negated":                vzNeg,
			"plus one":               func(c *big.Int) *big.Int { return vzAdd(c, one) },
			"zero":                   func(c *big.Int) *big.Int { return vzInt(0) },
			"halved":                 func(c *big.Int) *big.Int { return new(big.Int).Rsh(c, 1) },
			"without its last byte":  func(c *big.Int) *big.Int { return new(big.Int).Rsh(c, 8) },
			"plus 2^its length":      func(c *big.Int) *big.Int { return vzAdd(c, new(big.Int).Lsh(one, uint(p.Bc))) },
			"plus 2^64":              func(c *big.Int) *big.Int { return vzAdd(c, new(big.Int).Lsh(one, 64)) },
			"with another top bit":   func(c *big.Int) *big.Int { return new(big.Int).Xor(c, new(big.Int).Lsh(one, uint(p.Bc)-1)) },
			"plus the curve's order": func(c *big.Int) *big.Int { return vzAdd(c, ec.N) },
			"plus the field group's": func(c *big.Int) *big.Int { return vzAdd(c, ff.N) },
		} {
			if slow {
				break
			}
			rp, rq1, rq2 := vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
			x := vzStatement(zero, rp, rq1, rq2, p)
			pr := vzRunFor(f, p, x, zero, rp, rq1, rq2, vzAdd(lo, one), vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N))
			vzJudge(c.name+", answers the challenge "+name, pr, x)
		}
		// commitments and responses exchanged
		alt("Xq1 and Xq2 exchanged", func(p *SigmaProof, x *VerCommitments) { x.Xq1, x.Xq2 = x.Xq2, x.Xq1 })
		alt("Sq1 and Sq2 exchanged", func(p *SigmaProof, x *VerCommitments) { p.Sq1, p.Sq2 = p.Sq2, p.Sq1 })
		alt("Y and Xp exchanged", func(p *SigmaProof, x *VerCommitments) { x.Y, x.Xp = x.Xp, x.Y })
		alt("Xq1 in the place of Xq2, with its response", func(p *SigmaProof, x *VerCommitments) { x.Xq2, p.Sq2 = x.Xq1, p.Sq1 })
		// all equations but one hold
		for k := 0; k < 16; k++ {
			if slow && k > 3 {
				break
			}
			m, rp, rq1, rq2 := vzSecrets(p, 1)[3], vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
			x := vzStatement(m, rp, rq1, rq2, p)
			switch k % 4 {
			case 0:
				x.Y = shift(ff.I, x.Y)[k/4]
			case 1:
				x.Xp = shift(ff.I, x.Xp)[k/4]
			case 2:
				x.Xq1 = shift(ec.I, x.Xq1)[k/4]
			case 3:
				x.Xq2 = shift(ec.I, x.Xq2)[k/4]
			}
			pr := vzRun(p, x, m, rp, rq1, rq2, vzAdd(lo, vzBelow(lo)), vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N))
			vzJudge(fmt.Sprintf("%s, equation %d alone broken (%d)", c.name, k%4, k/4), pr, x)
			// masks that differ in one place
			if !slow {
				x = vzStatement(m, rp, rq1, rq2, p)
				t1, t2 := vzBelow(ec.N), vzBelow(ec.N)
				pr = vzRun(p, x, m, rp, rq1, rq2, vzAdd(lo, vzBelow(lo)), vzBelow(ff.N), t1, t2)
				switch k % 4 {
				case 0:
					pr.W = shift(ff.I, pr.W)[k/4]
				case 1:
					pr.Kp = shift(ff.I, pr.Kp)[k/4]
				case 2:
					pr.Kq1 = shift(ec.I, pr.Kq1)[k/4]
				case 3:
					pr.Kq2 = shift(ec.I, pr.Kq2)[k/4]
				}
				vzJudge(fmt.Sprintf("%s, first move %d altered (%d)", c.name, k%4, k/4), pr, x)
			}
		}
		// another secret in one of the places
		for k := 0; k < 3 && !slow; k++ {
			m2 := vzAdd(m, vzInt(int64(1+ci)))
			x := vzStatement(m, rp, rq1, rq2, p)
			y := vzStatement(m2, rp, rq1, rq2, p)
			switch k {
			case 0:
				x.Xp = y.Xp
			case 1:
				x.Xq1 = y.Xq1
			case 2:
				x.Xq2 = y.Xq2
			}
			vzJudge(fmt.Sprintf("%s, another secret in place %d", c.name, k), base, x)
		}
	}
}

func TestVerifC16(t *testing.T) {
	defer vzDone()
	ap := AlgebraicParameters{GFF: vzGP(group.P384(), vzInt(13)), GEC: vzGP(group.P256(), vzInt(77))}
	xs := []uint8{0, 1, 2, 15, 16, 17, 31, 32, 100, 127, 128, 200, 254, 255}
	cs := []uint16{0, 1, 7, 8, 16, 128, 223, 224, 225, 240, 248, 255, 256, 257, 264, 300, 511, 512, 1000, 32767, 32768, 65279, 65280, 65281, 65519, 65520, 65534, 65535}
	gs := []uint16{0, 1, 2, 3, 18, 100, 241, 242, 243, 252, 253, 255, 256, 257, 258, 384, 511, 512, 513, 514, 521, 1000, 3071, 32767, 32768, 65534, 65535}
	vzCase("setup", func() {
		for _, x := range xs {
			for _, c := range cs {
				for _, g := range gs {
					vzCases++
					lo, hi := uint16(vzRnd.Intn(65536)), uint16(vzRnd.Intn(65536))
					p, err := Setup(x, c, g, lo, hi, ap)
					want := int(g)-1-int(x)-int(c) >= 1 && c <= 256
					if !vzCheck((err == nil) == want, "Setup(%d, %d, %d, ...): error %v, usable %v", x, c, g, err, want) || err != nil {
						continue
					}
					ok := p.Bx == x && p.Bc == c && p.Bg == g && p.Bb == int(g)-1-int(x)-int(c) && p.RangeLo == lo && p.RangeHi == hi &&
						vzSnapGP(p.GFF) == vzSnapGP(ap.GFF) && vzSnapGP(p.GEC) == vzSnapGP(ap.GEC)
					vzCheck(ok, "Setup(%d, %d, %d, %d, %d): other parameters kept than requested: %d %d %d %d %d %d", x, c, g, lo, hi, p.Bx, p.Bc, p.Bg, p.Bb, p.RangeLo, p.RangeHi)
				}
			}
		}
	})
}

func vzSnapGP(p GroupParameters) string { return vzSnap(p.G, p.H, p.N, p.F, p.I) }

func vzSnapParams(p ProofParams) string {
	return fmt.Sprint(p.Bx, p.Bc, p.Bg, p.Bb, p.RangeLo, p.RangeHi) + vzSnapGP(p.GFF) + vzSnapGP(p.GEC)
}

func vzSnapProof(p SigmaProof) string {
	return vzSnap(p.W, p.Kp, p.Kq1, p.Kq2, p.Challenge, p.Z, p.Sp, p.Sq1, p.Sq2) + vzSnapParams(p.Params)
}

func TestVerifC18(t *testing.T) {
	defer vzDone()
	for _, c := range vzConfs() {
		p := c.params
		for _, m := range append(vzSecrets(p, 1), vzInt(-1)) {
			rp, rq1, rq2 := vzBlind(p.GFF.N), vzBlind(p.GEC.N), vzBlind(p.GEC.N)
			what := fmt.Sprintf("%s, secret %s, blinding %s, %s, %s", c.name, m, vzClip(rp.String()), rq1, rq2)
			vzCase(what, func() {
				before := vzSnap(m, rp, rq1, rq2) + vzSnapParams(p)
				pr := Prove(m, rp, rq1, rq2, p)
				vzCheck(before == vzSnap(m, rp, rq1, rq2)+vzSnapParams(p), "%s: proving modifies its inputs", what)
				x := vzStatement(m, rp, rq1, rq2, p)
				for k := 0; k < 2; k++ {
					y := x
					q := pr
					if k == 1 {
						q.Sq2 = vzAdd(q.Sq2, vzInt(1))
					}
					b := vzSnapProof(q) + vzSnap(y.Y, y.Xp, y.Xq1, y.Xq2)
					r1 := q.Verify(y)
					vzCheck(b == vzSnapProof(q)+vzSnap(y.Y, y.Xp, y.Xq1, y.Xq2), "%s: verification modifies the proof or the statement", what)
					r2 := q.Verify(y)
					vzCheck(r1 == r2 && (r1 == (k == 0) || m.Sign() < 0), "%s: verifies as %v, then as %v", what, r1, r2)
					vzCheck(before == vzSnap(m, rp, rq1, rq2)+vzSnapParams(p), "%s: verification modifies the parameters", what)
				}
			})
		}
	}
}

func TestVerifC12(t *testing.T) {
	defer vzDone()
	for _, c := range vzConfs() {
		p := c.params
		for k, m := range vzSecrets(p, vzN(0, 8)) {
			rp, rq1, rq2 := vzBlind(p.GFF.N), vzBlind(p.GEC.N), vzBlind(p.GEC.N)
			what := fmt.Sprintf("%s, proof of %s", c.name, m)
			vzCase(what, func() {
				pr := Prove(m, rp, rq1, rq2, p)
				x := vzStatement(m, rp, rq1, rq2, p)
				switch k {
				case 1:
					pr.Kp, pr.Kq1 = p.GFF.I.Identity(), p.GEC.I.Identity()
					pr.Sp = vzInt(-7)
					pr.Sq1 = vzInt(0)
				}
				ok := pr.Verify(x)
				b, err := json.Marshal(pr)
				if !vzCheck(err == nil, "%s: %v", what, err) {
					return
				}
				r, err := ProofUnmarshalJSON(b, p.GFF.I, p.GEC.I)
				if !vzCheck(err == nil, "%s: %v", what, err) {
					return
				}
				vzCheck(vzSnapProof(pr) == vzSnapProof(r), "%s: the decoded proof differs", what)
				vzCheck(ok == r.Verify(x), "%s: the decoded proof verifies differently", what)
			})
		}
	}
}

func TestVerifC13(t *testing.T) {
	defer vzDone()
	for _, c := range vzConfs() {
		p := c.params
		pr := Prove(vzInt(1), vzInt(2), vzInt(3), vzInt(4), p)
		doc := vzJSON(pr)
		vzAlterDoc(doc, p.GEC.I, func(name, alt string, needed bool) {
			what := fmt.Sprintf("%s, consistency proof with %s", c.name, name)
			vzCase(what, func() {
				r, err := ProofUnmarshalJSON([]byte(alt), p.GFF.I, p.GEC.I)
				if err != nil {
					return
				}
				vzCheck(!needed, "%s: accepted", what)
				var x, y map[string]any
				vzUnmarshal(alt, &x)
				vzUnmarshal(vzJSON(r), &y)
				delete(x, "Params")
				delete(y, "Params")
				vzSameDoc(what, x, y)
			})
		})
	}
}

// ---- randomness ----

type vzReader struct{ reads [][]byte }

func (r *vzReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(vzRnd.Intn(256))
	}
	r.reads = append(r.reads, append([]byte{}, b...))
	return len(b), nil
}

func TestVerifC19(t *testing.T) {
	defer vzDone()
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for _, c := range vzConfs() {
		p := c.params
		ff, ec := p.GFF, p.GEC
		_, hi := vzBounds(p)
		tops := map[string]*big.Int{}
		seen := map[string]string{}
		runs := 40
		if ff.I.P().BitLen() > 1000 {
			runs = vzN(6, 40)
		}
		for i := 0; i < runs; i++ {
			m := vzSecrets(p, 1)[i%4]
			rp, rq1, rq2 := vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
			what := fmt.Sprintf("%s, proof of %s", c.name, m)
			vzCase(what, func() {
				rd := &vzReader{}
				rand.Reader = rd
				pr := Prove(m, rp, rq1, rq2, p)
				rand.Reader = old
				got := 0
				for _, x := range rd.reads {
					got += 8 * len(x)
				}
				need := ff.N.BitLen() + 2*ec.N.BitLen() + hi.BitLen() - 1
				vzCheck(got >= need, "%s: %d bits from the cryptographic source where the blinding takes %d", what, got, need)
				mask := func(s, r, q *big.Int) *big.Int {
					d := vzAdd(s, vzNeg(vzMul(pr.Challenge, r)))
					if q != nil {
						d.Mod(d, q)
					}
					return d
				}
				ds := map[string]*big.Int{"tp": mask(pr.Sp, rp, ff.N), "tq1": mask(pr.Sq1, rq1, ec.N), "tq2": mask(pr.Sq2, rq2, ec.N), "k": mask(pr.Z, m, nil)}
				for n, d := range ds {
					if d.BitLen() > 40 {
						if o, ok := seen[d.String()]; ok {
							vzFail("%s: mask %s equals %s, of this or an earlier proof", what, n, o)
						}
						seen[d.String()] = n
					}
					if tops[n] == nil || tops[n].Cmp(d) < 0 {
						tops[n] = d
					}
				}
			})
		}
		if runs < 40 {
			continue
		}
		for n, q := range map[string]*big.Int{"tp": ff.N, "tq1": ec.N, "tq2": ec.N, "k": hi} {
			// 40 uniform draws all in the lower half: probability 2^-40
			vzCheck(tops[n] != nil && vzMul(tops[n], vzInt(2)).Cmp(q) > 0, "%s: in %d proofs mask %s never exceeds half of its range", c.name, runs, n)
		}
	}
}

// ---- challenges ----

func TestVerifC17(t *testing.T) {
	defer vzDone()
	for _, c := range vzConfs() {
		p := c.params
		ff, ec := p.GFF, p.GEC
		if p.Bc < 64 {
			continue
		}
		what := c.name
		vzCase(what, func() {
			rp, rq1, rq2 := vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
			x := vzStatement(vzInt(1), rp, rq1, rq2, p)
			pr := Prove(vzInt(1), rp, rq1, rq2, p)
			vzCheck(pr.Challenge.Cmp(vzChallenge(x, pr.W, pr.Kp, pr.Kq1, pr.Kq2, p.Bc)) == 0, "%s: the challenge of a proof is not that of its statement and first move", what)
			// elements close to those of the transcript have another challenge
			ch := vzChallenge(x, pr.W, pr.Kp, pr.Kq1, pr.Kq2, p.Bc)
			if ff.I.P().BitLen() < 128 || ch.Cmp(pr.Challenge) != 0 {
				return
			}
			for i, e := range []group.Element{x.Y, x.Xp, pr.W, pr.Kp} {
				for _, sh := range []uint{0, uint(ff.I.P().BitLen() / 2), uint(ff.I.P().BitLen() - 12)} {
					v, ok := new(big.Int).SetString(vzJSON(e), 10)
					near := ff.I.Element()
					for k := 0; ok && k < 60; k++ {
						v.Add(v, new(big.Int).Lsh(vzInt(1), sh))
						if near.UnmarshalJSON([]byte(v.String())) == nil {
							el := []group.Element{x.Y, x.Xp, pr.W, pr.Kp}
							el[i] = near
							c2 := vzChallenge(VerCommitments{Y: el[0], Xp: el[1], Xq1: x.Xq1, Xq2: x.Xq2}, el[2], el[3], pr.Kq1, pr.Kq2, p.Bc)
							vzCheck(c2.Cmp(ch) != 0, "%s: the same challenge for %s in place of %s", what, vzJSON(near), vzJSON(e))
							break
						}
					}
				}
			}
		})
		// If the challenge left out a part of the statement or of the first move, that part could be chosen last.
		lo, _ := vzBounds(p)
		names := []string{"the statement Y", "the statement Xp", "the statement Xq1", "the statement Xq2", "W", "Kp", "Kq1", "Kq2"}
		for k := 0; k <= len(names); k++ {
			for v := 0; v < 2; v++ {
				vzCase(what, func() {
					gs := []group.Group{ff.I, ff.I, ec.I, ec.I}
					out := map[int]bool{k: true}
					part := "the statement (Y, Xp, Xq1, Xq2)"
					if k == len(names) {
						out = map[int]bool{0: true, 1: true, 2: true, 3: true}
					} else {
						part = names[k]
					}
					m, r, u, b := vzInt(0), vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
					z, tp, t1, t2 := vzAdd(lo, vzBelow(lo)), vzBelow(ff.N), vzBelow(ec.N), vzBelow(ec.N)
					x := vzStatement(m, r, u, b, p)
					pr := vzRun(p, x, m, r, u, b, z, tp, t1, t2)
					e := []group.Element{x.Y, x.Xp, x.Xq1, x.Xq2, pr.W, pr.Kp, pr.Kq1, pr.Kq2}
					for i := range out {
						// arbitrary, of unknown secrets
						e[(i+4)%8] = gs[i%4].Element().BaseScale(vzBelow(gs[i%4].N()))
					}
					var text []group.Element
					for i, y := range e {
						if !out[i] {
							text = append(text, y)
						} else if v == 1 {
							text = append(text, gs[i%4].Identity())
						}
					}
					ch := vzCut(p.Bc, text...)
					resp := func(t, r, q *big.Int) *big.Int { s := vzAdd(t, vzMul(ch, r)); return s.Mod(s, q) }
					pr.Challenge, pr.Sp, pr.Sq1, pr.Sq2 = ch, resp(tp, r, ff.N), resp(t1, u, ec.N), resp(t2, b, ec.N)
					left := []group.Element{vzSum(ff.I, pr.Sp, ff.I.Generator()), vzPed(z, pr.Sp, ff), vzPed(z, pr.Sq1, ec), vzPed(z, pr.Sq2, ec)}
					for i := range out {
						g := gs[i%4]
						if i >= 4 {
							e[i] = vzSum(g, vzInt(1), left[i-4], vzNeg(ch), e[i-4])
						} else if ci := new(big.Int).ModInverse(ch, g.N()); ci != nil {
							e[i] = vzSum(g, ci, left[i], vzNeg(ci), e[i+4])
						}
					}
					x = VerCommitments{Y: e[0], Xp: e[1], Xq1: e[2], Xq2: e[3]}
					pr.W, pr.Kp, pr.Kq1, pr.Kq2 = e[4], e[5], e[6], e[7]
					if pr.Verify(x) {
						vzFail("SigmaProof.Verify: the challenges depend on %s: accepted for %s chosen after the challenge, response %s", part, part, pr.Z)
					}
				})
			}
		}
	}
}
