package main

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

const vzKey = 13 // the election's private key, in setup

type vzElection struct {
	name string
	pp   PublicParameters
}

func vzElections() []vzElection {
	var r []vzElection
	for _, g := range vzCurves() {
		pp, err := setup(g)
		if err != nil {
			vzFail("setup over %s: %v", g.Name(), err)
			continue
		}
		r = append(r, vzElection{g.Name(), pp})
	}
	return r
}

// vzRange sets another candidate range.
func vzRange(pp PublicParameters, lo, hi uint16) PublicParameters {
	pp.candidateMin, pp.candidateMax = lo, hi
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = lo, hi
	return pp
}

// vzPlain: the number encrypted is in the range (and only found there)
func vzPlain(pp PublicParameters, c ElGamalCiphertext, lo, hi uint16) int {
	g := pp.FFGroupParams.I
	m := vzSum(g, vzInt(1), c.V, vzInt(-vzKey), c.U)
	x := g.Element().BaseScale(vzInt(int64(lo)))
	for k := int(lo); k <= int(hi); k++ {
		if x.IsEqual(m) {
			return k
		}
		x = g.Element().Add(x, g.Generator())
	}
	return -1
}

func TestVerifC01(t *testing.T) {
	defer vzDone()
	for ei, e := range vzElections() {
		ranges := [][2]uint16{{101, 2000}, {101, 2000}, {0, 1}, {101, 103}, {65533, 65535}, {0, 65535}, {32767, 32769}, {7, 8}, {65534, 65535}, {1, 256}}
		if ei > 0 && !vzThorough() {
			ranges = [][2]uint16{{101, 2000}, {65533, 65535}}
		}
		for k, r := range ranges {
			pp := e.pp
			if k > 0 {
				pp = vzRange(pp, r[0], r[1])
			} else {
				r = [2]uint16{pp.candidateMin, pp.candidateMax}
			}
			n := vzN(1, 6)
			if k == 0 {
				n = vzN(4, 20)
			}
			for i := 0; i < n; i++ {
				what := fmt.Sprintf("%s, candidates %d to %d", e.name, r[0], r[1])
				vzCase(what, func() {
					bd, _ := castVote(pp)
					ok, _ := verifyVote(bd, pp.RPParams)
					m := vzPlain(pp, bd.Ballot, r[0], r[1])
					vzCheck(ok, "%s: honest ballot for %d rejected", what, m)
					vzCheck(m >= 0, "%s: the ballot encrypts no candidate's number", what)
				})
			}
		}
		vzCheck(e.pp.candidateMin == e.pp.RPParams.RangeLo && e.pp.candidateMax == e.pp.RPParams.RangeHi, "%s: casting and verification use different ranges", e.name)
	}
}

// ---- acceptance ----

// vzVote is a ballot for m as castVote makes it; the range proofs are for a and b.
func vzVote(pp PublicParameters, m, a, b int64) BallotData {
	c, rp := encryptVote(uint16(m), pp.EGPK, pp.FFGroupParams.I)
	p1, r1, _ := bulletproofs.Prove(vzInt(a), pp.BPParams)
	p2, r2, _ := bulletproofs.Prove(vzInt(b), pp.BPParams)
	return BallotData{Ballot: c, BpLower: p1, BpUpper: p2, VoteProof: voteproof.Prove(vzInt(m), rp, r1, vzNeg(r2), pp.RPParams)}
}

// vzCounts: each proof on its own, the consistency proof for the shifted commitments under the election's parameters.
func vzCounts(bd BallotData, rp voteproof.ProofParams) bool {
	g, one := rp.GEC.I, vzInt(1)
	x := voteproof.VerCommitments{Y: bd.Ballot.U, Xp: bd.Ballot.V,
		Xq1: vzSum(g, one, bd.BpLower.V, vzInt(int64(rp.RangeLo)), g.Generator()),
		Xq2: vzSum(g, vzInt(-1), bd.BpUpper.V, vzInt(int64(rp.RangeHi)), g.Generator())}
	ok1, _ := bd.BpLower.Verify()
	ok2, _ := bd.BpUpper.Verify()
	vp := bd.VoteProof
	vp.Params = rp
	return ok1 && ok2 && vp.Verify(x)
}

func TestVerifC09(t *testing.T) {
	defer vzDone()
	for ei, e := range vzElections() {
		if ei > 1 && !vzThorough() {
			break
		}
		pp := e.pp
		lo, hi := int64(pp.RPParams.RangeLo), int64(pp.RPParams.RangeHi)
		judge := func(what string, bd BallotData, want int) {
			what = e.name + ": " + what
			vzCase(what, func() {
				got, _ := verifyVote(bd, pp.RPParams)
				w := vzCounts(bd, pp.RPParams)
				vzCheck(got == w, "%s: verifyVote says %v, the proofs say %v", what, got, w)
				if want >= 0 {
					vzCheck(got == (want == 1), "%s: verifyVote says %v", what, got)
				}
			})
		}
		good := vzVote(pp, lo+5, 5, hi-lo-5)
		other := vzVote(pp, lo+9, 9, hi-lo-9)
		judge("honest ballot", good, 1)
		judge("ballot for the lowest candidate", vzVote(pp, lo, 0, hi-lo), 1)
		judge("ballot for the highest candidate", vzVote(pp, hi, hi-lo, 0), 1)
		judge("number below the lowest", vzVote(pp, lo-1, 65535, hi-lo+1), 0)
		judge("number below the lowest, negative", vzVote(pp, lo-1, -1, hi-lo+1), 0)
		judge("number above the highest", vzVote(pp, hi+1, hi+1-lo, -1), 0)
		judge("number above the highest, wrapped", vzVote(pp, hi+1, hi+1-lo, 65535), 0)
		judge("number far above", vzVote(pp, 65535, 65535-lo, hi), 0)
		judge("zero", vzVote(pp, 0, 0, hi), 0)
		judge("lower proof for another number", vzVote(pp, lo+5, 6, hi-lo-5), 0)
		judge("upper proof for another number", vzVote(pp, lo+5, 5, hi-lo-6), 0)
		judge("both proofs for another number", vzVote(pp, lo+5, 6, hi-lo-6), 0)
		judge("both proofs for another sum", vzVote(pp, hi+500, 500, 0), 0)
		mix := func(what string, want int, f func(bd *BallotData)) {
			bd := good
			f(&bd)
			judge(what, bd, want)
		}
		g := pp.RPParams.GEC.I
		ff := pp.RPParams.GFF.I
		mix("ciphertext of another ballot", 0, func(bd *BallotData) { bd.Ballot = other.Ballot })
		mix("lower proof of another ballot", 0, func(bd *BallotData) { bd.BpLower = other.BpLower })
		mix("upper proof of another ballot", 0, func(bd *BallotData) { bd.BpUpper = other.BpUpper })
		mix("both range proofs of another ballot", 0, func(bd *BallotData) { bd.BpLower, bd.BpUpper = other.BpLower, other.BpUpper })
		mix("consistency proof of another ballot", 0, func(bd *BallotData) { bd.VoteProof = other.VoteProof })
		mix("range proofs exchanged", 0, func(bd *BallotData) { bd.BpLower, bd.BpUpper = bd.BpUpper, bd.BpLower })
		mix("lower proof twice", 0, func(bd *BallotData) { bd.BpUpper = bd.BpLower })
		mix("upper proof twice", 0, func(bd *BallotData) { bd.BpLower = bd.BpUpper })
		mix("ciphertext components exchanged", 0, func(bd *BallotData) { bd.Ballot.U, bd.Ballot.V = bd.Ballot.V, bd.Ballot.U })
		mix("U altered", 0, func(bd *BallotData) { bd.Ballot.U = ff.Element().Add(bd.Ballot.U, ff.Generator()) })
		mix("V altered", 0, func(bd *BallotData) { bd.Ballot.V = ff.Element().Add(bd.Ballot.V, ff.Generator()) })
		mix("only the lower range proof broken", 0, func(bd *BallotData) { bd.BpLower.Mu = vzAdd(bd.BpLower.Mu, vzInt(1)) })
		mix("only the lower range proof's evaluation broken", 0, func(bd *BallotData) { bd.BpLower.Tprime = vzAdd(bd.BpLower.Tprime, vzInt(1)) })
		mix("only the upper range proof broken", 0, func(bd *BallotData) { bd.BpUpper.Mu = vzAdd(bd.BpUpper.Mu, vzInt(1)) })
		mix("only the upper range proof's argument broken", 0, func(bd *BallotData) {
			bd.BpUpper.InnerProductProof.A = vzAdd(bd.BpUpper.InnerProductProof.A, vzInt(1))
		})
		mix("lower commitment altered", 0, func(bd *BallotData) { bd.BpLower.V = g.Element().Add(bd.BpLower.V, g.Generator()) })
		mix("upper commitment altered", 0, func(bd *BallotData) { bd.BpUpper.V = g.Element().Add(bd.BpUpper.V, g.Generator()) })
		mix("both range proofs without rounds", 0, func(bd *BallotData) {
			bd.BpLower.InnerProductProof.L, bd.BpLower.InnerProductProof.R = nil, nil
		})
		mix("response altered", 0, func(bd *BallotData) { bd.VoteProof.Z = vzAdd(bd.VoteProof.Z, vzInt(1)) })
		mix("Sp altered", 0, func(bd *BallotData) { bd.VoteProof.Sp = vzAdd(bd.VoteProof.Sp, vzInt(1)) })
		mix("Sq1 altered", 0, func(bd *BallotData) { bd.VoteProof.Sq1 = vzAdd(bd.VoteProof.Sq1, vzInt(1)) })
		mix("Sq2 altered", 0, func(bd *BallotData) { bd.VoteProof.Sq2 = vzAdd(bd.VoteProof.Sq2, vzInt(1)) })
		mix("challenge altered", 0, func(bd *BallotData) { bd.VoteProof.Challenge = vzAdd(bd.VoteProof.Challenge, vzInt(1)) })
		// parameters of the voter's choice make no difference, and do not help
		emb := func(what string, f func(p *voteproof.ProofParams)) {
			mix("embedded: "+what, 1, func(bd *BallotData) { f(&bd.VoteProof.Params) })
			p2 := pp
			f(&p2.RPParams)
			if p2.RPParams.GFF.I != nil && p2.RPParams.GEC.I != nil && p2.RPParams.Bb > 0 && p2.RPParams.GFF.H != nil && p2.RPParams.GEC.H != nil && p2.RPParams.GFF.N != nil && p2.RPParams.GEC.N != nil {
				judge("proved under the voter's own parameters: "+what, vzVote(p2, lo+5, 5, hi-lo-5), -1)
			}
		}
		emb("none at all", func(p *voteproof.ProofParams) { *p = voteproof.ProofParams{} })
		emb("another range", func(p *voteproof.ProofParams) { p.RangeLo, p.RangeHi = 0, 65535 })
		emb("a shorter challenge", func(p *voteproof.ProofParams) { p.Bc = 8; p.Bb = 231 })
		emb("no challenge", func(p *voteproof.ProofParams) { p.Bc = 0 })
		emb("more room", func(p *voteproof.ProofParams) { p.Bb = 2000 })
		emb("a smaller secret", func(p *voteproof.ProofParams) { p.Bx = 0 })
		emb("another key", func(p *voteproof.ProofParams) { p.GFF.H = ff.Element().BaseScale(vzInt(4)) })
		emb("another commitment base", func(p *voteproof.ProofParams) { p.GEC.H = g.Element().BaseScale(vzInt(4)) })
		emb("the key and the base the identity", func(p *voteproof.ProofParams) { p.GFF.H, p.GEC.H = ff.Identity(), g.Identity() })
		// an encryption under another key, and a number out of range with the range the voter embeds
		p2 := pp
		p2.RPParams.GFF.H = ff.Element().BaseScale(vzInt(4))
		p2.EGPK = p2.RPParams.GFF.H
		judge("encrypted and proved under another key", vzVote(p2, lo+5, 5, hi-lo-5), 0)
		p3 := vzRange(pp, 0, 65535)
		judge("number outside the range, proved for a range of the voter's", vzVote(p3, 1, 1, 65534), 0)
		p4 := vzRange(pp, uint16(lo), uint16(hi)+1)
		judge("number above the highest, proved for a range of the voter's", vzVote(p4, hi+1, hi+1-lo, 0), 0)
		p5 := vzRange(pp, uint16(lo)-1, uint16(hi))
		judge("number below the lowest, proved for a range of the voter's", vzVote(p5, lo-1, 0, hi-lo+1), 0)
		// the election may set its bounds as it likes: verification follows them
		for _, r := range [][2]uint16{{0, 65535}, {65535, 65535}, {0, 0}, {32768, 40000}} {
			q := vzRange(pp, r[0], r[1])
			m := int64(r[1])
			bd := vzVote(q, m, m-int64(r[0]), 0)
			what := fmt.Sprintf("%s: range %d to %d", e.name, r[0], r[1])
			vzCase(what, func() {
				ok, _ := verifyVote(bd, q.RPParams)
				vzCheck(ok, "%s: ballot for %d rejected", what, m)
				ok, _ = verifyVote(bd, pp.RPParams)
				vzCheck(!ok, "%s: accepted under the election's range", what)
			})
		}
		for ri, r := range [][2]uint16{{0, 65535}, {0, 0}, {40000, 300}, {1, 0}, {32767, 32768}, {0, 1}, {65534, 65535}} {
			if ei > 0 && ri > 2 {
				break
			}
			q := vzRange(pp, r[0], r[1])
			lo, hi := int64(r[0]), int64(r[1])
			judge := func(what string, bd BallotData, want bool) {
				what = fmt.Sprintf("%s: range %d to %d: %s", e.name, lo, hi, what)
				vzCase(what, func() {
					got, _ := verifyVote(bd, q.RPParams)
					vzCheck(got == want && got == vzCounts(bd, q.RPParams), "%s: verifyVote says %v, the proofs say %v", what, got, vzCounts(bd, q.RPParams))
				})
			}
			good := vzVote(q, lo, 0, hi-lo)
			judge("ballot for the lowest", good, hi >= lo)
			judge("no upper bound", vzVote(q, lo, 0, 0), hi == lo)
			judge("no lower bound", vzVote(q, hi, 0, 0), hi == lo)
			judge("both bounds the lower one", vzVote(q, hi, hi-lo, hi-lo), hi == lo)
			bd := good
			bd.BpUpper.Mu = vzAdd(bd.BpUpper.Mu, vzInt(1))
			judge("only the upper range proof broken", bd, false)
			bd = good
			bd.BpLower.Mu = vzAdd(bd.BpLower.Mu, vzInt(1))
			judge("only the lower range proof broken", bd, false)
			bd = good
			bd.BpUpper.V = bd.BpLower.V
			judge("the lower commitment for the upper one", bd, false)
		}
	}
}

// ---- encryption ----

func TestVerifC10(t *testing.T) {
	defer vzDone()
	modp := vzModP()
	small := vzgroupSmall()
	for gi, g := range append(vzCurves(), modp, small) {
		choices := []uint16{0, 1, 101, 2000, 255, 256, 32767, 32768, 65535}
		if gi == 4 && !vzThorough() {
			choices = []uint16{0, 101, 65535}
		}
		for _, choice := range choices {
			for k, key := range []*big.Int{vzBelow(g.N()), vzInt(0), vzInt(1), vzAdd(g.N(), vzInt(-1))} {
				pk := g.Element().BaseScale(key)
				what := fmt.Sprintf("%s, choice %d, private key %s", g.Name(), choice, vzClip(key.String()))
				if gi == 4 && k > 1 {
					continue
				}
				vzCase(what, func() {
					c, r := encryptVote(choice, pk, g)
					vzCheck(r.Sign() > 0 && r.Cmp(g.N()) < 0, "%s: nonce %s", what, r)
					vzCheck(c.U.IsEqual(vzSum(g, r, g.Generator())), "%s: U is not the nonce times the generator", what)
					vzCheck(c.V.IsEqual(vzSum(g, vzInt(int64(choice)), g.Generator(), r, pk)), "%s: V is not the choice plus the mask", what)
					m := vzSum(g, vzInt(1), c.V, vzNeg(key), c.U)
					vzCheck(m.IsEqual(g.Element().BaseScale(vzInt(int64(choice)))), "%s: decrypts to something else", what)
					_, r2 := encryptVote(choice, pk, g)
					vzCheck(g == small || r.Cmp(r2) != 0, "%s: the same nonce twice", what)
				})
			}
		}
	}
	seen := map[string]int{}
	pk := small.Element().BaseScale(vzInt(3))
	vzCase("nonces", func() {
		for i := 0; i < 600; i++ {
			_, r := encryptVote(5, pk, small)
			seen[r.String()]++
		}
		for k := int64(1); k < 11; k++ {
			vzCheck(seen[vzInt(k).String()] > 0, "group of order 11: nonce %d never drawn in 600 encryptions", k)
			delete(seen, vzInt(k).String())
		}
		vzCheck(len(seen) == 0, "group of order 11: nonces outside 1 to 10: %v", seen)
	})
	// full range in a large group: 40 draws in the lower half have probability 2^-40
	for _, g := range []group.Group{group.P256(), modp} {
		top := vzInt(0)
		pk := g.Element().BaseScale(vzInt(3))
		vzCase("range of the nonce", func() {
			for i := 0; i < 40; i++ {
				_, r := encryptVote(5, pk, g)
				if r.Cmp(top) > 0 {
					top = r
				}
			}
			vzCheck(vzMul(top, vzInt(2)).Cmp(g.N()) > 0, "%s: in 40 encryptions the nonce never exceeds half the order", g.Name())
		})
	}
	vzCase("source of the nonce", func() {
		old := rand.Reader
		defer func() { rand.Reader = old }()
		n := 0
		rand.Reader = vzCount{&n}
		g := group.P256()
		_, r := encryptVote(5, g.Element().BaseScale(vzInt(3)), g)
		vzCheck(8*n >= 256, "the nonce %s takes %d bits from the cryptographic source", r, 8*n)
	})
}

type vzCount struct{ n *int }

func (c vzCount) Read(b []byte) (int, error) {
	*c.n += len(b)
	for i := range b {
		b[i] = byte(vzRnd.Intn(256))
	}
	return len(b), nil
}

func vzgroupSmall() group.Group { return group.NewModPGroup("order 11", "17", "2") }

// ---- codec ----

func vzSnapBallot(bd BallotData) string {
	bp := func(p bulletproofs.BulletProof) string {
		i := p.InnerProductProof
		return vzSnap(p.V, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, i.P, i.Cc, i.A, i.B, i.L, i.R, i.Params.Gg, i.Params.Hh, i.Params.Uu) +
			vzSnap(p.Params.N, p.Params.G, p.Params.H, p.Params.Gg, p.Params.Hh, p.Params.GP)
	}
	v := bd.VoteProof
	return vzSnap(bd.Ballot.U, bd.Ballot.V) + bp(bd.BpLower) + bp(bd.BpUpper) + vzSnap(v.W, v.Kp, v.Kq1, v.Kq2, v.Challenge, v.Z, v.Sp, v.Sq1, v.Sq2) + vzSnapRP(v.Params)
}

func vzSnapRP(p voteproof.ProofParams) string {
	return fmt.Sprint(p.Bx, p.Bc, p.Bg, p.Bb, p.RangeLo, p.RangeHi) + vzSnap(p.GFF.G, p.GFF.H, p.GFF.N, p.GFF.F, p.GFF.I, p.GEC.G, p.GEC.H, p.GEC.N, p.GEC.F, p.GEC.I)
}

func vzSnapPP(pp PublicParameters) string {
	return vzSnap(pp.EGPK, int(pp.candidateMin), int(pp.candidateMax), pp.BPParams.N, pp.BPParams.G, pp.BPParams.H, pp.BPParams.Gg, pp.BPParams.Hh, pp.BPParams.GP, pp.FFGroupParams.H, pp.FFGroupParams.G, pp.FFGroupParams.N, pp.FFGroupParams.F, pp.ECGroupParams.H, pp.ECGroupParams.G, pp.ECGroupParams.N) + vzSnapRP(pp.RPParams)
}

func TestVerifC12(t *testing.T) {
	defer vzDone()
	for _, e := range vzElections() {
		pp := e.pp
		for i := 0; i < vzN(2, 5); i++ {
			vzCase(e.name, func() {
				bd, _ := castVote(pp)
				if i == 1 {
					bd.Ballot.U = pp.FFGroupParams.I.Identity()
					bd.BpUpper.V = pp.ECGroupParams.I.Identity()
				}
				b, err := json.Marshal(bd)
				if !vzCheck(err == nil, "%s: ballot: %v", e.name, err) {
					return
				}
				r, err := BallotDataUnmarshalJSON(b, pp)
				if !vzCheck(err == nil, "%s: ballot: %v", e.name, err) {
					return
				}
				vzCheck(vzSnapBallot(bd) == vzSnapBallot(r), "%s: the decoded ballot differs", e.name)
				ok1, _ := verifyVote(bd, pp.RPParams)
				ok2, _ := verifyVote(r, pp.RPParams)
				vzCheck(ok1 == ok2 && ok1 == (i != 1), "%s: the ballot verifies as %v, the decoded one as %v", e.name, ok1, ok2)
			})
		}
	}
	for _, g := range append(vzCurves(), vzModP()) {
		vals := []*big.Int{vzInt(0), vzInt(1), vzBelow(g.N()), vzAdd(g.N(), vzInt(-1))}
		for _, x := range vals {
			for _, y := range vals {
				what := fmt.Sprintf("%s, ciphertext of logarithms %s, %s", g.Name(), vzClip(x.String()), vzClip(y.String()))
				vzCase(what, func() {
					c := ElGamalCiphertext{U: g.Element().BaseScale(x), V: g.Element().BaseScale(y)}
					b, err := json.Marshal(c)
					if !vzCheck(err == nil, "%s: %v", what, err) {
						return
					}
					r, err := BallotUnmarshalJSON(b, g)
					vzCheck(err == nil && r.U.IsEqual(c.U) && r.V.IsEqual(c.V), "%s: decodes to something else (%v)", what, err)
				})
			}
		}
	}
}

func TestVerifC13(t *testing.T) {
	defer vzDone()
	for ei, e := range vzElections() {
		if ei > 0 && !vzThorough() {
			break
		}
		pp := e.pp
		bd, _ := castVote(pp)
		n := 0
		vzAlterDoc(vzJSON(bd), pp.ECGroupParams.I, func(name, alt string, needed bool) {
			n++
			if n%3 != 0 && len(name) > 30 && !vzThorough() {
				return
			}
			what := fmt.Sprintf("%s, ballot with %s", e.name, name)
			vzCase(what, func() {
				r, err := BallotDataUnmarshalJSON([]byte(alt), pp)
				if err != nil {
					return
				}
				vzCheck(!needed, "%s: accepted", what)
				var x, y map[string]any
				vzUnmarshal(alt, &x)
				vzUnmarshal(vzJSON(r), &y)
				vzSameDoc(what, x, y)
			})
		})
	}
	for _, g := range append(vzCurves(), vzModP()) {
		c := ElGamalCiphertext{U: g.Element().BaseScale(vzInt(5)), V: g.Element().BaseScale(vzInt(6))}
		vzAlterDoc(vzJSON(c), g, func(name, alt string, needed bool) {
			what := fmt.Sprintf("%s, ciphertext with %s", g.Name(), name)
			vzCase(what, func() {
				r, err := BallotUnmarshalJSON([]byte(alt), g)
				if err != nil {
					return
				}
				vzCheck(!needed, "%s: accepted", what)
				var x, y map[string]any
				vzUnmarshal(alt, &x)
				vzUnmarshal(vzJSON(r), &y)
				vzSameDoc(what, x, y)
			})
		})
	}
}

// ---- setup ----

type vzShort struct {
	group.Group
	n *big.Int
}

func (g vzShort) N() *big.Int { return new(big.Int).Set(g.n) }

func TestVerifC16(t *testing.T) {
	defer vzDone()
	base := group.P256()
	for _, bits := range []uint{8, 100, 200, 239, 240, 241, 242, 243, 253, 256, 384, 521} {
		n := new(big.Int).Sub(new(big.Int).Lsh(vzInt(1), bits), vzInt(1))
		what := fmt.Sprintf("election over a group whose order has %d bits", bits)
		vzCase(what, func() {
			pp, err := setup(vzShort{base, n})
			room := int(bits) - 1 - 16 - 224
			vzCheck((err == nil) == (room >= 1), "%s: error %v, %d bits of room", what, err, room)
			if err == nil {
				vzCheck(pp.RPParams.Bb == room && pp.RPParams.Bx == 16 && pp.RPParams.Bc == 224 && int(pp.RPParams.Bg) == int(bits), "%s: lengths %d %d %d %d", what, pp.RPParams.Bx, pp.RPParams.Bc, pp.RPParams.Bg, pp.RPParams.Bb)
			}
		})
	}
	for _, e := range vzElections() {
		pp := e.pp
		vzCheck(pp.EGPK.IsEqual(pp.RPParams.GFF.H), "%s: encryption and proof use different keys", e.name)
		vzCheck(pp.BPParams.H.IsEqual(pp.RPParams.GEC.H), "%s: range proofs and consistency proofs use different bases", e.name)
		vzCheck(pp.BPParams.N == 16 && len(pp.BPParams.Gg) == 16 && len(pp.BPParams.Hh) == 16, "%s: %d bits", e.name, pp.BPParams.N)
	}
}

func TestVerifC18(t *testing.T) {
	defer vzDone()
	for ei, e := range vzElections() {
		pp := e.pp
		for i := 0; i < vzN(1+(4-ei)/4, 4); i++ {
			vzCase(e.name, func() {
				before := vzSnapPP(pp)
				encryptVote(777, pp.EGPK, pp.FFGroupParams.I)
				vzCheck(before == vzSnapPP(pp), "%s: encrypting modifies the parameters", e.name)
				bd, _ := castVote(pp)
				vzCheck(before == vzSnapPP(pp), "%s: casting modifies the parameters", e.name)
				b := vzSnapBallot(bd)
				ok1, _ := verifyVote(bd, pp.RPParams)
				vzCheck(b == vzSnapBallot(bd), "%s: verification modifies the ballot", e.name)
				ok2, _ := verifyVote(bd, pp.RPParams)
				vzCheck(ok1 && ok2, "%s: the same ballot verifies as %v, then as %v", e.name, ok1, ok2)
				vzCheck(before == vzSnapPP(pp), "%s: verification modifies the parameters", e.name)
				bad := bd
				bad.VoteProof.Sq1 = vzAdd(bad.VoteProof.Sq1, vzInt(1))
				b = vzSnapBallot(bad)
				ok1, _ = verifyVote(bad, pp.RPParams)
				ok2, _ = verifyVote(bad, pp.RPParams)
				vzCheck(!ok1 && !ok2 && b == vzSnapBallot(bad), "%s: a broken ballot verifies as %v, %v, or is modified", e.name, ok1, ok2)
			})
		}
	}
}
