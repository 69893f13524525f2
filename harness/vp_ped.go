package voteproof

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC14(t *testing.T) {
	defer vzDone()
	for _, g := range append(vzCurves(), vzModP()) {
		q := g.N()
		gp := GroupParameters{G: g.Generator(), H: g.Element().BaseScale(vzBelow(q)), N: g.N(), F: g.P(), I: g}
		vals := []*big.Int{vzInt(0), vzInt(-1), vzBelow(q), vzAdd(q, vzInt(3)), vzBelow(vzMul(q, q))}
		if g.P().BitLen() > 1000 {
			vals = vals[:3]
		}
		for _, x := range vals {
			for _, r := range vals {
				what := fmt.Sprintf("%s, commitment to %s under %s", g.Name(), vzClip(x.String()), vzClip(r.String()))
				vzCase(what, func() {
					before := vzSnap(x, r, gp.H, gp.G)
					c := pedersenCommit(x, r, gp)
					vzCheck(c.IsEqual(vzSum(g, x, g.Generator(), r, gp.H)), "%s differs from its definition", what)
					vzCheck(before == vzSnap(x, r, gp.H, gp.G), "%s: an input is modified", what)
				})
			}
		}
	}
}
