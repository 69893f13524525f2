package group

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
)

func vzValues(g Group, n int) []*big.Int {
	q := g.N()
	r := []*big.Int{vzInt(0), vzInt(1), vzInt(2), vzInt(-1)}
	for i := 0; i < n; i++ {
		r = append(r, vzBelow(q))
	}
	return r
}

// vzShortCoordinates: multiples of the generator whose encoding has leading zeros in a coordinate.
func vzShortCoordinates(g Group, n int) []*big.Int {
	var r []*big.Int
	for i := int64(1); i < int64(n); i++ {
		b, _ := g.Element().BaseScale(vzInt(i)).MarshalBinary()
		if len(b) > 60 && (b[0] == 0 || b[1] == 0 || b[len(b)/2] == 0 || b[len(b)/2+1] == 0) {
			r = append(r, vzInt(i))
		}
	}
	return r
}

func TestVerifC12(t *testing.T) {
	defer vzDone()
	for _, g := range append(vzCurves(), vzModP(), NewModPGroup("small", "17", "2")) {
		vs := vzValues(g, vzN(8, 100))
		if g.P().BitLen() < 1000 {
			vs = append(vs, vzShortCoordinates(g, vzN(600, 5000))...)
		}
		makers := []func(v *big.Int) Element{
			func(v *big.Int) Element { return g.Element().BaseScale(v) },
			func(v *big.Int) Element { return g.Element().Add(g.Element().BaseScale(v), g.Identity()) },
			func(v *big.Int) Element {
				return g.Element().Subtract(g.Element().BaseScale(vzAdd(v, vzInt(3))), g.Element().BaseScale(vzInt(3)))
			},
			func(v *big.Int) Element { return g.Element().Set(g.Element().BaseScale(v)) },
			func(v *big.Int) Element {
				if v.Sign() == 0 {
					return g.Identity()
				}
				return g.Element().Scale(g.Generator(), v)
			},
		}
		switch g.Name() {
		case "P-256", "P-384", "secp256k1":
			vzUnusual(g)
		}
		for _, v := range vs {
			for mi, mk := range makers {
				for _, form := range []string{"JSON", "binary", "bytes"} {
					for ri, recv := range []func() Element{g.Element, g.Generator, g.Identity, g.Random} {
						if mi > 0 && ri > 1 {
							continue
						}
						what := fmt.Sprintf("%s, multiple %s, %s, maker %d, receiver %d", g.Name(), v, form, mi, ri)
						vzCase(what, func() {
							x := mk(v)
							before := x.String()
							y := recv()
							var b []byte
							var err error
							if form == "JSON" {
								b, err = x.MarshalJSON()
							} else {
								b, err = x.MarshalBinary()
							}
							if !vzCheck(err == nil, "%s: cannot encode: %v", what, err) {
								return
							}
							enc := string(b)
							switch form {
							case "JSON":
								err = y.UnmarshalJSON(b)
							case "binary":
								err = y.UnmarshalBinary(b)
							default:
								y.SetBytes(b)
							}
							vzCheck(err == nil, "%s: cannot decode %q: %v", what, vzClip(enc), err)
							vzCheck(y.IsEqual(x) && x.IsEqual(y) && y.String() == before && x.String() == before && y.IsIdentity() == x.IsIdentity(), "%s: decodes to another element", what)
							// the decoded element does not depend on the buffer
							for i := range b {
								b[i] = 0
							}
							vzCheck(y.String() == before, "%s: the decoded element shares the buffer", what)
							s := g.Element().Add(y, g.Generator())
							vzCheck(s.IsEqual(g.Element().BaseScale(vzAdd(v, vzInt(1)))), "%s: the decoded element does not add up", what)
							vzCheck(g.Generator().IsEqual(g.Element().BaseScale(vzInt(1))) && g.Identity().IsIdentity(), "%s: constants changed", what)
						})
					}
				}
			}
		}
	}
}

// vzPoint: a point of a short Weierstrass curve with this first coordinate.
func vzPoint(g Group, x *big.Int) *big.Int {
	p := g.P()
	a, b := vzCoefficients(g)
	r := vzAdd(vzMul(x, x, x), vzMul(a, x), b)
	return new(big.Int).ModSqrt(r.Mod(r, p), p)
}

// vzUnusual checks the points whose coordinates are next to zero or to the field order.
func vzUnusual(g Group) {
	w := (g.P().BitLen() + 7) / 8
	for i := int64(-8); i < int64(vzN(24, 300)); i++ {
		x := vzInt(i)
		if i < 0 {
			x = vzAdd(g.P(), x)
		}
		y0 := vzPoint(g, x)
		if y0 == nil {
			continue
		}
		for _, y := range []*big.Int{y0, vzAdd(g.P(), vzNeg(y0))} {
			what := fmt.Sprintf("%s, the point with X = %s", g.Name(), x)
			vzCase(what, func() {
				b := append(x.FillBytes(make([]byte, w)), y.FillBytes(make([]byte, w))...)
				if g.Name() != "secp256k1" {
					b = append([]byte{4}, b...)
				}
				e := g.Element()
				err := e.UnmarshalBinary(b)
				if !vzCheck(err == nil && !e.IsIdentity(), "%s: binary refused: %v", what, err) {
					return
				}
				c, err := e.MarshalBinary()
				vzCheck(err == nil && string(c) == string(b), "%s: binary comes out as %x", what, c)
				j, err := e.MarshalJSON()
				vzCheck(err == nil, "%s: no JSON: %v", what, err)
				f := g.Element()
				err = f.UnmarshalJSON(j)
				if vzCheck(err == nil, "%s: JSON refused: %v", what, err) {
					vzCheck(f.IsEqual(e) && e.IsEqual(f) && f.String() == e.String(), "%s: JSON decodes to another element", what)
					vzCheck(g.Element().Subtract(f, e).IsIdentity(), "%s: JSON decodes to another element", what)
				}
			})
		}
	}
}

func vzCoefficients(g Group) (a, b *big.Int) {
	switch g.Name() {
	case "P-256":
		a, b = vzInt(-3), vzBig("0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")
	case "P-384":
		a, b = vzInt(-3), vzBig("0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef")
	case "secp256k1":
		a, b = vzInt(0), vzInt(7)
	}
	return
}

// vzOnCurve: y^2 = x^3 + ax + b over the field of the short Weierstrass curves.
func vzOnCurve(g Group, x, y *big.Int) bool {
	p := g.P()
	a, b := vzCoefficients(g)
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(p) >= 0 || y.Cmp(p) >= 0 {
		return false
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return true // the identity
	}
	d := vzAdd(vzMul(x, x, x), vzMul(a, x), b, vzNeg(vzMul(y, y)))
	return d.Mod(d, p).Sign() == 0
}

func TestVerifC13(t *testing.T) {
	defer vzDone()
	// decode tries one document; want says whether it denotes an element, and which
	decode := func(g Group, doc string, want Element, binary bool) {
		what := fmt.Sprintf("%s decoding %s", g.Name(), vzClip(fmt.Sprintf("%q", doc)))
		for ri, recv := range []func() Element{g.Element, g.Generator} {
			vzCase(what, func() {
				y := recv()
				before := y
				var err error
				if binary {
					err = y.UnmarshalBinary([]byte(doc))
				} else {
					err = y.UnmarshalJSON([]byte(doc))
				}
				_ = before
				if want == nil {
					vzCheck(err != nil, "%s: accepted", what)
				} else if vzCheck(err == nil, "%s: refused: %v", what, err) {
					vzCheck(y.IsEqual(want), "%s: decodes to another element", what)
				}
				vzCheck(g.Generator().IsEqual(g.Element().BaseScale(vzInt(1))), "%s: generator changed (receiver %d)", what, ri)
			})
		}
	}
	junk := []string{"", "null", "true", "{}", "[]", `""`, "0.5", "1e3", `"x"`, `{"X":null,"Y":null}`, `{"X":1}`, `{"Y":1}`, `{"X":null,"Y":1}`, `{"X":1,"Y":null}`, `{"X":"1","Y":"2"}`, "[1,2]", "{", `{"X":1,"Y":`}
	for _, g := range vzCurves() {
		if g.Name() == "ristretto255" {
			continue
		}
		for _, d := range junk {
			decode(g, d, nil, false)
		}
		p := g.P()
		pt := func(x, y *big.Int) string { return fmt.Sprintf(`{"X":%s,"Y":%s}`, x, y) }
		for i := 0; i < vzN(12, 200); i++ {
			k := vzBelow(g.N())
			if i < 4 {
				k = vzInt(int64(i))
			}
			e := g.Element().BaseScale(k)
			var c ECPoint
			vzMustJSON(vzJSON(e), &c)
			x, y := c.X, c.Y
			one := vzInt(1)
			if i < 6 {
				// one coordinate with up to forty extra bytes in front, the other as it should be
				w := uint(8 * ((p.BitLen() + 7) / 8))
				for _, top := range []int64{1, 2, 3, 4, 0x80, 0x0401, 0x040000} {
					for _, extra := range []uint{0, 8, 16, w - 8, w, 320} {
						far := new(big.Int).Lsh(vzInt(top), w+extra)
						for _, xy := range [][2]*big.Int{{vzAdd(x, far), y}, {x, vzAdd(y, far)}, {vzAdd(x, far), vzAdd(y, far)}, {far, y}, {x, far}} {
							decode(g, pt(xy[0], xy[1]), nil, false)
						}
					}
				}
			}
			for _, xy := range [][2]*big.Int{{x, y}, {x, vzAdd(y, one)}, {vzAdd(x, one), y}, {vzAdd(x, p), y}, {x, vzAdd(y, p)}, {vzNeg(x), y}, {x, vzNeg(y)}, {y, x}, {x, vzInt(0)}, {vzInt(0), y},
				{vzAdd(x, vzNeg(p)), y}, {x, vzAdd(p, vzNeg(y))}, {vzAdd(x, new(big.Int).Lsh(one, uint(8*((p.BitLen()+7)/8)))), y}, {x, vzAdd(y, new(big.Int).Lsh(one, 600))}, {p, p}, {p, vzInt(0)}, {vzInt(0), p}} {
				if vzOnCurve(g, xy[0], xy[1]) {
					var want Element
					switch {
					case xy[0].Sign() == 0 && xy[1].Sign() == 0:
						want = g.Identity()
					case xy[1].Cmp(y) == 0 && xy[0].Cmp(x) == 0:
						want = e
					case xy[0].Cmp(x) == 0:
						want = g.Element().Negate(e)
					default:
						continue
					}
					decode(g, pt(xy[0], xy[1]), want, false)
				} else {
					decode(g, pt(xy[0], xy[1]), nil, false)
				}
			}
		}
	}
	// binary encodings: truncated, extended, altered ones never denote another element
	for _, g := range append(vzCurves(), vzModP()) {
		for i := 0; i < vzN(6, 60); i++ {
			e := g.Element().BaseScale(vzBelow(g.N()))
			b, _ := e.MarshalBinary()
			for _, d := range []string{string(b[:len(b)-1]), string(b) + "\x00", string(b[1:]), "", "\x04", "\x05", "\x02"} {
				what := fmt.Sprintf("%s binary decoding of %d bytes", g.Name(), len(d))
				vzCase(what, func() {
					y := g.Element()
					if y.UnmarshalBinary([]byte(d)) == nil {
						c, err := y.MarshalBinary()
						_, isModP := g.(*ModPGroup)
						vzCheck(err == nil && (string(c) == d || isModP && string(c) == strings.TrimLeft(d, "\x00")), "%s: accepted %x as %x", what, vzClip(d), vzClip(string(c)))
						vzCheck(g.Element().Scale(y, vzAdd(g.N(), vzInt(1))).IsEqual(y), "%s: accepted a value outside the group", what)
					}
				})
			}
		}
	}
	// ristretto255: the canonical 32-byte encodings only
	r := Ristretto255()
	for _, d := range append(junk, `"AAAA"`, `"`+strings.Repeat("A", 44)+`"`, `"////////////////////////////////////////////"`, `"/////////////////////////////////////////w=="`) {
		if d == `"`+strings.Repeat("A", 44)+`"` {
			continue
		}
		decode(r, d, nil, false)
	}
	decode(r, `"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="`, r.Identity(), false)
	// the safe-prime group: quadratic residues only
	for _, g := range []Group{vzModP(), NewModPGroup("small", "17", "2")} {
		p := g.P()
		for _, d := range []string{"", "{}", "[]", "true", "0.5", `"x"`, "{", "-", "1 2"} {
			decode(g, d, nil, false)
		}
		cand := []*big.Int{vzInt(0), vzInt(-1), vzInt(-2), new(big.Int).Set(p), vzAdd(p, vzInt(1)), vzAdd(p, vzInt(-1)), vzAdd(p, vzInt(4)), vzInt(1), vzInt(2), vzInt(3), vzInt(4), vzInt(5), vzInt(6), vzInt(7), vzInt(9)}
		for i := 0; i < vzN(10, 100); i++ {
			cand = append(cand, vzBelow(vzMul(p, vzInt(2))))
		}
		for _, v := range cand {
			member := v.Sign() > 0 && v.Cmp(p) < 0 && new(big.Int).Exp(v, g.N(), p).Cmp(vzInt(1)) == 0
			if member {
				e := g.Element()
				e.SetBytes(v.Bytes())
				decode(g, v.String(), e, false)
			} else {
				decode(g, v.String(), nil, false)
				if v.Sign() >= 0 {
					decode(g, string(v.Bytes()), nil, true)
				}
			}
		}
	}
}

func vzMustJSON(s string, v any) {
	if err := vzUnmarshal(s, v); err != nil {
		panic(err)
	}
}
