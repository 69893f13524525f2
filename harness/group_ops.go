package group

import (
	"fmt"
	"math/big"
	"testing"
)

func vzAll() []Group {
	return append(vzCurves(), vzModP(), NewModPGroup("small", "17", "2"), NewModPGroup("tiny", "7", "2"), NewModPGroup("small", "17", "3"), NewModPGroup("tiny", "7", "4"))
}

// vzScalars: corner cases and random values, of every sign and size.
func vzScalars(q *big.Int, n int) []*big.Int {
	one := vzInt(1)
	r := []*big.Int{vzInt(0), vzInt(1), vzInt(2), vzInt(3), vzInt(-1), vzInt(-2), new(big.Int).Set(q), new(big.Int).Sub(q, one), new(big.Int).Add(q, one),
		vzNeg(q), new(big.Int).Lsh(q, 1), new(big.Int).Lsh(one, 128), new(big.Int).Lsh(one, 256), new(big.Int).Rsh(q, 1)}
	for i := 0; i < n; i++ {
		x := vzBelow(new(big.Int).Lsh(q, uint(i%3)*40))
		if i%2 == 1 {
			x.Neg(x)
		}
		r = append(r, x)
	}
	return r
}

type vzMaker struct {
	name string
	f    func(g Group, v *big.Int) Element
}

// vzIs: e is the v-th multiple of the generator, seen from both sides.
func vzIs(g Group, e Element, v *big.Int) bool {
	w := g.Element().BaseScale(new(big.Int).Mod(v, g.N()))
	zero := new(big.Int).Mod(v, g.N()).Sign() == 0
	return e.IsEqual(w) && w.IsEqual(e) && e.String() == w.String() && e.IsIdentity() == zero
}

func vzMakers() []vzMaker {
	base := func(g Group, v *big.Int) Element { return g.Element().BaseScale(v) }
	return []vzMaker{
		{"BaseScale", base},
		{"Scale", func(g Group, v *big.Int) Element { return g.Element().Scale(g.Generator(), v) }},
		{"Add", func(g Group, v *big.Int) Element {
			return g.Element().Add(base(g, vzAdd(v, vzInt(-5))), base(g, vzInt(5)))
		}},
		{"Add identity", func(g Group, v *big.Int) Element { return g.Element().Add(base(g, v), g.Identity()) }},
		{"Subtract", func(g Group, v *big.Int) Element {
			return g.Element().Subtract(base(g, vzAdd(v, vzInt(7))), base(g, vzInt(7)))
		}},
		{"Negate", func(g Group, v *big.Int) Element { return g.Element().Negate(base(g, vzNeg(v))) }},
		{"Set", func(g Group, v *big.Int) Element { return g.Element().Set(base(g, v)) }},
		{"JSON", func(g Group, v *big.Int) Element {
			b, err := base(g, v).MarshalJSON()
			if err != nil {
				panic(err)
			}
			e := g.Element()
			if err := e.UnmarshalJSON(b); err != nil {
				panic(err)
			}
			return e
		}},
		{"constant", func(g Group, v *big.Int) Element {
			switch r := new(big.Int).Mod(v, g.N()); {
			case r.Sign() == 0:
				return g.Identity()
			case r.Cmp(vzInt(1)) == 0:
				return g.Generator()
			}
			return base(g, v)
		}},
	}
}

// vzWriters: every way of giving an existing element another value.
type vzWriter struct {
	name string
	f    func(e Element)
}

func vzWriters(g Group) []vzWriter {
	nine := func() Element { return g.Element().BaseScale(vzInt(9)) }
	bin := func() []byte { b, _ := nine().MarshalBinary(); return b }
	return []vzWriter{
		{"BaseScale", func(e Element) { e.BaseScale(vzInt(9)) }},
		{"Scale", func(e Element) { e.Scale(e, vzInt(2)) }},
		{"Set", func(e Element) { e.Set(nine()) }},
		{"Negate", func(e Element) { e.Negate(e) }},
		{"Add", func(e Element) { e.Add(e, g.Generator()) }},
		{"Subtract", func(e Element) { e.Subtract(e, nine()) }},
		{"UnmarshalJSON", func(e Element) { e.UnmarshalJSON([]byte(vzJSON(nine()))) }},
		{"UnmarshalBinary", func(e Element) { e.UnmarshalBinary(bin()) }},
		{"SetBytes", func(e Element) { e.SetBytes(bin()) }},
	}
}

// vzHistory: what an operation gives does not depend on what was done before it
// to earlier results, to other elements or to the other copy of the group.
func vzHistory(g, h Group, pick func() *big.Int) {
	q := g.N()
	type op struct {
		name string
		f    func(g Group, a, b *big.Int) (Element, []Element)
		want func(a, b *big.Int) *big.Int
	}
	base := func(g Group, v *big.Int) Element { return g.Element().BaseScale(v) }
	ops := []op{
		{"BaseScale", func(g Group, a, b *big.Int) (Element, []Element) { return base(g, a), nil }, func(a, b *big.Int) *big.Int { return a }},
		{"Scale", func(g Group, a, b *big.Int) (Element, []Element) {
			x := base(g, a)
			return g.Element().Scale(x, b), []Element{x}
		}, func(a, b *big.Int) *big.Int { return vzMul(a, b) }},
		{"Scale of the generator", func(g Group, a, b *big.Int) (Element, []Element) {
			x := g.Generator()
			return g.Element().Scale(x, b), []Element{x}
		}, func(a, b *big.Int) *big.Int { return b }},
		{"Add", func(g Group, a, b *big.Int) (Element, []Element) {
			x, y := base(g, a), base(g, b)
			return g.Element().Add(x, y), []Element{x, y}
		}, func(a, b *big.Int) *big.Int { return vzAdd(a, b) }},
		{"Add identity", func(g Group, a, b *big.Int) (Element, []Element) {
			x, y := base(g, a), g.Identity()
			return g.Element().Add(x, y), []Element{x, y}
		}, func(a, b *big.Int) *big.Int { return a }},
		{"Subtract", func(g Group, a, b *big.Int) (Element, []Element) {
			x, y := base(g, a), base(g, b)
			return g.Element().Subtract(x, y), []Element{x, y}
		}, func(a, b *big.Int) *big.Int { return vzAdd(a, vzNeg(b)) }},
		{"Negate", func(g Group, a, b *big.Int) (Element, []Element) {
			x := base(g, a)
			return g.Element().Negate(x), []Element{x}
		}, func(a, b *big.Int) *big.Int { return vzNeg(a) }},
		{"Set", func(g Group, a, b *big.Int) (Element, []Element) {
			x := base(g, a)
			return g.Element().Set(x), []Element{x}
		}, func(a, b *big.Int) *big.Int { return a }},
		{"Generator", func(g Group, a, b *big.Int) (Element, []Element) { return g.Generator(), nil }, func(a, b *big.Int) *big.Int { return vzInt(1) }},
		{"Identity", func(g Group, a, b *big.Int) (Element, []Element) { return g.Identity(), nil }, func(a, b *big.Int) *big.Int { return vzInt(0) }},
	}
	ws := vzWriters(g)
	for _, o := range ops {
		for _, wr := range ws {
			wn, w := wr.name, wr.f
			a, b := vzBelow(q), vzBelow(q)
			if q.BitLen() < 1000 {
				a, b = pick(), pick()
			}
			what := g.Name() + " " + o.name + " of " + a.String() + " and " + b.String() + ", repeated after " + wn + " on the first result and its operands"
			vzCase(what, func() {
				r, xs := o.f(g, a, b)
				r2, _ := o.f(g, a, b)
				// writing an operand does not reach the result, nor the other way round
				for _, x := range xs {
					w(x)
				}
				vzCheck(vzIs(g, r, o.want(a, b)), "%s: writing an operand changes the result", what)
				w(r)
				vzCheck(vzIs(g, r2, o.want(a, b)), "%s: an earlier result of the same operation changes", what)
				r3, _ := o.f(g, a, b)
				vzCheck(vzIs(g, r3, o.want(a, b)), "%s: the result is wrong", what)
				// the other copy, and other operands
				r4, _ := o.f(h, a, b)
				vzCheck(vzIs(h, r4, o.want(a, b)) && vzIs(g, r4, o.want(a, b)), "%s: the result in the group made again is wrong", what)
				r5, _ := o.f(g, b, a)
				vzCheck(vzIs(g, r5, o.want(b, a)), "%s: the result for the operands swapped is wrong", what)
				vzCheck(vzIs(g, r4, o.want(a, b)) && vzIs(g, r3, o.want(a, b)), "%s: an earlier result changes", what)
			})
		}
	}
	if _, mod := g.(*ModPGroup); mod {
		return
	}
	for _, wr := range ws {
		wn, w := wr.name, wr.f
		vzCase(g.Name()+" hashing again", func() {
			for _, s := range []string{"a", "BulletproofsDoesNotNeedTrustedSetupH"} {
				first, err1 := g.Element().MapToGroup(s)
				text := first.String()
				x := g.Element()
				second, err2 := x.MapToGroup(s)
				w(first)
				third, err3 := h.Element().MapToGroup(s)
				w(x)
				fourth, err4 := g.Generator().MapToGroup(s)
				vzCheck(err1 == nil && err2 == nil && err3 == nil && err4 == nil && third.String() == text && fourth.String() == text, "%s: hashing %q gives another element after %s on an earlier result", g.Name(), s, wn)
				vzCheck(second == x || second.String() == text, "%s: the hash of %q changes with %s on another", g.Name(), s, wn)
			}
		})
	}
}

// vzClose: elements whose representations differ in few digits, at either end, are different.
func vzClose(g Group) {
	if _, mod := g.(*ModPGroup); !mod || g.P().BitLen() < 64 {
		return
	}
	p := g.P()
	residue := func(v *big.Int) bool {
		return v.Sign() > 0 && v.Cmp(p) < 0 && big.Jacobi(v, p) == 1
	}
	make := func(v *big.Int) Element {
		e := g.Element()
		if err := e.UnmarshalJSON([]byte(v.String())); err != nil {
			panic(err)
		}
		return e
	}
	for i := 0; i < vzN(6, 60); i++ {
		v := vzBelow(p)
		for !residue(v) {
			v.Add(v, vzInt(1))
		}
		for sh := 0; sh < p.BitLen()-1; sh += 1 + vzRnd.Intn(p.BitLen()/4) {
			d := new(big.Int).Lsh(vzInt(1), uint(sh))
			w := vzAdd(v, d)
			for k := 0; k < 40 && !residue(w); k++ {
				w.Add(w, d)
			}
			if !residue(w) {
				continue
			}
			vzCase(g.Name()+" close values", func() {
				x, y := make(v), make(w)
				vzCheck(!x.IsEqual(y) && !y.IsEqual(x), "%s: %s and %s are said to be equal", g.Name(), v, w)
				vzCheck(x.String() != y.String(), "%s: %s and %s have the same textual form", g.Name(), v, w)
				b, err1 := x.MarshalBinary()
				c, err2 := y.MarshalBinary()
				vzCheck(err1 == nil && err2 == nil && string(b) != string(c) && vzJSON(x) != vzJSON(y), "%s: %s and %s have the same encoding", g.Name(), v, w)
			})
		}
	}
}

func TestVerifC11(t *testing.T) {
	defer vzDone()
	ms := vzMakers()
	twins := vzAll()
	for gi, g := range vzAll() {
		q := g.N()
		vzCase(g.Name()+" made twice", func() {
			h := twins[gi]
			a, b := vzBelow(q), vzBelow(q)
			x, y := g.Element().BaseScale(a), h.Element().BaseScale(b)
			vzCheck(vzIs(g, g.Element().Add(x, y), vzAdd(a, b)), "%s made twice: the sum of %s·G of the one and %s·G of the other is wrong", g.Name(), a, b)
			vzCheck(x.IsEqual(h.Element().BaseScale(a)), "%s made twice: %s·G of the one does not equal that of the other", g.Name(), a)
		})
		n := vzN(6, 60)
		if q.BitLen() > 1000 {
			n = vzN(2, 12)
		}
		sc := vzScalars(q, n)
		pick := func() *big.Int { return sc[vzRnd.Intn(len(sc))] }
		intact := func(what string) {
			vzCheck(vzIs(g, g.Generator(), vzInt(1)) && vzIs(g, g.Identity(), vzInt(0)), "%s: constants changed by %s", g.Name(), what)
		}
		for _, m := range ms {
			for _, a := range sc {
				vzCase(g.Name()+" value", func() {
					x := m.f(g, a)
					vzCheck(vzIs(g, x, a), "%s: %s(%s) is not that multiple of the generator", g.Name(), m.name, a)
					vzCheck(x.GroupOrder().Cmp(q) == 0 && x.FieldOrder().Cmp(g.P()) == 0, "%s: orders", g.Name())
				})
			}
		}
		for i := 0; i < vzN(60, 1500); i++ {
			if q.BitLen() > 1000 && i > vzN(8, 100) {
				break
			}
			a, b := pick(), pick()
			if i%5 == 0 {
				b = a
			} else if i%5 == 1 {
				b = vzNeg(a)
			}
			m1, m2 := ms[vzRnd.Intn(len(ms))], ms[vzRnd.Intn(len(ms))]
			ops := []struct {
				name string
				f    func(r, x, y Element) Element
				want *big.Int
			}{
				{"Add", func(r, x, y Element) Element { return r.Add(x, y) }, vzAdd(a, b)},
				{"Subtract", func(r, x, y Element) Element { return r.Subtract(x, y) }, vzAdd(a, vzNeg(b))},
				{"Negate", func(r, x, y Element) Element { return r.Negate(x) }, vzNeg(a)},
				{"Set", func(r, x, y Element) Element { return r.Set(x) }, a},
				{"Scale", func(r, x, y Element) Element { return r.Scale(x, b) }, vzMul(a, b)},
				{"BaseScale", func(r, x, y Element) Element { return r.BaseScale(b) }, b},
			}
			for _, o := range ops {
				for al := 0; al < 4; al++ {
					what := g.Name() + " " + o.name + " of " + a.String() + " (" + m1.name + ") and " + b.String() + " (" + m2.name + "), aliasing " + []string{"none", "left", "right", "same operand"}[al]
					vzCase(what, func() {
						x, y := m1.f(g, a), m2.f(g, b)
						want := o.want
						if al == 3 {
							y = x
							if o.name == "Add" {
								want = vzAdd(a, a)
							} else if o.name == "Subtract" {
								want = vzInt(0)
							}
						}
						var r Element
						switch al {
						case 0, 3:
							r = g.Element()
						case 1:
							r = x
						case 2:
							r = y
						}
						bs := b.String()
						ret := o.f(r, x, y)
						vzCheck(ret == r, "%s: does not return the receiver", what)
						vzCheck(vzIs(g, r, want), "%s: wrong result", what)
						vzCheck(b.String() == bs, "%s: scalar modified", what)
						vzCheck(r == x || vzIs(g, x, a), "%s: left operand modified", what)
						vzCheck(r == y || al == 3 || vzIs(g, y, b), "%s: right operand modified", what)
						// writing the result again must not reach the operands
						r.Negate(r)
						r.Add(r, g.Generator())
						vzCheck(r == x || vzIs(g, x, a), "%s: left operand shares state with the result", what)
						vzCheck(r == y || al == 3 || vzIs(g, y, b), "%s: right operand shares state with the result", what)
						r.Set(g.Generator())
						intact(what)
					})
				}
			}
			vzCase(g.Name()+" equality", func() {
				x, y := m1.f(g, a), m2.f(g, b)
				same := new(big.Int).Mod(vzAdd(a, vzNeg(b)), q).Sign() == 0
				vzCheck(x.IsEqual(y) == same && y.IsEqual(x) == same, "%s: IsEqual of %s (%s) and %s (%s)", g.Name(), a, m1.name, b, m2.name)
				vzCheck((x.String() == y.String()) == same, "%s: textual form of %s (%s) and %s (%s)", g.Name(), a, m1.name, b, m2.name)
			})
		}
		vzClose(g)
		vzHistory(g, twins[gi], pick)
		vzCase(g.Name()+" constants", func() {
			for _, f := range []func() Element{g.Generator, g.Identity, g.Element} {
				for _, w := range []func(Element){func(e Element) { e.BaseScale(vzInt(9)) }, func(e Element) { e.Set(g.Element().BaseScale(vzInt(9))) },
					func(e Element) { e.Negate(g.Element().BaseScale(vzInt(9))) }, func(e Element) { e.Add(g.Generator(), g.Generator()) },
					func(e Element) { e.UnmarshalJSON([]byte(vzJSON(g.Element().BaseScale(vzInt(9))))) },
					func(e Element) { b, _ := g.Element().BaseScale(vzInt(9)).MarshalBinary(); e.UnmarshalBinary(b) },
					func(e Element) { b, _ := g.Element().BaseScale(vzInt(9)).MarshalBinary(); e.SetBytes(b) }} {
					w(f())
					intact("writing an element")
				}
			}
			x := g.Random()
			d := g.Element().Subtract(x, x)
			vzCheck(d.IsIdentity(), "%s: x - x is not the identity", g.Name())
			o := g.Element().Scale(x, vzAdd(q, vzInt(1)))
			vzCheck(o.IsEqual(x), "%s: a random element has the wrong order", g.Name())
		})
		if _, mod := g.(*ModPGroup); !mod {
			vzCase(g.Name()+" hashing", func() {
				seen := map[string]bool{}
				for _, s := range []string{"", "a", "b", "ab", "BulletproofsDoesNotNeedTrustedSetupH"} {
					h1, err := g.Element().MapToGroup(s)
					h2, _ := g.Generator().MapToGroup(s)
					vzCheck(err == nil && h1.IsEqual(h2), "%s: hashing %q is not deterministic", g.Name(), s)
					vzCheck(!seen[h1.String()] && !h1.IsIdentity(), "%s: hashing %q collides", g.Name(), s)
					vzCheck(g.Element().Scale(h1, vzAdd(q, vzInt(1))).IsEqual(h1), "%s: hash of %q is not in the group", g.Name(), s)
					seen[h1.String()] = true
					intact("hashing")
				}
			})
		}
	}
	// groups used in turn do not influence each other
	for i := 0; i < vzN(60, 600); i++ {
		all := twins[4:]
		g, h := all[vzRnd.Intn(len(all))], all[vzRnd.Intn(len(all))]
		a, b := vzInt(int64(vzRnd.Intn(12))), vzInt(int64(vzRnd.Intn(12)))
		vzCase("groups in turn", func() {
			gen := func(g Group) *big.Int { return vzBig(vzJSON(g.Generator())) }
			val := func(g Group, k *big.Int) string {
				return new(big.Int).Exp(gen(g), new(big.Int).Mod(k, g.N()), g.P()).String()
			}
			what := fmt.Sprintf("groups modulo %s (generator %s) and %s (generator %s) in turn, scalars %s and %s", vzClip(g.P().String()), gen(g), vzClip(h.P().String()), gen(h), a, b)
			x, y := g.Element().BaseScale(a), h.Element().BaseScale(a)
			u, v := g.Element().Scale(g.Generator(), b), h.Element().Scale(h.Generator(), b)
			vzCheck(vzJSON(x) == val(g, a) && vzJSON(y) == val(h, a) && vzJSON(u) == val(g, b) && vzJSON(v) == val(h, b), "%s: wrong multiples", what)
			s, t := g.Element().Add(x, u), h.Element().Add(y, v)
			vzCheck(vzJSON(s) == val(g, vzAdd(a, b)) && vzJSON(t) == val(h, vzAdd(a, b)), "%s: wrong sums", what)
			s, t = g.Element().Subtract(x, u), h.Element().Subtract(y, v)
			vzCheck(vzJSON(s) == val(g, vzAdd(a, vzNeg(b))) && vzJSON(t) == val(h, vzAdd(a, vzNeg(b))), "%s: wrong differences", what)
			vzCheck(g.Identity().IsIdentity() && h.Identity().IsIdentity() && vzIs(g, g.Generator(), vzInt(1)) && vzIs(h, h.Generator(), vzInt(1)), "%s: wrong constants", what)
		})
	}
	orders := map[string]string{
		"P-256":        "0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
		"P-384":        "0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
		"ristretto255": "0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed",
		"secp256k1":    "0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
	}
	fields := map[string]string{
		"P-256":        "0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
		"P-384":        "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
		"ristretto255": "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed",
		"secp256k1":    "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
	}
	for _, g := range vzCurves() {
		vzCase("orders", func() {
			vzCheck(g.N().Cmp(vzBig(orders[g.Name()])) == 0, "%s: group order %x", g.Name(), g.N())
			vzCheck(g.P().Cmp(vzBig(fields[g.Name()])) == 0, "%s: field order %x", g.Name(), g.P())
		})
	}
	vzCase("orders", func() {
		g := vzModP()
		vzCheck(new(big.Int).Add(vzMul(vzInt(2), g.N()), vzInt(1)).Cmp(g.P()) == 0 && g.P().ProbablyPrime(4) && g.N().ProbablyPrime(4), "safe-prime group: orders")
	})
}
