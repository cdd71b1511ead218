package main

// Provers of the harness: they follow the protocols' equations with whatever
// values they are told to use, honest or not.

import (
	"crypto/sha256"
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func bi(x int64) *big.Int { return big.NewInt(x) }

// twoSquares writes a prime p = 1 mod 4 as a sum of two squares
func twoSquares(p *big.Int) (*big.Int, *big.Int) {
	m1 := new(big.Int).Sub(p, bi(1))
	r := new(big.Int).ModSqrt(m1, p)
	if r == nil {
		return nil, nil
	}
	a, b := new(big.Int).Set(p), r
	s := new(big.Int).Sqrt(p)
	for b.Cmp(s) > 0 {
		a, b = b, new(big.Int).Mod(a, b)
	}
	c := new(big.Int).Mod(a, b)
	if new(big.Int).Add(new(big.Int).Mul(b, b), new(big.Int).Mul(c, c)).Cmp(p) != 0 {
		return nil, nil
	}
	return b, c
}

// threeSquares writes 4x+1 as a sum of three squares, for large x
func threeSquares(x *big.Int) (a, b, d *big.Int) {
	n := new(big.Int).Add(new(big.Int).Mul(x, bi(4)), bi(1))
	if x.BitLen() < 20 {
		g := n.Int64()
		for a := int64(0); a*a <= g; a++ {
			for b := int64(0); a*a+b*b <= g; b++ {
				c := new(big.Int).Sqrt(bi(g - a*a - b*b)).Int64()
				if a*a+b*b+c*c == g {
					return bi(a), bi(b), bi(c)
				}
			}
		}
		return nil, nil, nil
	}
	s := newPRF(prfKey("three squares", x))
	max := new(big.Int).Sqrt(n)
	for {
		a := random.Int(max, s)
		a.Rsh(a, 1).Lsh(a, 1)
		p := new(big.Int).Sub(n, new(big.Int).Mul(a, a))
		if p.Sign() > 0 && p.ProbablyPrime(8) {
			if b, d := twoSquares(p); b != nil {
				return a, b, d
			}
		}
	}
}

func nonnegE(commitx, c, cr, crx *big.Int) *big.Int {
	h := sha256.New()
	for _, x := range []*big.Int{commitx, c, cr, crx} {
		h.Write(x.Bytes())
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

type foGroup struct{ b *fujiokam.FujiOkamBase }

func (g foGroup) prod(exps map[*fujiokam.Point]*big.Int) *big.Int {
	r := bi(1)
	for p, e := range exps {
		v := new(big.Int).Exp(&p.V, e, g.b.N)
		if v == nil {
			panic("harness: no inverse")
		}
		r.Mul(r, v).Mod(r, g.b.N)
	}
	return r
}

func (g foGroup) secret() *big.Int {
	s := random.Int(g.b.RandomDiameter, random.Stream)
	return s.Sub(s, g.b.RandomRadius)
}

// proveNonneg follows the argument's equations for x committed with rc, with the
// given squares, whatever they are
func proveNonneg(base *fujiokam.FujiOkamBase, x, commitx, rc, a, b, d, dDelta *big.Int) *fujiokam.ARGnonneg {
	g := foGroup{base}
	rx, ra, rb, rd, r, rr, rrx := g.secret(), g.secret(), g.secret(), g.secret(), g.secret(), g.secret(), g.secret()
	mul := func(l ...*big.Int) *big.Int {
		p := bi(1)
		for _, y := range l {
			p.Mul(p, y)
		}
		return p
	}
	delta := mul(bi(4), rx)
	delta.Sub(delta, mul(bi(2), a, ra)).Sub(delta, mul(bi(2), b, rb)).Sub(delta, mul(bi(2), d, rd)).Add(delta, dDelta)
	C := g.prod(map[*fujiokam.Point]*big.Int{base.G2: x, base.G3: a, base.G4: b, base.G5: d, base.G6: delta, base.H1: r})
	sq := new(big.Int).Neg(mul(ra, ra))
	sq.Sub(sq, mul(rb, rb)).Sub(sq, mul(rd, rd))
	Cr := g.prod(map[*fujiokam.Point]*big.Int{base.G2: rx, base.G3: ra, base.G4: rb, base.G5: rd, base.G6: sq, base.H1: rr})
	crx := g.prod(map[*fujiokam.Point]*big.Int{base.G1: rx, base.H1: rrx})
	e := nonnegE(commitx, C, Cr, crx)
	lin := func(v, rv *big.Int) *big.Int { return new(big.Int).Add(mul(v, e), rv) }
	return &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: lin(rc, rrx), X_: lin(x, rx), A_: lin(a, ra), B_: lin(b, rb), D_: lin(d, rd), R_: lin(r, rr)}
}

func fullSecret(suite abstract.Suite, i *big.Int) abstract.Secret {
	s := suite.Secret()
	n := s.(*nist.Int)
	n.V.Mod(i, n.M)
	return s
}

// proveEqual follows the argument's equations for x1 in the Pedersen commitment
// and x2 in the other one; fake < 0: s1 as it is for x2, else for x1
func proveEqual(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, x1, x2 *big.Int, pcomm abstract.Point, rp abstract.Secret, focomm, rf *big.Int, useX1 bool) *pedersen_fujiokam.ARGequal {
	suite := pb.Suite
	t1, t2, t3 := suite.Secret().Pick(random.Stream), suite.Secret().Pick(random.Stream), suite.Secret().Pick(random.Stream)
	v := func(s abstract.Secret) *big.Int { return &s.(*nist.Int).V }
	T1 := suite.Point().Add(suite.Point().Mul(pb.GT, t1), suite.Point().Mul(pb.HT, t2))
	g := foGroup{fb}
	T2 := g.prod(map[*fujiokam.Point]*big.Int{fb.G1: v(t1), fb.H1: v(t3)})
	c := equalC(suite, T1, T2, pcomm, focomm)
	x := x2
	if useX1 {
		x = x1
	}
	lin := func(a, t *big.Int) *big.Int { return new(big.Int).Add(new(big.Int).Mul(a, c), t) }
	return &pedersen_fujiokam.ARGequal{C: c, S1: lin(x, v(t1)), S2: lin(v(rp), v(t2)), S3: lin(rf, v(t3))}
}

func equalC(suite abstract.Suite, T1 abstract.Point, T2 *big.Int, pcomm abstract.Point, focomm *big.Int) *big.Int {
	h := suite.Hash()
	b, _ := T1.MarshalBinary()
	h.Write(b)
	h.Write(T2.Bytes())
	b, _ = pcomm.MarshalBinary()
	h.Write(b)
	h.Write(focomm.Bytes())
	return new(big.Int).SetBytes(h.Sum(nil))
}

// foCommit commits with an opening of the usual size
func foCommit(fb *fujiokam.FujiOkamBase, x *big.Int) (comm, r *big.Int) {
	g := foGroup{fb}
	r = g.secret()
	return g.prod(map[*fujiokam.Point]*big.Int{fb.G1: x, fb.H1: r}), r
}

// withRandom runs f with a random stream of its own
func withRandom(key string, f func()) {
	saved := random.Stream
	random.Stream = newPRF(prfKey(key))
	defer func() { random.Stream = saved }()
	f()
}
