package main

// C15: Pedersen commitments.

import (
	"fmt"
	"math/big"

	"zRep/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func init() {
	register(&Prop{ID: "C15", Level: "exploration", Budget: 85,
		Rule:   "in a small prime-order group: every pair of bases, every value and opening, every claimed value and opening, every pair of commitments added and subtracted, every exponent; in the deployed group all pairs from a boundary alphabet; distinct by group, bases, values",
		Assume: []string{"the deployed group's arithmetic differs from the small group's by size only (same library type)"},
		Jobs:   commitmentJobs})
}

// exponents of g modulo p, for small groups
func tableOf(p, g int64) (pow []*big.Int) {
	q := (p - 1) / 2
	x := bi(1)
	for i := int64(0); i < q; i++ {
		pow = append(pow, new(big.Int).Set(x))
		x.Mul(x, bi(g)).Mod(x, bi(p))
	}
	return
}

// forced returns a stream from which the next number drawn below a limit of
// the given bit length is n
func forced(n *big.Int, bits int) *prefixStream {
	b := make([]byte, (bits+7)/8)
	n.FillBytes(b)
	return &prefixStream{b: b, rest: newPRF(prfKey("forced", n))}
}

func commitmentJobs(th bool) (jobs []Job) {
	ps := []int64{23}
	if th {
		ps = []int64{23, 47}
	}
	for _, p := range ps {
		p := p
		q := (p - 1) / 2
		for gt := int64(1); gt < q; gt++ {
			gt := gt
			jobs = append(jobs, Job{Name: fmt.Sprintf("modulo %d, first base %d", p, gt), Run: func(r *Result) { smallCommitments(r, p, gt) }})
		}
		jobs = append(jobs, Job{Name: fmt.Sprintf("modulo %d, generated bases", p), Run: func(r *Result) {
			s := tinySuite(p)
			for x := int64(1); x < q; x++ {
				var b *pedersen.PedersenBase
				withStream(forced(bi(x), bi(q).BitLen()), func() { b = pedersen.CreateBaseFromSuite(s) })
				r.eval(fmt.Sprint("generated bases modulo ", p, ", draw ", x))
				null := s.Point().Null()
				if b.GT.Equal(null) || b.HT.Equal(null) {
					r.find("C15:bases", "the generated bases are %v and %v", b.GT, b.HT)
				}
				if !b.HT.Equal(s.Point().Mul(nil, secretOf(s, bi(x)))) {
					r.count("draws that do not give the base they name", 1)
				}
			}
		}})
	}
	jobs = append(jobs, Job{Name: "deployed group", Run: func(r *Result) { deployedCommitments(r, th) }})
	return
}

// a commitment, as a number
func pedersenBases(s abstract.Suite, gt, ht *big.Int) *pedersen.PedersenBase {
	return &pedersen.PedersenBase{Suite: s, GT: s.Point().Mul(nil, secretOf(s, gt)), HT: s.Point().Mul(nil, secretOf(s, ht))}
}

func smallCommitments(r *Result, p, gt int64) {
	s := tinySuite(p)
	q := (p - 1) / 2
	pow := tableOf(p, 4)
	at := func(e int64) *big.Int { return pow[((e%q)+q)%q] }
	sec := make([]abstract.Secret, q)
	for i := range sec {
		sec[i] = secretOf(s, bi(int64(i)))
	}
	for ht := int64(1); ht < q && !r.late(); ht++ {
		b := pedersenBases(s, bi(gt), bi(ht))
		name := fmt.Sprintf("modulo %d, bases g^%d and g^%d", p, gt, ht)
		comm := make([][]pedersen.Commitment, q)
		for x := int64(0); x < q; x++ {
			comm[x] = make([]pedersen.Commitment, q)
			for y := int64(0); y < q; y++ {
				c := b.CommitWithR(sec[x], sec[y])
				comm[x][y] = c
				want := at(gt*x + ht*y)
				r.eval(fmt.Sprintf("%s, value %d opening %d", name, x, y))
				if pointVal(c).Cmp(want) != 0 {
					r.find("C15:commit", "%s: committing to %d with opening %d gives %v, not %v", name, x, y, c, want)
				}
				for x2 := int64(0); x2 < q; x2++ {
					for y2 := int64(0); y2 < q; y2++ {
						ok := b.Verify(sec[x2], sec[y2], c)
						if want := at(gt*x2+ht*y2).Cmp(want) == 0; ok != want {
							r.find("C15:verify", "%s: a commitment to %d with opening %d, opened with %d and %d: %v", name, x, y, x2, y2, ok)
						}
						r.eval("")
					}
				}
			}
			// openings drawn by the code
			for n := int64(1); n < q; n++ {
				withStream(forced(bi(n), bi(q).BitLen()), func() {
					c, y := b.Commit(sec[x])
					if !b.Verify(sec[x], y, c) || pointVal(c).Cmp(at(gt*x+ht*secretVal(y).Int64())) != 0 {
						r.find("C15:drawn", "%s: a commitment to %d with a drawn opening %v does not open", name, x, y)
					}
					if secretVal(y).Int64() != n {
						r.count("draws that do not give the opening they name", 1)
					}
				})
				r.eval("")
			}
		}
		// sums and differences
		for i := int64(0); i < q*q; i++ {
			for j := int64(0); j < q*q; j++ {
				x1, y1, x2, y2 := i/q, i%q, j/q, j%q
				c1, c2 := comm[x1][y1], comm[x2][y2]
				add, sub := b.Add(c1, c2), b.Sub(c1, c2)
				r.eval("")
				if pointVal(add).Cmp(at(gt*(x1+x2)+ht*(y1+y2))) != 0 {
					r.find("C15:sum", "%s: the sum of commitments (%d,%d) and (%d,%d) does not open to the sums", name, x1, y1, x2, y2)
				}
				if pointVal(sub).Cmp(at(gt*(x1-x2)+ht*(y1-y2))) != 0 {
					r.find("C15:difference", "%s: the difference of commitments (%d,%d) and (%d,%d) does not open to the differences", name, x1, y1, x2, y2)
				}
				if pointVal(c1).Cmp(at(gt*x1+ht*y1)) != 0 || pointVal(c2).Cmp(at(gt*x2+ht*y2)) != 0 {
					r.find("C15:operands", "%s: adding or subtracting (%d,%d) and (%d,%d) changes an operand", name, x1, y1, x2, y2)
				}
				if !b.Verify(sec[(x1+x2)%q], sec[(y1+y2)%q], add) || !b.Verify(sec[(x1-x2+q)%q], sec[(y1-y2+q)%q], sub) {
					r.find("C15:sum opens", "%s: the sum or difference of (%d,%d) and (%d,%d) does not verify", name, x1, y1, x2, y2)
				}
			}
		}
		// the same exponent on a commitment and on both bases
		for n := int64(1); n < q; n++ {
			for x := int64(0); x < q; x++ {
				for y := int64(0); y < q; y++ {
					var c2 abstract.Point
					var e abstract.Secret
					withStream(forced(bi(n), bi(q).BitLen()), func() { c2, e = b.Randomize(comm[x][y]) })
					ev := secretVal(e).Int64()
					r.eval("")
					if ev == 0 {
						continue
					}
					if pointVal(c2).Cmp(at(ev*(gt*x+ht*y))) != 0 {
						r.find("C15:randomise", "%s: raising the commitment (%d,%d) to %d gives %v", name, x, y, ev, c2)
					}
					if pointVal(comm[x][y]).Cmp(at(gt*x+ht*y)) != 0 {
						r.find("C15:randomise operand", "%s: raising the commitment (%d,%d) changes it", name, x, y)
					}
					b2 := &pedersen.PedersenBase{Suite: s, GT: s.Point().Mul(b.GT, e), HT: s.Point().Mul(b.HT, e)}
					for x2 := int64(0); x2 < q; x2++ {
						for y2 := int64(0); y2 < q; y2++ {
							r.eval("")
							if b2.Verify(sec[x2], sec[y2], c2) != (at(gt*x2+ht*y2).Cmp(at(gt*x+ht*y)) == 0) {
								r.find("C15:randomised opening", "%s: raised to %d the commitment (%d,%d) opens otherwise with %d and %d", name, ev, x, y, x2, y2)
							}
						}
					}
				}
			}
			if r.late() {
				return
			}
		}
	}
}

// boundary exponents
func boundary(q *big.Int, th bool) (l []*big.Int) {
	add := func(x *big.Int) {
		x = new(big.Int).Mod(x, q)
		for _, y := range l {
			if y.Cmp(x) == 0 {
				return
			}
		}
		l = append(l, x)
	}
	for _, x := range []int64{0, 1, 2, 3, 10, -1, -2, -3, 255, 256, 1 << 31, -(1 << 31), 1 << 62} {
		add(bi(x))
	}
	h := new(big.Int).Rsh(q, 1)
	add(h)
	add(new(big.Int).Add(h, bi(1)))
	for _, k := range []uint{64, 128, 255, 256, 503, 504, 510} {
		if th || k == 64 || k == 510 || k == 255 {
			add(new(big.Int).Lsh(bi(1), k))
		}
	}
	add(random.Int(q, newPRF(prfKey("boundary"))))
	return
}

func deployedCommitments(r *Result, th bool) {
	var s abstract.Suite = qr512
	q := order(s)
	p := grpP
	vals := boundary(q, th)
	for _, kind := range []string{"generated", "minimal", "CreateBase"} {
		var b *pedersen.PedersenBase
		withRandom("commitment bases", func() {
			switch kind {
			case "generated":
				b = pedersen.CreateBaseFromSuite(s)
			case "minimal":
				b = pedersen.CreateMinimalBaseFromSuite(s)
			default:
				b = pedersen.CreateBase()
			}
		})
		if b.GT.Equal(s.Point().Null()) || b.HT.Equal(s.Point().Null()) {
			r.find("C15:bases", "%s bases: a base is neutral", kind)
			continue
		}
		gt, ht := pointVal(b.GT), pointVal(b.HT)
		ref := func(x, y *big.Int) *big.Int {
			v := new(big.Int).Exp(gt, new(big.Int).Mod(x, q), p)
			v.Mul(v, new(big.Int).Exp(ht, new(big.Int).Mod(y, q), p))
			return v.Mod(v, p)
		}
		type op struct {
			x, y *big.Int
			c    pedersen.Commitment
		}
		var l []op
		for i, x := range vals {
			for j, y := range vals {
				if !th && i > 6 && j > 6 && i != j {
					continue
				}
				c := b.CommitWithR(secretOf(s, x), secretOf(s, y))
				l = append(l, op{x, y, c})
				r.eval(fmt.Sprintf("deployed group, %s bases, value %v, opening %v", kind, x, y))
				if pointVal(c).Cmp(ref(x, y)) != 0 || !b.Verify(secretOf(s, x), secretOf(s, y), c) {
					r.find("C15:commit", "deployed group, %s bases: the commitment to %v with %v is wrong", kind, x, y)
				}
				for _, x2 := range vals {
					r.eval("")
					if x2.Cmp(x) != 0 && b.Verify(secretOf(s, x2), secretOf(s, y), c) {
						r.find("C15:verify", "deployed group, %s bases: a commitment to %v with opening %v opens to %v", kind, x, y, x2)
					}
				}
				c2, y2 := b.Commit(secretOf(s, x))
				if !b.Verify(secretOf(s, x), y2, c2) || pointVal(c2).Cmp(ref(x, secretVal(y2))) != 0 {
					r.find("C15:drawn", "deployed group, %s bases: a commitment to %v with a drawn opening does not open", kind, x)
				}
				for _, e := range []*big.Int{bi(1), bi(2), new(big.Int).Sub(q, bi(1)), vals[len(vals)-1]} {
					var c3 abstract.Point
					var es abstract.Secret
					withStream(forced(e, q.BitLen()), func() { c3, es = b.Randomize(c) })
					b3 := &pedersen.PedersenBase{Suite: s, GT: s.Point().Mul(b.GT, es), HT: s.Point().Mul(b.HT, es)}
					r.eval("")
					if !b3.Verify(secretOf(s, x), secretOf(s, y), c3) {
						r.find("C15:randomise", "deployed group, %s bases: the commitment to %v with %v does not open after it and the bases were raised to %v", kind, x, y, es)
					}
					x2 := new(big.Int).Add(x, bi(1))
					if b3.Verify(secretOf(s, x2), secretOf(s, y), c3) {
						r.find("C15:randomised opening", "deployed group, %s bases: raised to %v the commitment to %v opens to one more", kind, es, x)
					}
				}
				if r.late() {
					return
				}
			}
		}
		for i, a := range l {
			for j, c := range l {
				if !th && (i*7+j)%11 != 0 && i != j {
					continue
				}
				if r.late() {
					return
				}
				add, sub := b.Add(a.c, c.c), b.Sub(a.c, c.c)
				r.eval("")
				if pointVal(add).Cmp(ref(new(big.Int).Add(a.x, c.x), new(big.Int).Add(a.y, c.y))) != 0 {
					r.find("C15:sum", "deployed group, %s bases: the sum of commitments to %v and %v (openings %v, %v) does not open to the sums", kind, a.x, c.x, a.y, c.y)
				}
				if pointVal(sub).Cmp(ref(new(big.Int).Sub(a.x, c.x), new(big.Int).Sub(a.y, c.y))) != 0 {
					r.find("C15:difference", "deployed group, %s bases: the difference of commitments to %v and %v (openings %v, %v) does not open to the differences", kind, a.x, c.x, a.y, c.y)
				}
			}
		}
	}
}
