package main

// C16: non-negativity arguments; C17: equality arguments.

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func init() {
	register(&Prop{ID: "C16", Level: "exploration", Budget: 85,
		Rule:   "every x of an interval decomposed; every x of an interval and boundary openings and draws proved and verified; every alteration of every component of an argument, every other commitment; enumerated cheating provers for negative integers: each equation violated alone, each hashed component left out of or replaced in the hash and chosen after the challenge; distinct by part, x and alteration",
		Assume: []string{"a 192-bit modulus of safe primes stands for the deployed 1024-bit one in most cases", "a cheating prover cannot factor the modulus"},
		Jobs:   nonnegJobs})
	register(&Prop{ID: "C17", Level: "exploration", Budget: 85,
		Rule:   "every x of an interval and boundary values and openings proved and verified; all pairs of different integers of an interval, also modulo the group order; every alteration of every component, every other commitment; enumerated cheating provers: each equation violated alone, each hashed component left out of or replaced in the hash and chosen after the challenge; distinct by part, values and alteration",
		Assume: []string{"a 192-bit modulus of safe primes stands for the deployed 1024-bit one in most cases", "a cheating prover cannot factor the modulus"},
		Jobs:   equalJobs})
}

// two safe primes of the deployed size
var bigSafePrimes = []string{
	"12669966318786338850088358988194025881008863451738546780356246647485708031271855168996852166951502977469713044821282407613033425673019283455356833797015887",
	"11475557535767601558252664906249612993623556521626279294024967119311563248025006273681981839332479296191978271328459027020818191727786301255747423061380123"}

// foBases: the base as the coordinator has it, and as everybody else has it
func foBases(key string, deployed bool) (full, pub *fujiokam.FujiOkamBase) {
	if deployed {
		path, err := exec.LookPath("openssl")
		must(err)
		f := filepath.Join(filepath.Dir(path), "safe")
		old, err := os.ReadFile(f)
		must(err)
		p := bigSafePrimes
		must(os.WriteFile(f, []byte(p[0]+"\n"+p[1]+"\n"+p[0]+"\n"+p[1]+"\n"), 0644))
		defer os.WriteFile(f, old, 0644)
	}
	withRandom(key, func() { full = fujiokam.CreateBaseFromSuite(qr512) })
	return full, publicBase(full)
}

func publicBase(b *fujiokam.FujiOkamBase) *fujiokam.FujiOkamBase {
	pub := fujiokam.CreateMinimumBase(qr512, new(big.Int).Set(b.N))
	cp := func(p *fujiokam.Point) *fujiokam.Point {
		return fujiokam.PointFromRaw(new(big.Int).Set(&p.V), pub.N)
	}
	pub.G1, pub.G2, pub.G3, pub.G4, pub.G5, pub.G6, pub.H1 = cp(b.G1), cp(b.G2), cp(b.G3), cp(b.G4), cp(b.G5), cp(b.G6), cp(b.H1)
	return pub
}

func foPoint(b *fujiokam.FujiOkamBase, v *big.Int) *fujiokam.Point {
	return fujiokam.PointFromRaw(new(big.Int).Set(v), b.N)
}

func nonnegOK(b *fujiokam.FujiOkamBase, commitx *big.Int, a *fujiokam.ARGnonneg) (ok bool) {
	panics(func() {
		c := *a
		for _, f := range nonnegFields(&c) {
			if *f != nil {
				*f = new(big.Int).Set(*f)
			}
		}
		ok = b.VerifyNonneg(foPoint(b, commitx), &c)
	})
	return
}

func nonnegJobs(th bool) (jobs []Job) {
	limit, parts := int64(60000), int64(8)
	if th {
		limit, parts = 400000, 32
	}
	for p := int64(0); p < parts; p++ {
		p := p
		jobs = append(jobs, Job{Name: fmt.Sprintf("decompositions, part %d", p), Run: func(r *Result) {
			for x := p; x < limit && !r.late(); x += parts {
				decomposition(r, bi(x))
			}
		}})
		jobs = append(jobs, Job{Name: fmt.Sprintf("honest arguments, part %d", p), Run: func(r *Result) {
			_, b := foBases("honest", false)
			n := limit / 20
			for x := p; x < n && !r.late(); x += parts {
				honestNonneg(r, b, "", bi(x), false)
			}
		}})
	}
	jobs = append(jobs, Job{Name: "boundary openings and draws", Run: func(r *Result) {
		_, b := foBases("honest", false)
		for _, x := range []int64{0, 1, 2, 3, 5, 10, 100, 1000} {
			honestNonneg(r, b, "", bi(x), true)
		}
		xs := []int64{9999, 30000, 65535, 65536, 99999, 100000}
		if th {
			xs = append(xs, 1<<18, 1<<20, 999999, 1<<22)
		}
		for _, x := range xs {
			decomposition(r, bi(x))
			honestNonneg(r, b, "", bi(x), false)
		}
	}})
	jobs = append(jobs, Job{Name: "deployed modulus", Run: func(r *Result) {
		_, b := foBases("honest", true)
		for x := int64(0); x < 40 && !r.late(); x++ {
			honestNonneg(r, b, "1024-bit modulus, ", bi(x), x < 3)
		}
		for _, x := range []int64{-1, -2, -3, -7, -100} {
			cheatNonneg(r, b, "1024-bit modulus, ", x, 1)
		}
	}})
	jobs = append(jobs, Job{Name: "altered arguments, deployed modulus", Run: func(r *Result) {
		_, b := foBases("altered", true)
		alteredNonneg(r, b, "1024-bit modulus, ", 2, 4)
	}})
	for _, x := range []int64{0, 1, 2, 5, 17} {
		x := x
		jobs = append(jobs, Job{Name: fmt.Sprintf("altered arguments for %d", x), Run: func(r *Result) {
			_, b := foBases("altered", false)
			n := 40
			if th {
				n = 500
			}
			alteredNonneg(r, b, "", x, n)
		}})
	}
	neg := []int64{-1, -2, -3, -4, -5, -7, -100, -1 << 31}
	if th {
		for x := int64(-60); x < -7; x++ {
			neg = append(neg, x)
		}
	}
	for _, x := range neg {
		x := x
		jobs = append(jobs, Job{Name: fmt.Sprintf("cheating provers for %d", x), Run: func(r *Result) {
			_, b := foBases("cheating", false)
			n := 20
			if th {
				n = 200
			}
			cheatNonneg(r, b, "", x, n)
		}})
	}
	jobs = append(jobs, Job{Name: "guessed challenges", Run: func(r *Result) {
		_, b := foBases("guess", false)
		guessNonneg(r, b, th)
	}})
	return
}

func decomposition(r *Result, x *big.Int) {
	var a, b, d *big.Int
	arg := new(big.Int).Set(x)
	if e := panics(func() { a, b, d = fujiokam.VerifDecomposeThreeSquare(arg) }); e != nil {
		r.find("C16:decomposition fails", "4*%v+1 is not decomposed: %v", x, e)
		return
	}
	r.eval(fmt.Sprintf("three squares for %v", x))
	s := new(big.Int).Mul(a, a)
	s.Add(s, new(big.Int).Mul(b, b)).Add(s, new(big.Int).Mul(d, d))
	if s.Cmp(new(big.Int).Add(new(big.Int).Mul(bi(4), x), bi(1))) != 0 || arg.Cmp(x) != 0 {
		r.find("C16:decomposition", "the squares of %v, %v and %v do not sum to 4*%v+1", a, b, d, x)
	}
}

func honestNonneg(r *Result, b *fujiokam.FujiOkamBase, where string, x *big.Int, full bool) {
	g := foGroup{b}
	try := func(what string, comm, rc *big.Int, prove func() *fujiokam.ARGnonneg) {
		var a *fujiokam.ARGnonneg
		r.eval(fmt.Sprintf("%shonest argument for %v, %s", where, x, what))
		if e := panics(func() { a = prove() }); e != nil {
			r.find("C16:no argument", "%sno argument for %v (%s): %v", where, x, what, e)
			return
		}
		if !nonnegOK(b, comm, a) {
			r.find("C16:incomplete", "%sthe argument for %v (%s) does not verify", where, x, what)
		}
	}
	withRandom(fmt.Sprint("honest nonneg", x), func() {
		c, rc := b.Commit(x)
		if c.V.Cmp(g.prod(map[*fujiokam.Point]*big.Int{b.G1: x, b.H1: rc})) != 0 {
			r.find("C16:commit", "%sthe commitment to %v with opening %v is not G1^x*H1^r", where, x, rc)
		}
		comm := new(big.Int).Set(&c.V)
		try("drawn opening", comm, rc, func() *fujiokam.ARGnonneg { return b.ProveNonneg(x, c, rc) })
		if !full {
			return
		}
		R := b.RandomRadius
		for _, rc := range []*big.Int{bi(0), bi(1), bi(-1), bi(2), new(big.Int).Neg(R), new(big.Int).Sub(R, bi(1)), b.N, new(big.Int).Neg(b.N)} {
			rc := rc
			c := b.CommitWithR(x, rc)
			try("opening "+shortNum(rc), new(big.Int).Set(&c.V), rc, func() *fujiokam.ARGnonneg { return b.ProveNonneg(x, c, rc) })
		}
		// the i-th drawn number at its smallest, at zero, or at its largest
		bits := b.RandomDiameter.BitLen()
		top := new(big.Int).Sub(b.RandomDiameter, bi(1))
		for i := 0; i < 8; i++ {
			for _, v := range []*big.Int{bi(1), R, top, new(big.Int).Add(R, bi(1))} {
				c := b.CommitWithR(x, rc)
				rest := newPRF(prfKey("draws", i))
				var pre []byte
				for j := 0; j < i; j++ {
					n := random.Int(b.RandomDiameter, rest)
					d := make([]byte, (bits+7)/8)
					pre = append(pre, n.FillBytes(d)...)
				}
				d := make([]byte, (bits+7)/8)
				pre = append(pre, v.FillBytes(d)...)
				try(fmt.Sprintf("draw %d is %s", i, shortNum(new(big.Int).Sub(v, R))), new(big.Int).Set(&c.V), rc, func() (a *fujiokam.ARGnonneg) {
					withStream(&prefixStream{b: pre, rest: rest}, func() { a = b.ProveNonneg(x, c, rc) })
					return
				})
			}
		}
	})
}

func shortNum(x *big.Int) string {
	if x.BitLen() <= 40 {
		return x.String()
	}
	s := "+"
	if x.Sign() < 0 {
		s = "-"
	}
	return fmt.Sprintf("%s(%d bits)", s, x.BitLen())
}

func namesOf(m map[string]**big.Int) (l []string) {
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

func copyNonneg(a *fujiokam.ARGnonneg) *fujiokam.ARGnonneg {
	c := *a
	for _, f := range nonnegFields(&c) {
		*f = new(big.Int).Set(*f)
	}
	return &c
}

func alteredNonneg(r *Result, b *fujiokam.FujiOkamBase, where string, x int64, runs int) {
	g := foGroup{b}
	for run := 0; run < runs && !r.late(); run++ {
		withRandom(fmt.Sprint("altered nonneg", x, run), func() {
			c, rc := b.Commit(bi(x))
			comm := new(big.Int).Set(&c.V)
			a := copyNonneg(b.ProveNonneg(bi(x), c, rc))
			label := fmt.Sprintf("%sargument for %d, run %d", where, x, run)
			r.eval(label)
			if !nonnegOK(b, comm, a) {
				r.find("C16:incomplete", "%s: it does not verify", label)
				return
			}
			refuse := func(what string, comm *big.Int, a *fujiokam.ARGnonneg) {
				r.eval(label + ": " + what)
				if nonnegOK(b, comm, a) {
					r.find("C16:altered:"+what, "%s: it verifies with %s", label, what)
				}
			}
			names := namesOf(nonnegFields(a))
			for _, n := range names {
				v := *nonnegFields(a)[n]
				alts := alterInts(v, b.N)
				for _, k := range keysOf(alts) {
					w := copyNonneg(a)
					*nonnegFields(w)[n] = alts[k]
					refuse(n+" "+k, comm, w)
				}
				w := copyNonneg(a)
				*nonnegFields(w)[n] = nil
				refuse(n+" missing", comm, w)
				for _, n2 := range names {
					v2 := *nonnegFields(a)[n2]
					if n == n2 || v.Cmp(v2) == 0 {
						continue
					}
					w := copyNonneg(a)
					*nonnegFields(w)[n] = v2
					refuse(n+" replaced by "+n2, comm, w)
					if n < n2 {
						w = copyNonneg(a)
						*nonnegFields(w)[n], *nonnegFields(w)[n2] = v2, v
						refuse(n+" and "+n2+" exchanged", comm, w)
					}
				}
			}
			// the challenge's input cut elsewhere
			cut := func(p, q *big.Int) (u, v *big.Int) {
				pb, qb := p.Bytes(), q.Bytes()
				return new(big.Int).SetBytes(append(append([]byte(nil), pb...), qb[0])), new(big.Int).SetBytes(qb[1:])
			}
			w := copyNonneg(a)
			w.C, w.Cr = cut(a.C, a.Cr)
			refuse("a byte moved from Cr to C", comm, w)
			w = copyNonneg(a)
			w.Cr, w.Commitrx = cut(a.Cr, a.Commitrx)
			refuse("a byte moved from Commitrx to Cr", comm, w)
			cx, cc := cut(comm, a.C)
			w = copyNonneg(a)
			w.C = cc
			refuse("a byte moved from C to the commitment", cx, w)
			// other arguments and other commitments
			o, oc := b.Commit(bi(x))
			oa := copyNonneg(b.ProveNonneg(bi(x), o, oc))
			u, uc := b.Commit(bi(x + 1))
			ua := copyNonneg(b.ProveNonneg(bi(x+1), u, uc))
			refuse("another commitment to the same integer", &o.V, a)
			refuse("the argument of another commitment to the same integer", comm, oa)
			refuse("the argument for one more", comm, ua)
			for _, n := range names {
				for what, oa := range map[string]*fujiokam.ARGnonneg{"that for the same integer": oa, "that for one more": ua} {
					if (*nonnegFields(oa)[n]).Cmp(*nonnegFields(a)[n]) == 0 {
						continue
					}
					w := copyNonneg(a)
					*nonnegFields(w)[n] = *nonnegFields(oa)[n]
					refuse(n+" from "+what, comm, w)
				}
			}
			mul := func(p, q *big.Int) *big.Int {
				p = new(big.Int).Mul(p, q)
				return p.Mod(p, b.N)
			}
			inv := new(big.Int).ModInverse(comm, b.N)
			others := map[string]*big.Int{"its negative": new(big.Int).Neg(comm), "the modulus minus it": new(big.Int).Sub(b.N, comm), "the modulus plus it": new(big.Int).Add(b.N, comm), "times G1": mul(comm, &b.G1.V), "times H1": mul(comm, &b.H1.V), "its square": mul(comm, comm), "its inverse": inv, "one": bi(1), "zero": bi(0), "minus one": bi(-1), "the modulus": b.N, "a commitment to minus one": g.prod(map[*fujiokam.Point]*big.Int{b.G1: bi(-1), b.H1: rc}), "times G2": mul(comm, &b.G2.V)}
			for _, k := range keysOf(others) {
				if others[k].Cmp(comm) != 0 {
					refuse("the commitment "+k, others[k], a)
				}
			}
			for _, n := range []string{"C", "Cr", "Commitrx"} {
				for what, k := range map[string]*big.Int{"times G1": &b.G1.V, "times H1": &b.H1.V, "times G6": &b.G6.V} {
					w := copyNonneg(a)
					*nonnegFields(w)[n] = mul(*nonnegFields(a)[n], k)
					refuse(n+" "+what, comm, w)
				}
			}
		})
	}
}

// hashAs: which of the four hashed values is written in each place, -1: none
func nonnegHash(order []int, v [4]*big.Int) *big.Int {
	h := sha256.New()
	for _, i := range order {
		if i >= 0 && v[i] != nil {
			h.Write(v[i].Bytes())
		}
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// cheatNonneg: provers for a negative integer
func cheatNonneg(r *Result, b *fujiokam.FujiOkamBase, where string, x int64, runs int) {
	g := foGroup{b}
	X := bi(x)
	neg := func(v *big.Int) *big.Int { return new(big.Int).Neg(v) }
	mul := func(l ...*big.Int) *big.Int {
		p := bi(1)
		for _, y := range l {
			p.Mul(p, y)
		}
		return p
	}
	exp := func(p, e *big.Int) *big.Int { return new(big.Int).Exp(p, e, b.N) }
	// the right sides of the two equations
	sides := func(e *big.Int, a *fujiokam.ARGnonneg) (*big.Int, *big.Int) {
		d := mul(e, add(mul(bi(4), a.X_), e))
		d.Sub(d, mul(a.A_, a.A_)).Sub(d, mul(a.B_, a.B_)).Sub(d, mul(a.D_, a.D_))
		return g.prod(map[*fujiokam.Point]*big.Int{b.G2: a.X_, b.G3: a.A_, b.G4: a.B_, b.G5: a.D_, b.G6: d, b.H1: a.R_}), g.prod(map[*fujiokam.Point]*big.Int{b.G1: a.X_, b.H1: a.R})
	}
	div := func(p, q *big.Int) *big.Int {
		i := new(big.Int).ModInverse(q, b.N)
		i.Mul(i, p)
		return i.Mod(i, b.N)
	}
	for run := 0; run < runs && !r.late(); run++ {
		withRandom(fmt.Sprint("cheat nonneg", x, run), func() {
			comm, rc := foCommit(b, X)
			judge := func(what string, comm *big.Int, a *fujiokam.ARGnonneg) {
				label := fmt.Sprintf("%san argument for %d, run %d: %s", where, x, run, what)
				r.eval(label)
				if nonnegOK(b, comm, a) {
					r.find("C16:negative:"+what, "%s: it verifies", label)
				}
			}
			// the harness's own prover is accepted when it is honest
			good, grc := foCommit(b, bi(3))
			s1, s2, s3 := threeSquares(bi(3))
			if nonnegOK(b, good, proveNonneg(b, bi(3), good, grc, s1, s2, s3, bi(0))) {
				r.count("the harness's own honest arguments accepted", 1)
			} else {
				r.Notes = append(r.Notes, "the harness's own honest argument is not accepted")
			}
			// the first equation fails
			for _, s := range [][3]int64{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 1, 0}, {2, 2, 1}, {-1, 0, 0}} {
				v := 4*x + 1 - s[0]*s[0] - s[1]*s[1] - s[2]*s[2]
				for _, d := range []int64{0, v, -v, 4 * v} {
					judge(fmt.Sprintf("squares of %v, off by %d", s, d), comm, proveNonneg(b, X, comm, rc, bi(s[0]), bi(s[1]), bi(s[2]), bi(d)))
				}
			}
			// for the squares of the absolute value, of -x-1, of 4|x|+1
			for _, y := range []*big.Int{neg(X), add(neg(X), bi(-1)), bi(0), bi(1)} {
				a1, a2, a3 := threeSquares(y)
				judge(fmt.Sprintf("the squares for %v", y), comm, proveNonneg(b, X, comm, rc, a1, a2, a3, bi(0)))
				// the second equation fails
				oc, or := foCommit(b, y)
				judge(fmt.Sprintf("an argument for %v", y), comm, proveNonneg(b, y, oc, or, a1, a2, a3, bi(0)))
				judge(fmt.Sprintf("an argument for %v, bound to the commitment", y), comm, proveNonneg(b, y, comm, or, a1, a2, a3, bi(0)))
				judge(fmt.Sprintf("an argument for %v, bound to the commitment, its opening", y), comm, proveNonneg(b, y, comm, rc, a1, a2, a3, bi(0)))
			}
			// each hashed value left out, or another one in its place
			for omit := 0; omit < 4; omit++ {
				for as := -1; as < 4; as++ {
					if as == omit {
						continue
					}
					order := []int{0, 1, 2, 3}
					order[omit] = as
					what := fmt.Sprintf("%s chosen after the challenge, place taken by %d", []string{"the commitment", "C", "Cr", "Commitrx"}[omit], as)
					rx, ra, rb, rd, rr, rrx, rr2 := g.secret(), g.secret(), g.secret(), g.secret(), g.secret(), g.secret(), g.secret()
					switch omit {
					case 0:
						// an argument for 3, moved to the commitment's negative
						for try := 0; try < 4; try++ {
							c3, r3 := foCommit(b, bi(3))
							a := proveNonneg(b, bi(3), c3, r3, s1, s2, s3, bi(0))
							// same values, other challenge: only the hash input differs
							e := nonnegHash(order, [4]*big.Int{c3, a.C, a.Cr, a.Commitrx})
							a = answersFor(b, bi(3), r3, s1, s2, s3, e, order, c3)
							e = nonnegHash(order, [4]*big.Int{c3, a.C, a.Cr, a.Commitrx})
							if e.Bit(0) == 0 {
								judge(what, new(big.Int).Sub(b.N, c3), a)
							}
						}
					case 1:
						sq := neg(mul(ra, ra))
						sq.Sub(sq, mul(rb, rb)).Sub(sq, mul(rd, rd))
						Cr := g.prod(map[*fujiokam.Point]*big.Int{b.G2: rx, b.G3: ra, b.G4: rb, b.G5: rd, b.G6: sq, b.H1: rr})
						crx := g.prod(map[*fujiokam.Point]*big.Int{b.G1: rx, b.H1: rrx})
						e := nonnegHash(order, [4]*big.Int{comm, nil, Cr, crx})
						// delta = e*(4x+1) + 4rx, with a = b = d = 0
						delta := add(mul(e, add(mul(bi(4), X), bi(1))), mul(bi(4), rx))
						C := g.prod(map[*fujiokam.Point]*big.Int{b.G2: X, b.G6: delta, b.H1: rr2})
						judge(what, comm, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: add(mul(rc, e), rrx), X_: add(mul(X, e), rx), A_: ra, B_: rb, D_: rd, R_: add(mul(rr2, e), rr)})
					case 2:
						C := g.prod(map[*fujiokam.Point]*big.Int{b.G2: rr, b.H1: rr2})
						crx := g.prod(map[*fujiokam.Point]*big.Int{b.G1: rx, b.H1: rrx})
						e := nonnegHash(order, [4]*big.Int{comm, C, nil, crx})
						a := &fujiokam.ARGnonneg{Commitrx: crx, C: C, R: add(mul(rc, e), rrx), X_: add(mul(X, e), rx), A_: ra, B_: rb, D_: rd, R_: rr}
						side, _ := sides(e, a)
						a.Cr = div(side, exp(C, e))
						judge(what, comm, a)
					case 3:
						// everything is about 3
						a := answersFor(b, bi(3), rc, s1, s2, s3, nil, order, comm)
						e := nonnegHash(order, [4]*big.Int{comm, a.C, a.Cr, nil})
						_, side := sides(e, a)
						a.Commitrx = div(side, exp(comm, e))
						judge(what, comm, a)
					}
				}
			}
		})
	}
}

// answersFor makes an argument whose challenge is hashed as order says
func answersFor(b *fujiokam.FujiOkamBase, x, rc, s1, s2, s3, _ *big.Int, order []int, comm *big.Int) *fujiokam.ARGnonneg {
	g := foGroup{b}
	mul := func(l ...*big.Int) *big.Int {
		p := bi(1)
		for _, y := range l {
			p.Mul(p, y)
		}
		return p
	}
	rx, ra, rb, rd, r, rr, rrx := g.secret(), g.secret(), g.secret(), g.secret(), g.secret(), g.secret(), g.secret()
	delta := mul(bi(4), rx)
	delta.Sub(delta, mul(bi(2), s1, ra)).Sub(delta, mul(bi(2), s2, rb)).Sub(delta, mul(bi(2), s3, rd))
	C := g.prod(map[*fujiokam.Point]*big.Int{b.G2: x, b.G3: s1, b.G4: s2, b.G5: s3, b.G6: delta, b.H1: r})
	sq := new(big.Int).Neg(mul(ra, ra))
	sq.Sub(sq, mul(rb, rb)).Sub(sq, mul(rd, rd))
	Cr := g.prod(map[*fujiokam.Point]*big.Int{b.G2: rx, b.G3: ra, b.G4: rb, b.G5: rd, b.G6: sq, b.H1: rr})
	crx := g.prod(map[*fujiokam.Point]*big.Int{b.G1: rx, b.H1: rrx})
	v := [4]*big.Int{comm, C, Cr, crx}
	e := nonnegHash(order, v)
	lin := func(v, rv *big.Int) *big.Int { return add(mul(v, e), rv) }
	return &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: lin(rc, rrx), X_: lin(x, rx), A_: lin(s1, ra), B_: lin(s2, rb), D_: lin(s3, rd), R_: lin(r, rr)}
}

// guessNonneg: provers who bet on a short challenge
func guessNonneg(r *Result, b *fujiokam.FujiOkamBase, th bool) {
	g := foGroup{b}
	n := 20000
	if th {
		n = 500000
	}
	mul := func(p, q *big.Int) *big.Int { return new(big.Int).Mul(p, q) }
	withRandom("guess nonneg", func() {
		comm, rc := foCommit(b, bi(-1))
		for i := 0; i < n && !r.late(); i++ {
			e := bi(int64(i % 256))
			a := &fujiokam.ARGnonneg{A_: bi(int64(i)), B_: bi(0), D_: bi(0), R_: bi(0)}
			rx, rrx := bi(int64(7*i)), bi(int64(3*i))
			a.Commitrx = g.prod(map[*fujiokam.Point]*big.Int{b.G1: rx, b.H1: rrx})
			a.X_, a.R = add(mul(bi(-1), e), rx), add(mul(rc, e), rrx)
			a.C = g.prod(map[*fujiokam.Point]*big.Int{b.H1: bi(int64(i + 1))})
			d := mul(e, add(mul(bi(4), a.X_), e))
			d.Sub(d, mul(a.A_, a.A_))
			a.Cr = g.prod(map[*fujiokam.Point]*big.Int{b.G2: a.X_, b.G3: a.A_, b.G6: d, b.H1: new(big.Int).Neg(mul(e, bi(int64(i+1))))})
			r.eval(fmt.Sprintf("bet %d on challenge %v", i, e))
			if nonnegOK(b, comm, a) {
				r.find("C16:short challenge", "an argument for -1 that bets on the challenge %v verifies (bet %d)", e, i)
				return
			}
		}
	})
}

// ---- equality

func equalOK(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, pc abstract.Point, fc *big.Int, a *pedersen_fujiokam.ARGequal) (ok bool) {
	panics(func() {
		c := *a
		for _, f := range equalFields(&c) {
			if *f != nil {
				*f = new(big.Int).Set(*f)
			}
		}
		ok = pedersen_fujiokam.VerifyEqual(pb, fb, pc, foPoint(fb, fc), &c)
	})
	return
}

func copyEqual(a *pedersen_fujiokam.ARGequal) *pedersen_fujiokam.ARGequal {
	c := *a
	for _, f := range equalFields(&c) {
		*f = new(big.Int).Set(*f)
	}
	return &c
}

type equalLab struct {
	r     *Result
	where string
	pb    *pedersen.PedersenBase
	full  *fujiokam.FujiOkamBase
	fb    *fujiokam.FujiOkamBase
}

func newEqualLab(r *Result, key string, deployed bool) *equalLab {
	l := &equalLab{r: r}
	l.full, l.fb = foBases(key, deployed)
	if deployed {
		l.where = "1024-bit modulus, "
	}
	withRandom(key+" pedersen", func() { l.pb = pedersen.CreateBaseFromSuite(qr512) })
	return l
}

func equalJobs(th bool) (jobs []Job) {
	R := int64(2000)
	if th {
		R = 40000
	}
	for part := int64(0); part < 4; part++ {
		part := part
		jobs = append(jobs, Job{Name: fmt.Sprintf("honest arguments, part %d", part), Run: func(r *Result) {
			l := newEqualLab(r, "honest", false)
			for x := part; x < R && !r.late(); x += 4 {
				l.honest(bi(x), x < 4)
			}
		}})
	}
	jobs = append(jobs, Job{Name: "boundary values", Run: func(r *Result) {
		l := newEqualLab(r, "honest", false)
		for _, k := range []uint{7, 8, 15, 16, 31, 32, 47, 62, 63} {
			for d := int64(-1); d <= 1; d++ {
				x := add(new(big.Int).Lsh(bi(1), k), bi(d))
				if x.IsInt64() {
					l.honest(x, k == 31)
				}
			}
		}
	}})
	jobs = append(jobs, Job{Name: "honest arguments, deployed modulus", Run: func(r *Result) {
		l := newEqualLab(r, "honest", true)
		for _, x := range []int64{0, 1, 2, 5, 10, 255, 1 << 31, 1<<63 - 1} {
			l.honest(bi(x), x == 5)
		}
	}})
	for part := 0; part < 4; part++ {
		part := part
		jobs = append(jobs, Job{Name: fmt.Sprintf("different integers, part %d", part), Run: func(r *Result) {
			l := newEqualLab(r, "different", false)
			m := int64(30)
			if th {
				m = 150
			}
			for i := -m; i <= m; i++ {
				for j := -m; j <= m; j++ {
					if int((i+j)%4+4)%4 == part && !r.late() {
						l.different(bi(i), bi(j), i > 0 && j > 0 && i < 3 && j < 3)
					}
				}
			}
		}})
	}
	jobs = append(jobs, Job{Name: "different integers of equal residue", Run: func(r *Result) {
		l := newEqualLab(r, "residue", false)
		for _, x := range []int64{0, 1, 2, 5, -1, -5, 1 << 31} {
			for _, k := range []int64{1, -1, 2, -2, 3, 1 << 20, -(1 << 20)} {
				y := add(bi(x), new(big.Int).Mul(bi(k), grpQ))
				l.different(bi(x), y, true)
				l.different(y, bi(x), false)
			}
			for _, d := range []int64{1, -1} {
				y := add(bi(x), new(big.Int).Add(grpQ, bi(d)))
				l.different(bi(x), y, true)
			}
		}
	}})
	runs := 60
	if th {
		runs = 1000
	}
	for _, x := range []int64{0, 1, 7, 1000} {
		x := x
		jobs = append(jobs, Job{Name: fmt.Sprintf("altered arguments for %d", x), Run: func(r *Result) { newEqualLab(r, "altered", false).altered(x, runs) }})
	}
	jobs = append(jobs, Job{Name: "altered arguments, deployed modulus", Run: func(r *Result) { newEqualLab(r, "altered", true).altered(3, 1) }})
	jobs = append(jobs, Job{Name: "guessed challenges", Run: func(r *Result) { newEqualLab(r, "guess", false).guess(th) }})
	return
}

func (l *equalLab) honest(x *big.Int, full bool) {
	r := l.r
	suite := qr512
	xs := secretOf(suite, x)
	try := func(what string, pc abstract.Point, rp abstract.Secret, fc, rf *big.Int) {
		label := fmt.Sprintf("%shonest argument for %v, %s", l.where, x, what)
		r.eval(label)
		var a *pedersen_fujiokam.ARGequal
		if e := panics(func() { a = pedersen_fujiokam.ProveEqual(l.pb, l.fb, xs, pc, rp, foPoint(l.fb, fc), rf) }); e != nil {
			r.find("C17:no argument", "%s: %v", label, e)
			return
		}
		if !equalOK(l.pb, l.fb, pc, fc, a) {
			r.find("C17:incomplete", "%s: it does not verify", label)
		}
		if secretVal(xs).Cmp(x) != 0 {
			r.find("C17:changed", "%s: the value was changed to %v", label, xs)
		}
	}
	withRandom(fmt.Sprint("honest equal", x), func() {
		pc, rp := l.pb.Commit(xs)
		fc, rf := l.fb.Commit(x)
		try("drawn openings", pc, rp, &fc.V, rf)
		if !full {
			return
		}
		R := l.fb.RandomRadius
		for _, rf := range []*big.Int{bi(0), bi(1), bi(-1), new(big.Int).Neg(R), R} {
			for _, rpv := range []*big.Int{bi(0), bi(1), new(big.Int).Sub(grpQ, bi(1))} {
				rp := secretOf(suite, rpv)
				fc := l.fb.CommitWithR(x, rf)
				try("openings "+shortNum(rpv)+" and "+shortNum(rf), l.pb.CommitWithR(xs, rp), rp, &fc.V, rf)
			}
		}
		bits := grpQ.BitLen()
		for i := 0; i < 3; i++ {
			for _, v := range []*big.Int{bi(1), new(big.Int).Sub(grpQ, bi(1))} {
				rest := newPRF(prfKey("equal draws", i))
				var pre []byte
				for j := 0; j <= i; j++ {
					n := random.Int(grpQ, rest)
					if j == i {
						n = v
					}
					pre = append(pre, n.FillBytes(make([]byte, (bits+7)/8))...)
				}
				withStream(&prefixStream{b: pre, rest: rest}, func() { try(fmt.Sprintf("draw %d is %s", i, shortNum(v)), pc, rp, &fc.V, rf) })
			}
		}
	})
}

// centred: the integer a Pedersen commitment stands for
func centred(x *big.Int) *big.Int {
	v := new(big.Int).Mod(x, grpQ)
	if new(big.Int).Lsh(v, 1).Cmp(grpQ) > 0 {
		v.Sub(v, grpQ)
	}
	return v
}

// different: x1 in the Pedersen commitment, x2 in the other one
func (l *equalLab) different(x1, x2 *big.Int, adaptive bool) {
	r := l.r
	suite := qr512
	if centred(x1).Cmp(x2) == 0 {
		return
	}
	name := fmt.Sprintf("%s%s and %s", l.where, shortNum(x1), shortNum(x2))
	v1 := new(big.Int).Mod(x1, grpQ)
	judge := func(what string, pc abstract.Point, fc *big.Int, a *pedersen_fujiokam.ARGequal) {
		r.eval(name + ": " + what)
		if equalOK(l.pb, l.fb, pc, fc, a) {
			r.find("C17:different:"+what, "commitments to %s: an argument verifies (%s)", name, what)
		}
	}
	withRandom("different "+x1.String()+" "+x2.String(), func() {
		rp := suite.Secret().Pick(random.Stream)
		pc := l.pb.CommitWithR(secretOf(suite, v1), rp)
		fc, rf := foCommit(l.fb, x2)
		for _, use := range []bool{true, false} {
			judge(fmt.Sprint("answering for one of them, the first: ", use), pc, fc, proveEqual(l.pb, l.fb, v1, x2, pc, rp, fc, rf, use))
			judge(fmt.Sprint("answering for one of them, centred, the first: ", use), pc, fc, proveEqual(l.pb, l.fb, centred(x1), x2, pc, rp, fc, rf, use))
		}
		var a *pedersen_fujiokam.ARGequal
		if panics(func() {
			a = pedersen_fujiokam.ProveEqual(l.pb, l.fb, secretOf(suite, v1), pc, rp, foPoint(l.fb, fc), rf)
		}) == nil {
			judge("the code's own", pc, fc, a)
		}
		if panics(func() {
			a = pedersen_fujiokam.ProveEqual(l.pb, l.fb, secretOf(suite, x2), pc, rp, foPoint(l.fb, fc), rf)
		}) == nil {
			judge("the code's own for the second", pc, fc, a)
		}
		// answers shortened by the order of the Pedersen group
		for _, use := range []bool{true, false} {
			a := proveEqual(l.pb, l.fb, v1, x2, pc, rp, fc, rf, use)
			a.S1 = new(big.Int).Mod(a.S1, grpQ)
			judge(fmt.Sprint("with a reduced answer, the first: ", use), pc, fc, a)
		}
		if adaptive {
			l.adaptive(judge, v1, x2, pc, rp, fc, rf)
		}
	})
}

// adaptive: each of the four hashed values left out, or another one in its place
func (l *equalLab) adaptive(judge func(string, abstract.Point, *big.Int, *pedersen_fujiokam.ARGequal), v1, x2 *big.Int, pc abstract.Point, rp abstract.Secret, fc, rf *big.Int) {
	suite := qr512
	g := foGroup{l.fb}
	zq := zq{grpQ}
	ord := new(big.Int).Mul(l.full.P, l.full.Q)
	pick := func() *big.Int { return random.Int(grpQ, random.Stream) }
	pow := func(p abstract.Point, e *big.Int) abstract.Point { return suite.Point().Mul(p, secretOf(suite, e)) }
	hash := func(order []int, T1 abstract.Point, T2 *big.Int, pc abstract.Point, fc *big.Int) *big.Int {
		h := suite.Hash()
		enc := func(p abstract.Point) []byte {
			if p == nil {
				return nil
			}
			b, _ := p.MarshalBinary()
			return b
		}
		num := func(n *big.Int) []byte {
			if n == nil {
				return nil
			}
			return n.Bytes()
		}
		vals := [][]byte{enc(T1), num(T2), enc(pc), num(fc)}
		for _, i := range order {
			if i >= 0 {
				h.Write(vals[i])
			}
		}
		return new(big.Int).SetBytes(h.Sum(nil))
	}
	lin := func(a, c, t *big.Int) *big.Int { return add(new(big.Int).Mul(a, c), t) }
	for omit := 0; omit < 4; omit++ {
		for as := -1; as < 4; as++ {
			if as == omit {
				continue
			}
			order := []int{0, 1, 2, 3}
			order[omit] = as
			t1, t2, t3 := pick(), pick(), pick()
			T1 := suite.Point().Add(pow(l.pb.GT, t1), pow(l.pb.HT, t2))
			T2 := g.prod(map[*fujiokam.Point]*big.Int{l.fb.G1: t1, l.fb.H1: t3})
			what := fmt.Sprintf("%s chosen after the challenge, place taken by %d", []string{"T1", "T2", "the Pedersen commitment", "the other commitment"}[omit], as)
			switch omit {
			case 0: // the first equation is free
				c := hash(order, nil, T2, pc, fc)
				judge(what, pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: lin(x2, c, t1), S2: t2, S3: lin(rf, c, t3)})
			case 1: // the second one is
				c := hash(order, T1, nil, pc, fc)
				judge(what, pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: new(big.Int).Mod(lin(v1, c, t1), grpQ), S2: lin(secretVal(rp), c, t2), S3: t3})
			case 2:
				T1 = pow(l.pb.GT, add(t1, bi(12345)))
				c := hash(order, T1, T2, nil, fc)
				a := &pedersen_fujiokam.ARGequal{C: c, S1: lin(x2, c, t1), S2: t2, S3: lin(rf, c, t3)}
				p := suite.Point().Add(pow(l.pb.GT, a.S1), pow(l.pb.HT, a.S2))
				p.Sub(p, T1)
				judge(what, suite.Point().Mul(p, secretOf(suite, zq.inv(c))), fc, a)
			case 3:
				c := hash(order, T1, T2, pc, nil)
				a := &pedersen_fujiokam.ARGequal{C: c, S1: new(big.Int).Mod(lin(v1, c, t1), grpQ), S2: lin(secretVal(rp), c, t2), S3: t3}
				i := new(big.Int).ModInverse(c, ord)
				if i != nil {
					// a root, which only who knows the factors can take
					f := g.prod(map[*fujiokam.Point]*big.Int{l.fb.G1: a.S1, l.fb.H1: a.S3})
					f.Mul(f, new(big.Int).ModInverse(T2, l.fb.N)).Mod(f, l.fb.N)
					judge(what, pc, f.Exp(f, i, l.fb.N), a)
				}
			}
		}
	}
}

func (z zq) inv(a *big.Int) *big.Int {
	return new(big.Int).ModInverse(new(big.Int).Mod(a, z.q), z.q)
}

func (l *equalLab) altered(x int64, runs int) {
	r := l.r
	suite := qr512
	g := foGroup{l.fb}
	for run := 0; run < runs && !r.late(); run++ {
		withRandom(fmt.Sprint("altered equal", x, run), func() {
			xs := secretOf(suite, bi(x))
			pc, rp := l.pb.Commit(xs)
			fp, rf := l.fb.Commit(bi(x))
			fc := new(big.Int).Set(&fp.V)
			prove := func(x int64, pc abstract.Point, rp abstract.Secret, fc, rf *big.Int) *pedersen_fujiokam.ARGequal {
				return copyEqual(pedersen_fujiokam.ProveEqual(l.pb, l.fb, secretOf(suite, bi(x)), pc, rp, foPoint(l.fb, fc), rf))
			}
			a := prove(x, pc, rp, fc, rf)
			label := fmt.Sprintf("%sargument for %d, run %d", l.where, x, run)
			r.eval(label)
			if !equalOK(l.pb, l.fb, pc, fc, a) {
				r.find("C17:incomplete", "%s: it does not verify", label)
				return
			}
			if own := proveEqual(l.pb, l.fb, bi(x), bi(x), pc, rp, fc, rf, true); equalOK(l.pb, l.fb, pc, fc, own) {
				r.count("the harness's own honest arguments accepted", 1)
			} else {
				r.Notes = append(r.Notes, "the harness's own honest argument is not accepted")
			}
			refuse := func(what string, pc abstract.Point, fc *big.Int, a *pedersen_fujiokam.ARGequal) {
				r.eval(label + ": " + what)
				if equalOK(l.pb, l.fb, pc, fc, a) {
					r.find("C17:altered:"+what, "%s: it verifies with %s", label, what)
				}
			}
			same := func(n string, v, w *big.Int) bool {
				if v.Cmp(w) == 0 {
					return true
				}
				// only its residue counts
				return n == "S2" && new(big.Int).Mod(new(big.Int).Sub(v, w), grpQ).Sign() == 0
			}
			pc2, rp2 := l.pb.Commit(xs)
			fp2, rf2 := l.fb.Commit(bi(x))
			fc2 := new(big.Int).Set(&fp2.V)
			donors := map[string]*pedersen_fujiokam.ARGequal{"another argument for the same commitments": prove(x, pc, rp, fc, rf), "an argument for other commitments": prove(x, pc2, rp2, fc2, rf2), "an argument for one of the commitments": prove(x, pc, rp, fc2, rf2)}
			for what, o := range donors {
				if what[:7] != "another" {
					refuse(what, pc, fc, o)
				}
				for n := range equalFields(a) {
					v := *equalFields(o)[n]
					if same(n, v, *equalFields(a)[n]) {
						continue
					}
					w := copyEqual(a)
					*equalFields(w)[n] = v
					refuse(n+" from "+what, pc, fc, w)
				}
			}
			names := namesOf(equalFields(a))
			for _, n := range names {
				v := *equalFields(a)[n]
				alts := alterInts(v, l.fb.N)
				for _, k := range keysOf(alts) {
					if same(n, v, alts[k]) {
						continue
					}
					w := copyEqual(a)
					*equalFields(w)[n] = alts[k]
					refuse(n+" "+k, pc, fc, w)
				}
				w := copyEqual(a)
				*equalFields(w)[n] = nil
				refuse(n+" missing", pc, fc, w)
				for _, n2 := range names {
					v2 := *equalFields(a)[n2]
					if n == n2 || same(n, v, v2) {
						continue
					}
					w := copyEqual(a)
					*equalFields(w)[n] = v2
					refuse(n+" replaced by "+n2, pc, fc, w)
					if n < n2 {
						w = copyEqual(a)
						*equalFields(w)[n], *equalFields(w)[n2] = v2, v
						refuse(n+" and "+n2+" exchanged", pc, fc, w)
					}
				}
			}
			mul := func(p, q *big.Int) *big.Int {
				p = new(big.Int).Mul(p, q)
				return p.Mod(p, l.fb.N)
			}
			fo := map[string]*big.Int{"its negative": new(big.Int).Neg(fc), "the modulus minus it": new(big.Int).Sub(l.fb.N, fc), "the modulus plus it": add(l.fb.N, fc), "times G1": mul(fc, &l.fb.G1.V), "times H1": mul(fc, &l.fb.H1.V), "its square": mul(fc, fc), "one": bi(1), "zero": bi(0), "the modulus": l.fb.N, "another to the same": fc2,
				"to one more": g.prod(map[*fujiokam.Point]*big.Int{l.fb.G1: bi(x + 1), l.fb.H1: rf}), "to the negative": g.prod(map[*fujiokam.Point]*big.Int{l.fb.G1: bi(-x - 1), l.fb.H1: rf})}
			for _, k := range keysOf(fo) {
				if fo[k].Cmp(fc) != 0 {
					refuse("the second commitment "+k, pc, fo[k], a)
				}
			}
			pe := map[string]abstract.Point{"times GT": suite.Point().Add(pc, l.pb.GT), "times HT": suite.Point().Add(pc, l.pb.HT), "its square": suite.Point().Add(pc, pc), "its inverse": suite.Point().Neg(pc), "neutral": suite.Point().Null(), "another to the same": pc2, "to one more": l.pb.CommitWithR(secretOf(suite, bi(x+1)), rp),
				"the modulus minus it": pointOf(suite, new(big.Int).Sub(grpP, pointVal(pc)))}
			for k, p := range pe {
				if !p.Equal(pc) {
					refuse("the first commitment "+k, p, fc, a)
				}
			}
		})
	}
}

// guess: provers who bet on a short challenge, for commitments to 1 and 2
func (l *equalLab) guess(th bool) {
	r := l.r
	suite := qr512
	g := foGroup{l.fb}
	n := 20000
	if th {
		n = 500000
	}
	withRandom("guess equal", func() {
		rp := suite.Secret().Pick(random.Stream)
		pc := l.pb.CommitWithR(secretOf(suite, bi(1)), rp)
		fc, rf := foCommit(l.fb, bi(2))
		for i := 0; i < n && !r.late(); i++ {
			c := bi(int64(i % 256))
			// answers first; the commitments they need follow from the bet, so the
			// verifier recomputes exactly those whatever it is given
			a := &pedersen_fujiokam.ARGequal{C: c, S1: add(new(big.Int).Lsh(bi(1), 300), bi(int64(i))), S2: add(new(big.Int).Mul(secretVal(rp), c), bi(5)), S3: add(new(big.Int).Mul(rf, c), bi(int64(3*i)))}
			r.eval(fmt.Sprintf("bet %d on challenge %v", i, c))
			if equalOK(l.pb, l.fb, pc, fc, a) {
				r.find("C17:short challenge", "an argument for commitments to 1 and 2 that bets on the challenge %v verifies (bet %d)", c, i)
				return
			}
		}
		_ = g
	})
}
