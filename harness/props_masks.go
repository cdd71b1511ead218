package main

// C27: every secret in a commitment, encryption, proof or ring signature is
// covered by randomness of its own.

import (
	"fmt"
	"math/big"
	"reflect"

	"zRep/primitive/fujiokam"
	"zRep/primitive/lrs"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"
)

func init() {
	register(&Prop{ID: "C27", Level: "exploration", Budget: 85,
		Rule:   "in small groups: every draw of a commitment, an encryption and a ring signature, counting what comes out; with wide moduli: every value of an alphabet, repeated proofs of it, every mask recomputed from the published responses and the secrets, every pair of masks; distinct by group, value, draw or proof",
		Assume: []string{"masks are compared by their lengths and differences, up to 2^-40"},
		Jobs:   maskJobs})
}

func maskJobs(th bool) (jobs []Job) {
	add := func(name string, f func(r *Result)) { jobs = append(jobs, Job{Name: name, Run: f}) }
	type rg struct {
		p int64
		n int
	}
	rings := []rg{{11, 1}, {11, 2}, {11, 3}, {23, 1}, {23, 2}}
	if th {
		rings = append(rings, rg{47, 1}, rg{47, 2}, rg{59, 2})
	}
	for _, g := range rings {
		g := g
		for pi := 0; pi < g.n; pi++ {
			pi := pi
			add(fmt.Sprintf("all draws of a ring signature modulo %d, signer %d of %d", g.p, pi+1, g.n), func(r *Result) { ringDraws(r, g.p, g.n, pi) })
		}
	}
	ps := []int64{23, 47}
	if th {
		ps = append(ps, 59, 83, 107, 167, 227)
	}
	for _, p := range ps {
		p := p
		add(fmt.Sprintf("all draws of a commitment or encryption modulo %d", p), func(r *Result) { commitDraws(r, p) })
	}
	for _, deployed := range []bool{false, true} {
		deployed := deployed
		size := map[bool]string{false: "192 bits", true: "deployed"}[deployed]
		add("openings, "+size, func(r *Result) { openings(r, deployed, th) })
		xs := []int64{0, 1, 2, 3, 5, 6, 12, 30, 100}
		if th {
			xs = append(xs, 4, 7, 8, 9, 10, 11, 13, 20, 56, 255, 256, 1000)
		}
		for _, x := range xs {
			x := x
			add(fmt.Sprintf("proofs about %d, %s", x, size), func(r *Result) { proofMasks(r, x, deployed, th) })
		}
	}
	for _, n := range [][2]int{{1, 2}, {2, 1}, {3, 3}} {
		n := n
		add(fmt.Sprintf("requests and openings in rounds of %d servers and %d clients", n[0], n[1]), func(r *Result) { requestMasks(r, n[0], n[1], th) })
	}
	add("openings of newcomers, 1 server", func(r *Result) { joinMasks(r, 1, 7) })
	add("openings of newcomers, 3 servers", func(r *Result) { joinMasks(r, 3, 4) })
	for k := 2; k <= 5; k++ {
		k := k
		add(fmt.Sprintf("shuffle proofs of %d elements", k), func(r *Result) {
			runs := 6
			if th {
				runs = 30
			}
			for _, kind := range []string{"distinct", "distinct, own base", "same X", "same Y", "twice"} {
				shuffleMasks(r, fastSuite(), kind, k, runs)
			}
			shuffleMasks(r, qr512, "distinct", k, 2)
			shuffleNumbers(r, k, runs)
			if k == 2 {
				biffleMasks(r, fastSuite(), 2*runs)
				biffleMasks(r, qr512, 2)
			}
		})
	}
	return
}

// counting hands out forced draws and counts what is taken beyond them
type counting struct {
	*prefixStream
	n int
}

func (c *counting) XORKeyStream(dst, src []byte) {
	c.n += len(src)
	c.prefixStream.XORKeyStream(dst, src)
}

// ringDraws: every combination of the 2n-1 numbers a signer draws
func ringDraws(r *Result, p int64, n, pi int) {
	b := &lrs.LRSBase{Suite: tinySuite(p), P: bi(p), Q: bi(p - 1), G: bi(4)}
	bits := b.Q.BitLen()
	var y, x []*big.Int
	for i := 0; i < n; i++ {
		x = append(x, bi(int64(i+2)))
		y = append(y, new(big.Int).Exp(b.G, x[i], b.P))
	}
	all := int64(1)
	for i := 0; i < 2*n-1; i++ {
		all *= p - 2
	}
	for k := 0; k < 3; k++ {
		m := []byte(fmt.Sprint("message ", k))
		seen := map[string]bool{}
		share := make([]map[string]int64, 2*n)
		for i := range share {
			share[i] = map[string]int64{}
		}
		usual := true
		for d := int64(0); d < all && usual; d++ {
			var st []byte
			for i, v := 0, d; i < 2*n-1; i, v = i+1, v/(p-2) {
				st = append(st, forced(bi(1+v%(p-2)), bits).b...)
			}
			size := len(st)
			c := &counting{prefixStream: &prefixStream{b: st, rest: newPRF(prfKey("ring draws", d))}}
			var sig *lrs.Signature
			withStream(c, func() { sig = b.SignHelper(m, n, pi, x[pi], y) })
			r.States++
			if d == 0 && sig.Y0.Sign() == 0 {
				r.Notes = append(r.Notes, "a message hashed to 0 in so small a group is left out")
				break
			}
			// another way of drawing is judged by the proofs about wide values only
			usual = c.n <= size
			if len(sig.S) != n || len(sig.C) != n {
				r.find("C27:ring:shape", "modulo %d, signer %d of %d: %d responses and %d challenges", p, pi+1, n, len(sig.S), len(sig.C))
				return
			}
			seen[sigText(sig)] = true
			for i := 0; i < n; i++ {
				share[i][new(big.Int).Mod(sig.S[i], b.Q).String()]++
				share[n+i][new(big.Int).Mod(sig.C[i], b.Q).String()]++
			}
		}
		if !usual {
			r.Notes = append(r.Notes, "ring signatures draw more than one number per response and challenge: not counted")
			continue
		}
		if len(seen) == 0 {
			continue
		}
		r.eval(fmt.Sprintf("modulo %d, signer %d of %d, message %d: %d draws", p, pi+1, n, k, all))
		if int64(len(seen)) < all {
			r.find("C27:ring:draws", "modulo %d, signer %d of %d, message %d: %d draws make %d different signatures only", p, pi+1, n, k, all, len(seen))
		}
		if n == 1 {
			continue
		}
		for i, c := range share {
			for v := int64(1); v < p-1; v++ {
				if 2*c[fmt.Sprint(v)] < all/(p-1) {
					r.find("C27:ring:share", "modulo %d, signer %d of %d, message %d: component %d is %d in %d of %d signatures only", p, pi+1, n, k, i, v, c[fmt.Sprint(v)], all)
				}
			}
		}
	}
}

// commitDraws: every draw gives another commitment, another encryption
func commitDraws(r *Result, p int64) {
	s := tinySuite(p)
	q := (p - 1) / 2
	bits := bi(q).BitLen()
	draws := func(key string, what string, f func() string) {
		seen := map[string]bool{}
		for d := int64(1); d < q; d++ {
			c := &counting{prefixStream: forced(bi(d), bits)}
			size := len(c.b)
			var v string
			withStream(c, func() { v = f() })
			r.States++
			seen[v] = true
			if c.n > size {
				r.Notes = append(r.Notes, "more than one number drawn: not counted")
				return
			}
		}
		r.eval(fmt.Sprintf("modulo %d, %s", p, what))
		if int64(len(seen)) < q-1 {
			r.find("C27:"+key, "modulo %d, %s: %d draws make %d different ones only", p, what, q-1, len(seen))
		}
	}
	for gt := int64(1); gt < q; gt += 3 {
		for ht := int64(1); ht < q; ht++ {
			b := pedersenBases(s, bi(gt), bi(ht))
			for x := int64(0); x < q; x += 1 + q/12 {
				draws("commitment", fmt.Sprintf("commitments to %d under bases %d and %d", x, gt, ht), func() string {
					c, _ := b.Commit(secretOf(s, bi(x)))
					return pointVal(c).String()
				})
			}
			draws("randomize", fmt.Sprintf("randomizations under bases %d and %d", gt, ht), func() string {
				c, _ := b.Randomize(s.Point().Mul(nil, secretOf(s, bi(ht))))
				return pointVal(c).String()
			})
		}
	}
	for pk := int64(1); pk < q; pk++ {
		for m := int64(0); m < q; m++ {
			for i, name := range []string{"ephemeral keys", "blinded values"} {
				i := i
				draws("encryption", fmt.Sprintf("%s of %d under key %d", name, m, pk), func() string {
					var pts [2]abstract.Point
					pts[0], pts[1], _ = util.ElGamalEncrypt(s, s.Point().Mul(nil, secretOf(s, bi(pk))), s.Point().Mul(nil, secretOf(s, bi(m))))
					return pointVal(pts[i]).String()
				})
			}
		}
	}
}

// mask recomputed, in each way the witness may have been chosen
type mask struct {
	name string
	v    []*big.Int
	bits int
}

// judge: every mask is long, and no two are the same or nearly so
func judge(r *Result, label string, masks, others []mask) {
	for _, m := range masks {
		for _, v := range m.v {
			if v.BitLen() < m.bits-40 {
				r.find("C27:short:"+m.name, "%s: the mask of %s has %d bits instead of %d", label, m.name, v.BitLen(), m.bits)
			}
		}
	}
	for i, m := range masks {
		for j, o := range append(append([]mask{}, masks...), others...) {
			if j <= i {
				continue
			}
			bits := m.bits
			if o.bits < bits {
				bits = o.bits
			}
			for _, v := range m.v {
				for _, w := range o.v {
					if new(big.Int).Sub(v, w).BitLen() < bits-40 || new(big.Int).Add(v, w).BitLen() < bits-40 {
						r.find("C27:same:"+m.name+":"+o.name, "%s: %s and %s have (nearly) the same mask", label, m.name, o.name)
					}
				}
			}
		}
	}
}

// far: dividing a response by the challenge does not give the secret away
func far(r *Result, label, name string, response, challenge, secret *big.Int) {
	d := new(big.Int).Div(response, challenge)
	d.Sub(d, secret)
	if d.BitLen() < secret.BitLen()-8 {
		r.find("C27:divided:"+name, "%s: the response for %s divided by the challenge gives all but %d of the %d bits of the secret", label, name, d.BitLen(), secret.BitLen())
	}
}

// openings of commitments and the numbers behind honesty proofs
func openings(r *Result, deployed, th bool) {
	base, pub := foBases("masks", deployed)
	n := 40
	if th {
		n = 200
	}
	withRandom(fmt.Sprint("masks, openings", deployed), func() {
		var ms []mask
		bits := base.RandomRadius.BitLen()
		for i := 0; i < n; i++ {
			_, o := pub.Commit(bi(int64(i % 4)))
			ms = append(ms, mask{fmt.Sprintf("opening %d", i%4), []*big.Int{o}, bits})
			r.eval(fmt.Sprint("opening ", i))
		}
		judge(r, "openings", ms, nil)
		var hs []mask
		for i := 0; i < 1+n/100; i++ {
			secrets, _ := base.GenerateAllGnHonestyProof()
			for k, s := range secrets {
				hs = append(hs, mask{"honesty answer", []*big.Int{s}, base.N.BitLen()})
				r.eval(fmt.Sprint("honesty proof ", i, ", number ", k))
			}
		}
		judge(r, "honesty proofs", hs, nil)
		alphas := []mask{}
		for i, a := range base.VerifAlphas() {
			alphas = append(alphas, mask{fmt.Sprintf("exponent of base %d", i+1), []*big.Int{a}, bits})
		}
		judge(r, "bases", alphas, nil)
	})
}

// proofMasks: non-negativity and equality proofs of x, the masks recomputed
func proofMasks(r *Result, x int64, deployed, th bool) {
	_, fb := foBases("masks", deployed)
	rounds := 3
	if th {
		rounds = 8
	}
	X := bi(x)
	root := int64(0)
	for root*root <= 4*x+1 {
		root++
	}
	withRandom(fmt.Sprint("masks, proofs", deployed, x), func() {
		comm, rc := fb.Commit(X)
		secrets := []mask{{"the opening", []*big.Int{rc}, fb.RandomRadius.BitLen()}}
		bits := fb.RandomRadius.BitLen()
		var before []mask
		reused := map[string]string{}
		full := foGroup{fb}
		for k := 0; k < rounds && !r.late(); k++ {
			label := fmt.Sprintf("non-negativity of %d, proof %d", x, k+1)
			arg := fb.ProveNonneg(X, comm, rc)
			r.eval(label)
			e := nonnegE(&comm.V, arg.C, arg.Cr, arg.Commitrx)
			if !fb.VerifyNonneg(comm, arg) {
				r.find("C27:refused", "%s: refused", label)
				return
			}
			off := func(v *big.Int, m *big.Int) *big.Int { return new(big.Int).Sub(v, new(big.Int).Mul(m, e)) }
			squares := func(name string, v *big.Int) mask {
				m := mask{name: name, bits: bits}
				for a := -root; a <= root; a++ {
					m.v = append(m.v, off(v, bi(a)))
				}
				return m
			}
			rrx := off(arg.R, rc)
			masks := []mask{
				{"the value", []*big.Int{off(arg.X_, X)}, bits},
				squares("the first root", arg.A_), squares("the second root", arg.B_), squares("the third root", arg.D_),
				{"the opening in the response", []*big.Int{rrx}, bits},
			}
			judge(r, label, masks, append(append([]mask{}, before...), secrets...))
			before = append(before, masks...)
			far(r, label, "the opening", arg.R, e, rc)
			// the other opening is not known: what it takes to cover it is
			if arg.R_.BitLen() < e.BitLen()+bits+20 {
				r.find("C27:short:R", "%s: the response for the second commitment has %d bits, which does not cover an opening of %d", label, arg.R_.BitLen(), bits)
			}
			if new(big.Int).Mod(arg.R_, e).BitLen() < e.BitLen()-60 {
				r.find("C27:short:R", "%s: the response for the second commitment is a multiple of the challenge, nearly", label)
			}
			// and it is none of the other numbers
			ra, rb, rd := masks[1].v, masks[2].v, masks[3].v
			for a := int64(0); a <= root; a++ {
				for b := int64(0); b <= root; b++ {
					for d := int64(0); d <= root; d++ {
						if a*a+b*b+d*d != 4*x+1 {
							continue
						}
						delta := new(big.Int).Mul(bi(4), masks[0].v[0])
						for _, t := range []struct {
							n int64
							v *big.Int
						}{{a, ra[a+root]}, {b, rb[b+root]}, {d, rd[d+root]}} {
							delta.Sub(delta, new(big.Int).Mul(bi(2*t.n), t.v))
						}
						blind := full.prod(map[*fujiokam.Point]*big.Int{fb.G2: bi(-x), fb.G3: bi(-a), fb.G4: bi(-b), fb.G5: bi(-d), fb.G6: delta.Neg(delta)})
						blind.Mul(blind, arg.C).Mod(blind, fb.N)
						if reused[blind.String()] == "" {
							for name, v := range map[string]*big.Int{"zero": bi(0), "one": bi(1), "the value's mask": masks[0].v[0], "the first root's mask": ra[a+root], "the second root's mask": rb[b+root], "the third root's mask": rd[d+root], "the opening": rc, "the opening's mask": rrx} {
								for _, w := range []*big.Int{v, new(big.Int).Neg(v)} {
									if new(big.Int).Exp(&fb.H1.V, w, fb.N).Cmp(blind) == 0 {
										r.find("C27:reused", "%s: the second commitment is covered by %s", label, name)
									}
								}
							}
							reused[blind.String()] = label
						} else if reused[blind.String()] != label {
							r.find("C27:reused", "%s: the second commitment is covered as in %s", label, reused[blind.String()])
						}
					}
				}
			}
			if q := new(big.Int).Mod(new(big.Int).Sub(arg.R_, rrx), e); q.BitLen() < e.BitLen()-60 {
				r.find("C27:same:R", "%s: both openings have the same mask", label)
			}
			r.eval(fmt.Sprint(label, ", masks"))
		}
	})
	withRandom(fmt.Sprint("masks, equality", deployed, x), func() {
		suite := qr512
		pb := pedersenBases(suite, secretVal(suite.Secret().Pick(random.Stream)), bi(1))
		px := secretOf(suite, X)
		pc, rp := pb.Commit(px)
		fc, rf := fb.Commit(X)
		P := secretVal(rp)
		q := suite.Secret().(*nist.Int).M
		secrets := []mask{{"the Pedersen opening", []*big.Int{P}, q.BitLen()}, {"the other opening", []*big.Int{rf}, fb.RandomRadius.BitLen()}}
		var before []mask
		for k := 0; k < rounds && !r.late(); k++ {
			label := fmt.Sprintf("equality of %d, proof %d", x, k+1)
			arg := pedersen_fujiokam.ProveEqual(pb, fb, px, pc, rp, fc, rf)
			r.eval(label)
			if !pedersen_fujiokam.VerifyEqual(pb, fb, pc, fc, arg) {
				r.find("C27:refused", "%s: refused", label)
				return
			}
			off := func(v, m *big.Int) *big.Int { return new(big.Int).Sub(v, new(big.Int).Mul(m, arg.C)) }
			t2 := off(arg.S2, P)
			masks := []mask{
				{"the value", []*big.Int{off(arg.S1, X)}, q.BitLen()},
				{"the Pedersen opening in the response", []*big.Int{new(big.Int).Mod(t2, q)}, q.BitLen()},
				{"the other opening in the response", []*big.Int{off(arg.S3, rf)}, fb.RandomRadius.BitLen()},
			}
			judge(r, label, masks, append(append([]mask{}, before...), secrets...))
			before = append(before, masks...)
			far(r, label, "the Pedersen opening", arg.S2, arg.C, P)
			far(r, label, "the other opening", arg.S3, arg.C, rf)
			r.eval(fmt.Sprint(label, ", masks"))
		}
	})
}

// overhearing records what a prover says and is told, message by message
type overhearing struct {
	proof.ProverContext
	said, told [][]interface{}
}

func (c *overhearing) Put(m interface{}) error {
	c.said = append(c.said, elements(reflect.ValueOf(m)))
	return c.ProverContext.Put(m)
}

func (c *overhearing) PubRand(m ...interface{}) error {
	err := c.ProverContext.PubRand(m...)
	var l []interface{}
	for _, x := range m {
		l = append(l, elements(reflect.ValueOf(x))...)
	}
	c.told = append(c.told, l)
	return err
}

// shuffleMasks: nothing a shuffle's prover publishes comes twice, and its masks,
// as far as whoever knows the permutation can recompute them, are all different
func shuffleMasks(r *Result, s abstract.Suite, kind string, k, runs int) {
	t := shuffleInput(s, kind, k)
	seen := map[string]string{}
	note := func(what string, e interface{}) {
		key := fmt.Sprint(e)
		if _, point := e.(abstract.Point); point {
			key = "point " + key
		}
		if o, ok := seen[key]; ok {
			r.find("C27:shuffle", "%s, %d elements: %s is the same as %s", kind, k, what, o)
		}
		seen[key] = what
	}
	for n := 0; n < runs && !r.late(); n++ {
		c := &overhearing{}
		_, pi, bad := t.shuffle(fmt.Sprint("masks ", kind, k, n), func(ctx proof.ProverContext) proof.ProverContext {
			c.ProverContext = ctx
			return c
		})
		if bad != "" {
			r.find("C27:shuffle:none", "%s, %d elements: %s", kind, k, bad)
			return
		}
		r.eval(fmt.Sprintf("%s, %d elements, proof %d", kind, k, n+1))
		for o, i := range pi {
			note(fmt.Sprintf("proof %d, the mask of output %d", n+1, o+1), s.Point().Sub(t.Xb[o], t.X[i]))
		}
		for m, l := range c.said {
			if m == 0 { // the statement
				continue
			}
			for i, e := range l {
				note(fmt.Sprintf("proof %d, message %d, element %d", n+1, m+1, i+1), e)
			}
		}
		// W = sigma - rho + U, in the exponents of the base
		if len(c.said) < 4 || len(c.told) < 1 || len(c.said[1]) != 4*k+3 || len(c.told[0]) != k || len(c.said[3]) != k+1 {
			r.Notes = append(r.Notes, "the proof is laid out otherwise: its masks are not recomputed")
			continue
		}
		g := t.base()
		for i := 0; i < k; i++ {
			sigma, ok1 := c.said[3][i].(abstract.Secret)
			rho, ok2 := c.told[0][pi[i]].(abstract.Secret)
			u, ok3 := c.said[1][1+2*k+pi[i]].(abstract.Point)
			if !ok1 || !ok2 || !ok3 {
				continue
			}
			w := s.Point().Mul(g, s.Secret().Sub(sigma, rho))
			note(fmt.Sprintf("proof %d, what masks output %d", n+1, i+1), w.Add(w, u))
		}
	}
}

// biffleMasks: nothing a two-element shuffle's prover publishes comes twice
func biffleMasks(r *Result, s abstract.Suite, runs int) {
	t := shuffleInput(s, "distinct", 2)
	seen := map[string]string{}
	for n := 0; n < runs; n++ {
		c := &overhearing{}
		_, bad := t.biffle(fmt.Sprint("masks ", n), func(ctx proof.ProverContext) proof.ProverContext {
			c.ProverContext = ctx
			return c
		})
		if bad != "" {
			r.find("C27:biffle:none", "%s", bad)
			return
		}
		r.eval(fmt.Sprintf("two-element shuffle, proof %d", n+1))
		for o := 0; o < 2; o++ {
			for i := 0; i < 2; i++ {
				x, y := s.Point().Sub(t.Xb[o], t.X[i]), s.Point().Sub(t.Yb[o], t.Y[i])
				if !s.Point().Mul(x, secretOf(s, t.xh)).Equal(y) {
					continue
				}
				what := fmt.Sprintf("proof %d, the mask of output %d", n+1, o+1)
				if was, ok := seen["mask "+x.String()]; ok || x.Equal(s.Point().Null()) {
					r.find("C27:biffle:mask", "two-element shuffle: %s is neutral or %s", what, was)
				}
				seen["mask "+x.String()] = what
			}
		}
		for m, l := range c.said {
			if m == 0 { // the statement
				continue
			}
			for i, e := range l {
				what := fmt.Sprintf("proof %d, message %d, element %d", n+1, m+1, i+1)
				key := fmt.Sprintf("%T %v", e, e)
				if o, ok := seen[key]; ok {
					r.find("C27:biffle", "two-element shuffle: %s is the same as %s", what, o)
				}
				seen[key] = what
			}
		}
	}
}

// shuffleNumbers: in a group small enough to take logarithms, every number the
// prover draws is recomputed; no two are the same in one proof after the other
func shuffleNumbers(r *Result, k, runs int) {
	p := int64(1 << 19)
	for !bi(p).ProbablyPrime(20) || !bi((p-1)/2).ProbablyPrime(20) {
		p++
	}
	s := tinySuite(p)
	q := (p - 1) / 2
	logs := map[int64]int64{}
	for i, x := int64(0), int64(1); i < q; i, x = i+1, x*4%p {
		logs[x] = i
	}
	log := func(e interface{}) *big.Int {
		return bi(logs[pointVal(e.(abstract.Point)).Int64()])
	}
	z := zq{bi(q)}
	same := map[string]int{}
	n := 0
	for run := 0; run < runs; run++ {
		t := shuffleInput(s, fmt.Sprint("distinct ", run), k)
		c := &overhearing{}
		prf, pi, bad := t.shuffle(fmt.Sprint("numbers ", k, run), func(ctx proof.ProverContext) proof.ProverContext {
			c.ProverContext = ctx
			return c
		})
		if bad != "" || !t.verify(prf) { // so small a group has its accidents
			r.count("proofs left out", 1)
			continue
		}
		if len(c.said) < 4 || len(c.told) < 1 || len(c.said[1]) != 4*k+3 || len(c.told[0]) != k || len(c.said[3]) != k+1 {
			r.Notes = append(r.Notes, "the proof is laid out otherwise: its numbers are not recomputed")
			return
		}
		sec := func(e interface{}) *big.Int { return secretVal(e.(abstract.Secret)) }
		vals := map[string]*big.Int{"0": bi(0), "1": bi(1), "gamma": log(c.said[1][0])}
		tau := z.n(0)
		for i := 0; i < k; i++ {
			u := log(c.said[1][1+2*k+i])
			vals[fmt.Sprintf("a%d", i)] = log(c.said[1][1+i])
			vals[fmt.Sprintf("u%d", i)] = u
			vals[fmt.Sprintf("w%d", i)] = z.div(log(c.said[1][1+3*k+i]), vals["gamma"])
			for o, j := range pi {
				if j == i {
					beta := log(s.Point().Sub(t.Xb[o], t.X[i]))
					vals[fmt.Sprintf("beta%d", i)] = beta
					tau = z.add(tau, z.mul(beta, z.sub(sec(c.told[0][i]), u)))
				}
			}
		}
		vals["tau"] = z.sub(tau, sec(c.said[3][k]))
		n++
		for a, v := range vals {
			for b, w := range vals {
				if a < b && (v.Cmp(w) == 0 || z.add(v, w).Sign() == 0) {
					same[a+" and "+b]++
				}
			}
		}
		r.eval(fmt.Sprintf("numbers of a shuffle proof of %d, run %d", k, run))
	}
	for pair, m := range same {
		if n > 2 && m == n {
			r.find("C27:shuffle:numbers", "shuffle proofs of %d elements: %s are the same in each of %d proofs", k, pair, n)
		}
	}
}

// requestMasks: what clients and coordinator draw for requests and openings, in
// one round after the other
func requestMasks(r *Result, servers, clients int, th bool) {
	l := newLab(r, servers, clients, 2)
	rounds := 2
	if th {
		rounds = 5
	}
	q := qr512.Secret().(*nist.Int).M
	var all []mask
	covers := map[string]string{}
	hex := func(s string) *big.Int {
		n, ok := new(big.Int).SetString(s, 16)
		if !ok {
			panic("harness: " + s)
		}
		return n
	}
	cover := func(what string, v *big.Int) {
		if o, ok := covers[v.String()]; ok {
			r.find("C27:cover", "%s is the same as %s", what, o)
		}
		covers[v.String()] = what
	}
	for round := 1; round <= rounds && !r.late(); round++ {
		var openings []mask
		for i := 0; i < clients; i++ {
			openings = append(openings, mask{"a client's opening", []*big.Int{hex(l.dv(i).R)}, q.BitLen()})
		}
		judge(r, fmt.Sprintf("round %d, %d servers", round, servers), openings, all)
		all = append(all, openings...)
		for i := 0; i < clients; i++ {
			v := l.dv(i)
			R := hex(v.R)
			for k, ind := range []int{0, 0, 1, v.Reputation, 2, 0} {
				if ind > v.Reputation {
					continue
				}
				in := Input{Op: "request", I: ind}
				label := fmt.Sprintf("round %d, client %d, request %d for %d", round, i, k+1, ind)
				b := l.grab(cli(i), in)
				l.op(cli(i), in)
				r.States++
				r.Transitions++
				if b == nil {
					r.find("C27:request", "%s is not sent", label)
					continue
				}
				r.eval(label)
				p := paramsOf(b)
				x := bi(int64(v.Reputation - ind))
				raw := func(key string) []byte { b, _ := p[key].([]byte); return b }
				rind := new(big.Int).SetBytes(raw("rind"))
				_, fb := (&reqLab{l}).bases(i)
				focomm := new(big.Int).SetBytes(raw("FOCommd"))
				nn, eq := util.DecodeARGnonneg(raw("arg_nonneg")), util.DecodeARGequal(raw("arg_equal"))
				e := nonnegE(focomm, nn.C, nn.Cr, nn.Commitrx)
				off := func(v, m, c *big.Int) *big.Int { return new(big.Int).Sub(v, new(big.Int).Mul(m, c)) }
				rd := new(big.Int).Sub(R, rind)
				rd.Mod(rd, q)
				covered := foGroup{fb}.prod(map[*fujiokam.Point]*big.Int{foPoint(fb, focomm): bi(1), fb.G1: new(big.Int).Neg(x)})
				cover(label+", the cover of its commitment", covered)
				for name, o := range map[string]*big.Int{"zero": bi(0), "one": bi(1), "the indicator's opening": rind, "the opening": R, "their difference": rd} {
					for _, o := range []*big.Int{o, new(big.Int).Neg(o)} {
						if new(big.Int).Exp(&fb.H1.V, o, fb.N).Cmp(covered) == 0 {
							r.find("C27:cover", "%s: the commitment is covered by %s", label, name)
						}
					}
				}
				bits := fb.RandomRadius.BitLen()
				ms := []mask{
					{"the indicator's opening", []*big.Int{rind}, q.BitLen()},
					{"the value in the non-negativity argument", []*big.Int{off(nn.X_, x, e)}, bits},
					{"the value in the equality argument", []*big.Int{off(eq.S1, x, eq.C)}, q.BitLen()},
					{"the opening in the equality argument", []*big.Int{new(big.Int).Mod(off(eq.S2, rd, eq.C), q)}, q.BitLen()},
				}
				judge(r, label, ms, all)
				all = append(all, ms...)
				far(r, label, "the opening", eq.S2, eq.C, rd)
			}
		}
		d := l.w.e.step(l.coord(), Input{Op: "vote"})
		d = l.w.e.step(d, Input{Op: "roundend"})
		for _, m := range d.Outs {
			if m.Type != proto.BCAST_PEDERSEN_RDIFF {
				continue
			}
			b, _ := paramsOf(m.Bytes)["rDiffs"].([]byte)
			var ms []mask
			for _, x := range util.ProtobufDecodeSecretList(b) {
				ms = append(ms, mask{"a change of opening", []*big.Int{secretVal(x)}, q.BitLen()})
			}
			judge(r, fmt.Sprintf("end of round %d", round), ms, all)
			all = append(all, ms...)
			r.eval(fmt.Sprintf("end of round %d, %d openings", round, len(ms)))
			break
		}
		l.endRound()
	}
}

// joinMasks: the openings newcomers are given, in one round after the other
func joinMasks(r *Result, servers, clients int) {
	l := newLab2(r, servers, clients, 1, 1)
	q := qr512.Secret().(*nist.Int).M
	var all []mask
	opening := func(name, v string) {
		n, ok := new(big.Int).SetString(v, 16)
		if !ok {
			r.find("C27:none", "%s is missing", name)
			return
		}
		m := []mask{{name, []*big.Int{n}, q.BitLen()}}
		judge(r, fmt.Sprintf("newcomers, %d servers", servers), m, all)
		all = append(all, m...)
		r.eval(name)
	}
	opening("the coordinator's key", l.cv().PriKey)
	for c := 0; c < clients; c++ {
		opening(fmt.Sprintf("client %d's key", c), l.dv(c).PriKey)
	}
	for c := 1; c < clients; c++ {
		l.op(cli(c), Input{Op: "register"})
		r.States++
		r.Transitions++
		opening(fmt.Sprintf("client %d's first opening", c), l.dv(c).R)
		if c%2 == 0 {
			l.endRound()
			for d := 0; d <= c; d++ {
				opening(fmt.Sprintf("client %d's opening after %d joined", d, c), l.dv(d).R)
			}
		}
	}
}
