package main

// C20: linkable ring signatures.

import (
	"fmt"
	"math/big"

	"zRep/primitive/lrs"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func init() {
	register(&Prop{ID: "C20", Level: "exploration", Budget: 85,
		Rule:   "every ring size and signer to the bound with every message, key kind and kind of draws; every alteration of every component, every other message and ring, every number of members; all pairs of signers; enumerated strategies of forgers and of members who vary their linking value; distinct by group, ring, signer, message, alteration or strategy",
		Assume: []string{"61-bit group: a false signature passes by luck once in 2^60", "the public keys of a ring are different and squares, as the suite makes them"},
		Jobs:   ringJobs})
}

// ring of members with their secrets
type ring struct {
	name string
	b    *lrs.LRSBase
	q    *big.Int // order of the squares
	x, y []*big.Int
}

func ringBase(deployed bool) (*lrs.LRSBase, abstract.Suite) {
	if deployed {
		return lrs.CreateBase(bi(4)), qr512
	}
	s := fastSuite()
	p := dec("2305843009213691579")
	return &lrs.LRSBase{Suite: s, P: p, Q: new(big.Int).Sub(p, bi(1)), G: bi(4)}, s
}

// newRing: kind 0 arbitrary keys, 1 the smallest, 2 the largest, 3 public keys with a leading zero byte
func newRing(deployed bool, n, kind int) *ring {
	b, s := ringBase(deployed)
	g := &ring{name: fmt.Sprintf("61 bits, %d members, keys %d", n, kind), b: b, q: new(big.Int).Rsh(b.P, 1)}
	if deployed {
		g.name = fmt.Sprintf("deployed, %d members, keys %d", n, kind)
	}
	size := s.Point().MarshalSize()
	for i := 0; len(g.x) < n; i++ {
		var x *big.Int
		switch kind {
		case 1:
			x = bi(int64(i))
		case 2:
			x = new(big.Int).Sub(g.q, bi(int64(i+1)))
		default:
			x = secretVal(s.Secret().Pick(newPRF(prfKey("ring key", deployed, n, i))))
		}
		y := new(big.Int).Exp(b.G, x, b.P)
		if kind == 3 && len(y.Bytes()) == size {
			continue
		}
		g.x, g.y = append(g.x, x), append(g.y, y)
	}
	return g
}

func (g *ring) n() int { return len(g.y) }

func (g *ring) sign(m []byte, pi int, key ...interface{}) (sig *lrs.Signature) {
	withStream(newPRF(prfKey(append([]interface{}{"ring", g.name, m, pi}, key...)...)), func() {
		sig = g.b.SignHelper(m, g.n(), pi, g.x[pi], g.y)
	})
	return
}

func copyInts(l []*big.Int) (c []*big.Int) {
	for _, x := range l {
		c = append(c, new(big.Int).Set(x))
	}
	return
}

func copySig(s *lrs.Signature) *lrs.Signature {
	return &lrs.Signature{Y0: new(big.Int).Set(s.Y0), S: copyInts(s.S), C: copyInts(s.C)}
}

func sigText(s *lrs.Signature) string { return fmt.Sprint(s.Y0, s.S, s.C) }

// accepted runs the verifier; a panic is a refusal
func accepted(b *lrs.LRSBase, m []byte, n, pi int, sig *lrs.Signature, y []*big.Int) (ok bool) {
	panics(func() { ok = b.VerifyHelper(m, n, pi, sig, y) })
	return
}

func ringMessages() [][]byte {
	long := make([]byte, 1000)
	for i := range long {
		long[i] = byte(i)
	}
	return [][]byte{nil, {0}, []byte("feedback"), {0xff, 0}, long}
}

func ringJobs(th bool) (jobs []Job) {
	max := 6
	if th {
		max = 10
	}
	for n := 1; n <= max; n++ {
		n := n
		jobs = append(jobs, Job{Name: fmt.Sprintf("61 bits: honest signers, %d members", n), Run: func(r *Result) { honestRings(r, false, n) }})
	}
	dmax, amax := 3, 4
	if th {
		dmax, amax = 6, 6
	}
	for n := 1; n <= dmax; n++ {
		n := n
		jobs = append(jobs, Job{Name: fmt.Sprintf("deployed: honest signers, %d members", n), Run: func(r *Result) { honestRings(r, true, n) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("deployed: alterations, %d members", n), Run: func(r *Result) { alteredRings(r, true, n, th) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("deployed: forgers, %d members", n), Run: func(r *Result) { forgedRings(r, true, n) }})
	}
	for n := 1; n <= amax; n++ {
		n := n
		jobs = append(jobs, Job{Name: fmt.Sprintf("61 bits: alterations, %d members", n), Run: func(r *Result) { alteredRings(r, false, n, true) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("61 bits: forgers, %d members", n), Run: func(r *Result) { forgedRings(r, false, n) }})
	}
	for _, d := range []bool{false, true} {
		d := d
		jobs = append(jobs, Job{Name: fmt.Sprintf("different messages and rings, deployed %v", d), Run: func(r *Result) { unlinkedRings(r, d) }})
	}
	for _, d := range []bool{false, true} {
		d := d
		jobs = append(jobs, Job{Name: fmt.Sprintf("huge messages, deployed %v", d), Run: func(r *Result) { hugeRingMessages(r, d, th) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("large rings, deployed %v", d), Run: func(r *Result) { largeRings(r, d, th) }})
	}
	small := []int64{23}
	if th {
		small = []int64{11, 23, 47}
	}
	for _, p := range small {
		p := p
		jobs = append(jobs, Job{Name: fmt.Sprintf("modulo %d: every key and draw", p), Run: func(r *Result) { smallRings(r, p) }})
	}
	return
}

// smallRings: two members, all keys, all draws of the signer
func smallRings(r *Result, p int64) {
	s := tinySuite(p)
	b := &lrs.LRSBase{Suite: s, P: bi(p), Q: bi(p - 1), G: bi(4)}
	q := (p - 1) / 2
	bits := b.Q.BitLen()
	for x1 := int64(0); x1 < q; x1++ {
		for x2 := int64(0); x2 < q && !r.late(); x2++ {
			if x1 == x2 {
				continue
			}
			y := []*big.Int{new(big.Int).Exp(b.G, bi(x1), b.P), new(big.Int).Exp(b.G, bi(x2), b.P)}
			for pi, x := range []int64{x1, x2} {
				for d := int64(0); d < (p-1)*(p-1)*(p-1); d += 5 {
					ds := []*big.Int{bi(d % (p - 1)), bi(d / (p - 1) % (p - 1)), bi(d / (p - 1) / (p - 1))}
					if p > 23 && d%7 != 0 {
						continue
					}
					var st []byte
					for _, v := range ds {
						st = append(st, forced(v, bits).b...)
					}
					m := []byte{byte(d)}
					withStream(&prefixStream{b: st, rest: newPRF(prfKey("small ring", d))}, func() {
						sig := b.SignHelper(m, 2, pi, bi(x), y)
						if sig.Y0.Sign() == 0 { // the message's hash is a multiple of so small a modulus
							r.count("messages hashed to 0 left out", 1)
							return
						}
						r.eval("")
						if !b.VerifyHelper(m, 2, pi, sig, y) {
							r.find("C20:complete:small", "modulo %d, keys %d and %d, signer %d, draws %v: refused", p, x1, x2, pi, ds)
						}
					})
				}
				r.eval(fmt.Sprintf("modulo %d, keys %d and %d, signer %d", p, x1, x2, pi))
			}
		}
	}
}

func honestRings(r *Result, deployed bool, n int) {
	for kind := 0; kind < 4; kind++ {
		if kind == 3 && deployed && n > 2 {
			continue
		}
		g := newRing(deployed, n, kind)
		_, s := ringBase(deployed)
		var pts []abstract.Point
		for _, y := range g.y {
			pts = append(pts, pointOf(s, y))
		}
		for mi, m := range ringMessages() {
			sigs := map[int][]*lrs.Signature{}
			yBefore, mBefore := fmt.Sprint(g.y), string(m)
			for pi := 0; pi < n && !r.late(); pi++ {
				for d := 0; d < 5; d++ {
					var sig *lrs.Signature
					what := fmt.Sprintf("%s, message %d, signer %d, draws %d", g.name, mi, pi, d)
					bits := g.b.Q.BitLen()
					sign := func() { sig = g.b.SignHelper(m, n, pi, g.x[pi], g.y) }
					if d == 4 {
						sign = func() { sig = g.b.Sign(m, n, pi, secretOf(s, g.x[pi]), pts) }
					}
					xBefore := g.x[pi].String()
					var st []byte // kinds of draws: arbitrary, all smallest, all largest, half and half
					for k := 0; k < 2*n-1; k++ {
						v := bi(1)
						if d == 2 || d == 3 && k%2 == 0 {
							v = new(big.Int).Sub(g.b.Q, bi(1))
						}
						st = append(st, forced(v, bits).b...)
					}
					if d == 0 || d == 4 {
						st = nil
					}
					withStream(&prefixStream{b: st, rest: newPRF(prfKey("C20", what))}, sign)
					r.eval(what)
					text := sigText(sig)
					if !g.b.VerifyHelper(m, n, pi, sig, g.y) || !g.b.Verify(m, n, (pi+1)%n, sig, pts) {
						r.find("C20:complete", "%s: the signature is refused", what)
					}
					if fmt.Sprint(g.y) != yBefore || g.x[pi].String() != xBefore || string(m) != mBefore {
						r.find("C20:operands", "%s: signing or verifying changes the message, the ring or the key", what)
					}
					if sigText(sig) != text {
						r.find("C20:operands:signature", "%s: verifying changes the signature", what)
					}
					dsig := lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(sig))
					if sigText(dsig) != text || !g.b.VerifyHelper(m, n, pi, dsig, g.y) {
						r.find("C20:encoded", "%s: the signature is refused after encoding and decoding", what)
					}
					sigs[pi] = append(sigs[pi], sig, dsig)
				}
			}
			for i, a := range sigs {
				for j, b := range sigs {
					for _, x := range a {
						for _, y := range b {
							r.eval("")
							if lrs.Linkable(x, y) != (i == j) {
								r.find(fmt.Sprintf("C20:link:%v", i == j), "%s, message %d: signatures of members %d and %d are linked: %v", g.name, mi, i, j, i != j)
							}
						}
					}
				}
			}
		}
	}
}

func joined(ls ...[]*big.Int) (l []*big.Int) {
	for _, x := range ls {
		l = append(l, x...)
	}
	return
}

// unlinkedRings: nothing ties signatures on different messages or for different
// rings, and none share their randomness
func unlinkedRings(r *Result, deployed bool) {
	var rings []*ring
	base := newRing(deployed, 3, 0)
	for _, l := range [][]int{{0, 1, 2}, {0, 2, 1}, {2, 1, 0}, {0, 1}, {1, 0}, {0}, {0, 2}, {1, 2}} {
		g := &ring{name: fmt.Sprintf("%s, ring %v", base.name, l), b: base.b, q: base.q}
		for _, i := range l {
			g.x, g.y = append(g.x, base.x[i]), append(g.y, base.y[i])
		}
		rings = append(rings, g)
	}
	type made struct {
		what, event string
		sig         *lrs.Signature
		nonce       *big.Int
		x           *big.Int
	}
	var all []made
	for ri, g := range rings {
		for mi, m := range ringMessages() {
			for pi := range g.x {
				for k := 0; k < 3; k++ {
					sig := g.sign(m, pi, "unlinked", k)
					v := new(big.Int).Mul(sig.C[pi], g.x[pi])
					v.Add(v, sig.S[pi]).Mod(v, g.q)
					d := made{fmt.Sprintf("%s, message %d, signer %d, draws %d", g.name, mi, pi, k), fmt.Sprint(ri, mi), sig, v, g.x[pi]}
					r.eval(d.what)
					for _, o := range all {
						r.eval("")
						if o.event != d.event && lrs.Linkable(o.sig, d.sig) {
							r.find("C20:linked", "signatures on different messages or for different rings are linked: %s; %s", o.what, d.what)
						}
						if o.nonce.Cmp(d.nonce) == 0 && o.x.Cmp(d.x) == 0 {
							r.find("C20:nonce", "two signatures of a member share their randomness: %s; %s", o.what, d.what)
						}
						for _, a := range joined(o.sig.S, o.sig.C) {
							for _, b := range joined(d.sig.S, d.sig.C) {
								if a.Cmp(b) == 0 {
									r.find("C20:repeated", "two signatures share a component: %s; %s", o.what, d.what)
								}
							}
						}
					}
					all = append(all, d)
				}
			}
		}
	}
}

// equivalent: the same exponents for squares, and the same sum of challenges
func (g *ring) equivalent(a, b *lrs.Signature) bool {
	for _, x := range joined([]*big.Int{a.Y0, b.Y0}, a.S, a.C, b.S, b.C) {
		if x == nil {
			return false
		}
	}
	if len(a.S) != len(b.S) || len(a.C) != len(b.C) || a.Y0.Cmp(b.Y0) != 0 {
		return false
	}
	same := func(x, y, m *big.Int) bool { d := new(big.Int).Sub(x, y); return d.Mod(d, m).Sign() == 0 }
	sa, sb := new(big.Int), new(big.Int)
	for i := range a.C {
		sa.Add(sa, a.C[i])
		sb.Add(sb, b.C[i])
		if !same(a.C[i], b.C[i], g.q) {
			return false
		}
	}
	for i := range a.S {
		if !same(a.S[i], b.S[i], g.q) {
			return false
		}
	}
	return same(sa, sb, g.b.Q)
}

func alteredRings(r *Result, deployed bool, n int, all bool) {
	g := newRing(deployed, n, 0)
	ms := ringMessages()
	for mi, m := range ms {
		for pi := 0; pi < n; pi++ {
			if !all && (mi+pi)%3 != 0 {
				continue
			}
			sig := g.sign(m, pi)
			where := fmt.Sprintf("%s, message %d, signer %d", g.name, mi, pi)
			if !accepted(g.b, m, n, pi, sig, g.y) {
				r.find("C20:complete:alterations", "%s: the signature is refused", where)
				continue
			}
			check := func(label string, m []byte, n int, sig *lrs.Signature, y []*big.Int) {
				r.eval(where + ": " + label)
				if accepted(g.b, m, n, pi, sig, y) {
					r.find("C20:accepted:"+shortKey(label), "%s: accepted with %s", where, label)
				}
			}
			alter := func(label string, f func(s *lrs.Signature)) {
				if r.late() {
					return
				}
				t := copySig(sig)
				f(t)
				if !g.equivalent(t, sig) {
					check(label, m, n, t, g.y)
				}
			}
			field := func(name string, at func(s *lrs.Signature) **big.Int) {
				v := *at(sig)
				for k, x := range alterInts(v, g.b.P) {
					x := x
					alter(name+" "+k, func(s *lrs.Signature) { *at(s) = x })
				}
				for _, o := range []struct {
					name string
					v    *big.Int
				}{{"the order", g.q}, {"twice the order", g.b.Q}, {"the modulus", g.b.P}} {
					o := o
					alter(name+" plus "+o.name, func(s *lrs.Signature) { *at(s) = add(v, o.v) })
					alter(name+" minus "+o.name, func(s *lrs.Signature) { *at(s) = new(big.Int).Sub(v, o.v) })
					alter(name+" subtracted from "+o.name, func(s *lrs.Signature) { *at(s) = new(big.Int).Sub(o.v, v) })
					alter(name+" is "+o.name, func(s *lrs.Signature) { *at(s) = o.v })
				}
				bits := g.b.P.BitLen()
				for k := 0; k <= bits; k++ {
					if deployed && k%11 != 0 {
						continue
					}
					k := k
					alter(fmt.Sprintf("%s with bit %d flipped", name, k), func(s *lrs.Signature) {
						*at(s) = new(big.Int).Xor(v, new(big.Int).Lsh(bi(1), uint(k)))
					})
				}
				alter(name+" missing", func(s *lrs.Signature) { *at(s) = nil })
			}
			field("linking value", func(s *lrs.Signature) **big.Int { return &s.Y0 })
			for i := 0; i < n; i++ {
				i := i
				field(fmt.Sprintf("response %d", i), func(s *lrs.Signature) **big.Int { return &s.S[i] })
				field(fmt.Sprintf("challenge %d", i), func(s *lrs.Signature) **big.Int { return &s.C[i] })
				alter(fmt.Sprintf("response %d and challenge %d exchanged", i, i), func(s *lrs.Signature) { s.S[i], s.C[i] = s.C[i], s.S[i] })
				for j := 0; j < i; j++ {
					j := j
					alter(fmt.Sprintf("responses %d and %d exchanged", i, j), func(s *lrs.Signature) { s.S[i], s.S[j] = s.S[j], s.S[i] })
					alter(fmt.Sprintf("challenges %d and %d exchanged", i, j), func(s *lrs.Signature) { s.C[i], s.C[j] = s.C[j], s.C[i] })
					alter(fmt.Sprintf("components %d and %d exchanged", i, j), func(s *lrs.Signature) { s.C[i], s.C[j], s.S[i], s.S[j] = s.C[j], s.C[i], s.S[j], s.S[i] })
					for _, d := range []*big.Int{bi(1), bi(-1), bi(2), add(g.q, bi(1))} {
						d := d
						alter(fmt.Sprintf("%v moved from challenge %d to %d", d, i, j), func(s *lrs.Signature) {
							s.C[j] = add(s.C[j], d)
							s.C[i] = new(big.Int).Sub(s.C[i], d)
						})
					}
				}
				alter(fmt.Sprintf("response %d left out", i), func(s *lrs.Signature) { s.S = append(s.S[:i], s.S[i+1:]...) })
				alter(fmt.Sprintf("challenge %d left out", i), func(s *lrs.Signature) { s.C = append(s.C[:i], s.C[i+1:]...) })
				alter(fmt.Sprintf("component %d left out", i), func(s *lrs.Signature) {
					s.S = append(s.S[:i], s.S[i+1:]...)
					s.C = append(s.C[:i], s.C[i+1:]...)
				})
			}
			for _, v := range []*big.Int{bi(0), bi(1), g.q, g.b.Q} {
				v := v
				alter(fmt.Sprintf("%v behind the challenges", v), func(s *lrs.Signature) { s.C = append(s.C, v) })
				alter(fmt.Sprintf("%v behind the responses", v), func(s *lrs.Signature) { s.S = append(s.S, v) })
				alter(fmt.Sprintf("%v behind both", v), func(s *lrs.Signature) { s.S, s.C = append(s.S, v), append(s.C, v) })
				alter(fmt.Sprintf("%v in front of both", v), func(s *lrs.Signature) { s.S, s.C = append([]*big.Int{v}, s.S...), append([]*big.Int{v}, s.C...) })
			}
			alter("no components", func(s *lrs.Signature) { s.S, s.C = nil, nil })
			alter("nothing", func(s *lrs.Signature) { s.S, s.C, s.Y0 = nil, nil, nil })
			// component-wise donors
			for mj, o := range ms {
				for pj := 0; pj < n; pj++ {
					if !all && mj > 1 {
						continue
					}
					d := g.sign(o, pj, "donor")
					what := fmt.Sprintf("of a signature of message %d by member %d", mj, pj)
					alter("the linking value "+what, func(s *lrs.Signature) { s.Y0 = d.Y0 })
					alter("the responses "+what, func(s *lrs.Signature) { s.S = copyInts(d.S) })
					alter("the challenges "+what, func(s *lrs.Signature) { s.C = copyInts(d.C) })
					if mj == mi && pj == pi {
						continue
					}
					alter("responses and challenges "+what, func(s *lrs.Signature) { s.S, s.C = copyInts(d.S), copyInts(d.C) })
					if mj != mi {
						check(fmt.Sprintf("message %d", mj), o, n, sig, g.y)
						check("all parts "+what, m, n, d, g.y)
					}
				}
			}
			for k := 0; k < 3; k++ {
				check("a longer message", append(append([]byte{}, m...), byte(k)), n, sig, g.y)
				check("a longer message", append([]byte{byte(k)}, m...), n, sig, g.y)
			}
			if len(m) > 0 {
				check("a shorter message", m[1:], n, sig, g.y)
				check("a shorter message", m[:len(m)-1], n, sig, g.y)
				for i := 0; i < len(m); i += 1 + len(m)/40 {
					c := append([]byte(nil), m...)
					c[i] ^= 0x10
					check(fmt.Sprintf("message with byte %d altered", i), c, n, sig, g.y)
				}
			}
			// bytes between message and linking value or ring
			y0 := sig.Y0.Bytes()
			alter("the message's first byte moved", func(s *lrs.Signature) {
				if len(m) > 0 {
					s.Y0 = new(big.Int).SetBytes(append(append([]byte{}, y0...), m[0]))
				}
			})
			// other rings
			for i := 0; i < n; i++ {
				for _, v := range []*big.Int{bi(1), bi(4), bi(16), add(g.y[i], g.b.P), new(big.Int).Sub(g.b.P, g.y[i]), new(big.Int).Mod(new(big.Int).Mul(g.y[i], bi(4)), g.b.P)} {
					y := copyInts(g.y)
					y[i] = v
					check(fmt.Sprintf("%v in place of member %d", v, i), m, n, sig, y)
				}
				y := append(copyInts(g.y[:i]), copyInts(g.y[i+1:])...)
				check(fmt.Sprintf("a ring without member %d", i), m, n, sig, y)
				check(fmt.Sprintf("a ring without member %d, one less", i), m, n-1, sig, y)
				t := copySig(sig)
				t.S, t.C = append(t.S[:i], t.S[i+1:]...), append(t.C[:i], t.C[i+1:]...)
				check(fmt.Sprintf("ring and signature without member %d", i), m, n-1, t, y)
				check(fmt.Sprintf("only the first %d members looked at", i), m, i, sig, g.y)
				if i > pi {
					var t *lrs.Signature
					withStream(newPRF(prfKey("partial", where, i)), func() { t = g.b.SignHelper(m, i, pi, g.x[pi], g.y) })
					check(fmt.Sprintf("components for %d of the ring's members", i), m, i, t, g.y)
					check(fmt.Sprintf("components for %d of the ring's members, all looked at", i), m, n, t, g.y)
				}
			}
			check("one more member looked at", m, n+1, sig, g.y)
			check("no ring", m, 0, sig, nil)
			check("no ring, no components", m, 0, &lrs.Signature{Y0: sig.Y0}, nil)
			check("a ring with one more member", m, n+1, sig, append(copyInts(g.y), bi(4)))
			check("a ring with one more member, one less looked at", m, n, sig, append(copyInts(g.y), bi(4)))
			for _, v := range []*big.Int{bi(0), bi(1)} {
				t := copySig(sig)
				t.S, t.C = append(t.S, v), append(t.C, bi(0))
				check("ring and signature with one more member", m, n+1, t, append(copyInts(g.y), bi(16)))
			}
			for _, p := range allPermutations(n) {
				y, t := make([]*big.Int, n), &lrs.Signature{Y0: sig.Y0, S: make([]*big.Int, n), C: make([]*big.Int, n)}
				id := true
				for i, k := range p {
					y[i], t.S[i], t.C[i] = g.y[k], sig.S[k], sig.C[k]
					id = id && i == k
				}
				if !id {
					check(fmt.Sprintf("the ring in order %v", p), m, n, sig, y)
					check(fmt.Sprintf("ring and components in order %v", p), m, n, t, y)
				}
				if n > 5 {
					break
				}
			}
		}
	}
}

// ---------------------------------------------------------------- forgers

// ringForger simulates a signature; what it commits to, in the parts of the
// hash, is up to the strategy
type ringForger struct {
	g       *ring
	m       []byte
	h, y0   *big.Int
	s, c    []*big.Int
	z1, z2  []*big.Int
	L       []byte
	k       int
	drawKey []interface{}
}

func (f *ringForger) draw(limit *big.Int) *big.Int {
	f.k++
	return random.Int(limit, newPRF(prfKey(append(append([]interface{}{"ring forger", f.g.name, f.m}, f.drawKey...), f.k)...)))
}

func (g *ring) refH(parts ...[]byte) *big.Int {
	H := g.b.Suite.Hash()
	for _, p := range parts {
		H.Write(p)
	}
	return new(big.Int).SetBytes(H.Sum(nil))
}

func (g *ring) forger(m []byte, key ...interface{}) *ringForger {
	f := &ringForger{g: g, m: m, drawKey: key}
	for _, y := range g.y {
		f.L = append(f.L, y.Bytes()...)
	}
	H := g.b.Suite.Hash()
	H.Write(m)
	f.h = g.refH(H.Sum(nil), f.L)
	f.h.Exp(f.h, bi(2), g.b.P)
	n := g.n()
	f.s, f.c = make([]*big.Int, n), make([]*big.Int, n)
	f.z1, f.z2 = make([]*big.Int, n), make([]*big.Int, n)
	for i := range f.s {
		f.s[i], f.c[i] = f.draw(g.b.Q), f.draw(g.b.Q)
	}
	return f
}

func (f *ringForger) exp(b, e *big.Int) *big.Int { return new(big.Int).Exp(b, e, f.g.b.P) }
func (f *ringForger) mul(a, b *big.Int) *big.Int {
	x := new(big.Int).Mul(a, b)
	return x.Mod(x, f.g.b.P)
}

// simulate fills in what the verifier computes for the components
func (f *ringForger) simulate() {
	for i := range f.s {
		f.z1[i] = f.mul(f.exp(f.g.b.G, f.s[i]), f.exp(f.g.y[i], f.c[i]))
		f.z2[i] = f.mul(f.exp(f.h, f.s[i]), f.exp(f.y0, f.c[i]))
	}
}

// parts of the hash, in order: L, y0, m, z1.., z2..
func (f *ringForger) parts() (l [][]byte) {
	l = append(l, f.L, f.y0.Bytes(), f.m)
	for _, z := range f.z1 {
		l = append(l, z.Bytes())
	}
	for _, z := range f.z2 {
		l = append(l, z.Bytes())
	}
	return
}

// close sets challenge j so that the sum is h
func (f *ringForger) close(j int, h *big.Int) *big.Int {
	s := new(big.Int).Set(h)
	for i, c := range f.c {
		if i != j {
			s.Sub(s, c)
		}
	}
	f.c[j] = s.Mod(s, f.g.b.Q)
	return f.c[j]
}

func (f *ringForger) sig() *lrs.Signature { return &lrs.Signature{Y0: f.y0, S: f.s, C: f.c} }

func without(l [][]byte, drop ...int) (m [][]byte) {
	for i, b := range l {
		d := false
		for _, k := range drop {
			d = d || k == i
		}
		if !d {
			m = append(m, b)
		}
	}
	return
}

func forgedRings(r *Result, deployed bool, n int) {
	g := newRing(deployed, n, 0)
	P, Q, q := g.b.P, g.b.Q, g.q
	ms := ringMessages()[1:4]
	response := func(rr, c, x *big.Int) *big.Int {
		s := new(big.Int).Mul(c, x)
		s.Sub(rr, s)
		return s.Mod(s, Q)
	}
	for mi, m := range ms {
		refuse := func(label string, f *ringForger) {
			r.eval(fmt.Sprintf("%s, message %d: %s", g.name, mi, label))
			if accepted(g.b, m, n, 0, f.sig(), g.y) {
				r.find("C20:forged:"+shortKey(label), "%s, message %d: accepted, without a member's secret: %s", g.name, mi, label)
			}
		}
		// the forger's own secrets
		xs := []*big.Int{bi(0), bi(1), bi(2), q, add(g.x[0], bi(1)), dec("424242424242")}
		for xi, x0 := range xs {
			if r.late() {
				return
			}
			for j := 0; j < n; j++ {
				own := func(key ...interface{}) *ringForger {
					f := g.forger(m, append([]interface{}{xi, j}, key...)...)
					f.y0 = f.exp(f.h, x0)
					f.simulate()
					return f
				}
				name := func(s string, a ...interface{}) string {
					return fmt.Sprintf("forger with secret %d at %d: ", xi, j) + fmt.Sprintf(s, a...)
				}
				f := own("simulation")
				refuse(name("plain simulation"), f)
				f = own("closed")
				f.close(j, g.refH(f.parts()...))
				refuse(name("sum closed afterwards"), f)
				// a true signature for a key that is not in the ring, its z' hashed
				f = own("own key")
				rr := f.draw(Q)
				f.z1[j], f.z2[j] = f.exp(g.b.G, rr), f.exp(f.h, rr)
				f.s[j] = response(rr, f.close(j, g.refH(f.parts()...)), x0)
				refuse(name("as if in the ring"), f)
				// z'_j, or every z', replaced in the hash
				for k := 0; k < 6; k++ {
					f = own("no z'", k)
					rr := f.draw(Q)
					f.z1[j], f.z2[j] = f.exp(g.b.G, rr), f.exp(f.h, rr)
					var parts [][]byte
					what := ""
					switch k {
					case 0:
						what, parts = "its z' not hashed", without(f.parts(), 3+j)
					case 1:
						var d []int
						for i := 0; i < n; i++ {
							d = append(d, 3+i)
						}
						what, parts = "no z' hashed", without(f.parts(), d...)
					case 2:
						f.z1[j] = f.z2[j]
						what, parts = "z'' hashed for z'", f.parts()
					case 3:
						for i := range f.z1 {
							f.z1[i] = f.z2[i]
						}
						what, parts = "every z'' hashed for z'", f.parts()
					case 4:
						what, parts = "only the ring, linking value and message hashed", f.parts()[:3]
					case 5:
						f.z1[j] = bi(1)
						what, parts = "1 hashed for z'", f.parts()
					}
					f.s[j] = response(rr, f.close(j, g.refH(parts...)), x0)
					refuse(name(what), f)
				}
				// nothing but the ring's z' hashed while s is chosen for one more component
				f = own("zero challenges")
				for i := range f.c {
					f.c[i] = bi(0)
				}
				f.simulate()
				refuse(name("all challenges 0"), f)
				f.close(j, g.refH(f.parts()...))
				refuse(name("all challenges 0 but one"), f)
				// the bet on a short sum
				for bet := int64(0); bet < 256 && xi == 2; bet++ {
					f = own("bet", bet)
					f.close(j, bi(bet))
					f.simulate()
					refuse(name("bet on challenge %d", bet), f)
				}
				for bet := int64(0); bet < 16 && xi == 2; bet++ {
					for t := 0; t < 8; t++ {
						f = own("short bet", bet, t)
						f.close(j, bi(bet))
						f.simulate()
						refuse(name("bet %d on challenge %d", t, bet), f)
					}
				}
				// the challenges' sum over all but one
				f = own("all but one")
				f.simulate()
				h := g.refH(f.parts()...)
				k := (j + 1) % n
				f.close(k, h)
				refuse(name("sum closed at another place"), f)
			}
		}
		// members who vary their linking value
		for pi := 0; pi < n && !r.late(); pi++ {
			x := g.x[pi]
			genuine := g.forger(m).exp(g.forger(m).h, x)
			vary := func(label string, f *ringForger) {
				if f.y0.Cmp(genuine) == 0 {
					return
				}
				r.eval(fmt.Sprintf("%s, message %d, member %d: %s", g.name, mi, pi, label))
				if accepted(g.b, m, n, pi, f.sig(), g.y) {
					r.find("C20:varied:"+shortKey(label), "%s, message %d: member %d signs with another linking value: %s", g.name, mi, pi, label)
				}
			}
			member := func(y0 *big.Int, key ...interface{}) (*ringForger, *big.Int) {
				f := g.forger(m, append([]interface{}{"member", pi}, key...)...)
				f.y0 = y0
				f.simulate()
				rr := f.draw(Q)
				f.z1[pi], f.z2[pi] = f.exp(g.b.G, rr), f.exp(f.h, rr)
				return f, rr
			}
			h := g.forger(m).h
			ex := func(e *big.Int) *big.Int { return new(big.Int).Exp(h, e, P) }
			values := map[string]*big.Int{"1": bi(1), "h": h, "another power of h": ex(add(x, bi(1))), "the inverse": ex(new(big.Int).Sub(q, x)), "a square": bi(4),
				"the public key": g.y[pi], "its square": ex(add(x, x)), "its negative": new(big.Int).Sub(P, genuine), "it plus the modulus": add(genuine, P), "it plus twice the modulus": add(genuine, add(P, P)),
				"it minus the modulus": new(big.Int).Sub(genuine, P), "minus itself": new(big.Int).Neg(genuine), "0": bi(0), "the modulus": P, "-1": new(big.Int).Sub(P, bi(1)), "another member's": ex(g.x[(pi+1)%n])}
			for _, name := range keysOf(values) {
				y0 := values[name]
				f, rr := member(y0, name)
				f.s[pi] = response(rr, f.close(pi, g.refH(f.parts()...)), x)
				vary(name, f)
				// z'' of the signer, or all of them, not hashed
				f, rr = member(y0, name)
				f.s[pi] = response(rr, f.close(pi, g.refH(without(f.parts(), 3+n+pi)...)), x)
				vary(name+", its z'' not hashed", f)
				f, rr = member(y0, name)
				f.s[pi] = response(rr, f.close(pi, g.refH(f.parts()[:3+n]...)), x)
				vary(name+", no z'' hashed", f)
				f, rr = member(y0, name)
				for i := range f.z2 {
					f.z2[i] = f.z1[i]
				}
				f.s[pi] = response(rr, f.close(pi, g.refH(f.parts()...)), x)
				vary(name+", z' hashed for z''", f)
				f, rr = member(y0, name)
				f.z2[pi] = f.z1[pi]
				f.s[pi] = response(rr, f.close(pi, g.refH(f.parts()...)), x)
				vary(name+", its z' hashed for z''", f)
				// representatives of the same value with challenges that hide the difference
				for t := 0; t < 64; t++ {
					f, rr = member(y0, name, "even", t)
					for i := range f.c {
						f.c[i] = new(big.Int).AndNot(f.c[i], bi(1))
					}
					f.simulate()
					f.z1[pi], f.z2[pi] = f.exp(g.b.G, rr), f.exp(f.h, rr)
					c := f.close(pi, g.refH(f.parts()...))
					f.s[pi] = response(rr, c, x)
					if c.Bit(0) == 0 {
						vary(name+", even challenges", f)
						break
					}
				}
			}
			// y0 chosen after the challenge: it is hashed in no way, as the genuine one, or as 1
			for k := 0; k < 4; k++ {
				f, rr := member(genuine, "afterwards", k)
				for i := range f.c {
					f.c[i] = bi(0)
				}
				f.simulate()
				K := f.draw(Q)
				f.z1[pi], f.z2[pi] = f.exp(g.b.G, rr), f.exp(f.h, K)
				parts := f.parts()
				switch k {
				case 0:
					parts = without(parts, 1)
				case 1:
					parts[1] = bi(1).Bytes()
				case 2:
					parts[1] = f.h.Bytes()
				}
				c := f.close(pi, g.refH(parts...))
				f.s[pi] = response(rr, c, x)
				if inv := new(big.Int).ModInverse(c, q); inv != nil { // h^s y0^c = h^K
					e := new(big.Int).Sub(K, f.s[pi])
					e.Mul(e, inv).Mod(e, q)
					f.y0 = f.exp(f.h, e)
					vary(fmt.Sprintf("chosen after the challenge, kind %d", k), f)
				}
			}
			// components with challenge 0 fit every member
			for k := 0; k < n; k++ {
				if k == pi {
					continue
				}
				for _, v := range []*big.Int{bi(4), bi(16), dec("256")} {
					f, rr := member(genuine, "free place", k, v)
					f.c[k] = bi(0)
					f.simulate()
					f.z1[pi], f.z2[pi] = f.exp(g.b.G, rr), f.exp(f.h, rr)
					f.s[pi] = response(rr, f.close(pi, g.refH(f.parts()...)), x)
					if accepted(g.b, m, n, pi, f.sig(), g.y) {
						r.count("signatures of the harness's own accepted", 1)
					}
					y := copyInts(g.y)
					y[k] = v
					r.eval(fmt.Sprintf("%s, message %d, member %d: member %d replaced by %v", g.name, mi, pi, k, v))
					if accepted(g.b, m, n, pi, f.sig(), y) {
						r.find("C20:ring", "%s: a signature of member %d is accepted for the ring with member %d replaced by %v", g.name, pi, k, v)
					}
				}
			}
		}
	}
}

// hugeRingMessages: a signature of a long message against its neighbours
func hugeRingMessages(r *Result, deployed, th bool) {
	g := newRing(deployed, 3, 0)
	for _, n := range hugeLengths(th) {
		b := hugeMessage(n)
		sig := g.sign(b, n%3)
		where := fmt.Sprintf("%s, a message of %d bytes", g.name, n)
		r.eval(where)
		if !accepted(g.b, b, 3, n%3, sig, g.y) {
			r.find("C20:complete:long", "%s: the signature is refused", where)
			continue
		}
		neighbours(b, func(label string, o []byte) {
			if r.late() {
				return
			}
			r.eval(where + ": " + label)
			if accepted(g.b, o, 3, n%3, sig, g.y) {
				r.find("C20:accepted:long", "%s: the signature is accepted for %s", where, label)
			}
			if !deployed || th {
				if lrs.Linkable(sig, g.sign(o, n%3)) {
					r.find("C20:linked", "%s: the signature is linked to one of %s", where, label)
				}
			}
		})
		for pi := 0; pi < 3; pi++ {
			if lrs.Linkable(sig, g.sign(b, pi, "again")) != (pi == n%3) {
				r.find("C20:linkable:long", "%s by member %d and another by member %d: linkability is wrong", where, n%3, pi)
			}
		}
	}
}

// largeRings: every single component, member and exchange of neighbours
func largeRings(r *Result, deployed, th bool) {
	sizes := []int{8, 9, 11, 16, 17, 33, 65}
	if deployed {
		sizes = []int{9, 17}
		if th {
			sizes = []int{8, 9, 12, 16, 17, 33}
		}
	} else if th {
		sizes = append(sizes, 10, 12, 20, 32, 64, 100, 101, 128, 129)
	}
	m := []byte("feedback")
	for _, n := range sizes {
		g := newRing(deployed, n, 0)
		last := n - 1
		signers := []int{0, n / 2, last}
		sigs := make([]*lrs.Signature, n)
		for pi := 0; pi < n; pi++ {
			sigs[pi] = g.sign(m, pi)
			r.eval(fmt.Sprintf("%s, signer %d", g.name, pi))
			if !accepted(g.b, m, n, pi, sigs[pi], g.y) {
				r.find("C20:complete:large", "%s, signer %d: the signature is refused", g.name, pi)
				return
			}
			for o := 0; o < pi; o++ {
				r.eval("")
				if lrs.Linkable(sigs[o], sigs[pi]) {
					r.find("C20:linked", "%s: the signatures of members %d and %d are linked", g.name, o, pi)
				}
			}
			if r.late() {
				return
			}
		}
		for _, pi := range signers {
			sig := sigs[pi]
			where := fmt.Sprintf("%s, signer %d", g.name, pi)
			if !lrs.Linkable(sig, g.sign(m, pi, "again")) {
				r.find("C20:linkable:large", "%s: two signatures are not linked", where)
			}
			check := func(label string, n int, s *lrs.Signature, y []*big.Int) {
				if r.late() {
					return
				}
				r.eval(where + ": " + label)
				if accepted(g.b, m, n, pi, s, y) {
					r.find("C20:accepted:"+shortKey(label), "%s: accepted with %s", where, label)
				}
			}
			alter := func(label string, f func(s *lrs.Signature)) {
				s := copySig(sig)
				f(s)
				check(label, n, s, g.y)
			}
			for i := 0; i < n; i++ {
				i := i
				alter(fmt.Sprintf("response %d greater by one", i), func(s *lrs.Signature) { s.S[i] = add(s.S[i], bi(1)) })
				alter(fmt.Sprintf("challenge %d greater by one", i), func(s *lrs.Signature) { s.C[i] = add(s.C[i], bi(1)) })
				y := copyInts(g.y)
				y[i] = new(big.Int).Mod(new(big.Int).Mul(y[i], bi(4)), g.b.P)
				check(fmt.Sprintf("another member %d", i), n, sig, y)
				if i == last {
					continue
				}
				alter(fmt.Sprintf("one moved from challenge %d to the next", i), func(s *lrs.Signature) {
					s.C[i], s.C[i+1] = new(big.Int).Sub(s.C[i], bi(1)), add(s.C[i+1], bi(1))
				})
				alter(fmt.Sprintf("components %d exchanged with the next", i), func(s *lrs.Signature) {
					s.S[i], s.S[i+1], s.C[i], s.C[i+1] = s.S[i+1], s.S[i], s.C[i+1], s.C[i]
				})
				y = copyInts(g.y)
				y[i], y[i+1] = y[i+1], y[i]
				check(fmt.Sprintf("member %d exchanged with the next", i), n, sig, y)
			}
			s := copySig(sig)
			s.S, s.C = s.S[:last], s.C[:last]
			check("one member fewer", last, s, g.y[:last])
			check("the last member left out", last, sig, g.y[:last])
			more := append(copyInts(g.y), g.y[0])
			check("one member more", n+1, sig, more)
		}
		farMembers(r, g, m, sigs)
	}
}

// farMembers: every place of a large ring binds like the first ones
func farMembers(r *Result, g *ring, m []byte, sigs []*lrs.Signature) {
	n := g.n()
	P, Q, q := g.b.P, g.b.Q, g.q
	response := func(rr, c, x *big.Int) *big.Int {
		s := new(big.Int).Mul(c, x)
		s.Sub(rr, s)
		return s.Mod(s, Q)
	}
	for j := 0; j < n && !r.late(); j++ {
		pi := 0
		if j == 0 {
			pi = n - 1
		}
		// another member there is another ring
		o := &ring{name: g.name, b: g.b, q: q, x: copyInts(g.x), y: copyInts(g.y)}
		o.x[j] = new(big.Int).Mod(add(g.x[j], bi(1)), q)
		o.y[j] = new(big.Int).Exp(g.b.G, o.x[j], P)
		r.eval(fmt.Sprintf("%s: signer %d, another member %d", g.name, pi, j))
		if lrs.Linkable(sigs[pi], o.sign(m, pi)) {
			r.find("C20:linked", "%s: signatures of member %d for rings that differ in member %d are linked", g.name, pi, j)
		}
		refuse := func(label string, f *ringForger, y []*big.Int) {
			r.eval(fmt.Sprintf("%s, place %d: %s", g.name, j, label))
			if accepted(g.b, m, n, 0, f.sig(), y) {
				r.find("C20:forged:"+shortKey(label), "%s, place %d: accepted: %s", g.name, j, label)
			}
		}
		// without a secret
		x0 := dec("424242424242")
		for k := 0; k < 4; k++ {
			f := g.forger(m, "far", j, k)
			f.y0 = f.exp(f.h, x0)
			f.simulate()
			rr := f.draw(Q)
			if k != 3 {
				f.z1[j], f.z2[j] = f.exp(g.b.G, rr), f.exp(f.h, rr)
			}
			parts, what := f.parts(), ""
			switch k {
			case 0:
				what = "a key that is not in the ring"
			case 1:
				what, parts = "a key that is not in the ring, its z' not hashed", without(parts, 3+j)
			case 2:
				what = "a key that is not in the ring, z'' hashed for z'"
				f.z1[j] = f.z2[j]
				parts = f.parts()
			case 3:
				what = "no key, the sum closed there"
			}
			f.s[j] = response(rr, f.close(j, g.refH(parts...)), x0)
			refuse(what, f, g.y)
		}
		// a member with another linking value
		for k := 0; k < 2; k++ {
			f := g.forger(m, "far member", j, k)
			f.y0 = f.exp(f.h, add(g.x[j], bi(1)))
			f.simulate()
			rr := f.draw(Q)
			f.z1[j], f.z2[j] = f.exp(g.b.G, rr), f.exp(f.h, rr)
			parts, what := f.parts(), "a member with another linking value"
			if k == 1 {
				what, parts = what+", its z'' not hashed", without(parts, 3+n+j)
			}
			f.s[j] = response(rr, f.close(j, g.refH(parts...)), g.x[j])
			refuse(what, f, g.y)
		}
		// a member whose challenge is 0 fits any key
		f := g.forger(m, "far place", j)
		f.y0 = f.exp(f.h, g.x[pi])
		f.c[j] = bi(0)
		f.simulate()
		rr := f.draw(Q)
		f.z1[pi], f.z2[pi] = f.exp(g.b.G, rr), f.exp(f.h, rr)
		f.s[pi] = response(rr, f.close(pi, g.refH(f.parts()...)), g.x[pi])
		if accepted(g.b, m, n, pi, f.sig(), g.y) {
			r.count("signatures of the harness's own accepted", 1)
		}
		refuse("a signature for another ring", f, o.y)
	}
}
