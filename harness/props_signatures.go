package main

// C19: ElGamal signatures and encryption.

import (
	"fmt"
	"math/big"

	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func init() {
	register(&Prop{ID: "C19", Level: "model_checking", Budget: 85,
		Rule:   "small group: every key, base, nonce and message of the alphabet, every key, point and ephemeral value; 61-bit group and deployed group: every alteration of a signature from the alphabet, every other message, key and base, every forger; protocol: states are global states of round histories, all signatures on the wire compared for each private key; distinct by group, key, base, message, alteration, history",
		Assume: protocolAssumptions, Jobs: signatureJobs})
}

func signatureJobs(th bool) (jobs []Job) {
	ps := []int64{23}
	if th {
		ps = []int64{11, 23, 47}
	}
	for _, p := range ps {
		p := p
		jobs = append(jobs, Job{Name: fmt.Sprintf("signatures modulo %d", p), Run: func(r *Result) { smallSignatures(r, p) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("encryption modulo %d", p), Run: func(r *Result) { smallEncryption(r, p) }})
	}
	for _, m := range []string{"short", "lengths", "long"} {
		m := m
		jobs = append(jobs, Job{Name: "messages of different contents: " + m, Run: func(r *Result) { messageBinding(r, m, th) }})
	}
	jobs = append(jobs, Job{Name: "messages of different contents: huge", Run: func(r *Result) { hugeMessages(r, th) }})
	for _, s := range []struct {
		name string
		s    abstract.Suite
	}{{"61 bits", fastSuite()}, {"deployed", qr512}} {
		s := s
		jobs = append(jobs, Job{Name: "alterations, " + s.name, Run: func(r *Result) { signatureAlterations(r, s.s, s.name, th) }})
		jobs = append(jobs, Job{Name: "forgers, " + s.name, Run: func(r *Result) { signatureForgers(r, s.s, s.name) }})
		jobs = append(jobs, Job{Name: "encryption, " + s.name, Run: func(r *Result) { bigEncryption(r, s.s, s.name) }})
	}
	type hist struct{ servers, fillers, full, depth, parts int }
	hs := []hist{{1, 0, 2, 2, 4}, {2, 1, 1, 2, 3}}
	if th {
		hs = []hist{{1, 0, 2, 4, 6}, {2, 1, 2, 3, 6}, {3, 0, 1, 3, 4}}
	}
	for _, h := range hs {
		for part := 0; part < h.parts; part++ {
			h, part := h, part
			jobs = append(jobs, Job{Name: fmt.Sprintf("signatures of histories s%d f%d depth %d part %d", h.servers, h.fillers, h.depth, part), Run: func(r *Result) {
				w := newWorld(newEngine(), h.servers, 3)
				w.members(h.fillers, 2)
				x := &histories{w: w, r: r, key: "C19", check: noRepeatedRandomness, full: h.full, depth: h.depth, part: part, parts: h.parts, seen: map[string]bool{}}
				x.run()
			}})
		}
	}
	return
}

var sigMessages = [][]byte{nil, {0}, []byte("assignment"), make([]byte, 168)}

func smallSignatures(r *Result, p int64) {
	s := tinySuite(p)
	q := (p - 1) / 2
	bits := bi(q).BitLen()
	for b := int64(1); b < q; b++ {
		g := s.Point().Mul(nil, secretOf(s, bi(b)))
		for x := int64(0); x < q && !r.late(); x++ {
			sk := secretOf(s, bi(x))
			pk := s.Point().Mul(g, sk)
			for mi, m := range sigMessages {
				for v := int64(0); v < q; v++ {
					for _, w := range []int64{0, 1, q - 1} {
						var sig []byte
						withStream(&countStream{v: byte(w)}, func() { sig = util.ElGamalSign(s, forced(bi(v), bits), m, sk, g) })
						r.eval(fmt.Sprintf("modulo %d, base g^%d, key %d, message %d, draws %d and %d", p, b, x, mi, v, w))
						if err := util.ElGamalVerify(s, m, pk, sig, g); err != nil {
							r.find("C19:complete", "modulo %d, base g^%d, key %d, message %x, draws %d and %d: the signature %x is refused: %v", p, b, x, m, v, w, sig, err)
						}
						if pointVal(pk).Cmp(pointVal(s.Point().Mul(g, secretOf(s, bi(x))))) != 0 || secretVal(sk).Int64() != x {
							r.find("C19:operands", "modulo %d, base g^%d, key %d: signing or verifying changes an operand", p, b, x)
						}
					}
				}
			}
		}
	}
}

// countStream: constant bytes, then counting ones
type countStream struct{ v, n byte }

func (c *countStream) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ (c.v + c.n)
		c.n += 7
	}
}

func smallEncryption(r *Result, p int64) {
	s := tinySuite(p)
	q := (p - 1) / 2
	bits := bi(q).BitLen()
	for x := int64(0); x < q; x++ {
		sk := secretOf(s, bi(x))
		pk := s.Point().Mul(nil, sk)
		for m := int64(0); m < q; m++ {
			M := s.Point().Mul(nil, secretOf(s, bi(m)))
			want := pointVal(M)
			for k := int64(0); k < 1<<uint(bits); k++ {
				withStream(forced(bi(k), bits), func() {
					K, C, _ := util.ElGamalEncrypt(s, pk, M)
					r.eval(fmt.Sprintf("modulo %d, key %d, point g^%d, draw %d", p, x, m, k))
					if pointVal(M).Cmp(want) != 0 {
						r.find("C19:encrypt:operand", "modulo %d: encrypting changes the point", p)
					}
					d := util.ElGamalDecrypt(s, sk, K, C)
					if pointVal(d).Cmp(want) != 0 {
						r.find("C19:decrypt", "modulo %d, key %d, draw %d: g^%d is decrypted to %v", p, x, k, m, d)
					}
					if x > 0 && k > 0 && k < q && C.Equal(M) {
						r.find("C19:encrypt:plain", "modulo %d, key %d, draw %d: g^%d is sent as it is", p, x, k, m)
					}
					if x > 0 && !s.Point().Add(s.Point().Mul(K, sk), M).Equal(C) {
						r.find("C19:encrypt:form", "modulo %d, key %d, draw %d: the pair for g^%d is not an encryption", p, x, k, m)
					}
				})
			}
		}
	}
}

func bigEncryption(r *Result, s abstract.Suite, name string) {
	q := order(s)
	one := bi(1)
	xs := []*big.Int{bi(0), one, bi(2), new(big.Int).Rsh(q, 1), new(big.Int).Sub(q, one), new(big.Int).Mod(dec("918273645546372819918273645"), q)}
	for i, x := range xs {
		for j, m := range xs {
			sk, M := secretOf(s, x), s.Point().Mul(nil, secretOf(s, m))
			pk, want := s.Point().Mul(nil, sk), pointVal(M)
			for k := 0; k < 3; k++ {
				withStream(newPRF(prfKey("C19", i, j, k)), func() {
					K, C, _ := util.ElGamalEncrypt(s, pk, M)
					K2, C2, _ := util.ElGamalEncrypt(s, pk, M)
					r.eval(fmt.Sprintf("%s: key %d, point %d, draw %d", name, i, j, k))
					if d := util.ElGamalDecrypt(s, sk, K, C); pointVal(d).Cmp(want) != 0 || pointVal(M).Cmp(want) != 0 {
						r.find("C19:decrypt:"+name, "%s: the point %v encrypted for key %v is decrypted to %v", name, want, x, d)
					}
					if K.Equal(K2) || x.Sign() != 0 && C.Equal(C2) {
						r.find("C19:encrypt:repeated", "%s: two encryptions share their randomness", name)
					}
					for _, y := range xs {
						if o := secretOf(s, y); y.Cmp(x) != 0 && pointVal(util.ElGamalDecrypt(s, o, K, C)).Cmp(want) == 0 {
							r.find("C19:decrypt:other", "%s: key %v decrypts what was encrypted for %v", name, y, x)
						}
					}
				})
			}
		}
	}
}

// messageBinding: every signature against every other message of the alphabet
func messageBinding(r *Result, which string, th bool) {
	s := fastSuite()
	var ms [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			ms = append(ms, append([]byte(nil), b...))
		}
	}
	switch which {
	case "short": // all strings over three bytes, and all single bytes
		var rec func(b []byte, n int)
		rec = func(b []byte, n int) {
			add(b)
			if n > 0 {
				for _, c := range []byte{0, 1, 0xff} {
					rec(append(b, c), n-1)
				}
			}
		}
		n := 4
		if th {
			n = 5
		}
		rec(nil, n)
		for i := 0; i < 256; i++ {
			add([]byte{byte(i)})
		}
	case "lengths": // every length around the hash's blocks
		max := 350
		if th {
			max = 700
		}
		for n := 0; n <= max; n++ {
			add(make([]byte, n))
		}
	case "long": // one bit altered anywhere
		n := 300
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		add(b)
		for i := 0; i < n; i++ {
			c := append([]byte(nil), b...)
			c[i] ^= 1 << uint(i%8)
			add(c)
		}
	}
	sk := secretOf(s, dec("123456789123456789"))
	g := s.Point().Base()
	pk := s.Point().Mul(g, sk)
	for i, m := range ms {
		if r.late() {
			return
		}
		var sig []byte
		withStream(newPRF(prfKey("C19 message", i)), func() { sig = util.ElGamalSign(s, newPRF(prfKey("C19 caller", i)), m, sk, g) })
		r.eval(fmt.Sprintf("%s: message %d", which, i))
		for j, o := range ms {
			ok := util.ElGamalVerify(s, o, pk, sig, g) == nil
			r.eval("")
			if i == j && !ok {
				r.find("C19:complete:message", "the signature of %x is refused", m)
			}
			if i != j && ok {
				r.find("C19:message", "a signature of %x is accepted for %x", m, o)
			}
		}
	}
}

// hugeLengths are the message lengths around the sizes a buffer, a counter or a
// limit would have; neighbours lists what a message of that length must not be
// taken for.
func hugeLengths(th bool) (l []int) {
	l = []int{1000, 1023, 1024, 1025, 1400, 2048, 4096, 4097, 8193, 32768, 65535, 65536, 65537, 131073}
	if th {
		for n := 512; n <= 1<<18; n *= 2 {
			l = append(l, n-1, n, n+1, n+n/2)
		}
		l = append(l, 1<<20, 1<<20+1)
	}
	return
}

func hugeMessage(n int) []byte {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func neighbours(b []byte, do func(label string, o []byte)) {
	n := len(b)
	at := map[int]bool{0: true, 1: true, n / 3: true, n / 2: true, n - 2: true, n - 1: true}
	for k := 1; k < n; k *= 2 {
		at[k-1], at[k], at[n-k] = true, true, true
	}
	c := append([]byte(nil), b...)
	for i := 0; i < n; i++ {
		if at[i] {
			c[i] ^= 0x20
			do(fmt.Sprintf("its byte %d altered", i), c)
			c[i] ^= 0x20
		}
	}
	for k := 64; k < n; k *= 4 { // whatever folds blocks together
		c[0] ^= 1
		c[k] ^= 1
		do(fmt.Sprintf("its bytes 0 and %d altered", k), c)
		c[0] ^= 1
		c[k] ^= 1
	}
	for k := 64; 2*k <= n; k *= 4 {
		do(fmt.Sprintf("its first two blocks of %d bytes exchanged", k), append(append(append([]byte(nil), b[k:2*k]...), b[:k]...), b[2*k:]...))
		do(fmt.Sprintf("its first %d bytes alone", k), b[:k])
		do(fmt.Sprintf("its last %d bytes alone", k), b[n-k:])
	}
	do("its last byte left out", b[:n-1])
	do("its first byte left out", b[1:])
	do("a zero behind", append(append([]byte(nil), b...), 0))
	do("a zero in front", append([]byte{0}, b...))
	do("itself twice", append(append([]byte(nil), b...), b...))
	do("nothing", nil)
}

func hugeMessages(r *Result, th bool) {
	s := fastSuite()
	sk := secretOf(s, dec("123456789123456789"))
	g := s.Point().Base()
	pk := s.Point().Mul(g, sk)
	for _, n := range hugeLengths(th) {
		b := hugeMessage(n)
		var sig []byte
		withStream(newPRF(prfKey("C19 huge", n)), func() { sig = util.ElGamalSign(s, newPRF(prfKey("C19 caller", n)), b, sk, g) })
		r.eval(fmt.Sprintf("%d bytes", n))
		if err := util.ElGamalVerify(s, b, pk, sig, g); err != nil {
			r.find("C19:complete:message", "the signature of a message of %d bytes is refused: %v", n, err)
			continue
		}
		neighbours(b, func(label string, o []byte) {
			if r.late() {
				return
			}
			r.eval(fmt.Sprintf("%d bytes: %s", n, label))
			if util.ElGamalVerify(s, o, pk, sig, g) == nil {
				r.find("C19:message", "a signature of a message of %d bytes is accepted for %s", n, label)
			}
		})
	}
}

type sigSetting struct {
	x, b *big.Int
	m    []byte
}

func signatureAlterations(r *Result, s abstract.Suite, name string, th bool) {
	q := order(s)
	one := bi(1)
	boundaryKeys := []*big.Int{one, bi(2), new(big.Int).Rsh(q, 1), new(big.Int).Sub(q, one), new(big.Int).Mod(dec("918273645546372819918273645546372819"), q)}
	bases := []*big.Int{one, new(big.Int).Sub(q, one), new(big.Int).Mod(dec("31415926535897932384626433832795028841971"), q)}
	var settings []sigSetting
	for _, x := range boundaryKeys {
		for _, b := range bases {
			for _, m := range sigMessages[1:3] {
				settings = append(settings, sigSetting{x, b, m})
			}
		}
	}
	n := s.Secret().MarshalSize()
	point := func(e *big.Int) abstract.Point { return s.Point().Mul(nil, secretOf(s, e)) }
	sigs := make([][]byte, len(settings))
	for i, t := range settings {
		withStream(newPRF(prfKey("C19 alterations", i)), func() {
			sigs[i] = util.ElGamalSign(s, newPRF(prfKey("C19 caller", i)), t.m, secretOf(s, t.x), point(t.b))
		})
		expect(len(sigs[i]) == 2*n, "a signature has %d bytes", len(sigs[i]))
	}
	for i, t := range settings {
		if r.late() {
			return
		}
		g := point(t.b)
		pk := s.Point().Mul(g, secretOf(s, t.x))
		where := fmt.Sprintf("%s, setting %d", name, i)
		c := new(big.Int).SetBytes(sigs[i][:n])
		rr := new(big.Int).SetBytes(sigs[i][n:])
		check := func(label string, m []byte, pk abstract.Point, sig []byte, g abstract.Point) {
			var err error
			what := panics(func() { err = util.ElGamalVerify(s, m, pk, sig, g) })
			r.eval(where + ": " + label)
			if what != nil {
				r.count("refused by a panic", 1)
				return
			}
			if err == nil {
				r.find("C19:accepted:"+shortKey(label), "%s: a signature is accepted with %s", where, label)
			}
		}
		if err := util.ElGamalVerify(s, t.m, pk, sigs[i], g); err != nil {
			r.find("C19:complete:"+name, "%s: the genuine signature is refused: %v", where, err)
			continue
		}
		enc := func(c, rr *big.Int) []byte {
			b := make([]byte, 2*n)
			if c.Sign() < 0 || rr.Sign() < 0 || c.BitLen() > 8*n || rr.BitLen() > 8*n {
				return nil
			}
			c.FillBytes(b[:n])
			rr.FillBytes(b[n:])
			return b
		}
		same := func(a, b *big.Int) bool { d := new(big.Int).Sub(a, b); return d.Mod(d, q).Sign() == 0 }
		alter := func(label string, c2, r2 *big.Int) {
			if same(c, c2) && same(rr, r2) {
				return
			}
			if b := enc(c2, r2); b != nil {
				check(label, t.m, pk, b, g)
			}
		}
		for _, a := range alterInts(c, q) {
			alter(fmt.Sprintf("challenge %v", a), a, rr)
		}
		for _, a := range alterInts(rr, q) {
			alter(fmt.Sprintf("response %v", a), c, a)
		}
		alter("challenge and response swapped", rr, c)
		alter("both 0", bi(0), bi(0))
		neg := func(v *big.Int) *big.Int { return new(big.Int).Sub(q, v) }
		alter("both negated", neg(c), neg(rr))
		for k := 0; k < 8*n; k++ {
			if n > 8 && !th && i >= 6 && k%3 != 0 {
				continue
			}
			b := new(big.Int).Lsh(one, uint(k))
			alter(fmt.Sprintf("challenge with bit %d flipped", k), new(big.Int).Xor(c, b), rr)
			alter(fmt.Sprintf("response with bit %d flipped", k), c, new(big.Int).Xor(rr, b))
		}
		for k := 0; k < 2*n; k++ {
			check(fmt.Sprintf("its first %d bytes", k), t.m, pk, sigs[i][:k], g)
		}
		check("a zero in front", t.m, pk, append([]byte{0}, sigs[i]...), g)
		for j, o := range settings {
			if j == i {
				continue
			}
			d := sigs[j]
			check(fmt.Sprintf("signature %d", j), t.m, pk, d, g)
			check(fmt.Sprintf("the challenge of signature %d", j), t.m, pk, append(append([]byte{}, d[:n]...), sigs[i][n:]...), g)
			check(fmt.Sprintf("the response of signature %d", j), t.m, pk, append(append([]byte{}, sigs[i][:n]...), d[n:]...), g)
			if o.x.Cmp(t.x) != 0 {
				check(fmt.Sprintf("key %v", o.x), t.m, s.Point().Mul(g, secretOf(s, o.x)), sigs[i], g)
			}
			if o.b.Cmp(t.b) != 0 {
				check(fmt.Sprintf("base g^%v and the same public key", o.b), t.m, pk, sigs[i], point(o.b))
				check(fmt.Sprintf("base g^%v and its public key", o.b), t.m, s.Point().Mul(point(o.b), secretOf(s, t.x)), sigs[i], point(o.b))
			}
			if string(o.m) != string(t.m) {
				check("another message", o.m, pk, sigs[i], g)
			}
		}
		null := s.Point().Null()
		check("no public key to speak of", t.m, null, sigs[i], g)
		check("base 1", t.m, pk, sigs[i], null)
		check("the inverse of the public key", t.m, s.Point().Neg(pk), sigs[i], g)
		check("the inverse of the base", t.m, pk, sigs[i], s.Point().Neg(g))
		if !pk.Equal(g) {
			check("public key and base exchanged", t.m, g, sigs[i], pk)
		}
		check("the public key times the base", t.m, s.Point().Add(pk, g), sigs[i], g)
		check("both inverted", t.m, s.Point().Neg(pk), sigs[i], s.Point().Neg(g))
	}
}

// signatureForgers: signatures made without the key, of the kind that passes
// when a part of the check is left out
func signatureForgers(r *Result, s abstract.Suite, name string) {
	q := order(s)
	x := new(big.Int).Mod(dec("271828182845904523536028747135266249775724709369995"), q)
	g := s.Point().Mul(nil, secretOf(s, bi(7)))
	pk := s.Point().Mul(g, secretOf(s, x))
	null := s.Point().Null()
	n := s.Secret().MarshalSize()
	pick := func(k ...interface{}) *big.Int {
		return secretVal(s.Secret().Pick(newPRF(prfKey(append([]interface{}{"C19 forger"}, k...)...))))
	}
	try := func(label string, m []byte, c, rr *big.Int) {
		b := make([]byte, 2*n)
		new(big.Int).Mod(c, q).FillBytes(b[:n])
		new(big.Int).Mod(rr, q).FillBytes(b[n:])
		r.eval(fmt.Sprintf("%s: forger: %s, message %x", name, label, m))
		if util.ElGamalVerify(s, m, pk, b, g) == nil {
			r.find("C19:forged:"+shortKey(label), "%s: without the key, a signature of %x is accepted: %s", name, m, label)
		}
	}
	// hash variants: what the challenge covers
	type variant struct {
		name string
		h    func(m []byte, T abstract.Point) *big.Int
	}
	hash := func(key []byte, ms ...[]byte) *big.Int {
		c := s.Cipher(key)
		for _, m := range ms {
			c.Message(nil, nil, m)
		}
		return secretVal(s.Secret().Pick(c))
	}
	pb := func(p abstract.Point) []byte { b, _ := p.MarshalBinary(); return b }
	variants := []variant{
		{"the message only", func(m []byte, T abstract.Point) *big.Int { return hash(nil, m) }},
		{"the message only, empty key", func(m []byte, T abstract.Point) *big.Int { return hash([]byte{}, m) }},
		{"message as key", func(m []byte, T abstract.Point) *big.Int { return hash(m) }},
		{"message and base", func(m []byte, T abstract.Point) *big.Int { return hash(pb(g), m) }},
		{"message and standard base", func(m []byte, T abstract.Point) *big.Int { return hash(pb(s.Point().Base()), m) }},
		{"message and public key", func(m []byte, T abstract.Point) *big.Int { return hash(pb(pk), m) }},
		{"message and neutral point", func(m []byte, T abstract.Point) *big.Int { return hash(pb(null), m) }},
		{"constant 0", func(m []byte, T abstract.Point) *big.Int { return bi(0) }},
		{"constant 1", func(m []byte, T abstract.Point) *big.Int { return bi(1) }},
	}
	full := func(m []byte, T abstract.Point) *big.Int { return hash(pb(T), m) }
	for _, m := range append(sigMessages, []byte("bridge")) {
		for k := 0; k < 4; k++ {
			v := pick(v0, m, k)
			T := s.Point().Mul(g, secretOf(s, v))
			U := s.Point().Mul(pk, secretOf(s, v))
			// c known before T: any response does
			for _, h := range variants {
				try("challenge over "+h.name, m, h.h(m, T), v)
				try("challenge over "+h.name+", response 0", m, h.h(m, T), bi(0))
			}
			// one of the two terms of the equation left out
			try("the public key's term left out", m, full(m, T), v)
			if v.Sign() != 0 {
				try("the base's term left out: the message is not covered", m, v, bi(0))
			}
			try("the message left out", m, hash(pb(T)), v)
			// T fixed by the forger, response made with another key
			for _, y := range []*big.Int{bi(0), bi(1), new(big.Int).Sub(q, bi(1)), bi(7)} {
				c := full(m, T)
				rr := new(big.Int).Mul(y, c)
				try(fmt.Sprintf("made with key %v", y), m, c, rr.Sub(v, rr))
			}
			c := full(m, T)
			try("commitment without response", m, c, c)
			c = full(m, U)
			try("commitment to a power of the public key", m, v, bi(0))
			try("commitment to a power of the public key, hashed", m, c, v)
			// c bet on: short challenges
			for bet := int64(0); bet < 256; bet++ {
				rr := pick("bet", m, k, bet)
				try(fmt.Sprintf("bet on challenge %d", bet), m, bi(bet), rr)
			}
		}
		for bits := uint(1); bits <= 16; bits *= 2 { // T searched until its hash ends in the bet
			bet := bi(1)
			for k := 0; k < 1<<bits+1<<(bits+2); k++ {
				rr := pick("search", bits, k)
				T := s.Point().Add(s.Point().Mul(g, secretOf(s, rr)), pk)
				h := full(m, T)
				if new(big.Int).And(h, bi(1<<bits-1)).Cmp(bet) == 0 {
					try(fmt.Sprintf("challenge with its last %d bits", bits), m, bet, rr)
					try(fmt.Sprintf("challenge with its last %d bits, whole", bits), m, h, rr)
					break
				}
				if n > 8 && k > 400 {
					break
				}
			}
		}
	}
}

const v0 = "nonce"

// ---------------------------------------------------------------- protocol

// signatureStrings finds byte strings of a signature's length in a message
func signatureStrings(m *Msg) (l [][]byte) {
	size := 2 * qr512.Secret().MarshalSize()
	for _, v := range m.event().Params {
		b, ok := v.([]byte)
		if !ok {
			continue
		}
		if len(b) == size {
			l = append(l, b)
		}
		func() {
			defer func() { recover() }()
			for _, x := range util.Decode2DByteArray(b) {
				if len(x) == size {
					l = append(l, x)
				}
			}
		}()
	}
	return
}

func noRepeatedRandomness(w *World, s *GState) string {
	q := order(qr512)
	n := qr512.Secret().MarshalSize()
	var sigs [][2]*big.Int
	var from []string
	seen := map[string]bool{}
	for _, nd := range w.nodes {
		for _, l := range w.local(s, nd).path() {
			for _, m := range l.Outs {
				for _, b := range signatureStrings(m) {
					if !seen[string(b)] {
						seen[string(b)] = true
						sigs = append(sigs, [2]*big.Int{new(big.Int).SetBytes(b[:n]), new(big.Int).SetBytes(b[n:])})
						from = append(from, fmt.Sprintf("%s in %s", nd, m))
					}
				}
			}
		}
	}
	w.outcomes["distinct signatures on the wire"] += len(sigs)
	pairs := 0
	for i := range sigs {
		for j := 0; j < i; j++ {
			pairs++
			// equal nonces v = r + xc of two signatures give away x = (r1-r2)/(c2-c1)
			d := new(big.Int).Sub(sigs[i][0], sigs[j][0])
			d.Mod(d, q)
			if d.Sign() == 0 {
				continue
			}
			x := new(big.Int).Sub(sigs[j][1], sigs[i][1])
			x.Mul(x, new(big.Int).ModInverse(d, q)).Mod(x, q)
			for _, nd := range w.nodes {
				if sk := privateKey(w.local(s, nd)); sk != "" && hx(sk).Cmp(x) == 0 {
					return fmt.Sprintf("the private key of %s can be computed from two signatures: %s; %s", nd, from[j], from[i])
				}
			}
		}
	}
	w.outcomes["pairs of signatures compared"] += pairs
	return ""
}

func privateKey(l *Local) string {
	switch {
	case l.View.C != nil:
		return l.View.C.PriKey
	case l.View.S != nil:
		return l.View.S.PriKey
	case l.View.D != nil:
		return l.View.D.PriKey
	}
	return ""
}
