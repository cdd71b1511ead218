package main

// C18: the generators of the integer commitments and the proofs that they are honest.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
)

func init() {
	register(&Prop{ID: "C18", Level: "model_checking", Budget: 85,
		Rule:   "proofs: every challenge pattern of the alphabet, every generator, answer, commitment and challenge bit made wrong at every position; coordinator: states are those reached by every sequence of confirmed registrations and challenges to the depth, from several senders, with several challenges; client: every position of the exchanged messages altered; distinct by pattern, alteration and position, or by sequence",
		Assume: append([]string{"192-bit moduli in most jobs; the real prime generator is sampled"}, protocolAssumptions...), Jobs: generatorJobs})
}

const honestyBits = 480

func generatorJobs(th bool) (jobs []Job) {
	add := func(name string, f func(r *Result)) { jobs = append(jobs, Job{Name: name, Run: f}) }
	add("created bases", func(r *Result) { createdBases(r, false) })
	add("created bases, deployed size", func(r *Result) { createdBases(r, true) })
	n := 4
	if th {
		n = 40
	}
	for part := 0; part < 4; part++ {
		part := part
		add(fmt.Sprintf("real prime generator, part %d", part), func(r *Result) { realPrimes(r, n, part) })
	}
	add("challenges are free", challengeDraws)
	for part := 0; part < 6; part++ {
		part := part
		add(fmt.Sprintf("challenge patterns, part %d", part), func(r *Result) { honestPatterns(r, part, 6, th) })
	}
	for gen := 5; gen >= 0; gen-- {
		for part := 0; part <= gen/2; part++ {
			gen, part := gen, part
			add(fmt.Sprintf("wrong at generator %d, part %d", gen+1, part), func(r *Result) { wrongProofs(r, gen, part, gen/2+1, th) })
		}
	}
	depth := 6
	if th {
		depth = 8
	}
	many := 5
	if th {
		many = 12
	}
	add("coordinator, many clients", func(r *Result) { manyClients(r, many) })
	for a := range honestyActs() {
		for b := range honestyActs() {
			a, b := a, b
			if a < 2 || b == 0 {
				add(fmt.Sprintf("coordinator, sequences of %d from %d and %d", depth, a, b), func(r *Result) { honestySequences(r, depth, a, b) })
			}
		}
	}
	for part := 0; part < 6; part++ {
		part := part
		add(fmt.Sprintf("client, part %d", part), func(r *Result) { clientHonesty(r, part, 6, th) })
	}
	return
}

func checkBase(r *Result, name string, b *fujiokam.FujiOkamBase) {
	prime := func(x *big.Int) bool { return x.ProbablyPrime(24) }
	p := add2(add2(b.P, b.P), bi(1))
	q := add2(add2(b.Q, b.Q), bi(1))
	r.eval(name + ": modulus")
	if !prime(b.P) || !prime(b.Q) || !prime(p) || !prime(q) {
		r.find("C18:primes", "%s: the modulus is not a product of safe primes: P=%v Q=%v", name, b.P, b.Q)
		return
	}
	if p.Cmp(q) == 0 || new(big.Int).Mul(p, q).Cmp(b.N) != 0 {
		r.find("C18:modulus", "%s: the modulus %v is not a product of two distinct safe primes", name, b.N)
		return
	}
	alphas := b.VerifAlphas()
	gs := []*fujiokam.Point{b.G1, b.G2, b.G3, b.G4, b.G5, b.G6}
	h := &b.H1.V
	if big.Jacobi(h, p) != 1 || big.Jacobi(h, q) != 1 || new(big.Int).GCD(nil, nil, add2(h, bi(-1)), b.N).Cmp(bi(1)) != 0 {
		r.find("C18:h", "%s: the common base %v does not generate the squares", name, h)
	}
	for i, g := range gs {
		r.eval(fmt.Sprintf("%s: generator %d", name, i+1))
		if g.V.Cmp(new(big.Int).Exp(h, alphas[i], b.N)) != 0 {
			r.find("C18:generator", "%s: generator %d is not the common base to its exponent", name, i+1)
		}
		if g.V.Cmp(bi(1)) == 0 || g.V.Cmp(h) == 0 {
			r.find("C18:trivial", "%s: generator %d is %v", name, i+1, g)
		}
		for j := 0; j < i; j++ {
			if alphas[i].CmpAbs(alphas[j]) == 0 || g.Equal(gs[j]) {
				r.find("C18:equal", "%s: generators %d and %d are equal", name, i+1, j+1)
			}
		}
	}
}

func createdBases(r *Result, deployed bool) {
	n := 12
	seen := map[string]string{}
	for k := 0; k < n; k++ {
		var full *fujiokam.FujiOkamBase
		name := fmt.Sprintf("base %d, deployed size %v", k, deployed)
		if p := panics(func() { full, _ = foBases(fmt.Sprint("C18 ", k), deployed) }); p != nil {
			r.find("C18:create", "%s: creation fails: %v", name, p)
			return
		}
		checkBase(r, name, full)
		for i, a := range append(full.VerifAlphas(), &full.H1.V) {
			if o, ok := seen[a.String()]; ok {
				r.find("C18:fresh", "exponent %d of %s is the same as %s", i+1, name, o)
			}
			seen[a.String()] = fmt.Sprintf("exponent %d of %s", i+1, name)
		}
	}
}

func realPrimes(r *Result, n, part int) {
	old := os.Getenv("PATH")
	path := ""
	for _, d := range strings.Split(old, ":")[1:] { // without the stand-in
		if _, err := os.Stat(filepath.Join(d, "openssl")); err == nil {
			path = d
			break
		}
	}
	if path == "" {
		r.Notes = append(r.Notes, "no openssl here: the real generator was not run")
		r.eval("no openssl")
		return
	}
	os.Setenv("PATH", path+":"+old)
	defer os.Setenv("PATH", old)
	for k := 0; k < n && !r.late(); k++ {
		var b *fujiokam.FujiOkamBase
		withRandom(fmt.Sprint("C18 real ", part, k), func() { b = fujiokam.CreateBase() })
		name := fmt.Sprintf("real generator %d.%d", part, k)
		checkBase(r, name, b)
		if b.P.BitLen() != 511 || b.Q.BitLen() != 511 {
			r.find("C18:size", "%s: primes of %d and %d bits", name, b.P.BitLen()+1, b.Q.BitLen()+1)
		}
	}
}

// challengeDraws: every bit takes both values, in any combination of two neighbours
func challengeDraws(r *Result) {
	b, pub := foBases("C18 draws", false)
	seen := make([]map[[2]bool]bool, honestyBits)
	for i := range seen {
		seen[i] = map[[2]bool]bool{}
	}
	all := map[string]bool{}
	for k := 0; k < 96; k++ {
		var bits []bool
		withRandom(fmt.Sprint("C18 challenge ", k), func() { bits = pub.ChallengeAllGnHonesty() })
		r.eval(fmt.Sprintf("challenge drawn from stream %d", k))
		if len(bits) != honestyBits {
			r.find("C18:challenge length", "a challenge has %d bits", len(bits))
			return
		}
		all[fmt.Sprint(bits)] = true
		for i := range bits {
			seen[i][[2]bool{bits[i], bits[(i+1)%honestyBits]}] = true
		}
	}
	if len(all) != 96 {
		r.find("C18:challenge repeated", "96 streams give %d challenges", len(all))
	}
	for i, m := range seen {
		if len(m) != 4 {
			r.find("C18:challenge bit", "bits %d and %d of the challenge take only %d combinations in 96 draws", i, (i+1)%honestyBits, len(m))
		}
	}
	// commitments: fresh for every proof and position, never 1
	secrets := map[string]bool{}
	for k := 0; k < 6; k++ {
		var ss, ps []*big.Int
		withRandom(fmt.Sprint("C18 proof ", k), func() { ss, ps = b.GenerateAllGnHonestyProof() })
		for i := range ss {
			r.eval("")
			if secrets[ss[i].String()] || ss[i].Sign() == 0 {
				r.find("C18:mask", "the secret at position %d of a proof is zero or used again", i)
			}
			secrets[ss[i].String()] = true
			if new(big.Int).Exp(&b.H1.V, ss[i], b.N).Cmp(ps[i]) != 0 {
				r.find("C18:commitment", "the commitment at position %d of a proof is not the base to its secret", i)
			}
		}
	}
}

// patterns of challenges
func honestyPatterns() (l [][]bool) {
	mk := func(f func(i int) bool) {
		b := make([]bool, honestyBits)
		for i := range b {
			b[i] = f(i)
		}
		l = append(l, b)
	}
	for m := 0; m < 64; m++ { // one value for each generator
		m := m
		mk(func(i int) bool { return m>>uint(i/80)&1 == 1 })
	}
	for _, p := range []int{2, 3, 5, 7, 80, 81} {
		for o := 0; o < p && o < 8; o++ {
			p, o := p, o
			mk(func(i int) bool { return i%p == o })
			mk(func(i int) bool { return i%p != o })
		}
	}
	for k := 0; k < honestyBits; k++ {
		k := k
		mk(func(i int) bool { return i == k })
		mk(func(i int) bool { return i != k })
		mk(func(i int) bool { return i < k })
	}
	for m := 0; m < 256; m++ { // all combinations of neighbours around a border
		m := m
		mk(func(i int) bool { return i >= 76 && i < 84 && m>>uint(i-76)&1 == 1 })
	}
	return
}

func copyBools(l []bool) []bool { return append([]bool(nil), l...) }

type honestyProof struct {
	full, pub        *fujiokam.FujiOkamBase
	secrets, publics []*big.Int
}

func newHonestyProof(key string, deployed bool) *honestyProof {
	p := &honestyProof{}
	p.full, p.pub = foBases(key, deployed)
	withRandom(key+" proof", func() { p.secrets, p.publics = p.full.GenerateAllGnHonestyProof() })
	return p
}

func (p *honestyProof) answer(bits []bool) []*big.Int {
	return p.full.AnswerAllGnHonesty(copyBools(bits), copyInts(p.secrets), copyInts(p.publics))
}

// check gives the verifier's result; a panic is -1
func (p *honestyProof) check(pub *fujiokam.FujiOkamBase, answers []*big.Int, bits []bool, publics []*big.Int) (res int) {
	res = -1
	panics(func() { res = pub.CheckAllGnHonesty(copyInts(answers), copyBools(bits), copyInts(publics)) })
	return
}

func honestPatterns(r *Result, part, parts int, th bool) {
	p := newHonestyProof("C18 patterns", false)
	alphas := p.full.VerifAlphas()
	for k, bits := range honestyPatterns() {
		if k%parts != part || r.late() {
			continue
		}
		var ans []*big.Int
		r.eval(fmt.Sprintf("challenge pattern %d", k))
		if e := panics(func() { ans = p.answer(bits) }); e != nil {
			r.find("C18:answer", "challenge pattern %d is not answered: %v", k, e)
			continue
		}
		for i, a := range ans {
			want := new(big.Int).Set(p.secrets[i])
			if bits[i] {
				want.Add(want, alphas[i/80])
			}
			// any representative answers; the verifier decides
			if new(big.Int).Exp(&p.full.H1.V, a, p.full.N).Cmp(new(big.Int).Exp(&p.full.H1.V, want, p.full.N)) != 0 {
				r.find("C18:answer value", "challenge pattern %d: the answer at position %d is wrong", k, i)
				break
			}
		}
		if res := p.check(p.pub, ans, bits, p.publics); res != 0 {
			r.find("C18:honest", "challenge pattern %d: an honest proof is rejected, naming generator %d", k, res)
		}
	}
	if part == 0 {
		d := newHonestyProof("C18 deployed", true)
		for k, bits := range honestyPatterns()[:66] {
			if k%9 != 0 && k != 63 && !th {
				continue
			}
			r.eval(fmt.Sprintf("deployed size, challenge pattern %d", k))
			if res := d.check(d.pub, d.answer(bits), bits, d.publics); res != 0 {
				r.find("C18:honest:deployed", "challenge pattern %d: an honest proof is rejected, naming generator %d", k, res)
			}
		}
	}
}

// generatorOf returns the field of generator k (from 0)
func generatorOf(b *fujiokam.FujiOkamBase, k int) **fujiokam.Point {
	return []**fujiokam.Point{&b.G1, &b.G2, &b.G3, &b.G4, &b.G5, &b.G6}[k]
}

func wrongProofs(r *Result, gen, part, parts int, th bool) {
	turn := 0
	mine := func(i int) bool { // half of the kinds at each position in the quick tier
		turn++
		return i%parts == part && (th || turn%2 == i/parts%2)
	}
	p := newHonestyProof(fmt.Sprint("C18 wrong ", gen), false)
	N := p.full.N
	h := &p.full.H1.V
	mulN := func(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, N) }
	inv := func(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, N) }
	patterns := map[string][]bool{"all zero": make([]bool, honestyBits), "all one": make([]bool, honestyBits), "mixed": make([]bool, honestyBits)}
	for i := 0; i < honestyBits; i++ {
		patterns["all one"][i] = true
		patterns["mixed"][i] = i*i%7 < 3
	}
	want := func(label string, res int) {
		r.eval(fmt.Sprintf("generator %d: %s", gen+1, label))
		switch {
		case res == 0:
			r.find("C18:accepted:"+shortKey(label), "generator %d: accepted with %s", gen+1, label)
		case res != gen+1:
			r.find("C18:named:"+shortKey(label), "generator %d: with %s, %d is named", gen+1, label, res)
		}
	}
	lo, hi := gen*80, gen*80+80
	// a generator that is not what the proof is about, caught by a single challenged position
	bad := map[string]*big.Int{"times the base": nil, "inverted": nil, "negated": nil, "the base": h, "1": bi(1), "0": bi(0), "a non-square": nil, "squared": nil, "another generator": nil, "a square": bi(4), "times -1 hidden": nil}
	g := new(big.Int).Set(&(*generatorOf(p.pub, gen)).V)
	bad["times the base"], bad["inverted"], bad["negated"], bad["squared"] = mulN(g, h), inv(g), new(big.Int).Sub(N, g), mulN(g, g)
	bad["another generator"] = new(big.Int).Set(&(*generatorOf(p.pub, (gen+1)%6)).V)
	delete(bad, "times -1 hidden")
	bad["a non-square"] = add2(N, bi(-1))
	for i := int64(2); i < 1000; i++ {
		if big.Jacobi(bi(i), N) == -1 {
			bad["a non-square"] = bi(i)
			break
		}
	}
	for _, name := range keysOf(bad) {
		pub := publicBase(p.full)
		*generatorOf(pub, gen) = foPoint(pub, bad[name])
		for i := lo; i < hi && !r.late(); i++ {
			if !mine(i) {
				continue
			}
			bits := make([]bool, honestyBits)
			bits[i] = true
			want(fmt.Sprintf("generator %s, challenged at position %d only", name, i), p.check(pub, p.answer(bits), bits, p.publics))
			// a prover that guessed all bits but one
			pubs, ans := copyInts(p.publics), p.answer(patterns["all one"])
			all := copyBools(patterns["all one"])
			if x := inv(bad[name]); x != nil && name != "1" {
				for j := lo; j < hi; j++ { // commitments that fit the bit 1: H^s / G
					pubs[j] = mulN(new(big.Int).Exp(h, ans[j], N), x)
				}
				for j := range all {
					all[j] = true
				}
				if i == lo {
					if res := p.check(pub, ans, all, pubs); res == 0 {
						r.count("provers that guess every bit pass", 1)
					}
				}
				all[i] = false
				want(fmt.Sprintf("generator %s, all bits but %d guessed", name, i), p.check(pub, ans, all, pubs))
			}
		}
		// with the generators before and after wrong as well, the first is named
		if gen < 5 {
			*generatorOf(pub, gen+1) = foPoint(pub, bi(4))
			want("generator "+name+", the next one wrong too", p.check(pub, p.answer(patterns["all one"]), patterns["all one"], p.publics))
		}
	}
	// answers, commitments and bits
	for _, pn := range []string{"all zero", "all one", "mixed"} {
		bits := patterns[pn]
		ans := p.answer(bits)
		alpha := p.full.VerifAlphas()[gen]
		for i := lo; i < hi && !r.late(); i++ {
			alterAnswer := func(label string, v *big.Int) {
				if !mine(i) || v.Cmp(ans[i]) == 0 || new(big.Int).Exp(h, v, N).Cmp(new(big.Int).Exp(h, ans[i], N)) == 0 {
					return
				}
				a := copyInts(ans)
				a[i] = v
				want(fmt.Sprintf("bits %s, answer %d %s", pn, i, label), p.check(p.pub, a, bits, p.publics))
			}
			alterAnswer("plus 1", add2(ans[i], bi(1)))
			alterAnswer("minus 1", add2(ans[i], bi(-1)))
			alterAnswer("zero", bi(0))
			alterAnswer("negated", new(big.Int).Neg(ans[i]))
			alterAnswer("plus the exponent", add2(ans[i], alpha))
			alterAnswer("minus the exponent", new(big.Int).Sub(ans[i], alpha))
			alterAnswer("reduced by the modulus", new(big.Int).Mod(ans[i], N))
			alterAnswer("of the neighbour", ans[(i+1)%honestyBits])
			alterAnswer("of the next generator", ans[(i+80)%honestyBits])
			alterPublic := func(label string, v *big.Int) {
				if !mine(i) || new(big.Int).Mod(v, N).Cmp(p.publics[i]) == 0 {
					return
				}
				l := copyInts(p.publics)
				l[i] = v
				want(fmt.Sprintf("bits %s, commitment %d %s", pn, i, label), p.check(p.pub, ans, bits, l))
			}
			alterPublic("plus 1", add2(p.publics[i], bi(1)))
			alterPublic("negated", new(big.Int).Sub(N, p.publics[i]))
			alterPublic("zero", bi(0))
			alterPublic("one", bi(1))
			alterPublic("times the base", mulN(p.publics[i], h))
			alterPublic("times the generator", mulN(p.publics[i], g))
			alterPublic("inverted", inv(p.publics[i]))
			alterPublic("of the neighbour", p.publics[(i+1)%honestyBits])
			if !mine(i) {
				continue
			}
			b := copyBools(bits)
			b[i] = !b[i]
			want(fmt.Sprintf("bits %s, bit %d changed after the answer", pn, i), p.check(p.pub, ans, b, p.publics))
		}
		for _, base := range []*big.Int{bi(1), bi(4), mulN(h, h), inv(h), new(big.Int).Sub(N, h)} {
			pub := publicBase(p.full)
			pub.H1 = foPoint(pub, base)
			res := p.check(pub, ans, bits, p.publics)
			r.eval(fmt.Sprintf("bits %s, common base %v", pn, base))
			if res == 0 {
				r.find("C18:accepted:base", "bits %s: accepted with another common base", pn)
			}
		}
	}
	if gen == 0 && part == 0 {
		bits := patterns["mixed"]
		ans := p.answer(bits)
		for _, n := range []int{0, 1, 79, 80, 81, 240, 479} {
			for what := 0; what < 3; what++ {
				a, b, c := ans, bits, p.publics
				switch what {
				case 0:
					a = a[:n]
				case 1:
					b = b[:n]
				case 2:
					c = c[:n]
				}
				r.eval(fmt.Sprintf("only %d of list %d", n, what))
				if p.check(p.pub, a, b, c) == 0 {
					r.find("C18:accepted:short", "accepted with only %d of %d answers, bits or commitments (%d)", n, honestyBits, what)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- coordinator

// honestyView is what registered clients were given
type honestyView struct {
	n, h    *big.Int
	gs      []*big.Int
	publics []*big.Int
}

func honestyOf(m *Msg) *honestyView {
	p := m.event().Params
	b := func(k string) *big.Int { v, _ := p[k].([]byte); return new(big.Int).SetBytes(v) }
	v := &honestyView{n: b("n"), h: b("h1")}
	for i := 1; i <= 6; i++ {
		v.gs = append(v.gs, b(fmt.Sprint("g", i)))
	}
	l, _ := p["honesty_prf"].([]byte)
	panics(func() { v.publics = util.ProtobufDecodeBigIntList(l) })
	return v
}

func (v *honestyView) fits(bits []bool, ans []*big.Int) bool {
	if len(ans) != honestyBits || len(v.publics) != honestyBits || len(bits) != honestyBits {
		return false
	}
	for i, a := range ans {
		x := new(big.Int).Exp(v.h, a, v.n)
		y := new(big.Int).Set(v.publics[i])
		if bits[i] {
			y.Mul(y, v.gs[i/80]).Mod(y, v.n)
		}
		if x == nil || x.Cmp(y) != 0 {
			return false
		}
	}
	return true
}

func answersOf(m *Msg) (l []*big.Int) {
	b, _ := m.event().Params["honesty_ans"].([]byte)
	panics(func() { l = util.ProtobufDecodeBigIntList(b) })
	return
}

type honestyAct struct {
	name string
	who  nodeID
	bits []bool // nil: the registration of who is confirmed
}

func honestyActs() (l []honestyAct) {
	mk := func(f func(i int) bool) (b []bool) {
		for i := 0; i < honestyBits; i++ {
			b = append(b, f(i))
		}
		return
	}
	zero, one, half := mk(func(i int) bool { return false }), mk(func(i int) bool { return true }), mk(func(i int) bool { return i%2 == 0 })
	a, b := cli(0), cli(1)
	return []honestyAct{{"registration of A", a, nil}, {"registration of B", b, nil}, {"A challenges 0", a, zero}, {"A challenges 1", a, one}, {"B challenges 0", b, zero}, {"B challenges 1", b, one}, {"A challenges mixed", a, half}, {"an outsider challenges 1", outsider, one}}
}

type honestyState struct {
	at    *Local
	open  map[nodeID]*honestyView
	given []*big.Int // answers
	hist  []string
}

// honestyLeak: what all answers together give away, as powers of the common base
func honestyLeak(v *honestyView, answers []*big.Int) string {
	powers := map[string]int{}
	var ps []*big.Int
	for i, a := range answers {
		x := new(big.Int).Exp(v.h, a, v.n)
		if x == nil {
			continue
		}
		powers[x.String()] = i
		ps = append(ps, x)
	}
	for k, g := range v.gs {
		for i, x := range append(ps, bi(1)) {
			y := new(big.Int).Mul(x, g)
			if j, ok := powers[y.Mod(y, v.n).String()]; ok {
				return fmt.Sprintf("answers %d and %d differ by the secret exponent of generator %d", j, i, k+1)
			}
		}
	}
	return ""
}

// step gives the state after an action; nothing when there is no need to go on from it
func (s *honestyState) step(l *Lab, a honestyAct) *honestyState {
	r := l.r
	t := &honestyState{given: s.given, open: map[nodeID]*honestyView{}}
	t.hist = append(append(t.hist, s.hist...), a.name)
	where := strings.Join(t.hist, "; ")
	for k, v := range s.open {
		t.open[k] = v
	}
	if a.bits == nil {
		t.at = l.give(s.at, srv(0), mkEvent(proto.CLIENT_REGISTER_SERVERSIDE, srv(0), params{"public_key": util.EncodePoint(pointBig(bi(4))), "pcomm": util.EncodePoint(pointBig(bi(16))), "addr": a.who.addr().String()}))
	} else {
		t.at = l.give(s.at, a.who, mkEvent(proto.GN_HONESTY_CHALLENGE, a.who, params{"honesty_chal": util.ProtobufEncodeBoolList(a.bits)}))
	}
	r.Transitions++
	r.States++
	r.eval(where)
	if t.at.Crashed != "" {
		r.find("C18:stops:"+shortKey(t.at.Crashed), "the coordinator stops after %s: %s", where, firstLine(t.at.Crashed))
		return nil
	}
	if a.bits == nil {
		var v *honestyView
		for _, m := range t.at.Outs {
			if m.To == a.who && m.Type == proto.CLIENT_REGISTER_CONFIRMATION {
				v = honestyOf(m)
			}
		}
		if v == nil || len(v.publics) != honestyBits {
			r.find("C18:no proof", "a registered client gets no proof after %s", where)
			return nil
		}
		t.open[a.who] = v
		return t
	}
	answered := false
	for _, m := range t.at.Outs {
		ans := answersOf(m)
		if m.Type != proto.GN_HONESTY_ANSWER {
			r.find("C18:other message", "a challenge is answered by %s after %s", m, where)
			continue
		}
		if v := t.open[a.who]; v != nil && m.To == a.who && v.fits(a.bits, ans) {
			answered = true
		}
		t.given = append(append([]*big.Int{}, t.given...), ans...)
		ref := refConfirmation(t.at)
		if ref == nil {
			r.find("C18:nobody registered", "a challenge is answered before anybody registered, after %s", where)
			return nil
		}
		if d := honestyLeak(honestyOf(ref), t.given); d != "" {
			r.find("C18:leak", "after %s the answers give a generator's secret away: %s", where, d)
			return nil
		}
	}
	if t.open[a.who] != nil && !answered {
		r.find("C18:unanswered", "a registered client's first challenge is not answered so that it convinces, after %s", where)
		return nil
	}
	delete(t.open, a.who)
	r.count("challenges answered", len(t.at.Outs))
	if len(t.at.Outs) == 0 && t.at.shape() == s.at.shape() {
		r.count("refused without a change", 1)
		return nil // the same state again
	}
	return t
}

func honestySequences(r *Result, depth int, from ...int) {
	l := newLab(r, 1, 2, 0)
	acts := honestyActs()
	var deepest *honestyState
	var rec func(s *honestyState)
	rec = func(s *honestyState) {
		if len(s.hist) == depth || r.late() {
			return
		}
		for i, a := range acts {
			if len(s.hist) < len(from) && i != from[len(s.hist)] {
				continue
			}
			t := s.step(l, a)
			if t == nil {
				continue
			}
			if deepest == nil || len(t.hist) > len(deepest.hist) {
				deepest = t
			}
			rec(t)
		}
	}
	rec(&honestyState{at: l.coord(), open: map[nodeID]*honestyView{}})
	if deepest != nil {
		r.conform(deepest.at)
	}
}

// manyClients: many proofs open at once, answered in every rotation, and closed in turn
func manyClients(r *Result, n int) {
	l := newLab(r, 1, 2, 0)
	acts := honestyActs()
	for k := 0; k < 2*n; k++ {
		s := &honestyState{at: l.coord(), open: map[nodeID]*honestyView{}}
		do := func(i int, bits []bool) {
			if s == nil {
				return
			}
			name := fmt.Sprintf("registration of client%d", i)
			if bits != nil {
				name = fmt.Sprintf("challenge of client%d", i)
			}
			if t := s.step(l, honestyAct{name, cli(i), bits}); t != nil {
				s = t
			} else if bits == nil {
				s = nil
			}
		}
		for i := 0; i < n; i++ {
			do(i, nil)
		}
		for i := 0; i < n; i++ {
			j := (k + i) % n
			if k >= n {
				j = (k + n - i) % n
			}
			do(j, acts[2+i%2].bits)
			do(j, acts[3-i%2].bits)
			if i%3 == 0 {
				do(j, nil)
			}
		}
		if s != nil && k == 0 {
			r.conform(s.at)
		}
	}
}

// refConfirmation finds the last registration confirmed on the way to a state
func refConfirmation(at *Local) *Msg {
	var c *Msg
	for _, x := range at.path() {
		for _, m := range x.Outs {
			if m.Type == proto.CLIENT_REGISTER_CONFIRMATION {
				c = m
			}
		}
	}
	return c
}

// ---------------------------------------------------------------- client

func clientHonesty(r *Result, part, parts int, th bool) {
	w := newWorld(newEngine(), 1, 2)
	s := w.members(0, 1)
	l := &Lab{w: w, s: s, r: r}
	// a registration, message by message
	c0 := w.e.step(l.w.local(l.s, cli(1)), Input{Op: "register"})
	co := l.coord()
	deliver := func(at *Local, m *Msg) *Local {
		d := w.e.step(at, Input{Msg: m})
		expect(d.Crashed == "", "%s stops on %s", at.Node, m)
		return d
	}
	co = deliver(co, c0.Outs[0])
	sv := w.local(l.s, srv(0))
	var confirm *Msg
	queue := append([]*Msg{}, co.Outs...)
	for len(queue) > 0 {
		m := queue[0]
		queue = queue[1:]
		switch {
		case m.To == cli(1) && m.Type == proto.CLIENT_REGISTER_CONFIRMATION:
			confirm = m
		case m.To == cli(1):
			c0 = deliver(c0, m)
		case m.To == srv(0):
			sv = deliver(sv, m)
			queue = append(queue, sv.Outs...)
		case m.To == 0:
			co = deliver(co, m)
			queue = append(queue, co.Outs...)
		}
	}
	expect(confirm != nil, "a registration is not confirmed")
	c1 := deliver(c0, confirm)
	expect(len(c1.Outs) == 1, "a client sends no challenge")
	co = deliver(co, c1.Outs[0])
	expect(len(co.Outs) == 1, "a challenge is not answered")
	good := deliver(c1, co.Outs[0])
	r.conform(good)
	v := honestyOf(confirm)
	bits := util.ProtobufDecodeBoolList(c1.Outs[0].event().Params["honesty_chal"].([]byte))
	ans := answersOf(co.Outs[0])
	if !v.fits(bits, ans) {
		r.find("C18:exchange", "the answers of a registration do not fit its proof and challenge")
	}
	k := 0
	// rejected: the client stops, or does not take the parameters
	rejected := func(label string, conf, answer []byte) {
		k++
		if k%parts != part || r.late() {
			return
		}
		r.eval("client: " + label)
		r.States++
		r.Transitions++
		d := w.e.try(c0, Input{Msg: w.e.addMsg(0, cli(1), conf)})
		if d.Crashed != "" {
			return
		}
		d = w.e.try(d, Input{Msg: w.e.addMsg(0, cli(1), answer)})
		if d.Crashed == "" && d.View.D.HasFO {
			r.find("C18:client:"+shortKey(label), "a client accepts the generators with %s", label)
		}
	}
	conf, answer := confirm.Bytes, co.Outs[0].Bytes
	cp, ap := paramsOf(conf), paramsOf(answer)
	mkConf := func(p params) []byte { return mkEvent(proto.CLIENT_REGISTER_CONFIRMATION, 0, p) }
	mkAns := func(a []*big.Int) []byte {
		return mkEvent(proto.GN_HONESTY_ANSWER, 0, ap.with("honesty_ans", util.ProtobufEncodeBigIntList(a)))
	}
	mulN := func(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, v.n) }
	for _, f := range []string{"g1", "g2", "g3", "g4", "g5", "g6", "h1", "n"} {
		x := new(big.Int).SetBytes(cp.bytes(f))
		for name, y := range map[string]*big.Int{"plus 1": add2(x, bi(1)), "times 4": mulN(x, bi(4)), "squared": mulN(x, x), "times h": mulN(x, v.h), "negated": new(big.Int).Sub(v.n, x), "1": bi(1), "0": bi(0), "4": bi(4)} {
			if f == "n" && (name == "1" || name == "0" || name == "negated") || y.Cmp(x) == 0 {
				continue
			}
			rejected(f+" "+name, mkConf(cp.with(f, y.Bytes())), answer)
		}
	}
	for i := range ans {
		if !th && i%2 == 1 && i%80 != 79 && i%80 != 1 {
			continue
		}
		a := copyInts(ans)
		a[i] = add2(a[i], bi(1))
		rejected(fmt.Sprintf("answer %d plus 1", i), conf, mkAns(a))
		q := copyInts(v.publics)
		q[i] = mulN(q[i], v.h)
		rejected(fmt.Sprintf("commitment %d times h", i), mkConf(cp.with("honesty_prf", util.ProtobufEncodeBigIntList(q))), answer)
		alpha := copyInts(ans)
		alpha[i], alpha[(i+1)%honestyBits] = alpha[(i+1)%honestyBits], alpha[i]
		rejected(fmt.Sprintf("answers %d and the next exchanged", i), conf, mkAns(alpha))
	}
	for _, n := range []int{0, 80, 400, 479} {
		rejected(fmt.Sprintf("only %d answers", n), conf, mkAns(ans[:n]))
		rejected(fmt.Sprintf("only %d commitments", n), mkConf(cp.with("honesty_prf", util.ProtobufEncodeBigIntList(v.publics[:n]))), answer)
	}
	// another proof's answers
	other := newHonestyProof("C18 other", false)
	rejected("another proof's answers", conf, mkAns(other.answer(bits)))
	rejected("another proof's commitments", mkConf(cp.with("honesty_prf", util.ProtobufEncodeBigIntList(other.publics))), answer)
}
