package main

// C13: shuffle proofs accept exactly true shuffles.

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"zRep/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
)

func init() {
	register(&Prop{ID: "C13", Level: "exploration", Budget: 85,
		Rule:   "completeness: every permutation of every length with every kind of input list; soundness: every false statement of the alphabet under a true proof, also with the statement the prover binds replaced, every altered element and byte of a proof, every family of cheating provers with every position they cheat at; distinct by length, permutation, input kind and alteration",
		Assume: []string{"a 61-bit safe-prime group stands for the deployed group in most cases (a false proof passes by luck with probability 2^-60); the deployed group is used for the rest"},
		Jobs:   shuffleJobs})
}

// stmt: (X,Y) shuffled to (Xb,Yb) with bases g (nil: the standard one) and h = g^xh
type stmt struct {
	s            abstract.Suite
	g, h         abstract.Point
	xh           *big.Int
	X, Y, Xb, Yb []abstract.Point
}

func (t *stmt) clone() *stmt {
	c := *t
	for _, l := range []*[]abstract.Point{&c.X, &c.Y, &c.Xb, &c.Yb} {
		*l = append([]abstract.Point(nil), *l...)
	}
	return &c
}

func (t *stmt) base() abstract.Point {
	if t.g != nil {
		return t.g
	}
	return t.s.Point().Base()
}

// flat: every point of the statement, in the order a prover would state it
func (t *stmt) flat() (names []string, points []*abstract.Point) {
	if t.g != nil {
		names, points = append(names, "g"), append(points, &t.g)
	}
	names, points = append(names, "h"), append(points, &t.h)
	for i, l := range [][]abstract.Point{t.X, t.Y, t.Xb, t.Yb} {
		for j := range l {
			names = append(names, fmt.Sprintf("%s[%d]", []string{"X", "Y", "Xbar", "Ybar"}[i], j))
			points = append(points, &l[j])
		}
	}
	return
}

// holds: some permutation and some exponents explain the outputs. With h = g^xh
// that is so exactly when Y-xh*X has the same elements on both sides.
func (t *stmt) holds() bool {
	x := secretOf(t.s, t.xh)
	n := map[string]int{}
	for i := range t.X {
		n[t.s.Point().Sub(t.Y[i], t.s.Point().Mul(t.X[i], x)).String()]++
		n[t.s.Point().Sub(t.Yb[i], t.s.Point().Mul(t.Xb[i], x)).String()]--
	}
	for _, c := range n {
		if c != 0 {
			return false
		}
	}
	return true
}

func order(s abstract.Suite) *big.Int { return s.Secret().(*nist.Int).M }

func (t *stmt) verify(prf []byte) bool {
	ok := false
	panics(func() {
		ok = proof.HashVerify(t.s, "PairShuffle", shuffle.Verifier(t.s, t.g, t.h, t.X, t.Y, t.Xb, t.Yb), prf) == nil
	})
	return ok
}

// input lists by kind
func shuffleInput(s abstract.Suite, kind string, k int) *stmt {
	st := newPRF(prfKey("shuffle input", kind, k))
	rnd := func() abstract.Secret { return s.Secret().Pick(st) }
	pt := func(x abstract.Secret) abstract.Point { return s.Point().Mul(nil, x) }
	xh := rnd()
	t := &stmt{s: s, xh: secretVal(xh), h: pt(xh)}
	if strings.Contains(kind, "own base") {
		g := rnd()
		t.g, t.h = pt(g), pt(s.Secret().Mul(g, xh))
	}
	if strings.Contains(kind, "h is g") {
		t.h, t.xh = t.base(), bi(1)
	}
	x0, y0 := rnd(), rnd()
	for i := 0; i < k; i++ {
		x, y := rnd(), rnd()
		if strings.Contains(kind, "same X") {
			x = x0
		}
		if strings.Contains(kind, "same Y") {
			y = y0
		}
		if strings.Contains(kind, "all neutral") || strings.Contains(kind, "neutral X") && i == 0 {
			x = s.Secret().Zero()
		}
		if strings.Contains(kind, "all neutral") || strings.Contains(kind, "neutral Y") && i == k-1 {
			y = s.Secret().Zero()
		}
		t.X, t.Y = append(t.X, pt(x)), append(t.Y, pt(y))
		if strings.Contains(kind, "twice") && i == 1 {
			t.X[1], t.Y[1] = t.X[0], t.Y[0]
		}
	}
	return t
}

var shuffleKinds = []string{"distinct", "distinct, own base", "same X", "same Y", "same X, same Y", "neutral X, neutral Y", "all neutral", "twice", "distinct, h is g"}

// shuffle runs the real shuffle on t's inputs; the outputs go to t
func (t *stmt) shuffle(key string, wrap func(proof.ProverContext) proof.ProverContext) (prf []byte, pi []int, bad string) {
	rand := t.s.Cipher([]byte(key))
	k := len(t.X)
	in := t.clone()
	Xb, Yb, prover, Xt, Yt := shuffle.Shuffle(t.s, t.g, t.h, in.X, in.Y, rand)
	if len(Xb) != k || len(Yb) != k || len(Xt) != k || len(Yt) != k {
		return nil, nil, "the outputs have another length"
	}
	// which input each output came from: it is the output less its mask
	used := make([]bool, k)
	xh := secretOf(t.s, t.xh)
	for i := range Xb {
		x, y := t.s.Point().Sub(Xb[i], Xt[i]), t.s.Point().Sub(Yb[i], Yt[i])
		j := 0
		for j < k && (used[j] || !x.Equal(t.X[j]) || !y.Equal(t.Y[j])) {
			j++
		}
		if j == k || !t.s.Point().Mul(Xt[i], xh).Equal(Yt[i]) {
			return nil, nil, fmt.Sprintf("output %d is no re-encryption of an input not used before", i)
		}
		if Xt[i].Equal(t.s.Point().Null()) {
			return nil, nil, fmt.Sprintf("output %d is not re-encrypted", i)
		}
		for o := 0; o < i; o++ {
			if Xt[i].Equal(Xt[o]) {
				return nil, nil, fmt.Sprintf("outputs %d and %d have the same mask", o, i)
			}
		}
		used[j] = true
		pi = append(pi, j)
	}
	t.Xb, t.Yb = Xb, Yb
	var err error
	if e := panics(func() {
		prf, err = proof.HashProve(t.s, "PairShuffle", rand, func(ctx proof.ProverContext) error {
			if wrap != nil {
				ctx = wrap(ctx)
			}
			return prover(ctx)
		})
	}); e != nil || err != nil {
		return nil, pi, fmt.Sprint("no proof: ", e, err)
	}
	for i := range t.X {
		if !in.X[i].Equal(t.X[i]) || !in.Y[i].Equal(t.Y[i]) {
			return nil, pi, fmt.Sprintf("input %d was changed", i)
		}
	}
	return prf, pi, ""
}

// elements of a message, in the order they are written
func elements(v reflect.Value) (l []interface{}) {
	if v.IsValid() && v.CanInterface() {
		switch x := v.Interface().(type) {
		case abstract.Point, abstract.Secret:
			return []interface{}{x}
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return elements(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			l = append(l, elements(v.Field(i))...)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			l = append(l, elements(v.Index(i))...)
		}
	}
	return
}

// lyingContext replaces points in the prover's first message: the prover binds
// another statement than the one it proves
type lyingContext struct {
	proof.ProverContext
	swap map[string]abstract.Point
	n    int
}

func (c *lyingContext) Put(m interface{}) error {
	c.n++
	if c.n > 1 {
		return c.ProverContext.Put(m)
	}
	for _, e := range elements(reflect.ValueOf(m)) {
		if p, ok := e.(abstract.Point); ok {
			if r := c.swap[p.String()]; r != nil {
				e = r
			}
			if err := c.ProverContext.Put(e.(abstract.Point)); err != nil {
				return err
			}
		} else if err := c.ProverContext.Put(e); err != nil {
			return err
		}
	}
	return nil
}

// listeningContext records the verifier's challenges
type listeningContext struct {
	proof.VerifierContext
	heard *[][]abstract.Secret
}

func (c listeningContext) PubRand(m ...interface{}) error {
	err := c.VerifierContext.PubRand(m...)
	var l []abstract.Secret
	for _, x := range m {
		for _, e := range elements(reflect.ValueOf(x)) {
			if s, ok := e.(abstract.Secret); ok {
				l = append(l, s.(abstract.Secret))
			}
		}
	}
	*c.heard = append(*c.heard, l)
	return err
}

func shuffleJobs(th bool) (jobs []Job) {
	fast, deployed := abstract.Suite(fastSuite()), abstract.Suite(qr512)
	maxK := 5
	if th {
		maxK = 6
	}
	// completeness
	for _, kind := range shuffleKinds {
		kind := kind
		jobs = append(jobs, Job{Name: "true shuffles: " + kind, Run: func(r *Result) {
			for k := 2; k <= maxK; k++ {
				completeShuffles(r, fast, "", kind, k, 1<<20)
			}
			n := 3
			if th {
				n = 60
			}
			for k := 2; k <= 10; k++ {
				completeShuffles(r, deployed, "deployed group, ", kind, k, n)
			}
			for _, k := range []int{12, 17, 30, 33, 65} {
				completeShuffles(r, fast, "", kind, k, 4)
			}
		}})
	}
	for _, kind := range shuffleKinds {
		kind := kind
		jobs = append(jobs, Job{Name: "two-element shuffles: " + kind, Run: func(r *Result) { biffles(r, fast, "", kind, th) }})
	}
	jobs = append(jobs, Job{Name: "two-element shuffles, deployed group", Run: func(r *Result) {
		for _, kind := range shuffleKinds {
			biffles(r, deployed, "deployed group, ", kind, false)
		}
	}})
	jobs = append(jobs, Job{Name: "two-element shuffles, cheating", Run: func(r *Result) {
		biffleLies(r, fast, "")
		biffleLies(r, deployed, "deployed group, ")
	}})
	// false statements and altered proofs
	for k := 2; k <= 4; k++ {
		k := k
		for _, kind := range []string{"distinct", "same X", "distinct, own base"} {
			kind := kind
			jobs = append(jobs, Job{Name: fmt.Sprintf("false statements: %s, %d", kind, k), Run: func(r *Result) {
				n := 12
				if th {
					n = 200
				}
				falseStatements(r, fast, "", kind, k, n)
				if k < 4 {
					falseStatements(r, deployed, "deployed group, ", kind, k, 1)
				}
			}})
		}
		jobs = append(jobs, Job{Name: fmt.Sprintf("altered proofs: %d", k), Run: func(r *Result) {
			alteredProofs(r, fast, "", k, th)
			if k == 2 || th {
				alteredProofs(r, deployed, "deployed group, ", k, false)
			}
		}})
		jobs = append(jobs, Job{Name: fmt.Sprintf("cheating provers: %d", k), Run: func(r *Result) { cheatingShuffles(r, fast, k, th) }})
	}
	long := []int{7, 9, 13, 17, 33}
	if th {
		long = []int{6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 25, 32, 33, 40, 64, 65, 101}
	}
	for _, k := range long {
		k := k
		jobs = append(jobs, Job{Name: fmt.Sprintf("long lists: %d", k), Run: func(r *Result) { longShuffles(r, fast, k, th) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("long lists, cheating provers: %d", k), Run: func(r *Result) { longCheats(r, fast, k) }})
	}
	return
}

// longShuffles: every place of a long list, each on its own
func longShuffles(r *Result, s abstract.Suite, k int, th bool) {
	kinds := []string{"distinct"}
	if th || k < 20 {
		kinds = append(kinds, "same X", "distinct, own base")
	}
	for _, kind := range kinds {
		key := "long list"
		t := shuffleInput(s, kind, k)
		var puts [][]interface{}
		prf, pi, bad := t.shuffle(key, func(c proof.ProverContext) proof.ProverContext { return &recordingContext{c, &puts} })
		if bad != "" || !t.holds() || !t.verify(prf) {
			r.find("C13:no proof:long", "no proof for a true shuffle of %d pairs (%s): %s", k, kind, bad)
			return
		}
		label := fmt.Sprintf("%s, %d pairs, permutation %v: ", kind, k, pi)
		count := map[string]int{}
		names, pts := t.flat()
		for _, p := range pts {
			count[(*p).String()]++
		}
		try := func(what string, a *stmt, claim bool) {
			if r.late() {
				return
			}
			a.judge(r, label+what, "long "+strings.Fields(what)[0], prf)
			swap := map[string]abstract.Point{}
			_, now := a.flat()
			for i := range pts {
				if !(*pts[i]).Equal(*now[i]) {
					claim = claim && count[(*pts[i]).String()] == 1
					swap[(*pts[i]).String()] = *now[i]
				}
			}
			if !claim {
				return
			}
			again := shuffleInput(s, kind, k)
			prf2, _, bad := again.shuffle(key, func(c proof.ProverContext) proof.ProverContext {
				return &lyingContext{ProverContext: c, swap: swap}
			})
			if bad == "" {
				a.judge(r, label+"claimed with "+what, "long, claimed "+strings.Fields(what)[0], prf2)
			}
		}
		for i, n := range names {
			if n == "g" || n == "h" {
				continue
			}
			c := t.clone()
			_, p := c.flat()
			*p[i] = s.Point().Add(*p[i], t.base())
			try(n+" plus the base", c, true)
		}
		for i := 0; i < k; i++ {
			j := (i + 1) % k
			c := t.clone()
			c.Xb[j], c.Yb[j] = t.Xb[i], t.Yb[i]
			try(fmt.Sprintf("output %d twice, %d missing", i, j), c, true)
			c = t.clone()
			c.Yb[i], c.Yb[j] = t.Yb[j], t.Yb[i]
			try(fmt.Sprintf("second components of outputs %d and %d exchanged", i, j), c, true)
			c = t.clone()
			c.Xb[i], c.Xb[j] = t.Xb[j], t.Xb[i]
			try(fmt.Sprintf("first components of outputs %d and %d exchanged", i, j), c, false)
		}
		n := s.PointLen()
		for i := 0; i*n+n <= len(prf) && !r.late(); i++ {
			el := prf[i*n : i*n+n]
			check := func(what string, e []byte) {
				b := append([]byte(nil), prf...)
				copy(b[i*n:], e)
				if string(b) == string(prf) {
					return
				}
				what = fmt.Sprintf("element %d of the proof %s", i, what)
				r.eval(label + what)
				if t.verify(b) {
					r.find("C13:altered proof:long", "%sthe proof still verifies with %s", label, what)
				}
			}
			check("zero", make([]byte, n))
			if p := s.Point(); p.UnmarshalBinary(el) == nil {
				b, err := s.Point().Add(p, t.base()).MarshalBinary()
				must(err)
				check("plus the base", b)
			}
			if x := s.Secret(); x.UnmarshalBinary(el) == nil {
				b, err := s.Secret().Add(x, s.Secret().One()).MarshalBinary()
				must(err)
				check("plus one", b)
			}
		}
	}
}

// longCheats: the families of cheating provers at every place of a long list
func longCheats(r *Result, s abstract.Suite, k int) {
	try := func(y *pairLie) {
		if r.late() {
			return
		}
		t, prf := y.run(s)
		if prf == nil {
			r.count("no proof made", 1)
			return
		}
		t.judge(r, "a cheating prover: "+y.String(), fmt.Sprintf("long cheat %s %s %v %v %v", y.solve, y.tie, y.rhoFirst, y.cFirst, y.chain >= 0), prf)
	}
	turn := make([]int, k)
	for i := range turn {
		turn[i] = (i + k/2) % k
	}
	honest := func() *pairLie { return &pairLie{k: k, f: append([]int(nil), turn...), bend: -1, chain: -1} }
	t, prf := honest().run(s)
	if t.verify(prf) {
		r.count("the harness's own honest proofs accepted", 1)
	} else {
		r.Notes = append(r.Notes, "the harness's own honest shuffle proof is not accepted")
	}
	for i := 0; i < k; i++ {
		// output i is off, explained by one coefficient
		for _, at := range []int{i, (i + 1) % k} {
			y := honest()
			y.bend, y.dx, y.dy, y.solve, y.at = i, 0, 1, "sigma", at
			try(y)
			for _, tie := range []string{"", "R", "S"} {
				y := honest()
				y.bend, y.dx, y.dy, y.solve, y.at, y.tie = i, 0, 1, "free", at, tie
				try(y)
			}
		}
		for _, solve := range []string{"34", "35", "first"} {
			y := honest()
			y.bend, y.dx, y.dy, y.solve, y.rhoFirst = i, 1, 1, solve, solve == "first"
			try(y)
		}
		// one input twice, another missing
		dup := func() *pairLie {
			y := honest()
			y.f[i] = y.f[(i+1)%k]
			return y
		}
		for _, tie := range []string{"", "R", "S"} {
			y := dup()
			y.tie = tie
			try(y)
			y = dup()
			y.tie, y.cFirst = tie, true
			try(y)
		}
	}
	// one equation of the simple shuffle broken
	for j := 0; j < 2*k; j++ {
		for _, i := range []int{0, k - 1} {
			y := honest()
			y.f[i] = y.f[(i+1)%k]
			y.chain = j
			try(y)
		}
		y := honest()
		y.bend, y.dx, y.dy, y.solve, y.at, y.chain = k-1, 0, 1, "free", k-1, j
		try(y)
	}
}

func completeShuffles(r *Result, s abstract.Suite, where, kind string, k, limit int) {
	seen := map[string]bool{}
	all := 1
	for i := 2; i <= k && all <= limit; i++ {
		all *= i
	}
	// with equal inputs the permutation cannot be told from outside
	same := strings.Contains(kind, "all neutral") || strings.Contains(kind, "same X, same Y")
	if strings.Contains(kind, "twice") {
		all /= 2
	}
	if same {
		all = 20
	}
	for n := 0; len(seen) < all && len(seen) < limit && n < 60*all+60 && !r.late(); n++ {
		t := shuffleInput(s, kind, k)
		prf, pi, bad := t.shuffle(fmt.Sprint("completeness ", n), nil)
		key := fmt.Sprint(pi)
		if same {
			key = fmt.Sprint(n)
		}
		r.eval(fmt.Sprintf("%s%s: %v", where, kind, key))
		seen[key] = true
		if bad != "" {
			r.find("C13:"+kind+":"+shortened(bad), "%sshuffling %d pairs (%s, permutation %v): %s", where, k, kind, pi, bad)
			return
		}
		if !t.holds() {
			r.find("C13:outputs:"+kind, "%sthe outputs of shuffling %d pairs (%s) are no shuffle of the inputs", where, k, kind)
		}
		if !t.verify(prf) {
			r.find("C13:incomplete:"+kind, "%sthe proof for a true shuffle of %d pairs (%s, permutation %v) does not verify", where, k, kind, pi)
			return
		}
	}
	if !same && limit > all && len(seen) < all {
		r.find("C13:unreachable:"+kind, "%sonly %d of the %d orders of %d pairs (%s) ever come out of the shuffle", where, len(seen), all, k, kind)
	}
	r.count("permutations proved", len(seen))
}

type alteredStmt struct {
	what string
	t    *stmt
}

// alterations of a statement, false ones only
func (t *stmt) alterations() (l []alteredStmt) {
	s := t.s
	names, pts := t.flat()
	add := func(what string, f func(c *stmt, p []*abstract.Point)) {
		c := t.clone()
		_, p := c.flat()
		f(c, p)
		if !c.holds() {
			l = append(l, alteredStmt{what, c})
		}
	}
	plus := func(a, b abstract.Point) abstract.Point { return s.Point().Add(a, b) }
	minus := func(a, b abstract.Point) abstract.Point { return s.Point().Sub(a, b) }
	base := t.base()
	for i, n := range names {
		i := i
		if n == "g" {
			continue
		}
		if n == "h" {
			one := s.Secret().One()
			for what, f := range map[string]func(x abstract.Secret) abstract.Secret{"plus the base": func(x abstract.Secret) abstract.Secret { return s.Secret().Add(x, one) }, "minus the base": func(x abstract.Secret) abstract.Secret { return s.Secret().Sub(x, one) },
				"doubled": func(x abstract.Secret) abstract.Secret { return s.Secret().Add(x, x) }, "negated": func(x abstract.Secret) abstract.Secret { return s.Secret().Neg(x) }, "neutral": func(x abstract.Secret) abstract.Secret { return s.Secret().Zero() },
				"replaced by the base": func(x abstract.Secret) abstract.Secret { return s.Secret().One() }} {
				f := f
				add("h "+what, func(c *stmt, p []*abstract.Point) {
					x := f(secretOf(s, t.xh))
					c.xh = secretVal(x)
					c.h = s.Point().Mul(base, x)
				})
			}
			continue
		}
		v := *pts[i]
		for what, w := range map[string]abstract.Point{"plus the base": plus(v, base), "minus the base": minus(v, base), "plus h": plus(v, t.h), "doubled": plus(v, v), "negated": s.Point().Neg(v), "neutral": s.Point().Null(), "replaced by the base": base, "replaced by h": t.h} {
			w := w
			add(n+" "+what, func(c *stmt, p []*abstract.Point) { *p[i] = w })
		}
		for j, o := range names {
			j := j
			if i != j && o != "g" && o != "h" {
				add(n+" replaced by "+o, func(c *stmt, p []*abstract.Point) { *p[i] = *pts[j] })
				if i < j {
					add(n+" and "+o+" exchanged", func(c *stmt, p []*abstract.Point) { *p[i], *p[j] = *pts[j], *pts[i] })
					add(n+" plus and "+o+" minus the base", func(c *stmt, p []*abstract.Point) { *p[i], *p[j] = plus(v, base), minus(*pts[j], base) })
					add(n+" and "+o+" plus the base", func(c *stmt, p []*abstract.Point) { *p[i], *p[j] = plus(v, base), plus(*pts[j], base) })
				}
			}
		}
	}
	k := len(t.X)
	for i := 0; i < k; i++ {
		for j := 0; j < k; j++ {
			i, j := i, j
			if i != j {
				add(fmt.Sprintf("output %d twice, %d missing", i, j), func(c *stmt, p []*abstract.Point) { c.Xb[j], c.Yb[j] = t.Xb[i], t.Yb[i] })
				add(fmt.Sprintf("input %d twice, %d missing", i, j), func(c *stmt, p []*abstract.Point) { c.X[j], c.Y[j] = t.X[i], t.Y[i] })
			}
		}
	}
	add("first components turned", func(c *stmt, p []*abstract.Point) { c.Xb = append(append([]abstract.Point(nil), t.Xb[1:]...), t.Xb[0]) })
	add("second components turned", func(c *stmt, p []*abstract.Point) { c.Yb = append(append([]abstract.Point(nil), t.Yb[1:]...), t.Yb[0]) })
	add("components exchanged", func(c *stmt, p []*abstract.Point) { c.Xb, c.Yb = t.Yb, t.Xb })
	add("inputs' components exchanged", func(c *stmt, p []*abstract.Point) { c.X, c.Y = t.Y, t.X })
	return
}

func (t *stmt) judge(r *Result, what, kind string, prf []byte) {
	r.eval(what)
	if t.holds() {
		return
	}
	if t.verify(prf) {
		r.find("C13:accepts:"+kind, "a shuffle proof verifies for a statement that is false: %s", what)
	}
}

func falseStatements(r *Result, s abstract.Suite, where, kind string, k, runs int) {
	for run := 0; run < runs && !r.late(); run++ {
		key := fmt.Sprint("false statement ", run)
		t := shuffleInput(s, kind, k)
		var puts [][]interface{}
		prf, pi, bad := t.shuffle(key, func(c proof.ProverContext) proof.ProverContext { return &recordingContext{c, &puts} })
		if bad != "" || !t.verify(prf) {
			r.find("C13:no proof", "no proof for a true shuffle: %s", bad)
			return
		}
		count := map[string]int{}
		names, pts := t.flat()
		for _, p := range pts {
			count[(*p).String()]++
		}
		label := fmt.Sprintf("%s%s, %d pairs, permutation %v: ", where, kind, k, pi)
		for _, a := range t.alterations() {
			if r.late() {
				return
			}
			a.t.judge(r, label+a.what, "altered "+strings.Fields(a.what)[0], prf)
			// the same with a prover that claims the altered statement
			swap, usable := map[string]abstract.Point{}, true
			_, now := a.t.flat()
			for i := range pts {
				if !(*pts[i]).Equal(*now[i]) {
					if count[(*pts[i]).String()] > 1 {
						usable = false
					}
					swap[(*pts[i]).String()] = *now[i]
				}
			}
			if !usable {
				continue
			}
			again := shuffleInput(s, kind, k)
			prf2, _, bad := again.shuffle(key, func(c proof.ProverContext) proof.ProverContext {
				return &lyingContext{ProverContext: c, swap: swap}
			})
			if bad == "" {
				a.t.judge(r, label+"claimed with "+a.what, "claimed "+strings.Fields(a.what)[0], prf2)
			}
		}
		// statements chosen after the proof: everything the verifier's equations are linear in
		var heard [][]abstract.Secret
		proof.HashVerify(s, "PairShuffle", func(ctx proof.VerifierContext) error {
			return shuffle.Verifier(s, t.g, t.h, t.X, t.Y, t.Xb, t.Yb)(listeningContext{ctx, &heard})
		}, prf)
		coef := map[string]abstract.Secret{}
		for _, h := range heard {
			if len(h) == k { // the inputs' coefficients
				for i := range h {
					for _, n := range []string{"X", "Y"} {
						coef[fmt.Sprintf("%s[%d]", n, i)] = s.Secret().Neg(h[i])
					}
				}
				break
			}
		}
		for _, p := range puts {
			if len(p) == k+1 && isSecrets(p) { // the outputs' coefficients, and that of the base
				for i := 0; i < k; i++ {
					for _, n := range []string{"Xbar", "Ybar"} {
						coef[fmt.Sprintf("%s[%d]", n, i)] = p[i].(abstract.Secret)
					}
				}
				break
			}
		}
		r.count("coefficients known", len(coef))
		for i, a := range names {
			for j, b := range names {
				ca, cb := coef[a], coef[b]
				if i == j || ca == nil || cb == nil || (a[0] != b[0]) {
					continue
				}
				for n, d := range map[string]abstract.Point{"the base": t.base(), "h": t.h, "another": t.X[0]} {
					c := t.clone()
					_, p := c.flat()
					// ca*d - cb*(ca/cb)*d = 0
					f := s.Secret().Div(ca, cb)
					*p[i] = s.Point().Add(*p[i], d)
					*p[j] = s.Point().Sub(*p[j], s.Point().Mul(d, f))
					c.judge(r, fmt.Sprintf("%s%s changed by %s, balanced by %s", label, a, n, b), "balanced", prf)
				}
			}
		}
	}
}

type recordingContext struct {
	proof.ProverContext
	puts *[][]interface{}
}

func (c *recordingContext) Put(m interface{}) error {
	*c.puts = append(*c.puts, elements(reflect.ValueOf(m)))
	return c.ProverContext.Put(m)
}

func isSecrets(l []interface{}) bool {
	for _, e := range l {
		if _, ok := e.(abstract.Secret); !ok {
			return false
		}
	}
	return true
}

// encodings of a proof's elements: points and secrets have the same size here
func alteredProofs(r *Result, s abstract.Suite, where string, k int, th bool) {
	for _, kind := range []string{"distinct", "same X"} {
		t := shuffleInput(s, kind, k)
		prf, pi, bad := t.shuffle("altered proofs", nil)
		if bad != "" || !t.verify(prf) {
			r.find("C13:no proof", "no proof for a true shuffle: %s", bad)
			return
		}
		label := fmt.Sprintf("%s%s, %d pairs, permutation %v: ", where, kind, k, pi)
		check := func(what string, b []byte) {
			if string(b) == string(prf) || r.late() {
				return
			}
			r.eval(label + what)
			if t.verify(b) {
				r.find("C13:altered proof", "%sthe proof still verifies with %s", label, what)
			}
		}
		bits := []uint{0, 1, 2, 3, 4, 5, 6, 7}
		if s.PointLen() > 8 {
			bits = []uint{0}
		}
		step := 1
		if s.PointLen() > 8 && !th {
			step = 7
		}
		for i := 0; i < len(prf); i += step {
			for _, bit := range bits {
				b := append([]byte(nil), prf...)
				b[i] ^= 1 << bit
				check(fmt.Sprintf("bit %d of byte %d changed", bit, i), b)
			}
		}
		n := s.PointLen()
		el := func(b []byte, i int) []byte { return b[i*n : i*n+n] }
		enc := func(p abstract.Point) []byte { b, err := p.MarshalBinary(); must(err); return b }
		count := len(prf) / n
		for i := 0; i < count; i++ {
			put := func(what string, e []byte) {
				b := append([]byte(nil), prf...)
				copy(el(b, i), e)
				check(fmt.Sprintf("element %d %s", i, what), b)
			}
			put("zero", make([]byte, n))
			put("neutral", enc(s.Point().Null()))
			put("the base", enc(t.base()))
			put("h", enc(t.h))
			for j := 0; j < count; j++ {
				put(fmt.Sprintf("replaced by element %d", j), el(prf, j))
				if i < j {
					b := append([]byte(nil), prf...)
					copy(el(b, i), el(prf, j))
					copy(el(b, j), el(prf, i))
					check(fmt.Sprintf("elements %d and %d exchanged", i, j), b)
				}
			}
			p := s.Point()
			if p.UnmarshalBinary(el(prf, i)) == nil {
				put("plus the base", enc(s.Point().Add(p, t.base())))
				put("inverted", enc(s.Point().Neg(p)))
				put("doubled", enc(s.Point().Add(p, p)))
			}
			x := s.Secret()
			if x.UnmarshalBinary(el(prf, i)) == nil {
				one := s.Secret().One()
				for what, y := range map[string]abstract.Secret{"plus one": s.Secret().Add(x, one), "minus one": s.Secret().Sub(x, one), "negated": s.Secret().Neg(x), "doubled": s.Secret().Add(x, x)} {
					b, err := y.MarshalBinary()
					must(err)
					put(what+" as a number", b)
				}
			}
			check(fmt.Sprintf("the elements from %d on missing", i), append([]byte(nil), prf[:i*n]...))
			check(fmt.Sprintf("the elements before %d missing", i+1), append([]byte(nil), prf[(i+1)*n:]...))
			check(fmt.Sprintf("element %d missing", i), append(append([]byte(nil), prf[:i*n]...), prf[(i+1)*n:]...))
			if (i+1)*n < len(prf) { // what follows a whole proof is not read
				check(fmt.Sprintf("element %d twice", i), append(append([]byte(nil), prf[:(i+1)*n]...), prf[i*n:]...))
			}
		}
		// proofs of other shuffles
		o := shuffleInput(s, kind, k)
		if p, _, bad := o.shuffle("another shuffle of the same", nil); bad == "" {
			check("that of another shuffle of the same list", p)
		}
	}
}

// zq: arithmetic on exponents
type zq struct{ q *big.Int }

func (z zq) n(x int64) *big.Int         { return new(big.Int).Mod(bi(x), z.q) }
func (z zq) add(a, b *big.Int) *big.Int { c := new(big.Int).Add(a, b); return c.Mod(c, z.q) }
func (z zq) sub(a, b *big.Int) *big.Int { c := new(big.Int).Sub(a, b); return c.Mod(c, z.q) }
func (z zq) mul(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, z.q) }
func (z zq) div(a, b *big.Int) *big.Int { return z.mul(a, new(big.Int).ModInverse(b, z.q)) }

// pairLie: a prover which knows every exponent, follows the protocol's equations
// and departs from them in one place
type pairLie struct {
	k        int
	f        []int  // output i is made from input f[i]
	bend     int    // output whose exponents are off, -1: none
	dx, dy   int64  // by how much
	solve    string // what makes the last two equations hold: "", "34", "35", "first", "sigma", "free"
	at       int    // the coefficient solved for
	rhoFirst bool   // the first challenge is drawn before the first message
	tie      string // the lists of the simple shuffle: "", "R", "S"
	chain    int    // the equation of the simple shuffle that stays broken, -1: the honest ones
	cFirst   bool   // the last challenge is drawn before its commitments
	noGamma  bool
}

func (y *pairLie) String() string {
	s := fmt.Sprintf("%d pairs, outputs from %v", y.k, y.f)
	if y.bend >= 0 {
		s += fmt.Sprintf(", output %d off by (%d,%d)", y.bend, y.dx, y.dy)
	}
	if y.solve != "" {
		s += ", solved by " + y.solve
		if y.solve == "sigma" || y.solve == "free" {
			s += fmt.Sprint(" ", y.at)
		}
	}
	if y.rhoFirst {
		s += ", first challenge early"
	}
	if y.tie != "" {
		s += ", other " + y.tie
	}
	if y.chain >= 0 {
		s += fmt.Sprintf(", equation %d broken", y.chain)
	}
	if y.cFirst {
		s += ", last challenge early"
	}
	if y.noGamma {
		s += ", neutral Gamma"
	}
	return s
}

// nearest permutation to a mapping
func nearest(f []int) []int {
	used := make([]bool, len(f))
	p := make([]int, len(f))
	for i, j := range f {
		if !used[j] {
			used[j], p[i] = true, j
		} else {
			p[i] = -1
		}
	}
	for i := range p {
		for j := 0; p[i] < 0; j++ {
			if !used[j] {
				used[j], p[i] = true, j
			}
		}
	}
	return p
}

func (y *pairLie) run(s abstract.Suite) (*stmt, []byte) {
	z := zq{order(s)}
	k := y.k
	st := newPRF(prfKey("pair lie", y.String()))
	rnd := func() *big.Int { return secretVal(s.Secret().Pick(st)) }
	rnds := func() (l []*big.Int) {
		for i := 0; i < k; i++ {
			l = append(l, rnd())
		}
		return
	}
	pt := func(x *big.Int) abstract.Point { return s.Point().Mul(nil, secretOf(s, x)) }
	pts := func(l []*big.Int) (p []abstract.Point) {
		for _, x := range l {
			p = append(p, pt(x))
		}
		return
	}
	secs := func(l []*big.Int) (p []abstract.Secret) {
		for _, x := range l {
			p = append(p, secretOf(s, x))
		}
		return
	}
	xh := rnd()
	X, Y, beta := rnds(), rnds(), rnds()
	Xb, Yb := rnds(), rnds()
	for i := 0; i < k; i++ {
		Xb[i] = z.add(X[y.f[i]], beta[i])
		Yb[i] = z.add(Y[y.f[i]], z.mul(xh, beta[i]))
		if i == y.bend {
			Xb[i], Yb[i] = z.add(Xb[i], z.n(y.dx)), z.add(Yb[i], z.n(y.dy))
		}
	}
	t := &stmt{s: s, xh: xh, h: pt(xh), X: pts(X), Y: pts(Y), Xb: pts(Xb), Yb: pts(Yb)}
	prover := func(ctx proof.ProverContext) error {
		put := func(l ...interface{}) {
			for _, x := range l {
				must(ctx.Put(x))
			}
		}
		challenge := func(n int) (l []*big.Int) {
			c := make([]abstract.Secret, n)
			must(ctx.PubRand(c))
			for _, x := range c {
				l = append(l, secretVal(x))
			}
			return
		}
		put(append([]abstract.Point{s.Point().Base(), t.h}, append(append(append(append([]abstract.Point(nil), t.X...), t.Y...), t.Xb...), t.Yb...)...))
		var rho []*big.Int
		if y.rhoFirst {
			rho = challenge(k)
		}
		u, w, a, tau0, gamma := rnds(), rnds(), rnds(), rnd(), rnd()
		if y.noGamma {
			gamma = bi(0)
		}
		L1, L2 := tau0, z.mul(tau0, xh)
		for i := 0; i < k; i++ {
			L1 = z.sub(z.add(L1, z.mul(w[i], Xb[i])), z.mul(u[i], X[i]))
			L2 = z.sub(z.add(L2, z.mul(w[i], Yb[i])), z.mul(u[i], Y[i]))
		}
		sigma := make([]*big.Int, k)
		b := make([]*big.Int, k)
		var tau, off *big.Int
		answers := func() {
			for i := range b {
				b[i] = z.sub(rho[i], u[i])
			}
			p1, p2 := new(big.Int), new(big.Int)
			for i := range b {
				sigma[i] = z.add(w[i], b[y.f[i]])
				p1 = z.sub(z.add(p1, z.mul(sigma[i], Xb[i])), z.mul(rho[i], X[i]))
				p2 = z.sub(z.add(p2, z.mul(sigma[i], Yb[i])), z.mul(rho[i], Y[i]))
			}
			tau = z.sub(p1, L1)
			if y.solve == "35" {
				tau = z.div(z.sub(p2, L2), xh)
			}
			off = z.sub(z.sub(p2, L2), z.mul(tau, xh))
		}
		if y.rhoFirst {
			answers()
			if y.solve == "first" {
				L2 = z.add(L2, off)
			}
		}
		GammaA := make([]*big.Int, k)
		W := make([]*big.Int, k)
		for i := range W {
			GammaA[i], W[i] = z.mul(gamma, a[y.f[i]]), z.mul(gamma, w[i])
		}
		put(pt(gamma), pts(a), pts(GammaA), pts(u), pts(W), pt(L1), pt(L2))
		if !y.rhoFirst {
			rho = challenge(k)
			answers()
		}
		if y.solve == "sigma" || y.solve == "free" {
			d := z.div(off, z.sub(z.mul(xh, Xb[y.at]), Yb[y.at]))
			sigma[y.at] = z.add(sigma[y.at], d)
			tau = z.add(tau, z.mul(d, Xb[y.at]))
		}
		D := make([]*big.Int, k)
		for i := range D {
			D[i] = z.mul(gamma, b[y.f[i]])
			if y.solve == "free" {
				D[i] = z.sub(z.mul(gamma, sigma[i]), W[i])
			}
		}
		put(pts(D))
		lambda := challenge(1)[0]
		put(secs(sigma), secretOf(s, tau))
		r, S := make([]*big.Int, k), make([]*big.Int, k)
		for i := range r {
			r[i] = z.add(a[i], z.mul(lambda, b[i]))
		}
		for i := range S {
			S[i] = z.mul(gamma, r[y.f[i]])
		}
		if y.solve == "free" {
			// everything holds but the simple shuffle, or one of its ties
			v := z.add(GammaA[y.at], z.mul(lambda, D[y.at]))
			switch y.tie {
			case "":
				S[y.at] = v
			case "R":
				S[y.at] = v
				r[y.f[y.at]] = z.div(v, gamma)
			}
		}
		switch y.tie {
		case "S":
			if y.solve == "free" {
				break
			}
			for i, j := range nearest(y.f) {
				S[i] = z.mul(gamma, r[j])
			}
		case "R":
			if y.solve == "free" {
				break
			}
			n := make([]*big.Int, k)
			for i, j := range nearest(y.f) {
				n[j] = r[y.f[i]]
			}
			r = n
		}
		put(pts(r), pts(S))
		tt := challenge(1)[0]
		var c *big.Int
		if y.cFirst {
			c = challenge(1)[0]
		}
		xhat, yhat := make([]*big.Int, k), make([]*big.Int, k)
		for i := range r {
			xhat[i], yhat[i] = z.sub(r[i], tt), z.sub(S[i], z.mul(gamma, tt))
		}
		// equation i: l*left(i) - m*right(i) = Theta[i]
		last := 2*k - 1
		left := func(i int) *big.Int {
			if i < k {
				return xhat[i]
			}
			return gamma
		}
		right := func(i int) *big.Int {
			if i < k {
				return yhat[i]
			}
			return bi(1)
		}
		theta := make([]*big.Int, last)
		for i := range theta {
			theta[i] = rnd()
		}
		eqs := func(c *big.Int, a []*big.Int) (T []*big.Int) {
			for i := 0; i <= last; i++ {
				l, m := c, c
				if i > 0 {
					l = a[i-1]
				}
				if i < last {
					m = a[i]
				}
				T = append(T, z.sub(z.mul(l, left(i)), z.mul(m, right(i))))
			}
			return
		}
		alpha := make([]*big.Int, last)
		var Theta []*big.Int
		if y.cFirst {
			alpha = theta
			Theta = eqs(c, alpha)
			put(pts(Theta))
		} else {
			Theta = eqs(bi(0), theta)
			put(pts(Theta))
			c = challenge(1)[0]
			broken := y.chain
			if broken < 0 {
				broken = last // the last one holds by itself
			}
			for i := 0; i < broken; i++ {
				l := c
				if i > 0 {
					l = alpha[i-1]
				}
				alpha[i] = z.div(z.sub(z.mul(l, left(i)), Theta[i]), right(i))
			}
			for i := last; i > broken; i-- {
				m := c
				if i < last {
					m = alpha[i]
				}
				alpha[i-1] = z.div(z.add(Theta[i], z.mul(m, right(i))), left(i))
			}
		}
		put(secs(alpha))
		return nil
	}
	var prf []byte
	panics(func() {
		prf, _ = proof.HashProve(s, "PairShuffle", s.Cipher([]byte("lies")), prover)
	})
	return t, prf
}

func mappings(k int) (l [][]int) {
	n := 1
	for i := 0; i < k; i++ {
		n *= k
	}
	for m := 0; m < n; m++ {
		f := make([]int, k)
		for i, x := 0, m; i < k; i++ {
			f[i] = x % k
			x /= k
		}
		l = append(l, f)
	}
	return
}

func cheatingShuffles(r *Result, s abstract.Suite, k int, th bool) {
	honest := func(f []int) *pairLie { return &pairLie{k: k, f: f, bend: -1, chain: -1} }
	try := func(y *pairLie) {
		if r.late() {
			return
		}
		t, prf := y.run(s)
		if prf == nil {
			r.count("no proof made", 1)
			return
		}
		t.judge(r, "a cheating prover: "+y.String(), fmt.Sprintf("cheat %s %s %v %v %d", y.solve, y.tie, y.rhoFirst, y.cFirst, y.chain), prf)
	}
	perms := allPermutations(k)
	for _, p := range perms {
		y := honest(p)
		t, prf := y.run(s)
		if t.verify(prf) {
			r.count("the harness's own honest proofs accepted", 1)
		} else {
			r.Notes = append(r.Notes, "the harness's own honest shuffle proof is not accepted")
		}
		for bend := 0; bend < k; bend++ {
			for _, d := range [][2]int64{{0, 1}, {1, 0}, {1, 1}, {0, -1}, {-1, 0}, {2, 1}, {1 << 40, 7}} {
				for _, solve := range []string{"", "34", "35", "sigma", "first"} {
					for _, early := range []bool{false, true} {
						at := 1
						if solve == "sigma" {
							at = k
						}
						for i := 0; i < at; i++ {
							y := honest(p)
							y.bend, y.dx, y.dy, y.solve, y.rhoFirst, y.at = bend, d[0], d[1], solve, early, i
							try(y)
						}
					}
				}
			}
		}
	}
	for _, p := range perms {
		for bend := 0; bend < k; bend++ {
			for _, d := range [][2]int64{{0, 1}, {1, 0}, {1, 1}} {
				for at := 0; at < k; at++ {
					for _, tie := range []string{"", "R", "S"} {
						for j := -1; j < 2*k; j++ {
							if tie != "" && j >= 0 {
								continue
							}
							if k > 3 && !th && (d[0] != 0 || j > 1 && j < 2*k-2) {
								continue
							}
							y := honest(p)
							y.bend, y.dx, y.dy, y.solve, y.at, y.tie, y.chain = bend, d[0], d[1], "free", at, tie, j
							try(y)
						}
					}
				}
			}
		}
	}
	for _, f := range mappings(k) {
		if k > 3 && !th && f[0] != 0 {
			continue
		}
		for _, tie := range []string{"", "R", "S"} {
			for _, early := range []bool{false, true} {
				y := honest(f)
				y.tie, y.cFirst = tie, early
				try(y)
				y = honest(f)
				y.tie, y.cFirst, y.noGamma = tie, early, true
				try(y)
			}
			for j := 0; j < 2*k; j++ {
				y := honest(f)
				y.tie, y.chain = tie, j
				try(y)
			}
		}
	}
}

// ---- two elements

func arr2(l []abstract.Point) [2]abstract.Point { return [2]abstract.Point{l[0], l[1]} }

func (t *stmt) verifyBiffle(prf []byte) bool {
	ok := false
	panics(func() {
		ok = proof.HashVerify(t.s, "Biffle", shuffle.BiffleVerifier(t.s, t.g, t.h, arr2(t.X), arr2(t.Y), arr2(t.Xb), arr2(t.Yb)), prf) == nil
	})
	return ok
}

func (t *stmt) biffle(key string, wrap func(proof.ProverContext) proof.ProverContext) (prf []byte, bad string) {
	rand := t.s.Cipher([]byte(key))
	Xb, Yb, prover := shuffle.Biffle(t.s, t.g, t.h, arr2(t.X), arr2(t.Y), rand)
	t.Xb, t.Yb = Xb[:], Yb[:]
	var err error
	if e := panics(func() {
		prf, err = proof.HashProve(t.s, "Biffle", rand, func(ctx proof.ProverContext) error {
			if wrap != nil {
				ctx = wrap(ctx)
			}
			return prover(ctx)
		})
	}); e != nil || err != nil {
		return nil, fmt.Sprint("no proof: ", e, err)
	}
	return prf, ""
}

func biffles(r *Result, s abstract.Suite, where, kind string, th bool) {
	runs := 40
	if th {
		runs = 400
	}
	if where != "" {
		runs = 3
	}
	{
		orders := map[bool]bool{}
		for run := 0; run < runs && !r.late(); run++ {
			t := shuffleInput(s, kind, 2)
			key := fmt.Sprint("biffle ", run)
			prf, bad := t.biffle(key, nil)
			x := secretOf(s, t.xh)
			d := s.Point().Sub(t.Yb[0], s.Point().Mul(t.Xb[0], x))
			orders[d.Equal(s.Point().Sub(t.Y[0], s.Point().Mul(t.X[0], x)))] = true
			label := fmt.Sprintf("%stwo elements, %s, run %d", where, kind, run)
			r.eval(label)
			switch {
			case bad != "":
				r.find("C13:biffle", "%s: %s", label, bad)
				return
			case !t.holds():
				r.find("C13:biffle outputs", "%s: the outputs are no shuffle", label)
			case t.Xb[0].Equal(t.X[0]) || t.Xb[0].Equal(t.X[1]) || t.Xb[1].Equal(t.X[0]) || t.Xb[1].Equal(t.X[1]):
				r.find("C13:biffle mask", "%s: an output is not re-encrypted", label)
			case !t.verifyBiffle(prf):
				r.find("C13:biffle incomplete", "%s: the proof does not verify", label)
			}
			if run >= 6 && !th || !strings.HasPrefix(kind, "distinct") && kind != "same X" {
				continue
			}
			judge := func(what string, t *stmt, prf []byte) {
				r.eval(label + what)
				if !t.holds() && t.verifyBiffle(prf) {
					r.find("C13:biffle accepts", "%s: a two-element shuffle's proof verifies for a false statement: %s", label, what)
				}
			}
			count := map[string]int{}
			_, pts := t.flat()
			for _, p := range pts {
				count[(*p).String()]++
			}
			for _, a := range t.alterations() {
				judge(a.what, a.t, prf)
				swap, usable := map[string]abstract.Point{}, true
				_, now := a.t.flat()
				for i := range pts {
					if !(*pts[i]).Equal(*now[i]) {
						usable = usable && count[(*pts[i]).String()] == 1
						swap[(*pts[i]).String()] = *now[i]
					}
				}
				if usable {
					again := shuffleInput(s, kind, 2)
					prf2, bad := again.biffle(key, func(c proof.ProverContext) proof.ProverContext {
						return &lyingContext{ProverContext: c, swap: swap}
					})
					if bad == "" {
						judge("claimed with "+a.what, a.t, prf2)
					}
				}
			}
			step := 1
			if where != "" {
				step = 9
			}
			for i := 0; i < len(prf); i += step {
				for bit := uint(0); bit < 8; bit += uint(step) {
					b := append([]byte(nil), prf...)
					b[i] ^= 1 << bit
					r.eval("")
					if t.verifyBiffle(b) {
						r.find("C13:biffle altered", "%s: the proof verifies with bit %d of byte %d changed", label, bit, i)
					}
				}
			}
		}
		if len(orders) < 2 && !strings.Contains(kind, "same X, same Y") && !strings.Contains(kind, "twice") && !strings.Contains(kind, "neutral") {
			r.find("C13:biffle order", "only one order of two elements comes out (%s)", kind)
		}
	}
}

func biffleLies(r *Result, s abstract.Suite, where string) {
	// statements chosen after the challenge
	for mask := 0; mask < 1<<8 && !r.late(); mask++ {
		for _, branch := range []int{0, 1} {
			t, prf := biffleLie(s, branch, mask, -1, 0)
			what := fmt.Sprintf("%stwo elements, branch %d, statements %08b chosen late", where, branch, mask)
			r.eval(what)
			if t.holds() {
				if t.verifyBiffle(prf) {
					r.count("the harness's own two-element proofs accepted", 1)
				}
				continue
			}
			if t.verifyBiffle(prf) {
				r.find("C13:biffle late", "%s: the proof verifies", what)
			}
		}
	}
	// outputs that are off by one component
	for _, branch := range []int{0, 1} {
		for bent := 0; bent < 4; bent++ {
			for as := -1; as < 4; as++ {
				t, prf := biffleLie(s, branch, 0, bent, as)
				what := fmt.Sprintf("%stwo elements, branch %d, output component %d off, its commitment that of %d", where, branch, bent, as)
				r.eval(what)
				if prf != nil && !t.holds() && t.verifyBiffle(prf) {
					r.find("C13:biffle off", "%s: the proof verifies", what)
				}
			}
		}
	}
}

// biffleLie proves a branch in which the outputs named by mask are chosen after
// the challenges: bits 0..3 of the mask are Xbar0, Ybar0, Xbar1, Ybar1; bits 4..7
// choose what the early binding claims for them. The output named by bent is off,
// and the commitment of its relation in that branch is left out (as < 0) or a copy
// of another one's.
func biffleLie(s abstract.Suite, branch, mask, bent, as int) (*stmt, []byte) {
	z := zq{order(s)}
	st := newPRF(prfKey("biffle lie", branch, mask, bent, as))
	rnd := func() *big.Int { return secretVal(s.Secret().Pick(st)) }
	pt := func(x *big.Int) abstract.Point { return s.Point().Mul(nil, secretOf(s, x)) }
	xh := rnd()
	in := []*big.Int{rnd(), rnd(), rnd(), rnd()} // X0 Y0 X1 Y1
	beta := []*big.Int{rnd(), rnd()}
	out := make([]*big.Int, 4)
	exp := func(j int, b *big.Int) *big.Int { // mask of component j
		if j%2 == 1 {
			return z.mul(b, xh)
		}
		return b
	}
	src := func(branch, j int) int { // input component behind output component j
		return (j/2^branch)*2 + j%2
	}
	for j := range out {
		out[j] = z.add(in[src(branch, j)], exp(j, beta[src(branch, j)/2]))
	}
	if bent >= 0 {
		out[bent] = z.add(out[bent], rnd())
	}
	t := &stmt{s: s, xh: xh, h: pt(xh), X: []abstract.Point{pt(in[0]), pt(in[2])}, Y: []abstract.Point{pt(in[1]), pt(in[3])}}
	set := func(o []*big.Int) {
		t.Xb, t.Yb = []abstract.Point{pt(o[0]), pt(o[2])}, []abstract.Point{pt(o[1]), pt(o[3])}
	}
	prover := func(ctx proof.ProverContext) error {
		claim := append([]*big.Int(nil), out...)
		for j := range claim {
			if mask>>uint(4+j)&1 == 1 {
				claim[j] = rnd()
			}
		}
		set(claim)
		must(ctx.Put(append([]abstract.Point{s.Point().Base(), t.h}, append(append(append(append([]abstract.Point(nil), t.X...), t.Y...), t.Xb...), t.Yb...)...)))
		// commitments: branch br, component j: V = c*(out-in) + r*base
		V := make([][]*big.Int, 2)
		w := rnd() // the other branch's challenge
		resp := [][]*big.Int{{rnd(), rnd()}, {rnd(), rnd()}}
		v := []*big.Int{rnd(), rnd()}
		for br := range V {
			V[br] = make([]*big.Int, 4)
			for j := range V[br] {
				switch {
				case mask>>uint(j)&1 == 1:
					V[br][j] = rnd() // whatever: the statement will fit
				case br == branch:
					V[br][j] = exp(j, v[src(br, j)/2])
				default:
					V[br][j] = z.add(z.mul(w, z.sub(out[j], in[src(br, j)])), exp(j, resp[br][src(br, j)/2]))
				}
			}
		}
		for br := 0; br < 2; br++ {
			for j := 0; j < 4; j++ {
				if br == branch && j == bent && as != j {
					if as < 0 {
						continue
					}
					must(ctx.Put(pt(V[br][as])))
					continue
				}
				must(ctx.Put(pt(V[br][j])))
			}
		}
		c := make([]abstract.Secret, 1)
		must(ctx.PubRand(c))
		cb := z.sub(secretVal(c[0]), w)
		for i := range v {
			resp[branch][i] = z.sub(v[i], z.mul(cb, beta[i]))
		}
		for j := range out {
			if mask>>uint(j)&1 == 1 {
				// the statement that fits the proven branch
				out[j] = z.add(in[src(branch, j)], z.div(z.sub(V[branch][j], exp(j, resp[branch][src(branch, j)/2])), cb))
			}
		}
		ci := []*big.Int{w, w}
		ci[branch] = cb
		must(ctx.Put([]abstract.Secret{secretOf(s, ci[0]), secretOf(s, ci[1])}))
		for br := 0; br < 2; br++ {
			for i := 0; i < 2; i++ {
				must(ctx.Put(secretOf(s, resp[br][i])))
			}
		}
		return nil
	}
	var prf []byte
	panics(func() { prf, _ = proof.HashProve(s, "Biffle", s.Cipher([]byte("lies")), prover) })
	set(out)
	return t, prf
}
