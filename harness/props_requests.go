package main

// C08: bridge requests pass exactly when the reputation covers the indicator.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"zRep/cmd/client"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
)

func init() {
	register(&Prop{ID: "C08", Level: "exploration", Budget: 85,
		Rule:   "every reputation of the interval with every indicator (accepted: by the coordinator and each server; refused: all attempts of a cheating requester), every set of fields taken from other genuine requests, every component of the proofs altered in every way of the alphabet, always signed by the requester; distinct by reputation, indicator and alteration",
		Assume: protocolAssumptions, Jobs: requestJobs})
}

var requestFields = []string{"ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}

type reqLab struct{ *Lab }

// newReqLab: client0's reputation becomes 5+delta, through votes of the other two
func newReqLabs(r *Result, servers int, deltas []int, f func(*reqLab, int)) {
	l := newLab(r, servers, 3, 1)
	for i := 0; i < 10; i++ {
		l.op(cli(0), Input{Op: "post", S: fmt.Sprintf("10.0.0.%d:1", i)})
	}
	l.op(cli(1), Input{Op: "request", I: 5})
	l.op(cli(2), Input{Op: "request", I: 5})
	expect(len(l.dv(1).Assignments) == 5 && len(l.dv(2).Assignments) == 5, "requests for five bridges each get %d and %d", len(l.dv(1).Assignments), len(l.dv(2).Assignments))
	for _, d := range deltas {
		x := &reqLab{l.fork()}
		x.op(0, Input{Op: "vote"})
		n, s := d, 1
		if d < 0 {
			n, s = -d, -1
		}
		for i := 0; i < n; i++ {
			x.op(cli(1+i%2), Input{Op: "castvote", I: i / 2, J: s})
		}
		x.op(0, Input{Op: "roundend"})
		x.op(0, Input{Op: "clear"})
		x.op(0, Input{Op: "announce"})
		expect(x.dv(0).Reputation == 5+d, "with %+d votes the reputation is %d", d, x.dv(0).Reputation)
		x.op(cli(1), Input{Op: "post", S: "10.1.0.0:1"})
		x.op(cli(1), Input{Op: "post", S: "10.1.0.1:1"})
		f(x, 5+d)
	}
}

func (l *reqLab) bases(c int) (*pedersen.PedersenBase, *fujiokam.FujiOkamBase) {
	s := l.w.local(l.s, cli(c)).state.(*client.DissentClient)
	return s.PedersenBase, s.FujiOkamBase
}

// SIGN_ASSIGNMENTS as the coordinator would send it for a request
func (l *reqLab) toServers(p params) params {
	a := encA(l.dv(0).Nym, "10.1.0.0:1", l.dv(1).Nym)
	q := p.with("assignments", util.Encode2DByteArray([][]byte{a}))
	delete(q, "signature")
	return q
}

// accepted by the coordinator and by each server
func (l *reqLab) accepted(p params, from nodeID, ind int, what string) {
	r := l.r
	r.eval(what)
	d := l.give(l.coord(), from, mkEvent(proto.REQUEST_BRIDGES, from, p))
	r.Transitions++
	r.States++
	if d.Crashed != "" {
		r.find("C08:stops:"+shortKey(what), "the coordinator stops on %s: %s", what, firstLine(d.Crashed))
		return
	}
	if ind > 0 && len(d.Outs) != len(l.cv().Servers) {
		r.find("C08:refused:"+shortKey(what), "the coordinator refuses %s", what)
	}
	for i := range l.cv().Servers {
		at := l.w.local(l.s, srv(i))
		b := mkEvent(proto.SIGN_ASSIGNMENTS, 0, l.toServers(p))
		for _, m := range d.Outs {
			if m.To == srv(i) {
				b = m.Bytes
			}
		}
		x := l.give(at, 0, b)
		r.Transitions++
		if !signed(x) {
			r.find(fmt.Sprintf("C08:server refuses:%s", shortKey(what)), "server %d does not sign for %s: %s", i, what, x.Crashed)
		}
	}
}

func signed(x *Local) bool {
	for _, m := range x.Outs {
		if m.Type == proto.GOT_SIGNS {
			p := paramsOf(m.Bytes)
			if ok, _ := p["success"].(bool); ok {
				return true
			}
			if _, ok := p["signatures"]; ok {
				return true
			}
		}
	}
	return false
}

// refusedBy: neither the coordinator nor any server accepts it
func (l *reqLab) refused(p params, from nodeID, what string, servers bool) {
	r := l.r
	r.eval(what)
	r.States++
	at := l.coord()
	d := l.w.e.try(at, Input{Msg: l.w.e.addMsg(from, 0, mkEvent(proto.REQUEST_BRIDGES, from, p))})
	r.Transitions++
	switch {
	case d.Crashed != "":
		r.find("C08:stops:"+shortKey(what), "the coordinator stops on %s: %s", what, firstLine(d.Crashed))
	case len(d.Outs) > 0:
		r.find("C08:accepts:"+shortKey(what), "the coordinator accepts %s: it sends %s", what, d.Outs[0])
	case d.shape() != at.shape():
		r.find("C08:changes:"+shortKey(what), "the coordinator's state changes by %s, which has to be refused", what)
	}
	if !servers {
		return
	}
	for i := range l.cv().Servers {
		at := l.w.local(l.s, srv(i))
		x := l.w.e.try(at, Input{Msg: l.w.e.addMsg(0, srv(i), mkEvent(proto.SIGN_ASSIGNMENTS, 0, l.toServers(p)))})
		r.Transitions++
		switch {
		case x.Crashed != "":
			r.find("C08:server stops:"+shortKey(what), "server %d stops on %s: %s", i, what, firstLine(x.Crashed))
		case signed(x):
			r.find("C08:server signs:"+shortKey(what), "server %d signs for %s", i, what)
		case x.shape() != at.shape():
			r.find("C08:server changes:"+shortKey(what), "server %d's state changes by %s, which has to be refused", i, what)
		}
	}
}

func requestJobs(th bool) (jobs []Job) {
	// every reputation and every indicator
	deltas := [][]int{{-6, 0}, {-5, 2}, {-1, 1}, {-4}, {3}}
	if th {
		deltas = nil
		for d := -10; d <= 10; d++ {
			deltas = append(deltas, []int{d})
		}
	} else {
		deltas = append(deltas, []int{-10, 10})
	}
	for _, ds := range deltas {
		ds := ds
		jobs = append(jobs, Job{Name: fmt.Sprintf("reputations 5%s", strings.Trim(strings.Join(strings.Fields(fmt.Sprint(ds)), ",5"), "[]")), Run: func(r *Result) {
			servers := 2
			newReqLabs(r, servers, ds, func(l *reqLab, R int) {
				for ind := 0; ind <= R; ind++ {
					if b := l.grab(cli(0), Input{Op: "request", I: ind}); b != nil {
						l.accepted(paramsOf(b), cli(0), ind, fmt.Sprintf("a request for %d with reputation %d", ind, R))
					} else {
						r.find(fmt.Sprintf("C08:no request:%d of %d", ind, R), "with reputation %d a client does not send a request for %d", R, ind)
					}
				}
				// the client itself sends none beyond
				for _, ind := range []int{R + 1, R + 2, R + 10} {
					if ind < 0 {
						continue
					}
					d := l.w.e.try(l.w.local(l.s, cli(0)), Input{Op: "request", I: ind})
					if d.Crashed != "" {
						r.find("C08:client stops", "a client with reputation %d stops when asked to request %d: %s", R, ind, firstLine(d.Crashed))
					}
					for _, m := range d.Outs {
						l.refused(paramsOf(m.Bytes), cli(0), fmt.Sprintf("a client's request for %d with reputation %d", ind, R), true)
					}
				}
				// others, after the votes
				for c := 1; c < 3; c++ {
					for _, ind := range []int{1, 5} {
						b := l.grab(cli(c), Input{Op: "request", I: ind})
						if b == nil {
							r.find("C08:no request:voter", "client%d sends no request for %d", c, ind)
							continue
						}
						l.accepted(paramsOf(b), cli(c), ind, fmt.Sprintf("a voter's request for %d", ind))
					}
				}
				l.cheat(R)
			})
		}})
	}
	parts := 4
	for part := 0; part < parts; part++ {
		part := part
		jobs = append(jobs, Job{Name: fmt.Sprintf("mixed requests part %d", part), Run: func(r *Result) {
			stale := params(nil)
			l := newLab(r, 2, 3, 1)
			l.op(cli(0), Input{Op: "post", S: "10.1.0.0:1"})
			stale = paramsOf(l.grab(cli(0), Input{Op: "request", I: 2}))
			l.endRound()
			x := &reqLab{l}
			x.op(cli(1), Input{Op: "post", S: "10.1.0.0:1"})
			x.op(cli(1), Input{Op: "post", S: "10.1.0.1:1"})
			get := func(c, i int) params { return paramsOf(x.grab(cli(c), Input{Op: "request", I: i})) }
			g := get(0, 2)
			x.mixed(g, []params{get(0, 1), stale, get(1, 2), get(0, 5), get(2, 1)}, part, parts)
			// another one for the same indicator
			f := x.fork()
			f.op(cli(0), Input{Op: "post", S: "10.1.0.9:1"})
			d := f.w.e.step(f.w.local(f.s, cli(0)), Input{Op: "request", I: 2, Offset: 1})
			if len(d.Outs) == 1 {
				x.mixed(g, []params{paramsOf(d.Outs[0].Bytes)}, part, parts)
			}
		}})
		jobs = append(jobs, Job{Name: fmt.Sprintf("altered requests part %d", part), Run: func(r *Result) {
			l := &reqLab{newLab(r, 2, 3, 1)}
			l.op(cli(1), Input{Op: "post", S: "10.1.0.0:1"})
			l.op(cli(1), Input{Op: "post", S: "10.1.0.1:1"})
			for _, ind := range []int{1, 5, 0, 3, 2, 4} {
				l.altered(paramsOf(l.grab(cli(0), Input{Op: "request", I: ind})), part, parts, th)
			}
		}})
	}
	return
}

// mixed: every set of fields taken from another genuine request
func (l *reqLab) mixed(g params, donors []params, part, parts int) {
	sks := map[string]string{}
	for i := 0; i < 3; i++ {
		sks[string(util.EncodePoint(pointHex(l.dv(i).Nym)))] = l.dv(i).PriKey
	}
	bare := func(p params) params { q := p.clone(); delete(q, "signature"); return q }
	for k, d := range donors {
		for m := 1; m < 1<<uint(len(requestFields))-1; m++ {
			if m%parts != part || l.r.late() {
				continue
			}
			q := bare(g)
			var names []string
			for i, f := range requestFields {
				if m>>uint(i)&1 == 1 {
					q[f] = d[f]
					names = append(names, f)
				}
			}
			if q.same(bare(g)) || q.same(bare(d)) && k != 1 {
				continue
			}
			sk, ok := sks[string(q.bytes("nym"))]
			if !ok {
				sk = l.dv(0).PriKey
			}
			l.refused(signedRequest(q, sk, l.cv().G), cli(0), fmt.Sprintf("a request with %s of genuine request %d", strings.Join(names, ", "), k), true)
		}
	}
}

// alterations of an integer
func alterInts(v, n *big.Int) map[string]*big.Int {
	q := grpQ
	m := map[string]*big.Int{"plus 1": add(v, bi(1)), "minus 1": add(v, bi(-1)), "negated": new(big.Int).Neg(v), "zero": bi(0), "one": bi(1), "minus one": bi(-1),
		"doubled": add(v, v), "two more": add(v, bi(2)), "squared": new(big.Int).Mul(v, v), "plus the group order": add(v, q), "minus the group order": add(v, new(big.Int).Neg(q)),
		"plus the modulus": add(v, n), "minus the modulus": add(v, new(big.Int).Neg(n)), "the modulus minus it": new(big.Int).Sub(n, v), "reduced by the modulus": new(big.Int).Mod(v, n),
		"reduced by the group order": new(big.Int).Mod(v, q)}
	for _, b := range []int{0, 1, 7, 8, 31, 32, 63, 64, 100, 128, 255, 256, 400, 511, 512, 600} {
		x := new(big.Int).Abs(v)
		x.SetBit(x, b, x.Bit(b)^1)
		if v.Sign() < 0 {
			x.Neg(x)
		}
		m[fmt.Sprintf("bit %d", b)] = x
	}
	if v.Sign() != 0 && n.BitLen() > 0 {
		if i := new(big.Int).ModInverse(v, n); i != nil {
			m["inverted"] = i
		}
	}
	for k, x := range m {
		if x.Cmp(v) == 0 {
			delete(m, k)
		}
	}
	return m
}

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

func keysOf(m map[string]*big.Int) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// values named by the argument's fields
func nonnegFields(a *fujiokam.ARGnonneg) map[string]**big.Int {
	return map[string]**big.Int{"Commitrx": &a.Commitrx, "C": &a.C, "Cr": &a.Cr, "R": &a.R, "X_": &a.X_, "A_": &a.A_, "B_": &a.B_, "D_": &a.D_, "R_": &a.R_}
}

func equalFields(a *pedersen_fujiokam.ARGequal) map[string]**big.Int {
	return map[string]**big.Int{"C": &a.C, "S1": &a.S1, "S2": &a.S2, "S3": &a.S3}
}

func tryDecode(f func() string) (s string) {
	defer func() {
		if recover() != nil {
			s = "undecodable"
		}
	}()
	return f()
}

// meaning of a request's field, as far as the protocol reads it
func meaning(k string, v interface{}) string {
	b, ok := v.([]byte)
	if !ok {
		return fmt.Sprintf("%T %v", v, v)
	}
	return tryDecode(func() string {
		switch k {
		case "arg_nonneg":
			a := *util.DecodeARGnonneg(b)
			return fmt.Sprint(a.Commitrx, a.C, a.Cr, a.R, a.X_, a.A_, a.B_, a.D_, a.R_)
		case "arg_equal":
			a := *util.DecodeARGequal(b)
			return fmt.Sprint(a.C, a.S1, new(big.Int).Mod(a.S2, grpQ), a.S3)
		case "FOCommd":
			return new(big.Int).SetBytes(b).String()
		case "rind":
			return new(big.Int).Mod(new(big.Int).SetBytes(b), grpQ).String()
		}
		return fmt.Sprintf("%x", b)
	})
}

func (l *reqLab) altered(g params, part, parts int, th bool) {
	sk, base := l.dv(0).PriKey, l.cv().G
	_, fb := l.bases(0)
	type c struct {
		what string
		p    params
	}
	var cs []c
	add := func(what, k string, v interface{}) {
		if meaning(k, g[k]) == meaning(k, v) {
			return
		}
		q := signedRequest(g.with(k, v), sk, base)
		if q == nil { // cannot be signed
			q = g.with(k, v)
		}
		cs = append(cs, c{fmt.Sprintf("a request for %v with %s %s", g["ind"], k, what), q})
	}
	ind := g["ind"].(int)
	for _, d := range []int{-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 100, -100, 256, -256, 1 << 16, 1 << 31, -1 << 31, 1 << 32, -1 << 32, 1 << 33, 1 << 62, -1 << 63} {
		add(fmt.Sprintf("changed by %d", d), "ind", ind+d)
	}
	// bytes
	step := 3
	if th {
		step = 1
	}
	for _, k := range requestFields {
		v := g.bytes(k)
		if v == nil || k == "nym" {
			continue
		}
		for i := 0; i < len(v); i += step {
			b := append([]byte(nil), v...)
			b[i] ^= 1 << uint(i%8)
			add(fmt.Sprintf("byte %d altered", i), k, b)
		}
		for _, n := range []int{1, 2, len(v) / 2, len(v)} {
			if n <= len(v) {
				add(fmt.Sprintf("without the last %d bytes", n), k, append([]byte(nil), v[:len(v)-n]...))
				add(fmt.Sprintf("without the first %d bytes", n), k, append([]byte(nil), v[n:]...))
			}
		}
		for o := range requestFields {
			if w := g.bytes(requestFields[o]); w != nil && requestFields[o] != k {
				add("replaced by "+requestFields[o], k, w)
			}
		}
	}
	// values
	for _, k := range []string{"PCommd", "PCommind"} {
		v := pointBig(new(big.Int).SetBytes(g.bytes(k)))
		x := util.PointToBigInt(v)
		pb, _ := l.bases(0)
		for n, y := range map[string]*big.Int{"inverted": new(big.Int).ModInverse(x, grpP), "squared": gmul(x, x), "times the first base": gmul(x, util.PointToBigInt(pb.GT)), "times the second base": gmul(x, util.PointToBigInt(pb.HT)),
			"divided by the first base": gmul(x, new(big.Int).ModInverse(util.PointToBigInt(pb.GT), grpP)), "negated": new(big.Int).Sub(grpP, x), "one": bi(1), "the first base": util.PointToBigInt(pb.GT), "the second base": util.PointToBigInt(pb.HT)} {
			b := make([]byte, len(g.bytes(k)))
			y.FillBytes(b)
			add(n, k, b)
		}
	}
	fo := new(big.Int).SetBytes(g.bytes("FOCommd"))
	alts := alterInts(fo, fb.N)
	for n, y := range map[string]*big.Int{"times the first base": new(big.Int).Mul(fo, &fb.G1.V), "times the second base": new(big.Int).Mul(fo, &fb.H1.V)} {
		alts[n] = y.Mod(y, fb.N)
	}
	for _, n := range keysOf(alts) {
		if alts[n].Sign() >= 0 {
			add(n, "FOCommd", alts[n].Bytes())
		}
	}
	ri := new(big.Int).SetBytes(g.bytes("rind"))
	for n, y := range alterInts(ri, grpQ) {
		if y.Sign() >= 0 && y.BitLen() <= 8*len(g.bytes("rind")) {
			b := make([]byte, len(g.bytes("rind")))
			y.FillBytes(b)
			add(n, "rind", b)
		}
	}
	// proofs' components
	names := func(m map[string]**big.Int) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	for _, f := range names(nonnegFields(&fujiokam.ARGnonneg{})) {
		v := *nonnegFields(util.DecodeARGnonneg(g.bytes("arg_nonneg")))[f]
		m := alterInts(v, fb.N)
		m["missing"] = nil
		for _, n := range keysOf(m) {
			a := util.DecodeARGnonneg(g.bytes("arg_nonneg"))
			*nonnegFields(a)[f] = m[n]
			add(f+" "+n, "arg_nonneg", util.EncodeARGnonneg(a))
		}
		for _, o := range names(nonnegFields(a0())) {
			a := util.DecodeARGnonneg(g.bytes("arg_nonneg"))
			x := nonnegFields(a)
			*x[f], *x[o] = *x[o], *x[f]
			add(f+" and "+o+" swapped", "arg_nonneg", util.EncodeARGnonneg(a))
		}
	}
	for _, f := range names(equalFields(&pedersen_fujiokam.ARGequal{})) {
		v := *equalFields(util.DecodeARGequal(g.bytes("arg_equal")))[f]
		m := alterInts(v, fb.N)
		m["missing"] = nil
		for _, n := range keysOf(m) {
			a := util.DecodeARGequal(g.bytes("arg_equal"))
			*equalFields(a)[f] = m[n]
			add(f+" "+n, "arg_equal", util.EncodeARGequal(a))
		}
		for o := range equalFields(&pedersen_fujiokam.ARGequal{}) {
			a := util.DecodeARGequal(g.bytes("arg_equal"))
			x := equalFields(a)
			*x[f], *x[o] = *x[o], *x[f]
			add(f+" and "+o+" swapped", "arg_equal", util.EncodeARGequal(a))
		}
	}
	for i, x := range cs {
		if i%parts == part && !l.r.late() {
			l.refused(x.p, cli(0), x.what, true)
		}
	}
	// other pseudonyms under the same request
	out := sc(qr512.Secret().Pick(newPRF(prfKey("outsider"))))
	for n, k := range map[string][2]string{"an outsider's pseudonym": {refNym(base, out), out}, "another client's pseudonym": {l.dv(1).Nym, l.dv(1).PriKey}, "the long-term key": {l.dv(0).PubKey, sk}, "the neutral element": {"1", "0"}, "the generator": {base, "1"}} {
		q := signedRequest(g.with("nym", util.EncodePoint(pointHex(k[0]))), k[1], base)
		l.refused(q, cli(0), fmt.Sprintf("a request for %d under %s", ind, n), true)
	}
	l.accepted(g, cli(0), ind, fmt.Sprintf("the unaltered request for %d", ind))
}

func a0() *fujiokam.ARGnonneg { return &fujiokam.ARGnonneg{} }

// forge builds a request step by step. Everything has a default: the honest value.
type forge struct {
	l          *reqLab
	c          int
	R          int64 // what the requester's commitment holds
	ind        int
	pind       *big.Int // what PCommind holds
	shift      int64    // PCommd is for another value by this much
	foX        *big.Int // what FOCommd holds
	foRaw      *big.Int // FOCommd itself
	nnX        *big.Int // what the non-negativity argument is about
	sq         [3]*big.Int
	eqUsesP    bool
	ddelta     *big.Int
	nnForOther bool // the argument belongs to a commitment of its own
}

func (f *forge) build() params {
	var p params
	withRandom(fmt.Sprint("forge", f.c, f.R, f.ind, f.pind, f.shift, f.foX, f.foRaw, f.nnX, f.sq, f.eqUsesP, f.ddelta, f.nnForOther), func() { p = f.make() })
	return p
}

func (f *forge) make() params {
	pb, fb := f.l.bases(f.c)
	d := f.l.dv(f.c)
	st := f.l.w.local(f.l.s, cli(f.c)).state.(*client.DissentClient)
	suite := qr512
	if f.pind == nil {
		f.pind = bi(int64(f.ind))
	}
	pcommind, rind := pb.Commit(fullSecret(suite, f.pind))
	pcommd := pb.Sub(st.PCommr, pcommind)
	x := new(big.Int).Sub(bi(f.R), f.pind) // what it holds
	if f.shift != 0 {
		pcommd = suite.Point().Add(pcommd, suite.Point().Mul(pb.GT, fullSecret(suite, bi(f.shift))))
		x = add(x, bi(f.shift))
	}
	rd := suite.Secret().Sub(st.R, rind)
	if f.foX == nil {
		f.foX = x
	}
	fo, rf := foCommit(fb, f.foX)
	if f.foRaw != nil {
		fo = f.foRaw
	}
	if f.nnX == nil {
		f.nnX = f.foX
	}
	a, b, c := f.sq[0], f.sq[1], f.sq[2]
	if a == nil {
		if f.nnX.Sign() >= 0 {
			a, b, c = threeSquares(f.nnX)
		} else {
			a, b, c = bi(0), bi(0), bi(0)
		}
	}
	dd := f.ddelta
	if dd == nil {
		dd = bi(0)
	}
	nnC, nnR := fo, rf
	if f.nnForOther {
		nnC, nnR = foCommit(fb, f.nnX)
	}
	nn := proveNonneg(fb, f.nnX, nnC, nnR, a, b, c, dd)
	eq := proveEqual(pb, fb, new(big.Int).Mod(x, grpQ), f.foX, pcommd, rd, fo, rf, f.eqUsesP)
	br, _ := rind.MarshalBinary()
	p := params{"ind": f.ind, "nym": util.EncodePoint(pointHex(d.Nym)), "FOCommd": fo.Bytes(), "PCommd": util.EncodePoint(pcommd), "PCommind": util.EncodePoint(pcommind), "rind": br,
		"arg_nonneg": util.EncodeARGnonneg(nn), "arg_equal": util.EncodeARGequal(eq)}
	return signedRequest(p, d.PriKey, f.l.cv().G)
}

// cheat tries everything a requester can do for an indicator beyond its reputation
func (l *reqLab) cheat(R int) {
	own := func() *forge { return &forge{l: l, R: int64(R)} }
	for _, j := range []int{0, R / 2, R} {
		if j >= 0 && j <= R {
			f := own()
			f.ind = j
			l.accepted(f.build(), cli(0), j, fmt.Sprintf("the harness's own request for %d with reputation %d", j, R))
		}
	}
	inds := []int{R + 1, R + 2, R + 5, R + 100, 1 << 20}
	if R < 0 {
		inds = []int{0, 1, 5}
	}
	_, fb := l.bases(0)
	for _, ind := range inds {
		if l.r.late() {
			return
		}
		d := bi(int64(R - ind))
		try := func(what string, set func(f *forge)) {
			f := own()
			f.ind = ind
			set(f)
			l.refused(f.build(), cli(0), fmt.Sprintf("a request for %d with reputation %d: %s", ind, R, what), true)
		}
		// the integer commitment holds something else
		for n, y := range map[string]*big.Int{"the difference": d, "the difference plus the group order": add(d, grpQ), "the difference plus twice the group order": add(d, new(big.Int).Lsh(grpQ, 1)),
			"its absolute value": new(big.Int).Abs(d), "zero": bi(0), "one": bi(1), "the reputation": bi(int64(abs(R))), "the difference plus the modulus": add(d, fb.N), "the difference plus the order of the hidden group": add(d, new(big.Int).Rsh(fb.N, 2))} {
			y := y
			for _, useP := range []bool{false, true} {
				useP := useP
				try(fmt.Sprintf("%s in the integer commitment, equality %v", n, useP), func(f *forge) { f.foX, f.eqUsesP = y, useP })
			}
			if y.Sign() >= 0 {
				// two commitments, each with a true argument of its own
				try(n+" in another commitment, which the argument is about", func(f *forge) { f.nnX, f.nnForOther = y, true })
				try(n+" in the argument, the difference in the commitment", func(f *forge) { f.nnX = y })
			}
		}
		// false squares
		for _, sq := range [][3]int64{{0, 0, 0}, {1, 0, 0}, {1, 1, 1}, {2, 1, 0}, {0, 0, int64(abs(R - ind))}} {
			sq := sq
			for _, dd := range []int64{0, 1, -1, 4, int64(4*(R-ind) + 1)} {
				dd := dd
				try(fmt.Sprintf("the squares of %v, off by %d", sq, dd), func(f *forge) {
					f.sq = [3]*big.Int{bi(sq[0]), bi(sq[1]), bi(sq[2])}
					f.ddelta = bi(dd)
				})
			}
		}
		// no commitment at all
		for n, y := range map[string]*big.Int{"zero": bi(0), "one": bi(1), "the modulus less one": add(fb.N, bi(-1)), "the modulus": fb.N, "the first base": &fb.G1.V, "the second base": &fb.H1.V} {
			y := y
			for _, useP := range []bool{false, true} {
				useP := useP
				try(fmt.Sprintf("%s for an integer commitment, equality %v", n, useP), func(f *forge) { f.foRaw, f.eqUsesP = y, useP })
			}
		}
		// relations between the commitments
		for _, j := range []int{0, 1, R, R - 1, -1, -ind} {
			j := j
			try(fmt.Sprintf("the indicator's commitment holds %d", j), func(f *forge) { f.pind = bi(int64(j)) })
		}
		for _, s := range []int64{int64(ind), int64(ind - R), int64(ind - R + 1), int64(2 * ind)} {
			s := s
			try(fmt.Sprintf("the difference's commitment raised by %d", s), func(f *forge) { f.shift = s })
		}
	}
	// the indicator as the signature sees it
	for _, ind := range []int{1 << 32, 1<<32 + 1, 1<<32 + R, 1<<40 + 1} {
		f := own()
		f.ind = ind
		f.pind = bi(int64(abs(R) % 5))
		l.refused(f.build(), cli(0), fmt.Sprintf("a request for %d with reputation %d", ind, R), true)
		f = own()
		f.ind = ind
		l.refused(f.build(), cli(0), fmt.Sprintf("a request for %d with reputation %d, with its true difference", ind, R), true)
	}
	// with the reputation of somebody else: who helps
	for c := 1; c < 3; c++ {
		for _, ind := range []int{1, 5} {
			f := &forge{l: l, c: c, R: 5, ind: ind}
			p := f.build()
			l.accepted(p, cli(c), ind, fmt.Sprintf("the harness's own request of client%d for %d", c, ind))
			q := signedRequest(p.with("nym", util.EncodePoint(pointHex(l.dv(0).Nym))), l.dv(0).PriKey, l.cv().G)
			l.refused(q, cli(0), fmt.Sprintf("client%d's proofs for %d under the own pseudonym", c, ind), true)
			l.refused(p.with("signature", signedRequest(p, l.dv(0).PriKey, l.cv().G)["signature"]), cli(0), fmt.Sprintf("client%d's pseudonym and proofs with the own signature", c), false)
		}
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
