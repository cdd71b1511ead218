package main

// C14: tables handed on with a proof that does not hold.

import (
	"fmt"
	"math/big"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"

	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"
)

func init() {
	register(&Prop{ID: "C14", Level: "exploration", Budget: 85,
		Rule:   "distinct hop and alteration: every element of every list of a hop's message altered, exchanged, dropped, repeated or taken from another message, every piece of the proof altered, fields removed and combined, and proofs made by cheating servers; on every hop of an announcement and a round end",
		Assume: append([]string{"the message comes from a server: whoever poses as the coordinator (no generator in an announcement, is_start at a round end) needs no proof; commitments, bases and the generator are covered by no proof"}, protocolAssumptions...), Jobs: tableJobs})
}

type hopCase struct {
	servers, entries, at, typ int
}

func (h hopCase) String() string {
	return fmt.Sprintf("%s at server %d of %d, %d entries", map[int]string{proto.ANNOUNCEMENT: "announcement", proto.ROUND_END: "round end"}[h.typ], h.at+1, h.servers, h.entries)
}

func tableJobs(th bool) (jobs []Job) {
	var l []hopCase
	for _, n := range [][2]int{{2, 2}, {2, 3}, {2, 4}, {3, 3}} {
		for at := 0; at < n[0]; at++ {
			if at > 0 {
				l = append(l, hopCase{n[0], n[1], at, proto.ANNOUNCEMENT})
			}
			if at < n[0]-1 {
				l = append(l, hopCase{n[0], n[1], at, proto.ROUND_END})
			}
		}
	}
	if th {
		l = append(l, hopCase{3, 2, 2, proto.ANNOUNCEMENT}, hopCase{3, 4, 2, proto.ANNOUNCEMENT}, hopCase{3, 2, 0, proto.ROUND_END}, hopCase{3, 4, 0, proto.ROUND_END}, hopCase{2, 6, 1, proto.ANNOUNCEMENT}, hopCase{2, 6, 0, proto.ROUND_END}, hopCase{4, 3, 3, proto.ANNOUNCEMENT}, hopCase{4, 3, 0, proto.ROUND_END})
	}
	long := []int{18}
	if th {
		long = []int{9, 18, 34}
	}
	for _, n := range long {
		for _, h := range []hopCase{{2, n, 1, proto.ANNOUNCEMENT}, {2, n, 0, proto.ROUND_END}} {
			for p := 0; p < 6; p++ {
				h, p := h, p
				jobs = append(jobs, Job{Name: fmt.Sprintf("%s, part %d", h, p), Run: func(r *Result) { (&tableLab{r: r, hopCase: h, part: p, parts: 6, long: true}).run() }})
			}
		}
	}
	for _, h := range l {
		parts := 2
		if th {
			parts = 4
		}
		for p := 0; p < parts; p++ {
			h, p := h, p
			jobs = append(jobs, Job{Name: fmt.Sprintf("%s, part %d", h, p), Run: func(r *Result) { (&tableLab{r: r, hopCase: h, part: p, parts: parts, th: th}).run() }})
		}
	}
	return
}

type tableLab struct {
	r *Result
	hopCase
	part, parts, turn int
	th, long          bool
	l                 *Lab
	from              *Local // the server before it gets the message
	sender            nodeID
	p                 params
}

var listFields = []string{"xbar", "ybar", "prev_keys", "prev_vals", "keys"}

func (t *tableLab) steps(at, typ int) (l []*Local) {
	for _, x := range t.l.w.local(t.l.s, srv(at)).path() {
		if inType(x) == typ && len(x.Outs) > 0 {
			l = append(l, x)
		}
	}
	return
}

func (t *tableLab) run() {
	e := newEngine()
	w := newWorld(e, t.servers, 0)
	w.members(t.entries, 0)
	t.l = &Lab{w: w, s: w.init, r: t.r}
	t.l.endRound()
	t.l.endRound()
	ss := t.steps(t.at, t.typ)
	if len(ss) == 0 {
		t.r.find("C14:no step", "%s: no table is handed on", t.hopCase)
		return
	}
	step := ss[len(ss)-1]
	t.from, t.sender, t.p = step.Parent, step.In.Msg.From, paramsOf(step.In.Msg.Bytes)
	t.r.conform(step)
	for _, k := range append(listFields, "proof", "public_key") {
		if _, ok := t.p[k].([]byte); !ok {
			t.r.find("C14:no proof", "%s: a table of several entries comes without %s", t.hopCase, k)
			return
		}
	}
	// with the bytes made again, still accepted
	if d := e.try(t.from, Input{Msg: e.addMsg(t.sender, srv(t.at), mkEvent(t.typ, t.sender, t.p.clone()))}); d.Crashed != "" || len(d.Outs) != 1 {
		t.r.find("C14:genuine", "%s: a genuine table is not handed on: %s", t.hopCase, firstLine(d.Crashed))
		return
	}
	if t.long {
		t.everyPlace()
		t.cheats()
		return
	}
	// donors
	var donors []params
	var names []string
	for at := 0; at < t.servers; at++ {
		for _, typ := range []int{proto.ANNOUNCEMENT, proto.ROUND_END} {
			for i, x := range t.steps(at, typ) {
				q := paramsOf(x.In.Msg.Bytes)
				if x != step && q["proof"] != nil {
					donors, names = append(donors, q), append(names, fmt.Sprintf("the table of %s number %d", hopCase{t.servers, t.entries, at, typ}, i+1))
				}
				o := paramsOf(x.Outs[0].Bytes)
				if o["proof"] != nil && x.Parent != t.from {
					donors, names = append(donors, o), append(names, fmt.Sprintf("what comes out of %s number %d", hopCase{t.servers, t.entries, at, typ}, i+1))
				}
			}
		}
	}
	t.lists(donors, names)
	t.proofs(donors, names)
	t.cheats()
}

// refuse hands the altered table to the server
func (t *tableLab) refuse(label string, p params) {
	t.turn++
	if t.turn%t.parts != t.part%t.parts || t.r.late() || p.same(t.p) {
		return
	}
	e := t.l.w.e
	d := e.try(t.from, Input{Msg: e.addMsg(t.sender, srv(t.at), mkEvent(t.typ, t.sender, p))})
	t.r.eval(t.hopCase.String() + ": " + label)
	t.r.count("alterations", 1)
	v := d.View
	if d.Crashed != "" {
		v = viewOf(d.state) // of a server that would go on
		t.r.count("the server stops", 1)
	}
	kind := shortKey(label)
	if len(d.Outs) > 0 {
		t.r.find("C14:handed on:"+kind, "%s: a table with %s is handed on", t.hopCase, label)
		return
	}
	if x := diffViews(t.from.View.S, v.S); x != "" {
		t.r.find("C14:changes:"+kind, "%s: a table with %s is refused, but the server's state changes (%s)", t.hopCase, label, x)
	}
}

// everyPlace: a few alterations at each place of a long table
func (t *tableLab) everyPlace() {
	g := qr512.Point().Base()
	for _, k := range listFields {
		old := t.points(k)
		for i := range old {
			j := (i + 1) % len(old)
			with := func(what string, f func(l []abstract.Point)) {
				l := append([]abstract.Point(nil), old...)
				f(l)
				if k != "keys" || !samePointSet(l, old) {
					t.refuse(fmt.Sprintf("%s with element %d %s", k, i, what), t.p.with(k, util.ProtobufEncodePointList(l)))
				}
			}
			with("times the base", func(l []abstract.Point) { l[i] = qr512.Point().Add(old[i], g) })
			with("the same as the next", func(l []abstract.Point) { l[i] = old[j] })
			with("exchanged with the next", func(l []abstract.Point) { l[i], l[j] = old[j], old[i] })
		}
		t.refuse(k+" without the last element", t.p.with(k, util.ProtobufEncodePointList(old[:len(old)-1])))
		t.refuse(k+" with the base behind", t.p.with(k, util.ProtobufEncodePointList(append(append([]abstract.Point(nil), old...), g))))
	}
	prf := t.p.bytes("proof")
	n := qr512.Point().MarshalSize()
	for i := 0; i+n <= len(prf); i += n {
		b := append([]byte(nil), prf...)
		b[i+n-1] ^= 1
		t.refuse(fmt.Sprintf("a proof with piece %d changed", i/n), t.p.with("proof", b))
	}
}

func (t *tableLab) points(k string) []abstract.Point {
	return util.ProtobufDecodePointList(t.p.bytes(k))
}

func samePointSet(a, b []abstract.Point) bool {
	m := map[string]int{}
	for _, x := range a {
		m[pt(x)]++
	}
	for _, x := range b {
		m[pt(x)]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func (t *tableLab) lists(donors []params, names []string) {
	g := qr512.Point().Base()
	pub := util.DecodePoint(qr512, t.p.bytes("public_key"))
	for _, k := range listFields {
		old := t.points(k)
		// legitimate: the keys in another order
		with := func(label string, l []abstract.Point) {
			if k == "keys" && samePointSet(l, old) {
				return
			}
			t.refuse(k+" "+label, t.p.with(k, util.ProtobufEncodePointList(l)))
		}
		cp := func() []abstract.Point { return append([]abstract.Point(nil), old...) }
		set := func(label string, i int, x abstract.Point) {
			l := cp()
			l[i] = x
			with(fmt.Sprintf("with element %d %s", i, label), l)
		}
		for i := range old {
			set("times the base", i, qr512.Point().Add(old[i], g))
			set("times the public key", i, qr512.Point().Add(old[i], pub))
			set("inverted", i, qr512.Point().Neg(old[i]))
			set("squared", i, qr512.Point().Add(old[i], old[i]))
			set("the identity", i, qr512.Point().Null())
			set("the base", i, g)
			set("the public key", i, pub)
			set("negated", i, pointOf(qr512, new(big.Int).Sub(grpP, pointVal(old[i]))))
			set("made unreduced zero", i, pointOf(qr512, bi(0)))
			for j := range old {
				if i != j {
					set(fmt.Sprintf("the same as %d", j), i, old[j])
					l := cp()
					l[i], l[j] = qr512.Point().Add(old[i], g), qr512.Point().Sub(old[j], g)
					with(fmt.Sprintf("with the base moved from element %d to %d", j, i), l)
				}
				if i < j {
					l := cp()
					l[i], l[j] = l[j], l[i]
					with(fmt.Sprintf("with elements %d and %d exchanged", i, j), l)
				}
			}
			for _, k2 := range listFields {
				if k2 != k {
					for j, x := range t.points(k2) {
						if !x.Equal(old[i]) {
							set(fmt.Sprintf("that of %s %d", k2, j), i, x)
						}
					}
				}
			}
			with(fmt.Sprintf("without element %d", i), append(append([]abstract.Point(nil), old[:i]...), old[i+1:]...))
			with(fmt.Sprintf("with element %d twice", i), append(cp(), old[i]))
			with(fmt.Sprintf("only element %d", i), old[i:i+1])
		}
		with("with the base behind", append(cp(), g))
		with("with the base in front", append([]abstract.Point{g}, old...))
		with("empty", nil)
		with("twice", append(cp(), old...))
		rev := cp()
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		with("reversed", rev)
		for _, k2 := range listFields {
			if k2 != k {
				with("replaced by "+k2, t.points(k2))
			}
		}
		for i, d := range donors {
			l := util.ProtobufDecodePointList(d.bytes(k))
			if !samePointSet(l, old) {
				with("of "+names[i], l)
			}
		}
	}
	// two lists in the same way
	perms := allPermutations(t.entries)
	for a := 0; a < len(listFields); a++ {
		for b := a + 1; b < len(listFields); b++ {
			ka, kb := listFields[a], listFields[b]
			x, y := t.points(ka), t.points(kb)
			for _, p := range perms[1:] {
				var u, v []abstract.Point
				for _, j := range p {
					u, v = append(u, x[j]), append(v, y[j])
				}
				trivial := func(k string, l, old []abstract.Point) bool {
					return k == "keys" || util.ProtobufEncodePointList(l) != nil && string(util.ProtobufEncodePointList(l)) == string(util.ProtobufEncodePointList(old))
				}
				if trivial(ka, u, x) && trivial(kb, v, y) {
					continue
				}
				t.refuse(fmt.Sprintf("%s and %s reordered %v", ka, kb, p), t.p.with(ka, util.ProtobufEncodePointList(u)).with(kb, util.ProtobufEncodePointList(v)))
			}
			for i := 0; i < t.entries; i++ {
				u, v := append([]abstract.Point(nil), x...), append([]abstract.Point(nil), y...)
				u[i], v[i] = qr512.Point().Add(x[i], g), qr512.Point().Add(y[i], g)
				t.refuse(fmt.Sprintf("element %d of %s and %s times the base", i, ka, kb), t.p.with(ka, util.ProtobufEncodePointList(u)).with(kb, util.ProtobufEncodePointList(v)))
				for j := 0; j < t.entries; j++ {
					u, v := append([]abstract.Point(nil), x...), append([]abstract.Point(nil), y...)
					u[i], v[j] = qr512.Point().Add(x[i], g), qr512.Point().Add(y[j], g)
					if i != j {
						t.refuse(fmt.Sprintf("element %d of %s and %d of %s times the base", i, ka, j, kb), t.p.with(ka, util.ProtobufEncodePointList(u)).with(kb, util.ProtobufEncodePointList(v)))
					}
				}
			}
			if string(t.p.bytes(ka)) != string(t.p.bytes(kb)) {
				t.refuse(ka+" and "+kb+" exchanged", t.p.with(ka, t.p[kb]).with(kb, t.p[ka]))
			}
		}
	}
}

func (t *tableLab) proofs(donors []params, names []string) {
	prf := t.p.bytes("proof")
	n := qr512.Point().MarshalSize()
	with := func(label string, b []byte) { t.refuse("a proof "+label, t.p.with("proof", b)) }
	cp := func() []byte { return append([]byte(nil), prf...) }
	stride := 16
	if t.th {
		stride = 4
	}
	for i := 0; i < len(prf); i++ {
		if i%stride == stride-1 || i%n == n-1 || i%n == 0 {
			b := cp()
			b[i] ^= 1
			with(fmt.Sprintf("with byte %d changed", i), b)
		}
	}
	for i := 0; i+n <= len(prf); i += n {
		for _, x := range [][]byte{make([]byte, n), util.EncodePoint(qr512.Point().Base()), t.p.bytes("public_key")} {
			b := cp()
			copy(b[i:], x)
			with(fmt.Sprintf("with piece %d replaced by %x...", i/n, x[n-2:]), b)
		}
		for j := i + n; j+n <= len(prf); j += n {
			if j > i+2*n && !t.th {
				break
			}
			b := cp()
			copy(b[i:], prf[j:j+n])
			copy(b[j:], prf[i:i+n])
			with(fmt.Sprintf("with pieces %d and %d exchanged", i/n, j/n), b)
		}
		with(fmt.Sprintf("without piece %d", i/n), append(append([]byte(nil), prf[:i]...), prf[i+n:]...))
		with(fmt.Sprintf("cut at piece %d", i/n), append([]byte(nil), prf[:i]...))
	}
	with("one byte short", prf[:len(prf)-1])
	with("empty", []byte{})
	for i, d := range donors {
		with("of "+names[i], d.bytes("proof"))
		for _, k := range listFields {
			q := t.p.with("proof", d["proof"]).with("public_key", d["public_key"])
			for _, k2 := range listFields {
				if k2 != k {
					q = q.with(k2, d[k2])
				}
			}
			if samePointSet(util.ProtobufDecodePointList(d.bytes(k)), t.points(k)) {
				continue
			}
			t.refuse(fmt.Sprintf("everything but %s from %s", k, names[i]), q)
		}
		// all that is proved, from elsewhere, but the keys
		q := t.p.clone()
		for k, v := range d {
			q[k] = v
		}
		q["keys"], q["vals"] = t.p["keys"], t.p["vals"]
		for _, k := range []string{"g", "GT", "HT"} {
			if t.p[k] != nil {
				q[k] = t.p[k]
			} else {
				delete(q, k)
			}
		}
		if !samePointSet(util.ProtobufDecodePointList(d.bytes("keys")), t.points("keys")) {
			t.refuse("the proof and its lists from "+names[i], q)
		}
	}
	// other public keys
	for i := 0; i < t.servers; i++ {
		if k := t.l.w.local(t.l.s, srv(i)).View.S.PubKey; k != pt(util.DecodePoint(qr512, t.p.bytes("public_key"))) {
			t.refuse(fmt.Sprintf("the public key of server %d", i+1), t.p.with("public_key", util.EncodePoint(pointBig(hx(k)))))
		}
	}
	pub := util.DecodePoint(qr512, t.p.bytes("public_key"))
	others := []abstract.Point{qr512.Point().Base(), qr512.Point().Null(), qr512.Point().Add(pub, pub), qr512.Point().Neg(pub)}
	for i, name := range []string{"the base", "the identity", "the public key squared", "the public key inverted"} {
		t.refuse("public key "+name, t.p.with("public_key", util.EncodePoint(others[i])))
	}
	// fields taken away: without "shuffled" there is no proof to look at
	all := append([]string{"shuffled", "proof", "public_key"}, listFields[:4]...)
	for m := 1; m < 1<<uint(len(all)); m++ {
		q := t.p.clone()
		var gone []string
		for i, k := range all {
			if m>>uint(i)&1 == 1 {
				delete(q, k)
				gone = append(gone, k)
			}
		}
		t.refuse(fmt.Sprint("fields missing: ", gone), q)
		if m&1 == 1 { // and other keys
			l := t.points("keys")
			l[0] = qr512.Point().Add(l[0], qr512.Point().Base())
			t.refuse(fmt.Sprint("another key, and fields missing: ", gone), q.with("keys", util.ProtobufEncodePointList(l)))
		}
	}
}

// cheats: a server with a proof of its own for something else
func (t *tableLab) cheats() {
	at := t.at - 1
	if t.typ == proto.ROUND_END {
		at = t.at + 1
	}
	priv := secretHex(t.l.w.local(t.l.s, srv(at)).View.S.PriKey)
	pub := qr512.Point().Mul(nil, priv)
	g := qr512.Point().Base()
	x, y := t.points("prev_keys"), t.points("prev_vals")
	other := func(l []abstract.Point, i int) []abstract.Point {
		c := append([]abstract.Point(nil), l...)
		c[i] = qr512.Point().Add(c[i], g)
		return c
	}
	// a real proof about the given inputs
	prove := func(key string, h abstract.Point, x, y []abstract.Point) (q params, out []abstract.Point) {
		withRandom("C14 "+key, func() {
			rand := qr512.Cipher(abstract.RandomKey)
			xb, yb, prover, _, tmp := shuffle.Shuffle(qr512, nil, h, x, y, rand)
			prf, err := proof.HashProve(qr512, "PairShuffle", rand, prover)
			must(err)
			for i := range yb {
				out = append(out, qr512.Point().Sub(yb[i], tmp[i]))
			}
			q = t.p.with("xbar", util.ProtobufEncodePointList(xb)).with("ybar", util.ProtobufEncodePointList(yb)).with("proof", prf).
				with("prev_keys", util.ProtobufEncodePointList(x)).with("prev_vals", util.ProtobufEncodePointList(y)).
				with("public_key", util.EncodePoint(h))
		})
		return
	}
	enc := util.ProtobufEncodePointList
	// an honest shuffle of the same inputs is handed on
	q, out := prove("honest", pub, x, y)
	if t.part == 0 {
		e := t.l.w.e
		d := e.try(t.from, Input{Msg: e.addMsg(t.sender, srv(t.at), mkEvent(t.typ, t.sender, q.with("keys", enc(out))))})
		t.r.eval(t.hopCase.String() + ": another honest shuffle")
		known := d.Crashed == "" && len(d.Outs) == 1
		if !known {
			t.r.find("C14:honest", "%s: another honest shuffle of the same table is not handed on: %s", t.hopCase, firstLine(d.Crashed))
		}
	}
	if t.long {
		t.turn, t.parts = t.part, 1 // the parts share the places
		defer func(p int) { t.parts = p }(6)
	}
	for i := range out {
		if t.long && i%6 != t.part {
			continue
		}
		t.refuse(fmt.Sprintf("a proof of the cheater and key %d replaced", i), q.with("keys", enc(other(out, i))))
		t.refuse(fmt.Sprintf("a proof of the cheater and key %d dropped", i), q.with("keys", enc(append(append([]abstract.Point(nil), out[:i]...), out[i+1:]...))))
		if len(out) > 1 {
			l := append([]abstract.Point(nil), out...)
			l[i] = out[(i+1)%len(out)]
			t.refuse(fmt.Sprintf("a proof of the cheater and key %d twice", (i+1)%len(out)), q.with("keys", enc(l)))
		}
		t.refuse(fmt.Sprintf("a proof of the cheater and a key added to %d", i), q.with("keys", enc(append(append([]abstract.Point(nil), out...), qr512.Point().Add(out[i], g)))))
		for _, k := range []string{"xbar", "ybar", "prev_keys", "prev_vals"} {
			l := util.ProtobufDecodePointList(q.bytes(k))
			t.refuse(fmt.Sprintf("a proof of the cheater and element %d of %s replaced", i, k), q.with("keys", enc(out)).with(k, enc(other(l, i))))
		}
		// the inputs of the proof are not the keys handed on
		q2, out2 := prove(fmt.Sprint("other ", i), pub, x, other(y, i))
		t.refuse(fmt.Sprintf("a proof about another key %d", i), q2.with("keys", t.p["keys"]))
		t.refuse(fmt.Sprintf("a proof about another key %d, shown as the genuine ones", i), q2.with("keys", enc(out2)).with("prev_vals", t.p["prev_vals"]))
	}
	// under another key than the one that is shown
	q3, out3 := prove("other base", qr512.Point().Add(pub, g), x, y)
	t.refuse("a proof under another key", q3.with("keys", enc(out3)).with("public_key", t.p["public_key"]))
	t.r.count("provers", 2+len(out))
}
