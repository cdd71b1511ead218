package main

// C03: rounds share no value, and every order of a table comes out equally often.

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/dedis/crypto/abstract"

	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"
)

func init() {
	register(&Prop{ID: "C03", Level: "model_checking", Budget: 85,
		Rule:   "histories of rounds up to the depth, every published value compared with every other; every server step of an announcement and a round end repeated with many draws, for every incoming order of 2 to 4 (5) entries; every value of the shuffle's draws (residues, weighted) for 2 to 4 (5) entries; distinct by history, by incoming order and draw",
		Assume: protocolAssumptions, Jobs: freshJobs})
}

func freshJobs(th bool) (jobs []Job) {
	add := func(name string, f func(r *Result)) { jobs = append(jobs, Job{Name: name, Run: f}) }
	ks := []int{2, 3, 4}
	if th {
		ks = []int{2, 3, 4, 5}
	}
	for _, k := range ks {
		k := k
		add(fmt.Sprintf("orders of %d, counted", k), func(r *Result) { countOrders(r, k) })
	}
	long := []int{6, 8, 9, 12, 17, 33, 40}
	if th {
		long = []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 24, 31, 32, 33, 40, 50, 64, 65}
	}
	for _, k := range long {
		k := k
		add(fmt.Sprintf("long tables, %d entries", k), func(r *Result) { longOrders(r, k, th) })
	}
	big := []struct{ servers, entries int }{{2, 18}, {1, 34}}
	if th {
		big = append(big, struct{ servers, entries int }{3, 40})
	}
	for _, b := range big {
		b := b
		add(fmt.Sprintf("rounds of %d servers, %d entries", b.servers, b.entries), func(r *Result) {
			w := newWorld(newEngine(), b.servers, 1)
			s := w.members(b.entries-1, 1)
			for k := 0; k < 2 && !r.late(); k++ {
				if msg := checkFresh(w, s); msg != "" {
					r.find("C03:history:"+shortKey(msg), "%d servers, %d entries, %d rounds ended: %s", b.servers, b.entries, k, msg)
				}
				s = w.endRound(s)
				r.States++
				r.Transitions++
				r.eval(fmt.Sprintf("%d servers, %d entries, %d rounds ended", b.servers, b.entries, k+1))
			}
			if msg := checkFresh(w, s); msg != "" {
				r.find("C03:history:"+shortKey(msg), "%d servers, %d entries: %s", b.servers, b.entries, msg)
			}
		})
	}
	type node struct{ servers, entries int }
	ns := []node{{1, 2}, {1, 3}, {1, 4}, {2, 2}, {2, 3}, {3, 3}}
	if th {
		ns = append(ns, node{2, 4}, node{3, 4}, node{1, 5}, node{4, 2})
	}
	for _, n := range ns {
		for i := 0; i < n.servers; i++ {
			n, i := n, i
			add(fmt.Sprintf("orders at server %d of %d, %d entries", i+1, n.servers, n.entries), func(r *Result) { nodeOrders(r, n.servers, n.entries, i, th) })
		}
	}
	type hist struct{ servers, fillers, full, depth int }
	hs := []hist{{1, 0, 0, 3}, {2, 1, 0, 2}, {3, 2, 1, 1}}
	if th {
		hs = []hist{{1, 0, 3, 7}, {2, 1, 2, 5}, {3, 2, 2, 4}, {4, 0, 1, 2}}
	}
	for _, h := range hs {
		for part := 0; part < 6; part++ {
			h, part := h, part
			add(fmt.Sprintf("histories s%d f%d depth %d part %d", h.servers, h.fillers, h.depth, part), func(r *Result) {
				w := newWorld(newEngine(), h.servers, 3)
				w.members(h.fillers, 2)
				if msg := checkFresh(w, w.init); msg != "" {
					r.find("C03:history:"+shortKey(msg), "%s", msg)
				}
				x := &histories{w: w, r: r, key: "C03", check: checkFresh, full: h.full, depth: h.depth, part: part, parts: 6, seen: map[string]bool{}}
				x.run()
			})
		}
	}
	d := 2
	if th {
		d = 4
	}
	jobs = append(jobs, launchedHistories("C03", 1, d, launchedPlans, checkFresh)...)
	// tables of none and one entry, which are not shuffled
	for _, n := range []struct{ servers, fillers int }{{1, 0}, {1, 1}, {2, 0}, {2, 1}, {3, 1}} {
		n := n
		add(fmt.Sprintf("small tables s%d f%d", n.servers, n.fillers), func(r *Result) { smallTables(r, n.servers, n.fillers, th) })
	}
	return
}

// smallTables: rounds with hardly any participants; one or two clients register in
// any of the rounds, or never
func smallTables(r *Result, servers, fillers int, th bool) {
	rounds := 4
	if th {
		rounds = 6
	}
	w := newWorld(newEngine(), servers, 2)
	w.members(fillers, 0)
	var explore func(s *GState, h []string, joined int)
	explore = func(s *GState, h []string, joined int) {
		if len(h) == rounds || r.late() || len(r.Findings) > 0 {
			return
		}
		for join := joined; join <= 2; join++ {
			l := &Lab{w: w, s: s, r: r}
			g := append(append([]string{}, h...), fmt.Sprintf("%d register", join-joined))
			l.step("C03", g, func() bool {
				for i := joined; i < join; i++ {
					l.op(cli(i), Input{Op: "register"})
				}
				l.op(0, Input{Op: "vote"})
				l.op(0, Input{Op: "roundend"})
				l.op(0, Input{Op: "clear"})
				l.op(0, Input{Op: "announce"})
				return true
			})
			if l.s == s {
				return
			}
			r.States++
			r.Transitions++
			r.eval(fmt.Sprint(servers, fillers, g))
			if msg := checkFresh(w, l.s); msg != "" {
				r.find("C03:history:"+shortKey(msg), "%d servers, %d others, after the rounds %q: %s", servers, fillers, strings.Join(g, "; "), msg)
				return
			}
			explore(l.s, g, join)
		}
	}
	explore(w.init, nil, 0)
}

// ---------------------------------------------------------------- fresh values

// freshSet: a value belongs to one place; again only within that place
type freshSet struct {
	at  map[string]string
	bad string
}

func (f *freshSet) add(v, place, what string) {
	if o, ok := f.at[v]; ok && o != place && f.bad == "" {
		f.bad = fmt.Sprintf("%s is a value of %s too: %s", what+" of "+place, o, clip(v))
	}
	if _, ok := f.at[v]; !ok {
		f.at[v] = place
	}
}

// windows of a proof; none may occur in another proof
const window = 32

type proofSet struct {
	at  map[string]string
	bad string
}

func (f *proofSet) add(b []byte, place string) {
	if f.at["all"+string(b)] == place {
		return
	}
	f.at["all"+string(b)] = place
	for i := 0; i+window <= len(b); i += window / 2 {
		var seen [256]bool
		distinct := 0
		for _, x := range b[i : i+window] {
			if !seen[x] {
				seen[x] = true
				distinct++
			}
		}
		if distinct < window/2 {
			continue // padding
		}
		k := string(b[i : i+window])
		if o, ok := f.at[k]; ok && o != place && f.bad == "" {
			f.bad = fmt.Sprintf("the proofs of %s and of %s share a value: %x", o, place, k)
		}
		f.at[k] = place
	}
}

// withoutStatement blanks the points a proof is about
func withoutStatement(b []byte, p map[string]interface{}) []byte {
	known := [][]byte{util.EncodePoint(qr512.Point().Base())}
	if x, ok := p["public_key"].([]byte); ok {
		known = append(known, x)
	}
	for _, k := range []string{"prev_keys", "prev_vals", "xbar", "ybar", "keys"} {
		l, _ := p[k].([]byte)
		panics(func() {
			for _, x := range util.ProtobufDecodePointList(l) {
				known = append(known, util.EncodePoint(x))
			}
		})
	}
	for _, x := range known {
		b = bytes.Replace(b, x, make([]byte, len(x)), -1)
	}
	return b
}

// bigFields lists the integers of a decoded argument
func bigFields(x interface{}) (l []*big.Int) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if b, ok := v.Field(i).Interface().(*big.Int); ok && b != nil {
			l = append(l, b)
		}
	}
	return
}

const drawBytes = 63 // a draw below the group's order takes 511 bits

func checkFresh(w *World, s *GState) string {
	c := w.local(s, 0)
	f := &freshSet{at: map[string]string{}}
	p := &proofSet{at: map[string]string{}}
	f.add(pt(qr512.Point().Base()), "the long-term keys", "the generator")
	f.add(pt(qr512.Point().Null()), "the long-term keys", "the identity")
	for _, n := range w.nodes {
		x := w.local(s, n).View
		switch n.kind() {
		case kCoord:
			f.add(x.C.PubKey, "the long-term keys", "a key")
		case kServer:
			f.add(x.S.PubKey, "the long-term keys", "a key")
		case kClient:
			f.add(x.D.PubKey, "the long-term keys", "a key")
		}
	}
	for k := range w.owners(s, 8) {
		f.add(k, "the long-term keys", "a key")
	}
	// what is published
	rs := roundsOf(c)
	for k, r := range rs {
		place := fmt.Sprintf("announcement %d", k+1)
		v := r.opened.View.C
		seen := map[string]bool{}
		once := func(x, what string) {
			if seen[x] && f.bad == "" {
				f.bad = fmt.Sprintf("%s of %s is there twice", what, place)
			}
			seen[x] = true
			f.add(x, place, what)
		}
		once(v.G, "the generator")
		once(v.GT, "the first base")
		once(v.HT, "the second base")
		for _, e := range v.End {
			once(e.Key, "a pseudonym")
			once(e.Comm, "a commitment")
		}
		for _, n := range r.joined {
			once(n, "a new pseudonym")
			once(r.joinComm[n], "a new commitment")
		}
		w.outcomes["announcements compared"]++
		if r.ended != nil {
			place := fmt.Sprintf("round end %d", k+1)
			v := r.ended.View.C
			f.add(v.GT, place, "the first base")
			f.add(v.HT, place, "the second base")
			for _, e := range v.Begin {
				f.add(e.Comm, place, "a commitment")
			}
		}
		if r.rdiff != nil {
			place := fmt.Sprintf("the differences of round end %d", k+1)
			seen := map[string]bool{}
			for _, x := range r.rdiff.secrets("rDiffs") {
				if seen[x] && f.bad == "" {
					f.bad = "an opening of " + place + " is there twice"
				}
				seen[x] = true
				f.add("opening "+x, place, "an opening")
			}
		}
	}
	// what the servers do, hop by hop
	for _, n := range w.nodes {
		if n.kind() != kServer {
			continue
		}
		keys := map[string]string{} // exponents of this server
		announced, ended := 0, 0
		var last *Local
		for _, l := range w.local(s, n).path() {
			v := l.View.S
			if last == nil {
				last = l.Parent
			}
			if last.Parent == nil {
				f.add("key "+last.View.S.RoundKey, fmt.Sprintf("%s's first round", n), "the round key")
				f.add("key "+v.PriKey, fmt.Sprintf("%s itself", n), "the private key")
				keys[last.View.S.RoundKey] = "1"
			}
			typ := inType(l)
			last = l
			if typ != proto.ANNOUNCEMENT && typ != proto.ROUND_END || len(l.Outs) == 0 {
				if typ == proto.ROUND_END && l.View.S.RoundKey != "" {
					keys[v.RoundKey] = "received the table"
				}
				continue
			}
			m := l.Outs[0]
			in, out := l.In.Msg.event().Params, m.event().Params
			place := fmt.Sprintf("announcement %d at %s", announced+1, n)
			need := drawBytes
			if typ == proto.ROUND_END {
				place = fmt.Sprintf("round end %d at %s", ended+1, n)
				ended++
				need = 2 * drawBytes
				f.add("key "+v.RoundKey, fmt.Sprintf("%s's round after %d", n, ended), "the round key")
			} else {
				announced++
				f.add("generator "+m.point("g"), place, "the generator")
			}
			inKeys, outKeys := listOf(in, "keys"), listOf(out, "keys")
			if len(inKeys) > 1 {
				need += 16
			}
			if l.DrewBytes < need {
				return fmt.Sprintf("%s draws only %d bytes, a new exponent and a new order take %d", place, l.DrewBytes, need)
			}
			before := map[string]bool{}
			for _, k := range append(append(listOf(in, "vals"), inKeys...), hex2(in["GT"]), hex2(in["HT"]), hex2(in["g"])) {
				if k != "" {
					before[k] = true
				}
			}
			for _, k := range append(append(listOf(out, "vals"), outKeys...), hex2(out["GT"]), hex2(out["HT"]), hex2(out["g"])) {
				if before[k] {
					return fmt.Sprintf("a value is handed on as it came in, in %s", place)
				}
			}
			f.add("base "+hex2(out["GT"]), place, "the first base")
			f.add("base "+hex2(out["HT"]), place, "the second base")
			for _, x := range listOf(out, "vals") {
				f.add("comm "+x, place, "a commitment")
			}
			if b, ok := out["proof"].([]byte); ok {
				p.add(withoutStatement(b, out), place)
			}
			w.outcomes["hops compared"]++
		}
	}
	// the arguments in requests
	for _, n := range w.nodes {
		if n.kind() != kClient {
			continue
		}
		for i, l := range w.local(s, n).path() {
			for _, m := range l.Outs {
				if m.Type != proto.REQUEST_BRIDGES {
					continue
				}
				q := m.event().Params
				place := fmt.Sprintf("the request at step %d of %s", i, n)
				var xs []*big.Int
				panics(func() {
					xs = bigFields(util.DecodeARGnonneg(q["arg_nonneg"].([]byte)))
					xs = append(xs, bigFields(util.DecodeARGequal(q["arg_equal"].([]byte)))...)
				})
				for _, k := range []string{"FOCommd", "PCommd", "PCommind", "rind"} {
					b, _ := q[k].([]byte)
					xs = append(xs, new(big.Int).SetBytes(b))
				}
				if len(xs) < 6 {
					return "the arguments of a request do not decode"
				}
				for j, x := range xs {
					if x.BitLen() > 64 {
						f.add(fmt.Sprint("request ", x), place, fmt.Sprintf("integer %d", j))
					}
				}
				w.outcomes["requests compared"]++
			}
		}
	}
	if f.bad != "" {
		return f.bad
	}
	return p.bad
}

func hex2(v interface{}) string {
	b, ok := v.([]byte)
	if !ok {
		return ""
	}
	return new(big.Int).SetBytes(b).Text(16)
}

func listOf(p map[string]interface{}, k string) (l []string) {
	b, ok := p[k].([]byte)
	if !ok {
		return nil
	}
	panics(func() {
		for _, x := range util.ProtobufDecodePointList(b) {
			l = append(l, pt(x))
		}
	})
	return
}

// printed: as the nodes use them as keys of their maps
func printed(p map[string]interface{}, k string) (l []string) {
	b, _ := p[k].([]byte)
	panics(func() {
		for _, x := range util.ProtobufDecodePointList(b) {
			l = append(l, x.String())
		}
	})
	return
}

// ---------------------------------------------------------------- orders at a server

// nodeOrders: the same step of a server with many different draws; every order of the
// outgoing table occurs, nothing but the chain of the generator is the same twice
func nodeOrders(r *Result, servers, entries, at int, th bool) {
	e := newEngine()
	w := newWorld(e, servers, 0)
	w.members(entries, 0)
	l := &Lab{w: w, s: w.init, r: r}
	l.endRound() // a whole second round
	orders := allPermutations(entries)
	draws := 45 * len(orders) // missing one by chance is out of the question then
	least := 8
	if th {
		least = draws
	}
	for _, typ := range []int{proto.ANNOUNCEMENT, proto.ROUND_END} {
		var step *Local
		for _, x := range w.local(l.s, srv(at)).path() {
			if inType(x) == typ && len(x.Outs) > 0 {
				step = x
			}
		}
		if step == nil {
			r.find("C03:no step", "server %d hands on no table", at+1)
			return
		}
		name := map[int]string{proto.ANNOUNCEMENT: "announcement", proto.ROUND_END: "round end"}[typ]
		r.conform(step)
		from := step.Parent
		p := paramsOf(step.In.Msg.Bytes)
		_, first := p["shuffled"]
		incoming := [][]int{nil}
		if !first { // the coordinator's own table: in every order
			incoming = orders
			if entries > 3 && !th {
				incoming = [][]int{orders[0], orders[len(orders)-1]}
			}
		}
		for _, in := range incoming {
			q := p
			if in != nil {
				var ks, vs []abstract.Point
				keys, vals := util.ProtobufDecodePointList(p.bytes("keys")), util.ProtobufDecodePointList(p.bytes("vals"))
				for _, j := range in {
					ks, vs = append(ks, keys[j]), append(vs, vals[j])
				}
				q = p.with("keys", util.ProtobufEncodePointList(ks)).with("vals", util.ProtobufEncodePointList(vs))
			}
			msg := e.addMsg(step.In.Msg.From, srv(at), mkEvent(typ, step.In.Msg.From, q))
			inKeys := listOf(q, "keys")
			counts := map[string]int{}
			f := &freshSet{at: map[string]string{}}
			pf := &proofSet{at: map[string]string{}}
			k := 0
			for ; k < draws && (k < least || len(counts) < len(orders)) && !r.late(); k++ {
				d := e.try(from, Input{Msg: msg, Offset: uint64(1000 + k)})
				place := fmt.Sprintf("draw %d", k)
				r.States++
				r.Transitions++
				r.eval(fmt.Sprintf("%s, server %d of %d, %d entries, incoming %v, draw %d", name, at+1, servers, entries, in, k))
				if d.Crashed != "" || len(d.Outs) != 1 {
					r.find("C03:refused", "server %d of %d does not hand on the table in the %s: %s", at+1, servers, name, firstLine(d.Crashed))
					return
				}
				out := d.Outs[0].event().Params
				outKeys := listOf(out, "keys")
				prev := map[string]string{} // outgoing key -> incoming key
				for _, x := range d.View.S.KeyMap {
					prev[x.Key] = x.Comm
				}
				if typ == proto.ROUND_END {
					prev = map[string]string{}
					for _, x := range from.View.S.KeyMap {
						prev[x.Comm] = x.Key
					}
				}
				var order []int
				names, inNames := outKeys, printed(q, "keys")
				if typ == proto.ANNOUNCEMENT {
					names, inNames = printed(out, "keys"), inKeys
				}
				for _, x := range names {
					j := -1
					for i, y := range inNames {
						if prev[x] == y {
							j = i
						}
					}
					order = append(order, j)
				}
				if o := append([]int(nil), order...); true {
					sort.Ints(o)
					if fmt.Sprint(o) != fmt.Sprint(orders[0]) {
						r.find("C03:entries", "server %d of %d hands on other entries in the %s: %v", at+1, servers, name, order)
						return
					}
				}
				counts[fmt.Sprint(order)]++
				f.add(hex2(out["GT"]), place, "the first base")
				f.add(hex2(out["HT"]), place, "the second base")
				for _, x := range listOf(out, "vals") {
					f.add(x, place, "a commitment")
				}
				f.add("key "+d.View.S.RoundKey, map[bool]string{true: "the round", false: place}[typ == proto.ANNOUNCEMENT], "the round key")
				if b, ok := out["proof"].([]byte); ok {
					pf.add(withoutStatement(b, out), place)
				}
				if f.bad != "" || pf.bad != "" {
					r.find("C03:draws:"+name, "%s at server %d of %d, the same step with different draws: %s%s", name, at+1, servers, f.bad, pf.bad)
					return
				}
			}
			if r.late() {
				return
			}
			if len(counts) != len(orders) {
				r.find(fmt.Sprintf("C03:orders:%s", name), "%s at server %d of %d: only %d of %d orders of %d entries come out of %d draws", name, at+1, servers, len(counts), len(orders), entries, k)
			}
			r.count("orders reached", len(counts))
		}
	}
}

// ---------------------------------------------------------------- counting

// drawTree hands out every value of every short read, one execution per combination
type drawTree struct {
	path, size []int // taken so far, and number of values at each read
	pos        int
	rest       *prfStream
	lcm, max   int
	deep       bool // more reads than the bound
}

func (t *drawTree) XORKeyStream(dst, src []byte) {
	n := len(src)
	if n > 8 {
		t.rest.XORKeyStream(dst, src)
		return
	}
	if t.pos == t.max {
		t.deep = true
		t.rest.XORKeyStream(dst, src)
		return
	}
	size := t.lcm
	if n == 1 {
		size = 256
	}
	if t.pos == len(t.path) {
		t.path, t.size = append(t.path, 0), append(t.size, size)
	}
	v := uint64(t.path[t.pos])
	t.pos++
	if n > 1 { // the residue v, somewhere in the middle of the range
		v += uint64(t.lcm) * (uint64(1)<<uint(8*n-8)/uint64(t.lcm) - 1)
	}
	for i := n - 1; i >= 0; i-- {
		dst[i] = src[i] ^ byte(v)
		v >>= 8
	}
}

// next moves to the next combination
func (t *drawTree) next() bool {
	for i := len(t.path) - 1; i >= 0; i-- {
		if t.path[i]+1 < t.size[i] {
			t.path[i]++
			t.path, t.size = t.path[:i+1], t.size[:i+1]
			return true
		}
	}
	return false
}

func countOrders(r *Result, k int) {
	s := newSuite(dec(safePrimes[0]), 4)
	lcm := map[int]int{2: 2, 3: 6, 4: 12, 5: 60}[k]
	var X, Y []abstract.Point
	for i := 0; i < k; i++ {
		X = append(X, s.Point().Mul(nil, secretOf(s, bi(int64(7+i)))))
		Y = append(Y, s.Point().Mul(nil, secretOf(s, bi(int64(70+i)))))
	}
	h := s.Point().Mul(nil, secretOf(s, bi(1234567)))
	incoming := allPermutations(k)
	if k > 3 {
		incoming = [][]int{incoming[0], incoming[len(incoming)-1]}
	}
	for _, in := range incoming {
		var x, y []abstract.Point
		for _, j := range in {
			x, y = append(x, X[j]), append(y, Y[j])
		}
		weight := map[string]*big.Rat{}
		open := new(big.Rat) // weight of executions that go beyond the bound
		t := &drawTree{lcm: lcm, max: k}
		runs := 0
		for {
			t.pos, t.deep, t.rest = 0, false, newPRF(prfKey("C03", k))
			var _, ybar, tmp []abstract.Point
			_, ybar, _, _, tmp = shuffle.Shuffle(s, nil, h, x, y, t)
			var order []int
			for i := range ybar {
				o := s.Point().Sub(ybar[i], tmp[i])
				j := -1
				for m := range y {
					if o.Equal(y[m]) {
						j = m
					}
				}
				order = append(order, j)
			}
			w := new(big.Rat).SetInt64(1)
			for _, n := range t.size[:t.pos] {
				w.Mul(w, big.NewRat(1, int64(n)))
			}
			if t.deep {
				open.Add(open, w)
			}
			o := fmt.Sprint(order)
			if weight[o] == nil {
				weight[o] = new(big.Rat)
			}
			weight[o].Add(weight[o], w)
			runs++
			r.eval("")
			if r.late() {
				return
			}
			if !t.next() {
				break
			}
		}
		r.States += len(weight)
		r.Transitions += runs
		r.eval(fmt.Sprintf("incoming order %v of %d entries", in, k))
		r.count("draws enumerated", runs)
		if runs == 1 {
			r.Notes = append(r.Notes, "the shuffle takes its order from no short draws; only reachability of the orders is checked")
			return
		}
		share := big.NewRat(1, int64(len(allPermutations(k))))
		var off []string
		for _, p := range allPermutations(k) {
			w := weight[fmt.Sprint(p)]
			if w == nil {
				w = new(big.Rat)
			}
			d := new(big.Rat).Sub(w, share)
			if d.Abs(d).Cmp(open) > 0 {
				off = append(off, fmt.Sprintf("%v: %s", p, w.RatString()))
			}
		}
		if off != nil {
			r.find(fmt.Sprintf("C03:uneven:%d", k), "%d entries that come in as %v go out in uneven orders: %s (should be %s each)", k, in, clip(strings.Join(off, ", ")), share.RatString())
		}
	}
}

// longOrders: with enough streams of draws every entry comes out at every place,
// and every two entries in both orders and next to one another
func longOrders(r *Result, k int, th bool) {
	s := newSuite(dec(safePrimes[0]), 4)
	var X, Y []abstract.Point
	index := map[string]int{}
	for i := 0; i < k; i++ {
		X = append(X, s.Point().Mul(nil, secretOf(s, bi(int64(7+i)))))
		Y = append(Y, s.Point().Mul(nil, secretOf(s, bi(int64(70+i)))))
		index[Y[i].String()] = i
	}
	h := s.Point().Mul(nil, secretOf(s, bi(1234567)))
	at := make([]int, k*k)   // entry i at place p
	next := make([]int, k*k) // entry j right after entry i
	runs := 40 * k           // a pair is missed by chance once in e^40
	if th {
		runs = 60 * k
	}
	for n := 0; n < runs; n++ {
		if r.late() {
			return
		}
		var ybar, tmp []abstract.Point
		_, ybar, _, _, tmp = shuffle.Shuffle(s, nil, h, append([]abstract.Point(nil), X...), append([]abstract.Point(nil), Y...), newPRF(prfKey("C03 long", k, n)))
		r.eval("")
		r.Transitions++
		last := -1
		for p := range ybar {
			i, ok := index[s.Point().Sub(ybar[p], tmp[p]).String()]
			if !ok {
				r.find("C03:long:entry", "%d entries, draws %d: place %d holds none of them", k, n, p)
				return
			}
			at[i*k+p]++
			if last >= 0 {
				next[last*k+i]++
			}
			last = i
		}
	}
	r.States++
	r.eval(fmt.Sprintf("%d entries, %d streams of draws", k, runs))
	for i := 0; i < k; i++ {
		for p := 0; p < k; p++ {
			n, m := at[i*k+p], next[i*k+p]
			if n == 0 || n > 160 {
				r.find("C03:long:place", "of %d shuffles of %d entries, entry %d comes out at place %d in %d", runs, k, i, p, n)
				return
			}
			if i != p && (m == 0 || m > 160) {
				r.find("C03:long:neighbours", "of %d shuffles of %d entries, entry %d comes out right before entry %d in %d", runs, k, i, p, m)
				return
			}
		}
	}
}
