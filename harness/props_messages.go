package main

// C05, C06, C07, C22: the signed messages that clients send, and the one they get.

import (
	"fmt"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

func init() {
	register(&Prop{ID: "C05", Level: "exploration", Budget: 90,
		Rule:   "every vote message of the alphabet (every byte, field and border of genuine votes altered; every list of signatures up to the full length and one more; every signer; every value class; stale and forged assignments) on the real coordinator; distinct by what is altered",
		Assume: protocolAssumptions, Jobs: voteJobs})
	register(&Prop{ID: "C06", Level: "model_checking", Budget: 90,
		Rule:   "states are coordinator states; all sequences of vote messages up to the depth, over genuine, newly signed, contradicting and invalid ones for several assignments, the beginning of the voting phase and the end of the round; compared with a reference model",
		Assume: protocolAssumptions, Jobs: voteSeqJobs})
	register(&Prop{ID: "C07", Level: "exploration", Budget: 90,
		Rule:   "every post message of the alphabet (every byte, field and border of genuine posts altered, every signer, every address class, every phase) on the real coordinator; distinct by what is altered",
		Assume: protocolAssumptions, Jobs: postJobs})
	register(&Prop{ID: "C22", Level: "exploration", Budget: 90,
		Rule:   "every byte of every field altered, every field left out, retyped, truncated, extended, exchanged between genuine messages or swapped, every move of the border between neighbouring fields, for the four signed messages; distinct by what is altered",
		Assume: protocolAssumptions, Jobs: bindJobs})
}

// a round with assignments in every direction, and material of the round before
type voteLab struct {
	*Lab
	stale     map[string][]byte
	staleView *CoordView
	staleNym  []string
	staleA    AssignView
}

func expect(ok bool, format string, a ...interface{}) {
	if !ok {
		panic(harnessCrash{fmt.Sprintf("an ordinary round fails: "+format, a...)})
	}
}

func newVoteLab(r *Result, servers int) *voteLab {
	v := &voteLab{Lab: newLab(r, servers, 3, 1), stale: map[string][]byte{}}
	v.op(cli(0), Input{Op: "post", S: "9.9.9.9:9"})
	v.op(cli(1), Input{Op: "request", I: 1})
	expect(len(v.dv(1).Assignments) == 1, "a request for one bridge gets %d", len(v.dv(1).Assignments))
	v.stale["post"] = v.grab(cli(0), Input{Op: "post", S: "8.8.8.8:8"})
	v.stale["request"] = v.grab(cli(1), Input{Op: "request", I: 1})
	v.stale["vote"] = v.grab(cli(1), Input{Op: "castvote", I: 0, J: 1})
	v.staleView = v.cv()
	v.staleA = v.dv(1).Assignments[0]
	for i := 0; i < 3; i++ {
		v.staleNym = append(v.staleNym, v.dv(i).Nym)
	}
	v.endRound()
	v.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
	v.op(cli(0), Input{Op: "post", S: "2.2.2.2:22"})
	v.op(cli(1), Input{Op: "request", I: 2})
	v.op(cli(2), Input{Op: "post", S: "3.3.3.3:333"})
	v.op(cli(0), Input{Op: "request", I: 1})
	v.op(cli(0), Input{Op: "post", S: "4.4.4.4:4"})
	v.op(cli(2), Input{Op: "request", I: 1})
	for i, n := range []int{1, 2, 1} {
		expect(len(v.dv(i).Assignments) == n, "client%d gets %d of %d assignments", i, len(v.dv(i).Assignments), n)
	}
	return v
}

func (v *voteLab) vote(c, i, f int) params {
	return paramsOf(v.grab(cli(c), Input{Op: "castvote", I: i, J: f}))
}

func (v *voteLab) sk(i int) string { return v.dv(i).PriKey }

// signed signs a vote's fields; fields that cannot be signed make it return nil
func signedVote(p params, sk, base string) (q params) {
	defer func() {
		if recover() != nil {
			q = nil
		}
	}()
	return p.with("signature", sign(bridge.MessageOfVote(p), sk, base))
}

func sigList(p params) [][]byte { return util.Decode2DByteArray(p.bytes("signatures")) }

func withSigs(p params, l [][]byte) params { return p.with("signatures", util.Encode2DByteArray(l)) }

func encA(nymR, addr, nym string) []byte {
	return bridge.EncodeAssignment(&bridge.Assignment{NymR: pointHex(nymR), Addr: addr, Nym: pointHex(nym)})
}

// issued signs an assignment with the keys of all servers and the coordinator
func (v *voteLab) issued(a []byte) [][]byte {
	var l [][]byte
	for i := range v.cv().Servers {
		l = append(l, sign(a, v.w.server(v.s, i).PriKey, "4"))
	}
	return append(l, sign(a, v.cv().PriKey, "4"))
}

// invalidVotes lists vote messages which must not count
func (v *voteLab) invalidVotes() (l []labelled) {
	cv := v.cv()
	g := v.vote(1, 0, 1)
	add := func(label string, p params) {
		if p != nil {
			l = append(l, labelled{label, p})
		}
	}
	sk := v.sk(1)
	own := func(p params) params { return signedVote(p, sk, cv.G) }
	for _, f := range []int{0, 2, -2, 3, -3, 5, -5, 10, 100, -100, 127, 128, 255, 256, -255, 257, 1 << 16, 1<<31 - 1, -1 << 31, 1 << 31, 1<<32 + 1, 1<<32 - 1, -1<<32 + 1, -1<<32 - 1, 1 << 62, -1 << 62, -1 << 63, 1<<63 - 1} {
		add(fmt.Sprintf("value %d, properly signed", f), own(g.with("feedback", f)))
	}
	// signers
	out := sc(qr512.Secret().Pick(newPRF(prfKey("outsider"))))
	fsk, _ := fillerSecrets(qr512, 0)
	type signer struct{ name, nym, sk, base string }
	signers := []signer{
		{"another requester", v.dv(2).Nym, v.sk(2), cv.G},
		{"the provider", v.dv(0).Nym, v.sk(0), cv.G},
		{"a participant without assignments", refNym(cv.G, sc(fsk)), sc(fsk), cv.G},
		{"an outsider", refNym(cv.G, out), out, cv.G},
		{"an outsider over the public generator", refPub(out), out, "4"},
		{"the requester's long-term key", v.dv(1).PubKey, sk, "4"},
		{"the requester's long-term key over the round's generator", v.dv(1).PubKey, sk, cv.G},
		{"the requester's pseudonym of the round before", v.staleNym[1], sk, v.staleView.G},
		{"the requester's pseudonym of the round before over this round's generator", v.staleNym[1], sk, cv.G},
		{"the neutral element", "1", "0", cv.G},
		{"the generator", cv.G, "1", cv.G},
		{"a server's key", cv.Servers[0].Comm, v.w.server(v.s, 0).PriKey, "4"},
		{"the coordinator's key", cv.PubKey, cv.PriKey, "4"},
	}
	for _, x := range signers {
		add("signed by "+x.name+" under its own key", signedVote(g.with("nym", util.EncodePoint(pointHex(x.nym))), x.sk, x.base))
		if x.sk != sk || x.base != cv.G {
			add("the requester's pseudonym, signed by "+x.name, signedVote(g, x.sk, x.base))
		}
		if x.nym != v.dv(1).Nym {
			add("the pseudonym of "+x.name+", signed by the requester", own(g.with("nym", util.EncodePoint(pointHex(x.nym)))))
		}
	}
	add("signed by the requester over the public generator", signedVote(g, sk, "4"))
	add("signed by the requester over the generator of the round before", signedVote(g, sk, v.staleView.G))
	// lists of signatures, all properly signed by the requester
	full := sigList(g)
	n := len(full)
	for m := 0; m < 1<<uint(n)-1; m++ {
		var sub, gaps [][]byte
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				sub = append(sub, full[i])
				gaps = append(gaps, full[i])
			} else {
				gaps = append(gaps, nil)
			}
		}
		add(fmt.Sprintf("signatures reduced to the set %b", m), own(withSigs(g, sub)))
		add(fmt.Sprintf("signatures emptied outside the set %b", m), own(withSigs(g, gaps)))
	}
	permutations(n, func(p []int) {
		var q [][]byte
		id := true
		for i, x := range p {
			q = append(q, full[x])
			id = id && i == x
		}
		if !id {
			add(fmt.Sprintf("signatures in the order %v", p), own(withSigs(g, q)))
		}
	})
	other := sigList(v.vote(1, 1, 1))
	for i := 0; i <= n; i++ {
		for _, extra := range [][]byte{full[0], full[n-1], other[0], {}, make([]byte, len(full[0]))} {
			q := append(append(append([][]byte{}, full[:i]...), extra), full[i:]...)
			add(fmt.Sprintf("one more signature at place %d", i), own(withSigs(g, q)))
		}
	}
	a := g.bytes("assignment")
	for i := 0; i < n; i++ {
		for k, s := range map[string][]byte{"of another assignment": other[i], "of zeros": make([]byte, len(full[i])), "by the requester": sign(a, sk, "4"),
			"by the requester over the round's generator": sign(a, sk, cv.G), "by the coordinator": sign(a, cv.PriKey, "4"), "by server 0": sign(a, v.w.server(v.s, 0).PriKey, "4"),
			"cut short": full[i][:len(full[i])-1]} {
			if i == n-1 && k == "by the coordinator" || i == 0 && k == "by server 0" {
				continue
			}
			q := append([][]byte{}, full...)
			q[i] = s
			add(fmt.Sprintf("signature %d %s", i, k), own(withSigs(g, q)))
		}
		for b := 0; b < len(full[i]); b += 7 {
			q := append([][]byte{}, full...)
			q[i] = append([]byte(nil), full[i]...)
			q[i][b] ^= 4
			add(fmt.Sprintf("signature %d with byte %d altered", i, b), own(withSigs(g, q)))
		}
	}
	add("a list of no signatures", own(withSigs(g, [][]byte{})))
	add("twice all signatures", own(withSigs(g, append(append([][]byte{}, full...), full...))))
	// assignments
	outNym := refNym(cv.G, out)
	nyms := []string{v.dv(0).Nym, v.dv(1).Nym, v.dv(2).Nym, outNym, v.staleNym[0], v.staleNym[1], "1"}
	names := []string{"client0", "client1", "client2", "an outsider", "client0 in the round before", "client1 in the round before", "nobody"}
	asg := v.dv(1).Assignments[0]
	for i, nr := range nyms {
		for j, np := range nyms {
			for _, addr := range []string{asg.Addr, "7.7.7.7:7"} {
				if nr == v.dv(1).Nym && np == v.dv(0).Nym && addr == asg.Addr {
					continue
				}
				b := encA(nr, addr, np)
				add(fmt.Sprintf("assignment of %s to %s by %s with the signatures of another", addr, names[i], names[j]), own(g.with("assignment", b)))
				inTable := j <= 2
				if nr != v.dv(1).Nym || !inTable {
					// even if everybody has signed it
					add(fmt.Sprintf("fully signed assignment of %s to %s by %s", addr, names[i], names[j]), own(withSigs(g.with("assignment", b), v.issued(b))))
				}
			}
		}
	}
	for b := 0; b < len(a); b += 5 {
		x := append([]byte(nil), a...)
		x[b] ^= 2
		add(fmt.Sprintf("assignment with byte %d altered, properly signed", b), own(g.with("assignment", x)))
	}
	// another requester's assignment
	o := v.vote(2, 0, 1)
	add("another requester's assignment", own(g.with("assignment", o.bytes("assignment")).with("signatures", o.bytes("signatures"))))
	add("another requester's vote under the own pseudonym", o.with("nym", g["nym"]))
	// stale ones
	st := paramsOf(v.stale["vote"])
	add("a vote of the round before", st)
	add("an assignment of the round before", own(g.with("assignment", st.bytes("assignment")).with("signatures", st.bytes("signatures"))))
	add("a vote of the round before under its pseudonym, newly signed", signedVote(st, sk, cv.G))
	add("a vote of the round before under this round's pseudonym", own(st.with("nym", g["nym"])))
	// not even a vote
	for _, c := range []params{{}, {"nym": g["nym"]}, {"nym": []byte{}, "assignment": []byte{}, "signatures": []byte{}, "feedback": 1, "signature": []byte{}},
		{"nym": nil, "assignment": nil, "signatures": nil, "feedback": nil, "signature": nil}} {
		add(fmt.Sprintf("only %d fields", len(c)), c)
	}
	p := g.clone()
	delete(p, "signature")
	add("unsigned", p)
	return
}

func permutations(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// counts checks that a vote is counted, exactly
func (l *Lab) counts(at *Local, from nodeID, p params, target string, f int, what, key string) *Local {
	d := l.give(at, from, mkEvent(proto.VOTE, from, p))
	l.r.eval(key + ": " + what)
	want := map[string]int{}
	for k, x := range at.View.C.Diff {
		want[k] = x
	}
	want[target] += f
	if want[target] == 0 {
		delete(want, target)
	}
	have := d.View.C.Diff
	rest := *at.View.C
	rest.Diff = have
	switch {
	case d.Crashed != "":
		l.r.find(key+":stops:"+shortKey(what), "the coordinator stops on %s: %s", what, firstLine(d.Crashed))
	case viewJSON(want) != viewJSON(have):
		l.r.find(key+":count:"+shortKey(what), "%s is not counted exactly: pending differences %s become %s", what, viewJSON(at.View.C.Diff), viewJSON(have))
	case viewJSON(rest) != viewJSON(d.View.C):
		l.r.find(key+":besides:"+shortKey(what), "%s changes also %s", what, diffViews(rest, d.View.C))
	}
	return d
}

func voteJobs(th bool) (jobs []Job) {
	jobs = longFieldJobs("C05", th)
	servers := []int{1, 2}
	if th {
		servers = []int{1, 2, 3, 4}
	}
	for _, n := range servers {
		for _, phase := range []string{"posting", "voting"} {
			n, phase := n, phase
			jobs = append(jobs, Job{Name: fmt.Sprintf("invalid votes s%d %s", n, phase), Run: func(r *Result) {
				v := newVoteLab(r, n)
				if phase == "voting" {
					v.op(0, Input{Op: "vote"})
				}
				v.voteAlphabet(v.invalidVotes(), "C05")
			}})
		}
	}
	for _, n := range servers[:1+len(servers)/4] {
		n := n
		jobs = append(jobs, Job{Name: fmt.Sprintf("altered votes s%d", n), Run: func(r *Result) {
			v := newVoteLab(r, n)
			every := 3
			if th {
				every = 1
			}
			g := v.vote(1, 0, 1)
			donors := []params{v.vote(1, 0, -1), v.vote(1, 1, 1), v.vote(2, 0, 1), paramsOf(v.stale["vote"])}
			v.voteAlphabet(tamper(g, donors, voteOrder, every), "C05")
		}})
	}
	for _, n := range servers {
		n := n
		jobs = append(jobs, Job{Name: fmt.Sprintf("genuine votes s%d", n), Run: func(r *Result) {
			v := newVoteLab(r, n)
			// all sequences of genuine votes for the four assignments
			type cast struct{ c, i, f int }
			var all []cast
			for _, a := range [][2]int{{1, 0}, {1, 1}, {0, 0}, {2, 0}} {
				all = append(all, cast{a[0], a[1], 1}, cast{a[0], a[1], -1})
			}
			var rec func(at *Local, used map[[2]int]bool, hist string)
			rec = func(at *Local, used map[[2]int]bool, hist string) {
				if r.late() {
					return
				}
				for _, x := range all {
					k := [2]int{x.c, x.i}
					if used[k] {
						continue
					}
					a := v.dv(x.c).Assignments[x.i]
					h := fmt.Sprintf("%s client%d votes %+d on its assignment %d;", hist, x.c, x.f, x.i)
					d := v.counts(at, cli(x.c), v.vote(x.c, x.i, x.f), a.Nym, x.f, h, "C05")
					if d.Crashed != "" {
						continue
					}
					used[k] = true
					rec(d, used, h)
					delete(used, k)
				}
			}
			rec(v.coord(), map[[2]int]bool{}, "")
		}})
	}
	return
}

var voteOrder = []string{"nym", "assignment", "signatures"}

// voteAlphabet tries every message alone, then all of them in a chain followed by
// the genuine votes and the end of the round
func (v *voteLab) voteAlphabet(alpha []labelled, key string) {
	at := v.coord()
	for _, c := range alpha {
		if v.r.late() {
			return
		}
		v.refuses(at, cli(1), proto.VOTE, c, key)
	}
	if len(v.r.Findings) > 0 {
		return
	}
	// in a chain
	f := &voteLab{Lab: v.Lab.fork()}
	for _, c := range alpha {
		d := f.give(f.coord(), cli(1), mkEvent(proto.VOTE, cli(1), c.p))
		if d.Crashed != "" || viewJSON(d.View.C) != viewJSON(f.cv()) {
			v.r.find(key+":chain:"+shortKey(c.label), "after other refused votes, a vote with %s stops the coordinator or counts", c.label)
			return
		}
		f.put(d)
	}
	want := map[int]int{}
	for _, x := range [][3]int{{1, 0, 1}, {1, 1, 1}, {0, 0, -1}, {2, 0, 1}} {
		a := f.dv(x[0]).Assignments[x[1]]
		f.put(f.counts(f.coord(), cli(x[0]), f.vote(x[0], x[1], x[2]), a.Nym, x[2], fmt.Sprintf("client%d's genuine vote after all refused ones", x[0]), key))
		for i := 0; i < 3; i++ {
			if f.dv(i).Nym == a.Nym {
				want[i] += x[2]
			}
		}
	}
	before := [3]int{f.dv(0).Reputation, f.dv(1).Reputation, f.dv(2).Reputation}
	f.endRound()
	for i := 0; i < 3; i++ {
		d := f.dv(i)
		if d.Reputation != before[i]+want[i] {
			v.r.find(key+":roundend", "client%d's reputation goes from %d to %d, its votes say %+d", i, before[i], d.Reputation, want[i])
		}
		if d.PCommr != refCommit(d.GT, d.HT, int64(d.Reputation), d.R) {
			v.r.find(key+":roundend commitment", "client%d's commitment does not open to %d after the round", i, d.Reputation)
		}
	}
	v.r.eval("the end of the round after all refused votes")
}

// ------------------------------------------------------------------ C06

func voteSeqJobs(th bool) (jobs []Job) {
	type conf struct{ servers, depth int }
	confs := []conf{{1, 4}, {2, 3}}
	if th {
		confs = []conf{{1, 6}, {2, 5}, {3, 4}}
	}
	parts := 8
	for _, c := range confs {
		for part := 0; part < parts; part++ {
			c, part := c, part
			jobs = append(jobs, Job{Name: fmt.Sprintf("sequences s%d depth %d part %d", c.servers, c.depth, part), Run: func(r *Result) {
				voteSequences(r, c.servers, c.depth, part, parts)
			}})
		}
	}
	return
}

type voteMsg struct {
	name   string
	from   nodeID
	p      params
	id     string // assignment, "" when the message must never count
	target string
	f      int
}

func (v *voteLab) voteMsgs() []voteMsg {
	cv := v.cv()
	mk := func(name string, c, i, f int, again bool) voteMsg {
		a := v.dv(c).Assignments[i]
		p := v.vote(c, i, f)
		if again { // the same vote, signed once more
			p = signedVote(p.with("again", 1), v.sk(c), cv.G)
			delete(p, "again")
			p["signature"] = util.ElGamalSign(qr512, newPRF(prfKey("again", name)), bridge.MessageOfVote(p), secretHex(v.sk(c)), pointHex(cv.G))
		}
		return voteMsg{name, cli(c), p, a.Assignment, a.Nym, f}
	}
	l := []voteMsg{
		mk("a+", 1, 0, 1, false), mk("a-", 1, 0, -1, false), mk("a+ signed again", 1, 0, 1, true), mk("a- signed again", 1, 0, -1, true),
		mk("b+", 1, 1, 1, false), mk("b-", 1, 1, -1, false), mk("c+", 0, 0, 1, false), mk("d-", 2, 0, -1, false),
	}
	x := mk("a+2", 1, 0, 1, false)
	x.p, x.id = signedVote(x.p.with("feedback", 2), v.sk(1), cv.G), ""
	l = append(l, x)
	x = mk("a+ by another requester", 1, 0, 1, false)
	x.p, x.id = signedVote(x.p.with("nym", util.EncodePoint(pointHex(v.dv(2).Nym))), v.sk(2), cv.G), ""
	l = append(l, x)
	// the same assignment, encoded with something unknown behind it
	x = mk("a+ with a re-encoded assignment", 1, 0, 1, false)
	b := append(append([]byte{}, x.p.bytes("assignment")...), 0x78, 0x01)
	x.p, x.id = signedVote(x.p.with("assignment", b), v.sk(1), cv.G), ""
	l = append(l, x)
	l = append(l, voteMsg{name: "a vote of the round before", from: cli(1), p: paramsOf(v.stale["vote"])})
	return l
}

func voteSequences(r *Result, servers, depth, part, parts int) {
	v := newVoteLab(r, servers)
	msgs := v.voteMsgs()
	type st struct {
		at     *Local
		phase  int
		counts map[string]int
		voted  map[string]bool
		hist   string
		depth  int
	}
	seen := map[string]bool{}
	ended := map[string]bool{}
	var rec func(s st)
	rec = func(s st) {
		if r.late() {
			return
		}
		// the round may end here
		k := fmt.Sprint(s.counts)
		if !ended[k] && s.phase == 1 {
			ended[k] = true
			v.endAndReplay(s.at, msgs, s.counts, s.hist)
		}
		if s.depth == depth {
			return
		}
		for i, m := range msgs {
			if s.depth == 0 && i%parts != part {
				continue
			}
			d := v.give(s.at, m.from, mkEvent(proto.VOTE, m.from, m.p))
			r.Transitions++
			h := s.hist + " " + m.name + ";"
			c, vd := s.counts, s.voted
			if m.id != "" && !s.voted[m.id] {
				c, vd = map[string]int{}, map[string]bool{m.id: true}
				for k, x := range s.counts {
					c[k] = x
				}
				for k := range s.voted {
					vd[k] = true
				}
				if c[m.target] += m.f; c[m.target] == 0 {
					delete(c, m.target)
				}
			}
			if d.Crashed != "" {
				r.find("C06:stops", "the coordinator stops after the votes%s %s", h, firstLine(d.Crashed))
				continue
			}
			if viewJSON(d.View.C.Diff) != viewJSON(c) || d.View.C.DiffOther != 0 {
				r.find("C06:count:"+shortKey(h), "after the votes%s the pending differences are %s, at most one vote per assignment gives %s", h, viewJSON(d.View.C.Diff), viewJSON(c))
				continue
			}
			key := fmt.Sprintf("%d/%x", s.phase, d.Hist)
			if seen[key] {
				continue
			}
			seen[key] = true
			r.States++
			r.eval("")
			if r.States%512 == 1 && len(r.Samples) < 8 {
				r.Samples = append(r.Samples, h)
			}
			rec(st{d, s.phase, c, vd, h, s.depth + 1})
		}
		if s.phase == 0 {
			d := v.w.e.step(s.at, Input{Op: "vote"})
			r.Transitions++
			r.States++
			rec(st{d, 1, s.counts, s.voted, s.hist + " voting phase;", s.depth})
		}
	}
	rec(st{v.coord(), 0, map[string]int{}, map[string]bool{}, "", 0})
	// the longest histories again on processes of their own
	r.Traces += v.replayVotes(msgs, part, depth)
}

// endAndReplay ends the round, checks the reputations, replays every vote in the
// next round and votes anew there
func (v *voteLab) endAndReplay(at *Local, msgs []voteMsg, counts map[string]int, hist string) {
	f := &voteLab{Lab: v.Lab.fork()}
	f.put(&Local{ID: at.ID, Node: 0, View: at.View})
	var nym [3]string
	var rep [3]int
	for i := range nym {
		nym[i], rep[i] = f.dv(i).Nym, f.dv(i).Reputation
	}
	f.op(0, Input{Op: "roundend"})
	replay := func(when string) bool {
		for _, m := range msgs {
			d := f.give(f.coord(), m.from, mkEvent(proto.VOTE, m.from, m.p))
			v.r.Transitions++
			if d.Crashed != "" || viewJSON(d.View.C) != viewJSON(f.cv()) {
				v.r.find("C06:replay:"+shortKey(m.name), "after%s the vote %s is replayed %s: the coordinator stops or changes %s (%s)", hist, m.name, when, diffViews(f.cv(), d.View.C), d.Crashed)
				return false
			}
			f.put(d)
		}
		return true
	}
	if !replay("after the end of the round") {
		return
	}
	f.op(0, Input{Op: "clear"})
	if !replay("between the rounds") {
		return
	}
	f.op(0, Input{Op: "announce"})
	for i := range nym {
		if d := f.dv(i); d.Reputation != rep[i]+counts[nym[i]] {
			v.r.find("C06:roundend", "after%s client%d's reputation goes from %d to %d, one vote per assignment gives %+d", hist, i, rep[i], d.Reputation, counts[nym[i]])
			return
		}
	}
	if !replay("in the next round") {
		return
	}
	// the same address, assigned anew, may be voted on anew, once
	f.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
	f.op(cli(1), Input{Op: "request", I: 1})
	expect(len(f.dv(1).Assignments) == 1, "after votes%s a request in the next round gets %d assignments", hist, len(f.dv(1).Assignments))
	a := f.dv(1).Assignments[0]
	d := f.counts(f.coord(), cli(1), f.vote(1, 0, -1), a.Nym, -1, "a vote on the same address in the next round", "C06")
	if d.Crashed == "" {
		e := f.give(d, cli(1), mkEvent(proto.VOTE, cli(1), f.vote(1, 0, 1)))
		if e.Crashed != "" || viewJSON(e.View.C) != viewJSON(d.View.C) {
			v.r.find("C06:next round", "a second vote on the same assignment counts in the next round")
		}
	}
	v.r.States++
}

// replayVotes runs one long sequence on a coordinator process
func (v *voteLab) replayVotes(msgs []voteMsg, part, depth int) int {
	path := v.coord().path()
	e := newEngine()
	e.proc = true
	defer e.close()
	a := e.initial(0)
	for _, l := range path {
		a = e.step(a, Input{Op: l.In.Op, I: l.In.I, J: l.In.J, S: l.In.S, Offset: l.In.Offset, Msg: l.In.Msg})
	}
	b := v.coord()
	for i := 0; i < depth; i++ {
		m := msgs[(part*3+i*5)%len(msgs)]
		x := v.w.e.addMsg(m.from, 0, mkEvent(proto.VOTE, m.from, m.p))
		a, b = e.step(a, Input{Msg: x}), v.w.e.step(b, Input{Msg: x})
		if viewJSON(a.View) != viewJSON(b.View) || a.Crashed != b.Crashed {
			v.r.Diverged++
			return 0
		}
	}
	return 1
}

// ------------------------------------------------------------------ C07

var postOrder = []string{"bridge_addr", "nym"}

func signedPost(addr, nym, sk, base string) params {
	p := params{"bridge_addr": addr, "nym": util.EncodePoint(pointHex(nym))}
	return p.with("signature", sign(bridge.MessageOfPostBridge(p), sk, base))
}

// records checks that a post is recorded, exactly
func (l *Lab) records(at *Local, from nodeID, p params, addr, nym, what, key string) *Local {
	d := l.give(at, from, mkEvent(proto.POST_BRIDGE, from, p))
	l.r.eval(key + ": " + what)
	want := *at.View.C
	want.Bridges = map[string]BridgeView{}
	for k, b := range at.View.C.Bridges {
		want.Bridges[k] = b
	}
	want.Bridges[addr] = BridgeView{Nym: nym}
	switch {
	case d.Crashed != "":
		l.r.find(key+":stops:"+shortKey(what), "the coordinator stops on %s: %s", what, firstLine(d.Crashed))
	case viewJSON(want) != viewJSON(d.View.C):
		l.r.find(key+":record:"+shortKey(what), "%s is not recorded exactly: %s differ", what, diffViews(want, d.View.C))
	}
	return d
}

var addresses = []string{"1.2.3.4:5", "", "a", "[::1]:80", "obfs4 1.2.3.4:443 cert=abc iat-mode=0", "ends in zero\x00", "ends in zeros\x00\x00\x00", "\x00", "\x00\x00begins in zeros", "no\ttext\x80\xff", "ünïcode", "1.2.3.4:50", "1.2.3.4:5 "}

func postJobs(th bool) (jobs []Job) {
	jobs = longFieldJobs("C07", th)
	every := 2
	if th {
		every = 1
	}
	// altered posts, for each address
	addrs := addresses
	if !th {
		addrs = []string{addresses[0], addresses[6], addresses[1], addresses[4]}
	}
	for i, addr := range addrs {
		addr := addr
		jobs = append(jobs, Job{Name: fmt.Sprintf("altered posts %d %q", i, addr), Run: func(r *Result) {
			l := newLab(r, 1, 3, 1)
			stale := paramsOf(l.grab(cli(0), Input{Op: "post", S: addr}))
			l.endRound()
			get := func(c int, a string) params { return paramsOf(l.grab(cli(c), Input{Op: "post", S: a})) }
			g := get(0, addr)
			donors := []params{get(0, "6.6.6.6:6"), get(1, addr), get(1, "6.6.6.6:6"), stale}
			l.postAlphabet(tamper(g, donors, postOrder, every), g, addr)
		}})
	}
	jobs = append(jobs, Job{Name: "forged posts", Run: func(r *Result) {
		l := newLab(r, 2, 3, 2)
		old := l.cv()
		var oldNym []string
		for i := 0; i < 3; i++ {
			oldNym = append(oldNym, l.dv(i).Nym)
		}
		var alpha []labelled
		for _, a := range addresses {
			alpha = append(alpha, labelled{fmt.Sprintf("a post of %q of the round before", a), paramsOf(l.grab(cli(0), Input{Op: "post", S: a}))})
		}
		l.endRound()
		cv := l.cv()
		out := sc(qr512.Secret().Pick(newPRF(prfKey("outsider"))))
		type signer struct{ name, nym, sk, base string }
		var ss []signer
		for i := 0; i < 3; i++ {
			d := l.dv(i)
			n := fmt.Sprintf("client%d's ", i)
			ss = append(ss, signer{n + "pseudonym", d.Nym, d.PriKey, cv.G}, signer{n + "long-term key", d.PubKey, d.PriKey, "4"},
				signer{n + "pseudonym of the round before", oldNym[i], d.PriKey, old.G})
		}
		ss = append(ss, signer{"an outsider's key over the round's generator", refNym(cv.G, out), out, cv.G}, signer{"an outsider's key", refPub(out), out, "4"},
			signer{"the neutral element", "1", "0", cv.G}, signer{"the generator", cv.G, "1", cv.G}, signer{"the public generator", "4", "1", "4"},
			signer{"the coordinator's key", cv.PubKey, cv.PriKey, "4"}, signer{"a server's key", cv.Servers[0].Comm, l.w.server(l.s, 0).PriKey, "4"})
		for i := 0; i < 2; i++ {
			sk, _ := fillerSecrets(qr512, i)
			ss = append(ss, signer{fmt.Sprintf("participant %d's pseudonym", i), refNym(cv.G, sc(sk)), sc(sk), cv.G})
		}
		genuine := func(x, y signer) bool {
			for _, e := range cv.End {
				if e.Key == x.nym && x.sk == y.sk && y.base == cv.G {
					return true
				}
			}
			return false
		}
		// every pseudonym with every signer, over every generator
		for _, x := range ss {
			for _, y := range ss {
				for _, base := range []string{cv.G, old.G, "4"} {
					y.base = base
					if !genuine(x, y) {
						alpha = append(alpha, labelled{fmt.Sprintf("%s, signed by %s over %s", x.name, y.name, baseName(base, cv, old)), signedPost("5.5.5.5:5", x.nym, y.sk, base)})
					}
				}
			}
		}
		l.postAlphabet(alpha, paramsOf(l.grab(cli(0), Input{Op: "post", S: "5.5.5.5:5"})), "5.5.5.5:5")
		// genuine ones, by everybody in the table, in a chain
		for _, a := range addresses {
			for i, x := range ss {
				if !genuine(x, signer{x.name, x.nym, x.sk, cv.G}) {
					continue
				}
				addr := fmt.Sprintf("%d%s", i, a)
				d := l.records(l.coord(), cli(0), signedPost(addr, x.nym, x.sk, cv.G), addr, x.nym, fmt.Sprintf("a post of %q by %s", addr, x.name), "C07")
				if d.Crashed == "" {
					l.put(d)
				}
			}
		}
	}})
	jobs = append(jobs, Job{Name: "posts in every phase", Run: func(r *Result) {
		// a client that joins during the round, and posts in every state of the round
		e := newEngine()
		w := newWorld(e, 2, 3)
		l := &Lab{w: w, s: w.members(1, 2), r: r}
		join := l.fork()
		join.op(cli(2), Input{Op: "register"})
		d := join.dv(2)
		g := paramsOf(join.grab(cli(2), Input{Op: "post", S: "5.5.5.5:5"}))
		join.refuses(join.coord(), cli(2), proto.POST_BRIDGE, labelled{"the pseudonym of a client which joined in this round", g}, "C07")
		_ = d
		at := l.fork()
		p := paramsOf(at.grab(cli(0), Input{Op: "post", S: "5.5.5.5:5"}))
		nym := at.dv(0).Nym
		at.records(at.coord(), cli(0), p, "5.5.5.5:5", nym, "a post in the posting phase", "C07")
		// from the end of the round on, after every single step
		s := at.s
		for _, o := range []string{"vote", "roundend", "clear", "announce"} {
			s = w.do(s, Action{Kind: "op", Node: 0, Op: o})
			for {
				if o != "vote" && !w.crashed(s, 0) {
					c := w.local(s, 0)
					l.refuses(c, cli(0), proto.POST_BRIDGE, labelled{fmt.Sprintf("the pseudonym of the round before, after %s and %s", o, c.In), p}, "C07")
				}
				a, ok := w.firstInflight(s)
				if !ok {
					break
				}
				s = w.do(s, a)
			}
		}
	}})
	jobs = append(jobs, Job{Name: "a pseudonym with a leading zero", Run: func(r *Result) {
		l := newLab(r, 1, 1, 7)
		for round := 0; round < 120 && !r.late(); round++ {
			cv := l.cv()
			sks := []string{l.dv(0).PriKey}
			for i := 0; i < 7; i++ {
				sk, _ := fillerSecrets(qr512, i)
				sks = append(sks, sc(sk))
			}
			for _, sk := range sks {
				nym := refNym(cv.G, sk)
				if len(nym) > 126 {
					continue
				}
				g := signedPost("5.5.5.5:5", nym, sk, cv.G)
				l.postAlphabet(tamper(g, nil, postOrder, 1), g, "5.5.5.5:5")
				return
			}
			l.endRound()
		}
		r.Notes = append(r.Notes, "no pseudonym with a leading zero came up")
	}})
	return
}

func baseName(b string, now, old *CoordView) string {
	switch b {
	case now.G:
		return "the round's generator"
	case old.G:
		return "the generator of the round before"
	}
	return "the public generator"
}

func (l *Lab) postAlphabet(alpha []labelled, g params, addr string) {
	at := l.coord()
	for _, c := range alpha {
		if l.r.late() {
			return
		}
		l.refuses(at, cli(0), proto.POST_BRIDGE, c, "C07")
	}
	if len(l.r.Findings) > 0 {
		return
	}
	nym := fmt.Sprintf("%x", g.bytes("nym"))
	for len(nym) > 1 && nym[0] == '0' {
		nym = nym[1:]
	}
	f := l.fork()
	for _, c := range alpha {
		d := f.give(f.coord(), cli(0), mkEvent(proto.POST_BRIDGE, cli(0), c.p))
		if d.Crashed != "" || viewJSON(d.View.C) != viewJSON(f.cv()) {
			l.r.find("C07:chain:"+shortKey(c.label), "after other refused posts, a post with %s stops the coordinator or is recorded", c.label)
			return
		}
		f.put(d)
	}
	f.records(f.coord(), cli(0), g, addr, nym, fmt.Sprintf("the genuine post of %q after all refused ones", addr), "C07")
	// and first
	d := l.records(at, cli(0), g, addr, nym, fmt.Sprintf("the genuine post of %q", addr), "C07")
	if d.Crashed != "" {
		return
	}
	for i, c := range alpha {
		if i%7 == 0 {
			l.refuses(d, cli(0), proto.POST_BRIDGE, c, "C07")
		}
	}
}

// ------------------------------------------------------------------ C22

var requestOrder = []string{"ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}
var bundleOrder = []string{"assignment", "signatures"}

func bindJobs(th bool) (jobs []Job) {
	jobs = longFieldJobs("C22", th)
	ev := func(q int) int {
		if th {
			return 1
		}
		return q
	}
	jobs = append(jobs, Job{Name: "post", Run: func(r *Result) {
		l := newLab(r, 1, 3, 1)
		stale := paramsOf(l.grab(cli(0), Input{Op: "post", S: "1.1.1.1:1\x00"}))
		l.endRound()
		get := func(c int, a string) params { return paramsOf(l.grab(cli(c), Input{Op: "post", S: a})) }
		for _, addr := range []string{"1.1.1.1:1\x00", "1.1.1.1:1"} {
			g := get(0, addr)
			for _, c := range tamper(g, []params{get(0, "6.6.6.6:6"), get(1, addr), get(1, "6.6.6.6:6"), stale}, postOrder, ev(1)) {
				l.refuses(l.coord(), cli(0), proto.POST_BRIDGE, c, "C22")
			}
			l.records(l.coord(), cli(0), g, addr, l.dv(0).Nym, "the unaltered post", "C22")
		}
	}})
	parts := 4
	for part := 0; part < parts; part++ {
		part := part
		jobs = append(jobs, Job{Name: fmt.Sprintf("vote part %d", part), Run: func(r *Result) {
			v := newVoteLab(r, 2)
			g := v.vote(1, 0, 1)
			if part%2 == 1 {
				g = v.vote(1, 0, -1)
			}
			donors := []params{v.vote(1, 0, -1), v.vote(1, 0, 1), v.vote(1, 1, 1), v.vote(2, 0, 1), paramsOf(v.stale["vote"])}
			for i, c := range tamper(g, donors, voteOrder, ev(1)) {
				if i%parts/2 == part/2 {
					v.refuses(v.coord(), cli(1), proto.VOTE, c, "C22")
				}
			}
			v.counts(v.coord(), cli(1), g, v.dv(1).Assignments[0].Nym, g["feedback"].(int), "the unaltered vote", "C22")
		}})
		jobs = append(jobs, Job{Name: fmt.Sprintf("request part %d", part), Run: func(r *Result) {
			l := newLab(r, 2, 3, 1)
			l.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
			l.op(cli(0), Input{Op: "post", S: "2.2.2.2:2"})
			stale := paramsOf(l.grab(cli(1), Input{Op: "request", I: 1}))
			l.endRound()
			l.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
			l.op(cli(0), Input{Op: "post", S: "2.2.2.2:2"})
			get := func(c, i int) params { return paramsOf(l.grab(cli(c), Input{Op: "request", I: i})) }
			g := get(1, 1)
			second := get(1, 1)
			_ = second
			for i, c := range tamper(g, []params{get(1, 2), get(1, 0), get(2, 1), stale}, requestOrder, ev(3)) {
				if i%parts == part && !r.late() {
					l.refuses(l.coord(), cli(1), proto.REQUEST_BRIDGES, c, "C22")
				}
			}
			d := l.give(l.coord(), cli(1), mkEvent(proto.REQUEST_BRIDGES, cli(1), g))
			r.eval("C22: the unaltered request")
			if d.Crashed != "" || len(d.Outs) != 2 {
				r.find("C22:request", "the unaltered request is not accepted: %s, %d messages to servers", d.Crashed, len(d.Outs))
			}
		}})
	}
	jobs = append(jobs, Job{Name: "bundle", Run: func(r *Result) {
		l := newLab(r, 2, 3, 1)
		l.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
		stale := paramsOf(bundleFor(l, cli(1)))
		l.endRound()
		l.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
		g := paramsOf(bundleFor(l, cli(1)))
		other := paramsOf(bundleFor(l, cli(2)))
		f := l.fork()
		f.op(cli(1), Input{Op: "request", I: 1})
		f.op(cli(0), Input{Op: "post", S: "2.2.2.2:2"})
		second := paramsOf(bundleFor(f, cli(1)))
		c := l.w.local(l.s, cli(1))
		for _, x := range tamper(g, []params{second, other, stale}, bundleOrder, ev(1)) {
			l.refuses(c, 0, proto.GOT_SIGNS, x, "C22")
		}
		// signed by somebody else
		for i, sk := range []string{l.w.server(l.s, 0).PriKey, l.dv(1).PriKey, l.dv(2).PriKey} {
			for _, base := range []string{"4", l.cv().G} {
				l.refuses(c, 0, proto.GOT_SIGNS, labelled{fmt.Sprintf("the signature of somebody else (%d)", i), g.with("signature", sign(bridge.MessageOfGotSignatures(g), sk, base))}, "C22")
			}
		}
		d := l.give(c, 0, mkEvent(proto.GOT_SIGNS, 0, g))
		r.eval("C22: the unaltered bundle")
		if d.Crashed != "" || len(d.View.D.Assignments) != 1 {
			r.find("C22:bundle", "the unaltered bundle is not accepted: %s", d.Crashed)
		}
	}})
	return
}

// bundleFor is what the coordinator answers a request with, kept back
func bundleFor(l *Lab, c nodeID) []byte {
	f := l.fork()
	s := f.w.do(f.s, Action{Kind: "op", Node: c, Op: "request", I: 1})
	for {
		a, ok := f.w.firstInflight(s)
		if !ok {
			panic(harnessCrash{"an ordinary request is not answered"})
		}
		if a.Kind == "emit" {
			if m := f.w.e.msgs[s.out[f.w.idx[a.Node]][0]]; m.Type == proto.GOT_SIGNS && m.To == c {
				return m.Bytes
			}
		}
		s = f.w.do(s, a)
	}
}

// longFields: addresses, and with them assignments and bundles, of many lengths
func longFields(id string, lengths []int) Job {
	return Job{Name: fmt.Sprintf("long fields %v", lengths), Run: func(r *Result) {
		for _, n := range lengths {
			if r.late() {
				return
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = "aB3cD.5eF:7gHi9jK-1lM"[(i*i+i/21+n)%21]
			}
			addr := string(b)
			every := n/24 + 1
			l := newLab(r, 1, 2, 1)
			stale := paramsOf(l.grab(cli(0), Input{Op: "post", S: addr}))
			l.endRound()
			g := paramsOf(l.grab(cli(0), Input{Op: "post", S: addr}))
			if id != "C05" {
				for _, c := range tamper(g, []params{paramsOf(l.grab(cli(1), Input{Op: "post", S: addr})), stale}, postOrder, every) {
					l.refuses(l.coord(), cli(0), proto.POST_BRIDGE, c, id)
				}
				l.records(l.coord(), cli(0), g, addr, l.dv(0).Nym, fmt.Sprintf("a post of %d characters", n), id)
			}
			if id == "C07" {
				continue
			}
			l.op(cli(0), Input{Op: "post", S: addr})
			if id == "C22" {
				g := paramsOf(bundleFor(l, cli(1)))
				for _, x := range tamper(g, nil, bundleOrder, every*4) {
					l.refuses(l.w.local(l.s, cli(1)), 0, proto.GOT_SIGNS, x, id)
				}
			}
			l.op(cli(1), Input{Op: "request", I: 1})
			if as := l.dv(1).Assignments; len(as) != 1 || as[0].Addr != addr {
				r.find(id+":long:assignment", "the only bridge, whose address has %d characters, does not reach its requester: %d assignments", n, len(as))
				continue
			}
			for _, f := range []int{1, -1} {
				g := paramsOf(l.grab(cli(1), Input{Op: "castvote", I: 0, J: f}))
				for _, c := range tamper(g, nil, voteOrder, every*4) {
					l.refuses(l.coord(), cli(1), proto.VOTE, c, id)
				}
				l.counts(l.coord(), cli(1), g, l.dv(0).Nym, f, fmt.Sprintf("a vote for a bridge with an address of %d characters", n), id)
			}
		}
	}}
}

func longFieldJobs(id string, th bool) (jobs []Job) {
	for _, l := range [][]int{{63, 64, 65, 250}, {127, 128, 255, 256}, {500, 512, 1000, 1024}, {4096, 9000}} {
		jobs = append(jobs, longFields(id, l))
	}
	if th {
		jobs = append(jobs, longFields(id, []int{2048, 3000, 5000}), longFields(id, []int{16000, 32768}), longFields(id, []int{65535, 70000}))
	}
	return
}
