package main

// C04: reputation figures, votes and commitments agree.

import (
	"fmt"
	"strings"

	"zRep/cmd/bridge"
	"zRep/proto"
)

func init() {
	register(&Prop{ID: "C04", Level: "model_checking", Budget: 85,
		Rule:   "states are tuples of node states, outboxes and inboxes: every order of votes, posts, requests and registrations with the end of the round and the next announcement; and the tree of all histories of rounds with every vector of votes, up to equal reputations beyond a depth",
		Assume: protocolAssumptions, Jobs: reputationJobs})
}

// countedVotes follows the coordinator through a round: what its pending differences
// have to be when the round is closed
func countedVotes(w *World, r *roundRec) (map[string]int, *Local, string) {
	want := map[string]int{}
	voted := map[string]bool{}
	inTable := map[string]bool{}
	for _, e := range r.opened.View.C.End {
		inTable[e.Key] = true
	}
	prev := r.opened
	for _, l := range r.steps {
		if l.In.Op == "roundend" {
			return want, prev, ""
		}
		if inType(l) == proto.VOTE {
			p := l.In.Msg.event().Params
			b, _ := p["assignment"].([]byte)
			f, _ := p["feedback"].(int)
			a := bridge.DecodeAssignment(b)
			if k := string(b); inTable[pt(a.NymR)] && inTable[pt(a.Nym)] && !voted[k] {
				voted[k] = true
				want[pt(a.Nym)] += f
			}
		}
		for k := range want {
			if want[k] == 0 {
				delete(want, k)
			}
		}
		if viewJSON(want) != viewJSON(l.View.C.Diff) {
			return want, prev, fmt.Sprintf("after %s the pending differences are %s, the votes say %s", l.In, viewJSON(l.View.C.Diff), viewJSON(want))
		}
		prev = l
	}
	return want, nil, ""
}

func checkReputations(w *World, s *GState) string {
	c := w.local(s, 0)
	rs := roundsOf(c)
	sum := map[string]int{} // by secret key
	for k, r := range rs {
		where := fmt.Sprintf("announcement %d", k+1)
		comm := entryMap(r.opened.View.C.End)
		for _, n := range w.nodes {
			m := r.finalize[n]
			if n.kind() != kClient || m == nil {
				continue
			}
			at := handledAt(w.local(s, n), m, r.opened)
			if at == nil {
				return fmt.Sprintf("%s: %s never handles it", where, n)
			}
			x := at.View.D
			w.outcomes["reputations compared"]++
			w.outcomes[fmt.Sprintf("reputation %d", x.Reputation)]++
			if x.Reputation != 5+sum[x.PriKey] {
				return fmt.Sprintf("%s: %s's reputation is %d, the starting credit and its counted votes give %d", where, n, x.Reputation, 5+sum[x.PriKey])
			}
			if x.PCommr != comm[x.Nym] {
				return fmt.Sprintf("%s: %s holds another commitment than the published table", where, n)
			}
			if x.PCommr != refCommit(x.GT, x.HT, int64(x.Reputation), x.R) {
				return fmt.Sprintf("%s: the published commitment of %s does not open to %d", where, n, x.Reputation)
			}
		}
		counted, before, d := countedVotes(w, r)
		if d != "" {
			return fmt.Sprintf("round %d: %s", k+1, d)
		}
		if before == nil {
			continue
		}
		// nothing changes once the round is closed
		closed := false
		for _, l := range r.steps {
			if l.In.Op == "roundend" {
				closed = true
			}
			if closed && viewJSON(l.View.C.Diff) != viewJSON(counted) {
				return fmt.Sprintf("round %d: the pending differences change from %s to %s after the round has been closed, on %s", k+1, viewJSON(counted), viewJSON(l.View.C.Diff), l.In)
			}
		}
		g := r.opened.View.C.G
		for _, n := range w.nodes {
			if n.kind() == kClient {
				sk := w.local(s, n).View.D.PriKey
				sum[sk] += counted[refNym(g, sk)]
			}
		}
		w.outcomes["votes counted"] += len(counted)
	}
	return ""
}

func reputationJobs(th bool) (jobs []Job) {
	add := func(sc *Scenario) {
		sc.Key = "C04"
		jobs = append(jobs, sc.job())
	}
	mainOps := func(rounds int) Thread {
		t := Thread{Name: "the coordinator's main loop"}
		for i := 0; i < rounds; i++ {
			t.Ops = append(t.Ops, Op{0, Input{Op: "vote"}, messageGuard}, Op{0, Input{Op: "roundend"}, nil},
				Op{0, Input{Op: "clear"}, readyGuard}, Op{0, Input{Op: "announce"}, nil})
		}
		return t
	}
	// castvotes of a client; the main loop waits for them before place k
	votes := func(w *World, c int, ops []Input, k int) {
		th := Thread{Name: fmt.Sprintf("client%d", c)}
		for _, in := range ops {
			in := in
			th.Ops = append(th.Ops, Op{cli(c), in, nil})
		}
		w.threads = append(w.threads, th)
		t := len(w.threads) - 1
		old := w.threads[0].Ops[k].Guard
		w.threads[0].Ops[k].Guard = func(w *World, s *GState) bool {
			return int(s.pc[t]) == len(w.threads[t].Ops) && (old == nil || old(w, s))
		}
	}
	setup := func(w *World, fillers, clients int) {
		w.members(fillers, clients)
		s := w.init
		for _, o := range []struct {
			n  nodeID
			in Input
		}{{cli(0), Input{Op: "post", S: "1.1.1.1:1"}}, {cli(0), Input{Op: "post", S: "2.2.2.2:2"}}, {cli(1), Input{Op: "request", I: 2}},
			{cli(1), Input{Op: "post", S: "3.3.3.3:3"}}, {cli(0), Input{Op: "request", I: 1}}} {
			s = w.opQuiet(s, o.n, o.in, &w.prefix)
		}
		expect(len(w.client(s, 1).Assignments) == 2 && len(w.client(s, 0).Assignments) == 1, "requests are not served: %d and %d assignments", len(w.client(s, 1).Assignments), len(w.client(s, 0).Assignments))
		w.init = s
	}
	type conf struct {
		servers, fillers int
		a, b             []Input // of client1 and client0
		wait             int
	}
	v := func(i, f int) Input { return Input{Op: "castvote", I: i, J: f} }
	confs := []conf{
		{1, 0, []Input{v(0, 1), v(1, 1)}, nil, 3},
		{1, 0, []Input{v(0, -1), v(0, 1)}, []Input{v(0, -1)}, 3},
		{2, 0, []Input{v(0, -1)}, []Input{v(0, 1)}, 3},
		{2, 1, []Input{v(0, 1), v(1, -1), v(0, 1)}, nil, 3},
		{1, 1, []Input{v(0, -1), {Op: "post", S: "4.4.4.4:4"}, {Op: "request", I: 1}}, nil, 3},
	}
	if th {
		confs = append(confs, conf{3, 1, []Input{v(0, 1), v(1, 1)}, []Input{v(0, -1)}, 3}, conf{2, 0, []Input{v(0, 1), v(1, -1)}, []Input{v(0, 1), {Op: "request", I: 1}}, 3})
	}
	for _, c := range confs {
		c := c
		var l []string
		for _, in := range append(append([]Input{}, c.a...), c.b...) {
			l = append(l, fmt.Sprintf("%s %d %+d", in.Op, in.I, in.J))
		}
		add(&Scenario{Name: fmt.Sprintf("votes around the end s%d f%d: %s", c.servers, c.fillers, strings.Join(l, ", ")), Servers: c.servers, Clients: 2, Build: func(w *World) {
			setup(w, c.fillers, 2)
			w.threads = []Thread{mainOps(1)}
			votes(w, 1, c.a, c.wait)
			if c.b != nil {
				votes(w, 0, c.b, c.wait)
			}
			w.terminal = checkReputations
		}})
	}
	// a client that joins while votes and the end of the round are under way
	for _, at := range []int{0, 1, 2, 3} {
		at := at
		add(&Scenario{Name: fmt.Sprintf("votes and a joiner at %d", at), Servers: 1, Clients: 3, Build: func(w *World) {
			setup(w, 0, 2)
			w.threads = []Thread{mainOps(1)}
			votes(w, 1, []Input{v(0, 1)}, 3)
			addJoiners(w, []int{2}, []int{at})
			w.terminal = checkReputations
		}})
	}
	// histories
	type hist struct{ servers, fillers, full, depth int }
	hs := []hist{{1, 0, 1, 3}, {2, 1, 1, 2}}
	if th {
		hs = []hist{{1, 0, 3, 8}, {2, 1, 2, 6}, {3, 0, 2, 4}}
	}
	for _, h := range hs {
		parts := 6
		for part := 0; part < parts; part++ {
			h, part := h, part
			jobs = append(jobs, Job{Name: fmt.Sprintf("histories s%d f%d depth %d part %d", h.servers, h.fillers, h.depth, part), Run: func(r *Result) {
				e := newEngine()
				w := newWorld(e, h.servers, 3)
				w.members(h.fillers, 2)
				x := &histories{w: w, r: r, key: "C04", check: checkReputations, full: h.full, depth: h.depth, part: part, parts: parts, seen: map[string]bool{}}
				x.run()
			}})
		}
	}
	d := 2
	if th {
		d = 3
	}
	return append(jobs, launchedHistories("C04", 1, d, roundPlans, checkReputations)...)
}

// plan of a round
type plan struct {
	name string
	run  func(l *Lab) bool // false: not possible in this state
}

// all plans of a round between two clients: who offers, how many bridges, which votes
func roundPlans() (l []plan) {
	l = append(l, plan{"nothing", func(l *Lab) bool { return true }})
	exchange := func(l *Lab, p, q, n int, votes []int, tag string) bool {
		if l.dv(q).Reputation < n {
			return false
		}
		before := len(l.dv(q).Assignments)
		for i := 0; i < n; i++ {
			l.op(cli(p), Input{Op: "post", S: fmt.Sprintf("%d.%d.0.%s:1", p, i, tag)})
		}
		l.op(cli(q), Input{Op: "request", I: n})
		expect(len(l.dv(q).Assignments) == before+n, "a request for %d bridges gets %d", n, len(l.dv(q).Assignments)-before)
		for i, v := range votes {
			if v != 0 {
				l.op(cli(q), Input{Op: "castvote", I: before + i, J: v})
			}
		}
		return true
	}
	vs := map[int][][]int{1: {{1}, {-1}}, 2: {{1, -1}, {0, -1}}, 5: {{1, 1, 1, 1, 1}, {-1, -1, -1, -1, -1}, {1, -1, 1, -1, 1}}}
	for p := 0; p < 2; p++ {
		for _, n := range []int{1, 2, 5} {
			for _, v := range vs[n] {
				p, n, v := p, n, v
				l = append(l, plan{fmt.Sprintf("client%d votes %v on client%d", 1-p, v, p), func(l *Lab) bool { return exchange(l, p, 1-p, n, v, "0") }})
			}
		}
	}
	l = append(l, plan{"votes +1 and -1 on each other", func(l *Lab) bool {
		return exchange(l, 0, 1, 1, []int{1}, "0") && exchange(l, 1, 0, 1, []int{-1}, "1")
	}}, plan{"client2 registers", func(l *Lab) bool {
		if l.dv(2).HasFO {
			return false
		}
		l.op(cli(2), Input{Op: "register"})
		return true
	}}, plan{"client1 votes after the end", func(l *Lab) bool {
		if l.dv(1).Reputation < 1 {
			return false
		}
		l.op(cli(0), Input{Op: "post", S: "7.7.7.7:7"})
		l.op(cli(1), Input{Op: "request", I: 1})
		b := l.grab(cli(1), Input{Op: "castvote", I: 0, J: 1})
		l.op(0, Input{Op: "vote"})
		l.op(0, Input{Op: "roundend"})
		l.put(l.give(l.coord(), cli(1), b))
		return true
	}})
	return
}

type histories struct {
	w           *World
	r           *Result
	key         string
	check       func(w *World, s *GState) string
	full, depth int
	part, parts int
	seen        map[string]bool
	deepest     *GState
	deep        int
	plans       func() []plan
}

// setUp leads to where the histories begin
func (x *histories) setUp(f func()) {
	l := &Lab{w: x.w, s: x.w.init, r: x.r}
	ok := false
	l.step(x.key, []string{"setting up"}, func() bool { f(); ok = true; return true })
	if !ok {
		x.depth = 0
	}
}

func (x *histories) run() {
	if x.plans == nil {
		x.plans = roundPlans
	}
	x.explore(x.w.init, nil)
	for k, n := range x.w.outcomes {
		x.r.count(k, n)
	}
	x.r.count("node steps executed", x.w.e.steps)
	if x.deepest != nil && !x.w.e.launched {
		for _, n := range x.w.nodes {
			x.r.conform(x.w.local(x.deepest, n))
		}
	}
}

func (x *histories) explore(s *GState, hist []string) {
	d := len(hist)
	if d == x.depth {
		return
	}
	for i, p := range x.plans() {
		if d == 0 && i%x.parts != x.part || x.r.late() {
			continue
		}
		l := &Lab{w: x.w, s: s, r: x.r}
		h := append(append([]string{}, hist...), p.name)
		l.step(x.key, h, func() bool {
			if !p.run(l) {
				return false
			}
			if l.cv().Status == stMESSAGE {
				l.op(0, Input{Op: "vote"})
				l.op(0, Input{Op: "roundend"})
			}
			l.op(0, Input{Op: "clear"})
			l.op(0, Input{Op: "announce"})
			return true
		})
		if l.s == s {
			continue
		}
		x.r.Transitions++
		if msg := x.check(x.w, l.s); msg != "" {
			x.r.find(x.key+":history:"+shortKey(msg), "after the rounds %q: %s", strings.Join(h, "; "), msg)
			return
		}
		x.r.eval(strings.Join(h, "; "))
		x.r.States++
		if d+1 > x.deep {
			x.deep, x.deepest = d+1, l.s
		}
		var rep []int
		for c := 0; c < 3; c++ {
			rep = append(rep, l.dv(c).Reputation)
		}
		if d+1 > x.full {
			k := fmt.Sprint(d+1, rep, l.dv(2).HasFO)
			if x.seen[k] {
				continue
			}
			x.seen[k] = true
		}
		x.explore(l.s, h)
	}
}

// step runs f; when a node stops on the way, that is found
func (l *Lab) step(key string, h []string, f func() bool) {
	s := l.s
	defer func() {
		if c, ok := recover().(harnessCrash); ok {
			l.r.find(key+":stops:"+shortKey(c.what), "after the rounds %q: %s", strings.Join(h, "; "), c.what)
			l.s = s
		} else if c := recover(); c != nil {
			panic(c)
		}
	}()
	if !f() {
		l.s = s
	}
}
