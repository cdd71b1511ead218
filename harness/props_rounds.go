package main

import (
	"fmt"

	"zRep/proto"
)

func init() {
	register(&Prop{ID: "C01", Level: "model_checking", Budget: 75,
		Rule:   "states are tuples of node states, outboxes and inboxes; every order of sends, deliveries, registrations and phase changes that the nodes allow is explored, up to commuting steps",
		Assume: protocolAssumptions,
		Jobs:   func(th bool) []Job { return roundJobs("C01", checkTables, th) }})
	register(&Prop{ID: "C02", Level: "model_checking", Budget: 75,
		Rule:   "states are tuples of node states, outboxes and inboxes; every order of sends, deliveries, registrations and phase changes that the nodes allow is explored, up to commuting steps",
		Assume: protocolAssumptions,
		Jobs:   func(th bool) []Job { return roundJobs("C02", checkRoundEnds, th) }})
}

func init() {
	register(&Prop{ID: "C11", Level: "model_checking", Budget: 75,
		Rule:   "states are tuples of node states, outboxes and inboxes; clients register at every point of the configuration, of an announcement, an open round, its voting phase and its end, in every order with everything in flight",
		Assume: protocolAssumptions,
		Jobs:   joinJobs})
	register(&Prop{ID: "C12", Level: "model_checking", Budget: 75,
		Rule:   "states are tuples of node states, outboxes and inboxes; every interleaving of the registrations of the servers is explored",
		Assume: protocolAssumptions,
		Jobs:   serverJobs})
}

var protocolAssumptions = []string{
	"a connection delivers its event completely and to the listener that was dialled; connections are accepted in the order in which they were made (C24 covers the transport)",
	"random draws are a pseudo-random function of node, history and VERIF_SEED; the Fujisaki-Okamoto modulus is built from fixed 96-bit safe primes (C18 checks the real generator)",
	"a coordinator is worked by the real main loop in launched worlds, in the others by the sequence of its phase functions; each runs to completion between two messages (C23 covers interleaving inside them)",
}

func roundJobs(id string, oracle func(int) func(*World, *GState) string, th bool) (jobs []Job) {
	add := func(sc *Scenario) {
		sc.Key = id
		jobs = append(jobs, sc.job())
	}
	// fixed participants, several rounds
	type fixed struct{ s, c, f, r int }
	l := []fixed{{1, 0, 0, 2}, {1, 0, 1, 2}, {1, 1, 0, 3}, {2, 1, 1, 3}, {3, 1, 2, 2}, {2, 2, 1, 2}, {4, 1, 1, 2}, {2, 0, 8, 2}, {2, 1, 17, 1}, {1, 0, 34, 1}, {6, 1, 1, 1}}
	if th {
		l = append(l, fixed{2, 1, 40, 2}, fixed{3, 0, 65, 1}, fixed{9, 1, 2, 2})
		l = append(l, fixed{4, 2, 3, 3}, fixed{3, 3, 1, 2}, fixed{2, 2, 6, 3}, fixed{1, 2, 2, 5})
	}
	for _, x := range l {
		x := x
		for _, off := range []uint64{0, 1, 2} {
			off := off
			if off > 0 && (x.f+x.c < 2 || x.f > 8 || x.s > 4 || !th && off > 1) {
				continue
			}
			add(&Scenario{Name: fmt.Sprintf("rounds s%d c%d f%d r%d o%d", x.s, x.c, x.f, x.r, off), Servers: x.s, Clients: x.c, NoReplay: x.f+x.c > 8, Build: func(w *World) {
				w.members(x.f, x.c)
				w.threads = []Thread{{Name: "the coordinator's main loop"}}
				t := &w.threads[0]
				for i := 0; i < x.r; i++ {
					t.Ops = append(t.Ops, Op{0, Input{Op: "vote"}, messageGuard}, Op{0, Input{Op: "roundend", Offset: off}, nil},
						Op{0, Input{Op: "clear"}, readyGuard}, Op{0, Input{Op: "announce", Offset: off}, nil})
				}
				w.terminal = oracle(x.f)
			}})
		}
	}
	// joining clients, at any time
	j := []fixed{{1, 1, 1, 1}, {2, 1, 1, 1}}
	if th {
		j = append(j, fixed{3, 1, 1, 2}, fixed{1, 1, 2, 3}, fixed{4, 1, 0, 1})
	}
	for _, x := range j {
		x := x
		add(&Scenario{Name: fmt.Sprintf("joins s%d c%d f%d r%d", x.s, x.c, x.f, x.r), Servers: x.s, Clients: x.c, Build: func(w *World) {
			w.start(x.f)
			joiners(w, x.r, []int{0}, []int{-1})
			w.terminal = oracle(x.f)
		}})
	}
	// a member and a joiner
	mj := []fixed{{1, 2, 0, 1}}
	if th {
		mj = append(mj, fixed{2, 2, 1, 1}, fixed{1, 3, 0, 1})
	}
	for _, x := range mj {
		x := x
		add(&Scenario{Name: fmt.Sprintf("members and a joiner s%d c%d f%d r%d", x.s, x.c, x.f, x.r), Servers: x.s, Clients: x.c, Build: func(w *World) {
			w.members(x.f, x.c-1)
			joinersMid(w, []int{x.c - 1}, []int{-1})
			w.terminal = oracle(x.f)
		}})
	}
	jobs = append(jobs, twoJoiners(id, oracle(0), th)...)
	return append(jobs, launchedRounds(id, oracle(0), th)...)
}

// two joiners, each in its own part of the main loop
func twoJoiners(id string, oracle func(*World, *GState) string, th bool) (jobs []Job) {
	add := func(sc *Scenario) {
		sc.Key = id
		jobs = append(jobs, sc.job())
	}
	for a := 0; a <= 6; a++ {
		for b := a; b <= 6; b++ {
			a, b := a, b
			if !th && (a <= 1 && b <= 4 || a == 2 && b <= 3) {
				continue // the largest parts
			}
			add(&Scenario{Name: fmt.Sprintf("joins s1 c2 f0 r1 at %d,%d", a, b), Servers: 1, Clients: 2, Build: func(w *World) {
				w.start(0)
				joiners(w, 1, []int{0, 1}, []int{a, b})
				if a == b { // the clients are alike
					g := w.threads[2].Ops[0].Guard
					w.threads[2].Ops[0].Guard = func(w *World, s *GState) bool { return s.pc[1] > 0 && g(w, s) }
				}
				w.terminal = oracle
			}})
		}
	}
	return
}

// joiners sets up the main loop and clients that register while the main loop is
// at the given place (-1: anywhere)
func joiners(w *World, rounds int, clients, at []int) {
	w.threads = []Thread{launcherThread(rounds, false, 0)}
	addJoiners(w, clients, at)
}

// joinersMid: the same, but the main loop starts in an open round
func joinersMid(w *World, clients, at []int) {
	t := launcherThread(1, false, 0)
	t.Ops = t.Ops[2:]
	w.threads = []Thread{t}
	addJoiners(w, clients, at)
}

// addJoiners: with a place in the main loop, the main loop waits there for the
// registration, so that the places partition the histories
func addJoiners(w *World, clients, at []int) {
	main := &w.threads[0]
	for i, c := range clients {
		k := at[i]
		var guard func(*World, *GState) bool
		if k >= 0 {
			guard = func(w *World, s *GState) bool { return int(s.pc[0]) == k }
		}
		w.threads = append(w.threads, Thread{fmt.Sprintf("client%d", c), []Op{{cli(c), Input{Op: "register"}, guard}}})
		if k >= 0 && k < len(main.Ops) {
			t, old := len(w.threads)-1, main.Ops[k].Guard
			main.Ops[k].Guard = func(w *World, s *GState) bool { return s.pc[t] > 0 && (old == nil || old(w, s)) }
		}
	}
}

// ------------------------------------------------------------------ C11

func joinJobs(th bool) (jobs []Job) {
	add := func(sc *Scenario) {
		sc.Key = "C11"
		jobs = append(jobs, sc.job())
	}
	type fixed struct{ s, c, f, r int }
	j := []fixed{{1, 1, 0, 1}, {1, 1, 2, 1}, {2, 1, 1, 1}, {1, 1, 0, 2}}
	if th {
		j = append(j, fixed{3, 1, 1, 2}, fixed{1, 1, 2, 3}, fixed{4, 1, 0, 1}, fixed{2, 1, 0, 3})
	}
	for _, x := range j {
		x := x
		add(&Scenario{Name: fmt.Sprintf("joins s%d c%d f%d r%d", x.s, x.c, x.f, x.r), Servers: x.s, Clients: x.c, Build: func(w *World) {
			w.start(x.f)
			joiners(w, x.r, []int{0}, []int{-1})
			w.terminal = checkRegistrations
		}})
	}
	mj := []fixed{{1, 2, 0, 1}, {2, 2, 0, 1}}
	if th {
		mj = append(mj, fixed{2, 2, 1, 1}, fixed{1, 3, 0, 1})
	}
	for _, x := range mj {
		x := x
		add(&Scenario{Name: fmt.Sprintf("members and a joiner s%d c%d f%d r%d", x.s, x.c, x.f, x.r), Servers: x.s, Clients: x.c, Build: func(w *World) {
			w.members(x.f, x.c-1)
			joinersMid(w, []int{x.c - 1}, []int{-1})
			w.terminal = checkRegistrations
		}})
	}
	// while the servers still register
	cs := []fixed{{1, 1, 0, 0}, {2, 1, 0, 0}}
	if th {
		cs = append(cs, fixed{1, 2, 0, 0}, fixed{3, 1, 0, 0})
	}
	for _, x := range cs {
		x := x
		add(&Scenario{Name: fmt.Sprintf("during configuration s%d c%d", x.s, x.c), Servers: x.s, Clients: x.c, Build: func(w *World) {
			w.threads = []Thread{{Name: "the coordinator's main loop", Ops: []Op{{0, Input{Op: "config"}, allServers(x.s)},
				{0, Input{Op: "clear"}, readyGuard}, {0, Input{Op: "announce"}, nil},
				{0, Input{Op: "vote"}, messageGuard}, {0, Input{Op: "roundend"}, nil},
				{0, Input{Op: "clear"}, readyGuard}, {0, Input{Op: "announce"}, nil}}}}
			for i := 0; i < x.s; i++ {
				w.threads = append(w.threads, Thread{srv(i).String(), []Op{{srv(i), Input{Op: "register"}, nil}}})
			}
			for i := 0; i < x.c; i++ {
				// before the first round; later ones are in the other jobs
				g := func(w *World, s *GState) bool { return s.pc[0] <= 1 }
				w.threads = append(w.threads, Thread{cli(i).String(), []Op{{cli(i), Input{Op: "register"}, g}}})
				t, old := len(w.threads)-1, w.threads[0].Ops[1].Guard
				w.threads[0].Ops[1].Guard = func(w *World, s *GState) bool { return s.pc[t] > 0 && old(w, s) }
			}
			w.terminal = checkRegistrations
		}})
	}
	jobs = append(jobs, launchedRounds("C11", checkRegistrations, th)...)
	return append(jobs, twoJoiners("C11", checkRegistrations, th)...)
}

// allServers: every server is in the list and nothing of theirs is in flight
func allServers(n int) func(*World, *GState) bool {
	return func(w *World, s *GState) bool {
		if len(w.coord(s).Servers) != n {
			return false
		}
		for i := 0; i < n; i++ {
			if len(w.local(s, srv(i)).path()) < 2 || !w.server(s, i).HasFO || len(s.in[w.idx[srv(i)]])+len(s.out[w.idx[srv(i)]]) > 0 {
				return false
			}
		}
		return len(s.in[0])+len(s.out[0]) == 0
	}
}

// checkRegistrations is the oracle of C11 on complete histories
func checkRegistrations(w *World, s *GState) string {
	c := w.local(s, 0)
	path := c.path()
	rs := roundsOf(c)
	at := map[*Local]int{}
	for i, l := range path {
		at[l] = i
	}
	for _, n := range w.nodes {
		if n.kind() != kClient {
			continue
		}
		nl := w.local(s, n)
		if nl.n("register") == 0 {
			continue
		}
		w.outcomes["registrations checked"]++
		for _, k := range []string{"CLIENT_REGISTER_CONFIRMATION", "INIT_PEDERSEN_R", "GN_HONESTY_ANSWER"} {
			if nl.n(k) != 1 {
				return fmt.Sprintf("%s registers and handles %s %d times", n, k, nl.n(k))
			}
		}
		// completed: the coordinator has it back from the servers
		done := -1
		for i, l := range path {
			for _, m := range l.Outs {
				if m.Type == proto.CLIENT_REGISTER_CONFIRMATION && m.To == n {
					done = i
				}
			}
		}
		if done < 0 {
			return fmt.Sprintf("the registration of %s never completes", n)
		}
		for k, r := range rs {
			if r.begun == nil || at[r.begun]+1 <= done && r.begun.Parent != nil {
				continue
			}
			nym := refNym(r.opened.View.C.G, nl.View.D.PriKey)
			if _, in := entryMap(r.opened.View.C.End)[nym]; !in {
				return fmt.Sprintf("%s is registered but has no pseudonym in announcement %d", n, k+1)
			}
			m := r.finalize[n]
			if m == nil || handledAt(nl, m, r.opened) == nil {
				return fmt.Sprintf("%s is registered but not told of announcement %d", n, k+1)
			}
			w.outcomes["announcements of registered clients"]++
		}
		// what every participant holds stays right (nobody votes here)
		for l := nl; l.Parent != nil; l = l.Parent {
			if inType(l) != proto.ANNOUNCEMENT_FINALIZE {
				continue
			}
			x := l.View.D
			if x.Reputation != 5 {
				return fmt.Sprintf("%s's reputation becomes %d without a vote", n, x.Reputation)
			}
			if x.PCommr != refCommit(x.GT, x.HT, 5, x.R) {
				return fmt.Sprintf("%s cannot open its commitment to the starting credit", n)
			}
		}
	}
	if len(rs) == 0 || rs[len(rs)-1].ended != nil {
		return "the last announcement never finishes"
	}
	return ""
}

// ------------------------------------------------------------------ C12

func serverJobs(th bool) (jobs []Job) {
	add := func(sc *Scenario) {
		sc.Key = "C12"
		jobs = append(jobs, sc.job())
	}
	max := 4
	if th {
		max = 5
	}
	for n := 1; n <= max; n++ {
		n := n
		add(&Scenario{Name: fmt.Sprintf("servers %d", n), Servers: n, Build: func(w *World) {
			config := Op{0, Input{Op: "config"}, quietGuard}
			w.threads = []Thread{{Name: "the coordinator's main loop", Ops: []Op{config}}}
			for i := 0; i < n; i++ {
				w.threads = append(w.threads, Thread{srv(i).String(), []Op{{srv(i), Input{Op: "register"}, nil}}})
				t, old := len(w.threads)-1, w.threads[0].Ops[0].Guard
				w.threads[0].Ops[0].Guard = func(w *World, s *GState) bool { return s.pc[t] > 0 && old(w, s) }
			}
			w.terminal = checkChain
		}})
	}
	for n := 1; n <= 3; n++ {
		jobs = append(jobs, launchedChain(n))
	}
	// longer chains, in which the servers register one after the other
	long := []int{6, 9}
	if th {
		long = []int{6, 7, 9, 12, 17}
	}
	for _, n := range long {
		n := n
		jobs = append(jobs, Job{Name: fmt.Sprintf("chains of %d servers", n), Run: func(r *Result) {
			for k := 1; k < n; k++ {
				for first := 0; first < n; first++ {
					if gcd(k, n) != 1 || r.late() {
						continue
					}
					l := &Lab{w: newWorld(newEngine(), n, 0), r: r}
					l.s = l.w.init
					what := fmt.Sprintf("%d servers, the first being %d and each next one %d further", n, first, k)
					l.step("C12", []string{what}, func() bool {
						for i := 0; i < n; i++ {
							l.op(srv((first+i*k)%n), Input{Op: "register"})
						}
						l.op(0, Input{Op: "config"})
						r.Transitions += n + 1
						r.States++
						r.eval(what)
						if msg := checkChain(l.w, l.s); msg != "" {
							r.find("C12:long:"+shortKey(msg), "%s: %s", what, msg)
						}
						return true
					})
				}
			}
		}})
	}
	return
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func checkChain(w *World, s *GState) string {
	c := w.local(s, 0)
	v := c.View.C
	var order []nodeID
	reply := map[nodeID]string{}
	update := map[nodeID]string{}
	for _, l := range c.path() {
		switch inType(l) {
		case proto.SERVER_REGISTER:
			order = append(order, l.In.Msg.From)
		case proto.UPDATE_PEDERSEN_H:
			update[l.In.Msg.From] = l.In.Msg.point("h")
		}
		for _, m := range l.Outs {
			if m.Type == proto.SERVER_REGISTER_REPLY {
				reply[m.To] = m.point("h")
			}
		}
	}
	w.outcomes[fmt.Sprint("chains checked, order ", order)]++
	if len(v.Servers) != len(order) {
		return fmt.Sprintf("%d servers registered, the coordinator has %d", len(order), len(v.Servers))
	}
	last := w.e.locals[int(w.init.loc[0])].View.C.HT
	for i, n := range order {
		name := func(k int) string {
			if k < 0 || k >= len(order) {
				return nodeID(0).addr().String()
			}
			return order[k].addr().String()
		}
		x := w.local(s, n).View.S
		if v.Servers[i].Key != n.addr().String() || v.Servers[i].Comm != x.PubKey {
			return fmt.Sprintf("the coordinator's list is not in the order of acceptance, or has a wrong key (place %d)", i)
		}
		if x.Prev != name(i-1) || x.Next != name(i+1) {
			return fmt.Sprintf("%s, number %d of %d, has %s before it and %s after it", n, i+1, len(order), x.Prev, x.Next)
		}
		if !x.Connected || !x.HasFO {
			return fmt.Sprintf("%s is not told of its registration", n)
		}
		if reply[n] != last {
			return fmt.Sprintf("%s does not build on the base of the server before it", n)
		}
		if update[n] == "" || update[n] == last {
			return fmt.Sprintf("%s contributes nothing to the base", n)
		}
		last = update[n]
		// the exponent is drawn at random
		for l := w.local(s, n); l.Parent != nil; l = l.Parent {
			if inType(l) == proto.SERVER_REGISTER_REPLY && l.DrewBytes < 32 {
				return fmt.Sprintf("%s's exponent is not drawn at random", n)
			}
		}
	}
	if v.HT != last {
		return "the coordinator's base is not the product of all contributions"
	}
	for _, n := range order {
		if w.local(s, n).View.S.HT != v.HT {
			return fmt.Sprintf("%s and the coordinator disagree on the second base", n)
		}
	}
	return ""
}
