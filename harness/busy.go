package main

// Busy rounds: the coordinator registers, hands out, signs and counts far more in
// one round than the exhaustive explorations do; every single step is compared with
// what is due. Sizes are the point here: tables, posts, requests, votes and
// reputations that outgrow small bounds.

import (
	"fmt"
	"strings"
)

type busyAsk struct{ client, n int }

type busyRound struct {
	name  string
	posts []int     // by client
	asks  []busyAsk // in this order
	vote  func(i int) int
}

type busyWorld struct {
	name             string
	servers, fillers int
	rounds           []busyRound
	thorough         bool
}

func always(v int) func(int) int { return func(int) int { return v } }
func alternating(i int) int {
	if i%3 == 2 {
		return -1
	}
	return 1
}

func busyWorlds() []busyWorld {
	growth := []busyRound{
		{"client0 posts 5, client1 votes for them", []int{5, 0}, []busyAsk{{1, 5}}, always(1)},
		{"client1 posts 10, client0 votes for them", []int{0, 10}, []busyAsk{{0, 10}}, always(1)},
		{"client0 posts 15, client1 votes for them", []int{15, 0}, []busyAsk{{1, 15}}, always(1)},
		{"client1 posts 25, client0 votes for them", []int{0, 25}, []busyAsk{{0, 25}}, always(1)},
	}
	grown := append(append([]busyRound{}, growth...),
		busyRound{"client0 posts 40, client1 votes for them", []int{40, 0}, []busyAsk{{1, 40}}, always(1)},
		busyRound{"client1 posts 65, client0 votes for them", []int{0, 65}, []busyAsk{{0, 65}}, always(1)})
	// each asks for as many as it may, in turns
	var huge []busyRound
	for i, rep := 0, [2]int{5, 5}; rep[0] < 1024; i++ {
		n := rep[1-i%2]
		posts := []int{0, 0}
		posts[i%2] = n
		huge = append(huge, busyRound{fmt.Sprintf("client%d posts %d, client%d votes for them", i%2, n, 1-i%2), posts, []busyAsk{{1 - i%2, n}}, always(1)})
		rep[i%2] += n
	}
	return []busyWorld{
		{"mixed", 2, 1, append(append([]busyRound{}, growth...),
			busyRound{"both post 20 and ask in turns", []int{20, 20}, []busyAsk{{0, 7}, {1, 12}, {0, 11}, {1, 17}}, alternating}), false},
		{"twenty entries", 1, 18, append(append([]busyRound{}, growth[:3]...),
			busyRound{"both post 12 and ask in turns", []int{12, 12}, []busyAsk{{1, 1}, {0, 9}, {1, 14}}, alternating}), false},
		{"decline", 3, 0, append(append([]busyRound{}, growth[:2]...),
			busyRound{"client0 posts 20, client1 votes against 15", []int{20, 0}, []busyAsk{{1, 15}}, always(-1)},
			busyRound{"client1 posts 5 in vain, client0 three", []int{3, 5}, []busyAsk{{1, 8}}, always(-1)}), false},
		{"past 127", 1, 0, append(append([]busyRound{}, grown...),
			busyRound{"client0 posts 130, client1 votes against 105", []int{130, 0}, []busyAsk{{1, 60}, {1, 45}}, always(-1)},
			busyRound{"client1 posts 150, client0 nothing", []int{0, 150}, []busyAsk{{1, 100}}, always(-1)}), false},
		{"past 255", 2, 3, append(append([]busyRound{}, grown...),
			busyRound{"client0 posts 105, client1 votes for them", []int{105, 0}, []busyAsk{{1, 105}}, always(1)},
			busyRound{"client1 posts 170, client0 votes for them", []int{0, 170}, []busyAsk{{0, 170}}, always(1)},
			busyRound{"client0 posts 300, client1 votes against 275", []int{300, 0}, []busyAsk{{1, 275}}, always(-1)},
			busyRound{"client1 posts 400 and takes 275 itself", []int{0, 400}, []busyAsk{{1, 275}}, always(-1)}), true},
		{"past 1023", 1, 9, huge, true},
		{"seven servers", 7, 1, []busyRound{growth[0], growth[1],
			{"both post 5 and ask in turns", []int{5, 5}, []busyAsk{{0, 3}, {1, 3}, {0, 4}}, alternating}}, false},
		{"thirty rounds", 1, 2, many(30), false},
		{"hundred rounds", 3, 1, many(100), true},
	}
}

// many rounds in which little happens
func many(n int) (l []busyRound) {
	for i := 0; i < n; i++ {
		posts := []int{0, 0}
		posts[i%3%2] = 1 + i%2
		v := 1
		if i%5 == 4 {
			v = -1
		}
		l = append(l, busyRound{fmt.Sprintf("round %d", i), posts, []busyAsk{{1 - i%3%2, 1 + i%4%2}}, always(v)})
	}
	return
}

// busyJobs: the same worlds, each judged by the one property
func busyJobs(id string, th bool) (jobs []Job) {
	switch id {
	case "C11":
		return manyJoins(map[bool]int{false: 20, true: 40}[th])
	case "C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10":
	default:
		return nil
	}
	for _, b := range busyWorlds() {
		if b.thorough && !th && !(b.name == "past 255" && (id == "C04" || id == "C05")) {
			continue
		}
		b := b
		jobs = append(jobs, Job{Name: "busy rounds, " + b.name, Run: func(r *Result) { busy(r, id, b) }})
	}
	return
}

func busy(r *Result, id string, b busyWorld) {
	l := newLab(r, b.servers, 2, b.fillers)
	w := l.w
	var hist []string
	find := func(prop, kind, f string, a ...interface{}) {
		if prop == id {
			r.find(id+":busy:"+kind, "in busy rounds (%s), after %q: %s", b.name, strings.Join(hist, "; "), fmt.Sprintf(f, a...))
		}
	}
	gone := map[string]bool{} // ever assigned
	addr := 0
	var cast [][]byte // every vote of earlier rounds
	var from []nodeID
	for _, p := range b.rounds {
		p := p
		hist = append(hist, p.name)
		ok := false
		l.step(id, hist, func() bool {
			ok = true
			posted := map[string]string{}
			var assigned [2]int
			for c, n := range p.posts {
				nym := refNym(l.cv().G, l.dv(c).PriKey)
				for i := 0; i < n; i++ {
					addr++
					a := fmt.Sprintf("%d.%d.%d.%d:%d", c+1, addr%7, addr/250, addr%250, 1000+addr)
					l.op(cli(c), Input{Op: "post", S: a})
					posted[a] = nym
					r.Transitions++
					v := l.cv()
					if x, in := v.Bridges[a]; !in || x.Nym != nym || x.Used {
						find("C07", "post", "%s is not registered for client%d's pseudonym, the coordinator has %v", a, c, x)
					}
					if len(v.Bridges) != len(posted) {
						find("C07", "number", "%d addresses are registered after %d posts of the round", len(v.Bridges), len(posted))
						find("C09", "number", "%d addresses are registered after %d posts of the round", len(v.Bridges), len(posted))
					}
				}
				if n > 0 {
					r.eval(fmt.Sprintf("%d posts", n))
				}
			}
			for c := 0; id == "C08" && c < 2; c++ {
				rep := l.dv(c).Reputation
				for _, n := range []int{1, rep / 2, rep - 2, rep - 1, rep, rep + 1} {
					due := n
					if due > len(posted) {
						due = len(posted)
					}
					if n > rep || n < 1 {
						due = 0
					}
					f := l.fork()
					f.op(cli(c), Input{Op: "request", I: n})
					r.Transitions++
					got := len(f.dv(c).Assignments) - len(l.dv(c).Assignments)
					if r.eval(fmt.Sprintf("reputation %d, indicator %d", rep, n)); got != due && n > 0 {
						find("C08", "covered", "client%d has reputation %d and asks for %d of %d bridges: it gets %d", c, rep, n, len(posted), got)
					}
				}
			}
			used := map[string]bool{}
			want := map[string]int{}
			var votes [][]byte
			var voters []nodeID
			for _, q := range p.asks {
				due := q.n
				if left := len(posted) - len(used); due > left {
					due = left
				}
				nymR := refNym(l.cv().G, l.dv(q.client).PriKey)
				before := len(l.dv(q.client).Assignments)
				if before != assigned[q.client] {
					find("C10", "kept", "client%d holds %d assignments, of which %d are of this round", q.client, before, assigned[q.client])
				}
				if l.dv(q.client).Reputation < q.n {
					due = 0
				}
				l.op(cli(q.client), Input{Op: "request", I: q.n})
				r.Transitions++
				now := map[string]bool{}
				for a, x := range l.cv().Bridges {
					if x.Used && !used[a] {
						now[a] = true
						if gone[a] || posted[a] == "" {
							find("C09", "again", "%s is handed out and is not an unused bridge of this round", a)
						}
						gone[a] = true
						used[a] = true
					}
				}
				if len(now) != due {
					find("C09", "amount", "a request of client%d for %d bridges takes %d of the unused ones, %d are due", q.client, q.n, len(now), due)
				}
				got := l.dv(q.client).Assignments
				if len(got)-before != len(now) {
					find("C10", "reach", "%d bridges are assigned to client%d, %d assignments reach it", len(now), q.client, len(got)-before)
				}
				r.eval(fmt.Sprintf("a request for %d gets %d", q.n, len(now)))
				if len(got) < before {
					find("C10", "lost", "client%d loses assignments", q.client)
					return true
				}
				for i, x := range got[before:] {
					if !now[x.Addr] || x.NymR != nymR || x.Nym != posted[x.Addr] {
						find("C09", "assignment", "client%d is assigned %s of %.16s… for %.16s…, which is not what the coordinator handed out to it", q.client, x.Addr, x.Nym, x.NymR)
					}
					if d := badSignatures(l, x); d != "" {
						find("C10", "signatures", "the assignment of %s to client%d: %s", x.Addr, q.client, d)
					}
					delete(now, x.Addr)
					v := p.vote(i)
					in := Input{Op: "castvote", I: before + i, J: v}
					if m := l.grab(cli(q.client), in); m != nil {
						votes = append(votes, m)
						voters = append(voters, cli(q.client))
					}
					l.op(cli(q.client), in)
					r.Transitions++
					r.eval("votes")
					want[x.Nym] += v
					if want[x.Nym] == 0 {
						delete(want, x.Nym)
					}
					if got := l.cv().Diff; viewJSON(got) != viewJSON(want) {
						find("C05", "count", "after vote %d of client%d (%+d on %s) the pending differences are %s, the votes say %s", i, q.client, v, x.Addr, viewJSON(got), viewJSON(want))
						want = map[string]int{}
						for k, n := range got {
							want[k] = n
						}
					}
				}
				for a := range now {
					find("C10", "missing", "%s is assigned to client%d and never reaches it", a, q.client)
				}
				assigned[q.client] = len(got)
			}
			// each vote once more, and those of earlier rounds
			before := viewJSON(l.cv().Diff)
			again := func(bs [][]byte, ns []nodeID, what string) {
				if id != "C06" && id != "C05" {
					return
				}
				for i, m := range bs {
					x := l.give(l.coord(), ns[i], m)
					r.eval(what)
					if x.Crashed != "" {
						find(id, "stops", "%s stops the coordinator: %s", what, firstLine(x.Crashed))
						continue
					}
					if got := viewJSON(x.View.C.Diff); got != before {
						find("C06", "twice", "%s (%d of %d) changes the pending differences from %s to %s", what, i+1, len(bs), before, got)
						if what != "a vote given again" {
							find("C05", "old", "%s (%d of %d) changes the pending differences from %s to %s", what, i+1, len(bs), before, got)
						}
						return
					}
				}
			}
			again(votes, voters, "a vote given again")
			again(cast, from, "a vote of an earlier round")
			cast, from = append(cast, votes...), append(from, voters...)
			l.endRound()
			if n := len(l.cv().Bridges); n > 0 {
				find("C09", "kept", "%d bridges are left in the next round", n)
			}
			return true
		})
		if !ok {
			return
		}
		r.States++
		if len(hist) > 0 {
			for c := 0; c < 2; c++ {
				r.count(fmt.Sprintf("reputation %d", l.dv(c).Reputation), 1)
			}
		}
	}
	var msg string
	switch id {
	case "C01":
		msg = checkTables(b.fillers)(w, l.s)
	case "C02":
		msg = checkRoundEnds(b.fillers)(w, l.s)
	case "C04":
		msg = checkReputations(w, l.s)
	case "C09":
		msg = checkHandouts(w, l.s)
	}
	if msg != "" {
		find(id, shortKey(msg), "%s", msg)
	}
	for k, n := range w.outcomes {
		r.count(k, n)
	}
}

// badSignatures tells what is wrong with the signatures of an assignment
func badSignatures(l *Lab, x AssignView) string {
	v := l.cv()
	if len(x.Sigs) != len(v.Servers)+1 {
		return fmt.Sprintf("%d signatures for %d servers and the coordinator", len(x.Sigs), len(v.Servers))
	}
	for i, s := range x.Sigs {
		pub, who := v.PubKey, "the coordinator"
		if i < len(v.Servers) {
			pub, who = v.Servers[i].Comm, v.Servers[i].Key
		}
		if !refVerify([]byte(x.Assignment), pub, []byte(s), "4") {
			return fmt.Sprintf("signature %d is not %s's", i, who)
		}
	}
	return ""
}

// manyJoins: far more clients than the explorations have register while a round is
// open, voting, ending or being announced; once everything has come to rest the
// oracle of C11 has to hold
func manyJoins(clients int) (jobs []Job) {
	at := []struct {
		name string
		ops  []string // before which the registrations are made
		then []string
	}{
		{"an open round", nil, []string{"vote", "roundend", "clear", "announce", "vote", "roundend", "clear", "announce"}},
		{"the voting phase", []string{"vote"}, []string{"roundend", "clear", "announce", "vote", "roundend", "clear", "announce"}},
		{"the time between rounds", []string{"vote", "roundend"}, []string{"clear", "announce", "vote", "roundend", "clear", "announce"}},
	}
	for _, a := range at {
		a := a
		jobs = append(jobs, Job{Name: fmt.Sprintf("%d clients join in %s", clients, a.name), Run: func(r *Result) {
			l := newLab2(r, 2, clients, 1, 1)
			l.step("C11", []string{a.name}, func() bool {
				for _, o := range a.ops {
					l.op(0, Input{Op: o})
				}
				for c := 1; c < clients; c++ {
					l.op(cli(c), Input{Op: "register"})
					r.Transitions++
				}
				for _, o := range a.then {
					l.op(0, Input{Op: o})
					r.Transitions++
				}
				r.eval(fmt.Sprintf("%d registrations in %s", clients-1, a.name))
				r.States++
				if msg := checkRegistrations(l.w, l.s); msg != "" {
					r.find("C11:many:"+shortKey(msg), "%d clients register in %s: %s", clients-1, a.name, msg)
				}
				v := l.cv()
				if len(v.End) != clients+1 {
					r.find("C11:many:size", "%d clients register in %s, the next table but one has %d entries", clients-1, a.name, len(v.End))
				}
				return true
			})
			for k, n := range l.w.outcomes {
				r.count(k, n)
			}
		}})
	}
	return
}

// newLab2: an open round in which the first clients are in the table
func newLab2(r *Result, servers, clients, fillers, joined int) *Lab {
	e := newEngine()
	w := newWorld(e, servers, clients)
	return &Lab{w: w, s: w.members(fillers, joined), r: r}
}
