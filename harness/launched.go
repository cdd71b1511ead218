package main

// Launched worlds: the coordinator's phases and the clients' commands are not the
// launcher's functions called one by one but the real main loops, brought to where
// they would stand and given the user's next line.

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/proto"
)

// statusConfiguration of package coordinator, before the first round
const stCONFIGURATION = 0
const stENDING = 6

// notInPlace: the main loop does not come to where an operation begins
type notInPlace struct{ what string }

// launchedPlace says where the main loop stands when it performs an operation, and
// what the user types then; ok is false when the main loop does not get that far
func launchedPlace(state interface{}, in Input) (pos string, script []string, ok bool) {
	switch s := state.(type) {
	case *coordinator.Coordinator:
		switch in.Op {
		case "announce":
			if s.Status == stCONFIGURATION {
				return "configuration", []string{""}, true
			}
			return "round end", nil, s.Status == stREADY
		case "vote":
			return "posting", []string{""}, s.Status == stMESSAGE
		case "roundend":
			return "voting", []string{""}, true
		}
	case *client.DissentClient:
		switch in.Op {
		case "post":
			return "prompt", []string{"post " + in.S}, true
		case "request":
			return "prompt", []string{fmt.Sprint("get ", in.I)}, true
		case "castvote":
			return "prompt", []string{fmt.Sprintf("vote %d %d", in.I, in.J)}, true
		case "type":
			return "prompt", strings.Split(in.S, "\n"), true
		}
	}
	return "", nil, false
}

// launched tells whether an operation is performed by a real main loop
func launchedOp(n nodeID, in Input) bool {
	if in.Msg != nil {
		return false
	}
	switch in.Op {
	case "config", "clear", "announce", "vote", "roundend", "post", "request", "castvote", "type":
		return n.kind() != kServer
	}
	return false
}

// invokeLaunched performs an operation by the node's real main loop
func invokeLaunched(l *Local, state interface{}, key []byte, in Input, emit func(to nodeID, b []byte)) {
	pos, script, ok := launchedPlace(state, in)
	if !ok { // part of another operation, or not yet due
		return
	}
	stepWhat.Store(fmt.Sprintf("%s: %s, launched", l.Node, in))
	atomic.StoreInt64(&stepStart, time.Now().UnixNano())
	saved := mapsIterOffset
	status := 0
	if c, ok := state.(*coordinator.Coordinator); ok && pos == "round end" { // not before it is under control
		status, c.Status = c.Status, stENDING
	} else if ok {
		status = c.Status
	}
	s, main, st := position(&schedCase{name: "launched", pos: pos, node: l.Node, state: state}, fmt.Sprintf("%x", key))
	if s.cause == "" {
		mapsIterOffset = in.Offset
		s.script = append([]string(nil), script...)
		s.sent = func(raddr *net.TCPAddr, content []byte) {
			to, ok := nodeAt(raddr)
			if !ok {
				panic(fmt.Sprintf("dial %v: no such address", raddr))
			}
			emit(to, append([]byte(nil), content...))
		}
		s.begin(main, nil)
		if c, ok := st.(*coordinator.Coordinator); ok {
			c.Status = status
		}
		s.run(nil, 0)
		mapsIterOffset = saved
	}
	cause := s.cause
	if cause == "" {
		for _, t := range s.threads {
			if t.crashed != "" && l.Crashed == "" {
				l.Crashed = t.crashed
			}
		}
		if x := s.stuck(); x != "" && l.Crashed == "" {
			l.Crashed = "nothing goes on any more: " + x
		}
		if main.state == tDone && l.Crashed == "" {
			l.Crashed = "the main loop ends"
		}
		if s.closed() && l.Crashed == "" {
			l.Crashed = "it does not listen any more"
		}
		l.DrewBytes = main.stream.n
	}
	// what the case's state has become
	s.finish()
	atomic.StoreInt64(&stepStart, 0)
	if cause != "" {
		if s.displaced {
			l.Crashed = cause
			return
		}
		panic("harness: launched " + in.String() + ": " + cause)
	}
	if os.Getenv("VERIF_SCHED") != "" {
		fmt.Fprintln(os.Stderr, "launched", l.Node, in, pos, len(l.Outs), l.Crashed)
		if c, ok := st.(*coordinator.Coordinator); ok {
			fmt.Fprintln(os.Stderr, "  status", c.Status, len(c.Clients), len(c.EndingKeyMap), len(c.BeginningKeyMap))
		}
	}
	into(state, st)
}

// into makes the given state what another one is
func into(dst, src interface{}) {
	switch d := dst.(type) {
	case *coordinator.Coordinator:
		*d = *src.(*coordinator.Coordinator)
	case *client.DissentClient:
		*d = *src.(*client.DissentClient)
	}
}

// laterFakes: what a coordinator adds to the table before its first round when the
// process has been through one already
var laterFakes = -1

// launchedWarm brings the process through a first round, and through one more to see
// how many fakes there are then
func launchedWarm() {
	if laterFakes >= 0 {
		return
	}
	fewPrimes()
	launchedFakes()
	laterFakes = launchedFakes()
}

// launchedFakes launches a coordinator without servers and counts what is in its table
func launchedFakes() int {
	s := newSched("fakes")
	main := s.launch(coordinator.Launch)
	n := 0
	if s.idle(main, true) {
		s.key_("")
		if s.idle(main, true) {
			n = len(coordinator.VerifGet().BeginningKeyMap)
		}
	}
	s.finish()
	return n
}

// launchedHistories: all histories of rounds, by the real main loops
func launchedHistories(key string, servers, depth int, plans func() []plan, check func(w *World, s *GState) string) (jobs []Job) {
	parts := 4
	for part := 0; part < parts; part++ {
		part := part
		jobs = append(jobs, Job{Name: fmt.Sprintf("launched histories s%d depth %d part %d", servers, depth, part), Run: func(r *Result) {
			e := newEngine()
			w := newWorld(e, servers, 3)
			if !launchedStart(r, w) {
				return
			}
			if laterFakes != 0 {
				r.Notes = append(r.Notes, "every coordinator of a process has fakes of its own: their number is checked alone")
				check = checkSizes(laterFakes)
			}
			x := &histories{w: w, r: r, key: key, check: check, full: 2, depth: depth, part: part, parts: parts, seen: map[string]bool{}, plans: plans}
			x.setUp(func() { w.members(0, 2) })
			x.run()
		}})
	}
	return
}

func launchedRounds(key string, check func(w *World, s *GState) string, th bool) []Job {
	d1, d2 := 3, 1
	if th {
		d1, d2 = 5, 3
	}
	plans := launchedPlans
	if key == "C11" { // its oracle takes nobody to vote
		plans = func() (l []plan) {
			for _, p := range launchedPlans() {
				p := p
				l = append(l, plan{p.name + ", without votes", func(l *Lab) bool {
					x := &Lab{w: l.w, s: l.s, r: l.r, skip: "castvote"}
					ok := p.run(x)
					l.s = x.s
					return ok
				}})
			}
			return
		}
	}
	return append(append(launchedHistories(key, 1, d1, plans, check), launchedHistories(key, 2, d2, plans, check)...), firstLaunched(key))
}

// firstLaunched: rounds from the very first one of a process on
func firstLaunched(key string) Job {
	return Job{Name: "launched from the first round on", Run: func(r *Result) {
		if instrumented == "" {
			return
		}
		e := newEngine()
		w := newWorld(e, 1, 3)
		e.launched = true
		fewPrimes()
		x := &histories{w: w, r: r, key: key, depth: 2, full: 2, parts: 1, seen: map[string]bool{}, plans: launchedPlans}
		x.setUp(func() {
			w.start(0)
			s := w.round(w.init, &w.prefix)
			x.check = checkSizes(len(w.coord(s).End))
			w.init = w.endRound(w.joinQuiet(s, 0, 1))
		})
		if x.check != nil {
			x.run()
		}
	}}
}

// checkSizes: every table lists the clients registered before it and the given
// number of others
func checkSizes(others int) func(w *World, s *GState) string {
	return func(w *World, s *GState) string {
		n := others
		for i, r := range roundsOf(w.local(s, 0)) {
			if k := len(r.opened.View.C.End); k != n || len(r.opened.View.C.Table) != n {
				return fmt.Sprintf("announcement %d: the table has %d entries, with %d clients and %d others in the first round", i+1, k, n-others, others)
			}
			n += len(r.joined)
			if r.ended != nil && len(r.ended.View.C.Begin) != n {
				return fmt.Sprintf("round end %d: the coordinator's table has %d entries, with %d clients and %d others in the first round", i+1, len(r.ended.View.C.Begin), n-others, others)
			}
			w.outcomes["sizes of tables"]++
		}
		return ""
	}
}

// launchedPlans: what may happen in a round, as far as the main loops matter
func launchedPlans() (l []plan) {
	end := func(l *Lab, between func()) bool {
		l.op(0, Input{Op: "vote"})
		between()
		l.op(0, Input{Op: "roundend"})
		return true
	}
	register := func(l *Lab) bool {
		if l.dv(2).HasFO {
			return false
		}
		l.op(cli(2), Input{Op: "register"})
		return true
	}
	return []plan{
		{"nothing", func(l *Lab) bool { return true }},
		{"client2 registers while bridges are posted", register},
		{"client2 registers while votes are cast", func(l *Lab) bool {
			ok := false
			return end(l, func() { ok = register(l) }) && ok
		}},
		{"client0 posts two bridges, client1 gets one and votes for it at the end", func(l *Lab) bool {
			l.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
			l.op(cli(0), Input{Op: "post", S: "2.2.2.2:2"})
			l.op(cli(1), Input{Op: "request", I: 1})
			return end(l, func() { l.op(cli(1), Input{Op: "castvote", I: 0, J: 1}) })
		}},
		{"client1 posts a bridge and gets three", func(l *Lab) bool {
			l.op(cli(1), Input{Op: "post", S: "3.3.3.3:3"})
			l.op(cli(1), Input{Op: "request", I: 3})
			return true
		}},
		{"client0 gets two, posts two and gets three", func(l *Lab) bool {
			l.op(cli(0), Input{Op: "request", I: 2})
			l.op(cli(0), Input{Op: "post", S: "1.1.1.1:1"})
			l.op(cli(0), Input{Op: "post", S: "4.4.4.4:4"})
			l.op(cli(0), Input{Op: "request", I: 3})
			l.op(cli(0), Input{Op: "castvote", I: 0, J: -1})
			return true
		}},
	}
}

// checkHandouts: what is assigned in a round was posted in it and is assigned once,
// as many as were asked for as long as there are any
func checkHandouts(w *World, s *GState) string {
	for i, r := range roundsOf(w.local(s, 0)) {
		where := fmt.Sprintf("round %d", i+1)
		posted, taken := map[string]bool{}, map[string]bool{}
		if len(r.opened.View.C.Bridges) > 0 {
			return where + " begins with bridges"
		}
		for _, l := range r.steps {
			if l == r.ending || l == r.ended {
				break
			}
			p, _ := l.In.Msg, 0
			if p == nil {
				continue
			}
			e := p.event().Params
			switch p.Type {
			case proto.POST_BRIDGE:
				a, _ := e["bridge_addr"].(string)
				posted[a] = true
			case proto.REQUEST_BRIDGES:
				want, _ := e["ind"].(int)
				if left := len(posted) - len(taken); want > left {
					want = left
				}
				got := 0
				for a, b := range l.View.C.Bridges {
					if b.Used && !taken[a] {
						if !posted[a] {
							return fmt.Sprintf("%s: %s is assigned and was not posted in it", where, a)
						}
						taken[a] = true
						got++
					}
				}
				w.outcomes["requests followed"]++
				if got != want {
					return fmt.Sprintf("%s: %d bridges are assigned to a request that is due %d", where, got, want)
				}
			}
			if n := len(l.View.C.Bridges); n != len(posted) {
				return fmt.Sprintf("%s: %d bridges are registered after %d have been posted, on %s", where, n, len(posted), l.In)
			}
		}
	}
	return ""
}

// launchedStart: from here on the main loops are the real ones
func launchedStart(r *Result, w *World) bool {
	if !instrumentedHere(r) {
		return false
	}
	launchedWarm()
	w.e.launched = true
	return true
}

// instrumented is set when the nodes' code hands its statements to the scheduler
var instrumented string

// launchedChain: the configuration by the real main loop, after servers have
// registered in any order
func launchedChain(n int) Job {
	return Job{Name: fmt.Sprintf("launched configuration of %d servers", n), Run: func(r *Result) {
		if !instrumentedHere(r) {
			return
		}
		perms := allPermutations(n)
		for _, o := range perms {
			e := newEngine()
			w := newWorld(e, n, 0)
			launchedWarm()
			e.launched = true
			l := &Lab{w: w, s: w.init, r: r}
			who := fmt.Sprint("servers in the order ", o)
			l.step("C12", []string{who}, func() bool {
				for _, i := range o {
					l.op(srv(i), Input{Op: "register"})
				}
				c := l.coord()
				d := e.step(c, Input{Op: "announce"})
				if d.Crashed != "" {
					panic(harnessCrash{"the coordinator stops on its configuration: " + firstLine(d.Crashed)})
				}
				// the announcement that comes next is left out
				x := *d
				x.Outs = nil
				for _, m := range d.Outs {
					if m.Type != proto.ANNOUNCEMENT {
						x.Outs = append(x.Outs, m)
					} else if m.point("HT") != d.View.C.HT {
						r.find("C12:launched:base", "%s: the first announcement has another base than the coordinator", who)
					}
				}
				l.put(&x)
				return true
			})
			r.States++
			r.Transitions += len(l.coord().path())
			r.eval(who)
			if msg := checkChain(w, l.s); msg != "" {
				r.find("C12:launched:"+shortKey(msg), "%s: %s", who, msg)
				return
			}
		}
	}}
}

func instrumentedHere(r *Result) bool {
	if instrumented == "" {
		r.Notes = append(r.Notes, "not built with the scheduler: the main loops are left out")
	}
	return instrumented != ""
}
