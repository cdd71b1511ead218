package main

// C23: a node's own actions against incoming messages, in every interleaving.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
)

func init() {
	register(&Prop{ID: "C23", Level: "model_checking", Budget: 85,
		Rule:   "states are points at which a goroutine could be preempted, transitions the steps between two statements, executions the schedules run on the real code",
		Assume: append([]string{"goroutines are preempted between statements of the nodes' packages, not within one; messages arrive one at a time, as the listener hands them on"}, protocolAssumptions...), Jobs: scheduleJobs})
}

type schedCase struct {
	name   string
	pos    string // where the main loop stands
	node   nodeID
	state  interface{}
	script []string
	msgs   []*Msg
	wait   int // how long nothing happens afterwards
}

func scheduleJobs(th bool) (jobs []Job) {
	add := func(name string, mk func(r *Result) []*schedCase) {
		jobs = append(jobs, Job{Name: name, Run: func(r *Result) { exploreAll(r, mk(r), th) }})
	}
	for _, pos := range []string{"configuration", "announcement", "posting", "voting", "round end"} {
		pos := pos
		parts := map[string]int{"configuration": 2, "announcement": 5, "posting": 4, "voting": 6, "round end": 6}[pos]
		for p := 0; p < parts; p++ {
			p := p
			add(fmt.Sprintf("coordinator: %s, part %d", pos, p), func(r *Result) (l []*schedCase) {
				for i, c := range coordCases(r, pos) {
					if i%parts == p {
						l = append(l, c)
					}
				}
				return
			})
		}
	}
	for _, cmd := range []string{"post 192.0.2.7:1", "get 1", "vote 0 1", "start"} {
		cmd := cmd
		parts := 2
		for p := 0; p < parts; p++ {
			p := p
			add(fmt.Sprintf("client: %s, part %d", cmd, p), func(r *Result) (l []*schedCase) {
				for i, c := range clientCases(r, cmd) {
					if i%parts == p {
						l = append(l, c)
					}
				}
				return
			})
		}
	}
	add("server: start", serverCases)
	return
}

// until lets a step and everything that follows from it happen, in one order, and
// collects what reaches a node, undelivered from the first message of a kind on
func (l *Lab) until(n nodeID, in Input, to nodeID, typ int) (at *Local, found []*Msg) {
	loc := map[nodeID]*Local{}
	get := func(n nodeID) *Local {
		if loc[n] == nil {
			loc[n] = l.w.local(l.s, n)
		}
		return loc[n]
	}
	e := l.w.e
	var queue []*Msg
	do := func(n nodeID, in Input) {
		d := e.step(get(n), in)
		if d.Crashed != "" {
			panic(harnessCrash{fmt.Sprintf("%s stops on %s: %s", n, in, firstLine(d.Crashed))})
		}
		loc[n] = d
		queue = append(queue, d.Outs...)
	}
	do(n, in)
	for len(queue) > 0 {
		m := queue[0]
		queue = queue[1:]
		if m.To == to && (m.Type == typ || len(found) > 0) {
			found = append(found, m)
			continue
		}
		do(m.To, Input{Msg: m})
	}
	return get(to), found
}

func coordCases(r *Result, pos string) (l []*schedCase) {
	add := func(name string, at *Local, script []string, msgs ...*Msg) {
		if at == nil || len(msgs) == 0 || msgs[0] == nil {
			r.find("C23:setup:"+shortKey(name), "%s, %s: the message does not come about", pos, name)
			return
		}
		l = append(l, &schedCase{name: name, pos: pos, node: 0, state: at.state, script: script, msgs: msgs})
	}
	one := func(ms []*Msg) *Msg {
		if len(ms) == 0 {
			return nil
		}
		return ms[0]
	}
	enter := []string{""}
	if pos == "configuration" {
		e := newEngine()
		w := newWorld(e, 3, 2)
		lab := &Lab{w: w, s: w.init, r: r}
		lab.op(srv(0), Input{Op: "register"})
		lab.op(srv(1), Input{Op: "register"})
		at, ms := lab.until(srv(2), Input{Op: "register"}, 0, proto.SERVER_REGISTER)
		add("another server registers", at, enter, one(ms))
		at, ms = lab.until(srv(2), Input{Op: "register"}, 0, proto.UPDATE_PEDERSEN_H)
		add("another server has updated h", at, enter, one(ms))
		at, ms = lab.until(cli(0), Input{Op: "register"}, 0, proto.CLIENT_REGISTER_CONTROLLERSIDE)
		add("a client registers early", at, enter, one(ms))
		c := e.addMsg(cli(1), 0, lab.grab(cli(1), Input{Op: "register"}))
		add("two clients register early", at, enter, one(ms), c)
		// an announcement of clients who registered before
		lab = lab.fork()
		lab.op(cli(0), Input{Op: "register"})
		add("a client registers after another one", lab.coord(), enter, c)
		return
	}
	e := newEngine()
	w := newWorld(e, 2, 3)
	lab := &Lab{w: w, s: w.members(1, 2), r: r}
	lab.endRound()
	reg := func(x *Lab) *Msg { return e.addMsg(cli(2), 0, x.grab(cli(2), Input{Op: "register"})) }
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.1:1"})
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.2:2"})
	lab.op(cli(1), Input{Op: "request", I: 1})
	post := e.addMsg(cli(0), 0, lab.grab(cli(0), Input{Op: "post", S: "192.0.2.9:9"}))
	request := e.addMsg(cli(1), 0, lab.grab(cli(1), Input{Op: "request", I: 0}))
	request2 := e.addMsg(cli(0), 0, lab.grab(cli(0), Input{Op: "request", I: 1}))
	vote := e.addMsg(cli(1), 0, lab.grab(cli(1), Input{Op: "castvote", I: 0, J: 1}))
	// two phase changes, one after the other
	further := func(name string, at *Local, msgs ...*Msg) {
		add("two phase changes, "+name, at, []string{"", ""}, msgs...)
	}
	switch pos {
	case "posting", "voting":
		if pos == "posting" {
			x := lab.fork()
			c := x.coord()
			x.op(0, Input{Op: "vote"})
			_, ms := x.until(0, Input{Op: "roundend"}, 0, proto.ROUND_END)
			further("and the round has ended", c, one(ms))
			further("a vote", c, vote)
			l = append(l, &schedCase{name: "two phase changes", pos: pos, node: 0, state: c.state, script: []string{"", ""}})
		}
		if pos == "voting" {
			lab.op(0, Input{Op: "vote"})
		}
		c := lab.coord()
		add("a client registers", c, enter, reg(lab))
		at, ms := lab.until(cli(2), Input{Op: "register"}, 0, proto.CLIENT_REGISTER_SERVERSIDE)
		add("a registration comes back from the servers", at, enter, one(ms))
		if pos == "voting" {
			// the round's end has been put off, and the user goes on typing
			d := e.step(at, Input{Op: "roundend"})
			if d.Crashed == "" {
				add("a registration comes back after the round should have ended", d, enter, one(ms))
				l[len(l)-1].pos = "round end"
				l[len(l)-1].script = nil
				add("a registration comes back after the round should have ended, and another client registers", d, enter, one(ms), reg(lab))
				l[len(l)-1].pos = "round end"
				l[len(l)-1].script = nil
			}
		}
		at, ms = lab.until(cli(2), Input{Op: "register"}, 0, proto.GN_HONESTY_CHALLENGE)
		add("a client's challenge", at, enter, one(ms))
		add("a post", c, enter, post)
		add("a request", c, enter, request)
		at, ms = lab.until(cli(0), Input{Op: "request", I: 1}, 0, proto.GOT_SIGNS)
		add("a server's signature", at, enter, one(ms))
		if len(ms) > 1 {
			add("two servers' signatures", at, enter, ms[0], ms[1])
		}
		add("a vote", c, enter, vote)
		add("a vote and a post", c, enter, vote, post)
		add("a request and a vote", c, enter, request2, vote)
	case "announcement":
		lab.op(0, Input{Op: "vote"})
		lab.op(0, Input{Op: "roundend"})
		lab.op(0, Input{Op: "clear"})
		at, ms := lab.until(0, Input{Op: "announce"}, 0, proto.ANNOUNCEMENT)
		fin := one(ms)
		add("the announcement is finished", at, enter, fin)
		add("the announcement is finished, and a client registers", at, enter, fin, reg(lab))
		add("a client registers, and the announcement is finished", at, enter, reg(lab), fin)
		add("the announcement is finished, and an old post arrives", at, enter, fin, post)
		add("an old vote, and the announcement is finished", at, enter, vote, fin)
	case "round end":
		lab.op(0, Input{Op: "vote"})
		at, ms := lab.until(0, Input{Op: "roundend"}, 0, proto.ROUND_END)
		fin := one(ms)
		add("the round has ended", at, nil, fin)
		add("the round has ended, and a client registers", at, nil, fin, reg(lab))
		add("a client registers, and the round has ended", at, nil, reg(lab), fin)
		add("the round has ended, and an old post arrives", at, nil, fin, post)
		add("a late vote, and the round has ended", at, nil, vote, fin)
		add("the round has ended, and a late request arrives", at, nil, fin, request)
	}
	return
}

func clientCases(r *Result, cmd string) (l []*schedCase) {
	e := newEngine()
	w := newWorld(e, 2, 3)
	lab := &Lab{w: w, s: w.members(1, 2), r: r}
	lab.endRound()
	n := cli(1)
	add := func(name string, at *Local, script []string, msgs ...*Msg) {
		if at == nil || len(msgs) == 0 || msgs[0] == nil {
			r.find("C23:setup:"+shortKey(name), "%s, %s: the message does not come about", cmd, name)
			return
		}
		pos := "prompt"
		if cmd == "start" {
			pos = "start"
		}
		l = append(l, &schedCase{name: name, pos: pos, node: at.Node, state: at.state, script: script, msgs: msgs})
	}
	if cmd == "start" {
		at, ms := lab.until(cli(2), Input{Op: "register"}, cli(2), proto.CLIENT_REGISTER_CONFIRMATION)
		if len(ms) > 0 {
			add("confirmation", at, []string{"post 192.0.2.7:1"}, ms[0])
		}
		at, ms = lab.until(cli(2), Input{Op: "register"}, cli(2), proto.GN_HONESTY_ANSWER)
		if len(ms) > 0 {
			add("answer", at, []string{"get 0"}, ms[0])
		}
		lab.op(cli(2), Input{Op: "register"})
		lab.op(0, Input{Op: "vote"})
		lab.op(0, Input{Op: "roundend"})
		lab.op(0, Input{Op: "clear"})
		at, ms = lab.until(0, Input{Op: "announce"}, cli(2), proto.ANNOUNCEMENT_FINALIZE)
		for _, c := range []string{"post 192.0.2.7:1", "get 0", "vote 0 1"} {
			add("announcement, "+c, at, []string{c}, ms...)
		}
		return
	}
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.1:1"})
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.2:2"})
	lab.op(n, Input{Op: "request", I: 1})
	script := []string{cmd}
	for _, cmds := range []string{"post 192.0.2.8:1", "get 1", "vote 0 1"} {
		c := w.local(lab.s, n)
		l = append(l, &schedCase{name: "two commands, " + cmds, pos: "prompt", node: n, state: c.state, script: []string{cmd, cmds}})
	}
	me := func(at *Local) *Local { return at }
	at, ms := lab.until(0, Input{Op: "vote"}, n, proto.VOTE)
	add("voting begins", me(at), script, ms...)
	at, ms = lab.until(n, Input{Op: "request", I: 1}, n, proto.GOT_SIGNS)
	add("a bridge arrives", at, script, ms...)
	lab.op(n, Input{Op: "castvote", I: 0, J: 1})
	early, vs := lab.until(0, Input{Op: "vote"}, n, proto.VOTE)
	lab.op(0, Input{Op: "vote"})
	lab.op(cli(2), Input{Op: "register"})
	at, ms = lab.until(0, Input{Op: "roundend"}, n, proto.BCAST_PEDERSEN_RDIFF)
	rest := append(append([]*Msg{}, vs...), ms...)
	add("voting begins, and the round ends", early, script, rest...)
	if len(ms) > 0 {
		add("differences of the round", at, script, ms[0])
	}
	add("differences and the round's end", at, script, ms...)
	if len(ms) > 1 {
		add("the round's end", e.step(at, Input{Msg: ms[0]}), script, ms[1])
	}
	lab.op(0, Input{Op: "roundend"})
	lab.op(0, Input{Op: "clear"})
	before := at
	at, ms = lab.until(0, Input{Op: "announce"}, n, proto.ANNOUNCEMENT_FINALIZE)
	add("the next announcement", at, script, ms...)
	add("the round ends, and the next announcement", before, script, append(rest[len(vs):len(rest):len(rest)], ms...)...)
	return
}

func serverCases(r *Result) (l []*schedCase) {
	e := newEngine()
	w := newWorld(e, 3, 1)
	lab := &Lab{w: w, s: w.init, r: r}
	lab.op(srv(0), Input{Op: "register"})
	at, ms := lab.until(srv(1), Input{Op: "register"}, srv(1), proto.SERVER_REGISTER_REPLY)
	if len(ms) == 0 {
		r.find("C23:setup:server", "a server's registration is not answered")
		return
	}
	l = append(l, &schedCase{name: "registered", pos: "start", node: srv(1), state: at.state, msgs: ms})
	return
}

// phases is the main loop of a coordinator from a case's beginning on, with every
// phase change in one piece: what the real one is compared with
func phases(pos string, state *coordinator.Coordinator) {
	key := func() {
		var b [64]byte
		os.Stdin.Read(b[:])
	}
	next := func() { schedYield("next") }
	until := func(status int) {
		for state.Status != status {
			schedSleep(0)
		}
	}
	schedSleep(0)
	first := pos == "configuration"
	at := map[string]int{"configuration": 0, "round end": 1, "announcement": 2, "posting": 3, "voting": 4}[pos]
	for {
		switch at {
		case 0:
			key()
			next()
			coordinator.VerifConfigCommParams()
			next()
			state.Status = coordinator.READY_FOR_NEW_ROUND
		case 1:
			until(coordinator.READY_FOR_NEW_ROUND)
			if first && laterFakes > 0 { // unless that is remembered by the main loop alone
				next()
				coordinator.VerifAddFakeClients(laterFakes)
			}
			first = false
			next()
			coordinator.VerifClearBuffer()
			next()
			state.Status = coordinator.ANNOUNCE
			next()
			coordinator.VerifAnnounce()
		case 2:
			until(coordinator.MESSAGE)
		case 3:
			key()
			next()
			coordinator.VerifVote()
			next()
		case 4:
			key()
			next()
			coordinator.VerifRoundEnd()
			at = 0
		}
		at++
	}
}

// reference starts the reference's main loop instead of the real one
func reference(c *schedCase, key string) (s *sched, main *thread, state interface{}) {
	s = newSched(key)
	state = deepCopy(c.state)
	x := state.(*coordinator.Coordinator)
	coordinator.VerifSet(x)
	main = s.launch(func() { phases(c.pos, x) })
	if !s.idle(main, c.pos != "announcement" && c.pos != "round end") {
		s.cause = "cannot bring the reference to its place"
	}
	return
}

// position starts the real main loop and brings it to where the case begins
func position(c *schedCase, key string) (s *sched, main *thread, state interface{}) {
	s = newSched(key)
	fail := func(what string) {
		s.cause = "the main loop does not come to its " + what
		s.displaced = true
	}
	state = deepCopy(c.state)
	switch c.node.kind() {
	case kCoord:
		main = s.launch(coordinator.Launch)
		if !s.idle(main, true) {
			fail("configuration")
			return
		}
		switch c.pos {
		case "announcement":
			// one that never ends
			adoptState(deepCopy(c.state))
			s.key_("")
			if !s.idle(main, false) {
				fail("announcement")
			}
		case "posting", "voting", "round end":
			s.key_("")
			if !s.idle(main, true) {
				fail("posting")
				return
			}
			if c.pos == "posting" {
				break
			}
			s.key_("")
			if !s.idle(main, true) {
				fail("voting")
				return
			}
			if c.pos == "voting" {
				break
			}
			adoptState(deepCopy(c.state))
			s.key_("")
			if !s.idle(main, false) {
				fail("round end")
			}
		}
		state = adoptState(state)
	case kClient:
		main = s.launch(client.Launch)
		if !s.idle(main, false) {
			fail("start")
			return
		}
		if c.pos == "prompt" {
			x := deepCopy(c.state).(*client.DissentClient)
			x.Status = client.MESSAGE
			adoptState(x)
			if !s.idle(main, true) {
				fail("prompt")
				return
			}
		}
		state = adoptState(state)
	case kServer:
		must(os.MkdirAll("config", 0755))
		must(os.WriteFile("config/local.properties", []byte("local_port=0\n"), 0644))
		must(os.WriteFile("config/conn.properties", []byte("coordinator_ip=127.0.0.1\ncoordinator_port=10001\n"), 0644))
		main = s.launch(server.Launch)
		if !s.idle(main, false) {
			fail("start")
			return
		}
		state = adoptState(state)
	}
	return
}

// adoptState gives the node that the main loop has made the state of a case
// fields the nodes' states have had from the start; others belong to the node's main
// loop as long as no handler gives them a value
var stateFields = " LocalAddr ServerList PendingServers UpdatingPedersenH Status Suite PrivateKey PublicKey G Clients BeginningKeyMap BeginningCommMap NewClientsBuffer PendingClients RegistrationsInFlight RoundEndPostponed MsgLog AssignmentSignaturesLog RequesterAddrs VoteRecords VotedAssignments Bridges EndingKeyMap EndingCommMap ReputationDiffMap AllClientsPublicKeys PedersenBase FujiOkamBase LRSBase AllGnHonestyProofSecret AllGnHonestyProofPublic HonestyProofSecrets CoordinatorAddr Socket ControllerPublicKey OnetimePseudoNym Reputation Index Assignments PCommr R AllGnHonestyChallenge IsConnected NextHop PreviousHop KeyMap A Roundkey "

// ownFields gives f every flag and number of a state (two of them) which is not one of
// stateFields
func ownFields(a, b interface{}, f func(x, y reflect.Value)) {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < x.NumField(); i++ {
		switch x.Field(i).Kind() {
		case reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint64, reflect.Int32, reflect.Uint32:
			if x.Field(i).CanSet() && !strings.Contains(stateFields, " "+x.Type().Field(i).Name+" ") {
				f(x.Field(i), y.Field(i))
			}
		}
	}
}

// keepOwn makes the launched state dst what src is, but for what the main loop has
// put down for itself
func keepOwn(dst, src interface{}) interface{} {
	v := reflect.New(reflect.TypeOf(src).Elem())
	v.Elem().Set(reflect.ValueOf(src).Elem())
	own := v.Interface()
	ownFields(own, dst, func(o, d reflect.Value) {
		if o.IsZero() {
			o.Set(d)
		}
	})
	reflect.ValueOf(dst).Elem().Set(v.Elem())
	return dst
}

func adoptState(state interface{}) interface{} {
	switch x := state.(type) {
	case *coordinator.Coordinator:
		if d := coordinator.VerifGet(); d != nil {
			return keepOwn(d, x)
		}
		coordinator.VerifSet(x)
	case *client.DissentClient:
		if d := client.VerifGet(); d != nil {
			return keepOwn(d, x)
		}
		client.VerifSet(x)
	case *server.AnonServer:
		if d := server.VerifGet(); d != nil {
			return keepOwn(d, x)
		}
		server.VerifSet(x)
	}
	return state
}

// execute runs one schedule
func execute(c *schedCase, prefix []int, bound int, ref, orders bool) (s *sched, cs []choice, serial bool, outcome string) {
	start := position
	if ref {
		start = reference
	}
	s, main, state := start(c, c.pos+c.name)
	if s.cause != "" {
		s.finish()
		return
	}
	s.script = append([]string(nil), c.script...)
	s.begin(main, func() {
		for i, m := range c.msgs {
			if i > 0 {
				schedYield("next")
			}
			switch x := state.(type) {
			case *coordinator.Coordinator:
				coordinator.Handle(m.Bytes, x)
			case *client.DissentClient:
				client.Handle(m.Bytes, x)
			case *server.AnonServer:
				server.Handle(m.Bytes, x)
			}
		}
	})
	s.orders = orders
	cs, _, serial = s.run(prefix, bound)
	s.pass(c.wait)
	outcome = s.outcome(state)
	s.finish()
	return
}

func exploreAll(r *Result, cases []*schedCase, th bool) {
	if coordYield == nil && newSched("") == nil {
		return
	}
	fewPrimes()
	// the main loop of a process that has been through its first round
	for _, c := range cases {
		exploreSchedules(r, c, th)
		if r.late() || len(r.Findings) >= 3 {
			return
		}
	}
}

func exploreSchedules(r *Result, c *schedCase, th bool) {
	bound := 1
	if th {
		bound = 2
	}
	who := fmt.Sprintf("%s, %s: %s", c.node, c.pos, c.name)
	serials := map[string]bool{}
	if c.node == 0 { // fakes are only added in the first round
		launchedWarm()
	}
	n, refs := 0, 0
	walk := func(ref, orders bool, bound int) bool {
		work := [][]int{nil}
		for len(work) > 0 {
			if r.late() {
				return false
			}
			p := work[len(work)-1]
			work = work[:len(work)-1]
			stepWhat.Store(who)
			atomic.StoreInt64(&stepStart, time.Now().UnixNano())
			s, cs, serial, out := execute(c, p, bound, ref, orders)
			atomic.StoreInt64(&stepStart, 0)
			if os.Getenv("VERIF_SCHED") != "" {
				fmt.Fprintln(os.Stderr, "schedule", who, ref, len(p), len(cs), serial, s.trace(cs), "stuck:", s.stuck(), s.cause)
			}
			if s.displaced && len(p) == 0 { // the rounds before it do not get there
				r.find("C23:place:"+shortKey(c.pos), "%s: %s", who, s.cause)
				return false
			}
			if s.cause != "" {
				r.Diverged++
				if len(r.Notes) < 5 {
					r.Notes = append(r.Notes, who+": "+s.cause)
				}
				continue
			}
			if ref {
				refs++
			} else {
				n++
				r.Traces++
				r.Transitions += len(cs)
				r.States += len(cs) - len(p)
			}
			if x := s.stuck(); x != "" {
				r.find("C23:stuck:"+shortKey(who), "%s: nothing goes on any more (%s): %s", who, x, s.trace(cs))
				return false
			}
			if serial {
				serials[out] = true
				for _, t := range s.threads {
					if t.crashed != "" {
						r.find("C23:stops:"+shortKey(who), "%s: %s stops: %s", who, t.name, t.crashed)
						return false
					}
				}
			}
			if !orders && !serials[out] {
				ref := ""
				for x := range serials {
					if ref == "" || len(diffText(x, out)) < len(diffText(ref, out)) {
						ref = x
					}
				}
				r.find("C23:interleaved:"+shortKey(who), "%s: the outcome of an interleaving is that of no order: %s; it differs in %s", who, s.trace(cs), diffText(ref, out))
				return false
			}
			for i := len(p); i < len(cs); i++ {
				for _, o := range cs[i].options {
					if o != cs[i].taken {
						q := make([]int, i+1)
						for k := 0; k < i; k++ {
							q[k] = cs[k].taken
						}
						q[i] = o
						work = append(work, q)
					}
				}
			}
		}
		return true
	}
	// the outcomes of all orders come first, then the interleavings
	if c.node == 0 && !walk(true, true, 0) || !walk(false, true, 0) {
		return
	}
	if len(serials) == 0 {
		r.Capped = who + ": there is no schedule in one piece"
		return
	}
	if !walk(false, false, bound) {
		return
	}
	r.count("cases", 1)
	r.count("schedules", n)
	r.count("reference schedules", refs)
	r.count("serial outcomes", len(serials))
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, fmt.Sprintf("%s: %d schedules, %d outcomes in one piece", who, n, len(serials)))
	}
}

// diffText names the lines in which two outcomes differ
func diffText(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := map[string]bool{}
	for _, l := range x {
		in[l] = true
	}
	var d []string
	for _, l := range y {
		if !in[l] {
			if len(l) > 60 {
				l = l[:60] + "..."
			}
			d = append(d, l)
		}
	}
	if len(d) == 0 {
		return "lines left out"
	}
	return strings.Join(d, " | ")
}

// fewPrimes: the primes of nodes started from here on are soon replaced by a case's
func fewPrimes() {
	if d, err := exec.LookPath("openssl"); err == nil {
		for _, f := range []string{"safe", "unsafe"} {
			f = filepath.Join(filepath.Dir(d), f)
			if _, err := os.Stat(f); err == nil { // the stand-in's own
				must(os.WriteFile(f, []byte("2027\n2039\n2063\n2099\n"), 0644))
			}
		}
	}
}
