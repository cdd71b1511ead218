package main

// C24: every event is handled exactly once, intact and in order, however it travels.

import (
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/random"
)

func init() {
	register(&Prop{ID: "C24", Level: "model_checking", Budget: 120,
		Rule: "states are points at which another goroutine or connection could go on, transitions the steps between them, executions the schedules run on the real code over real connections; distinct by case and schedule",
		Assume: []string{"connections between live nodes do not break; a connection delivers what was written, in order, and then its end",
			"goroutines the nodes' code starts while messages are handled are preempted between statements of the nodes' packages and of the sending functions"}, Jobs: networkJobs})
}

// network is what the connections of a schedule carry: the real ones carry it too,
// but how far they have got is the explorer's choice
type network struct {
	queue  map[string][]string // connections waiting at a port
	pipes  map[string]*pipe    // by their two ends
	stream *prfStream
	cuts   int  // partial deliveries in a schedule
	lazy   bool // the node's steps come last
	clock  int
}

// senders: as long as the node handles its messages in a single goroutine, what it
// reads depends on the order of the senders' steps and on the pieces alone, not on
// when it reads: it goes on either always first or always last
func (s *sched) senders(l []int, lazy bool) []int {
	var a, b []int
	for _, o := range l {
		if s.threads[o].sender {
			a = append(a, o)
		} else {
			b = append(b, o)
		}
	}
	if lazy && len(a) > 0 || len(b) == 0 {
		return a
	}
	return b
}

type pipe struct {
	avail    int
	eof      bool
	deadline bool
}

func (n *network) pipe(from, to string) *pipe {
	k := from + ">" + to
	if n.pipes[k] == nil {
		n.pipes[k] = &pipe{}
	}
	return n.pipes[k]
}

func port(addr string) string { return addr[strings.LastIndex(addr, ":")+1:] }

func schedNet(op, local, remote string, n int) int {
	g := goid()
	if _, ok := schedDoomed.Load(g); ok {
		return -1
	}
	s := schedNow
	if s == nil || s.net == nil || s.foreign[g] {
		return -1
	}
	w := s.net
	switch op {
	case "dial", "write", "close":
		s.pause(tReady, "net "+op)
	case "dialed":
		w.queue[port(remote)] = append(w.queue[port(remote)], local)
	case "wrote":
		w.pipe(local, remote).avail += n
	case "closed":
		w.pipe(local, remote).eof = true
	case "deadline":
		w.pipe(remote, local).deadline = n == 1
		return 0
	case "accept":
		s.pauseNet("net accept", func() bool { return len(w.queue[port(local)]) > 0 }, nil)
		if len(w.queue[port(local)]) == 0 { // let go at a schedule's end
			return -1
		}
		w.queue[port(local)] = w.queue[port(local)][1:]
	case "read":
		p := w.pipe(remote, local)
		sizes := func() []int {
			m := p.avail
			if m > n {
				m = n
			}
			l := []int{m}
			for _, k := range []int{1, m / 2, m - 1} {
				if k > 0 && k != l[len(l)-1] && k < m {
					l = append(l, k)
				}
			}
			if p.deadline { // it may also take too long
				l = append(l, -2)
			}
			return l
		}
		t := s.pauseNet("net read", func() bool { return p.avail > 0 || p.eof }, func() int { return len(sizes()) })
		m := sizes()[t.piece]
		if m > 0 {
			p.avail -= m
		}
		return m
	}
	return 0
}

func (s *sched) pauseNet(where string, ready func() bool, pieces func() int) *thread {
	g := goid()
	s.mu.Lock()
	t := s.byGid[g]
	if t == nil {
		t = s.add(fmt.Sprintf("goroutine %d", len(s.threads)), g)
	}
	t.ready, t.pieces = ready, pieces
	s.mu.Unlock()
	s.pause(tNet, where)
	return t
}

type netCase struct {
	name    string
	node    nodeID
	state   interface{}
	msgs    []*Msg
	senders [][]int // who sends which messages
	due     string  // what comes of the messages in their order
}

func (c *netCase) String() string {
	return fmt.Sprintf("%s: %s, sent %v", c.node, c.name, c.senders)
}

func handleAt(state interface{}, b []byte) {
	switch x := state.(type) {
	case *coordinator.Coordinator:
		coordinator.Handle(b, x)
	case *client.DissentClient:
		client.Handle(b, x)
	case *server.AnonServer:
		server.Handle(b, x)
	}
}

func setState(state interface{}) {
	switch x := state.(type) {
	case *coordinator.Coordinator:
		coordinator.VerifSet(x)
	case *client.DissentClient:
		client.VerifSet(x)
	case *server.AnonServer:
		server.VerifSet(x)
	}
}

func (c *netCase) launcher() (launch func()) {
	switch c.node.kind() {
	case kCoord:
		launch = coordinator.Launch
	case kClient:
		launch = client.Launch
	case kServer:
		must(os.MkdirAll("config", 0755))
		must(os.WriteFile("config/local.properties", []byte("local_port=0\n"), 0644))
		must(os.WriteFile("config/conn.properties", []byte("coordinator_ip=127.0.0.1\ncoordinator_port=10001\n"), 0644))
		launch = server.Launch
	}
	return
}

func (s *sched) netOutcome(state interface{}) string {
	by := map[string][]string{}
	for _, m := range s.sends {
		by[m.to] = append(by[m.to], m.bytes)
	}
	var l []string
	for to, ms := range by {
		l = append(l, fmt.Sprintf("to %s: %d messages %q", to, len(ms), ms))
	}
	sort.Strings(l)
	return strings.Join(l, "\n") + "\n" + dump(state)
}

func (s *sched) record(target *string) {
	util.VerifSend = func(raddr *net.TCPAddr, content []byte) bool {
		if *target != "" && raddr.String() == *target {
			return false
		}
		c, _ := canonical(content)
		s.mu.Lock()
		s.sends = append(s.sends, schedSend{0, raddr.String(), string(c)})
		s.mu.Unlock()
		return true
	}
}

// direct hands the messages to the node one after the other, without a network
func (c *netCase) direct(order []int) (out, crash string) {
	s := newSched("direct")
	s.net = &network{stream: newPRF(prfKey("network"))}
	none := ""
	s.record(&none)
	random.Stream = s
	state := deepCopy(c.state)
	setState(state)
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				crash = crashText(x)
			}
		}()
		for _, i := range order {
			handleAt(state, append([]byte(nil), c.msgs[i].Bytes...))
		}
	}()
	<-done
	out = s.netOutcome(state)
	random.Stream = nil
	util.VerifSend = nil
	return
}

type span struct{ from, to int }

// execute runs one schedule over real connections
func (c *netCase) execute(prefix []int, bound, cuts int, lazy bool) (s *sched, cs []choice, spans []span, out string) {
	s = newSched("network")
	w := &network{queue: map[string][]string{}, pipes: map[string]*pipe{}, stream: newPRF(prfKey("network")), cuts: cuts, lazy: lazy}
	target := "?"
	s.record(&target)
	state := deepCopy(c.state)
	w.stream = newPRF(prfKey("network start"))
	s.net = w
	netHook = schedNet
	main := s.launch(c.launcher())
	// until its listener waits and the main goroutine has come to rest
	for t0 := time.Now(); ; {
		for len(s.ev) > 0 {
			s.apply(<-s.ev)
		}
		n := 0
		for _, t := range s.threads[1:] {
			if t.state == tNet {
				n++
			}
		}
		gs := goroutines()
		rest := waiting(gstate(gs[main.gid])) || strings.Contains(gs[main.gid], "main.schedSleep")
		for g, st := range gs {
			if g != main.gid && strings.Contains(st, "zRep/cmd/") && !waiting(gstate(st)) {
				rest = false
			}
		}
		if n > 0 && rest && len(s.ev) == 0 {
			break
		}
		if time.Since(t0) > 15*time.Second {
			s.cause = "the listener does not start"
			s.displaced = true
			s.finish()
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
	if len(schedListeners) == 0 {
		s.cause, s.displaced = "no listener", true
		s.finish()
		return
	}
	for g := range goroutines() {
		if s.byGid[g] == nil || g == main.gid {
			s.foreign[g] = true
		}
	}
	main.state = tInput
	a := schedListeners[0].Addr().(*net.TCPAddr)
	to := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: a.Port}
	target = to.String()
	setState(state)
	w.stream = newPRF(prfKey("network"))
	s.sends = nil
	spans = make([]span, len(c.msgs))
	var mine []*thread
	for i, list := range c.senders {
		list := list
		started := make(chan *thread)
		name := fmt.Sprintf("sender %d", i+1)
		go func() {
			s.mu.Lock()
			t := s.add(name, goid())
			t.state, t.border, t.sender = tReady, true, true
			s.mu.Unlock()
			started <- t
			defer func() {
				if x := recover(); x != nil {
					t.crashed = crashText(x)
				}
				s.ev <- schedEvent{t, tDone, "the end"}
			}()
			<-t.resume
			for k, m := range list {
				if k > 0 {
					s.pause(tReady, "net next")
				}
				ev := decodeEvent(c.msgs[m].Bytes)
				from, err := net.ResolveTCPAddr("tcp", ev.SrcAddr)
				must(err)
				w.clock++
				spans[m].from = w.clock
				util.SendEvent(from, to, ev)
				w.clock++
				spans[m].to = w.clock
			}
		}()
		mine = append(mine, <-started)
	}
	s.active = true
	s.all = len(s.threads)-len(mine) > 2 // more than one goroutine listens
	cs, _, _ = s.run(prefix, bound)
	out = s.netOutcome(state)
	for _, t := range s.threads {
		if t.crashed != "" && s.cause == "" {
			s.trouble = t.name + " stops: " + t.crashed
		}
	}
	for _, t := range mine {
		if t.state != tDone && s.trouble == "" {
			s.trouble = t.name + " does not finish, after " + t.where
		}
	}
	at := false
	for _, t := range s.threads[1:] {
		at = at || t.state == tNet && t.where == "net accept"
	}
	if !at && s.trouble == "" {
		s.trouble = "the listener does not come back"
	}
	s.finish()
	return
}

// plain sends the messages one after the other, with nothing under control
func (c *netCase) plain(r *Result) {
	s := newSched("plain")
	s.net = &network{stream: newPRF(prfKey("network start"))}
	target := "?"
	s.record(&target)
	state := deepCopy(c.state)
	main := s.launch(c.launcher())
	accepting := func() bool {
		gs := goroutines()
		n := 0
		for g, st := range gs {
			if g != main.gid && strings.Contains(st, "zRep/cmd/") {
				if gstate(st) != "IO wait" || !strings.Contains(st, "AcceptTCP") && !strings.Contains(st, ".Accept(") {
					return false
				}
				n++
			}
		}
		return n > 0 && (waiting(gstate(gs[main.gid])) || strings.Contains(gs[main.gid], "main.schedSleep"))
	}
	wait := func(f func() bool) bool {
		for t0 := time.Now(); time.Since(t0) < 15*time.Second; time.Sleep(time.Millisecond) {
			if f() {
				return true
			}
		}
		return false
	}
	defer s.finish()
	if !wait(accepting) || len(schedListeners) == 0 {
		r.find("C24:start:"+c.node.String(), "%s: the listener does not start", c)
		return
	}
	to := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: schedListeners[0].Addr().(*net.TCPAddr).Port}
	target = to.String()
	setState(state)
	s.mu.Lock()
	s.net.stream, s.sends = newPRF(prfKey("network")), nil
	s.mu.Unlock()
	for _, m := range c.msgs {
		ev := decodeEvent(m.Bytes)
		from, err := net.ResolveTCPAddr("tcp", ev.SrcAddr)
		must(err)
		util.SendEvent(from, to, ev)
	}
	out := ""
	ref := c.due
	if !wait(func() bool {
		if !accepting() {
			return false
		}
		out = s.netOutcome(state)
		return out == ref
	}) {
		r.find("C24:plain:"+shortKey(c.name), "%s: sent over plain connections, what came of it is not what comes of handling each event once in order: it differs in %s", c, diffText(ref, out))
		return
	}
	r.count("plain runs", 1)
	r.Traces++
	r.eval("plain " + c.String())
}

func plainJob(r *Result, mk func(r *Result, plain bool) []*netCase) {
	for _, c := range mk(r, true) {
		order := []int{}
		for i := range c.msgs {
			order = append(order, i)
		}
		if len(c.senders) > 1 {
			continue
		}
		out, crash := c.direct(order)
		if crash != "" {
			r.find("C24:case:"+shortKey(c.name), "%s: handled directly, the node stops: %s", c, crash)
			return
		}
		c.due = out
		fewPrimes()
		c.plain(r)
		if len(r.Findings) > 2 || r.late() {
			return
		}
	}
}

func networkJobs(th bool) (jobs []Job) {
	type group struct {
		name string
		mk   func(r *Result, plain bool) []*netCase
	}
	for _, g := range []group{{"coordinator", coordNetCases}, {"client", clientNetCases}, {"server", serverNetCases}} {
		g := g
		parts := map[string]int{"coordinator": 8, "client": 3, "server": 4}[g.name]
		for p := 0; p < parts; p++ {
			p := p
			jobs = append(jobs, Job{Name: fmt.Sprintf("%s, part %d", g.name, p), Run: func(r *Result) {
				all := g.mk(r, false)
				fewPrimes()
				for i, c := range all {
					if i%parts == p && len(r.Findings) < 3 && !r.late() {
						c.explore(r, th)
					}
				}
			}})
		}
		jobs = append(jobs, Job{Name: g.name + ", plain", Run: func(r *Result) { plainJob(r, g.mk) }})
	}
	return
}

func (c *netCase) explore(r *Result, th bool) {
	bound, cuts := 1, 1
	if th {
		bound, cuts = 2, 2
	}
	for _, m := range c.msgs {
		if len(c.msgs) > 1 && len(m.Bytes) > 20000 || len(c.msgs) > 2 && !th {
			cuts = 0
		}
	}
	who := c.String()
	type ref struct{ out, crash string }
	refs := map[string]ref{}
	refOf := func(order []int) ref {
		k := fmt.Sprint(order)
		x, ok := refs[k]
		if !ok {
			x.out, x.crash = c.direct(order)
			refs[k] = x
		}
		return x
	}
	n := 0
	judged := map[string]string{} // spans and outcome
	type task struct {
		prefix []int
		lazy   bool
	}
	work := []task{{nil, true}, {nil, false}}
	for len(work) > 0 {
		if r.late() {
			return
		}
		job := work[len(work)-1]
		p := job.prefix
		work = work[:len(work)-1]
		stepWhat.Store(who)
		atomic.StoreInt64(&stepStart, time.Now().UnixNano())
		s, cs, spans, out := c.execute(p, bound, cuts, job.lazy)
		atomic.StoreInt64(&stepStart, 0)
		if os.Getenv("VERIF_SCHED") != "" {
			fmt.Fprintln(os.Stderr, "schedule", who, len(p), len(cs), s.trace(cs), s.cause, s.trouble, spans)
		}
		if s.cause != "" {
			if s.displaced && len(p) == 0 {
				r.find("C24:start:"+c.node.String(), "%s: %s", who, s.cause)
				return
			}
			r.Diverged++
			if len(r.Notes) < 5 {
				r.Notes = append(r.Notes, who+": "+s.cause)
			}
			continue
		}
		n++
		r.Traces++
		r.Transitions += len(cs)
		r.States += len(cs) - len(p)
		if s.trouble != "" {
			r.find("C24:trouble:"+shortKey(c.name), "%s: %s: %s", who, s.trouble, s.trace(cs))
			return
		}
		k := fmt.Sprint(spans, out)
		if _, ok := judged[k]; !ok {
			var closest string
			match := false
			var orders [][]int
			for _, o := range allPermutations(len(c.msgs)) {
				fits := true
				for i := range o {
					for j := i + 1; j < len(o); j++ {
						if spans[o[j]].to < spans[o[i]].from {
							fits = false
						}
					}
				}
				if !fits {
					continue
				}
				orders = append(orders, o)
				x := refOf(o)
				if x.crash != "" {
					r.find("C24:case:"+shortKey(c.name), "%s: handled directly in the order %v, the node stops: %s", who, o, x.crash)
					return
				}
				if x.out == out {
					match = true
				} else if closest == "" || len(diffText(x.out, out)) < len(closest) {
					closest = diffText(x.out, out)
				}
			}
			judged[k] = ""
			if !match {
				r.find("C24:outcome:"+shortKey(c.name), "%s: %s: what came of it is not what comes of handling each event once in an order that was sent %v: it differs in %s", who, s.trace(cs), orders, closest)
				return
			}
			r.eval(who + fmt.Sprint(spans))
		}
		for i := len(p); i < len(cs); i++ {
			for _, o := range cs[i].options {
				if o != cs[i].taken {
					q := make([]int, i+1)
					for k := 0; k < i; k++ {
						q[k] = cs[k].taken
					}
					q[i] = o
					work = append(work, task{q, job.lazy})
				}
			}
		}
	}
	// the events can be told apart: every one leaves something
	full := make([]int, len(c.msgs))
	for i := range full {
		full[i] = i
	}
	for i := range full {
		less := append(append([]int{}, full[:i]...), full[i+1:]...)
		if a, _ := c.direct(less); a == refOf(full).out {
			r.find("C24:case:"+shortKey(c.name), "%s: event %d leaves no trace", who, i)
		}
	}
	r.count("cases", 1)
	r.count("schedules", n)
	r.count("outcomes", len(judged))
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, fmt.Sprintf("%s: %d schedules", who, n))
	}
}

// with gives a case for every distribution of its messages on senders
func distribute(name string, at *Local, msgs ...*Msg) (l []*netCase) {
	var d [][][]int
	switch len(msgs) {
	case 1:
		d = [][][]int{{{0}}}
	case 2:
		d = [][][]int{{{0, 1}}, {{0}, {1}}}
	case 3:
		d = [][][]int{{{0, 1, 2}}, {{0, 1}, {2}}, {{0}, {1, 2}}}
	}
	for _, x := range d {
		l = append(l, &netCase{name: name, node: at.Node, state: at.state, msgs: msgs, senders: x})
	}
	return
}

func netCase_(r *Result, name string, at *Local, msgs ...*Msg) []*netCase {
	for _, m := range msgs {
		if m == nil {
			r.find("C24:setup:"+shortKey(name), "%s: the message does not come about", name)
			return nil
		}
	}
	return distribute(name, at, msgs...)
}

func coordNetCases(r *Result, plain bool) (l []*netCase) {
	e := newEngine()
	w := newWorld(e, 2, 3)
	lab := &Lab{w: w, s: w.members(1, 2), r: r}
	lab.endRound()
	add := func(name string, at *Local, msgs ...*Msg) { l = append(l, netCase_(r, name, at, msgs...)...) }
	reg := e.addMsg(cli(2), 0, lab.grab(cli(2), Input{Op: "register"}))
	post := func(n nodeID, a string) *Msg { return e.addMsg(n, 0, lab.grab(n, Input{Op: "post", S: a})) }
	p1, p2 := post(cli(0), "192.0.2.1:1"), post(cli(1), "192.0.2.2:2")
	p3 := post(cli(0), strings.Repeat("long address ", 20))
	big := post(cli(0), strings.Repeat("0123456789abcdef", 12000))
	add("a client registers", lab.coord(), reg)
	add("two posts", lab.coord(), p1, p2)
	add("a registration and a post", lab.coord(), reg, p1)
	add("a large post", lab.coord(), big)
	add("a large and a small post", lab.coord(), big, p2)
	add("a long and a short post", lab.coord(), p3, p1)
	if plain {
		add("a huge post", lab.coord(), post(cli(0), strings.Repeat("0123456789abcdef", 120000)))
	}
	add("three posts", lab.coord(), p1, p2, p3)
	add("one registration twice", lab.coord(), reg, reg)
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.3:3"})
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.4:4"})
	lab.op(cli(1), Input{Op: "request", I: 1})
	request := e.addMsg(cli(0), 0, lab.grab(cli(0), Input{Op: "request", I: 0}))
	vote := e.addMsg(cli(1), 0, lab.grab(cli(1), Input{Op: "castvote", I: 0, J: 1}))
	add("a request", lab.coord(), request)
	add("a vote and a request", lab.coord(), vote, request)
	add("a post, a vote and a request", lab.coord(), p1, vote, request)
	return
}

func clientNetCases(r *Result, plain bool) (l []*netCase) {
	e := newEngine()
	w := newWorld(e, 2, 3)
	lab := &Lab{w: w, s: w.members(1, 2), r: r}
	lab.endRound()
	n := cli(1)
	add := func(name string, at *Local, msgs ...*Msg) { l = append(l, netCase_(r, name, at, msgs...)...) }
	big := lab.fork()
	big.op(cli(0), Input{Op: "post", S: strings.Repeat("0123456789abcdef", 600)})
	big.op(cli(0), Input{Op: "post", S: "192.0.2.1:1"})
	at, ms := big.until(n, Input{Op: "request", I: 2}, n, proto.GOT_SIGNS)
	if len(ms) > 0 {
		add("a large bridge", at, ms[0])
		if len(ms) > 1 {
			add("a large and another bridge", at, ms[0], ms[1])
		}
	}
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.1:1"})
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.2:2"})
	at, ms = lab.until(n, Input{Op: "request", I: 1}, n, proto.GOT_SIGNS)
	if len(ms) > 0 {
		add("a bridge", at, ms[0])
		if len(ms) > 1 {
			add("two bridges", at, ms[0], ms[1])
		}
	}
	at, ms = lab.until(cli(2), Input{Op: "register"}, cli(2), proto.CLIENT_REGISTER_CONFIRMATION)
	if len(ms) > 0 {
		add("a confirmation", at, ms[0])
	}
	lab.op(n, Input{Op: "request", I: 1})
	lab.op(n, Input{Op: "castvote", I: 0, J: 1})
	lab.op(0, Input{Op: "vote"})
	at, ms = lab.until(0, Input{Op: "roundend"}, n, proto.BCAST_PEDERSEN_RDIFF)
	if len(ms) > 1 {
		add("differences and the round's end", at, ms[0], ms[1])
	}
	lab.op(0, Input{Op: "roundend"})
	lab.op(0, Input{Op: "clear"})
	at, ms = lab.until(0, Input{Op: "announce"}, n, proto.ANNOUNCEMENT_FINALIZE)
	if len(ms) > 0 {
		add("the next announcement", at, ms[0])
	}
	if len(l) < 8 {
		r.find("C24:setup:client", "only %d cases come about", len(l))
	}
	return
}

func serverNetCases(r *Result, plain bool) (l []*netCase) {
	e := newEngine()
	w := newWorld(e, 3, 1)
	add := func(name string, at *Local, msgs ...*Msg) { l = append(l, netCase_(r, name, at, msgs...)...) }
	lab := &Lab{w: w, s: w.init, r: r}
	lab.op(srv(0), Input{Op: "register"})
	at, ms := lab.until(srv(1), Input{Op: "register"}, srv(1), proto.SERVER_REGISTER_REPLY)
	if len(ms) > 0 {
		add("registered", at, ms[0])
	}
	lab.op(srv(1), Input{Op: "register"})
	at, ms = lab.until(srv(2), Input{Op: "register"}, srv(1), proto.UPDATE_NEXT_HOP)
	if len(ms) > 0 {
		add("the next hop", at, ms[0])
	}
	w = newWorld(e, 2, 3)
	lab = &Lab{w: w, s: w.members(1, 2), r: r}
	lab.endRound()
	big := lab.fork()
	big.op(cli(0), Input{Op: "post", S: strings.Repeat("0123456789abcdef", 600)})
	bat, bs := big.until(cli(1), Input{Op: "request", I: 1}, srv(1), proto.SIGN_ASSIGNMENTS)
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.1:1"})
	lab.op(cli(0), Input{Op: "post", S: "192.0.2.2:2"})
	at, ms = lab.until(cli(1), Input{Op: "request", I: 1}, srv(1), proto.SIGN_ASSIGNMENTS)
	_, rs := lab.until(cli(2), Input{Op: "register"}, srv(1), proto.CLIENT_REGISTER_SERVERSIDE)
	if len(ms) > 0 && len(rs) > 0 {
		add("assignments", at, ms[0])
		add("assignments and a registration", at, ms[0], rs[0])
	}
	if len(bs) > 0 && len(rs) > 0 {
		add("large assignments and a registration", bat, bs[0], rs[0])
	}
	lab.op(0, Input{Op: "vote"})
	at, ms = lab.until(0, Input{Op: "roundend"}, srv(1), proto.ROUND_END)
	if len(ms) > 0 {
		add("the round's end", at, ms[0])
		add("the round's end and a registration", at, ms[0], rs[0])
	}
	if len(l) < 10 {
		r.find("C24:setup:server", "only %d cases come about", len(l))
	}
	return
}
