package main

// C26: what is typed at a node's console is what the node does.

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
)

func init() {
	register(&Prop{ID: "C26", Level: "model_checking", Budget: 85,
		Rule:   "states are node states in which lines are typed, transitions the lines, evaluations the sequences of lines the real main loops have read",
		Assume: append([]string{"lines are typed when the node asks for one; what is typed ahead of a coordinator's question is not looked at"}, protocolAssumptions...), Jobs: consoleJobs})
}

func consoleJobs(th bool) (jobs []Job) {
	for part := 0; part < 6; part++ {
		part := part
		jobs = append(jobs, Job{Name: fmt.Sprintf("single lines, part %d", part), Run: func(r *Result) { typeLines(r, part, 6, 1, th) }})
		jobs = append(jobs, Job{Name: fmt.Sprintf("two lines, part %d", part), Run: func(r *Result) { typeLines(r, part, 6, 2, th) }})
		{
			jobs = append(jobs, Job{Name: fmt.Sprintf("three lines, part %d", part), Run: func(r *Result) { typeLines(r, part, 6, 3, th) }})
		}
	}
	d, d3 := 3, 2
	if th {
		d, d3 = 5, 3
	}
	jobs = append(jobs, launchedHistories("C26", 1, d, launchedPlans, checkPhases)...)
	jobs = append(jobs, launchedHistories("C26", 3, d3, launchedPlans, checkPhases)...)
	for _, silent := range []bool{false, true} {
		silent := silent
		jobs = append(jobs, Job{Name: fmt.Sprint("keys at a coordinator, silent servers ", silent), Run: func(r *Result) { coordKeys(r, silent, th) }})
	}
	jobs = append(jobs, Job{Name: "launching", Run: launching})
	return
}

// what a line is due to do: one of these
type due struct {
	typ      int // 0: nothing
	addr     string
	ind      int
	asg      int
	feedback int
	exit     bool
}

// dues lists what a line may do; a single entry is what it has to do
func dues(line string, x *ClientView, open bool) []due {
	nothing := due{}
	f := strings.Fields(line)
	if len(f) == 0 {
		return []due{nothing}
	}
	number := func(s string) (n int, canonical, ok bool) {
		n, err := strconv.Atoi(s)
		return n, strconv.Itoa(n) == s, err == nil
	}
	odd := strings.Join(f, " ") != line
	var d due
	args := map[string]int{"post": 1, "get": 1, "vote": 2, "exit": 0}[f[0]]
	switch f[0] {
	case "post", "get", "vote", "exit":
	default:
		return []due{nothing}
	}
	if len(f)-1 < args {
		return []due{nothing}
	}
	odd = odd || len(f)-1 > args
	switch f[0] {
	case "post":
		d = due{typ: proto.POST_BRIDGE, addr: f[1]}
		odd = odd || !open
	case "get":
		n, c, ok := number(f[1])
		if !ok || n > x.Reputation {
			return []due{nothing}
		}
		d = due{typ: proto.REQUEST_BRIDGES, ind: n}
		odd = odd || !c || n < 0 || !open
	case "vote":
		i, c1, ok1 := number(f[1])
		v, c2, ok2 := number(f[2])
		if !ok1 || !ok2 || i < 0 || i >= len(x.Assignments) {
			return []due{nothing}
		}
		d = due{typ: proto.VOTE, asg: i, feedback: -1}
		if v > 0 {
			d.feedback = 1
		}
		odd = odd || !c1 || !c2 || v == 0
	case "exit":
		d = due{exit: true}
	}
	if odd {
		return []due{nothing, d}
	}
	return []due{d}
}

// does tells whether a message is what is due
func (d due) does(m *Msg, x *ClientView) string {
	p := m.event().Params
	bytes := func(k string) []byte { b, _ := p[k].([]byte); return b }
	number := func(k string) (int, bool) { n, ok := p[k].(int); return n, ok }
	switch {
	case m.Type != d.typ:
		return "sends " + evNames[m.Type]
	case m.To != 0:
		return fmt.Sprintf("sends to %s", m.To)
	case m.point("nym") != x.Nym:
		return "does not name the current pseudonym"
	}
	switch d.typ {
	case proto.POST_BRIDGE:
		if a, _ := p["bridge_addr"].(string); a != d.addr {
			return fmt.Sprintf("offers %.80q", a)
		}
	case proto.REQUEST_BRIDGES:
		if n, ok := number("ind"); !ok || n != d.ind {
			return fmt.Sprintf("asks for %v", p["ind"])
		}
	case proto.VOTE:
		if string(bytes("assignment")) != x.Assignments[d.asg].Assignment {
			return "votes on another assignment"
		}
		if n, ok := number("feedback"); !ok || n != d.feedback {
			return fmt.Sprintf("votes %v", p["feedback"])
		}
	}
	return ""
}

func (d due) String() string {
	switch {
	case d.exit:
		return "end the client"
	case d.typ == 0:
		return "do nothing"
	case d.typ == proto.POST_BRIDGE:
		return fmt.Sprintf("offer %.80q", d.addr)
	case d.typ == proto.REQUEST_BRIDGES:
		return fmt.Sprint("ask for ", d.ind)
	}
	return fmt.Sprintf("vote %+d on assignment %d", d.feedback, d.asg)
}

func consoleLines() (l []string) {
	l = append(l, "", " ", "exit", "exit now", " exit", "help", "Post 1.1.1.1:1", "GET 1", "msg 1 hello", "p", "posts 1.1.1.1:1", "getting 1", "voted 0 1", "post", "post ", "get", "get ", "vote", "vote ", "vote 0", "vote 0 ", "vote 1", "vote a", "\t", "\x00", "-", "0 1")
	long := strings.Repeat("a23456789.", 2000)
	for _, a := range []string{"1.1.1.1:1", "1.1.1.1:443", "9.9.9.9:9", "[2001:db8::1]:443", "obfs4,cert=AbC/+=,iat-mode=0", "a", "get", "-1", "\u00e4\u00f6.example:1", "x\"y\\z", long[:63], long[:64], long[:255], long[:256], long[:1024], long[:4000], long[:4090], long[:4091], long[:4092], long[:5000], long[:8192], long} {
		l = append(l, "post "+a)
	}
	l = append(l, "post  1.1.1.1:1", " post 1.1.1.1:1", "post 1.1.1.1:1 ", "post 1.1.1.1:1 2.2.2.2:2", "post\t1.1.1.1:1", "post 1.1.1.1:1\r")
	for _, n := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "10", "100", "-1", "-5", "2147483647", "2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "abc", "1x", "x1", "1.5", "1e1", "0x1", "01", "+1", "one", "1,2", "--1", "1 2", " 1", "1 "} {
		l = append(l, "get "+n)
	}
	for _, i := range []string{"0", "1", "2", "-1", "5", "00", "a", "1a", "9223372036854775807", "9223372036854775808", "4294967296"} {
		for _, v := range []string{"1", "-1", "2", "-7", "0", "+1", "x", "1x", "-", "9223372036854775808", "4294967295", "-4294967296", "1 1"} {
			l = append(l, "vote "+i+" "+v)
		}
	}
	return
}

func fewLines() []string {
	return []string{"", "help", "exit", "post", "post 9.9.9.9:9", "post 8.8.8.8:8", "get", "get 1", "get 2", "get x", "vote 0", "vote 0 1", "vote 1 -1", "vote 0 x", "vote 7 1"}
}

// consoleState is a client in a world, with what it has and whether its round is open
type consoleState struct {
	name string
	l    *Lab
	c    int
	open bool
}

func consoleStates(r *Result) (l []consoleState) {
	e := newEngine()
	w := newWorld(e, 1, 3)
	w.members(1, 2)
	a := &Lab{w: w, s: w.init, r: r}
	a.op(cli(2), Input{Op: "register"})
	for _, x := range []string{"1.1.1.1:1", "2.2.2.2:2", "3.3.3.3:3"} {
		a.op(cli(0), Input{Op: "post", S: x})
	}
	a.op(cli(1), Input{Op: "request", I: 2})
	expect(len(a.dv(1).Assignments) == 2, "a request for 2 bridges gets %d", len(a.dv(1).Assignments))
	l = append(l, consoleState{"two assignments", a.fork(), 1, true}, consoleState{"none", a.fork(), 0, true})
	a.op(cli(1), Input{Op: "castvote", I: 0, J: -1})
	a.op(cli(1), Input{Op: "castvote", I: 1, J: -1})
	a.op(0, Input{Op: "vote"})
	l = append(l, consoleState{"two assignments, votes are due", a.fork(), 1, true})
	b := a.fork()
	b.op(0, Input{Op: "roundend"})
	l = append(l, consoleState{"the round is over", b.fork(), 1, false})
	b.op(0, Input{Op: "clear"})
	b.op(0, Input{Op: "announce"})
	expect(b.dv(0).Reputation == 3, "after two votes of -1 the reputation is %d", b.dv(0).Reputation)
	l = append(l, consoleState{"reputation 3", b.fork(), 0, true}, consoleState{"next round", b.fork(), 1, true}, consoleState{"first round of a newcomer", b.fork(), 2, true})
	return
}

func typeLines(r *Result, part, parts, n int, th bool) {
	if !instrumentedHere(r) {
		return
	}
	states := consoleStates(r)
	fewPrimes()
	states[0].l.w.e.launched = true
	k := 0
	for i, s := range states {
		var seqs [][]string
		switch {
		case n == 1:
			for _, x := range consoleLines() {
				seqs = append(seqs, []string{x})
			}
		case n == 2 || i == 0 || th:
			seqs = [][]string{nil}
			for j := 0; j < n; j++ {
				var next [][]string
				for _, q := range seqs {
					for _, x := range fewLines() {
						next = append(next, append(append([]string(nil), q...), x))
					}
				}
				seqs = next
			}
		}
		r.States++
		for _, q := range seqs {
			if k++; k%parts != part {
				continue
			}
			if r.late() || len(r.Findings) >= 3 {
				return
			}
			typeSequence(r, s, q)
		}
	}
}

func clipLines(l []string) string {
	var c []string
	for _, x := range l {
		if len(x) > 60 {
			x = fmt.Sprintf("%s... (%d characters)", x[:60], len(x))
		}
		c = append(c, fmt.Sprintf("%q", x))
	}
	return strings.Join(c, ", ")
}

func typeSequence(r *Result, s consoleState, lines []string) {
	at := s.l.w.local(s.l.s, cli(s.c))
	x := at.View.D
	who := fmt.Sprintf("client%d (%s) is given %s", s.c, s.name, clipLines(lines))
	key := func(what string) string {
		return "C26:" + what + ":" + shortKey(strings.Fields(lines[len(lines)-1] + " -")[0])
	}
	d := s.l.w.e.try(at, Input{Op: "type", S: strings.Join(lines, "\n")})
	r.eval(who)
	r.Transitions += len(lines)
	ended := d.Crashed == "the main loop ends"
	if d.Crashed != "" && !ended {
		r.find(key("stops"), "%s: it stops: %s", who, firstLine(d.Crashed))
		return
	}
	// follow the lines; where a line may do one thing or another, the messages tell
	outs := d.Outs
	changes := false
	for _, line := range lines {
		l := dues(line, x, s.open)
		must := l[len(l)-1]
		may := len(l) > 1
		switch {
		case must.exit:
			if may && !ended {
				continue
			}
			if !ended {
				r.find(key("exit"), "%s: it does not end", who)
			} else if len(outs) > 0 {
				r.find(key("exit"), "%s: it goes on after its end", who)
			}
			return
		case must.typ == 0:
		case len(outs) == 0:
			if !may {
				r.find(key("silent"), "%s: it does not %s", who, must)
				return
			}
		default:
			bad := must.does(outs[0], x)
			if bad != "" && !may {
				r.find(key("wrong"), "%s: it does not %s: it %s", who, must, bad)
				return
			}
			if bad == "" {
				if !may && s.open && len(lines) == 1 {
					if bad := s.taken(must, outs[0]); bad != "" {
						r.find(key("refused"), "%s: %s", who, bad)
						return
					}
				}
				outs = outs[1:]
				changes = true
			}
		}
	}
	switch {
	case len(outs) > 0:
		r.find(key("sends"), "%s: it sends %s", who, outs[0])
	case ended:
		r.find(key("ends"), "%s: it ends", who)
	case !changes && viewJSON(d.View) != viewJSON(at.View):
		r.find(key("changes"), "%s: %s changes", who, diffViews(at.View.D, d.View.D))
	}
}

// taken: the coordinator takes the message for what it is
func (s consoleState) taken(d due, m *Msg) string {
	c := s.l.coord()
	x := s.l.w.e.try(c, Input{Msg: m})
	v := s.l.dv(s.c)
	switch {
	case x.Crashed != "":
		return "the coordinator stops on it: " + firstLine(x.Crashed)
	case d.typ == proto.POST_BRIDGE:
		if b, ok := x.View.C.Bridges[d.addr]; !ok || b.Nym != v.Nym && c.View.C.Bridges[d.addr].Nym == "" {
			return "the coordinator does not take the offer"
		}
	case d.typ == proto.REQUEST_BRIDGES:
		free := 0
		for _, b := range c.View.C.Bridges {
			if !b.Used {
				free++
			}
		}
		if free > 0 && d.ind > 0 && len(x.Outs) == 0 {
			return "the coordinator does not serve the request"
		}
	case d.typ == proto.VOTE && s.name == "two assignments":
		if p := v.Assignments[d.asg].Nym; x.View.C.Diff[p] != c.View.C.Diff[p]+d.feedback {
			return "the coordinator does not count the vote"
		}
	}
	return ""
}

// checkPhases: what every phase of the coordinator sends
func checkPhases(w *World, s *GState) string {
	n := 0
	for _, l := range w.local(s, 0).path() {
		if l.In.Msg != nil {
			continue
		}
		c := l.Parent.View.C
		got := map[string]int{}
		for _, m := range l.Outs {
			got[fmt.Sprint(evNames[m.Type], " to ", m.To)]++
		}
		want := map[string]int{}
		clients := func(typ int) {
			for _, a := range c.Clients {
				for _, n := range w.nodes {
					if n.addr().String() == a {
						want[fmt.Sprint(evNames[typ], " to ", n)]++
					}
				}
			}
		}
		name := func(i int) string {
			for _, n := range w.nodes {
				if n.addr().String() == c.Servers[i].Key {
					return n.String()
				}
			}
			return "nobody"
		}
		switch l.In.Op {
		case "announce":
			if n++; n == 1 {
				for i := range c.Servers {
					want[evNames[proto.BCAST_PEDERSEN_H]+" to "+name(i)]++
				}
			}
			want[evNames[proto.ANNOUNCEMENT]+" to "+name(0)]++
		case "vote":
			clients(proto.VOTE)
		case "roundend":
			clients(proto.BCAST_PEDERSEN_RDIFF)
			want[evNames[proto.ROUND_END]+" to "+name(len(c.Servers)-1)]++
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("on %s the coordinator sends %v, due is %v", l.In, got, want)
		}
		w.outcomes["phases followed"]++
	}
	return ""
}

// coordKeys: keys at a coordinator, whose servers are none (its phases need no answers
// then) or silent, compared with the phases one by one
func coordKeys(r *Result, silent, th bool) {
	if !instrumentedHere(r) {
		return
	}
	e := newEngine()
	w := newWorld(e, 1, 3)
	w.members(0, 2)
	joined := deepCopy(w.local(w.init, 0).state).(*coordinator.Coordinator)
	launchedWarm()
	max := 6
	if th {
		max = 10
	}
	lines := []string{"", "ok", "no", "exit", " ", "a longer line of text, with a few words"}
	status := map[string]int{"configuration": stCONFIGURATION, "announcement": coordinator.ANNOUNCE, "posting": stMESSAGE, "voting": stMESSAGE, "round end": stENDING}
	for _, at := range []string{"configuration", "posting", "voting", "silent configuration", "silent announcement", "silent posting", "silent voting", "silent round end"} {
		pos := strings.TrimPrefix(at, "silent ")
		state := deepCopy(joined).(*coordinator.Coordinator)
		if (at != pos) != silent {
			continue
		}
		if !silent {
			state.ServerList = nil
		}
		state.Status = status[pos]
		for n := 0; n <= max; n++ {
			for k := range lines {
				if r.late() || n == 0 && k > 0 {
					break
				}
				c := &schedCase{name: "keys", pos: pos, node: 0, state: state, wait: 400}
				for i := 0; i < n; i++ {
					c.script = append(c.script, lines[(k+i)%len(lines)])
				}
				stepWhat.Store(pos)
				atomic.StoreInt64(&stepStart, time.Now().UnixNano())
				a, _, _, got := execute(c, nil, 0, false, false)
				b, _, _, want := execute(c, nil, 0, true, false)
				atomic.StoreInt64(&stepStart, 0)
				who := fmt.Sprintf("the coordinator, %s, is given %s", at, clipLines(c.script))
				r.eval(who)
				r.Transitions += n
				r.States++
				switch {
				case a.displaced:
					r.find("C26:place", "%s: %s", who, a.cause)
					return
				case a.cause != "" || b.cause != "":
					panic("harness: " + a.cause + b.cause)
				case a.threads[0].crashed != "":
					r.find("C26:keys:stops", "%s: it stops: %s", who, a.threads[0].crashed)
					return
				case got != want:
					r.find("C26:keys:"+pos, "%s: that is not the phases in their order: %s", who, diffText(want, got))
					return
				}
			}
		}
	}
}

// launching: every node registers once, at the configured coordinator, under the
// address where it listens
func launching(r *Result) {
	if !instrumentedHere(r) {
		return
	}
	must(os.MkdirAll("config", 0755))
	write := func(local, coord int, swapped bool) {
		a, b := fmt.Sprintf("local_port=%d\n", local), fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\n", coord)
		if swapped { // either file may hold either
			a, b = b, a
		}
		must(os.WriteFile("config/local.properties", []byte(a), 0644))
		must(os.WriteFile("config/conn.properties", []byte(b), 0644))
	}
	defer write(10001, 10001, false)
	type sent struct {
		to string
		ev *proto.Event
	}
	run := func(name string, f func(), input bool) (l []sent, addr string, m *thread, ok bool) {
		stepWhat.Store(name)
		atomic.StoreInt64(&stepStart, time.Now().UnixNano())
		defer atomic.StoreInt64(&stepStart, 0)
		s := newSched("launch " + name)
		util.VerifSend = func(raddr *net.TCPAddr, content []byte) bool {
			ev := decodeEvent(content)
			s.mu.Lock()
			l = append(l, sent{raddr.String(), ev})
			s.mu.Unlock()
			return true
		}
		m = s.launch(f)
		ok = s.idle(m, input)
		if len(schedListeners) == 1 {
			addr = schedListeners[0].Addr().String()
		}
		s.finish()
		return
	}
	p := func(a string) string { return port(a) }
	same := func(src, listen string) bool { // the sender's address reaches the listener
		h, _, err := net.SplitHostPort(src)
		ip := net.ParseIP(h)
		return err == nil && p(src) == p(listen) && (ip != nil && (ip.IsLoopback() || ip.IsUnspecified()))
	}
	fewPrimes()
	for _, coord := range []int{10001, 10777, 65535, 1024} {
		for _, swapped := range []bool{false, true} {
			for busy := 0; busy <= 3; busy++ {
				// a free stretch of ports, the first ones taken
				base, taken := stretch(busy)
				write(base, coord, swapped)
				who := fmt.Sprintf("a server with coordinator_port=%d and its first %d ports taken", coord, busy)
				l, addr, m, ok := run(who, server.Launch, false)
				for _, t := range taken {
					t.Close()
				}
				r.eval(who)
				r.States++
				r.Transitions++
				switch {
				case !ok:
					r.find("C26:launch:server", "%s does not start: %s", who, m.crashed)
				case len(l) != 1 || l[0].ev.EventType != proto.SERVER_REGISTER || l[0].to != fmt.Sprint("127.0.0.1:", coord):
					r.find("C26:launch:server", "%s does not register once at its coordinator: %d messages", who, len(l))
				case addr == "" || !same(l[0].ev.SrcAddr, addr):
					r.find("C26:launch:server", "%s registers %s and listens at %s", who, l[0].ev.SrcAddr, addr)
				case busy == 0 && p(addr) != fmt.Sprint(base):
					r.find("C26:launch:server", "%s listens at %s, configured is %d", who, addr, base)
				case fmt.Sprintf("%x", l[0].ev.Params["public_key"]) != fmt.Sprintf("%x", util.EncodePoint(server.VerifGet().PublicKey)):
					r.find("C26:launch:server", "%s registers another key than its own", who)
				}
				if busy > 0 {
					continue
				}
				who = fmt.Sprintf("a client with coordinator_port=%d", coord)
				l, addr, m, ok = run(who, client.Launch, false)
				r.eval(who)
				r.States++
				r.Transitions++
				switch {
				case !ok:
					r.find("C26:launch:client", "%s does not start: %s", who, m.crashed)
				case len(l) != 1 || l[0].ev.EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE || l[0].to != fmt.Sprint("127.0.0.1:", coord):
					r.find("C26:launch:client", "%s does not register once at its coordinator: %d messages", who, len(l))
				case addr == "" || !same(l[0].ev.SrcAddr, addr):
					r.find("C26:launch:client", "%s registers %s and listens at %s", who, l[0].ev.SrcAddr, addr)
				case fmt.Sprintf("%x", l[0].ev.Params["public_key"]) != fmt.Sprintf("%x", util.EncodePoint(client.VerifGet().PublicKey)):
					r.find("C26:launch:client", "%s registers another key than its own", who)
				}
				who = fmt.Sprintf("a coordinator with local_port=%d", base)
				l, addr, m, ok = run(who, coordinator.Launch, true)
				r.eval(who)
				r.States++
				r.Transitions++
				switch {
				case !ok:
					r.find("C26:launch:coordinator", "%s does not start: %s", who, m.crashed)
				case len(l) != 0:
					r.find("C26:launch:coordinator", "%s sends %d messages before it is told to", who, len(l))
				case !same("127.0.0.1:"+fmt.Sprint(base), addr):
					r.find("C26:launch:coordinator", "%s listens at %s", who, addr)
				case !same(coordinator.VerifGet().LocalAddr.String(), addr):
					r.find("C26:launch:coordinator", "%s calls itself %s", who, coordinator.VerifGet().LocalAddr)
				}
			}
		}
	}
}

// stretch finds ports to listen at, of which it takes the first ones
func stretch(busy int) (base int, taken []net.Listener) {
next:
	for i := 0; i < 100; i++ {
		l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4zero})
		must(err)
		base = l.Addr().(*net.TCPAddr).Port
		l.Close()
		if base > 65000 {
			continue
		}
		taken = nil
		for k := 0; k <= busy; k++ {
			x, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4zero, Port: base + k})
			if err != nil {
				for _, t := range taken {
					t.Close()
				}
				continue next
			}
			if k == busy {
				x.Close()
			} else {
				taken = append(taken, x)
			}
		}
		return
	}
	panic("harness: no free ports")
}
