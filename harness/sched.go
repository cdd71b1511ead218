package main

// A controlled scheduler for the goroutines of one node. The node's code is built
// with a call of yield before every statement (tools/instrument); one goroutine
// runs at a time, and which one goes on at every such point is the explorer's
// choice. Whether a goroutine is blocked, on whatever it may be, is read off the
// runtime.

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "unsafe"

	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/random"
)

//go:linkname coordYield zRep/cmd/coordinator.verifYieldHook
var coordYield func(string)

//go:linkname coordSleep zRep/cmd/coordinator.verifSleepHook
var coordSleep func(time.Duration)

//go:linkname coordListen zRep/cmd/coordinator.verifListenHook
var coordListen func(*net.TCPListener)

//go:linkname serverYield zRep/cmd/server.verifYieldHook
var serverYield func(string)

//go:linkname serverSleep zRep/cmd/server.verifSleepHook
var serverSleep func(time.Duration)

//go:linkname serverListen zRep/cmd/server.verifListenHook
var serverListen func(*net.TCPListener)

//go:linkname clientYield zRep/cmd/client.verifYieldHook
var clientYield func(string)

//go:linkname clientSleep zRep/cmd/client.verifSleepHook
var clientSleep func(time.Duration)

//go:linkname clientListen zRep/cmd/client.verifListenHook
var clientListen func(*net.TCPListener)

//go:linkname utilYield zRep/util.verifYieldHook
var utilYield func(string)

//go:linkname utilSleep zRep/util.verifSleepHook
var utilSleep func(time.Duration)

//go:linkname netHook net.verifNet
var netHook func(op, local, remote string, n int) int

//go:linkname verifGoid runtime.verifGoid
func verifGoid() uint64

func goid() string { return fmt.Sprint(verifGoid()) }

var stackBuf = make([]byte, 1<<18)

// goroutines gives the runtime's view of every goroutine: its state and stack
func goroutines() map[string]string {
	var buf []byte
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			buf = stackBuf[:n]
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	m := map[string]string{}
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		s := string(g)
		if strings.HasPrefix(s, "goroutine ") {
			m[strings.Fields(s)[1]] = s
		}
	}
	return m
}

func gstate(stack string) string {
	i, j := strings.IndexByte(stack, '['), strings.IndexByte(stack, ']')
	if i < 0 || j < i {
		return "gone"
	}
	return strings.SplitN(stack[i+1:j], ",", 2)[0]
}

func waiting(state string) bool {
	for _, p := range []string{"sync.", "chan ", "select", "IO wait"} {
		if strings.HasPrefix(state, p) {
			return true
		}
	}
	return false
}

const (
	tReady    = iota // at a statement, or before its first
	tRunning         //
	tBlocked         // waits for another goroutine
	tInput           // waits for the user
	tSleeping        //
	tNet             // waits for the network
	tDone
)

type thread struct {
	id      int
	name    string
	gid     string
	resume  chan bool
	state   int
	where   string
	quiet   bool // has looked, found nothing, and nothing has happened since
	other   bool // another goroutine has gone on since it slept last
	border  bool // between two messages
	crashed string
	stream  *prfStream
	steps   int
	sender  bool        // of the harness's own
	parent  *thread     // the one that was running when the node's code started it
	ready   func() bool // tNet: can go on
	pieces  func() int  // tNet: the number of ways to go on
	piece   int         // the one chosen
}

type schedEvent struct {
	t     *thread
	kind  int
	where string
}

type schedSend struct {
	t     int
	to    string
	bytes string
}

type sched struct {
	mu        sync.Mutex
	byGid     map[string]*thread
	foreign   map[string]bool
	threads   []*thread
	cur       *thread // the one that was let go on last
	ev        chan schedEvent
	active    bool
	sends     []schedSend
	script    []string // what the user types
	key       string
	went      int64 // statements the main goroutine has passed outside of schedules
	typed     int64 // as many before the last input
	net       *network
	sent      func(*net.TCPAddr, []byte) // is told what is sent
	starting  int32                      // the node has started goroutines which may not be known yet
	all       bool                       // with a network: statements count, because goroutines have been started
	orders    bool                       // only schedules in which nothing is left half done
	cause     string                     // a harness problem
	trouble   string                     // with a network: somebody stops, or does not finish
	displaced bool                       // the main loop did not get to where the case begins
}

var schedNow *sched
var schedDoomed sync.Map
var schedListeners []net.Listener
var schedKeyboard *os.File

func schedYield(where string) {
	if _, ok := schedDoomed.Load(goid()); ok {
		runtime.Goexit()
	}
	if s := schedNow; s != nil && s.net == nil && s.closed() && (len(s.threads) == 0 || s.threads[0].gid != goid()) {
		runtime.Goexit() // the node has closed its listener; it is about to end
	}
	if s := schedNow; s != nil && s.active {
		starts := strings.HasPrefix(where, "go ")
		if s.net != nil && !s.all {
			s.all = starts
		} else {
			s.pause(tReady, where)
		}
		if starts {
			atomic.StoreInt32(&s.starting, 1)
		}
	} else if s != nil && len(s.threads) > 0 && s.threads[0].gid == goid() {
		atomic.AddInt64(&s.went, 1)
	}
}

func schedSleep(d time.Duration) {
	if s := schedNow; s != nil && s.active && !s.foreign[goid()] {
		s.pause(tSleeping, "")
	} else {
		time.Sleep(200 * time.Microsecond)
	}
	schedYield("sleep")
}

func schedListen(l *net.TCPListener) { schedListeners = append(schedListeners, l) }

// closed tells whether the node has closed what it listens at
func (s *sched) closed() bool {
	for _, l := range schedListeners {
		if l.(*net.TCPListener).SetDeadline(time.Time{}) != nil {
			return true
		}
	}
	return false
}

func (s *sched) pause(kind int, where string) {
	g := goid()
	if s.foreign[g] {
		return
	}
	s.mu.Lock()
	t := s.byGid[g]
	if t == nil { // started by the node's code itself
		t = s.add(fmt.Sprintf("goroutine %d", len(s.threads)), g)
		t.parent = s.cur
	}
	s.mu.Unlock()
	s.ev <- schedEvent{t, kind, where}
	<-t.resume
	if _, ok := schedDoomed.Load(g); ok {
		runtime.Goexit()
	}
}

func (s *sched) add(name, gid string) *thread {
	t := &thread{id: len(s.threads), name: name, gid: gid, resume: make(chan bool), stream: newPRF(prfKey("schedule", s.key, len(s.threads)))}
	t.state = tRunning
	s.threads = append(s.threads, t)
	s.byGid[gid] = t
	return t
}

// XORKeyStream: every goroutine draws from a stream of its own
func (s *sched) XORKeyStream(dst, src []byte) {
	s.mu.Lock()
	t := s.byGid[goid()]
	s.mu.Unlock()
	if s.net != nil {
		s.net.stream.XORKeyStream(dst, src)
		return
	}
	if t == nil {
		newPRF([]byte("elsewhere")).XORKeyStream(dst, src)
		return
	}
	t.stream.XORKeyStream(dst, src)
}

func newSched(key string) *sched {
	s := &sched{byGid: map[string]*thread{}, foreign: map[string]bool{}, ev: make(chan schedEvent, 64), key: key}
	coordYield, coordSleep, coordListen = schedYield, schedSleep, schedListen
	serverYield, serverSleep, serverListen = schedYield, schedSleep, schedListen
	clientYield, clientSleep, clientListen = schedYield, schedSleep, schedListen
	utilYield, utilSleep = schedYield, schedSleep
	return s
}

// launch starts a node's real main loop
func (s *sched) launch(f func()) *thread {
	r, w, err := os.Pipe()
	must(err)
	os.Stdin, schedKeyboard = r, w
	schedNow = s
	random.Stream = s
	if util.VerifSend == nil {
		util.VerifSend = func(*net.TCPAddr, []byte) bool { return true }
	}
	osExitHook = func(code int) { panic(exitPanic(code)) }
	started := make(chan *thread)
	go func() {
		s.mu.Lock()
		t := s.add("main", goid())
		s.mu.Unlock()
		started <- t
		defer func() {
			if x := recover(); x != nil {
				t.crashed = crashText(x)
			}
			s.ev <- schedEvent{t, tDone, "the end"}
		}()
		f()
	}()
	return <-started
}

func crashText(x interface{}) string {
	if c, ok := x.(exitPanic); ok {
		return fmt.Sprintf("process exit with code %d", int(c))
	}
	return firstLine(fmt.Sprint(x))
}

// root is the goroutine on whose behalf one runs
func (t *thread) root() *thread {
	for t.parent != nil {
		t = t.parent
	}
	return t
}

// piecewise: letting t go on after cur leaves nothing half done; in tells whether
// cur could go on, too
func (s *sched) piecewise(cur, t *thread, in bool, en []*thread) bool {
	left := false // work done on behalf of the same goroutine
	for _, x := range en {
		left = left || x != t && x.parent != nil && x.root() == cur.root()
	}
	r := cur.root()
	if r == t.root() {
		if t == r && (t.state != tReady || t.border) { // the next thing it does
			return !left
		}
		for _, x := range en {
			if t != cur && x.parent != nil && x.root() == r && x.id < t.id {
				return false
			}
		}
		return t == cur || !in || cur.state != tReady || cur.border
	}
	switch r.state {
	case tReady:
		return r.border && !left
	case tInput, tDone:
		return !left
	case tSleeping:
		return r.quiet && !left
	}
	for _, x := range s.threads { // one of them waits for time to pass
		if x.root() == r && x.state == tSleeping && x.quiet {
			return !left
		}
	}
	return false
}

// idle waits until the main goroutine asks for input, outside of schedules
func (s *sched) idle(t *thread, input bool) bool {
	for t0 := time.Now(); time.Since(t0) < 15*time.Second; {
		select {
		case <-s.ev:
			return false
		default:
		}
		if atomic.LoadInt64(&s.went) == s.typed {
			time.Sleep(50 * time.Microsecond)
			continue // what was typed last is on its way
		}
		g := goroutines()[t.gid]
		if input && gstate(g) == "IO wait" && strings.Contains(g, "os.(*File).Read") || !input && strings.Contains(g, "main.schedSleep") {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

func (s *sched) key_(line string) {
	s.typed = atomic.LoadInt64(&s.went)
	schedKeyboard.WriteString(line + "\n")
}

// anyOrder leaves aside the order of a table of more than 8 entries: the runtime puts
// those of a larger map in an order of its own
func anyOrder(c, content []byte) []byte {
	m := &Msg{Type: proto.ANNOUNCEMENT, Bytes: content}
	var keys, vals []string
	if panics(func() { keys, vals = m.points("keys"), m.points("vals") }) != nil || len(keys) <= 8 || len(keys) != len(vals) {
		return c
	}
	for i := range keys {
		keys[i] += " " + vals[i]
	}
	sort.Strings(keys)
	ev := m.event()
	delete(ev.Params, "keys")
	delete(ev.Params, "vals")
	return []byte(eventText(ev) + strings.Join(keys, ", "))
}

// begin puts the node under control
func (s *sched) begin(main *thread, handle func()) {
	for g := range goroutines() {
		if g != main.gid {
			s.foreign[g] = true
		}
	}
	util.VerifSend = func(raddr *net.TCPAddr, content []byte) bool {
		to := raddr.String()
		c, typ := canonical(content)
		if typ == proto.ANNOUNCEMENT {
			c = anyOrder(c, content)
		}
		s.mu.Lock()
		t := s.byGid[goid()]
		id := -1
		if t != nil {
			id = t.id
		}
		s.sends = append(s.sends, schedSend{id, to, string(c)})
		if s.sent != nil {
			s.sent(raddr, content)
		}
		s.mu.Unlock()
		return true
	}
	g := goroutines()[main.gid]
	main.stream = newPRF(prfKey("schedule", s.key, "main")) // what was drawn before does not count
	s.active = true
	if gstate(g) == "IO wait" {
		main.state = tInput
	} else { // round its waiting loop, to where it sleeps
		s.await(main)
		for i := 0; main.state == tReady; i++ {
			if i > 1000 {
				s.cause = "the main loop does not come to rest"
				return
			}
			main.state = tRunning
			main.resume <- true
			s.await(main)
		}
		main.quiet = false
	}
	if handle == nil {
		return
	}
	started := make(chan *thread)
	go func() {
		s.mu.Lock()
		t := s.add("handler", goid())
		t.state = tReady
		s.mu.Unlock()
		started <- t
		defer func() {
			if x := recover(); x != nil {
				t.crashed = crashText(x)
			}
			s.ev <- schedEvent{t, tDone, "the end"}
		}()
		<-t.resume
		handle()
	}()
	<-started
}

func (s *sched) apply(e schedEvent) {
	t := e.t
	t.state = e.kind
	if e.kind == tSleeping {
		t.quiet = !t.other
		t.other = false
		return
	}
	t.where = e.where
	t.border = e.where == "next" || strings.HasPrefix(e.where, "net ")
	if !strings.HasPrefix(e.where, "sleep") {
		t.steps++
	}
}

// await lets a goroutine go on to its next statement, or until it waits
func (s *sched) await(t *thread) {
	d := 50 * time.Microsecond
	t0 := time.Now()
	fed := t.state == tInput
	t.state = tRunning
	for {
		select {
		case e := <-s.ev:
			s.apply(e)
			if e.t == t {
				return
			}
			continue
		case <-time.After(d):
		}
		if d < 2*time.Millisecond {
			d *= 2
		}
		st := gstate(goroutines()[t.gid])
		if st == "gone" && len(s.ev) == 0 { // one that the node's code started has come to its end
			t.state = tDone
			return
		}
		if time.Since(t0) > 30*time.Second {
			s.cause = t.name + " does not go on: " + st
			return
		}
		if st == "IO wait" && s.net != nil && time.Since(t0) < 300*time.Millisecond {
			continue // a real connection at work
		}
		if waiting(st) && len(s.ev) == 0 {
			if st == "IO wait" && s.net == nil && (fed || time.Since(t0) < 3*time.Millisecond) {
				continue // what was typed is on its way
			}
			t.state = tBlocked
			if st == "IO wait" && s.net == nil {
				t.state = tInput
			}
			return
		}
	}
}

// settle waits until goroutines which the node's code has started are known, or wait
func (s *sched) settle() {
	atomic.StoreInt32(&s.starting, 0)
	for t0 := time.Now(); time.Since(t0) < 5*time.Second; time.Sleep(50 * time.Microsecond) {
		on := false
		gs := goroutines()
		s.mu.Lock()
		for g, stack := range gs {
			on = on || s.byGid[g] == nil && !s.foreign[g] && strings.Contains(stack, "zRep/") && !waiting(gstate(stack))
		}
		s.mu.Unlock()
		for len(s.ev) > 0 {
			s.apply(<-s.ev)
		}
		if !on {
			return
		}
	}
}

// enabled lists the goroutines that can go on
func (s *sched) enabled() (l []*thread) {
	if atomic.LoadInt32(&s.starting) != 0 {
		s.settle()
	}
	if l = s.ready(); len(l) == 0 {
		s.settle()
		l = s.ready()
	}
	return
}

func (s *sched) ready() (l []*thread) {
	var gs map[string]string
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.state == tRunning { // a new one on its way to its first statement
			s.await(t)
		}
		if t.state == tBlocked {
			if gs == nil {
				gs = goroutines()
			}
			if !waiting(gstate(gs[t.gid])) || len(s.ev) > 0 {
				t.state = tRunning
				s.await(t)
			}
		}
		switch t.state {
		case tReady:
			l = append(l, t)
		case tSleeping:
			if !t.quiet {
				l = append(l, t)
			}
		case tInput:
			if len(s.script) > 0 {
				l = append(l, t)
			}
		case tNet:
			if t.ready() {
				l = append(l, t)
			}
		}
	}
	return
}

type choice struct {
	options []int // goroutines that could go on, the free ones first
	free    int
	taken   int
	where   string
}

// run follows the prefix, then goes on with the running goroutine as long as it can
func (s *sched) run(prefix []int, bound int) (cs []choice, preempted int, serial bool) {
	var cur *thread
	cut := 0
	serial = true
	for n := 0; ; n++ {
		en := s.enabled()
		if len(en) == 0 || s.cause != "" {
			return
		}
		if n > 200000 {
			s.cause = "does not come to rest"
			return
		}
		c := choice{}
		var rest []int
		in := false
		for _, t := range en {
			if t == cur {
				in = true
			}
		}
		switch {
		case in && (cur.state == tReady && !cur.border || s.all && cur.state != tSleeping): // in the middle
			c.options, c.free = []int{cur.id}, 1
			if preempted < bound {
				for _, t := range en {
					if t != cur {
						rest = append(rest, t.id)
					}
				}
			}
			c.options = append(c.options, rest...)
		case in: // sleeping, waiting for input, or between messages
			c.options = append(c.options, cur.id)
			for _, t := range en {
				if t != cur {
					c.options = append(c.options, t.id)
				}
			}
			c.free = len(c.options)
		default:
			for _, t := range en {
				c.options = append(c.options, t.id)
			}
			c.free = len(c.options)
		}
		if s.net != nil && !s.all {
			c.options = s.senders(c.options, s.net.lazy)
		}
		if s.net != nil && cut < s.net.cuts { // a connection delivers a part only
			for _, o := range c.options {
				if t := s.threads[o]; t.state == tNet && t.pieces != nil {
					for k := 1; k < t.pieces(); k++ {
						c.options = append(c.options, o+100*k)
					}
				}
			}
		}
		if s.orders && cur != nil {
			var l []int
			for _, o := range c.options {
				if s.piecewise(cur, s.threads[o], in, en) {
					l = append(l, o)
				}
			}
			if len(l) > 0 {
				c.options = l
			}
		}
		if n < len(prefix) {
			c.taken = prefix[n]
		} else {
			c.taken = c.options[0]
		}
		ok := false
		for _, o := range c.options {
			ok = ok || o == c.taken
		}
		if !ok {
			s.cause = fmt.Sprintf("choice %d: goroutine %d can not go on this time", n, c.taken)
			return
		}
		t := s.threads[c.taken%100]
		t.piece = c.taken / 100
		if t.piece > 0 {
			cut++
		}
		c.where = t.where
		if cur != nil && t != cur {
			if in && (cur.state == tReady && !cur.border || s.all && cur.state != tSleeping) {
				preempted++
			}
		}
		if cur != nil && !s.piecewise(cur, t, in, en) {
			serial = false
		}
		s.mu.Lock()
		s.cur = t
		s.mu.Unlock()
		cs = append(cs, c)
		if t != cur {
			for _, x := range s.threads {
				if x != t {
					x.quiet = false
					x.other = x.state != tSleeping
				}
			}
		}
		cur = t
		if t.state == tInput {
			line := s.script[0]
			s.script = s.script[1:]
			s.key_(line)
			s.await(t)
			continue
		}
		t.state = tRunning
		t.resume <- true
		s.await(t)
	}
}

// pass lets time pass: those which sleep wake up n times more
func (s *sched) pass(n int) {
	for ; n > 0 && s.cause == ""; n-- {
		slept := false
		for _, t := range s.threads {
			if t.state == tSleeping {
				t.quiet, slept = false, true
			}
		}
		if !slept {
			return
		}
		s.run(nil, 0)
	}
}

// finish ends every goroutine of the node
func (s *sched) finish() {
	for _, t := range s.threads {
		if s.net == nil && t.state == tReady || t.state == tRunning || t.state == tBlocked { // let go of what it holds
			s.active = false
		}
	}
	if !s.active {
		for _, t := range s.threads {
			if t.state == tReady {
				t.resume <- true
			}
		}
		for i := 0; i < 3000; i++ {
			left := false
			for len(s.ev) > 0 {
				e := <-s.ev
				e.t.state = e.kind
				if e.kind != tDone {
					e.t.resume <- true
				}
			}
			for _, t := range s.threads[1:] {
				left = left || t.state != tDone
			}
			if !left {
				break
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	gs := goroutines()
	for g, stack := range gs {
		if strings.Contains(stack, "zRep/cmd/") || strings.Contains(stack, "zRep/util") || strings.Contains(stack, "main.(*sched)") {
			if g != goid() {
				schedDoomed.Store(g, true)
			}
		}
	}
	s.active = false
	schedKeyboard.Close()
	for _, l := range schedListeners {
		l.Close()
	}
	schedListeners = nil
	for _, t := range s.threads {
		if t.state != tDone {
			close(t.resume)
		}
	}
	// they run into their next statement and end there
	for i := 0; i < 5000; i++ {
		left := false
		now := goroutines()
		schedDoomed.Range(func(k, v interface{}) bool {
			if _, ok := now[k.(string)]; ok {
				left = true
			} else {
				schedDoomed.Delete(k)
			}
			return true
		})
		for len(s.ev) > 0 {
			<-s.ev
		}
		if !left {
			break
		}
		time.Sleep(100 * time.Microsecond)
	}
	os.Stdin.Close()
	schedNow = nil
	netHook = nil
	random.Stream = nil
	util.VerifSend = nil
	osExitHook = nil
}

// outcome of a schedule: what every goroutine came to, what was sent to whom in
// which order, and the node's state
func (s *sched) outcome(state interface{}) string {
	var b strings.Builder
	for _, t := range s.threads {
		at := map[int]string{tReady: "stopped at " + t.where, tBlocked: "blocked after " + t.where, tInput: "waits for the user after " + t.where, tSleeping: "sleeps after " + t.where, tDone: "through"}[t.state]
		if t.id == 0 { // the reference's main loop is another one
			at = map[int]string{tReady: "stopped", tBlocked: "blocked", tInput: "waits for the user", tSleeping: "sleeps", tDone: "through"}[t.state]
		}
		fmt.Fprintf(&b, "%s: %s %s\n", t.name, at, t.crashed)
	}
	by := map[string][]string{}
	for _, m := range s.sends {
		by[m.to] = append(by[m.to], m.bytes)
	}
	var l []string
	for to, ms := range by {
		l = append(l, fmt.Sprintf("to %s: %d messages %q", to, len(ms), ms))
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, "\n"))
	v := reflect.New(reflect.TypeOf(state).Elem())
	v.Elem().Set(reflect.ValueOf(state).Elem())
	state = v.Interface()
	ownFields(state, state, func(x, _ reflect.Value) { x.Set(reflect.Zero(x.Type())) })
	b.WriteString("\n" + dump(state))
	return b.String()
}

func (s *sched) stuck() string {
	var l []string
	for _, t := range s.threads {
		if t.state == tBlocked || t.state == tSleeping && t.id > 0 {
			l = append(l, t.name+" after "+t.where)
		}
	}
	return strings.Join(l, ", ")
}

// trace describes a schedule
func (s *sched) trace(cs []choice) string {
	var l []string
	for i := 0; i < len(cs); {
		j := i
		end := ""
		for j < len(cs) && cs[j].taken%100 == cs[i].taken%100 {
			if k := cs[j].taken / 100; k > 0 {
				end = fmt.Sprintf("with a part (%d), ", k)
			}
			j++
		}
		pieces := end
		end = pieces + "until it waits or ends"
		if j < len(cs) {
			for k := j; k < len(cs); k++ { // where it goes on later
				if cs[k].taken%100 == cs[i].taken%100 {
					end = pieces + "to " + cs[k].where
					break
				}
			}
		}
		l = append(l, s.threads[cs[i].taken%100].name+" "+end)
		i = j
	}
	if len(l) > 12 {
		l = append(l[:12], "...")
	}
	return strings.Join(l, "; ")
}
