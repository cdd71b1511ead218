package main

// The world: nodes, their outboxes (messages of a running step not yet sent) and
// inboxes (accepted connections, in the order of their arrival). Transitions are
// single sends, single deliveries and launcher functions.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"time"
)

type GState struct {
	loc []int32
	out [][]int32
	in  [][]int32
	pc  []int8
}

func (s *GState) clone() *GState {
	d := &GState{loc: append([]int32(nil), s.loc...), pc: append([]int8(nil), s.pc...)}
	d.out = make([][]int32, len(s.out))
	d.in = make([][]int32, len(s.in))
	copy(d.out, s.out) // the slices themselves are never written in place
	copy(d.in, s.in)
	return d
}

type gkey [16]byte

func (s *GState) key() gkey {
	buf := make([]byte, 0, 256)
	put := func(l []int32) {
		buf = binary.AppendVarint(buf, int64(len(l)))
		for _, x := range l {
			buf = binary.AppendVarint(buf, int64(x))
		}
	}
	put(s.loc)
	for i := range s.out {
		put(s.out[i])
		put(s.in[i])
	}
	for _, p := range s.pc {
		buf = append(buf, byte(p))
	}
	h := sha256.Sum256(buf)
	var k gkey
	copy(k[:], h[:])
	return k
}

// Action is one transition, in a form that can be replayed from scratch.
type Action struct {
	Kind   string // emit, deliver, op, inject
	Node   nodeID
	Thread int    `json:",omitempty"`
	Op     string `json:",omitempty"`
	I, J   int    `json:",omitempty"`
	S      string `json:",omitempty"`
	Offset uint64 `json:",omitempty"`
	Note   string `json:",omitempty"`
}

func (a Action) String() string {
	switch a.Kind {
	case "op":
		return fmt.Sprintf("%s does %s(%d,%d,%s)", a.Node, a.Op, a.I, a.J, a.S)
	case "emit":
		return fmt.Sprintf("%s sends %s", a.Node, a.Note)
	case "deliver":
		return fmt.Sprintf("%s handles %s", a.Node, a.Note)
	}
	return fmt.Sprintf("%s is handed %s", a.Node, a.Note)
}

type Op struct {
	Node  nodeID
	In    Input
	Guard func(w *World, s *GState) bool
}

type Thread struct {
	Name string
	Ops  []Op
}

type World struct {
	e       *Engine
	nodes   []nodeID
	idx     map[nodeID]int
	threads []Thread
	init    *GState
	prefix  []Action // leads from scratch to init

	check    func(w *World, s *GState) string // "" or what is violated
	terminal func(w *World, s *GState) string
	// menu offers further actions; with it, pc[0] counts the actions taken from it
	menu func(w *World, s *GState) []Action
	// coarse: whatever is in flight runs to completion, in a fixed order, before
	// the next action
	coarse bool
	// allowCrash tells whether a crash of the node is acceptable
	allowCrash func(l *Local) bool
	maxStates  int
	deadline   time.Time

	// results
	states, transitions int
	terminals           int
	capped              string
	viol                []WViolation
	samples             [][]Action
	outcomes            map[string]int
	maxLen              int
	parent              map[gkey]parentLink
	steps0              int
}

type parentLink struct {
	from gkey
	act  Action
}

type WViolation struct {
	Desc    string
	Actions []Action
}

func newWorld(e *Engine, nServers, nClients int) *World {
	w := &World{e: e, idx: map[nodeID]int{}, outcomes: map[string]int{}}
	add := func(n nodeID) {
		w.idx[n] = len(w.nodes)
		w.nodes = append(w.nodes, n)
	}
	add(0)
	for i := 0; i < nServers; i++ {
		add(srv(i))
	}
	for i := 0; i < nClients; i++ {
		add(cli(i))
	}
	s := &GState{pc: make([]int8, 1), out: make([][]int32, len(w.nodes)), in: make([][]int32, len(w.nodes))}
	for _, n := range w.nodes {
		s.loc = append(s.loc, int32(e.initial(n).ID))
	}
	w.init = s
	w.maxStates = 2000000
	return w
}

func (w *World) local(s *GState, n nodeID) *Local { return w.e.locals[s.loc[w.idx[n]]] }
func (w *World) coord(s *GState) *CoordView       { return w.local(s, 0).View.C }
func (w *World) client(s *GState, i int) *ClientView {
	return w.local(s, cli(i)).View.D
}
func (w *World) server(s *GState, i int) *ServerView { return w.local(s, srv(i)).View.S }

func (w *World) inflight(s *GState) int {
	n := 0
	for i := range s.out {
		n += len(s.out[i]) + len(s.in[i])
	}
	return n
}

func app(l []int32, x int32) []int32 { return append(append(make([]int32, 0, len(l)+1), l...), x) }

func (w *World) stepNode(s *GState, n nodeID, in Input) *GState {
	i := w.idx[n]
	l := w.e.step(w.e.locals[s.loc[i]], in)
	d := s.clone()
	d.loc[i] = int32(l.ID)
	if len(l.Outs) > 0 {
		o := make([]int32, 0, len(l.Outs))
		for _, m := range l.Outs {
			o = append(o, int32(m.ID))
		}
		d.out[i] = o
	}
	return d
}

func (w *World) do(s *GState, a Action) *GState {
	i := w.idx[a.Node]
	switch a.Kind {
	case "emit":
		m := w.e.msgs[s.out[i][0]]
		d := s.clone()
		d.out[i] = s.out[i][1:]
		j, ok := w.idx[m.To]
		if !ok {
			panic("harness: message to a node outside the world: " + m.String())
		}
		d.in[j] = app(s.in[j], int32(m.ID))
		return d
	case "deliver":
		m := w.e.msgs[s.in[i][0]]
		t := s.clone()
		t.in[i] = s.in[i][1:]
		return w.stepNode(t, a.Node, Input{Msg: m, Offset: a.Offset})
	case "inject": // a message from outside the world, handled at once
		b, err := hex.DecodeString(a.S)
		must(err)
		return w.stepNode(s, a.Node, Input{Msg: w.e.addMsg(outsider, a.Node, b), Offset: a.Offset})
	case "op":
		d := w.stepNode(s, a.Node, Input{Op: a.Op, I: a.I, J: a.J, S: a.S, Offset: a.Offset})
		return d
	}
	panic("harness: action " + a.Kind)
}

func (w *World) crashed(s *GState, n nodeID) bool { return w.local(s, n).Crashed != "" }

func (w *World) enabled(s *GState) []Action {
	var acts []Action
	if w.coarse {
		if a, ok := w.firstInflight(s); ok {
			return []Action{a}
		}
	}
	busy := map[nodeID]bool{} // nodes with launcher functions still to run
	for t, th := range w.threads {
		for _, o := range th.Ops[s.pc[t]:] {
			busy[o.Node] = true
		}
	}
	for i, n := range w.nodes {
		if len(s.out[i]) > 0 {
			m := w.e.msgs[s.out[i][0]]
			a := Action{Kind: "emit", Node: n, Note: evNames[m.Type] + " to " + m.To.String()}
			// only the coordinator talks to clients: the send commutes with everything
			if m.To.kind() == kClient && n == 0 {
				return []Action{a}
			}
			acts = append(acts, a)
		} else if len(s.in[i]) > 0 && !w.crashed(s, n) {
			m := w.e.msgs[s.in[i][0]]
			a := Action{Kind: "deliver", Node: n, Note: evNames[m.Type] + " of " + m.From.String()}
			// nothing else can ever happen at this node first
			if !busy[n] {
				return []Action{a}
			}
			acts = append(acts, a)
		}
	}
	for t, th := range w.threads {
		if int(s.pc[t]) == len(th.Ops) {
			continue
		}
		o := th.Ops[s.pc[t]]
		if len(s.out[w.idx[o.Node]]) > 0 || w.crashed(s, o.Node) {
			continue // the node is inside a step
		}
		if o.Guard != nil && !o.Guard(w, s) {
			continue
		}
		acts = append(acts, Action{Kind: "op", Node: o.Node, Thread: t + 1, Op: o.In.Op, I: o.In.I, J: o.In.J, S: o.In.S, Offset: o.In.Offset})
	}
	if w.menu != nil {
		for _, a := range w.menu(w, s) {
			a.Thread = -1
			acts = append(acts, a)
		}
	}
	return acts
}

func (w *World) firstInflight(s *GState) (Action, bool) {
	for i, n := range w.nodes {
		if len(s.out[i]) > 0 {
			m := w.e.msgs[s.out[i][0]]
			return Action{Kind: "emit", Node: n, Note: evNames[m.Type] + " to " + m.To.String()}, true
		}
	}
	for i, n := range w.nodes {
		if len(s.in[i]) > 0 && !w.crashed(s, n) {
			m := w.e.msgs[s.in[i][0]]
			return Action{Kind: "deliver", Node: n, Note: evNames[m.Type] + " of " + m.From.String()}, true
		}
	}
	return Action{}, false
}

func (w *World) next(s *GState, a Action) *GState {
	d := w.do(s, a)
	if a.Thread > 0 {
		d.pc[a.Thread-1]++
	} else if a.Thread < 0 {
		d.pc[len(w.threads)]++
	}
	return d
}

// quiet runs sends and deliveries in a fixed order until nothing is in flight
func (w *World) quiet(s *GState, rec *[]Action) *GState {
	for {
		a, ok := w.firstInflight(s)
		if !ok {
			return s
		}
		s = w.do(s, a)
		if rec != nil {
			*rec = append(*rec, a)
		}
	}
}

// opQuiet runs a launcher function and everything that follows from it
func (w *World) opQuiet(s *GState, n nodeID, in Input, rec *[]Action) *GState {
	if w.crashed(s, n) {
		return s
	}
	a := Action{Kind: "op", Node: n, Op: in.Op, I: in.I, J: in.J, S: in.S, Offset: in.Offset}
	s = w.do(s, a)
	if rec != nil {
		*rec = append(*rec, a)
	}
	return w.quiet(s, rec)
}

// start is the common beginning: servers register one after the other, the
// launcher configures the commitments and adds fillers
func (w *World) start(nFillers int) *GState {
	s := w.init
	for _, n := range w.nodes {
		if n.kind() == kServer {
			s = w.opQuiet(s, n, Input{Op: "register"}, &w.prefix)
		}
	}
	s = w.opQuiet(s, 0, Input{Op: "config"}, &w.prefix)
	for i := 0; i < nFillers; i++ {
		s = w.opQuiet(s, 0, Input{Op: "filler", I: i}, &w.prefix)
	}
	w.init = s
	return s
}

func (w *World) round(s *GState, rec *[]Action) *GState {
	s = w.opQuiet(s, 0, Input{Op: "clear"}, rec)
	return w.opQuiet(s, 0, Input{Op: "announce"}, rec)
}

func (w *World) begin() *GState {
	s := w.init.clone()
	s.pc = make([]int8, len(w.threads)+1)
	return s
}

// explore visits every reachable state, depth first, and checks each
func (w *World) explore() {
	s := w.begin()
	w.parent = map[gkey]parentLink{}
	w.steps0 = w.e.steps
	type frame struct {
		s   *GState
		k   gkey
		dep int
	}
	k0 := s.key()
	w.parent[k0] = parentLink{}
	stack := []frame{{s, k0, 0}}
	w.states = 1
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if f.dep > w.maxLen {
			w.maxLen = f.dep
		}
		if d := w.verdict(f.s); d != "" {
			w.violate(d, f.k)
			continue
		}
		acts := w.enabled(f.s)
		if len(acts) == 0 {
			w.terminals++
			if d := w.atEnd(f.s); d != "" {
				w.violate(d, f.k)
			} else if len(w.samples) < 2 || (w.terminals&(w.terminals-1)) == 0 && len(w.samples) < 8 {
				w.samples = append(w.samples, w.trace(f.k))
			}
			continue
		}
		if len(w.viol) >= 3 {
			w.capped = "stopped after three violations"
			return
		}
		if w.states >= w.maxStates {
			w.capped = fmt.Sprintf("state cap of %d", w.maxStates)
			return
		}
		if w.states%64 == 0 && !w.deadline.IsZero() && time.Now().After(w.deadline) {
			w.capped = "time budget"
			return
		}
		for i := len(acts) - 1; i >= 0; i-- {
			d := w.next(f.s, acts[i])
			w.transitions++
			k := d.key()
			if _, ok := w.parent[k]; ok {
				continue
			}
			w.parent[k] = parentLink{f.k, acts[i]}
			w.states++
			stack = append(stack, frame{d, k, f.dep + 1})
		}
	}
}

// verdict on a state that may still go on
func (w *World) verdict(s *GState) string {
	for _, n := range w.nodes {
		if l := w.local(s, n); l.Crashed != "" && (w.allowCrash == nil || !w.allowCrash(l)) {
			return fmt.Sprintf("%s stops on %s: %s", n, l.In, firstLine(l.Crashed))
		}
	}
	if w.check != nil {
		return w.check(w, s)
	}
	return ""
}

func (w *World) atEnd(s *GState) string {
	var stuck []string
	for t, th := range w.threads {
		if int(s.pc[t]) < len(th.Ops) {
			stuck = append(stuck, fmt.Sprintf("%s waits for ever before %s", th.Name, th.Ops[s.pc[t]].In))
		}
	}
	if len(stuck) > 0 {
		return strings.Join(stuck, "; ")
	}
	if w.terminal != nil {
		return w.terminal(w, s)
	}
	return ""
}

func (w *World) trace(k gkey) []Action {
	var l []Action
	for {
		p := w.parent[k]
		if p.act.Kind == "" {
			break
		}
		l = append(l, p.act)
		k = p.from
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return append(append([]Action(nil), w.prefix...), l...)
}

func (w *World) violate(desc string, k gkey) {
	for _, v := range w.viol {
		if v.Desc == desc {
			return
		}
	}
	w.viol = append(w.viol, WViolation{desc, w.trace(k)})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
