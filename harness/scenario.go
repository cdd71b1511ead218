package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// A Scenario is a world with its threads and oracles. It is explored on
// snapshots and, for confirmation and conformance, replayed on node processes.
type Scenario struct {
	Name             string
	Servers, Clients int
	Build            func(w *World)
	NoReplay         bool // replays cannot be byte-identical (large maps)
	MaxStates        int
	Key              string // key of the findings
}

func (sc *Scenario) job() Job {
	return Job{Name: sc.Name, Run: func(r *Result) { sc.run(r) }}
}

func (sc *Scenario) run(r *Result) {
	e := newEngine()
	w := newWorld(e, sc.Servers, sc.Clients)
	w.deadline = r.deadline
	if sc.MaxStates > 0 {
		w.maxStates = sc.MaxStates
	}
	sc.Build(w)
	w.explore()
	r.States += w.states
	r.Transitions += w.transitions
	r.count("node steps executed", e.steps)
	r.count("final states", w.terminals)
	if w.maxLen > r.Counts["longest history"] {
		r.count("longest history", w.maxLen-r.Counts["longest history"])
	}
	for k, v := range w.outcomes {
		r.count(k, v)
	}
	if w.capped != "" {
		r.Capped = w.capped
	}
	for _, v := range w.viol {
		key := sc.Key
		if key == "" {
			key = sc.Name
		}
		key += ":" + shortKey(v.Desc)
		f := Finding{Key: key, Desc: v.Desc, Actions: v.Actions, Scenario: sc.Name}
		for _, a := range v.Actions {
			f.Steps = append(f.Steps, a.String())
		}
		if sc.NoReplay {
			f.Actions = nil // confirmed by a second run instead
			r.Findings = append(r.Findings, f)
			continue
		}
		desc, _ := sc.replay(v.Actions, nil)
		if desc == "" {
			r.Unconfirmed = append(r.Unconfirmed, v.Desc)
			continue
		}
		f.Desc = desc
		r.Findings = append(r.Findings, f)
	}
	for i, t := range w.samples {
		if i < 2 {
			var l []string
			for _, a := range t[len(w.prefix):] {
				l = append(l, a.String())
			}
			r.Samples = append(r.Samples, strings.Join(l, "; "))
		}
		if sc.NoReplay || i >= 3 && !thorough {
			continue
		}
		desc, same := sc.replay(t, w)
		if desc != "" {
			// seen only with every node in a process of its own
			f := Finding{Key: sc.Name + ":process:" + shortKey(desc), Desc: desc, Actions: t, Scenario: sc.Name}
			for _, a := range t {
				f.Steps = append(f.Steps, a.String())
			}
			r.Findings = append(r.Findings, f)
		}
		if same {
			r.Traces++
		} else {
			r.Diverged++
		}
	}
}

func shortKey(s string) string {
	s = strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return '#'
		}
		return c
	}, s)
	if len(s) > 80 {
		s = s[:80]
	}
	return strings.Replace(s, " ", "_", -1)
}

// replay runs the actions on node processes and judges every state on the way.
// With ref it also runs them on snapshots and tells whether all views agree.
func (sc *Scenario) replay(acts []Action, ref *World) (desc string, same bool) {
	e := newEngine()
	e.proc = true
	defer e.close()
	w := newWorld(e, sc.Servers, sc.Clients)
	sc.Build(w)
	s := w.begin()
	var rs *GState
	if ref != nil {
		rs = ref.begin()
	}
	same = true
	if ref != nil && os.Getenv("ZDIV") != "" {
		for _, n := range w.nodes {
			p, q := w.local(s, n).path(), ref.local(rs, n).path()
			for i := range p {
				if p[i].Hist != q[i].Hist {
					fmt.Fprintln(os.Stderr, "prefix diverges at", n, i, p[i].In, "|", q[i].In)
					if p[i].In.Msg != nil {
						fmt.Fprintf(os.Stderr, "%q\n%q\n", p[i].In.Msg.Bytes, q[i].In.Msg.Bytes)
					}
					break
				}
			}
		}
	}
	for _, a := range acts[len(w.prefix):] {
		if a.Kind == "emit" && len(s.out[w.idx[a.Node]]) == 0 || a.Kind == "deliver" && len(s.in[w.idx[a.Node]]) == 0 || w.crashed(s, a.Node) {
			return fmt.Sprintf("%s", w.verdict(s)), false
		}
		s = w.next(s, a)
		if d := w.verdict(s); d != "" {
			return d, false
		}
		if ref != nil && a.Kind != "emit" {
			rs = ref.next(rs, a)
			x, _ := json.Marshal(w.local(s, a.Node).View)
			y, _ := json.Marshal(ref.local(rs, a.Node).View)
			if string(x) != string(y) || w.local(s, a.Node).Hist != ref.local(rs, a.Node).Hist {
				if same && os.Getenv("ZDIV") != "" {
					fmt.Fprintln(os.Stderr, "diverges at", a, "\n", string(x), "\n", string(y), w.local(s, a.Node).Hist == ref.local(rs, a.Node).Hist)
					if m, n := w.local(s, a.Node).In.Msg, ref.local(rs, a.Node).In.Msg; m != nil {
						fmt.Fprintf(os.Stderr, "%q\n%q\n", m.Bytes, n.Bytes)
					}
				}
				same = false
			}
		} else if ref != nil {
			rs = ref.next(rs, a)
		}
	}
	if len(w.enabled(s)) == 0 {
		return w.atEnd(s), same
	}
	return "", same
}

// ------------------------------------------------------------ shared set-up

// coordStatus of package coordinator, by value
const (
	stREADY   = 1
	stMESSAGE = 3
)

func readyGuard(w *World, s *GState) bool   { return w.coord(s).Status == stREADY }
func messageGuard(w *World, s *GState) bool { return w.coord(s).Status == stMESSAGE }
func quietGuard(w *World, s *GState) bool   { return w.inflight(s) == 0 }

// launcher is the coordinator's main goroutine: the given number of rounds
func launcherThread(rounds int, config bool, offset uint64) Thread {
	t := Thread{Name: "the coordinator's main loop"}
	if config {
		t.Ops = append(t.Ops, Op{0, Input{Op: "config"}, quietGuard})
	}
	for i := 0; i < rounds; i++ {
		t.Ops = append(t.Ops, Op{0, Input{Op: "clear"}, readyGuard}, Op{0, Input{Op: "announce", Offset: offset}, nil},
			Op{0, Input{Op: "vote"}, messageGuard}, Op{0, Input{Op: "roundend", Offset: offset}, nil})
	}
	// one more announcement after the last round
	t.Ops = append(t.Ops, Op{0, Input{Op: "clear"}, readyGuard}, Op{0, Input{Op: "announce", Offset: offset}, nil})
	return t
}

func announceOnly() Thread {
	return Thread{Name: "the coordinator's main loop", Ops: []Op{{0, Input{Op: "clear"}, readyGuard}, {0, Input{Op: "announce"}, nil}}}
}

// joinQuiet lets the clients register in an open round, one after the other
func (w *World) joinQuiet(s *GState, clients ...int) *GState {
	for _, c := range clients {
		s = w.opQuiet(s, cli(c), Input{Op: "register"}, &w.prefix)
	}
	return s
}

// endRound ends the round and opens the next one, without interference
func (w *World) endRound(s *GState) *GState {
	s = w.opQuiet(s, 0, Input{Op: "vote"}, &w.prefix)
	s = w.opQuiet(s, 0, Input{Op: "roundend"}, &w.prefix)
	return w.round(s, &w.prefix)
}

// members starts a world in which the first n clients are in the round's table
func (w *World) members(fillers, n int) *GState {
	s := w.start(fillers)
	s = w.round(s, &w.prefix)
	if n > 0 {
		var l []int
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		s = w.joinQuiet(s, l...)
		s = w.endRound(s)
	}
	w.init = s
	return s
}
