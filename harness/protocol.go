package main

// Oracles over the local histories of the nodes. They see plain views and the
// bytes of the messages, and recompute everything with their own arithmetic.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"

	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/nist"
)

func (m *Msg) event() *proto.Event {
	if m.ev == nil {
		m.ev = decodeEvent(m.Bytes)
	}
	return m.ev
}

func (m *Msg) points(field string) (l []string) {
	if x, ok := m.lists[field]; ok {
		return x
	}
	defer func() {
		if m.lists == nil {
			m.lists = map[string][]string{}
		}
		m.lists[field] = l
	}()
	b, ok := m.event().Params[field].([]byte)
	if !ok {
		return nil
	}
	return pts(util.ProtobufDecodePointList(b))
}

func (m *Msg) point(field string) string {
	b, _ := m.event().Params[field].([]byte)
	return new(big.Int).SetBytes(b).Text(16)
}

func (m *Msg) secrets(field string) (l []string) {
	if x, ok := m.lists[field]; ok {
		return x
	}
	defer func() {
		if m.lists == nil {
			m.lists = map[string][]string{}
		}
		m.lists[field] = l
	}()
	b, ok := m.event().Params[field].([]byte)
	if !ok {
		return nil
	}
	for _, s := range util.ProtobufDecodeSecretList(b) {
		l = append(l, sc(s))
	}
	return
}

// owner of a long-term key
type owner struct {
	client int // -1: filler
	filler int
	sk     string
	pub    string
}

var qr512 = nist.NewAES128SHA256QR512()

func (w *World) owners(s *GState, fillers int) map[string]*owner {
	m := map[string]*owner{}
	for _, n := range w.nodes {
		if n.kind() == kClient {
			v := w.local(s, n).View.D
			m[v.PubKey] = &owner{client: int(n) - 10, filler: -1, sk: v.PriKey, pub: v.PubKey}
		}
	}
	for i := 0; i < fillers; i++ {
		sk, _ := fillerSecrets(qr512, i)
		pub := refPub(sc(sk))
		m[pub] = &owner{client: -1, filler: i, sk: sc(sk), pub: pub}
	}
	return m
}

// the rounds as the coordinator saw them
type roundRec struct {
	opened   *Local // handled the final ANNOUNCEMENT
	begun    *Local // before "announce"
	ending   *Local // sent ROUND_END to the servers
	ended    *Local // handled the final ROUND_END
	finalize map[nodeID]*Msg
	joined   []string // nyms of clients that joined during it
	joinComm map[string]string
	rdiff    *Msg
	endMsgs  map[nodeID]*Msg
	steps    []*Local // coordinator's steps from opened (excluded) up to ended (included)
}

func sentTo(l *Local, typ int) map[nodeID]*Msg {
	r := map[nodeID]*Msg{}
	for _, m := range l.Outs {
		if m.Type == typ {
			r[m.To] = m
		}
	}
	return r
}

func inType(l *Local) int {
	if l.In.Msg == nil {
		return -1
	}
	return l.In.Msg.Type
}

func roundsOf(c *Local) []*roundRec {
	if c.rounds != nil {
		return c.rounds
	}
	rs := findRounds(c)
	c.rounds = rs
	return rs
}

func findRounds(c *Local) []*roundRec {
	var rs []*roundRec
	var cur *roundRec
	var begun *Local
	for _, l := range c.path() {
		if l.Crashed != "" {
			continue
		}
		switch {
		case l.In.Op == "announce":
			begun = l.Parent
		case inType(l) == proto.ANNOUNCEMENT:
			cur = &roundRec{opened: l, begun: begun, finalize: sentTo(l, proto.ANNOUNCEMENT_FINALIZE), joinComm: map[string]string{}}
			rs = append(rs, cur)
			continue
		}
		if cur == nil {
			continue
		}
		cur.steps = append(cur.steps, l)
		// the last registration may let the round end go on in the same step
		if inType(l) == proto.CLIENT_REGISTER_SERVERSIDE && cur.ending == nil {
			nym := l.In.Msg.point("public_key")
			cur.joined = append(cur.joined, nym)
			cur.joinComm[nym] = l.In.Msg.point("pcomm")
		}
		if len(sentTo(l, proto.ROUND_END)) > 0 && inType(l) != proto.ROUND_END && cur.ending == nil {
			cur.ending = l
			for _, m := range l.Outs {
				if m.Type == proto.BCAST_PEDERSEN_RDIFF {
					cur.rdiff = m
				}
			}
		}
		if inType(l) == proto.ROUND_END {
			cur.ended = l
			cur.endMsgs = sentTo(l, proto.ROUND_END)
			cur = nil
		}
	}
	return rs
}

// handledAt finds the step of a node that handled the message which the step
// sent put on the wire: equal messages are handled in the order of their sending
func handledAt(n *Local, m *Msg, sent *Local) *Local {
	k := 0
	for l := sent; l.Parent != nil; l = l.Parent {
		for _, x := range l.Outs {
			if x.ID == m.ID {
				k++
			}
		}
	}
	var hs []*Local
	for l := n; l.Parent != nil; l = l.Parent {
		if l.In.Msg != nil && l.In.Msg.ID == m.ID {
			hs = append(hs, l)
		}
	}
	if k == 0 || len(hs) < k {
		return nil
	}
	return hs[len(hs)-k]
}

func entryMap(l []Entry) map[string]string {
	m := map[string]string{}
	for _, e := range l {
		m[e.Key] = e.Comm
	}
	return m
}

func sameEntries(a, b []Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedSet(l []string) []string {
	r := append([]string(nil), l...)
	sort.Strings(r)
	return r
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fillerOpenings follows the openings of the fillers through the rounds. They are
// known as long as every round end told them (there was a client to tell).
func fillerOpenings(rs []*roundRec, upto int, fillers int) []string {
	open := make([]*big.Int, fillers)
	sks := make([]string, fillers)
	for i := range open {
		sk, r := fillerSecrets(qr512, i)
		open[i] = hx(sc(r))
		sks[i] = sc(sk)
	}
	for k := 0; k < upto; k++ {
		if rs[k].ended == nil {
			break
		}
		if rs[k].rdiff == nil {
			return nil
		}
		keys, rd := rs[k].rdiff.points("keys"), rs[k].rdiff.secrets("rDiffs")
		g := rs[k].opened.View.C.G
		for i := range open {
			nym := refNym(g, sks[i])
			found := false
			for j := range keys {
				if keys[j] == nym && j < len(rd) {
					open[i] = new(big.Int).Add(open[i], hx(rd[j]))
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		}
	}
	r := make([]string, fillers)
	for i := range r {
		r[i] = new(big.Int).Mod(open[i], grpQ).Text(16)
	}
	return r
}

func short(s string) string {
	if len(s) > 10 {
		return s[:10]
	}
	return s
}

// ------------------------------------------------------------------ C01

var pairMemo = map[string]string{}

func memoPair(kind string, a, b *Local, f func() string) string {
	k := kind + strconv.Itoa(a.ID) + "/" + strconv.Itoa(b.ID)
	if a.ID < 0 {
		return f()
	}
	if d, ok := pairMemo[k]; ok {
		return d
	}
	d := f()
	pairMemo[k] = d
	return d
}

// checkTables is the oracle of C01 on complete histories
func checkTables(fillers int) func(w *World, s *GState) string {
	return func(w *World, s *GState) string {
		c := w.local(s, 0)
		rs := roundsOf(c)
		own := w.owners(s, fillers)
		w.outcomes["announcements checked"] += len(rs)
		for k, r := range rs {
			v := r.opened.View.C
			where := fmt.Sprintf("announcement %d", k+1)
			if v.Status != stMESSAGE {
				return where + ": the coordinator does not open the round"
			}
			// participants: those in the coordinator's list of long-term keys
			want := []string{}
			byNym := map[string]*owner{}
			for _, e := range r.begun.View.C.Begin {
				o := own[e.Key]
				if o == nil {
					return where + ": a key in the coordinator's table belongs to nobody"
				}
				nym := refNym(v.G, o.sk)
				byNym[nym] = o
				want = append(want, nym)
			}
			var have []string
			for _, e := range v.End {
				have = append(have, e.Key)
			}
			if !sameStrings(sortedSet(have), sortedSet(want)) {
				return fmt.Sprintf("%s: the coordinator's table does not hold exactly the participants' pseudonyms (%d of %d participants)", where, len(have), len(want))
			}
			if !sameStrings(sortedSet(v.Table), sortedSet(want)) {
				return where + ": the coordinator's key list is not the table's"
			}
			if len(have) > 1 && v.G == grpG.Text(16) {
				return where + ": the generator is the public one"
			}
			comm := entryMap(v.End)
			opens := fillerOpenings(rs, k, fillers)
			for nym, o := range byNym {
				if o.filler >= 0 && opens != nil {
					if comm[nym] != refCommit(v.GT, v.HT, 0, opens[o.filler]) {
						return fmt.Sprintf("%s: the commitment of filler %d does not open to its reputation with its opening", where, o.filler)
					}
				}
			}
			// every node
			for _, n := range w.nodes {
				if n == 0 {
					continue
				}
				nl := w.local(s, n)
				m := r.finalize[n]
				if m == nil {
					if n.kind() == kServer {
						return fmt.Sprintf("%s: %s is not told", where, n)
					}
					if _, in := byNym[refNym(v.G, nl.View.D.PriKey)]; in {
						return fmt.Sprintf("%s: %s is in the table but not told", where, n)
					}
					continue
				}
				at := handledAt(nl, m, r.opened)
				if at == nil {
					return fmt.Sprintf("%s: %s never handles it", where, n)
				}
				if n.kind() == kServer {
					x := at.View.S
					if x.G != v.G || x.GT != v.GT || x.HT != v.HT || !sameEntries(x.End, v.End) {
						return fmt.Sprintf("%s: %s and the coordinator disagree on generator, bases or table", where, n)
					}
				} else {
					x := at.View.D
					if x.G != v.G || x.GT != v.GT || x.HT != v.HT || !sameStrings(x.Table, v.Table) {
						return fmt.Sprintf("%s: %s and the coordinator disagree on generator, bases or table", where, n)
					}
					if x.Nym != refNym(v.G, x.PriKey) {
						return fmt.Sprintf("%s: %s's pseudonym is not the generator raised to its secret", where, n)
					}
					if x.Index < 0 || x.Index >= len(x.Table) || x.Table[x.Index] != x.Nym {
						return fmt.Sprintf("%s: %s does not know its place in the table", where, n)
					}
					if x.PCommr != comm[x.Nym] {
						return fmt.Sprintf("%s: %s has another commitment than the table", where, n)
					}
					if x.PCommr != refCommit(x.GT, x.HT, int64(x.Reputation), x.R) {
						return fmt.Sprintf("%s: the commitment of %s does not open to its reputation %d with its opening", where, n, x.Reputation)
					}
				}
				// and it keeps it until the next announcement
				if d := keeps(nl, at); d != "" {
					return fmt.Sprintf("%s: %s %s during the round", where, n, d)
				}
			}
			for _, l := range r.steps {
				if l == r.ended {
					break
				}
				x := l.View.C
				if x.G != v.G || x.GT != v.GT || x.HT != v.HT || !sameStrings(x.Table, v.Table) || r.ending == nil && !sameEntries(x.End, v.End) {
					return fmt.Sprintf("%s: the coordinator's generator, bases or table change during the round, on %s", where, l.In)
				}
			}
		}
		if len(rs) == 0 {
			return "no announcement ever finishes"
		}
		return ""
	}
}

func keeps(end, at *Local) string {
	for l := end; l != at; l = l.Parent {
		// only the part before the next finalize
		p := l.Parent
		for p != at && inType(p) != proto.ANNOUNCEMENT_FINALIZE {
			p = p.Parent
		}
		if p != at || inType(l) == proto.ANNOUNCEMENT_FINALIZE {
			continue
		}
		if l.View.S != nil {
			a, b := at.View.S, l.View.S
			if a.G != b.G || a.GT != b.GT || a.HT != b.HT || !sameEntries(a.End, b.End) {
				return "changes its generator, bases or table"
			}
		} else if l.View.D != nil {
			a, b := at.View.D, l.View.D
			if a.G != b.G || a.GT != b.GT || a.HT != b.HT || !sameStrings(a.Table, b.Table) || a.Nym != b.Nym || a.PCommr != b.PCommr {
				return "changes its generator, bases, pseudonym or commitment"
			}
		}
	}
	return ""
}

// ------------------------------------------------------------------ C02

func checkRoundEnds(fillers int) func(w *World, s *GState) string {
	return func(w *World, s *GState) string {
		c := w.local(s, 0)
		rs := roundsOf(c)
		own := w.owners(s, fillers)
		for k, r := range rs {
			if r.ended == nil {
				continue
			}
			w.outcomes["round ends checked"]++
			where := fmt.Sprintf("round end %d", k+1)
			v := r.ended.View.C
			wantPub := map[string]bool{}
			for _, e := range r.begun.View.C.Begin {
				wantPub[e.Key] = true
			}
			g := r.opened.View.C.G
			for _, nym := range r.joined {
				found := false
				for pub, o := range own {
					if refNym(g, o.sk) == nym {
						wantPub[pub] = true
						found = true
					}
				}
				if !found {
					return where + ": a registration comes back with a key of nobody"
				}
			}
			var want []string
			for p := range wantPub {
				want = append(want, p)
			}
			have := []string{}
			for _, e := range v.Begin {
				have = append(have, e.Key)
			}
			if !sameStrings(sortedSet(have), sortedSet(want)) {
				return fmt.Sprintf("%s: the coordinator's table does not list exactly the long-term keys of the round's participants (%d keys, %d participants)", where, len(have), len(want))
			}
			if l := r.ended.In.Msg.points("keys"); len(l) != len(want) {
				return fmt.Sprintf("%s: the table that comes back has %d entries for %d participants", where, len(l), len(want))
			}
			comm := entryMap(v.Begin)
			opens := fillerOpenings(rs, k+1, fillers)
			for pub := range wantPub {
				o := own[pub]
				if o.filler >= 0 {
					if opens != nil && comm[pub] != refCommit(v.GT, v.HT, 0, opens[o.filler]) {
						return fmt.Sprintf("%s: the commitment beside filler %d's key does not open to its reputation with its opening", where, o.filler)
					}
					continue
				}
				nl := w.local(s, cli(o.client))
				m := r.endMsgs[cli(o.client)]
				if m == nil {
					return fmt.Sprintf("%s: client%d is not told", where, o.client)
				}
				at := handledAt(nl, m, r.ended)
				if at == nil {
					return fmt.Sprintf("%s: client%d never handles it", where, o.client)
				}
				x := at.View.D
				if comm[pub] != refCommit(v.GT, v.HT, int64(x.Reputation), x.R) {
					return fmt.Sprintf("%s: the commitment beside client%d's key does not open to its reputation %d with its opening", where, o.client, x.Reputation)
				}
			}
		}
		return ""
	}
}
