package main

// A lab is one reachable state of a world on which alphabets of messages are
// tried exhaustively: every message alone, and in chains that end with the
// genuine one.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

type Lab struct {
	w *World
	s *GState
	r *Result
	// an operation that is left out
	skip string
}

// newLab: an open round in which all clients are in the table
func newLab(r *Result, servers, clients, fillers int) *Lab {
	e := newEngine()
	w := newWorld(e, servers, clients)
	return &Lab{w: w, s: w.members(fillers, clients), r: r}
}

func (l *Lab) op(n nodeID, in Input) {
	if in.Op == l.skip && in.Op != "" {
		return
	}
	l.s = l.w.opQuiet(l.s, n, in, nil)
	l.alive()
}
func (l *Lab) alive() {
	for _, n := range l.w.nodes {
		if x := l.w.local(l.s, n); x.Crashed != "" {
			panic(harnessCrash{fmt.Sprintf("%s stops on %s: %s", n, x.In, firstLine(x.Crashed))})
		}
	}
}

// harnessCrash: a node stops while a state is being set up
type harnessCrash struct{ what string }

func (l *Lab) endRound() {
	l.op(0, Input{Op: "vote"})
	l.op(0, Input{Op: "roundend"})
	l.op(0, Input{Op: "clear"})
	l.op(0, Input{Op: "announce"})
}

// grab runs a launcher function of a client and returns what it sends, undelivered
func (l *Lab) grab(n nodeID, in Input) []byte {
	d := l.w.e.step(l.w.local(l.s, n), in)
	if d.Crashed != "" {
		panic(harnessCrash{fmt.Sprintf("%s stops on %s: %s", n, in, firstLine(d.Crashed))})
	}
	if len(d.Outs) != 1 {
		return nil
	}
	return d.Outs[0].Bytes
}

func (l *Lab) coord() *Local        { return l.w.local(l.s, 0) }
func (l *Lab) cv() *CoordView       { return l.coord().View.C }
func (l *Lab) dv(i int) *ClientView { return l.w.client(l.s, i) }

// give hands raw bytes to a node state
func (l *Lab) give(at *Local, from nodeID, b []byte) *Local {
	return l.w.e.step(at, Input{Msg: l.w.e.addMsg(from, at.Node, b)})
}

// put replaces the state of a node by a successor and lets everything it sends
// run its course
func (l *Lab) put(d *Local) {
	i := l.w.idx[d.Node]
	t := l.s.clone()
	t.loc[i] = int32(d.ID)
	var o []int32
	for _, m := range d.Outs {
		o = append(o, int32(m.ID))
	}
	t.out[i] = o
	l.s = l.w.quiet(t, nil)
	l.alive()
}

func (l *Lab) fork() *Lab { return &Lab{w: l.w, s: l.s, r: l.r} }

type params map[string]interface{}

func paramsOf(b []byte) params {
	if b == nil {
		return nil
	}
	p := params{}
	for k, v := range decodeEvent(b).Params {
		p[k] = v
	}
	return p
}

func (p params) clone() params {
	q := params{}
	for k, v := range p {
		q[k] = v
	}
	return q
}

func (p params) with(k string, v interface{}) params {
	q := p.clone()
	q[k] = v
	return q
}

func (p params) bytes(k string) []byte {
	b, _ := p[k].([]byte)
	return b
}

func (p params) same(q params) bool {
	if len(p) != len(q) {
		return false
	}
	for k, v := range p {
		x, ok := q[k]
		if !ok || fmt.Sprintf("%T%x", v, v) != fmt.Sprintf("%T%x", x, x) {
			return false
		}
	}
	return true
}

func mkEvent(typ int, from nodeID, p params) []byte {
	return util.Encode(&proto.Event{EventType: typ, Params: p, SrcAddr: from.addr().String()})
}

func secretHex(h string) abstract.Secret { return util.BigIntToSecret(qr512, hx(h)) }
func pointHex(h string) abstract.Point   { return pointBig(hx(h)) }
func pointBig(n *big.Int) abstract.Point {
	p := qr512.Point()
	b := make([]byte, p.MarshalSize())
	n.FillBytes(b)
	if err := p.UnmarshalBinary(b); err != nil {
		panic("harness: not a point: " + err.Error())
	}
	return p
}

func sign(msg []byte, sk string, base string) []byte {
	return util.ElGamalSign(qr512, newPRF(prfKey("lab signature", msg, sk)), msg, secretHex(sk), pointHex(base))
}

// tamper lists the single-field alterations of a message's fields. order gives
// the fields that are signed back to back.
func tamper(g params, donors []params, order []string, every int) (l []labelled) {
	add := func(label string, p params) {
		if !p.same(g) {
			l = append(l, labelled{label, p})
		}
	}
	var fields []string
	for k := range g {
		fields = append(fields, k)
	}
	sort.Strings(fields)
	for _, k := range fields {
		q := g.clone()
		delete(q, k)
		add(k+" left out", q)
		add(k+" of another type", g.with(k, 3.5))
		add(k+" a boolean", g.with(k, true))
		switch v := g[k].(type) {
		case []byte:
			for i := 0; i < len(v); i++ {
				if every > 1 && i%every != 0 && i > 12 && i < len(v)-12 {
					continue
				}
				b := append([]byte(nil), v...)
				b[i] ^= 1 << uint((i*5+3)%8)
				add(fmt.Sprintf("%s with byte %d altered", k, i), g.with(k, b))
				add(fmt.Sprintf("%s without byte %d", k, i), g.with(k, append(append([]byte{}, v[:i]...), v[i+1:]...)))
				add(fmt.Sprintf("%s with a zero before byte %d", k, i), g.with(k, append(append(append([]byte{}, v[:i]...), 0), v[i:]...)))
			}
			add(k+" empty", g.with(k, []byte{}))
			add(k+" all zero", g.with(k, make([]byte, len(v))))
			ones := make([]byte, len(v))
			for i := range ones {
				ones[i] = 0xff
			}
			add(k+" all ones", g.with(k, ones))
			for _, n := range []int{1, 2, 4, 8, len(v) / 2} {
				if n <= len(v) {
					add(fmt.Sprintf("%s without its last %d bytes", k, n), g.with(k, v[:len(v)-n]))
					add(fmt.Sprintf("%s without its first %d bytes", k, n), g.with(k, v[n:]))
				}
			}
			add(k+" with a zero in front", g.with(k, append([]byte{0}, v...)))
			if k != "signature" { // what follows a signature is not read
				add(k+" with a zero behind", g.with(k, append(append([]byte{}, v...), 0)))
				add(k+" doubled", g.with(k, append(append([]byte{}, v...), v...)))
				for _, x := range [][]byte{{1}, {0xff}, {0, 0}, {8, 0}, {0x78, 1}, {0x7a, 0}} {
					add(fmt.Sprintf("%s with %x behind", k, x), g.with(k, append(append([]byte{}, v...), x...)))
				}
			}
			add(k+" a string", g.with(k, string(v)))
		case int:
			for _, d := range []int{1, -1, 2, -2, 1 << 8, -1 << 8, 1 << 16, 1 << 31, 1 << 32, -1 << 32, 1 << 40} {
				add(fmt.Sprintf("%s changed by %d", k, d), g.with(k, v+d))
			}
			add(k+" negated", g.with(k, -v))
			add(k+" zero", g.with(k, 0))
		case string:
			add(k+" empty", g.with(k, ""))
			far := func(i int) bool { return every > 1 && i%every != 0 && i > 12 && i < len(v)-12 }
			for i := range v {
				if far(i) {
					continue
				}
				b := []byte(v)
				b[i] ^= 1
				add(fmt.Sprintf("%s with character %d altered", k, i), g.with(k, string(b)))
			}
			add(k+" with one more character", g.with(k, v+"1"))
			if v != "" {
				add(k+" without its last character", g.with(k, v[:len(v)-1]))
			}
			for _, x := range []string{" ", "\t", "\n", "\r\n", "\x00", "\x00\x00", "0", ".", "/", ":", ",", ";", "\u00a0"} {
				add(fmt.Sprintf("%s with %q behind", k, x), g.with(k, v+x))
				add(fmt.Sprintf("%s with %q in front", k, x), g.with(k, x+v))
			}
			add(k+" in upper case", g.with(k, strings.ToUpper(v)))
			add(k+" in lower case", g.with(k, strings.ToLower(v)))
			add(k+" trimmed", g.with(k, strings.TrimSpace(v)))
			add(k+" trimmed of zeros", g.with(k, strings.Trim(v, "\x00")))
			add(k+" doubled", g.with(k, v+v))
			for i := range v {
				if far(i) {
					continue
				}
				add(fmt.Sprintf("%s without character %d", k, i), g.with(k, v[:i]+v[i+1:]))
				add(fmt.Sprintf("%s with a space before character %d", k, i), g.with(k, v[:i]+" "+v[i:]))
				add(fmt.Sprintf("%s with a zero before character %d", k, i), g.with(k, v[:i]+"0"+v[i:]))
			}
			add(k+" in bytes", g.with(k, []byte(v)))
		case bool:
			add(k+" negated", g.with(k, !v))
		}
		for i, d := range donors {
			if x, ok := d[k]; ok {
				add(fmt.Sprintf("%s of genuine message %d", k, i), g.with(k, x))
				q := d.with(k, g[k])
				if !q.same(d) {
					add(fmt.Sprintf("all but %s of genuine message %d", k, i), q)
				}
			}
		}
	}
	// two fields of another genuine message
	for i, d := range donors {
		for a := 0; a < len(fields); a++ {
			for b := a + 1; b < len(fields); b++ {
				if q := g.with(fields[a], d[fields[a]]).with(fields[b], d[fields[b]]); !q.same(d) {
					add(fmt.Sprintf("%s and %s of genuine message %d", fields[a], fields[b], i), q)
				}
			}
		}
	}
	// swapped fields
	for a := 0; a < len(fields); a++ {
		for b := a + 1; b < len(fields); b++ {
			if fmt.Sprintf("%T", g[fields[a]]) == fmt.Sprintf("%T", g[fields[b]]) {
				add(fmt.Sprintf("%s and %s swapped", fields[a], fields[b]), g.with(fields[a], g[fields[b]]).with(fields[b], g[fields[a]]))
			}
		}
	}
	// bytes moved over the border between neighbours
	raw := func(k string) ([]byte, func([]byte) interface{}) {
		switch v := g[k].(type) {
		case []byte:
			return v, func(b []byte) interface{} { return b }
		case string:
			return []byte(v), func(b []byte) interface{} { return string(b) }
		}
		return nil, nil
	}
	for i := 0; i+1 < len(order); i++ {
		a, ca := raw(order[i])
		b, cb := raw(order[i+1])
		if ca == nil || cb == nil {
			continue
		}
		all := append(append([]byte{}, a...), b...)
		for n := 0; n <= len(all); n++ {
			d := n - len(a)
			if d == 0 || every > 1 && d != 1 && d != -1 && n%every != 0 && n != 0 && n != len(all) {
				continue
			}
			add(fmt.Sprintf("border between %s and %s moved by %d", order[i], order[i+1], d),
				g.with(order[i], ca(append([]byte{}, all[:n]...))).with(order[i+1], cb(append([]byte{}, all[n:]...))))
		}
	}
	return
}

type labelled struct {
	label string
	p     params
}

func viewJSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// diffViews names the fields in which two views differ
func diffViews(a, b interface{}) string {
	var x, y map[string]interface{}
	json.Unmarshal([]byte(viewJSON(a)), &x)
	json.Unmarshal([]byte(viewJSON(b)), &y)
	var l []string
	for k := range x {
		if viewJSON(x[k]) != viewJSON(y[k]) {
			l = append(l, k)
		}
	}
	for k := range y {
		if _, ok := x[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func (l *Lab) nodeView(x *Local) interface{} {
	switch {
	case x.View.C != nil:
		return x.View.C
	case x.View.S != nil:
		return x.View.S
	}
	return x.View.D
}

// refuses checks that a node ignores a message: no change, nothing sent, no stop
func (l *Lab) refuses(at *Local, from nodeID, typ int, c labelled, key string) *Local {
	d := l.give(at, from, mkEvent(typ, from, c.p))
	l.r.eval(key + ": " + c.label)
	l.r.States++
	l.r.Transitions++
	switch {
	case d.Crashed != "":
		l.r.find(key+":stops:"+shortKey(c.label), "%s stops on %s with %s: %s", at.Node, evNames[typ], c.label, firstLine(d.Crashed))
	case viewJSON(l.nodeView(d)) != viewJSON(l.nodeView(at)):
		l.r.find(key+":changes:"+shortKey(c.label), "%s is not ignored by %s: %s with %s changes %s", evNames[typ], at.Node, evNames[typ], c.label, diffViews(l.nodeView(at), l.nodeView(d)))
	case len(d.Outs) > 0:
		l.r.find(key+":answers:"+shortKey(c.label), "%s with %s is not ignored by %s: it sends %s", evNames[typ], c.label, at.Node, d.Outs[0])
	}
	return d
}
