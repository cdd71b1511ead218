package main

// C09 and C10: handing out bridges and collecting the signatures of assignments.
// The real coordinator is explored to a fixpoint over posts, requests and replies
// of the real servers; every step is compared with a reference model.

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

func init() {
	register(&Prop{ID: "C09", Level: "model_checking", Budget: 80,
		Rule:   "states are coordinator states up to the values of signatures; every order of posts, requests (each accepted one at every iteration order of the registry), replies and the end of the round, to a fixpoint, and the same in the next round; compared with a reference model",
		Assume: protocolAssumptions, Jobs: func(th bool) []Job { return bridgeJobs("C09", th) }})
	register(&Prop{ID: "C10", Level: "model_checking", Budget: 80,
		Rule:   "states are coordinator states up to the values of signatures; every order, repetition and loss of the servers' replies, with invalid replies of every kind at every point, to a fixpoint, past the end of the round and in the next round; compared with a reference model",
		Assume: protocolAssumptions, Jobs: func(th bool) []Job { return bridgeJobs("C10", th) }})
}

// refVerify checks a signature with arithmetic of its own
func refVerify(msg []byte, pub string, sig []byte, base string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	n := qr512.Secret().MarshalSize()
	if len(sig) != 2*n {
		return false
	}
	c, r := qr512.Secret(), qr512.Secret()
	if c.UnmarshalBinary(sig[:n]) != nil || r.UnmarshalBinary(sig[n:]) != nil {
		return false
	}
	t := gmul(gexp(hx(base), hx(sc(r))), gexp(hx(pub), hx(sc(c))))
	p := pointBig(t)
	pb, _ := p.MarshalBinary()
	h := qr512.Cipher(pb)
	h.Message(nil, nil, msg)
	return qr512.Secret().Pick(h).Equal(c)
}

type asgn struct {
	enc  string // encoding
	to   nodeID // the requester
	nymR string
	got  []bool
	done bool
}

// reply of a server, as it would arrive
type reply struct {
	id    int
	from  nodeID // the address it comes from
	name  string
	bytes []byte
	ents  []replyEnt
	fine  bool // no entry is invalid in itself, or all are
}

type replyEnt struct {
	addr, enc string
	srv       int // -1: counts for nobody
}

// what has to be true of the coordinator
type bmodel struct {
	posted map[string]string // address -> pseudonym
	asg    map[string]*asgn
	asked  []int // how often each request has been made
	pool   []int // replies that exist
	ended  bool
}

func (m *bmodel) clone() *bmodel {
	d := &bmodel{posted: map[string]string{}, asg: map[string]*asgn{}, asked: append([]int(nil), m.asked...), pool: append([]int(nil), m.pool...), ended: m.ended}
	for k, v := range m.posted {
		d.posted[k] = v
	}
	for k, v := range m.asg {
		x := *v
		x.got = append([]bool(nil), v.got...)
		d.asg[k] = &x
	}
	return d
}

func (m *bmodel) key() string {
	var l []string
	for a, n := range m.posted {
		l = append(l, a+"="+n)
	}
	for a, x := range m.asg {
		l = append(l, fmt.Sprint(a, x.enc, x.to, x.got, x.done))
	}
	sort.Strings(l)
	p := append([]int(nil), m.pool...)
	sort.Ints(p)
	return fmt.Sprint(l, m.asked, p, m.ended)
}

type bstate struct {
	at    *Local
	m     *bmodel
	depth int
}

type genuine struct {
	name string
	from nodeID
	p    params
	// of posts
	addr, nym string
	// of requests
	ind   int
	limit int
}

type bexp struct {
	*Lab
	prop    string
	nSrv    int
	srvs    []*Local // server states
	srvKeys []string
	posts   []genuine
	reqs    []genuine
	refused []genuine // requests that are refused
	replies []*reply
	byBytes map[string]int
	invalid bool // also every invalid reply
	offsets int
	stale   []*reply // of an earlier round
	roundsq bool     // let the round end
	maxSt   int
	seen    map[string]bool
	queue   []bstate
	atEnd   []bstate // states in which the round may end
	perEnd  map[string]bool
	fix     bool
}

func (x *bexp) report(rule, key, format string, a ...interface{}) {
	if rule == x.prop {
		x.r.find(rule+":"+key, format, a...)
	}
}

func (x *bexp) hist(l *Local) string {
	var s []string
	p := l.path()
	for i := len(p) - 1; i >= 0 && p[i] != x.base(); i-- {
		s = append([]string{x.describe(p[i].In)}, s...)
	}
	return strings.Join(s, "; ")
}

func (x *bexp) base() *Local { return x.coord() }

func (x *bexp) describe(in Input) string {
	if in.Msg == nil {
		return in.Op
	}
	s := fmt.Sprintf("%s from %s", evNames[in.Msg.Type], in.Msg.From)
	for _, g := range x.posts {
		if string(mkEvent(proto.POST_BRIDGE, g.from, g.p)) == string(in.Msg.Bytes) {
			return g.name
		}
	}
	if i, ok := x.byBytes[fmt.Sprint(in.Msg.From)+string(in.Msg.Bytes)]; ok {
		return x.replies[i].name
	}
	return s
}

func (x *bexp) send(s bstate, typ int, from nodeID, b []byte, off uint64) *Local {
	m := &Msg{From: from, To: 0, Bytes: b, Type: typ}
	if typ >= 0 {
		m = x.w.e.addMsg(from, 0, b)
	}
	d := x.w.e.try(s.at, Input{Msg: m, Offset: off})
	x.r.Transitions++
	x.r.eval("")
	return d
}

func (x *bexp) enter(s bstate, d *Local, m *bmodel) {
	k := m.key() + viewJSON(d.View) + d.shape()
	h := fmt.Sprintf("%x", sum16(k))
	if x.seen[h] {
		return
	}
	x.seen[h] = true
	x.r.States++
	if x.r.States&(x.r.States-1) == 0 && len(x.r.Samples) < 12 {
		x.r.Samples = append(x.r.Samples, x.hist(d))
	}
	x.queue = append(x.queue, bstate{d, m, s.depth + 1})
}

// internReply makes the reply of a server to a SIGN_ASSIGNMENTS message
func (x *bexp) internReply(m *Msg) *reply {
	i := int(m.To) - 1
	d := x.w.e.step(x.srvs[i], Input{Msg: m})
	if d.Crashed != "" || len(d.Outs) != 1 {
		panic(harnessCrash{fmt.Sprintf("server%d does not answer an assignment: %s", i, firstLine(d.Crashed))})
	}
	r := x.addReply(fmt.Sprintf("reply of server%d", i), nodeID(m.To), d.Outs[0].Bytes, i)
	if len(r.ents) == 0 || r.ents[0].srv < 0 {
		panic(harnessCrash{fmt.Sprintf("server%d refuses to sign assignments of an accepted request", i)})
	}
	return r
}

func (x *bexp) addReply(name string, from nodeID, b []byte, srv int) *reply {
	k := fmt.Sprint(from) + string(b)
	if i, ok := x.byBytes[k]; ok {
		return x.replies[i]
	}
	r := &reply{id: len(x.replies), from: from, name: fmt.Sprintf("%s (%d)", name, len(x.replies)), bytes: b, fine: true}
	x.classify(r)
	x.replies = append(x.replies, r)
	x.byBytes[k] = r.id
	return r
}

// classify finds out for which assignments and which server a reply counts
func (x *bexp) classify(r *reply) {
	defer func() {
		if recover() != nil {
			r.ents = nil
		}
	}()
	p := paramsOf(r.bytes)
	if ok, is := p["success"].(bool); !is || !ok {
		return
	}
	if r.from.kind() != kServer || int(r.from)-1 >= x.nSrv {
		return
	}
	i := int(r.from) - 1
	as := util.Decode2DByteArray(p.bytes("assignments"))
	sigs := util.Decode2DByteArray(p.bytes("signatures"))
	valid := 0
	var ents []replyEnt
	for j, a := range as {
		dec := bridge.DecodeAssignment(a)
		e := replyEnt{addr: dec.Addr, enc: string(a), srv: -1}
		if j < len(sigs) && refVerify(a, x.srvKeys[i], sigs[j], "4") {
			e.srv = i
			valid++
		}
		ents = append(ents, e)
	}
	// a reply in which only some signatures hold may be dropped as a whole
	r.fine = valid == 0 || valid == len(as) && len(sigs) == len(as)
	r.ents = ents
}

func (x *bexp) run() {
	for len(x.queue) > 0 {
		if x.r.late() {
			return
		}
		if x.maxSt > 0 && x.r.States > x.maxSt {
			x.r.Capped = fmt.Sprintf("%d states", x.maxSt)
			return
		}
		s := x.queue[0]
		x.queue = x.queue[1:]
		x.expand(s)
		if len(x.queue) == 0 {
			x.r.conform(s.at)
		}
		s.at.state = nil
	}
	x.fix = true
}

func (x *bexp) expand(s bstate) {
	m := s.m
	for _, g := range x.posts {
		if _, ok := m.posted[g.addr]; ok {
			continue
		}
		x.post(s, g)
	}
	for i, g := range x.reqs {
		if m.asked[i] < g.limit {
			x.request(s, i, g)
		}
	}
	for _, g := range x.refused {
		x.idle(s, g.name, g.from, mkEvent(proto.REQUEST_BRIDGES, g.from, g.p), proto.REQUEST_BRIDGES)
	}
	pool := append([]int(nil), m.pool...)
	for _, id := range pool {
		x.reply(s, x.replies[id])
		if x.invalid && !m.ended {
			for _, v := range x.variants(x.replies[id]) {
				x.reply(s, v)
			}
		}
	}
	for _, v := range x.stale {
		x.idle(s, v.name, v.from, v.bytes, proto.GOT_SIGNS)
	}
	if x.roundsq && !m.ended {
		d := x.w.e.try(s.at, Input{Op: "roundend"})
		x.r.Transitions++
		if d.Crashed != "" {
			x.report(x.prop, "roundend stops", "the coordinator stops at the end of the round after %s: %s", x.hist(s.at), firstLine(d.Crashed))
		} else {
			n := m.clone()
			n.ended = true
			x.enter(s, d, n)
			x.remember(s)
		}
	}
}

// remember a state for the next round, one for each pattern of signatures
func (x *bexp) remember(s bstate) {
	var l []string
	for a, e := range s.m.asg {
		l = append(l, fmt.Sprint(a, e.to, e.got))
	}
	sort.Strings(l)
	k := fmt.Sprint(len(s.m.posted), s.m.asked, l)
	if !x.perEnd[k] {
		x.perEnd[k] = true
		c := *s.at
		x.atEnd = append(x.atEnd, bstate{&c, s.m, s.depth})
	}
}

func (x *bexp) post(s bstate, g genuine) {
	d := x.send(s, proto.POST_BRIDGE, g.from, mkEvent(proto.POST_BRIDGE, g.from, g.p), 0)
	n := s.m.clone()
	switch {
	case d.Crashed != "":
		x.report("C09", "post stops", "the coordinator stops on a post after %s: %s", x.hist(s.at), firstLine(d.Crashed))
		return
	case len(d.Outs) > 0:
		x.report("C09", "post sends", "a post makes the coordinator send %s after %s", d.Outs[0], x.hist(s.at))
		return
	}
	if !s.m.ended {
		n.posted[g.addr] = g.nym
	}
	x.enter(s, d, n)
}

func (x *bexp) request(s bstate, i int, g genuine) {
	seen := map[string]bool{}
	for off := 0; off < x.offsets; off++ {
		d := x.send(s, proto.REQUEST_BRIDGES, g.from, mkEvent(proto.REQUEST_BRIDGES, g.from, g.p), uint64(off))
		if d.Crashed != "" {
			x.report("C09", "request stops", "the coordinator stops on %s after %s: %s", g.name, x.hist(s.at), firstLine(d.Crashed))
			return
		}
		var as [][]byte
		bad := ""
		to := map[nodeID]bool{}
		for j, o := range d.Outs {
			if o.Type != proto.SIGN_ASSIGNMENTS || o.To.kind() != kServer || to[o.To] {
				bad = fmt.Sprintf("it sends %s", o)
				break
			}
			to[o.To] = true
			l := util.Decode2DByteArray(paramsOf(o.Bytes).bytes("assignments"))
			if j > 0 && viewJSON(l) != viewJSON(as) {
				bad = "the servers are sent different assignments"
			}
			as = l
		}
		free := map[string]string{}
		for a, n := range s.m.posted {
			if s.m.asg[a] == nil {
				free[a] = n
			}
		}
		want := g.ind
		if want > len(free) {
			want = len(free)
		}
		if s.m.ended || want < 0 {
			want = 0
		}
		if bad == "" && len(as) != want {
			bad = fmt.Sprintf("%d bridges are assigned, %d were asked for and %d are left: expected %d", len(as), g.ind, len(free), want)
		}
		if bad == "" && want > 0 && len(to) != x.nSrv {
			bad = fmt.Sprintf("only %d of %d servers are asked to sign", len(to), x.nSrv)
		}
		n := s.m.clone()
		n.asked[i]++
		for _, b := range as {
			if bad != "" {
				break
			}
			a := bridge.DecodeAssignment(b)
			nym, ok := free[a.Addr]
			switch {
			case !ok && s.m.asg[a.Addr] != nil:
				bad = fmt.Sprintf("the bridge %s is assigned again", a.Addr)
			case !ok:
				bad = fmt.Sprintf("the bridge %q is assigned, which is not posted or assigned twice", a.Addr)
			case pt(a.Nym) != nym:
				bad = fmt.Sprintf("the assignment of %s names another provider", a.Addr)
			case pt(a.NymR) != g.nym:
				bad = fmt.Sprintf("the assignment of %s names another requester", a.Addr)
			}
			delete(free, a.Addr)
			n.asg[a.Addr] = &asgn{enc: string(b), to: g.from, nymR: g.nym, got: make([]bool, x.nSrv)}
		}
		if bad != "" {
			x.report("C09", "request:"+shortKey(bad), "after %s: on %s %s", x.hist(s.at), g.name, bad)
			return
		}
		key := fmt.Sprintf("%q", as)
		if seen[key] {
			continue
		}
		seen[key] = true
		for _, o := range d.Outs {
			r := x.internReply(o)
			if !contains(n.pool, r.id) {
				n.pool = append(n.pool, r.id)
			}
		}
		x.enter(s, d, n)
	}
}

func contains(l []int, i int) bool {
	for _, x := range l {
		if x == i {
			return true
		}
	}
	return false
}

// idle hands over a message after which nothing may be sent
func (x *bexp) idle(s bstate, name string, from nodeID, b []byte, typ int) {
	d := x.send(s, typ, from, b, 0)
	rule := "C10"
	if typ == proto.REQUEST_BRIDGES {
		rule = "C09"
	}
	switch {
	case d.Crashed != "":
		x.report(rule, "idle stops", "the coordinator stops on %s after %s: %s", name, x.hist(s.at), firstLine(d.Crashed))
		return
	case len(d.Outs) > 0:
		x.report(rule, "idle sends:"+shortKey(name), "%s makes the coordinator send %s after %s", name, d.Outs[0], x.hist(s.at))
		return
	}
	// what it leaves behind shows in later steps
	x.enter(s, d, s.m)
}

func (x *bexp) reply(s bstate, r *reply) {
	d := x.send(s, proto.GOT_SIGNS, r.from, r.bytes, 0)
	if d.Crashed != "" {
		x.report("C10", "reply stops:"+shortKey(r.name), "the coordinator stops on %s after %s: %s", r.name, x.hist(s.at), firstLine(d.Crashed))
		return
	}
	n := s.m.clone()
	expect := map[string]bool{}
	match, not := 0, 0
	if !s.m.ended {
		for _, e := range r.ents {
			a := n.asg[e.addr]
			if a == nil || e.srv < 0 || a.enc != e.enc {
				not++
				continue
			}
			match++
			if a.done || a.got[e.srv] {
				continue
			}
			a.got[e.srv] = true
			full := true
			for _, g := range a.got {
				full = full && g
			}
			if full {
				a.done = true
				expect[e.addr] = true
			}
		}
	}
	sent := map[string]bool{}
	for _, o := range d.Outs {
		bad := ""
		addr := ""
		if o.Type != proto.GOT_SIGNS {
			bad = fmt.Sprintf("it sends %s", o)
		} else {
			addr, bad = x.checkBundle(s, o)
		}
		if bad == "" && sent[addr] {
			bad = fmt.Sprintf("the assignment of %s is delivered twice", addr)
		}
		if bad == "" && !expect[addr] {
			bad = fmt.Sprintf("the assignment of %s is delivered without a new signature of each server", addr)
		}
		if bad != "" {
			x.report("C10", "bundle:"+shortKey(bad), "after %s: on %s %s", x.hist(s.at), r.name, bad)
			return
		}
		sent[addr] = true
	}
	if match > 0 && (!r.fine || not > 0) {
		return // a reply of which only a part holds may be dropped as a whole
	}
	for a := range expect {
		if !sent[a] {
			x.report("C10", "missing", "after %s: %s is the last server's, and the assignment of %s is not delivered", x.hist(s.at), r.name, a)
			return
		}
	}
	x.enter(s, d, n)
}

// checkBundle checks what is delivered to a client
func (x *bexp) checkBundle(s bstate, o *Msg) (addr, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("what is delivered is malformed: ", r)
		}
	}()
	p := paramsOf(o.Bytes)
	enc := p.bytes("assignment")
	a := bridge.DecodeAssignment(enc)
	addr = a.Addr
	m := s.m.asg[addr]
	cv := s.at.View.C
	if m == nil || m.enc != string(enc) {
		return addr, fmt.Sprintf("an assignment of %q is delivered that was not issued", addr)
	}
	if o.To != m.to {
		return addr, fmt.Sprintf("the assignment of %s is delivered to %s instead of %s", addr, o.To, m.to)
	}
	sigs := util.Decode2DByteArray(p.bytes("signatures"))
	if len(sigs) != x.nSrv+1 {
		return addr, fmt.Sprintf("the assignment of %s is delivered with %d signatures instead of %d", addr, len(sigs), x.nSrv+1)
	}
	for i, sig := range sigs {
		k, who := cv.PubKey, "the coordinator"
		if i < x.nSrv {
			k, who = x.srvKeys[i], fmt.Sprintf("server%d", i)
		}
		if !refVerify(enc, k, sig, "4") {
			return addr, fmt.Sprintf("the assignment of %s is delivered without a valid signature of %s", addr, who)
		}
	}
	if !refVerify(bridge.MessageOfGotSignatures(p), cv.PubKey, p.bytes("signature"), "4") {
		return addr, fmt.Sprintf("the assignment of %s is delivered without the coordinator's signature", addr)
	}
	return addr, ""
}

// variants lists the invalid forms of a reply
func (x *bexp) variants(g *reply) (l []*reply) {
	if !strings.HasPrefix(g.name, "reply of server") || len(g.ents) == 0 {
		return nil
	}
	i := int(g.from) - 1
	p := paramsOf(g.bytes)
	as := util.Decode2DByteArray(p.bytes("assignments"))
	sigs := util.Decode2DByteArray(p.bytes("signatures"))
	add := func(name string, from nodeID, q params) {
		l = append(l, x.addReply(name+" of "+g.name, from, mkEvent(proto.GOT_SIGNS, from, q), i))
	}
	enc := func(l [][]byte) []byte { return util.Encode2DByteArray(l) }
	each := func(f func(j int, s []byte) []byte) [][]byte {
		var r [][]byte
		for j, s := range sigs {
			r = append(r, f(j, append([]byte(nil), s...)))
		}
		return r
	}
	ws := func(l [][]byte) params { return p.with("signatures", enc(l)) }
	add("failed form", g.from, params{"success": false})
	add("failed form with signatures", g.from, p.with("success", false))
	add("form with altered signatures", g.from, ws(each(func(j int, s []byte) []byte { s[len(s)/2] ^= 1; return s })))
	add("form with empty signatures", g.from, ws(each(func(int, []byte) []byte { return nil })))
	add("form with zeros for signatures", g.from, ws(each(func(j int, s []byte) []byte { return make([]byte, len(s)) })))
	add("form with shortened signatures", g.from, ws(each(func(j int, s []byte) []byte { return s[:len(s)-1] })))
	add("form signed by the coordinator", g.from, ws(each(func(j int, s []byte) []byte { return sign(as[j], x.cv().PriKey, "4") })))
	add("form signed over the round's generator", g.from, ws(each(func(j int, s []byte) []byte { return sign(as[j], x.srvs[i].View.S.PriKey, x.cv().G) })))
	add("form without signatures", g.from, ws(nil))
	add("form without assignments", g.from, p.with("assignments", enc(nil)))
	add("empty form", g.from, p.with("assignments", enc(nil)).with("signatures", enc(nil)))
	add("form with a signature too many", g.from, ws(append(append([][]byte{}, sigs...), sigs[0])))
	if len(sigs) > 1 {
		add("form with a signature missing", g.from, ws(sigs[:len(sigs)-1]))
		add("form with rotated signatures", g.from, ws(append(append([][]byte{}, sigs[1:]...), sigs[0])))
		h := append([][]byte{}, sigs...)
		h[0] = sigs[1]
		add("form with one signature twice", g.from, ws(h))
	}
	add("genuine form from a client's address", cli(1), p)
	add("genuine form from an unknown address", outsider, p)
	for o := 0; o < x.nSrv; o++ {
		if o != i {
			add(fmt.Sprintf("genuine form from server%d's address", o), srv(o), p)
			add(fmt.Sprintf("form signed by server%d", o), g.from, ws(each(func(j int, s []byte) []byte { return sign(as[j], x.srvs[o].View.S.PriKey, "4") })))
		}
	}
	// other assignments, properly signed by this server
	alter := func(name string, f func(a *bridge.Assignment)) {
		var na, ns [][]byte
		for _, b := range as {
			a := bridge.DecodeAssignment(b)
			f(a)
			e := bridge.EncodeAssignment(a)
			na = append(na, e)
			ns = append(ns, sign(e, x.srvs[i].View.S.PriKey, "4"))
		}
		add("form with "+name, g.from, p.with("assignments", enc(na)).with("signatures", enc(ns)))
		add("form with unsigned "+name, g.from, p.with("assignments", enc(na)))
	}
	other := pointHex(refNym(x.cv().G, "1234567"))
	alter("another requester", func(a *bridge.Assignment) { a.NymR = other })
	alter("another provider", func(a *bridge.Assignment) { a.Nym = other })
	alter("another address", func(a *bridge.Assignment) { a.Addr = "7.7.7.7:7" })
	alter("requester and provider swapped", func(a *bridge.Assignment) { a.Nym, a.NymR = a.NymR, a.Nym })
	add("malformed form", g.from, params{"success": true})
	add("form without success", g.from, params{"assignments": p["assignments"], "signatures": p["signatures"]})
	return
}

func sum16(s string) []byte {
	h := sha256.Sum256([]byte(s))
	return h[:16]
}

// newBexp prepares an open round with three clients
func newBexp(r *Result, prop string, servers int) *bexp {
	return bexpOn(newLab(r, servers, 3, 1), prop, servers)
}

func bexpOn(l *Lab, prop string, servers int) *bexp {
	x := &bexp{Lab: l, prop: prop, nSrv: servers, byBytes: map[string]int{}, seen: map[string]bool{}, perEnd: map[string]bool{}, offsets: 8, roundsq: true}
	for i := 0; i < servers; i++ {
		x.srvs = append(x.srvs, l.w.local(l.s, srv(i)))
		x.srvKeys = append(x.srvKeys, l.w.server(l.s, i).PubKey)
	}
	return x
}

func (x *bexp) addPost(c int, addr string) {
	p := paramsOf(x.grab(cli(c), Input{Op: "post", S: addr}))
	x.posts = append(x.posts, genuine{name: fmt.Sprintf("client%d posts %s", c, addr), from: cli(c), p: p, addr: addr, nym: x.dv(c).Nym})
}

func (x *bexp) addReq(c, ind, limit int) {
	p := paramsOf(x.grab(cli(c), Input{Op: "request", I: ind}))
	expect(p != nil, "client%d sends no request for %d", c, ind)
	x.reqs = append(x.reqs, genuine{name: fmt.Sprintf("client%d's request for %d", c, ind), from: cli(c), p: p, nym: x.dv(c).Nym, ind: ind, limit: limit})
}

func signedRequest(p params, sk, base string) (q params) {
	defer func() {
		if recover() != nil {
			q = nil
		}
	}()
	return p.with("signature", sign(bridge.MessageOfRequestBridges(p), sk, base))
}

// addRefused: the requester's pseudonym used from elsewhere, with a request that is refused
func (x *bexp) addRefused(c, ind int) {
	p := paramsOf(x.grab(cli(c), Input{Op: "request", I: ind}))
	x.refused = append(x.refused,
		genuine{name: "a request beyond the reputation from another address", from: outsider, p: signedRequest(p.with("ind", 9), x.dv(c).PriKey, x.cv().G)},
		genuine{name: "a request with a wrong signature from another address", from: outsider, p: p.with("ind", ind+1)},
		genuine{name: "a request of another pseudonym from this address", from: cli(c), p: signedRequest(p.with("ind", 9), x.dv(c).PriKey, x.cv().G).with("nym", util.EncodePoint(pointHex(x.dv((c+1)%3).Nym)))})
}

func (x *bexp) start() {
	m := &bmodel{posted: map[string]string{}, asg: map[string]*asgn{}, asked: make([]int, len(x.reqs))}
	c := *x.coord()
	x.enter(bstate{}, &c, m)
}

// nextRound ends the round in the given state and explores the next one, with
// all replies of this round still under way
func (x *bexp) nextRound(s bstate, full bool) {
	f := x.Lab.fork()
	k := f.w.e.newLocal(s.at)
	k.state = deepCopy(k.state)
	f.put(&Local{ID: k.ID, Node: 0, View: k.View})
	defer func() {
		if c := recover(); c != nil {
			h, ok := c.(harnessCrash)
			if !ok {
				panic(c)
			}
			x.report(x.prop, "round end stops", "ending the round after %s: %s", x.hist(s.at), h.what)
		}
	}()
	f.endRound()
	y := bexpOn(f, x.prop, x.nSrv)
	for _, id := range s.m.pool {
		r := *x.replies[id]
		r.name = "an old " + r.name
		y.stale = append(y.stale, &r)
	}
	y.offsets, y.roundsq = 2, false
	// the same address from another provider, a new one, and requests for all
	var addrs []string
	for a := range s.m.posted {
		addrs = append(addrs, a)
	}
	sort.Strings(addrs)
	if len(addrs) > 0 {
		y.addPost(1, addrs[0])
	}
	if full || len(addrs) == 0 {
		y.addPost(0, "6.6.6.6:66")
	}
	y.addReq(2, 4, 1)
	if full {
		y.addReq(1, 1, 1)
	}
	y.start()
	y.run()
}

func (x *bexp) nextRounds(max int, full bool) {
	// patterns with the most different assignments first
	sort.SliceStable(x.atEnd, func(i, j int) bool { return len(x.atEnd[i].m.pool) > len(x.atEnd[j].m.pool) })
	for i, s := range x.atEnd {
		if i >= max || x.r.late() {
			break
		}
		x.nextRound(s, full)
		x.r.count("next rounds", 1)
	}
}

func bridgeJobs(prop string, th bool) (jobs []Job) {
	add := func(name string, run func(r *Result)) { jobs = append(jobs, Job{Name: name, Run: run}) }
	type req struct{ c, ind, limit int }
	mix := func(name string, servers int, posts []int, pre bool, reqs []req, invalid bool, offsets, next int) {
		add(name, func(r *Result) {
			x := newBexp(r, prop, servers)
			for i, c := range posts {
				x.addPost(c, fmt.Sprintf("%d.%d.%d.%d:%d", i+1, i+1, i+1, i+1, 1000+i))
			}
			for _, q := range reqs {
				x.addReq(q.c, q.ind, q.limit)
			}
			x.invalid, x.offsets = invalid, offsets
			if !invalid || servers == 1 {
				x.addRefused(reqs[0].c, reqs[0].ind)
			}
			if pre {
				m := &bmodel{posted: map[string]string{}, asg: map[string]*asgn{}, asked: make([]int, len(x.reqs))}
				at := x.coord()
				for _, g := range x.posts {
					at = x.w.e.step(at, Input{Msg: x.w.e.addMsg(g.from, 0, mkEvent(proto.POST_BRIDGE, g.from, g.p))})
					expect(at.Crashed == "", "a post stops the coordinator")
					m.posted[g.addr] = g.nym
				}
				c := *at
				x.enter(bstate{}, &c, m)
			} else {
				x.start()
			}
			x.run()
			x.nextRounds(next, !invalid && servers <= 2)
			if !x.fix && x.r.Capped == "" {
				x.r.Capped = "time budget"
			}
		})
	}
	if prop == "C09" {
		d := 3
		if th {
			d = 5
		}
		jobs = append(jobs, launchedHistories("C09", 1, d, launchedPlans, checkHandouts)...)
		mix("s1 3 posts, requests 1 and 2", 1, []int{0, 0, 2}, false, []req{{1, 1, 1}, {2, 2, 1}}, false, 8, 10)
		mix("s2 3 posts, requests 1 and 2", 2, []int{0, 0, 2}, false, []req{{1, 1, 1}, {2, 2, 1}}, false, 8, 6)
		mix("s1 2 posts, requests 1, 1 and 3", 1, []int{0, 2}, false, []req{{1, 1, 1}, {2, 1, 1}, {0, 3, 1}}, false, 8, 6)
		mix("s1 4 posts, requests 2 and 5", 1, []int{0, 1, 2, 0}, true, []req{{1, 2, 1}, {2, 5, 1}}, false, 8, 6)
		mix("s1 2 posts, a request three times", 1, []int{0, 2}, false, []req{{1, 1, 3}}, false, 8, 6)
		mix("s1 1 post, requests 0, 0 and 1", 1, []int{2}, false, []req{{1, 0, 2}, {2, 0, 1}, {0, 1, 1}}, false, 8, 6)
		mix("s2 3 posts, own bridges", 2, []int{1, 1, 1}, true, []req{{1, 2, 1}, {2, 2, 1}}, false, 8, 4)
		mix("s3 2 posts, requests 1 and 1", 3, []int{0, 2}, true, []req{{1, 1, 1}, {2, 1, 1}}, false, 8, 4)
		mix("s1 5 posts, requests 1, 2 and 3", 1, []int{0, 0, 0, 2, 2}, true, []req{{1, 1, 1}, {2, 2, 1}, {0, 3, 1}}, false, 4, 4)
		if th {
			mix("s2 4 posts, requests 1, 2 and 1", 2, []int{0, 0, 2, 2}, false, []req{{1, 1, 1}, {2, 2, 1}, {1, 1, 1}}, false, 8, 20)
			mix("s3 3 posts, requests 1 and 2", 3, []int{0, 0, 2}, false, []req{{1, 1, 1}, {2, 2, 1}}, false, 8, 20)
			mix("s1 5 posts, requests 1, 2 and 5", 1, []int{0, 1, 2, 0, 1}, false, []req{{1, 1, 2}, {2, 2, 1}, {0, 5, 1}}, false, 8, 20)
		}
		return
	}
	mix("s1 requests 2 and 1", 1, []int{0, 0, 2}, true, []req{{1, 2, 1}, {2, 1, 1}}, true, 8, 4)
	mix("s2 request 2", 2, []int{0, 0}, true, []req{{1, 2, 1}}, true, 2, 8)
	mix("s2 requests 1 and 1", 2, []int{0, 2}, true, []req{{1, 1, 1}, {2, 1, 1}}, true, 2, 4)
	mix("s3 request 1", 3, []int{0}, true, []req{{1, 1, 1}}, true, 1, 8)
	mix("s3 requests 1 and 1, replies only", 3, []int{0, 2}, true, []req{{1, 1, 1}, {2, 1, 1}}, false, 2, 4)
	mix("s2 requests 2 and 1, replies only", 2, []int{0, 0, 2}, true, []req{{1, 2, 1}, {2, 1, 1}}, false, 8, 4)
	mix("s2 two requests of one client", 2, []int{0, 2}, true, []req{{1, 1, 2}}, false, 8, 4)
	mix("s1 request 3", 1, []int{0, 1, 2}, true, []req{{1, 3, 1}}, true, 8, 4)
	mix("s4 request 1, replies only", 4, []int{0}, true, []req{{1, 1, 1}}, false, 1, 4)
	if th {
		mix("s2 requests 2 and 1", 2, []int{0, 0, 2}, true, []req{{1, 2, 1}, {2, 1, 1}}, true, 8, 20)
		mix("s3 request 2", 3, []int{0, 2}, true, []req{{1, 2, 1}}, true, 2, 20)
		mix("s3 requests 2 and 1, replies only", 3, []int{0, 0, 2}, true, []req{{1, 2, 1}, {2, 1, 1}}, false, 2, 20)
		mix("s4 requests 1 and 1, replies only", 4, []int{0, 2}, true, []req{{1, 1, 1}, {2, 1, 1}}, false, 2, 20)
	}
	return
}
