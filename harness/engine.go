package main

// The node engine: every node (coordinator, server, client) is the real code of
// /repo, driven one step at a time. A step is "handle this message" or "run this
// launcher function". Everything a step can depend on is owned by the harness:
// the random stream (a PRF keyed by node and local history), map iteration order
// (runtime overlay), time (bubble clock) and the network (send hook).

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

//go:linkname mapsIterOn internal/runtime/maps.verifIterOn
var mapsIterOn bool

//go:linkname mapsIterOffset internal/runtime/maps.verifIterOffset
var mapsIterOffset uint64

//go:linkname osExitHook os.verifExit
var osExitHook func(int)

//go:linkname bubbleRun internal/synctest.Run
func bubbleRun(f func())

var seed int64 = 1

// ---------------------------------------------------------------- randomness

type prfStream struct {
	s cipher.Stream
	n int // bytes drawn
}

func newPRF(key []byte) *prfStream {
	h := sha256.Sum256(key)
	b, err := aes.NewCipher(h[:])
	if err != nil {
		panic(err)
	}
	return &prfStream{s: cipher.NewCTR(b, make([]byte, 16))}
}

func (p *prfStream) XORKeyStream(dst, src []byte) {
	p.n += len(src)
	p.s.XORKeyStream(dst, src)
}

func prfKey(parts ...interface{}) []byte { return []byte(fmt.Sprint(seed, "|", parts)) }

// ---------------------------------------------------------------- node ids

const (
	kCoord = iota
	kServer
	kClient
)

type nodeID int // 0 coordinator, 1..9 servers, 10.. clients

const outsider nodeID = 99

func srv(i int) nodeID { return nodeID(1 + i) }
func cli(i int) nodeID { return nodeID(10 + i) }

func (n nodeID) kind() int {
	switch {
	case n == 0:
		return kCoord
	case n < 10:
		return kServer
	}
	return kClient
}

func (n nodeID) String() string {
	switch n.kind() {
	case kCoord:
		return "coordinator"
	case kServer:
		return fmt.Sprintf("server%d", int(n)-1)
	}
	if n == outsider {
		return "outsider"
	}
	return fmt.Sprintf("client%d", int(n)-10)
}

// Some nodes share a host, others a port: only both together tell them apart.
func (n nodeID) addr() *net.TCPAddr {
	k := int(n)
	switch n.kind() {
	case kCoord:
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 10001}
	case kServer: // as the launcher does: listens on every address; or on another host
		if k%2 == 1 {
			return &net.TCPAddr{IP: net.IPv4zero, Port: 12001 + k/2}
		}
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 2), Port: 12000 + k/2}
	}
	if n == outsider {
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 20000 + k}
	}
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, byte(1+k%2)), Port: 20005 + k/2}
}

var nodeOfAddr = map[string]nodeID{}

func init() {
	add := func(n nodeID) {
		a := n.addr().String()
		if _, ok := nodeOfAddr[a]; ok {
			panic("two nodes at " + a)
		}
		nodeOfAddr[a] = n
	}
	add(0)
	for k := 1; k < 10; k++ {
		add(nodeID(k))
	}
	for k := 10; k < 100; k++ {
		if nodeID(k) != outsider {
			add(nodeID(k))
		}
	}
	add(outsider)
}

func nodeAt(a *net.TCPAddr) (nodeID, bool) {
	if a == nil {
		return 0, false
	}
	n, ok := nodeOfAddr[a.String()]
	return n, ok
}

// ---------------------------------------------------------------- deep copy

var sharedTypes = map[string]bool{
	"*nist.ResidueGroup": true, "*nist.qrsuite": true,
}
var suiteIface = reflect.TypeOf((*abstract.Suite)(nil)).Elem()

var sharedCache = map[reflect.Type]bool{}

func isShared(t reflect.Type) bool {
	r, ok := sharedCache[t]
	if !ok {
		r = sharedTypes[t.String()] || t.Implements(suiteIface)
		sharedCache[t] = r
	}
	return r
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
}

type copier struct{ seen map[visit]reflect.Value }

func deepCopy(x interface{}) interface{} {
	c := copier{seen: map[visit]reflect.Value{}}
	return c.copy(reflect.ValueOf(x)).Interface()
}

func flat(k reflect.Kind) bool {
	return k <= reflect.Complex128 && k != reflect.Invalid || k == reflect.String
}

func (c *copier) copy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		t := v.Type()
		if isShared(t) {
			return v
		}
		key := visit{v.UnsafePointer(), t}
		if d, ok := c.seen[key]; ok {
			return d
		}
		d := reflect.New(t.Elem())
		c.seen[key] = d
		c.into(d.Elem(), v.Elem())
		return d
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		d := reflect.New(v.Type()).Elem()
		d.Set(c.copy(v.Elem()))
		return d
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		d := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if flat(v.Type().Elem().Kind()) {
			reflect.Copy(d, v)
			return d
		}
		for i := 0; i < v.Len(); i++ {
			c.into(d.Index(i), v.Index(i))
		}
		return d
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		d := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			e := reflect.New(v.Type().Elem()).Elem()
			src := reflect.New(v.Type().Elem()).Elem()
			src.Set(it.Value())
			c.into(e, src)
			d.SetMapIndex(it.Key(), e)
		}
		return d
	case reflect.Struct, reflect.Array:
		d := reflect.New(v.Type()).Elem()
		if !v.CanAddr() {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			v = t
		}
		c.into(d, v)
		return d
	}
	return v
}

// into copies src (addressable or not) to the addressable dst, through unexported fields
func (c *copier) into(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Struct:
		if !src.CanAddr() {
			t := reflect.New(src.Type()).Elem()
			t.Set(src)
			src = t
		}
		for i := 0; i < src.NumField(); i++ {
			sf, df := src.Field(i), dst.Field(i)
			if !sf.CanInterface() || !df.CanSet() {
				sf = reflect.NewAt(sf.Type(), unsafe.Pointer(sf.UnsafeAddr())).Elem()
				df = reflect.NewAt(df.Type(), unsafe.Pointer(df.UnsafeAddr())).Elem()
			}
			c.into(df, sf)
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.into(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(c.copy(src))
	}
}

// ---------------------------------------------------------------- messages

type Msg struct {
	ID       int // index in the engine's table, unique per (from, to, content)
	From, To nodeID
	Bytes    []byte
	Type     int
	Hash     [16]byte
	ev       *proto.Event
	lists    map[string][]string
}

var evNames = map[int]string{1: "SERVER_REGISTER", 2: "SERVER_REGISTER_REPLY", 3: "UPDATE_NEXT_HOP",
	4: "CLIENT_REGISTER_CONTROLLERSIDE", 5: "CLIENT_REGISTER_SERVERSIDE", 6: "CLIENT_REGISTER_CONFIRMATION",
	8: "ANNOUNCEMENT", 11: "VOTE", 12: "ROUND_END", 15: "BCAST_PEDERSEN_H", 16: "GN_HONESTY_CHALLENGE",
	17: "GN_HONESTY_ANSWER", 18: "UPDATE_PEDERSEN_H", 19: "BCAST_PEDERSEN_RDIFF", 20: "INIT_PEDERSEN_R",
	21: "POST_BRIDGE", 22: "REQUEST_BRIDGES", 23: "SIGN_ASSIGNMENTS", 24: "GOT_SIGNS", 25: "ANNOUNCEMENT_FINALIZE"}

func decodeEvent(b []byte) *proto.Event {
	ev, _ := util.DecodeEvent(b)
	return ev
}

func (m *Msg) String() string {
	return fmt.Sprintf("%s>%s %s", m.From, m.To, evNames[m.Type])
}

// ---------------------------------------------------------------- local steps

// Input of a step: a message, or a launcher function with arguments.
type Input struct {
	Msg    *Msg
	Op     string
	I, J   int
	S      string
	Offset uint64 // map iteration offset of this step
}

func (in Input) key() string {
	if in.Msg != nil {
		return fmt.Sprintf("m%x@%d", in.Msg.Hash, in.Offset)
	}
	return fmt.Sprintf("o%s,%d,%d,%s@%d", in.Op, in.I, in.J, in.S, in.Offset)
}

func (in Input) String() string {
	if in.Msg != nil {
		return in.Msg.String()
	}
	return fmt.Sprintf("%s(%d,%d,%q)", in.Op, in.I, in.J, in.S)
}

// Local is one node after one local history of steps.
type Local struct {
	ID      int
	Node    nodeID
	Hist    [16]byte
	state   interface{}
	View    *View
	Crashed string
	Parent  *Local
	In      Input
	Outs    []*Msg // sent by the step that led here
	next    map[string]*Local
	Cnt     map[string]int // steps by kind: event names and ops
	// of the step that led here
	DrewBytes int
	rounds    []*roundRec
}

func (l *Local) n(k string) int { return l.Cnt[k] }

type Engine struct {
	locals []*Local
	msgs   []*Msg
	msgIdx map[[16]byte]int
	steps  int
	// when set, called for every new local
	onLocal func(*Local)
	// process mode: every node lives in a process of its own and keeps one
	// state; histories cannot branch
	proc bool
	// launched: what the coordinator's and the clients' main loops do is done by
	// the real ones
	launched bool
	procs    map[nodeID]*nodeProc
}

func newEngine() *Engine {
	return &Engine{msgIdx: map[[16]byte]int{}, procs: map[nodeID]*nodeProc{}}
}

// canonical content of a message: parameters of events are maps, whose order on
// the wire is arbitrary
func canonical(b []byte) (c []byte, t int) {
	t = -1
	c = b
	defer func() { recover() }()
	ev := decodeEvent(b)
	var keys []string
	for k := range ev.Params {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "%d %q", ev.EventType, ev.SrcAddr)
	for _, k := range keys {
		fmt.Fprintf(&buf, " %q:%T:%q", k, ev.Params[k], fmt.Sprintf("%x", ev.Params[k]))
	}
	return buf.Bytes(), ev.EventType
}

func (e *Engine) addMsg(from, to nodeID, b []byte) *Msg {
	h := sha256.New()
	binary.Write(h, binary.BigEndian, [2]int32{int32(from), int32(to)})
	c, t := canonical(b)
	h.Write(c)
	var k [16]byte
	copy(k[:], h.Sum(nil))
	if i, ok := e.msgIdx[k]; ok {
		return e.msgs[i]
	}
	m := &Msg{ID: len(e.msgs), From: from, To: to, Bytes: b, Type: t, Hash: k}
	e.msgIdx[k] = m.ID
	e.msgs = append(e.msgs, m)
	return m
}

func (e *Engine) newLocal(l *Local) *Local { // also keeps a Local that was only tried
	l.ID = len(e.locals)
	e.locals = append(e.locals, l)
	if e.onLocal != nil {
		e.onLocal(l)
	}
	return l
}

func (e *Engine) initial(n nodeID) *Local {
	l := &Local{Node: n, Cnt: map[string]int{}}
	h := sha256.Sum256(prfKey("init", n))
	copy(l.Hist[:], h[:])
	if e.proc {
		e.procStart(l)
		return e.newLocal(l)
	}
	l.state = initState(l)
	l.View = viewOf(l.state)
	return e.newLocal(l)
}

// initState runs the node's real initialisation
func initState(l *Local) (state interface{}) {
	n := l.Node
	guarded(l, prfKey("init", n), 0, nil, func() {
		switch n.kind() {
		case kCoord:
			c := coordinator.VerifInit()
			c.LocalAddr = n.addr()
			state = c
		case kServer:
			s := server.VerifInit()
			s.LocalAddr = n.addr()
			s.CoordinatorAddr = nodeID(0).addr()
			s.NextHop, s.PreviousHop = s.CoordinatorAddr, s.CoordinatorAddr
			state = s
		case kClient:
			c := client.VerifInit()
			c.LocalAddr = n.addr()
			c.CoordinatorAddr = nodeID(0).addr()
			state = c
		}
	})
	if l.Crashed != "" {
		panic("initialisation of " + n.String() + ": " + l.Crashed)
	}
	return state
}

type exitPanic int

var stepStart int64 // unix nanos of the running step, 0 when none
var stepWhat atomic.Value

// guarded runs f as one step of the code under test
func guarded(l *Local, key []byte, offset uint64, send func(*net.TCPAddr, []byte), f func()) {
	stream := newPRF(key)
	saved := random.Stream
	random.Stream = stream
	util.VerifSend = func(raddr *net.TCPAddr, content []byte) bool {
		if send == nil {
			panic("unexpected send")
		}
		send(raddr, content)
		return true
	}
	exited := -1
	osExitHook = func(code int) {
		exited = code
		panic(exitPanic(code))
	}
	mapsIterOffset = offset
	stepWhat.Store(fmt.Sprintf("%s: %s", l.Node, l.In.String()))
	atomic.StoreInt64(&stepStart, time.Now().UnixNano())
	before := runtime.NumGoroutine()
	func() {
		defer func() { // goroutines that wait for something which does not happen
			if x := recover(); x != nil {
				if s := fmt.Sprint(x); !strings.Contains(s, "blocked goroutines remain") && !strings.Contains(s, "all goroutines in bubble are blocked") {
					panic(x)
				} else if l.Crashed == "" {
					l.Crashed = "deadlock"
				}
			}
		}()
		bubbleRun(func() {
			defer func() {
				if runtime.NumGoroutine() > before+1 { // what it has started comes to its end
					time.Sleep(time.Hour)
				}
			}()
			defer func() {
				if r := recover(); r != nil {
					l.Crashed = fmt.Sprint(r)
					if c, ok := r.(exitPanic); ok {
						l.Crashed = fmt.Sprintf("process exit with code %d", int(c))
					}
					if os.Getenv("VERIF_STACK") != "" {
						fmt.Fprintln(os.Stderr, "crash:", l.Crashed, string(debug.Stack()))
					}
				}
			}()
			f()
		})
	}()
	if exited >= 0 && l.Crashed == "" { // even if somebody recovers from the hook's panic
		l.Crashed = fmt.Sprintf("process exit with code %d", exited)
	}
	atomic.StoreInt64(&stepStart, 0)
	mapsIterOffset = 0
	osExitHook = nil
	util.VerifSend = nil
	random.Stream = saved
	l.DrewBytes = stream.n
}

// invoke runs the input on the given live state and returns the messages sent
func invoke(l *Local, state interface{}, key []byte, in Input, emit func(to nodeID, b []byte)) {
	send := func(raddr *net.TCPAddr, content []byte) {
		to, ok := nodeAt(raddr)
		if !ok {
			panic(fmt.Sprintf("dial %v: no such address", raddr))
		}
		emit(to, append([]byte(nil), content...))
	}
	guarded(l, key, in.Offset, send, func() {
		switch s := state.(type) {
		case *coordinator.Coordinator:
			coordinator.VerifSet(s)
			if in.Msg != nil {
				coordinator.Handle(in.Msg.Bytes, s)
				return
			}
			switch in.Op {
			case "config":
				coordinator.VerifConfigCommParams()
				s.Status = coordinator.READY_FOR_NEW_ROUND
			case "fakes":
				coordinator.VerifAddFakeClients(in.I)
			case "filler":
				sk, r := fillerSecrets(s.Suite, in.I)
				s.AddIntoRepMap(s.Suite.Point().Mul(nil, sk), s.Suite.Point().Mul(s.PedersenBase.HT, r))
			case "clear":
				coordinator.VerifClearBuffer()
			case "announce":
				s.Status = coordinator.ANNOUNCE
				coordinator.VerifAnnounce()
			case "vote":
				coordinator.VerifVote()
			case "roundend":
				coordinator.VerifRoundEnd()
			default:
				panic("harness: op " + in.Op)
			}
		case *server.AnonServer:
			server.VerifSet(s)
			if in.Msg != nil {
				server.Handle(in.Msg.Bytes, s)
				return
			}
			switch in.Op {
			case "register":
				server.VerifRegister()
			default:
				panic("harness: op " + in.Op)
			}
		case *client.DissentClient:
			client.VerifSet(s)
			if in.Msg != nil {
				client.Handle(in.Msg.Bytes, s)
				return
			}
			switch in.Op {
			case "register":
				client.VerifRegister()
			case "post":
				client.VerifPostBridge(in.S)
			case "request":
				client.VerifRequestBridges(in.I)
			case "castvote":
				client.VerifSendVote(in.I, in.J)
			default:
				panic("harness: op " + in.Op)
			}
		}
	})
}

func fillerSecrets(suite abstract.Suite, i int) (sk, r abstract.Secret) {
	return suite.Secret().Pick(newPRF(prfKey("filler sk", i))), suite.Secret().Pick(newPRF(prfKey("filler r", i)))
}

// step performs (or looks up) the step of node state l on input in
func (e *Engine) step(l *Local, in Input) *Local {
	k := in.key()
	if d, ok := l.next[k]; ok {
		return d
	}
	d := e.try(l, in)
	if l.next == nil {
		l.next = map[string]*Local{}
	}
	l.next[k] = d
	return e.newLocal(d)
}

// try performs a step without remembering it
func (e *Engine) try(l *Local, in Input) *Local {
	if l.Crashed != "" {
		panic("harness: step of a crashed node")
	}
	k := in.key()
	e.steps++
	h := sha256.New()
	h.Write(l.Hist[:])
	h.Write([]byte(k))
	d := &Local{ID: -1, Node: l.Node, Parent: l, In: in, Cnt: make(map[string]int, len(l.Cnt)+1)}
	copy(d.Hist[:], h.Sum(nil))
	for a, b := range l.Cnt {
		d.Cnt[a] = b
	}
	if in.Msg != nil {
		d.Cnt[evNames[in.Msg.Type]]++
	} else {
		d.Cnt[in.Op]++
	}
	key := prfKey(l.Node, hex.EncodeToString(d.Hist[:]))
	emit := func(to nodeID, b []byte) { d.Outs = append(d.Outs, e.addMsg(l.Node, to, b)) }
	if e.proc {
		e.procStep(d, key, in, emit)
	} else {
		st := deepCopy(l.state)
		if e.launched && launchedOp(l.Node, in) {
			invokeLaunched(d, st, key, in, emit)
		} else {
			invoke(d, st, key, in, emit)
		}
		d.state = st
		if d.Crashed == "" {
			d.View = viewOf(st)
		} else {
			d.View = l.View
		}
	}
	return d
}

// conform runs a local history again on a process of its own, which keeps one
// live state, and compares every view and every message sent
func (r *Result) conform(x *Local) {
	e := newEngine()
	e.proc = true
	defer e.close()
	a := e.initial(x.Node)
	for _, l := range x.path() {
		in := l.In
		if in.Msg != nil {
			in.Msg = e.addMsg(in.Msg.From, in.Msg.To, in.Msg.Bytes)
		}
		a = e.try(a, in)
		same := viewJSON(a.View) == viewJSON(l.View) && a.Crashed == l.Crashed && len(a.Outs) == len(l.Outs)
		for i := 0; same && i < len(a.Outs); i++ {
			same = a.Outs[i].To == l.Outs[i].To && a.Outs[i].Hash == l.Outs[i].Hash
		}
		if !same {
			r.Diverged++
			r.Notes = append(r.Notes, "a process of its own differs at "+l.In.String())
			return
		}
		if a.Crashed != "" {
			break
		}
	}
	r.Traces++
}

// path lists the steps of a local history, oldest first
func (l *Local) path() []*Local {
	var p []*Local
	for x := l; x.Parent != nil; x = x.Parent {
		p = append(p, x)
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- environment

// setupEnv prepares what the nodes' initialisation reads: an empty working
// directory (no config files) and a prime generator with fixed safe primes of
// 96 bits, so that many nodes can be created. The real generator is checked
// by C18.
func setupEnv(dir string) {
	must(os.MkdirAll(filepath.Join(dir, "bin"), 0755))
	must(os.MkdirAll(filepath.Join(dir, "cwd"), 0755))
	script := `#!/bin/sh
# stand-in for "openssl prime": prints fixed primes, safe ones when asked for
d=${0%/*}
n=0
[ -f "$d/ctr" ] && read n < "$d/ctr"
echo $((n+1)) > "$d/ctr"
case " $* " in *" -safe "*) f="$d/safe" ;; *) f="$d/unsafe" ;; esac
i=$((n % 4))
while read p; do
	[ $i = 0 ] && echo $p && exit
	i=$((i-1))
done < "$f"
`
	must(os.WriteFile(filepath.Join(dir, "bin", "openssl"), []byte(script), 0755))
	must(os.WriteFile(filepath.Join(dir, "bin", "safe"), []byte(strings.Join(safePrimes, "\n")+"\n"), 0644))
	must(os.WriteFile(filepath.Join(dir, "bin", "unsafe"), []byte(strings.Join(unsafePrimes, "\n")+"\n"), 0644))
	os.Setenv("PATH", filepath.Join(dir, "bin")+":"+os.Getenv("PATH"))
	must(os.Chdir(filepath.Join(dir, "cwd")))
	if out, err := exec.Command("openssl", "prime", "-safe", "-generate", "-bits", "512").Output(); err != nil || len(bytes.TrimSpace(out)) == 0 {
		panic(fmt.Sprint("prime stand-in: ", err))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
