package main

// A small synchronous network of real nodes, for demonstrations.

import (
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"strings"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
)

type Mail struct {
	To    *net.TCPAddr
	Bytes []byte
}

func (m Mail) Event() *proto.Event { ev, _ := util.DecodeEvent(m.Bytes); return ev }

type Net struct {
	C     *coordinator.Coordinator
	S     []*server.AnonServer
	D     []*client.DissentClient
	Queue []Mail
	// Filter sees every message before it is delivered; false holds it back
	Filter func(m Mail) bool
	Held   []Mail
	Died   string
}

func must(err error) {
	if err != nil {
		fail("error: %v", err)
	}
}

var realOut = os.Stdout

func fail(format string, a ...interface{}) {
	fmt.Fprintf(realOut, "BROKEN: "+format+"\n", a...)
	cleanup()
	os.Exit(1)
}

func pass(format string, a ...interface{}) {
	fmt.Fprintf(realOut, "ok: "+format+"\n", a...)
	cleanup()
	os.Exit(0)
}

var scratch string

func cleanup() { os.RemoveAll(scratch) }

func setup() {
	d, err := os.MkdirTemp("", "demo")
	must(err)
	scratch = d
	// fixed primes instead of minutes of generating them
	must(os.Mkdir(filepath.Join(d, "bin"), 0755))
	must(os.Mkdir(filepath.Join(d, "cwd"), 0755))
	script := "#!/bin/sh\nd=$(dirname \"$0\")\nn=$(cat \"$d/n\" 2>/dev/null || echo 0)\necho $((n+1)) > \"$d/n\"\ncase \" $* \" in *\" -safe \"*) f=\"$d/safe\" ;; *) f=\"$d/unsafe\" ;; esac\nsed -n \"$((n % 4 + 1))p\" \"$f\"\n"
	must(os.WriteFile(filepath.Join(d, "bin", "openssl"), []byte(script), 0755))
	must(os.WriteFile(filepath.Join(d, "bin", "safe"), []byte(strings.Join(safePrimes, "\n")+"\n"), 0644))
	must(os.WriteFile(filepath.Join(d, "bin", "unsafe"), []byte(strings.Join(unsafePrimes, "\n")+"\n"), 0644))
	os.Setenv("PATH", filepath.Join(d, "bin")+":"+os.Getenv("PATH"))
	must(os.Chdir(filepath.Join(d, "cwd")))
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	log.SetOutput(io.Discard)
}

func local(port int) *net.TCPAddr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port} }

// NewNet: servers are registered and configured, no round is open
func NewNet(servers, clients, fillers int) *Net {
	setup()
	n := &Net{}
	util.VerifSend = func(to *net.TCPAddr, b []byte) bool {
		n.Queue = append(n.Queue, Mail{to, append([]byte(nil), b...)})
		return true
	}
	n.C = coordinator.VerifInit()
	n.C.LocalAddr = local(10001)
	for i := 0; i < servers; i++ {
		s := server.VerifInit()
		s.LocalAddr = local(12000 + i)
		s.CoordinatorAddr = n.C.LocalAddr
		s.NextHop, s.PreviousHop = n.C.LocalAddr, n.C.LocalAddr
		n.S = append(n.S, s)
	}
	for i := 0; i < clients; i++ {
		d := client.VerifInit()
		d.LocalAddr = local(20000 + i)
		d.CoordinatorAddr = n.C.LocalAddr
		n.D = append(n.D, d)
	}
	for _, s := range n.S {
		server.VerifSet(s)
		n.do("server registration", server.VerifRegister)
	}
	n.Coord("config", coordinator.VerifConfigCommParams)
	n.C.Status = coordinator.READY_FOR_NEW_ROUND
	if fillers > 0 {
		n.Coord("fake clients", func() { coordinator.VerifAddFakeClients(fillers) })
	}
	return n
}

func (n *Net) do(what string, f func()) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				n.Died = fmt.Sprintf("%s: %v", what, r)
			}
		}()
		f()
	}()
	n.Run()
}

// Run delivers everything in flight, oldest first
func (n *Net) Run() {
	for len(n.Queue) > 0 && n.Died == "" {
		m := n.Queue[0]
		n.Queue = n.Queue[1:]
		if n.Filter != nil && !n.Filter(m) {
			n.Held = append(n.Held, m)
			continue
		}
		n.Deliver(m)
	}
}

func (n *Net) Deliver(m Mail) {
	defer func() {
		if r := recover(); r != nil {
			n.Died = fmt.Sprintf("node at %v: %v", m.To, r)
		}
	}()
	switch p := m.To.Port; {
	case p == 10001:
		coordinator.VerifSet(n.C)
		coordinator.Handle(m.Bytes, n.C)
	case p >= 20000:
		client.VerifSet(n.D[p-20000])
		client.Handle(m.Bytes, n.D[p-20000])
	default:
		server.VerifSet(n.S[p-12000])
		server.Handle(m.Bytes, n.S[p-12000])
	}
}

// Give hands a message to the coordinator as if it came from addr
func (n *Net) Give(typ int, from *net.TCPAddr, params map[string]interface{}) {
	n.Queue = append(n.Queue, Mail{n.C.LocalAddr, util.Encode(&proto.Event{EventType: typ, Params: params, SrcAddr: from.String()})})
	n.Run()
}

func (n *Net) Coord(what string, f func()) { coordinator.VerifSet(n.C); n.do(what, f) }
func (n *Net) Client(i int, what string, f func()) {
	client.VerifSet(n.D[i])
	n.do(what, f)
}

func (n *Net) Open() {
	n.Coord("clear", coordinator.VerifClearBuffer)
	n.C.Status = coordinator.ANNOUNCE
	n.Coord("announce", coordinator.VerifAnnounce)
}
func (n *Net) Vote()     { n.Coord("vote", coordinator.VerifVote) }
func (n *Net) RoundEnd() { n.Coord("round end", coordinator.VerifRoundEnd) }
func (n *Net) Next()     { n.Vote(); n.RoundEnd(); n.Open() }

func (n *Net) Register(i int)             { n.Client(i, "register", client.VerifRegister) }
func (n *Net) Post(i int, addr string)    { n.Client(i, "post", func() { client.VerifPostBridge(addr) }) }
func (n *Net) Request(i, ind int)         { n.Client(i, "request", func() { client.VerifRequestBridges(ind) }) }
func (n *Net) Cast(i, assignment, f int)  { n.Client(i, "vote", func() { client.VerifSendVote(assignment, f) }) }
func (n *Net) Alive() {
	if n.Died != "" {
		fail("a node stops: %s", n.Died)
	}
}

// Members: all clients are in the table of an open round
func Members(servers, clients, fillers int) *Net {
	n := NewNet(servers, clients, fillers)
	n.Open()
	for i := range n.D {
		n.Register(i)
	}
	n.Next()
	n.Alive()
	return n
}

// Grab runs f and returns the one message it sends, undelivered
func (n *Net) Grab(f func()) map[string]interface{} {
	old := n.Filter
	held := n.Held
	n.Held = nil
	n.Filter = func(Mail) bool { return false }
	f()
	n.Filter = old
	ms := n.Held
	n.Held = held
	if len(ms) != 1 {
		fail("%d messages instead of one", len(ms))
	}
	return ms[0].Event().Params
}
