package main

// A network whose coordinator is worked by its real main loop.

import (
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
)

var liveMu sync.Mutex
var liveKeys io.Writer
var liveSent = map[int]int{}

// Live: the servers are registered, the coordinator waits for the first ENTER
func Live(servers, clients int) *Net {
	setup()
	n := &Net{}
	util.VerifSend = func(to *net.TCPAddr, b []byte) bool {
		ev, _ := util.DecodeEvent(b)
		liveMu.Lock()
		liveSent[ev.EventType]++
		n.Queue = append(n.Queue, Mail{to, append([]byte(nil), b...)})
		liveMu.Unlock()
		return true
	}
	l, err := net.ListenTCP("tcp", local(0))
	must(err)
	must(os.Mkdir("config", 0755))
	must(os.WriteFile("config/local.properties", []byte(fmt.Sprintf("local_port=%d", l.Addr().(*net.TCPAddr).Port)), 0644))
	l.Close()
	r, w, err := os.Pipe()
	must(err)
	os.Stdin, liveKeys = r, w
	go coordinator.Launch()
	for i := 0; n.C == nil; i++ {
		if i > 600 {
			fail("the coordinator does not start")
		}
		time.Sleep(100 * time.Millisecond)
		n.C = coordinator.VerifGet()
	}
	time.Sleep(time.Second)
	n.C.LocalAddr = local(10001)
	for i := 0; i < servers; i++ {
		s := server.VerifInit()
		s.LocalAddr = local(12000 + i)
		s.CoordinatorAddr = n.C.LocalAddr
		s.NextHop, s.PreviousHop = n.C.LocalAddr, n.C.LocalAddr
		n.S = append(n.S, s)
	}
	for i := 0; i < clients; i++ {
		d := client.VerifInit()
		d.LocalAddr = local(20000 + i)
		d.CoordinatorAddr = n.C.LocalAddr
		n.D = append(n.D, d)
	}
	for _, s := range n.S {
		server.VerifSet(s)
		server.VerifRegister()
		n.pump(func() bool { return true })
	}
	return n
}

func liveCount(typ int) int { liveMu.Lock(); defer liveMu.Unlock(); return liveSent[typ] }

// pump delivers what is sent until nothing is left and done holds
func (n *Net) pump(done func() bool) {
	quiet := 0
	for t0 := time.Now(); quiet < 30; {
		if time.Since(t0) > 100*time.Second {
			fail("the nodes do not get on")
		}
		liveMu.Lock()
		var m []Mail
		if len(n.Queue) > 0 {
			m, n.Queue = n.Queue[:1:1], n.Queue[1:]
		}
		liveMu.Unlock()
		if len(m) > 0 {
			quiet = 0
			n.Deliver(m[0])
			n.Alive()
			continue
		}
		if done() {
			quiet++
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func enter() { io.WriteString(liveKeys, "\n") }

// LiveOpen: the first round
func (n *Net) LiveOpen() {
	enter()
	n.opened(0)
}

func (n *Net) opened(before int) {
	n.pump(func() bool { return liveCount(proto.ANNOUNCEMENT) > before && n.C.Status == coordinator.MESSAGE })
	time.Sleep(1300 * time.Millisecond) // the main loop looks once a second
}

func (n *Net) LiveVote() {
	enter()
	time.Sleep(300 * time.Millisecond)
	n.pump(func() bool { return true })
}

// LiveEnd ends the round; the next one opens by itself
func (n *Net) LiveEnd() {
	before := liveCount(proto.ANNOUNCEMENT)
	enter()
	n.opened(before)
}

func (n *Net) LiveNext() { n.LiveVote(); n.LiveEnd() }
func (n *Net) LiveJoin(i int) {
	client.VerifSet(n.D[i])
	client.VerifRegister()
	n.pump(func() bool { return true })
}
