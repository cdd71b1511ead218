package main

// Process mode: each node is a process of its own which keeps one live state and
// is driven step by step over a pipe. It is what finds are confirmed on and what
// sampled model traces are replayed against, free of the snapshots, the shared
// memory and the shared package variables of the exploring process.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
)

type nodeProc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
}

type procReq struct {
	Key    []byte
	Msg    []byte
	HasMsg bool
	Type   int
	Op     string
	I, J   int
	S      string
	Offset uint64
}

type procResp struct {
	View    *View
	Crashed string
	To      []nodeID
	Bytes   [][]byte
	Drew    int
}

func (e *Engine) procStart(l *Local) {
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "-node", fmt.Sprint(int(l.Node)), "-seed", fmt.Sprint(seed))
	cmd.Stderr = os.Stderr
	w, err := cmd.StdinPipe()
	must(err)
	r, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	p := &nodeProc{cmd: cmd, in: json.NewEncoder(w), out: json.NewDecoder(bufio.NewReaderSize(r, 1<<20))}
	e.procs[l.Node] = p
	var resp procResp
	must(p.out.Decode(&resp))
	l.View = resp.View
}

func (e *Engine) procStep(d *Local, key []byte, in Input, emit func(nodeID, []byte)) {
	p := e.procs[d.Node]
	req := procReq{Key: key, Op: in.Op, I: in.I, J: in.J, S: in.S, Offset: in.Offset}
	if in.Msg != nil {
		req.HasMsg, req.Msg, req.Type = true, in.Msg.Bytes, in.Msg.Type
	}
	must(p.in.Encode(req))
	var resp procResp
	must(p.out.Decode(&resp))
	d.View, d.Crashed, d.DrewBytes = resp.View, resp.Crashed, resp.Drew
	for i := range resp.To {
		emit(resp.To[i], resp.Bytes[i])
	}
}

func (e *Engine) close() {
	for _, p := range e.procs {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// nodeMain is the life of one node process
func nodeMain(n nodeID, stdin, stdout *os.File) {
	enc, dec := json.NewEncoder(stdout), json.NewDecoder(bufio.NewReader(stdin))
	l := &Local{Node: n, Cnt: map[string]int{}}
	state := initState(l)
	last := viewOf(state)
	must(enc.Encode(procResp{View: last}))
	for {
		var req procReq
		if dec.Decode(&req) != nil {
			return
		}
		in := Input{Op: req.Op, I: req.I, J: req.J, S: req.S, Offset: req.Offset}
		if req.HasMsg {
			in.Msg = &Msg{To: n, Bytes: req.Msg, Type: req.Type}
		}
		d := &Local{Node: n, In: in}
		var resp procResp
		invoke(d, state, req.Key, in, func(to nodeID, b []byte) {
			resp.To = append(resp.To, to)
			resp.Bytes = append(resp.Bytes, b)
		})
		if d.Crashed == "" {
			last = viewOf(state)
		}
		resp.View, resp.Crashed, resp.Drew = last, d.Crashed, d.DrewBytes
		must(enc.Encode(resp))
	}
}
