package main

import (
	"math/big"
	"net"
	"sort"

	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
)

// View is what the oracles see of a node: plain data, the same whether the node
// lives in this process or in one of its own.
type View struct {
	C *CoordView  `json:",omitempty"`
	S *ServerView `json:",omitempty"`
	D *ClientView `json:",omitempty"`
}

type Entry struct{ Key, Comm string }

type CoordView struct {
	Status     int
	G, GT, HT  string
	PriKey     string
	PubKey     string
	Servers    []Entry           // address, public key
	Clients    map[string]string // public key (as the node prints it) -> address
	Begin      []Entry           // sorted by key
	End        []Entry
	NewClients []Entry
	Diff       map[string]int // nym -> pending difference, zero ones left out
	DiffOther  int            // differences of keys outside the table
	Bridges    map[string]BridgeView
	Table      []string // AllClientsPublicKeys, in order
}

type BridgeView struct {
	Nym  string
	Used bool
}

type ServerView struct {
	G, GT, HT string
	PriKey    string
	PubKey    string
	Next      string
	Prev      string
	End       []Entry
	KeyMap    []Entry // current key -> previous key
	RoundKey  string
	Connected bool
	HasFO     bool
}

type ClientView struct {
	Status      int
	Reputation  int
	G, Nym      string
	GT, HT      string
	PCommr, R   string
	PriKey      string
	PubKey      string
	Index       int
	Table       []string
	Assignments []AssignView
	HasFO       bool
}

type AssignView struct {
	Assignment string // encoding
	NymR, Nym  string
	Addr       string
	Sigs       []string
}

func pt(p abstract.Point) string {
	if p == nil {
		return ""
	}
	return util.PointToBigInt(p).Text(16)
}

func sc(s abstract.Secret) string {
	if s == nil {
		return ""
	}
	if i, ok := s.(*nist.Int); ok {
		return i.V.Text(16)
	}
	b, _ := s.MarshalBinary()
	return new(big.Int).SetBytes(b).Text(16)
}

func pts(l []abstract.Point) []string {
	r := []string{}
	for _, p := range l {
		r = append(r, pt(p))
	}
	return r
}

func entries(keys, comms map[string]abstract.Point) []Entry {
	r := []Entry{}
	for k, c := range comms {
		p, ok := keys[k]
		if !ok {
			r = append(r, Entry{"?" + k, pt(c)})
			continue
		}
		r = append(r, Entry{pt(p), pt(c)})
	}
	for k := range keys {
		if _, ok := comms[k]; !ok {
			r = append(r, Entry{pt(keys[k]), "?"})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return r
}

func addrStr(a *net.TCPAddr) string {
	if a == nil {
		return ""
	}
	return a.String()
}

func viewOf(state interface{}) *View {
	switch s := state.(type) {
	case *coordinator.Coordinator:
		v := &CoordView{Status: s.Status, G: pt(s.G), PriKey: sc(s.PrivateKey), PubKey: pt(s.PublicKey),
			Clients: map[string]string{}, Diff: map[string]int{}, Bridges: map[string]BridgeView{}}
		if s.PedersenBase != nil {
			v.GT, v.HT = pt(s.PedersenBase.GT), pt(s.PedersenBase.HT)
		}
		for _, x := range s.ServerList {
			v.Servers = append(v.Servers, Entry{addrStr(x.Addr), pt(x.PublicKey)})
		}
		for k, a := range s.Clients {
			v.Clients[k] = addrStr(a)
		}
		v.Begin = entries(s.BeginningKeyMap, s.BeginningCommMap)
		v.End = entries(s.EndingKeyMap, s.EndingCommMap)
		for _, c := range s.NewClientsBuffer {
			v.NewClients = append(v.NewClients, Entry{pt(c.Nym), pt(c.PComm)})
		}
		for k, d := range s.ReputationDiffMap {
			if p, ok := s.EndingKeyMap[k]; ok {
				if d != 0 {
					v.Diff[pt(p)] = d
				}
			} else {
				v.DiffOther++
			}
		}
		for a, b := range s.Bridges {
			v.Bridges[a] = BridgeView{pt(b.Nym), b.Used}
		}
		v.Table = pts(s.AllClientsPublicKeys)
		return &View{C: v}
	case *server.AnonServer:
		v := &ServerView{G: pt(s.G), PriKey: sc(s.PrivateKey), PubKey: pt(s.PublicKey), Next: addrStr(s.NextHop),
			Prev: addrStr(s.PreviousHop), RoundKey: sc(s.Roundkey), Connected: s.IsConnected, HasFO: s.FujiOkamBase != nil}
		if s.PedersenBase != nil {
			v.GT, v.HT = pt(s.PedersenBase.GT), pt(s.PedersenBase.HT)
		}
		v.End = entries(s.EndingKeyMap, s.EndingCommMap)
		for k, p := range s.KeyMap {
			v.KeyMap = append(v.KeyMap, Entry{k, pt(p)})
		}
		sort.Slice(v.KeyMap, func(i, j int) bool { return v.KeyMap[i].Key < v.KeyMap[j].Key })
		return &View{S: v}
	case *client.DissentClient:
		v := &ClientView{Status: s.Status, Reputation: s.Reputation, G: pt(s.G), Nym: pt(s.OnetimePseudoNym), PCommr: pt(s.PCommr),
			R: sc(s.R), PriKey: sc(s.PrivateKey), PubKey: pt(s.PublicKey), Index: s.Index, Table: pts(s.AllClientsPublicKeys), HasFO: s.FujiOkamBase != nil}
		if s.PedersenBase != nil {
			v.GT, v.HT = pt(s.PedersenBase.GT), pt(s.PedersenBase.HT)
		}
		for _, a := range s.Assignments {
			av := AssignView{Assignment: string(bridge.EncodeAssignment(a.Assignment)), NymR: pt(a.Assignment.NymR), Nym: pt(a.Assignment.Nym), Addr: a.Assignment.Addr}
			av.Sigs = sigStrings(a.ByteSignatures)
			v.Assignments = append(v.Assignments, av)
		}
		return &View{D: v}
	}
	panic("view")
}

// sigStrings decodes a list of signatures; a list that cannot be decoded is one
func sigStrings(b []byte) (l []string) {
	defer func() {
		if recover() != nil {
			l = []string{"undecodable"}
		}
	}()
	for _, x := range util.Decode2DByteArray(b) {
		l = append(l, string(x))
	}
	return
}

// ------------------------------------------------ independent group arithmetic

var grpP, grpQ, grpG *big.Int

func init() {
	grpP, _ = new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
	grpQ = new(big.Int).Rsh(grpP, 1)
	grpG = big.NewInt(4)
}

func hx(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return new(big.Int)
	}
	return n
}

func gexp(b, e *big.Int) *big.Int { return new(big.Int).Exp(b, new(big.Int).Mod(e, grpQ), grpP) }
func gmul(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, grpP)
}

var expMemo = map[string]*big.Int{}

func gexpHex(b, e string) *big.Int {
	k := b + "^" + e
	if r, ok := expMemo[k]; ok {
		return r
	}
	r := gexp(hx(b), hx(e))
	if len(expMemo) > 200000 {
		expMemo = map[string]*big.Int{}
	}
	expMemo[k] = r
	return r
}

// commitment to x with opening r, computed independently
func refCommit(gt, ht string, x int64, r string) string {
	return gmul(gexp(hx(gt), big.NewInt(x)), gexpHex(ht, r)).Text(16)
}

func refNym(g, sk string) string { return gexpHex(g, sk).Text(16) }
func refPub(sk string) string    { return gexpHex("4", sk).Text(16) }
