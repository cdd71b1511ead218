package main

// C21: what is put on the wire is decoded to what was encoded.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/lrs"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func init() {
	register(&Prop{ID: "C21", Level: "exploration", Budget: 85,
		Rule:   "for every codec, every value of its boundary alphabet and every list of them up to the length bound, encoded and decoded; encodings compared over the whole alphabet; every message of explored round histories; distinct by codec and value",
		Assume: []string{"the deployed suite; an empty list and a missing one are the same value"}, Jobs: codecJobs})
}

// codec: values are given as texts that show everything that counts
type codec struct {
	r        *Result
	name     string
	enc      func(v interface{}) []byte
	dec      func(b []byte) interface{}
	text     func(v interface{}) string
	seen     map[string]string // encoding -> text
	held     []interface{}
	heldText []string
}

func (c *codec) try(v interface{}) {
	if c.r.late() {
		return
	}
	if c.seen == nil {
		c.seen = map[string]string{}
	}
	want := c.text(v)
	label := c.name + ": " + want
	if len(label) > 120 {
		label = label[:60] + fmt.Sprintf("...%x", shortHash(label))
	}
	c.r.eval(label)
	var b []byte
	var d interface{}
	if p := panics(func() { b = c.enc(v) }); p != nil {
		c.r.find("C21:"+c.name+":encode", "%s: %s can not be encoded: %v", c.name, clip(want), p)
		return
	}
	if t := c.text(v); t != want {
		c.r.find("C21:"+c.name+":operand", "%s: encoding changes %s to %s", c.name, clip(want), clip(t))
		return
	}
	before := string(b)
	if p := panics(func() { d = c.dec(b) }); p != nil {
		c.r.find("C21:"+c.name+":decode", "%s: the encoding of %s can not be decoded: %v", c.name, clip(want), p)
		return
	}
	var got string
	if p := panics(func() { got = c.text(d) }); p != nil {
		c.r.find("C21:"+c.name+":unusable", "%s: %s is decoded to something unusable: %v", c.name, clip(want), p)
		return
	}
	if got != want {
		c.r.find("C21:"+c.name+":differs", "%s: %s is decoded to %s", c.name, clip(want), clip(got))
	}
	if string(b) != before {
		c.r.find("C21:"+c.name+":buffer", "%s: decoding changes the encoding of %s", c.name, clip(want))
	}
	if o, ok := c.seen[before]; ok && o != want {
		c.r.find("C21:"+c.name+":same", "%s: %s and %s are encoded alike", c.name, clip(o), clip(want))
	}
	c.seen[before] = want
	if len(c.held) < 4000 {
		c.held, c.heldText = append(c.held, d), append(c.heldText, got)
	}
}

// end checks that what was decoded earlier is still what it was
func (c *codec) end() {
	for i, d := range c.held {
		if t := c.text(d); t != c.heldText[i] {
			c.r.find("C21:"+c.name+":later", "%s: the decoded %s turns into %s when more is decoded", c.name, clip(c.heldText[i]), clip(t))
		}
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:120] + "..." + s[len(s)-40:]
	}
	return s
}

func shortHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func bigAlphabet() (l []*big.Int) {
	seen := map[string]bool{}
	add := func(v *big.Int) {
		for _, x := range []*big.Int{v, new(big.Int).Neg(v)} {
			if !seen[x.String()] {
				seen[x.String()] = true
				l = append(l, x)
			}
		}
	}
	for i := int64(0); i <= 3; i++ {
		add(bi(i))
	}
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1600, 2040, 2048, 4096} {
		p := new(big.Int).Lsh(bi(1), k)
		add(p)
		add(new(big.Int).Sub(p, bi(1)))
		add(new(big.Int).Add(p, bi(1)))
	}
	add(grpP)
	add(grpQ)
	add(dec("123456789012345678901234567890123456789012345678901234567890"))
	return
}

func pointAlphabet() (l []abstract.Point) {
	g := bi(4)
	seen := map[string]bool{}
	add := func(n *big.Int) {
		if !seen[n.String()] {
			seen[n.String()] = true
			l = append(l, pointBig(n))
		}
	}
	add(bi(1))
	for _, n := range []int64{4, 9, 16, 25, 64, 256, 1 << 16, 1 << 32} {
		add(bi(n))
	}
	add(new(big.Int).Exp(g, new(big.Int).Sub(grpQ, bi(1)), grpP))
	zeros := map[int]int{} // points with leading zero bytes
	for i := int64(1); i < 6000; i++ {
		v := new(big.Int).Exp(g, bi(1000+i), grpP)
		z := 64 - len(v.Bytes())
		if zeros[z] < 8 {
			zeros[z]++
			add(v)
		}
	}
	for i := int64(1); i < 3; i++ { // and of one that is all ones, nearly
		v := new(big.Int).Sub(grpP, bi(i))
		if big.Jacobi(v, grpP) == 1 {
			add(v)
		}
	}
	return
}

func secretAlphabet() (l []abstract.Secret) {
	for _, n := range []*big.Int{bi(0), bi(1), bi(255), bi(256), bi(65535), new(big.Int).Lsh(bi(1), 64), new(big.Int).Sub(grpQ, bi(1)), new(big.Int).Rsh(grpQ, 1), new(big.Int).Rsh(grpQ, 8), new(big.Int).Rsh(grpQ, 17),
		new(big.Int).Mod(dec("1234567890123456789012345678901234567890123456789012345678901234567890"), grpQ)} {
		l = append(l, secretOf(qr512, n))
	}
	return
}

func byteAlphabet() [][]byte {
	long := make([]byte, 70000)
	for i := range long {
		long[i] = byte(i * 7)
	}
	return [][]byte{{}, {0}, {0, 0}, {1}, {0, 1}, {0xff}, []byte("text"), long[:127], long[:128], long[:129], long[:300], long}
}

// lists over an alphabet of n values: all up to length k, and long ones
func indexLists(n, k int, longs ...int) (l [][]int) {
	var rec func(p []int)
	rec = func(p []int) {
		l = append(l, append([]int{}, p...))
		if len(p) < k {
			for i := 0; i < n; i++ {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	for _, m := range longs {
		p := make([]int, m)
		for i := range p {
			p[i] = (i*i + i/3) % n
		}
		l = append(l, p)
	}
	return
}

func intsText(l []*big.Int) string {
	var t []string
	for _, x := range l {
		t = append(t, x.String())
	}
	return fmt.Sprint(len(l), t)
}

func pointText(p abstract.Point) string { return pointVal(p).Text(16) }

func pointsText(l []abstract.Point) string {
	var t []string
	for _, x := range l {
		t = append(t, pointText(x))
	}
	return fmt.Sprint(len(l), t)
}

func assignmentText(a bridge.Assignment) string {
	return fmt.Sprintf("%q for %s from %s", a.Addr, pointText(a.NymR), pointText(a.Nym))
}

// structText shows a struct of big numbers and lists of them
func structText(v interface{}) string {
	x := reflect.ValueOf(v).Elem()
	var t []string
	for i := 0; i < x.NumField(); i++ {
		switch f := x.Field(i).Interface().(type) {
		case *big.Int:
			t = append(t, x.Type().Field(i).Name+"="+f.String())
		case []*big.Int:
			t = append(t, x.Type().Field(i).Name+"="+intsText(f))
		default:
			panic("harness: field of type " + x.Type().Field(i).Type.String())
		}
	}
	return strings.Join(t, " ")
}

func codecJobs(th bool) (jobs []Job) {
	add := func(name string, f func(r *Result)) { jobs = append(jobs, Job{Name: name, Run: f}) }
	n := 3
	if th {
		n = 4
	}
	add("integers", func(r *Result) {
		c := &codec{r: r, name: "integer", enc: func(v interface{}) []byte { return util.EncodeBigInt(v.(*big.Int)) }, dec: func(b []byte) interface{} { return util.DecodeBigInt(b) },
			text: func(v interface{}) string { return v.(*big.Int).String() }}
		for _, x := range bigAlphabet() {
			c.try(x)
		}
		for i := int64(-2000); i <= 2000; i++ {
			c.try(bi(i))
		}
		c.end()
		l := &codec{r: r, name: "list of integers", enc: func(v interface{}) []byte { return util.ProtobufEncodeBigIntList(v.([]*big.Int)) }, dec: func(b []byte) interface{} { return util.ProtobufDecodeBigIntList(b) },
			text: func(v interface{}) string { return intsText(v.([]*big.Int)) }}
		big1 := bigAlphabet()
		few := []*big.Int{bi(0), bi(1), bi(-1), bi(256), grpP, new(big.Int).Neg(grpQ), new(big.Int).Lsh(bi(1), 1024)}
		for _, p := range indexLists(len(big1), 2, 10, 100, 1000) {
			v := []*big.Int{}
			for _, i := range p {
				v = append(v, big1[i])
			}
			l.try(v)
		}
		for _, p := range indexLists(len(few), n) {
			v := []*big.Int{}
			for _, i := range p {
				v = append(v, few[i])
			}
			l.try(v)
		}
		l.end()
	})
	add("small integers", func(r *Result) {
		vals := []int{0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, 65535, -65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 5, -5}
		l := &codec{r: r, name: "list of small integers", enc: func(v interface{}) []byte { return util.EncodeIntArray(v.([]int)) }, dec: func(b []byte) interface{} { return util.DecodeIntArray(b) },
			text: func(v interface{}) string { return fmt.Sprint(len(v.([]int)), v) }}
		for _, p := range indexLists(len(vals), n, 50, 500) {
			v := []int{}
			for _, i := range p {
				v = append(v, vals[i])
			}
			l.try(v)
		}
		l.end()
		c := &codec{r: r, name: "number of 32 bits", enc: func(v interface{}) []byte { return util.IntToByte(v.(int)) }, dec: func(b []byte) interface{} { return util.ByteToInt(b) },
			text: func(v interface{}) string { return fmt.Sprint(v) }}
		for i := 0; i < 5000; i++ {
			c.try(i)
		}
		for k := uint(12); k < 32; k++ {
			for d := -2; d < 3; d++ {
				if v := 1<<k + d; v <= math.MaxUint32 {
					c.try(v)
				}
			}
		}
		seen := map[string]int{}
		for i := -70000; i <= 70000; i++ { // only signed over, never decoded
			k := string(util.IntToByte(i))
			r.eval("")
			if o, ok := seen[k]; ok {
				r.find("C21:sign", "%d and %d are encoded alike", o, i)
			}
			seen[k] = i
		}
	})
	add("booleans", func(r *Result) {
		l := &codec{r: r, name: "list of booleans", enc: func(v interface{}) []byte { return util.ProtobufEncodeBoolList(v.([]bool)) }, dec: func(b []byte) interface{} { return util.ProtobufDecodeBoolList(b) },
			text: func(v interface{}) string { return fmt.Sprint(len(v.([]bool)), v) }}
		for _, p := range indexLists(2, n*4, 127, 128, 129, 400, 20000) {
			v := []bool{}
			for _, i := range p {
				v = append(v, i == 1)
			}
			l.try(v)
		}
		for k := 0; k < 300; k++ {
			v := make([]bool, 300)
			v[k] = true
			l.try(v)
		}
		l.end()
	})
	add("points", func(r *Result) {
		ps := pointAlphabet()
		r.count("points with leading zero bytes", len(ps)-10)
		c := &codec{r: r, name: "point", enc: func(v interface{}) []byte { return util.EncodePoint(v.(abstract.Point)) }, dec: func(b []byte) interface{} { return util.DecodePoint(qr512, b) },
			text: func(v interface{}) string { return pointText(v.(abstract.Point)) }}
		for _, p := range ps {
			c.try(p)
			r.eval("")
			if n := util.PointToBigInt(p); n.Cmp(pointVal(p)) != 0 || !util.BigIntToPoint(qr512, n).Equal(p) {
				r.find("C21:point:number", "the point %s as a number is %v", pointText(p), n)
			}
		}
		c.end()
		l := &codec{r: r, name: "list of points", enc: func(v interface{}) []byte { return util.ProtobufEncodePointList(v.([]abstract.Point)) }, dec: func(b []byte) interface{} { return util.ProtobufDecodePointList(b) },
			text: func(v interface{}) string { return pointsText(v.([]abstract.Point)) }}
		lists := append(indexLists(len(ps), 2, 10, 100, 300), indexLists(4, n)...)
		for _, p := range lists {
			v := []abstract.Point{}
			for _, i := range p {
				v = append(v, ps[i])
			}
			l.try(v)
		}
		l.end()
	})
	add("secrets", func(r *Result) {
		ss := secretAlphabet()
		text := func(s abstract.Secret) string { return secretVal(s).String() }
		c := &codec{r: r, name: "secret", enc: func(v interface{}) []byte { return util.EncodeSecret(v.(abstract.Secret)) }, dec: func(b []byte) interface{} { return util.DecodeSecret(qr512, b) },
			text: func(v interface{}) string { return text(v.(abstract.Secret)) }}
		for _, p := range ss {
			c.try(p)
			r.eval("")
			if n := util.SecretToBigInt(p); n.Cmp(secretVal(p)) != 0 || text(util.BigIntToSecret(qr512, n)) != text(p) {
				r.find("C21:secret:number", "the secret %v as a number is %v", text(p), n)
			}
		}
		c.end()
		l := &codec{r: r, name: "list of secrets", enc: func(v interface{}) []byte { return util.ProtobufEncodeSecretList(v.([]abstract.Secret)) }, dec: func(b []byte) interface{} { return util.ProtobufDecodeSecretList(b) },
			text: func(v interface{}) string {
				var t []string
				for _, s := range v.([]abstract.Secret) {
					t = append(t, text(s))
				}
				return fmt.Sprint(len(t), t)
			}}
		lists := append(indexLists(len(ss), 2, 10, 100, 300), indexLists(4, n)...)
		for _, p := range lists {
			v := []abstract.Secret{}
			for _, i := range p {
				v = append(v, ss[i])
			}
			l.try(v)
		}
		l.end()
	})
	add("byte strings", func(r *Result) {
		bs := byteAlphabet()
		hexes := func(l [][]byte) string {
			var t []string
			for _, b := range l {
				t = append(t, fmt.Sprintf("%x", b))
			}
			return fmt.Sprint(len(l), t)
		}
		l := &codec{r: r, name: "list of byte strings", enc: func(v interface{}) []byte { return util.Encode2DByteArray(v.([][]byte)) }, dec: func(b []byte) interface{} { return util.Decode2DByteArray(b) },
			text: func(v interface{}) string { return hexes(v.([][]byte)) }}
		lists := append(indexLists(len(bs), 2), indexLists(8, n, 100)...)
		for _, p := range lists {
			v := [][]byte{}
			for _, i := range p {
				v = append(v, bs[i])
			}
			l.try(v)
			r.eval("")
			s := util.SerializeTwoDimensionArray(v)
			var back [][]byte
			for _, a := range s {
				back = append(back, a.Arr)
			}
			if hexes(back) != hexes(v) {
				r.find("C21:serialize", "%s becomes %s", clip(hexes(v)), clip(hexes(back)))
			}
		}
		l.try([][]byte{nil, {1}, nil})
		l.end()
	})
	add("committed integers", func(r *Result) {
		N := dec("1230186684530117755130494958384962720772853569595334792197322452151726400507263657518745202199786469389956474942774063845925192557326303453731548268507917026122142913461670429214311602221240479274737794080665351419597459856902143413")
		b := &fujiokam.FujiOkamBase{N: N}
		c := &codec{r: r, name: "integer commitment", enc: func(v interface{}) []byte { return b.Point().SetBigInt(v.(*big.Int)).ToBinary() }, dec: func(d []byte) interface{} { return b.Point().FromBinary(d).ToBigInt() },
			text: func(v interface{}) string { return v.(*big.Int).String() }}
		var vals []*big.Int
		for _, v := range append(bigAlphabet(), new(big.Int).Sub(N, bi(1)), new(big.Int).Rsh(N, 9)) {
			if v.Sign() >= 0 && v.Cmp(N) < 0 {
				vals = append(vals, v)
				c.try(v)
			}
		}
		c.end()
		for _, p := range indexLists(len(vals), 2, 20) {
			var pts []*fujiokam.Point
			v := []*big.Int{}
			for _, i := range p {
				v = append(v, vals[i])
				pts = append(pts, b.Point().SetBigInt(vals[i]))
			}
			r.eval("")
			ints := fujiokam.PointArrayToBigIntArray(pts)
			back := fujiokam.PointArrayToBigIntArray(b.BigIntArrayToPointArray(util.ProtobufDecodeBigIntList(util.ProtobufEncodeBigIntList(ints))))
			if intsText(ints) != intsText(v) || intsText(back) != intsText(v) {
				r.find("C21:commitment list", "the commitments %s become %s", clip(intsText(v)), clip(intsText(back)))
			}
		}
	})
	add("arguments and signatures", func(r *Result) {
		vals := bigAlphabet()
		kinds := []struct {
			name string
			mk   func() interface{}
			enc  func(v interface{}) []byte
			dec  func(b []byte) interface{}
		}{
			{"argument of non-negativity", func() interface{} { return &fujiokam.ARGnonneg{} }, func(v interface{}) []byte { return util.EncodeARGnonneg(v.(*fujiokam.ARGnonneg)) }, func(b []byte) interface{} { return util.DecodeARGnonneg(b) }},
			{"argument of equality", func() interface{} { return &pedersen_fujiokam.ARGequal{} }, func(v interface{}) []byte { return util.EncodeARGequal(v.(*pedersen_fujiokam.ARGequal)) }, func(b []byte) interface{} { return util.DecodeARGequal(b) }},
			{"ring signature", func() interface{} { return &lrs.Signature{} }, func(v interface{}) []byte { return lrs.ProtobufEncodeSignature(v.(*lrs.Signature)) }, func(b []byte) interface{} { return lrs.ProtobufDecodeSignature(b) }},
		}
		for _, k := range kinds {
			c := &codec{r: r, name: k.name, enc: k.enc, dec: k.dec, text: structText}
			fields := reflect.ValueOf(k.mk()).Elem().NumField()
			set := func(v interface{}, f int, x *big.Int, n int) {
				switch p := reflect.ValueOf(v).Elem().Field(f).Addr().Interface().(type) {
				case **big.Int:
					*p = x
				case *[]*big.Int:
					*p = []*big.Int{}
					for i := 0; i < n; i++ {
						*p = append(*p, add2(x, bi(int64(i))))
					}
				}
			}
			for _, n := range []int{0, 1, 2, 5} {
				fill := func(base *big.Int) interface{} {
					v := k.mk()
					for f := 0; f < fields; f++ {
						set(v, f, add2(base, bi(int64(f*10))), n)
					}
					return v
				}
				for _, base := range []*big.Int{bi(0), bi(5), bi(-7), dec("98765432109876543210987654321")} {
					c.try(fill(base))
					for f := 0; f < fields; f++ {
						for _, x := range vals {
							v := fill(base)
							set(v, f, x, n)
							c.try(v)
						}
						for g := 0; g < f; g++ {
							for _, x := range []*big.Int{bi(0), bi(1), bi(-1), grpP} {
								v := fill(base)
								set(v, f, x, n)
								set(v, g, x, n+1)
								c.try(v)
							}
						}
					}
				}
				for _, x := range vals {
					v := k.mk()
					for f := 0; f < fields; f++ {
						set(v, f, x, n)
					}
					c.try(v)
				}
			}
			c.end()
		}
	})
	addrs := []string{"", "1.2.3.4:80", "[::1]:443", " ", "\x00", "a\x00b", "bridge.example.org:9001", "\xff\xfe", "日本語:1", strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("z", 70000), "\n", "1.2.3.4:80 "}
	add("assignments", func(r *Result) {
		ps := pointAlphabet()
		c := &codec{r: r, name: "assignment", enc: func(v interface{}) []byte { a := v.(bridge.Assignment); return bridge.EncodeAssignment(&a) }, dec: func(b []byte) interface{} { return *bridge.DecodeAssignment(b) },
			text: func(v interface{}) string { return assignmentText(v.(bridge.Assignment)) }}
		var as []bridge.Assignment
		for i := range ps {
			for j := range ps {
				for k, a := range addrs {
					if (i > 5 || j > 5) && k > 2 && i != j {
						continue
					}
					x := bridge.Assignment{NymR: ps[i], Addr: a, Nym: ps[j]}
					c.try(x)
					if len(as) < 40 && (i+2*j+3*k)%5 == 0 {
						as = append(as, x)
					}
				}
			}
		}
		c.end()
		l := &codec{r: r, name: "list of assignments", enc: func(v interface{}) []byte { return bridge.EncodeAssignmentList(v.([]bridge.Assignment)) }, dec: func(b []byte) interface{} { return bridge.DecodeAssignmentList(b) },
			text: func(v interface{}) string {
				var t []string
				for _, a := range v.([]bridge.Assignment) {
					t = append(t, assignmentText(a))
				}
				return fmt.Sprint(len(t), t)
			}}
		lists := append(indexLists(len(as), 2, 20, 60), indexLists(4, n+1)...)
		for _, p := range lists {
			v := []bridge.Assignment{}
			for _, i := range p {
				v = append(v, as[i])
			}
			l.try(v)
		}
		l.end()
	})
	add("events", func(r *Result) {
		c := &codec{r: r, name: "event", enc: func(v interface{}) []byte { return util.Encode(v) }, dec: func(b []byte) interface{} {
			e, a := util.DecodeEvent(b)
			if a.String() != e.SrcAddr {
				r.find("C21:event:address", "an event from %s is taken as from %s", e.SrcAddr, a)
			}
			return e
		}, text: func(v interface{}) string { return eventText(v.(*proto.Event)) }}
		vals := []interface{}{0, 1, -1, 5, math.MaxInt64, math.MinInt64, true, false, "", "text", "\x00\xff", strings.Repeat("s", 70000)}
		for _, b := range byteAlphabet() {
			vals = append(vals, b)
		}
		names := []string{"", "nym", "signature", "bridge_addr", "a b", strings.Repeat("n", 300)}
		src := []string{"127.0.0.1:1", "10.200.3.4:65535", "[::1]:80", "[2001:db8::1]:12345"}
		for typ := -1; typ < len(evNames)+3; typ++ {
			for _, s := range src {
				c.try(&proto.Event{EventType: typ, SrcAddr: s})
				c.try(&proto.Event{EventType: typ, SrcAddr: s, Params: map[string]interface{}{}})
				c.try(&proto.Event{EventType: typ, SrcAddr: s, Params: map[string]interface{}{"x": typ}})
			}
		}
		for _, k := range names {
			for _, v := range vals {
				c.try(&proto.Event{EventType: proto.VOTE, SrcAddr: src[0], Params: map[string]interface{}{k: v}})
				for _, w := range vals {
					c.try(&proto.Event{EventType: proto.VOTE, SrcAddr: src[1], Params: map[string]interface{}{k: v, "other": w}})
				}
			}
		}
		many := map[string]interface{}{}
		for i := 0; i < 100; i++ {
			many[fmt.Sprint("field", i)] = vals[i%len(vals)]
			m := map[string]interface{}{}
			for k, v := range many {
				m[k] = v
			}
			c.try(&proto.Event{EventType: i, SrcAddr: src[2], Params: m})
		}
		c.end()
	})
	hs := [][2]int{{1, 0}, {2, 1}}
	if th {
		hs = append(hs, [2]int{3, 2})
	}
	for _, h := range hs {
		h := h
		add(fmt.Sprintf("messages of rounds, %d servers, %d fillers", h[0], h[1]), func(r *Result) { wireMessages(r, h[0], h[1]) })
	}
	return
}

func add2(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

func eventText(e *proto.Event) string {
	var t []string
	for k, v := range e.Params {
		if b, ok := v.([]byte); ok {
			v = fmt.Sprintf("bytes %x", b)
		}
		t = append(t, fmt.Sprintf("%q=%T %v", k, v, v))
	}
	sort.Strings(t)
	return fmt.Sprintf("%d %s %d %s", e.EventType, e.SrcAddr, len(e.Params), strings.Join(t, ", "))
}

// wireMessages: every message of a round, decoded, encoded and decoded again
func wireMessages(r *Result, servers, fillers int) {
	for _, p := range roundPlans() {
		l := newLab(r, servers, 3, fillers)
		p := p
		l.step("C21", []string{p.name}, func() bool {
			if !p.run(l) {
				return false
			}
			if l.cv().Status == stMESSAGE {
				l.op(0, Input{Op: "vote"})
				l.op(0, Input{Op: "roundend"})
			}
			l.op(0, Input{Op: "clear"})
			l.op(0, Input{Op: "announce"})
			return true
		})
		for _, n := range l.w.nodes {
			for _, x := range l.w.local(l.s, n).path() {
				for _, m := range x.Outs {
					e, _ := util.DecodeEvent(m.Bytes)
					again, _ := util.DecodeEvent(util.Encode(e))
					r.eval(fmt.Sprintf("%d servers, %d fillers, %s: %s", servers, fillers, p.name, m))
					if eventText(again) != eventText(e) {
						r.find("C21:wire:event", "%s is encoded and decoded to %s", clip(eventText(e)), clip(eventText(again)))
					}
				}
			}
		}
	}
}
