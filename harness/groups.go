package main

// Groups for the direct checks: the deployed one is slow and far too large to
// enumerate; the verified code takes any suite.

import (
	"crypto/cipher"
	"crypto/sha256"
	"hash"
	"math/big"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/cipher/sha3"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

// zsuite: quadratic residues modulo any safe prime
type zsuite struct{ *nist.ResidueGroup }

func (s zsuite) Hash() hash.Hash { return sha256.New() }
func (s zsuite) Cipher(key []byte, options ...interface{}) abstract.Cipher {
	return sha3.NewShakeCipher128(key, options...)
}

func newSuite(p *big.Int, g int64) zsuite {
	r := new(nist.ResidueGroup)
	r.SetParams(p, new(big.Int).Rsh(p, 1), bi(2), bi(g))
	return zsuite{r}
}

func dec(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("harness: bad number " + s)
	}
	return n
}

// fastSuite: 61 bits. A false proof passes by luck once in 2^60 times.
func fastSuite() zsuite { return newSuite(dec("2305843009213691579"), 4) }

// tinySuite: small enough to enumerate everything
func tinySuite(p int64) zsuite { return newSuite(bi(p), 4) }

func secretOf(s abstract.Suite, n *big.Int) abstract.Secret { return fullSecret(s, n) }

func secretVal(x abstract.Secret) *big.Int { return new(big.Int).Set(&x.(*nist.Int).V) }

func pointVal(p abstract.Point) *big.Int {
	b, err := p.MarshalBinary()
	must(err)
	return new(big.Int).SetBytes(b)
}

// pointOf any residue, valid or not: through exponentiation of encodings only valid ones can be made
func pointOf(s abstract.Suite, n *big.Int) abstract.Point {
	p := s.Point()
	b := make([]byte, p.MarshalSize())
	n.FillBytes(b)
	p.UnmarshalBinary(b) // keeps the value, reports non-residues
	return p
}

// prefixStream: given bytes first, then another stream
type prefixStream struct {
	b    []byte
	rest cipher.Stream
}

func (s *prefixStream) XORKeyStream(dst, src []byte) {
	for i := range src {
		if len(s.b) > 0 {
			dst[i] = src[i] ^ s.b[0]
			s.b = s.b[1:]
		} else {
			s.rest.XORKeyStream(dst[i:i+1], src[i:i+1])
		}
	}
}

// withStream runs f with the given random stream
func withStream(st cipher.Stream, f func()) {
	saved := random.Stream
	random.Stream = st
	defer func() { random.Stream = saved }()
	f()
}

// panics reports whether f panics, and with what
func panics(f func()) (what interface{}) {
	defer func() { what = recover() }()
	f()
	return nil
}

func allPermutations(k int) (l [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == k {
			l = append(l, append([]int(nil), p...))
			return
		}
		for i := 0; i < k; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return
}

// shortened names a kind of failure
func shortened(s string) string {
	if len(s) > 12 {
		return s[:12]
	}
	return s
}
