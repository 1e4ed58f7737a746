package secp256k1zkp

import (
	"crypto/rand"
	"github.com/btcsuite/btcd/btcec"
	. "github.com/yoss22/bulletproofs"
	"io"
	"math/big"
	"testing"
)

// A signature survives serialisation.
func TestFindingSignatureRoundTrip(t *testing.T) {
	x := big.NewInt(12345)
	P := ScalarMulPoint(&G, x)
	for i := 0; i < 40; i++ {
		msg := ComputeMessage(uint64(i), 7)
		sig := SignMessage(*P, *x, msg)
		if !VerifySignature(*P, msg, sig) {
			t.Fatal("fresh signature")
		}
		if !VerifySignature(*P, msg, DecodeSignature(sig.Bytes())) {
			t.Fatalf("decoded signature %d does not verify", i)
		}
	}
}

type fixedThenRandom struct{ first []byte }

func (f *fixedThenRandom) Read(p []byte) (int, error) {
	if f.first != nil {
		n := copy(p, f.first)
		f.first = nil
		return n, nil
	}
	for i := range p {
		p[i] = 7
	}
	return len(p), nil
}

// A random scalar is never 0 modulo the group order.
func TestFindingRandomScalarRange(t *testing.T) {
	defer func(r io.Reader) { rand.Reader = r }(rand.Reader)
	for _, first := range [][]byte{make([]byte, 32), btcec.S256().N.Bytes()} {
		rand.Reader = &fixedThenRandom{first}
		if r := new(big.Int).Mod(RandomInt(), btcec.S256().N); r.Sign() == 0 {
			t.Fatal("zero scalar")
		}
	}
}
