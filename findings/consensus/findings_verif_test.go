package consensus

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
	"math/big"
)

func readBlock(t *testing.T) *Block {
	b := &Block{}
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil {
		t.Fatal(err)
	}
	return b
}

// Encoding a transaction and decoding it again must give the transaction back.
func TestFindingTransactionInputs(t *testing.T) {
	b := readBlock(t)
	tx := &Transaction{
		Inputs:  InputList{{Features: CoinbaseOutput, Commit: bytes.Repeat([]byte{9}, 33)}},
		Outputs: b.Outputs, Kernels: b.Kernels,
	}
	got := &Transaction{}
	if err := got.Read(bytes.NewReader(tx.Bytes())); err != nil {
		t.Fatalf("own encoding is rejected: %v", err)
	}
	if got.Inputs[0].Features != CoinbaseOutput || !bytes.Equal(got.Inputs[0].Commit, tx.Inputs[0].Commit) {
		t.Fatalf("input changed: %v", got.Inputs[0])
	}
}

// A compact block that announces 2^63 short ids must be refused, not crash.
func TestFindingCompactBlockCount(t *testing.T) {
	b := readBlock(t)
	buf := new(bytes.Buffer)
	buf.Write(b.Header.Bytes())
	buf.Write([]byte{0, 0})
	binary.Write(buf, binary.BigEndian, uint64(1)<<63)
	var cb CompactBlock
	if err := cb.Read(buf); err == nil {
		t.Fatal("accepted")
	}
}

// Every kernel's signature is checked, not only the coinbase one.
func TestFindingPlainKernelSignature(t *testing.T) {
	b := readBlock(t)
	if err := b.Validate(); err != nil {
		t.Fatal(err)
	}
	n := 0
	for i := range b.Kernels {
		if b.Kernels[i].Features == DefaultKernel {
			b.Kernels[i].ExcessSig[40] ^= 1
			n++
		}
	}
	if n == 0 {
		t.Fatal("no plain kernel")
	}
	for !isSortedKernels(b.Kernels) {
		b.Kernels[0], b.Kernels[1] = b.Kernels[1], b.Kernels[0]
	}
	if err := b.Validate(); err == nil {
		t.Fatal("block with a forged kernel signature is accepted")
	}
}

func isSortedKernels(k TxKernelList) bool { return len(k) < 2 || !k.Less(1, 0) }

func TestFindingZeroHashDifficulty(t *testing.T) {
	if d := MinimumDifficulty.FromHash(make([]byte, 32)); d == 0 {
		t.Fatal("zero")
	}
}

// Blocks found exactly on schedule keep the difficulty; twice as fast raises it.
func TestFindingRetarget(t *testing.T) {
	mk := func(spacing time.Duration) BlockList {
		var l BlockList
		for i := 0; i < DifficultyAdjustWindow+MedianTimeWindow; i++ {
			l = append(l, Block{Header: BlockHeader{Difficulty: 1000, Timestamp: time.Unix(1e9, 0).Add(-time.Duration(i) * spacing)}})
		}
		return l
	}
	if d := NextDifficulty(mk(60 * time.Second)); d != 1000 {
		t.Errorf("on schedule: %d", d)
	}
	if d := NextDifficulty(mk(30 * time.Second)); d <= 1000 {
		t.Errorf("too fast: %d", d)
	}
	if d := NextDifficulty(mk(120 * time.Second)); d >= 1000 {
		t.Errorf("too slow: %d", d)
	}
}

// Blocks older than the window do not change the result.
func TestFindingRetargetLongHistory(t *testing.T) {
	var l BlockList
	for i := 0; i < DifficultyAdjustWindow+MedianTimeWindow+20; i++ {
		l = append(l, Block{Header: BlockHeader{Difficulty: 1000, Timestamp: time.Unix(1e9, 0).Add(-time.Duration(i) * 30 * time.Second)}})
	}
	if a, b := NextDifficulty(l), NextDifficulty(l[:DifficultyAdjustWindow+MedianTimeWindow]); a != b {
		t.Fatalf("%d with a longer history, %d without", a, b)
	}
}

// A range proof that is announced longer than it is must be refused.
func TestFindingRangeProofTail(t *testing.T) {
	b := readBlock(t)
	enc := b.Outputs[0].Bytes()
	binary.BigEndian.PutUint64(enc[34:], 675+3)
	enc = append(enc, 1, 2, 3)
	r := bytes.NewReader(enc)
	var o Output
	if err := o.Read(r); err == nil && r.Len() != 0 {
		t.Fatalf("accepted with %d undecoded proof bytes left in the stream", r.Len())
	}
}

// Negating s must not give a second valid signature for the same kernel.
func TestFindingKernelMalleable(t *testing.T) {
	b := readBlock(t)
	k := b.Kernels[0]
	if err := k.Validate(); err != nil {
		t.Fatal(err)
	}
	s := new(big.Int).SetBytes(k.ExcessSig[32:])
	neg := bulletproofs.GetB32(bulletproofs.Neg(s))
	copy(k.ExcessSig[32:], neg[:])
	if err := k.Validate(); err == nil {
		t.Fatal("a second signature is valid")
	}
	_ = secp256k1zkp.G
}
