package chain

import (
	"bytes"
	"testing"

	"github.com/dblokhin/gringo/consensus"
)

type memStore struct{ blocks []*consensus.Block }

func (m *memStore) AddBlock(b *consensus.Block)   {}
func (m *memStore) DelBlock(id consensus.BlockID) {}
func (m *memStore) GetBlock(id consensus.BlockID) *consensus.Block {
	for _, b := range m.blocks {
		if id.Hash != nil && bytes.Equal(b.Hash(), id.Hash) {
			return b
		}
	}
	return nil
}
func (m *memStore) GetLastBlock() *consensus.Block {
	if len(m.blocks) == 0 {
		return nil
	}
	return m.blocks[len(m.blocks)-1]
}
func (m *memStore) From(id consensus.BlockID, limit int) consensus.BlockList { return nil }

// A chain that holds an invalid block is not valid.
func TestFindingValidateIgnoresInvalid(t *testing.T) {
	bad := &consensus.Block{Header: consensus.BlockHeader{Version: 7, Height: 1, Previous: Testnet4.Hash(),
		PreviousRoot: make([]byte, 32), UTXORoot: make([]byte, 32), RangeProofRoot: make([]byte, 32), KernelRoot: make([]byte, 32),
		TotalKernelOffset: make([]byte, 32)}}
	bad2 := *bad
	bad2.Header.Previous = bad.Hash()
	bad2.Header.Nonce = 9
	bad2.Header.POW.Nonces = make([]uint32, 42)
	bad2.Header.POW.EdgeBits = 30
	c := New(&Testnet4, &memStore{blocks: []*consensus.Block{bad, &bad2}})
	if err := c.Validate(); err == nil {
		t.Fatal("chain with invalid blocks passes")
	}
}

// A fresh chain, at genesis, is valid.
func TestFindingValidateGenesisOnly(t *testing.T) {
	c := New(&Testnet4, &memStore{})
	if err := c.Validate(); err != nil {
		t.Fatal(err)
	}
}

// Every genesis block can be sent to a peer.
func TestFindingGenesisEncodes(t *testing.T) {
	for _, g := range []*consensus.Block{&Testnet1, &Testnet2, &Testnet3, &Testnet4, &Mainnet} {
		b := g.Bytes() // used to exit the process
		_ = b
		if len(g.Header.TotalKernelOffset) != 32 {
			t.Fatal("short offset")
		}
	}
}
