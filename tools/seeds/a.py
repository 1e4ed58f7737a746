SEEDS=[]
def S(**k): SEEDS.append(k)

S(id='c01-shortid-alias', property='C01', pkg='consensus',
 edits=[('consensus/block.go','''	b.KernelIDs = make(ShortIDList, kernelIDs)
	for i := uint64(0); i < kernelIDs; i++ {

		shortID := make(ShortID, ShortIDSize)
''','''	b.KernelIDs = make(ShortIDList, kernelIDs)
	shortID := make(ShortID, ShortIDSize)
	for i := uint64(0); i < kernelIDs; i++ {

''')],
 needs='a compact block with at least two different kernel ids',
 breaks='all kernel ids of a decoded compact block share one buffer and equal the last one read',
 demo='''
package consensus
import ("bytes";"testing";"time")
func TestDemo(t *testing.T) {
	z := bytes.Repeat([]byte{1}, 32)
	cb := CompactBlock{Header: BlockHeader{Version: 1, Previous: z, PreviousRoot: z, UTXORoot: z, RangeProofRoot: z, KernelRoot: z, TotalKernelOffset: z,
		Timestamp: time.Unix(1540000000,0), POW: Proof{EdgeBits: 29, Nonces: make([]uint32, ProofSize)}}}
	cb.KernelIDs = ShortIDList{ShortID("aaaaaa"), ShortID("bbbbbb"), ShortID("cccccc")}
	var out CompactBlock
	if err := out.Read(bytes.NewReader(cb.Bytes())); err != nil { t.Fatal(err) }
	if !bytes.Equal(out.Bytes(), cb.Bytes()) { t.Fatal("kernel ids changed: ", out.KernelIDs) }
}
''')

S(id='c02-port-order', property='C02', pkg='p2p',
 edits=[('p2p/helpers.go','binary.Write(buff, binary.BigEndian, uint16(addr.Port))','binary.Write(buff, binary.LittleEndian, uint16(addr.Port))'),
        ('p2p/helpers.go','binary.Read(r, binary.BigEndian, &ipPort)','binary.Read(r, binary.LittleEndian, &ipPort)')],
 needs='two cooperating sites: our own encoder and decoder still agree, only another implementation notices',
 breaks='ports of peer addresses are little-endian on the wire',
 demo='''
package p2p
import ("bytes";"testing";"net")
func TestDemo(t *testing.T) {
	m := PeerAddrs{peers: []*net.TCPAddr{{IP: net.IPv4(1,2,3,4), Port: 13414}}}
	want := []byte{0,0,0,1, 0, 1,2,3,4, 0x34, 0x66}
	if !bytes.Equal(m.Bytes(), want) { t.Fatalf("%x", m.Bytes()) }
}
''')

S(id='c03-partial-shortid', property='C03', pkg='consensus',
 edits=[('consensus/block.go','''		if _, err := io.ReadFull(r, shortID); err != nil {''','''		if _, err := r.Read(shortID); err != nil {''')],
 needs='input that ends in the middle of a kernel id (or a reader that returns short)',
 breaks='a truncated compact block is accepted with a half-read kernel id',
 demo='''
package consensus
import ("bytes";"testing";"time")
func TestDemo(t *testing.T) {
	z := bytes.Repeat([]byte{1}, 32)
	cb := CompactBlock{Header: BlockHeader{Version: 1, Previous: z, PreviousRoot: z, UTXORoot: z, RangeProofRoot: z, KernelRoot: z, TotalKernelOffset: z,
		Timestamp: time.Unix(1540000000,0), POW: Proof{EdgeBits: 29, Nonces: make([]uint32, ProofSize)}}}
	cb.KernelIDs = ShortIDList{ShortID("aaaaaa"), ShortID("bbbbbb")}
	b := cb.Bytes()
	for i := range b {
		var out CompactBlock
		if err := out.Read(bytes.NewReader(b[:i])); err == nil { t.Fatal("accepted a prefix of length ", i, " of ", len(b)) }
	}
}
''')

S(id='c04-headers-limit', property='C04', pkg='p2p',
 edits=[('p2p/messages.go','''	if int(count) > consensus.MaxBlockHeaders {
		return errors.New("too big block headers len from peer")''','''	if int(count) > consensus.MaxBlockHeaders+1 {
		return errors.New("too big block headers len from peer")''')],
 needs='a headers message announcing exactly 513 headers',
 breaks='513 headers are accepted',
 demo='''
package p2p
import ("bytes";"testing";"github.com/dblokhin/gringo/chain")
func TestDemo(t *testing.T) {
	h := chain.Testnet4.Header.Bytes()
	for _, n := range []int{0, 1, 511, 512, 513, 1023, 1024, 2000} {
		b := append([]byte{byte(n>>8), byte(n)}, bytes.Repeat(h, n)...)
		var m BlockHeaders
		err := m.Read(bytes.NewReader(b))
		if (err == nil) != (n <= 512) { t.Fatal(n, err) }
	}
}
''')

S(id='v01-coinbase-proof', property='V01', pkg='consensus',
 edits=[('consensus/block.go','''	for _, output := range b.Outputs {
		if !prover.Verify(''','''	for _, output := range b.Outputs {
		if output.Features&CoinbaseOutput == CoinbaseOutput {
			// the amount of a coinbase output is public
			continue
		}
		if !prover.Verify(''')],
 needs='a block whose coinbase output carries a bad range proof',
 breaks='the range proof of the coinbase output is not verified',
 demo='''
package consensus
import ("bytes";"testing")
func TestDemo(t *testing.T) {
	for i := 0; i < 3; i++ {
		var b Block
		if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil { t.Fatal(err) }
		if err := b.Validate(); err != nil { t.Fatal(err) }
		j := (i+1) % len(b.Outputs)
		b.Outputs[i].RangeProof = b.Outputs[j].RangeProof
		if err := b.Validate(); err == nil { t.Fatal("accepted a wrong range proof of output ", i) }
	}
}
''')

S(id='v03-fork-boundary', property='V03', pkg='consensus',
 edits=[('consensus/block.go','} else if height < 2*HardForkInterval {','} else if height <= 2*HardForkInterval {')],
 needs='height exactly 500,000',
 breaks='version 3 is still accepted at height 500,000',
 demo='''
package consensus
import "testing"
func TestDemo(t *testing.T) {
	for _, c := range []struct{h uint64; v uint16}{{94999,1},{95000,2},{249999,2},{250000,3},{499999,3},{500000,0},{500001,0}} {
		for v := uint16(0); v < 6; v++ {
			if ValidateBlockVersion(c.h, v) != (v == c.v && v != 0) { t.Fatal(c.h, v) }
		}
	}
}
''')

S(id='v06-proof-hash', property='V06', pkg='consensus',
 edits=[('consensus/proof.go','''	hash := blake2b.Sum256(p.Bytes())
	return hash[:]''','''	hash := blake2b.Sum256(p.ProofBytes())
	return hash[:]''')],
 needs='two proofs whose packed nonces agree but whose edge bits differ',
 breaks='the hash that determines the proof difficulty no longer covers the edge bits',
 demo='''
package consensus
import ("bytes";"testing";"golang.org/x/crypto/blake2b")
func TestDemo(t *testing.T) {
	p := Proof{EdgeBits: 29, Nonces: make([]uint32, ProofSize)}
	for i := range p.Nonces { p.Nonces[i] = uint32(7*i+3) }
	want := blake2b.Sum256(p.Bytes())
	if !bytes.Equal(p.Hash(), want[:]) { t.Fatal("proof hash does not cover the encoded proof") }
}
''')

S(id='v07-kernel-order', property='V07', pkg='consensus',
 edits=[('consensus/transaction.go','if !sort.IsSorted(t.Kernels) {','if !sort.IsSorted(t.Outputs) {')],
 needs='a transaction with two kernels in the wrong order',
 breaks='the order of the kernels is not checked when a transaction is decoded',
 demo='''
package consensus
import ("bytes";"testing";"encoding/binary")
func TestDemo(t *testing.T) {
	var b Block
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil { t.Fatal(err) }
	enc := func(k ...TxKernel) []byte {
		w := new(bytes.Buffer)
		w.Write(make([]byte, 32))
		for _, n := range []uint64{0, 0, uint64(len(k))} { binary.Write(w, binary.BigEndian, n) }
		for i := range k { w.Write(k[i].Bytes()) }
		return w.Bytes()
	}
	var tx Transaction
	if err := tx.Read(bytes.NewReader(enc(b.Kernels[0], b.Kernels[1]))); err != nil { t.Fatal(err) }
	var tx2 Transaction
	if err := tx2.Read(bytes.NewReader(enc(b.Kernels[1], b.Kernels[0]))); err == nil { t.Fatal("unsorted kernels accepted") }
}
''')

S(id='v08-swap-part', property='V08', pkg='consensus',
 edits=[('consensus/block.go','''func (m InputList) Swap(i, j int) {
	m[i], m[j] = m[j], m[i]''','''func (m InputList) Swap(i, j int) {
	m[i].Commit, m[j].Commit = m[j].Commit, m[i].Commit''')],
 needs='inputs with different features that have to be reordered',
 breaks='sorting moves commitments between inputs but leaves the features behind',
 demo='''
package consensus
import ("bytes";"testing";"github.com/dblokhin/gringo/secp256k1zkp")
func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		tx := Transaction{}
		feat := map[string]OutputFeatures{}
		for i := 0; i < 4; i++ {
			c := secp256k1zkp.Commitment(bytes.Repeat([]byte{byte(8*n+i)}, 33))
			f := OutputFeatures(i & 1)
			feat[string(c)] = f
			tx.Inputs = append(tx.Inputs, Input{Features: f, Commit: c})
		}
		var out Transaction
		if err := out.Read(bytes.NewReader(tx.Bytes())); err != nil { continue }
		for _, in := range out.Inputs { if feat[string(in.Commit)] != in.Features { t.Fatal("an input changed its features") } }
	}
}
''')

S(id='v10-last-header', property='V10', pkg='chain',
 edits=[('chain/chain.go','''func (c *Chain) ProcessHeaders(headers []consensus.BlockHeader) error {
	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil''','''func (c *Chain) ProcessHeaders(headers []consensus.BlockHeader) (err error) {
	for _, header := range headers {
		if err = header.Validate(); err != nil {
			logrus.Errorf("invalid header at height %d: %v", header.Height, err)
		}
	}
	return err''')],
 needs='an invalid header that is followed by a valid one',
 breaks='only the verdict about the last header counts',
 demo='''
package chain
import ("bytes";"testing";"encoding/hex";"github.com/dblokhin/gringo/consensus")
func TestDemo(t *testing.T) {
	raw, _ := hex.DecodeString("00010000000000010187000000005c04daea09ff0a5d1c0c9ccef8b8457265655d0ad83cc0674b9aaec959d5987bfec8e0e808971ecd08dfcc1c3fdf79d64e5ed5439cc70b1e3e14f48fbb9acc39f075904ddc6b24e1bb63fd8af854be5f2976f4ab6afe2f38a7af6e54347733e8f18f5571d96490abdb18827c562e08a70a132983daecfe07cb3990c7c7d76f1650d7324946d3a57e8dadc45757b1d3945befb5b894bc50b97e7d94080e6cd1355bcb645b54dfe00b7b7143a3eae538e59e90e921216f762d400ec1913a78045ca7430db40000000000056abf000000000003b5d0000000010a83b80200000bef2ea3e4fb0fbca5ec1d2376ef603e35303c1b07869384e010cc8120404feb073091015943d32e7f511fe6e69c09691292212eb96c55be63bb7e94c799e9da45730df568990fab2df53fc1ed6a6cb822dea607bdb3f9d2d062a162da5aa4ac7d8d2843195209ee71767fb4d2a0d059aae282596ff6972b901fab5db528b6e4257db76e0710f755666226f31d7d9a1aa931790136db95d86e26f6e09cfbfbdca450c503")
	var good consensus.BlockHeader
	if err := good.Read(bytes.NewReader(raw)); err != nil { t.Fatal(err) }
	bad := good
	bad.Version = 77
	c := &Chain{}
	if err := c.ProcessHeaders([]consensus.BlockHeader{good}); err != nil { t.Fatal(err) }
	if err := c.ProcessHeaders([]consensus.BlockHeader{bad, good}); err == nil { t.Fatal("list with an invalid header accepted") }
}
''')

S(id='v12-median-end', property='V12', pkg='consensus',
 edits=[('consensus/difficulty.go','''	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowEnd[i].Before(windowEnd[j])
	})
''','''	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowBegin[i].Before(windowBegin[j])
	})
''')],
 needs='time stamps of the blocks before the window that are not already in order',
 breaks='the median of the times before the window is taken over an unsorted list',
 demo='''
package consensus
import ("testing";"time")
func TestDemo(t *testing.T) {
	mk := func(shuffle bool) BlockList {
		l := make(BlockList, 71)
		for i := range l {
			l[i].Header.Difficulty = 1000
			l[i].Header.Timestamp = time.Unix(int64(1600000000 - 60*i), 0)
		}
		if shuffle {
			l[65].Header.Timestamp, l[70].Header.Timestamp = l[70].Header.Timestamp, l[65].Header.Timestamp
		}
		return l
	}
	if a, b := NextDifficulty(mk(false)), NextDifficulty(mk(true)); a != b { t.Fatal(a, b) }
}
''')

S(id='v13-lock-width', property='V13', pkg='secp256k1zkp',
 edits=[('secp256k1zkp/schnorr.go','binary.BigEndian.PutUint64(msg[24:], lockHeight)','binary.BigEndian.PutUint32(msg[28:], uint32(lockHeight))')],
 needs='a lock height of 2^32 or more',
 breaks='the signed message covers only the low 32 bits of the lock height',
 demo='''
package secp256k1zkp
import "testing"
func TestDemo(t *testing.T) {
	for _, h := range []uint64{1, 1<<32, 1<<63} {
		if ComputeMessage(5, 0) == ComputeMessage(5, h) { t.Fatal("same message for lock height 0 and ", h) }
	}
}
''')

S(id='v02-future', property='V02', pkg='consensus',
 edits=[('consensus/block.go','if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {','if b.Timestamp.Add(-time.Second*12*BlockTimeSec).UnixNano() > time.Now().UnixNano() {')],
 needs='a time stamp so far in the future that its nanosecond count overflows 64 bits',
 breaks='headers with a time after the year 2262 pass the check of the time',
 demo='''
package consensus
import ("bytes";"testing";"time";"strings")
func TestDemo(t *testing.T) {
	var b Block
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil { t.Fatal(err) }
	for _, at := range []time.Time{time.Now().Add(13*time.Minute), time.Now().Add(24*365*time.Hour), time.Unix(9500000000, 0), time.Unix(1<<40, 0)} {
		h := b.Header
		h.Timestamp = at
		err := h.Validate()
		if err == nil || !strings.Contains(err.Error(), "time") { t.Fatal(at, err) }
	}
}
''')

S(id='v16-le-prefix', property='V16', pkg='consensus',
 edits=[('consensus/difficulty.go','	num := binary.BigEndian.Uint64(hash[:8])','	num := binary.BigEndian.Uint64(hash[len(hash)-8:])')],
 needs='any hash; only the numeric value differs',
 breaks='the difficulty is computed from the last instead of the first 8 bytes of the hash',
 demo='''
package consensus
import "testing"
func TestDemo(t *testing.T) {
	h := make(Hash, 32)
	h[3] = 1
	if d := MinimumDifficulty.FromHash(h); d != Difficulty(0x0fffffffffffffff/(uint64(1)<<32)) { t.Fatal(d) }
}
''')
