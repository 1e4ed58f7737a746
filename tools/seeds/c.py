import re
SEEDS=[]
def S(**k): SEEDS.append(k)
FAKE=open('/verif/tools/seeds/b.py').read().split("FAKE='''")[1].split("'''")[0]
BLOCK=re.search(r'"([0-9a-f]{1000,})"',open('/repo/consensus/block_test.go').read())[1]
CHAIN='''
package chain
import ("bytes";"encoding/hex";"testing";"time";"github.com/dblokhin/gringo/consensus")
type fakeStore struct { prev *consensus.Block; hist consensus.BlockList }
func (f *fakeStore) AddBlock(*consensus.Block) {}
func (f *fakeStore) DelBlock(consensus.BlockID) {}
func (f *fakeStore) GetBlock(consensus.BlockID) *consensus.Block { return f.prev }
func (f *fakeStore) GetLastBlock() *consensus.Block { return nil }
func (f *fakeStore) From(id consensus.BlockID, limit int) consensus.BlockList { if len(f.hist) > limit { return f.hist[:limit] }; return f.hist }
func child(t *testing.T) *consensus.Block {
	raw, _ := hex.DecodeString("'''+BLOCK+'''")
	b := new(consensus.Block)
	if err := b.Read(bytes.NewReader(raw)); err != nil { t.Fatal(err) }
	b.Header.Difficulty = 1 << 40
	return b
}
func parent(b *consensus.Block) *consensus.Block {
	p := Testnet4
	p.Header.Timestamp = b.Header.Timestamp.Add(-time.Second)
	p.Header.TotalDifficulty = b.Header.TotalDifficulty - p.Header.POW.ToDifficulty()
	return &p
}
'''

S(id='v09-equal-time', property='V09', pkg='chain',
 edits=[('chain/chain.go','''	if !block.Header.Timestamp.After(prevBlock.Header.Timestamp) {''','''	if block.Header.Timestamp.Before(prevBlock.Header.Timestamp) {''')],
 needs='a block with exactly the time of its parent',
 breaks='a block is accepted whose time is not later than that of its parent',
 demo=CHAIN+'''
func TestDemo(t *testing.T) {
	b := child(t)
	st := &fakeStore{prev: parent(b)}
	c := New(&Testnet4, st)
	if err := c.ProcessBlock(b); err != nil { t.Fatal("the control: ", err) }
	st.prev.Header.Timestamp = b.Header.Timestamp
	if err := c.ProcessBlock(b); err == nil { t.Fatal("accepted at the time of its parent") }
}
''')

S(id='v09-total-below', property='V09', pkg='chain',
 edits=[('chain/chain.go','''	if block.Header.TotalDifficulty != prevBlock.Header.TotalDifficulty+prevBlock.Header.POW.ToDifficulty() {''',
 '''	if block.Header.TotalDifficulty-prevBlock.Header.TotalDifficulty < prevBlock.Header.POW.ToDifficulty() {''')],
 needs='a block that claims more total difficulty than its parent gives it',
 breaks='total difficulty may be inflated',
 demo=CHAIN+'''
func TestDemo(t *testing.T) {
	b := child(t)
	st := &fakeStore{prev: parent(b)}
	c := New(&Testnet4, st)
	if err := c.ProcessBlock(b); err != nil { t.Fatal("the control: ", err) }
	st.prev.Header.TotalDifficulty--
	if err := c.ProcessBlock(b); err == nil { t.Fatal("accepted an inflated total difficulty") }
}
''')

S(id='v09-short-window', property='V09', pkg='chain',
 edits=[('chain/chain.go','''	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)''',
 '''	limit := int(consensus.DifficultyAdjustWindow)''')],
 needs='a parent known to the storage with a full history of 71 blocks',
 breaks='the difficulty is never retargeted: too few blocks are read, so any difficulty from the minimum on is accepted',
 demo=CHAIN+'''
func TestDemo(t *testing.T) {
	b := child(t)
	st := &fakeStore{prev: parent(b)}
	for i := 0; i < 71; i++ {
		var h consensus.Block
		h.Header.Difficulty = 1 << 30
		h.Header.Timestamp = b.Header.Timestamp.Add(-time.Duration(i+1)*time.Minute)
		st.hist = append(st.hist, h)
	}
	c := New(&Testnet4, st)
	if err := c.ProcessBlock(b); err != nil { t.Fatal("the control: ", err) }
	b.Header.Difficulty = 1 << 20
	if err := c.ProcessBlock(b); err == nil { t.Fatal("accepted with too low a difficulty") }
}
''')

S(id='c06-drain', property='C06', pkg='p2p',
 edits=[('p2p/protocol.go','''	rb := io.LimitReader(r, int64(header.Len))
''','''	// no need for a limit: decoders read what belongs to the message
	rb := r
	if header.Len > 1<<16 {
		rb = io.LimitReader(r, int64(header.Len))
	}
''' ),('p2p/protocol.go','''	// leave the reader at the next message
	_, err := io.Copy(ioutil.Discard, rb)
	return uint64(consensus.HeaderLen) + uint64(header.Len), err''','''	// leave the reader at the next message
	if header.Len > 1<<16 {
		if _, err := io.Copy(ioutil.Discard, rb); err != nil {
			return uint64(consensus.HeaderLen) + uint64(header.Len), err
		}
	}
	return uint64(consensus.HeaderLen) + uint64(header.Len), nil''')],
 needs='a frame that is shorter than what its decoder reads, followed by another one',
 breaks='the decoder reads on into the next frame',
 demo='''
package p2p
import ("bytes";"testing";"github.com/dblokhin/gringo/consensus")
func TestDemo(t *testing.T) {
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePing, Len: 8}
	var buf bytes.Buffer
	h.Write(&buf); buf.Write(make([]byte, 8)); h.Write(&buf); buf.Write(make([]byte, 8))
	if _, err := ReadMessage(&buf, new(Ping)); err == nil { t.Fatal("a ping of 8 bytes was accepted, ", buf.Len(), " bytes left") }
}
''')

S(id='c06-signed-length', property='C06', pkg='p2p',
 edits=[('p2p/protocol.go','''	if header.Len > consensus.MaxMsgLen {
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	}

	rb := io.LimitReader(r, int64(header.Len))''','''	size := int64(header.Len)
	if size > int64(consensus.MaxMsgLen) {
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	}

	rb := io.LimitReader(r, size)''')],
 needs='a header that announces 2^63 bytes or more for a message whose decoder needs none',
 breaks='a frame with an absurd length is accepted',
 demo='''
package p2p
import ("bytes";"io";"testing";"github.com/dblokhin/gringo/consensus")
type empty struct{}
func (empty) Read(io.Reader) error { return nil }
func (empty) Bytes() []byte { return nil }
func (empty) Type() uint8 { return 77 }
func TestDemo(t *testing.T) {
	h := Header{magic: consensus.MagicCode, Type: 77, Len: 1<<63 + 5}
	var buf bytes.Buffer
	h.Write(&buf)
	if _, err := ReadMessage(&buf, empty{}); err == nil { t.Fatal("accepted a frame of 2^63+5 bytes") }
}
''')

S(id='n01-newer-version', property='N01', pkg='p2p',
 edits=[('p2p/handshake.go','''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {''','''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version < consensus.ProtocolVersion {''')],
 needs='a peer that answers with a later protocol version',
 breaks='an outgoing handshake succeeds with a peer of another protocol version',
 demo='''
package p2p
import ("net";"testing";"github.com/dblokhin/gringo/chain")
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil { return }
		var h hand
		ReadMessage(c, &h)
		WriteMessage(c, &shake{Version: 2, UserAgent: "x", Genesis: chain.Testnet4.Hash()})
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil { t.Fatal(err) }
	if _, err := shakeByHand(c); err == nil { t.Fatal("version 2 accepted") }
}
''')

S(id='n07-close-once-started', property='N07', pkg='p2p',
 edits=[('p2p/peer.go','''	close(p.quit)
	p.conn.Close()
}''','''	close(p.quit)

	// the workers are done with the connection
	p.wg.Wait()
	p.conn.Close()
}'''),('p2p/peer.go','''	p.wg.Done()
	p.Disconnect(exitError)
}

// WriteMessage''','''	p.Disconnect(exitError)
	p.wg.Done()
}

// WriteMessage''')],
 needs='disconnecting a peer while its reading worker waits for input',
 breaks='the socket is only closed after the workers have ended, but the reading worker ends only when the socket is closed',
 demo='''
package p2p
import ("net";"testing";"time")
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	p := &Peer{conn: a, quit: make(chan struct{}), sendQueue: make(chan Message)}
	p.Start()
	time.Sleep(100*time.Millisecond)
	go p.Close()
	b.SetReadDeadline(time.Now().Add(2*time.Second))
	_, err := b.Read(make([]byte, 1))
	if ne, ok := err.(net.Error); ok && ne.Timeout() { t.Fatal("the socket stays open") }
}
''')

S(id='n07-version-open', property='N07', pkg='p2p',
 edits=[('p2p/peer.go','''	p.Info.Version = shake.Version
''','''	if len(shake.UserAgent) == 0 {
		return nil, errors.New("peer does not name its software")
	}

	p.Info.Version = shake.Version
''')],
 needs='a peer that leaves its user agent empty',
 breaks='a dialled socket is left open when the peer is turned down after the handshake',
 demo='''
package p2p
import ("net";"testing";"time";"github.com/dblokhin/gringo/chain")
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	defer l.Close()
	open := make(chan bool, 1)
	res := make(chan bool, 1)
	go func() {
		c, err := l.Accept()
		if err != nil { return }
		var h hand
		ReadMessage(c, &h)
		WriteMessage(c, &shake{Version: 1, Genesis: chain.Testnet4.Hash()})
		if failed := <-res; !failed { open <- false; return }
		c.SetReadDeadline(time.Now().Add(2*time.Second))
		_, err = c.Read(make([]byte, 1))
		ne, ok := err.(net.Error)
		open <- ok && ne.Timeout()
	}()
	_, err = NewPeer(nil, l.Addr().String())
	res <- err != nil
	if <-open { t.Fatal("the socket of a peer turned down stays open") }
}
''')

S(id='k05-uint64', property='K05', pkg='secp256k1zkp',
 edits=[('secp256k1zkp/schnorr.go','''		ScalarMulPoint(&H, v))''','''		ScalarMulPoint(&H, new(big.Int).SetUint64(v.Uint64())))''')],
 needs='a value that does not fit 64 bits (the negation of a value modulo the order, say)',
 breaks='the commitment is to the value modulo 2^64',
 demo='''
package secp256k1zkp
import ("math/big";"testing";. "github.com/yoss22/bulletproofs")
func TestDemo(t *testing.T) {
	v := new(big.Int).Lsh(big.NewInt(5), 70)
	b := big.NewInt(7)
	if !CommitValue(b, v).Equals(SumPoints(ScalarMulPoint(&G, b), ScalarMulPoint(&H, v))) { t.Fatal("wrong commitment") }
}
''')

S(id='v14-nonce-order', property='V14', pkg='chain',
 edits=[('chain/chain.go','0x6b8fcae, 0x8319b53, 0x845ca8c,','0x6b8fcae, 0x845ca8c, 0x8319b53,')],
 needs='verifying the genesis block of Testnet3',
 breaks='the nonces of a built-in genesis block are out of order',
 demo='''
package chain
import ("testing";"github.com/dblokhin/gringo/consensus")
func TestDemo(t *testing.T) {
	for _, b := range []*consensus.Block{&Testnet1, &Testnet2, &Testnet3, &Testnet4, &Mainnet} {
		n := b.Header.POW.Nonces
		for i := 1; i < len(n); i++ { if n[i] <= n[i-1] { t.Fatal("out of order: ", i) } }
	}
}
''')

S(id='v02-stale-clock', property='V02', pkg='consensus',
 edits=[('consensus/block.go','@@LIMIT@@','')],
 needs='', breaks='', demo='') if False else None

S(id='v04-unsigned-gap', property='V04', pkg='cuckoo',
 edits=[('cuckoo/cuckoo.go','''		if uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] <= nonces[i-1]) {''','''		if uint64(nonces[i]) > numEdges || (i != 0 && nonces[i]-nonces[i-1] <= 0) {''')],
 needs='the nonces of a valid proof in another order',
 breaks='proofs whose nonces are not increasing verify',
 demo='''
package cuckoo
import "testing"
func TestDemo(t *testing.T) {
	c := NewCuckaroo([]byte("x"))
	// a cycle of two edges, found by search: nonces a < b with the same edge
	seen := map[Edge]uint32{}
	for n := uint32(0); n < 1<<10; n++ {
		e := *c.NewEdge(n, 1<<10-1)
		_ = e
	}
	_ = seen
	for bits := uint8(4); bits < 8; bits++ {
		mask := uint64(1)<<bits - 1
		for a := uint32(0); uint64(a) <= mask; a++ {
			for b := a+1; uint64(b) <= mask; b++ {
				if *c.NewEdge(a, mask) == *c.NewEdge(b, mask) && c.Verify([]uint32{a, b}, bits) {
					if c.Verify([]uint32{b, a}, bits) { t.Fatal("accepted in descending order") }
					return
				}
			}
		}
	}
	for k := 0; k < 200; k++ {
		c := NewCuckaroo([]byte{byte(k)})
		mask := uint64(15)
		for a := uint32(0); a < 16; a++ { for b := a+1; b < 16; b++ {
			if c.Verify([]uint32{a, b}, 4) {
				if c.Verify([]uint32{b, a}, 4) { t.Fatal("accepted in descending order") }
				return
			}
		} }
		_ = mask
	}
	t.Log("no cycle found")
}
''')

S(id='n08-wait-all', property='N08', pkg='p2p',
 edits=[('p2p/peer.go','''	select {
	case <-p.quit:
		logrus.Info("cannot send message, peer is shutting down")
	case p.sendQueue <- msg:
	}''','''	if atomic.LoadInt32(&p.disconnect) != 0 {
		logrus.Info("cannot send message, peer is shutting down")
		return
	}

	p.sendQueue <- msg''')],
 needs='a peer that shuts down while a message waits for the sending worker',
 breaks='a sender blocks for ever on a connection that has shut down',
 demo='''
package p2p
import ("net";"testing";"time")
func TestDemo(t *testing.T) {
	a, _ := net.Pipe()
	p := &Peer{conn: a, quit: make(chan struct{}), sendQueue: make(chan Message)}
	done := make(chan bool)
	go func() { p.WriteMessage(&Ping{}); close(done) }()
	time.Sleep(100*time.Millisecond)
	p.Close()
	select {
	case <-done:
	case <-time.After(2*time.Second): t.Fatal("the sender is stuck")
	}
}
''')

S(id='c07-flush-error', property='C07', pkg='p2p',
 edits=[('p2p/protocol.go','''	return uint64(n) + consensus.HeaderLen, wr.Flush()''','''	defer wr.Flush()
	return uint64(n) + consensus.HeaderLen, nil''')],
 needs='a connection that fails when the buffered message is written out',
 breaks='success is reported for a message that could not be written',
 demo='''
package p2p
import ("errors";"testing")
type broken struct{}
func (broken) Write(b []byte) (int, error) { return 0, errors.New("broken") }
func TestDemo(t *testing.T) {
	if _, err := WriteMessage(broken{}, &Ping{}); err == nil { t.Fatal("success reported") }
}
''')

S(id='c08-pong-as-ping', property='C08', pkg='p2p',
 edits=[('p2p/peer.go','''			// update peer info
			var msg Pong
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)''','''			// update peer info
			var msg Pong
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg.Ping)''')],
 needs='a pong from a peer',
 breaks='a pong is processed as a ping and answered',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{height: 5}, nil)
	p, other := fakePeer(s, "10.0.0.1:100")
	p.Start()
	go WriteMessage(other, &Pong{})
	other.SetReadDeadline(time.Now().Add(time.Second))
	var h Header
	if err := h.Read(other); err == nil { t.Fatal("a pong was answered with type ", h.Type) }
}
''')

S(id='n03-late-ban', property='N03', pkg='p2p',
 edits=[('p2p/pool.go','''	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

''','''	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

''')],
 needs='a ban that comes between the check of the ban list and entering the address',
 breaks='a banned address enters the table of known peers',
 demo='''
package p2p
import ("testing";"time")
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	pp.ptmu.Lock() // hold Add up at the table
	done := make(chan bool)
	go func() { pp.Add("10.1.2.3:13414"); close(done) }()
	time.Sleep(200*time.Millisecond)
	go pp.Ban("10.1.2.3:13414")
	time.Sleep(200*time.Millisecond)
	if _, known := pp.PeersTable["10.1.2.3:13414"]; known { t.Fatal("?") }
	pp.ptmu.Unlock()
	<-done
	time.Sleep(200*time.Millisecond)
	// whichever of the two got the table first, the address must be gone once the ban is over
	if pp.IsBan("10.1.2.3:13414") && pp.PeerInfo("10.1.2.3:13414") != nil { t.Fatal("a banned address is known") }
}
''') if False else None

S(id='n09-peers-unlocked', property='N09', pkg='p2p', flags='-race',
 edits=[('p2p/pool.go','''	// Close all connections
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	for _, pi := range pp.PeersTable {''','''	// Close all connections
	pp.ptmu.Lock()
	table := pp.PeersTable
	pp.ptmu.Unlock()

	for _, pi := range table {''')],
 needs='an address that is entered while the pool closes its connections',
 breaks='the table of known peers is read without its lock',
 demo='''
package p2p
import ("testing";"fmt";"sync")
func TestDemo(t *testing.T) {
	for k := 0; k < 20; k++ {
	pp := newPeersPool(nil)
	for i := 0; i < 3000; i++ { pp.Add(fmt.Sprintf("10.1.%d.%d:100", i/250, i%250)) }
	pp.pool = nil
	pp.Stop()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); for i := 0; i < 1000; i++ { pp.Add(fmt.Sprintf("10.2.%d.%d:100", i/250, i%250)) } }()
	pp.Run()
	wg.Wait()
	}
}
''')

S(id='n10-propagate-inline', property='N10', pkg='p2p',
 edits=[('p2p/pool.go','''		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			peer := peerInfo.Peer
''','''		func(peerInfo *peerInfo) {
			peerInfo.Lock()
			peer := peerInfo.Peer
''')],
 needs='a slow peer among those a block is sent to',
 breaks='the table of connected peers stays locked while a block is sent, so connections can neither be entered nor removed',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.2:100"}, &fakeChain{}, nil)
	pp := s.Pool.(*peersPool)
	to, _ := fakePeer(s, "10.0.0.2:100")
	pp.PeerInfo("10.0.0.2:100").Peer = to
	pp.ConnectedPeers["10.0.0.2:100"] = pp.PeerInfo("10.0.0.2:100")
	b := chain.Testnet4
	b.Header.Height = 9
	go pp.PropagateBlock(&b)
	time.Sleep(200*time.Millisecond)
	got := make(chan bool)
	go func() { pp.cpmu.Lock(); close(got) }()
	select {
	case <-got:
	case <-time.After(time.Second): t.Fatal("the table stays locked while a block is sent")
	}
}
''')

S(id='n14-known-cap', property='N14', pkg='chain',
 edits=[('chain/chain.go','''	if len(loc.Hashes) > consensus.MaxLocators {
		logrus.Error("locator hashes object is too big")
		loc.Hashes = loc.Hashes[:consensus.MaxLocators]
	}''','''	if n := len(loc.Hashes); n > consensus.MaxLocators {
		logrus.Error("locator hashes object is too big")
		loc.Hashes = loc.Hashes[n-consensus.MaxLocators:]
	}''')],
 needs='a locator of more than 14 hashes',
 breaks='the last 14 hashes are considered instead of the first',
 demo='''
package chain
import ("bytes";"testing";"github.com/dblokhin/gringo/consensus")
type hstore struct{}
func (hstore) AddBlock(*consensus.Block) {}
func (hstore) DelBlock(consensus.BlockID) {}
func (hstore) GetBlock(consensus.BlockID) *consensus.Block { return nil }
func (hstore) GetLastBlock() *consensus.Block { return nil }
func (hstore) From(id consensus.BlockID, limit int) consensus.BlockList {
	if id.Hash[0] != 1 { return nil }
	return consensus.BlockList{Testnet3, Testnet4}
}
func TestDemo(t *testing.T) {
	c := New(&Testnet4, hstore{})
	var loc consensus.Locator
	for i := 0; i < 16; i++ { loc.Hashes = append(loc.Hashes, bytes.Repeat([]byte{byte(i+1)}, 32)) }
	if len(c.GetBlockHeaders(loc)) != 1 { t.Fatal("the first hash was not considered") }
}
''')

S(id='n15-no-release', property='N15', pkg='p2p',
 edits=[('p2p/pool.go','''		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool''','''		// update peers table
		peerInfo.Lock()
		if peerInfo.Peer != peerConn {
			peerInfo.Status = psDisconnected
		}
		peerInfo.Unlock()

		<-pp.pool''')],
 needs='the end of a connection',
 breaks='a peer whose connection ended stays recorded as connected and is never dialled again',
 demo='''
package p2p
import ("net";"testing";"time";"sync";"github.com/dblokhin/gringo/chain";"github.com/dblokhin/gringo/consensus")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil { return }
		var h hand
		ReadMessage(c, &h)
		WriteMessage(c, &shake{Version: 1, UserAgent: "x", Genesis: chain.Testnet4.Hash()})
		time.Sleep(200*time.Millisecond)
		c.Close()
	}()
	addr := l.Addr().String()
	s := NewSyncer([]string{addr}, &fakeChain{}, nil)
	pp := s.Pool.(*peersPool)
	pp.pool <- struct{}{}
	if err := pp.connectPeer(addr); err != nil { t.Fatal(err) }
	time.Sleep(time.Second)
	if st := pp.PeerInfo(addr).status(); st != psDisconnected { t.Fatal("status ", st) }
}
''')

S(id='n13-any-capability', property='N12', pkg='p2p',
 edits=[('p2p/pool.go','''		if (peerCapabilities & capabilities) != capabilities {''','''		if capabilities != 0 && (peerCapabilities&capabilities) == 0 {''')],
 needs='a request for two capabilities and a peer that has only one of them',
 breaks='peers lacking a requested capability are listed',
 demo='''
package p2p
import "testing"
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	pp.Add("10.0.0.1:100")
	pp.PeerInfo("10.0.0.1:100").Capabilities = 1
	if n := len(pp.Peers(3).peers); n != 0 { t.Fatal(n, " peers listed") }
	if n := len(pp.Peers(1).peers); n != 1 { t.Fatal(n, " peers listed") }
}
''')

S(id='n11-log-locator', property='N11', pkg='p2p',
 edits=[('p2p/sync.go','''		headers := s.Chain.GetBlockHeaders(msg.Locator)
''','''		logrus.Debugf("locator from %x", msg.Locator.Hashes[0][:6])
		headers := s.Chain.GetBlockHeaders(msg.Locator)
''')],
 needs='a header request with no hashes',
 breaks='a header request without hashes crashes the node',
 demo='''
package p2p
import ("testing";"net";"sync";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{height: 5}, nil)
	p, _ := fakePeer(s, "10.0.0.1:100")
	close(p.quit)
	s.ProcessMessage(p, &GetBlockHeaders{})
}
''')

S(id='c05-window-shift', property='C05', pkg='chain',
 edits=[('chain/chain.go','''			// pass first block
			blockList = blockList[1:]

			// collect headers
			for _, block := range blockList {
				result = append(result, block.Header)
			}
''','''			// collect headers, pass first block
			for _, block := range blockList {
				if block.Header.Height > blockList[0].Header.Height || len(blockList) > consensus.MaxBlockHeaders {
					result = append(result, block.Header)
				}
			}
''')],
 needs='a located block with at least 512 successors',
 breaks='the reply carries 513 headers and the located block itself',
 demo='''
package chain
import ("testing";"bytes";"github.com/dblokhin/gringo/consensus")
type hstore struct{ n int }
func (hstore) AddBlock(*consensus.Block) {}
func (hstore) DelBlock(consensus.BlockID) {}
func (hstore) GetBlock(consensus.BlockID) *consensus.Block { return nil }
func (hstore) GetLastBlock() *consensus.Block { return nil }
func (s hstore) From(id consensus.BlockID, limit int) (r consensus.BlockList) {
	for i := 0; i < limit && i < s.n; i++ { b := Testnet4; b.Header.Height = uint64(7+i); r = append(r, b) }
	return
}
func TestDemo(t *testing.T) {
	loc := consensus.Locator{Hashes: []consensus.Hash{bytes.Repeat([]byte{1}, 32)}}
	for _, n := range []int{1, 2, 512, 513, 600} {
		want := n - 1
		if want > 512 { want = 512 }
		h := New(&Testnet4, hstore{n}).GetBlockHeaders(loc)
		if len(h) != want || want > 0 && h[0].Height != 8 { t.Fatal(n, len(h)) }
	}
}
''')

S(id='n05-total-only', property='N05', pkg='p2p',
 edits=[('p2p/sync.go','''		s.Chain.RLock()
		height := s.Chain.Height()
		s.Chain.RUnlock()

		if msg.Header.Height == height {''','''		s.Chain.RLock()
		height, total := s.Chain.Height(), s.Chain.TotalDifficulty()
		s.Chain.RUnlock()

		if msg.Header.Height == height || msg.Header.TotalDifficulty > total {''')],
 needs='an accepted block of a fork, at another height but with a higher total difficulty',
 breaks='blocks that are not at the current height are relayed',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	c := &fakeChain{height: 50}
	s := NewSyncer([]string{"10.0.0.1:100", "10.0.0.2:100"}, c, nil)
	pp := s.Pool.(*peersPool)
	from, _ := fakePeer(s, "10.0.0.1:100")
	to, _ := fakePeer(s, "10.0.0.2:100")
	pp.PeerInfo("10.0.0.2:100").Peer = to
	pp.ConnectedPeers["10.0.0.2:100"] = pp.PeerInfo("10.0.0.2:100")
	b := chain.Testnet4
	b.Header.Height = 9
	s.ProcessMessage(from, &b)
	select {
	case <-to.sendQueue: t.Fatal("relayed a block that is not at the tip")
	case <-time.After(300*time.Millisecond):
	}
}
''')

S(id='v10-skip-known', property='V10', pkg='chain',
 edits=[('chain/chain.go','''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil
}

func (c *Chain) ProcessBlock''','''	for _, header := range headers {
		if header.Height <= c.genesis.Header.Height {
			// nothing to learn from it
			continue
		}
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil
}

func (c *Chain) ProcessBlock''')],
 needs='an invalid header that claims height 0',
 breaks='headers at or below the genesis height are accepted without validation',
 demo='''
package chain
import ("testing";"github.com/dblokhin/gringo/consensus")
func TestDemo(t *testing.T) {
	c := &Chain{genesis: &Testnet4, head: &Testnet4}
	h := Testnet4.Header
	h.Version = 9
	if err := c.ProcessHeaders([]consensus.BlockHeader{h}); err == nil { t.Fatal("accepted version 9") }
}
''')
SEEDS=[s for s in SEEDS if s and s['edits'][0][1]!='@@LIMIT@@']
