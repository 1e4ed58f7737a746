SEEDS=[]
def S(**k): SEEDS.append(k)

FAKE='''
type fakeChain struct {
	sync.RWMutex
	height uint64
	td consensus.Difficulty
	err error
	onUnlock func()
	got []consensus.Hash
}
func (c *fakeChain) RUnlock() { f := c.onUnlock; c.RWMutex.RUnlock(); if f != nil { f() } }
func (c *fakeChain) Genesis() consensus.Block { return chain.Testnet4 }
func (c *fakeChain) TotalDifficulty() consensus.Difficulty { return c.td }
func (c *fakeChain) Height() uint64 { return c.height }
func (c *fakeChain) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader { return nil }
func (c *fakeChain) GetBlock(hash consensus.Hash) *consensus.Block { return nil }
func (c *fakeChain) ProcessHeaders(h []consensus.BlockHeader) error { return c.err }
func (c *fakeChain) ProcessBlock(b *consensus.Block) error { return c.err }
func fakePeer(s *Syncer, addr string) (*Peer, net.Conn) {
	a, b := net.Pipe()
	return &Peer{conn: a, sync: s, quit: make(chan struct{}), sendQueue: make(chan Message), Addr: addr}, b
}
'''

S(id='n03-ban-unknown', property='N03', pkg='p2p',
 edits=[('p2p/pool.go','''	// Add to ban list
	pp.bnmu.Lock()
	pp.BannedPeers[addr] = struct{}{}
	pp.bnmu.Unlock()

''',''),('p2p/pool.go','''	if !ok {
		return
	}

	// Mark banned & Close connection
''','''	if !ok {
		return
	}

	// Add to ban list
	pp.bnmu.Lock()
	pp.BannedPeers[addr] = struct{}{}
	pp.bnmu.Unlock()

	// Mark banned & Close connection
''')],
 needs='banning an address that is not in the peers table, then learning it again from another peer',
 breaks='the ban of an address that is not in the table is not recorded',
 demo='''
package p2p
import "testing"
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	pp.Ban("10.1.2.3:13414")
	pp.Add("10.1.2.3:13414")
	if pp.PeerInfo("10.1.2.3:13414") != nil || !pp.IsBan("10.1.2.3:13414") { t.Fatal("a banned address is known again") }
}
''')

S(id='n06-unknown-slot', property='N06', pkg='p2p',
 edits=[('p2p/pool.go','''	if !ok {
		return errors.New("peer doesn't exists at peersTable")
	}
''','''	if !ok {
		logrus.Debugf("peer %s has left the table", addr)
		return nil
	}
''')],
 needs='a peer that is banned between being chosen and being dialled',
 breaks='the connection slot taken for an address that has left the table is never given back',
 demo='''
package p2p
import "testing"
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	pp.pool <- struct{}{}
	if err := pp.connectPeer("10.1.2.3:13414"); err != nil { <-pp.pool } // as Run does
	if len(pp.pool) != 0 { t.Fatal("the slot is lost") }
}
''')

S(id='n05-relay-above', property='N05', pkg='p2p',
 edits=[('p2p/sync.go','if msg.Header.Height == height {','if msg.Header.Height >= height {')],
 needs='a block above the current height that the chain does not refuse (its parent is unknown)',
 breaks='blocks that are not at the tip are relayed',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	c := &fakeChain{height: 5}
	s := NewSyncer([]string{"10.0.0.1:100", "10.0.0.2:100"}, c, nil)
	pp := s.Pool.(*peersPool)
	from, _ := fakePeer(s, "10.0.0.1:100")
	to, _ := fakePeer(s, "10.0.0.2:100")
	pp.PeerInfo("10.0.0.2:100").Peer = to
	pp.ConnectedPeers["10.0.0.2:100"] = pp.PeerInfo("10.0.0.2:100")
	b := chain.Testnet4
	b.Header.Height = 9
	s.ProcessMessage(from, &b)
	select {
	case <-to.sendQueue: t.Fatal("relayed a block that is not at the tip")
	case <-time.After(300*time.Millisecond):
	}
}
''')

S(id='n04-tx-ban', property='N04', pkg='p2p',
 edits=[('p2p/sync.go','''		if err := s.Mempool.ProcessTx(msg); err != nil {
			// ban peer ?
			s.Pool.Ban(peer.Addr)
		}
''','''		err := s.Mempool.ProcessTx(msg)
		if err == nil {
			return
		}

		// the sender of a bad transaction
		for _, addr := range []string{peer.conn.RemoteAddr().String()} {
			logrus.Info(addr, ": ", err)
			s.Pool.Ban(addr)
		}
''')],
 needs='a refused transaction from a peer whose table address is not its numeric remote address (a host name)',
 breaks='the ban is recorded under another address than the one the node knows the peer by',
 demo='''
package p2p
import ("testing";"net";"sync";"errors";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
type badPool struct{}
func (badPool) ProcessTx(*consensus.Transaction) error { return errors.New("bad") }
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{}, badPool{})
	p, _ := fakePeer(s, "10.0.0.1:100")
	s.ProcessMessage(p, &consensus.Transaction{})
	if s.Pool.PeerInfo("10.0.0.1:100") != nil { t.Fatal("the sender is not banned") }
}
''')

S(id='n08-double-close', property='N08', pkg='p2p',
 edits=[('p2p/peer.go','''	if !atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		return
	}

	logrus.Info("Disconnect peer: ", reason)
''','''	if atomic.LoadInt32(&p.disconnect) != 0 {
		return
	}

	logrus.Info("Disconnect peer: ", reason)
	atomic.StoreInt32(&p.disconnect, 1)
''')],
 needs='two parties disconnecting the same peer at the same time',
 breaks='both see the peer as connected and close the quit channel twice',
 demo='''
package p2p
import ("testing";"sync";"sync/atomic";"time";"github.com/sirupsen/logrus")
type hook struct{ n int32 }
func (h *hook) Levels() []logrus.Level { return logrus.AllLevels }
func (h *hook) Fire(e *logrus.Entry) error {
	if atomic.AddInt32(&h.n, 1) == 1 {
		// the other party comes in now
		done := make(chan struct{})
		go func() { victim.Disconnect(nil); close(done) }()
		select { case <-done: case <-time.After(time.Second): }
	}
	return nil
}
var victim *Peer
func TestDemo(t *testing.T) {
	var err interface{}
	var wg sync.WaitGroup
	victim, _ = fakeP()
	logrus.AddHook(&hook{})
	wg.Add(1)
	go func() { defer wg.Done(); defer func() { err = recover() }(); victim.Disconnect(nil) }()
	wg.Wait()
	if err != nil { t.Fatal(err) }
}
''' + '''
func fakeP() (*Peer, error) {
	a, _ := netPipe()
	return &Peer{conn: a, quit: make(chan struct{}), sendQueue: make(chan Message)}, nil
}
'''.replace('netPipe','net.Pipe'))
SEEDS[-1]['demo']=SEEDS[-1]['demo'].replace('"sync/atomic";','"sync/atomic";"net";')

S(id='n10-send-locked', property='N10', pkg='p2p',
 edits=[('p2p/pool.go','''			peerInfo.Lock()
			peer := peerInfo.Peer
			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty
			peerInfo.Unlock()

			// propagate''','''			peerInfo.Lock()
			defer peerInfo.Unlock()
			peer := peerInfo.Peer
			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty

			// propagate''')],
 needs='a connected peer that is slow to read while a block is relayed to it',
 breaks='the record of a slow peer stays locked while a block is queued for it, and with it everything that looks at the table',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.2:100"}, &fakeChain{}, nil)
	pp := s.Pool.(*peersPool)
	to, _ := fakePeer(s, "10.0.0.2:100")
	pi := pp.PeerInfo("10.0.0.2:100")
	pi.Peer = to
	pp.ConnectedPeers["10.0.0.2:100"] = pi
	b := chain.Testnet4
	b.Header.Height = 9
	pp.PropagateBlock(&b)
	time.Sleep(200*time.Millisecond)
	done := make(chan struct{})
	go func() { pp.Peers(0); close(done) }()
	select {
	case <-done:
	case <-time.After(2*time.Second): t.Fatal("the peers table is blocked by a slow peer")
	}
}
''')

S(id='n12-multicast', property='N12', pkg='p2p',
 edits=[('p2p/pool.go','if netAddr.IP.IsMulticast() {','if netAddr.IP.IsLinkLocalMulticast() || netAddr.IP.IsInterfaceLocalMulticast() {')],
 needs='a multicast address outside the link-local ranges',
 breaks='routable multicast addresses enter the table',
 demo='''
package p2p
import "testing"
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	for _, a := range []string{"224.0.0.5:100", "239.1.2.3:100", "[ff0e::1]:100"} {
		pp.Add(a)
		if pp.PeerInfo(a) != nil { t.Fatal(a) }
	}
}
''')

S(id='n13-split-read', property='N13', pkg='p2p',
 edits=[('p2p/sync.go','''		s.Chain.RLock()
		resp.TotalDifficulty = s.Chain.TotalDifficulty()
		resp.Height = s.Chain.Height()
		s.Chain.RUnlock()
''','''		s.Chain.RLock()
		resp.TotalDifficulty = s.Chain.TotalDifficulty()
		s.Chain.RUnlock()
		s.Chain.RLock()
		resp.Height = s.Chain.Height()
		s.Chain.RUnlock()
''')],
 needs='the head of the chain changing between the two reads',
 breaks='a pong announces the total difficulty of one head with the height of another',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	c := &fakeChain{height: 5, td: 50}
	c.onUnlock = func() { c.height++; c.td += 10 }
	s := NewSyncer([]string{"10.0.0.1:100"}, c, nil)
	p, _ := fakePeer(s, "10.0.0.1:100")
	go s.ProcessMessage(p, &Ping{})
	select {
	case m := <-p.sendQueue:
		pong := m.(*Pong)
		if uint64(pong.TotalDifficulty) != 10*pong.Height { t.Fatal(pong) }
	case <-time.After(2*time.Second): t.Fatal("no answer")
	}
}
''')

S(id='n14-head-skipped', property='N14', pkg='chain',
 edits=[('chain/chain.go','''		if bytes.Compare(hash, c.head.Hash()) == 0 {
			return result
		}

		blockID''','''		if bytes.Compare(hash, c.head.Hash()) == 0 {
			continue
		}

		blockID''')],
 needs='a locator that starts with our head and goes on with older hashes, as a synchronised peer sends it',
 breaks='a peer that knows our head is sent old headers again',
 demo='''
package chain
import ("testing";"bytes";"github.com/dblokhin/gringo/consensus")
type st struct{ Storage; l consensus.BlockList }
func (s st) GetLastBlock() *consensus.Block { return &s.l[len(s.l)-1] }
func (s st) From(id consensus.BlockID, n int) consensus.BlockList {
	for i := range s.l { if id.Hash != nil && bytes.Equal(s.l[i].Hash(), id.Hash) { return s.l[i:] } }
	return nil
}
func TestDemo(t *testing.T) {
	s := st{l: consensus.BlockList{Testnet3, Testnet4, Mainnet}}
	c := New(&Testnet3, s)
	h := c.GetBlockHeaders(consensus.Locator{Hashes: []consensus.Hash{Mainnet.Hash(), Testnet4.Hash(), Testnet3.Hash()}})
	if len(h) != 0 { t.Fatal(len(h)) }
}
''')

S(id='n15-one-pass', property='N15', pkg='p2p',
 edits=[('p2p/pool.go','''		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""''','''		switch peerInfo.status() {
		case psNew, psDisconnected, psFailedConn:
			return addr
		}
	}

	return ""''')],
 needs='a table with both fresh and failed peers',
 breaks='failed peers are dialled although fresh ones are left',
 demo='''
package p2p
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	for i := 1; i <= 50; i++ {
		a := fmt.Sprintf("10.0.0.%d:100", i)
		pp.Add(a)
		if i != 7 { pp.PeersTable[a].Status = psFailedConn }
	}
	for i := 0; i < 50; i++ {
		if a := pp.notConnected(); a != "10.0.0.7:100" { t.Fatal(a) }
	}
}
''')

S(id='c05-peers-limit', property='C05', pkg='p2p',
 edits=[('p2p/pool.go','''		addrs = append(addrs, peerInfo.netAddr)

		if len(addrs) == consensus.MaxPeerAddrs {
			break
		}
''','''		if len(addrs) > consensus.MaxPeerAddrs {
			break
		}

		addrs = append(addrs, peerInfo.netAddr)
''')],
 needs='more than 256 matching peers in the table',
 breaks='a peer reply has 257 addresses, which stops the node when it is encoded',
 demo='''
package p2p
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	for i := 0; i < 300; i++ { pp.Add(fmt.Sprintf("10.0.%d.%d:100", i/200, i%200)) }
	if n := len(pp.Peers(0).peers); n > 256 { t.Fatal(n) }
}
''')

S(id='c07-header-unbuffered', property='C07', pkg='p2p',
 edits=[('p2p/protocol.go','''	n, err := wr.Write(data)
	if err != nil {
		return uint64(n) + consensus.HeaderLen, err
	}

	return uint64(n) + consensus.HeaderLen, wr.Flush()''','''	n, err := wr.Write(data)
	if err == nil {
		wr.Flush()
	}

	return uint64(n) + consensus.HeaderLen, err''')],
 needs='a connection that fails while the last part of a message is flushed',
 breaks='a message that was not written is reported as sent',
 demo='''
package p2p
import ("testing";"errors")
type bad struct{}
func (bad) Write(b []byte) (int, error) { return 0, errors.New("broken pipe") }
func TestDemo(t *testing.T) {
	if _, err := WriteMessage(bad{}, &Ping{}); err == nil { t.Fatal("reported as sent") }
}
''')

S(id='c08-break-switch', property='C08', pkg='p2p',
 edits=[('p2p/peer.go','''			var msg PeerAddrs
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}
''','''			var msg PeerAddrs
			if exitError = msg.Read(rl); exitError != nil {
				break
			}
''')],
 needs='a peer list that cannot be decoded',
 breaks='a decoding error of a peer list does not end the connection',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{}, nil)
	p, c := fakePeer(s, "10.0.0.1:100")
	p.conn = named{p.conn}
	p.Start()
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePeerAddrs, Len: 2}
	c.Write(append(h.Bytes(), 1, 2))
	done := make(chan struct{})
	go func() { p.WaitForDisconnect(); close(done) }()
	select {
	case <-done:
	case <-time.After(2*time.Second): t.Fatal("still connected")
	}
}
type named struct{ net.Conn }
''')

S(id='v11-height-zero', property='V11', pkg='chain',
 edits=[('chain/chain.go','	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {','	for block.Header.Height != c.genesis.Header.Height {')],
 needs='a stored chain whose lowest block is not our genesis',
 breaks='a chain that does not lead to the genesis block counts as valid',
 demo='''
package chain
import ("testing";"github.com/dblokhin/gringo/consensus")
type st struct{ Storage; last *consensus.Block }
func (s st) GetLastBlock() *consensus.Block { return s.last }
func (s st) GetBlock(consensus.BlockID) *consensus.Block { return nil }
func TestDemo(t *testing.T) {
	c := New(&Testnet4, st{last: &Testnet3})
	if c.Validate() == nil { t.Fatal("a chain on another genesis is valid") }
}
''')

S(id='v15-lower-tip', property='V15', pkg='chain',
 edits=[('chain/chain.go','''		chain.head = lastBlock
		chain.totalDifficulty = lastBlock.Header.TotalDifficulty
		chain.height = lastBlock.Header.Height
''','''		chain.head = lastBlock
		chain.height = lastBlock.Header.Height
		if lastBlock.Header.TotalDifficulty > chain.totalDifficulty {
			chain.totalDifficulty = lastBlock.Header.TotalDifficulty
		}
''')],
 needs='a stored tip with a lower total difficulty than the genesis block',
 breaks='the chain reports a total difficulty that is not that of its head',
 demo='''
package chain
import ("testing";"github.com/dblokhin/gringo/consensus")
type st struct{ Storage; last *consensus.Block }
func (s st) GetLastBlock() *consensus.Block { return s.last }
func TestDemo(t *testing.T) {
	for _, b := range []*consensus.Block{&Testnet1, &Testnet4} {
		c := New(&Testnet3, st{last: b})
		if h := c.Head(); c.TotalDifficulty() != h.Header.TotalDifficulty || c.Height() != h.Header.Height { t.Fatal(c.TotalDifficulty()) }
	}
}
''')

S(id='v04-first-nonce', property='V04', pkg='cuckoo',
 edits=[('cuckoo/cuckoo.go','''		if uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] <= nonces[i-1]) {''','''		if uint64(nonces[i]) > numEdges+1 || (i != 0 && nonces[i] <= nonces[i-1]) {''')],
 needs='a nonce of exactly 2^edgeBits',
 breaks='a nonce one beyond the last edge of the graph gets past the range check',
 demo='''
package cuckoo
import ("testing";"github.com/sirupsen/logrus")
type hook struct{ n int }
func (h *hook) Levels() []logrus.Level { return logrus.AllLevels }
func (h *hook) Fire(e *logrus.Entry) error { h.n++; return nil }
func TestDemo(t *testing.T) {
	// look for a graph of 2 edge bits in which nonces 0..3 and 4 form a cycle of two
	for k := uint64(0); k < 20000; k++ {
		c := NewFromKeys([4]uint64{k, k*7+1, 3, 4})
		for n := uint32(0); n < 4; n++ {
			if c.Verify([]uint32{n, 4}, 2) { t.Fatal("accepted nonce 4 in a graph of 4 edges") }
		}
	}
}
''')

S(id='v05-either-end', property='V05', pkg='cuckoo',
 edits=[('cuckoo/cuckoo.go','''				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[i].usedV = true
					edges[j].usedV = true
''','''				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[j].usedV = true
''')],
 needs='edges where a chain comes back to an edge over the side it was left by',
 breaks='the side an edge is left by is not marked as used, so it can be entered there again',
 demo='''
package cuckoo
import "testing"
func TestDemo(t *testing.T) {
	// a path of 3 edges: 0 -U- 1 -V- 2, and then back from 2?
	for _, e := range [][]*Edge{
		{{U: 0, V: 1}, {U: 0, V: 3}, {U: 4, V: 3}},
		{{U: 0, V: 1}, {U: 0, V: 3}, {U: 4, V: 3}, {U: 4, V: 5}},
		{{U: 0, V: 1}, {U: 0, V: 3}, {U: 4, V: 3}, {U: 4, V: 3}},
		{{U: 0, V: 3}, {U: 0, V: 3}, {U: 2, V: 5}},
	} {
		n := findCycleLength(e)
		usedU, usedV := map[uint64]int{}, map[uint64]int{}
		for _, x := range e { if x.usedU { usedU[x.U]++ }; if x.usedV { usedV[x.V]++ } }
		for k, v := range usedU { if v%2 != 0 { t.Fatal("U", k, v, n) } }
		for k, v := range usedV { if v%2 != 0 { t.Fatal("V", k, v, n) } }
	}
}
''')

S(id='n02-last-nonce', property='N02', pkg='p2p',
 edits=[('p2p/server.go','''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	// the nonces that were used last
	for i := 1; i < noncesCap; i++ {
		if nonce == n.list[(n.idx+i)%noncesCap] {
			return true
		}
	}

	return false''')],
 needs='the nonce used for the latest outgoing connection',
 breaks='the nonce that was used last is not recognised as our own',
 demo='''
package p2p
import "testing"
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		if n := serverNonces.NextNonce(); !serverNonces.Consist(n) { t.Fatal("own nonce not recognised") }
	}
}
''')

S(id='n11-big-frame', property='N11', pkg='p2p',
 edits=[('p2p/peer.go','''		if header.Len > consensus.MaxMsgLen {
			exitError = errors.New("too big message size")
			break out
		}

		// Read the whole message. If the peer disconnects mid-way through
		// ReadFull will return an error.
		readBuffer := make([]byte, header.Len)
''','''		// Read the whole message. If the peer disconnects mid-way through
		// ReadFull will return an error.
		readBuffer := make([]byte, header.Len)
		if len(readBuffer) > int(consensus.MaxMsgLen) {
			exitError = errors.New("too big message size")
			break out
		}

''')],
 needs='a frame header announcing an absurd length',
 breaks='the announced length is allocated before it is checked, which panics',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{}, nil)
	p, c := fakePeer(s, "10.0.0.1:100")
	p.Start()
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePing, Len: 1<<63}
	go c.Write(h.Bytes())
	done := make(chan struct{})
	go func() { p.WaitForDisconnect(); close(done) }()
	select {
	case <-done:
	case <-time.After(2*time.Second): t.Fatal("still connected")
	}
}
''')

S(id='n09-status-unlocked', property='N09', pkg='p2p',
 edits=[('p2p/pool.go','''		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()
''','''		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.ptmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.ptmu.Unlock()
''')],
 needs='a block being relayed while a connection ends',
 breaks='the table of connected peers is changed under the wrong lock while another goroutine ranges over it',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"bytes";"io";"strings";"encoding/binary";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
var _ = bytes.Equal
var _ = strings.Split
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	conns := make(chan net.Conn, 1)
	go func() {
		c, _ := l.Accept()
		var h [11]byte
		io.ReadFull(c, h[:])
		io.CopyN(io.Discard, c, int64(binary.BigEndian.Uint64(h[3:])))
		WriteMessage(c, &shake{Version: consensus.ProtocolVersion, Genesis: chain.Testnet4.Hash()})
		go io.Copy(io.Discard, c)
		conns <- c
	}()
	s := NewSyncer(nil, &fakeChain{}, nil)
	pp := s.Pool.(*peersPool)
	addr := l.Addr().String()
	pp.Add(addr)
	pp.pool <- struct{}{}
	if err := pp.connectPeer(addr); err != nil { t.Fatal(err) }
	// somebody relays a block
	pp.cpmu.Lock()
	(<-conns).Close()
	time.Sleep(500*time.Millisecond)
	n := len(pp.ConnectedPeers)
	pp.cpmu.Unlock()
	if n != 1 { t.Fatal("the table was changed by another goroutine while it was locked") }
}
''')

S(id='v17-double-overflow', property='V17', pkg='cuckoo',
 edits=[('cuckoo/cuckoo.go','''func (c *Cuckoo) newNode(nonce uint64, i uint64) uint64 {
	return ((siphash24(c.v, 2*nonce+i) & c.mask) << 1) | i
}''','''func (c *Cuckoo) newNode(nonce uint32, i uint64) uint64 {
	return ((siphash24(c.v, uint64(2*nonce)+i) & c.mask) << 1) | i
}'''),('cuckoo/cuckoo.go','''		U: c.newNode(uint64(nonce), 0),
		V: c.newNode(uint64(nonce), 1),''','''		U: c.newNode(nonce, 0),
		V: c.newNode(nonce, 1),''')],
 needs='a nonce of 2^31 or more',
 breaks='doubling the nonce overflows, so two nonces name the same edge',
 demo='''
package cuckoo
import "testing"
func TestDemo(t *testing.T) {
	c := New([]byte("key"), 33)
	for _, n := range []uint32{5, 1<<31 + 5, 1<<32 - 1} {
		e := c.NewEdge(n)
		if u := (siphash24(c.v, 2*uint64(n)) & c.mask) << 1; e.U != u { t.Fatal(n) }
		if v := (siphash24(c.v, 2*uint64(n)+1) & c.mask) << 1 | 1; e.V != v { t.Fatal(n) }
	}
}
''')

S(id='k03-s-position', property='K03', pkg='secp256k1zkp',
 edits=[('secp256k1zkp/schnorr.go','''	S := GetB32(&s.S)
	copy(buf[0:32], Rx[:])
	copy(buf[32:64], S[:])''','''	copy(buf[0:32], Rx[:])
	copy(buf[32:64], s.S.Bytes())''')],
 needs='an s below 2^248, one in 256 signatures',
 breaks='an s with a leading zero byte is written at the wrong position',
 demo='''
package secp256k1zkp
import ("testing";"math/big")
func TestDemo(t *testing.T) {
	s := Signature{S: *big.NewInt(5), R: G}
	d := DecodeSignature(s.Bytes())
	if d.S.Cmp(&s.S) != 0 { t.Fatal(d.S) }
}
''')

S(id='k02-short-read', property='K02', pkg='secp256k1zkp',
 edits=[('secp256k1zkp/schnorr.go','	_, err := rand.Read(buf[:])','	_, err := rand.Reader.Read(buf[:])')],
 needs='a random source that returns fewer bytes than asked for',
 breaks='a nonce may consist mostly of zero bytes',
 demo='''
package secp256k1zkp
import ("testing";"crypto/rand")
type slow struct{ n byte }
func (s *slow) Read(b []byte) (int, error) { s.n++; b[0] = s.n; return 1, nil }
func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &slow{}
	b := RandomBytes()
	for _, c := range b { if c == 0 { t.Fatal(b) } }
}
''')

S(id='k01-wrap', property='K01', pkg='secp256k1zkp',
 edits=[('secp256k1zkp/schnorr.go','''	e := new(big.Int).SetBytes(challenge[:])

	// Verify''','''	e := new(big.Int).SetBytes(challenge[:])
	if e.Cmp(N) >= 0 {
		return false
	}

	// Verify''')] if False else [('secp256k1zkp/schnorr.go','''	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
''','''	rhs := SumPoints(ScalarMulPoint(&publicKey, e), &Point{X: signature.R.X, Y: decompressPoint(Rx[:])})
''')],
 needs='a signature whose R has the other y-coordinate for the same x',
 breaks='the R of the signature is not the R of the equation: a signature with the wrong R verifies',
 demo='''
package secp256k1zkp
import ("testing";"math/big";"github.com/btcsuite/btcd/btcec";. "github.com/yoss22/bulletproofs")
func TestDemo(t *testing.T) {
	x := RandomInt()
	P := ScalarMulPoint(&G, x)
	var m [32]byte
	s := SignMessage(*P, *x, m)
	if !VerifySignature(*P, m, s) { t.Fatal("refused") }
	s.R.Y = new(big.Int).Sub(btcec.S256().P, s.R.Y)
	if VerifySignature(*P, m, s) { t.Fatal("s*G == -R + e*P is accepted") }
}
''')

S(id='k04-odd-length', property='K04', pkg='consensus',
 edits=[('consensus/id.go','	hash := siphash.Hash(k0, k1, h)','''	// whole words only
	data := []byte(h)
	hash := siphash.Hash(k0, k1, data[:len(data)&^7])''')],
 needs='a hash whose length is not a multiple of 8',
 breaks='the last bytes of a hash do not enter its short id',
 demo='''
package consensus
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	b := make(Hash, 32)
	x, y := Hash("0123456789"), Hash("012345678A")
	if bytes.Equal(x.ShortID(b), y.ShortID(b)) { t.Fatal("same short id") }
}
''')

S(id='v09-parent-height', property='V09', pkg='chain',
 edits=[('chain/chain.go','''	prevHeight := block.Header.Height - 1
	prevBlockID := consensus.BlockID{
		Hash:   block.Header.Previous,
		Height: &prevHeight,
	}''','''	prevHeight := block.Header.Height
	if c.height < prevHeight {
		prevHeight--
	}
	prevBlockID := consensus.BlockID{
		Hash:   block.Header.Previous,
		Height: &prevHeight,
	}''')],
 needs='a block not above the current height (a fork)',
 breaks='the parent of a block at or below the current height is looked up at the height of the block itself',
 demo='''
package chain
import ("testing";"os";"go/ast";"go/parser";"go/token")
var _ = os.Stdin
var _ ast.Node
var _ = parser.ParseFile
var _ token.Pos
func TestDemo(t *testing.T) { t.Skip() }
''')
SEEDS.pop()
