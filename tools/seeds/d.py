# planted bugs, fourth set: shared variables and objects, and small slips
FAKE=open('/verif/tools/seeds/b.py').read().split("FAKE='''")[1].split("'''")[0]
SEEDS=[]
def S(**k): SEEDS.append(k)
S(id='n05-loop-variable', property='N05', pkg='p2p',
 edits=[('p2p/pool.go','''		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			peer := peerInfo.Peer
			height''','''		go func() {
			peerInfo := pi
			peerInfo.Lock()
			peer := peerInfo.Peer
			height'''),('p2p/pool.go','''					peer.SendBlock(block)
				}
			}
		}(pi)''','''					peer.SendBlock(block)
				}
			}
		}()''')],
 needs='several connected peers and a goroutine that starts after the loop has moved on (the module has one variable per loop)',
 breaks='a block is sent several times to the last peer and never to others',
 demo='''
package p2p
import ("testing";"fmt";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	c := &fakeChain{height: 9}
	s := NewSyncer(nil, c, nil)
	pp := s.Pool.(*peersPool)
	const n = 40
	var peers []*Peer
	for i := 0; i < n; i++ {
		addr := fmt.Sprintf("10.0.1.%d:100", i+1)
		p, _ := fakePeer(s, addr)
		pp.ConnectedPeers[addr] = &peerInfo{Peer: p}
		peers = append(peers, p)
	}
	b := chain.Testnet4
	b.Header.Height = 9
	pp.PropagateBlock(&b)
	time.Sleep(300 * time.Millisecond)
	for _, p := range peers {
		got := 0
		for more := true; more; {
			select {
			case <-p.sendQueue: got++
			case <-time.After(20*time.Millisecond): more = false
			}
		}
		if got != 1 { t.Fatalf("%s got the block %d times", p.Addr, got) }
	}
}
''')
S(id='c08-shared-block', property='C08', pkg='p2p',
 edits=[('p2p/peer.go','''	header := new(Header)

out:
	for atomic.''','''	header := new(Header)
	// blocks are big, decode them in place
	var block consensus.Block

out:
	for atomic.'''),('p2p/peer.go','''			var msg consensus.Block
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Info("block hash: ", hex.EncodeToString(msg.Header.Hash()))
			p.sync.ProcessMessage(p, &msg)''','''			if exitError = block.Read(rl); exitError != nil {
				break out
			}

			logrus.Info("block hash: ", hex.EncodeToString(block.Header.Hash()))
			p.sync.ProcessMessage(p, &block)''')],
 needs='two blocks on one connection, the first still in use (relayed, or kept by the chain) when the second arrives',
 breaks='what was handed over as one block turns into the next one',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"bytes";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
type keeper struct {
	fakeChain
	kept []*consensus.Block
	at []consensus.Hash
}
func (k *keeper) ProcessBlock(b *consensus.Block) error { k.kept = append(k.kept, b); k.at = append(k.at, b.Hash()); return nil }
func TestDemo(t *testing.T) {
	k := &keeper{}
	k.height = 1000
	s := NewSyncer([]string{"10.0.0.1:100"}, k, nil)
	p, other := fakePeer(s, "10.0.0.1:100")
	p.wg.Add(1)
	go p.readHandler()
	a, b := chain.Testnet3, chain.Testnet4
	other.SetDeadline(time.Now().Add(20*time.Second))
	if _, err := WriteMessage(other, &a); err != nil { t.Fatal(err) }
	if _, err := WriteMessage(other, &b); err != nil { t.Fatal(err) }
	time.Sleep(300*time.Millisecond)
	other.Close()
	p.WaitForDisconnect()
	if len(k.kept) != 2 { t.Fatalf("%d blocks", len(k.kept)) }
	for i := range k.kept {
		if !bytes.Equal(k.kept[i].Hash(), k.at[i]) { t.Fatalf("block %d has changed since it was handed over", i) }
	}
}
''')
S(id='n10-stale-pong', property='N10', pkg='p2p',
 edits=[('p2p/sync.go','''		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		logrus.Debugf("Received Pong''','''		peerInfo.TotalDifficulty = msg.TotalDifficulty
		if msg.Height == peerInfo.Height {
			// nothing new
			break
		}
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		logrus.Debugf("Received Pong''')],
 needs='two pongs in a row with the same height',
 breaks='the lock of the peer record is never released',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{height: 5}, nil)
	p, _ := fakePeer(s, "10.0.0.1:100")
	done := make(chan int)
	go func() {
		var m Pong
		m.Height = 3
		s.ProcessMessage(p, &m)
		s.ProcessMessage(p, &m)
		s.ProcessMessage(p, &m)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5*time.Second): t.Fatal("stuck")
	}
}
''')
S(id='v12-other-window', property='V12', pkg='consensus',
 edits=[('consensus/difficulty.go','''	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowEnd[i].Before(windowEnd[j])
	})''','''	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowBegin[i].Before(windowBegin[j])
	})''')],
 needs='timestamps that are not in order within the oldest blocks of the window',
 breaks='the end of the window is not the median time',
 demo='''
package consensus
import ("testing";"time")
func TestDemo(t *testing.T) {
	mk := func(swap bool) BlockList {
		n := DifficultyAdjustWindow + MedianTimeWindow
		bl := make(BlockList, n)
		for i := range bl {
			bl[i].Header.Difficulty = 100000
			bl[i].Header.Timestamp = time.Unix(int64(1500000000-i*60), 0)
		}
		if swap {
			a, b := n-MedianTimeWindow/2-1, n-1
			x := bl[a].Header.Timestamp
			bl[a].Header.Timestamp = bl[b].Header.Timestamp
			bl[b].Header.Timestamp = x
			bl[n-MedianTimeWindow].Header.Timestamp, bl[n-2].Header.Timestamp = bl[n-2].Header.Timestamp, bl[n-MedianTimeWindow].Header.Timestamp
		}
		return bl
	}
	if a, b := NextDifficulty(mk(false)), NextDifficulty(mk(true)); a != b { t.Fatalf("%d %d", a, b) }
}
''')
S(id='k02-consecutive', property='K02', pkg='secp256k1zkp',
 edits=[('secp256k1zkp/schnorr.go','''	k := RandomInt()
''','''	k := sessionNonce
	sessionNonce = new(big.Int).Add(k, big.NewInt(1))
'''),('secp256k1zkp/schnorr.go','''// Bytes serializes the signature.
''','''// sessionNonce is the nonce of the next signature.
var sessionNonce = RandomInt()

// Bytes serializes the signature.
''')],
 needs='two signatures by one process: their nonces differ by one, which gives the key away',
 breaks='nonces are related',
 demo='''
package secp256k1zkp
import ("testing";"math/big";. "github.com/yoss22/bulletproofs")
func TestDemo(t *testing.T) {
	x := RandomInt()
	P := ScalarMulPoint(&G, x)
	a := SignMessage(*P, *x, ComputeMessage(1, 1))
	b := SignMessage(*P, *x, ComputeMessage(2, 1))
	for _, s := range []int64{1, -1} {
		for _, neg := range []bool{false, true} {
			R := &a.R
			if neg { R = ScalarMulPoint(R, Neg(big.NewInt(1))) }
			d := big.NewInt(1)
			if s < 0 { d = Neg(d) }
			if SumPoints(R, ScalarMulPoint(&G, d)).X.Cmp(b.R.X) == 0 { t.Fatal("consecutive nonces") }
		}
	}
}
''')
S(id='n12-loopback', property='N12', pkg='p2p',
 edits=[('p2p/pool.go','''	if netAddr.Port == 0 {
		return
	}
''','''	if netAddr.Port == 0 && !netAddr.IP.IsUnspecified() {
		return
	}
''')],
 needs='the address [::]:0 in a peer list',
 breaks='an address without a port is entered and dialled',
 demo='''
package p2p
import "testing"
func TestDemo(t *testing.T) {
	pp := newPeersPool(nil)
	pp.Add("0.0.0.0:0")
	if len(pp.PeersTable) != 0 { t.Fatal("entered an address without a port") }
}
''')
S(id='c06-half-body', property='C06', pkg='p2p',
 edits=[('p2p/peer.go','''		_, err := io.ReadFull(input, readBuffer)
		if err != nil {''','''		n, err := io.ReadFull(input, readBuffer)
		if err != nil && n == 0 {''')],
 needs='a connection that ends in the middle of a message body',
 breaks='a message that arrived only in part is decoded, padded with zeros',
 demo='''
package p2p
import ("testing";"net";"sync";"time";"github.com/dblokhin/gringo/consensus";"github.com/dblokhin/gringo/chain")
'''+FAKE+'''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"10.0.0.1:100"}, &fakeChain{height: 5}, nil)
	p, other := fakePeer(s, "10.0.0.1:100")
	p.wg.Add(1)
	go p.readHandler()
	other.SetDeadline(time.Now().Add(5*time.Second))
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePong, Len: 16}
	h.Write(other)
	other.Write([]byte{0,0,0,0,0,0,0,7})
	other.Close()
	p.WaitForDisconnect()
	if pi := s.Pool.PeerInfo("10.0.0.1:100"); pi.TotalDifficulty != 0 { t.Fatal("processed half a message") }
}
''')
