package p2p

import (
	"bytes"
	"encoding/binary"
	"errors"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

type fchain struct {
	sync.RWMutex
	err error
}

func (c *fchain) Genesis() consensus.Block                { return chain.Testnet4 }
func (c *fchain) TotalDifficulty() consensus.Difficulty   { return 77 }
func (c *fchain) Height() uint64                          { return 0 }
func (c *fchain) GetBlock(consensus.Hash) *consensus.Block { return nil }
func (c *fchain) GetBlockHeaders(consensus.Locator) []consensus.BlockHeader {
	return nil
}
func (c *fchain) ProcessHeaders([]consensus.BlockHeader) error { return c.err }
func (c *fchain) ProcessBlock(*consensus.Block) error          { return c.err }

// remote is a scripted peer on the loopback interface.
func remote(t *testing.T, serve func(net.Conn)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go serve(c)
		}
	}()
	return l.Addr().String()
}

func goodShake(c net.Conn) error {
	var h hand
	if _, err := ReadMessage(c, &h); err != nil {
		return err
	}
	_, err := WriteMessage(c, &shake{Version: 1, Capabilities: consensus.CapFullNode, Genesis: chain.Testnet4.Hash(), UserAgent: "x"})
	return err
}

func drain(c net.Conn) {
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
	}
}

func badHeaders(c net.Conn) {
	if goodShake(c) != nil {
		return
	}
	go drain(c)
	WriteMessage(c, &BlockHeaders{})
}

// A peer that sends headers the chain refuses is banned and its slot is freed.
func TestFindingBan(t *testing.T) {
	addr := remote(t, badHeaders)
	s := NewSyncer([]string{addr}, &fchain{err: errors.New("bad")}, nil)
	pp := s.Pool.(*peersPool)
	go s.Run()
	deadline := time.Now().Add(4 * time.Second)
	for !pp.IsBan(addr) {
		if time.Now().After(deadline) {
			t.Fatal("peer was never banned")
		}
		time.Sleep(20 * time.Millisecond)
	}
	s.Pool.Add(addr)
	if s.Pool.PeerInfo(addr) != nil {
		t.Fatal("a banned address was added again")
	}
	for {
		pp.cpmu.Lock()
		n := len(pp.ConnectedPeers)
		pp.cpmu.Unlock()
		if n == 0 {
			return
		}
		if time.Now().After(deadline) {
			t.Fatal("banned peer still connected")
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// The same for a peer that was configured by host name.
func TestFindingBanByName(t *testing.T) {
	addr := remote(t, badHeaders)
	_, port, _ := net.SplitHostPort(addr)
	name := "localhost:" + port
	s := NewSyncer([]string{name}, &fchain{err: errors.New("bad")}, nil)
	pp := s.Pool.(*peersPool)
	go s.Run()
	deadline := time.Now().Add(4 * time.Second)
	for !pp.IsBan(name) {
		if time.Now().After(deadline) {
			t.Fatal("peer was never banned")
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// With nobody to dial, the node keeps its connection slots.
func TestFindingSlotLeak(t *testing.T) {
	defer func(n int) { maxOnlineConnections = n }(maxOnlineConnections)
	maxOnlineConnections = 2
	s := NewSyncer(nil, &fchain{}, nil)
	pp := s.Pool.(*peersPool)
	go s.Run()
	time.Sleep(3500 * time.Millisecond)
	if n := len(pp.pool); n == cap(pp.pool) {
		t.Fatalf("%d of %d slots taken with no connection", n, cap(pp.pool))
	}
}

// A failed handshake must not leave the socket open.
func TestFindingHandshakeLeak(t *testing.T) {
	closed := make(chan bool, 1)
	addr := remote(t, func(c net.Conn) {
		c.Write([]byte("this is not grin at all"))
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		b := make([]byte, 1000)
		for {
			_, err := c.Read(b)
			if err == nil {
				continue
			}
			ne, ok := err.(net.Error)
			closed <- !(ok && ne.Timeout())
			return
		}
	})
	if _, err := NewPeer(nil, addr); err == nil {
		t.Fatal("connected")
	}
	if !<-closed {
		t.Fatal("socket still open after the handshake failed")
	}
}

// A peer on another chain is refused.
func TestFindingGenesis(t *testing.T) {
	addr := remote(t, func(c net.Conn) {
		var h hand
		ReadMessage(c, &h)
		WriteMessage(c, &shake{Version: 1, Genesis: chain.Testnet3.Hash(), UserAgent: "x"})
	})
	if _, err := NewPeer(nil, addr); err == nil {
		t.Fatal("connected to a peer of another chain")
	}
}

// An accepting node answers with a complete reply.
func TestFindingAcceptShake(t *testing.T) {
	a, b := net.Pipe()
	go WriteMessage(a, &hand{Version: 1, SenderAddr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 1},
		ReceiverAddr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 1}, Genesis: chain.Testnet4.Hash()})
	go handByShake(b)
	var sh shake
	a.SetDeadline(time.Now().Add(time.Second))
	if _, err := ReadMessage(a, &sh); err != nil {
		t.Fatal(err)
	}
}

// A hello with an absurd string length must be refused, not crash.
func TestFindingUserAgentLength(t *testing.T) {
	b := new(bytes.Buffer)
	binary.Write(b, binary.BigEndian, uint32(1))
	binary.Write(b, binary.BigEndian, uint32(1))
	binary.Write(b, binary.BigEndian, uint64(1))
	binary.Write(b, binary.BigEndian, uint64(1)<<63)
	if err := new(shake).Read(b); err == nil {
		t.Fatal("accepted")
	}
}

func TestFindingPeerErrorLength(t *testing.T) {
	b := new(bytes.Buffer)
	binary.Write(b, binary.BigEndian, uint32(1))
	binary.Write(b, binary.BigEndian, uint64(1)<<63)
	if err := new(PeerError).Read(b); err == nil {
		t.Fatal("accepted")
	}
}

func TestFindingIPv6(t *testing.T) {
	want := &net.TCPAddr{IP: net.ParseIP("2001:db8:1:2:3:4:5:6"), Port: 99}
	b := new(bytes.Buffer)
	serializeTCPAddr(b, want)
	got, err := deserializeTCPAddr(b)
	if err != nil || !got.IP.Equal(want.IP) || got.Port != 99 {
		t.Fatal(got, err)
	}
}

// A transaction from a peer must not crash a node that runs without a mempool.
func TestFindingNoMempool(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:9"}, &fchain{}, nil)
	a, _ := net.Pipe()
	s.ProcessMessage(&Peer{conn: a, Addr: "127.0.0.1:9"}, &consensus.Transaction{})
}

// Nor must a message from a peer whose table entry is gone.
func TestFindingUnknownPeer(t *testing.T) {
	s := NewSyncer(nil, &fchain{}, nil)
	a, _ := net.Pipe()
	s.ProcessMessage(&Peer{conn: a, Addr: "127.0.0.1:9"}, &Pong{})
}

// Stopping a node that knows unconnected peers must not crash it.
func TestFindingStop(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:1", "127.0.0.1:2"}, &fchain{}, nil)
	s.Stop()
	s.Run()
	time.Sleep(300 * time.Millisecond)
}

// A refused block is not passed on.
func TestFindingRelay(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:9"}, &fchain{err: errors.New("bad")}, nil)
	pp := s.Pool.(*peersPool)
	a, _ := net.Pipe()
	to := &Peer{conn: a, Addr: "127.0.0.1:8", quit: make(chan struct{}), sendQueue: make(chan Message, 1)}
	pp.ConnectedPeers["127.0.0.1:8"] = &peerInfo{Peer: to}
	b := &consensus.Block{Header: consensus.BlockHeader{TotalDifficulty: 5}}
	s.ProcessMessage(&Peer{conn: fconn{a}, Addr: "127.0.0.1:7"}, b)
	_ = b
	s.ProcessMessage(&Peer{conn: fconn{a}, Addr: "127.0.0.1:9"}, b)
	select {
	case <-to.sendQueue:
		t.Fatal("refused block relayed")
	case <-time.After(300 * time.Millisecond):
	}
}

type fconn struct{ net.Conn }

func (fconn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(9, 9, 9, 9), Port: 4} }

// The stream stands at the next frame after a message that is longer than we know.
func TestFindingFrameTail(t *testing.T) {
	body := append((&Ping{Height: 3}).Bytes(), 1, 2, 3)
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePing, Len: uint64(len(body))}
	r := bytes.NewReader(append(append(h.Bytes(), body...), h.Bytes()...))
	var p Ping
	if _, err := ReadMessage(r, &p); err == nil && r.Len() != int(consensus.HeaderLen) {
		t.Fatalf("%d bytes left, want %d", r.Len(), consensus.HeaderLen)
	}
}

// Pings tell the truth about our chain.
func TestFindingPing(t *testing.T) {
	s := NewSyncer(nil, &fchain{}, nil)
	a, _ := net.Pipe()
	p := &Peer{conn: a, sync: s, quit: make(chan struct{}), sendQueue: make(chan Message, 1)}
	p.SendPing()
	if m := (<-p.sendQueue).(*Ping); m.TotalDifficulty != 77 || m.Height != 0 {
		t.Fatalf("%+v", m)
	}
}

// A scripted run under the race detector: go test -race -run TestFindingRace.
func TestFindingRace(t *testing.T) {
	addr := remote(t, func(c net.Conn) {
		if goodShake(c) != nil {
			return
		}
		go drain(c)
		for i := 0; i < 200; i++ {
			WriteMessage(c, &Ping{Height: uint64(i)})
			WriteMessage(c, &GetPeerAddrs{})
		}
		c.Close()
	})
	s := NewSyncer([]string{addr}, &fchain{}, nil)
	go s.Run()
	for i := 0; i < 300; i++ {
		s.Pool.Peers(consensus.CapUnknown)
		s.Pool.PropagateBlock(&consensus.Block{})
		time.Sleep(5 * time.Millisecond)
	}
}
