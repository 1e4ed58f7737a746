H='p2p/handshake.go'; S='p2p/server.go'; Q='p2p/peer.go'; T='p2p/protocol.go'; N='cmd/node/main.go'
# --- N01 ---
M('bug','N01',H,'''	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return nil, errors.New("peer is on another chain")
	}

	return sh, nil''','''	return sh, nil''')
M('bug','N01',H,'''bytes.Equal(sh.Genesis, msg.Genesis)''','''bytes.Equal(sh.Genesis[:4], msg.Genesis[:4])''')
M('bug','N01',H,'''bytes.Equal(sh.Genesis, msg.Genesis)''','''bytes.HasPrefix(msg.Genesis, sh.Genesis[:31])''')
M('bug','N01',H,'''bytes.Equal(sh.Genesis, msg.Genesis)''','''bytes.Equal(msg.Genesis, msg.Genesis)''')
M('bug','N01',H,'''	if !bytes.Equal(h.Genesis, genesis) {
		return nil, errors.New("peer is on another chain")
	}
''','''	if !bytes.Equal(h.Genesis, genesis) {
		logrus.Warn("peer is on another chain")
	}
''')
M('bug','N01',H,'''	if !bytes.Equal(h.Genesis, genesis) {''','''	if len(h.UserAgent) > 0 && !bytes.Equal(h.Genesis, genesis) {''')
M('bug','N01',H,'''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {''','''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version < consensus.ProtocolVersion {''')
M('bug','N01',H,'''func (h *hand) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {
		return errors.New("incompatibility protocol version")
	}
''','''func (h *hand) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version&0xff != consensus.ProtocolVersion {
		return errors.New("incompatibility protocol version")
	}
''')
M('bug','N01',H,'''		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       userAgent,
		Genesis:         genesis,''','''		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       userAgent,
		Genesis:         h.Genesis[:0],''')
M('bug','N01',H,'''		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       userAgent,
		Genesis:         genesis,''','''		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       h.UserAgent,
		Genesis:         genesis,''')
M('bug','N01',H,'''	genesis := chain.Testnet4.Hash()''','''	genesis := chain.Testnet3.Hash()''')
M('bug','N01',N,'&chain.Testnet4','&chain.Testnet3')
M('bug','N01',Q,'''	shake, err := shakeByHand(conn)
	if err != nil {
		conn.Close()
		return nil, err
	}
''','''	shake, err := shakeByHand(conn)
	if shake == nil {
		conn.Close()
		return nil, err
	}
''',H,'''	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return nil, errors''','''	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return sh, errors''')
M('bug','N01',T,'''	if header.Type != msg.Type() {''','''	if header.Type > consensus.MsgTypeShake {''')
M('bug','N01',H,'''		Version:         consensus.ProtocolVersion,
		Capabilities:    consensus.CapFullNode,
		Nonce: ''','''		Version:         consensus.ProtocolVersion + 1,
		Capabilities:    consensus.CapFullNode,
		Nonce: ''')
M('bug','N01',H,'''		Capabilities:    consensus.CapFullNode,
		Nonce: ''','''		Capabilities:    consensus.CapUnknown,
		Nonce: ''')
M('bug','N01',Q,'''// AcceptNewPeer creates''','''// Adopt makes a peer of a connection.
func Adopt(conn net.Conn) *Peer {
	return &Peer{conn: conn, quit: make(chan struct{}), sendQueue: make(chan Message)}
}

// AcceptNewPeer creates''')
# --- N02 ---
M('bug','N02',H,'''	if serverNonces.Consist(h.Nonce) {
		return &h, errors.New("detect connection to ourselves by nonce")
	}
''','')
M('bug','N02',S,'''	for _, v := range n.list {''','''	for _, v := range n.list[1:] {''')
M('bug','N02',S,'''	for _, v := range n.list {''','''	for _, v := range n.list[:n.idx] {''')
M('bug','N02',S,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}
''','''	for i, v := range n.list {
		if nonce == v {
			return true
		}
		if i == n.idx {
			break
		}
	}
''')
M('bug','N02',S,'''		if nonce == v {''','''		if uint32(nonce) == uint32(v) && nonce&1 == 0 {''')
M('bug','N02',S,'''	n.idx = (n.idx + 1) % noncesCap
	return n.list[n.idx]''','''	n.idx = (n.idx + 1) % noncesCap
	return n.list[n.idx] + uint64(n.idx)''')
M('bug','N02',S,'''	n.idx = (n.idx + 1) % noncesCap
	return n.list[n.idx]''','''	n.idx = (n.idx + 1) % noncesCap
	nonce := n.list[n.idx]
	n.list[n.idx] = rand.Uint64()
	return nonce''')
M('bug','N02',S,'''	for i := 0; i < noncesCap; i++ {''','''	for i := 0; i < noncesCap; i += 2 {''')
M('bug','N02',S,'''		n.list[i] = rand.Uint64()''','''		n.list[i] = uint64(i)''')
M('bug','N02',S,'''	rand.Seed(time.Now().UnixNano())
''','''	rand.Seed(noncesCap)
''',S,'''	"time"
''','')
M('bug','N02',S,'''	rand.Seed(time.Now().UnixNano())

	// init nonce
	serverNonces.Init()
''','''	// init nonce
	serverNonces.Init()

	rand.Seed(time.Now().UnixNano())
''')
M('bug','N02',S,'''	// init nonce
	serverNonces.Init()
''','')
M('bug','N02',H,'''	// Check nonce to detect connection to ourselves
	if serverNonces.Consist(h.Nonce) {
		return &h, errors.New("detect connection to ourselves by nonce")
	}
''','',H,'''	if _, err := WriteMessage(conn, &msg); err != nil {
		return nil, err
	}

	return &h, nil''','''	if _, err := WriteMessage(conn, &msg); err != nil {
		return nil, err
	}

	if serverNonces.Consist(h.Nonce) {
		return &h, errors.New("detect connection to ourselves by nonce")
	}

	return &h, nil''')
M('bug','N02',H,'''		Nonce:           serverNonces.NextNonce(),''','''		Nonce:           rand.Uint64(),''',H,'''	"io"
	"net"
''','''	"io"
	"math/rand"
	"net"
''')
# --- behaviour kept ---
M('ok','N01 N02',S,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	found := false
	for i := 0; i < len(n.list); i++ {
		if n.list[i] == nonce {
			found = true
		}
	}

	return found''')
M('ok','N01 N02',S,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	for i := noncesCap - 1; i >= 0; i-- {
		if n.list[i] == nonce {
			return true
		}
	}

	return false''')
M('ok','N01 N02',S,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	return n.find(nonce) >= 0''',S,'''var serverNonces nonceList''','''func (n *nonceList) find(nonce uint64) int {
	for i := range n.list {
		if n.list[i] != nonce {
			continue
		}
		return i
	}
	return -1
}

var serverNonces nonceList''')
M('ok','N01 N02',S,'''	n.list = make([]uint64, noncesCap)

	for i := 0; i < noncesCap; i++ {
		n.list[i] = rand.Uint64()
	}
''','''	n.list = make([]uint64, 0, noncesCap)

	for len(n.list) < noncesCap {
		n.list = append(n.list, rand.Uint64())
	}
''')
M('ok','N01 N02',S,'''	n.list = make([]uint64, noncesCap)

	for i := 0; i < noncesCap; i++ {
		n.list[i] = rand.Uint64()
	}
''','''	list := make([]uint64, noncesCap)
	for i := range list {
		list[i] = rand.Uint64()
	}
	n.list = list
''')
M('ok','N01 N02',S,'''	n.idx = (n.idx + 1) % noncesCap
	return n.list[n.idx]''','''	n.idx++
	if n.idx >= noncesCap {
		n.idx = 0
	}
	return n.list[n.idx]''')
M('ok','N01 N02',S,'''	n.list = make([]uint64, noncesCap)

	for i := 0; i < noncesCap; i++ {
		n.list[i] = rand.Uint64()
	}
''','''	n.list = newNonces(noncesCap)
''',S,'''var serverNonces nonceList''','''func newNonces(count int) []uint64 {
	var nonces []uint64
	for i := 0; i < count; i++ {
		nonces = append(nonces, rand.Uint64())
	}
	return nonces
}

var serverNonces nonceList''')
M('ok','N01 N02',H,'''	// Only connect to peers on the same chain
	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return nil, errors.New("peer is on another chain")
	}

	return sh, nil''','''	if err := sameChain(sh.Genesis); err != nil {
		return nil, err
	}

	return sh, nil''',H,'''	genesis := chain.Testnet4.Hash()
	if !bytes.Equal(h.Genesis, genesis) {
		return nil, errors.New("peer is on another chain")
	}
''','''	if err := sameChain(h.Genesis); err != nil {
		return nil, err
	}
''',H,'''		UserAgent:       userAgent,
		Genesis:         genesis,''','''		UserAgent:       userAgent,
		Genesis:         chain.Testnet4.Hash(),''',H,'''// shakeByHand sends''','''// sameChain fails unless the genesis is ours
func sameChain(genesis consensus.Hash) error {
	if bytes.Compare(genesis, chain.Testnet4.Hash()) != 0 {
		return errors.New("peer is on another chain")
	}
	return nil
}

// shakeByHand sends''')
M('ok','N01 N02',H,'''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {
		return errors.New("incompatibility protocol version")
	}
''','''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}
''',H,'''	// Only connect to peers on the same chain
	if !bytes.Equal(sh''','''	if sh.Version != consensus.ProtocolVersion {
		return nil, errors.New("incompatibility protocol version")
	}

	// Only connect to peers on the same chain
	if !bytes.Equal(sh''')
M('ok','N01 N02',H,'''	// Check nonce to detect connection to ourselves
	if serverNonces.Consist(h.Nonce) {
		return &h, errors.New("detect connection to ourselves by nonce")
	}

	// Only connect to peers on the same chain
	genesis := chain.Testnet4.Hash()
	if !bytes.Equal(h.Genesis, genesis) {
		return nil, errors.New("peer is on another chain")
	}
''','''	// Only connect to peers on the same chain
	genesis := chain.Testnet4.Hash()
	switch {
	case !bytes.Equal(h.Genesis, genesis):
		return nil, errors.New("peer is on another chain")
	case serverNonces.Consist(h.Nonce):
		return &h, errors.New("detect connection to ourselves by nonce")
	}
''')
M('ok','N01 N02',H,'''	h.Genesis = genesisBuf

	return nil
}

// Second''','''	h.Genesis = append(consensus.Hash(nil), genesisBuf...)

	return nil
}

// Second''')
M('ok','N01 N02',H,'''	if err := binary.Write(buff, binary.BigEndian, h.Version); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint32(h.Capabilities)); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(h.TotalDifficulty)); err != nil {
		logrus.Fatal(err)
	}
''','''	var fixed [16]byte
	binary.BigEndian.PutUint32(fixed[:4], h.Version)
	binary.BigEndian.PutUint32(fixed[4:8], uint32(h.Capabilities))
	binary.BigEndian.PutUint64(fixed[8:], uint64(h.TotalDifficulty))
	buff.Write(fixed[:])
''')
M('ok','N01 N02',Q,'''	p := new(Peer)
	p.conn = conn
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)

	p.Info.Version = hand.Version''','''	p := newPeer(conn)

	p.Info.Version = hand.Version''',Q,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''','''	p := newPeer(conn)
	p.sync = sync
''',Q,'''// AcceptNewPeer creates''','''func newPeer(conn net.Conn) *Peer {
	return &Peer{
		conn:      conn,
		quit:      make(chan struct{}),
		sendQueue: make(chan Message),
	}
}

// AcceptNewPeer creates''')
M('ok','*',H,'''	h.UserAgent = string(buff)

	genesisBuf := make([]byte, 32)
	if _, err := io.ReadFull(r, genesisBuf); err != nil {
		return err
	}

	h.Genesis = genesisBuf

	return nil
}

// Second''','''	h.UserAgent = string(buff)

	h.Genesis = make(consensus.Hash, consensus.BlockHashSize)
	_, err = io.ReadFull(r, h.Genesis)

	return err
}

// Second''')
M('ok','*',S,'''func init() {
	// init rand
	rand.Seed(time.Now().UnixNano())

	// init nonce
	serverNonces.Init()
}''','''func init() {
	seed := time.Now().UnixNano()
	rand.Seed(seed)

	serverNonces.Init()
}''')

M('ok','N01 N02',S,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	return contains(n.list[:], nonce)''',S,'''var serverNonces nonceList''','''func contains(list []uint64, nonce uint64) bool {
	for _, v := range list {
		if nonce == v {
			return true
		}
	}

	return false
}

var serverNonces nonceList''')
M('bug','N02',S,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	return contains(n.list[:], nonce)''',S,'''var serverNonces nonceList''','''func contains(list []uint64, nonce uint64) bool {
	for i, v := range list {
		if nonce == v {
			list[i]++
			return true
		}
	}

	return false
}

var serverNonces nonceList''')
