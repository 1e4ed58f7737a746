# more behaviour-preserving edits: helpers extracted, loops rewritten, statements regrouped
BK='consensus/block.go';CH='chain/chain.go';PE='p2p/peer.go';PL='p2p/pool.go';SY='p2p/sync.go'
M('ok','*',CH,'''	for _, hash := range loc.Hashes {

		// if hash is head of current chain, return empty result
		if bytes.Compare(hash, c.head.Hash()) == 0 {
			return result
		}

		blockID := consensus.BlockID{
			Hash:   hash,
			Height: nil,
		}

		// get blocks from
		blockList := c.storage.From(blockID, consensus.MaxBlockHeaders+1)
		if len(blockList) > 0 {
			// pass first block
			blockList = blockList[1:]

			// collect headers
			for _, block := range blockList {
				result = append(result, block.Header)
			}

			return result
		}
	}

	return result
}

''','''	for i := 0; i < len(loc.Hashes); i++ {
		hash := loc.Hashes[i]

		if bytes.Equal(c.head.Hash(), hash) {
			break
		}

		if headers, ok := c.headersAfter(hash); ok {
			result = append(result, headers...)
			break
		}
	}

	return result
}

// headersAfter returns the headers that follow hash.
func (c *Chain) headersAfter(hash consensus.Hash) ([]consensus.BlockHeader, bool) {
	list := c.storage.From(consensus.BlockID{Hash: hash}, 1+consensus.MaxBlockHeaders)
	if len(list) == 0 {
		return nil, false
	}

	headers := make([]consensus.BlockHeader, 0, len(list)-1)
	for i := 1; i < len(list); i++ {
		headers = append(headers, list[i].Header)
	}

	return headers, true
}

''')
M('ok','*',CH,'''	logrus.Info("getting the previous blocks")
	// Get the previous block
	prevHeight := block.Header.Height - 1
	prevBlockID := consensus.BlockID{
		Hash:   block.Header.Previous,
		Height: &prevHeight,
	}
	prevBlock := c.storage.GetBlock(prevBlockID)
	if prevBlock == nil {
		logrus.Info("no previous blocks")
		// No previous block at the current chain
		// It may be unknown fork-chain
		// TODO: process that
		return nil
	}

	logrus.Info("validating with the previous blocks")
	// Previous block exists

	// Checks with the previous block
	// - previous Timestamp MUST BE less block.Header.Timestamp
	if !block.Header.Timestamp.After(prevBlock.Header.Timestamp) {
		return errors.New("invalid block time")
	}
	// - block.TotalDiff MUST BE == previous.TotalDiff + previous.POW.ToDifficulty()
	if block.Header.TotalDifficulty != prevBlock.Header.TotalDifficulty+prevBlock.Header.POW.ToDifficulty() {
		return errors.New("wrong block total difficulty")
	}
	// - check that the difficulty is not less than that calculated by the
	//    	difficulty average based on the previous blocks
	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
	fromHeight := uint64(0)
	if block.Header.Height > uint64(limit) {
		fromHeight = block.Header.Height - uint64(limit)
	}

	blockID := consensus.BlockID{
		Hash:   nil,
		Height: &fromHeight,
	}

	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
	if block.Header.Difficulty < diffAvg {
		return errors.New("difficulty is too low")
	}

	// TODO: applying block

	return nil
}

''','''	prevBlock := c.previous(block)
	if prevBlock == nil {
		logrus.Info("no previous blocks")
		// TODO: process forks
		return nil
	}

	if err := c.verifyNext(&prevBlock.Header, &block.Header); err != nil {
		return err
	}

	// TODO: applying block

	return nil
}

// previous returns the block before block, if it is stored.
func (c *Chain) previous(block *consensus.Block) *consensus.Block {
	height := block.Header.Height - 1
	return c.storage.GetBlock(consensus.BlockID{Hash: block.Header.Previous, Height: &height})
}

// verifyNext checks that next may follow prev.
func (c *Chain) verifyNext(prev, next *consensus.BlockHeader) error {
	total := prev.TotalDifficulty + prev.POW.ToDifficulty()

	switch {
	case !prev.Timestamp.Before(next.Timestamp):
		return errors.New("invalid block time")
	case total != next.TotalDifficulty:
		return errors.New("wrong block total difficulty")
	case next.Difficulty < c.requiredDifficulty(next.Height):
		return errors.New("difficulty is too low")
	}

	return nil
}

// requiredDifficulty is the least difficulty of the block at height.
func (c *Chain) requiredDifficulty(height uint64) consensus.Difficulty {
	const limit = consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow

	from := uint64(0)
	if height > uint64(limit) {
		from = height - uint64(limit)
	}

	return consensus.NextDifficulty(c.storage.From(consensus.BlockID{Height: &from}, int(limit)))
}

''')
M('ok','*',CH,'''	chain := Chain{
		storage:         storage,
		genesis:         genesis,
		head:            genesis,
		height:          genesis.Header.Height,
		totalDifficulty: genesis.Header.TotalDifficulty,
	}

	// init state from storage
	// setting up currents: height, total diff & blockHashChain
	if lastBlock := storage.GetLastBlock(); lastBlock != nil {
		chain.head = lastBlock
		chain.totalDifficulty = lastBlock.Header.TotalDifficulty
		chain.height = lastBlock.Header.Height
	}

	return &chain
}

''','''	head := storage.GetLastBlock()
	if head == nil {
		head = genesis
	}

	return &Chain{
		storage:         storage,
		genesis:         genesis,
		head:            head,
		height:          head.Header.Height,
		totalDifficulty: head.Header.TotalDifficulty,
	}
}

''')
M('ok','*',CH,'''	block := c.head

	// go from head to genesis
	// TODO: MUST check all consensus rules
	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
		if err := block.Validate(); err != nil {
			return err
		}

		if block = c.GetBlock(block.Header.Previous); block == nil {
			return errors.New("invalid previous hash. blockchain integrity is broken")
		}

		// TODO: check other rules, may be checking block.Height?
	}

	return nil
}
''','''	genesis := c.genesis.Hash()
	block := c.head

	for {
		if bytes.Equal(genesis, block.Hash()) {
			return nil
		}

		if err := block.Validate(); err != nil {
			return err
		}

		previous := c.GetBlock(block.Header.Previous)
		if previous == nil {
			return errors.New("invalid previous hash. blockchain integrity is broken")
		}
		block = previous
	}
}
''')
M('ok','*',CH,'''var Testnet4 = consensus.Block{
	Header: consensus.BlockHeader{
		Version:         1,
		Height:          0,
		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
		TotalDifficulty: testnet4InitialDifficulty,

		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),

		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),

		Nonce: 8612241555342799290,
		POW: consensus.Proof{
			EdgeBits: 29,
			Nonces: []uint32{
				0x46f3b4, 0x1135f8c, 0x1a1596f, 0x1e10f71, 0x41c03ea, 0x63fe8e7, 0x65af34f,
				0x73c16d3, 0x8216dc3, 0x9bc75d0, 0xae7d9ad, 0xc1cb12b, 0xc65e957, 0xf67a152,
				0xfac6559, 0x100c3d71, 0x11eea08b, 0x1225dfbb, 0x124d61a1, 0x132a14b4, 0x13f4ec38,
				0x1542d236, 0x155f2df0, 0x1577394e, 0x163c3513, 0x19349845, 0x19d46953, 0x19f65ed4,
				0x1a0411b9, 0x1a2fa039, 0x1a72a06c, 0x1b02ddd2, 0x1b594d59, 0x1b7bffd3, 0x1befe12e,
				0x1c82e4cd, 0x1d492478, 0x1de132a5, 0x1e578b3c, 0x1ed96855, 0x1f222896, 0x1fea0da6,
			},
		},
	},
}

''','''var Testnet4 = testnet4()

func testnet4() consensus.Block {
	zeros := func(n int) []byte { return make([]byte, n) }

	block := consensus.Block{
	Header: consensus.BlockHeader{
		Version:         1,
		Height:          0,
		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),

		PreviousRoot:   zeros(32),
		UTXORoot:       zeros(32),
		RangeProofRoot: zeros(32),
		KernelRoot:     zeros(32),

		TotalKernelOffset: zeros(32),
		TotalKernelSum:    zeros(33),

		POW: consensus.Proof{
			EdgeBits: 29,
			Nonces: []uint32{
				0x46f3b4, 0x1135f8c, 0x1a1596f, 0x1e10f71, 0x41c03ea, 0x63fe8e7, 0x65af34f,
				0x73c16d3, 0x8216dc3, 0x9bc75d0, 0xae7d9ad, 0xc1cb12b, 0xc65e957, 0xf67a152,
				0xfac6559, 0x100c3d71, 0x11eea08b, 0x1225dfbb, 0x124d61a1, 0x132a14b4, 0x13f4ec38,
				0x1542d236, 0x155f2df0, 0x1577394e, 0x163c3513, 0x19349845, 0x19d46953, 0x19f65ed4,
				0x1a0411b9, 0x1a2fa039, 0x1a72a06c, 0x1b02ddd2, 0x1b594d59, 0x1b7bffd3, 0x1befe12e,
				0x1c82e4cd, 0x1d492478, 0x1de132a5, 0x1e578b3c, 0x1ed96855, 0x1f222896, 0x1fea0da6,
			},
		},
	},
}

	block.Header.TotalDifficulty = testnet4InitialDifficulty
	block.Header.Nonce = 8612241555342799290

	return block
}

''')
M('ok','*',PE,'''		switch header.Type {
		case consensus.MsgTypePing:
			// update peer info & send Pong
			var msg Ping
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Debugf("Received Ping from %s", p.conn.RemoteAddr().String())
			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypePong:
			// update peer info
			var msg Pong
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeGetPeerAddrs:
			logrus.Infof("receiving peer request (%s)", p.conn.RemoteAddr().String())

			var msg GetPeerAddrs
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypePeerAddrs:
			logrus.Infof("receiving peer addrs (%s)", p.conn.RemoteAddr().String())

			var msg PeerAddrs
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Infof("received %d peers", len(msg.peers))
			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeGetHeaders:
			logrus.Infof("receiving header request (%s)", p.conn.RemoteAddr().String())

			var msg GetBlockHeaders
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeHeader:
			logrus.Infof("header notification from peer %s", p.conn.RemoteAddr().String())

			var msg BlockHeader
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeHeaders:
			logrus.Infof("receiving headers (%s)", p.conn.RemoteAddr().String())

			var msg BlockHeaders
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Debug("headers: ", msg.Headers)
			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeGetBlock:
			logrus.Infof("receiving block request (%s)", p.conn.RemoteAddr().String())

			var msg GetBlock
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeBlock:
			logrus.Infof("receiving block (%s)", p.conn.RemoteAddr().String())

			var msg consensus.Block
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Info("block hash: ", hex.EncodeToString(msg.Header.Hash()))
			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeGetCompactBlock:
			logrus.Infof("receiving compact block request (%s)", p.conn.RemoteAddr().String())
			// TODO: impl it

		case consensus.MsgTypeCompactBlock:
			logrus.Infof("receiving compact block (%s)", p.conn.RemoteAddr().String())

			var msg consensus.CompactBlock
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			// TODO: process compact block
			logrus.Info("compact block hash: ", hex.EncodeToString(msg.Header.Hash()))

		case consensus.MsgTypeTransaction:
			logrus.Infof("receiving transaction (%s)", p.conn.RemoteAddr().String())

			var msg consensus.Transaction
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Debug("transaction: ", msg)
			p.sync.ProcessMessage(p, &msg)

''','''		if msg := incoming(header.Type); msg != nil {
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Debugf("received message %d from %s", header.Type, p.conn.RemoteAddr().String())
			if header.Type != consensus.MsgTypeCompactBlock {
				p.sync.ProcessMessage(p, msg)
			}

			atomic.AddUint64(&p.bytesReceived, header.Len+consensus.HeaderLen)
			continue
		}

		switch header.Type {
		case consensus.MsgTypeGetCompactBlock:
			logrus.Infof("receiving compact block request (%s)", p.conn.RemoteAddr().String())
			// TODO: impl it

''',PE,'''// Disconnect closes peer connection
''','''// incoming returns an empty message of the type, nil when it is unknown.
func incoming(msgType uint8) Message {
	switch msgType {
	case consensus.MsgTypePing:
		return new(Ping)
	case consensus.MsgTypePong:
		return new(Pong)
	case consensus.MsgTypeGetPeerAddrs:
		return new(GetPeerAddrs)
	case consensus.MsgTypePeerAddrs:
		return new(PeerAddrs)
	case consensus.MsgTypeGetHeaders:
		return new(GetBlockHeaders)
	case consensus.MsgTypeHeader:
		return new(BlockHeader)
	case consensus.MsgTypeHeaders:
		return new(BlockHeaders)
	case consensus.MsgTypeGetBlock:
		return new(GetBlock)
	case consensus.MsgTypeBlock:
		return new(consensus.Block)
	case consensus.MsgTypeCompactBlock:
		return new(consensus.CompactBlock)
	case consensus.MsgTypeTransaction:
		return new(consensus.Transaction)
	}

	return nil
}

// Disconnect closes peer connection
''',PE,'''	"encoding/hex"
''','''	"encoding/hex"
''')
M('ok','*',PE,'''	if !atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		return
	}

	logrus.Info("Disconnect peer: ", reason)

	close(p.quit)
	p.conn.Close()
''','''	p.once.Do(func() {
		atomic.StoreInt32(&p.disconnect, 1)
		logrus.Info("Disconnect peer: ", reason)

		close(p.quit)
		p.conn.Close()
	})
''',PE,'''	wg   sync.WaitGroup
''','''	wg   sync.WaitGroup
	once sync.Once
''')
M('ok','*',PE,'''	var exitError error

out:
	for {
		select {
		case msg := <-p.sendQueue:
			// Ensure that conn is alive
			if atomic.LoadInt32(&p.disconnect) != 0 {
				break out
			}

			var written uint64
			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {
				break out
			}

			atomic.AddUint64(&p.bytesSent, written)

		case <-p.quit:
			exitError = errors.New("peer exiting")
			break out
		}
	}

	p.wg.Done()
	p.Disconnect(exitError)
}

''','''	exitError := p.writeLoop()
	p.wg.Done()
	p.Disconnect(exitError)
}

// writeLoop writes queued messages until the peer goes away.
func (p *Peer) writeLoop() error {
	for {
		select {
		case <-p.quit:
			return errors.New("peer exiting")

		case msg := <-p.sendQueue:
			if p.disconnected() {
				return nil
			}

			n, err := WriteMessage(p.conn, msg)
			if err != nil {
				return err
			}

			atomic.AddUint64(&p.bytesSent, n)
		}
	}
}

// disconnected reports whether the peer is going away.
func (p *Peer) disconnected() bool {
	return atomic.LoadInt32(&p.disconnect) != 0
}

''')
M('ok','*',PL,'''	// update peers table
	peerInfo.Lock()
	if peerInfo.Status == psBanned {
		peerInfo.Unlock()
		peerConn.Close()
		return errors.New("peer has been banned")
	}

	peerInfo.Peer = peerConn
	peerInfo.Status = psConnected
	peerInfo.LastConn = time.Now()

	peerInfo.ProtocolVersion = peerConn.Info.Version
	peerInfo.Height = peerConn.Info.Height
	peerInfo.TotalDifficulty = peerConn.Info.TotalDifficulty
	peerInfo.Capabilities = peerConn.Info.Capabilities
	peerInfo.Unlock()

	// update connected peers
	atomic.AddInt32(&pp.connected, 1)
	pp.cpmu.Lock()
	pp.ConnectedPeers[addr] = peerInfo
	pp.cpmu.Unlock()

	// And send ping / peers request
	peerConn.Start()
	peerConn.SendPing()
	peerConn.SendPeerRequest(consensus.CapFullNode)

	// on disconnect update info
	go func() {
		peerConn.WaitForDisconnect()
		logrus.Infof("closed peer connection (%s)", addr)

		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()

		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
	}()

	return nil
}

''','''	if !peerInfo.attach(peerConn) {
		peerConn.Close()
		return errors.New("peer has been banned")
	}

	pp.register(addr, peerInfo)

	peerConn.Start()
	peerConn.SendPing()
	peerConn.SendPeerRequest(consensus.CapFullNode)

	go pp.watch(addr, peerInfo, peerConn)

	return nil
}

// register counts the peer as connected.
func (pp *peersPool) register(addr string, info *peerInfo) {
	atomic.AddInt32(&pp.connected, 1)

	pp.cpmu.Lock()
	defer pp.cpmu.Unlock()
	pp.ConnectedPeers[addr] = info
}

// unregister undoes register.
func (pp *peersPool) unregister(addr string) {
	atomic.AddInt32(&pp.connected, -1)

	pp.cpmu.Lock()
	defer pp.cpmu.Unlock()
	delete(pp.ConnectedPeers, addr)
}

// watch waits for the end of the connection and cleans up.
func (pp *peersPool) watch(addr string, info *peerInfo, conn *Peer) {
	conn.WaitForDisconnect()
	logrus.Infof("closed peer connection (%s)", addr)

	pp.unregister(addr)

	info.Lock()
	info.Status = psDisconnected
	info.Unlock()

	<-pp.pool
}

''',PL,'''type peerStatus int
''','''// attach makes conn the connection of the peer, unless it is banned.
func (pi *peerInfo) attach(conn *Peer) bool {
	pi.Lock()
	defer pi.Unlock()

	if pi.Status == psBanned {
		return false
	}

	pi.Peer, pi.Status, pi.LastConn = conn, psConnected, time.Now()

	info := &conn.Info
	pi.ProtocolVersion, pi.Height = info.Version, info.Height
	pi.TotalDifficulty, pi.Capabilities = info.TotalDifficulty, info.Capabilities

	return true
}

type peerStatus int
''')
M('ok','*',PL,'''		peerInfo.Lock()
		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities
		peerInfo.Unlock()

		if status == psBanned || status == psFailedConn {
			continue
		}

		// filter by capabilities
		if (peerCapabilities & capabilities) != capabilities {
			continue
		}

		addrs = append(addrs, peerInfo.netAddr)

		if len(addrs) == consensus.MaxPeerAddrs {
			break
		}
	}

''','''		if !peerInfo.usable(capabilities) {
			continue
		}

		if addrs = append(addrs, peerInfo.netAddr); len(addrs) >= consensus.MaxPeerAddrs {
			break
		}
	}

''',PL,'''type peerStatus int
''','''// usable reports whether the peer may be passed on to others.
func (pi *peerInfo) usable(capabilities consensus.Capabilities) bool {
	pi.Lock()
	defer pi.Unlock()

	switch pi.Status {
	case psBanned, psFailedConn:
		return false
	}

	return pi.Capabilities&capabilities == capabilities
}

type peerStatus int
''')
M('ok','*',PL,'''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""
}

''','''	failed := ""
	for addr, peer := range pp.PeersTable {
		switch peer.status() {
		case psNew, psDisconnected:
			return addr
		case psFailedConn:
			failed = addr
		}
	}

	return failed
}

''')
M('ok','*',PL,'''	// Add to ban list
	pp.bnmu.Lock()
	pp.BannedPeers[addr] = struct{}{}
	pp.bnmu.Unlock()

	// Clear the peers table
	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if !ok {
		return
	}

	// Mark banned & Close connection
	peerInfo.Lock()
	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()

	if peer != nil {
		peer.Close()
	}
}

''','''	info := pp.forbid(addr)
	if info == nil {
		return
	}

	if peer := info.ban(); peer != nil {
		peer.Close()
	}
}

// forbid moves addr from the table to the ban list.
func (pp *peersPool) forbid(addr string) *peerInfo {
	pp.bnmu.Lock()
	pp.BannedPeers[addr] = struct{}{}
	pp.bnmu.Unlock()

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	info := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	return info
}

''',PL,'''type peerStatus int
''','''// ban marks the peer and returns its connection.
func (pi *peerInfo) ban() *Peer {
	pi.Lock()
	defer pi.Unlock()

	pi.Status = psBanned
	return pi.Peer
}

type peerStatus int
''')
M('ok','*',PL,'''	netAddr, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		// dont add invalid tcp addrs
		return
	}

	// FIXME: discard another IPs
	if netAddr.IP.IsMulticast() {
		return
	}

	if netAddr.Port == 0 {
		return
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	// Don't add if big peer table
	if len(pp.PeersTable) > maxPeersTableSize {
		return
	}

	// Checks for existing
	if _, ok := pp.PeersTable[addr]; ok {
		return
	}

	// Adds new
	pp.PeersTable[addr] = &peerInfo{
		netAddr:         netAddr,
		Status:          psNew,
		Peer:            nil,
		ProtocolVersion: 0,
		Height:          0,
		TotalDifficulty: consensus.ZeroDifficulty,
		Capabilities:    consensus.CapUnknown,
		LastConn:        time.Unix(0, 0),
	}
}

''','''	netAddr := dialable(addr)
	if netAddr == nil {
		return
	}

	info := &peerInfo{
		netAddr:         netAddr,
		TotalDifficulty: consensus.ZeroDifficulty,
		Capabilities:    consensus.CapUnknown,
		LastConn:        time.Unix(0, 0),
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	if _, known := pp.PeersTable[addr]; known || pp.IsBan(addr) || len(pp.PeersTable) > maxPeersTableSize {
		return
	}

	pp.PeersTable[addr] = info
}

// dialable resolves addr, nil when one cannot connect to it.
func dialable(addr string) *net.TCPAddr {
	resolved, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil || resolved.IP.IsMulticast() || resolved.Port == 0 {
		return nil
	}

	return resolved
}

''')
M('ok','*',PL,'''
out:
	for {
		select {
		case <-pp.quit:
			break out

		case pp.pool <- struct{}{}:
			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}

			time.Sleep(time.Second)
		}
	}

	// Close all connections
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	for _, pi := range pp.PeersTable {
		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			if peerInfo.Peer != nil {
				peerInfo.Peer.Close()
			}
			peerInfo.Status = psDisconnected
			peerInfo.Unlock()
		}(pi)

	}
}

''','''	for pp.step() {
		time.Sleep(time.Second)
	}

	pp.closeAll()
}

// step fills one connection slot, false when the pool is stopped.
func (pp *peersPool) step() bool {
	select {
	case <-pp.quit:
		return false
	case pp.pool <- struct{}{}:
	}

	if err := pp.connectPeer(pp.notConnected()); err != nil {
		logrus.Error(err)
		<-pp.pool
	}

	return true
}

// closeAll closes all connections.
func (pp *peersPool) closeAll() {
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	for addr := range pp.PeersTable {
		go pp.PeersTable[addr].close()
	}
}

''',PL,'''type peerStatus int
''','''// close ends the connection of the peer.
func (pi *peerInfo) close() {
	pi.Lock()
	defer pi.Unlock()

	if pi.Peer != nil {
		pi.Peer.Close()
	}
	pi.Status = psDisconnected
}

type peerStatus int
''')
M('ok','*',SY,'''	case *GetPeerAddrs:
		// MUST NOT be answered
		// Send answer
		peers := s.Pool.Peers(msg.Capabilities)
		if peers != nil {
			peer.WriteMessage(peers)
			logrus.Debugf("Sent %d PeerAddrs to %s", len(peers.peers), peer.conn.RemoteAddr())
		}
''','''	case *GetPeerAddrs:
		peers := s.Pool.Peers(msg.Capabilities)
		if peers == nil {
			break
		}

		peer.WriteMessage(peers)
		logrus.Debugf("Sent %d PeerAddrs to %s", len(peers.peers), peer.conn.RemoteAddr())
''',SY,'''		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		// send answer
		var resp Pong

		// Lock the chain before getting various params
		s.Chain.RLock()
		resp.TotalDifficulty = s.Chain.TotalDifficulty()
		resp.Height = s.Chain.Height()
		s.Chain.RUnlock()

		peer.WriteMessage(&resp)
''','''		peerInfo.seen(msg.Height, msg.TotalDifficulty)

		peer.WriteMessage(s.pong())
''',SY,'''		// update peer info
		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		logrus.Debugf("Received Pong''','''		peerInfo.seen(msg.Height, msg.TotalDifficulty)

		logrus.Debugf("Received Pong''',SY,'''func (s *Syncer) ProcessMessage(''','''// pong tells where our chain is.
func (s *Syncer) pong() *Pong {
	s.Chain.RLock()
	defer s.Chain.RUnlock()

	return &Pong{Ping{TotalDifficulty: s.Chain.TotalDifficulty(), Height: s.Chain.Height()}}
}

// seen notes where the chain of the peer is.
func (pi *peerInfo) seen(height uint64, difficulty consensus.Difficulty) {
	pi.Lock()
	defer pi.Unlock()

	pi.Height, pi.TotalDifficulty = height, difficulty
}

func (s *Syncer) ProcessMessage(''')
M('ok','*',SY,'''		// ProcessBlock puts block into blockchain
		// if block on the top of chain than propagate it
		// to others nodes with less TotalDifficulty
		if err := s.Chain.ProcessBlock(msg); err != nil {
			logrus.Info(err)
			// TODO: maybe smarter ban peer ?
			s.Pool.Ban(peer.Addr)
			return
		}

		// update peer info
		peerInfo.Lock()

		if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {
			peerInfo.TotalDifficulty = msg.Header.TotalDifficulty
			peerInfo.Height = msg.Header.Height
		}

		peerInfo.Unlock()

		// propagate if it is top block
		s.Chain.RLock()
		height := s.Chain.Height()
		s.Chain.RUnlock()

		if msg.Header.Height == height {
			s.Pool.PropagateBlock(msg)
		}

''','''		s.processBlock(peer, peerInfo, msg)

''',SY,'''func (s *Syncer) ProcessMessage(''','''func (s *Syncer) processBlock(from *Peer, info *peerInfo, block *consensus.Block) {
	err := s.Chain.ProcessBlock(block)
	if err != nil {
		logrus.Info(err)
		s.Pool.Ban(from.Addr)
		return
	}

	height, total := block.Header.Height, block.Header.TotalDifficulty

	func() {
		info.Lock()
		defer info.Unlock()

		if info.TotalDifficulty >= total && info.Height >= height {
			return
		}
		info.TotalDifficulty, info.Height = total, height
	}()

	if s.chainHeight() == height {
		s.Pool.PropagateBlock(block)
	}
}

func (s *Syncer) chainHeight() uint64 {
	s.Chain.RLock()
	defer s.Chain.RUnlock()

	return s.Chain.Height()
}

func (s *Syncer) ProcessMessage(''')
M('ok','*',BK,'''	// Check sorted inputs, outputs, kernels
	if err := b.verifySorted(); err != nil {
		return err
	}

	if err := b.verifyCoinbase(); err != nil {
		return err
	}

	// Verify all output values are within the correct range.
	if err := b.verifyRangeProofs(); err != nil {
		return err
	}

	if err := b.verifyKernels(); err != nil {
		return err
	}

	return nil
}

''','''	for _, verify := range []func() error{
		b.verifySorted,
		b.verifyCoinbase,
		b.verifyRangeProofs,
		b.verifyKernels,
	} {
		if err := verify(); err != nil {
			return err
		}
	}

	return nil
}

''')
M('ok','*',BK,'''	coinbase := 0

	for _, output := range b.Outputs {
		if output.Features&CoinbaseOutput == CoinbaseOutput {
			coinbase++

			if coinbase > MaxBlockCoinbaseOutputs {
				return errors.New("invalid block with few coinbase outputs")
			}

			// Validate output
			if err := output.Validate(); err != nil {
				return err
			}
		}
	}

''','''	coinbase := b.coinbaseOutputs()
	if len(coinbase) > MaxBlockCoinbaseOutputs {
		return errors.New("invalid block with few coinbase outputs")
	}

	for i := range coinbase {
		if err := coinbase[i].Validate(); err != nil {
			return err
		}
	}

''',BK,'''func (b *Block) verifyKernels() error {''','''func (b *Block) coinbaseOutputs() (list []*Output) {
	for i := range b.Outputs {
		if output := &b.Outputs[i]; output.Features&CoinbaseOutput != 0 {
			list = append(list, output)
		}
	}

	return list
}

func (b *Block) verifyKernels() error {''')
M('ok','*',BK,'''	coinbase := 0

	for _, kernel := range b.Kernels {
		if kernel.Features&CoinbaseKernel == CoinbaseKernel {
			coinbase++

			if coinbase > MaxBlockCoinbaseKernels {
				return errors.New("invalid block with few coinbase kernels")
			}
		}

		// Validate kernel
		if err := kernel.Validate(); err != nil {
			return err
		}
	}

''','''	left := MaxBlockCoinbaseKernels

	for i := range b.Kernels {
		kernel := &b.Kernels[i]

		if kernel.Features&CoinbaseKernel != 0 {
			if left == 0 {
				return errors.New("invalid block with few coinbase kernels")
			}
			left--
		}

		if err := kernel.Validate(); err != nil {
			return err
		}
	}

''')
M('ok','*',BK,'''	if !sort.IsSorted(b.Inputs) {
		return errors.New("block inputs are not sorted")
	}

	if !sort.IsSorted(b.Outputs) {
		return errors.New("block outputs are not sorted")
	}

	if !sort.IsSorted(b.Kernels) {
		return errors.New("block kernels are not sorted")
	}

	return nil
''','''	lists := []struct {
		name string
		list sort.Interface
	}{
		{"inputs", b.Inputs},
		{"outputs", b.Outputs},
		{"kernels", b.Kernels},
	}

	for _, l := range lists {
		if !sort.IsSorted(l.list) {
			return fmt.Errorf("block %s are not sorted", l.name)
		}
	}

	return nil
''')
M('ok','*',BK,'''	buff := new(bytes.Buffer)

	// Write features, fee & lock
	if err := binary.Write(buff, binary.BigEndian, uint8(k.Features)); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, k.Fee); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, k.LockHeight); err != nil {
		logrus.Fatal(err)
	}

	// Write Excess
	if _, err := buff.Write(k.Excess.Bytes()); err != nil {
		logrus.Fatal(err)
	}

	// Write ExcessSig
	if _, err := buff.Write(k.ExcessSig[:]); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
}

''','''	data := make([]byte, 17, 17+33+64)
	data[0] = byte(k.Features)
	binary.BigEndian.PutUint64(data[1:], k.Fee)
	binary.BigEndian.PutUint64(data[9:], k.LockHeight)

	data = append(data, k.Excess.Bytes()...)
	return append(data, k.ExcessSig[:]...)
}

''')
M('ok','*',BK,'''	// Read features, fee & lock
	if err := binary.Read(r, binary.BigEndian, (*uint8)(&k.Features)); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &k.Fee); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &k.LockHeight); err != nil {
		return err
	}

''','''	var prefix [17]byte
	if _, err := io.ReadFull(r, prefix[:]); err != nil {
		return err
	}

	k.Features = KernelFeatures(prefix[0])
	k.Fee = binary.BigEndian.Uint64(prefix[1:9])
	k.LockHeight = binary.BigEndian.Uint64(prefix[9:])

''')
M('ok','*',BK,'''	// Read inputs
	b.Inputs = make([]Input, inputs)
	for i := uint64(0); i < inputs; i++ {
		if err := b.Inputs[i].Read(r); err != nil {
			return err
		}
	}

	// Read outputs
	b.Outputs = make([]Output, outputs)
	for i := uint64(0); i < outputs; i++ {
		if err := b.Outputs[i].Read(r); err != nil {
			return err
		}
	}

	// Read kernels
	b.Kernels = make([]TxKernel, kernels)
	for i := uint64(0); i < kernels; i++ {
		if err := b.Kernels[i].Read(r); err != nil {
			return err
		}
	}

	return nil
}

''','''	b.Inputs = make([]Input, inputs)
	b.Outputs = make([]Output, outputs)
	b.Kernels = make([]TxKernel, kernels)

	if err := readAll(r, len(b.Inputs), func(i int) readable { return &b.Inputs[i] }); err != nil {
		return err
	}
	if err := readAll(r, len(b.Outputs), func(i int) readable { return &b.Outputs[i] }); err != nil {
		return err
	}

	return readAll(r, len(b.Kernels), func(i int) readable { return &b.Kernels[i] })
}

type readable interface {
	Read(r io.Reader) error
}

// readAll reads n items.
func readAll(r io.Reader, n int, item func(i int) readable) error {
	for i := 0; i < n; i++ {
		if err := item(i).Read(r); err != nil {
			return err
		}
	}

	return nil
}

''')
M('ok','*',BK,'''		shortID := make(ShortID, ShortIDSize)
		if _, err := io.ReadFull(r, shortID); err != nil {
			return err
		}

		b.KernelIDs[i] = shortID
''','''		b.KernelIDs[i] = make(ShortID, ShortIDSize)
		if _, err := io.ReadFull(r, b.KernelIDs[i]); err != nil {
			return err
		}
''')
M('ok','*',BK,'''	for i := uint64(0); i < kernelIDs; i++ {

		shortID := make(ShortID, ShortIDSize)
		if _, err := io.ReadFull(r, shortID); err != nil {
			return err
		}

		b.KernelIDs[i] = shortID
	}
''','''	for i := range b.KernelIDs {
		shortID, err := readShortID(r)
		if err != nil {
			return err
		}

		b.KernelIDs[i] = shortID
	}
''',BK,'''// String implements String() interface
func (p CompactBlock)''','''func readShortID(r io.Reader) (id ShortID, err error) {
	id = make(ShortID, ShortIDSize)
	_, err = io.ReadFull(r, id)
	return
}

// String implements String() interface
func (p CompactBlock)''')
M('ok','*',BK,'''	msg := secp256k1zkp.ComputeMessage(o.Fee, o.LockHeight)
	signature := secp256k1zkp.DecodeSignature(o.ExcessSig)

	// Excess is a Pedersen commitment to the value zero: P = γ*H + 0*G
	P := o.Excess

	if !secp256k1zkp.VerifySignature(P, msg, signature) {
		return ErrInvalidSignature
	}

	return nil''','''	ok := secp256k1zkp.VerifySignature(
		o.Excess,
		secp256k1zkp.ComputeMessage(o.Fee, o.LockHeight),
		secp256k1zkp.DecodeSignature(o.ExcessSig),
	)
	if ok {
		return nil
	}

	return ErrInvalidSignature''')
M('ok','*',PE,'''	var request Ping
	p.sync.Chain.RLock()
	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()
	request.Height = p.sync.Chain.Height()
	p.sync.Chain.RUnlock()

	p.WriteMessage(&request)
''','''	p.WriteMessage(p.sync.ping())
''',SY,'''func (s *Syncer) ProcessMessage(''','''// ping tells where our chain is.
func (s *Syncer) ping() *Ping {
	chain := s.Chain

	chain.RLock()
	defer chain.RUnlock()

	return &Ping{
		TotalDifficulty: chain.TotalDifficulty(),
		Height:          chain.Height(),
	}
}

func (s *Syncer) ProcessMessage(''',PE,'''	logrus.Info("sending headers request")

	if len(locator.Hashes) > consensus.MaxLocators {
		logrus.Debug("locator hashes count: ", len(locator.Hashes))
		logrus.Fatal(errors.New("too big locator hashes"))
	}

	var request GetBlockHeaders
	request.Locator = locator

	p.WriteMessage(&request)
''','''	logrus.Info("sending headers request")

	if n := len(locator.Hashes); n > consensus.MaxLocators {
		logrus.Fatalf("too big locator hashes: %d", n)
	}

	p.WriteMessage(&GetBlockHeaders{Locator: locator})
''')
M('ok','*',PL,'''	pp.cpmu.Lock()
	defer pp.cpmu.Unlock()

	for _, pi := range pp.ConnectedPeers {
		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			peer := peerInfo.Peer
			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty
			peerInfo.Unlock()

			// propagate if peer height or totalDiff less than newest block
			if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {
				if peer != nil {
					peer.SendBlock(block)
				}
			}
		}(pi)
	}
}

''','''	for _, info := range pp.connectedPeers() {
		go info.offer(block)
	}
}

// connectedPeers lists the connected peers.
func (pp *peersPool) connectedPeers() []*peerInfo {
	pp.cpmu.Lock()
	defer pp.cpmu.Unlock()

	list := make([]*peerInfo, 0, len(pp.ConnectedPeers))
	for _, info := range pp.ConnectedPeers {
		list = append(list, info)
	}

	return list
}

''',PL,'''type peerStatus int
''','''// offer sends the block unless the peer is at least as far.
func (pi *peerInfo) offer(block *consensus.Block) {
	pi.Lock()
	peer := pi.Peer
	ahead := pi.Height >= block.Header.Height && pi.TotalDifficulty >= block.Header.TotalDifficulty
	pi.Unlock()

	if ahead || peer == nil {
		return
	}

	peer.SendBlock(block)
}

type peerStatus int
''')
