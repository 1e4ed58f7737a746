Y='p2p/sync.go'; G='p2p/messages.go'; HL='p2p/helpers.go'; PF='consensus/proof.go'; B='consensus/block.go'; LO='consensus/locator.go'; CH='chain/chain.go'; D='consensus/difficulty.go'; PL='p2p/pool.go'; PE='p2p/peer.go'; CK='cuckoo/cuckoo.go'; SC='secp256k1zkp/schnorr.go'; TX='consensus/transaction.go'; HS='p2p/handshake.go'
# bugs
M('bug','N11',Y,'''	if peerInfo == nil {
		// the peer was banned in the meantime
		logrus.Errorf("message from unknown peer (%s)", peer.Addr)
		return
	}
''','')
M('bug','N11',Y,'''	if peerInfo == nil {
		// the peer was banned in the meantime
		logrus.Errorf(''','''	if peerInfo == nil {
		// the peer was banned in the meantime
		logrus.Fatalf(''')
M('bug','N11',Y,'''		if s.Mempool == nil {
			return
		}
''','')
M('bug','N11',Y,'''block := s.Chain.GetBlock(msg.Hash); block != nil {''','''block := s.Chain.GetBlock(msg.Hash); block == nil || block.Header.Height > 0 {''')
M('bug','N11',Y,'''block := s.Chain.GetBlock(msg.Hash); block != nil {''','''block := s.Chain.GetBlock(msg.Hash); block.Header.Height > 0 {''')
M('bug','N11',PL,'''	if peer != nil {
		peer.Close()
	}
}

// IsBan''','''	peer.Close()
}

// IsBan''')
M('bug','N11',PL,'''	if !ok {
		return
	}

	// Mark banned''','''	if !ok {
		logrus.Debug("ban of an unknown peer")
	}

	// Mark banned''')
M('bug','N11',PL,'''				if peer != nil {
					peer.SendBlock(block)
				}''','''				peer.SendBlock(block)''')
M('bug','N11',G,'''	if int(count) > consensus.MaxBlockHeaders {
		return errors.New("too big block headers len from peer")
	}

	h.Headers = make([]consensus.BlockHeader, count)
''','''	h.Headers = make([]consensus.BlockHeader, consensus.MaxBlockHeaders)
''')
M('bug','N11',PF,'''	bitvec := make([]uint8, (bitvecLengthBits+7)/8)''','''	bitvec := make([]uint8, bitvecLengthBits/8)''')
M('bug','N11',PF,'''	if p.EdgeBits == 0 || p.EdgeBits > 64 {''','''	if p.EdgeBits == 0 {
		logrus.Fatal("invalid cuckoo graph size")
	}
	if p.EdgeBits > 64 {''')
M('bug','N11',PF,'''	p.Nonces = make([]uint32, ProofSize)
''','''	p.Nonces = make([]uint32, p.EdgeBits)
''')
M('bug','N11',LO,'''	h.Hashes = make([]Hash, count)
''','''	h.Hashes = make([]Hash, MaxLocators-1)
''')
M('bug','N11',CH,'''		if len(blockList) > 0 {
			// pass first block''','''		if blockList != nil {
			// pass first block''')
M('bug','N11',CH,'''	if prevBlock == nil {
		logrus.Info("no previous blocks")''','''	if block.Header.Height == 0 {
		logrus.Info("no previous blocks")''')
M('bug','N11',D,'''	if len(windowEnd) < MedianTimeWindow {
		return MinimumDifficulty
	}
''','''	if blen <= DifficultyAdjustWindow/2 {
		return MinimumDifficulty
	}
''')
M('bug','N11',D,'''beginTime := windowBegin[len(windowBegin)/2]''','''beginTime := windowBegin[MedianTimeWindow]''')
M('bug','N11',PE,'''	p.sync = sync
	p.quit''','''	p.quit''')
M('bug','N11',PE,'''	p.conn = conn
	p.sync = sync
''','''	p.sync = sync
''')
M('bug','N11',CK,'''				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[i].usedV = true
					edges[j].usedV = true

					i = j''','''				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[i].usedV = true
					edges[j].usedV = true

					i = j + 1''')
M('bug','N11',CK,'''	for i := 0; i < proofSize; i++ {
		// Ensure nonces are in ascending order and that they are in the correct
		// range.''','''	for i := 1; i < proofSize; i++ {
		// Ensure nonces are in ascending order and that they are in the correct
		// range.''')
M('bug','N11',HL,'''		ipAddr = make([]byte, net.IPv6len)

		for''','''		ipAddr = make([]byte, net.IPv4len)

		for''')
M('bug','N11',HL,'''	default:
		return nil, fmt.Errorf("invalid ipFlag: %v", ipFlag)
	}''','''	default:
		logrus.Fatal(fmt.Errorf("invalid ipFlag: %v", ipFlag))
	}''')
M('bug','N11',G,'''	if int(count) > consensus.MaxBlockHeaders {
		return errors''','''	if int(count) > consensus.MaxBlockHeaders {
		panic("too big")
		return errors''')
M('bug','N11',CH,'''	if block.Header.Height > uint64(limit) {
		fromHeight = block.Header.Height - uint64(limit)
	}
''','''	fromHeight = block.Header.Height / (prevBlock.Header.Height)
''')
M('bug','N11',PE,'''		rl := bytes.NewReader(readBuffer)
''','''		if p.sync.Pool.PeerInfo(p.Addr).Height > 0 {
			logrus.Debug("known")
		}
		rl := bytes.NewReader(readBuffer)
''')
M('bug','N11',PE,'''			logrus.Info("block hash: ", hex.EncodeToString(msg.Header.Hash()))''','''			logrus.Info("block hash: ", hex.EncodeToString(msg.Header.Hash()), msg.Inputs[0].Commit)''')
M('bug','N11',PE,'''		if header.Len > consensus.MaxMsgLen {
			exitError = errors.New("too big message size")
			break out
		}
''','')
M('bug','N11',SC,'''	R.Y = decompressPoint(signature[0:32])
''','''	if signature[0] != 0 {
		R.Y = decompressPoint(signature[0:32])
	}
''')
M('bug','N11',HS,'''	h.UserAgent = string(buff)

	genesisBuf := make([]byte, 32)''','''	h.UserAgent = string(buff)
	logrus.Debug("agent ", h.UserAgent[0])

	genesisBuf := make([]byte, 32)''')
M('bug','N11',PL,'''		PeersTable:     make(map[string]*peerInfo),
''','')
M('bug','N11',PL,'''		BannedPeers:    make(map[string]struct{}),
''','')
M('bug','N11',CH,'''	if lastBlock := storage.GetLastBlock(); lastBlock != nil {
		chain.head = lastBlock''','''	if lastBlock := storage.GetLastBlock(); true {
		chain.head = lastBlock''')
# refactorings
M('ok','N11',Y,'''	if peerInfo == nil {
		// the peer was banned in the meantime
		logrus.Errorf("message from unknown peer (%s)", peer.Addr)
		return
	}
''','''	known := peerInfo != nil
	if !known {
		logrus.Errorf("message from unknown peer (%s)", peer.Addr)
		return
	}
''')
M('ok','N11',PL,'''	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()
	if ok {
		return peerInfo
	}

	return nil
}
''','''	defer pp.ptmu.Unlock()
	return pp.PeersTable[addr]
}
''')
M('ok','N11',PL,'''	pp := &peersPool{
		connected:      0,
		sync:           sync,
		pool:           make(chan struct{}, maxOnlineConnections),
		quit:           make(chan int),
		PeersTable:     make(map[string]*peerInfo),
		ConnectedPeers: make(map[string]*peerInfo),
		BannedPeers:    make(map[string]struct{}),
	}

	return pp''','''	pp := new(peersPool)
	pp.sync = sync
	pp.pool = make(chan struct{}, maxOnlineConnections)
	pp.quit = make(chan int)
	pp.reset()

	return pp''',PL,'''// Ban closes''','''func (pp *peersPool) reset() {
	pp.PeersTable = make(map[string]*peerInfo)
	pp.ConnectedPeers = make(map[string]*peerInfo)
	pp.BannedPeers = make(map[string]struct{})
}

// Ban closes''')
M('ok','N11',PF,'''		for bit := uint(0); bit < nonceLengthBits; bit++ {
			// Find the position of this bit in bitvec
			offsetBits := uint(i)*nonceLengthBits + bit
			// If this bit is set in bitvec then set the same bit in the nonce.
			if bitvec[offsetBits/8]&(1<<(offsetBits%8)) != 0 {
				nonce |= 1 << bit
			}
		}
''','''		for bit := uint(0); bit < nonceLengthBits; bit++ {
			if bitAt(bitvec, uint(i)*nonceLengthBits+bit) {
				nonce |= 1 << bit
			}
		}
''',PF,'''func NewProof(''','''func bitAt(v []uint8, at uint) bool {
	return v[at>>3]&(1<<(at&7)) != 0
}

func NewProof(''')
M('ok','N11',CH,'''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil''','''	for i := 0; i < len(headers); i++ {
		if err := headers[i].Validate(); err != nil {
			return err
		}
	}
	return nil''')
M('ok','N11',D,'''	if len(windowEnd) < MedianTimeWindow {
		return MinimumDifficulty
	}
''','''	if blen < DifficultyAdjustWindow+MedianTimeWindow {
		return MinimumDifficulty
	}
''')
M('ok','N11',LO,'''	h.Hashes = make([]Hash, count)
	for i := 0; i < int(count); i++ {
		h.Hashes[i] = make([]byte, BlockHashSize)

		if _, err := io.ReadFull(r, h.Hashes[i]); err != nil {
			return err
		}
	}''','''	h.Hashes = make([]Hash, 0, count)
	for i := uint8(0); i < count; i++ {
		hash := make([]byte, BlockHashSize)

		if _, err := io.ReadFull(r, hash); err != nil {
			return err
		}
		h.Hashes = append(h.Hashes, hash)
	}''')
M('ok','N11',CH,'''		if len(blockList) > 0 {
			// pass first block
			blockList = blockList[1:]

			// collect headers
			for _, block := range blockList {
				result = append(result, block.Header)
			}

			return result
		}
''','''		if len(blockList) == 0 {
			continue
		}
		for i := 1; i < len(blockList); i++ {
			result = append(result, blockList[i].Header)
		}

		return result
''')
M('ok','N11',CK,'''	i := 0     // first node
	cycle := 0 // the current length of the cycle
''','''	if len(edges) == 0 {
		return 0
	}
	i := 0     // first node
	cycle := 0 // the current length of the cycle
''')
M('ok','N11',PL,'''				if peer != nil {
					peer.SendBlock(block)
				}''','''				if peer == nil {
					return
				}
				peer.SendBlock(block)''')
M('ok','N11',PE,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)

	// Store the network addr
	p.Addr = addr
''','''	p := newConn(conn, sync, addr)
''',PE,'''// AcceptNewPeer creates''','''func newConn(conn net.Conn, sync *Syncer, addr string) *Peer {
	return &Peer{conn: conn, sync: sync, quit: make(chan struct{}), sendQueue: make(chan Message), Addr: addr}
}

// AcceptNewPeer creates''')
M('ok','N11',CH,'''	chain := Chain{
		storage:         storage,
		genesis:         genesis,
		head:            genesis,
		height:          genesis.Header.Height,
		totalDifficulty: genesis.Header.TotalDifficulty,
	}
''','''	chain := Chain{storage: storage, genesis: genesis}
	chain.head = genesis
	chain.height = genesis.Header.Height
	chain.totalDifficulty = genesis.Header.TotalDifficulty
''')
