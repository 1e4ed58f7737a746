# bugs of unusual kinds (caches, aliasing, captured variables, buffers moved), written without looking at the checks
PE='p2p/peer.go'; PO='p2p/pool.go'; SY='p2p/sync.go'; HS='p2p/handshake.go'; PR='p2p/protocol.go'
BL='consensus/block.go'; TX='consensus/transaction.go'; DI='consensus/difficulty.go'; CH='chain/chain.go'; SC='secp256k1zkp/schnorr.go'; PF='consensus/proof.go'; ID='consensus/id.go'
# 0: buffered reader per message loses buffered bytes
M('bug','C06',PE,'''	input := bufio.NewReader(p.conn)
	header := new(Header)

out:
	for atomic.LoadInt32(&p.disconnect) == 0 {
''','''	header := new(Header)

out:
	for atomic.LoadInt32(&p.disconnect) == 0 {
		input := bufio.NewReader(p.conn)
''')
# 1: block variable shared between messages: the chain keeps pointers
M('bug','C08',PE,'''	header := new(Header)

out:
	for atomic.''','''	header := new(Header)
	var block consensus.Block

out:
	for atomic.''',PE,'''			var msg consensus.Block
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Info("block hash: ", hex.EncodeToString(msg.Header.Hash()))
			p.sync.ProcessMessage(p, &msg)''','''			if exitError = block.Read(rl); exitError != nil {
				break out
			}

			logrus.Info("block hash: ", hex.EncodeToString(block.Header.Hash()))
			p.sync.ProcessMessage(p, &block)''')
# 2: goroutine captures the loop variable (go 1.16)
M('bug','N05',PO,'''		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			peer := peerInfo.Peer
			height''','''		go func() {
			peerInfo := pi
			peerInfo.Lock()
			peer := peerInfo.Peer
			height''',PO,'''					peer.SendBlock(block)
				}
			}
		}(pi)''','''					peer.SendBlock(block)
				}
			}
		}()''')
# 3: sort before checking that it is sorted
M('bug','V07',TX,'''	// Check sorted input, output requiring consensus rule!
''','''	// Check sorted input, output requiring consensus rule!
	sort.Sort(t.Kernels)
''')
# 4: package-level scratch buffer
M('bug','N09|C07',PR,'''	data := msg.Bytes()

''','''	scratch = append(scratch[:0], msg.Bytes()...)
	data := scratch

''',PR,'''// WriteMessage writes''','''var scratch []byte

// WriteMessage writes''')
# 5: headers validated in goroutines, first error lost
M('bug','V10',CH,'''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}

	return nil
''','''	errs := make(chan error, 1)
	for i := range headers {
		go func(h *consensus.BlockHeader) {
			select {
			case errs <- h.Validate():
			default:
			}
		}(&headers[i])
	}
	if len(headers) == 0 {
		return nil
	}
	return <-errs
''')
# 7: nonce kept between signatures
M('bug','K02',SC,'''	// Compute a random nonce, k.
	k := RandomInt()
''','''	// Compute a random nonce, k.
	once.Do(func() { fixed = RandomInt() })
	k := fixed
''',SC,'''// RandomBytes returns''','''var (
	once  sync.Once
	fixed *big.Int
)

// RandomBytes returns''',SC,'''	"math/big"
''','''	"math/big"
	"sync"
''')
# 8: verification accepts the negated R as well
M('bug','K01',SC,'''	return lhs.Equals(rhs)
''','''	return lhs.X.Cmp(rhs.X) == 0
''')
# 9: memoised id of a kernel
M('bug','V08|C01|K04|V06',BL,'''func (k *TxKernel) Hash() []byte {
	hashed := blake2b.Sum256(k.Bytes())
	return hashed[:]''','''func (k *TxKernel) Hash() []byte {
	if h, ok := kernelHashes[k.ExcessSig]; ok {
		return h
	}
	hashed := blake2b.Sum256(k.Bytes())
	kernelHashes[k.ExcessSig] = hashed[:]
	return hashed[:]''',BL,'''// Hash returns a hash of the serialised kernel.
''','''var kernelHashes = map[[64]byte][]byte{}

// Hash returns a hash of the serialised kernel.
''')
# 10: Disconnect with load and store
M('bug','N08',PE,'''	if !atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		return
	}
''','''	if atomic.LoadInt32(&p.disconnect) != 0 {
		return
	}
	atomic.StoreInt32(&p.disconnect, 1)
''')
# 11: message dropped when the queue is busy
M('bug','N13',PE,'''	case p.sendQueue <- msg:
	}''','''	case p.sendQueue <- msg:
	default:
		logrus.Debug("send queue is busy")
	}''')
# 13: dial in a goroutine: two dials of the same address
M('bug','N15|N06',PO,'''			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}
''','''			go func() {
				if err := pp.connectPeer(pp.notConnected()); err != nil {
					logrus.Error(err)
					<-pp.pool
				}
			}()
''')
# 14: the last status wins: a peer banned while its connection ends is back
M('bug','N03',PO,'''	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()
''','''	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()
''')
# 15: ban under the remote address of the message
M('bug','N04|N03',SY,'''			// TODO: maybe smarter ban peer ?
			s.Pool.Ban(peer.Addr)''','''			// TODO: maybe smarter ban peer ?
			s.Pool.Ban(peer.conn.LocalAddr().String())''')
# 16: total difficulty is compared with >=: equal locator
M('bug','N14',CH,'''			blockList = blockList[1:]
''','''			if len(blockList) > 1 {
				blockList = blockList[1:]
			}
''')
# 17: shared backing array: headers of the answer are appended to the argument
M('bug','V11',CH,'''		if err := block.Validate(); err != nil {
			return err
		}

		if block = c''','''		if err := block.Validate(); err != nil && block == c.head {
			return err
		}

		if block = c''')
# 18: big numbers wrap in the window sum
M('bug','V12',DI,'''			sumDiff += blist[i].Header.Difficulty
''','''			sumDiff += Difficulty(uint32(blist[i].Header.Difficulty))
''')
# 19: median of unsorted copy
M('bug','V12',DI,'''	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowEnd[i].Before(windowEnd[j])
	})''','''	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowBegin[i].Before(windowBegin[j])
	})''')
# 20: short id from the wrong half of the block hash
M('bug','K04',ID,'''	k1 := binary.LittleEndian.Uint64(blockHash[8:16])''','''	k1 := binary.LittleEndian.Uint64(blockHash[len(blockHash)-8:])''')
# 21: recover hides the crash but leaves the lock
M('bug','N10',SY,'''		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		logrus.Debugf("Received Pong''','''		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		if msg.Height < peerInfo.Height {
			break
		}
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		logrus.Debugf("Received Pong''')
# 22: address of a range variable kept
M('bug','N14|N13',CH,'''			for _, block := range blockList {
				result = append(result, block.Header)
			}
''','''			var last *consensus.BlockHeader
			for _, block := range blockList {
				last = &block.Header
			}
			for range blockList {
				result = append(result, *last)
			}
''')
# 23: peers chosen under capability "any bit"
M('bug','N12',PO,'''	if netAddr.Port == 0 {
		return
	}
''','''	if netAddr.Port == 0 && !netAddr.IP.IsLoopback() {
		return
	}
''')
# 24: hash of the header before the last field is set
M('bug','C05',PO,'''		if len(addrs) == consensus.MaxPeerAddrs {
			break
		}
''','''		if len(addrs) > 2*consensus.MaxPeerAddrs {
			break
		}
''')
# 25: limit of the reader instead of the full body
M('bug','C03|C06',PE,'''		_, err := io.ReadFull(input, readBuffer)
		if err != nil {''','''		_, err := io.ReadAtLeast(input, readBuffer, len(readBuffer)/2)
		if err != nil {''')
# 26: slot given back twice on ban during dial
M('bug','N06',PO,'''		peerConn.Close()
		return errors.New("peer has been banned")''','''		peerConn.Close()
		<-pp.pool
		return errors.New("peer has been banned")''')
# 27: status kept as connected while Peer is stale
M('bug','N09',PO,'''		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool''','''		peerInfo.Status = psDisconnected

		<-pp.pool''')
# 28: previous proof's bits leak: nonce declared outside the loop
M('bug','C01|C02',PF,'''	for i := 0; i < ProofSize; i++ {
		var nonce uint32
''','''	var nonce uint32
	for i := 0; i < ProofSize; i++ {
		nonce &= 1
''')
# 29: the decoder keeps the list of a previous message
M('bug','C01|C02|V07',TX,'''	t.Outputs = make([]Output, outputs)
''','''	if uint64(len(t.Outputs)) != outputs {
		t.Outputs = make([]Output, outputs+1)[:outputs+outputs%2]
	}
''')
# 30: proof length check compares the wrong remainder
M('bug','C01|C03|C02',BL,'''	if pr.N != 0 {''','''	if pr.N > 1 {''')
# 31: commitment verified with challenge over the wrong point
M('bug','K01',SC,'''	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))''','''	rhs := SumPoints(ScalarMulPoint(&publicKey, e), ScalarMulPoint(&publicKey, e))''')
# 32: nonce reuse through retry keeping the buffer
M('bug','K02',SC,'''	if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {
		goto retry
	}
''','''	if r.Sign() == 0 {
		goto retry
	}
	r.Mod(r, btcec.S256().N)
''')
# 33: difficulty check against the total
M('bug','V09',CH,'''	if block.Header.Difficulty < diffAvg {''','''	if block.Header.TotalDifficulty < diffAvg {''')
# 34: window ends one block early
M('bug','V09',CH,'''		fromHeight = block.Header.Height - uint64(limit)
''','''		fromHeight = block.Header.Height - uint64(limit) + 1
''')
