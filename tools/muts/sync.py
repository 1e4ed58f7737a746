S='p2p/sync.go'; P='p2p/peer.go'; O='p2p/pool.go'; C='chain/chain.go'
# C05
M('bug','C05',P,'if len(locator.Hashes) > consensus.MaxLocators {','if len(locator.Hashes) > consensus.MaxLocators+1 {')
M('bug','C05',P,'		logrus.Fatal(errors.New("too big locator hashes"))\n','')
M('bug','C05',P,'if len(locator.Hashes) > consensus.MaxLocators {','if len(locator.Hashes) > consensus.MaxLocators && p.Info.Height > 0 {')
M('bug','C05',O,'if len(addrs) == consensus.MaxPeerAddrs {','if len(addrs) > consensus.MaxPeerAddrs {')
M('bug','C05',O,'		if len(addrs) == consensus.MaxPeerAddrs {\n			break\n		}\n','')
M('bug','C05',O,'		if len(addrs) == consensus.MaxPeerAddrs {\n			break\n		}\n','		if len(addrs) == consensus.MaxPeerAddrs {\n			continue\n		}\n')
M('bug','C05',O,'	addrs := make([]*net.TCPAddr, 0)\n','	addrs := make([]*net.TCPAddr, 0)\n	if capabilities == consensus.CapUnknown {\n		addrs = make([]*net.TCPAddr, len(pp.PeersTable))\n	}\n')
M('bug','C05',C,'consensus.MaxBlockHeaders+1)','consensus.MaxBlockHeaders+2)')
M('bug','C05 N14',C,'			blockList = blockList[1:]\n','')
M('bug','C05',S,'			Headers: headers,','			Headers: append(headers, s.Chain.Genesis().Header),')
M('ok','*',P,'	if len(locator.Hashes) > consensus.MaxLocators {\n		logrus.Debug("locator hashes count: ", len(locator.Hashes))\n		logrus.Fatal(errors.New("too big locator hashes"))\n	}\n\n	var request GetBlockHeaders\n','	if count := len(locator.Hashes); count >= consensus.MaxLocators+1 {\n		logrus.Debug("locator hashes count: ", count)\n		logrus.Fatal(errors.New("too big locator hashes"))\n	}\n\n	var request GetBlockHeaders\n')
M('ok','*',O,'		addrs = append(addrs, peerInfo.netAddr)\n\n		if len(addrs) == consensus.MaxPeerAddrs {\n			break\n		}\n','		if len(addrs) >= consensus.MaxPeerAddrs {\n			break\n		}\n		addrs = append(addrs, peerInfo.netAddr)\n')
M('ok','*',O,'		if len(addrs) == consensus.MaxPeerAddrs {\n			break\n		}\n	}\n\n	return &PeerAddrs{\n		peers: addrs,\n	}\n','		if full(addrs) {\n			break\n		}\n	}\n\n	result := new(PeerAddrs)\n	result.peers = addrs\n	return result\n',O,'// PeerInfo returns','func full(a []*net.TCPAddr) bool { return len(a) >= consensus.MaxPeerAddrs }\n\n// PeerInfo returns')
M('ok','*',O,'		if status == psBanned || status == psFailedConn {\n			continue\n		}\n\n		// filter by capabilities\n		if (peerCapabilities & capabilities) != capabilities {\n			continue\n		}\n\n		addrs = append(addrs, peerInfo.netAddr)\n','		if status != psBanned && status != psFailedConn && (peerCapabilities&capabilities) == capabilities {\n			addrs = append(addrs, peerInfo.netAddr)\n		}\n')
# N04
M('bug','N04',S,'			s.Pool.Ban(peer.Addr)\n			return','			s.Pool.Ban(peer.conn.RemoteAddr().String())\n			return')
M('bug','N04',S,'			s.Pool.Ban(peer.Addr)\n			return','			return')
M('bug','N04',S,'		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {','		if len(msg.Headers) == 0 {\n			return\n		}\n		if err := s.Chain.ProcessHeaders(msg.Headers[1:]); err != nil {')
M('bug','N04',S,'		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {','		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil && len(msg.Headers) > 1 {')
M('bug','N04',S,'		if err := s.Mempool.ProcessTx(msg); err != nil {\n			// ban peer ?\n			s.Pool.Ban(peer.Addr)\n		}','		if err := s.Mempool.ProcessTx(msg); err != nil {\n			logrus.Info(err)\n		}')
M('bug','N04',S,'		if err := s.Mempool.ProcessTx(msg); err != nil {','		if err := s.Mempool.ProcessTx(msg); err == nil {')
M('bug','N04',S,'	case *Pong:\n','	case *Pong:\n		if msg.Height == 0 {\n			s.Pool.Ban(peer.Addr)\n			return\n		}\n')
M('bug','N04',S,'		if err := s.Chain.ProcessBlock(msg); err != nil {','		if peerInfo.Height > msg.Header.Height {\n			return\n		}\n		if err := s.Chain.ProcessBlock(msg); err != nil {')
M('bug','N04',S,'		for _, p := range msg.peers {\n			s.Pool.Add(p.String())','		for _, p := range msg.peers {\n			if p.Port == 0 {\n				s.Pool.Ban(peer.Addr)\n			}\n			s.Pool.Add(p.String())')
M('ok','*',S,'		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {\n			// ban peer ?\n			s.Pool.Ban(peer.Addr)\n		}','		s.banOn(peer, s.Chain.ProcessHeaders(msg.Headers))',S,'// Run begins','func (s *Syncer) banOn(p *Peer, err error) {\n	if err == nil {\n		return\n	}\n	s.Pool.Ban(p.Addr)\n}\n\n// Run begins')
M('ok','*',S,'			logrus.Info(err)\n			// TODO: maybe smarter ban peer ?\n			s.Pool.Ban(peer.Addr)\n			return\n		}\n','			s.Pool.Ban(peer.Addr)\n			logrus.Info(err)\n			return\n		}\n')
# N05
M('bug','N05',S,'		if msg.Header.Height == height {','		if msg.Header.Height >= height {')
M('bug','N05',S,'		if msg.Header.Height == height {','		if msg.Header.Height <= height {')
M('bug','N05',S,'			s.Pool.Ban(peer.Addr)\n			return','			s.Pool.Ban(peer.Addr)')
M('bug','N05',O,'if height < block.Header.Height || totalDifficulty < block','if height <= block.Header.Height || totalDifficulty < block')
M('bug','N05',O,'if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {','if height < block.Header.Height || totalDifficulty != block.Header.TotalDifficulty {')
M('bug','N05',O,'for _, pi := range pp.ConnectedPeers {\n		go','for _, pi := range pp.PeersTable {\n		go')
M('bug','N05',S,'		if err := s.Chain.ProcessBlock(msg); err != nil {\n			logrus.Info(err)','		peerInfo.Lock()\n		peerInfo.Height = msg.Header.Height\n		peerInfo.Unlock()\n		if err := s.Chain.ProcessBlock(msg); err != nil {\n			logrus.Info(err)')
M('bug','N05',S,'	case *consensus.Block:\n','	case *consensus.Block:\n		s.Chain.RLock()\n		height := s.Chain.Height()\n		s.Chain.RUnlock()\n',S,'		// propagate if it is top block\n		s.Chain.RLock()\n		height := s.Chain.Height()\n		s.Chain.RUnlock()\n','')
M('bug','N05',O,'if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {','if height < block.Header.Height || block.Header.TotalDifficulty < totalDifficulty {')
M('bug','N05',S,'	case *BlockHeader:\n','	case *BlockHeader:\n		s.Pool.PropagateBlock(&consensus.Block{Header: msg.Header})\n')
M('ok','*',S,'		s.Chain.RLock()\n		height := s.Chain.Height()\n		s.Chain.RUnlock()\n\n		if msg.Header.Height == height {\n			s.Pool','		if s.isTip(msg) {\n			s.Pool',S,'// Run begins','func (s *Syncer) isTip(b *consensus.Block) bool {\n	s.Chain.RLock()\n	defer s.Chain.RUnlock()\n	return s.Chain.Height() == b.Header.Height\n}\n\n// Run begins')
M('ok','*',O,'			if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {\n				if peer != nil {\n					peer.SendBlock(block)\n				}\n			}\n','			if peer == nil || height >= block.Header.Height && totalDifficulty >= block.Header.TotalDifficulty {\n				return\n			}\n			peer.SendBlock(block)\n')
M('ok','*',O,'		go func(peerInfo *peerInfo) {\n			peerInfo.Lock()\n			peer := peerInfo.Peer\n			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n			peerInfo.Unlock()\n','		go func(peerInfo *peerInfo) {\n			peer, height, totalDifficulty := peerInfo.snapshot()\n',O,'// status returns','func (pi *peerInfo) snapshot() (*Peer, uint64, consensus.Difficulty) {\n	pi.Lock()\n	defer pi.Unlock()\n	return pi.Peer, pi.Height, pi.TotalDifficulty\n}\n\n// status returns')
# N13
M('bug','N13',S,'		s.Chain.RLock()\n		resp.TotalDifficulty = s.Chain.TotalDifficulty()\n','		s.Chain.RLock()\n		resp.TotalDifficulty = s.Chain.TotalDifficulty()\n		s.Chain.RUnlock()\n		s.Chain.RLock()\n')
M('bug','N13',S,'		peer.WriteMessage(&resp)\n		logrus.Debugf("Sent Pong','		if msg.Height < resp.Height {\n			peer.WriteMessage(&resp)\n		}\n		logrus.Debugf("Sent Pong')
M('bug','N13',S,'		resp.Height = s.Chain.Height()','		resp.Height = msg.Height')
M('bug','N13',S,'		var resp Pong','		var resp Ping')
M('bug','N13',S,'		if block := s.Chain.GetBlock(msg.Hash); block != nil {','		if block := s.Chain.GetBlock(msg.Hash); block != nil && block.Header.Height > 0 {')
M('bug','N13',S,'		if block := s.Chain.GetBlock(msg.Hash); block != nil {','		if block := s.Chain.GetBlock(msg.Hash); true {')
M('bug','N13',S,'		headers := s.Chain.GetBlockHeaders(msg.Locator)\n','		headers := s.Chain.GetBlockHeaders(msg.Locator)\n		if len(headers) == 0 {\n			return\n		}\n')
M('bug','N13',S,'s.Pool.Peers(msg.Capabilities)','s.Pool.Peers(consensus.CapFullNode)')
M('bug','N13',S,'	case *Pong:\n','	case *Pong:\n		peer.SendPing()\n')
M('bug','N13',S,'			peerInfo.TotalDifficulty = msg.Header.TotalDifficulty\n			peerInfo.Height = msg.Header.Height','			peerInfo.TotalDifficulty = msg.Header.TotalDifficulty')
M('bug','N13',S,'peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo','peerInfo.TotalDifficulty < msg.Header.TotalDifficulty && peerInfo')
M('bug','N13',P,'	request.Height = p.sync.Chain.Height()\n	p.sync.Chain.RUnlock()','	p.sync.Chain.RUnlock()\n	request.Height = p.sync.Chain.Height()')
M('bug','N13',P,'	request.Height = p.sync.Chain.Height()\n','	request.Height = p.Info.Height\n')
M('bug','N13',S,'		peerInfo.TotalDifficulty = msg.TotalDifficulty\n		peerInfo.Height = msg.Height\n','		if msg.Height > peerInfo.Height {\n			peerInfo.TotalDifficulty = msg.TotalDifficulty\n			peerInfo.Height = msg.Height\n		}\n')
M('ok','*',S,'		peerInfo.Lock()\n		peerInfo.TotalDifficulty = msg.TotalDifficulty\n		peerInfo.Height = msg.Height\n		peerInfo.Unlock()\n\n		// send answer\n','		peerInfo.update(msg.Height, msg.TotalDifficulty)\n',O,'// status returns','func (pi *peerInfo) update(h uint64, d consensus.Difficulty) {\n	pi.Lock()\n	defer pi.Unlock()\n	pi.TotalDifficulty = d\n	pi.Height = h\n}\n\n// status returns')
M('ok','*',S,'		var resp Pong\n\n		// Lock the chain before getting various params\n		s.Chain.RLock()\n		resp.TotalDifficulty = s.Chain.TotalDifficulty()\n		resp.Height = s.Chain.Height()\n		s.Chain.RUnlock()\n\n		peer.WriteMessage(&resp)','		h, d := s.state()\n		resp := new(Pong)\n		resp.Height, resp.TotalDifficulty = h, d\n		peer.WriteMessage(resp)',S,'// Run begins','func (s *Syncer) state() (uint64, consensus.Difficulty) {\n	s.Chain.RLock()\n	defer s.Chain.RUnlock()\n	h := s.Chain.Height()\n	return h, s.Chain.TotalDifficulty()\n}\n\n// Run begins')
M('ok','*',S,'		if block := s.Chain.GetBlock(msg.Hash); block != nil {\n			peer.WriteMessage(block)\n		}','		block := s.Chain.GetBlock(msg.Hash)\n		if block == nil {\n			break\n		}\n		peer.WriteMessage(block)')
M('ok','*',S,'		if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {\n','		if !(msg.Header.TotalDifficulty <= peerInfo.TotalDifficulty && msg.Header.Height <= peerInfo.Height) {\n')
M('ok','*',S,'	switch msg := message.(type) {\n	case *Ping:\n','	if ping, ok := message.(*Ping); ok {\n		_ = ping\n	}\n	switch msg := message.(type) {\n	case *Ping:\n')
M('ok','*',P,'	var request Ping\n	p.sync.Chain.RLock()\n	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()\n	request.Height = p.sync.Chain.Height()\n	p.sync.Chain.RUnlock()\n\n	p.WriteMessage(&request)','	chain := p.sync.Chain\n	chain.RLock()\n	d, h := chain.TotalDifficulty(), chain.Height()\n	chain.RUnlock()\n\n	p.WriteMessage(&Ping{TotalDifficulty: d, Height: h})')
