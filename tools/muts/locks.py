P='p2p/peer.go'; O='p2p/pool.go'; S='p2p/sync.go'; C='chain/chain.go'
R='N09'; D='N10'
# --- data races
M('bug',R,O,'	pp.bnmu.Lock()\n	pp.BannedPeers[addr] = struct{}{}\n	pp.bnmu.Unlock()','	pp.BannedPeers[addr] = struct{}{}')
M('bug',R,O,'	pp.ptmu.Lock()\n	peerInfo, ok := pp.PeersTable[addr]\n	delete(pp.PeersTable, addr)\n	pp.ptmu.Unlock()','	pp.ptmu.Lock()\n	peerInfo, ok := pp.PeersTable[addr]\n	pp.ptmu.Unlock()\n	delete(pp.PeersTable, addr)')
M('bug',R,O,'	peerInfo.Lock()\n	peerInfo.Status = psBanned\n	peer := peerInfo.Peer\n	peerInfo.Unlock()','	peerInfo.Lock()\n	peerInfo.Status = psBanned\n	peerInfo.Unlock()\n	peer := peerInfo.Peer')
M('bug',R,O,'	pp.bnmu.Lock()\n	defer pp.bnmu.Unlock()\n\n	_, ok','	_, ok')
M('bug',R,O,'		peerInfo.Lock()\n		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities\n		peerInfo.Unlock()','		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities')
M('bug',R,O,'	pp.ptmu.Lock()\n	peerInfo, ok := pp.PeersTable[addr]\n	pp.ptmu.Unlock()\n	if ok','	peerInfo, ok := pp.PeersTable[addr]\n	if ok')
M('bug',R,O,'	pp.cpmu.Lock()\n	defer pp.cpmu.Unlock()\n\n	for _, pi','	for _, pi')
M('bug',R,O,'	pp.cpmu.Lock()\n	defer pp.cpmu.Unlock()\n\n	for _, pi','	pp.ptmu.Lock()\n	defer pp.ptmu.Unlock()\n\n	for _, pi')
M('bug',R,O,'	pp.cpmu.Lock()\n	defer pp.cpmu.Unlock()\n\n	for _, pi := range pp.ConnectedPeers','	pp.cpmu.Lock()\n	peers := pp.ConnectedPeers\n	pp.cpmu.Unlock()\n\n	for _, pi := range peers')
M('bug',R,O,'			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n			peerInfo.Unlock()\n','			peerInfo.Unlock()\n			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n')
M('bug',R,O,'atomic.LoadInt32(&pp.connected) > int32','pp.connected > int32')
M('bug',R,O,'		atomic.AddInt32(&pp.connected, -1)','		pp.connected--')
M('bug',R,O,'		atomic.AddInt32(&pp.connected, -1)','		pp.connected--',O,'atomic.LoadInt32(&pp.connected) > int32','pp.connected > int32',O,'	atomic.AddInt32(&pp.connected, 1)','	pp.connected++',O,'	"sync/atomic"\n','')
M('bug',R,O,'		pp.cpmu.Lock()\n		delete(pp.ConnectedPeers, addr)\n		pp.cpmu.Unlock()','		delete(pp.ConnectedPeers, addr)')
M('bug',R,O,'		peerInfo.Lock()\n		peerInfo.Status = psDisconnected\n		peerInfo.Unlock()\n\n		<-','		peerInfo.Status = psDisconnected\n\n		<-')
M('bug',R,O,'	peerInfo.Capabilities = peerConn.Info.Capabilities\n	peerInfo.Unlock()','	peerInfo.Unlock()\n	peerInfo.Capabilities = peerConn.Info.Capabilities')
M('bug',R,O,'	pi.Lock()\n	defer pi.Unlock()\n\n	return','	return')
M('bug',R,O,'	pp.ptmu.Lock()\n	defer pp.ptmu.Unlock()\n\n	// first, find','	// first, find')
M('bug',R,P,'			atomic.AddUint64(&p.bytesSent, written)','			p.bytesSent += written')
M('bug',R,P,'		atomic.AddUint64(&p.bytesReceived, header.Len+consensus.HeaderLen)','		p.bytesReceived += header.Len + consensus.HeaderLen')
M('bug',R,P,'	p.sync.Chain.RLock()\n','',P,'	p.sync.Chain.RUnlock()\n','')
M('bug',R,P,'	p.sync.Chain.RLock()\n	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()\n	request.Height = p.sync.Chain.Height()\n	p.sync.Chain.RUnlock()','	p.sync.Chain.RLock()\n	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()\n	p.sync.Chain.RUnlock()\n	request.Height = p.sync.Chain.Height()')
M('bug',R,S,'		s.Chain.RLock()\n		height := s.Chain.Height()\n		s.Chain.RUnlock()','		height := s.Chain.Height()')
M('bug',R,S,'		peerInfo.Lock()\n		peerInfo.TotalDifficulty = msg.TotalDifficulty\n		peerInfo.Height = msg.Height\n		peerInfo.Unlock()\n\n		logrus','		peerInfo.TotalDifficulty = msg.TotalDifficulty\n		peerInfo.Height = msg.Height\n\n		logrus')
M('bug',R,S,'		peerInfo.Lock()\n\n		if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {\n','		if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {\n			peerInfo.Lock()\n',S,'			peerInfo.Height = msg.Header.Height\n		}\n\n		peerInfo.Unlock()\n','			peerInfo.Height = msg.Header.Height\n			peerInfo.Unlock()\n		}\n')
M('bug',R,C,'	c.RLock()\n	defer c.RUnlock()\n\n	for _, hash','	for _, hash')
M('bug',R,C,'	c.Lock()\n	defer c.Unlock()\n	logrus','	logrus')
M('bug',R,C,'	c.Lock()\n	defer c.Unlock()\n\n	block := c.head','	block := c.head')
M('bug',R,C,'	// TODO: applying block\n\n	return nil','	c.Unlock()\n	c.height = block.Header.Height\n	c.Lock()\n\n	return nil')
M('bug',R,O,'	pp.PeersTable[addr] = &peerInfo{','	rec := &peerInfo{',O,'		LastConn:        time.Unix(0, 0),\n	}\n','		LastConn:        time.Unix(0, 0),\n	}\n	pp.PeersTable[addr] = rec\n	rec.Status = psNew\n')
# --- deadlocks
M('bug',D,O,'	pp.ptmu.Unlock()\n\n	if !ok {\n		return\n	}\n','	if !ok {\n		return\n	}\n	pp.ptmu.Unlock()\n')
M('bug',D,O,'	pp.BannedPeers[addr] = struct{}{}\n	pp.bnmu.Unlock()\n','	pp.BannedPeers[addr] = struct{}{}\n	defer pp.bnmu.Unlock()\n')  # held over ptmu: order with Add
M('bug',D,O,'	peer := peerInfo.Peer\n	peerInfo.Unlock()\n\n	if peer != nil {\n		peer.Close()\n','	peer := peerInfo.Peer\n	defer peerInfo.Unlock()\n\n	if peer != nil {\n		peer.WaitForDisconnect()\n')
M('bug',D,O,'	if status := peerInfo.status(); status == psBanned || status == psConnected {\n		logrus','	peerInfo.Lock()\n	defer peerInfo.Unlock()\n	if status := peerInfo.status(); status == psBanned || status == psConnected {\n		logrus')
M('bug',D,O,'	pp.cpmu.Lock()\n	pp.ConnectedPeers[addr] = peerInfo\n	pp.cpmu.Unlock()\n\n	// And send ping / peers request\n	peerConn.Start()\n	peerConn.SendPing()\n','	pp.cpmu.Lock()\n	pp.ConnectedPeers[addr] = peerInfo\n\n	// And send ping / peers request\n	peerConn.Start()\n	peerConn.SendPing()\n	pp.cpmu.Unlock()\n')
M('bug',D,O,'	if peerInfo.Status == psBanned {\n		peerInfo.Unlock()\n','	if peerInfo.Status == psBanned {\n')
M('bug',D,O,'			peerInfo.Status = psDisconnected\n			peerInfo.Unlock()\n','			peerInfo.Status = psDisconnected\n')
M('bug',D,O,'			peer := peerInfo.Peer\n			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n			peerInfo.Unlock()\n','			defer peerInfo.Unlock()\n			peer := peerInfo.Peer\n			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n')
M('bug',D,O,'		go func(peerInfo *peerInfo) {\n			peerInfo.Lock()\n			peer :=','		func(peerInfo *peerInfo) {\n			peerInfo.Lock()\n			peer :=')
M('bug',D,O,'	pp.bnmu.Lock()\n	defer pp.bnmu.Unlock()\n\n	_, ok','	pp.ptmu.Lock()\n	defer pp.ptmu.Unlock()\n\n	_, ok')
M('bug',D,O,'		if status == psBanned || status == psFailedConn {\n			continue\n		}\n','		if status == psBanned || status == psFailedConn {\n			peerInfo.Lock()\n			continue\n		}\n')
M('bug',D,O,'		peerInfo.Unlock()\n\n		if status == psBanned || status == psFailedConn {\n			continue\n		}\n','		if status == psBanned || status == psFailedConn {\n			continue\n		}\n		peerInfo.Unlock()\n')
M('bug',D,O,'		pp.cpmu.Lock()\n		delete(pp.ConnectedPeers, addr)\n		pp.cpmu.Unlock()\n\n		// update peers table\n		peerInfo.Lock()','		// update peers table\n		peerInfo.Lock()\n		pp.cpmu.Lock()\n		delete(pp.ConnectedPeers, addr)\n		pp.cpmu.Unlock()\n',O,'		go func(peerInfo *peerInfo) {\n			peerInfo.Lock()\n			peer := peerInfo.Peer\n			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n			peerInfo.Unlock()\n','		pi.Lock()\n		pi.Unlock()\n		go func(peerInfo *peerInfo) {\n			peerInfo.Lock()\n			peer := peerInfo.Peer\n			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty\n			peerInfo.Unlock()\n')
M('bug',D,S,'		s.Chain.RUnlock()\n\n		peer.WriteMessage(&resp)','		peer.WriteMessage(&resp)\n		s.Chain.RUnlock()')
M('bug',D,S,'		peerInfo.Height = msg.Height\n		peerInfo.Unlock()\n\n		// send','		peerInfo.Height = msg.Height\n		defer peerInfo.Unlock()\n\n		// send')
M('bug',D,S,'		s.Chain.RLock()\n		height := s.Chain.Height()\n		s.Chain.RUnlock()','		s.Chain.RLock()\n		defer s.Chain.RUnlock()\n		height := s.Chain.Height()',S,'		if err := s.Chain.ProcessBlock(msg); err != nil {\n			logrus.Info(err)','		s.Chain.RLock()\n		err := s.Chain.ProcessBlock(msg)\n		s.Chain.RUnlock()\n		if err != nil {\n			logrus.Info(err)')
M('bug',D,P,'	p.sync.Chain.RUnlock()\n\n	p.WriteMessage(&request)','	p.WriteMessage(&request)\n	p.sync.Chain.RUnlock()')
M('bug',D,P,'	p.sync.Chain.RUnlock()\n','	p.sync.Chain.RLock()\n')
M('bug',D,C,'	c.RLock()\n	defer c.RUnlock()\n\n	for _, hash','	c.RLock()\n\n	for _, hash',C,'			return result\n		}\n	}\n\n	return result','			c.RUnlock()\n			return result\n		}\n	}\n\n	c.RUnlock()\n	return result')
M('bug',D,C,'	c.RLock()\n	defer c.RUnlock()\n\n	for _, hash','	c.Lock()\n	defer c.RUnlock()\n\n	for _, hash')
M('bug',D,C,'	c.Lock()\n	defer c.Unlock()\n	logrus','	c.Lock()\n	defer c.Unlock()\n	_ = c.GetBlockHeaders(consensus.Locator{})\n	logrus')
M('bug',D,O,'			if err := pp.connectPeer(pp.notConnected()); err','			pp.cpmu.Lock()\n			err := pp.connectPeer(pp.notConnected())\n			pp.cpmu.Unlock()\n			if err')
M('bug',D,P,'		case <-p.quit:\n			exitError = errors.New("peer exiting")\n','		case <-p.quit:\n			p.WaitForDisconnect()\n			exitError = errors.New("peer exiting")\n')
# --- refactorings
A='*'
M('ok',A,O,'	pp.bnmu.Lock()\n	defer pp.bnmu.Unlock()\n\n	_, ok := pp.BannedPeers[addr]\n	return ok','	pp.bnmu.Lock()\n	_, ok := pp.BannedPeers[addr]\n	pp.bnmu.Unlock()\n	return ok')
M('ok',A,O,'	pp.ptmu.Lock()\n	peerInfo, ok := pp.PeersTable[addr]\n	pp.ptmu.Unlock()\n	if ok {\n		return peerInfo\n	}\n\n	return nil','	pp.ptmu.Lock()\n	defer pp.ptmu.Unlock()\n	return pp.PeersTable[addr]')
M('ok',A,O,'		peerInfo.Lock()\n		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities\n		peerInfo.Unlock()','		status, peerCapabilities := peerInfo.summary()',O,'// status returns','func (pi *peerInfo) summary() (peerStatus, consensus.Capabilities) {\n	pi.Lock()\n	defer pi.Unlock()\n	return pi.Status, pi.Capabilities\n}\n\n// status returns')
M('ok',A,S,'		peerInfo.Lock()\n		peerInfo.TotalDifficulty = msg.TotalDifficulty\n		peerInfo.Height = msg.Height\n		peerInfo.Unlock()\n\n		logrus','		peerInfo.update(msg.TotalDifficulty, msg.Height)\n\n		logrus',S,'		peerInfo.Lock()\n		peerInfo.TotalDifficulty = msg.TotalDifficulty\n		peerInfo.Height = msg.Height\n		peerInfo.Unlock()\n','		peerInfo.update(msg.TotalDifficulty, msg.Height)\n',O,'// status returns','func (pi *peerInfo) update(d consensus.Difficulty, h uint64) {\n	pi.Lock()\n	defer pi.Unlock()\n	pi.Height, pi.TotalDifficulty = h, d\n}\n\n// status returns')
M('ok',A,S,'		s.Chain.RLock()\n		resp.TotalDifficulty = s.Chain.TotalDifficulty()\n		resp.Height = s.Chain.Height()\n		s.Chain.RUnlock()\n','		resp.TotalDifficulty, resp.Height = tip(s.Chain)\n',S,'func (s *Syncer) ProcessMessage','func tip(c Blockchain) (consensus.Difficulty, uint64) {\n	c.RLock()\n	defer c.RUnlock()\n	return c.TotalDifficulty(), c.Height()\n}\n\nfunc (s *Syncer) ProcessMessage')
M('ok',A,C,'	result := make([]consensus.BlockHeader, 0)\n	c.RLock()\n	defer c.RUnlock()\n\n	for','	c.RLock()\n	defer c.RUnlock()\n\n	result := make([]consensus.BlockHeader, 0)\n	for')
M('ok',A,O,'	// Close all connections\n	pp.ptmu.Lock()\n	defer pp.ptmu.Unlock()\n\n	for _, pi := range pp.PeersTable {\n','	// Close all connections\n	pp.ptmu.Lock()\n	infos := make([]*peerInfo, 0, len(pp.PeersTable))\n	for _, pi := range pp.PeersTable {\n		infos = append(infos, pi)\n	}\n	pp.ptmu.Unlock()\n\n	for _, pi := range infos {\n')
