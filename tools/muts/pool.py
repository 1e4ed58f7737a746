P='p2p/pool.go'; Q='p2p/peer.go'
# --- N06 ---
M('bug','N06',P,'''		// nobody to connect to, give the connection slot back
		<-pp.pool
''','')
M('bug','N06',P,'''		logrus.Debug("dont connect to banned host (or already connected)")
		<-pp.pool
''','''		logrus.Debug("dont connect to banned host (or already connected)")
''')
M('bug','N06',P,'''		peerConn.Close()
		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)''','''		peerConn.Close()
		logrus.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
		return nil''')
M('bug','N06',P,'''		peerInfo.Unlock()
		peerConn.Close()
		return errors.New("peer has been banned")''','''		peerInfo.Unlock()
		peerConn.Close()
		<-pp.pool
		return errors.New("peer has been banned")''')
M('bug','N06',P,'''				logrus.Error(err)
				<-pp.pool
''','''				logrus.Error(err)
''')
M('bug','N06',P,'''		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
''','''		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		select {
		case <-pp.pool:
		default:
		}
''')
M('bug','N06',P,'''		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
''','''		banned := peerInfo.Status == psBanned
		if !banned {
			peerInfo.Status = psDisconnected
		}
		peerInfo.Unlock()

		if !banned {
			<-pp.pool
		}
''')
M('bug','N06',P,'''		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()

		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()
''','''		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()
''')
M('bug','N06',P,'''		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
''','')
M('bug','N06',P,'''		delete(pp.ConnectedPeers, addr)
''','''		delete(pp.ConnectedPeers, peerConn.Conn())
''',Q,'''// Start starts loop''','''// Conn is the remote address
func (p *Peer) Conn() string { return p.conn.RemoteAddr().String() }

// Start starts loop''')
M('bug','N06',P,'''	atomic.AddInt32(&pp.connected, 1)
	pp.cpmu.Lock()
	pp.ConnectedPeers[addr] = peerInfo
	pp.cpmu.Unlock()

	// And send''','''	pp.cpmu.Lock()
	if _, ok := pp.ConnectedPeers[addr]; !ok {
		atomic.AddInt32(&pp.connected, 1)
	}
	pp.ConnectedPeers[addr] = peerInfo
	pp.cpmu.Unlock()

	// And send''')
M('bug','N06',P,'''	// update connected peers
	atomic.AddInt32(&pp.connected, 1)
	pp.cpmu.Lock()
	pp.ConnectedPeers[addr] = peerInfo
	pp.cpmu.Unlock()

	// And send''','''	// And send''',P,'''		<-pp.pool
	}()

	return nil''','''		<-pp.pool
	}()

	// update connected peers
	atomic.AddInt32(&pp.connected, 1)
	pp.cpmu.Lock()
	pp.ConnectedPeers[addr] = peerInfo
	pp.cpmu.Unlock()
	return nil''')
M('bug','N06',P,'''		peerConn.WaitForDisconnect()
		logrus.Infof''','''		logrus.Infof''')
M('bug','N06',Q,'''	<-p.quit
	p.wg.Wait()
''','''	<-p.quit
''')
M('bug','N06',P,'make(chan struct{}, maxOnlineConnections)','make(chan struct{}, maxPeersTableSize)')
M('bug','N06',P,'''func (pp *peersPool) Stop() {
''','''func (pp *peersPool) Stop() {
	select {
	case <-pp.pool:
	default:
	}
''')
M('bug','N06',P,'''	if peer != nil {
		peer.Close()
	}
}''','''	if peer != nil {
		peer.Close()
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()
	}
}''')
# --- N07 ---
M('bug','N07',Q,'''	if err != nil {
		conn.Close()
		return nil, err
	}

	p := new(Peer)''','''	if err != nil {
		return nil, err
	}

	p := new(Peer)''')
M('bug','N07',P,'''		peerConn.Close()
		return fmt.Errorf(''','''		return fmt.Errorf(''')
M('bug','N07',P,'''		peerInfo.Unlock()
		peerConn.Close()
		return errors''','''		peerInfo.Unlock()
		return errors''')
M('bug','N07',Q,'''	close(p.quit)
	p.conn.Close()
''','''	close(p.quit)
	if reason != nil {
		p.conn.Close()
	}
''')
M('bug','N07',Q,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync''','''	if shake.TotalDifficulty == 0 {
		return nil, errors.New("nothing to sync")
	}

	p := new(Peer)
	p.conn = conn
	p.sync = sync''')
M('bug','N07 N08',P,'''	peerConn.Start()
	peerConn.SendPing()''','''	if peerConn.Info.Height > 0 {
		peerConn.Start()
	}
	peerConn.SendPing()''')
# --- N03 ---
M('bug','N03',P,'''	if peerInfo.Status == psBanned {
		peerInfo.Unlock()
		peerConn.Close()
		return errors.New("peer has been banned")
	}
''','')
M('bug','N03',P,'''	// update peers table
	peerInfo.Lock()
	if peerInfo.Status == psBanned {
		peerInfo.Unlock()
		peerConn.Close()
		return errors.New("peer has been banned")
	}
''','''	// update peers table
	if peerInfo.status() == psBanned {
		peerConn.Close()
		return errors.New("peer has been banned")
	}
	peerInfo.Lock()
''')
M('bug','N03',P,'''	// Add to ban list
	pp.bnmu.Lock()
	pp.BannedPeers[addr] = struct{}{}
	pp.bnmu.Unlock()

	// Clear the peers table
	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()
''','''	// Clear the peers table
	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	// Add to ban list
	pp.bnmu.Lock()
	pp.BannedPeers[addr] = struct{}{}
	pp.bnmu.Unlock()
''')
M('bug','N03',P,'''	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}
''','''	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()
''')
M('bug','N03',P,'''	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()
''','''	peer := peerInfo.Peer
	peerInfo.Unlock()
''')
M('bug','N03',P,'''	peerInfo.Lock()
	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()
''','''	peerInfo.Lock()
	peer := peerInfo.Peer
	peerInfo.Unlock()

	peerInfo.Lock()
	peerInfo.Status = psBanned
	peerInfo.Unlock()
''')
M('bug','N03',P,'''	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()
''','''	if peerInfo.Status != psConnected {
		peerInfo.Unlock()
		return
	}
	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()
''')
M('bug','N03',P,'''	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if !ok {''','''	pp.ptmu.Unlock()

	if !ok {''')
M('bug','N03',P,'''	if peer != nil {
		peer.Close()
	}
}''','''	_ = peer
}''')
M('bug','N03',P,'''	// Checks for existing
''','''	// make room
	if len(pp.PeersTable) == maxPeersTableSize {
		pp.bnmu.Lock()
		for a := range pp.BannedPeers {
			delete(pp.BannedPeers, a)
			break
		}
		pp.bnmu.Unlock()
	}

	// Checks for existing
''')
M('bug','N03',P,'''	_, ok := pp.BannedPeers[addr]
	return ok
''','''	_, ok := pp.BannedPeers[addr]
	_, known := pp.ConnectedPeers[addr]
	return ok && !known
''')
M('bug','N03',Q,'''	p.Addr = addr
''','''	p.Addr = tcpAddr.String()
''')
M('bug','N03',P,'''	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if !ok {
		return
	}
''','''	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()

	if !ok {
		return
	}

	pp.ptmu.Lock()
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()
''')
# --- ok ---
M('ok','N03 N06 N07 N12 N15',P,'''	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if !ok {
		return
	}
''','''	peerInfo := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if peerInfo == nil {
		return
	}
''')
M('ok','N03 N06 N07 N12 N15 N08',P,'''			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}
''','''			addr := pp.notConnected()
			err := pp.connectPeer(addr)
			if err != nil {
				pp.release()
				logrus.Error(err)
			}
''',P,'''// Stop stops''','''func (pp *peersPool) release() { <-pp.pool }

// Stop stops''')
M('ok','N03 N06 N07 N12 N15 N08',P,'''	// on disconnect update info
	go func() {
		peerConn.WaitForDisconnect()
		logrus.Infof("closed peer connection (%s)", addr)

		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()

		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
	}()

	return nil
}
''','''	// on disconnect update info
	go pp.watch(addr, peerConn, peerInfo)

	return nil
}

func (pp *peersPool) watch(addr string, peer *Peer, info *peerInfo) {
	defer func() {
		<-pp.pool
	}()

	peer.WaitForDisconnect()
	logrus.Infof("closed peer connection (%s)", addr)

	// clean connected peers
	pp.cpmu.Lock()
	delete(pp.ConnectedPeers, addr)
	atomic.AddInt32(&pp.connected, -1)
	pp.cpmu.Unlock()

	// update peers table
	info.Lock()
	defer info.Unlock()
	info.Status = psDisconnected
}
''')
M('ok','N03 N06 N07 N12 N15 N08',P,'''	if peerConn.Info.Version != consensus.ProtocolVersion {
		peerConn.Close()
		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
	}
''','''	if v := peerConn.Info.Version; v != consensus.ProtocolVersion {
		err := fmt.Errorf("unexpected protocolVersion: %d", v)
		peerConn.Disconnect(err)
		return err
	}
''')
M('ok','N03 N06 N07 N12 N15 N08',Q,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''','''	p := &Peer{
		conn:      conn,
		sync:      sync,
		quit:      make(chan struct{}),
		sendQueue: make(chan Message),
	}
''')
M('ok','N03 N06 N07 N12 N15 N08',P,'''	for {
		select {
		case <-pp.quit:
			break out

		case pp.pool <- struct{}{}:
			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}

			time.Sleep(time.Second)
		}
	}
''','''	for {
		select {
		case <-pp.quit:
			break out

		case pp.pool <- struct{}{}:
		}

		if err := pp.connectPeer(pp.notConnected()); err != nil {
			logrus.Error(err)
			<-pp.pool
		}
		time.Sleep(time.Second)
	}
''')
M('ok','N03 N06 N07 N12 N15 N08',P,'''	// Mark banned & Close connection
	peerInfo.Lock()
	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()

	if peer != nil {
		peer.Close()
	}
}''','''	// Mark banned & Close connection
	if peer := peerInfo.ban(); peer != nil {
		peer.Close()
	}
}

func (pi *peerInfo) ban() *Peer {
	pi.Lock()
	defer pi.Unlock()
	pi.Status = psBanned
	return pi.Peer
}''')
