P='p2p/pool.go'
# --- N15 ---
M('bug','N15',P,'status == psNew || status == psDisconnected {','status != psBanned {',P,'if status := peerInfo.status(); status == psBanned || status == psConnected {','if status := peerInfo.status(); status == psBanned {')
M('bug','N15',P,'status == psNew || status == psDisconnected {','status == psNew || status == psDisconnected || status == psFailedConn {')
M('bug','N15',P,'''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}
''','''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew {
			return addr
		}
	}
''')
M('bug','N15',P,'''		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
''','''		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
		if len(addr) > 64 {
			break
		}
''')
M('bug','N15',P,'''		peerInfo.Lock()
		peerInfo.Status = psFailedConn
		peerInfo.Unlock()
		return err
''','''		return err
''')
M('bug','N15',P,'''		peerInfo.Lock()
		peerInfo.Status = psFailedConn
		peerInfo.Unlock()
		return err
''','''		if peerInfo.status() == psNew {
			peerInfo.Lock()
			peerInfo.Status = psFailedConn
			peerInfo.Unlock()
		}
		return err
''')
M('bug','N15',P,'''		peerInfo.Status = psFailedConn
''','''		peerInfo.Status = psDisconnected
''')
M('bug','N15',P,'''		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
''','''		peerInfo.Unlock()

		<-pp.pool
''')
M('bug','N15',P,'''		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
''','''		if peerInfo.Height > 0 {
			peerInfo.Status = psDisconnected
		}
		peerInfo.Unlock()

		<-pp.pool
''')
M('bug','N15',P,'''		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
''','''		peerInfo.Status = psFailedConn
		peerInfo.Unlock()

		<-pp.pool
''')
M('bug','N15',P,'''	go func() {
		peerConn.WaitForDisconnect()
''','''	go func() {
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()
		peerConn.WaitForDisconnect()
''')
# the status is set after the watcher runs
M('bug','N15',P,'''	peerInfo.Status = psConnected
	peerInfo.LastConn''','''	peerInfo.LastConn''',P,'''		<-pp.pool
	}()

	return nil
''','''		<-pp.pool
	}()

	peerInfo.Lock()
	if peerInfo.Status != psBanned {
		peerInfo.Status = psConnected
	}
	peerInfo.Unlock()
	return nil
''')
M('bug','N15',P,'''			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}
''','''			go func(addr string) {
				if err := pp.connectPeer(addr); err != nil {
					logrus.Error(err)
					<-pp.pool
				}
			}(pp.notConnected())
''')
M('bug','N15','p2p/sync.go','''		sync.Pool.Add(addr)
''','''		sync.Pool.Add(addr)
		if peer, err := NewPeer(sync, addr); err == nil {
			peer.Close()
		}
''')
# a peer that is asked for becomes new again
M('bug','N15',P,'''	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()
	if ok {
		return peerInfo
''','''	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()
	if ok {
		peerInfo.Lock()
		if peerInfo.Height == 0 {
			peerInfo.Status = psNew
		}
		peerInfo.Unlock()
		return peerInfo
''')
M('bug','N15',P,'''	if !ok {
		return errors.New("peer doesn't exists at peersTable")
	}
''','''	if !ok {
		peerConn, err := NewPeer(pp.sync, addr)
		if err == nil {
			peerConn.Close()
		}
		return errors.New("peer doesn't exists at peersTable")
	}
''')
M('bug','N15',P,'''		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""
''','''		if status := peerInfo.status(); status == psNew || status == psDisconnected || status == psFailedConn {
			return addr
		}
	}

	return ""
''')
# refactorings
M('ok','N15 N03 N06 N07',P,'''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""
''','''	// find good peers, or else a failed one
	failed := ""
	for addr, peerInfo := range pp.PeersTable {
		switch peerInfo.status() {
		case psNew, psDisconnected:
			return addr
		case psFailedConn:
			failed = addr
		}
	}

	return failed
''')
M('ok','N15 N03 N06 N07',P,'''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""
''','''	fresh := func(s peerStatus) bool { return s == psNew || s == psDisconnected }
	if addr := pp.find(fresh); addr != "" {
		return addr
	}
	return pp.find(func(s peerStatus) bool { return s == psFailedConn })
''',P,'''type peerStatus int
''','''// find returns the first addr whose status is wanted, with ptmu held
func (pp *peersPool) find(want func(peerStatus) bool) string {
	for addr, pi := range pp.PeersTable {
		if want(pi.status()) {
			return addr
		}
	}
	return ""
}

type peerStatus int
''')
M('ok','N15 N03 N06 N07',P,'''		peerInfo.Lock()
		peerInfo.Status = psFailedConn
		peerInfo.Unlock()
		return err
''','''		peerInfo.setStatus(psFailedConn)
		return err
''',P,'''type peerStatus int
''','''func (pi *peerInfo) setStatus(s peerStatus) {
	pi.Lock()
	pi.Status = s
	pi.Unlock()
}

type peerStatus int
''')
M('ok','N15 N03 N06 N07',P,'''		if peer.status() == psFailedConn {
			return addr
		}
''','''		if s := peer.status(); s != psConnected && s != psBanned {
			return addr
		}
''')
M('ok','N15 N03 N06 N07',P,'''	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}
''','''	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// first, find good peers
	good := ""
	for addr, peerInfo := range pp.PeersTable {
		status := peerInfo.status()
		if status != psNew && status != psDisconnected {
			continue
		}
		good = addr
		break
	}
	if good != "" {
		return good
	}
''')
