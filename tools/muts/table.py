P='p2p/pool.go'
# --- N12 ---
M('bug','N12',P,'netAddr.IP.IsMulticast()','netAddr.IP.IsLinkLocalMulticast()')
M('bug','N12',P,'''	if netAddr.Port == 0 {
		return
	}
''','')
M('bug','N12',P,'''	if netAddr.IP.IsMulticast() {
		return
	}

	if netAddr.Port == 0 {
		return
	}
''','''	if netAddr.IP.IsMulticast() && netAddr.Port == 0 {
		return
	}
''')
M('bug','N12',P,'if len(pp.PeersTable) > maxPeersTableSize {','if len(pp.PeersTable) > maxPeersTableSize*2 {')
M('bug','N12',P,'if len(pp.PeersTable) > maxPeersTableSize {','if len(pp.ConnectedPeers) > maxPeersTableSize {')
M('bug','N12',P,'maxPeersTableSize    = 10000','maxPeersTableSize    = 100000')
M('bug','N12',P,'''	// Checks for existing
	if _, ok := pp.PeersTable[addr]; ok {
		return
	}
''','')
M('bug','N12',P,'if _, ok := pp.PeersTable[addr]; ok {','if pi, ok := pp.PeersTable[addr]; ok && pi.status() != psFailedConn {')
M('bug','N12',P,'if _, ok := pp.PeersTable[addr]; ok {','if _, ok := pp.PeersTable[netAddr.String()]; ok {')
M('bug','N12',P,'if _, ok := pp.PeersTable[addr]; ok {','if _, ok := pp.ConnectedPeers[addr]; ok {')
# check and entry under different holds
M('bug','N12',P,'''	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	// Don't add if big peer table
	if len(pp.PeersTable) > maxPeersTableSize {
		return
	}

	// Checks for existing
	if _, ok := pp.PeersTable[addr]; ok {
		return
	}
''','''	pp.ptmu.Lock()
	_, known := pp.PeersTable[addr]
	full := len(pp.PeersTable) > maxPeersTableSize
	pp.ptmu.Unlock()
	if known || full {
		return
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}
''')
M('bug','N12',P,'		Status:          psNew,','		Status:          psDisconnected,')
M('bug','N12',P,'''		if status == psBanned || status == psFailedConn {''','''		if status == psBanned || status == psNew {''')
M('bug','N12',P,'''		if status == psBanned || status == psFailedConn {''','''		if status == psBanned {''')
M('bug','N12',P,'if (peerCapabilities & capabilities) != capabilities {','if (peerCapabilities & capabilities) == 0 {')
M('bug','N12',P,'if (peerCapabilities & capabilities) != capabilities {','if (peerCapabilities & capabilities) != peerCapabilities {')
M('bug','N12',P,'if (peerCapabilities & capabilities) != capabilities {','if capabilities != consensus.CapFullNode && (peerCapabilities & capabilities) != capabilities {')
M('bug','N12',P,'''		addrs = append(addrs, peerInfo.netAddr)
''','''		addrs = append(addrs, peerInfo.netAddr)
		peerInfo.netAddr = &net.TCPAddr{IP: peerInfo.netAddr.IP, Port: peerInfo.netAddr.Port}
''')
M('bug','N12',P,'''	peerInfo.Peer = peerConn
	peerInfo.Status = psConnected
''','''	peerInfo.Peer = peerConn
	peerInfo.Status = psConnected
	if a, ok := peerConn.conn.RemoteAddr().(*net.TCPAddr); ok {
		peerInfo.netAddr = a
	}
''')
M('bug','N12','p2p/pool.go','net.ResolveTCPAddr("tcp", addr)','net.ResolveTCPAddr("tcp6", addr)')
# the entry is made under another name than was looked at
M('bug','N12',P,'	pp.PeersTable[addr] = &peerInfo{','	pp.PeersTable[netAddr.String()] = &peerInfo{')
# refactorings
M('ok','N12 N03 N09 N10',P,'''	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	// Don't add if big peer table
	if len(pp.PeersTable) > maxPeersTableSize {
		return
	}

	// Checks for existing
	if _, ok := pp.PeersTable[addr]; ok {
		return
	}

	// Adds new
	pp.PeersTable[addr] = &peerInfo{
		netAddr:         netAddr,
		Status:          psNew,
		Peer:            nil,
		ProtocolVersion: 0,
		Height:          0,
		TotalDifficulty: consensus.ZeroDifficulty,
		Capabilities:    consensus.CapUnknown,
		LastConn:        time.Unix(0, 0),
	}
}
''','''	if !pp.room() || pp.IsBan(addr) || pp.knows(addr) {
		return
	}

	pi := new(peerInfo)
	pi.netAddr = netAddr
	pi.TotalDifficulty = consensus.ZeroDifficulty
	pi.Capabilities = consensus.CapUnknown
	pi.LastConn = time.Unix(0, 0)
	pp.PeersTable[addr] = pi
}

func (pp *peersPool) room() bool { return len(pp.PeersTable) < maxPeersTableSize }

func (pp *peersPool) knows(addr string) bool {
	_, ok := pp.PeersTable[addr]
	return ok
}
''')
M('ok','N12 N03',P,'''	if netAddr.IP.IsMulticast() {
		return
	}

	if netAddr.Port == 0 {
		return
	}
''','''	if !usable(netAddr) {
		return
	}
''',P,'''type peerStatus int
''','''func usable(a *net.TCPAddr) bool {
	return a != nil && a.Port > 0 && !a.IP.IsMulticast()
}

type peerStatus int
''')
M('ok','N12 C05 N13',P,'''		peerInfo.Lock()
		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities
		peerInfo.Unlock()

		if status == psBanned || status == psFailedConn {
			continue
		}

		// filter by capabilities
		if (peerCapabilities & capabilities) != capabilities {
			continue
		}

		addrs = append(addrs, peerInfo.netAddr)

		if len(addrs) == consensus.MaxPeerAddrs {
			break
		}
''','''		if len(addrs) >= consensus.MaxPeerAddrs {
			break
		}
		if peerInfo.offers(capabilities) {
			addrs = append(addrs, peerInfo.netAddr)
		}
''',P,'''type peerStatus int
''','''func (pi *peerInfo) offers(c consensus.Capabilities) bool {
	pi.Lock()
	defer pi.Unlock()
	switch pi.Status {
	case psNew, psConnected, psDisconnected:
		return c&^pi.Capabilities == 0
	}
	return false
}

type peerStatus int
''')
M('ok','N12 C05 N13',P,'''	addrs := make([]*net.TCPAddr, 0)
''','''	list := &PeerAddrs{}
''',P,'addrs = append(addrs, peerInfo.netAddr)','list.peers = append(list.peers, peerInfo.netAddr)',P,'if len(addrs) == consensus','if len(list.peers) == consensus',P,'''	return &PeerAddrs{
		peers: addrs,
	}
''','''	return list
''')
M('ok','N12 C05 N13',P,'''	for _, peerInfo := range pp.PeersTable {
		peerInfo.Lock()
		status, peerCapabilities''','''	for addr := range pp.PeersTable {
		peerInfo := pp.PeersTable[addr]
		peerInfo.Lock()
		status, peerCapabilities''')
