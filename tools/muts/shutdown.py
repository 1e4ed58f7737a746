P='p2p/peer.go'; O='p2p/pool.go'
I='N08'
D='''	if !atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		return
	}
'''
M('bug',I,P,D,'''	if atomic.LoadInt32(&p.disconnect) != 0 {
		return
	}
	atomic.StoreInt32(&p.disconnect, 1)
''')
M('bug',I,P,D,'	atomic.StoreInt32(&p.disconnect, 1)\n')
M('bug',I,P,D,D.replace('0, 1','0, 0'))
M('bug',I,P,'	close(p.quit)\n	p.conn.Close()','	p.conn.Close()')
M('bug',I,P,'	close(p.quit)\n	p.conn.Close()','	if reason != nil {\n		close(p.quit)\n	}\n	p.conn.Close()')
M('bug',I,P,'	p.Disconnect(errors.New("closing peer"))','	close(p.quit)')
M('bug',I,P,'p.wg.Add(2)','p.wg.Add(1)')
M('bug',I,P,'	p.wg.Add(2)\n	go p.writeHandler()\n','	go p.writeHandler()\n	p.wg.Add(2)\n')
M('bug',I,P,'	p.wg.Add(2)\n	go p.writeHandler()\n	go p.readHandler()','	p.wg.Add(1)\n	go p.readHandler()')
M('bug',I,P,'''			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {
				break out
			}
''','''			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {
				return
			}
''')
M('bug',I,P,'''			exitError = errors.New("peer exiting")
			break out
''','''			exitError = errors.New("peer exiting")
			continue
''')
M('bug',I,P,'''		case <-p.quit:
			exitError = errors.New("peer exiting")
			break out
		}
''','''		}
''')
M('bug',I,P,'''	p.wg.Done()
	p.Disconnect(exitError)
}

// WriteMessage''','''	p.wg.Done()
}

// WriteMessage''')
M('bug',I,P,'''	p.wg.Done()
	p.Disconnect(exitError)
}

// WriteMessage''','''	p.Disconnect(exitError)
}

// WriteMessage''')
M('bug',I,P,'''	p.wg.Done()
	p.Disconnect(exitError)
}

// WriteMessage''','''	p.Disconnect(exitError)
	p.WaitForDisconnect()
	p.wg.Done()
}

// WriteMessage''')
M('bug',I,P,'''	p.wg.Done()
	p.Disconnect(exitError)
}

// Disconnect''','''	p.wg.Done()
	if exitError != nil {
		p.Disconnect(exitError)
	}
}

// Disconnect''')
M('bug',I,P,'''	select {
	case <-p.quit:
		logrus.Info("cannot send message, peer is shutting down")
	case p.sendQueue <- msg:
	}
''','''	p.sendQueue <- msg
''')
M('bug',I,P,'''	select {
	case <-p.quit:
		logrus.Info("cannot send message, peer is shutting down")
	case p.sendQueue <- msg:
	}
''','''	if atomic.LoadInt32(&p.disconnect) == 0 {
		p.sendQueue <- msg
	}
''')
M('bug',I,P,'	<-p.quit\n	p.wg.Wait()','	p.wg.Wait()')
M('bug',I,P,'	<-p.quit\n	p.wg.Wait()','	p.wg.Wait()\n	<-p.quit')
M('bug',I,P,'''			logrus.Infof("Failed to read message: %v", err)
			break out
''','''			logrus.Infof("Failed to read message: %v", err)
			continue
''')
M('bug',I,P,'''		if exitError = header.Read(input); exitError != nil {
			logrus.Debugf("Failed to read message from peer %v", p.conn.RemoteAddr())
			break out
''','''		if exitError = header.Read(input); exitError != nil {
			logrus.Debugf("Failed to read message from peer %v", p.conn.RemoteAddr())
			continue
''')
M('bug',I,P,'	p.quit = make(chan struct{})\n	p.sendQueue = make(chan Message)\n\n	p.Info.Version = hand','	p.sendQueue = make(chan Message)\n\n	p.Info.Version = hand')
M('bug',I,P,'	p.sendQueue = make(chan Message)\n\n	// Store','\n	// Store')
M('bug',I,P,'	close(p.quit)\n	p.conn.Close()','	close(p.quit)\n	close(p.sendQueue)\n	p.conn.Close()')
M('bug',I,P,'	close(p.quit)\n	p.conn.Close()','	close(p.quit)\n	p.quit = nil\n	p.conn.Close()')
M('bug',I,P,'	close(p.quit)\n	p.conn.Close()','	close(p.quit)\n	p.conn.Close()\n	atomic.StoreInt32(&p.disconnect, 0)')
M('bug',I,P,'	logrus.Info("sending transaction")\n	p.WriteMessage(&tx)','	logrus.Info("sending transaction")\n	p.sendQueue <- &tx')
M('bug',I,P,'		case <-p.quit:\n			exitError = errors.New("peer exiting")\n			break out\n','		default:\n')
# refactorings
A='*'
M('ok',A,P,D,'''	if claimed := atomic.CompareAndSwapInt32(&p.disconnect, 0, 1); !claimed {
		return
	}
''')
M('ok',A,P,'''	if !atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		return
	}

	logrus.Info("Disconnect peer: ", reason)

	close(p.quit)
	p.conn.Close()
''','''	if atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		logrus.Info("Disconnect peer: ", reason)
		p.conn.Close()
		close(p.quit)
	}
''')
M('ok',A,P,'''	p.wg.Add(2)
	go p.writeHandler()
	go p.readHandler()''','''	p.wg.Add(1)
	go p.writeHandler()

	p.wg.Add(1)
	go p.readHandler()''')
M('ok',A,P,'''	p.wg.Add(2)
	go p.writeHandler()
	go p.readHandler()''','''	p.launch(p.writeHandler, p.readHandler)''',P,'''// Disconnect closes''','''func (p *Peer) launch(write, read func()) {
	p.wg.Add(2)
	go write()
	go read()
}

// Disconnect closes''')
M('ok',A,P,'''	select {
	case <-p.quit:
		logrus.Info("cannot send message, peer is shutting down")
	case p.sendQueue <- msg:
	}
''','''	select {
	case p.sendQueue <- msg:
		return
	case <-p.quit:
	}
	logrus.Info("cannot send message, peer is shutting down")
''')
M('ok',A,P,'''	p.wg.Done()
	p.Disconnect(exitError)
}

// WriteMessage''','''	p.Disconnect(exitError)
	p.wg.Done()
}

// WriteMessage''')
M('ok',A,P,'''	var exitError error

out:
	for {
		select {''','''	var exitError error
	defer func() {
		p.wg.Done()
		p.Disconnect(exitError)
	}()

out:
	for {
		select {''',P,'''	p.wg.Done()
	p.Disconnect(exitError)
}

// WriteMessage''','''}

// WriteMessage''')
M('ok',A,P,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''','''	p := newPeer(conn)
	p.sync = sync
''',P,'''	p := new(Peer)
	p.conn = conn
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''','''	p := newPeer(conn)
''',P,'// AcceptNewPeer','''func newPeer(conn net.Conn) *Peer {
	return &Peer{conn: conn, quit: make(chan struct{}), sendQueue: make(chan Message)}
}

// AcceptNewPeer''')
M('bug','N11',P,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''','''	p := newPeer(conn)
''',P,'''	p := new(Peer)
	p.conn = conn
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''','''	p := newPeer(conn)
''',P,'''// AcceptNewPeer''','''func newPeer(conn net.Conn) *Peer {
	return &Peer{conn: conn, quit: make(chan struct{}), sendQueue: make(chan Message)}
}

// AcceptNewPeer''')
