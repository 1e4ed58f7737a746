P='p2p/peer.go'; R='p2p/protocol.go'; MS='p2p/messages.go'
# C06
M('bug','C06',R,'	if header.Type != msg.Type() {','	if header.Type != msg.Type() && header.Type != consensus.MsgTypeError {')
M('bug','C06',R,'	if header.Len > consensus.MaxMsgLen {\n		return uint64(consensus.HeaderLen), errors','	if header.Len > consensus.MaxMsgLen*2 {\n		return uint64(consensus.HeaderLen), errors')
M('bug','C06',R,'	rb := io.LimitReader(r, int64(header.Len))','	rb := io.LimitReader(r, int64(header.Len)+1)')
M('bug','C06',R,'	rb := io.LimitReader(r, int64(header.Len))','	rb := io.LimitReader(bufio.NewReader(r), int64(header.Len))')
M('bug','C06',R,'	_, err := io.Copy(ioutil.Discard, rb)\n','	var err error\n	if header.Len > 1024 {\n		_, err = io.Copy(ioutil.Discard, rb)\n	}\n')
M('bug','C06',R,'	_, err := io.Copy(ioutil.Discard, rb)\n','	_, err := io.CopyN(ioutil.Discard, rb, 16)\n')
M('bug','C06',R,'	if err := msg.Read(rb); err != nil {\n		return','	if err := msg.Read(rb); err != nil && err != io.EOF {\n		return')
M('bug','C06',P,'	for atomic.LoadInt32(&p.disconnect) == 0 {\n','	for atomic.LoadInt32(&p.disconnect) == 0 {\n		input := bufio.NewReader(p.conn)\n')
M('bug','C06',P,'make([]byte, header.Len)\n		_, err','make([]byte, uint32(header.Len))\n		_, err',P,'if header.Len > consensus.MaxMsgLen','if uint32(header.Len) > uint32(consensus.MaxMsgLen)')
M('bug','C06',P,'rl := bytes.NewReader(readBuffer)','rl := bytes.NewReader(append(header.Bytes(), readBuffer...))')
M('bug','C06',P,'case consensus.MsgTypeGetCompactBlock:','case consensus.MsgTypeGetCompactBlock:\n			input.Discard(1)')
M('bug','C06',P,'			// TODO: impl it\n','			input.Reset(p.conn)\n')
M('bug','C06',MS,'	return bytes.Equal(h.magic[:], consensus.MagicCode[:])','	return bytes.Equal(h.magic[:1], consensus.MagicCode[:1])')
M('bug','C06',P,'		_, err := io.ReadFull(input, readBuffer)\n','		_, err := input.Read(readBuffer)\n')
M('bug','C06',P,'rl := bytes.NewReader(readBuffer)','rl := io.MultiReader(bytes.NewReader(readBuffer), input)')
M('bug','C06',P,'rl := bytes.NewReader(readBuffer)','rl := bufio.NewReader(input)')
M('ok','*',P,'rl := bytes.NewReader(readBuffer)','rl := bytes.NewBuffer(readBuffer)')
M('ok','*',P,'		readBuffer := make([]byte, header.Len)\n		_, err := io.ReadFull(input, readBuffer)\n		if err != nil {\n			logrus.Infof("Failed to read message: %v", err)\n			break out\n		}\n','		readBuffer, err := readBody(input, header)\n		if err != nil {\n			logrus.Infof("Failed to read message: %v", err)\n			break out\n		}\n',P,'// Disconnect closes peer connection','func readBody(r io.Reader, h *Header) ([]byte, error) {\n	b := make([]byte, h.Len)\n	if _, err := io.ReadFull(r, b); err != nil {\n		return nil, err\n	}\n	return b, nil\n}\n\n// Disconnect closes peer connection')
M('ok','*',R,'	rb := io.LimitReader(r, int64(header.Len))\n	if err := msg.Read(rb); err != nil {','	body := make([]byte, header.Len)\n	if _, err := io.ReadFull(r, body); err != nil {\n		return uint64(consensus.HeaderLen), err\n	}\n	if err := msg.Read(bytes.NewReader(body)); err != nil {',R,'	// leave the reader at the next message\n	_, err := io.Copy(ioutil.Discard, rb)\n','	var err error\n',R,'	"io/ioutil"\n','',R,'import (','import (\n	"bytes"')
M('ok','*',R,'	if header.Type != msg.Type() {\n		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")\n	}\n\n	if header.Len > consensus.MaxMsgLen {\n		return uint64(consensus.HeaderLen), errors.New("too big message size")\n	}\n','	if header.Len > consensus.MaxMsgLen {\n		return uint64(consensus.HeaderLen), errors.New("too big message size")\n	}\n\n	if want := msg.Type(); want != header.Type {\n		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")\n	}\n')
# C07
M('bug','C07',R,'		Len:   uint64(len(data)),','		Len:   uint64(len(data)) + consensus.HeaderLen,')
M('bug','C07',R,'	return uint64(n) + consensus.HeaderLen, wr.Flush()','	wr.Flush()\n	return uint64(n) + consensus.HeaderLen, nil')
M('bug','C07',R,'	return uint64(n) + consensus.HeaderLen, wr.Flush()','	if n == 0 {\n		return consensus.HeaderLen, nil\n	}\n	return uint64(n) + consensus.HeaderLen, wr.Flush()')
M('bug','C07',R,'	n, err := wr.Write(data)','	n, err := w.Write(data)')
M('bug','C07',R,'		magic: consensus.MagicCode,','		magic: [2]byte{0x34, 0x54},')
M('bug','C07',R,'	if err := header.Write(wr); err != nil {\n		return 0, err\n	}','	header.Write(w)')
M('bug','C07',P,'			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {\n				break out\n			}','			if written, exitError = WriteMessage(p.conn, msg); exitError == io.EOF {\n				break out\n			}')
M('bug','C07',P,'			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {\n				break out\n			}','			go WriteMessage(p.conn, msg)\n			_ = exitError')
M('bug','C07',P,'	p.WriteMessage(&tx)','	WriteMessage(p.conn, &tx)')
M('bug','C07',P,'	p.wg.Add(2)\n','	p.wg.Add(3)\n	go p.writeHandler()\n')
M('bug','C07',P,'	logrus.Info("Disconnect peer: ", reason)\n','	logrus.Info("Disconnect peer: ", reason)\n	p.conn.Write([]byte{0})\n')
M('bug','C07','p2p/sync.go','		peer.WriteMessage(&resp)\n		logrus','		WriteMessage(peer.conn, &resp)\n		logrus')
M('bug','C07',P,'			atomic.AddUint64(&p.bytesSent, written)','			atomic.AddUint64(&p.bytesSent, written)\n			if msg.Type() == consensus.MsgTypeGetPeerAddrs {\n				WriteMessage(p.conn, msg)\n			}')
M('bug','C07',P,'			if written, exitError','			if _, ok := msg.(*Ping); ok && p.Info.Height == 1 {\n				continue\n			}\n			if written, exitError')
M('ok','*',R,'	// use the buffered writer\n	wr := bufio.NewWriter(w)\n	if err := header.Write(wr); err != nil {\n		return 0, err\n	}\n\n	n, err := wr.Write(data)\n	if err != nil {\n		return uint64(n) + consensus.HeaderLen, err\n	}\n\n	return uint64(n) + consensus.HeaderLen, wr.Flush()','	frame := append(header.Bytes(), data...)\n	if _, err := w.Write(frame); err != nil {\n		return 0, err\n	}\n	return uint64(len(frame)), nil',R,'	"bufio"\n','')
M('ok','*',P,'			var written uint64\n			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {\n				break out\n			}\n\n			atomic.AddUint64(&p.bytesSent, written)\n','			if exitError = p.transmit(msg); exitError != nil {\n				break out\n			}\n',P,'// Disconnect closes peer connection','func (p *Peer) transmit(msg Message) error {\n	n, err := WriteMessage(p.conn, msg)\n	if err != nil {\n		return err\n	}\n	atomic.AddUint64(&p.bytesSent, n)\n	return nil\n}\n\n// Disconnect closes peer connection')
# C08
M('bug','C08',P,'			p.sync.ProcessMessage(p, &msg)\n\n		case consensus.MsgTypePong:','		case consensus.MsgTypePong:')
M('bug','C08',P,'			var msg Pong\n','			var msg Ping\n')
M('bug','C08',P,'		case consensus.MsgTypeHeader:\n','		case consensus.MsgTypeHeader, consensus.MsgTypeError:\n')
M('bug','C08',P,'			var msg GetBlock\n			if exitError = msg.Read(rl); exitError != nil {\n				break out\n			}\n','			var msg GetBlock\n			if exitError = msg.Read(rl); exitError != nil {\n				break\n			}\n')
M('bug','C08',P,'			var msg consensus.Transaction\n			if exitError = msg.Read(rl); exitError != nil {\n				break out\n			}\n','			var msg consensus.Transaction\n			if exitError = msg.Read(rl); exitError == io.EOF {\n				break out\n			}\n')
M('bug','C08',P,'			exitError = fmt.Errorf("received unexpected message from peer: %v", header)\n			break out\n','			exitError = fmt.Errorf("received unexpected message from peer: %v", header)\n')
M('bug','C08',P,'		case consensus.MsgTypeTransaction:','		case consensus.MsgTypeStemTransaction, consensus.MsgTypeTransaction:')
M('bug','C08',P,'			logrus.Debug("headers: ", msg.Headers)\n			p.sync','			logrus.Debug("headers: ", msg.Headers)\n			p.sync.ProcessMessage(p, &msg)\n			p.sync')
M('bug','C08',P,'			var msg BlockHeader\n','			var msg BlockHeader\n			p.sync.ProcessMessage(p, &msg)\n')
M('bug','C08',P,'			logrus.Debug("headers: ", msg.Headers)\n			p.sync','			logrus.Debug("headers: ", msg.Headers)\n			if len(msg.Headers) > 0 {\n			p.sync',P,'		case consensus.MsgTypeGetBlock:\n','			}\n		case consensus.MsgTypeGetBlock:\n')
M('bug','C08','consensus/network.go','	MsgTypeHeader\n	MsgTypeHeaders\n','	MsgTypeHeaders\n	MsgTypeHeader\n')
M('bug','C08',P,'			p.sync.ProcessMessage(p, &msg)\n\n		case consensus.MsgTypeGetPeerAddrs:','			go p.sync.ProcessMessage(p, &msg)\n\n		case consensus.MsgTypeGetPeerAddrs:')
M('ok','*',P,'		case consensus.MsgTypePing:\n			// update peer info & send Pong\n			var msg Ping\n			if exitError = msg.Read(rl); exitError != nil {\n				break out\n			}\n\n			logrus.Debugf("Received Ping from %s", p.conn.RemoteAddr().String())\n			p.sync.ProcessMessage(p, &msg)\n\n		case consensus.MsgTypePong:\n			// update peer info\n			var msg Pong\n			if exitError = msg.Read(rl); exitError != nil {\n				break out\n			}\n\n			p.sync.ProcessMessage(p, &msg)\n','		case consensus.MsgTypePing, consensus.MsgTypePong:\n			var msg Message = new(Ping)\n			if header.Type == consensus.MsgTypePong {\n				msg = new(Pong)\n			}\n			if exitError = p.handle(rl, msg); exitError != nil {\n				break out\n			}\n',P,'// Disconnect closes peer connection','func (p *Peer) handle(r io.Reader, msg Message) error {\n	if err := msg.Read(r); err != nil {\n		return err\n	}\n	p.sync.ProcessMessage(p, msg)\n	return nil\n}\n\n// Disconnect closes peer connection')
M('ok','*',P,'			p.sync.ProcessMessage(p, &msg)\n\n		case consensus.MsgTypePong:','			p.process(&msg)\n\n		case consensus.MsgTypePong:',P,'// Disconnect closes peer connection','func (p *Peer) process(msg Message) { p.sync.ProcessMessage(p, msg) }\n\n// Disconnect closes peer connection')
