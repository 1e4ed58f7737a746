# behaviour-preserving edits of encoders, handshake, proof of work, signatures
BK='consensus/block.go'; HS='p2p/handshake.go'; PC='p2p/protocol.go'; CU='cuckoo/cuckoo.go'; SC='secp256k1zkp/schnorr.go'; DF='consensus/difficulty.go'; TX='consensus/transaction.go'; MS='p2p/messages.go'
M('ok','*',BK,'''	buff := new(bytes.Buffer)

	// Write version, height of block
	if err := binary.Write(buff, binary.BigEndian, b.Version); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, b.Height); err != nil {
		logrus.Fatal(err)
	}

	// Write timestamp
	if err := binary.Write(buff, binary.BigEndian, b.Timestamp.Unix()); err != nil {
		logrus.Fatal(err)
	}

	// Write prev blockhash
	if len(b.Previous) != BlockHashSize {
		logrus.Fatal(errors.New("invalid previous block hash len"))
	}

	if _, err := buff.Write(b.Previous); err != nil {
		logrus.Fatal(err)
	}

	if len(b.PreviousRoot) != BlockHashSize {
		logrus.Fatal(errors.New("invalid previous root hash len"))
	}

	if _, err := buff.Write(b.PreviousRoot); err != nil {
		logrus.Fatal(err)
	}

	// Write UTXORoot, RangeProofRoot, KernelRoot
	if len(b.UTXORoot) != BlockHashSize ||
		len(b.RangeProofRoot) != BlockHashSize ||
		len(b.KernelRoot) != BlockHashSize {
		logrus.Fatal(errors.New("invalid UTXORoot/RangeProofRoot/KernelRoot len"))
	}

	if _, err := buff.Write(b.UTXORoot); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(b.RangeProofRoot); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(b.KernelRoot); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(b.TotalKernelOffset); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, b.OutputMmrSize); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, b.KernelMmrSize); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(b.TotalDifficulty)); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, b.ScalingDifficulty); err != nil {
		logrus.Fatal(err)
	}

	// Write nonce
	if err := binary.Write(buff, binary.BigEndian, b.Nonce); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
}

''','''	for _, hash := range []Hash{b.Previous, b.PreviousRoot, b.UTXORoot, b.RangeProofRoot, b.KernelRoot} {
		if len(hash) != BlockHashSize {
			logrus.Fatal(errors.New("invalid hash len"))
		}
	}

	var w headerWriter
	w.number(b.Version)
	w.number(b.Height)
	w.number(b.Timestamp.Unix())
	w.raw(b.Previous, b.PreviousRoot, b.UTXORoot, b.RangeProofRoot, b.KernelRoot, b.TotalKernelOffset)
	w.number(b.OutputMmrSize)
	w.number(b.KernelMmrSize)
	w.number(uint64(b.TotalDifficulty))
	w.number(b.ScalingDifficulty)
	w.number(b.Nonce)

	return w.buff.Bytes()
}

// headerWriter serialises the parts of a header.
type headerWriter struct {
	buff bytes.Buffer
}

func (w *headerWriter) number(v interface{}) {
	if err := binary.Write(&w.buff, binary.BigEndian, v); err != nil {
		logrus.Fatal(err)
	}
}

func (w *headerWriter) raw(parts ...Hash) {
	for _, part := range parts {
		w.buff.Write(part)
	}
}

''')
M('ok','*',BK,'''	// Read prev blockhash
	b.Previous = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.Previous); err != nil {
		return err
	}

	b.PreviousRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.PreviousRoot); err != nil {
		return err
	}

	// Read UTXORoot, RangeProofRoot, KernelRoot
	b.UTXORoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.UTXORoot); err != nil {
		return err
	}

	b.RangeProofRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.RangeProofRoot); err != nil {
		return err
	}

	b.KernelRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.KernelRoot); err != nil {
		return err
	}

	b.TotalKernelOffset = make([]byte, secp256k1zkp.SecretKeySize)
	if _, err := io.ReadFull(r, b.TotalKernelOffset); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.OutputMmrSize); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.KernelMmrSize); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.TotalDifficulty); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.ScalingDifficulty); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.Nonce); err != nil {
		return err
	}

	if err := b.POW.Read(r); err != nil {
		return err
	}

	return nil
}

''','''	hashes := []*Hash{
		&b.Previous, &b.PreviousRoot, &b.UTXORoot, &b.RangeProofRoot, &b.KernelRoot, &b.TotalKernelOffset,
	}
	for _, hash := range hashes {
		*hash = make([]byte, BlockHashSize)
		if _, err := io.ReadFull(r, *hash); err != nil {
			return err
		}
	}

	numbers := []interface{}{
		&b.OutputMmrSize, &b.KernelMmrSize, &b.TotalDifficulty, &b.ScalingDifficulty, &b.Nonce,
	}
	for _, number := range numbers {
		if err := binary.Read(r, binary.BigEndian, number); err != nil {
			return err
		}
	}

	return b.POW.Read(r)
}

''')
M('ok','*',BK,'''	// Read prev blockhash
	b.Previous = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.Previous); err != nil {
		return err
	}

	b.PreviousRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.PreviousRoot); err != nil {
		return err
	}

	// Read UTXORoot, RangeProofRoot, KernelRoot
	b.UTXORoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.UTXORoot); err != nil {
		return err
	}

	b.RangeProofRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.RangeProofRoot); err != nil {
		return err
	}

	b.KernelRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.KernelRoot); err != nil {
		return err
	}

	b.TotalKernelOffset = make([]byte, secp256k1zkp.SecretKeySize)
	if _, err := io.ReadFull(r, b.TotalKernelOffset); err != nil {
		return err
	}

''','''	var err error
	if b.Previous, err = readHash(r); err != nil {
		return err
	}
	if b.PreviousRoot, err = readHash(r); err != nil {
		return err
	}
	if b.UTXORoot, err = readHash(r); err != nil {
		return err
	}
	if b.RangeProofRoot, err = readHash(r); err != nil {
		return err
	}
	if b.KernelRoot, err = readHash(r); err != nil {
		return err
	}
	if b.TotalKernelOffset, err = readHash(r); err != nil {
		return err
	}

''',BK,'''func (b *BlockHeader) bytesPOW() []byte {''','''func readHash(r io.Reader) (Hash, error) {
	var hash [BlockHashSize]byte
	_, err := io.ReadFull(r, hash[:])
	return hash[:], err
}

func (b *BlockHeader) bytesPOW() []byte {''')
M('ok','*',BK,'''	// Check block header version
	if !ValidateBlockVersion(b.Height, b.Version) {
		return fmt.Errorf("invalid block version %d on height %d, maybe update Gringo?", b.Version, b.Height)
	}

	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
	}

	// TODO: Check difficulty.

	// Check POW
	isPrimaryPow := b.POW.EdgeBits != SecondPowEdgeBits

	// Either the size shift must be a valid primary POW (greater than the
	// minimum size shift) or equal to the secondary POW size shift.
	if b.POW.EdgeBits < DefaultMinEdgeBits && isPrimaryPow {
		return fmt.Errorf("cuckoo size too small: %d", b.POW.EdgeBits)
	}

	// The primary POW must have a scaling factor of 1.
	if isPrimaryPow && b.ScalingDifficulty != 1 {
		return fmt.Errorf("invalid scaling difficulty: %d", b.ScalingDifficulty)
	}

	if err := b.POW.Validate(b, b.POW.EdgeBits); err != nil {
		return err
	}

	return nil
}

''','''	for _, rule := range []func(*BlockHeader) error{checkVersion, checkTime, checkPow} {
		if err := rule(b); err != nil {
			return err
		}
	}

	return b.POW.Validate(b, b.POW.EdgeBits)
}

func checkVersion(b *BlockHeader) error {
	if ValidateBlockVersion(b.Height, b.Version) {
		return nil
	}

	return fmt.Errorf("invalid block version %d on height %d, maybe update Gringo?", b.Version, b.Height)
}

func checkTime(b *BlockHeader) error {
	const maxDrift = 12 * BlockTimeSec * time.Second

	if drift := b.Timestamp.Sub(time.Now()); drift > maxDrift {
		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
	}

	return nil
}

// checkPow: either the size must be a valid primary POW size (with a scaling
// factor of 1) or equal to the secondary POW size.
func checkPow(b *BlockHeader) error {
	if b.POW.EdgeBits == SecondPowEdgeBits {
		return nil
	}

	switch {
	case b.POW.EdgeBits < DefaultMinEdgeBits:
		return fmt.Errorf("cuckoo size too small: %d", b.POW.EdgeBits)
	case b.ScalingDifficulty != 1:
		return fmt.Errorf("invalid scaling difficulty: %d", b.ScalingDifficulty)
	}

	return nil
}

''')
M('ok','*',BK,'''	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {''','''	if latest := time.Now().UTC().Add(12 * BlockTimeSec * time.Second); b.Timestamp.After(latest) {''')
M('ok','*',BK,'''	if height < HardForkV2Height {
		return version == 1
	} else if height < HardForkInterval {
		return version == 2
	} else if height < 2*HardForkInterval {
		return version == 3
	} else {
		return false
	}
}

''','''	var want uint16

	switch {
	case height >= 2*HardForkInterval:
		return false
	case height >= HardForkInterval:
		want = 3
	case height >= HardForkV2Height:
		want = 2
	default:
		want = 1
	}

	return version == want
}

''')
M('ok','*',DF,'''	// Calculating time medians at the beginning and end of the window.
	sort.SliceStable(windowBegin, func(i, j int) bool {
		return windowBegin[i].Before(windowBegin[j])
	})
	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowEnd[i].Before(windowEnd[j])
	})

	beginTime := windowBegin[len(windowBegin)/2]
	endTime := windowEnd[len(windowEnd)/2]

''','''	beginTime, endTime := median(windowBegin), median(windowEnd)

''',DF,'''// NextDifficulty computes the proof-of-work''','''// median of some times.
func median(times []time.Time) time.Time {
	sort.SliceStable(times, func(i, j int) bool {
		return times[i].Before(times[j])
	})

	return times[len(times)/2]
}

// NextDifficulty computes the proof-of-work''')
M('ok','*',DF,'''	for i := blen - 1; i >= 0; i-- {
		if i < DifficultyAdjustWindow {
			sumDiff += blist[i].Header.Difficulty

			if i < MedianTimeWindow {
				windowBegin = append(windowBegin, blist[i].Header.Timestamp)
			}
		} else {
			// blocks before the window do not count
			if i < DifficultyAdjustWindow+MedianTimeWindow {
				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
			}
		}
	}

''','''	for i, block := range blist {
		switch {
		case i >= DifficultyAdjustWindow+MedianTimeWindow:
			// before the window

		case i >= DifficultyAdjustWindow:
			windowEnd = append(windowEnd, block.Header.Timestamp)

		default:
			sumDiff += block.Header.Difficulty
			if i < MedianTimeWindow {
				windowBegin = append(windowBegin, block.Header.Timestamp)
			}
		}
	}

''')
M('ok','*',DF,'''	// Apply time bounds
	if ts < LowerTimeBound {
		ts = LowerTimeBound
	}
	if ts > UpperTimeBound {
		ts = UpperTimeBound
	}

''','''	ts = clamp(ts, LowerTimeBound, UpperTimeBound)

''',DF,'''// NextDifficulty computes the proof-of-work''','''// clamp limits t to lo..hi.
func clamp(t, lo, hi time.Duration) time.Duration {
	switch {
	case t < lo:
		return lo
	case t > hi:
		return hi
	}

	return t
}

// NextDifficulty computes the proof-of-work''',DF,'''	if diff > MinimumDifficulty {
		return diff
	}

	return MinimumDifficulty
}''','''	if diff < MinimumDifficulty {
		diff = MinimumDifficulty
	}

	return diff
}''')
M('ok','*',TX,'''	// Read the lengths of the subsequent fields.
	var inputs, outputs, kernels uint64
	if err := binary.Read(r, binary.BigEndian, &inputs); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &outputs); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &kernels); err != nil {
		return err
	}

	// Sanity check the lengths.
	if inputs > 1000000 {
		return errors.New("transaction contains too many inputs")
	}
	if outputs > 1000000 {
		return errors.New("transaction contains too many outputs")
	}
	if kernels > 1000000 {
		return errors.New("transaction contains too many kernels")
	}

''','''	var counts [3]uint64
	for i, what := range [...]string{"inputs", "outputs", "kernels"} {
		if err := binary.Read(r, binary.BigEndian, &counts[i]); err != nil {
			return err
		}
		if counts[i] > 1000000 {
			return errors.New("transaction contains too many " + what)
		}
	}
	inputs, outputs, kernels := counts[0], counts[1], counts[2]

''')
M('ok','*',TX,'''	t.Inputs = make([]Input, inputs)
	for i := uint64(0); i < inputs; i++ {
		if err := t.Inputs[i].Read(r); err != nil {
			return err
		}
	}

	t.Outputs = make([]Output, outputs)
	for i := uint64(0); i < outputs; i++ {
		if err := t.Outputs[i].Read(r); err != nil {
			return err
		}
	}

	t.Kernels = make([]TxKernel, kernels)
	for i := uint64(0); i < kernels; i++ {
		if err := t.Kernels[i].Read(r); err != nil {
			return err
		}
	}

	// TODO: Check block weight.

	// Check sorted input, output requiring consensus rule!
	if !sort.IsSorted(t.Inputs) {
		return errors.New("consensus error: inputs are not sorted")
	}

	if !sort.IsSorted(t.Outputs) {
		return errors.New("consensus error: outputs are not sorted")
	}

	if !sort.IsSorted(t.Kernels) {
		return errors.New("consensus error: kernels are not sorted")
	}

	return nil
}

''','''	inputList := make(InputList, inputs)
	for i := range inputList {
		if err := inputList[i].Read(r); err != nil {
			return err
		}
	}

	outputList := make(OutputList, outputs)
	for i := range outputList {
		if err := outputList[i].Read(r); err != nil {
			return err
		}
	}

	kernelList := make(TxKernelList, kernels)
	for i := range kernelList {
		if err := kernelList[i].Read(r); err != nil {
			return err
		}
	}

	t.Inputs, t.Outputs, t.Kernels = inputList, outputList, kernelList

	// TODO: Check block weight.

	return t.verifySorted()
}

// verifySorted checks that everything is sorted.
func (t *Transaction) verifySorted() error {
	switch {
	case !sort.IsSorted(t.Inputs):
		return errors.New("consensus error: inputs are not sorted")
	case !sort.IsSorted(t.Outputs):
		return errors.New("consensus error: outputs are not sorted")
	case !sort.IsSorted(t.Kernels):
		return errors.New("consensus error: kernels are not sorted")
	}

	return nil
}

''')
M('ok','*',HS,'''	// read user agent
	var userAgentLen uint64
	if err := binary.Read(r, binary.BigEndian, &userAgentLen); err != nil {
		return err
	}

	if userAgentLen > consensus.MaxMsgLen {
		return errors.New("too big user agent len")
	}

	buff := make([]byte, userAgentLen)
	if _, err := io.ReadFull(r, buff); err != nil {
		return err
	}

	h.UserAgent = string(buff)

	genesisBuf := make([]byte, 32)
	if _, err := io.ReadFull(r, genesisBuf); err != nil {
		return err
	}

	h.Genesis = genesisBuf

	return nil
}

''','''	h.UserAgent, h.Genesis, err = readTail(r)
	return err
}

// readTail reads the user agent and the genesis hash.
func readTail(r io.Reader) (string, consensus.Hash, error) {
	var size uint64
	if err := binary.Read(r, binary.BigEndian, &size); err != nil {
		return "", nil, err
	}

	if size > consensus.MaxMsgLen {
		return "", nil, errors.New("too big user agent len")
	}

	agent := make([]byte, size)
	if _, err := io.ReadFull(r, agent); err != nil {
		return "", nil, err
	}

	genesis := make(consensus.Hash, consensus.BlockHashSize)
	if _, err := io.ReadFull(r, genesis); err != nil {
		return "", nil, err
	}

	return string(agent), genesis, nil
}

''',HS,'''	if err := binary.Read(r, binary.BigEndian, (*uint64)(&h.TotalDifficulty)); err != nil {
		return err
	}

	var userAgentLen uint64
	if err := binary.Read(r, binary.BigEndian, &userAgentLen); err != nil {
		return err
	}

	if userAgentLen > consensus.MaxMsgLen {
		return errors.New("too big user agent len")
	}

	buff := make([]byte, userAgentLen)
	if _, err := io.ReadFull(r, buff); err != nil {
		return err
	}

	h.UserAgent = string(buff)

	genesisBuf := make([]byte, 32)
	if _, err := io.ReadFull(r, genesisBuf); err != nil {
		return err
	}

	h.Genesis = genesisBuf

	return nil
}

''','''	if err := binary.Read(r, binary.BigEndian, (*uint64)(&h.TotalDifficulty)); err != nil {
		return err
	}

	var err error
	h.UserAgent, h.Genesis, err = readTail(r)
	return err
}

''')
M('ok','*',HS,'''func (h *hand) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {
		return errors.New("incompatibility protocol version")
	}
''','''func (h *hand) Read(r io.Reader) error {
	version, err := readVersion(r)
	if err != nil {
		return err
	}
	h.Version = version
''',HS,'''	addr, err := deserializeTCPAddr(r)
	if err != nil {
		return err
	}
	h.SenderAddr = addr

	// read Recv addr
	addr, err = deserializeTCPAddr(r)
	if err != nil {
		return err
	}
	h.ReceiverAddr = addr
''','''	if h.SenderAddr, err = deserializeTCPAddr(r); err != nil {
		return err
	}

	// read Recv addr
	if h.ReceiverAddr, err = deserializeTCPAddr(r); err != nil {
		return err
	}
''',HS,'''func (h *shake) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {
		return errors.New("incompatibility protocol version")
	}
''','''// readVersion reads the version of the peer, which has to be ours.
func readVersion(r io.Reader) (version uint32, err error) {
	if err = binary.Read(r, binary.BigEndian, &version); err != nil {
		return 0, err
	}

	if version != consensus.ProtocolVersion {
		err = errors.New("incompatibility protocol version")
	}

	return version, err
}

func (h *shake) Read(r io.Reader) (err error) {
	if h.Version, err = readVersion(r); err != nil {
		return err
	}
''')
M('ok','*',HS,'''	// Write Recv addr
	serializeTCPAddr(buff, h.ReceiverAddr)

	// Write user agent [len][string]
	binary.Write(buff, binary.BigEndian, uint64(len(h.UserAgent)))
	buff.WriteString(h.UserAgent)

	binary.Write(buff, binary.BigEndian, h.Genesis)

''','''	// Write Recv addr
	serializeTCPAddr(buff, h.ReceiverAddr)

	writeTail(buff, h.UserAgent, h.Genesis)

''',HS,'''	if err := binary.Write(buff, binary.BigEndian, uint64(h.TotalDifficulty)); err != nil {
		logrus.Fatal(err)
	}

	// Write user agent [len][string]
	binary.Write(buff, binary.BigEndian, uint64(len(h.UserAgent)))
	buff.WriteString(h.UserAgent)

	binary.Write(buff, binary.BigEndian, h.Genesis)

''','''	if err := binary.Write(buff, binary.BigEndian, uint64(h.TotalDifficulty)); err != nil {
		logrus.Fatal(err)
	}

	writeTail(buff, h.UserAgent, h.Genesis)

''',HS,'''func (h *shake) Type() uint8 {''','''// writeTail writes the user agent [len][string] and the genesis hash.
func writeTail(buff *bytes.Buffer, agent string, genesis consensus.Hash) {
	var size [8]byte
	binary.BigEndian.PutUint64(size[:], uint64(len(agent)))

	buff.Write(size[:])
	buff.WriteString(agent)
	buff.Write(genesis)
}

func (h *shake) Type() uint8 {''')
M('ok','*',HS,'''	// Check nonce to detect connection to ourselves
	if serverNonces.Consist(h.Nonce) {
		return &h, errors.New("detect connection to ourselves by nonce")
	}

	// Only connect to peers on the same chain
	genesis := chain.Testnet4.Hash()
	if !bytes.Equal(h.Genesis, genesis) {
		return nil, errors.New("peer is on another chain")
	}

	// Send shake
	msg := shake{
		Version:         consensus.ProtocolVersion,
		Capabilities:    consensus.CapFullNode,
		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       userAgent,
		Genesis:         genesis,
	}
''','''	msg := newShake()

	switch {
	case serverNonces.Consist(h.Nonce):
		return &h, errors.New("detect connection to ourselves by nonce")
	case !bytes.Equal(msg.Genesis, h.Genesis):
		return nil, errors.New("peer is on another chain")
	}

''',HS,'''	if _, err := WriteMessage(conn, &msg); err != nil {
		return nil, err
	}

	return &h, nil
}''','''	if _, err := WriteMessage(conn, msg); err != nil {
		return nil, err
	}

	return &h, nil
}

// newShake is our answer to a hand.
func newShake() *shake {
	return &shake{
		Version:         consensus.ProtocolVersion,
		Capabilities:    consensus.CapFullNode,
		TotalDifficulty: 1,
		UserAgent:       userAgent,
		Genesis:         chain.Testnet4.Hash(),
	}
}''')
M('ok','*',HS,'''	// Send own hand
	if _, err := WriteMessage(conn, &msg); err != nil {
		return nil, err
	}

	// Read peer shake
	sh := new(shake)
	if _, err := ReadMessage(conn, sh); err != nil {
		return nil, err
	}

	// Only connect to peers on the same chain
	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return nil, errors.New("peer is on another chain")
	}

	return sh, nil
}

''','''	sh, err := exchange(conn, &msg)
	if err != nil {
		return nil, err
	}

	// Only connect to peers on the same chain
	if bytes.Compare(msg.Genesis, sh.Genesis) == 0 {
		return sh, nil
	}

	return nil, errors.New("peer is on another chain")
}

// exchange sends our hand and waits for the answer.
func exchange(conn net.Conn, our *hand) (*shake, error) {
	if _, err := WriteMessage(conn, our); err != nil {
		return nil, err
	}

	var answer shake
	if _, err := ReadMessage(conn, &answer); err != nil {
		return nil, err
	}

	return &answer, nil
}

''')
M('ok','*',PC,'''	// use the buffered writer
	wr := bufio.NewWriter(w)
	if err := header.Write(wr); err != nil {
		return 0, err
	}

	n, err := wr.Write(data)
	if err != nil {
		return uint64(n) + consensus.HeaderLen, err
	}

	return uint64(n) + consensus.HeaderLen, wr.Flush()
}

''','''	// use the buffered writer
	wr := bufio.NewWriter(w)
	err := header.Write(wr)
	if err != nil {
		return 0, err
	}

	sent := uint64(consensus.HeaderLen)

	n, err := wr.Write(data)
	sent += uint64(n)
	if err == nil {
		err = wr.Flush()
	}

	return sent, err
}

''')
M('ok','*',PC,'''	rb := io.LimitReader(r, int64(header.Len))
	if err := msg.Read(rb); err != nil {
		return uint64(consensus.HeaderLen) + uint64(header.Len), err
	}

	// leave the reader at the next message
	_, err := io.Copy(ioutil.Discard, rb)
	return uint64(consensus.HeaderLen) + uint64(header.Len), err
}
''','''	received := uint64(consensus.HeaderLen) + header.Len

	body := io.LimitReader(r, int64(header.Len))
	err := msg.Read(body)
	if err == nil {
		// leave the reader at the next message
		_, err = io.Copy(ioutil.Discard, body)
	}

	return received, err
}
''')
M('ok','*',PC,'''	var header Header

	// get the msg header
	rh := io.LimitReader(r, int64(consensus.HeaderLen))
	if err := header.Read(rh); err != nil {
		return 0, err
	}

	if header.Type != msg.Type() {
		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")
	}

	if header.Len > consensus.MaxMsgLen {
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	}

''','''	header, err := readHeader(r)
	if err != nil {
		return 0, err
	}

	switch {
	case header.Type != msg.Type():
		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")
	case header.Len > consensus.MaxMsgLen:
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	}

''',PC,'''	// leave the reader at the next message
	_, err := io.Copy(''','''	// leave the reader at the next message
	_, err = io.Copy(''',PC,'''// ReadMessage reads from''','''func readHeader(r io.Reader) (*Header, error) {
	header := new(Header)
	err := header.Read(io.LimitReader(r, int64(consensus.HeaderLen)))
	return header, err
}

// ReadMessage reads from''')
M('ok','*',CU,'''	// Create graph edges from the nonces.
	edges := make([]*Edge, proofSize)
	for i := 0; i < proofSize; i++ {
		// Ensure nonces are in ascending order and that they are in the correct
		// range.
		if uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] <= nonces[i-1]) {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}

		edges[i] = c.NewEdge(nonces[i], numEdges)
	}

	return findCycleLength(edges) == proofSize
}

''','''	// Create graph edges from the nonces.
	edges := make([]*Edge, 0, proofSize)
	previous := int64(-1)
	for i, nonce := range nonces {
		if uint64(nonce) > numEdges || int64(nonce) <= previous {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}

		edges = append(edges, c.NewEdge(nonce, numEdges))
		previous = int64(nonce)
	}

	return findCycleLength(edges) == proofSize
}

''')
M('ok','*',CU,'''	for m := range edges {
		degreeU, degreeV := 0, 0
		for n := range edges {
			if edges[m].U == edges[n].U {
				degreeU++
			}
			if edges[m].V == edges[n].V {
				degreeV++
			}
		}
		if degreeU > 2 || degreeV > 2 {
			return 0
		}
	}

''','''	for _, e := range edges {
		if degreeU(edges, e.U) > 2 || degreeV(edges, e.V) > 2 {
			return 0
		}
	}

''',CU,'''// findCycleLength attempts''','''// degreeU counts the edges at a vertex of the U partition.
func degreeU(edges []*Edge, vertex uint64) (n int) {
	for _, e := range edges {
		if e.U == vertex {
			n++
		}
	}
	return n
}

// degreeV counts the edges at a vertex of the V partition.
func degreeV(edges []*Edge, vertex uint64) (n int) {
	for _, e := range edges {
		if e.V == vertex {
			n++
		}
	}
	return n
}

// findCycleLength attempts''')
M('ok','*',CU,'''	bsum := blake2b.Sum256(key)
	key = bsum[:]

	var v [4]uint64
	v[0] = binary.LittleEndian.Uint64(key[:8])
	v[1] = binary.LittleEndian.Uint64(key[8:16])
	v[2] = binary.LittleEndian.Uint64(key[16:24])
	v[3] = binary.LittleEndian.Uint64(key[24:32])

	return &Cuckaroo{
		v: v,
	}
}
''','''	return NewFromKeys(siphashKeys(key))
}

// siphashKeys derives the siphash keys from key.
func siphashKeys(key []byte) (v [4]uint64) {
	sum := blake2b.Sum256(key)
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(sum[8*i:])
	}

	return v
}
''',CU,'''	bsum := blake2b.Sum256(key)
	key = bsum[:]

	var v [4]uint64
	v[0] = binary.LittleEndian.Uint64(key[:8])
	v[1] = binary.LittleEndian.Uint64(key[8:16])
	v[2] = binary.LittleEndian.Uint64(key[16:24])
	v[3] = binary.LittleEndian.Uint64(key[24:32])

''','''	v := siphashKeys(key)

''')
M('ok','*',SC,'''	Rx := GetB32(R.X)
	compressedPubkey := CompressPubkey(publicKey)
	challenge := ComputeHash(
		Rx[:],
		compressedPubkey[:],
		message[:])
	e := new(big.Int).SetBytes(challenge[:])
''','''	e := computeChallenge(R, publicKey, message)
''',SC,'''	Rx := GetB32(signature.R.X)
	compressedPubkey := CompressPubkey(publicKey)

	// Compute the non-interactive challenge.
	challenge := ComputeHash(
		Rx[:],
		compressedPubkey[:],
		message[:])
	e := new(big.Int).SetBytes(challenge[:])

''','''	e := computeChallenge(&signature.R, publicKey, message)

''',SC,'''// VerifySignature returns true''','''// computeChallenge computes the non-interactive challenge.
func computeChallenge(R *Point, publicKey Point, message [32]byte) *big.Int {
	x, key := GetB32(R.X), CompressPubkey(publicKey)
	hash := ComputeHash(x[:], key[:], message[:])

	return new(big.Int).SetBytes(hash[:])
}

// VerifySignature returns true''')
M('ok','*',SC,'''	hasher := sha256.New()

	for i := range inputs {
		hasher.Write(inputs[i])
	}

	var result [32]byte
	copy(result[:], hasher.Sum(nil))
	return result
}

''','''	var data []byte
	for _, input := range inputs {
		data = append(data, input...)
	}

	return sha256.Sum256(data)
}

''')
M('ok','*',SC,'''	s := new(big.Int).SetBytes(signature[32:64])

	R := new(Point)
	R.X = new(big.Int).SetBytes(signature[0:32])
	R.Y = decompressPoint(signature[0:32])

	return Signature{
		S: *s,
		R: *R,
	}
}

''','''	x, s := signature[:32], signature[32:]

	var decoded Signature
	decoded.S.SetBytes(s)
	decoded.R.X = new(big.Int).SetBytes(x)
	decoded.R.Y = decompressPoint(x)

	return decoded
}

''')
M('ok','*',SC,'''	var buf [33]byte
	if p.Y.Bit(0) == 1 { // is odd
		buf[0] = TagPubkeyOdd
	} else {
		buf[0] = TagPubkeyEven
	}
	x := GetB32(p.X)
	copy(buf[1:33], x[:])
	return buf
}

''','''	tag := byte(TagPubkeyEven)
	if odd := p.Y.Bit(0) != 0; odd {
		tag = TagPubkeyOdd
	}

	x := GetB32(p.X)

	var buf [33]byte
	copy(buf[:], append([]byte{tag}, x[:]...))
	return buf
}

''')
M('ok','*',SC,'''	lhs := ScalarMulPoint(&G, &signature.S)
	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))

	return lhs.Equals(rhs)
''','''	expected := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
	if !ScalarMulPoint(&G, &signature.S).Equals(expected) {
		return false
	}

	return true
''')
M('ok','*',CU,'''		// If the current cycle length is even we need to look for an edge from
		// U -> V.
		vertexInUPartition := cycle&1 == 0

		if vertexInUPartition {
			// Find an unused edge that connects to the current vertex.
			for j := range edges {
				if j != i && !edges[j].usedU && edges[i].U == edges[j].U {
					edges[i].usedU = true
					edges[j].usedU = true

					i = j
					cycle++

					continue loop
				}
			}
		} else {
			// Find an unused edge that connects to the current vertex.
			for j := range edges {
				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[i].usedV = true
					edges[j].usedV = true

					i = j
					cycle++

					continue loop
				}
			}
		}

		// If we didn't find a match for this vertex then we're done.
		break
	}

''','''		// even lengths are in the U partition
		next := -1
		for j, e := range edges {
			if j == i {
				continue
			}

			if cycle%2 == 0 {
				if e.usedU || e.U != edges[i].U {
					continue
				}
				e.usedU, edges[i].usedU = true, true
			} else {
				if e.usedV || e.V != edges[i].V {
					continue
				}
				e.usedV, edges[i].usedV = true, true
			}

			next = j
			break
		}

		// If we didn't find a match for this vertex then we're done.
		if next < 0 {
			break
		}

		i = next
		cycle++
	}

''',CU,'''loop:
	for {''','''	for {''')
