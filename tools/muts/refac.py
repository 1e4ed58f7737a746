# refactorings of the kind somebody else would make; every check must stay quiet
BK='consensus/block.go'; PR='consensus/proof.go'; DF='consensus/difficulty.go'; TX='consensus/transaction.go'; LO='consensus/locator.go'; ID='consensus/id.go'
CU='cuckoo/cuckoo.go'; SH='cuckoo/siphash24.go'; PE='p2p/peer.go'; PL='p2p/pool.go'; SY='p2p/sync.go'; HS='p2p/handshake.go'; HE='p2p/helpers.go'; MS='p2p/messages.go'; PC='p2p/protocol.go'; SV='p2p/server.go'; CH='chain/chain.go'; SC='secp256k1zkp/schnorr.go'
# 0 block decoding: counts by helper, limits in a loop
M('ok','*',BK,'''	// Read counts
	var inputs, outputs, kernels uint64
	if err := binary.Read(r, binary.BigEndian, &inputs); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &outputs); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &kernels); err != nil {
		return err
	}

	// Sanity check the lengths.
	if inputs > 1000000 {
		return errors.New("transaction contains too many inputs")
	}
	if outputs > 1000000 {
		return errors.New("transaction contains too many outputs")
	}
	if kernels > 1000000 {
		return errors.New("transaction contains too many kernels")
	}

	// Read inputs
	b.Inputs = make([]Input, inputs)
	for i := uint64(0); i < inputs; i++ {
		if err := b.Inputs[i].Read(r); err != nil {
			return err
		}
	}
''','''	inputs, outputs, kernels, err := readCounts(r)
	if err != nil {
		return err
	}

	// Read inputs
	b.Inputs = make([]Input, inputs)
	for i := range b.Inputs {
		if err := b.Inputs[i].Read(r); err != nil {
			return err
		}
	}
''',BK,'''// String implements String() interface
func (p Block) String()''','''const maxListLen = 1000000

// readCounts reads the numbers of inputs, outputs and kernels.
func readCounts(r io.Reader) (inputs, outputs, kernels uint64, err error) {
	for _, n := range []*uint64{&inputs, &outputs, &kernels} {
		if err = binary.Read(r, binary.BigEndian, n); err != nil {
			return 0, 0, 0, err
		}
	}
	switch {
	case inputs > maxListLen:
		err = errors.New("transaction contains too many inputs")
	case outputs > maxListLen:
		err = errors.New("transaction contains too many outputs")
	case kernels > maxListLen:
		err = errors.New("transaction contains too many kernels")
	}
	return inputs, outputs, kernels, err
}

// String implements String() interface
func (p Block) String()''')
# 1 block encoding: counts and lists through helpers
M('ok','*',BK,'''	// Write counts: inputs, outputs, kernels
	if err := binary.Write(buff, binary.BigEndian, uint64(len(b.Inputs))); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(len(b.Outputs))); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(len(b.Kernels))); err != nil {
		logrus.Fatal(err)
	}
''','''	// Write counts: inputs, outputs, kernels
	counts := [...]int{len(b.Inputs), len(b.Outputs), len(b.Kernels)}
	for _, count := range counts {
		mustWrite(buff, uint64(count))
	}
''',BK,'''	// Write inputs
	for _, input := range b.Inputs {
		if _, err := buff.Write(input.Bytes()); err != nil {
			logrus.Fatal(err)
		}
	}
''','''	// Write inputs
	for i := range b.Inputs {
		buff.Write(b.Inputs[i].Bytes())
	}
''',BK,'''// String implements String() interface
func (p Block) String()''','''// mustWrite writes v in network order.
func mustWrite(w io.Writer, v interface{}) {
	if err := binary.Write(w, binary.BigEndian, v); err != nil {
		logrus.Fatal(err)
	}
}

// String implements String() interface
func (p Block) String()''')
# 2 header encoding through a list of hashes, header decoding through a helper
M('ok','*',BK,'''	if _, err := buff.Write(b.UTXORoot); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(b.RangeProofRoot); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(b.KernelRoot); err != nil {
		logrus.Fatal(err)
	}
''','''	for _, root := range []Hash{b.UTXORoot, b.RangeProofRoot, b.KernelRoot} {
		if _, err := buff.Write(root); err != nil {
			logrus.Fatal(err)
		}
	}
''',BK,'''	// Read prev blockhash
	b.Previous = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.Previous); err != nil {
		return err
	}

	b.PreviousRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.PreviousRoot); err != nil {
		return err
	}

	// Read UTXORoot, RangeProofRoot, KernelRoot
	b.UTXORoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.UTXORoot); err != nil {
		return err
	}

	b.RangeProofRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.RangeProofRoot); err != nil {
		return err
	}

	b.KernelRoot = make([]byte, BlockHashSize)
	if _, err := io.ReadFull(r, b.KernelRoot); err != nil {
		return err
	}
''','''	// Read the hashes
	for _, h := range []*Hash{&b.Previous, &b.PreviousRoot, &b.UTXORoot, &b.RangeProofRoot, &b.KernelRoot} {
		hash, err := readHash(r, BlockHashSize)
		if err != nil {
			return err
		}
		*h = hash
	}
''',BK,'''// Validate returns nil if header successfully''','''// readHash reads a hash of n bytes.
func readHash(r io.Reader, n int) (Hash, error) {
	hash := make(Hash, n)
	_, err := io.ReadFull(r, hash)
	return hash, err
}

// Validate returns nil if header successfully''')
# 3 header validation restructured
M('ok','*',BK,'''	// Check POW
	isPrimaryPow := b.POW.EdgeBits != SecondPowEdgeBits

	// Either the size shift must be a valid primary POW (greater than the
	// minimum size shift) or equal to the secondary POW size shift.
	if b.POW.EdgeBits < DefaultMinEdgeBits && isPrimaryPow {
		return fmt.Errorf("cuckoo size too small: %d", b.POW.EdgeBits)
	}

	// The primary POW must have a scaling factor of 1.
	if isPrimaryPow && b.ScalingDifficulty != 1 {
		return fmt.Errorf("invalid scaling difficulty: %d", b.ScalingDifficulty)
	}

	if err := b.POW.Validate(b, b.POW.EdgeBits); err != nil {
		return err
	}

	return nil
}''','''	if err := b.validatePowParameters(); err != nil {
		return err
	}

	return b.POW.Validate(b, b.POW.EdgeBits)
}

func (b *BlockHeader) validatePowParameters() error {
	if b.POW.EdgeBits == SecondPowEdgeBits {
		// any scaling factor goes
		return nil
	}

	switch {
	case b.POW.EdgeBits < DefaultMinEdgeBits:
		return fmt.Errorf("cuckoo size too small: %d", b.POW.EdgeBits)
	case b.ScalingDifficulty != 1:
		return fmt.Errorf("invalid scaling difficulty: %d", b.ScalingDifficulty)
	}
	return nil
}''',BK,'''	if height < HardForkV2Height {
		return version == 1
	} else if height < HardForkInterval {
		return version == 2
	} else if height < 2*HardForkInterval {
		return version == 3
	} else {
		return false
	}''','''	switch {
	case height >= 2*HardForkInterval:
		return false
	case height >= HardForkInterval:
		return version == 3
	case height >= HardForkV2Height:
		return version == 2
	}
	return version == 1''')
# 4 time check with a variable deadline
M('ok','*',BK,'''	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
	}
''','''	now := time.Now().UTC()
	limit := 12 * BlockTimeSec * time.Second
	if ahead := b.Timestamp.Sub(now); ahead > limit {
		return fmt.Errorf("invalid block time (%s), %s ahead", b.Timestamp, ahead)
	}
''',BK,'''	// Check block header version
	if !ValidateBlockVersion(b.Height, b.Version) {''','''	// Check block header version
	if valid := ValidateBlockVersion(b.Height, b.Version); !valid {''')
# 5 block validation as a table of steps
M('ok','*',BK,'''	// Check sorted inputs, outputs, kernels
	if err := b.verifySorted(); err != nil {
		return err
	}

	if err := b.verifyCoinbase(); err != nil {
		return err
	}

	// Verify all output values are within the correct range.
	if err := b.verifyRangeProofs(); err != nil {
		return err
	}

	if err := b.verifyKernels(); err != nil {
		return err
	}

	return nil
}
''','''	checks := []func() error{
		b.verifySorted,
		b.verifyCoinbase,
		b.verifyRangeProofs,
		b.verifyKernels,
	}
	for _, check := range checks {
		if err := check(); err != nil {
			return err
		}
	}

	return nil
}
''')
# 6 coinbase and kernels: counting loops restructured
M('ok','*',BK,'''		if output.Features&CoinbaseOutput == CoinbaseOutput {
			coinbase++

			if coinbase > MaxBlockCoinbaseOutputs {
				return errors.New("invalid block with few coinbase outputs")
			}

			// Validate output
			if err := output.Validate(); err != nil {
				return err
			}
		}
''','''		if output.Features&CoinbaseOutput == 0 {
			continue
		}

		if coinbase == MaxBlockCoinbaseOutputs {
			return errors.New("invalid block with few coinbase outputs")
		}
		coinbase++

		// Validate output
		if err := output.Validate(); err != nil {
			return err
		}
''',BK,'''	for _, kernel := range b.Kernels {
		if kernel.Features&CoinbaseKernel == CoinbaseKernel {
			coinbase++

			if coinbase > MaxBlockCoinbaseKernels {
				return errors.New("invalid block with few coinbase kernels")
			}
		}

		// Validate kernel
		if err := kernel.Validate(); err != nil {
			return err
		}
	}
''','''	for i := range b.Kernels {
		kernel := &b.Kernels[i]

		// Validate kernel
		if err := kernel.Validate(); err != nil {
			return err
		}

		if kernel.isCoinbase() {
			coinbase++
		}
	}

	if coinbase > MaxBlockCoinbaseKernels {
		return errors.New("invalid block with few coinbase kernels")
	}
''',BK,'''// verifySorted checks''','''func (k *TxKernel) isCoinbase() bool {
	return k.Features&CoinbaseKernel != 0
}

// verifySorted checks''')
# 7 hashing helper, Less by helper
M('ok','*',BK,'''	hashed := blake2b.Sum256(input.Bytes())
	return hashed[:]''','''	return sum256(input.Bytes())''',BK,'''	hashed := blake2b.Sum256(o.BytesWithoutProof())
	return hashed[:]''','''	return sum256(o.BytesWithoutProof())''',BK,'''	hashed := blake2b.Sum256(k.Bytes())
	return hashed[:]''','''	return sum256(k.Bytes())''',BK,'''	hash := blake2b.Sum256(b.POW.ProofBytes())

	return hash[:]''','''	return sum256(b.POW.ProofBytes())''',BK,'''type BlockList []Block
''','''type BlockList []Block

// sum256 is the BLAKE2b hash used for all content.
func sum256(data []byte) []byte {
	h := blake2b.Sum256(data)
	return h[:]
}

// lessHash orders hashes.
func lessHash(a, b []byte) bool { return bytes.Compare(a, b) == -1 }
''',BK,'''func (m InputList) Less(i, j int) bool {
	return bytes.Compare(m[i].Hash(), m[j].Hash()) < 0
}''','''func (m InputList) Less(i, j int) bool {
	return lessHash(m[i].Hash(), m[j].Hash())
}''',BK,'''func (m OutputList) Swap(i, j int) {
	m[i], m[j] = m[j], m[i]
}''','''func (m OutputList) Swap(i, j int) {
	tmp := m[i]
	m[i] = m[j]
	m[j] = tmp
}''')
# 8 output decoding: named error paths, proof reader by helper
M('ok','*',BK,'''	proof := new(bulletproofs.BulletProof)
	pr := &io.LimitedReader{R: r, N: int64(proofLen)}
	err := proof.Read(pr)
	if err != nil {
		return errors.New("failed to deserialize range proof")
	}
	if pr.N != 0 {
		return fmt.Errorf("invalid range proof length: %d", proofLen)
	}
	o.RangeProof = *proof

	return nil
}''','''	return o.readRangeProof(r, int64(proofLen))
}

// readRangeProof reads a range proof of exactly size bytes.
func (o *Output) readRangeProof(r io.Reader, size int64) error {
	limited := io.LimitedReader{R: r, N: size}
	var proof bulletproofs.BulletProof
	if err := proof.Read(&limited); err != nil {
		return errors.New("failed to deserialize range proof")
	}
	if rest := limited.N; rest > 0 {
		return fmt.Errorf("invalid range proof length: %d (%d left)", size, rest)
	}
	o.RangeProof = proof

	return nil
}''')
# 9 proof packing: loops with running bit position
M('ok','*',PR,'''	for n, nonce := range p.Nonces {
		// Pack this nonce into the bit stream.
		for bit := uint(0); bit < nonceLengthBits; bit++ {
			// If this bit is set, then write it to the correct position in the
			// stream.
			if nonce&(1<<bit) != 0 {
				offsetBits := uint(n)*nonceLengthBits + bit
				bitvec[offsetBits/8] |= 1 << (offsetBits % 8)
			}
		}
	}
''','''	for n := range p.Nonces {
		start := uint(n) * nonceLengthBits
		// Pack this nonce into the bit stream.
		for bit := uint(0); bit < nonceLengthBits; bit++ {
			// If this bit is set, then write it to the correct position in the
			// stream.
			if (p.Nonces[n]>>bit)&1 == 1 {
				pos := start + bit
				bitvec[pos>>3] |= 1 << (pos & 7)
			}
		}
	}
''',PR,'''	if _, err := buff.Write(bitvec); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()''','''	return bitvec''',PR,'''	buff := new(bytes.Buffer)

	// The solution''','''	// The solution''',PR,'''	if err := binary.Write(buff, binary.BigEndian, p.EdgeBits); err != nil {
		logrus.Fatal(err)
	}
''','''	if err := buff.WriteByte(p.EdgeBits); err != nil {
		logrus.Fatal(err)
	}
''')
# 10 proof unpacking by helper
M('ok','*',PR,'''		var nonce uint32

		// Read this nonce from the packed bitstream.
		for bit := uint(0); bit < nonceLengthBits; bit++ {
			// Find the position of this bit in bitvec
			offsetBits := uint(i)*nonceLengthBits + bit
			// If this bit is set in bitvec then set the same bit in the nonce.
			if bitvec[offsetBits/8]&(1<<(offsetBits%8)) != 0 {
				nonce |= 1 << bit
			}
		}

		p.Nonces[i] = nonce
	}

	return nil
}''','''		p.Nonces[i] = unpackNonce(bitvec, uint(i)*nonceLengthBits, nonceLengthBits)
	}

	return nil
}

// unpackNonce reads the nonce of size bits that starts at bit start.
func unpackNonce(bitvec []byte, start, size uint) uint32 {
	var nonce uint32
	for bit := uint(0); bit < size; bit++ {
		offsetBits := start + bit
		if bitvec[offsetBits/8]&(1<<(offsetBits%8)) != 0 {
			nonce |= 1 << bit
		}
	}
	return nonce
}''',PR,'''	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
		return nil
	}

	return errInvalidPow''','''	verifier := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
	if !verifier.Verify(header.POW.Nonces, header.POW.EdgeBits) {
		return errInvalidPow
	}

	return nil''')
# 11 difficulty: split into helpers
M('ok','*',DF,'''	sort.SliceStable(windowBegin, func(i, j int) bool {
		return windowBegin[i].Before(windowBegin[j])
	})
	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowEnd[i].Before(windowEnd[j])
	})

	beginTime := windowBegin[len(windowBegin)/2]
	endTime := windowEnd[len(windowEnd)/2]
''','''	beginTime := medianTime(windowBegin)
	endTime := medianTime(windowEnd)
''',DF,'''	// Apply time bounds
	if ts < LowerTimeBound {
		ts = LowerTimeBound
	}
	if ts > UpperTimeBound {
		ts = UpperTimeBound
	}

	//Result
	diff := diffAvg * MinimumDifficulty.FromNum(uint64(BlockTimeWindow)) / MinimumDifficulty.FromNum(uint64(ts))
	if diff > MinimumDifficulty {
		return diff
	}

	return MinimumDifficulty
}''','''	// Apply time bounds
	switch {
	case ts < LowerTimeBound:
		ts = LowerTimeBound
	case ts > UpperTimeBound:
		ts = UpperTimeBound
	}

	//Result
	diff := diffAvg * Difficulty(BlockTimeWindow) / Difficulty(ts)
	if diff < MinimumDifficulty {
		diff = MinimumDifficulty
	}

	return diff
}

// medianTime sorts the times and returns the middle one.
func medianTime(times []time.Time) time.Time {
	sort.SliceStable(times, func(i, j int) bool {
		return times[i].Before(times[j])
	})
	return times[len(times)/2]
}''')
# 12 difficulty loop
M('ok','*',DF,'''	for i := blen - 1; i >= 0; i-- {
		if i < DifficultyAdjustWindow {
			sumDiff += blist[i].Header.Difficulty

			if i < MedianTimeWindow {
				windowBegin = append(windowBegin, blist[i].Header.Timestamp)
			}
		} else {
			// blocks before the window do not count
			if i < DifficultyAdjustWindow+MedianTimeWindow {
				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
			}
		}
	}
''','''	for i := blen - 1; i >= 0; i-- {
		header := &blist[i].Header
		switch {
		case i >= DifficultyAdjustWindow+MedianTimeWindow:
			// blocks before the window do not count
			continue
		case i >= DifficultyAdjustWindow:
			windowEnd = append(windowEnd, header.Timestamp)
			continue
		case i < MedianTimeWindow:
			windowBegin = append(windowBegin, header.Timestamp)
		}
		sumDiff += header.Difficulty
	}
''')
# 13 transaction: sorted check by helper; reading with range
M('ok','*',TX,'''	// Check sorted input, output requiring consensus rule!
	if !sort.IsSorted(t.Inputs) {
		return errors.New("consensus error: inputs are not sorted")
	}

	if !sort.IsSorted(t.Outputs) {
		return errors.New("consensus error: outputs are not sorted")
	}

	if !sort.IsSorted(t.Kernels) {
		return errors.New("consensus error: kernels are not sorted")
	}

	return nil
}''','''	return t.verifySorted()
}

// verifySorted checks the consensus rule about the order of the lists.
func (t *Transaction) verifySorted() error {
	lists := []struct {
		name string
		list sort.Interface
	}{
		{"inputs", t.Inputs},
		{"outputs", t.Outputs},
		{"kernels", t.Kernels},
	}
	for _, l := range lists {
		if !sort.IsSorted(l.list) {
			return fmt.Errorf("consensus error: %s are not sorted", l.name)
		}
	}
	return nil
}''')
# 14 locator and short id
M('ok','*',LO,'''	h.Hashes = make([]Hash, count)
	for i := 0; i < int(count); i++ {
		h.Hashes[i] = make([]byte, BlockHashSize)

		if _, err := io.ReadFull(r, h.Hashes[i]); err != nil {
			return err
		}
	}
''','''	hashes := make([]Hash, 0, count)
	for len(hashes) < int(count) {
		hash := make(Hash, BlockHashSize)
		if _, err := io.ReadFull(r, hash); err != nil {
			return err
		}
		hashes = append(hashes, hash)
	}
	h.Hashes = hashes
''',ID,'''	result := make(ShortID, ShortIDSize+2)

	k0''','''	k0''',ID,'''	hash := siphash.Hash(k0, k1, h)
	binary.LittleEndian.PutUint64(result, hash)

	// returned size is ShortIDSize
	return result[0:6]''','''	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], siphash.Hash(k0, k1, h))

	// returned size is ShortIDSize
	return ShortID(buf[:ShortIDSize])''')
# 15 cuckoo: nonce check helper in both verifiers
M('ok','*',CU,'''		if uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] <= nonces[i-1]) {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}
''','''		inRange := uint64(nonces[i]) <= numEdges
		ascending := i == 0 || nonces[i-1] < nonces[i]
		if !inRange || !ascending {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}
''',CU,'''	edges := make([]*Edge, proofSize)
	for i := 0; i < proofSize; i++ {
		// Ensure nonces are in ascending order and that they are all of the
		// correct easiness.
		if uint64(nonces[i]) >= easiness || (i != 0 && nonces[i] <= nonces[i-1]) {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}

		edges[i] = c.NewEdge(nonces[i])
	}
''','''	edges := make([]*Edge, 0, proofSize)
	for i, nonce := range nonces {
		// Ensure nonces are in ascending order and that they are all of the
		// correct easiness.
		if uint64(nonce) >= easiness {
			logrus.Infof("Nonce %d is out of range", i)
			return false
		}
		if i > 0 && nonce <= nonces[i-1] {
			logrus.Infof("Nonce %d is out of order", i)
			return false
		}

		edges = append(edges, c.NewEdge(nonce))
	}
''')
# 16 cuckoo: keys helper, constructor sharing
M('ok','*',CU,'''	bsum := blake2b.Sum256(key)
	key = bsum[:]

	var v [4]uint64
	v[0] = binary.LittleEndian.Uint64(key[:8])
	v[1] = binary.LittleEndian.Uint64(key[8:16])
	v[2] = binary.LittleEndian.Uint64(key[16:24])
	v[3] = binary.LittleEndian.Uint64(key[24:32])

	numVertices := uint64(1) << sizeShift

	return &Cuckoo{
		mask: numVertices/2 - 1,
		size: numVertices,
		v:    v,
	}
}
''','''	numVertices := uint64(1) << sizeShift

	return &Cuckoo{
		mask: numVertices/2 - 1,
		size: numVertices,
		v:    siphashKeys(key),
	}
}

// siphashKeys derives the four siphash keys from data.
func siphashKeys(data []byte) (v [4]uint64) {
	sum := blake2b.Sum256(data)
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(sum[8*i:])
	}
	return v
}
''',CU,'''	bsum := blake2b.Sum256(key)
	key = bsum[:]

	var v [4]uint64
	v[0] = binary.LittleEndian.Uint64(key[:8])
	v[1] = binary.LittleEndian.Uint64(key[8:16])
	v[2] = binary.LittleEndian.Uint64(key[16:24])
	v[3] = binary.LittleEndian.Uint64(key[24:32])

	return &Cuckaroo{
		v: v,
	}
}''','''	return NewFromKeys(siphashKeys(key))
}''')
# 17 siphash: rotl helper, round as a method
M('ok','*',SH,'''	round := func() {
		h.v[0] += h.v[1]
		h.v[1] = h.v[1]<<13 | h.v[1]>>(64-13)
		h.v[1] ^= h.v[0]
		h.v[0] = h.v[0]<<32 | h.v[0]>>(64-32)

		h.v[2] += h.v[3]
		h.v[3] = h.v[3]<<16 | h.v[3]>>(64-16)
		h.v[3] ^= h.v[2]

		h.v[0] += h.v[3]
		h.v[3] = h.v[3]<<21 | h.v[3]>>(64-21)
		h.v[3] ^= h.v[0]

		h.v[2] += h.v[1]
		h.v[1] = h.v[1]<<17 | h.v[1]>>(64-17)
		h.v[1] ^= h.v[2]
		h.v[2] = h.v[2]<<32 | h.v[2]>>(64-32)
	}

	round()
	round()

	h.v[0] ^= nonce
	h.v[2] ^= 0xff

	round()
	round()
	round()
	round()
}
''','''	for i := 0; i < 2; i++ {
		h.round()
	}

	h.v[0] ^= nonce
	h.v[2] ^= 0xff

	for i := 0; i < 4; i++ {
		h.round()
	}
}

// round is one SipHash round.
func (h *SipHash24) round() {
	v0, v1, v2, v3 := h.v[0], h.v[1], h.v[2], h.v[3]

	v0 += v1
	v2 += v3
	v1 = bits.RotateLeft64(v1, 13) ^ v0
	v3 = bits.RotateLeft64(v3, 16) ^ v2
	v0 = bits.RotateLeft64(v0, 32)

	v2 += v1
	v0 += v3
	v1 = bits.RotateLeft64(v1, 17) ^ v2
	v3 = bits.RotateLeft64(v3, 21) ^ v0
	v2 = bits.RotateLeft64(v2, 32)

	h.v = [4]uint64{v0, v1, v2, v3}
}
''',SH,'''package cuckoo
''','''package cuckoo

import "math/bits"
''',SH,'''	if nonce == start+siphashBlockMask {
		return siphash.Sum64()
	} else {
		return nonceHash ^ siphash.Sum64()
	}''','''	last := siphash.Sum64()
	if nonce&siphashBlockMask == siphashBlockMask {
		return last
	}
	return nonceHash ^ last''')
# 18 findCycleLength: helper for the search of the next edge
M('ok','*',CU,'''		if vertexInUPartition {
			// Find an unused edge that connects to the current vertex.
			for j := range edges {
				if j != i && !edges[j].usedU && edges[i].U == edges[j].U {
					edges[i].usedU = true
					edges[j].usedU = true

					i = j
					cycle++

					continue loop
				}
			}
		} else {
			// Find an unused edge that connects to the current vertex.
			for j := range edges {
				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[i].usedV = true
					edges[j].usedV = true

					i = j
					cycle++

					continue loop
				}
			}
		}

		// If we didn't find a match for this vertex then we're done.
		break
	}

	return cycle
}''','''		// Find an unused edge that connects to the current vertex.
		for j, next := range edges {
			if j == i {
				continue
			}
			current := edges[i]
			if vertexInUPartition {
				if next.usedU || current.U != next.U {
					continue
				}
				current.usedU, next.usedU = true, true
			} else {
				if next.usedV || current.V != next.V {
					continue
				}
				current.usedV, next.usedV = true, true
			}

			i = j
			cycle++
			continue loop
		}

		// If we didn't find a match for this vertex then we're done.
		return cycle
	}
}''')
# 19 the degree check as a function
M('ok','*',CU,'''	for m := range edges {
		degreeU, degreeV := 0, 0
		for n := range edges {
			if edges[m].U == edges[n].U {
				degreeU++
			}
			if edges[m].V == edges[n].V {
				degreeV++
			}
		}
		if degreeU > 2 || degreeV > 2 {
			return 0
		}
	}
''','''	for _, e := range edges {
		if degreeU, degreeV := degrees(edges, e); degreeU > 2 || degreeV > 2 {
			return 0
		}
	}
''',CU,'''// New returns a new instance of a Cuckoo cycle''','''// degrees counts the edges at the ends of edge e.
func degrees(edges []*Edge, e *Edge) (u, v int) {
	for _, other := range edges {
		if other.U == e.U {
			u++
		}
		if other.V == e.V {
			v++
		}
	}
	return u, v
}

// New returns a new instance of a Cuckoo cycle''')
# 20 signature: helper for the challenge
M('ok','*',SC,'''	// Compute a non-interactive challenge.
	Rx := GetB32(R.X)
	compressedPubkey := CompressPubkey(publicKey)
	challenge := ComputeHash(
		Rx[:],
		compressedPubkey[:],
		message[:])
	e := new(big.Int).SetBytes(challenge[:])

	s := Sum(k, Mul(e, &privateKey))

	return Signature{S: *s, R: *R}
}''','''	// Compute a non-interactive challenge.
	e := computeChallenge(R.X, publicKey, message)

	s := Sum(Mul(&privateKey, e), k)

	sig := Signature{R: *R}
	sig.S = *s
	return sig
}

// computeChallenge is the hash of R, the public key and the message as a number.
func computeChallenge(x *big.Int, publicKey Point, message [32]byte) *big.Int {
	Rx := GetB32(x)
	compressedPubkey := CompressPubkey(publicKey)
	challenge := ComputeHash(Rx[:], compressedPubkey[:], message[:])
	return new(big.Int).SetBytes(challenge[:])
}''',SC,'''	Rx := GetB32(signature.R.X)
	compressedPubkey := CompressPubkey(publicKey)

	// Compute the non-interactive challenge.
	challenge := ComputeHash(
		Rx[:],
		compressedPubkey[:],
		message[:])
	e := new(big.Int).SetBytes(challenge[:])
''','''	// Compute the non-interactive challenge.
	e := computeChallenge(signature.R.X, publicKey, message)
''',SC,'''retry:
	buf := RandomBytes()

	r := &big.Int{}
	r.SetBytes(buf[:])

	if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {
		goto retry
	}

	return r''','''	order := btcec.S256().N
	for {
		buf := RandomBytes()
		r := new(big.Int).SetBytes(buf[:])
		if r.Sign() > 0 && r.Cmp(order) < 0 {
			return r
		}
	}''')
# 21 keys and signatures
M('ok','*',SC,'''	if p.Y.Bit(0) == 1 { // is odd
		buf[0] = TagPubkeyOdd
	} else {
		buf[0] = TagPubkeyEven
	}
''','''	buf[0] = TagPubkeyEven
	if p.Y.Bit(0) != 0 { // is odd
		buf[0] = TagPubkeyOdd
	}
''',SC,'''	Rx := GetB32(s.R.X)
	S := GetB32(&s.S)
	copy(buf[0:32], Rx[:])
	copy(buf[32:64], S[:])
	return buf''','''	for i, n := range []*big.Int{s.R.X, &s.S} {
		b := GetB32(n)
		copy(buf[32*i:], b[:])
	}
	return buf''',SC,'''	s := new(big.Int).SetBytes(signature[32:64])

	R := new(Point)
	R.X = new(big.Int).SetBytes(signature[0:32])
	R.Y = decompressPoint(signature[0:32])

	return Signature{
		S: *s,
		R: *R,
	}''','''	x, s := signature[:32], signature[32:]

	var sig Signature
	sig.S.SetBytes(s)
	sig.R = Point{
		X: new(big.Int).SetBytes(x),
		Y: decompressPoint(x),
	}

	return sig''')
# 22 pool: small helpers
M('ok','*',PL,'''	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()
	if ok {
		return peerInfo
	}

	return nil
}
''','''	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	return pp.PeersTable[addr]
}
''',PL,'''	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()

	if !ok {
		return errors.New("peer doesn't exists at peersTable")
	}
''','''	peerInfo := pp.PeerInfo(addr)
	if peerInfo == nil {
		return errors.New("peer doesn't exists at peersTable")
	}
''',PL,'''	if err != nil {
		peerInfo.Lock()
		peerInfo.Status = psFailedConn
		peerInfo.Unlock()
		return err
	}
''','''	if err != nil {
		peerInfo.setStatus(psFailedConn)
		return err
	}
''',PL,'''		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
	}()''','''		peerInfo.setStatus(psDisconnected)

		<-pp.pool
	}()''',PL,'''type peerStatus int
''','''// setStatus records the status of the peer
func (pi *peerInfo) setStatus(status peerStatus) {
	pi.Lock()
	defer pi.Unlock()

	pi.Status = status
}

type peerStatus int
''')
# 23 pool: connected table helpers
M('ok','*',PL,'''	// update connected peers
	atomic.AddInt32(&pp.connected, 1)
	pp.cpmu.Lock()
	pp.ConnectedPeers[addr] = peerInfo
	pp.cpmu.Unlock()
''','''	pp.addConnected(addr, peerInfo)
''',PL,'''		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()
''','''		pp.removeConnected(addr)
''',PL,'''// Run starts network activity''','''// addConnected enters a peer into the table of connected peers.
func (pp *peersPool) addConnected(addr string, info *peerInfo) {
	atomic.AddInt32(&pp.connected, 1)
	pp.cpmu.Lock()
	defer pp.cpmu.Unlock()
	pp.ConnectedPeers[addr] = info
}

// removeConnected takes a peer out of the table of connected peers.
func (pp *peersPool) removeConnected(addr string) {
	atomic.AddInt32(&pp.connected, -1)
	pp.cpmu.Lock()
	defer pp.cpmu.Unlock()
	delete(pp.ConnectedPeers, addr)
}

// Run starts network activity''')
# 24 pool: waiting for the end as a method
M('ok','*',PL,'''	go func() {
		peerConn.WaitForDisconnect()
		logrus.Infof("closed peer connection (%s)", addr)

		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()

		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
	}()

	return nil
}''','''	go pp.cleanup(addr, peerInfo, peerConn)

	return nil
}

// cleanup waits for the end of a connection.
func (pp *peersPool) cleanup(addr string, info *peerInfo, conn *Peer) {
	// give the slot back
	defer func() { <-pp.pool }()

	conn.WaitForDisconnect()
	logrus.Infof("closed peer connection (%s)", addr)

	// clean connected peers
	atomic.AddInt32(&pp.connected, -1)
	pp.cpmu.Lock()
	delete(pp.ConnectedPeers, addr)
	pp.cpmu.Unlock()

	// update peers table
	info.Lock()
	info.Status = psDisconnected
	info.Unlock()
}''')
# 25 pool: Add with the checks in a helper, Ban with early steps in helpers
M('ok','*',PL,'''	netAddr, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		// dont add invalid tcp addrs
		return
	}

	// FIXME: discard another IPs
	if netAddr.IP.IsMulticast() {
		return
	}

	if netAddr.Port == 0 {
		return
	}
''','''	netAddr, ok := usableAddr(addr)
	if !ok {
		return
	}
''',PL,'''// PeerAddrs returns peer list (no banned)''','''// usableAddr resolves addr if it can be dialled.
func usableAddr(addr string) (*net.TCPAddr, bool) {
	netAddr, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil || netAddr.IP.IsMulticast() || netAddr.Port == 0 {
		return nil, false
	}
	return netAddr, true
}

// PeerAddrs returns peer list (no banned)''',PL,'''	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	// Don't add if big peer table
	if len(pp.PeersTable) > maxPeersTableSize {
		return
	}

	// Checks for existing
	if _, ok := pp.PeersTable[addr]; ok {
		return
	}

	// Adds new
	pp.PeersTable[addr] = &peerInfo{''','''	_, known := pp.PeersTable[addr]
	switch {
	case known, len(pp.PeersTable) > maxPeersTableSize, pp.IsBan(addr):
		return
	}

	// Adds new
	pp.PeersTable[addr] = &peerInfo{''')
# 26 pool: Peers filter as a method, early exit of the loop
M('ok','*',PL,'''	for _, peerInfo := range pp.PeersTable {
		peerInfo.Lock()
		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities
		peerInfo.Unlock()

		if status == psBanned || status == psFailedConn {
			continue
		}

		// filter by capabilities
		if (peerCapabilities & capabilities) != capabilities {
			continue
		}

		addrs = append(addrs, peerInfo.netAddr)

		if len(addrs) == consensus.MaxPeerAddrs {
			break
		}
	}

	return &PeerAddrs{
		peers: addrs,
	}
}
''','''	for _, peerInfo := range pp.PeersTable {
		if len(addrs) >= consensus.MaxPeerAddrs {
			break
		}
		if peerInfo.offers(capabilities) {
			addrs = append(addrs, peerInfo.netAddr)
		}
	}

	return &PeerAddrs{peers: addrs}
}

// offers tells whether the peer can be handed out to somebody who wants capabilities.
func (pi *peerInfo) offers(wanted consensus.Capabilities) bool {
	pi.Lock()
	defer pi.Unlock()

	switch pi.Status {
	case psBanned, psFailedConn:
		return false
	}
	return pi.Capabilities&wanted == wanted
}
''')
# 27 pool: notConnected in one pass
M('ok','*',PL,'''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""''','''	failed := ""
	for addr, peerInfo := range pp.PeersTable {
		switch peerInfo.status() {
		case psNew, psDisconnected:
			// a good peer
			return addr
		case psFailedConn:
			failed = addr
		}
	}

	// try to open conn with failed nodes
	return failed''')
# 28 pool: Run
M('ok','*',PL,'''out:
	for {
		select {
		case <-pp.quit:
			break out

		case pp.pool <- struct{}{}:
			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}

			time.Sleep(time.Second)
		}
	}

	// Close all connections
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()
''','''	for pp.acquire() {
		addr := pp.notConnected()
		if err := pp.connectPeer(addr); err != nil {
			logrus.Error(err)
			pp.release()
		}

		time.Sleep(time.Second)
	}

	pp.closeAll()
}

// acquire takes a connection slot, or returns false if the pool stops.
func (pp *peersPool) acquire() bool {
	select {
	case <-pp.quit:
		return false
	case pp.pool <- struct{}{}:
		return true
	}
}

// release gives a connection slot back.
func (pp *peersPool) release() {
	<-pp.pool
}

// closeAll closes all connections.
func (pp *peersPool) closeAll() {
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()
''')
# 29 peer: dispatch by a message factory
M('ok','*',PE,'''		case consensus.MsgTypePing:
			// update peer info & send Pong
			var msg Ping
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Debugf("Received Ping from %s", p.conn.RemoteAddr().String())
			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypePong:
			// update peer info
			var msg Pong
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)
''','''		case consensus.MsgTypePing:
			// update peer info & send Pong
			if exitError = p.handle(new(Ping), rl); exitError != nil {
				break out
			}

		case consensus.MsgTypePong:
			// update peer info
			if exitError = p.handle(new(Pong), rl); exitError != nil {
				break out
			}
''',PE,'''// Disconnect closes peer connection''','''// handle decodes a message and hands it over.
func (p *Peer) handle(msg Message, r io.Reader) error {
	if err := msg.Read(r); err != nil {
		return err
	}

	p.sync.ProcessMessage(p, msg)
	return nil
}

// Disconnect closes peer connection''')
# 30 peer: reading a frame as a function
M('ok','*',PE,'''		if exitError = header.Read(input); exitError != nil {
			logrus.Debugf("Failed to read message from peer %v", p.conn.RemoteAddr())
			break out
		}

		if header.Len > consensus.MaxMsgLen {
			exitError = errors.New("too big message size")
			break out
		}

		// Read the whole message. If the peer disconnects mid-way through
		// ReadFull will return an error.
		readBuffer := make([]byte, header.Len)
		_, err := io.ReadFull(input, readBuffer)
		if err != nil {
			logrus.Infof("Failed to read message: %v", err)
			break out
		}
''','''		var readBuffer []byte
		if readBuffer, exitError = readFrame(input, header); exitError != nil {
			logrus.Debugf("Failed to read message from peer %v", p.conn.RemoteAddr())
			break out
		}
''',PE,'''// Disconnect closes peer connection''','''// readFrame reads a header and the message that belongs to it.
func readFrame(r io.Reader, header *Header) ([]byte, error) {
	if err := header.Read(r); err != nil {
		return nil, err
	}

	if header.Len > consensus.MaxMsgLen {
		return nil, errors.New("too big message size")
	}

	// If the peer disconnects mid-way through ReadFull will return an error.
	body := make([]byte, header.Len)
	if _, err := io.ReadFull(r, body); err != nil {
		return nil, err
	}
	return body, nil
}

// Disconnect closes peer connection''')
# 31 peer: write loop, disconnect flag
M('ok','*',PE,'''out:
	for {
		select {
		case msg := <-p.sendQueue:
			// Ensure that conn is alive
			if atomic.LoadInt32(&p.disconnect) != 0 {
				break out
			}

			var written uint64
			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {
				break out
			}

			atomic.AddUint64(&p.bytesSent, written)

		case <-p.quit:
			exitError = errors.New("peer exiting")
			break out
		}
	}

	p.wg.Done()
	p.Disconnect(exitError)
}
''','''	for exitError == nil && !p.disconnected() {
		select {
		case msg := <-p.sendQueue:
			exitError = p.write(msg)

		case <-p.quit:
			exitError = errors.New("peer exiting")
		}
	}

	p.wg.Done()
	p.Disconnect(exitError)
}

// disconnected tells whether somebody has disconnected the peer.
func (p *Peer) disconnected() bool {
	return atomic.LoadInt32(&p.disconnect) != 0
}

// write sends a message unless the connection is down.
func (p *Peer) write(msg Message) error {
	if p.disconnected() {
		return errors.New("peer is disconnected")
	}

	written, err := WriteMessage(p.conn, msg)
	if err != nil {
		return err
	}

	atomic.AddUint64(&p.bytesSent, written)
	return nil
}
''')
# 32 sync: one method per message
M('ok','*',SY,'''		// MUST be answered
		// update peer info
		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		// send answer
		var resp Pong

		// Lock the chain before getting various params
		s.Chain.RLock()
		resp.TotalDifficulty = s.Chain.TotalDifficulty()
		resp.Height = s.Chain.Height()
		s.Chain.RUnlock()

		peer.WriteMessage(&resp)
		logrus.Debugf("Sent Pong to %s", peer.conn.RemoteAddr())

	case *Pong:
		// update peer info
		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()
''','''		// MUST be answered
		peerInfo.update(msg.Height, msg.TotalDifficulty)

		// send answer
		peer.WriteMessage(&Pong{Ping: s.state()})
		logrus.Debugf("Sent Pong to %s", peer.conn.RemoteAddr())

	case *Pong:
		peerInfo.update(msg.Height, msg.TotalDifficulty)
''',SY,'''func (s *Syncer) ProcessMessage(''','''// update records what a peer tells about its chain.
func (pi *peerInfo) update(height uint64, difficulty consensus.Difficulty) {
	pi.Lock()
	pi.Height = height
	pi.TotalDifficulty = difficulty
	pi.Unlock()
}

// state is the current state of our chain.
func (s *Syncer) state() Ping {
	s.Chain.RLock()
	defer s.Chain.RUnlock()

	return Ping{
		TotalDifficulty: s.Chain.TotalDifficulty(),
		Height:          s.Chain.Height(),
	}
}

func (s *Syncer) ProcessMessage(''',PE,'''	var request Ping
	p.sync.Chain.RLock()
	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()
	request.Height = p.sync.Chain.Height()
	p.sync.Chain.RUnlock()

	p.WriteMessage(&request)
''','''	request := p.sync.state()
	p.WriteMessage(&request)
''')
# 33 sync: block handling as a method
M('ok','*',SY,'''		if err := s.Chain.ProcessBlock(msg); err != nil {
			logrus.Info(err)
			// TODO: maybe smarter ban peer ?
			s.Pool.Ban(peer.Addr)
			return
		}

		// update peer info
		peerInfo.Lock()

		if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {
			peerInfo.TotalDifficulty = msg.Header.TotalDifficulty
			peerInfo.Height = msg.Header.Height
		}

		peerInfo.Unlock()

		// propagate if it is top block
		s.Chain.RLock()
		height := s.Chain.Height()
		s.Chain.RUnlock()

		if msg.Header.Height == height {
			s.Pool.PropagateBlock(msg)
		}
''','''		s.processBlock(peer, peerInfo, msg)
''',SY,'''func (s *Syncer) ProcessMessage(''','''// processBlock handles a block received from a peer.
func (s *Syncer) processBlock(peer *Peer, info *peerInfo, block *consensus.Block) {
	err := s.Chain.ProcessBlock(block)
	if err != nil {
		logrus.Info(err)
		// TODO: maybe smarter ban peer ?
		s.Pool.Ban(peer.Addr)
		return
	}

	header := &block.Header

	// update peer info
	func() {
		info.Lock()
		defer info.Unlock()

		behind := info.Height < header.Height || info.TotalDifficulty < header.TotalDifficulty
		if behind {
			info.Height, info.TotalDifficulty = header.Height, header.TotalDifficulty
		}
	}()

	// propagate if it is top block
	if s.isTop(header.Height) {
		s.Pool.PropagateBlock(block)
	}
}

// isTop tells whether height is the current height.
func (s *Syncer) isTop(height uint64) bool {
	s.Chain.RLock()
	defer s.Chain.RUnlock()
	return s.Chain.Height() == height
}

func (s *Syncer) ProcessMessage(''')
# 34 handshake: common reading and writing of strings
M('ok','*',HS,'''	// read user agent
	var userAgentLen uint64
	if err := binary.Read(r, binary.BigEndian, &userAgentLen); err != nil {
		return err
	}

	if userAgentLen > consensus.MaxMsgLen {
		return errors.New("too big user agent len")
	}

	buff := make([]byte, userAgentLen)
	if _, err := io.ReadFull(r, buff); err != nil {
		return err
	}

	h.UserAgent = string(buff)

	genesisBuf := make([]byte, 32)
	if _, err := io.ReadFull(r, genesisBuf); err != nil {
		return err
	}

	h.Genesis = genesisBuf

	return nil
}''','''	// read user agent
	if h.UserAgent, err = readString(r); err != nil {
		return err
	}

	h.Genesis = make(consensus.Hash, consensus.BlockHashSize)
	_, err = io.ReadFull(r, h.Genesis)
	return err
}

// readString reads a string with its length in front of it.
func readString(r io.Reader) (string, error) {
	var size uint64
	if err := binary.Read(r, binary.BigEndian, &size); err != nil {
		return "", err
	}

	if size > consensus.MaxMsgLen {
		return "", errors.New("too big string")
	}

	buff := make([]byte, size)
	if _, err := io.ReadFull(r, buff); err != nil {
		return "", err
	}
	return string(buff), nil
}''',HS,'''	var userAgentLen uint64
	if err := binary.Read(r, binary.BigEndian, &userAgentLen); err != nil {
		return err
	}

	if userAgentLen > consensus.MaxMsgLen {
		return errors.New("too big user agent len")
	}

	buff := make([]byte, userAgentLen)
	if _, err := io.ReadFull(r, buff); err != nil {
		return err
	}

	h.UserAgent = string(buff)

	genesisBuf''','''	agent, err := readString(r)
	if err != nil {
		return err
	}
	h.UserAgent = agent

	genesisBuf''')
# 35 handshake: checks in helpers
M('ok','*',HS,'''	// Only connect to peers on the same chain
	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return nil, errors.New("peer is on another chain")
	}

	return sh, nil
}''','''	if err := sameChain(sh.Genesis); err != nil {
		return nil, err
	}

	return sh, nil
}

// sameChain: only connect to peers on the same chain
func sameChain(genesis consensus.Hash) error {
	if bytes.Compare(chain.Testnet4.Hash(), genesis) != 0 {
		return errors.New("peer is on another chain")
	}
	return nil
}''',HS,'''	// Only connect to peers on the same chain
	genesis := chain.Testnet4.Hash()
	if !bytes.Equal(h.Genesis, genesis) {
		return nil, errors.New("peer is on another chain")
	}
''','''	if err := sameChain(h.Genesis); err != nil {
		return nil, err
	}
''',HS,'''		Genesis:         genesis,
''','''		Genesis:         chain.Testnet4.Hash(),
''')
# 36 addresses
M('ok','*',HE,'''			for i := 0; i < net.IPv6len; i += 2 {
				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])

				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
					logrus.Fatal(err)
				}
			}
''','''			if _, err := buff.Write(IP); err != nil {
				logrus.Fatal(err)
			}
''',HE,'''		ipAddr = make([]byte, net.IPv6len)

		for i := 0; i < net.IPv6len; i += 2 {
			var segment uint16

			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
				return nil, err
			}

			ipAddr[i] = byte(segment >> 8)
			ipAddr[i+1] = byte(segment)
		}
''','''		ipAddr = make([]byte, net.IPv6len)

		if _, err := io.ReadFull(r, ipAddr); err != nil {
			return nil, err
		}
''')
# 37 frames: writing in one go
M('ok','*',PC,'''	// use the buffered writer
	wr := bufio.NewWriter(w)
	if err := header.Write(wr); err != nil {
		return 0, err
	}

	n, err := wr.Write(data)
	if err != nil {
		return uint64(n) + consensus.HeaderLen, err
	}

	return uint64(n) + consensus.HeaderLen, wr.Flush()''','''	n, err := w.Write(append(header.Bytes(), data...))
	return uint64(n), err''',PC,'''	"bufio"
''','')
# 38 frames: writing through a buffer, errors collected
M('ok','*',PC,'''	n, err := wr.Write(data)
	if err != nil {
		return uint64(n) + consensus.HeaderLen, err
	}

	return uint64(n) + consensus.HeaderLen, wr.Flush()''','''	n, err := wr.Write(data)
	if err == nil {
		err = wr.Flush()
	}

	return consensus.HeaderLen + uint64(n), err''',PC,'''	if header.Type != msg.Type() {
		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")
	}

	if header.Len > consensus.MaxMsgLen {
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	}
''','''	switch {
	case header.Len > consensus.MaxMsgLen:
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	case header.Type != msg.Type():
		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")
	}
''')
# 39 nonces
M('ok','*',SV,'''	n.list = make([]uint64, noncesCap)

	for i := 0; i < noncesCap; i++ {
		n.list[i] = rand.Uint64()
	}
''','''	n.list = make([]uint64, 0, noncesCap)

	for len(n.list) < noncesCap {
		n.list = append(n.list, rand.Uint64())
	}
''',SV,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false''','''	found := false
	for i := range n.list {
		found = found || n.list[i] == nonce
	}

	return found''')
# 40 chain: headers, blocks
M('ok','*',CH,'''			// pass first block
			blockList = blockList[1:]

			// collect headers
			for _, block := range blockList {
				result = append(result, block.Header)
			}

			return result
		}
	}

	return result
}''','''			return headersAfterFirst(blockList)
		}
	}

	return result
}

// headersAfterFirst collects the headers of all but the first block.
func headersAfterFirst(blocks consensus.BlockList) []consensus.BlockHeader {
	headers := make([]consensus.BlockHeader, 0, len(blocks)-1)
	for i := 1; i < len(blocks); i++ {
		headers = append(headers, blocks[i].Header)
	}
	return headers
}''',CH,'''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil''','''	for i := range headers {
		err := headers[i].Validate()
		if err != nil {
			logrus.Infof("header %d of %d is invalid", i, len(headers))
			return err
		}
	}
	return nil''')
# 41 chain: joining the parent as a method
M('ok','*',CH,'''	logrus.Info("validating with the previous blocks")
	// Previous block exists

	// Checks with the previous block
	// - previous Timestamp MUST BE less block.Header.Timestamp
	if !block.Header.Timestamp.After(prevBlock.Header.Timestamp) {
		return errors.New("invalid block time")
	}
	// - block.TotalDiff MUST BE == previous.TotalDiff + previous.POW.ToDifficulty()
	if block.Header.TotalDifficulty != prevBlock.Header.TotalDifficulty+prevBlock.Header.POW.ToDifficulty() {
		return errors.New("wrong block total difficulty")
	}
	// - check that the difficulty is not less than that calculated by the
	//    	difficulty average based on the previous blocks
	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
	fromHeight := uint64(0)
	if block.Header.Height > uint64(limit) {
		fromHeight = block.Header.Height - uint64(limit)
	}

	blockID := consensus.BlockID{
		Hash:   nil,
		Height: &fromHeight,
	}

	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
	if block.Header.Difficulty < diffAvg {
		return errors.New("difficulty is too low")
	}

	// TODO: applying block

	return nil
}''','''	logrus.Info("validating with the previous blocks")
	// TODO: applying block
	return c.checkParent(&block.Header, &prevBlock.Header)
}

// checkParent checks a header against its parent and the blocks before.
func (c *Chain) checkParent(header, parent *consensus.BlockHeader) error {
	// - previous Timestamp MUST BE less header.Timestamp
	if !parent.Timestamp.Before(header.Timestamp) {
		return errors.New("invalid block time")
	}

	// - TotalDiff MUST BE == previous.TotalDiff + previous.POW.ToDifficulty()
	expected := parent.TotalDifficulty + parent.POW.ToDifficulty()
	if expected != header.TotalDifficulty {
		return errors.New("wrong block total difficulty")
	}

	if header.Difficulty < c.requiredDifficulty(header.Height) {
		return errors.New("difficulty is too low")
	}
	return nil
}

// requiredDifficulty is the least difficulty for a block at height.
func (c *Chain) requiredDifficulty(height uint64) consensus.Difficulty {
	limit := uint64(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)

	var from uint64
	if height > limit {
		from = height - limit
	}

	return consensus.NextDifficulty(c.storage.From(consensus.BlockID{Height: &from}, int(limit)))
}''')
# 42 chain: construction and validation
M('ok','*',CH,'''	chain := Chain{
		storage:         storage,
		genesis:         genesis,
		head:            genesis,
		height:          genesis.Header.Height,
		totalDifficulty: genesis.Header.TotalDifficulty,
	}

	// init state from storage
	// setting up currents: height, total diff & blockHashChain
	if lastBlock := storage.GetLastBlock(); lastBlock != nil {
		chain.head = lastBlock
		chain.totalDifficulty = lastBlock.Header.TotalDifficulty
		chain.height = lastBlock.Header.Height
	}

	return &chain
}
''','''	chain := &Chain{
		storage: storage,
		genesis: genesis,
	}

	// init state from storage
	head := storage.GetLastBlock()
	if head == nil {
		head = genesis
	}
	chain.setHead(head)

	return chain
}

// setHead makes block the head.
func (c *Chain) setHead(block *consensus.Block) {
	c.head = block
	c.height = block.Header.Height
	c.totalDifficulty = block.Header.TotalDifficulty
}
''',CH,'''	block := c.head

	// go from head to genesis
	// TODO: MUST check all consensus rules
	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
		if err := block.Validate(); err != nil {
			return err
		}

		if block = c.GetBlock(block.Header.Previous); block == nil {
			return errors.New("invalid previous hash. blockchain integrity is broken")
		}

		// TODO: check other rules, may be checking block.Height?
	}

	return nil
}''','''	genesisHash := c.genesis.Hash()

	// go from head to genesis
	// TODO: MUST check all consensus rules
	for block := c.head; !bytes.Equal(block.Hash(), genesisHash); {
		if err := block.Validate(); err != nil {
			return err
		}

		previous := c.GetBlock(block.Header.Previous)
		if previous == nil {
			return errors.New("invalid previous hash. blockchain integrity is broken")
		}
		block = previous

		// TODO: check other rules, may be checking block.Height?
	}

	return nil
}''')
M('ok','N03 N12 N15 N09 N06',PL,'''	BannedPeers map[string]struct{}''','''	BannedPeers map[string]bool''',PL,'''make(map[string]struct{})''','make(map[string]bool)',PL,'''pp.BannedPeers[addr] = struct{}{}''','pp.BannedPeers[addr] = true',PL,'''	_, ok := pp.BannedPeers[addr]
	return ok
''','''	return pp.BannedPeers[addr]
''',PL,'''	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if !ok {''','''	peerInfo := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if peerInfo == nil {''')
