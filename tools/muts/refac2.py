# more refactorings of the kind somebody else would make; every check must stay quiet
BK='consensus/block.go'; PR='consensus/proof.go'; DF='consensus/difficulty.go'; TX='consensus/transaction.go'; LO='consensus/locator.go'; ID='consensus/id.go'
CU='cuckoo/cuckoo.go'; SH='cuckoo/siphash24.go'; PE='p2p/peer.go'; PL='p2p/pool.go'; SY='p2p/sync.go'; HS='p2p/handshake.go'; HE='p2p/helpers.go'; MS='p2p/messages.go'; PC='p2p/protocol.go'; SV='p2p/server.go'; CH='chain/chain.go'; SC='secp256k1zkp/schnorr.go'
# 0 block encoding with PutUint64, range over a list of counts
M('ok','*',BK,'''	// Write counts: inputs, outputs, kernels
	if err := binary.Write(buff, binary.BigEndian, uint64(len(b.Inputs))); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(len(b.Outputs))); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(len(b.Kernels))); err != nil {
		logrus.Fatal(err)
	}
''','''	var counts [24]byte
	binary.BigEndian.PutUint64(counts[:8], uint64(len(b.Inputs)))
	binary.BigEndian.PutUint64(counts[8:16], uint64(len(b.Outputs)))
	binary.BigEndian.PutUint64(counts[16:], uint64(len(b.Kernels)))
	buff.Write(counts[:])
''',BK,'''	// Write inputs
	for _, input := range b.Inputs {
		if _, err := buff.Write(input.Bytes()); err != nil {
			logrus.Fatal(err)
		}
	}
''','''	// Write inputs
	for i := range b.Inputs {
		buff.Write(b.Inputs[i].Bytes())
	}
''',BK,'''	// Write outputs
	for _, output := range b.Outputs {
		if _, err := buff.Write(output.Bytes()); err != nil {
			logrus.Fatal(err)
		}
	}
''','''	// Write outputs
	for i := 0; i < len(b.Outputs); i++ {
		output := &b.Outputs[i]
		if _, err := buff.Write(output.Bytes()); err != nil {
			logrus.Fatal(err)
		}
	}
''')
# 1 block reading: range loops, a limit helper, counts in an array
M('ok','*',BK,'''	var inputs, outputs, kernels uint64
	if err := binary.Read(r, binary.BigEndian, &inputs); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &outputs); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &kernels); err != nil {
		return err
	}

	// Sanity check the lengths.
	if inputs > 1000000 {
		return errors.New("transaction contains too many inputs")
	}
	if outputs > 1000000 {
		return errors.New("transaction contains too many outputs")
	}
	if kernels > 1000000 {
		return errors.New("transaction contains too many kernels")
	}

	// Read inputs
	b.Inputs = make([]Input, inputs)
	for i := uint64(0); i < inputs; i++ {
		if err := b.Inputs[i].Read(r); err != nil {
			return err
		}
	}

	// Read outputs
	b.Outputs = make([]Output, outputs)
	for i := uint64(0); i < outputs; i++ {
		if err := b.Outputs[i].Read(r); err != nil {
			return err
		}
	}

	// Read kernels
	b.Kernels = make([]TxKernel, kernels)
	for i := uint64(0); i < kernels; i++ {
		if err := b.Kernels[i].Read(r); err != nil {
			return err
		}
	}

	return nil
}
''','''	var counts [3]uint64
	for i := range counts {
		if err := binary.Read(r, binary.BigEndian, &counts[i]); err != nil {
			return err
		}
	}

	// Sanity check the lengths.
	for i, name := range []string{"inputs", "outputs", "kernels"} {
		if counts[i] > maxListLen {
			return errors.New("transaction contains too many " + name)
		}
	}

	// Read inputs
	b.Inputs = make(InputList, counts[0])
	for i := range b.Inputs {
		if err := b.Inputs[i].Read(r); err != nil {
			return err
		}
	}

	// Read outputs
	b.Outputs = make(OutputList, counts[1])
	for i := range b.Outputs {
		output := &b.Outputs[i]
		if err := output.Read(r); err != nil {
			return err
		}
	}

	// Read kernels
	kernels := make(TxKernelList, counts[2])
	for i := range kernels {
		if err := kernels[i].Read(r); err != nil {
			return err
		}
	}
	b.Kernels = kernels

	return nil
}

// maxListLen is the limit of the lists of a block.
const maxListLen = 1000000
''')
# 2 block validation: early continue, one loop over kernels, sortedness over a list
M('ok','*',BK,'''		if output.Features&CoinbaseOutput == CoinbaseOutput {
			coinbase++

			if coinbase > MaxBlockCoinbaseOutputs {
				return errors.New("invalid block with few coinbase outputs")
			}

			// Validate output
			if err := output.Validate(); err != nil {
				return err
			}
		}
	}
''','''		if !output.isCoinbase() {
			continue
		}

		if coinbase++; coinbase > MaxBlockCoinbaseOutputs {
			return errors.New("invalid block with few coinbase outputs")
		}

		// Validate output
		if err := output.Validate(); err != nil {
			return err
		}
	}
''',BK,'''func (b *Block) verifyKernels() error {
	coinbase := 0

	for _, kernel := range b.Kernels {
		if kernel.Features&CoinbaseKernel == CoinbaseKernel {
			coinbase++

			if coinbase > MaxBlockCoinbaseKernels {
				return errors.New("invalid block with few coinbase kernels")
			}
		}

		// Validate kernel
		if err := kernel.Validate(); err != nil {
			return err
		}
	}
''','''// isCoinbase tells whether the output is the reward of a block.
func (o *Output) isCoinbase() bool {
	return o.Features&CoinbaseOutput != 0
}

func (b *Block) verifyKernels() error {
	coinbase := 0
	for i := range b.Kernels {
		if b.Kernels[i].Features&CoinbaseKernel != 0 {
			coinbase++
		}
	}

	if coinbase > MaxBlockCoinbaseKernels {
		return errors.New("invalid block with few coinbase kernels")
	}

	// Validate the kernels
	for i := range b.Kernels {
		if err := b.Kernels[i].Validate(); err != nil {
			return err
		}
	}
''',BK,'''	if !sort.IsSorted(b.Inputs) {
		return errors.New("block inputs are not sorted")
	}

	if !sort.IsSorted(b.Outputs) {
		return errors.New("block outputs are not sorted")
	}

	if !sort.IsSorted(b.Kernels) {
		return errors.New("block kernels are not sorted")
	}

	return nil
''','''	for _, list := range []struct {
		name string
		data sort.Interface
	}{
		{"inputs", b.Inputs},
		{"outputs", b.Outputs},
		{"kernels", b.Kernels},
	} {
		if !sort.IsSorted(list.data) {
			return fmt.Errorf("block %s are not sorted", list.name)
		}
	}

	return nil
''',BK,'''	for _, output := range b.Outputs {
		if !prover.Verify(output.Commit, output.RangeProof) {
			return fmt.Errorf("proof verification failed for %v %v",
				output.Commit, output.RangeProof)
		}
	}
	return nil
''','''	for i := 0; i < len(b.Outputs); i++ {
		output := b.Outputs[i]
		if ok := prover.Verify(output.Commit, output.RangeProof); ok {
			continue
		}

		return fmt.Errorf("proof verification failed for %v %v", output.Commit, output.RangeProof)
	}
	return nil
''',BK,'''	// Check sorted inputs, outputs, kernels
	if err := b.verifySorted(); err != nil {
		return err
	}

	if err := b.verifyCoinbase(); err != nil {
		return err
	}

	// Verify all output values are within the correct range.
	if err := b.verifyRangeProofs(); err != nil {
		return err
	}

	if err := b.verifyKernels(); err != nil {
		return err
	}

	return nil
}
''','''	err := b.verifySorted()
	if err == nil {
		err = b.verifyCoinbase()
	}
	if err == nil {
		// Verify all output values are within the correct range.
		err = b.verifyRangeProofs()
	}
	if err == nil {
		err = b.verifyKernels()
	}

	return err
}
''')
# 3 compact block: appending, int loops, sorted by sort.Slice
M('ok','*',BK,'''	// Read outputs
	b.Outputs = make(OutputList, outputs)
	for i := uint8(0); i < outputs; i++ {
		if err := b.Outputs[i].Read(r); err != nil {
			return err
		}
	}
''','''	// Read outputs
	b.Outputs = make(OutputList, 0, int(outputs))
	for i := 0; i < int(outputs); i++ {
		var output Output
		if err := output.Read(r); err != nil {
			return err
		}
		b.Outputs = append(b.Outputs, output)
	}
''',BK,'''	for i := uint64(0); i < kernelIDs; i++ {

		shortID := make(ShortID, ShortIDSize)
		if _, err := io.ReadFull(r, shortID); err != nil {
			return err
		}

		b.KernelIDs[i] = shortID
	}
''','''	for i := range b.KernelIDs {
		b.KernelIDs[i] = make(ShortID, ShortIDSize)
		if _, err := io.ReadFull(r, b.KernelIDs[i]); err != nil {
			return err
		}
	}
''',BK,'''	if err := binary.Write(buff, binary.BigEndian, uint8(len(b.Outputs))); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint8(len(b.Kernels))); err != nil {
		logrus.Fatal(err)
	}
''','''	buff.WriteByte(uint8(len(b.Outputs)))
	buff.WriteByte(uint8(len(b.Kernels)))
''')
# 4 the header: field by field through a closure; times by After
M('ok','*',BK,'''	if err := binary.Read(r, binary.BigEndian, &b.OutputMmrSize); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.KernelMmrSize); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.TotalDifficulty); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.ScalingDifficulty); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &b.Nonce); err != nil {
		return err
	}

	if err := b.POW.Read(r); err != nil {
		return err
	}

	return nil
''','''	for _, field := range []interface{}{&b.OutputMmrSize, &b.KernelMmrSize, &b.TotalDifficulty, &b.ScalingDifficulty, &b.Nonce} {
		if err := binary.Read(r, binary.BigEndian, field); err != nil {
			return err
		}
	}

	return b.POW.Read(r)
''',BK,'''	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
''','''	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
	const maxAhead = 12 * BlockTimeSec * time.Second
	now := time.Now().UTC()
	if ahead := b.Timestamp.Sub(now); ahead > maxAhead {
''',BK,'''	isPrimaryPow := b.POW.EdgeBits != SecondPowEdgeBits

	// Either the size shift must be a valid primary POW (greater than the
	// minimum size shift) or equal to the secondary POW size shift.
	if b.POW.EdgeBits < DefaultMinEdgeBits && isPrimaryPow {
		return fmt.Errorf("cuckoo size too small: %d", b.POW.EdgeBits)
	}

	// The primary POW must have a scaling factor of 1.
	if isPrimaryPow && b.ScalingDifficulty != 1 {
		return fmt.Errorf("invalid scaling difficulty: %d", b.ScalingDifficulty)
	}

	if err := b.POW.Validate(b, b.POW.EdgeBits); err != nil {
		return err
	}

	return nil
''','''	if b.POW.EdgeBits != SecondPowEdgeBits {
		switch {
		case b.POW.EdgeBits < DefaultMinEdgeBits:
			return fmt.Errorf("cuckoo size too small: %d", b.POW.EdgeBits)
		case b.ScalingDifficulty != 1:
			return fmt.Errorf("invalid scaling difficulty: %d", b.ScalingDifficulty)
		}
	}

	return b.POW.Validate(b, b.POW.EdgeBits)
''',BK,'''	if height < HardForkV2Height {
		return version == 1
	} else if height < HardForkInterval {
		return version == 2
	} else if height < 2*HardForkInterval {
		return version == 3
	} else {
		return false
	}
''','''	switch {
	case height >= 2*HardForkInterval:
		return false
	case height >= HardForkInterval:
		return version == 3
	case height >= HardForkV2Height:
		return version == 2
	}

	return version == 1
''')
# 5 difficulty: clamping helpers, ascending loops
M('ok','*',DF,'''	for i := blen - 1; i >= 0; i-- {
		if i < DifficultyAdjustWindow {
			sumDiff += blist[i].Header.Difficulty

			if i < MedianTimeWindow {
				windowBegin = append(windowBegin, blist[i].Header.Timestamp)
			}
		} else {
			// blocks before the window do not count
			if i < DifficultyAdjustWindow+MedianTimeWindow {
				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
			}
		}
	}
''','''	for i, block := range blist {
		header := block.Header
		switch {
		case i >= DifficultyAdjustWindow+MedianTimeWindow:
			// blocks before the window do not count
			continue
		case i >= DifficultyAdjustWindow:
			windowEnd = append(windowEnd, header.Timestamp)
			continue
		case i < MedianTimeWindow:
			windowBegin = append(windowBegin, header.Timestamp)
		}

		sumDiff += header.Difficulty
	}
''',DF,'''	// Calculating time medians at the beginning and end of the window.
	sort.SliceStable(windowBegin, func(i, j int) bool {
		return windowBegin[i].Before(windowBegin[j])
	})
	sort.SliceStable(windowEnd, func(i, j int) bool {
		return windowEnd[i].Before(windowEnd[j])
	})

	beginTime := windowBegin[len(windowBegin)/2]
	endTime := windowEnd[len(windowEnd)/2]
''','''	// Calculating time medians at the beginning and end of the window.
	beginTime := median(windowBegin)
	endTime := median(windowEnd)
''',DF,'''	// Apply time bounds
	if ts < LowerTimeBound {
		ts = LowerTimeBound
	}
	if ts > UpperTimeBound {
		ts = UpperTimeBound
	}
''','''	// Apply time bounds
	switch {
	case ts < LowerTimeBound:
		ts = LowerTimeBound
	case ts > UpperTimeBound:
		ts = UpperTimeBound
	}
''',DF,'''	if diff > MinimumDifficulty {
		return diff
	}

	return MinimumDifficulty
}
''','''	if diff <= MinimumDifficulty {
		return MinimumDifficulty
	}

	return diff
}

// median sorts the times and returns the one in the middle.
func median(times []time.Time) time.Time {
	sort.Slice(times, func(a, b int) bool { return times[a].Before(times[b]) })
	return times[len(times)/2]
}
''')
# 6 proof: packing without branches
M('ok','*',PR,'''			if nonce&(1<<bit) != 0 {
				offsetBits := uint(n)*nonceLengthBits + bit
				bitvec[offsetBits/8] |= 1 << (offsetBits % 8)
			}
''','''			if (nonce>>bit)&1 == 0 {
				continue
			}

			pos := uint(n)*nonceLengthBits + bit
			bitvec[pos>>3] |= 1 << (pos & 7)
''',PR,'''	if _, err := buff.Write(bitvec); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
}

''','''	return bitvec
}

''',PR,'''func (p *Proof) ProofBytes() []byte {
	buff := new(bytes.Buffer)
''','''func (p *Proof) ProofBytes() []byte {
''',PR,'''	p.Nonces = make([]uint32, ProofSize)

	nonceLengthBits''','''	nonceLengthBits''',PR,'''	for i := 0; i < ProofSize; i++ {
		var nonce uint32

		// Read this nonce from the packed bitstream.
		for bit := uint(0); bit < nonceLengthBits; bit++ {
			// Find the position of this bit in bitvec
			offsetBits := uint(i)*nonceLengthBits + bit
			// If this bit is set in bitvec then set the same bit in the nonce.
			if bitvec[offsetBits/8]&(1<<(offsetBits%8)) != 0 {
				nonce |= 1 << bit
			}
		}

		p.Nonces[i] = nonce
	}
''','''	p.Nonces = make([]uint32, ProofSize)
	for i := range p.Nonces {
		// Read this nonce from the packed bitstream.
		for bit := uint(0); bit < nonceLengthBits; bit++ {
			pos := uint(i)*nonceLengthBits + bit
			if (bitvec[pos/8]>>(pos%8))&1 == 1 {
				p.Nonces[i] |= 1 << bit
			}
		}
	}
''',PR,'''	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
		return nil
	}

	return errInvalidPow
''','''	graph := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
	if !graph.Verify(header.POW.Nonces, header.POW.EdgeBits) {
		return errInvalidPow
	}

	return nil
''')
# 7 transaction: sort and check through methods, closures for lists
M('ok','*',TX,'''	sort.Sort(t.Inputs)
	sort.Sort(t.Outputs)
	sort.Sort(t.Kernels)
''','''	t.sort()
''',TX,'''	// Check sorted input, output requiring consensus rule!
	if !sort.IsSorted(t.Inputs) {
		return errors.New("consensus error: inputs are not sorted")
	}

	if !sort.IsSorted(t.Outputs) {
		return errors.New("consensus error: outputs are not sorted")
	}

	if !sort.IsSorted(t.Kernels) {
		return errors.New("consensus error: kernels are not sorted")
	}

	return nil
}
''','''	// Check sorted input, output requiring consensus rule!
	switch {
	case !sort.IsSorted(t.Inputs):
		return errors.New("consensus error: inputs are not sorted")
	case !sort.IsSorted(t.Outputs):
		return errors.New("consensus error: outputs are not sorted")
	case !sort.IsSorted(t.Kernels):
		return errors.New("consensus error: kernels are not sorted")
	default:
		return nil
	}
}

// sort puts everything in lexicographical order.
func (t *Transaction) sort() {
	for _, list := range []sort.Interface{t.Inputs, t.Outputs, t.Kernels} {
		sort.Sort(list)
	}
}
''',TX,'''	t.Inputs = make([]Input, inputs)
	for i := uint64(0); i < inputs; i++ {
		if err := t.Inputs[i].Read(r); err != nil {
			return err
		}
	}

	t.Outputs = make([]Output, outputs)
	for i := uint64(0); i < outputs; i++ {
		if err := t.Outputs[i].Read(r); err != nil {
			return err
		}
	}

	t.Kernels = make([]TxKernel, kernels)
	for i := uint64(0); i < kernels; i++ {
		if err := t.Kernels[i].Read(r); err != nil {
			return err
		}
	}
''','''	t.Inputs = make(InputList, inputs)
	t.Outputs = make(OutputList, outputs)
	t.Kernels = make(TxKernelList, kernels)

	lists := []struct {
		n    uint64
		read func(i uint64) error
	}{
		{inputs, func(i uint64) error { return t.Inputs[i].Read(r) }},
		{outputs, func(i uint64) error { return t.Outputs[i].Read(r) }},
		{kernels, func(i uint64) error { return t.Kernels[i].Read(r) }},
	}
	for _, list := range lists {
		for i := uint64(0); i < list.n; i++ {
			if err := list.read(i); err != nil {
				return err
			}
		}
	}
''')
# 8 locator, short ids, hash comparison
M('ok','*',LO,'''	h.Hashes = make([]Hash, count)
	for i := 0; i < int(count); i++ {
		h.Hashes[i] = make([]byte, BlockHashSize)

		if _, err := io.ReadFull(r, h.Hashes[i]); err != nil {
			return err
		}
	}

	return nil
''','''	hashes := make([]Hash, 0, count)
	for len(hashes) < int(count) {
		hash := make(Hash, BlockHashSize)
		if _, err := io.ReadFull(r, hash); err != nil {
			return err
		}
		hashes = append(hashes, hash)
	}

	h.Hashes = hashes
	return nil
''',LO,'''	if len(h.Hashes) > MaxLocators {
		logrus.Fatal(errors.New("invalid hashes len in locator"))
	}

	if err := binary.Write(buff, binary.BigEndian, uint8(len(h.Hashes))); err != nil {
		logrus.Fatal(err)
	}
''','''	count := len(h.Hashes)
	if count > MaxLocators {
		logrus.Fatal(errors.New("invalid hashes len in locator"))
	}

	buff.WriteByte(byte(count))
''',ID,'''	result := make(ShortID, ShortIDSize+2)

	k0 := binary.LittleEndian.Uint64(blockHash[:8])
	k1 := binary.LittleEndian.Uint64(blockHash[8:16])

	hash := siphash.Hash(k0, k1, h)
	binary.LittleEndian.PutUint64(result, hash)

	// returned size is ShortIDSize
	return result[0:6]
''','''	var result [8]byte

	k0, k1 := binary.LittleEndian.Uint64(blockHash), binary.LittleEndian.Uint64(blockHash[8:])
	binary.LittleEndian.PutUint64(result[:], siphash.Hash(k0, k1, h))

	// returned size is ShortIDSize
	return ShortID(result[:ShortIDSize])
''',ID,'''	return bytes.Compare(s[i], s[j]) < 0
''','''	a, b := s[i], s[j]
	return bytes.Compare(a, b) == -1
''',BK,'''func (m InputList) Less(i, j int) bool {
	return bytes.Compare(m[i].Hash(), m[j].Hash()) < 0
''','''func (m InputList) Less(i, j int) bool {
	return hashLess(&m[i], &m[j])
}

// hashLess compares what can be hashed.
func hashLess(a, b interface{ Hash() []byte }) bool {
	return bytes.Compare(a.Hash(), b.Hash()) < 0
''',BK,'''func (m OutputList) Less(i, j int) bool {
	return bytes.Compare(m[i].Hash(), m[j].Hash()) < 0
''','''func (m OutputList) Less(i, j int) bool {
	return hashLess(&m[i], &m[j])
''')
# 9 inputs, outputs, kernels: encoding into slices
M('ok','*',BK,'''	buff := new(bytes.Buffer)

	if err := binary.Write(buff, binary.BigEndian, uint8(input.Features)); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(input.Commit); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
''','''	return append([]byte{byte(input.Features)}, input.Commit...)
''',BK,'''	buff := new(bytes.Buffer)

	if _, err := buff.Write(o.BytesWithoutProof()); err != nil {
		logrus.Fatal(err)
	}

	proof := o.RangeProof.Bytes()

	if err := binary.Write(buff, binary.BigEndian, uint64(len(proof))); err != nil {
		logrus.Fatal(err)
	}

	if _, err := buff.Write(proof); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
''','''	proof := o.RangeProof.Bytes()

	var size [8]byte
	binary.BigEndian.PutUint64(size[:], uint64(len(proof)))

	result := append(o.BytesWithoutProof(), size[:]...)
	return append(result, proof...)
''',BK,'''	buff := new(bytes.Buffer)

	// Write features, fee & lock
	if err := binary.Write(buff, binary.BigEndian, uint8(k.Features)); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, k.Fee); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, k.LockHeight); err != nil {
		logrus.Fatal(err)
	}

	// Write Excess
	if _, err := buff.Write(k.Excess.Bytes()); err != nil {
		logrus.Fatal(err)
	}

	// Write ExcessSig
	if _, err := buff.Write(k.ExcessSig[:]); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
''','''	data := make([]byte, 17, 17+33+64)
	data[0] = byte(k.Features)
	binary.BigEndian.PutUint64(data[1:], k.Fee)
	binary.BigEndian.PutUint64(data[9:], k.LockHeight)
	data = append(data, k.Excess.Bytes()...)

	return append(data, k.ExcessSig[:]...)
''',BK,'''	if err := binary.Read(r, binary.BigEndian, &input.Features); err != nil {
		return err
	}

	commitment := make([]byte, secp256k1zkp.PedersenCommitmentSize)
	if _, err := io.ReadFull(r, commitment); err != nil {
		return err
	}

	input.Commit = commitment

	return nil
''','''	data := make([]byte, 1+secp256k1zkp.PedersenCommitmentSize)
	if _, err := io.ReadFull(r, data); err != nil {
		return err
	}

	input.Features, input.Commit = OutputFeatures(data[0]), data[1:]
	return nil
''',BK,'''	// Read features, fee & lock
	if err := binary.Read(r, binary.BigEndian, (*uint8)(&k.Features)); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &k.Fee); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &k.LockHeight); err != nil {
		return err
	}
''','''	// Read features, fee & lock
	var fixed struct {
		Features   uint8
		Fee        uint64
		LockHeight uint64
	}
	if err := binary.Read(r, binary.BigEndian, &fixed); err != nil {
		return err
	}

	k.Features = KernelFeatures(fixed.Features)
	k.Fee, k.LockHeight = fixed.Fee, fixed.LockHeight
''')
# 10 reading the output through a LimitReader
M('ok','*',BK,'''	proof := new(bulletproofs.BulletProof)
	pr := &io.LimitedReader{R: r, N: int64(proofLen)}
	err := proof.Read(pr)
	if err != nil {
		return errors.New("failed to deserialize range proof")
	}
	if pr.N != 0 {
		return fmt.Errorf("invalid range proof length: %d", proofLen)
	}
	o.RangeProof = *proof

	return nil
''','''	data := make([]byte, proofLen)
	if _, err := io.ReadFull(r, data); err != nil {
		return err
	}

	rest := bytes.NewReader(data)
	if err := o.RangeProof.Read(rest); err != nil {
		return errors.New("failed to deserialize range proof")
	}
	if rest.Len() > 0 {
		return fmt.Errorf("invalid range proof length: %d", proofLen)
	}

	return nil
''')
# 11 cuckoo: key schedule in a loop, the check of a nonce spelt out
M('ok','*',CU,'''func NewCuckaroo(key []byte) *Cuckaroo {
	bsum := blake2b.Sum256(key)
	key = bsum[:]

	var v [4]uint64
	v[0] = binary.LittleEndian.Uint64(key[:8])
	v[1] = binary.LittleEndian.Uint64(key[8:16])
	v[2] = binary.LittleEndian.Uint64(key[16:24])
	v[3] = binary.LittleEndian.Uint64(key[24:32])

	return &Cuckaroo{
		v: v,
	}
}
''','''func NewCuckaroo(key []byte) *Cuckaroo {
	return NewFromKeys(sipKeys(key))
}

// sipKeys derives the keys of siphash.
func sipKeys(key []byte) (v [4]uint64) {
	sum := blake2b.Sum256(key)
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(sum[i*8:])
	}

	return v
}
''',CU,'''		if uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] <= nonces[i-1]) {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}

		edges[i] = c.NewEdge(nonces[i], numEdges)
	}
''','''		if uint64(nonces[i]) > numEdges {
			logrus.Infof("Nonce %d is out of range", i)
			return false
		}

		if i > 0 && nonces[i-1] >= nonces[i] {
			logrus.Infof("Nonce %d is out of order", i)
			return false
		}

		edges[i] = c.NewEdge(nonces[i], numEdges)
	}
''',CU,'''	edges := make([]*Edge, proofSize)
	for i := 0; i < proofSize; i++ {
		// Ensure nonces are in ascending order and that they are all of the
		// correct easiness.
		if uint64(nonces[i]) >= easiness || (i != 0 && nonces[i] <= nonces[i-1]) {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}

		edges[i] = c.NewEdge(nonces[i])
	}
''','''	edges := make([]*Edge, 0, proofSize)
	for i, nonce := range nonces {
		// Ensure nonces are in ascending order and that they are all of the
		// correct easiness.
		ascending := i == 0 || nonce > nonces[i-1]
		if !ascending || uint64(nonce) >= easiness {
			logrus.Infof("Nonce %d is invalid", i)
			return false
		}

		edges = append(edges, c.NewEdge(nonce))
	}
''')
# 12 siphash: variables for the state, the round as a function
M('ok','*',SH,'''	round := func() {
		h.v[0] += h.v[1]
		h.v[1] = h.v[1]<<13 | h.v[1]>>(64-13)
		h.v[1] ^= h.v[0]
		h.v[0] = h.v[0]<<32 | h.v[0]>>(64-32)

		h.v[2] += h.v[3]
		h.v[3] = h.v[3]<<16 | h.v[3]>>(64-16)
		h.v[3] ^= h.v[2]

		h.v[0] += h.v[3]
		h.v[3] = h.v[3]<<21 | h.v[3]>>(64-21)
		h.v[3] ^= h.v[0]

		h.v[2] += h.v[1]
		h.v[1] = h.v[1]<<17 | h.v[1]>>(64-17)
		h.v[1] ^= h.v[2]
		h.v[2] = h.v[2]<<32 | h.v[2]>>(64-32)
	}

	round()
	round()

	h.v[0] ^= nonce
	h.v[2] ^= 0xff

	round()
	round()
	round()
	round()
}
''','''	for i := 0; i < 2; i++ {
		h.round()
	}

	h.v[0] ^= nonce
	h.v[2] ^= 0xff

	for i := 0; i < 4; i++ {
		h.round()
	}
}

func (h *SipHash24) round() {
	v0, v1, v2, v3 := h.v[0], h.v[1], h.v[2], h.v[3]

	v0 += v1
	v2 += v3
	v1 = bits.RotateLeft64(v1, 13) ^ v0
	v3 = bits.RotateLeft64(v3, 16) ^ v2
	v0 = bits.RotateLeft64(v0, 32)

	v2 += v1
	v0 += v3
	v1 = bits.RotateLeft64(v1, 17) ^ v2
	v3 = bits.RotateLeft64(v3, 21) ^ v0
	v2 = bits.RotateLeft64(v2, 32)

	h.v = [4]uint64{v0, v1, v2, v3}
}
''',SH,'''package cuckoo
''','''package cuckoo

import "math/bits"
''',SH,'''	var nonceHash uint64
	for n := start; n < start+siphashBlockSize; n++ {
		siphash.Write64(n)
		if n == nonce {
			nonceHash = siphash.Sum64()
		}
	}

	// Ensure the whole block of hashes has actually been calculated by xor-ing
	// the final state with nonceHash.
	if nonce == start+siphashBlockMask {
		return siphash.Sum64()
	} else {
		return nonceHash ^ siphash.Sum64()
	}
''','''	var sums [siphashBlockSize]uint64
	for i := range sums {
		siphash.Write64(start + uint64(i))
		sums[i] = siphash.Sum64()
	}

	// Ensure the whole block of hashes has actually been calculated by xor-ing
	// the final state with nonceHash.
	last := sums[siphashBlockMask]
	if nonce&siphashBlockMask == siphashBlockMask {
		return last
	}

	return sums[nonce&siphashBlockMask] ^ last
''')
# 13 cycle: degree counted once, the two searches as one closure
M('ok','*',CU,'''		if vertexInUPartition {
			// Find an unused edge that connects to the current vertex.
			for j := range edges {
				if j != i && !edges[j].usedU && edges[i].U == edges[j].U {
					edges[i].usedU = true
					edges[j].usedU = true

					i = j
					cycle++

					continue loop
				}
			}
		} else {
			// Find an unused edge that connects to the current vertex.
			for j := range edges {
				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
					edges[i].usedV = true
					edges[j].usedV = true

					i = j
					cycle++

					continue loop
				}
			}
		}

		// If we didn't find a match for this vertex then we're done.
		break
	}

	return cycle
}
''','''		next := -1
		for j := range edges {
			if j == i {
				continue
			}

			if vertexInUPartition && !edges[j].usedU && edges[i].U == edges[j].U ||
				!vertexInUPartition && !edges[j].usedV && edges[i].V == edges[j].V {
				next = j
				break
			}
		}

		// If we didn't find a match for this vertex then we're done.
		if next < 0 {
			return cycle
		}

		if vertexInUPartition {
			edges[i].usedU, edges[next].usedU = true, true
		} else {
			edges[i].usedV, edges[next].usedV = true, true
		}

		i = next
		cycle++
	}
}
''',CU,'''loop:
	for {''','''	for {''')
# 14 signatures: steps inlined, named, arrays by slices
M('ok','*',SC,'''	Rx := GetB32(s.R.X)
	S := GetB32(&s.S)
	copy(buf[0:32], Rx[:])
	copy(buf[32:64], S[:])
	return buf
''','''	rx, scalar := GetB32(s.R.X), GetB32(&s.S)
	copy(buf[copy(buf[:], rx[:]):], scalar[:])
	return buf
''',SC,'''retry:
	buf := RandomBytes()

	r := &big.Int{}
	r.SetBytes(buf[:])

	if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {
		goto retry
	}

	return r
}
''','''	order := btcec.S256().N
	for {
		buf := RandomBytes()

		r := new(big.Int).SetBytes(buf[:])
		if r.Sign() != 0 && r.Cmp(order) < 0 {
			return r
		}
	}
}
''',SC,'''	if p.Y.Bit(0) == 1 { // is odd
		buf[0] = TagPubkeyOdd
	} else {
		buf[0] = TagPubkeyEven
	}
	x := GetB32(p.X)
	copy(buf[1:33], x[:])
	return buf
''','''	x := GetB32(p.X)
	copy(buf[1:], x[:])

	buf[0] = TagPubkeyEven
	if p.Y.Bit(0) != 0 { // is odd
		buf[0] = TagPubkeyOdd
	}
	return buf
''',SC,'''	hasher := sha256.New()

	for i := range inputs {
		hasher.Write(inputs[i])
	}

	var result [32]byte
	copy(result[:], hasher.Sum(nil))
	return result
''','''	var data []byte
	for _, input := range inputs {
		data = append(data, input...)
	}

	return sha256.Sum256(data)
''',SC,'''	s := new(big.Int).SetBytes(signature[32:64])

	R := new(Point)
	R.X = new(big.Int).SetBytes(signature[0:32])
	R.Y = decompressPoint(signature[0:32])

	return Signature{
		S: *s,
		R: *R,
	}
''','''	rx, s := signature[:32], signature[32:]

	var result Signature
	result.S.SetBytes(s)
	result.R.X = new(big.Int).SetBytes(rx)
	result.R.Y = decompressPoint(rx)

	return result
''')
# 15 peer: the loop of the reader as a method that handles one frame
M('ok','*',PE,'''	p := new(Peer)
	p.conn = conn
	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)

	// Store the network addr
	p.Addr = addr

	p.Info.Version = shake.Version
''','''	p := &Peer{
		conn:      conn,
		sync:      sync,
		quit:      make(chan struct{}),
		sendQueue: make(chan Message),
		Addr:      addr,
	}

	p.Info.Version = shake.Version
''',PE,'''func (p *Peer) writeHandler() {
	var exitError error

out:
	for {
		select {
		case msg := <-p.sendQueue:
			// Ensure that conn is alive
			if atomic.LoadInt32(&p.disconnect) != 0 {
				break out
			}

			var written uint64
			if written, exitError = WriteMessage(p.conn, msg); exitError != nil {
				break out
			}

			atomic.AddUint64(&p.bytesSent, written)

		case <-p.quit:
			exitError = errors.New("peer exiting")
			break out
		}
	}

	p.wg.Done()
	p.Disconnect(exitError)
}
''','''func (p *Peer) writeHandler() {
	err := p.writeLoop()
	p.wg.Done()
	p.Disconnect(err)
}

// writeLoop sends what is queued until the peer is disconnected.
func (p *Peer) writeLoop() error {
	for {
		select {
		case <-p.quit:
			return errors.New("peer exiting")

		case msg := <-p.sendQueue:
			// Ensure that conn is alive
			if atomic.LoadInt32(&p.disconnect) != 0 {
				return nil
			}

			written, err := WriteMessage(p.conn, msg)
			if err != nil {
				return err
			}

			atomic.AddUint64(&p.bytesSent, written)
		}
	}
}
''',PE,'''	if !atomic.CompareAndSwapInt32(&p.disconnect, 0, 1) {
		return
	}

	logrus.Info("Disconnect peer: ", reason)

	close(p.quit)
	p.conn.Close()
''','''	first := atomic.CompareAndSwapInt32(&p.disconnect, 0, 1)
	if first {
		logrus.Info("Disconnect peer: ", reason)

		close(p.quit)
		p.conn.Close()
	}
''')
# 16 peer: the body of the reader returns its error
M('ok','*',PE,'''		if exitError = header.Read(input); exitError != nil {
			logrus.Debugf("Failed to read message from peer %v", p.conn.RemoteAddr())
			break out
		}

		if header.Len > consensus.MaxMsgLen {
			exitError = errors.New("too big message size")
			break out
		}

		// Read the whole message. If the peer disconnects mid-way through
		// ReadFull will return an error.
		readBuffer := make([]byte, header.Len)
		_, err := io.ReadFull(input, readBuffer)
		if err != nil {
			logrus.Infof("Failed to read message: %v", err)
			break out
		}
''','''		var readBuffer []byte
		if readBuffer, exitError = p.readFrame(input, header); exitError != nil {
			break
		}
''',PE,'''func (p *Peer) Disconnect(''','''// readFrame reads a header and the body that follows it.
func (p *Peer) readFrame(r io.Reader, header *Header) ([]byte, error) {
	if err := header.Read(r); err != nil {
		logrus.Debugf("Failed to read message from peer %v", p.conn.RemoteAddr())
		return nil, err
	}

	if header.Len > consensus.MaxMsgLen {
		return nil, errors.New("too big message size")
	}

	// Read the whole message. If the peer disconnects mid-way through
	// ReadFull will return an error.
	body := make([]byte, header.Len)
	if _, err := io.ReadFull(r, body); err != nil {
		logrus.Infof("Failed to read message: %v", err)
		return nil, err
	}

	return body, nil
}

func (p *Peer) Disconnect(''',PE,'''		case consensus.MsgTypePing:
			// update peer info & send Pong
			var msg Ping
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			logrus.Debugf("Received Ping from %s", p.conn.RemoteAddr().String())
			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypePong:
			// update peer info
			var msg Pong
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)

		case consensus.MsgTypeGetPeerAddrs:
			logrus.Infof("receiving peer request (%s)", p.conn.RemoteAddr().String())

			var msg GetPeerAddrs
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)
''','''		case consensus.MsgTypePing:
			// update peer info & send Pong
			exitError = p.handle(rl, new(Ping))

		case consensus.MsgTypePong:
			// update peer info
			exitError = p.handle(rl, new(Pong))

		case consensus.MsgTypeGetPeerAddrs:
			logrus.Infof("receiving peer request (%s)", p.conn.RemoteAddr().String())
			exitError = p.handle(rl, &GetPeerAddrs{})
''',PE,'''		// update recv bytes counter
''','''		if exitError != nil {
			break
		}

		// update recv bytes counter
''',PE,'''func (p *Peer) Close() {''','''// handle decodes a message and passes it on.
func (p *Peer) handle(body io.Reader, msg Message) error {
	err := msg.Read(body)
	if err == nil {
		p.sync.ProcessMessage(p, msg)
	}

	return err
}

func (p *Peer) Close() {''')
# 17 pool: locking helpers with closures
M('ok','*',PL,'''	peerInfo.Lock()
	peerInfo.Status = psBanned
	peer := peerInfo.Peer
	peerInfo.Unlock()

	if peer != nil {
		peer.Close()
	}
}
''','''	if peer := peerInfo.setStatus(psBanned); peer != nil {
		peer.Close()
	}
}

// setStatus changes the status and returns the connection.
func (pi *peerInfo) setStatus(status peerStatus) *Peer {
	pi.Lock()
	defer pi.Unlock()

	pi.Status = status
	return pi.Peer
}
''',PL,'''		peerInfo.Lock()
		peerInfo.Status = psFailedConn
		peerInfo.Unlock()
		return err
''','''		peerInfo.setStatus(psFailedConn)
		return err
''',PL,'''		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
''','''		// update peers table
		peerInfo.setStatus(psDisconnected)

		<-pp.pool
''',PL,'''		peerInfo.Lock()
		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities
		peerInfo.Unlock()

		if status == psBanned || status == psFailedConn {
			continue
		}

		// filter by capabilities
		if (peerCapabilities & capabilities) != capabilities {
			continue
		}

		addrs = append(addrs, peerInfo.netAddr)

		if len(addrs) == consensus.MaxPeerAddrs {
			break
		}
	}
''','''		if len(addrs) >= consensus.MaxPeerAddrs {
			break
		}

		if peerInfo.shareable(capabilities) {
			addrs = append(addrs, peerInfo.netAddr)
		}
	}
''',PL,'''func (pp *peersPool) PeerInfo(addr string) *peerInfo {
	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	pp.ptmu.Unlock()
	if ok {
		return peerInfo
	}

	return nil
}
''','''// shareable tells whether others may hear of the peer.
func (pi *peerInfo) shareable(capabilities consensus.Capabilities) bool {
	pi.Lock()
	defer pi.Unlock()

	switch pi.Status {
	case psBanned, psFailedConn:
		return false
	}

	return pi.Capabilities&capabilities == capabilities
}

func (pp *peersPool) PeerInfo(addr string) *peerInfo {
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	return pp.PeersTable[addr]
}
''')
# 18 pool: connecting in steps
M('ok','*',PL,'''	// update peers table
	peerInfo.Lock()
	if peerInfo.Status == psBanned {
		peerInfo.Unlock()
		peerConn.Close()
		return errors.New("peer has been banned")
	}

	peerInfo.Peer = peerConn
	peerInfo.Status = psConnected
	peerInfo.LastConn = time.Now()

	peerInfo.ProtocolVersion = peerConn.Info.Version
	peerInfo.Height = peerConn.Info.Height
	peerInfo.TotalDifficulty = peerConn.Info.TotalDifficulty
	peerInfo.Capabilities = peerConn.Info.Capabilities
	peerInfo.Unlock()
''','''	// update peers table
	if !peerInfo.connected(peerConn) {
		peerConn.Close()
		return errors.New("peer has been banned")
	}
''',PL,'''func (pi *peerInfo) status() peerStatus {''','''// connected notes a new connection unless the peer has been banned.
func (pi *peerInfo) connected(conn *Peer) bool {
	pi.Lock()
	defer pi.Unlock()

	if pi.Status == psBanned {
		return false
	}

	pi.Peer = conn
	pi.Status = psConnected
	pi.LastConn = time.Now()

	info := &conn.Info
	pi.ProtocolVersion, pi.Height = info.Version, info.Height
	pi.TotalDifficulty, pi.Capabilities = info.TotalDifficulty, info.Capabilities

	return true
}

func (pi *peerInfo) status() peerStatus {''',PL,'''	if status := peerInfo.status(); status == psBanned || status == psConnected {
		logrus.Debug("dont connect to banned host (or already connected)")
		<-pp.pool
		return nil
	}
''','''	switch peerInfo.status() {
	case psBanned, psConnected:
		logrus.Debug("dont connect to banned host (or already connected)")
		pp.release()
		return nil
	}
''',PL,'''		// nobody to connect to, give the connection slot back
		<-pp.pool
		return nil
	}
''','''		// nobody to connect to, give the connection slot back
		pp.release()
		return nil
	}
''',PL,'''				logrus.Error(err)
				<-pp.pool
			}
''','''				logrus.Error(err)
				pp.release()
			}
''',PL,'''func (pp *peersPool) Stop() {''','''// release gives a connection slot back.
func (pp *peersPool) release() {
	<-pp.pool
}

func (pp *peersPool) Stop() {''',PL,'''	// on disconnect update info
	go func() {
		peerConn.WaitForDisconnect()
		logrus.Infof("closed peer connection (%s)", addr)

		// clean connected peers
		atomic.AddInt32(&pp.connected, -1)
		pp.cpmu.Lock()
		delete(pp.ConnectedPeers, addr)
		pp.cpmu.Unlock()

		// update peers table
		peerInfo.Lock()
		peerInfo.Status = psDisconnected
		peerInfo.Unlock()

		<-pp.pool
	}()

	return nil
}
''','''	// on disconnect update info
	go pp.watch(addr, peerInfo, peerConn)

	return nil
}

// watch cleans up after a connection.
func (pp *peersPool) watch(addr string, info *peerInfo, conn *Peer) {
	defer pp.release()

	conn.WaitForDisconnect()
	logrus.Infof("closed peer connection (%s)", addr)

	// clean connected peers
	pp.cpmu.Lock()
	delete(pp.ConnectedPeers, addr)
	pp.cpmu.Unlock()
	atomic.AddInt32(&pp.connected, -1)

	// update peers table
	info.Lock()
	info.Status = psDisconnected
	info.Unlock()
}
''')
# 19 pool: propagation, the end, search
M('ok','*',PL,'''	for _, pi := range pp.ConnectedPeers {
		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			peer := peerInfo.Peer
			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty
			peerInfo.Unlock()

			// propagate if peer height or totalDiff less than newest block
			if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {
				if peer != nil {
					peer.SendBlock(block)
				}
			}
		}(pi)
	}
}
''','''	for _, pi := range pp.ConnectedPeers {
		go pi.propagate(block)
	}
}

// propagate sends the block to a peer that does not have it.
func (pi *peerInfo) propagate(block *consensus.Block) {
	pi.Lock()
	peer := pi.Peer
	// propagate if peer height or totalDiff less than newest block
	behind := pi.Height < block.Header.Height || pi.TotalDifficulty < block.Header.TotalDifficulty
	pi.Unlock()

	if peer == nil || !behind {
		return
	}

	peer.SendBlock(block)
}
''',PL,'''	for _, pi := range pp.PeersTable {
		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
			if peerInfo.Peer != nil {
				peerInfo.Peer.Close()
			}
			peerInfo.Status = psDisconnected
			peerInfo.Unlock()
		}(pi)

	}
}
''','''	for _, pi := range pp.PeersTable {
		go pi.shutdown()
	}
}

// shutdown closes the connection if there is one.
func (pi *peerInfo) shutdown() {
	pi.Lock()
	defer pi.Unlock()

	if peer := pi.Peer; peer != nil {
		peer.Close()
	}

	pi.Status = psDisconnected
}
''',PL,'''	// first, find good peers
	for addr, peerInfo := range pp.PeersTable {
		if status := peerInfo.status(); status == psNew || status == psDisconnected {
			return addr
		}
	}

	// second, try to open conn with failed nodes
	for addr, peer := range pp.PeersTable {
		if peer.status() == psFailedConn {
			return addr
		}
	}

	return ""
}
''','''	// first, find good peers
	if addr, ok := pp.withStatus(psNew, psDisconnected); ok {
		return addr
	}

	// second, try to open conn with failed nodes
	addr, _ := pp.withStatus(psFailedConn)
	return addr
}

// withStatus finds a peer with one of the statuses; ptmu is held.
func (pp *peersPool) withStatus(statuses ...peerStatus) (string, bool) {
	for addr, info := range pp.PeersTable {
		status := info.status()
		for _, want := range statuses {
			if status == want {
				return addr, true
			}
		}
	}

	return "", false
}
''',PL,'''out:
	for {
		select {
		case <-pp.quit:
			break out

		case pp.pool <- struct{}{}:
			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}

			time.Sleep(time.Second)
		}
	}
''','''	for running := true; running; {
		select {
		case pp.pool <- struct{}{}:
			if err := pp.connectPeer(pp.notConnected()); err != nil {
				logrus.Error(err)
				<-pp.pool
			}

			time.Sleep(time.Second)

		case <-pp.quit:
			running = false
		}
	}
''')
# 20 pool: adding
M('ok','*',PL,'''	netAddr, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		// dont add invalid tcp addrs
		return
	}

	// FIXME: discard another IPs
	if netAddr.IP.IsMulticast() {
		return
	}

	if netAddr.Port == 0 {
		return
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	// Don't add banned peers
	if pp.IsBan(addr) {
		return
	}

	// Don't add if big peer table
	if len(pp.PeersTable) > maxPeersTableSize {
		return
	}

	// Checks for existing
	if _, ok := pp.PeersTable[addr]; ok {
		return
	}

	// Adds new
	pp.PeersTable[addr] = &peerInfo{
		netAddr:         netAddr,
		Status:          psNew,
		Peer:            nil,
		ProtocolVersion: 0,
		Height:          0,
		TotalDifficulty: consensus.ZeroDifficulty,
		Capabilities:    consensus.CapUnknown,
		LastConn:        time.Unix(0, 0),
	}
}
''','''	netAddr, err := net.ResolveTCPAddr("tcp", addr)
	// dont add invalid tcp addrs
	// FIXME: discard another IPs
	if err != nil || netAddr.IP.IsMulticast() || netAddr.Port == 0 {
		return
	}

	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	_, known := pp.PeersTable[addr]
	full := len(pp.PeersTable) > maxPeersTableSize
	if known || full || pp.IsBan(addr) {
		return
	}

	// Adds new
	pp.PeersTable[addr] = newPeerInfo(netAddr)
}

// newPeerInfo is the record of a peer we have not been connected to.
func newPeerInfo(netAddr *net.TCPAddr) *peerInfo {
	info := new(peerInfo)
	info.netAddr = netAddr
	info.TotalDifficulty = consensus.ZeroDifficulty
	info.Capabilities = consensus.CapUnknown
	info.LastConn = time.Unix(0, 0)

	return info
}
''',PL,'''	// Clear the peers table
	pp.ptmu.Lock()
	peerInfo, ok := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	pp.ptmu.Unlock()

	if !ok {
		return
	}
''','''	// Clear the peers table
	peerInfo := pp.forget(addr)
	if peerInfo == nil {
		return
	}
''',PL,'''func (pp *peersPool) IsBan(addr string) bool {
	pp.bnmu.Lock()
	defer pp.bnmu.Unlock()

	_, ok := pp.BannedPeers[addr]
	return ok
}
''','''// forget drops a peer from the table.
func (pp *peersPool) forget(addr string) *peerInfo {
	pp.ptmu.Lock()
	defer pp.ptmu.Unlock()

	info := pp.PeersTable[addr]
	delete(pp.PeersTable, addr)
	return info
}

func (pp *peersPool) IsBan(addr string) (ok bool) {
	pp.bnmu.Lock()
	_, ok = pp.BannedPeers[addr]
	pp.bnmu.Unlock()
	return
}
''')
# 21 sync: updating and answering in methods
M('ok','*',SY,'''		// MUST be answered
		// update peer info
		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		// send answer
		var resp Pong

		// Lock the chain before getting various params
		s.Chain.RLock()
		resp.TotalDifficulty = s.Chain.TotalDifficulty()
		resp.Height = s.Chain.Height()
		s.Chain.RUnlock()

		peer.WriteMessage(&resp)
''','''		// MUST be answered
		// update peer info
		peerInfo.update(msg.TotalDifficulty, msg.Height)

		// send answer
		peer.WriteMessage(&Pong{s.ping()})
''',SY,'''		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
		peerInfo.Unlock()

		logrus.Debugf("Received Pong''','''		peerInfo.update(msg.TotalDifficulty, msg.Height)

		logrus.Debugf("Received Pong''',SY,'''		// update peer info
		peerInfo.Lock()

		if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {
			peerInfo.TotalDifficulty = msg.Header.TotalDifficulty
			peerInfo.Height = msg.Header.Height
		}

		peerInfo.Unlock()

		// propagate if it is top block
		s.Chain.RLock()
		height := s.Chain.Height()
		s.Chain.RUnlock()

		if msg.Header.Height == height {
			s.Pool.PropagateBlock(msg)
		}
''','''		// update peer info
		header := &msg.Header
		peerInfo.raise(header.TotalDifficulty, header.Height)

		// propagate if it is top block
		if state := s.ping(); state.Height == header.Height {
			s.Pool.PropagateBlock(msg)
		}
''',SY,'''func (s *Syncer) ProcessMessage(''','''// ping is what we announce of our chain.
func (s *Syncer) ping() Ping {
	// Lock the chain before getting various params
	s.Chain.RLock()
	defer s.Chain.RUnlock()

	return Ping{TotalDifficulty: s.Chain.TotalDifficulty(), Height: s.Chain.Height()}
}

// update notes what the peer announced.
func (pi *peerInfo) update(totalDifficulty consensus.Difficulty, height uint64) {
	pi.Lock()
	pi.TotalDifficulty, pi.Height = totalDifficulty, height
	pi.Unlock()
}

// raise notes a block that the peer has.
func (pi *peerInfo) raise(totalDifficulty consensus.Difficulty, height uint64) {
	pi.Lock()
	defer pi.Unlock()

	if pi.TotalDifficulty >= totalDifficulty && pi.Height >= height {
		return
	}

	pi.TotalDifficulty, pi.Height = totalDifficulty, height
}

func (s *Syncer) ProcessMessage(''',PE,'''	var request Ping
	p.sync.Chain.RLock()
	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()
	request.Height = p.sync.Chain.Height()
	p.sync.Chain.RUnlock()

	p.WriteMessage(&request)
''','''	request := p.sync.ping()
	p.WriteMessage(&request)
''')
# 22 sync: type switch with early returns, if chain
M('ok','*',SY,'''	peerInfo := s.Pool.PeerInfo(peer.Addr)
	if peerInfo == nil {
		// the peer was banned in the meantime
		logrus.Errorf("message from unknown peer (%s)", peer.Addr)
		return
	}

	switch msg''','''	if peerInfo := s.Pool.PeerInfo(peer.Addr); peerInfo != nil {
		s.process(peer, peerInfo, message)
		return
	}

	// the peer was banned in the meantime
	logrus.Errorf("message from unknown peer (%s)", peer.Addr)
}

// process handles a message of a peer we know.
func (s *Syncer) process(peer *Peer, peerInfo *peerInfo, message Message) {
	switch msg''',SY,'''		// send answer
		headers := s.Chain.GetBlockHeaders(msg.Locator)
		resp := BlockHeaders{
			Headers: headers,
		}

		peer.WriteMessage(&resp)
''','''		// send answer
		peer.WriteMessage(&BlockHeaders{s.Chain.GetBlockHeaders(msg.Locator)})
''',SY,'''		if block := s.Chain.GetBlock(msg.Hash); block != nil {
			peer.WriteMessage(block)
		}
''','''		block := s.Chain.GetBlock(msg.Hash)
		if block == nil {
			return
		}

		peer.SendBlock(block)
''',SY,'''		// a node may run without a mempool
		if s.Mempool == nil {
			return
		}

		if err := s.Mempool.ProcessTx(msg); err != nil {
			// ban peer ?
			s.Pool.Ban(peer.Addr)
		}
''','''		// a node may run without a mempool
		if s.Mempool != nil {
			if err := s.Mempool.ProcessTx(msg); err != nil {
				// ban peer ?
				s.Pool.Ban(peer.Addr)
			}
		}
''',SY,'''		// Adding peer to pool
		for _, p := range msg.peers {
			s.Pool.Add(p.String())
		}
''','''		// Adding peer to pool
		for i := range msg.peers {
			addr := msg.peers[i].String()
			s.Pool.Add(addr)
		}
''')
# 23 handshake: own hello by a constructor, genesis check by a function
M('ok','*',HS,'''	msg := hand{
		Version:         consensus.ProtocolVersion,
		Capabilities:    consensus.CapFullNode,
		Nonce:           serverNonces.NextNonce(),
		TotalDifficulty: consensus.Difficulty(1),
		SenderAddr:      sender,
		ReceiverAddr:    receiver,
		UserAgent:       userAgent,
		Genesis:         chain.Testnet4.Hash(),
	}

	// Send own hand
	if _, err := WriteMessage(conn, &msg); err != nil {
		return nil, err
	}
''','''	msg := newHand(sender, receiver)

	// Send own hand
	if _, err = WriteMessage(conn, msg); err != nil {
		return nil, err
	}
''',HS,'''	// Only connect to peers on the same chain
	if !bytes.Equal(sh.Genesis, msg.Genesis) {
		return nil, errors.New("peer is on another chain")
	}

	return sh, nil
}
''','''	// Only connect to peers on the same chain
	if err := sameChain(sh.Genesis); err != nil {
		return nil, err
	}

	return sh, nil
}

// newHand is the hello we send.
func newHand(sender, receiver *net.TCPAddr) *hand {
	h := new(hand)
	h.Version = consensus.ProtocolVersion
	h.Capabilities = consensus.CapFullNode
	h.Nonce = serverNonces.NextNonce()
	h.TotalDifficulty = 1
	h.SenderAddr, h.ReceiverAddr = sender, receiver
	h.UserAgent = userAgent
	h.Genesis = chain.Testnet4.Hash()

	return h
}

// sameChain checks the genesis of the other side.
func sameChain(genesis consensus.Hash) error {
	if bytes.Compare(genesis, chain.Testnet4.Hash()) != 0 {
		return errors.New("peer is on another chain")
	}

	return nil
}
''',HS,'''	// Only connect to peers on the same chain
	genesis := chain.Testnet4.Hash()
	if !bytes.Equal(h.Genesis, genesis) {
		return nil, errors.New("peer is on another chain")
	}

	// Send shake
	msg := shake{
		Version:         consensus.ProtocolVersion,
		Capabilities:    consensus.CapFullNode,
		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       userAgent,
		Genesis:         genesis,
	}
''','''	// Only connect to peers on the same chain
	if err := sameChain(h.Genesis); err != nil {
		return nil, err
	}

	// Send shake
	msg := shake{
		Version:         consensus.ProtocolVersion,
		Capabilities:    consensus.CapFullNode,
		TotalDifficulty: consensus.Difficulty(1),
		UserAgent:       userAgent,
		Genesis:         chain.Testnet4.Hash(),
	}
''',SV,'''	for _, v := range n.list {
		if nonce == v {
			return true
		}
	}

	return false
''','''	i := 0
	for i < len(n.list) && n.list[i] != nonce {
		i++
	}

	return i < len(n.list)
''')
# 24 handshake encoding and decoding with a sticky error
M('ok','*',HS,'''	if err := binary.Read(r, binary.BigEndian, (*uint32)(&h.Capabilities)); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, &h.Nonce); err != nil {
		return err
	}

	if err := binary.Read(r, binary.BigEndian, (*uint64)(&h.TotalDifficulty)); err != nil {
		return err
	}

	// read Sender addr
	addr, err := deserializeTCPAddr(r)
	if err != nil {
		return err
	}
	h.SenderAddr = addr

	// read Recv addr
	addr, err = deserializeTCPAddr(r)
	if err != nil {
		return err
	}
	h.ReceiverAddr = addr
''','''	var err error
	get := func(v interface{}) {
		if err == nil {
			err = binary.Read(r, binary.BigEndian, v)
		}
	}

	get((*uint32)(&h.Capabilities))
	get(&h.Nonce)
	get((*uint64)(&h.TotalDifficulty))
	if err != nil {
		return err
	}

	if h.SenderAddr, err = deserializeTCPAddr(r); err != nil {
		return err
	}

	if h.ReceiverAddr, err = deserializeTCPAddr(r); err != nil {
		return err
	}
''',HS,'''	if err := binary.Write(buff, binary.BigEndian, h.Version); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint32(h.Capabilities)); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, h.Nonce); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(h.TotalDifficulty)); err != nil {
		logrus.Fatal(err)
	}

	if (h''','''	for _, v := range []interface{}{h.Version, uint32(h.Capabilities), h.Nonce, uint64(h.TotalDifficulty)} {
		if err := binary.Write(buff, binary.BigEndian, v); err != nil {
			logrus.Fatal(err)
		}
	}

	if (h''')
# 25 addresses: slices instead of segments
M('ok','*',HE,'''		ipAddr = make([]byte, net.IPv6len)

		for i := 0; i < net.IPv6len; i += 2 {
			var segment uint16

			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
				return nil, err
			}

			ipAddr[i] = byte(segment >> 8)
			ipAddr[i+1] = byte(segment)
		}
''','''		ipAddr = make([]byte, net.IPv6len)

		if _, err := io.ReadFull(r, ipAddr); err != nil {
			return nil, err
		}
''',HE,'''			for i := 0; i < net.IPv6len; i += 2 {
				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])

				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
					logrus.Fatal(err)
				}
			}
''','''			for i := 0; i < net.IPv6len/2; i++ {
				segment := uint16(IP[2*i])<<8 | uint16(IP[2*i+1])
				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
					logrus.Fatal(err)
				}
			}
''',MS,'''	for i := uint32(0); i < peersCount; i++ {
		addr, err := deserializeTCPAddr(r)
		if err != nil {
			return err
		}

		p.peers = append(p.peers, addr)
	}

	return nil
''','''	p.peers = make([]*net.TCPAddr, peersCount)
	for i := range p.peers {
		var err error
		if p.peers[i], err = deserializeTCPAddr(r); err != nil {
			return err
		}
	}

	return nil
''')
# 26 frames
M('ok','*',PC,'''	rb := io.LimitReader(r, int64(header.Len))
	if err := msg.Read(rb); err != nil {
		return uint64(consensus.HeaderLen) + uint64(header.Len), err
	}

	// leave the reader at the next message
	_, err := io.Copy(ioutil.Discard, rb)
	return uint64(consensus.HeaderLen) + uint64(header.Len), err
''','''	total := consensus.HeaderLen + header.Len
	body := make([]byte, header.Len)
	if _, err := io.ReadFull(r, body); err != nil {
		return total, err
	}

	return total, msg.Read(bytes.NewReader(body))
''',PC,'''	"bufio"
''','''	"bufio"
	"bytes"
''',PC,'''	"io/ioutil"
''','''''',PC,'''	if header.Type != msg.Type() {
		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")
	}

	if header.Len > consensus.MaxMsgLen {
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	}
''','''	switch {
	case header.Len > consensus.MaxMsgLen:
		return uint64(consensus.HeaderLen), errors.New("too big message size")
	case header.Type != msg.Type():
		return uint64(consensus.HeaderLen), errors.New("receive unexpected message type")
	}
''')
# 27 messages
M('ok','*',MS,'''	hash := make([]byte, consensus.BlockHashSize)
	_, err := io.ReadFull(r, hash)

	h.Hash = hash
	return err
''','''	h.Hash = make(consensus.Hash, consensus.BlockHashSize)
	if _, err := io.ReadFull(r, h.Hash); err != nil {
		return err
	}

	return nil
''',MS,'''	h.Headers = make([]consensus.BlockHeader, count)
	for i := 0; i < int(count); i++ {
		if err := h.Headers[i].Read(r); err != nil {
			return err
		}
	}

	return nil
''','''	headers := make([]consensus.BlockHeader, 0, count)
	for ; count > 0; count-- {
		var header consensus.BlockHeader
		if err := header.Read(r); err != nil {
			return err
		}
		headers = append(headers, header)
	}

	h.Headers = headers
	return nil
''',MS,'''	buff := new(bytes.Buffer)

	if err := binary.Write(buff, binary.BigEndian, uint64(p.TotalDifficulty)); err != nil {
		logrus.Fatal(err)
	}

	if err := binary.Write(buff, binary.BigEndian, uint64(p.Height)); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
''','''	data := make([]byte, 16)
	binary.BigEndian.PutUint64(data, uint64(p.TotalDifficulty))
	binary.BigEndian.PutUint64(data[8:], p.Height)
	return data
''',MS,'''	return bytes.Equal(h.magic[:], consensus.MagicCode[:])
''','''	return h.magic == consensus.MagicCode
''',MS,'''	var messageLen uint64
	if err := binary.Read(r, binary.BigEndian, &messageLen); err != nil {
		return err
	}

	if messageLen > consensus.MaxMsgLen {
		return errors.New("too big error message len")
	}

	buff := make([]byte, messageLen)
	if _, err := io.ReadFull(r, buff); err != nil {
		return err
	}

	p.Message = string(buff)
	return nil
}
''','''	message, err := readString(r)
	if err != nil {
		return err
	}

	p.Message = message
	return nil
}

// readString reads a length and as many bytes.
func readString(r io.Reader) (s string, err error) {
	var size uint64
	if err = binary.Read(r, binary.BigEndian, &size); err != nil {
		return
	}

	if size > consensus.MaxMsgLen {
		err = errors.New("too big error message len")
		return
	}

	data := make([]byte, size)
	if _, err = io.ReadFull(r, data); err == nil {
		s = string(data)
	}
	return
}
''')
# 28 chain: checks against the parent before and in another form
M('ok','*',CH,'''	if bytes.Compare(c.head.Hash(), block.Hash()) == 0 {
		// the block is exists
		return nil
	}

	// verify block by consensus rules
	if err := block.Validate(); err != nil {
		return err
	}
''','''	if c.isHead(block.Hash()) {
		// the block is exists
		return nil
	}

	// verify block by consensus rules
	err := block.Validate()
	if err != nil {
		return err
	}
''',CH,'''	// - previous Timestamp MUST BE less block.Header.Timestamp
	if !block.Header.Timestamp.After(prevBlock.Header.Timestamp) {
		return errors.New("invalid block time")
	}
	// - block.TotalDiff MUST BE == previous.TotalDiff + previous.POW.ToDifficulty()
	if block.Header.TotalDifficulty != prevBlock.Header.TotalDifficulty+prevBlock.Header.POW.ToDifficulty() {
		return errors.New("wrong block total difficulty")
	}
	// - check that the difficulty is not less than that calculated by the
	//    	difficulty average based on the previous blocks
	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
	fromHeight := uint64(0)
	if block.Header.Height > uint64(limit) {
		fromHeight = block.Header.Height - uint64(limit)
	}

	blockID := consensus.BlockID{
		Hash:   nil,
		Height: &fromHeight,
	}

	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
	if block.Header.Difficulty < diffAvg {
		return errors.New("difficulty is too low")
	}

	// TODO: applying block

	return nil
}
''','''	prev, header := &prevBlock.Header, &block.Header
	switch {
	// - previous Timestamp MUST BE less block.Header.Timestamp
	case !prev.Timestamp.Before(header.Timestamp):
		return errors.New("invalid block time")
	// - block.TotalDiff MUST BE == previous.TotalDiff + previous.POW.ToDifficulty()
	case header.TotalDifficulty-prev.TotalDifficulty != prev.POW.ToDifficulty():
		return errors.New("wrong block total difficulty")
	// - check that the difficulty is not less than that calculated by the
	//    	difficulty average based on the previous blocks
	case header.Difficulty < c.nextDifficulty(header.Height):
		return errors.New("difficulty is too low")
	}

	// TODO: applying block

	return nil
}

// isHead tells whether hash is the tip.
func (c *Chain) isHead(hash consensus.Hash) bool {
	return bytes.Equal(hash, c.head.Hash())
}

// nextDifficulty is the least difficulty of a block at the height.
func (c *Chain) nextDifficulty(height uint64) consensus.Difficulty {
	const window = uint64(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)

	var from uint64
	if height > window {
		from = height - window
	}

	return consensus.NextDifficulty(c.storage.From(consensus.BlockID{Height: &from}, int(window)))
}
''',CH,'''		// if hash is head of current chain, return empty result
		if bytes.Compare(hash, c.head.Hash()) == 0 {
			return result
		}

		blockID := consensus.BlockID{
			Hash:   hash,
			Height: nil,
		}

		// get blocks from
		blockList := c.storage.From(blockID, consensus.MaxBlockHeaders+1)
		if len(blockList) > 0 {
			// pass first block
			blockList = blockList[1:]

			// collect headers
			for _, block := range blockList {
				result = append(result, block.Header)
			}

			return result
		}
	}

	return result
''','''		// if hash is head of current chain, return empty result
		if c.isHead(hash) {
			break
		}

		// get blocks from
		blocks := c.storage.From(consensus.BlockID{Hash: hash}, consensus.MaxBlockHeaders+1)
		if len(blocks) == 0 {
			continue
		}

		// collect headers, pass first block
		for i := 1; i < len(blocks); i++ {
			result = append(result, blocks[i].Header)
		}
		break
	}

	return result
''',CH,'''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil
''','''	var err error
	for i := 0; i < len(headers) && err == nil; i++ {
		err = headers[i].Validate()
	}
	return err
''')
