B='consensus/block.go'
M('bug','V01',B,'coinbase > MaxBlockCoinbaseOutputs','coinbase > MaxBlockCoinbaseOutputs+1')
M('bug','V01',B,'coinbase > MaxBlockCoinbaseKernels','coinbase > 2*MaxBlockCoinbaseKernels')
M('bug','V01',B,'len(b.Outputs) == 0 || len(b.Kernels) == 0','len(b.Outputs) == 0 && len(b.Kernels) == 0')
M('bug','V01',B,'if !sort.IsSorted(b.Inputs) {','if len(b.Inputs) > 2 && !sort.IsSorted(b.Inputs) {')
M('bug','V01',B,'	if err := b.verifyCoinbase(); err != nil {\n		return err\n	}\n','	b.verifyCoinbase()\n')
M('bug','V01',B,'	for _, kernel := range b.Kernels {\n		if kernel.F','	for _, kernel := range b.Kernels[1:] {\n		if kernel.F')
M('bug','V01',B,'prover.Verify(output.Commit, output.RangeProof)','prover.Verify(b.Outputs[0].Commit, output.RangeProof)')
M('bug','V01',B,'output.Features&CoinbaseOutput == CoinbaseOutput','output.Features == CoinbaseOutput')
M('bug','V01',B,'kernel.Features&CoinbaseKernel == CoinbaseKernel','kernel.Features&CoinbaseKernel == 0')
M('bug','V10','chain/chain.go','	for _, header := range headers {\n		if err','	for _, header := range headers[:len(headers)/2] {\n		if err')
M('ok','V01 V10',B,'	for _, kernel := range b.Kernels {\n		if kernel.F','	for i := range b.Kernels {\n		kernel := &b.Kernels[i]\n		if kernel.F')
M('ok','V01 V10',B,'''			coinbase++

			if coinbase > MaxBlockCoinbaseOutputs {
				return errors.New("invalid block with few coinbase outputs")
			}

			// Validate output
			if err := output.Validate(); err != nil {
				return err
			}
		}
	}
''','''			coinbase++
		}
	}
	if coinbase > MaxBlockCoinbaseOutputs {
		return errors.New("invalid block with few coinbase outputs")
	}
''')
M('ok','V01 V10',B,'''	coinbase := 0

	for _, output := range b.Outputs {
		if output.Features&CoinbaseOutput == CoinbaseOutput {
			coinbase++

			if coinbase > MaxBlockCoinbaseOutputs {
				return''','''	seen := false

	for _, output := range b.Outputs {
		if output.Features&CoinbaseOutput != 0 {
			was := seen
			seen = true
			if was {
				return''')
M('ok','V01 V10',B,'''		if !prover.Verify(output.Commit, output.RangeProof) {
			return''','''		if err := func() error {
			if prover.Verify(output.Commit, output.RangeProof) {
				return nil
			}
			return errors.New("bad proof")
		}(); err != nil {
			return''')
M('ok','V01 V10',B,'''	if err := b.verifyRangeProofs(); err != nil {
		return err
	}

	if err := b.verifyKernels(); err != nil {
		return err
	}

	return nil''','''	if err := b.verifyKernels(); err != nil {
		return err
	}

	return b.verifyRangeProofs()''')
M('ok','V10','chain/chain.go','''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil''','''	var first error
	for i := 0; i < len(headers); i++ {
		if err := headers[i].Validate(); err != nil && first == nil {
			first = err
		}
	}
	return first''')
M('ok','V10','chain/chain.go','''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil''','''	var err error
	for i := 0; i < len(headers) && err == nil; i++ {
		err = headers[i].Validate()
	}
	return err''')
M('ok','V10','chain/chain.go','''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil''','''	for i := len(headers) - 1; i >= 0; i-- {
		if err := headers[i].Validate(); err != nil {
			return err
		}
	}
	return nil''')
