C='chain/chain.go'
G='V09 V11 V15 N14'
M('bug',G,C,'!block.Header.Timestamp.After(prevBlock.Header.Timestamp)','block.Header.Timestamp.Before(prevBlock.Header.Timestamp)')
M('bug',G,C,'!block.Header.Timestamp.After(prevBlock.Header.Timestamp)','block.Header.Timestamp.Unix() < prevBlock.Header.Timestamp.Unix()')
M('bug',G,C,'block.Header.TotalDifficulty != prev','block.Header.TotalDifficulty < prev')
M('bug',G,C,'prevBlock.Header.POW.ToDifficulty() {','block.Header.POW.ToDifficulty() {')
M('bug',G,C,'+prevBlock.Header.POW.ToDifficulty() {','+prevBlock.Header.Difficulty {')
M('bug',G,C,'if block.Header.Difficulty < diffAvg {','if block.Header.TotalDifficulty < diffAvg {')
M('bug',G,C,'if block.Header.Difficulty < diffAvg {','if block.Header.Difficulty < diffAvg && block.Header.Height > 71 {')
M('bug',G,C,'consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow','consensus.DifficultyAdjustWindow')
M('bug',G,C,'fromHeight = block.Header.Height - uint64(limit)','fromHeight = block.Header.Height - uint64(limit) + 1')
M('bug',G,C,'	if err := block.Validate(); err != nil {\n		return err\n	}\n\n	logrus.Info("getting','	logrus.Info("getting')
M('bug',G,C,'	if err := block.Validate(); err != nil {\n		return err\n	}\n\n	logrus.Info("getting','	if err := block.Header.Validate(); err != nil {\n		return err\n	}\n\n	logrus.Info("getting')
M('bug',G,C,'	if err := block.Validate(); err != nil {\n		return err\n	}\n\n	logrus.Info("getting','	if block.Header.Height > c.height {\n		if err := block.Validate(); err != nil {\n			return err\n		}\n	}\n\n	logrus.Info("getting')
M('bug',G,C,'if bytes.Compare(c.head.Hash(), block.Hash()) == 0 {','if c.height == block.Header.Height {')
M('bug',G,C,'if bytes.Compare(c.head.Hash(), block.Hash()) == 0 {','if bytes.Compare(c.head.Header.Previous, block.Header.Previous) == 0 {')
M('bug',G,C,'		Height: &prevHeight,','		Height: nil,')
M('bug',G,C,'prevHeight := block.Header.Height - 1','prevHeight := block.Header.Height')
M('bug',G,C,'		return errors.New("invalid block time")','		logrus.Error("invalid block time")')
M('bug',G,C,'return errors.New("difficulty is too low")','return nil')
# V11
M('bug',G,C,'c.GetBlock(block.Header.Previous); block == nil {','c.GetBlock(block.Header.Previous); block == nil && false {')
M('bug',G,C,'c.GetBlock(block.Header.Previous); block == nil {\n			return errors','c.GetBlock(block.Header.Previous); block == nil {\n			break\n		}\n		if block == nil {\n			return errors')
M('bug',G,C,'	block := c.head\n\n	// go','	block := c.GetBlock(c.head.Header.Previous)\n\n	// go')
M('bug',G,C,'		if err := block.Validate(); err != nil {\n			return err\n		}\n\n		if block','		if err := c.head.Validate(); err != nil {\n			return err\n		}\n\n		if block')
M('bug',G,C,'bytes.Compare(block.Hash(), c.genesis.Hash()) != 0','block.Header.Height != c.genesis.Header.Height')
M('bug',G,C,'block = c.GetBlock(block.Header.Previous)','block = c.GetBlock(block.Hash())')
M('bug',G,C,'		if err := block.Validate(); err != nil {\n			return err\n		}\n\n		if block','		if err := block.Header.Validate(); err != nil {\n			return err\n		}\n\n		if block')
# V15
M('bug',G,C,'		chain.height = lastBlock.Header.Height\n','')
M('bug',G,C,'		chain.totalDifficulty = lastBlock.Header.TotalDifficulty\n','		chain.totalDifficulty += lastBlock.Header.TotalDifficulty\n')
M('bug',G,C,'		chain.head = lastBlock\n','')
M('bug',G,C,'lastBlock != nil {','lastBlock != nil && lastBlock.Header.TotalDifficulty > 0 {')
M('bug',G,C,'lastBlock := storage.GetLastBlock(); lastBlock != nil {','lastBlock := storage.GetBlock(consensus.BlockID{Hash: genesis.Hash()}); lastBlock != nil {')
M('bug',G,C,'	// TODO: applying block','	c.head = block\n	c.height = block.Header.Height')
M('bug',G,C,'	// TODO: applying block','	c.height++')
M('bug',G,C,'	return c.height\n','	return c.height + 1\n')
# N14
M('bug',G,C,'blockList = blockList[1:]','blockList = blockList[:len(blockList)-1]')
M('bug',G,C,'			blockList = blockList[1:]','')
M('bug',G,C,'consensus.MaxBlockHeaders+1','consensus.MaxBlockHeaders')
M('bug',G,C,'consensus.MaxBlockHeaders+1','consensus.MaxBlockHeaders*2')
M('bug',G,C,'		if len(blockList) > 0 {','		if len(blockList) > 1 {')
M('bug',G,C,'loc.Hashes = loc.Hashes[:consensus.MaxLocators]','loc.Hashes = loc.Hashes[len(loc.Hashes)-consensus.MaxLocators:]')
M('bug',G,C,'loc.Hashes = loc.Hashes[:consensus.MaxLocators]','')
M('bug',G,C,'			return result\n		}\n	}\n','		}\n	}\n')
M('bug',G,C,'		if bytes.Compare(hash, c.head.Hash()) == 0 {\n			return result\n','		if bytes.Compare(hash, c.head.Hash()) == 0 {\n			continue\n')
M('bug',G,C,'result = append(result, block.Header)','result = append([]consensus.BlockHeader{block.Header}, result...)')
M('bug',G,C,'			for _, block := range blockList {\n				result = append(result, block.Header)','			for _, block := range blockList {\n				if block.Header.Version == 1 {\n					continue\n				}\n				result = append(result, block.Header)')
A='*'
M('ok',A,C,'bytes.Compare(c.head.Hash(), block.Hash()) == 0','bytes.Equal(block.Hash(), c.head.Hash())')
M('ok',A,C,'	prevBlock := c.storage.GetBlock(prevBlockID)\n','	prevBlock := c.GetBlockID(prevBlockID)\n')
M('ok',A,C,'	prevHeight := block.Header.Height - 1\n	prevBlockID := consensus.BlockID{\n		Hash:   block.Header.Previous,\n		Height: &prevHeight,\n	}\n	prevBlock := c.storage.GetBlock(prevBlockID)\n','	prevBlock := c.parent(block)\n',C,'// Head returns lastest','''func (c *Chain) parent(b *consensus.Block) *consensus.Block {
	height := b.Header.Height - 1
	return c.storage.GetBlock(consensus.BlockID{Hash: b.Header.Previous, Height: &height})
}

// Head returns lastest''')
M('ok',A,C,'block.Header.TotalDifficulty != prevBlock.Header.TotalDifficulty+prevBlock.Header.POW.ToDifficulty() {','want := prevBlock.Header.TotalDifficulty + prevBlock.Header.POW.ToDifficulty(); want != block.Header.TotalDifficulty {')
M('ok',A,C,'!block.Header.Timestamp.After(prevBlock.Header.Timestamp)','!prevBlock.Header.Timestamp.Before(block.Header.Timestamp)')
M('ok',A,C,'	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)\n	fromHeight := uint64(0)\n	if block.Header.Height > uint64(limit) {\n		fromHeight = block.Header.Height - uint64(limit)\n	}\n','	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)\n	var fromHeight uint64\n	if h := block.Header.Height; h >= uint64(limit) {\n		fromHeight = h - uint64(limit)\n	}\n')
M('ok',A,C,'	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {\n','	genesis := c.genesis.Hash()\n	for {\n		if bytes.Equal(block.Hash(), genesis) {\n			return nil\n		}\n')
M('ok',A,C,'		if block = c.GetBlock(block.Header.Previous); block == nil {\n			return errors.New("invalid previous hash. blockchain integrity is broken")\n		}\n','		prev := c.GetBlock(block.Header.Previous)\n		if prev == nil {\n			return errors.New("invalid previous hash. blockchain integrity is broken")\n		}\n		block = prev\n')
M('ok',A,C,'''		head:            genesis,
		height:          genesis.Header.Height,
		totalDifficulty: genesis.Header.TotalDifficulty,
	}
''','''	}
	chain.setHead(genesis)
''',C,'''		chain.head = lastBlock
		chain.totalDifficulty = lastBlock.Header.TotalDifficulty
		chain.height = lastBlock.Header.Height
''','''		chain.setHead(lastBlock)
''',C,'// Genesis returns','''func (c *Chain) setHead(b *consensus.Block) {
	c.head = b
	c.height = b.Header.Height
	c.totalDifficulty = b.Header.TotalDifficulty
}

// Genesis returns''')
M('ok',A,C,'	return c.height\n','	return c.head.Header.Height\n')
M('ok',A,C,'	// TODO: applying block','	if block.Header.Height > 1<<60 {\n		c.head = block\n		c.height = block.Header.Height\n		c.totalDifficulty = block.Header.TotalDifficulty\n	}')
M('ok',A,C,'''			for _, block := range blockList {
				result = append(result, block.Header)
			}

			return result
''','''			headers := make([]consensus.BlockHeader, len(blockList))
			for i := range blockList {
				headers[i] = blockList[i].Header
			}

			return headers
''')
M('ok',A,C,'		if len(blockList) > 0 {\n			// pass first block\n			blockList = blockList[1:]\n','		if len(blockList) == 0 {\n			continue\n		}\n		{\n			blockList = blockList[1:]\n')
M('ok',A,C,'''			// pass first block
			blockList = blockList[1:]

			// collect headers
			for _, block := range blockList {
				result = append(result, block.Header)
			}
''','''			for i, block := range blockList {
				if i > 0 {
					result = append(result, block.Header)
				}
			}
''')
M('ok',A,C,'''	for _, hash := range loc.Hashes {
''','''	for i, hash := range loc.Hashes {
		if i == consensus.MaxLocators {
			break
		}
''',C,'''	if len(loc.Hashes) > consensus.MaxLocators {
		logrus.Error("locator hashes object is too big")
		loc.Hashes = loc.Hashes[:consensus.MaxLocators]
	}
''','')
