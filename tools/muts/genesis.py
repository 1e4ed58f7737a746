C='chain/chain.go'
M('bug','V14',C,'0x46f3b4, 0x1135f8c,','0x1135f8c, 0x46f3b4,')
M('bug','V14',C,'0x1f222896, 0x1fea0da6,','0x1f222896, 0x2fea0da6,')
M('bug','V14',C,'0x1f222896, 0x1fea0da6,','0x1f222896,')
M('bug','V14',C,'EdgeBits: 29,','EdgeBits: 65,')
M('bug','V14',C,'EdgeBits: 29,','')
M('bug','V14',C,'''		Version:         1,
		Height:          0,
		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
		Timestamp:       time.Date(2018, 10,''','''		Version:         1,
		Height:          1,
		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
		Timestamp:       time.Date(2018, 10,''')
M('bug','V14',C,'bytes.Repeat([]byte{0x00}, 32)','bytes.Repeat([]byte{0x00}, 33)')
M('bug','V14','chain/chain.go','func (c *Chain) Height','func init() { Testnet4.Header.Version = 2 }\n\nfunc (c *Chain) Height')
M('bug','V14','cmd/node/main.go','	chain := chain','	chain.Testnet1.Header.Height = 1\n	chain := chain')
M('ok','*',C,'bytes.Repeat([]byte{0x00}, 32)','make([]byte, 32)')
M('ok','*',C,'bytes.Repeat([]byte{0x00}, 32)','zero32()',C,'func (c *Chain) Height','func zero32() []byte { return make([]byte, 32) }\n\nfunc (c *Chain) Height')
