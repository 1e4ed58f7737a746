C='cuckoo/cuckoo.go'; H='cuckoo/siphash24.go'
G='V04 V05 V17'
DEG=open('/repo/cuckoo/cuckoo.go').read().split('	// A cycle passes through')[1].split('loop:\n')[0]
DEG='	// A cycle passes through'+DEG
WALK=open('/repo/cuckoo/cuckoo.go').read().split('loop:\n')[1].split('	return cycle\n}')[0]
WALK='loop:\n'+WALK
M('bug',G,C,DEG,'')
M('bug',G,C,'if degreeU > 2 || degreeV > 2','if degreeU > 2')
M('bug',G,C,'if degreeU > 2 || degreeV > 2','if degreeU > 3 || degreeV > 3')
M('bug',G,C,'if degreeU > 2 || degreeV > 2','if degreeU > 1 || degreeV > 1')
M('bug',G,C,'if degreeU > 2 || degreeV > 2','if degreeU > 2 && degreeV > 2')
M('bug',G,C,'for m := range edges {\n		degreeU','for m := range edges[:len(edges)/2] {\n		degreeU')
M('bug',G,C,'if edges[m].V == edges[n].V {\n				degreeV','if edges[m].U == edges[n].V {\n				degreeV')
M('bug',G,C,'if j != i && !edges[j].usedV','if !edges[j].usedV')
M('bug',G,C,'if j != i && !edges[j].usedU && edges','if j != i && edges')
M('bug',G,C,'					edges[i].usedU = true\n','')
M('bug',G,C,'					edges[j].usedV = true\n','')
M('bug',G,C,'edges[i].V == edges[j].V {\n					edges[i].usedV','edges[i].U == edges[j].U {\n					edges[i].usedV')
M('bug',G,C,'vertexInUPartition := cycle&1 == 0','vertexInUPartition := cycle&2 == 0')
M('bug',G,C,'vertexInUPartition := cycle&1 == 0','vertexInUPartition := i&1 == 0')
M('bug',G,C,'i = j\n					cycle++\n\n					continue loop\n				}\n			}\n		} else','i = j\n					cycle += 2\n\n					continue loop\n				}\n			}\n		} else')
M('bug',G,C,'cycle := 0 // the','cycle := 1 // the')
M('bug',G,C,'for j := range edges {\n				if j != i && !edges[j].usedV','for j := i + 1; j < len(edges); j++ {\n				if j != i && !edges[j].usedV')
M('bug',G,C,'uint64(nonces[i]) >= easiness','uint64(nonces[i]) > easiness')
M('bug',G,C,'uint64(nonces[i]) >= easiness ||','uint64(nonces[i]) > easiness + 5 ||')
M('bug',G,C,'uint64(nonces[i]) > numEdges','uint64(nonces[i]) > numEdges+1')
M('bug',G,C,'uint64(nonces[i]) > numEdges','uint64(nonces[i]) >= numEdges')
M('bug',G,C,'uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] <= nonces[i-1])','uint64(nonces[i]) > numEdges || (i != 0 && nonces[i] < nonces[i-1])')
M('bug',G,C,'uint64(nonces[i]) >= easiness || (i != 0 && nonces[i] <= nonces[i-1])','uint64(nonces[i]) >= easiness || (i > 1 && nonces[i] <= nonces[i-1])')
M('bug',G,C,'	if proofSize == 0 {\n		return false\n	}\n\n	easiness','	easiness')
M('bug',G,C,'return findCycleLength(edges) == proofSize\n}\n\n// Cuckaroo','return findCycleLength(edges) >= proofSize-1\n}\n\n// Cuckaroo')
M('bug',G,C,'return findCycleLength(edges) == proofSize\n}\n\nfunc (c *Cuckaroo','return findCycleLength(edges[:proofSize-proofSize%2]) == proofSize-proofSize%2\n}\n\nfunc (c *Cuckaroo')
M('bug',G,C,'easiness := ease * c.size / 100','easiness := c.size * 100 / ease')
M('bug',G,C,'c.NewEdge(nonces[i], numEdges)','c.NewEdge(nonces[i], numEdges>>1)')
M('bug',G,C,'uint64(1<<edgeBits) - 1','uint64(uint32(1)<<edgeBits) - 1')
M('bug',G,C,'2*nonce+i','2*nonce')
M('bug',G,C,'newNode(uint64(nonce), 0)','newNode(uint64(2*nonce)/2, 0)')
M('bug',G,C,'<< 1) | i','<< 1)')
M('bug',G,C,'V: (e >> 32) & mask','V: (e >> 31) & mask')
M('bug',G,C,'U: e & mask','U: uint64(uint16(e)) & mask')
M('bug',G,C,'mask: numVertices/2 - 1','mask: numVertices - 1')
M('bug',G,C,'v[2] = binary.LittleEndian.Uint64(key[16:24])\n	v[3] = binary.LittleEndian.Uint64(key[24:32])\n\n	return','v[2] = binary.LittleEndian.Uint64(key[24:32])\n	v[3] = binary.LittleEndian.Uint64(key[16:24])\n\n	return')
M('bug',G,C,'v[0] = binary.LittleEndian.Uint64(key[:8])','v[0] = binary.BigEndian.Uint64(key[:8])')
M('bug',G,H,'h.v[3]<<21 | h.v[3]>>(64-21)','h.v[3]<<25 | h.v[3]>>(64-25)')
M('bug',G,H,'	round()\n	round()\n	round()\n	round()\n','	round()\n	round()\n	round()\n')
M('bug',G,H,'h.v[2] ^= 0xff','h.v[2] ^= 0xee')
M('bug',G,H,'n < start+siphashBlockSize','n < start+siphashBlockMask')
M('bug',G,H,'n < start+siphashBlockSize','n <= nonce')
M('bug',G,H,'start := nonce &^ siphashBlockMask','start := nonce - siphashBlockMask')
M('bug',G,H,'nonce == start+siphashBlockMask','nonce == start+siphashBlockSize')
M('bug',G,H,'return nonceHash ^ siphash.Sum64()','return nonceHash')
# refactorings
A='*'
M('ok',A,C,'vertexInUPartition := cycle&1 == 0','vertexInUPartition := cycle%2 == 0')
M('ok',A,C,'j != i && !edges[j].usedU && edges[i].U == edges[j].U','edges[j].U == edges[i].U && i != j && !edges[j].usedU')
M('ok',A,C,WALK,'''	side := true
	for {
		j := next(edges, i, side)
		if j < 0 {
			break
		}
		if side {
			edges[i].usedU, edges[j].usedU = true, true
		} else {
			edges[i].usedV, edges[j].usedV = true, true
		}
		i = j
		cycle++
		side = !side
	}

''',C,'// New returns a new','''func next(edges []*Edge, i int, side bool) int {
	for j, e := range edges {
		if j == i {
			continue
		}
		if side && !e.usedU && e.U == edges[i].U {
			return j
		}
		if !side && !e.usedV && e.V == edges[i].V {
			return j
		}
	}
	return -1
}

// New returns a new''')
M('ok',A,C,WALK,'''	cur := edges[i]
	for found := true; found; {
		found = false
		for _, e := range edges {
			if e == cur {
				continue
			}
			if cycle&1 == 0 {
				if e.usedU || e.U != cur.U {
					continue
				}
				cur.usedU = true
				e.usedU = true
			} else {
				if e.usedV || e.V != cur.V {
					continue
				}
				cur.usedV = true
				e.usedV = true
			}
			cur = e
			cycle++
			found = true
			break
		}
	}

''')
M('ok',A,C,DEG,'''	if crowded(edges) {
		return 0
	}

''',C,'// New returns a new','''// crowded tells whether a vertex belongs to more than two edges.
func crowded(edges []*Edge) bool {
	for _, a := range edges {
		us, vs := 0, 0
		for _, b := range edges {
			if a.U == b.U {
				us++
			}
			if b.V == a.V {
				vs++
			}
		}
		if us >= 3 || vs >= 3 {
			return true
		}
	}
	return false
}

// New returns a new''')
M('ok',A,C,DEG,'''	us, vs := map[uint64]int{}, map[uint64]int{}
	for _, e := range edges {
		us[e.U]++
		vs[e.V]++
		if us[e.U] > 2 || vs[e.V] > 2 {
			return 0
		}
	}

''')
L2='''	for i, n := range nonces {
		if uint64(n) > numEdges {
			return false
		}
		if i > 0 && n <= nonces[i-1] {
			return false
		}
		edges[i] = c.NewEdge(n, numEdges)
	}
'''
FOR=open('/repo/cuckoo/cuckoo.go').read().split('	for i := 0; i < proofSize; i++ {')
FOR2='	for i := 0; i < proofSize; i++ {'+FOR[2].split('\n	}\n')[0]+'\n	}\n'
M('ok',A,C,FOR2,L2)
M('ok',A,C,FOR2,L2.replace('edges[i] = c','edges = append(edges, c').replace('numEdges)','numEdges))'),C,'edges := make([]*Edge, proofSize)\n	for i := 0; i < proofSize; i++ {\n		// Ensure nonces are in ascending order and that they are in the','edges := make([]*Edge, 0, proofSize)\n	for i := 0; i < proofSize; i++ {\n		// Ensure nonces are in ascending order and that they are in the') if 0 else M('ok',A,C,FOR2,L2.replace('i > 0 && n <= nonces[i-1]','prev >= int64(n)').replace('edges[i]','prev = int64(n)\n		edges[i]').replace('	for i, n','	prev := int64(-1)\n	for i, n'))
M('ok',A,C,FOR2,'''	for i := 1; i < proofSize; i++ {
		if nonces[i] <= nonces[i-1] {
			return false
		}
	}
	for i := range nonces {
		if uint64(nonces[i]) > numEdges {
			return false
		}
		edges[i] = c.NewEdge(nonces[i], numEdges)
	}
''')
M('ok',A,C,'	return findCycleLength(edges) == proofSize\n}\n\n// Cuckaroo','	if findCycleLength(edges) != proofSize {\n		return false\n	}\n	return true\n}\n\n// Cuckaroo')
M('ok',A,C,'return ((siphash24(c.v, 2*nonce+i) & c.mask) << 1) | i','h := siphash24(c.v, nonce<<1|i)\n	return h&c.mask*2 + i')
M('ok',A,C,'uint64(nonces[i]) > numEdges','uint64(nonces[i]) >= numEdges+1')
M('ok',A,H,'h.v[1] = h.v[1]<<13 | h.v[1]>>(64-13)','h.v[1] = bits.RotateLeft64(h.v[1], 13)',H,'package cuckoo\n','package cuckoo\n\nimport "math/bits"\n')
M('ok',A,H,'	round()\n	round()\n	round()\n	round()\n','	for i := 0; i < 4; i++ {\n		round()\n	}\n')
M('ok',A,H,'start := nonce &^ siphashBlockMask','start := nonce / siphashBlockSize * siphashBlockSize')
M('ok',A,H,'start := nonce &^ siphashBlockMask','start := nonce >> siphashBlockBits << siphashBlockBits')
M('ok',A,H,'for n := start; n < start+siphashBlockSize; n++ {','for i := uint64(0); i < siphashBlockSize; i++ {\n		n := start + i')
M('ok',A,H,'if nonce == start+siphashBlockMask {','if nonce&siphashBlockMask == siphashBlockMask {')
