S='secp256k1zkp/schnorr.go'
K='K01 K02 K03 K05'
M('bug',K,S,'	hasher := sha256.New()\n\n	for i := range inputs {','	hasher := sha256.New()\n\n	for i := range inputs[:2] {')
M('bug',K,S,'if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {','if r.Sign() == 0 || r.Cmp(btcec.S256().N) > 0 {')
M('bug',K,S,'if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {','if r.Cmp(btcec.S256().N) >= 0 {')
M('bug',K,S,'if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {','if r.Sign() == 0 || r.Cmp(btcec.S256().P) >= 0 {')
M('bug',K,S,'_, err := rand.Read(buf[:])','_, err := rand.Read(buf[1:])')
M('bug',K,S,'	if err != nil {\n		panic("Unable to generate random int")\n	}\n','	_ = err\n')
M('bug',K,S,'	if !IsQuadraticResidue(R.Y) {\n		k = Neg(k)\n','	if !IsQuadraticResidue(R.Y) {\n')
M('bug',K,S,'	if !IsQuadraticResidue(R.Y) {\n		k = Neg(k)\n		R = Sc','	if R.Y.Bit(0) == 1 {\n		k = Neg(k)\n		R = Sc')
M('bug',K,S,'s := Sum(k, Mul(e, &privateKey))','s := new(big.Int).Add(k, Mul(e, &privateKey))')
M('bug',K,S,'s := Sum(k, Mul(e, &privateKey))','s := Sum(k, Neg(Mul(e, &privateKey)))')
M('bug',K,S,'rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))','rhs := SumPoints(&signature.R, ScalarMulPoint(&G, e))')
M('bug',K,S,'	return lhs.Equals(rhs)','	return lhs.X.Cmp(rhs.X) == 0')
M('bug',K,S,'	copy(buf[32:64], S[:])','	copy(buf[32:63], S[:])')
M('bug',K,S,'	copy(buf[32:64], S[:])','	copy(buf[64-len(s.S.Bytes()):], s.S.Bytes())\n	_ = S', S,'	copy(buf[0:32], Rx[:])\n	','	copy(buf[0:], Rx[:])\n	copy(buf[32:], Rx[:])\n	')
M('bug',K,S,'s := new(big.Int).SetBytes(signature[32:64])','s := new(big.Int).SetBytes(signature[31:63])')
M('bug',K,S,'R.Y = decompressPoint(signature[0:32])','R.Y = decompressPoint(signature[32:64])')
M('bug',K,S,'x3.Mul(x3, x)\n','')
M('bug',K,S,'ScalarMulPoint(&G, blind),\n		ScalarMulPoint(&H, v))','ScalarMulPoint(&H, blind),\n		ScalarMulPoint(&G, v))')
M('bug',K,S,'	if p.Y.Bit(0) == 1 { // is odd','	if p.Y.Bit(1) == 1 { // is odd')
M('bug',K,S,'	k := RandomInt()\n','	if lastK == nil {\n		lastK = RandomInt()\n	}\n	k := lastK\n',S,'// RandomBytes returns','var lastK *big.Int\n\n// RandomBytes returns')
M('bug',K,S,'	k := RandomInt()\n','	k := RandomInt()\n	lastK = k\n',S,'// RandomBytes returns','var lastK *big.Int\n\n// RandomBytes returns')
M('bug',K,S,'	k := RandomInt()\n','	k := RandomInt()\n	fmt.Println("k", k)\n',S,'import (','import (\n	"fmt"')
M('bug',K,S,'	k := RandomInt()\n','	h := ComputeHash(message[:], privateKey.Bytes())\n	k := new(big.Int).SetBytes(h[:])\n')
M('bug',K,'secp256k1zkp/constants.go','0x31, 0xd3, 0xc6, 0x86','0x31, 0xd3, 0xc6, 0x87')
M('bug',K,'secp256k1zkp/constants.go','0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41','0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x40')
M('bug','K04','consensus/id.go','blockHash[8:16])','blockHash[16:24])')
M('bug','K04','consensus/id.go','PutUint64(result, hash)','PutUint64(result[:8], hash>>16)')
M('bug','K04','consensus/id.go','siphash.Hash(k0, k1, h)','siphash.Hash(k1, k0, h)')
# refactorings
M('ok','*',S,'''retry:
	buf := RandomBytes()

	r := &big.Int{}
	r.SetBytes(buf[:])

	if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {
		goto retry
	}

	return r
''','''	for {
		buf := RandomBytes()
		r := new(big.Int).SetBytes(buf[:])
		if r.Sign() > 0 && r.Cmp(btcec.S256().N) < 0 {
			return r
		}
	}
''')
M('ok',K,S,'''	Rx := GetB32(R.X)
	compressedPubkey := CompressPubkey(publicKey)
	challenge := ComputeHash(
		Rx[:],
		compressedPubkey[:],
		message[:])
	e := new(big.Int).SetBytes(challenge[:])

	s := Sum''','''	e := challengeFor(R, publicKey, message)

	s := Sum''',S,'''	Rx := GetB32(signature.R.X)
	compressedPubkey := CompressPubkey(publicKey)

	// Compute the non-interactive challenge.
	challenge := ComputeHash(
		Rx[:],
		compressedPubkey[:],
		message[:])
	e := new(big.Int).SetBytes(challenge[:])
''','''	e := challengeFor(&signature.R, publicKey, message)
''',S,'// CommitValue returns','''func challengeFor(R *Point, publicKey Point, message [32]byte) *big.Int {
	rx := GetB32(R.X)
	pk := CompressPubkey(publicKey)
	var buf []byte
	buf = append(buf, rx[:]...)
	buf = append(buf, pk[:]...)
	buf = append(buf, message[:]...)
	h := sha256.Sum256(buf)
	return new(big.Int).SetBytes(h[:])
}

// CommitValue returns''')
M('ok',K,S,'''		ScalarMulPoint(&G, blind),
		ScalarMulPoint(&H, v))''','''		ScalarMulPoint(&H, v),
		ScalarMulPoint(&G, blind))''')
M('ok',K,S,'s := Sum(k, Mul(e, &privateKey))','''s := new(big.Int).Mul(&privateKey, e)
	s.Add(s, k)
	s.Mod(s, btcec.S256().N)''')
M('ok',K,S,'''	var buf [33]byte
	if p.Y.Bit(0) == 1 { // is odd
		buf[0] = TagPubkeyOdd
	} else {
		buf[0] = TagPubkeyEven
	}
''','''	var buf [33]byte
	buf[0] = byte(TagPubkeyEven + p.Y.Bit(0))
''')
M('ok',K,S,'''	hasher := sha256.New()

	for i := range inputs {
		hasher.Write(inputs[i])
	}

	var result [32]byte
	copy(result[:], hasher.Sum(nil))
	return result
''','''	h := sha256.New()
	for _, in := range inputs {
		h.Write(in)
	}
	var result [32]byte
	h.Sum(result[:0])
	return result
''')
M('ok',K,S,'_, err := rand.Read(buf[:])\n	if err != nil {','if _, err := io.ReadFull(rand.Reader, buf[:]); err != nil {',S,'import (','import (\n	"io"')
M('ok','*','consensus/id.go','''	result := make(ShortID, ShortIDSize+2)
''','''	var result [8]byte
''','consensus/id.go','binary.LittleEndian.PutUint64(result, hash)','binary.LittleEndian.PutUint64(result[:], hash)','consensus/id.go','return result[0:6]','return ShortID(result[:ShortIDSize])')
M('ok',K,S,'''	copy(buf[0:32], Rx[:])
	copy(buf[32:64], S[:])
	return buf''','''	n := copy(buf[:], Rx[:])
	copy(buf[n:], S[:])
	return buf''')
M('ok',K,S,'''	if !IsQuadraticResidue(R.Y) {
		k = Neg(k)
		R = ScalarMulPoint(&G, k)
	}''','''	if IsQuadraticResidue(R.Y) == false {
		k = new(big.Int).Sub(btcec.S256().N, k)
		R = ScalarMulPoint(&G, k)
	}''')
M('ok',K,S,'	x3 := new(big.Int).Mul(x, x)\n	x3.Mul(x3, x)\n	x3.Add(x3, btcec.S256().Params().B)','	x3 := new(big.Int).Exp(x, big.NewInt(3), btcec.S256().P)\n	x3 = x3.Add(x3, big.NewInt(7))')
M('bug','K01','secp256k1zkp/schnorr.go','''	return lhs.Equals(rhs)
''','''	if lhs.Equals(rhs) {
		return true
	}
	return signature.S.Sign() == 0 && lhs.Equals(&signature.R)
''')
M('bug','K01','secp256k1zkp/schnorr.go','''	return lhs.Equals(rhs)
''','''	if lhs.Equals(&signature.R) {
		return true
	}
	return lhs.Equals(rhs)
''')
M('bug','K01','secp256k1zkp/schnorr.go','''	return lhs.Equals(rhs)
''','''	if rhs.Equals(lhs) && signature.S.Sign() != 0 {
		return true
	}
	return false
''')
M('ok','K01','secp256k1zkp/schnorr.go','''	return lhs.Equals(rhs)
''','''	switch {
	case rhs.Equals(lhs):
		return true
	default:
		return false
	}
''')
