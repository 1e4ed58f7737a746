#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) per property."""
import json, os
out=[]
def P(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,id
    out.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
        anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

CODEC='consensus/block.go consensus/transaction.go consensus/proof.go consensus/locator.go p2p/messages.go p2p/handshake.go p2p/helpers.go'
P('C01','Decoding an encoded message gives the same message back',
 'For every kind of message (frame header, hello and its reply, pings, peer lists, errors, header requests and lists, block requests, headers, blocks, compact blocks, transactions and everything nested in them) the decoder reads exactly the fields the encoder wrote, in the same order, with the same width, byte order and element count, into the same part of the message. No field is dropped, duplicated, truncated or taken from another field.',
 'inputs','every message value that can be encoded','tests encode a handful of recorded blocks and transactions; most messages are never encoded and decoded at all',
 CODEC,[('Bytes/Read pairs of every message type',CODEC.split()[0])],observe=['bytes returned by the encoder','message filled by the decoder'])
P('C02','Wire layout and message codes are those of the Grin v1 protocol',
 'The sequence, width and byte order of the fields of every message, the numeric code of every message type, the magic bytes, the header length and the protocol limits are those of the Grin protocol version 1 that other nodes speak. Integers are big-endian, addresses carry a family byte before 4 or 16 address bytes and the port, and the proof of work packs its 42 nonces in edge-bit-wide little-endian bit fields after the edge-bits byte.',
 'inputs programs','every message of every type','the tests pin the layout of a few recorded messages; hello, ping, peer list, error and request layouts and most codes are never compared with anything',
 CODEC+' consensus/network.go',[('message type constants','consensus/network.go'),('Bytes methods',CODEC.split()[0])])
P('C03','Truncated input is never accepted as a message',
 'If the input ends or fails before the last byte a decoder needs, the decoder returns an error; it never reports success with a field that was not completely read.',
 'inputs fault_sequences','every message type and every point at which the input can end','the tests only decode complete messages',
 CODEC,[('error results of every read','consensus/block.go')])
P('C04','Counts and lengths announced by a peer are bounded before they are used',
 'A decoder refuses exactly the messages that announce more than 14 locator hashes, 512 headers, 256 peer addresses, 1,000,000 inputs, outputs, kernels or kernel ids, a range proof longer than 5134 bytes or not of its real length, a string longer than the largest message, or an edge-bit count outside 1..64, and it does so before allocating or looping over the announced amount. A value at the limit is accepted.',
 'inputs','every announced count in its full integer range','tests never announce a count at or above a limit',
 CODEC,[('sanity checks on announced lengths','consensus/block.go'),('MaxLocators, MaxBlockHeaders, MaxPeerAddrs','consensus/network.go')])
P('C05','A node never sends more than the protocol allows',
 'A header reply carries at most 512 headers and never the located block itself, a peer reply carries at most 256 addresses, and no header request with more than 14 locator hashes leaves the node.',
 'inputs histories','every chain content, peer table and locator','no test builds a reply',
 'chain/chain.go p2p/pool.go p2p/peer.go p2p/messages.go',[('limit passed to storage','chain/chain.go'),('cut-off in the peer listing','p2p/pool.go')])
P('C06','Only correctly framed messages are processed, one frame at a time',
 'A message is processed only if its header carries the network magic and announces at most 20,000,000 bytes, and, when a specific message is expected, only if the type matches. The decoder sees exactly the announced bytes and nothing of the next frame, and after a message that was accepted the stream stands at the next header.',
 'inputs fault_sequences','every byte stream a peer can send','one test parses one recorded reply',
 'p2p/protocol.go p2p/peer.go p2p/messages.go',[('ReadMessage','p2p/protocol.go'),('reading loop of a connection','p2p/peer.go')])
P('C07','Every outgoing message is one complete frame from a single writer',
 'What is written for a message is the magic, the code of that message, the exact length of its encoding and then that encoding, flushed before success is reported; an I/O error is reported and ends the connection. After the handshake only one goroutine ever writes to a connection, so frames never interleave.',
 'schedules inputs fault_sequences','every message, every interleaving of senders, every write failure','no test writes a message or runs a connection',
 'p2p/protocol.go p2p/peer.go',[('WriteMessage','p2p/protocol.go'),('writing goroutine and its queue','p2p/peer.go')])
P('C08','Each message type is decoded as itself and handed to its own handler',
 'An incoming frame of a supported type (ping, pong, peer request, peer list, header request, header, headers, block request, block, compact block, transaction) is decoded as that type and, except for the compact block, handed over for processing exactly once and only after decoding succeeded; a decoding error or an unknown type ends the connection. A block or transaction handed over is not changed by what arrives later.',
 'inputs','all 256 type codes and every frame body','no test runs the reading loop',
 'p2p/peer.go p2p/sync.go',[('type switch of the reading loop','p2p/peer.go'),('ProcessMessage','p2p/sync.go')])

P('V01','A block is valid only if every part of it passes its check',
 'Block validation succeeds exactly when the header is valid, there is at least one output and one kernel, inputs, outputs and kernels are each in canonical order, at most one output and at most one kernel are flagged coinbase, every output has a valid range proof for its own commitment, and the signature of every kernel verifies.',
 'inputs','every block','one recorded valid block is validated; no invalid block is ever tried',
 'consensus/block.go',[('Block.Validate','consensus/block.go')])
P('V02','A header is valid only if version, time and proof of work are acceptable',
 'Header validation succeeds exactly when the version fits the height, the timestamp is at most 12 block intervals (720 s) ahead of the current time, the edge bits are 29 or at least 30, the scaling factor is 1 unless the edge bits are 29, and the proof-of-work cycle verifies for this header.',
 'inputs','every header and clock value','one recorded valid header is validated',
 'consensus/block.go consensus/proof.go',[('BlockHeader.Validate','consensus/block.go'),('Proof.Validate','consensus/proof.go')])
P('V03','Block versions follow the hard-fork schedule',
 'Version 1 is required below height 95,000, version 2 from there below 250,000, version 3 from there below 500,000, and no version is acceptable from height 500,000 on.',
 'inputs','all pairs of 64-bit height and 16-bit version','tests use two heights',
 'consensus/block.go consensus/consensus.go',[('ValidateBlockVersion','consensus/block.go')])
P('V04','Proof-of-work verification accepts only increasing in-range nonces on one cycle',
 'A proof verifies exactly when it has at least one nonce, each nonce names an existing edge of the graph, the nonces are strictly increasing, and the edges derived from precisely these nonces form a cycle through all of them. This holds for both graph variants.',
 'inputs','every nonce list, key and graph size','a few recorded proofs are tried; duplicates, wrong order and out-of-range nonces are not',
 'cuckoo/cuckoo.go',[('Verify of both variants','cuckoo/cuckoo.go')])
P('V05','The cycle check counts each edge once and alternates sides',
 'The cycle length reported for a set of edges only advances from an edge to a different edge that shares the vertex on the side being left, marks that side of both edges as used, uses neither side twice, and alternates between the two sides. If some vertex belongs to more than two of the edges, they are not accepted as a cycle.',
 'inputs','every edge list','tests try three tiny graphs',
 'cuckoo/cuckoo.go',[('cycle walk','cuckoo/cuckoo.go')])
P('V06','Proof of work commits to the whole header, and the block id to the proof',
 'The graph in which the proof of work must be found is keyed by the hash of every header field that precedes the proof, nonce included, so no such field can change without invalidating the proof. The id of a block or header is the hash of its packed proof nonces, and the proof hash used for difficulty also covers the edge bits.',
 'inputs','every header','tests recompute the hash of recorded headers only',
 'consensus/block.go consensus/proof.go cuckoo/cuckoo.go',[('header serialisation without the proof','consensus/block.go'),('key derivation','cuckoo/cuckoo.go')])
P('V07','A transaction out of canonical order is refused on arrival',
 'Decoding a transaction succeeds only if its inputs, its outputs and its kernels are each in canonical order.',
 'inputs','every encoded transaction','only sorted recorded transactions are decoded',
 'consensus/transaction.go',[('order checks after decoding','consensus/transaction.go')])
P('V08','Canonical order is ascending order of the content hash',
 'Inputs, outputs and kernels are ordered by ascending hash of their encoding (for outputs without the range proof) and short ids by ascending bytes; encoding a block, compact block or transaction puts every list into that order first, and reordering only permutes whole elements.',
 'inputs','every list','the recorded lists are short',
 'consensus/block.go consensus/id.go consensus/transaction.go',[('Less/Swap/Len of the lists','consensus/block.go')])
P('V09','A block joins its parent only with later time and sufficient difficulty',
 'A block that is not already the head and whose parent is known is accepted only if it is valid by itself, its time is strictly later than its parent\'s, its total difficulty equals the parent\'s total plus the parent\'s proof difficulty, and its difficulty is not below the one computed from the blocks before it. The parent is looked up by the previous hash at the height just below, and nothing is accepted without validation.',
 'inputs histories','every block and stored chain','no test processes a block',
 'chain/chain.go',[('ProcessBlock','chain/chain.go')])
P('V10','A list of headers is accepted only if every header is valid',
 'Processing received headers reports success only if each header of the list, from the first to the last, passes header validation.',
 'inputs','every header list','no test processes headers',
 'chain/chain.go',[('ProcessHeaders','chain/chain.go')])
P('V11','Validating the chain checks every block from the head down to genesis',
 'Chain validation succeeds only if every block from the head down to, but not including, the genesis block is valid and each block\'s parent, found by its previous hash, exists in storage.',
 'inputs histories','every stored chain','no test validates a chain',
 'chain/chain.go',[('Validate','chain/chain.go')])
P('V12','Difficulty retargeting follows the damped median-time rule and cannot fail',
 'The next difficulty is zero without history and the minimum with fewer than 71 blocks; otherwise it is the average difficulty of the latest 60 blocks times 3600 divided by the damped time span ((3*3600 + median time of the latest 11 blocks - median time of the 11 blocks before the window, in seconds) / 4, clamped to 1800..7200), and never below the minimum. It never divides by zero and does not depend on older blocks.',
 'inputs','every list of past blocks','no test computes a difficulty',
 'consensus/difficulty.go consensus/consensus.go',[('NextDifficulty','consensus/difficulty.go')])
P('V13','A kernel signature covers fee and lock height under the kernel excess',
 'A kernel is valid exactly when its signature verifies, under its own excess as public key, for the message that encodes its own fee and its own lock height in separate positions.',
 'inputs','every kernel','one recorded kernel is verified',
 'consensus/block.go secp256k1zkp/schnorr.go',[('TxKernel.Validate','consensus/block.go'),('ComputeMessage','secp256k1zkp/schnorr.go')])
P('V14','Genesis blocks are complete, encodable and distinct',
 'Every built-in genesis block has height 0, version 1, all fixed-size fields at their encoded size, 42 strictly increasing nonces that fit its edge bits, and edge bits a decoder accepts; no two of them share an id.',
 'configurations','all five networks','the tests check the hash of one genesis block',
 'chain/chain.go',[('genesis block literals','chain/chain.go')])
P('V15','Reported height and total difficulty always belong to the current head',
 'From construction on, the height and the total difficulty a chain reports are those of the block it holds as head: the stored tip if storage has one, otherwise the genesis block. Whenever the head changes, all three change together.',
 'histories','every storage content and every operation','no test constructs a chain over a non-empty storage',
 'chain/chain.go',[('New','chain/chain.go')])
P('V16','Proof difficulty is the maximum target divided by the hash prefix',
 'The difficulty of a hash is 0x0fffffffffffffff divided by the big-endian number in its first 8 bytes, a zero prefix counting as one, so it is defined for every hash.',
 'inputs','all hashes','no test computes it',
 'consensus/difficulty.go consensus/consensus.go consensus/proof.go',[('FromHash','consensus/difficulty.go')])
P('V17','Graph edges come from the reference SipHash block function',
 'Every edge of the verification graph is derived with SipHash-2-4 rounds keyed by the four little-endian words of the hashed header: the older variant hashes 2*nonce and 2*nonce+1, the newer one chains the whole aligned block of 64 nonces and combines the state at the nonce with the final state (the last nonce of a block yields the final state alone).',
 'inputs','all keys and nonces','a few recorded digests are compared',
 'cuckoo/siphash24.go cuckoo/cuckoo.go',[('SipHash rounds and block function','cuckoo/siphash24.go')])

P('K01','Signing and verifying agree on the challenge and the equation',
 'A signature is accepted exactly when s*G equals R + e*P, where e is the SHA-256 of R\'s x-coordinate, the compressed public key and the message in that order; signing computes s = k + e*x with the same e. The R that signing uses is the one the decoder reconstructs from the x-coordinate, so a created signature also verifies after it was serialised.',
 'inputs','all keys, messages and nonces','one signature is made and verified, without serialising it',
 'secp256k1zkp/schnorr.go',[('SignMessage, VerifySignature','secp256k1zkp/schnorr.go')])
P('K02','Signature nonces are fresh, uniform, non-zero and stay secret',
 'Every signature uses a new nonce taken from the operating system\'s cryptographic random source, rejected unless it lies in 1..n-1; if that source fails, no signature is made. Neither the nonce nor a private key is ever logged, printed, returned or sent.',
 'inputs histories','every call and random-source outcome','tests cannot see where randomness comes from or goes',
 'secp256k1zkp/schnorr.go',[('RandomInt, RandomBytes','secp256k1zkp/schnorr.go')])
P('K03','Signatures and public keys have one fixed serialisation',
 'A signature is serialised as the 32-byte big-endian x-coordinate of R followed by the 32-byte big-endian s and decoded from the same positions; a public key is 0x03 (odd y) or 0x02 (even y) followed by the 32-byte x-coordinate.',
 'inputs','all points and scalars','one recorded signature is decoded',
 'secp256k1zkp/schnorr.go',[('Signature.Bytes, DecodeSignature, CompressPubkey','secp256k1zkp/schnorr.go')])
P('K04','Short ids are the keyed 6-byte digest of the hash',
 'The short id of a hash within a block is the first 6 bytes, little-endian, of SipHash over the hash, keyed by the first two little-endian 64-bit words of the block id.',
 'inputs','all hashes and block ids','three recorded ids are compared',
 'consensus/id.go',[('ShortID','consensus/id.go')])
P('K05','Value commitments use the two standard generators',
 'A commitment to a value is blind*G + value*H with the standard secp256k1 generator G and the standard second generator H, in these roles, and the curve order in use is that of secp256k1.',
 'inputs','all values and blinding factors','no test makes a commitment',
 'secp256k1zkp/schnorr.go secp256k1zkp/constants.go',[('CommitValue','secp256k1zkp/schnorr.go')])

P('N01','Only peers with the same protocol version and genesis become connected',
 'An outgoing or incoming handshake succeeds only if the peer announces protocol version 1 and the same genesis hash as the node itself announces, which is that of the chain the node keeps; every hello and reply carries our version, capabilities, genesis and agent. An incompatible peer never counts as connected.',
 'inputs','every hello and reply a peer can send','one recorded reply is parsed; no handshake is run',
 'p2p/handshake.go p2p/peer.go p2p/pool.go',[('both handshake halves','p2p/handshake.go')])
P('N02','A node never connects to itself',
 'Every outgoing hello carries a nonce from the node\'s own random nonce list, and an incoming hello whose nonce is anywhere in that list is refused before a reply is sent.',
 'inputs histories','all nonces and connection orders','no test runs a handshake',
 'p2p/server.go p2p/handshake.go',[('nonce list','p2p/server.go')])
P('N03','A banned address is disconnected, forgotten and never used again',
 'Banning an address records it for good, removes it from the known peers and closes its connection if there is one, whatever state the peer is in. A recorded address is never added to the known peers again, dialled or handed out, even when the ban arrives while a connection to it is being set up.',
 'schedules histories','every order of ban, add and connect','no test bans a peer',
 'p2p/pool.go',[('Ban, IsBan, Add','p2p/pool.go')])
P('N04','A peer that sends data breaking consensus rules is banned',
 'If the chain refuses a block or a list of headers, or the transaction pool refuses a transaction, the sender is banned under the address by which the node knows it; a peer whose data is accepted is not banned.',
 'inputs histories','every message and every verdict','no test processes a message',
 'p2p/sync.go',[('ProcessMessage','p2p/sync.go')])
P('N05','Only accepted blocks at the tip are relayed, and only to peers behind',
 'A received block is passed on only after the chain accepted it and only if it is at the current height, and only to connected peers whose known height or total difficulty is lower than the block\'s. A refused block changes nothing we believe about its sender.',
 'inputs schedules','every block, verdict and peer state','no test relays a block',
 'p2p/sync.go p2p/pool.go',[('block handling','p2p/sync.go'),('PropagateBlock','p2p/pool.go')])
P('N06','Connection slots are neither leaked nor released twice',
 'Each attempt to connect takes one of the limited slots and gives it back exactly once: immediately if no connection results, otherwise when the connection has ended. The count of connections and the table of connected peers change in step with this.',
 'schedules fault_sequences histories','every outcome of a connection attempt','no test connects',
 'p2p/pool.go',[('Run and the connecting routine','p2p/pool.go')])
P('N07','No socket stays open once its connection is given up',
 'Every dialled socket that does not become a connected peer is closed on every failure path (failed handshake, wrong version, banned meanwhile), and disconnecting a peer always closes its socket.',
 'fault_sequences','every failure point of connection set-up','no test fails a handshake',
 'p2p/peer.go p2p/pool.go',[('NewPeer','p2p/peer.go'),('Disconnect','p2p/peer.go')])
P('N08','A connection shuts down exactly once, and both its workers end',
 'However many parties disconnect a peer at once, its quit signal is given once, before anyone waits for it; both workers end after it or after their own I/O error, report completion once each, and take the connection down with them. A sender never blocks for ever on a connection that has shut down.',
 'schedules fault_sequences','every interleaving of errors, closes and senders','no test runs a connection',
 'p2p/peer.go',[('Start, Disconnect, the two workers','p2p/peer.go')])
P('N09','Shared state is only touched under its lock',
 'The tables of known, connected and banned peers, the recorded state of each peer and the chain state are read and written only while holding the lock that belongs to them, and the counters shared between goroutines only atomically.',
 'schedules','every interleaving of goroutines','tests are sequential',
 'p2p/pool.go p2p/sync.go p2p/peer.go chain/chain.go',[('mutexes of the peer pool, peer record and chain','p2p/pool.go')])
P('N10','No lock is leaked, taken twice or taken in conflicting order',
 'Every lock that is taken is released on every path exactly once, is never taken again while held, and locks are nested in one global order. No goroutine blocks on a channel, the network, a sleep or another goroutine\'s end while it holds a lock, and no worker waits for its own end.',
 'schedules','every interleaving','tests are sequential',
 'p2p/pool.go p2p/sync.go p2p/peer.go chain/chain.go',[('lock and unlock sites','p2p/pool.go')])
P('N11','No message from a peer can crash the node',
 'Whatever a peer sends, processing it cannot reach a process exit or a panic of our own making: no use of a missing pool, peer, peer record or list, no out-of-range index or slice, no division by zero, no failed type assertion, no oversized allocation and no fatal log.',
 'inputs histories','every byte stream','tests send nothing hostile',
 'p2p/sync.go p2p/peer.go p2p/messages.go consensus/block.go',[('ProcessMessage','p2p/sync.go')])
P('N12','The known-peers table holds only usable addresses and stays bounded',
 'An address is entered only if it resolves to a TCP address that is not multicast and has a non-zero port, the table is not full and the address is not yet known; entering never overwrites what is known about a peer. Listing known peers leaves out banned and failed ones and those lacking a requested capability.',
 'inputs histories','every address and table state','no test uses the peer table',
 'p2p/pool.go',[('Add, Peers','p2p/pool.go')])
P('N13','Requests get the answer they ask for, with the current chain state',
 'A ping is answered by one pong carrying the chain\'s current height and total difficulty read together, a header request by one headers message with what the chain located, a block request by that block only if it is known, and a peer request by the known peers with the requested capabilities; other messages get no reply. Pings we send also carry the current chain state, and ping, pong and accepted blocks update what we know of that peer.',
 'inputs histories schedules','every request and chain state','no test processes a message',
 'p2p/sync.go p2p/peer.go',[('ProcessMessage','p2p/sync.go')])
P('N14','Header requests are answered from the first known locator hash',
 'The reply to a header request contains, in chain order, the headers that follow the first hash of the locator the node knows; it is empty if that hash is the head or if none is known. At most the first 14 hashes are considered.',
 'inputs','every locator and chain','no test requests headers',
 'chain/chain.go',[('GetBlockHeaders','chain/chain.go')])
P('N15','Only idle, unbanned, known peers are dialled, one connection each',
 'The node dials only addresses from its table that are new, disconnected or failed, fresh ones before failed ones, and never one that is already connected or banned; after a connection ends the peer is recorded as disconnected and can be dialled again, and a failed dial is recorded as failed.',
 'schedules histories','every peer table and connection outcome','no test connects',
 'p2p/pool.go',[('choice of the next peer and connecting routine','p2p/pool.go')])
P('X01','A block creates no value beyond the reward',
 'The sum of the commitments of an accepted block balances with its kernels and the subsidy.',
 'inputs','every block','the rule is not implemented','consensus/block.go',[('verification of kernel sums (not implemented)','consensus/block.go')])
P('X02','Accepted blocks survive a restart',
 'A block the node accepted is still in its chain after a crash and restart.',
 'crash_points histories','every crash point','storage is a stub','storage/mysql.go chain/chain.go',[('storage (stub)','storage')])
P('X03','A connected node catches up with the heaviest valid chain',
 'If some connected peer has a heavier valid chain, the node eventually adopts it.',
 'schedules histories','every network history','synchronisation is not implemented','p2p/sync.go chain/chain.go',[('synchronisation (not implemented)','p2p/sync.go')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+'/properties.jsonl','w') as f:
    for o in out: f.write(json.dumps(o,ensure_ascii=False)+'\n')
print(len(out))
