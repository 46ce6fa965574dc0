import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['src/frn/'+f for f in files],state=[dict(name=a,meaning=b,where='src/frn/'+c) for a,b,c in state],
      mechanism=[dict(name=a,where='src/frn/'+b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
prop('C01','Field arithmetic is exact modulo the prime and canonical',
 'For both supported primes (2^61-1 and 2^127-1), construction from an integer, addition, subtraction, negation and multiplication of field elements produce exactly the mathematical result modulo the prime, held as the unique representative in [0, p). Two elements compare equal exactly when they represent the same residue. In-place forms update only their left operand and stay correct when both operands are the same object.',
 ['inputs'],'every pair of field elements (all 2^122 resp. 2^254 operand pairs) and every machine integer used for construction',
 'Tests multiply a handful of small or random values; carry and borrow corner cases near 0, p-1, p and the 2^64/2^128 word boundaries are a vanishing fraction of the operand space.',
 ['lib/math/fp.h','lib/math/ring.h','lib/math/p.h','lib/math/arithmetic.h','lib/math/arithmetic.cc'],
 [('Mersenne multiplication','lib/math/arithmetic.cc'),('addm/subm/neg/red','lib/math/arithmetic.h'),('operators','lib/math/ring.h')],
 [('FpElement value','canonical residue','lib/math/fp.h')],['FpElement public operators'])
prop('C02','Field inversion and division are exact; zero is rejected',
 'For every non-zero field element x of either prime field, inversion terminates and returns the canonical y with x*y = 1 modulo the prime, and division a/x returns a*y. Inverting or dividing by zero throws std::logic_error and leaves the operands unchanged.',
 ['inputs'],'every non-zero element of both fields, every dividend, and zero',
 'The existing tests never invert; correctness needs the extended-Euclid invariant and the absence of signed overflow over all p-1 inputs.',
 ['lib/math/arithmetic.h','lib/math/p.h','lib/math/fp.h','lib/math/ring.h'],[('extended Euclid','lib/math/arithmetic.h'),('Invert/Inverse/operator/=','lib/math/fp.h')])
prop('C03','Field elements survive byte and decimal encodings',
 'Writing a field element produces exactly its element-size little-endian byte representation and touches no other byte; reading any element-size byte string yields the canonical element congruent to the little-endian integer it encodes, so reading back a written element returns it. Constructing an element from a decimal string whose value fits the machine word yields that value modulo the prime, and printing an element yields its canonical decimal representation.',
 ['inputs'],'every field element, every byte string (also ones encoding values >= p), every decimal string whose value fits the word',
 'Tests only transport small values, never non-canonical encodings, leading zeros, multi-digit corner values or values at or above the prime.',
 ['lib/math/fp.h','lib/tools.h','lib/tools.cc'],[('ToBytes/FromBytes','lib/math/fp.h'),('from_string','lib/tools.h'),('to_string','lib/tools.cc')])
prop('C04','Vector arithmetic is element-wise for every length and aliasing',
 'Addition, subtraction, entry-wise multiplication, scaling, inner product and sum of vectors of field elements return exactly the element-wise (resp. accumulated) field result for every length including zero; operands of different lengths are rejected with std::logic_error. In-place forms modify only their destination and remain correct when an operand aliases it.',
 ['inputs'],'vectors of every length and content, equal or different lengths, aliased or not',
 'Loops over caller-chosen lengths: the tests use one or two fixed small lengths and never alias or mismatch operands.',
 ['lib/math/vec.h'],[('AddInto/SubtractInto/MultiplyInto/ScaleBy/Dot/Sum','lib/math/vec.h')])
prop('C05','Matrix arithmetic, extraction and Vandermonde construction are exact',
 'Matrix addition, subtraction, entry-wise product, scaling, matrix product, submatrix extraction and Vandermonde construction return matrices with the right dimensions whose every entry equals the mathematical definition over the field. Zero dimensions, incompatible dimensions and submatrix ranges that are inverted or reach outside the matrix are rejected with the documented exception instead of reading or writing out of bounds. The original operand matrices of non-mutating operations are unchanged.',
 ['inputs'],'all dimensions, contents and index ranges',
 'No existing test exercises matrices; triple loops over caller-chosen dimensions and boundary ranges cannot be sampled exhaustively.',
 ['lib/math/mat.h','lib/math/vec.h'],[('MatMul, extract_submatrix, element-wise operations','lib/math/mat.h'),('create_vandermonde_matrix','lib/math/mat.h')],[('row-major values','entry (r,c) at cols*r+c','lib/math/mat.h')])
prop('C06','The generator is the AES-128 counter-mode keystream of its seed',
 'The i-th 16-byte block ever produced by a generator is AES-128 under the seed applied to the counter block (nonce in the high half, i in the low half), so equal seeds and equal sequences of request sizes give equal bytes. Each request of n bytes returns the first n bytes of ceil(n/16) fresh blocks, advances the counter by exactly ceil(n/16) and writes nothing beyond n bytes; copies evolve independently and Reset returns to block 0 of the same seed. Requesting more bytes than a destination vector holds throws without consuming randomness.',
 ['inputs','histories'],'every seed, every request size and every sequence of requests, copies and resets',
 'All parties derive correlated randomness from this stream, but no test compares it with AES or checks sizes that are not a multiple of the block size, zero, or long request histories.',
 ['lib/primitives/prg.h','lib/primitives/prg.cc'],[('key schedule and encryption','lib/primitives/prg.cc'),('Next/Reset','lib/primitives/prg.cc')],[('counter','number of blocks produced','lib/primitives/prg.h'),('key schedule','expansion of the seed','lib/primitives/prg.h')])
prop('C07','The hash is SHA-3 of the concatenated input, however it is chunked',
 'For each of the 256, 384 and 512 bit variants, the digest equals SHA-3 (FIPS 202) of the concatenation of all bytes passed to Update, independent of how those bytes were divided over Update calls.',
 ['inputs','histories'],'every message and every way of splitting it over calls',
 'No test hashes anything; correctness depends on message length modulo word and block size and on the chunk boundaries, which form an unbounded space.',
 ['lib/primitives/hash.h'],[('keccakf permutation','lib/primitives/hash.h'),('absorb buffering in Update','lib/primitives/hash.h'),('padding in Finalize','lib/primitives/hash.h')],[('byte and word index','position inside the current block','lib/primitives/hash.h')])
prop('C08','Additive sharing always sums to the secret and is freshly masked',
 'For every secret and every positive number of shares n, additive sharing returns exactly n field elements that sum to the secret, where the first n-1 are consecutive field elements read from n elements worth of fresh generator output. Asking for zero shares throws std::invalid_argument and consumes no randomness.',
 ['inputs'],'every secret, share count and generator state',
 'Tests use one or two share counts; off-by-one errors in the range of masked positions show only for particular counts.',
 ['lib/secret_sharing/additive.h','lib/math/vec.h'],[('ShareAdditive','lib/secret_sharing/additive.h')])
prop('C09','The replicated-sharing index structure is exactly the t-of-n combinatorics',
 'For every valid (n, t) the share indices enumerate all (n-t)-subsets of the parties in lexicographic order exactly once; the index-to-subset and subset-to-index maps are inverse, and the index set of a party is the increasing list of exactly the subsets that contain it. The reported sizes are C(n,t) additive shares and C(n-1,t) elements per party, so every element is held by exactly n-t parties and any t parties jointly miss at least one; t = 0 or t >= n is rejected with std::invalid_argument.',
 ['configurations','inputs'],'all n and t whose tables fit in memory, all indices, subsets and parties',
 'Tests construct three or four (n,t) pairs; an enumeration or binomial error can appear first at a larger n or at the last combination.',
 ['lib/secret_sharing/rep.h'],[('NextCombination/NthCombination/Binom','lib/secret_sharing/rep.h'),('Init tables','lib/secret_sharing/rep.h'),('Intersection/Difference','lib/secret_sharing/rep.h')],[('combination table','index -> sorted party subset','lib/secret_sharing/rep.h'),('lookup table','party -> increasing share indices','lib/secret_sharing/rep.h')])
prop('C10','Replicated shares reconstruct the secret and inconsistency is detected',
 'Sharing a secret gives every party exactly the additive shares of its index set, and reconstruction from the n shares returns the secret; sharing a list of secrets yields, per party, the shares in input order. Error-detecting reconstruction returns the secret on consistent shares and throws std::runtime_error exactly when two parties disagree on any common element.',
 ['inputs','configurations'],'every secret or list of secrets, every (n,t), every share vector including adversarially altered ones',
 'Tests reconstruct a few honest sharings; which single altered copy goes unnoticed depends on (party, element) positions that are never enumerated.',
 ['lib/secret_sharing/rep.h','lib/secret_sharing/additive.h'],[('Share','lib/secret_sharing/rep.h'),('Reconstruct/ErrorDetection/ComputeRedundantAddShares','lib/secret_sharing/rep.h')])
prop('C11','Local linear operations on shares are linear operations on secrets',
 'When all parties apply share addition, subtraction, or multiplication by a public constant, or addition/subtraction of a public constant on either side, to consistent sharings, the results are consistent sharings of the corresponding field expression of the secrets. Exactly the holders of one designated additive share apply a public constant, each at its own position of that share; operands are not modified.',
 ['inputs','configurations'],'every n and d, every party, all shares and constants',
 'Tests use one network size and small constants; the position of the designated share differs per party and n.',
 ['shr.h','shr.cc'],[('Add/Subtract/MultiplyConstant/AddConstant/SubtractConstant','shr.cc'),('IndexForConstantOperations','shr.cc')],[('constant index','local position of the designated share or none','shr.h')])
prop('C12','Local multiplication yields exact shares of the product',
 'For every n >= 3d+1 with d >= 1 and any two consistent degree-d sharings, the locally computed double-degree shares of all parties form a consistent degree-2d sharing of the product, and the locally computed additive shares sum to the product with zero contribution from parties with index >= 2d+1. Every pair of additive shares is assigned to exactly one double-degree share, held by the first n-2d common holders of the pair.',
 ['inputs','configurations'],'all n, d, parties and share values',
 'Tests check n=4 and one or two other sizes; the assignment table grows as C(n,d)^2 and its exactness is a counting argument over all pairs.',
 ['shr.h','shr.cc','lib/secret_sharing/rep.h'],[('multiplication table in Init','shr.cc'),('MultiplyToDoubleDegree/MultiplyToAdditive','shr.cc'),('ComputeIndexForDoubleMultiplication','shr.cc')],[('multiplication table','(a,b) -> destination, first party','shr.h')])
prop('C13','The reconstruction table routes each share to exactly the parties lacking it',
 'For every n, d and party, the reconstruction table has one entry per locally held double-degree share, listing in increasing order exactly the parties that do not hold that share. Exactly one holder of each share, its lowest-numbered one, is marked to send the value; all others send a digest.',
 ['configurations'],'all n, d, parties and share indices',
 'No test inspects the table; receiver sets of later entries, larger n and holder order are never compared with the access structure.',
 ['shr.h','shr.cc'],[('mTableRec construction','shr.cc')],[('reconstruction table','share -> receivers, VALUE or HASH','shr.h')])
prop('C14','Correlated randomness is consistent across parties for every draw',
 'Given generators derived consistently from each dealer key, on every draw the replicated share of the random value equals the sum of the replicated shares of the 2d+1 additive shares, party j < 2d+1 obtains as additive share the sum of its own streams and every other party obtains zero, each stream advancing by one element. The dummy variants return all-zero values of the same shape.',
 ['inputs','histories','configurations'],'every n, d, party, generator state and every number of successive draws',
 'Tests draw once or twice for one size; a party reusing or skipping a stream shows only after several draws or for particular parties.',
 ['corr.h','corr.cc'],[('GenRandomShare','corr.cc'),('SetOwnPRGs/SetRandPRGs','corr.h')])
prop('C15','The input protocol gives consistent sharings of exactly the inputs, in order',
 'After setup and one run of the input protocol, each party outputs, for every input provider, one share per input in the order they were prepared, and the shares of all parties form consistent sharings of exactly those inputs. This holds for every number of parties and for any number of inputs per party including zero and repeated inputs by the same party; every party announces its masked values to all parties, itself included.',
 ['inputs','configurations','histories'],'every n, every vector of per-party input counts and values, every key',
 'The tests run n=4 with a single input per party, which hides mask/mask-share drift over successive inputs and share-count mismatches at other sizes.',
 ['input.h','input.cc','input_corr.h','input_corr.cc'],[('InputSetup::Run','input_corr.cc'),('GetMask/GetMaskShare','input_corr.h'),('Input::Prepare/Run','input.h')],[('mask generators','one stream per additive share of each key','input_corr.h')])
prop('C16','The multiplication protocol yields consistent sharings of all products in order',
 'After preparing any number of multiplications and running the protocol once, each party outputs one share per multiplication in preparation order and the shares of all parties form consistent sharings of exactly the products. The recorded check data of each party matches the messages it sent, received and reconstructed, per multiplication.',
 ['inputs','configurations','histories'],'every n, d, batch size and operand values',
 'Tests multiply one pair at n=4; drift between the random share used for masking and unmasking, or a party omitted from a sum, appears only for batches or other sizes.',
 ['mult.h','mult.cc','corr.cc','shr.cc'],[('Prepare/MultiplyToAddAndMsgs','mult.h'),('SendStep/ReconstructionStep/OutputStep','mult.cc')],[('random shares','one per prepared multiplication','mult.h')])
prop('C17','The check protocol compresses every multiplication with its coefficient',
 'For every batch, each relevant party compresses the recorded sent, received and reconstructed values and the per-party message shares into exactly the sum over all multiplications of coefficient times value, using the same coefficient sequence. It then queues, for every double-degree share it must send by value, the compressed message shares of all 2d+1 senders in order to exactly the parties lacking that share, and one digest per share otherwise.',
 ['inputs','configurations'],'every n, d, party, batch size and recorded data',
 'The test only runs the code for n=4 without looking at a result; party-index boundaries and accumulator updates are unobserved.',
 ['check.h','shr.cc'],[('ComputeRandomCoefficients/PrepareLinearCombinations/PrepareMsgs/ReconstructMsgs','check.h')],[('compressed check data','coefficient-weighted sums','check.h')])
prop('C18','Channels deliver every byte exactly once, in order, or report an error',
 'Sending or receiving n bytes over a socket-backed connector transfers exactly the n requested bytes in order for every pattern of partial reads and writes by the operating system. A failing system call, and the peer disconnecting before all bytes arrived, surface as an exception and never as a successful transfer; invalid ports (outside 1025..65535) and host names are rejected when the connector is constructed.',
 ['inputs','fault_sequences'],'every size and every sequence of system-call results (short counts, errors, end of stream)',
 'Local sockets rarely return short counts or errors, so the tests only see full transfers; the partial-transfer arithmetic is unobserved.',
 ['lib/net/channel.h','lib/net/channel.cc','lib/net/connector.h','lib/net/connector.cc'],[('TCPConnector::Send/Recv','lib/net/connector.cc'),('Channel::Send/Recv','lib/net/channel.h'),('invalid_port','lib/net/connector.h')])
prop('C19','Network building validates its configuration and endpoints agree on ports',
 'Whatever the order of the builder calls, an identifier that is negative or not below the network size, a base port outside 1025..65535, connection information in use whose size differs from the network size, or missing mandatory settings lead to std::logic_error at the latest when the network is built. In a built network every pair of parties agrees on one port and on who listens, no two pairs share a port, and a configuration whose derived ports leave the valid range is not built.',
 ['configurations','histories'],'every network size, identifier, base port and order of builder calls',
 'Tests use one builder order on 4 parties; port collisions or disagreement between two endpoints depend on the full (id, peer, n) space.',
 ['lib/net/builder.h','lib/net/builder.cc','lib/net/network.h'],[('setters and Build','lib/net/builder.cc'),('port picker','lib/net/builder.cc')])
prop('C20','The in-process channel is a lossless FIFO byte stream',
 'Bytes sent by a party to itself are received in order, each exactly once, whatever the sizes of the individual sends and receives: a receive smaller than the pending message leaves the rest for the next receive, and a larger one continues with the following messages. The underlying queue hands out elements in insertion order.',
 ['histories','inputs'],'every sequence of send and receive sizes for which enough bytes were sent',
 'Tests always receive exactly what was sent in one call; split or merged reads are never exercised.',
 ['lib/net/connector.h','lib/net/shared_deque.h','lib/net/channel.h'],[('LocalConnector::Send/Recv','lib/net/connector.h'),('SharedDeque','lib/net/shared_deque.h')],[('pending message offset','bytes of the front message already received','lib/net/connector.h')])
prop('C21','Typed network messages arrive unchanged and traffic is counted exactly',
 'Sending vectors of field elements, shares or bytes to a party puts exactly their concatenated element encodings on that party\'s channel and no other, and receiving n of them consumes exactly the corresponding bytes from the named sender and returns the decoded values in order. The communication summary counts per peer exactly the payload bytes sent and received.',
 ['inputs','histories'],'all peers, lengths (including zero) and values, all sequences of typed sends and receives',
 'The one network test sends a few bytes between fixed parties; lengths, shares of other sizes and per-peer accounting are unobserved.',
 ['tcp_network.h','network.h','lib/net/network.h'],[('Send/SendShares/SendBytes/Recv/RecvShares/RecvBytes','tcp_network.h'),('Summary','tcp_network.h'),('SendTo/RecvFrom/Broadcast','lib/net/network.h')])
prop('C22','Share and vector serialization is lossless and laid out in order',
 'Serializing a vector, a share or a list of shares writes exactly the concatenation of the element encodings and nothing beyond it; deserializing the same count from those bytes returns the same values in the same order, at any buffer alignment.',
 ['inputs','configurations'],'every element count, share size, number of shares and value',
 'No test serializes a list of shares; stride errors show only for two or more shares or other share sizes.',
 ['lib/secret_sharing/rep.h','lib/math/vec.h','lib/math/fp.h'],[('ShareToBytes/ShareFromBytes/SharesToBytes/SharesFromBytes','lib/secret_sharing/rep.h'),('vector ToBytes/FromBytes','lib/math/vec.h')])
prop('C23','Closing a network delivers everything that was sent before',
 'Every byte handed to an open asynchronous channel before it is closed is passed to its connection, in order and exactly once, before the connection is closed, for every interleaving of the sending thread with the caller (when no write fails).',
 ['schedules'],'all interleavings of caller, sender thread and close',
 'The race window between queueing and closing is a few microseconds and never hit in tests.',
 ['lib/net/channel.h','lib/net/channel.cc'],[('AsyncSenderChannel::Open/Send/Close','lib/net/channel.cc')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
