"""What each property's check runs: harness files, bounds, resource estimates."""

KEYS64 = 'every 256-bit key and every substitution table (32 + 64 symbolic bytes)'
PROPS = {
 'C01': dict(harness=['kuz_cipher', 'again'],
    bounds='every key (32 symbolic bytes) and every plaintext block (16 symbolic bytes), all ten rounds; no loop is cut; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)',
    outside='nothing about the function itself; time and memory use are not considered'),
 'C02': dict(harness=['kuz_prim', 'again'],
    bounds={'quick': 'every input of each block transform (one or two symbolic 128-bit blocks); iteration constants C1..C32 all, round-key steps from every state; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)',
            'thorough': 'as quick, and the full key schedule step for every iteration and every state'},
    outside='the step of the key schedule at the quick tier is decided for the iterations stated in the harness; C01 decides the whole schedule as used by encryption'),
 'C03': dict(harness=['kuz_stream', 'again', 'klens'],
    bounds={'quick': 'counter mode over 1..4 blocks with a fixed key and over 1..2 blocks with every key, every 64-bit nonce half and every block value; with fixed key and two nonces and any data, all of 260 blocks, and the last four of 65538; every stream of 0..24 words with the RFC key and one nonce; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)',
            'thorough': 'as quick with up to 6 blocks with any nonce and all of 1100 blocks with two'},
    outside='positions from 260 to 65533 and from 65538 on; other keys and nonces beyond the first blocks'),
 'C04': dict(harness=['kuz_stream', 'again', 'far', 'klens'],
    bounds={'quick': '1..3 full blocks with every key, up to 4 with the RFC key, short last blocks of every size, odd numbers of words; 19 and 20 blocks with all but the last fixed; every stream of 1..14 words with the RFC key, all fixed but the last word; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function',
            'thorough': 'as quick with up to 6 blocks for the fixed key, 139 and 140 with all but the last fixed'},
    outside='longer messages; the empty stream (known finding)'),
 'C05': dict(harness=['hex', 'again'],
    bounds={'quick': 'every digit string, in either case, of every length 0..32 (128-bit blocks), 0..16 (64-bit blocks), 64 (keys); two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)',
            'thorough': 'as quick, and the whole lazily loaded 64-bit-cipher key'},
    outside='characters that are not hexadecimal digits (see C21); longer texts'),
 'C06': dict(harness=['kuz_stream', 'again', 'far', 'klens'],
    bounds='streams of 0..9 64-bit words with symbolic contents; every iteration depth up to two past the end; the stream released at every point of the iteration; every stream of 0..133 words in order, and 1..24 words from every offset and with two iterators in turn; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function',
    outside='longer streams; sizes that are not a multiple of 8 bytes are rounded as documented in the harness'),
 'C07': dict(harness=['magma_cipher', 'again'],
    bounds=KEYS64 + ', every block, all 32 rounds; no loop is cut; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)', outside='nothing about the function itself'),
 'C08': dict(harness=['magma_cipher', 'again'],
    bounds=KEYS64 + ', every block, all 32 rounds in both directions; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)', outside='nothing about the function itself'),
 'C09': dict(harness=['magma_cipher', 'magma_mac', 'again'],
    bounds='every 32-bit word, every table, every 64-bit block, every shift 1..31; no loop is cut; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)',
    outside='shifts by 0 and by 32 or more'),
 'C10': dict(harness=['ecb', 'deep', 'again', 'far', 'huge', 'lens'],
    bounds={'quick': KEYS64 + '; 0..4 blocks, every division into two block-aligned writes, read sizes 8, 13, 18; data of 0..31 bytes with read sizes 0..9, 13, 16, 17, 24, 31, 100. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes; reads of 2^31 - 1 to 2^32 + 5 bytes from short data; over any round function every message of 0..22 blocks in every two pieces; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with up to 8 blocks, and 400 blocks over any round function'},
    outside='longer messages'),
 'C11': dict(harness=['cfb_gost89', 'deep', 'again', 'far', 'lens'], bounds={'quick': KEYS64 + ', every IV; messages of 0..17 bytes with every division into two writes, 0..10 with every division in three, up to 6 blocks +-1 byte in one piece, and one write from every reachable state. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes, in five patterns of writes; Over any round function every message of 0..264 bytes in one piece, and 261 and 264 bytes with every first piece; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with 25, 12 and 10 blocks, and 400 blocks over any round function'},
    outside='longer messages except by the state-step entry'),
 'C12': dict(harness=['cfb_gost89', 'deep', 'again', 'far', 'huge', 'lens'], bounds={'quick': KEYS64 + ', every IV; ciphertexts of 0..17 bytes with every read size, 0..10 with every pair of read sizes, up to 6 blocks +-1 byte, and one read from every reachable state. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes, in five patterns of reads; reads of 2^31 - 1 to 2^32 + 5 bytes from short data; Over any round function every ciphertext of 0..264 bytes in one read, and 261 and 264 bytes with every first read; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with 25, 12 and 10 blocks, and 400 blocks over any round function'},
    outside='longer messages except by the state-step entry'),
 'C13': dict(harness=['cfb_magma', 'deep', 'again', 'far', 'lens'], bounds={'quick': KEYS64 + ', every two-block IV; messages of 0..17 bytes with every division into two writes, 0..10 with every division in three, up to 6 blocks +-1 byte in one piece, and one write from every reachable state. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes, in five patterns of writes; Over any round function every message of 0..264 bytes in one piece, and 261 and 264 bytes with every first piece; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with 25, 12 and 10 blocks, and 400 blocks over any round function'},
    outside='longer messages except by the state-step entry'),
 'C14': dict(harness=['cfb_magma', 'deep', 'again', 'far', 'huge', 'lens'], bounds={'quick': KEYS64 + ', every two-block IV; ciphertexts of 0..17 bytes with every read size, 0..10 with every pair of read sizes, up to 6 blocks +-1 byte, and one read from every reachable state. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes, in five patterns of reads; reads of 2^31 - 1 to 2^32 + 5 bytes from short data; Over any round function every ciphertext of 0..264 bytes in one read, and 261 and 264 bytes with every first read; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with 25, 12 and 10 blocks, and 400 blocks over any round function'},
    outside='longer messages except by the state-step entry'),
 'C15': dict(harness=['magma_mac', 'deep', 'again', 'far', 'lens'], bounds={'quick': KEYS64 + '; 1..4 full blocks, partial messages up to 27 bytes, several source shapes. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes; over any substitution every message of 0..264 bytes; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with up to 8 blocks, and 400 blocks over any substitution'},
    outside='longer messages; the empty message'),
 'C16': dict(harness=['magma_mac', 'deep', 'again', 'far', 'lens'], bounds={'quick': KEYS64 + '; messages of 0..33 bytes. Over any round function at all (an uninterpreted function given through the public interfaces): up to 96 blocks less 0..8 bytes; over any substitution every message of 0..264 bytes; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again); one message of 66003 bytes (258 blocks for MACs and chained modes of the 128-bit cipher), all fixed but its last 8 bytes, over a simple fixed round function', 'thorough': 'as quick with 0..65 bytes, and 400 blocks over any substitution'},
    outside='longer messages'),
 'C17': dict(harness=['ecb', 'again'], bounds='every container key (32 symbolic bytes) and table (64 symbolic bytes), ciphertexts of 0..2 blocks, messages of two blocks; two or three objects with different keys, tables, initial values or data in one process, the first kept or released (and its addresses used again)', outside='non-zero masks: the code leaves the mask as a to-do and applies none; longer data (blocks are independent, see C10)'),
 'C18': dict(harness=['misc'], bounds='every block and key value; 0..3 failed loads before a good one, at every use', outside='concurrent evaluation of one cache from several threads'),
 'C19': dict(harness=['misc', 'tree'], bounds={'quick': 'every key, IV and message byte; two continuations of one object, in both orders, with the write and read sizes in the harness; over any round function, every tree of three writes or reads (five next() or iter() calls on in-memory streams, three on counter-mode streams), each of 0 to 11 bytes on any object obtained so far', 'thorough': 'as quick with trees of four operations'}, outside='larger trees; concurrent use'),
 'C20': dict(harness=['misc', 'life'], bounds='every constructor of the library, with every argument overwritten and released before the object is used, and copies of objects that were used or not and released (texts and 128-bit keys fixed, everything else arbitrary); every key and message byte at the lengths in the harness; every entry of every other check is also subject to the memory checks', outside='longer messages; allocation failure'),
 'C21': dict(harness=['misc'], bounds='key texts of 0..80 digits, native keys of 0..8 words, container keys of 0..66 bytes, block texts of 0..69 digits; any one character that is not a digit at every position of every length; every 32-bit index; a fault at any one of the operations of the underlying source, sink or key, then a retry', outside='more than one fault in a run; several bad characters at once, except that one of them is enough'),
 'C22': dict(harness=['depth'], bounds={'quick': 'messages of 67 blocks against 3, any contents (128-bit cipher: any last block), in one call and block by block', 'thorough': 'messages of 130 blocks against 3'}, outside='growth of less than 9 calls over the additional blocks; stack used inside one call; the constructors of standard containers'),
 'C23': dict(harness=['keys'], bounds='every round function of (index, 32-bit word), every key store and every substitution, as uninterpreted functions; every block, IV and message of 0..24 bytes', outside='implementations that throw (see C21) or that change their answers'),
}
DEFS = {
 'quick': [],
 'thorough': ['-DTHOROUGH', '-DMAXLEN=25', '-DMAXLEN3=12', '-DMAXBLK=6', '-DMAXBLOCKS=8'],
}
OVERRIDES = {}
# harnesses and entries that may stay undecided
EXTRA = {'deep', 'far', 'huge', 'lens', 'klens', 'c04_mac_anykey3', 'c05_mag_lazykey_word'}
# GB at the quick tier, where more than the default
MEM = dict(c01_encrypt=3.2, c01_blkencrypted=3.2, c02_iterkey=1.2, c03_ctr_anykey=3.2, c03_ctr_fixedkey=1.4, c03_ctr_custom=1, c04_mac_anykey1=6.2,
  c04_mac_anykey2=4.8, c04_mac_anykey3=9, c04_mac_fixedkey=4.4, c04_mac_fixedkey2=4.2, c04_mac_short=1.4, c04_lens=3.6, c15_lens=2.2, c20_copy_streams=2.2, c20_lent_kuz_streams=2.2, c04_mac_short_anykey=4.8, c04_mac_odd=1.6,
  c05_kuz_key=3.6, c15_mac_partial_std=2.8, c20_lengths=2.8, c15_deep=2.6, c16_deep=1, c11_deep=1, c13_deep=0.8, c22_mag_imit=1, c22_sink_gost89=1, c04_mac_long=1.5, c01_again=2.6, c04_again=2.4, c03_again=1.2, c11_sink_long=2.6, c12_source_long=2.6, c13_sink_long=2.6, c14_source_long=2.6)
MEM_T = dict(c15_deep=12, c16_deep=6, c11_deep=6, c13_deep=6, c02_iterkey=8, c05_mag_lazykey=4)
TIME = {}
COST = dict(c19_tree_iter_ctr=60, c19_tree_source_magma=50, c19_tree_source_gost89=50, c19_tree_sink_gost89=30, c19_tree_sink_magma=30, c04_far=20, c10_far_source=25, c11_far=15, c12_far=20, c13_far=15, c14_far=25, c15_far=10, c01_again=50, c04_again=25, c03_again=20, c04_mac_long=30, c03_ctr_far=40, c03_ctr_long=40, c11_deep=20, c12_deep=20, c13_deep=20, c14_deep=20, c15_deep=20, c04_mac_anykey3=100, c04_mac_short_anykey=90, c04_mac_anykey2=70, c04_mac_anykey1=70, c04_mac_fixedkey=60, c03_ctr_anykey=50, c03_ctr_custom=50, c05_kuz_key=50)
REACH = {
 'c01_encrypt': ['encrypted'], 'c01_blkencrypted': ['encrypted'],
 'c07_blkencrypted': ['encrypted'], 'c07_encryptionbase': ['encrypted'], 'c07_blkdecrypted': ['decrypted'], 'c07_r3412': ['encrypted'],
 'c10_sink_unaligned': ['accepted', 'refused'], 'c10_source_unaligned': ['small read', 'large read'],
 'c18_keycached': ['end', 'failed'],
 'c21_kuz_key_size': ['accepted', 'refused'],
 'c21_magma_key_size': ['accepted', 'refused'], 'c21_magma_key_use': ['accepted', 'refused'],
}
ASSUMPTIONS = [
 'the LLVM IR of clang 18 at -O1 -disable-llvm-passes (sroa, early-cse, simplifycfg) stands for the sources; the library is shipped with gcc, and witnesses of explored paths are re-run in a gcc build',
 'the C++ runtime is replaced by models (allocation, exceptions, shared_ptr counting without threads, string and number formatting) in models/model.cpp',
 'little-endian host; allocation succeeds; single thread',
 'the engine, its rewriting rules (a sample of the steps is re-proved by z3 on every run) and z3 itself',
]
