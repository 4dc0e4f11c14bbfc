"""Single source of properties.jsonl and MANIFEST.json (tools/mkprops.py)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="other"):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if na:
        d["na"] = na
    else:
        d.update(technique=technique, level=level, level_note=note)
    PROPS.append(d)


ABS = "abstract interpretation of the LLVM IR in a canonical GF(2)-polynomial / value-numbering domain"

P("C01", "SM4 block cipher is GB/T 32907 for every key and block",
  "Encrypting any 16-byte block with SM4 under any key gives the block GB/T 32907 defines, decryption gives the block the standard's decryption defines, and decrypting an encryption under the same key returns the original block, in place or not.",
  ["inputs"], "every 128-bit key and every 128-bit block", "a test samples a few of 2^256 (key, block) pairs; a wrong table entry or round constant shows for few inputs",
  ["src/sm4/sm4.c", "include/wbcrypto/sm4.h"],
  [("SM4 key schedule and rounds", "src/sm4/sm4.c: WBCRYPTO_sm4_init_key, WBCRYPTO_sm4_encrypt, WBCRYPTO_sm4_decrypt")],
  ABS, "every output bit's canonical form is compared with that of the standard's definition, key and block fully symbolic; covers all 2^256 inputs, S-box/T-tables checked entry by entry; sound up to the interpreter")

P("C02", "GCM ciphertext and tag equal NIST SP 800-38D",
  "For any key, IV, additional data and message, in either direction and however the message is split over successive calls at multiples of 16 bytes, the serial GCM interface (generic, or set up for AES, SM4 or a white-box cipher) produces exactly the ciphertext (plaintext) and the (left-truncated) tag SP 800-38D defines.",
  ["inputs", "histories"], "all data bits and the hash key symbolic; IV lengths, additional-data lengths, message lengths and chunkings enumerated, including every partial-block residue",
  "tests pin single vectors; lengths, chunk boundaries, non-96-bit IVs and byte positions inside blocks multiply beyond sampling",
  ["src/modes/gcm128.c", "include/wbcrypto/modes.h", "src/aes/aes_modes.c", "src/sm4/sm4_modes.c", "src/wbaes/wbaes_modes.c", "src/wbsm4/wbsm4_modes.c"],
  [("serial GCM", "src/modes/gcm128.c: WBCRYPTO_gcm128_setiv, _aad, _encrypt, _decrypt, _tag, _finish")],
  ABS + ", block cipher uninterpreted", "decides all data values at once; lengths and chunkings are enumerated up to several blocks, not for all lengths")

P("C03", "SM3 digest is GB/T 32905 however the input is chunked",
  "Hashing any message, in one call or through any sequence of updates (empty ones included), gives the digest GB/T 32905 defines, including the 64-bit length encoding of very long messages.",
  ["inputs", "histories"], "all message bits symbolic; message lengths and chunkings enumerated around every padding boundary; huge totals with the compression function summarised",
  "tests hash a few strings; padding boundaries, chunk splits and multi-gigabyte totals are not reached",
  ["src/sm3/sm3.c", "src/sm3/md32_common.h", "src/sm3/sm3_local.h"],
  [("SM3 init/update/final", "src/sm3/sm3.c: WBCRYPTO_sm3_init, _update, _final, WBCRYPTO_sm3")],
  ABS + " with value-numbered modular addition", "decides all data values at once for the enumerated lengths and chunkings")

P("C04", "CBC encryption follows SP 800-38A and decryption inverts it",
  "For every cipher's CBC interface, any key, IV and message, encryption yields SP 800-38A CBC over the message completed to whole blocks with PKCS#7-style bytes and reports that length, decryption inverts it block by block and reports the original length, in place or not. An output buffer that is too small, or a ciphertext that is no whole number of blocks, is refused with nothing written.",
  ["inputs"], "all key, IV and message bytes symbolic; lengths enumerated through several blocks with every residue mod 16",
  "round trips on sample strings see neither chaining errors common to both directions nor in-place aliasing, and no refusal path",
  ["src/modes/cbc128.c", "src/utils/padding.c", "src/aes/aes_modes.c", "src/sm4/sm4_modes.c", "src/wbaes/wbaes_modes.c", "src/wbsm4/wbsm4_modes.c"],
  [("CBC core", "src/modes/cbc128.c: WBCRYPTO_cbc128_encrypt, WBCRYPTO_cbc128_decrypt"), ("cipher front ends", "WBCRYPTO_{aes,sm4,wbaes,wbsm4}_cbc_encrypt/decrypt"), ("padding", "src/utils/padding.c")],
  ABS + ", block permutation uninterpreted with inverse cancellation", "decides all data values at once for the enumerated lengths; known finding: messages that fill their blocks are not padded, so their length can be misreported")

P("C05", "Keys of any length select the documented 16-byte AES/SM4 key",
  "AES and SM4 contexts given a key of n bytes behave as the 128-bit cipher under the key completed to 16 bytes with PKCS#7 padding (n<16) or cut to its first 16 bytes (n>16), read no byte beyond the n given, use it for encryption and decryption alike, and forget any key set before.",
  ["inputs", "histories"], "all key and block bytes symbolic, key lengths 0..33 and 64, re-keying",
  "tests use 16-byte keys only; short and long keys and re-keyed contexts are never compared with anything",
  ["src/aes/aes.c", "src/sm4/sm4.c", "src/utils/padding.c"],
  [("AES key set-up and block functions", "src/aes/aes.c: WBCRYPTO_aes_init_key, _encrypt, _decrypt"), ("SM4 key set-up", "src/sm4/sm4.c: aux_sm4_init_key"), ("key padding", "src/utils/padding.c: WBCRYPTO_key_padding_pkcs7")],
  ABS + ", OpenSSL's AES modelled as a keyed permutation pair", "decides all key and block values for the enumerated key lengths")

P("C06", "Parallel GCM is race-free and equals serial GCM",
  "The parallel GCM functions produce, for any thread schedule, exactly the output and tag of SP 800-38D (hence of the serial functions), no two threads access the same memory with one of them writing, and in-place operation is supported.",
  ["schedules", "inputs"], "every interleaving of the loop iterations (by independence of iterations); all data symbolic; message lengths enumerated",
  "a data race shows in few schedules and tests run one message on one schedule",
  ["src/modes/gcm_parallel.c"],
  [("parallel GCM", "src/modes/gcm_parallel.c: WBCRYPTO_gcm_parallel_encrypt, WBCRYPTO_gcm_parallel_decrypt")],
  "access-set race analysis of the outlined OpenMP regions plus " + ABS, "iterations are proved independent (so the schedule does not matter) for the enumerated message lengths")

P("C07", "Encrypted files carry and enforce their authentication tag",
  "Encrypting a file writes exactly the 16-byte GCM tag, the 8-byte plaintext length and the GCM ciphertext under the chosen cipher, leaving the input and no temporary file behind; decrypting an authentic file restores the plaintext. Decrypting a file whose tag or length field does not match its content, that is too short, or that is missing, fails.",
  ["inputs"], "all file bytes symbolic (any tag, any length field, any content); content lengths enumerated around the 128-byte chunk size",
  "tests decrypt what they just encrypted; no test presents a modified file, of which there are 2^(8n)",
  ["src/modes/gcmfile.c", "src/wbaes/wbaes_wbgcm_ee_file.c", "src/wbaes/wbaes_wbgcm_mask_file.c"],
  [("GCM files", "src/modes/gcmfile.c: WBCRYPTO_gcmfile_encrypt, WBCRYPTO_gcmfile_decrypt"), ("white-box GCM files", "src/wbaes/wbaes_wbgcm_{ee,mask}_file.c")],
  ABS + " over a symbolic file system", "decides all file contents at once for the enumerated sizes; the white-box GCM core is uninterpreted here")

P("C08", "No library call violates memory safety on well-formed arguments",
  "Called with valid contexts and buffers of the stated lengths, the cipher, hash, GCM, CBC, file and context functions never access memory outside an object or after its release, never depend on bytes that were never written, never write to const inputs or keys, and never lose memory.",
  ["inputs", "histories"], "every data value; buffer lengths, chunkings, key lengths and call sequences enumerated",
  "an over-read or a read of stale memory usually leaves the tested output unchanged; tests run without sanitizers on few lengths",
  ["src/modes", "src/sm3/sm3.c", "src/sm4/sm4.c", "src/aes/aes.c", "src/utils/padding.c", "src/wbsm4/wbsm4.c"],
  [("buffer handling of all modes", "src/modes/*.c, src/sm3/*.c, src/utils/padding.c"), ("context allocation and release", "WBCRYPTO_*_context_init/_free, WBCRYPTO_*_init/_free")],
  "byte-precise memory-state abstract interpretation (bounds, initialisation, lifetime, ownership)", "decides every data value for the enumerated lengths and call sequences; lengths beyond the enumeration are not covered")

P("C09", "Every failing allocation, file operation or block call is reported",
  "When a memory allocation of the library's own, a file operation or the block cipher fails inside a library call, the call returns its failure value (0 or NULL) instead of reporting success, does not crash, and releases what it had acquired; damaged or truncated key files are refused.",
  ["fault points", "inputs"], "every single failure point (k-th allocation, open, read, write, seek, block call) of each operation, with all data symbolic",
  "tests never make the environment fail, so no error path is executed by them",
  ["src/modes", "src/utils/keystore.c", "src/wbsm4", "src/wbaes", "src/se_wbsm4", "src/fpe/init.c", "src/sm4/sm4.c"],
  [("error paths", "WBCRYPTO_MPI_CHK / WBCRYPTO_THROW_REASON cleanup paths in every module"), ("key files", "src/utils/keystore.c, src/wbsm4/wbsm4_exkey.c"), ("encrypted files", "src/modes/gcmfile.c, src/wbaes/wbaes_wbgcm_*_file.c")],
  "fault-injecting abstract interpretation: one environment failure per abstract path", "each enumerated failure point decided for all data; several simultaneous failures are not explored")

P("C10", "Freeing a context erases its secrets and releases all it owns",
  "Freeing a cipher or GCM context (AES, SM4, white-box AES and SM4, GCM, file GCM, white-box GCM) leaves no key-dependent byte in the memory it gives back; every context's free function (FPE included) releases everything the context owns exactly once and accepts NULL.",
  ["histories"], "every value of the erased bytes; contexts fresh, keyed and used; key lengths and dummy-round counts enumerated",
  "tests never look at released memory and never measure it",
  ["src/aes/aes.c", "src/sm4/sm4.c", "src/wbaes/wbaes.c", "src/wbsm4/wbsm4.c", "src/se_wbsm4/se_wbsm4.c", "src/modes/gcm128.c", "src/modes/gcmfile.c", "src/fpe/init.c", "src/wbaes/wbaes_wbgcm_ee_mode.c", "src/wbaes/wbaes_wbgcm_mask_mode.c"],
  [("context release", "WBCRYPTO_*_context_free, WBCRYPTO_gcm_free, WBCRYPTO_gcmfile_free, WBCRYPTO_fpe_free, WBCRYPTO_wbaes_wbgcm_*_free")],
  "taint analysis of released blocks and ownership analysis on the abstract heap", "decided on the code after dead-store elimination, so a wipe the optimiser drops does not count; stack copies are outside")

WB = "abstract interpretation of table generation and block function in a GF(2) domain with uninterpreted invertible matrices and bijections; table-filling loops summarised as functions of their index"

P("C11", "White-box AES encrypts exactly like AES-128",
  "For any key (completed to 16 bytes as for AES) and any block, in place or not, encrypting with white-box AES tables generated from the key gives AES-128's ciphertext, whatever random encodings the generation drew (given that WBMatrix's generators return a matrix or permutation together with its inverse). Generating tables anew in a used context forgets the earlier key.",
  ["inputs", "random choices"], "every key, block and every choice of random matrices, permutations and numbers, all symbolic at once; key lengths enumerated",
  "the encodings are drawn afresh on each run, out of more than 2^1000; a test compares one key and block under one draw",
  ["src/wbaes/wbaes.c", "src/wbaes/wbaes_local.c", "include/wbcrypto/wbaes.h"],
  [("table generation", "src/wbaes/wbaes.c: WBCRYPTO_wbaes_gen_table"), ("block function", "src/wbaes/wbaes.c: WBCRYPTO_wbaes_encrypt")],
  WB, "decides every key, block and encoding at once: the output bits' canonical form is AES-128's; the matrix generators' inverse property is assumed, the matrix products are checked")

P("C12", "White-box SM4 encrypts and decrypts exactly like SM4",
  "For any key (completed to 16 bytes as for SM4), any block and any number and placement of dummy rounds, in place or not, white-box SM4 with tables generated for a direction gives SM4's result in that direction, whatever random encodings the generation drew (given that WBMatrix's generators return a matrix together with its inverse). Generating tables anew in a used context forgets the earlier key.",
  ["inputs", "random choices"], "every key, block and every choice of random matrices and numbers, all symbolic at once; key lengths and placements of dummy rounds enumerated",
  "the encodings and dummy placements are drawn afresh on each run; a test compares one key and block under one draw",
  ["src/wbsm4/wbsm4.c", "src/wbsm4/wbsm4_gen.c", "include/wbcrypto/wbsm4.h"],
  [("table generation", "src/wbsm4/wbsm4_gen.c: WBCRYPTO_wbsm4_gen_table"), ("block function", "src/wbsm4/wbsm4.c: WBCRYPTO_wbsm4_encrypt, WBCRYPTO_wbsm4_decrypt")],
  WB, "decides every key, block and encoding at once: the output bits' canonical form is SM4's; the matrix generators' inverse property is assumed, the matrix products are checked")

P("C13", "Self-equivalence white-box SM4 computes exactly SM4",
  "For any key (completed to 16 bytes as for SM4) and any block, in place or not, a self-equivalence white-box SM4 context made for a direction gives SM4's result in that direction, whichever of the 2039 self-equivalences and random affine maps the generation drew (given that WBMatrix's generators return a matrix together with its inverse).",
  ["inputs", "random choices"], "every key, block and random affine map, all symbolic at once; every one of the 2039 self-equivalences taken in some run; key lengths enumerated",
  "a run draws 128 of 2039 self-equivalences from a table of 36702 constants, so a wrong entry shows in one run out of sixteen; the encodings are drawn afresh each time",
  ["src/se_wbsm4/se_wbsm4.c", "src/se_wbsm4/se_wbsm4_local.c", "include/wbcrypto/se_wbsm4.h"],
  [("key set-up", "src/se_wbsm4/se_wbsm4.c: WBCRYPTO_se_wbsm4_gen_table"), ("self-equivalences", "src/se_wbsm4/se_wbsm4_local.c: SE_initial"), ("block function", "src/se_wbsm4/se_wbsm4.c: WBCRYPTO_se_wbsm4_encrypt, WBCRYPTO_se_wbsm4_decrypt")],
  "abstract interpretation in a GF(2) domain with uninterpreted invertible matrices; S-box look-ups normalised over the affine span of their index; the choice of self-equivalence partitioned exhaustively", "decides every key, block and affine map at once and every self-equivalence in some position; the matrix generators' inverse property is assumed, the matrix products are checked")

P("C14", "White-box GCM (external encodings) equals AES-128-GCM",
  "With white-box GCM tables of the external-encoding kind generated from a key (completed to 16 bytes), encrypting or decrypting any message with any IV and additional data, split over calls at multiples of 16 bytes, in place or not, on a fresh or reused context, yields the ciphertext, plaintext and tag of AES-128-GCM, whatever random encodings were drawn (given that WBMatrix's generators return a matrix or permutation with its inverse).",
  ["inputs", "random choices", "histories"], "every key, IV, additional data, message and random encoding symbolic; lengths, chunkings and context reuse enumerated",
  "the encodings are drawn afresh on each run; tests compare single vectors of few lengths with fresh contexts",
  ["src/wbaes/wbaes_wbgcm_ee_init.c", "src/wbaes/wbaes_wbgcm_ee_mode.c", "include/wbcrypto/wbaes_wbgcm_ee.h"],
  [("table generation and block function", "src/wbaes/wbaes_wbgcm_ee_init.c: WBCRYPTO_wbaes_wbgcm_ee_gen_table, aux_WBCRYPTO_wbaes_wbgcm_ee_encrypt"), ("mode", "src/wbaes/wbaes_wbgcm_ee_mode.c: WBCRYPTO_wbaes_wbgcm_ee_init, _setiv, _aad, _encrypt, _decrypt, _finish")],
  WB + "; the block function's summary replaces it inside the mode", "all data, keys and encodings at once for the enumerated lengths and histories")

P("C15", "White-box GCM (masked): both contexts agree and authenticate",
  "For the encryption and decryption tables of masked white-box GCM generated together from a key, decrypting what was encrypted with the same IV and additional data returns the message, and both sides' tag is the AES-128-GCM tag of the emitted ciphertext, each byte of which is an encoding of AES-128-GCM's ciphertext byte; whatever masks and encodings were drawn (given that WBMatrix's generators return a matrix or permutation with its inverse), split over calls at multiples of 16 bytes, in place or not, on fresh or reused contexts.",
  ["inputs", "random choices", "histories"], "every key, IV, additional data, message, mask and random encoding symbolic; lengths, chunkings and context reuse enumerated",
  "masks and encodings are drawn afresh on each run; tests print ciphertexts and compare single vectors with fresh contexts",
  ["src/wbaes/wbaes_wbgcm_mask_init.c", "src/wbaes/wbaes_wbgcm_mask_mode.c", "include/wbcrypto/wbaes_wbgcm_mask.h"],
  [("table generation and block function", "src/wbaes/wbaes_wbgcm_mask_init.c: WBCRYPTO_wbaes_wbgcm_mask_gen_table, aux_WBCRYPTO_wbaes_wbgcm_mask_encrypt"), ("mode", "src/wbaes/wbaes_wbgcm_mask_mode.c: WBCRYPTO_wbaes_wbgcm_mask_init, _setiv, _aad, _encrypt, _decrypt, _finish")],
  WB + "; the block functions' summaries replace them inside the mode", "all data, keys, masks and encodings at once for the enumerated lengths and histories")


P("C16", "FF1 and FF3 are SP 800-38G's and keep length and alphabet",
  "For radix 2 to 36, any tweak and any string of numerals of the radix (FF3: up to its maximal length), FF1 and FF3 encryption gives the string of SP 800-38G Algorithms 7 and 9 over the block function and key given at initialisation (FF3 with that key as it is and the tweak cut or zero-extended to 8 bytes), decryption gives Algorithms 8 and 10 and so returns the message; output may overlay the input. A character that is no numeral of the radix, an FF1 message shorter than 2 and a radix outside 2..36 are refused, leaving the output alone.",
  ["inputs"], "every digit, tweak and key symbolic at once; radix, length and tweak length enumerated",
  "tests use a handful of vectors; lengths at which the byte count of a half changes, long messages and leading zeros are never sampled",
  ["src/fpe/ff1.c", "src/fpe/ff3.c", "src/fpe/fpe_locl.c", "src/fpe/init.c", "include/wbcrypto/fpe.h"],
  [("FF1", "src/fpe/ff1.c: WBCRYPTO_ff1_encrypt, WBCRYPTO_ff1_decrypt"), ("FF3", "src/fpe/ff3.c: WBCRYPTO_ff3_encrypt, WBCRYPTO_ff3_decrypt"), ("numerals", "src/fpe/fpe_locl.c: map_chars, str2num, num2str"), ("contexts", "src/fpe/init.c: WBCRYPTO_fpe_init; WBCRYPTO_*_fpe_init")],
  "abstract interpretation over linear integer forms (big numbers) and finite digit domains, block function uninterpreted", "all data at once for each enumerated radix, length and tweak length; big-number arithmetic of OpenSSL is modelled")

P("C17", "FF1-CMAC and FF3-GMAC encrypt as FF1/FF3 and agree on the tag",
  "FF1-CMAC and FF3-GMAC give the same ciphertexts and plaintexts as FF1 and FF3 for the same radix, tweak, key and string, decryption returns the message, and the tag that finish reports after encrypting a message equals the one after decrypting its ciphertext and depends on the message, on fresh or reused contexts. Foreign characters, too short messages and a radix outside 2..36 are refused, leaving the output alone.",
  ["inputs", "histories"], "every digit, tweak and key symbolic at once; radix, length and tweak length enumerated",
  "tests compare one vector's tag with itself in one direction",
  ["src/fpe/ff1_cmac.c", "src/fpe/ff3_gmac.c", "src/fpe/fpe_locl.c", "src/fpe/init.c", "include/wbcrypto/fpe.h"],
  [("FF1-CMAC", "src/fpe/ff1_cmac.c: WBCRYPTO_ff1_cmac_encrypt, _decrypt, _finish"), ("FF3-GMAC", "src/fpe/ff3_gmac.c: WBCRYPTO_ff3_gmac_encrypt, _decrypt, _finish"), ("contexts", "src/fpe/init.c: WBCRYPTO_fpe_mac_init; WBCRYPTO_*_fpe_mac_init")],
  "abstract interpretation over linear integer forms (big numbers) and finite digit domains, block function uninterpreted, tags as GF(2) polynomials", "all data at once for each enumerated radix, length and tweak length; big-number arithmetic of OpenSSL is modelled")

P("C18", "FPE applications keep the format, the kept positions and invert",
  "For phone numbers, identity card numbers (a final X stays) and Chinese UTF-8 text (U+4E00 to U+9EFF), encryption replaces exactly the positions the sample marks with * (all, without a sample) by FF1 or FF3 over their digits (radix 10; Chinese characters as four base-12 digits, least significant first) with the kept characters and a final zero byte as tweak, under the cipher named at initialisation (otherwise AES; otherwise FF3) keyed with the key completed to 16 bytes; decryption undoes it. Anything else, or a sample that does not cover the input, is refused with the output left alone.",
  ["inputs"], "every digit, character, kept character and key symbolic at once; lengths, samples, ciphers and key lengths enumerated, Chinese characters partitioned by their number of base-12 digits (all combinations for two)",
  "tests print the results of a few calls and compare nothing",
  ["src/fpe_app/init.c", "src/fpe_app/phone.c", "src/fpe_app/idcard.c", "src/fpe_app/cn_utf8.c", "src/fpe_app/utf8_util.c", "include/wbcrypto/fpe_app.h"],
  [("initialisation", "src/fpe_app/init.c: WBCRYPTO_fpe_app_init"), ("phone", "src/fpe_app/phone.c: WBCRYPTO_fpe_{en,de}crypt_phone[_with_sample]"), ("identity card", "src/fpe_app/idcard.c: WBCRYPTO_fpe_{en,de}crypt_idcard[_with_sample]"), ("Chinese", "src/fpe_app/cn_utf8.c: WBCRYPTO_fpe_{en,de}crypt_cn_utf8[_with_sample]")],
  "abstract interpretation over linear integer forms and finite digit domains from the application call to the uninterpreted block function", "all data at once for each enumerated shape")

P("C19", "White-box keys survive export and import; bad key files are refused",
  "A white-box SM4 key exported to a file or a byte string and imported into a context with room for as many rounds, or more, is the same key in every table entry, and the key store writes and reads back exactly the bytes given. A file that is missing, cut off or of another kind, a key with fewer than 32 rounds or more than the context has room for, and a failing read, write or allocation are reported by status 0, without touching memory outside the context and with every stream closed.",
  ["inputs", "faults"], "every table byte a symbol of its own; modes, numbers of dummy rounds, truncations, wrong names and failing operations enumerated",
  "no test exports a key; one wrong table entry of some 800000 shows only for blocks that use it",
  ["src/wbsm4/wbsm4_exkey.c", "src/utils/keystore.c", "src/wbsm4/wbsm4.c", "include/wbcrypto/wbsm4.h", "include/wbcrypto/utils.h"],
  [("key file", "src/wbsm4/wbsm4_exkey.c: WBCRYPTO_wbsm4_key2file, WBCRYPTO_wbsm4_file2key"), ("key bytes", "src/wbsm4/wbsm4_exkey.c: WBCRYPTO_wbsm4_key2bytes, WBCRYPTO_wbsm4_bytes2key"), ("key store", "src/utils/keystore.c: WBCRYPTO_keystore_key_to_file, WBCRYPTO_keystore_file_to_key")],
  "abstract interpretation with symbolic byte provenance, a file system model and enumerated faults", "all table contents at once; sizes, truncations and faults enumerated")

P("C20", "Operations on separate contexts share no state and no hidden input",
  "Encryption, decryption, hashing, authentication, context set-up and release depend only on their arguments and the objects reached from them, and change nothing else: two operations on different contexts, in different threads or interleaved, never influence each other, and the same arguments give the same result. Table generation, which is randomised by design, and WBCRYPTO_fpe_app_init, which may generate tables, are excepted.",
  ["schedules", "histories"], "every public operation and everything it may call, all paths",
  "a shared work buffer is harmless in any single-threaded test and shows only under an unlucky interleaving",
  ["src/aes", "src/sm3", "src/sm4", "src/modes", "src/wbaes", "src/wbsm4", "src/se_wbsm4", "src/fpe", "src/fpe_app", "src/utils"],
  [("public operations", "every external function WBCRYPTO_* of the library"), ("table generators", "excepted: *_gen_table, *_gen_aes_table, *_gen_gcm_table, WBCRYPTO_fpe_app_init")],
  "interprocedural effect analysis over the compiler's intermediate representation", "sound for all paths and schedules up to the listed external functions; conservative: locks and atomics are not recognised")

P("C21", "Format-preserving encryption never violates memory safety",
  "Called with a valid context, terminated strings and an output buffer of the input's size, the FPE, FPE-MAC and FPE application functions never access memory outside an object or after its release, never depend on bytes that were never written, never write to const inputs, and never lose memory, whether they succeed or refuse the input.",
  ["inputs"], "every digit, character, tweak and key symbolic; radix, lengths, tweak lengths, samples and refused inputs enumerated, FF3 beyond its maximal length included",
  "over-reads, overflows by a terminator and leaks on refusing paths leave tested outputs unchanged; tests run without sanitizers on few lengths",
  ["src/fpe/ff1.c", "src/fpe/ff3.c", "src/fpe/ff1_cmac.c", "src/fpe/ff3_gmac.c", "src/fpe/fpe_locl.c", "src/fpe/init.c", "src/fpe_app"],
  [("FF1, FF3", "src/fpe/ff1.c, ff3.c: work buffers Q, S, Bytes"), ("MACs", "src/fpe/ff1_cmac.c, ff3_gmac.c"), ("applications", "src/fpe_app: answer, tweak and text buffers")],
  "abstract interpretation with per-byte memory model", "all data at once for each enumerated shape")

P("C22", "White-box generation and encryption never violate memory safety",
  "Called with valid contexts and buffers of the stated lengths, white-box AES, SM4 (plain and self-equivalence) and white-box GCM table generation, encryption and authentication never access memory outside an object or after its release, never depend on bytes that were never written (tables included), never write to const inputs, and never lose memory.",
  ["inputs", "random choices"], "every key, block and random encoding symbolic; key lengths, dummy placements, message lengths and chunkings enumerated",
  "a table entry read before it is written, or one row too far, changes nothing visible in most runs; tests run without sanitizers",
  ["src/wbaes/wbaes.c", "src/wbsm4/wbsm4.c", "src/wbsm4/wbsm4_gen.c", "src/se_wbsm4/se_wbsm4.c", "src/wbaes/wbaes_wbgcm_ee_init.c", "src/wbaes/wbaes_wbgcm_ee_mode.c", "src/wbaes/wbaes_wbgcm_mask_init.c", "src/wbaes/wbaes_wbgcm_mask_mode.c"],
  [("generation", "WBCRYPTO_*_gen_table"), ("block functions", "WBCRYPTO_{wbaes,wbsm4,se_wbsm4}_{encrypt,decrypt}"), ("modes", "WBCRYPTO_wbaes_wbgcm_{ee,mask}_*")],
  "abstract interpretation with per-byte memory model, random matrices uninterpreted", "all data and encodings at once for each enumerated shape")
