import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Decoders survive arbitrary hostile bytes without memory or UB errors",
"Every decoding or parsing entry point (hex, base32 text and raw, base58, base58check, base64 standard and URL-safe, bech32, varint/zigzag, address, WIF, extended-key strings, DER private key, public key, DER signature), given ANY byte string of any length and an output buffer of exactly the size the API announces, returns normally. It never reads or writes outside the buffers it was given, never executes undefined behaviour (sanitizer-visible), never trips an assertion, crashes or hangs. This includes bytes >= 0x80, strings of only '1' or '=', embedded NULs, surrounding white space, very long strings and truncated data.",
["inputs"],"all byte strings x all decoding entry points x exactly-sized output buffers, in both assert-enabled and NDEBUG builds",
"The tests decode a few dozen valid or lightly damaged NUL-terminated strings into oversized buffers with no sanitizer; an over-read or overflow on hostile input is invisible to them.",
["src/base32.c","src/base58.c","src/base64.c","src/hex.c","src/compress_integer.c","src/btc/bech32.c","src/btc/base58_check.c","src/btc/address.c","src/btc/key.c","src/btc/exkey.c"],
[("table lookups and length checks in each decoder","src/*.c"),("bounded scratch buffers","include/fingera_libc/sl/buffer.h"),("lax DER bounds checks","src/btc/key.c")],
["return of each public decode function"])

p("C02","Results depend only on the bytes passed in, never on surrounding memory",
"For every API taking pointer+length, the return value and every meaningful output byte are a function only of the given bytes and scalar arguments: no terminating NUL is needed, and whatever lies before or after the input, previously in the output buffer, on the dead stack or in recycled heap memory makes no difference, nor do earlier calls with other arguments, the process's locale, its floating-point rounding mode or errno. In particular a string view into the middle of a larger text decodes exactly like a stand-alone copy, and two identical calls at different alignments give identical results.",
["inputs","histories"],"all inputs x all contents of neighbouring memory, dead stack and recycled heap x all alignments x call histories and process states",
"Tests pass NUL-terminated literals in a fixed memory context, so dependence on the terminator, on neighbours or on uninitialised memory cannot show.",
["src/base58.c","src/base32.c","src/btc/bech32.c","src/btc/address.c","src/btc/key.c","src/btc/exkey.c","src/hash/sha2.c"],
[("length-bounded loops and scans","src/base58.c, src/base32.c, src/btc/bech32.c"),("initialisation of scratch buffers","src/base58.c, src/hash/*.c")],
["differential replay of one call in different memory contexts"])

p("C03","Published length functions and capacities bound every write exactly",
"An encoder or decoder never writes more bytes than its published length function announces for that input, and where the length is exact (hex, base32, base64, bech32, fixed-size key/hash/DER forms) it writes exactly that many; the returned count is the number of bytes produced. Functions that take an output capacity (address encoders and the address decoder) never write past that capacity, report failure instead when the result does not fit, and always succeed when the capacity is at least the announced maximum. Bytes of the caller's buffer beyond the announced size are never touched.",
["inputs"],"all inputs and sizes x all capacities from 0 to more than enough",
"Tests use large fixed buffers and compare contents, so an overrun or under-announced length by one byte passes.",
["include/fingera_libc/hex.h","include/fingera_libc/base32.h","include/fingera_libc/base58.h","include/fingera_libc/base64.h","include/fingera_libc/btc/bech32.h","include/fingera_libc/btc/base58_check.h","src/btc/address.c"],
[("length helper functions","include/fingera_libc/*.h"),("capacity tests before encoding/decoding","src/btc/address.c")],
["canary/guard page around each output buffer"])

p("C04","Hex, base32, base64 encodings are standard and round-trip for every input",
"For every byte string, hex (both cases), base32 (RFC 4648 alphabet in lower case with '=' padding, and the raw 5-bit-group form), base64 and URL-safe base64 (no padding) produce exactly the standard encoding; hex dump prints exactly the hex digits of the data in order in its fixed grouping. Decoding an encoding (either letter case for hex and base32) yields the original bytes and count.",
["inputs"],"all byte strings of all lengths",
"Tests check a handful of strings/lengths; errors confined to one residue class, one byte value or a large length are not sampled.",
["src/hex.c","src/base32.c","src/base64.c"],
[("encode tables and tail switch","src/base32.c, src/base64.c, src/hex.c"),("dump cache flush","src/hex.c")])

p("C05","Malformed hex/base32/base64 text is never decoded past the damage",
"Decoding malformed hex, base32 or base64 stops at the first group that contains a character outside the alphabet: exactly the bytes of the complete valid groups before it are returned (hex: byte pairs; base32: 8-symbol groups then the final partial group as a unit; base64: 4-symbol groups then the final partial group). A damaged text therefore never yields bytes decoded from an illegal symbol, never as many bytes as the announced length, and base64 padding is accepted only at the end while base32 text ends at its first '='.",
["inputs"],"all texts x all positions and values of damaged characters",
"Tests exercise at most a couple of bad characters; every position x 256 values x group residue is out of their reach.",
["src/hex.c","src/base32.c","src/base64.c"],
[("0xFF table sentinel checks","src/hex.c, src/base32.c, src/base64.c"),("padding handling","src/base32.c, src/base64.c")])

p("C06","Base58 is value- and leading-zero-preserving and strict",
"Base58 encoding of every byte string is the Bitcoin base58 numeral of its value with exactly one leading '1' per leading zero byte, and decoding returns the original bytes. Decoding accepts exactly strings of base58 alphabet characters with optional surrounding ASCII white space, and reports 0 for any string containing any other character (including embedded NUL and inner white space), for any length.",
["inputs"],"all byte strings and all candidate texts, including long and all-zero ones",
"Tests use about a dozen Bitcoin Core vectors; carries across the stack/heap boundary, long zero runs and invalid characters per position are not covered.",
["src/base58.c","include/fingera_libc/base58.h"],
[("big-number conversion loops","src/base58.c"),("leading zero counting","src/base58.c"),("alphabet/space checks","src/base58.c")])

p("C07","Base58Check accepts only intact payloads and round-trips them",
"For every prefix and payload, base58check encoding is base58(prefix || payload || first 4 bytes of double SHA-256), and decoding it returns prefix || payload. Decoding accepts a string exactly when it is valid base58 of at least 4 bytes whose last 4 bytes equal the first 4 bytes of the double SHA-256 of the rest; anything else reports 0.",
["inputs"],"all prefixes, payloads and candidate strings (every corrupted character, every corrupted checksum bit)",
"Tests cover fixed WIF/address vectors; they never try per-bit checksum corruption, long payloads or empty payloads.",
["src/btc/base58_check.c"],[("checksum creation and 4-byte compare","src/btc/base58_check.c")])

p("C08","Bech32 encodes and accepts exactly BIP173 strings",
"Bech32 encoding of every human-readable part and 5-bit data sequence equals the BIP173 encoding. Decoding accepts exactly BIP173-valid strings (at most 90 characters, printable, no mixed case, last '1' as separator, HRP of at least one character that fits the caller's capacity, valid checksum) with at least 0 data symbols, returns exactly the data symbols with the HRP in lower case and its exact length, and reports a negative result for every other string.",
["inputs"],"all HRPs, data sequences, strings, single and multiple character corruptions, HRP capacities",
"Tests run the BIP173 vectors only; every case/length/character-position variation and separator placement is not enumerated.",
["src/btc/bech32.c"],[("polymod checksum","src/btc/bech32.c"),("format checks","src/btc/bech32.c")])

p("C09","Addresses are faithful, unambiguous and bound to their network",
"For every chain-parameter set and every key/script hash or witness program, the produced address is the standard one (base58check P2PKH/P2SH of a payload of any length, BIP173 segwit v0 20/32-byte, v1..16 with 2..40-byte programs, refused when its prefix would take it past 90 characters) and decodes under the same parameters to the same kind and the same bytes. A string decodes successfully only if it is such a standard address for those parameters: wrong network or prefix, wrong checksum, illegal witness version or program length, non-zero or excess padding bits, mixed case and junk are all reported as bad, and no two different programs share an address.",
["inputs","configurations"],"all payloads x kinds x chain parameters (built-in and custom) x mutated strings",
"Tests iterate Bitcoin Core's fixed vectors for three networks; padding-bit malleability, versions, lengths and custom parameters are not covered.",
["src/btc/address.c","src/btc/chain_parameters.c","src/btc/bech32.c","src/base32.c"],
[("prefix compare and version/size checks","src/btc/address.c"),("5/8-bit regrouping","src/base32.c"),("network constants","src/btc/chain_parameters.c")])

p("C10","Varint and zigzag are bijective, canonical and self-delimiting for all 64-bit",
"Every uint64 (and, through zigzag, every int64 including the minimum) encodes to at most 10 bytes in Bitcoin Core's VARINT form and decodes back to itself consuming exactly the encoded bytes, whatever follows them. Distinct values have distinct encodings and no encoding is a prefix of another; truncated input, or input denoting a value beyond 64 bits, is reported as failure (0) and never as a wrong value.",
["inputs"],"all 2^64 values, all byte strings as decoder input, all truncation points",
"Tests sample powers of two and a sequential range; the overflow region, INT64_MIN and decoder-side totality are not sampled.",
["src/compress_integer.c"],[("7-bit groups with offset","src/compress_integer.c"),("sign bit folding","src/compress_integer.c")])

p("C11","SHA-1, SHA-256, SHA-512, RIPEMD-160 match their standards for every message",
"For every message of every length, the four digest functions return the digest their published standard defines, wherever the message and output lie in memory, also when the digest is written over the message, and otherwise without modifying the message. This covers every block-boundary residue and messages whose bit length exceeds 32 bits.",
["inputs"],"all messages: contents, lengths (0.. beyond 4 GiB), alignments",
"Tests use the classic vectors up to 1 MB; most length residues, unaligned buffers and bit lengths beyond 2^32 are not sampled.",
["src/hash/sha1.c","src/hash/sha2.c","src/hash/ripemd160.c","include/fingera_libc/endian.h"],
[("compression functions","src/hash/*.c"),("padding and length encoding","src/hash/*.c")])

p("C12","HMAC-SHA256 and HMAC-SHA512 match RFC 2104/4231 for every key and message",
"For every key length (shorter than, equal to, and longer than the block size) and every message, the HMAC functions return the RFC 2104 value and modify neither key nor message, unless the caller has the value written over one of them, which is allowed.",
["inputs"],"all key lengths x message lengths x contents x alignments",
"Tests use the RFC 4231 vectors: about six key/message length pairs.",
["src/hash/sha2.c"],[("key pad/hashing and inner/outer digests","src/hash/sha2.c")])

p("C13","Bitcoin hash compositions equal their definitions",
"For every input, hash160 is RIPEMD160(SHA256(x)), hash256 is SHA256(SHA256(x)), the BIP32 hash is HMAC-SHA512 keyed by the chain code over header || data || big-endian child number, and the batched 64-byte double hash writes, for every block count and independently per block, the hash256 of each 64-byte block, also in place, as a level of a Merkle tree is computed. Key identifiers and fingerprints are the hash160 of the requested public-key serialization and its first four bytes.",
["inputs"],"all inputs, block counts, child numbers and headers",
"Tests check a few vectors; the hand-unrolled batched transform is compared on few blocks, and identifiers on one or two keys.",
["src/btc/hash.c","src/hash/sha2.c","src/btc/key.c"],[("specialised double SHA-256 transform","src/hash/sha2.c"),("composition helpers","src/btc/hash.c"),("key id","src/btc/key.c")])

p("C14","WIF private-key strings round-trip and only valid ones import",
"For every valid private key, compression flag and network, the exported string is the standard WIF and re-imports to the same key and flag; importing succeeds exactly for base58check strings that carry that network's prefix, a 32-byte scalar in [1, n-1] and either nothing or the single byte 01 after it. All other strings (other network, damaged, wrong length, scalar 0 or >= n, other suffix) are refused.",
["inputs","configurations"],"all scalars (including boundary ones) x flags x networks/prefix lengths x mutated strings",
"Tests import two valid strings and one bad one; range boundaries, prefix length confusion and suffix values are not sampled.",
["src/btc/key.c","src/btc/base58_check.c"],[("prefix/size/suffix checks","src/btc/key.c")])

p("C15","Public- and private-key encodings are exact and only valid ones decode",
"For every private key, the derived public key is key*G, its 33- and 65-byte encodings are the SEC1 forms, and the 214/279-byte private-key DER encodings are the standard ECPrivateKey structures with explicit parameters; each decodes back to the same key. Decoding a public key succeeds exactly for SEC1 encodings (02/03/04, or hybrid 06/07 with right parity) of points on the curve with coordinates below p, decoding a private key only for structures carrying a scalar in [1, n-1] and yields that scalar, and requests with other sizes are refused.",
["inputs"],"all scalars, all candidate encodings including off-curve points, wrong parity, overlong lengths and trailing junk",
"Tests use four Bitcoin Core keys; invalid encodings are not exercised.",
["src/btc/key.c"],[("ec_privkey_export_der/import_der","src/btc/key.c"),("pubkey parse/serialize wrappers","src/btc/key.c")])

p("C16","Signatures are deterministic, low-R, low-S, compact and verify exactly",
"For every key and 32-byte hash, signing is deterministic and returns the RFC 6979 signature of the first attempt (no extra data, then little-endian counters 1, 2, ... as 32-byte extra data) whose R is below 2^255, with low S, and its DER encoding is strict and at most 70 bytes. Verification accepts a signature exactly when it is a valid ECDSA signature of that hash under that key, whether S is low or high: any changed bit in hash, key, r or s makes it fail.",
["inputs"],"all keys x hashes x (mutated) signatures",
"Tests sign about 272 related hashes with four keys; single-bit rejection, high-S acceptance, multi-attempt grinding and bit-exact determinism are mostly not covered.",
["src/btc/key.c"],[("low-R grinding loop","src/btc/key.c"),("S normalization before verify","src/btc/key.c")])

p("C17","Lax DER signature decoding matches Bitcoin's historical parser",
"Decoding a signature accepts and rejects exactly the byte strings Bitcoin's lax DER parser does (excess padding, long-form lengths, negative integers and trailing garbage accepted; truncated or mis-tagged data refused), and yields the same r and s, with out-of-range values yielding a signature that never verifies. Every encoding the library itself produces decodes to the signature it came from.",
["inputs"],"all byte strings as candidate signatures",
"Tests decode only well-formed signatures produced by the library plus one historical sample.",
["src/btc/key.c"],[("ecdsa_signature_parse_der_lax","src/btc/key.c")])

p("C18","BIP32 derivation is standard, and public and private branches agree",
"For every seed, key, chain code and child number, master generation and private and public child derivation give exactly the BIP32 results (key, chain code, depth+1, child number, caller-supplied fingerprint), including keys with leading zero bytes, and also when a child is derived over its parent. Deriving privately then taking the public key equals taking the public key then deriving publicly for every non-hardened child; public derivation of a hardened child, of an invalid parent key, a child whose tweak is not below the group order or whose key would be zero or the point at infinity, and derivation below depth 255 are refused rather than producing a wrong or wrapped result.",
["inputs","histories"],"all seeds/keys x child numbers x derivation paths of any depth",
"Tests follow the three BIP32 vectors; hardened refusal, depth limit, leading-zero keys and random paths are not covered.",
["src/btc/exkey.c","src/btc/key.c","src/btc/hash.c"],[("tweak-add derivation","src/btc/key.c"),("depth/child bookkeeping","src/btc/exkey.c")])

p("C19","Extended keys serialize per BIP32 and only valid strings import",
"The 74-byte form and the xprv/xpub string of every extended key are exactly the BIP32 serialization for the given network and decode back to the identical key (depth, fingerprint, child number, chain code, key). String import succeeds exactly for intact base58check strings with that network's prefix of that kind, 74 payload bytes and a valid key (xprv: zero pad byte and scalar in [1, n-1]; xpub: compressed point on the curve); all others are refused.",
["inputs","configurations"],"all extended keys x networks/prefix lengths x mutated strings",
"Tests round-trip the vector keys on mainnet; other networks, cross-kind import, invalid keys and corruption are not sampled.",
["src/btc/exkey.c"],[("field layout helpers","src/btc/exkey.c"),("prefix/size checks on import","src/btc/exkey.c")])

p("C20","Random bytes are fully filled or the process stops, under any OS behaviour",
"A successful call for n random bytes fills exactly those n bytes with fresh data from the operating system's random source, in order and with no byte reused or left unset, however the OS splits, interrupts or shortens the reads, and releases the descriptor it opened. If the source cannot be opened or read, the process terminates with a fatal diagnostic instead of continuing with missing randomness; new private keys are always valid scalars taken from that source, retrying out-of-range draws.",
["fault_sequences","inputs"],"all request sizes x all sequences of open/read outcomes (short reads, EOF, errors, interruption by signals)",
"The tests request 64 bytes once from a healthy /dev/urandom; partial reads and failures never occur there.",
["src/random.c","src/error.c","src/btc/key.c"],[("read loop","src/random.c"),("fatal exit","src/error.c"),("rejection of invalid scalars","src/btc/key.c")],
["interposed open/read/close and process exit"])

p("C21","No secret key material is left behind in stack, freed heap or static memory",
"After a call that handles secrets returns (WIF export/import, xprv export/import, private child derivation, master-key generation, base58/base58check of secrets, HMAC keyed with a secret or producing one, SHA-1/SHA-2/RIPEMD of a secret, secp context seeding), no copy (16 or more contiguous bytes; single words a compiler spills are not meant) of the secret input, the secret output, or the scratch encodings, HMAC key pads and inner hashes derived from them remains in the stack area the call used, in heap memory it freed, or in static or thread-local memory, on success and failure paths alike. The erase primitive overwrites every byte of the range it is given, even when the object is never used again, and nothing else.",
["inputs","configurations"],"all secrets and sizes (stack and heap scratch) x success/failure paths x optimisation levels",
"Tests only compare results; nothing looks at memory after the call, and an optimiser may delete the erasure.",
["src/cleanse.c","src/base58.c","src/btc/base58_check.c","src/btc/key.c","src/btc/exkey.c","src/hash/sha1.c","src/hash/sha2.c","src/hash/ripemd160.c","src/btc/hash.c"],
[("fingera_cleanse calls before return","src/**/*.c"),("compiler barrier","src/cleanse.c")],
["private stack and all static memory scanned after each call; interposed free() scanning each block"])

p("C22","The library is safe to use from many threads at once after initialisation",
"Once initialised, any number of threads may call any API concurrently on their own data, including the very first calls after initialisation: there are no data races and every call returns exactly what it returns when run alone.",
["schedules"],"all interleavings of concurrent calls from many threads, including cold start",
"The test suite is single-threaded.",
["src/**/*.c"],[("absence of mutable static state; shared read-only contexts","src/btc/key.c")],
["ThreadSanitizer reports; per-call result comparison with a serial run"])

p("C23","No call leaks memory or file descriptors, on any path",
"Every call releases all heap memory and descriptors it acquired before returning, on success and on every failure path and for every input size; initialise/uninitialise cycles can be repeated indefinitely and return to the starting footprint. No block is released twice or used after release.",
["inputs","histories"],"all inputs (valid and invalid, small and large) and all call histories including init/uninit cycles",
"Tests run once without leak checking, and rarely reach the heap branch or its error paths.",
["include/fingera_libc/sl/buffer.h","src/base58.c","src/btc/base58_check.c","src/btc/address.c","src/btc/key.c","src/random.c"],
[("FREE_BUFFER on each return","src/base58.c, src/btc/*.c"),("close in random","src/random.c"),("context destroy","src/btc/key.c")],
["interposed malloc/free balance and open descriptor count around every call"])

p("C24","Behaviour is the same in every build configuration",
"For every input the API admits (one no precondition assertion rejects), every API returns the same results whether the library is built with assertions or with NDEBUG, at any optimisation level, by gcc or clang, and whether plain char is signed or unsigned; no required effect depends on an assertion being compiled in.",
["configurations","inputs"],"all supported compilers, optimisation levels, assertion settings and char signedness x all inputs",
"The tests run in one Debug gcc build; release behaviour is never compared.",
["src/**/*.c","CMakeLists.txt"],[("side-effect-free assertions, explicit unsigned indexing, no UB","src/**/*.c")],
["transcripts of the same workload from each build"])
p("C25","Endian accessors move exactly the named bytes at any address",
"Each accessor of endian.h reads or writes exactly 4 or 8 bytes in the byte order its name says, at any address (no alignment needed), for every value and every offset of any size, whatever type the object has that the bytes belong to. It touches no other byte, evaluates each argument once, and gives the same result at every optimisation level.",
["inputs","configurations"],"all byte patterns x all alignments x all offsets x all accessors x optimisation levels",
"The tests reach the accessors only through aligned internal buffers of the hashes, in one build; misaligned, aliasing and far accesses are never made.",
["include/fingera_libc/endian.h"],[("memcpy then byte swap","include/fingera_libc/endian.h")],
["return value of each accessor and the memory around it"])

p("C26","A fatal error always ends the process, with its full diagnostic",
"fingera_fatal and FINGERA_FATAL never return: whatever message, arguments, place, errno and state of standard error (buffered, full, closed, broken), from any thread, the process ends unsuccessfully through exit, so that exit handlers run once and buffered standard output is kept. Standard error then holds, after anything written there before, the mark FATAL, the formatted message in full, the function, the file and line given, and, if errno was set at the call, its text and number; standard output gets nothing.",
["inputs","faults"],"all messages and arguments of any length x places x errno values x states of the standard streams x threads",
"A test cannot survive the call, and none of the tests starts a child to watch it.",
["src/error.c","include/fingera_libc/error.h"],[("errno saved before printing, exit(-1)","src/error.c"),("place filled in by the macro","include/fingera_libc/error.h")],
["end of the child process and the contents of its streams"])
p("C27","Answers hold in every stage of the life cycle, thread and child process",
"Codecs, digests, HMAC, varints, base58check, bech32, Bitcoin hashes and address functions need no initialisation: they answer the same before fingera_btc_key_init, while initialised and after fingera_btc_key_uninit. Once initialised, by whatever thread, every call answers correctly from any thread, in a forked child and in the parent afterwards; initialise and uninitialise may alternate any number of times, each on any thread, without changing any later answer.",
["histories","inputs"],"all histories of initialise / calls / uninitialise / fork over threads and processes x all inputs",
"The tests initialise once per process and call from one thread only.",
["src/btc/key.c","src/btc/exkey.c","src/base58.c","src/btc/base58_check.c","src/btc/address.c"],
[("contexts created, randomised and destroyed","src/btc/key.c"),("context-free codecs","src/*.c")],
["answer of each call at each stage"],"contexts created or not, thread, process")

p("C28","Calls change nothing in the process and talk only to the random source",
"Apart from its answer, a call leaves the process as it was: it writes nothing to any stream or file, makes no system call but memory management, starts no thread, and changes neither locale, floating-point mode, environment, signal handling, the state of the C library's random generators or tokenizer, nor the published network parameters. Nor does it ask for the environment, the time or the locale: nothing but the arguments decides what it does. Only random bytes, key creation and initialisation reach the operating system, and only its random source. (A fatal error is the exception, and a hex dump prints its answer on standard output.)",
["inputs"],"all calls x all inputs, valid and hostile, on success and failure",
"Tests look at answers only; a stray line on standard output, a changed locale or an extra file access goes unnoticed.",
["src/**/*.c"],[("pure computation on the caller's buffers","src/**/*.c"),("the only I/O","src/random.c, src/error.c")],
["system calls and process-wide state during each call"])
p("C29","Cost is bounded: constant stack, linear heap, linear (base58 square) time",
"For every call and input, hostile ones included, stack use stays below 64 KiB and does not grow with the input, the heap held at any moment is at most a small multiple of the input length, and the time taken grows at most linearly with the input length (with its square only where base58 digits or bytes are converted; white space, leading zeros and ones, junk and every other codec, digest and parser stay linear). So a long text can neither exhaust a small thread stack nor stall the caller.",
["inputs"],"all calls x inputs of all lengths and shapes",
"The tests use inputs of a few dozen bytes on a large stack, where neither growth nor depth shows.",
["include/fingera_libc/sl/buffer.h","src/base58.c","src/btc/base58_check.c","src/btc/address.c","src/btc/key.c","src/btc/exkey.c","src/hex.c","src/base32.c","src/base64.c"],
[("stack buffer of 128 bytes, heap above","include/fingera_libc/sl/buffer.h"),("single pass loops","src/*.c")],
["stack depth, peak heap and CPU time of each call"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
