#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json
H='include/boost/hash2/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':[H+f for f in files],'mechanism':[{'name':n,'where':H+w} for n,w in mech]}
    if state: a['state']=[dict(name=x,meaning=x,where=H+files[0]) for x in state]
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
LEGA=['legacy/murmur3.hpp','legacy/spooky2.hpp']
ALG=['md5.hpp','sha1.hpp','sha2.hpp','ripemd.hpp','siphash.hpp','xxhash.hpp','fnv1a.hpp']
p('C01','Splitting a message into update calls never changes the outcome',
 'For every hash algorithm (the legacy ones and HMAC included), feeding a message by any sequence of update calls whose concatenated bytes are the same, including empty and one-byte pieces, puts the object in an equivalent state: every later result is the same. The bytes appended by an update are exactly the n bytes it was given, in order.',
 ['inputs','histories'],'all messages, all ways of cutting them into update calls, all prior states of the object (any number of bytes already buffered)',
 'tests try a few messages and a few fixed chunk sizes; there are unboundedly many messages and cuts, and the error typically needs one particular combination of buffered length and piece length',
 ALG+LEGA+['hmac.hpp'],[('block buffering in update','md5.hpp'),('sha2_base::update','sha2.hpp'),('siphash update','siphash.hpp'),('xxhash update','xxhash.hpp')],
 ['chaining words','partial-block buffer','byte counters'],['value returned by result() after the updates'])
p('C02','MD5 and SHA-1 digests equal the published standards',
 'For every message shorter than 2^61 bytes, the first result of a default-constructed MD5 object is the RFC 1321 digest of the message, and that of a default-constructed SHA-1 object is the FIPS 180-4 digest: padding, 64-bit length field, byte order, compression and output order included.',
 ['inputs'],'all messages of all lengths below 2^61 bytes','test vectors cover a few dozen messages; padding and length-field errors hide at particular lengths (e.g. 55..64 mod 64, or above 2^29 / 2^32 bytes) that tests do not or cannot reach',
 ['md5.hpp','sha1.hpp'],[('transform','md5.hpp'),('result','md5.hpp'),('transform','sha1.hpp'),('result','sha1.hpp')],None,['digest returned by result()'])
p('C03','SHA-2 digests equal FIPS 180-4 for all six variants',
 'For every message shorter than 2^61 bytes, the first result of a default-constructed SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 or SHA-512/256 object is the FIPS 180-4 digest of the message under that variant (initial values, padding, length field, compression, truncation and byte order).',
 ['inputs'],'all messages of all lengths below 2^61 bytes','test vectors cover a few dozen messages; boundary lengths (e.g. 111..128 mod 128) and lengths above 2^29 or 2^32 bytes are not reached',
 ['sha2.hpp'],[('sha2_256_base / sha2_512_base transform','sha2.hpp'),('sha2_base::update and result','sha2.hpp')],None,['digest returned by result()'])
p('C04','RIPEMD-128 and RIPEMD-160 digests equal the published algorithms',
 'For every message shorter than 2^61 bytes, the first result of a default-constructed RIPEMD-128 or RIPEMD-160 object is the digest defined by Dobbertin, Bosselaers and Preneel for that message, including padding and the 64-bit little-endian length field.',
 ['inputs'],'all messages of all lengths below 2^61 bytes','test vectors cover about ten messages per variant',
 ['ripemd.hpp'],[('transform','ripemd.hpp'),('result','ripemd.hpp')],None,['digest returned by result()'])
p('C05','SipHash-2-4 and HalfSipHash-2-4 compute the keyed hash',
 'For every 16-byte key (8-byte for the 32-bit variant) and every message, the first result of an object built from that key is SipHash-2-4 (HalfSipHash-2-4) of the message under the key. Every 64-bit integer seed acts as the documented key: the seed bytes in little-endian order, followed by eight zero bytes in the 64-bit variant.',
 ['inputs'],'all keys, all integer seeds, all messages','tests sample a few keys and message lengths',
 ['siphash.hpp'],[('init, sipround, update, result','siphash.hpp')],None,['value returned by result()'])
p('C06','xxHash-32 and xxHash-64 compute XXH32 and XXH64 for every seed',
 'For every message and seed, the first result of an xxHash-64 object is XXH64(message, seed), and that of an xxHash-32 object built from a seed below 2^32 is XXH32(message, seed), across all lengths: short input, whole stripes and every tail length.',
 ['inputs'],'all messages (below 2^32 bytes where the published function takes the length modulo 2^32), all seeds','tests sample a few lengths and seeds; the tail-handling paths depend on length modulo 16/32',
 ['xxhash.hpp'],[('init, round, update_, update, result','xxhash.hpp')],None,['value returned by result()'])
p('C07','FNV-1a computes the published hash',
 'For every message, the first result of a default-constructed 32- or 64-bit FNV-1a object is the FNV-1a hash of the message with the published offset basis and prime; each repeated result is the previous value xored with 0xFF and multiplied by the prime.',
 ['inputs','histories'],'all messages; any number of results','tests sample short strings',
 ['fnv1a.hpp'],[('update and result','fnv1a.hpp')],None,['value returned by result()'])
p('C08','HMAC equals RFC 2104 for every key and message',
 'For every provided hash with a block size, every key (shorter than, equal to or longer than a block, or empty) and every message, the first result of the HMAC object is H((K xor opad) || H((K xor ipad) || message)), where K is the key zero-padded to the block size, or the digest of the key if it is longer than a block.',
 ['inputs'],'all keys of all lengths, all messages, all ten hash algorithms that have an HMAC alias','tests sample a few keys and messages; the boundary key lengths (block-1, block, block+1) matter per hash',
 ['hmac.hpp'],[('hmac::init, update, result','hmac.hpp')],None,['value returned by result()'])
p('C09','Seeding rules: seed 0 and empty sequence are default construction',
 'For every algorithm (legacy ones included) and HMAC, construction from integer seed 0 or from an empty byte sequence equals default construction. For MD5, SHA-1, SHA-2 and RIPEMD a nonzero integer seed equals default construction, update with the 8 seed bytes in little-endian order, then a discarded result; a nonempty byte sequence equals default construction, update with the sequence, then a discarded result; for FNV-1a the same without the result call, and for HMAC a nonzero integer seed is the 8-byte little-endian key.',
 ['inputs'],'all 64-bit seeds, all byte sequences of all lengths','tests compare a handful of seed values',
 ALG+['hmac.hpp'],[('constructors','md5.hpp'),('constructors','sha2.hpp'),('constructors','hmac.hpp'),('byte-sequence constructor','siphash.hpp'),('byte-sequence constructor','xxhash.hpp')],None,['state and results of the constructed object'])
p('C10','Distinct seeds give distinctly initialised instances',
 'For SipHash, HalfSipHash and xxHash-64, constructing from two different 64-bit integer seeds gives two different internal states, and so do two different keys of 16 bytes (8 for HalfSipHash). For xxHash-32 any two seeds below 2^32 give different states.',
 ['inputs'],'all pairs of seeds, all pairs of keys','there are 2^128 pairs; a lossy seed mixing survives any sample of seeds',
 ['siphash.hpp','xxhash.hpp'],[('seed constructors','siphash.hpp'),('seed constructors','xxhash.hpp')],None,['object state after construction'])
p('C11','Results are a function of the call history; calls after result are defined',
 'After result, further update and result calls are well defined and the values they give depend only on the construction arguments and the sequence of bytes and result calls so far, never on how bytes were cut, on stale buffer contents or on memory addresses; the second and later results follow from the finalised state exactly as the code finalises a message extended by its padding. A copy of an object behaves exactly like the original and the two are independent.',
 ['histories','inputs'],'all interleavings of update and result on an object and its copies','tests call result at most twice on few inputs',
 ALG+['hmac.hpp'],[('result leaves a well-formed state','md5.hpp'),('result','xxhash.hpp'),('result','siphash.hpp'),('result','hmac.hpp')],None,['second and later results; results of copies'])
p('C12','Buffered message bytes are erased',
 'After result returns, the internal buffer of every block-buffering algorithm (MD5, SHA-1, SHA-2, RIPEMD, SipHash, xxHash, MurmurHash3, SpookyHash V2) is all zero bytes. In MD5, SHA-1, SHA-2 and RIPEMD objects, at any time after update returns, the buffer holds only bytes of the current unfinished block, the rest being zero.',
 ['histories','inputs'],'all messages and call sequences','no test inspects object memory; leftovers appear only for particular buffered lengths',
 ['md5.hpp','sha1.hpp','sha2.hpp','ripemd.hpp','siphash.hpp','xxhash.hpp'],[('"clear buffered plaintext" in update and result','md5.hpp'),('result','siphash.hpp'),('result','xxhash.hpp')],['partial-block buffer'],['bytes of the object representation'])
p('C13','Hashing is memory safe and free of undefined behaviour',
 'For every valid object and every update(p, n) with n readable bytes at p (p may be null when n is 0), and for constructors, result and digest operations, the library reads only those n bytes, writes only inside the object and its own locals, fails no internal assertion and executes no undefined operation (overflow, bad shift, null or overlapping block copy, uninitialised read).',
 ['inputs','histories'],'all reachable object states, all lengths n below 2^60, any alignment of p','sanitised tests see only the lengths they run; an out-of-range access may need one buffered-length / piece-length pair',
 ALG+['hmac.hpp','digest.hpp','detail/memcpy.hpp','detail/memset.hpp','detail/read.hpp','detail/write.hpp','detail/rot.hpp'],[('update','sha2.hpp'),('memcpy, memset','detail/memcpy.hpp'),('read, write','detail/read.hpp')],None,['memory accesses and assertion calls'])
p('C14','Compile-time hashing gives the run-time value',
 'For every algorithm, update, result and the constructors taken on the constant-evaluation path compute exactly the state and result of the run-time path, so a hash computed in a constant expression equals the one computed at run time for the same calls; the same holds for object messages of arrays, ranges and scalars, and for digest comparison.',
 ['inputs','configurations'],'all messages, states and lengths, both evaluation modes','a test can only constant-evaluate a fixed set of literals',
 ALG+['detail/memcpy.hpp','detail/memset.hpp','detail/memcmp.hpp','detail/bit_cast.hpp','detail/is_constant_evaluated.hpp','hash_append.hpp'],[('is_constant_evaluated branches','detail/memcpy.hpp'),('hash_append_range_','hash_append.hpp'),('bit_cast','detail/bit_cast.hpp')],None,['results in constant expressions'])
p('C15','Hash values do not depend on the platform byte order or word size',
 'The values computed by every hash algorithm (MurmurHash3 and SpookyHash V2 with 64-bit size types only), and the messages of the little-endian and big-endian flavors, are the same on little-endian and big-endian targets and on targets with 32-bit and 64-bit size types, for the same bytes or values.',
 ['inputs','configurations'],'all messages; targets x86-64, i386, and 64- and 32-bit big-endian','the test suite runs on one target only',
 ALG+['detail/read.hpp','detail/write.hpp','flavor.hpp','endian.hpp','hash_append.hpp'],[('read/write in fixed byte order','detail/read.hpp'),('write','detail/write.hpp'),('is_contiguously_hashable','is_contiguously_hashable.hpp')],None,['results on each target'])
p('C16','Scalars are hashed as their bytes in the flavor byte order',
 'Hashing an integer, character, bool, enumeration or pointer value passes to the algorithm exactly the bytes of its value representation (an enumeration as its underlying type, a pointer as its address integer), sizeof(T) of them, in the byte order named by the flavor: native, little or big.',
 ['inputs','configurations'],'all values of all scalar types, all flavors','tests hash a few values per type',
 ['hash_append.hpp','detail/write.hpp','flavor.hpp'],[('do_hash_append for integral, enum, pointer','hash_append.hpp'),('write','detail/write.hpp')],None,['bytes passed to update'])
p('C17','Floating-point values hash by value, with +0 and -0 equal',
 'Hashing a float or double that is not a NaN passes the bytes of its IEEE representation in the flavor byte order, except that negative zero is hashed as positive zero: values that compare equal give the same message and values that compare different give different messages.',
 ['inputs'],'all float and double values except NaN','tests hash a few values',
 ['hash_append.hpp','detail/bit_cast.hpp'],[('do_hash_append for floating point','hash_append.hpp')],None,['bytes passed to update'])
p('C18','Ranges hash as elements in order, then size for dynamic-size ranges',
 'Hashing a range passes the messages of its elements in iteration order, each once, followed, for ranges whose size is not part of the type, by the element count as the flavor size type; ranges whose size is part of the type append no size (an empty one gives one zero byte). This holds for arrays, contiguous, random-access, forward and single-pass ranges of every length, including empty ones.',
 ['inputs'],'all element values and all range lengths','tests use a few short containers',
 ['hash_append.hpp','has_constant_size.hpp','flavor.hpp'],[('hash_append_range, hash_append_sized_range, hash_append_size','hash_append.hpp')],None,['bytes passed to update'])
p('C19','Object messages are never empty and never ambiguous',
 'Hashing any supported object, even an empty container, an empty array or a class without members, passes at least one byte to the algorithm. For types built from scalars, non-NaN floating-point values (with +0 and -0 the same value), fixed-size arrays, ordered ranges shorter than the range of the flavor size type, pairs, tuples and described classes, the message of a value determines the value, so distinct values, e.g. ranges of different lengths or the same elements split differently between two members, never give the same message.',
 ['inputs'],'all pairs of distinct values of the supported type shapes','an ambiguity needs a specific pair of values that no test happens to choose',
 ['hash_append.hpp','has_constant_size.hpp'],[('"must always result in a call to Hash::update"','hash_append.hpp'),('hash_append_size','hash_append.hpp')],None,['bytes passed to update'])
p('C20','Unordered ranges hash independently of iteration order',
 'Hashing an unordered range gives the same resulting state for every order in which the elements are enumerated: it appends the 64-bit sum, modulo 2^64, of the integral results of the hash of each element computed on a copy of the incoming state, followed by the element count as the flavor size type.',
 ['inputs','histories'],'all element multisets, all permutations, all incoming hash states','orders depend on bucket layout; tests compare a few containers',
 ['hash_append.hpp','get_integral_result.hpp'],[('hash_append_unordered_range','hash_append.hpp')],None,['state of the algorithm afterwards'])
p('C21','Composite objects hash as their parts, in declaration order',
 'Hashing a pair, tuple, described class (bases first, then members), nested aggregate of these, or class with a user-supplied hash hook passes exactly the messages of its components in declaration order, once each, and nothing else; a class or tuple without components gives one zero byte.',
 ['inputs','programs'],'all values of representative tuple, described and hooked types at every nesting used','tests fix a few literal values',
 ['hash_append.hpp','detail/has_tag_invoke.hpp'],[('hash_append_tuple, described classes, tag_invoke','hash_append.hpp')],None,['bytes passed to update'])
p('C22','Integral results are uniform: identity, bijective mixing or low 8 bytes',
 'Obtaining an integer of type T from a hash value follows the documented rule for every pair of widths: same width returns the value, narrowing and widening multiply by the fixed odd constant for the pair (narrowing keeps the top bits of the product, widening is injective), and an array-like value of at least 8 bytes yields its first 8 bytes little-endian, truncated to T. The rule is the same for signed and unsigned T.',
 ['inputs'],'all hash values for all (result width, T width) pairs','tests check a few values per pair',
 ['get_integral_result.hpp','detail/read.hpp'],[('get_integral_result, get_result_multiplier','get_integral_result.hpp')],None,['returned integer'])
p('C23','Digests compare by content and print as exact lowercase hex',
 'Two digests are equal exactly when all their bytes are equal. Conversion to characters writes exactly the 2N lowercase hexadecimal digits, high nibble first, writes nothing and returns null if the output range is shorter than 2N, and the string and stream forms give the same digits; element access and iteration expose exactly the N bytes.',
 ['inputs'],'all digest values of each size used by the library, all output lengths','tests compare a few digests',
 ['digest.hpp','detail/memcmp.hpp'],[('operator==, to_chars, to_string','digest.hpp')],None,['comparison results and characters written'])
p('C24','Hashing contiguous data at once equals hashing it element by element',
 'Whenever the library hashes an object or an array of objects by passing their storage in one update, the bytes are exactly those it would pass by hashing the elements one by one under the same flavor; types whose storage is not their message (padding, floating point, other byte order, wide types under a foreign flavor) are never hashed that way.',
 ['inputs','configurations'],'all values and lengths, all flavors, the scalar, enum, array and class types used','equality of the two paths must hold for all values; tests compare a few',
 ['hash_append.hpp','is_contiguously_hashable.hpp','is_trivially_equality_comparable.hpp','is_endian_independent.hpp'],[('is_contiguously_hashable','is_contiguously_hashable.hpp'),('hash_append, hash_append_range_','hash_append.hpp')],None,['bytes passed to update'])
p('C25','Legacy MurmurHash3 and SpookyHash V2 compute the published functions',
 'For every message shorter than 2^31 bytes and however it is split into updates, the first result of a legacy murmur3_32 object built from a seed below 2^32 is MurmurHash3_x86_32(message, seed), that of a murmur3_128 object built from one seed is MurmurHash3_x64_128 started from that seed (extended to 64 bits), and that of a spooky2_128 object built from one or two 64-bit seeds is SpookyHash V2 Hash128(message, seed1, seed2) with an absent second seed being 0. A byte sequence given to the constructor acts as follows: its leading bytes (up to 4 for murmur3_32, 16 for the others), zero-padded and read in little-endian order, are the seed (for murmur3_128 up to 8 bytes are one seed, more are two); any further bytes are absorbed by update and a result is discarded.',
 ['inputs','histories'],'all messages, seeds and splits','tests sample a few lengths',
 ['legacy/murmur3.hpp','legacy/spooky2.hpp'],[('update_, update, result','legacy/murmur3.hpp'),('mix, short_hash, update, result','legacy/spooky2.hpp')],None,['value returned by result()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
try:
    import jsonschema
    S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P:
        jsonschema.validate(x,S)
except ImportError: pass
print(len(P))
