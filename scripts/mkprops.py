import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
S3=['hash/sha3/sha3.go','hash/sha3/shake.go','hash/sha3/xor_unaligned.go','hash/sha3/xor_generic.go']
def sidh(*names): return ['dh/sidh/internal/%s/%s'%(q,n) for q in ('p434','p503','p751') for n in names]
p('H01','SM3 digest is a function of the message only, however it is fed',
 'For every message and every way of splitting it into Write calls (including empty ones), the SM3 object returns the digest that the SM3 standard defines for the whole message: padding, bit length and block chaining are right for every length. Resetting an object, or using one that already processed other data and was reset, gives the same digest as a fresh object.',
 ['inputs','histories'],'every message content and every split of it into writes, with lengths around all block and padding boundaries; any earlier use followed by Reset',
 'Tests hash a handful of vectors in one or two writes; padding and buffering depend on length modulo 64 and on the split of the writes.',
 ['hash/sm3/sm3.go'],[('partial-block buffering in Write','hash/sm3/sm3.go'),('padding on a copy of the state in Sum','hash/sm3/sm3.go')],
 [('len/b/h','bytes seen, partial block, chaining value','digest struct in hash/sm3/sm3.go')],['sm3.New().Write/Sum/Reset'])
p('H02','SM3 compression equals the standard for every block and chaining value',
 'For every 256-bit chaining value and every 512-bit block, processing the block yields exactly the chaining value the SM3 standard prescribes, and processing several consecutive blocks equals processing them one at a time.',
 ['inputs'],'all 2^768 (chaining value, block) pairs','Tests run a few blocks; a wrong constant, rotation or boolean function on a rarely distinguishing bit pattern is not sampled.',
 ['hash/sm3/compress.go'],[('unrolled message expansion and 64 rounds','hash/sm3/compress.go')],None,['sm3.New().Write of whole blocks, then Sum'])
p('H03','Hash objects keep the hash.Hash contract',
 'For SM3 and SHA-3 objects, Write reports len(p) and no error while absorbing, Sum(b) returns b followed by the digest without changing the state, so that it can be repeated or followed by further writes, and Size/BlockSize are the sizes of the algorithm. Input slices handed to Write and Sum are never modified.',
 ['inputs','histories'],'every prefix b (any length and capacity), every data, every history of Write/Sum/Reset calls',
 'The tests call Sum(nil) (or Sum with data) once per object and never look at the Write result.',
 ['hash/sm3/sm3.go','hash/sha3/sha3.go'],[('Sum','hash/sm3/sm3.go'),('Sum','hash/sha3/sha3.go')],None,['hash.Hash methods'])
p('H04','Keccak-f[1600] is the FIPS 202 permutation in every backend',
 'For every 1600-bit state the permutation used by the hash package (assembly and portable code alike) returns the state that FIPS 202 defines, and touches nothing but the state.',
 ['inputs','configurations'],'all 2^1600 states; amd64 assembly and portable Go backends',
 'Known-answer tests reach the permutation only through a few messages, and each backend is only compared on those.',
 ['hash/sha3/keccakf.go','hash/sha3/keccakf_amd64.s','hash/sha3/keccakf_amd64.go'],[('24 unrolled rounds','hash/sha3/keccakf.go'),('lane-complementing assembly','hash/sha3/keccakf_amd64.s')],None,['sha3 output of single-block messages'])
p('H05','SHA-3 and SHAKE follow FIPS 202 for every split of writes and reads',
 'For every message, every split of it into writes and, for the XOFs, every split of the output into reads, the bytes produced are those of the FIPS 202 sponge with the right rate, domain suffix and padding. Writing after reading is refused without changing the output stream; Clone yields an independent object in the same state; Reset gives the initial state, and distinct objects never influence each other.',
 ['inputs','histories'],'every message content; lengths around every rate boundary; every sequence of Write/Read/Clone/Reset within the bound',
 'Tests use fixed vectors with one write and one read per object; off-by-one errors at the rate boundaries or across read calls need particular splits.',
 S3,[('buffering in Write','hash/sha3/sha3.go'),('padding','hash/sha3/sha3.go'),('squeeze bookkeeping in Read','hash/sha3/sha3.go')],
 [('idx/isSquezing/data','buffer position, phase and partial block','state struct in hash/sha3/sha3.go')],['hash.Hash and ShakeHash methods'])
p('H06','cSHAKE applies the SP 800-185 customization prefix exactly',
 'For every function name N and customization string S, cSHAKE absorbs bytepad(encode_string(N) || encode_string(S), rate) before the data and uses the cSHAKE domain suffix; with both empty it is SHAKE. Reset returns to the state just after that prefix, a clone behaves like the original, and later changes to the caller\'s N and S slices have no effect.',
 ['inputs','histories'],'every N and S content, lengths covering every residue at which the padded prefix changes size, every history of Write/Read/Clone/Reset within the bound',
 'The two published vectors have one prefix length; lengths at which the prefix is exactly a multiple of the rate, or the length encoding grows, are never tried.',
 ['hash/sha3/shake.go'],[('leftEncode/bytepad','hash/sha3/shake.go'),('initBlock replay in Reset','hash/sha3/shake.go')],None,['NewCShake128/NewCShake256'])
p('D01','AES block operations equal FIPS 197 in every backend and key size',
 'For every 128-, 192- and 256-bit key and every block, encryption yields the FIPS 197 ciphertext and decryption inverts it, in the portable and in the AES-NI implementation alike, also in place and when an object is re-keyed. A key of any other length is refused with an error.',
 ['inputs','configurations','histories'],'all keys of the three sizes, all blocks, both backends; sequences of SetKey/Encrypt/Decrypt',
 'Tests have a few FIPS vectors per backend; only one backend is selected on a given CPU.',
 ['drbg/internal/aes/cipher.go','drbg/internal/aes/cipher_asm.go','drbg/internal/aes/generic.go','drbg/internal/aes/asm_amd64.s','drbg/internal/aes/const.go'],[('T-table rounds','drbg/internal/aes/generic.go'),('AESENC rounds and key expansion','drbg/internal/aes/asm_amd64.s')],None,['aes.IAES methods'])
p('D02','CTR_DRBG output follows SP 800-90A for every history',
 'For every entropy, personalization and additional input and every sequence of instantiate, reseed and generate calls of any output length, the generator returns exactly the bytes of SP 800-90A CTR_DRBG with AES-256 and no derivation function, and it fills the whole buffer and reports its length. In particular no keystream block is ever output twice.',
 ['inputs','histories'],'every input content and length within the bound (shorter and longer than the seed), every output length within the bound, every sequence of up to four calls',
 'The CAVP vectors have one shape (one reseed, two generate calls of 64 bytes); partial blocks, short seeds and re-initialisation are not exercised.',
 ['drbg/ctr_drbg.go'],[('counter increment, update, block output','drbg/ctr_drbg.go')],[('v/key','working state of CTR_DRBG','CtrDrbg in drbg/ctr_drbg.go')],['CtrDrbg.Init/Reseed/Read/ReadWithAdditionalData'])
p('F01','SIDH prime-field addition, subtraction and reduction are exact',
 'For each supported prime and every pair of representatives below 2p, field addition and subtraction return a representative below 2p congruent to the true result, reduction to canonical form returns the value below p, double-width add and subtract are exact up to the documented correction, and the conditional swap exchanges both operands or neither. All implementations (assembly and portable) do so, including when the result overwrites an operand.',
 ['inputs','configurations'],'all operands in the documented range; p434, p503, p751; amd64 assembly and portable Go',
 'Random tests almost never reach a carry into a high word, a value next to p or 2p, or the borrow path of a correction.',
 sidh('arith_amd64.s','arith_generic.go'),[('mask-and-correct with 2p','dh/sidh/internal/*/arith_*')],None,['field operations through the package API'])
p('F02','SIDH prime-field multiplication and Montgomery reduction are exact',
 'For each supported prime, multiplication returns the exact double-width integer product of its operands for all word values, and Montgomery reduction of every double-width value below 2^W*p returns a representative below 2p of that value divided by 2^W modulo p. This holds on every CPU: the plain, BMI2 and ADX code paths and the portable code agree.',
 ['inputs','configurations'],'all operands (all 64-bit words) for multiplication, all inputs in the documented range for reduction; three primes; plain/BMI2/ADX/portable code paths',
 'Random tests compare code paths on 10^2-10^3 inputs; a lost carry between limbs has probability around 2^-60.',
 sidh('arith_amd64.s','arith_generic.go','core.go'),[('Karatsuba/schoolbook multiplication','dh/sidh/internal/*/arith_*'),('word-wise Montgomery reduction using p+1','dh/sidh/internal/*/arith_*')],None,['field operations through the package API'])
p('F03','Quadratic-extension arithmetic implements GF(p^2)',
 'For every representable operand, extension-field add, subtract, multiply, square and invert return the GF(p^2) result, for operands in [0,2p) the result is again in that range, and conversion to and from the internal domain are mutually inverse with the exported value canonical. Results do not depend on whether the output aliases an input.',
 ['inputs'],'all operands with coordinates in [0,2p); all aliasing patterns between arguments; three primes',
 'Tests compare a few hundred random operands with a reference; range drift (a result just above 2p) and aliasing need specific operands.',
 sidh('fp2.go'),[('Karatsuba in GF(p^2) with lazy reduction','dh/sidh/internal/*/fp2.go'),('addition chain for x^((p-3)/4)','dh/sidh/internal/*/fp2.go')],None,['package-level field API'])
p('F04','SIDH curve and isogeny formulas are the right rational maps',
 'As identities over GF(p^2), for all points, coefficients and constants: doubling, tripling and differential addition on Montgomery curves, curve-coefficient conversions and recovery, the j-invariant, and the 3- and 4-isogeny curve and point maps compute the values that the SIKE specification defines.',
 ['inputs'],'all projective points and curve coefficients (formal variables); three primes',
 'Tests check a few fixed points; a formula that is wrong only for Z != 1 or a particular sign is not noticed.',
 sidh('curve.go'),[('formulas','dh/sidh/internal/*/curve.go')],None,['curve functions of each field package'])
p('F05','SIDH three-point ladder and tree traversal use the whole secret',
 'For every secret key the kernel point is P + [k]Q with k the integer encoded by exactly the secret\'s bits, and the isogeny tree walk applies, at each of the e steps, the isogeny whose kernel is the correctly scaled point, pushing every stored point and every public basis point through each step. Both the public-key and the shared-secret computation do so.',
 ['inputs'],'every secret scalar; the complete traversal of the strategy of each parameter set; three primes, both sides',
 'Tests check agreement for random keys, which a symmetric error on both sides (for example dropping the top secret bit) survives.',
 sidh('core.go','curve.go','params.go'),[('ScalarMul3Pt','dh/sidh/internal/*/curve.go'),('strategy traversal','dh/sidh/internal/*/core.go')],None,['PublicKeyGen/DeriveSecret'])
p('F06','CSIDH prime-field arithmetic is exact and canonical',
 'For all operands in the documented range, CSIDH field addition, subtraction and Montgomery multiplication return the canonical representative (below p) of the true result, multiword helpers return the exact product, and comparison, zero test, equality and conditional swap agree with the integers they represent. Assembly (with and without BMI2/ADX) and portable code agree, also when output aliases an input.',
 ['inputs','configurations'],'all 512-bit operands in range; amd64 assembly (plain and BMI2/ADX) and portable code',
 'Random tests do not reach boundary values and rare carries.',
 ['dh/csidh/fp511.go','dh/csidh/fp511_amd64.s','dh/csidh/fp511_amd64.go','dh/csidh/fp511_generic.go'],[('word-wise Montgomery multiplication','dh/csidh/fp511*.{go,s}')],None,['CSIDH field operations'])
p('F07','CSIDH exponentiation and quadratic-residue test compute the stated powers',
 'For every base and every 64- or 512-bit exponent, modular exponentiation returns base to that exponent; inversion uses exponent p-2 or its documented equivalent, and the residue test uses exactly (p-1)/2.',
 ['inputs'],'every base (formal) and every exponent value',
 'A few exponents are tested; a window indexing error may need particular exponent digits.',
 ['dh/csidh/fp511.go','dh/csidh/consts.go'],[('4-bit fixed window','dh/csidh/fp511.go')],None,['CSIDH field operations'])
p('F08','CSIDH curve arithmetic and isogenies are the right rational maps',
 'As identities over GF(p): point doubling, differential addition, their combination, evaluation of the curve equation, scalar multiplication by every positive scalar, and the odd-degree isogeny (new coefficient and image point) equal the values defined by the group law and by the published isogeny formulas.',
 ['inputs'],'all points and coefficients (formal variables); every scalar within the bound; isogeny degrees within the bound',
 'Tests use fixed points on two curves.',
 ['dh/csidh/curve.go'],[('xAdd/xDbl/xDblAdd/xMul/xIso','dh/csidh/curve.go')],None,['CSIDH curve functions'])
p('K01','SIDH keys survive export and import unchanged',
 'For every key, importing an exported public or private key yields a key that behaves identically and exports to the same bytes; importing any canonical byte string and exporting it returns that string; importing replaces whatever the object held before. Input of the wrong length is refused with an error and leaves the key untouched.',
 ['inputs','histories'],'all canonical encodings and all key objects, fresh or already holding a key; three primes, SIDH and SIKE variants; all lengths around the right one',
 'Tests import a few keys into fresh objects.',
 ['dh/sidh/sidh.go','dh/sidh/common/utils.go'],[('Import/Export','dh/sidh/sidh.go'),('byte conversion','dh/sidh/common/utils.go')],None,['PublicKey/PrivateKey Import/Export/Size'])
p('K02','SIDH private key generation stays in the documented key space',
 'For every output of the caller\'s random source a generated private key lies in the documented interval (top bit of the key space set, nothing above it) with all remaining bits taken from the source, and the SIKE secret S is filled entirely from it. A failing or short random source is reported as an error.',
 ['inputs','fault_sequences'],'every random byte string and every point at which the source fails; three primes; A, B and SIKE variants',
 'Tests generate a few keys from a working source.',
 ['dh/sidh/sidh.go'],[('Generate','dh/sidh/sidh.go')],None,['PrivateKey.Generate, GeneratePrivateKey'])
p('K03','SIKE encapsulation and decapsulation agree, for every key and history',
 'For every SIKE key pair and random source, decapsulating an encapsulated ciphertext with the matching key yields the same shared secret, for every parameter set, whatever the KEM objects were used for before, and both implementations of the KEM in this repository interoperate. The ciphertext occupies exactly the advertised size and a buffer larger than needed changes neither secret.',
 ['inputs','histories'],'every message, key and random stream; every previous use of the objects within the bound; buffers of exact and larger size',
 'Tests perform a handful of round trips with fresh objects and exact buffers.',
 ['dh/sidh/sike.go','kem/mkem/sike.go'],[('Encapsulate/Decapsulate','dh/sidh/sike.go'),('copy of the KEM','kem/mkem/sike.go')],None,['KEM.Encapsulate/Decapsulate'])
p('K04','SIKE decapsulation rejects every modified ciphertext implicitly',
 'For every ciphertext that is not the one produced by re-encrypting the recovered message, decapsulation returns H(S || ciphertext), never the key derived from the recovered message, and returns no error that distinguishes the case. The decision takes every byte of the ephemeral public key into account.',
 ['inputs'],'every ciphertext of the right length and every key pair',
 'Tests flip a bit in one ciphertext.',
 ['dh/sidh/sike.go','dh/sidh/common/utils.go','kem/mkem/sike.go'],[('re-encryption check and constant-time pick','dh/sidh/sike.go')],None,['KEM.Decapsulate'])
p('K05','SIKE derives every value from the specified inputs',
 'For every key, message and ciphertext, the ephemeral secret is SHAKE256(m || pk) masked to the key space, the message mask is SHAKE256(j) and the shared secret is SHAKE256(m || ciphertext), each with the specified lengths, so that independent SIKE implementations interoperate. A failing random source makes encapsulation return an error.',
 ['inputs','fault_sequences'],'every key, message, ciphertext and random-source behaviour; three parameter sets',
 'KATs cover a few tuples; lengths and truncations that coincide with the KAT buffers are not distinguished.',
 ['dh/sidh/sike.go','kem/mkem/sike.go'],[('hash inputs','dh/sidh/sike.go')],None,['KEM.Encapsulate/Decapsulate'])
p('K06','Multi-recipient SIKE delivers one secret to every recipient',
 'After encapsulating to any list of recipients, each recipient decapsulating its own ciphertext part obtains the encapsulated secret, also on a separate object that did not take part in encapsulation; a ciphertext part or ephemeral key that was modified, or belongs to another recipient, yields the implicit-rejection secret H(S).',
 ['inputs','histories'],'every message, every list of up to three recipients, every modification of the ciphertext, every use order of the objects within the bound',
 'The test decapsulates on the encapsulating object only and never checks rejection.',
 ['kem/mkem/sike.go'],[('MultiKEM.Encapsulate/Decapsulate','kem/mkem/sike.go')],None,['MultiKEM methods'])
p('C01','CSIDH private keys are sampled and encoded faithfully',
 'For every random stream each of the 74 secret exponents of a generated key lies in [-5,5] and is one of the accepted random bytes in order; exporting and importing a private key preserves every exponent; wrong-length input is refused by returning false, without a crash. A failing random source is reported.',
 ['inputs','fault_sequences'],'every random stream within the bound (including rejections) and every key; every input length',
 'Tests sample a few keys and check round trip once.',
 ['dh/csidh/csidh.go'],[('rejection sampling and nibble packing','dh/csidh/csidh.go')],None,['GeneratePrivateKey, PrivateKey.Import/Export'])
p('C02','CSIDH public keys survive export and import unchanged',
 'For every 64-byte string, importing it and exporting gives back the same bytes, whatever the key object held before; import of any other length, or export into a buffer of any other length, returns false and changes nothing.',
 ['inputs','histories'],'all 2^512 encodings, fresh and reused key objects, all lengths around 64',
 'Tests import into fresh objects only.',
 ['dh/csidh/csidh.go'],[('Import/Export','dh/csidh/csidh.go')],None,['PublicKey.Import/Export'])
p('C03','CSIDH group action applies exactly the secret exponents',
 'For every secret key and every random stream, the group action applies for each of the 74 primes exactly |e_i| isogenies of that degree in the direction given by the sign of e_i, starting from the given curve, with the kernel point scaled by exactly the cofactor not covered by remaining isogenies, and returns the resulting normalised coefficient.',
 ['inputs','histories'],'every exponent vector in range and every sequence of random points and kernel failures within the bound',
 'Agreement tests between two honest parties survive errors that affect both sides, and rare events (point of too small order) are not forced.',
 ['dh/csidh/csidh.go'],[('groupAction','dh/csidh/csidh.go')],None,['GeneratePublicKey, DeriveSecret'])
p('C04','CSIDH never derives a secret from an invalid public key',
 'A public key whose coefficient is not reduced, is singular, or is found not supersingular is rejected: Validate returns false, DeriveSecret returns false and leaves the output untouched. A curve is accepted only if a point was found whose order divides p+1 and exceeds 4*sqrt(p).',
 ['inputs','histories'],'every 512-bit coefficient and every sequence of outcomes of the point multiplications',
 'Tests try a few bad keys; the accept/reject recursion depends on outcomes random points rarely produce.',
 ['dh/csidh/csidh.go'],[('Validate/cofactorMul','dh/csidh/csidh.go')],None,['Validate, DeriveSecret'])
p('C05','CSIDH encryption round-trips for one and for many recipients',
 'For every 16-byte message, every key pair and every random stream, decryption of an encryption returns the message; with several recipients each one\'s part decrypts to the message; and this holds whatever the encryption object was used for before. No ciphertext is produced under a key derived from an invalid public key.',
 ['inputs','histories'],'every message, every list of up to three recipients, every order of encrypt/decrypt calls on the same object within the bound',
 'The tests encrypt one fixed message on fresh objects.',
 ['kem/mkem/csidh.go'],[('Enc/Dec/Encrypt/Decrypt','kem/mkem/csidh.go')],None,['PKE and MultiPKE methods'])
p('T01','Secret data never steers control flow or memory addresses',
 'In the operations documented as constant time (SIDH field arithmetic, ladder and secret selection, SIKE decapsulation, CSIDH field arithmetic and conditional swap, AES-NI), no branch condition, memory address or loop count depends on a secret value, for any secret.',
 ['inputs','configurations'],'every pair of secret inputs, every backend',
 'A functional test cannot observe which instructions or addresses were used.',
 sidh('arith_amd64.s','arith_generic.go','fp2.go','curve.go','core.go')+['dh/sidh/sike.go','dh/sidh/common/utils.go','dh/csidh/fp511.go','dh/csidh/fp511_amd64.s'],[('masking instead of branching','arithmetic files')],None,['executed instruction and address trace'])
p('T02','CPU feature flags select only instructions the CPU has',
 'Whatever CPUID reports, the feature flags equal the architectural feature bits, and code using BMI2, ADX or AES instructions is executed only when the corresponding flags are set; results never depend on the flags.',
 ['configurations'],'every CPUID result',
 'Tests run on one CPU.',
 ['utils/cpuid_amd64.go','utils/cpuid_amd64.s','drbg/ctr_drbg.go']+sidh('params.go','arith_amd64.s'),[('flag tests before optional instructions','*.s')],None,['utils.X86 and the selected code paths'])
p('X01','SIDH key agreement: both parties obtain the same shared secret',
 'For every pair of honestly generated keys of opposite variants over the same prime, both parties derive the same shared secret.',
 ['inputs'],'all pairs of private keys',
 'Agreement is checked for a few random key pairs.',
 ['dh/sidh/sidh.go']+sidh('core.go'),[('DeriveSecret','dh/sidh/sidh.go')],None,['DeriveSecret on both sides'])
p('X02','The arm64 assembly computes the same functions',
 'On arm64 the assembly implementations of AES and of the SIDH field arithmetic return the same results as the portable code for all inputs.',
 ['inputs','configurations'],'all operands on arm64 builds',
 'The tests are run on amd64 only.',
 ['drbg/internal/aes/asm_arm64.s','dh/sidh/internal/p503/arith_arm64.s','dh/sidh/internal/p751/arith_arm64.s'],[('arm64 assembly','*_arm64.s')],None,['package APIs on arm64'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80,(d['id'],len(d['title'])); assert d['statement'].count('. ')<=2,d['id']
print(len(P))
