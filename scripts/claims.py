SE='symbolic execution of the SSA form of the code (paths enumerated by solver feasibility), assertions decided by rewriting and SMT (z3/cvc5); counterexamples replayed on the real build'
MC='model_checking'
CLAIMS={
'H01':(SE,MC,'Every message content up to the stated lengths and splits, and one Write from an arbitrary state; the compression function is uninterpreted (H02).'),
'H02':(SE,MC,'Every chaining value and every block content, for 1..3 consecutive blocks (6 in the thorough tier); no other bound.'),
'H04':(SE,MC,'Every state of 25 lanes, one application and two in a row; amd64 machine code and portable code.'),
'D01':(SE,MC,'Every key and block for the three key sizes; portable code and AES-NI machine code; re-keying from each size.'),
'H03':(SE,MC,'Every content within the stated lengths and histories.'),
'H05':(SE,MC,'Every content for the stated lengths and splits, and one Write/Read from an arbitrary sponge state; the permutation is uninterpreted (H04).'),
'H06':(SE,MC,'Every content of N, S and data for the stated lengths; the permutation is uninterpreted (H04).'),
'D02':(SE,MC,'Every content within the stated lengths and call histories; AES is uninterpreted (D01).'),
'F01':(SE,MC,'Every operand within the documented range (no length bound: the field size is fixed); portable code and amd64 machine code of all three fields, the latter on processors with none, one and both of BMI2 and ADX.'),
'F02':(SE,MC,'Every operand in [0,2p) (products) and every dividend below p*R (reduction); portable code and amd64 machine code of all three fields, the latter on processors with none, one and both of BMI2 and ADX.'),
'F03':(SE,MC,'Every operand in [0,2p) for the three fields: the Fp2 operations over the base-field operations decided by F01 and F02, inversion and square-root exponent chains, byte codecs.'),
'F04':(SE,MC,'Every projective input for the three fields: each formula as an identity of polynomials over Fp2 (no bound), the operations of Fp2 decided by F03.'),
'F05':(SE,MC,'Every secret of the specified bit lengths of the three fields (and some short lengths in the ladder); the ladder and the complete strategy walk of both sides; points are formal (ladder powers, isogeny levels), the formulas behind them are decided by F04.'),
'F07':(SE,MC,'Every base and every exponent of 64 and 512 bits; multiplication decided by F06.'),
'F08':(SE,MC,'Every projective input and coefficient for the formulas; every scalar with its highest set bit at the stated positions; isogenies of all 74 degrees; field arithmetic decided by F06 and F07.'),
'F06':(SE,MC,'Every operand in the range documented for each function; portable code and amd64 machine code, the latter on processors with none, one and both of BMI2 and ADX.'),
'T02':(SE,MC,'Every answer of CPUID for leaves 0..15, initialisation included; the arithmetic of the four field packages on the four combinations of BMI2 and ADX, all operands; drbg with and without AES.'),
'K01':(SE,MC,'Every key content; Montgomery conversion is an abstract bijection and the group operations are uninterpreted.'),
'K02':(SE,MC,'Every output and failure point of the random source, all fields and variants.'),
'K03':(SE,MC,'Every key and message for the stated histories and buffer sizes; isogenies are an abstract commutative function, the permutation is uninterpreted.'),
'K04':(SE,MC,'Every ciphertext; isogenies are an abstract commutative function, the permutation is uninterpreted.'),
'K05':(SE,MC,'Every key and message; isogenies are an abstract commutative function, the permutation is uninterpreted.'),
'K06':(SE,MC,'Every key and message for one to three recipients; same abstractions as K03.'),
'K07':(SE,MC,'Every pair of field and variant, buffer sizes around the right ones, every content; isogenies are an abstract commutative function.'),
'C01':(SE,MC,'Random streams following five rejection patterns, every key content.'),
'C02':(SE,MC,'Every key content, lengths as stated.'),
'C03':(SE,MC,'Exponent vectors with one symbolic position and symbolic random point orders; curve arithmetic is an abstract group.'),
'C04':(SE,MC,'Every coefficient against the range test; point orders around the threshold with a symbolic window; curve arithmetic is an abstract group.'),
'C05':(SE,MC,'Every message and key for one to three recipients; the group action is an abstract commutative function.'),
}
NA={
'T01':'not built: the engine follows data flow only, a two-run (secret/secret-prime) encoding of the address and branch trace was not finished',
'X01':'the statement follows from the commutativity of isogenies with coprime kernels (theory of supersingular curves), which is neither a polynomial identity nor a word-level formula a solver decides at these sizes; its parts are decided by F01-F05',
'X02':'no arm64 processor or emulator here to replay a counterexample on, and the engine has no arm64 instruction semantics; a claim that could not be replayed against the real code is not made',
}
