#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property is added or reworded)."""
import json, os
PM='lib/python-proofmarshal/proofmarshal/'; BL='lib/python-bitcoinlib/bitcoin/'; PC='proofchains/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

# ---------------------------------------------------------------- proofmarshal
p('C01','Primitive values serialize to one fixed format and round-trip',
  'Every valid boolean, bounded unsigned integer, fixed-length, variable-length and digest value serializes to exactly the documented bytes (bool 00/ff, minimal little-endian base-128 integers, length-prefixed variable bytes, raw fixed bytes). Deserializing those bytes yields an equal value of the same type, and consecutive values written to one context are read back in order.',
  ['inputs'],'all serializers, all parameters (lengths, bounds, 8/16/32/64-bit widths), all valid values, all sequences of values in one context',
  'The tests pin about a dozen literal byte strings; a wrong shift, mask or bound at another magnitude (2^7k boundaries, 64-bit values, length limits) is never sampled.',
  [PM+'serialize.py'],[('write_varuint/read_varuint',PM+'serialize.py'),('SerBool, FixedBytes, VarBytes, UInt*',PM+'serialize.py')],['Serializer.serialize/deserialize','Bytes(De)SerializationContext'])
p('C02','Deserialization is strict, canonical and fails cleanly on any bytes',
  'Given arbitrary bytes, deserializing any proofmarshal type either raises a deserialization error (a truncation error whenever the bytes are a proper prefix of a valid encoding) or returns an object that serializes back to exactly the same bytes. No other exception type escapes, trailing junk is never ignored, and non-minimal integers, bad booleans, out-of-range lengths, unknown variant numbers and non-zero padding bits are all rejected.',
  ['inputs'],'all byte strings: valid encodings, their truncations, extensions and mutations, and random bytes, for primitives, bit strings, proofs, variants, unions, mountain ranges and radix trees (raw Bitcoin structures embedded in proofs keep their own codec)',
  'The tests feed a handful of hand-written bad inputs; canonicality is a statement about every byte string.',
  [PM+'serialize.py',PM+'bits.py',PM+'proof.py'],[('StreamDeserializationContext',PM+'serialize.py'),('BitsSerializer.ctx_deserialize',PM+'bits.py'),('VarProof/ProofUnion dispatch',PM+'proof.py')],['Serializer.deserialize'])
p('C03','Invalid values never enter a proof or a serializer',
  'Checking a value against a serializer succeeds exactly for values of the right class and range: a wrong class raises a serializer type error and a right-class out-of-range value raises a serializer value error. A proof can only be constructed when every one of its attributes passes that check, whatever position the bad attribute is in, and every value accepted this way serializes and deserializes back to an equal value.',
  ['inputs'],'all Python values of assorted classes (bool, int, str, bytes, bytearray, None, proofs, bit strings, Bitcoin objects) against every serializer and proof class',
  'The tests try a few values per primitive serializer and never construct proofs with bad attributes.',
  [PM+'serialize.py',PM+'bits.py',PM+'proof.py',PC+'core/bitcoin.py'],[('check_instance of each serializer',PM+'serialize.py'),('Proof.__new__',PM+'proof.py')],['check_instance','proof constructors'])
p('C04','Bit strings behave exactly like immutable sequences of bits',
  'Whatever way a bit string was produced (from an iterable, from bytes with any length, by slicing, concatenation, inversion or common prefix), its length, iteration, indexing with positive and negative indices, slicing with any start, stop and step, concatenation, inversion, prefix test, common prefix and equality agree with the plain list of its bits. Unused bits of the underlying bytes never influence any result, and no operation changes its operands.',
  ['inputs','histories'],'all bit lengths (zero, whole bytes, partial bytes), all contents including dirty unused bits, all compositions of operations',
  'Tests use short literals; aliasing of shared buffers with dirty tail bits and offset concatenation only go wrong for particular length combinations.',
  [PM+'bits.py'],[('Bits',PM+'bits.py')],['Bits API'])
p('C05','Bit string comparison is a total order agreeing with lexicographic order',
  'For all bit strings exactly one of a<b, a==b, a>b holds, the order is transitive, all six comparison operators agree with each other, and the order is the lexicographic order of the bit sequences with a proper prefix before its extensions. Comparison never depends on unused bits of the underlying bytes.',
  ['inputs'],'all pairs and triples of bit strings, in particular ones that share long prefixes, differ in trailing zero bits or were cut from longer buffers',
  'Tests compare a few literal pairs; totality and transitivity quantify over all pairs and triples.',
  [PM+'bits.py'],[('Bits.__eq__/__lt__ and total_ordering',PM+'bits.py')],['comparison operators','sorted()'])
p('C06','Bit strings have exactly one serialization, which round-trips',
  'Every bit string serializes to its bit length as a minimal varuint followed by its bits packed most-significant first with zero padding, and deserializing gives back an equal bit string. Equal bit strings serialize identically however they were produced, different ones differently, and an encoding with non-zero padding is rejected with a deserialization error.',
  ['inputs'],'all bit strings of any length and provenance, and all encodings with dirty padding',
  'Tests cover two or three literal lengths; empty, whole-byte and dirty-buffer provenance are separate code paths.',
  [PM+'bits.py'],[('BitsSerializer',PM+'bits.py')],['BitsSerializer.serialize/deserialize'])
p('C07','A proof\'s hash is the documented commitment to its type and every field',
  'The hash of a proof is SHA-256 of its type tag followed by the SHA-256 of its fields in order, where proof-valued fields contribute their own hash and other fields their serialization; tags of variants and tags derived from other tags follow the documented derivation. Two proofs are equal, and hash equal as dictionary keys, exactly when their type and all fields are equal, however they were built and whether or not they are pruned, cached or deserialized, and hashes are never order- or cache-dependent.',
  ['inputs','histories'],'all proof classes (nested, variants, unions), all field values, all orders of accessing, pruning, serializing before hashing',
  'Tests compare a few hard-coded digests and cannot show that every field of every type is committed to.',
  [PM+'proof.py',PM+'serialize.py'],[('Proof.calc_data_hash/calc_hash',PM+'proof.py'),('HashTag',PM+'serialize.py')],['.hash, ==, hash()'],[('data_hash/hash','lazily cached digests',PM+'proof.py')])
p('C08','Pruned proofs act like the original while tracking what was used',
  'A pruned view of a proof answers every attribute and operation with the same result, hash and equality as the original, at any depth, and never changes the original. It reports itself pruned; it is fully pruned until one of its serialized attributes has been used and not afterwards; attributes that do not exist are still attribute errors; and a proof built from any pruned component, including through a union field, reports that it is pruned.',
  ['histories'],'all proof graphs and all interleavings of attribute accesses, repeated pruning, hash computation and serialization',
  'Tests follow one access path; dependency tracking is about every access history.',
  [PM+'proof.py'],[('Proof.prune and __getattr__',PM+'proof.py')],['prune()','is_pruned','is_fully_pruned'],[('is_fully_pruned','nothing below this node has been used yet',PM+'proof.py')])
p('C09','A pruned proof on the wire keeps its hash and exposes exactly what was used',
  'Serializing a pruned proof and deserializing it elsewhere gives a proof with the same class, hash and equality as the original, in which every part that was used beforehand is available with the same value and every proof that was not used is replaced by its digest. Touching a missing part raises a pruned error naming that attribute (never a wrong value or another exception), and re-serializing yields identical bytes.',
  ['histories','inputs'],'all proof graphs including variants and unions, all access sets, also in a process that has never instantiated the class before, and repeated prune/serialize rounds',
  'No existing test serializes a partially pruned proof and reads it back, let alone over all access sets.',
  [PM+'proof.py'],[('ctx_serialize/ctx_deserialize',PM+'proof.py')],['serialize/deserialize of pruned proofs','PrunedError'])
p('C10','Proofs are immutable and every update leaves old versions intact',
  'No attribute of any proof, pruned or not, deserialized or not, can be set or deleted, and trees and mountain ranges reject item assignment and deletion. Every operation that derives a new version (append, extend, slice, put, remove, prune) leaves all earlier versions with the same contents, hash and serialization.',
  ['histories'],'all proof classes, attribute names and all histories of derived versions kept alive together',
  'Tests only look at the newest version.',
  [PM+'proof.py',PM+'mmr.py',PM+'merbinnertree.py'],[('Proof.__setattr__/__delattr__',PM+'proof.py'),('persistent updates',PM+'mmr.py'),('persistent updates',PM+'merbinnertree.py')],['old references after an update'])
p('C11','Variants and unions keep distinct types distinct',
  'A value of a variant type or union is serialized with the declaration-order number of its class and deserializes to that same class, pruned or not; values outside the declared classes are refused by validation and serialization, and unknown numbers are deserialization errors. Two variants or two proof types with identical fields never share a hash, and variant tags are derived from both the variant\'s and the family\'s tag.',
  ['inputs','programs'],'all families of declared variants and unions (sizes, field layouts, order), all members, pruned and unpruned',
  'Tests declare one two-variant family.',
  [PM+'proof.py',PM+'serialize.py'],[('VarProof.declare_variant',PM+'proof.py'),('ProofUnion',PM+'proof.py'),('HashTag.derive',PM+'serialize.py')],['serialize/deserialize/hash of variants'])
p('C12','A Merkle mountain range behaves like an immutable list',
  'For every sequence of values, however it was appended or extended, the mountain range has the same length, items at every positive and negative index, index errors out of range, forward and reverse iteration and step-one slices (including empty, reversed-bound and out-of-range slices, whose result is itself a mountain range equal to one built from the sliced list) as the plain list. Slices with another step are refused rather than answered wrongly. Non-integer, non-slice indices are type errors.',
  ['inputs','histories'],'all lists including duplicates, all lengths, all append/extend/slice histories',
  'Tests check lengths up to a few dozen built one way, and a few slices.',
  [PM+'mmr.py'],[('append/_merge_trees/__getitem__',PM+'mmr.py')],['len, [], iteration, slices'])
p('C13','A mountain range hash is a canonical commitment to the exact list',
  'The commitment of a list is given by the documented recursive split (the smallest power of two below the length that divides its binary representation, or half of it), every inner node also committing to the number of items below it. It depends only on the list, not on how it was built, sliced or deserialized, and different lists (values, order, or length, including duplicates) have different commitments.',
  ['inputs','histories'],'all lists and all ways to build them',
  'Tests compare a few hand-built trees.',
  [PM+'mmr.py'],[('MerkleMountainRange construction',PM+'mmr.py')],['.hash, structure of nodes'])
p('C14','Pruned mountain range proofs prove item, position and length soundly',
  'After any set of item, length or slice queries on a pruned mountain range, the serialized proof read back has the same commitment, answers those same queries identically, and answers any other query either correctly or with a pruned error. Proofs of a single item reveal only a logarithmic number of nodes, and appending to a deserialized proof whose needed nodes are present gives the true commitment of the extended list.  Two proofs with the same commitment, even a fake one that no list has, never give different items for the same position, nor an item at or beyond the length the other proves.',
  ['inputs','histories'],'all lists, query sets, later appends, and adversarially assembled node graphs',
  'No test transports a pruned mountain range or builds fake commitments.',
  [PM+'mmr.py',PM+'proof.py'],[('pruning of inner nodes',PM+'proof.py'),('length committed by inner nodes',PM+'mmr.py')],['deserialized pruned proofs'])
p('C15','A merkle radix tree behaves like an immutable dictionary',
  'For every history of puts (of new and existing keys), removals and lookups over same-length keys, the tree has the length, items, keys in key order with their values alongside, and lookups of the plain dictionary; looking up or removing an absent key raises a key error and changes nothing. Building from a mapping, from pairs in any order, or step by step gives the same tree.',
  ['histories'],'all key sets (dense, sharing long prefixes, differing only in the last bit), values, and operation orders',
  'Tests insert a few keys once; overwrite and deep shared-prefix deletions are never exercised.',
  [PM+'merbinnertree.py'],[('put/remove/descend',PM+'merbinnertree.py')],['[], put, remove, items, len'])
p('C16','A merkle radix tree hash is a canonical commitment to the mapping',
  'Every inner node of the tree sits at the longest common prefix of the keys below it, with the zero-bit keys left and the one-bit keys right, and the hash is the documented recursive hash of that shape. The hash depends only on the final mapping, not on insertion order, overwrites or insert-then-remove detours, and any change of a key or value changes it.',
  ['histories','inputs'],'all mappings over same-length keys and all histories leading to them',
  'Tests check a few insertion orders of a few keys.',
  [PM+'merbinnertree.py',PM+'bits.py'],[('InnerNode prefix computation',PM+'merbinnertree.py')],['.hash, node structure'])
p('C17','Subset tests between radix trees agree with dictionary inclusion',
  'One tree is reported a subset of another exactly when every key of the first is in the second with an equal value. This holds for empty, single-entry and differently shaped trees, in both directions, and comparing trees of different families is a type error.',
  ['inputs'],'all pairs of mappings, in particular near-subsets with one missing key, one different value or a disjoint subtree',
  'Tests try a few pairs; the recursion has separate cases for equal, deeper and diverging prefixes.',
  [PM+'merbinnertree.py'],[('issubset',PM+'merbinnertree.py')],['issubset()'])
p('C18','Pruned radix tree proofs prove membership and absence soundly',
  'After any set of lookups on a pruned tree, the serialized proof read back has the same commitment, answers those same lookups (value or key error) identically and any other lookup correctly or with a pruned error. It reveals only the path to the keys, and putting or removing a key on a deserialized proof made by the same operation gives the true commitment of the modified mapping. Two proofs with the same commitment, even a fake one, never give different answers for the same key.',
  ['inputs','histories'],'all mappings, lookup sets, updates through proofs, adversarially assembled node graphs',
  'No test transports a pruned tree or builds fake commitments.',
  [PM+'merbinnertree.py',PM+'proof.py'],[('descend',PM+'merbinnertree.py'),('prune',PM+'proof.py')],['deserialized pruned proofs'])
# ---------------------------------------------------------------- proofchains
p('C19','A fake seal witness verifies only the hash it was made for',
  'A fake seal\'s witness made for a digest verifies exactly that digest and rejects every other one, directly and after serialization or pruning, also when assert statements are disabled (python -O). Seals and witnesses for different digests differ in hash and those for the same digest are equal.',
  ['inputs'],'all pairs of 32-byte digests, including ones differing in a single bit',
  'The test checks one digest.',
  [PC+'core/uniquebits/singleuseseal.py'],[('FakeSealWitness.verify_hash',PC+'core/uniquebits/singleuseseal.py')],['verify_hash'])
p('C20','A Bitcoin seal witness accepts a digest only for the three exact scripts',
  'A Bitcoin seal witness verifies a 32-byte digest exactly when the witnessed transaction output\'s script is byte-for-byte the OP_RETURN script of the digest, the P2SH script of its Hash160, or the P2PKH script of its Hash160. Any other script - other digest, changed opcode, different push encoding, extra or missing bytes, a matching script in a different output - and any digest not 32 bytes long is rejected, also when assert statements are disabled (python -O).',
  ['inputs'],'all digests, all near-miss scripts (one byte edits, non-canonical pushes, prefixes, suffixes), any output position',
  'Tests try a few wrong scripts.',
  [PC+'core/uniquebits/singleuseseal.py'],[('BitcoinSealWitness.verify_hash',PC+'core/uniquebits/singleuseseal.py')],['verify_hash'])
p('C21','A Bitcoin seal witness verifies only if that seal is spent in that transaction',
  'A witness verifies exactly when the seal\'s outpoint (transaction id and index) equals the outpoint spent by the indicated input and the input and output proofs refer to the same transaction. The verdict is the same for a deserialized witness and for one pruned to what verification used, and a witness too pruned to decide raises a pruned error instead of verifying. All of this also holds when assert statements are disabled (python -O).',
  ['inputs'],'all transactions, seals, input/output indices, near-miss outpoints, mixed transactions, serialized and pruned forms',
  'Tests verify one or two hand-made witnesses.',
  [PC+'core/uniquebits/singleuseseal.py',PC+'core/bitcoin.py'],[('BitcoinSealWitness.verify',PC+'core/uniquebits/singleuseseal.py')],['verify'])
p('C22','Closing transactions built from the template close the seals over the digest',
  'For every digest, list of seals and method (OP_RETURN, P2SH, P2PKH) the transaction template spends exactly the seals\' outpoints in the given order and has exactly one output with the script of that method over the digest, worth zero for OP_RETURN and the dust amount otherwise. For each seal the witness built from that transaction verifies, verifies the digest, and rejects every other digest.',
  ['inputs'],'all digests, numbers of seals, outpoints, methods, dust amounts',
  'Tests check the template with one seal and one digest.',
  [PC+'uniquebits/singleuseseal.py',PC+'core/uniquebits/singleuseseal.py'],[('make_close_seal_tx_template',PC+'uniquebits/singleuseseal.py')],['template transaction','witness verification'])
p('C23','Transaction proofs are bound to the Bitcoin transaction id',
  'A transaction proof\'s hash is the transaction id XORed with the fixed pad and its reported transaction id is the real one, equally when pruned, deserialized or deserialized from a pruned form. Input, output and outpoint proofs expose exactly the indexed input or output, verify exactly when the index is in range, commit to transaction and index, and round-trip through serialization.',
  ['inputs'],'all transactions (sizes, many inputs and outputs), all indices in and out of range, pruned forms',
  'No test covers these classes except through one witness.',
  [PC+'core/bitcoin.py'],[('TxProof.calc_hash/txhash',PC+'core/bitcoin.py'),('TxInProof/TxOutProof.verify',PC+'core/bitcoin.py')],['hash, txhash, txin, txout, verify'])
p('C24','Globally unique map prefixes verify only what their seal was closed over',
  'Closing an unused prefix over a key and value, or over two child prefixes, yields a prefix that verifies when and only when its witness was made for the documented digest of exactly that key and value (or of exactly those two children\'s seals, in order). Replacing the key, the value, a child, the child order or the witness makes verification fail (also under python -O), and prefixes report the right prefix and seal; an inner prefix made from two children sits at their longest common prefix.',
  ['inputs','histories'],'all keys, values, seals (fake and Bitcoin), children, tamperings, tree shapes',
  'Tests close one leaf and one inner prefix with fake seals.',
  [PC+'core/uniquebits/gumap.py'],[('sealed hash computation',PC+'core/uniquebits/gumap.py')],['verify'])
p('C25','Globally unique maps survive serialization and pruning with same verdicts',
  'Every map - unused, leaf or inner prefixes of any shape, with fake or Bitcoin seals - deserializes from its serialization to an equal map with the same hash, classes, prefixes and verification verdicts. A map pruned to what verification used still verifies identically after transport; parts not used are absent and raise pruned errors.',
  ['inputs','histories'],'all map shapes, seal kinds and access sets',
  'No test serializes a map with Bitcoin seals or prunes one.',
  [PC+'core/uniquebits/gumap.py',PM+'proof.py'],[('make_GuMap_subclass',PC+'core/uniquebits/gumap.py')],['serialize/deserialize/prune'])
p('C26','The seal tool\'s commands work together end to end',
  'From any outpoint and digest, making a seal, making the closing transaction with any method, making a witness from it and verifying the witness succeeds and all printed ids, outpoints and hex match the real objects; every new seal has a fresh nonce, also of the same outpoint. Verification exits non-zero for a wrong digest, seal file, seal id or tampered witness; existing files are never overwritten; duplicate seals, unrelated transactions and malformed arguments are refused. None of this depends on assert statements being enabled.',
  ['inputs','histories'],'all outpoints, digests, methods, numbers of seals and wrong inputs; command sequences in a scratch directory',
  'The tool has no tests at all.',
  ['sus-tool.py',PC+'uniquebits/singleuseseal.py'],[('cmd_* functions','sus-tool.py')],['stdout, exit status, files'])
# ---------------------------------------------------------------- bitcoin
p('C27','Bitcoin structures serialize to the protocol format and round-trip',
  'Every outpoint, input, output, transaction, block header and block serializes to exactly the Bitcoin protocol bytes (little-endian fields, CompactSize counts and lengths) and deserializes from them to an equal object with equal fields. Transaction ids and block hashes are the double SHA-256 of the right bytes (the header for blocks).',
  ['inputs'],'all field values at and around encoding boundaries, script lengths and vector counts across the CompactSize thresholds',
  'Tests use recorded transactions; counts and lengths at 253, 65536 and field extremes are not sampled.',
  [BL+'core/__init__.py',BL+'core/serialize.py'],[('stream_serialize/stream_deserialize',BL+'core/__init__.py')],['serialize, deserialize, GetHash'])
p('C28','Bitcoin deserialization rejects truncated, oversized and trailing data',
  'For arbitrary bytes, deserializing a Bitcoin structure either succeeds and re-serializes to the same bytes when all its CompactSizes are minimal, or raises a serialization error: truncation for a proper prefix, a size error for lengths beyond the maximum, an extra-data error carrying the object and the exact padding for trailing bytes. With padding allowed, trailing bytes are ignored.',
  ['inputs'],'all byte strings derived from valid encodings by truncation, extension and mutation',
  'Tests check one truncation and one padding example.',
  [BL+'core/serialize.py'],[('ser_read and Serializable.deserialize',BL+'core/serialize.py')],['deserialize'])
p('C29','Mutable and immutable Bitcoin objects convert, compare and hash consistently',
  'Converting between mutable and immutable inputs, outputs, outpoints and transactions preserves every field, gives fully independent deep copies in the mutable direction, and returns already immutable objects unchanged. Immutable objects reject attribute changes and their hash never goes stale; mutable objects\' hashes always follow their current contents; equality and hash() are those of the serialized contents.',
  ['inputs','histories'],'all objects, all histories of conversions, mutations, hash queries',
  'Tests mutate one or two fields of one transaction.',
  [BL+'core/__init__.py',BL+'core/serialize.py'],[('from_* class methods, make_mutable',BL+'core/__init__.py'),('ImmutableSerializable caching',BL+'core/serialize.py')],['from_tx, GetHash, ==, hash()'])
p('C30','Scripts are built with minimal pushes and iterate back to their contents',
  'Building a script from opcodes, integers and byte strings, all at once or by repeated addition, yields the concatenation of the opcode bytes, the small-integer opcodes or minimal little-endian number pushes, and shortest push encodings; iterating it gives the contents back. Raw iteration reports each operation\'s opcode, data and byte offset exactly, and a truncated push raises the invalid-script error at that point with the partial data, never earlier.',
  ['inputs'],'all sequences of elements with data lengths around 75/76/255/256/520/65535/65536, integers of any size, and all byte strings as raw scripts',
  'Tests cover literal scripts only.',
  [BL+'core/script.py',BL+'core/_bignum.py'],[('CScript construction and raw_iter',BL+'core/script.py')],['CScript(), +, iteration'])
p('C31','Script classification and signature-operation counts follow consensus rules',
  'For any byte string, the P2SH, push-only, canonical-push, unspendable and validity predicates equal their byte-level definitions, and the P2SH wrapper of a script contains its Hash160 and enforces the 520-byte limit when asked. Signature-operation counting equals the consensus definition in both modes (multisig counting the preceding small-number opcode when accurate, 20 otherwise) and stops silently at the first invalid push.',
  ['inputs'],'all byte strings as scripts, including truncated pushes and near-miss P2SH patterns',
  'Tests check a few scripts; accurate counting of multisig is never exercised with a number before it.',
  [BL+'core/script.py'],[('is_p2sh, is_push_only, has_canonical_pushes, GetSigOpCount',BL+'core/script.py')],['predicates'])
p('C32','Signature hashes equal the reference algorithm for every input',
  'For every script, transaction, input index and hash type, the signature hash equals the reference algorithm (code separators removed, other scripts blanked, NONE/SINGLE/ANYONECANPAY modifications, the SINGLE out-of-range value of one). The transaction passed in is never modified, and the checked variant raises a value error where the raw one reports an error.',
  ['inputs'],'all valid scripts, transactions with any numbers of inputs and outputs, input indices in and out of range, 32-bit hash types',
  'A recorded vector file samples some combinations; it does not cover index and count relations systematically nor non-mutation.',
  [BL+'core/script.py'],[('RawSignatureHash, FindAndDelete',BL+'core/script.py')],['SignatureHash, RawSignatureHash'])
p('C33','Script evaluation equals the reference interpreter on every script',
  'For every script and initial stack, evaluation succeeds or fails exactly as the Bitcoin reference rules say, and on success leaves exactly the reference final stack; failures are script-evaluation errors carrying the failing state, never other exceptions. This includes number ranges, conditionals, alternate stack, disabled opcodes, and the limits on script size, element size, operation count and stack items.',
  ['programs','inputs'],'all opcode sequences over all stacks (without real signatures, which C34 covers), including limits and unbalanced conditionals',
  'The recorded script vectors sample single opcodes; they cannot cover combinations, limits and resulting stacks.',
  [BL+'core/scripteval.py',BL+'core/_bignum.py'],[('_EvalScript and helpers',BL+'core/scripteval.py')],['EvalScript'])
p('C34','Signature opcodes accept exactly valid signatures over the right hash',
  'CHECKSIG, CHECKMULTISIG and their VERIFY forms succeed exactly when real ECDSA signatures verify for the public keys in order over the signature hash selected by the hash type, code separators and signature removal. Changing a transaction field the hash type commits to, the script, key, order, count or the dummy element makes them fail or behave per the reference, while changing an uncommitted field does not.',
  ['inputs','programs'],'all key sets, m-of-n combinations and orders, hash types, code separators, tampered transactions',
  'Recorded transactions sample a few combinations.',
  [BL+'core/scripteval.py',BL+'core/script.py',BL+'core/key.py'],[('_CheckSig, _CheckMultiSig',BL+'core/scripteval.py')],['EvalScript, VerifyScript'])
p('C35','Script verification composes evaluation, P2SH and output lookup correctly',
  'Verifying an input script against an output script succeeds exactly when both evaluate in sequence to a true top element and, if P2SH is enabled through either exported flag and the output is P2SH, the input is push-only and the redeem script evaluates true on the remaining stack; without the flag P2SH is not applied. Verifying a signature between transactions additionally requires the right previous transaction and existing indices; all failures are validation errors.',
  ['inputs','configurations'],'all script pairs, flag sets, P2SH nestings, transaction pairs and indices',
  'Recorded vectors sample a few pairs and never compare flags.',
  [BL+'core/scripteval.py'],[('VerifyScript, VerifySignature',BL+'core/scripteval.py')],['VerifyScript, VerifySignature'])
p('C36','Script numbers convert exactly between integers and bytes',
  'Every integer encodes to the minimal little-endian sign-magnitude byte string and decodes back to itself, and decoding any byte string gives its sign-magnitude value. Scripts and arithmetic opcodes use exactly this encoding.',
  ['inputs'],'all integers including sign-bit boundaries at every byte length, and all byte strings',
  'Only indirectly tested through a few vectors.',
  [BL+'core/_bignum.py'],[('bn2vch, vch2bn',BL+'core/_bignum.py')],['bignum helpers, CScript ints, arithmetic opcodes'])
p('C37','Base58Check encoding is bijective and detects corruption',
  'Base58 encoding and decoding are inverse on all byte strings (leading zeros included), equal to the reference algorithm, and invalid characters are rejected. A Base58Check string decodes to exactly its version and payload and re-encodes to itself, and a string whose checksum does not match, or that is too short to hold version and checksum, raises a Base58 error.',
  ['inputs'],'all byte strings and all strings, including single-character corruptions',
  'Tests use a vector file.',
  [BL+'base58.py'],[('encode, decode, CBase58Data',BL+'base58.py')],['encode, decode, CBase58Data'])
p('C38','Addresses and output scripts correspond one to one on each network',
  'On every network, an address made from a public key, redeem script, output script or string has the network\'s version byte, converts to the standard P2PKH or P2SH script of its hash, and converts back to the same address; addresses of other networks and unrecognised scripts raise address errors, never other exceptions. Bare-public-key and non-canonical push forms are recognised exactly when allowed.',
  ['inputs','configurations'],'all hashes, keys, scripts near the standard templates, all networks and switches between them',
  'Tests cover a few literals on mainnet.',
  [BL+'wallet.py',BL+'__init__.py'],[('CBitcoinAddress classes',BL+'wallet.py'),('SelectParams',BL+'__init__.py')],['from_*/to_scriptPubKey, str'])
p('C39','Keys derive, sign and verify according to secp256k1',
  'For every valid secret the public key is the right curve point in the requested (un)compressed form, and secrets round-trip through their Base58 form with compression flag on every network. A signature by the key verifies for exactly that hash and key per an independent ECDSA implementation, and not for another hash, key or altered signature; invalid public keys are flagged as such and bad-length hashes or secrets raise errors. Two keys derive the same shared secret (the x coordinate of the common point, hashed by default), and exported private keys import to the same key.',
  ['inputs'],'all secrets, hashes, compression choices, corrupted points and signatures',
  'One flaky test file with one key, left out of the stable suite.',
  [BL+'core/key.py',BL+'wallet.py'],[('CECKey, CPubKey',BL+'core/key.py'),('CKey, CBitcoinSecret',BL+'wallet.py')],['sign, verify, pub'])
p('C40','Transaction checks accept exactly the context-free valid transactions',
  'The context-free transaction check passes exactly when there are inputs and outputs, the size is within the block limit, every value and the running total are in the money range, no input is duplicated, a coinbase script is 2 to 100 bytes, and no other transaction spends the null outpoint. Otherwise it raises its own error and it never modifies the transaction.',
  ['inputs'],'all transactions around each limit, mutable and immutable, with combinations of faults',
  'Recorded vectors contain one example per rule.',
  [BL+'core/__init__.py'],[('CheckTransaction',BL+'core/__init__.py')],['CheckTransaction'])
p('C41','Block checks accept exactly the context-free valid blocks',
  'The block check passes exactly when the header is valid, there are transactions within the size limit, the first and only the first is a coinbase, every transaction (coinbase included) passes the transaction check, no transaction repeats, the total of legacy signature operations of all transactions is within the limit, and the merkle root matches unless that check is disabled. The header check enforces proof of work unless disabled and the two-hour future limit; all failures are validation errors.',
  ['inputs','configurations'],'all blocks around each limit with combinations of faults and switches',
  'Two recorded blocks.',
  [BL+'core/__init__.py'],[('CheckBlock, CheckBlockHeader, GetLegacySigOpCount',BL+'core/__init__.py')],['CheckBlock, CheckBlockHeader'])
p('C42','Compact targets and proof of work follow consensus on each network',
  'Decoding the compact target equals mantissa times 256 to the exponent minus three (rounded down), difficulty is the ratio of the difficulty-one target to it, and proof of work is accepted exactly when the target is positive, non-negative-signed, within the selected network\'s limit and not below the hash read as a little-endian number.',
  ['inputs','configurations'],'all 32-bit compact values, hashes at and around the target, all networks',
  'Tests use a few real block headers.',
  [BL+'core/serialize.py',BL+'core/__init__.py'],[('uint256_from_compact',BL+'core/serialize.py'),('CheckProofOfWork',BL+'core/__init__.py')],['CheckProofOfWork, difficulty'])
p('C43','Merkle roots and trees equal the reference construction',
  'For any non-empty list of transactions the merkle tree lists every level from the transaction ids up and its last element is the reference root (last node duplicated on odd levels), equal for the block\'s stored tree, recomputation and construction from any iterable of ids. A block without transactions has an empty tree and computing its root is a value error.',
  ['inputs'],'all list lengths, including odd counts at several levels, and duplicate ids',
  'Tests check a few recorded blocks.',
  [BL+'core/__init__.py'],[('build_merkle_tree_from_txids',BL+'core/__init__.py')],['calc_merkle_root, vMerkleTree'])
p('C44','Peer-to-peer messages frame and round-trip; damaged ones are rejected',
  'Every message serializes to network magic, padded command, length, checksum and the protocol payload, and reading it back (alone or in a stream of several) yields the same kind of message with equal fields. A wrong magic or checksum is a value error, truncated data a truncation error, an absurd length a serialization error, and an unknown command is skipped with no message; alerts and every version-handshake protocol variant round-trip.',
  ['inputs','histories'],'all message kinds and field values, all networks, streams of messages, corruptions of any byte',
  'Tests round-trip one default instance of each message.',
  [BL+'messages.py',BL+'net.py'],[('MsgSerializable',BL+'messages.py'),('CAddress, CInv, CBlockLocator, alerts',BL+'net.py')],['to_bytes, stream_deserialize'])
p('C45','Bloom filters never give false negatives and match the protocol',
  'Every element inserted, as bytes or outpoint, is reported as contained, whatever is inserted before or after and after serialization; bits set are exactly those of the protocol\'s MurmurHash3 seeds, and the hash equals the reference for all seeds and data. Filter sizes and hash counts follow the protocol formula and limits, and filters round-trip through their protocol serialization and stay usable.',
  ['inputs','histories'],'all element sequences, parameters, tweaks, flags, data lengths',
  'Tests use three recorded filters.',
  [BL+'bloom.py'],[('MurmurHash3, CBloomFilter',BL+'bloom.py')],['insert, contains, serialize'])
p('C46','The RPC proxy translates requests and replies exactly',
  'Each wrapped RPC call sends one JSON-RPC request with the right method, parameters (hashes in display order, hex data, string addresses) and credentials, and converts the reply to the right objects with amounts as exact integer satoshis. A server error raises the documented exception, and configuration from a file picks the user, password, port and network default correctly.',
  ['inputs','configurations'],'all hashes, amounts to the satoshi, transactions, blocks, replies and errors, against a recording stand-in connection',
  'One test constructs a proxy; no call is tested.',
  [BL+'rpc.py'],[('Proxy methods',BL+'rpc.py'),('RawProxy._call',BL+'rpc.py')],['requests captured, values returned'])
p('C47','Hex helpers and money formatting are exact inverses of their inputs',
  'Hex conversion and its byte-reversed variant are mutually inverse for all byte strings and equal the reference, and odd-length or non-hex text is rejected. Formatting an amount of either sign prints its exact decimal value with at least one and at most eight fractional digits and no superfluous zeros, and the money range test holds exactly from zero to 21 million coins.',
  ['inputs'],'all byte strings and all amounts',
  'Tests check a short literal table.',
  [BL+'core/__init__.py'],[('x, lx, b2x, b2lx, str_money_value, MoneyRange',BL+'core/__init__.py')],['helpers'])
p('C48','Selecting a network switches every parameter together',
  'After selecting any network, in any sequence of selections, address versions, proof-of-work limit, magic bytes, ports, genesis block and core parameters are all those of the selected network, and its genesis block passes the block check. Selecting an unknown network raises a value error and leaves the previous selection in force.',
  ['configurations','histories'],'all sequences of valid and invalid selections',
  'No test selects a network.',
  [BL+'__init__.py',BL+'core/__init__.py'],[('SelectParams, _SelectCoreParams',BL+'__init__.py')],['bitcoin.params, bitcoin.core.coreparams'])
p('C49','Count and list encodings of the Bitcoin protocol round-trip',
  'CompactSize integers encode minimally at every magnitude up to 64 bits, decode exactly and reject negatives; byte strings, hash vectors, signed-integer vectors, strings and vectors of objects encode as a count followed by their elements and decode to equal lists. Little-endian 256-bit conversions are exact, and the double-SHA256 and Hash160 helpers equal their definitions.',
  ['inputs'],'all integers, byte strings and lists across the encoding thresholds',
  'Tests cover a few literals per helper; some decoders are never called.',
  [BL+'core/serialize.py'],[('VarIntSerializer and vector serializers',BL+'core/serialize.py')],['serialize/deserialize'])
p('C50','Printing any object succeeds and identifies it',
  'repr() and str() of anything that can be built or received - scripts of any bytes, structures, every version of every network message, keys, addresses, bit strings, hash tags, whole and pruned proofs, trees and ranges - give text and never raise. Where the text is an expression (bits, tags, opcodes, scripts, outpoints, inputs, outputs, transactions, keys, Base58 data, ranges of plain values) evaluating it gives the object back, with exact amounts; a proof shows its class and hash, and a cut script its complete operations followed by an error mark.',
  ['inputs'],'all objects, including ones received from the network with out-of-range times, unknown types or cut scripts',
  'Tests compare a few literal scripts and outpoints.',
  [BL+'core/script.py',BL+'core/__init__.py',BL+'messages.py',BL+'net.py',PM+'proof.py',PM+'bits.py',PM+'mmr.py',PM+'serialize.py'],[('CScript.__repr__, CScriptOp.__repr__',BL+'core/script.py'),('__repr__ of structures',BL+'core/__init__.py'),('__repr__ of messages',BL+'messages.py'),('Proof.__repr__',PM+'proof.py')],['repr, str'])
p('C51','Results depend on nothing but the data operated on',
  'What an operation on given data returns, or the error it raises, is the same when it is the first thing a process does, after any other successful or failing operations, in any order, repeated, from several threads at once, whichever of them runs when and also when they read the same objects, in a process with another hash seed, and (misuse that assertions catch aside) in one started with assertions disabled. Objects made earlier read the same after everything done later.',
  ['histories','schedules','configurations'],'all sequences and interleavings of operations of every module, with failing ones among them',
  'Each test does one thing in a fixed order in one process with assertions enabled.',
  [PM+'proof.py',PM+'serialize.py',PM+'merbinnertree.py',PM+'mmr.py',BL+'core/__init__.py',BL+'core/serialize.py',BL+'core/script.py',BL+'core/scripteval.py','proofchains/singleusesealproof.py'],
  [('lazily computed hashes and class attributes',PM+'proof.py'),('module-level tables and switches',BL+'core/script.py')],['every public operation'])
p('C52','Spends signed as documented are accepted, and altered ones refused',
  'For every standard output kind (public key, public key hash, bare multisignature, script hash of each), signing the digest of the documented signature hash with the right keys and putting the pushes in the documented order gives an input that verifies. After changing anything that the hash type commits to, or using a wrong key, signature, order or output script, it does not; after changing what the hash type leaves open, it still does.',
  ['inputs','configurations'],'all output kinds, hash types, numbers of inputs and outputs, key forms and alterations',
  'The recorded vectors contain fixed transactions of few kinds; nothing signs and then alters.',
  [BL+'core/script.py',BL+'core/scripteval.py',BL+'wallet.py',BL+'core/key.py'],[('SignatureHash',BL+'core/script.py'),('VerifyScript, _CheckMultiSig',BL+'core/scripteval.py')],['VerifyScript'])
p('C53','Objects of mixed kinds share one stream without disturbing each other',
  'Objects of any kinds written one after another to one stream, or as prefix of unrelated bytes, are read back in order as equal objects, each consuming exactly the bytes it wrote and leaving the position at the next. Cutting the stream anywhere gives the objects before the cut and a truncation error for the one it falls in.',
  ['inputs','histories'],'all sequences of Bitcoin structures, messages, proofs, trees, maps, seals, bit strings and primitive values',
  'Tests read each kind from a buffer of its own.',
  [BL+'core/serialize.py',BL+'core/__init__.py',BL+'messages.py',BL+'net.py',PM+'serialize.py',PM+'proof.py',PM+'bits.py'],[('stream_serialize, stream_deserialize',BL+'core/serialize.py'),('Bytes/Stream serialization contexts',PM+'serialize.py')],['stream position, values read'])
p('C54','Equality and hashing obey the contract across all kinds of objects',
  'For any two objects == is true exactly if they are of the same kind with the same contents (proofs: the same commitment, pruned or not), != is its negation, both are symmetric, objects that compare equal hash equally, and comparison with anything foreign is false without an error. So dictionaries and sets hold one entry for each distinct object, however it was made, copied or read.',
  ['inputs'],'all pairs of objects of all kinds, equal, nearly equal or unrelated, built, read back, pruned, copied or mutable',
  'Tests compare a few pairs of a single kind.',
  [BL+'core/serialize.py',BL+'core/__init__.py',BL+'net.py',BL+'messages.py',BL+'bloom.py',PM+'proof.py',PM+'bits.py'],[('Serializable.__eq__, __ne__, __hash__',BL+'core/serialize.py'),('Proof.__eq__, __hash__',PM+'proof.py'),('Bits.__eq__, __hash__',PM+'bits.py')],['==, !=, hash()'])
p('C55','Work and proof size grow with the path, not with the collection',
  'Looking up, appending, replacing or removing one item, hashing what changed, testing inclusion of trees that share most nodes, and making, sending and reading a proof of one item take work proportional to the path length: logarithmic for a mountain range, the depth of the construction for a radix tree. Hashing and pruning proofs that share their parts is linear in the distinct parts; operations over whole collections, transactions, scripts and bit strings are linear, not quadratic.',
  ['inputs','histories'],'all ranges, trees, chains, transactions, scripts and bit strings, short and long, wide and deep, after any operations',
  'Tests use a few dozen items and do not measure work; a lost cache or a full scan gives the same results.',
  [PM+'mmr.py',PM+'merbinnertree.py',PM+'proof.py',PM+'bits.py',BL+'core/__init__.py',BL+'core/script.py'],[('__getitem__, append, extend, slices',PM+'mmr.py'),('descend, put, remove, issubset',PM+'merbinnertree.py'),('cached hashes, lazy unpruning',PM+'proof.py')],['number of function calls made, bytes of the proof'])
p('C56','Hostile bytes cost in proportion to their length',
  'Reading any bytes as an object of any kind - with lengths and counts claimed that are far larger than what follows, parts repeated thousands of times or nested thousands deep - takes calls and memory within a constant for each byte present (from files, plus at most the size the Bitcoin protocol allows for one object). It gives an object, or the error its codec documents; the same from memory as from a file.',
  ['inputs','resource exhaustion'],'all byte strings, structured or not, read as every kind, from memory and from files',
  'Tests read only well-formed data and a few truncations, and do not measure work.',
  [PM+'serialize.py',PM+'bits.py',PM+'proof.py',BL+'core/serialize.py',BL+'core/__init__.py',BL+'messages.py'],[('Bytes/Stream deserialization contexts',PM+'serialize.py'),('BitsSerializer.ctx_deserialize',PM+'bits.py'),('ser_read, VectorSerializer',BL+'core/serialize.py')],['deserialize, stream_deserialize, read_obj: outcome, calls made, memory taken'])
p('C57','A failed script reports the operation and the state it failed in',
  'When evaluating a script fails at an operation, the error carries that operation, its data and position, and the state just before it: the stack, the alternate stack and the open conditional branches, whatever the operation and the reason, together with the number of operations counted so far (the failing one and its keys included), the script, transaction, input index and flags. (When the limit on the number of stack items is exceeded the state includes the item that exceeds it.) A script that fails as a whole - too large, a cut-off push, an unterminated conditional - reports the stack reached and names no operation. The class of the error tells missing arguments, failed VERIFY operations and the operation limit from each other and from everything else. In a pair of scripts, the error is about the input, output or redeem script that failed.',
  ['inputs'],'all scripts that fail, all initial stacks, all reasons of failure, in and out of branches, alone and in pairs with and without P2SH',
  'The tests only look at whether evaluation fails; none looks at what the error carries.',
  [BL+'core/scripteval.py'],[('EvalScriptError and its subclasses',BL+'core/scripteval.py'),('err_raiser in _EvalScript',BL+'core/scripteval.py'),('_BinOp, _UnaryOp, _CheckMultiSig raising before they change the stack',BL+'core/scripteval.py')],['attributes of the EvalScriptError raised by EvalScript and VerifyScript'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
