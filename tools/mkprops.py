import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
CORE='elementstx/core/__init__.py'; SCR='elementstx/core/script.py'; WAL='elementstx/wallet.py'; SEC='elementstx/core/secp256k1.py'
BL='elementstx/blech32.py'; LA='elementstx/liquid_addr.py'; INI='elementstx/__init__.py'; UT='elementstx/util.py'

p('C01','Transactions survive the wire unchanged, in the Elements encoding',
 'Serializing any well-formed Elements transaction (any mix of peg-in, issuance, coinbase, explicit, confidential and null fields, with or without witness data, mutable or immutable) gives exactly the bytes of the Elements wire format: version, a flag byte that is 1 exactly when some witness is non-empty, inputs with the issuance and peg-in bits folded into the output index, outputs, lock time, then one witness per input and per output. Deserializing those bytes gives back a transaction with the same value in every field, and a transaction whose witness lists were never filled in serializes like one holding empty witnesses. An input whose output index uses the bits reserved for the issuance and peg-in marks is refused by the serialization instead of being encoded like another input.',
 ['inputs'],'all well-formed transactions: any number of inputs/outputs, any field contents, any witness shape',
 'The tests round-trip the handful of transactions in one JSON file, none of which combines the rare shapes (peg-in with issuance, reissuance, output-only witness, >252 elements).',
 [CORE],[('transaction/input/output/witness stream_serialize and stream_deserialize','CElementsTransaction, CElementsTxIn, CElementsTxOut, CElementsTxWitness'),('issuance and peg-in flag bits','OUTPOINT_ISSUANCE_FLAG, OUTPOINT_PEGIN_FLAG')],
 observe=['serialize()','deserialize()'])
p('C02','Malformed or non-canonical transaction bytes are rejected',
 'Deserialization accepts a byte string only if it is the Elements encoding of some transaction: it raises on truncation, trailing bytes, an unknown flag byte, a witness section that is entirely empty, an unknown commitment prefix or a non-minimal length prefix. Whatever is accepted re-serializes to exactly the same bytes, except that an input flagged as an issuance whose amounts are both null is normalised to a non-issuance input.',
 ['inputs'],'all byte strings',
 'No existing test feeds malformed bytes; the quantifier ranges over every byte string.',
 [CORE],[('flag byte and superfluous-witness checks','CElementsTransaction.stream_deserialize'),('commitment prefix check','CConfidentialCommitmentBase.stream_deserialize')],
 observe=['deserialize()'])
p('C03','Confidential fields are classified and converted exactly',
 'A confidential value, asset or nonce is exactly one of null, explicit or commitment (or, if built from raw bytes with a foreign prefix, none of them and invalid), decided only by its length and prefix byte for its kind. Amounts and asset ids placed in explicit form are returned unchanged, a commitment never yields an explicit amount or asset id (an error is raised instead), bytes of a wrong length are refused at construction, and an output counts as a fee exactly when its script is empty and both its value and its asset are explicit.',
 ['inputs'],'all commitment byte strings for the three kinds, all 64-bit amounts and asset ids',
 'The tests only touch a few explicit values and real commitments; prefix/length boundaries are not exercised.',
 [CORE],[('commitment classes','CConfidentialCommitmentBase and subclasses'),('fee output test','CElementsTxOut.is_fee')],
 observe=['is_null/is_explicit/is_commitment/is_valid','to_amount/to_asset','serialize'])
p('C04','Transaction ids ignore witnesses, full hashes commit to them',
 'The transaction id is the double SHA-256 of the transaction encoded without its witness section and with flag byte 0, so it changes with every non-witness field and with none of the witness data; the full hash is the double SHA-256 of the complete encoding. Both always describe the current contents of the object, also after any sequence of modifications and repeated hash queries on a mutable transaction or its parts, and equality and hashing of objects agree with equality of their encodings.',
 ['inputs','histories'],'all transactions, all interleavings of modifications and hash queries',
 'Tests compare a few fixed ids and never interleave mutation with hash queries.',
 [CORE],[('witness exclusion','CElementsTransaction.stream_serialize'),('hash caching only on immutable objects','CElementsMutableTransaction and the mutable twin classes')],
 observe=['GetTxid()','GetHash()','hash()','=='])
p('C05','Conversions never share mutable state; immutable objects never change',
 'Converting between mutable and immutable forms, cloning, or building a transaction or witness from existing parts gives an object with equal contents whose nested parts all have the requested mutability. From then on no modification of either object, at any depth, or of any buffer passed in by the caller, changes the other, and every attempt to assign or delete a field of an immutable object fails and leaves it unchanged.',
 ['histories','inputs'],'all sequences of construct / convert / clone / modify operations over transactions, inputs, outputs, outpoints and witnesses',
 'Tests check one conversion of one transaction; aliasing only shows for particular sequences of conversions followed by nested modification.',
 [CORE],[('from_instance conversions','every CElements* class'),('immutability','ImmutableSerializable and ReadOnlyField')],
 state=[('object graph','which objects hold references to which parts','the transaction classes')],observe=['attributes','serialize()'])
p('C06','Legacy signature hash follows the Elements pre-segwit rule',
 'For a non-segwit script, any input index and any hash type, the legacy signature hash is the double SHA-256 of the modified transaction (scripts blanked, code separators dropped, outputs and other inputs reduced according to NONE / SINGLE / ANYONECANPAY) encoded without flag byte, without witness and with raw output indices, with issuance data included for the inputs kept, followed by the hash type. Confidential outputs and nonces are committed to, peg-in status is not, and an out-of-range SINGLE or input index is reported as an error rather than silently signed.',
 ['inputs'],'all transactions, scripts, input indices and supported hash types',
 'Tests check only a few signatures over fixed transactions and those need a library that is absent here.',
 [SCR,CORE],[('legacy digest','RawElementsSignatureHash with SIGVERSION_BASE'),('for_sighash serialization','CElementsTxIn.stream_serialize')],observe=['CElementsScript.sighash/raw_sighash'])
p('C07','Segwit v0 signature hash follows the Elements rule',
 'For any transaction, input, amount (explicit or committed) and hash type, the witness v0 signature hash is the double SHA-256 of the Elements digest: version, prevouts hash, sequences hash, issuances hash (null issuances as a zero byte), the input outpoint, script code, serialized amount, sequence, the issuance of this input if any, outputs hash, lock time and hash type, with the parts dropped that ANYONECANPAY / NONE / SINGLE require. It is defined for every lock time, sequence and version, and it changes when any committed field changes and does not change otherwise.',
 ['inputs'],'all transactions, script codes, amounts, input indices and hash types',
 'No test checks a v0 digest against an independent definition; lock times with the top bit set are never tried.',
 [SCR],[('segwit v0 digest','RawElementsSignatureHash with SIGVERSION_WITNESS_V0')],observe=['CElementsScript.sighash/raw_sighash'])
p('C08','Taproot and tapscript signature hashes follow the Elements rule',
 'The taproot signature hash is the TapSighash/elements tagged hash over the genesis block hash twice followed by the Elements digest fields (no epoch byte; outpoint flags, prevouts, spent assets and amounts, spent scripts, sequences, issuances, issuance range proofs, outputs, output witnesses, spend type, this-input data, annex hash, single output, tapscript extension) selected by hash type and spend kind. Every variable-length item is committed with its length, missing witnesses count as empty ones, and it is the same for the mutable and the immutable form of a transaction. Requests that have no defined digest (input index out of range, SINGLE without matching output, wrong number of spent outputs, wrong-length hashes, a signature version of another rule) raise ValueError.',
 ['inputs'],'all transactions, spent outputs, input indices, hash types, annex hashes, leaf hashes, code separator positions, genesis hashes',
 'There is no test of this digest at all beyond a few end-to-end signatures.',
 [SCR],[('schnorr digest','ElementsSignatureHashSchnorr, CElementsScript.sighash_schnorr')],observe=['sighash_schnorr'])
p('C09','Issued asset, token and entropy ids are derived exactly',
 'The entropy of a new issuance is the SHA-256 midstate over the double-SHA of the spent outpoint (without issuance or peg-in bits) and the contract hash; the asset id is the midstate over entropy and zero, and the reissuance token id is the midstate over entropy and one, or two when the issuance amount is blinded. Hence distinct outpoints, contracts or confidentiality give distinct ids, and wrong-length entropy is refused.',
 ['inputs'],'all outpoints, contract hashes, entropies and confidentiality choices',
 'Tests check ids from one recorded transaction set.',
 [CORE],[('derivation functions','generate_asset_entropy, calculate_asset, calculate_reissuance_token')],observe=['the three public functions'])
p('C10','Confidential and plain addresses correspond one to one',
 'Combining any plain Elements or Liquid address with a valid compressed blinding public key gives the confidential address of the same kind and network, whose string decodes back to an equal object, and from which exactly that plain address and that blinding key are recovered. The confidential address pays to the same scriptPubKey and redeem script behaviour as its plain address, it also counts as an address of the plain classes of its kind and network and of no other kind or network, and creation is refused for an invalid key, for an address of another network, or for an address class of another kind.',
 ['inputs','configurations'],'all address payloads, blinding keys, address kinds, networks and requested target classes',
 'Tests use one key and a few fixed addresses per class.',
 [WAL],[('from_unconfidential / to_unconfidential / blinding_pubkey','CCoinConfidentialAddress'),('class table','P2*ElementsConfidentialAddress and LiquidV1 twins')],observe=['str()','to_unconfidential()','blinding_pubkey','to_scriptPubKey()','to_redeemScript()'])
p('C11','Blech32 encoding is exact, canonical and error-detecting',
 'Encoding a witness version, and payload yields the blech32 (version 0) or blech32m (other versions) string of the specification, and decoding accepts exactly the strings that encoding can produce, in all-lower or all-upper case, under the expected human-readable prefix, returning the same version and payload. Every string obtained by changing up to four characters, truncating, mixing case, using the other checksum variant, non-zero padding, wrong program length or unknown version is rejected.',
 ['inputs'],'all prefixes, witness versions, payloads and all candidate strings',
 'Tests decode a few valid addresses; corrupted and boundary-length strings are not tried.',
 [LA,BL],[('checksum and bit regrouping','elementstx/liquid_addr.py encode/decode'),('version/length matching','CBlech32Data')],observe=['encode/decode','address class constructors'])
p('C12','An address or key string is accepted only by its own network and kind',
 'A string produced by an address class (plain or confidential), extended key class of one network is parsed back, by the general and the specific classes of that network, to the same class and contents; it is refused by every class of another network or another kind, and by the generic address class while another network is active. Scripts map to the address class of their kind in the requested network and to no other, and unrecognised scripts are refused. Bytes are taken as the contents of an address class only when their length (and the witness version given) is that of its kind.',
 ['inputs','configurations'],'all address kinds x networks x parsing classes x selected chain parameters x payloads',
 'Tests check each implementation against itself in its own network; the cross product with foreign classes is not explored.',
 [WAL,INI],[('version bytes, hrps and dispatch','CElements*Address classes'),('chain parameters','ElementsParams, ElementsLiquidV1Params')],observe=['class constructors','from_scriptPubKey'])
p('C13','Behaviour depends on the selected chain, never on selection history',
 'After any sequence of chain selections, nested temporary selections (including ones left by an exception) and selections in other threads, generic transaction, script and address constructors create objects of the currently selected chain, and the chain constants (confidential-transaction parameters, tapscript leaf version, network identity, ports) are those of that chain. Objects of explicitly Elements classes keep their classes and give the same bytes, ids and addresses whichever chain is selected, and the same signature hashes and script trees whichever Elements chain is selected.',
 ['histories','configurations','schedules'],'all sequences of selections, nested contexts, exceptions, threads and object operations',
 'Tests select the chain once per class and never nest or interleave selections with existing objects.',
 [INI,WAL,CORE,SCR],[('dispatcher registrations','*ClassDispatcher classes'),('chain parameter classes','ElementsParams, ElementsLiquidV1Params')],
 state=[('selected chain','process/thread-wide current chain','bitcointx chain params')],observe=['select_chain_params','ChainParams context','generic constructors'])
p('C14','Successful blinding hides exactly the requested outputs and balances',
 'When blinding reports success, every output for which a blinding key was given has had its asset and value replaced by commitments that open to the original asset and amount under the reported blinding factors, and carries a nonce, a range proof and a surjection proof; every other output, all other fields and the amounts, assets and scripts are untouched, with zero reported factors. When at least one output was asked to be blinded, the value commitments of all inputs and outputs then balance per asset for the declared input amounts and blinding factors, and the reported count equals the number of outputs and issuances actually blinded. (With the strict mode turned off, success may leave outputs whose asset no input provides without proofs: these are not counted. An output whose final blinding factor would be zero is left unblinded and is reported as such.)',
 ['inputs','histories'],'all transactions, input descriptors, output key choices, random factors',
 'The two blinding tests need an absent library, and replay recorded transactions only.',
 [CORE],[('blinding','blind_transaction, CElementsMutableTransaction.blind')],
 state=[('factor lists','accumulated amounts and factors for balancing','blind_transaction')],observe=['blind() result','transaction fields'])
p('C15','Invalid blinding requests are refused without touching the transaction',
 'A blinding request that is inconsistent with the transaction (too many keys, wrong descriptor count or types, blinding factors out of range, auxiliary generators too few, malformed or unparsable, missing asset without generator, negative amount with factors, invalid key, key for an already blinded, fee, zero-amount spendable or witness-carrying output, issuance key without an explicit issuance amount or with existing proof, already committed issuance, immutable transaction) is refused by an exception or a failure result with a message, and the transaction is then byte-for-byte unchanged. (A consistent request that strict mode reports as incompletely blinded is a failure with a message too, but may leave the transaction modified.)',
 ['inputs'],'all invalid requests, alone and combined with valid parts',
 'No test passes an invalid request.',
 [CORE],[('request validation','blind_transaction prologue')],observe=['blind() result or exception','serialize() before/after'])
p('C16','Unblinding succeeds exactly with the right key, script and proof',
 'Unblinding an output blinded for a key returns exactly the asset, amount and blinding factors it was blinded with, in a form directly usable as an input description. With a different key, script, range proof, nonce, value or asset commitment, with non-blinded value, empty or damaged proof, out-of-range amount, or when the asset commitment does not match the asset and factor recovered from the proof, the result is a failure with a message, never a wrong amount or asset.',
 ['inputs'],'all blinded outputs and all single or combined alterations of key, script, proof, nonce and commitments',
 'Existing unblind tests need an absent library and contain no negative cases.',
 [CORE],[('unblinding','unblind_confidential_pair, CElementsTxOut.unblind_confidential_pair')],observe=['unblind result'])
p('C17','Blinding chains and multi-party split blinding compose',
 'Outputs blinded in one transaction, unblinded by their owners and spent in a further blinded transaction keep balancing through any number of steps. When several parties blind their own outputs of one transaction in turn, each knowing only its own inputs and using auxiliary generators for the rest, each step leaves the outputs blinded by others unchanged, every party can unblind its own outputs, and each surjection proof is made and verified against the asset generators of all inputs, issuances and extra generators, in order. The commitment of a bare asset id (to_commitment) is its unblinded generator, which serves as such an auxiliary generator.',
 ['histories','inputs'],'all chains of blind/unblind/spend steps and all orders of parties blinding',
 'One recorded two-party scenario exists and needs an absent library.',
 [CORE],[('surjection targets and auxiliary generators','blind_transaction, generate_surjectionproof')],observe=['blind()','unblind'])
p('C18','Issuance blinding commits to the right amounts, ids and keys',
 'Blinding an issuance amount or its reissuance-token amount replaces exactly that amount by a commitment to it under the issued asset or token id (the token id for confidential issuance exactly when the token amount is blinded), stores a range proof recoverable with the given issuance key, and leaves entropy, contract and the other amount untouched. The blinded issuance takes part in the balance as an input of its asset, works for every input position, for new issuances and reissuances, and the resulting transaction serializes and deserializes.',
 ['inputs'],'all issuance shapes: positions, asset/token/both, new/reissue, keys given or not, combined with output blinding',
 'No test blinds an issuance.',
 [CORE],[('issuance pseudo-inputs','blind_transaction')],observe=['blind()','assetIssuance','rangeproofs'])
p('C19','Peg-out and unspendable scripts are recognised exactly',
 'A script is a peg-out exactly when it is OP_RETURN followed by a push of 32 bytes and a push of at least one byte (anything may follow), and then the returned genesis hash and mainchain script are those pushed bytes; every other script, including truncated or malformed pushes, is reported as no peg-out without raising. A script is unspendable exactly when it is empty, starts with OP_RETURN, or exceeds the maximum script size.',
 ['inputs'],'all byte strings as scripts',
 'Tests cover no peg-out variants; push encodings and truncations are unbounded.',
 [SCR],[('peg-out parsing','CElementsScript.get_pegout_data, is_pegout'),('unspendable','CElementsScript.is_unspendable')],observe=['get_pegout_data','is_pegout','is_unspendable'])
p('C20','Blinding keys derive deterministically per script',
 'The blinding key of a script is HMAC-SHA256 keyed by the master blinding key over exactly the script bytes, the same through the module function and the script method, for Elements scripts and raw bytes alike, so distinct scripts or master keys give distinct keys. A script object of another chain or a non-key master is refused.',
 ['inputs'],'all master keys and scripts of any length',
 'One vector at most is checked by tests.',
 [CORE,SCR],[('derivation','derive_blinding_key, CElementsScript.derive_blinding_key')],observe=['derive_blinding_key'])
p('C21','Crypto library selection takes effect once and only when valid',
 'Setting a custom library path is refused for anything that is not a file and then leaves the previous setting in force; the path in force at the first use decides which library is loaded, and later settings or uses never replace the loaded library. A failed load leaves the next attempt free to succeed with a corrected path, capabilities reflect the library actually loaded, and without the zero-knowledge capability range-proof inspection raises instead of calling missing functions.',
 ['histories'],'all sequences of set/get path, use, and failing loads',
 'The library handle is process-global; tests exercise one order in one process.',
 [SEC,INI,UT],[('lazy singleton','get_secp256k1'),('path setting','set_custom_secp256k1_path')],
 state=[('library handle','loaded library or none','elementstx/core/secp256k1.py'),('path','custom path or none','elementstx/util.py')],observe=['set/get path','get_secp256k1().cap','rangeproof info'])
p('C22','Reported sizes equal the real encoded sizes',
 'The output size reported for an address (class or instance) equals the length of the encoded output paying to it, with commitment-sized asset, value and nonce for confidential addresses and an explicit value with null asset and nonce for plain ones. The virtual size of a transaction equals its stripped encoded size counted three times plus its full encoded size, divided by four and rounded up.',
 ['inputs'],'all address classes and payloads, all transactions',
 'Tests check constants for a few classes and never the virtual size.',
 [WAL,CORE],[('output size','get_output_size of address classes'),('virtual size','transaction get_virtual_size')],observe=['get_output_size','get_virtual_size'])
p('C23','Taproot script trees use the Elements leaf version and tags',
 'For any tree of Elements scripts, with an Elements chain selected, the merkle root, every leaf path and control block, and the tweaked output key are those of the BIP341 construction with leaf version 0xc4 and the /elements tagged hashes. Every leaf script with its control block verifies against the output key, the tapscript signature hash commits to the same leaf hash, and another leaf version or script does not verify.',
 ['inputs','programs'],'all script trees (shapes, scripts, leaf versions) and internal keys',
 'No test builds an Elements script tree.',
 [SCR,CORE],[('tagged hashers and leaf version','CoreElementsParams'),('tree class','TaprootElementsScriptTree')],observe=['merkle_root','get_script_with_control_block','output_pubkey'])
p('C24','Blinding and unblinding results cannot be mistaken',
 'Every result of blinding or unblinding is either a success with an empty error or a failure with a non-empty error text, and its ok indicator says which. Using a result as a truth value raises, and a success always carries well-typed factors and amounts of the right number.',
 ['inputs','histories'],'all results produced or constructed',
 'Tests look only at ok of a few results.',
 [CORE],[('result classes','BlindingOrUnblindingResult and subclasses')],observe=['ok','error','bool()'])
p('C25','Range proofs carry the chosen parameters and report them exactly',
 'Every range proof made in blinding has the exponent and size that were asked for (each one, when it is not given, as the network defines it: 0 and 52 bits), and its smallest provable amount is 1, or 0 for an unspendable output script or an issuance amount. Reading the information of a range proof held by an output witness (in whatever form or way it was obtained) reports exactly its exponent, mantissa, smallest and largest amount over the full 64-bit range, and reports no information for bytes that are not a range proof.',
 ['inputs','configurations'],'all proof parameters, amounts and proof bytes',
 'No test reads proof information; tests blind with default parameters only.',
 [CORE],[('proof parameters','generate_rangeproof, blind_transaction'),('proof information','CElementsTxOutWitness.get_rangeproof_info')],observe=['rangeproof','get_rangeproof_info'])
p('C26',"Elements opcodes have the protocol's codes, scripts hold exactly their elements",
 'Every Elements operation (from OP_DETERMINISTICRANDOM, 0xc0, to OP_TWEAKVERIFY, 0xe4) stands for the byte the protocol gives it, so no two are the same. A script put together from any sequence of operations, numbers and data, all at once, from an iterator or appended one by one, has exactly the bytes of the encoding of each element in turn, is an Elements script, and keeps its bytes through transaction inputs and outputs and their serialization; reading it gives those elements back, and reading any bytes gives the elements they encode or an error where they are cut short.',
 ['inputs'],'all sequences of operations, numbers and data; all script bytes',
 'The existing tests use a few scripts of Bitcoin operations only; no test mentions the code of an Elements operation.',
 [SCR],[('Elements operations','OP_* constants'),('scripts','CElementsScript')],observe=['OP_*','CElementsScript'])
p('C27','Objects are only made of well-formed parts, and hold exactly those',
 'Constructing an Elements object (outpoint, input, output, witness, issuance, confidential value, asset or nonce, transaction) from any combination of arguments, given by position or by name, to an immutable, mutable or generic class, succeeds exactly when every argument is of the kind and size its field takes, and raises an error otherwise, never leaving a partly made object. The made object holds in each field exactly what was given, in the type of the field (scripts as Elements scripts, proofs and commitments as bytes, parts as mutable or immutable as the whole), the protocol default where nothing was given, and converting class methods take only objects of their own kind.',
 ['inputs'],'all combinations of arguments of every class',
 'The tests construct objects from proper parts only, and never look at what happens to parts of another type or size.',
 [CORE],[('constructors and type checks','__init__ of CConfidential*, CAssetIssuance, CElementsOutPoint, CElementsTxIn, CElementsTxOut, CElementsTx*Witness'),('converting constructors','from_instance, from_txin, from_txout, ...')],observe=['constructors','from_*','fields'])
p('C28','Printed forms show every field, so different values never print alike',
 'Printing any Elements object (repr or str) never fails, names its class, mutable or not, and shows the value of each field: explicit amounts and asset ids as themselves, and in repr commitments, nonces, proofs and witness data as their bytes, so that two different values of a class never have the same repr; parts of an issuance that are null are left out and the others named. In str, what is blinded is shown as CONFIDENTIAL, and an outpoint as its transaction id and index.',
 ['inputs'],'all objects',
 'The tests print default objects only and compare no text of an object with contents.',
 [CORE],[('printing','__repr__, __str__, _repr_or_str')],observe=['repr()','str()'])
p('C29','Questions about transactions and their parts are always answered, and rightly',
 'Every predicate of a transaction and its parts answers, at any time and in any state, according to what the object holds at that time: a transaction is a coinbase exactly when it has one input and that spends the null outpoint, has a witness exactly when some part of it is non-empty (the one that decides the flag byte), is null exactly when it has neither inputs nor outputs; inputs are final, peg-in or issuing, issuances, witnesses and outputs null, outputs a fee or valid (fields of their kinds, asset and amount present, explicit amount within the money range, readable script) exactly by their contents. A predicate mentioned without being called never passes for its answer: taking its truth value raises.',
 ['inputs','histories'],'all transactions and sequences of modifications',
 'Tests ask a few default objects.',
 [CORE],[('predicates','is_null, is_fee, is_valid, is_coinbase, is_final, has_witness, num_issuances')],observe=['is_*()','has_witness()','num_issuances'])
p('C30','A signature stands exactly while nothing it commits to is changed',
 'Signatures made over the signature hash this library gives for an input (bare, P2PKH, P2SH, multisig, code separators, native and nested version-0 witness programs, taproot key and script spends; any standard hash type; explicit or committed spent amounts) are accepted when that input is evaluated - VerifyScript, VerifySignature, or for taproot the key over the digest - against mutable, immutable and re-read forms of the transaction, for as long as nothing their hash types bind the signer to has changed: version, lock time, outpoints, sequences, peg-in flags, issuances, issuance proofs, outputs, output proofs, spent outputs and chain as the protocol prescribes for each script kind. Any change to what is bound makes the input unacceptable, restoring it makes it acceptable again, and no other change matters.',
 ['histories','inputs'],'all coins, keys and hash types, all sequences of signing, changing and evaluating',
 'The tests evaluate no signature at all; whether a later change matters depends on script kind, hash type and position together.',
 [SCR,CORE],[('signature hashes as the evaluator asks for them','CElementsScript.raw_sighash, sighash, sighash_schnorr'),('changing parts of a living transaction','CElementsMutableTransaction, CElementsMutableTxIn, CElementsMutableTxOut, witnesses')],
 observe=['sighash()','VerifyScript','VerifySignature','XOnlyPubKey.verify_schnorr'])
p('C31','The crypto library is only called as its interface requires, whatever fails',
 'In every blinding, unblinding, look at a range proof or computation of an asset commitment, whatever its arguments and whichever call into the crypto library fails: each buffer handed to the library is at least as large as the library takes it to be (and as the sizes and counts given along with it say), generators and commitments handed to it were made by earlier successful calls, each surjection proof that was allocated is destroyed exactly once, before the operation ends and also when it fails, is used only in between, and is serialized or verified only after it was generated.',
 ['inputs','fault_sequences'],'all arguments of the operations that use the library, every library call failing',
 'The tests do not load the library at all, and what is handed over in memory, or left behind after a failure, shows in no result.',
 [CORE],[('calls into the library','blind_transaction, blinded_asset, create_value_commitment, generate_rangeproof, generate_surjectionproof, unblind_confidential_pair, get_rangeproof_info, CAsset.to_commitment'),('argument types','core/secp256k1.py')],
 observe=['calls of secp256k1_*'])
p('C32','When a call into the crypto library fails, no operation reports success',
 'Whenever a call into the crypto library fails in the course of a blinding, unblinding, look at a range proof or computation of an asset commitment, the operation raises or returns a failure and never a success; the one exception is that no surjection proof can be set up for an output, of which one who asked for non-strict success is told by a smaller number of blinded things. A failure leaves nothing behind: the same request made afresh with the same randomness gives exactly the result it would have given without the failure.',
 ['fault_sequences','histories'],'every library call of every operation failing, before or after doing its work',
 'The tests do not load the library at all; a real library fails too rarely for any test to see it.',
 [CORE],[('results of library calls','blind_transaction and its helpers, unblind_confidential_pair, get_rangeproof_info, CAsset.to_commitment')],
 observe=['blind()','unblind_confidential_pair()','get_rangeproof_info()','to_commitment()'])
p('C33','Threads working on things of their own do not disturb each other',
 'Threads that work on objects of their own (or on the same immutable ones), each under the chain parameters it has selected itself, get from every operation of the library - reading, building and printing transactions, hashing for signatures, computing asset ids, blinding, unblinding, looking at range proofs, addresses, taproot trees, selecting chains - exactly what they would have got had no other thread been running, at whatever points they are switched, and also when the crypto library is needed for the first time by several of them.',
 ['schedules'],'all operations in 2 to 3 threads, all points at which they can be switched',
 'The tests run in one thread; a race shows at a few of a great many points of switching.',
 [CORE,SCR],[('process-wide state','core/secp256k1.py get_secp256k1, util.py'),('class dispatch and chain parameters','select_chain_params, ChainParams'),('buffers handed to the library','unblind_confidential_pair, generate_rangeproof, generate_surjectionproof, blind_transaction')],
 observe=['results of all operations'])
p('C34','Every secret of a blinding is fresh randomness',
 'Every blinding factor of an issued amount or an output (but that of the last output, which the others determine), every asset blinding factor, every ephemeral key behind an output nonce and every seed of a surjection proof is 32 whole bytes of what the random source gave - the source handed in, or the randomness of the operating system if none is -, and no byte of it goes into two of them: not within one blinding, not across blindings of the same or other requests or to the same recipients, not after failures, not in forked processes. A source that fails makes the blinding fail. Apart from these bytes and the request, nothing has an influence on the outcome.',
 ['inputs','histories','fault_sequences'],'all requests, sources, histories of blindings and forks',
 'The tests blind with a seeded generator and compare with nothing but the ability to unblind; a reused or predictable secret breaks privacy and no functional check.',
 [CORE],[('blinding factors','blind_transaction _rand_func'),('ephemeral key','generate_output_rangeproof_nonce'),('seed','generate_surjectionproof')],
 observe=['range proofs, nonces and seeds', 'random draws'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
