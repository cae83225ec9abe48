"""Registry: what each property's check runs (see DESIGN.md)."""


def c01(r):
    r.trace('d_wire.py', ['rt'], 'TraceWire')
    r.model('WireMC', cfg_thorough='WireMCDeep.cfg',
            replay=('d_wire_replay.py', ['ser']))


def c02(r):
    r.trace('d_wire.py', ['parse'], 'TraceWire')
    r.model('WireMC', cfg_thorough='WireMCDeep.cfg',
            replay=('d_wire_replay.py', ['parse']))


def c03(r):
    r.trace('d_wire.py', ['conf'], 'TraceWire')
    r.model('ConfMC', cfg_thorough='ConfMCDeep.cfg',
            replay=('d_wire_replay.py', ['conf']))


def c04(r):
    r.trace('d_hist.py', [], 'TraceHist', steps=True)
    r.model('WireMC', cfg_thorough='WireMCDeep.cfg',
            replay=('d_wire_replay.py', ['id']))
    r.model('PredsMC', cfg='HistMC.cfg', cfg_thorough='HistMCDeep.cfg',
            replay=('d_pred.py', ['replayids']))


def c05(r):
    r.trace('d_heap.py', ['trace'], 'TraceHeap', steps=True)
    r.model('HeapMC', replay=('d_heap.py', ['replay']))
    if r.tier == 'thorough':
        r.model('HeapMC', 'HeapMCDeep.cfg', replay=('d_heap.py', ['replay']),
                args=['-simulate', 'num=400', '-depth', '8', '-seed', '@SEED'])


def c21(r):
    r.trace('d_handle.py', ['trace'], 'TraceHandle', steps=True)
    r.model('HandleMC', replay=('d_handle.py', ['replay']))
    if r.tier == 'thorough':
        r.model('HandleMC', 'HandleMCDeep.cfg', replay=('d_handle.py', ['replay']),
                args=['-simulate', 'num=4000', '-depth', '10', '-seed', '@SEED'])


def c22(r):
    r.trace('d_wire.py', ['size'], 'TraceWire')
    r.model('WireMC', cfg_thorough='WireMCDeep.cfg',
            replay=('d_wire_replay.py', ['vsize']))


def c06(r):
    r.trace('d_sighash.py', ['trace', 'legacy'], 'TraceSighash')
    r.model('SighashMC', 'SighashMC_legacy.cfg', replay=('d_sighash.py', ['replay']))


def c07(r):
    r.trace('d_sighash.py', ['trace', 'v0'], 'TraceSighash')
    r.model('SighashMC', 'SighashMC_v0.cfg', replay=('d_sighash.py', ['replay']))


def c08(r):
    r.trace('d_sighash.py', ['trace', 'tap'], 'TraceSighash')
    r.model('SighashMC', 'SighashMC_tap.cfg', replay=('d_sighash.py', ['replay']))


def c09(r):
    r.trace('d_ids.py', ['ids'], 'TraceIds')
    r.model('IdsMC', cfg_thorough='IdsMCDeep.cfg', replay=('d_ids.py', ['replay']))


def c10(r):
    r.trace('d_addr.py', ['conf'], 'TraceAddr')
    r.model('AddressMC', replay=('d_addr.py', ['replayconf']))


def c11(r):
    r.trace('d_addr.py', ['blech'], 'TraceAddr')
    r.model('BlechMC', cfg_thorough='BlechMCDeep.cfg', replay=('d_addr.py', ['replay']))
    # every pattern of at most two wrong characters leaves its own remainder
    n = 118 if r.tier == 'thorough' else 60
    r.model('SyndromeMC', cfg_thorough='SyndromeMCDeep.cfg',
            distinct=1 + 31 * n + 961 * n * (n - 1) // 2)


def c12(r):
    r.trace('d_addr.py', ['str'], 'TraceAddr')
    r.model('AddressMC', replay=('d_addr.py', ['replay']))


def c13(r):
    r.trace('d_chain.py', ['trace'], 'TraceChain', steps=True)
    r.model('ChainMC', replay=('d_chain.py', ['replay']))
    if r.tier == 'thorough':
        r.model('ChainMC', 'ChainMCDeep.cfg', replay=('d_chain.py', ['replay']),
                args=['-simulate', 'num=8000', '-depth', '8', '-seed', '@SEED'])


def c31(r):
    r.trace('d_fault.py', ['contract'], 'TraceSession')
    r.model('SessionMC', cfg_thorough='SessionMCDeep.cfg',
            replay=('d_fault.py', ['replaykeep']))


def c32(r):
    r.trace('d_fault.py', ['fault'], 'TraceSession')
    r.model('SessionMC', cfg_thorough='SessionMCDeep.cfg',
            replay=('d_fault.py', ['replaytell']))


def c33(r):
    r.trace('d_thread.py', ['trace'], 'TraceThreads')
    r.model('ThreadsMC', cfg_thorough='ThreadsMCDeep.cfg',
            replay=('d_thread.py', ['replay']))


def c34(r):
    r.trace('d_secret.py', ['trace'], 'TraceSecrets')
    r.model('SecretsMC', cfg_thorough='SecretsMCDeep.cfg',
            replay=('d_secret.py', ['replay']))


def c14(r):
    r.trace('d_blind.py', ['out'], 'TraceBlind')
    r.model('BlindMC', 'BlindMC_out.cfg', cfg_thorough='BlindMC_outDeep.cfg',
            replay=('d_blind.py', ['replay']))


def c15(r):
    r.trace('d_blind.py', ['refuse'], 'TraceBlind')
    r.model('BlindMC', 'BlindMC_bad.cfg', cfg_thorough='BlindMC_badDeep.cfg',
            replay=('d_blind.py', ['replay']))


def c16(r):
    r.trace('d_blind.py', ['unblind'], 'TraceBlind')
    r.model('UnblindMC', replay=('d_blind.py', ['replayun']))


def c17(r):
    r.trace('d_ledger.py', ['trace'], 'TraceLedger', steps=True)
    r.trace('d_blind.py', ['aux'], 'TraceBlind')
    for cfg in ('SplitMC.cfg', 'SplitMC3.cfg'):
        r.model('SplitMC', cfg, replay=('d_ledger.py', ['replay']))


def c18(r):
    r.trace('d_blind.py', ['iss'], 'TraceBlind')
    r.model('BlindMC', 'BlindMC_iss.cfg', cfg_thorough='BlindMC_issDeep.cfg',
            replay=('d_blind.py', ['replay']))


def c23(r):
    r.trace('d_tap.py', ['trace'], 'TraceTaptree')
    r.model('TaptreeMC', replay=('d_tap.py', ['replay']))
    if r.tier == 'thorough':
        r.model('TaptreeMC', 'TaptreeMCDeep.cfg', replay=('d_tap.py', ['replay']),
                args=['-simulate', 'num=6000', '-depth', '5', '-seed', '@SEED'])


def c24(r):
    r.trace('d_blind.py', ['result'], 'TraceBlind')
    r.model('ResultsMC', cfg_thorough='ResultsMCDeep.cfg', replay=('d_result.py', ['replay']))


def c25(r):
    r.trace('d_blind.py', ['info'], 'TraceBlind')
    r.model('RangeInfoMC', cfg_thorough='RangeInfoMCDeep.cfg',
            replay=('d_blind.py', ['replayinfo']))


def c26(r):
    r.trace('d_ids.py', ['script'], 'TraceIds')
    r.model('ScriptOpsMC', cfg_thorough='ScriptOpsMCDeep.cfg',
            replay=('d_ids.py', ['replay']))


def c27(r):
    r.trace('d_ctor.py', ['ctor'], 'TraceCtor')
    r.model('CtorMC', cfg_thorough='CtorMCDeep.cfg', replay=('d_ctor.py', ['replay']))


def c28(r):
    r.trace('d_text.py', ['text'], 'TraceText')
    r.model('TextMC', cfg_thorough='TextMCDeep.cfg', replay=('d_text.py', ['replay']))


def c29(r):
    r.trace('d_pred.py', ['ask'], 'TracePreds')
    r.model('PredsMC', cfg_thorough='PredsMCDeep.cfg', replay=('d_pred.py', ['replay']))


def c30(r):
    r.trace('d_sign.py', ['trace'], 'TraceSign', steps=True)
    r.model('SignMC', cfg_thorough='SignMCDeep.cfg', replay=('d_sign.py', ['replay']))


def c19(r):
    r.trace('d_ids.py', ['peg'], 'TraceIds')
    r.model('PegoutMC', cfg_thorough='PegoutMCDeep.cfg',
            replay=('d_ids.py', ['replay']))


def c20(r):
    r.trace('d_ids.py', ['key'], 'TraceIds')
    r.model('KeysMC', replay=('d_ids.py', ['replay']))


MC = 'model_checking'
RULE_TRACE = ('an event counts as non-trivial when it is distinct (as a whole '
              'record) and exercises the clause it is judged by; ')
TRUST = ('the Java overrides of the hash and curve primitives in '
         'spec/java/Prims.java', 'TLC and the CommunityModules',
         'the driver reads objects through public attributes only')
SIGTECH = ('TLA+ digest specification with a table of committed fields checked '
           'by TLC over every hash type, index, shape and single-field change; '
           'all its behaviours replayed, recorded digests judged by TLC')
SIGNOTE = ('Exhaustive over SighashMC (2 inputs, up to 2 outputs, every '
           'single-field change); sampled beyond it. Trusts the hash overrides.')
ZKP = TRUST + (
    'libsecp256k1-zkp is not installed: zkp/ideal_zkp.c stands in for it with '
    'transparent, perfectly binding encodings, specified in spec/Zkp.tla',)
CHECKS = {
    'C01': dict(
        stages=c01, level=MC,
        technique='TLA+ specification of the wire format: TLC exhausts a small '
                  'universe whose every behaviour is replayed into the code, '
                  'and recorded runs of the code are judged by TLC',
        note='Exhaustive over the small universe of WireMC (all combinations '
             'of flags, field forms and witness shapes for up to 1 input and '
             '1 output); sampled beyond it. Trusts the hash overrides.',
        rule=RULE_TRACE + 'distinct transactions and parts, all construction routes',
        assumptions=TRUST),
    'C02': dict(
        stages=c02, level=MC,
        technique='TLA+ parser specification: recorded decodings of valid, '
                  'mutated and truncated byte strings are judged by TLC; all '
                  'behaviours of WireMC are replayed',
        note='Every truncation and every single-byte change of the flag, '
             'prefix and length bytes of sampled encodings; sampled beyond.',
        rule=RULE_TRACE + 'distinct byte strings given to the decoder',
        assumptions=TRUST),
    'C03': dict(
        stages=c03, level=MC,
        technique='TLA+ classification of confidential fields and a model of '
                  'a field travelling (TLC), replayed; recorded observations '
                  'judged by TLC',
        note='All 256 prefix bytes and all lengths around the valid ones '
             '(thorough: all lengths to 70) for the three kinds; contents '
             'sampled.',
        rule=RULE_TRACE + 'distinct field contents and outputs',
        assumptions=TRUST),
    'C04': dict(
        stages=c04, level=MC,
        technique='TLA+ state machine of a mutable transaction; recorded '
                  'modification/query histories are validated step by step by '
                  'TLC; all histories of a bounded writing model and all WireMC '
                  'transactions replayed for ids',
        note='All histories of 4 (thorough: 5) writing steps and all WireMC '
             'transactions; longer and larger histories are sampled.',
        rule=RULE_TRACE + 'distinct histories of modifications and queries',
        assumptions=TRUST),
    'C05': dict(
        stages=c05, level=MC,
        technique='TLA+ object graph with copying and naming: TLC checks '
                  'separation and immutability over all short programs, all of '
                  'them replayed; recorded longer programs validated step by '
                  'step by TLC',
        note='All programs of 3 operations around one transaction and one of '
             'its parts; longer ones (up to 14 operations on all classes) '
             'sampled. Objects the program itself assigns are shared by '
             'design of the language.',
        rule=RULE_TRACE + 'distinct programs',
        assumptions=TRUST),
    'C06': dict(
        stages=c06, level=MC, technique=SIGTECH,
        note=SIGNOTE + ' Scripts that cannot be read to their end are outside '
             'the domain.',
        rule=RULE_TRACE + 'distinct (transaction, script, index, hash type)',
        assumptions=TRUST),
    'C07': dict(
        stages=c07, level=MC, technique=SIGTECH, note=SIGNOTE,
        rule=RULE_TRACE + 'distinct (transaction, script, index, amount, hash type)',
        assumptions=TRUST),
    'C08': dict(
        stages=c08, level=MC, technique=SIGTECH, note=SIGNOTE,
        rule=RULE_TRACE + 'distinct (transaction, spent outputs, index, hash type, '
             'spend kind, annex)',
        assumptions=TRUST),
    'C09': dict(
        stages=c09, level=MC,
        technique='TLA+ ledger of issuances whose ids never collide (TLC), every '
                  'issuance replayed; recorded derivations judged by TLC',
        note='All pairs (thorough: triples) of 48 issuances; sampled beyond. '
             'Collision freedom in general rests on SHA-256.',
        rule=RULE_TRACE + 'distinct (outpoint, contract) and entropies',
        assumptions=TRUST),
    'C10': dict(
        stages=c10, level=MC,
        technique='TLA+ address codec and a model of users blinding, writing, '
                  'reading and stripping addresses (TLC), replayed; recorded '
                  'operations and refusals judged by TLC',
        note='All networks, kinds, entry points and active chains; payloads and '
             'keys sampled.',
        rule=RULE_TRACE + 'distinct (address, blinding key, route)', assumptions=TRUST),
    'C11': dict(
        stages=c11, level=MC,
        technique='TLA+ Blech32 codec: TLC proves the two formulations of '
                  'decoding equal and every damage detected over all '
                  'single-character changes (and all 2-error syndromes '
                  'distinct, hence 4-error detection), replayed; recorded '
                  'decodings judged by TLC',
        note='4-error detection is exhaustive on the specification (60 '
             'characters quick, 118 thorough) and sampled on the code; '
             'single changes exhaustive on the code for the chosen bases.',
        rule=RULE_TRACE + 'distinct strings and (version, payload) pairs',
        assumptions=TRUST),
    'C12': dict(
        stages=c12, level=MC,
        technique='TLA+ table of which class takes which text, checked '
                  'unambiguous by TLC and replayed for all classes and active '
                  'chains; recorded readings judged by TLC',
        note='All 48 address classes and 6 extended key classes, 3 active '
             'chains; payloads sampled. WIF keys share their header between '
             'the two networks and are outside the property.',
        rule=RULE_TRACE + 'distinct (string or script, active chain)',
        assumptions=TRUST),
    'C13': dict(
        stages=c13, level=MC,
        technique='TLA+ state machine of chain selection in several lanes: '
                  'TLC checks that a lane depends on its own history alone, '
                  'all short histories replayed with threads and contexts; '
                  'recorded longer ones with looks at objects judged step by '
                  'step by TLC',
        note='All histories of 3 operations in 2 lanes over 3 chains; longer '
             'ones (up to 20 operations, 4 lanes, all chains) and racing '
             'threads sampled. A new thread first selects a chain.',
        rule=RULE_TRACE + 'distinct histories of more than one lane',
        assumptions=TRUST + ('threads are switched between operations (at any '
                             'bytecode in the racing histories)',)),
    'C14': dict(
        stages=c14, level=MC,
        technique='TLA+ relation between a blinding request and its outcome over '
                  'ideal confidential-assets cryptography: TLC checks its '
                  'guarantees on all small requests, replayed; recorded '
                  'blindings judged by TLC',
        note='All requests of up to 2 inputs and outputs without issuance (thorough: 3 outputs); sampled beyond, up to 4 inputs and outputs, with foreign inputs, issuances and all factor forms. The cryptography is idealised.',
        rule=RULE_TRACE + 'distinct requests with something to blind',
        assumptions=ZKP),
    'C15': dict(
        stages=c15, level=MC,
        technique='TLA+ predicate of granted requests, checked and replayed on all '
                  'small requests; recorded outcomes of spoiled and valid '
                  'requests judged by TLC',
        note='36 kinds of inconsistency, alone and in pairs, on sampled requests; all small requests with misplaced keys.',
        rule=RULE_TRACE + 'distinct requests', assumptions=ZKP),
    'C16': dict(
        stages=c16, level=MC,
        technique='TLA+ unblinding function over ideal cryptography: TLC checks '
                  'that exactly the pieces that belong together open, over all '
                  'mixtures, replayed; recorded unblindings with right, altered '
                  'and crafted data judged by TLC',
        note='All mixtures of the pieces of 3 outputs and an issuance; every '
             'kind of alteration for sampled outputs and issuances.',
        rule=RULE_TRACE + 'distinct (key, output, proof)', assumptions=ZKP),
    'C17': dict(
        stages=c17, level=MC,
        technique='TLA+ ledger with blinding by several parties and the '
                  'verification rules of a sealed transaction: TLC proves that '
                  'split blinding balances for all configurations, orders and '
                  'scalars of a small field, replayed; recorded chains judged '
                  'step by step by TLC',
        note='All configurations of 2 (3) parties with up to 2 (1) hidden '
             'inputs and 3 (2) outputs each, in all orders; chains of up to 4 '
             'transactions of 3 parties sampled, with issuances and '
             'reissuances.',
        rule=RULE_TRACE + 'distinct histories with more than one blinding',
        assumptions=ZKP),
    'C18': dict(
        stages=c18, level=MC,
        technique='TLA+ relation between a blinding request and its outcome, '
                  'checked and replayed on all small requests with issuances; '
                  'recorded blindings judged by TLC',
        note='All issuance forms and key choices on one input with up to 2 outputs (thorough: 2 inputs); sampled beyond.',
        rule=RULE_TRACE + 'distinct requests with something to blind',
        assumptions=ZKP),
    'C24': dict(
        stages=c24, level=MC,
        technique='TLA+ definition of what results are made of and what is seen '
                  'of them: TLC enumerates constructions and how results are '
                  'handed on, all replayed; produced results judged by TLC',
        note='All constructions with up to two ill-typed arguments, handed on '
             'twice (thorough: four times); results of blinding and unblinding '
             'sampled.',
        rule=RULE_TRACE + 'distinct results', assumptions=ZKP),
    'C25': dict(
        stages=c25, level=MC,
        technique='TLA+ definition of what a range proof shows, checked on all '
                  'small proofs and damaged ones, all replayed; recorded '
                  'blindings and looks at their proofs judged by TLC',
        note='All exponents and sizes (quick: 4 x 9 of them) with 6 amounts and '
             '4 minima; proofs made in blinding sampled over the parameters.',
        rule=RULE_TRACE + 'distinct requests with something to blind, and proofs',
        assumptions=ZKP),
    'C26': dict(
        stages=c26, level=MC,
        technique='TLA+ definition of the Elements operations and of how scripts '
                  'are put together and read: TLC checks that every script of '
                  'the bounded set reads back, all of them replayed; recorded '
                  'scripts judged by TLC',
        note='All single elements and pairs out of 91 and sequences of up to 3 '
             '(thorough: 4) out of 10; every operation by name, each way of '
             'building and keeping it; sampled beyond.',
        rule=RULE_TRACE + 'distinct scripts',
        assumptions=["script numbers within 32 bits"]),
    'C27': dict(
        stages=c27, level=MC,
        technique='TLA+ table of what each field of each class takes and then '
                  'holds: TLC enumerates classes with their arguments, all '
                  'replayed; recorded constructions and conversions judged by TLC',
        note='Every class with any 2 (thorough: 3) arguments of about 130 kinds '
             'given, immutable and mutable, by name and by position; all '
             'arguments at once sampled; all conversions.',
        rule=RULE_TRACE + 'distinct constructions',
        assumptions=TRUST),
    'C28': dict(
        stages=c28, level=MC,
        technique='TLA+ definition of printed forms: TLC checks that different '
                  'values never print alike, all of them replayed; recorded '
                  'texts judged by TLC',
        note='Pairs out of the bounded set of issuances, fields, inputs, outputs '
             'and witnesses; whole transactions sampled. Texts of scripts are '
             'taken from the library.',
        rule=RULE_TRACE + 'distinct objects',
        assumptions=TRUST),
    'C29': dict(
        stages=c29, level=MC,
        technique='TLA+ definition of every question and its answer: TLC writes '
                  'transactions step by step and checks how the answers hang '
                  'together; all histories replayed, recorded answers judged by TLC',
        note='All histories of 4 (thorough: 5) steps out of 40 kinds; longer ones '
             'over larger transactions sampled.',
        rule=RULE_TRACE + 'distinct (transaction, answers)',
        assumptions=TRUST),
    'C30': dict(
        stages=c30, level=MC,
        technique='TLA+ model of signing, changing and evaluating inputs: TLC '
                  'checks that a signature stands exactly while nothing its hash '
                  'type binds it to is changed; all behaviours carried out with '
                  'keys and evaluated, recorded histories judged by TLC',
        note='12 ways of locking a coin, all hash types, every single change '
             '(thorough: every two) of two inputs and two outputs; longer '
             'histories with other shapes sampled. Taproot: signatures are '
             'verified over the digest, there is no tapscript interpreter.',
        rule=RULE_TRACE + 'distinct histories with a verdict',
        assumptions=TRUST),
    'C31': dict(
        stages=c31, level=MC,
        technique='TLA+ state machine of a session with the crypto library '
                  '(sizes, objects, lifetimes of proofs): TLC checks a careful '
                  'client under every single failing call, all replayed; '
                  'recorded calls judged by TLC',
        note='Calls seen where Python hands them to the library; sizes of the '
             'single factors in the array of factors are not seen.',
        rule=RULE_TRACE + 'distinct uses of the library',
        assumptions=TRUST),
    'C32': dict(
        stages=c32, level=MC,
        technique='TLA+ state machine of a session with the crypto library: '
                  'TLC checks what may be told when calls fail; every call of '
                  'the model and of recorded operations is made to fail in the '
                  'real code, outcomes judged by TLC',
        note='All calls of blindings of up to 2 (thorough: 4) inputs and '
             'outputs with an issuance, of unblinding, of proof information '
             'and of asset commitments; one failing call or all calls of one '
             'function, before or after doing their work; other shapes sampled.',
        rule=RULE_TRACE + 'distinct failing calls',
        assumptions=TRUST),
    'C33': dict(
        stages=c33, level=MC,
        technique='TLA+ model of threads sharing one lazily loaded library: TLC '
                  'checks all switches between two of them, all carried out on '
                  'real threads by a scheduler; recorded interleavings of 2-3 '
                  'threads judged by TLC',
        note='All schedules of 2 threads with up to 2 operations and 2 (thorough: '
             '3) interruptions, at the granularity of the steps of the model; '
             'in the code, threads are switched at lines, frames, or library '
             'calls, sampled within each step. One thread runs at a time: no '
             'true parallelism inside the library.',
        rule=RULE_TRACE + 'distinct interleavings',
        assumptions=TRUST),
    'C34': dict(
        stages=c34, level=MC,
        technique='TLA+ ledger of random bytes and the secrets made of them: TLC '
                  'checks series of blindings (system or own source, forks, '
                  'sources that run dry), all carried out on the real code; '
                  'recorded series judged by TLC',
        note='Secrets are read from what the ideal library was given and put into '
             'its proofs. The quality of the bytes of the operating system itself '
             'is trusted.',
        rule=RULE_TRACE + 'distinct series of blindings',
        assumptions=TRUST),
    'C19': dict(
        stages=c19, level=MC,
        technique='TLA+ writer/reader of scripts: TLC checks that what was '
                  'written is read back for all token sequences and cuts, all '
                  'of them replayed; recorded scripts judged by TLC',
        note='All scripts of up to 3 (thorough: 4) tokens out of 15 with cuts; '
             'every opcode in each position; sampled beyond.',
        rule=RULE_TRACE + 'distinct scripts', assumptions=TRUST),
    'C20': dict(
        stages=c20, level=MC,
        technique='TLA+ wallet handing out keys that never collide (TLC), replayed; '
                  'recorded derivations through every route and key form '
                  'judged by TLC',
        note='Scripts and keys sampled; distinctness rests on HMAC-SHA256.',
        rule=RULE_TRACE + 'distinct (master key, script)', assumptions=TRUST),
    'C21': dict(
        stages=c21, level=MC,
        technique='TLA+ state machine of the library selection: TLC checks all '
                  'short histories, each replayed in a process of its own; '
                  'recorded longer histories judged step by step by TLC',
        note='All histories of 4 operations on 2 names that end in a use; '
             'longer ones (up to 12 operations, 4 names, 8 kinds of files) '
             'sampled. First uses racing in several threads are not explored.',
        rule=RULE_TRACE + 'distinct histories with a use of the library',
        assumptions=TRUST + ('the libraries told apart are built from '
                             'zkp/ (libsecp256k1-zkp is not installed)',)),
    'C22': dict(
        stages=c22, level=MC,
        technique='TLA+ size formulas over the wire specification; recorded '
                  'sizes judged by TLC, WireMC behaviours replayed',
        note='Every address class of both chains; transactions exhaustive over '
             'WireMC and sampled beyond, around compact-size boundaries.',
        rule=RULE_TRACE + 'distinct transactions and addresses',
        assumptions=TRUST),
    'C23': dict(
        stages=c23, level=MC,
        technique='TLA+ construction and verification of script trees: TLC '
                  'checks that every leaf of all small trees verifies and '
                  'altered ones do not, all replayed; recorded trees, tweaked '
                  'keys and signature hashes judged by TLC',
        note='All trees made in two steps of up to 3 scripts or trees with 3 '
             'leaf versions; sampled beyond, every leaf version enumerated.',
        rule=RULE_TRACE + 'distinct accepted trees with an internal key',
        assumptions=TRUST + ('public key tweaking and Schnorr signing are '
                             'those of the installed libsecp256k1',)),
}
NOT_APPLICABLE = {}
