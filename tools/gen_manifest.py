#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NODE = ('Sampled, not exhaustive. The executor is the real one, started through its entry point on an in-memory '
        'connection; trusts the fake node (pbt/node.py) to answer the way the Go node does, ')
ORACLE = {
    'P01': ('protocol monitor over generated conversations', NODE + 'and that a fresh session shows what the last request should do.'),
    'P02': ('metamorphic: re-delivery of the same session', NODE + 'for the configurations and fragmentations tried.'),
    'P03': ('round trip of generated values', NODE + 'and the independent wire codec (pbt/wire.py).'),
    'P04': ('model-based stateful testing', NODE + 'and the reference model of containers (pbt/model.py).'),
    'P05': ('differential against an independent slot derivation', NODE + 'and the derivation in pbt/model.py.'),
    'P06': ('monitor over generated call trees', NODE + 'which reports every state change made by a read-only frame.'),
    'P07': ('differential against a reference step meter', NODE + 'and the reference meter in pbt/model.py.'),
    'P08': ('differential at every charge boundary of generated programs', NODE + 'and the reference meter; cost tables whose delete and replace entries are refunds.'),
    'P09': ('differential against independent implementations', NODE + 'hashlib and the big-integer secp256k1 in pbt/secp.py.'),
    'P10': ('generated contract classes and names against a rule-based oracle', NODE + 'and the rules in the module.'),
    'P11': ('generated contract classes and amounts against a rule-based oracle', NODE + 'and the rules in the module.'),
    'P12': ('model-based testing of generated call trees', NODE + 'and the reference model.'),
    'P13': ('generated signatures and texts against a strict grammar', NODE + 'and the grammar in the module.'),
    'P14': ('model-based testing of generated failures', NODE + 'and the reference model.'),
    'P15': ('model-based testing of generated calls and replies', NODE + 'and the reference model.'),
    'P16': ('generated event declarations and calls against a rule-based oracle', NODE + 'and the rules in the module.'),
    'P17': ('generated contract classes against an independent description', NODE + 'and the description computed by the generator.'),
    'P18': ('generated well- and ill-formed declarations', NODE + 'and the generator knowing which of its classes are well-formed.'),
    'P19': ('generated packages with allowed and forbidden constructs', NODE + 'and the generator knowing which packages are allowed.'),
    'P20': ('model-based testing of generated call trees', NODE + 'and the reference model.'),
    'P21': ('generated texts, levels and thresholds; metamorphic on results', NODE + 'for the texts and levels tried.'),
    'P22': ('model-based testing of generated request histories', NODE + 'and the generator knowing what each package returns.'),
    'P23': ('differential and round trip against the standard library', NODE + 'and Python\'s json module.'),
    'P24': ('differential against an independent address codec', NODE + 'and the codec in the module.'),
}


GONODE = ('Sampled, not exhaustive. The node\'s Go packages are built from /repo\'s working tree; third-party modules that '
          'are not available offline are replaced by stand-ins (go/stubs). Trusts ')
GO_ORACLE = {
    'P25': ('model-based stateful testing and differential of roots', GONODE + 'the map model and the reference root and '
            'proof functions (go/lib/ref), written from the Merkle Patricia trie definition.'),
    'P26': ('model-based stateful testing of whole chains', GONODE + 'the reference model of the platform (go/lib/hmodel) and '
            'the chain simulator (go/lib/sim), which makes up blocks and votes instead of running consensus and uses '
            'unsigned transactions; contracts are not deployed.'),
    'P27': ('model-based stateful testing of whole chains', GONODE + 'the reference model of planets and rewards '
            '(go/lib/hmodel) and the chain simulator (go/lib/sim); ids stay within 64 bits.'),
    'P28': ('model-based stateful testing of whole chains', GONODE + 'the reference model of validators (go/lib/hmodel) and the '
            'chain simulator (go/lib/sim), which makes up the votes; at least one main validator is kept.'),
    'P29': ('differential testing of whole chains against a second node', GONODE + 'the chain simulator (go/lib/sim); the '
            'schedules of the parallel runs are those the Go scheduler takes, and contracts are not deployed.'),
    'P30': ('generated contents against a reference serialization and hash, tampering, and structured fuzzing of bytes', GONODE +
            'the serialization and signing functions (go/lib/txs), written from the specification and the Java SDK in the '
            'repository; a stand-in of the secp256k1 library for Go; one known finding (lists that begin with an empty text) is '
            'left out; panics are looked for, not every use of memory or time.'),
    'P31': ('two nodes with pools, proposing to each other, and structured fuzzing of all methods of the system contract', GONODE +
            'unsigned stand-in transactions in the facet of calls; contracts are not deployed; progress is asked for within a '
            'bounded number of blocks; a full pool may refuse everybody.'),
    'P32': ('stateful generation of blocks, branches and restarts against a set of executed identifiers', GONODE +
            'restarts lose at most the records of the last block, as the block manager does; thresholds before a restart are at most an hour.'),
    'P33': ('simulation of clusters of whole nodes on a virtual clock, network and disk, with generated faults, crash points and '
            'attacks, against invariants of everything sent and finalized', GONODE +
            'one goroutine runs at a time on the virtual clock, so races within a node are not looked for; the write-ahead log and '
            'the database lose unsynced and batched writes the way the stand-in disk (go/lib/cluster) does; network packets are '
            'delivered by a stand-in of the network manager; no BTP networks, and validators do not change. A failure that depends on '
            'the scheduling is reported with its trace even if it does not happen again.'),
    'P34': ('simulation of a client and servers among lying peers on a virtual clock and network, against the sequence of blocks due', GONODE +
            'the network manager is a stand-in (order per connection, delays, full queues); blocks are stand-ins, checked by the '
            'caller as consensus would; one goroutine runs at a time.'),
    'P36': ('generated packages, bursts of calls and I/O faults against the list of files due', GONODE +
            'contracts are put into the state directly and no engine runs them; the limit of 5 s on unpacking is not exercised; for names '
            'that are not plain only containment and the same outcome every time are asked for.'),
    'P35': ('forging of blocks with proper hashes and signatures, and stateful model-based testing of the block manager', GONODE +
            'the test acts as all validators and as the consensus: it signs votes itself and cancels requests before finalizing, as the '
            'consensus does; the hash of a list of transactions is computed by the code under test; no BTP networks; a crash means that '
            'no later write reaches the database; governance transactions are unsigned stand-ins.'),
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(x)['id'] for x in f]
    checks, na = [], []
    for p in ids:
        if os.path.exists(os.path.join(HERE, 'pbt', 'props', p.lower() + '.py')):
            tech, note = ORACLE[p]
            checks.append({'property': p, 'quick_cmd': './check.sh ' + p,
                           'thorough_cmd': './check.sh %s --tier thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p,
                           'technique': 'property-based testing (Hypothesis): ' + tech,
                           'level': 'exploration', 'level_note': note})
        elif os.path.isdir(os.path.join(HERE, 'go', 'props', p.lower())):
            tech, note = GO_ORACLE[p]
            checks.append({'property': p, 'quick_cmd': './check.sh ' + p,
                           'thorough_cmd': './check.sh %s --tier thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p,
                           'technique': 'property-based testing (rapid): ' + tech,
                           'level': 'exploration', 'level_note': note})
        else:
            na.append({'property': p, 'reason': 'the check is not built yet'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks use the sources as they are. ./check.sh --replay FILE replays a case.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
