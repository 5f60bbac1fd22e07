"""Writes known_findings.json: repaired defects (these suppress nothing) and open ones."""
import json
import os
import subprocess

FIXED = [
    ('P01', 'consume every storage acknowledgement even if accounting one of them fails',
     'running out of steps while refunds of outstanding writes were accounted left acknowledgements unread, so that every later message was taken for another one'),
    ('P01', "answer the request even if its failure can't be handled normally",
     'a failure while handling a failure (an exception whose text fails, an exhausted limit while draining acknowledgements) left the request without its reply'),
    ('P01', 'do not run SCORE code while encoding results',
     'methods of built-in types overridden by a contract (items, __iter__, encode) ran while the result was encoded, outside of its frame, and could send messages in between'),
    ('P01', "do not fail on logging text which can't be encoded in UTF-8",
     'a failure message or log text with a lone surrogate raised inside the logger and replaced the outcome'),
    ('P01', 'keep the conversation with the node on stack overflow',
     'a contract at the end of the stack made the executor fail between sending a message and reading its answer; the session was lost'),
    ('P10', 'check that the method can be called before converting its parameters',
     'an undeclared name called with named parameters failed with the status of the parameter conversion, or of any attribute error, instead of method-not-found'),
    ('P17', 'accept a struct used more than once in another struct',
     'a struct with two fields of one struct type was refused as circular'),
    ('P13', 'convert a parameter named cls like any other one',
     'a parameter named cls was given to the method as text'),
    ('P13', 'refuse invalid texts of integers and byte strings',
     'texts such as "1_000", " 5", "0x 12", Arabic digits or odd separators were taken as integers or bytes, others failed with the wrong status'),
    ('P16', 'refuse unknown keyword arguments of event functions',
     'an event called with a keyword that is not a parameter was sent with the default in its place'),
    ('P03', 'do not fail or run SCORE code on logging values',
     'integers of more than 4300 decimal digits as parameters, results or event arguments failed because the executor prints them'),
    ('P02', 'do not run SCORE code on logging an exception', 'at debug level the text of exceptions was made by contract code, which could write or log'),
    ('P02', 'do not run SCORE code depending on the log level', 'the text of a log message was made only at enabled levels, so __str__ of a contract ran or not'),
    ('P02', 'do not print addresses of objects in logs', 'log messages held addresses of objects, different in every process'),
    ('P02', "give the executor's own code the same stack at any log level", 'at trace level a contract reached the end of the stack a few frames earlier'),
    ('P01', 'keep responses for the caller apart from a call made while encoding it', 'writes made while the arguments of a call were copied or printed were acknowledged inside the callee\'s frame'),
    ('P19', 'run no code of a package while verifying it',
     'the verifier asked the import system for the modules, which executed the __init__ of (sub-)packages that were refused afterwards'),
    ('P19', 'verify packages on current Python versions',
     'the verifier decoded byte code of Python 3.7 only: on the Python here it refused valid packages and took forbidden names for others'),
    ('P19', 'refuse compiled modules on verifying packages',
     'a .so or stray .pyc in a package was importable and never looked at'),
    ('P13', 'do not evaluate type hints of results on converting parameters',
     'a return annotation in quotes was evaluated on every named call: undefined names failed valid calls and any expression in it ran'),
    ('P14', 'keep the status of failures raised by contracts in their range',
     'IconScoreException with a code out of range (or of another type) gave statuses out of 32..999, success (0) among them'),
    ('P01', 'refuse to get balances while answering API requests',
     'a contract whose __init__ asks for a balance sent GETBALANCE during an API request, on which the node panics'),
    ('P01', 'answer API requests without the context of the caller',
     'an API request nested in a call ran code of the package with the context of the calling frame: it could log events, call and be charged'),
    ('P01', "refuse addresses and amounts which the node can't understand",
     'icx.transfer("text", 0), get_balance(None), a call with a text as amount ... sent messages the node can not decode, so it drops the connection'),
    ('P01', "send objects of contracts' own classes as plain values",
     'an instance of a bytes subclass with its own __len__ (or a str subclass with its own encode) made the executor write a wrong length, so that a contract could forge whole messages to the node'),
    ('P08', 'charge for the size of data regardless of its class',
     'values and event arguments whose class overrides __len__ or encode were stored and sent without being charged; a failing __len__ after sending a write left its acknowledgement unread'),
    ('P25', "trie proves a key that is only a prefix of others",
     'the proof of a key whose value sits in a branch node (a key that is a prefix of others) was made, but never verified'),
    ('P26', 'base transaction without data stops the node',
     'executing a block whose base transaction has no data ended the process with a nil pointer, so that one bad proposal stops every validator'),
    ('P28', 'nodes replace penalized validators in different orders',
     'penalized validators were replaced in the order of a Go map, so that with two of them in a block nodes get different validator lists and the chain forks'),
    ('P28', 'standby validator without public key stops the chain',
     'a sub validator without a node public key (possible below revision 5) at the head of the waiting list made the replacement fail, and with it every block, once a validator was to be replaced'),
    ('P29', 'parallel execution hangs after a call of the system contract',
     'with a concurrency level above 1, a block with two calls of the system contract blocked for ever in Dispose of the store of a prepared contract'),
    ('P29', 'errors of parallel execution are lost',
     'with a concurrency level above 1, a block whose transaction fails to execute (a second base transaction) was not refused and its missing receipt stopped the node with a nil pointer'),
    ('P30', "transactions with empty data can't be written as JSON",
     'a proper transaction whose data is an empty JSON value in the binary form was accepted, but every request for it or its block failed'),
    ('P30', 'base transactions with invalid data panic',
     'asking a base transaction with data that is no JSON for its identifier panicked: one message of a peer stopped the node'),
    ('P30', 'double sign reports without data panic',
     'a double sign report without data, from a peer or in a block, ended in a nil pointer'),
    ('P30', 'peers and users can put transactions of the system into the pool',
     'base transactions and double sign reports made by anyone verified without a signature and were pooled, so that proposed blocks held them and failed to execute'),
    ('P30', 'a transaction with unknown data type stops block production',
     'a signed transaction whose dataType is unknown verified and was pooled, but a block with it cannot execute: one transaction of a user stopped block production'),
    ('P30', 'a deposit to a contract without owner panics',
     'a signed deposit to the system contract, which has no owner, ended the process of every node executing it'),
    ('P32', 'transactions of uncommitted blocks are found only partially',
     'a transaction of an uncommitted block, or of its parents, was not found when its list held only younger ones: it could be executed again'),
    ('P32', 'the last microsecond of old transactions is not looked up',
     'a transaction exactly as old as the last one known to have left the cache was not looked up in the database: it could be executed again'),
    ('P32', 'transactions executed before a restart can be executed again',
     'after a restart only the time of the threshold now in force was taken as possibly in the database; with one reduced before, older transactions were executed again'),
    ('P31', 'a transaction larger than a block stops proposing transactions',
     'a transaction that fits no block stayed at the head of the pool, and the proposals remained empty'),
    ('P31', "values which can't be read back stop the chain",
     'setStepCost and others stored numbers beyond 64 bits (and an empty name), whose reading panicked in every later transition; a negative threshold refused all base transactions'),
    ('P31', 'removing an unregistered validator stops the chain',
     'a validator set by genesis or grantValidator without registration made the base transaction at the next term fail'),
    ('P34', "fast sync stalls after rejecting a peer's block",
     'when a block was rejected while its peer was already fetching another one, that height was never asked from anyone else: one lying peer stopped the catch-up of a node'),
    ('P29', "parallel execution uses half updated prices and revisions",
     'after a change of the step price, costs, limits or the revision within a block, a node with concurrency above 1 could run later '
     'transactions of the block with the old ones (a copy of values being updated), so that its result differed from the others'),
    ('P36', "files of a contract package can be written out of its folder",
     'a package with a file such as ../../x wrote outside of its folder: anyone who deploys could overwrite files of the node'),
    ('P36', "a call can wait for the contract code forever",
     'a call that came while the code was just becoming ready waited forever, with the execution of its block'),
    ('P36', "an interrupted storing of Java contract leaves it without code",
     'a failure or a crash while writing code.jar left a folder without (or with a part of) it, which was used from then on'),
    ('P36', "files are left open after unpacking a contract package",
     'all files of a package stayed open: whether a package with many files is accepted depended on the limit of the node'),
    ('P36', "a file of negative size lifts the limit on contract packages",
     'a member whose size is above 2^63 passed the limit for files and lifted the one on the whole package'),
]
OPEN = [
    {'property': 'P30', 'status': 'known', 'id': 'leading-empty-text',
     'what': 'data with a list of several elements beginning with an empty text: the node leaves out its separators (["","a"] is hashed '
             'as ["a"]; the Java SDK and the specification write [.a]), so it refuses what the SDK signs and the empty text can be '
             'added or removed after signing. Identifiers are part of consensus: not repaired.'},
]


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    commits = {s.split(' ', 1)[1]: s.split(' ', 1)[0] for s in log.splitlines()}
    out = []
    for p, t, what in FIXED:
        c = commits.get('fix: ' + t)
        if c is None:
            continue
        out.append({'property': p, 'status': 'fixed', 'commit': c, 'what': what,
                    'line': 'fixed: property=%s %s %s' % (p, c, what)})
    missing = [s for s in commits if s.startswith('fix: ') and s[5:] not in [t for _, t, _ in FIXED]]
    assert not missing, missing
    with open(os.path.join(here, 'known_findings.json'), 'w') as f:
        json.dump({'findings': out + OPEN}, f, indent=1)
        f.write('\n')


main()
