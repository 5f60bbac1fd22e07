P = {
'P01': '''
*histories*: histories of requests with failures of every kind at any point, out-of-step limits and nested calls, where the
node also interleaves API requests and executions before it answers a call, answers with any status, and packages are
broken, touch the state or call the node while they are loaded. *deep*: operations at depths around the end of the stack.
*hostile*: instances of generated subclasses of str, int, bytes, list, dict, Address and exceptions whose methods write,
call, fail or return other values, given to every built-in there is. Monitor: the stand-in knows at every byte what it
owes and is owed; and the last request of each history is repeated in a session of its own on the same state and has to
be served identically. 2,250 cases, 35 s.''',
'P02': '''
Five facets. *chunks*: a history (with API requests in between) is served once in whole messages and once cut into pieces
of generated sizes, down to single bytes; every output byte must be the same. *levels*: the same history at generated `-d`
levels and `-v`; everything but LOG messages must be the same. *noisy*: contracts whose str, int, dict, Address, exception
... objects write, call, fail or log when they are printed, iterated, hashed or encoded, used as log texts, arguments,
events, results and failures, at three levels. *deep*: recursion that ends with an operation at depths around the end of
the stack, at two levels. *processes*: the same histories and generated classes in fresh processes with other hash seeds.
About 1,600 cases, 42 s.''',
'P03': '''
*in*: generated values of every type and nesting go in as parameters; the contract reports type and contents by its own
walk. *out*: a literal is returned and the typed encoding the node gets is compared. *other*: unsupported values must fail
the request and nothing else. Oracle: round trip with an independent coder. 2,200 cases, 45 s.''',
'P04': '''
Model-based: sequences of container operations over several transactions (with failing ones in between for *many*), the
model being variables, dictionaries and lists. Every observed value and the final storage are compared. 2,100 cases.''',
'P05': '''
*derivation*: every slot a history touches must be one the model derives with its own RLP and SHA3 (names and keys of all
types, lengths around 1, 55, 56, 255, 256 and more). *separation*: two generated entries that differ somewhere must have
different slots, and writing one must not be seen through the other. 2,100 cases.''',
'P06': '''
Call trees that mix query frames, read-only methods and writable ones and try writes, events and fee requests
everywhere, also after nested calls returned or failed. The stand-in rejects any such message from a read-only frame, the
model predicts what the contract must see (error codes) and where writing must work again. 1,600 cases.''',
'P07': '''
Histories with random cost tables of both schemas; the model computes every charge from the table; the steps of every
reply are compared. 3,000 cases.''',
'P08': '''
*boundaries*: the model replays a history and yields the steps at which each charge happens; the limits tried are those
values and their neighbours, and the whole transcript (including what the failing operation must not have done) is
compared with the model. *enough*: metamorphic - any limit above the need gives the same outcome. 2,250 cases.''',
'P09': '''
Hash functions against hashlib, recovery and address derivation against a textbook implementation of secp256k1 (valid,
corrupted, wrong-length, wrong-recovery-id and non-point inputs), each with its charge. 3,500 cases.''',
'P10': '''
Generated contract classes (inheritance, overrides, private helpers, events, payable-only and interface functions); names
asked for come from the class, the framework and the alphabet, positional and named. A trace mark tells whether contract
code ran. 1,300 cases.''',
'P11': 'The classes of P10 without odd names, amounts from zero up, fallback and hooks included. 1,300 cases.',
'P12': '''
Call trees where every frame reads its context before, between and after nested calls (re-entrant, failing, query), also
through inherited and module-level helpers. The model knows each frame's values. 1,300 cases.''',
'P13': '''
Generated declarations (return annotations of every form included) and texts: valid ones of every form, near misses,
other types and missing ones. Oracle: a strict grammar. 1,500 cases.''',
'P14': '''
*raised*: every way to fail with generated codes and messages, at any depth, caught and raised again. *foreign*: statuses
and values that come from the node for calls of foreign contracts. *classes*: exception classes of the contract's own
(odd constructors, codes and texts). Oracle: the documented status table. 2,500 cases.''',
'P15': '''
Calls through interfaces, call(), transfer and send with positional, named and mixed arguments and amounts; what the node
gets and what comes back (results, failures, used steps) is compared with the program. 1,800 cases.''',
'P16': '''
Generated event declarations (types, indexed count, defaults) and calls with positional and named, missing, surplus,
unknown and wrong arguments. Oracle: rules of the declaration. 1,500 cases.''',
'P17': '''
Generated classes with structs, lists, optional parameters, defaults, inheritance and hooks; the reply must equal the
description computed from the declarations. 1,000 cases.''',
'P18': '''
*refused*: one defect is put in a well-formed generated class; the API request must fail. *accepted*: well-formed ones
succeed. 1,500 cases.''',
'P19': '''
Packages put together from allowed and forbidden constructs (imports of every form, relative and star imports, forbidden
names loaded, stored, as attributes, as arguments) at generated places: module level, functions, nested functions,
lambdas, comprehensions, class bodies, decorators, defaults, try blocks, sub-packages, unused files, compiled files. Each
package leaves a mark in a file of a scratch directory when its code runs. Oracle: the generator knows whether the package
is allowed; a refused one must not have left a mark. 1,500 cases, 20 s.''',
'P20': '''
Call trees that set the proportion to generated values, fail afterwards, call others, in queries and read-only methods.
The model predicts each SETFEEPCT and its place. 1,500 cases.''',
'P21': '''
Logging of arbitrary text at each level and tag, any frame, all executor levels; each message must come once with its
text, mapped level and flag, or not at all, and nothing else may change. 1,900 cases.''',
'P22': '''
Up to four packages whose modules, classes and helpers share names (also with modules of the standard library), sound or
broken (missing files, syntax errors, failing imports, wrong main class), and a history of executions, nested executions
and API requests over them; each package reports a tag of its own for the main class, its helpers and what its object
remembers. Oracle: the generator knows the answer. 1,400 cases, 27 s.''',
'P23': '''
*values*: generated JSON values and texts (nested, unicode, escapes, big numbers, malformed) printed, parsed and round
tripped against the standard library, with the charge by size and revision. *failing*: what fails or runs out of steps.
2,500 cases.''',
'P24': '''
Texts that are addresses or nearly so, binary forms of all lengths, numbers and pairs for comparison. Oracle: a regular
expression and bytes. 1,500 cases.''',
'P25': '''
*History*: operation sequences over small alphabets of keys (nested prefixes, shared prefixes of odd nibble length, empty
and long values) with snapshots, resets, flushes, reloads from the database, iteration, filters, proofs and tampered
proofs. Oracle: a Go map plus an independent root function (`go/lib/ref`). *Order*: the same content by several
histories. *Concurrent*: snapshots read from several goroutines. 185,000 cases, 50 s with an empty build cache.''',
'P26': '''
The real service manager, platform and state on an in-memory database (`go/lib/sim`), driven block by block next to a
reference model of the whole platform written from its rules (`go/lib/hmodel`: issue, reduction, fees, planets, rewards,
lost rewards, validators). *Coins*: 5-40 blocks with terms of 1-7 blocks, random genesis amounts, prices and limits;
after every block all balances, the supply and their sum are compared, and the steps in the receipts are added up. *Base*: blocks tried with a base transaction that
is missing, extra, misplaced, doubled, malformed or has a wrong amount must be refused and the chain goes on.''',
'P27': '''
The same simulator and model (`go/lib/hworld`), mostly planet managers, planets, work reports, claims, company and
private planets, prices, the claimable rate and lost rewards, by permitted and foreign callers. After every block the
status of each call, its events and the answers to the queries of the system contract (issue, reward and planet
information, for known and unknown ids) are compared with the model.''',
'P28': '''
The same, with 1-7 genesis validators and block votes made up for every block: registering, unregistering, enabling,
keys, names, the count of active validators, vote-check parameters, decentralization by opening a BTP network, penalties
and replacements. Statuses, events, the next validators of every block and all queries about validators are compared.''',
'P29': '''
Two nodes run the same generated history. The second one reads transactions from their bytes or shares them, validates
them itself or trusts them, executes with a concurrency level of 1, 2 or 4, and now and then restarts from its database
(with another level). Results, receipts, logs blooms and validators have to be identical; blocks with a transaction that
can not be executed are to be refused by both. A hang is reported as a violation. *Parallel*: blocks of many transactions which touch
the same few accounts, on a slow database, executed with a level of 2-8 and one by one: the same result. *Rules*: prices, costs, limits and the revision change
within blocks of payments and calls, which run several times in parallel and have to agree with running one by one.''',
'P30': '''
*Signed*: generated version 3 transactions of all data types (nested lists, objects, nulls, texts with every character the
serialization escapes, unicode, numbers of any length) are serialized, hashed and signed by a second implementation
written from the specification (`go/lib/txs`), written as JSON in random ways and given to the node: identifier,
verification, fields, JSON and bytes have to agree. Then they are changed, in JSON (fields removed, renamed in another
case, doubled, replaced; leaves of the data; the signature) and in the binary form (any item of the RLP tree); the result must be
unparsable, refused, or say the same. *Garbage*: the same with damage and system transactions (base, double sign report,
patches): whatever is read has a 32-byte identifier, JSON and stable bytes, and nothing panics. *Node*: a running node
gets such transactions from users, from peers (through the transaction reactor) and in proposed blocks; afterwards
proper blocks have to go through. *Carried*: transactions which are proper, signed by somebody else, changed after signing, or made
for another network are brought by users, peers, proposals and blocks: they get executed if and only if they are proper. The re-encoding of escapes in JSON may change the counted size of the data, which is not
compared. Known finding: lists of several elements beginning with an empty text lose their separators in the node's
serialization (see known_findings.json); such data is left out of the generators, by content.''',
'P31': '''
*Pool*: two nodes with pools get generated transactions (proper ones, and expired, future, unpayable, doubled, damaged,
oversized ones, several of a sender) from users and peers, in any order; in turn one of them proposes a block from
its pool and both execute it. Oracle: the block holds no repeat, keeps limits of count and bytes, executes on the other
node with the same result; what could be executed all the time is executed within the number of blocks
its limits ask for; senders who wait get the result or an error. *Calls*: every method of the system contract, taken from its
own API description, is called by governance, owners and users with parameters of the right and of
wrong types (nulls, lists with nulls, numbers around 2^63, unknown names), mixed with planets and validators
in a running network; two nodes execute it: each transaction has a receipt, results agree, base transactions
go on succeeding, queries give JSON or an error.''',
'P32': '''
*Tracker*: the manager of locators against a model that keeps all lists: additions on branches, commits, restarts,
changes of the threshold, with times at the edges of every range. *Replay*: a whole service manager executes blocks
which contain earlier transactions, transactions of blocks not yet committed, ones exactly at and next to both
limits of time, on committed and uncommitted parents, in branches that are dropped, across restarts with the
records of the last block missing, after governance changed the threshold. The model is the set of
identifiers of the branch and the time window; a block has to be accepted exactly if the model says so, and locators have to be right.''',
'P33': '''
1 to 7 whole nodes (consensus, block manager, service manager, fast sync, write-ahead logs, database) run in one process on a virtual
clock (testing/synctest), a virtual network (order per link, delays, losses, cuts, rules that lose kinds of messages) and virtual
disks: a crash happens before the n-th effect (file write, sync, database write, message) and loses what was not synced, with torn
last writes. *Agree*: generated sequences of waits, crashes, restarts, cuts, losses, delays, transactions,
repeated and garbled messages, a validator that runs two nodes or signs forged votes and proposals (at most one of four). *Locks*: schedules
in which nodes know different things of a round: one decides alone and then is cut off or crashes while others restart, a node
crashes exactly when it sends a vote, a majority is seen late. Oracle: a table of all votes and proposals signed by
honest validators (no two different ones for a round), a table of all final blocks, an independent audit of the signatures each
block carries, later times; when the network is good again everybody has to reach new heights within three virtual minutes.
Runs on one processor repeat mostly, but not always; a failure is reported with its trace even if it does not repeat, because
the oracle has no false alarms by construction (facets marked `Sure`).''',
'P34': '''
*Fetch*: the real client asks real servers (complete and incomplete ones) and up to four liars, each with a generated list of 18 tricks,
on a virtual clock; peers join and leave, queues are full at times, delays go up to 300 ms, the caller takes up to 4 s per block,
rude peers send unasked messages, fetches are cancelled and started again. From some moment on one good peer stays. Oracle: blocks come
in order, one at a time, none after the end; the fetch does not end early while the good peer is there; everything
is delivered within a bounded virtual time; the end is reported once. *Serve*: up to three askers
send the server up to ten open requests each, cancel, leave and return: answers must be complete, right and in order. Both
repeat exactly. An unlimited fetch (end -1) is not generated with liars: a peer that was asked for a block it does not have yet
is left out until it returns.''',
'P35': '''
Block managers and service managers of 1-3 nodes without a consensus; the test holds the keys of up to seven validators, whose
set changes, and signs the votes. *Forged*: 4-8 blocks long chains; before and after each true block one of two nodes gets forged
versions of it, 29 kinds, with all hashes put right, so that only the check meant is between the block and its acceptance: other
result, validators, bloom, parent, height, time; too few, doubled, foreign votes, votes for another height, round, kind,
block, part set or time; transactions with changed fields, for another network, again, of another time. Versions
which are as good (other votes of enough validators, another proposer, fewer or more transactions) have to be taken. Oracle: what was
done to the block; a taken block has the bytes given. *Tree*: 10-50 steps of proposals, imports of blocks and their versions (several under way),
cancelling, finalizing (also what must not be), disposing, duplicating, waiting for blocks and results, restarts and crashes before any of the
writes of a finalization, next to a model (the tree of live candidates with their references, the chain, who waits): all look-ups
by height, id and transaction are compared. Finalizing while an import is under way, without cancelling it, makes the block manager panic (a
nil parent in `addNode`); the consensus always cancels first, so that is not generated.''',
'P36': '''
The contract manager through its exported calls, with contracts deployed into a world state; the store lies eight folders deep in a
scratch folder, and no generated name climbs further than six, so that even code that checks nothing stays in the scratch folder.
*Unpack*: 1-4 packages per store, written member by member (also what zip writers refuse): roots, names with `..`, `.`, `//`, absolute
ones, backslashes, NUL, long ones, doubled ones and files where folders are needed, caches of tools, sizes around both limits and false
sizes (also above 2^63), harmed bytes. Oracle: the members under the root of the first package.json; for names that are not plain, refusal or
the same outcome again and after a restart; the rest of the scratch folder must not change. *Waiters*: bursts of up to 4x1000 calls for the same code
while it is stored, some giving up; everyone has to get the same answer within 15 s. *Faults*: the size of files is limited (as on a full disk)
while the code is stored, then not; later calls (also after a restart) have to get the complete code. *Many*: packages with more files than may be open.
The time limit of 5 s on unpacking (wall-clock) is not generated.''',
}
CAUGHT = {}
