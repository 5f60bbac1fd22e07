#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay easy to edit)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": [observe], "hook_needed": None}})

PX = "pyee/pyexec/"
add("P01", "Every request gets exactly one reply and the session survives",
    "Whatever a contract does - returns, reverts, raises any kind of exception, violates a decorator or access rule, or runs out of steps at any point including while storage acknowledgements are still outstanding - the executor answers every invoke or API request, top-level or nested inside an inter-contract call, with exactly one result and never hangs, dies or sends an unexpected message. "
    "Every acknowledgement and reply the node sends is consumed by the request it belongs to. A failed request leaves no trace in how later requests are executed, and an API request, at any moment, is answered without any other message. Arguments and objects of a contract's own classes cannot break this either.",
    ["histories", "fault_sequences"], "all sequences of requests and contract behaviours, with the step limit expiring at any point",
    "Needs histories of requests combined with failures at arbitrary points of a pipelined conversation; unit tests drive no conversation at all.",
    [PX+"ipc/proxy.py", PX+"service_engine.py", PX+"pyexec.py", PX+"database/db.py"],
    [("message loop and deferred acknowledgement queue", PX+"ipc/proxy.py"), ("invocation wrapper", PX+"service_engine.py")],
    "the byte stream between the executor and the node, seen by a fake node that counts what it owes and is owed")
add("P02", "Outcomes do not depend on transport chunking, log level or process",
    "The messages the executor sends for a given session are a function of the messages it receives only: they are the same however the incoming byte stream is fragmented or coalesced, in any process and for any hash seed. "
    "The configured log level changes nothing except log messages themselves (a contract that asks for the level, or prints memory addresses, aside).",
    ["schedules", "histories", "configurations"], "all fragmentations of the incoming stream, all log levels, hash seeds and session histories",
    "Unit tests never vary delivery boundaries or process configuration; nodes must reach byte-identical results.",
    [PX+"ipc/client.py", PX+"ipc/proxy.py", PX+"__main__.py", PX+"iconscore/icon_container_db.py"],
    [("stream reader", PX+"ipc/client.py"), ("log level handling", PX+"__main__.py")],
    "transcript of messages written by the executor")
add("P03", "Typed values survive the trip between node and contract",
    "A null, bool, integer of any size, string, byte string, address, list or string-keyed dictionary, nested arbitrarily (a tuple travels as a list), sent as a call parameter arrives in the contract as an equal value of the same type, and the same value returned by a contract reaches the node as an equal value with the same type tag. "
    "Integers travel as the shortest big-endian two's complement, at least one byte. A value of any other type is never passed off as a supported one: the call fails.",
    ["inputs"], "all values of the supported types, nested",
    "Round-trip over an unbounded structured domain with boundary-sensitive integer widths.",
    [PX+"ipc/proxy.py", PX+"pyexec.py", PX+"utils/__init__.py"],
    [("typed object encoder/decoder", PX+"ipc/proxy.py"), ("address codec", PX+"pyexec.py")],
    "parameters a contract observes and the result message of the invocation")
add("P04", "Persistent containers behave like variables, dicts and lists",
    "For any sequence of operations across any number of transactions, a single-value container behaves like a variable, a dictionary container (of any depth) like a mapping and an array container like a list - length, negative indices, iteration order, membership, append, pop, overwrite, out-of-range errors included - with absent entries reading as the type's documented default. "
    "A value of a supported type stored under a supported key is read back equal and of the declared type (an empty value counts as absent). Effects of a transaction are exactly what later transactions see.",
    ["histories"], "all operation sequences over several containers, keys, value types and transactions",
    "Model equivalence over unbounded operation histories spanning transactions.",
    [PX+"iconscore/icon_container_db.py", PX+"database/db.py"],
    [("container classes", PX+"iconscore/icon_container_db.py"), ("storage adaptor", PX+"database/db.py")],
    "values contracts read, and the node's key-value store")
add("P05", "Storage slots follow the published derivation and never collide",
    "Every container entry lives in the slot given by SHA3-256 over the container kind, the container name and the entry's keys, each length-prefixed in the RLP byte-string form, so existing state stays readable by every node and language. "
    "Two entries differing in container kind, container name, contract, depth or the bytes of any key occupy different slots, and an operation touches only the slots of its own entry (and an array's length).",
    ["inputs", "histories"], "all container names, key types, key lengths (including the RLP length boundaries) and depths",
    "Collisions and derivation errors only show for unusual lengths and combinations of keys.",
    [PX+"database/db.py", PX+"iconscore/icon_container_db.py", "common/containerdb/key.go"],
    [("slot hashing and sub-databases", PX+"database/db.py"), ("key encoding", PX+"iconscore/icon_container_db.py")],
    "keys of storage messages at the node")
add("P06", "Read-only execution never changes state",
    "An execution marked as a query, or of a method declared read-only, never makes the executor send a storage write or delete or an event for that frame, and a query no fee-sharing request either; the attempt fails inside the contract with the proper error instead. "
    "The restriction ends with that frame: a writable caller can still write, log events and set fees after read-only calls return or fail, and a write attempted in a read-only frame has no effect even when the contract swallows the error.",
    ["histories"], "all call trees mixing query, read-only and writable frames with caught failures",
    "Depends on nesting and on errors swallowed by contract code.",
    [PX+"ipc/proxy.py", PX+"database/db.py", PX+"iconscore/icon_score_context.py", PX+"iconscore/icon_score_eventlog.py"],
    [("read-only stack", PX+"ipc/proxy.py"), ("write permission check", PX+"database/db.py")],
    "state-changing messages received by the node per frame")
add("P07", "Steps charged equal the node's cost table exactly",
    "The step count reported for an execution equals the sum over its operations of the charges the node's cost table prescribes: reads by value size, writes by size of new value with the replace refund by old value, deletes by old size, membership scans per element read, events by total encoded size, nested calls by what they used - under both the original and the base-plus-size schema. "
    "Storing an empty value is charged like a delete, and deleting an absent entry is free.",
    ["histories", "configurations"], "all operation sequences, value sizes and cost tables of both schemas",
    "Every node and every replay must compute identical steps; the space of cost tables and size transitions is unbounded.",
    [PX+"iconscore/icon_score_step.py", PX+"database/db.py", PX+"iconscore/icon_score_eventlog.py", PX+"iconscore/internal_call.py"],
    [("step counter", PX+"iconscore/icon_score_step.py"), ("storage charging", PX+"database/db.py")],
    "steps field of the result message against a reference meter")
add("P08", "The step limit is a hard bound applied at the exact operation",
    "An execution never reports more steps than its limit; it fails with the out-of-step status and reports the whole limit as used exactly when its next charge, after counting every refund already earned, would exceed the limit, and the operation that ran out has no effect. "
    "With enough steps the outcome is the same for any larger limit, for contracts that do not themselves catch running out. (For cost tables in which deleting and replacing are free or refunded, as the network's are.)",
    ["inputs", "histories"], "all limits (in particular every boundary around each charge) and operation sequences",
    "Failure points must be hit at each boundary of each operation, with refunds in flight.",
    [PX+"iconscore/icon_score_step.py", PX+"database/db.py", PX+"ipc/proxy.py"],
    [("limit enforcement with pending refunds", PX+"iconscore/icon_score_step.py"), ("fallback on write", PX+"database/db.py")],
    "status, steps and storage messages as a function of the limit")
add("P09", "Hash and key functions return correct results at the stated cost",
    "Contract calls to SHA3-256, SHA-256, public-key recovery and address derivation return exactly what the standard algorithms define (null for malformed keys, hashes or signatures, never an exception), for compressed and uncompressed keys alike (an uncompressed key of the right form is taken as it is). "
    "Each charges the steps prescribed from the node's API-call cost: hashing grows by a tenth per started 32-byte chunk, the others by fixed ratios; hashing and address derivation charge nothing for arguments rejected by type or length, recovery is charged always.",
    ["inputs"], "all byte strings, keys, signatures and recovery ids",
    "Correctness against independent implementations over an unbounded input space.",
    [PX+"iconscore/icon_score_base2.py"],
    [("hash and key built-ins", PX+"iconscore/icon_score_base2.py")],
    "return value and step count of an invocation")
add("P10", "Only methods a contract exposes can be called from outside",
    "A request to run any name that the contract did not declare external - private helpers, inherited framework attributes, event functions, interface functions, undeclared or misspelt names, payable-only methods - fails with the method-not-found status and executes no contract code. "
    "Declared external methods, including inherited ones, and the install and update hooks run when requested.",
    ["programs", "inputs"], "all contract classes (with inheritance and decorator combinations) and requested names",
    "Quantifies over contract programs and arbitrary names.",
    [PX+"iconscore/icon_score_base.py", PX+"iconscore/typing/element.py", PX+"service_engine.py"],
    [("external check", PX+"iconscore/icon_score_base.py"), ("element collection", PX+"iconscore/typing/element.py")],
    "result status and side effects of the request")
add("P11", "Only payable code receives coins",
    "A request carrying a positive amount to a method, install or update hook not declared payable fails with the not-payable status before any contract code runs; with zero amount it runs. "
    "A plain transfer runs the fallback only if the contract declares a payable one, and fails with method-not-found otherwise.",
    ["programs", "inputs"], "all decorator combinations, methods and amounts",
    "Quantifies over contract programs, methods and amounts of any size.",
    [PX+"iconscore/icon_score_base.py", PX+"iconscore/typing/element.py"],
    [("payable check and fallback dispatch", PX+"iconscore/icon_score_base.py")],
    "result status and side effects of the request")
add("P12", "Contract code always sees the context of its own frame",
    "Sender, amount, own address, owner, transaction hash, index, origin, timestamp and nonce, block height and time read by contract code equal those of the request being executed, at every moment of the execution - before, between and after nested calls, also when those re-enter the same contract or fail. "
    "Storage, step and fee-sharing operations act on that same frame.",
    ["histories"], "all trees of nested and re-entrant calls with failures",
    "Needs re-entrancy and exceptional unwinding.",
    [PX+"iconscore/icon_score_context.py", PX+"service_engine.py", PX+"pyexec.py", PX+"iconscore/icon_score_base.py"],
    [("context stack", PX+"iconscore/icon_score_context.py"), ("context construction", PX+"pyexec.py")],
    "context values reported by contract code at each point")
add("P13", "Named textual parameters are converted by the declared types",
    "When parameters arrive by name as text, each is converted according to the method's declared type - decimal or 0x hexadecimal integers with sign, booleans from integers, hexadecimal byte strings with optional prefix, canonical addresses, strings verbatim - and absent ones take the declared default. "
    "Text that is not a valid representation, an unknown name or a missing mandatory parameter fails the request without running the method.",
    ["inputs", "programs"], "all signatures over the basic types and all texts",
    "Input space of texts and signatures is unbounded; the interesting failures are near-valid texts.",
    [PX+"base/type_converter.py", PX+"service_engine.py"],
    [("annotation-driven conversion", PX+"base/type_converter.py")],
    "values the method observes, or the failure status")
add("P14", "Failures are reported with the right status and message",
    "Every way a contract can fail maps to its defined status: revert and user exceptions to 32 plus their code, clamped to 32..999, with the given message; unknown method, not payable, bad format, bad parameter, bad instance, bad container access, forbidden access and out of step to their own codes; any other exception to the generic system failure. "
    "A failure status and message received from a nested call re-appear unchanged if the contract does not handle them.",
    ["programs", "inputs"], "all exception kinds, codes of any size or type, messages and nesting depths",
    "Quantifies over exceptions contract code may raise and propagate.",
    [PX+"base/exception.py", PX+"service_engine.py", PX+"iconscore/icon_score_base2.py", PX+"iconscore/internal_call.py"],
    [("exception hierarchy", PX+"base/exception.py"), ("status mapping", PX+"service_engine.py")],
    "status and result of the result message")
add("P15", "Inter-contract calls carry exactly what the contract asked for",
    "A call through an interface, the generic call or a coin transfer reaches the node with precisely the target, amount, method name, positional and named arguments the contract gave and with all remaining steps as the limit; its result value or failure is returned to the contract and the steps it used are added. "
    "The amount attached to an interface object applies to one call only, a failed send returns false while a failed transfer raises, and mutable arguments are not affected by or leaked to the call.",
    ["inputs", "histories"], "all argument shapes, amounts, results and sequences of calls",
    "Quantifies over argument structures and sequences on the same interface object.",
    [PX+"iconscore/internal_call.py", PX+"iconscore/icon_score_base.py", PX+"iconscore/icon_score_base2.py", PX+"ipc/proxy.py"],
    [("message call", PX+"iconscore/internal_call.py"), ("interface wrapper", PX+"iconscore/icon_score_base.py")],
    "call messages at the node and results in the contract")
add("P16", "Event logs are emitted exactly as declared",
    "Calling an event function sends one event whose first indexed item is the signature built from its name and declared parameter types, followed by the declared number of indexed arguments and then the data arguments, in declaration order, with keyword and default arguments resolved. "
    "Missing, surplus, duplicated or wrongly typed arguments, more than three indexed parameters, unsupported or missing type hints and the reserved coin-transfer signature are refused without emitting anything.",
    ["programs", "inputs"], "all event declarations and argument combinations",
    "Quantifies over declarations and call shapes.",
    [PX+"iconscore/icon_score_base.py", PX+"iconscore/icon_score_eventlog.py"],
    [("event decorator", PX+"iconscore/icon_score_base.py"), ("event emitter", PX+"iconscore/icon_score_eventlog.py")],
    "event messages at the node")
add("P17", "The reported API describes the contract's declarations",
    "The API reply lists exactly the contract's externally visible functions, install and update hooks, payable fallback and events, each with its flags, parameter names in order, types (list depth, struct fields, optional types and default values included), number of mandatory or indexed parameters and, for read-only functions, the return type. "
    "Nothing undeclared is listed and nothing declared is missing, inherited declarations included.",
    ["programs"], "all contract classes over the supported declaration forms",
    "Quantifies over contract programs; the node trusts this description to convert parameters.",
    [PX+"iconscore/typing/definition.py", PX+"iconscore/typing/element.py", PX+"pyexec.py", PX+"ipc/proxy.py"],
    [("API description", PX+"iconscore/typing/definition.py"), ("API encoding", PX+"pyexec.py")],
    "API reply message")
add("P18", "Ill-formed contract declarations are refused",
    "A contract with an invalid declaration - illegal or duplicated decorator combinations, external fallback, decorated install or update hooks, unsupported, malformed, circular or oversized parameter types, mappings, variadic parameters, default values of the wrong type, or no external method at all - is refused at load time with an error status and none of its methods can be run. "
    "A well-formed declaration is accepted.",
    ["programs"], "all single and combined mutations of well-formed contract declarations",
    "Quantifies over contract programs.",
    [PX+"iconscore/icon_score_base.py", PX+"iconscore/typing/element.py", PX+"iconscore/typing/definition.py"],
    [("declaration validation", PX+"iconscore/typing/element.py"), ("decorators", PX+"iconscore/icon_score_base.py")],
    "status of the API request and of an invocation")
add("P19", "Package verification lets no forbidden code in",
    "With package verification on, a contract package is accepted only if no file in it - whatever the nesting of functions, classes, packages or unusual import forms - imports anything but its own modules and the published contract library, or uses a name for dynamic execution or import, and no file is compiled code. "
    "A package that is refused has had none of its code executed; packages that obey the rules are accepted.",
    ["programs"], "all packages assembled from allowed and forbidden constructs at any nesting depth",
    "Security filter over programs: the failures are unusual constructs.",
    [PX+"iconscore/score_package_validator.py", PX+"service_engine.py"],
    [("bytecode validator", PX+"iconscore/score_package_validator.py")],
    "status of the API request and side effects of package code")
add("P20", "Fee sharing takes effect once, in range, for the frame that set it",
    "A contract can read and set its fee-sharing proportion between 0 and 100; other values, and any attempt in a query, are refused and leave the value unchanged. "
    "When a frame ends, whether it succeeded or failed, the node is told the last proportion set in that very frame, exactly once and before the frame's result, and is told nothing if it is zero or never set.",
    ["histories"], "all sequences of sets across nested frames and outcomes",
    "Depends on nesting, failure and ordering.",
    [PX+"iconscore/icon_score_base.py", PX+"service_engine.py", PX+"ipc/proxy.py"],
    [("proportion accessors", PX+"iconscore/icon_score_base.py"), ("end of invocation", PX+"service_engine.py")],
    "fee messages at the node relative to results")
add("P21", "Logging reports levels faithfully and never disturbs execution",
    "A log message a contract or the executor writes at an enabled level reaches the node once, with its text, its level mapped to the node's scale (errors and warnings of a contract are shown as information) and trace-only marking for the most verbose ones; disabled levels send nothing. "
    "Logging any text, at any level and in any frame including queries, changes neither results nor steps.",
    ["inputs", "configurations"], "all log texts, levels and configured thresholds",
    "Quantifies over configurations and texts, including format-like and multi-line ones.",
    [PX+"logger/logger.py", PX+"logger/utils.py", PX+"pyexec.py", PX+"ipc/proxy.py", PX+"__main__.py"],
    [("log levels", PX+"ipc/proxy.py"), ("contract logger", PX+"logger/logger.py")],
    "log messages at the node")
add("P22", "Each execution runs the right code on a fresh contract object",
    "An execution runs the main class named by the package at the requested location, whether it was loaded before or not and however many packages with equal module or class names are in use, and sub-modules resolve inside their own package (packages are stored under names of their own, as the node does). "
    "Instance attributes set by one execution are never visible to another, including nested ones. A missing or broken package fails the request with an error status and does not prevent later requests.",
    ["histories", "programs"], "all interleavings of requests over several packages, good and broken",
    "Depends on cache state produced by earlier requests.",
    [PX+"iconscore/icon_score_mapper.py", PX+"iconscore/icon_score_loader.py"],
    [("contract cache", PX+"iconscore/icon_score_mapper.py"), ("package loader", PX+"iconscore/icon_score_loader.py")],
    "results that identify the code and object that ran")
add("P23", "JSON helpers are exact and metered by revision",
    "Parsing and printing JSON from a contract return exactly the standard result, printing without spaces and charging by UTF-8 size once the compact-JSON revision flag is set and printing in the default form for free before it; parse of a print gives back the value. "
    "Parsing a non-string yields null, and invalid text or unprintable objects fail without stopping the executor.",
    ["inputs", "configurations"], "all JSON values, texts and revisions",
    "Round-trip over nested structured values and a revision-dependent cost.",
    [PX+"iconscore/icon_score_base2.py"],
    [("JSON built-ins", PX+"iconscore/icon_score_base2.py")],
    "return value and steps of an invocation")
add("P24", "Addresses are parsed, printed and compared canonically",
    "An address has exactly one 42-character text form (hx or cx plus 40 lower-case hex digits) and one 21-byte binary form; converting to either and back yields an equal address, two addresses are equal and hash equal exactly when their forms are equal, and every other text is rejected as a bad parameter. "
    "20-byte input denotes an account address and any other binary length or prefix is refused.",
    ["inputs"], "all texts and byte strings near and far from valid addresses",
    "Rejecting every malformed text is a universal claim.",
    [PX+"base/address.py", PX+"utils/__init__.py"],
    [("address parsing", PX+"base/address.py")],
    "results of the address API available to contracts")
add("P25", "The state trie is an authenticated map with one root per content",
    "The Merkle Patricia trie behaves as a map from byte-string keys (keys that are prefixes of others included) to values for any sequence of sets, deletes, gets, snapshots, resets, flushes and reloads, and iteration and prefix filters give exactly the entries, in key order. "
    "Its root hash is the standard function of the content alone - the same in whatever order and through whatever history the content was reached - so different contents have different roots. A snapshot never changes, survives flushing and can be read again from the database by its root. "
    "For each present key the proof verifies against the root, yields the value, and no altered, truncated or foreign proof is accepted for another value.",
    ["histories", "inputs", "schedules"], "all operation sequences over keys with shared and nested prefixes, with concurrent readers",
    "Every node's agreement on world state rests on it; failures need particular shapes of the tree reached by particular histories.",
    ["common/trie/ompt/mpt.go", "common/trie/ompt/branch.go", "common/trie/ompt/extension.go", "common/trie/ompt/leaf.go"],
    [("persistent Merkle Patricia trie", "common/trie/ompt")],
    "the trie interfaces, its root hash and the key-value store")
add("P26", "Coins come from the issue alone and are conserved",
    "After every block the total supply equals the sum of all balances. It grows only at the first block of a term, by exactly the amount of the reduction schedule (30 per cent off every reduction cycle, nothing after the issue limit), and shrinks only by burning (coins sent to the system address). "
    "Fees, the split of fees between the ecosystem and the sustainable fund at the end of a term, missed rewards, the hoover fund's refill, planet rewards and their claims, lost rewards and withdrawals each move exactly the amounts the rules give, from and to the right accounts; no balance gets negative, nothing is lost in rounding; receipts report the steps each transaction used and the sum so far in its block. "
    "A block is refused if its base transaction is missing, not needed, not the first, doubled, malformed, or does not issue the amount of the schedule; refusing it leaves the node running and the chain able to go on.",
    ["histories", "inputs"], "all genesis configurations, histories of blocks with transfers, planet operations and claims over many terms, and malformed base transactions",
    "The currency itself: a coin made or lost by one rounding or one missing check at a term boundary shows only after particular histories.",
    ["havah/hvh/base.go", "havah/hvh/extension.go", "havah/hvh/hvhstate/state.go", "havah/platform.go", "havah/chainscore_havah.go", "service/transition.go"],
    [("issue, fee distribution and rewards", "havah/hvh"), ("fee charging and transfers", "service")],
    "balances, the total supply, and the acceptance of blocks")
add("P27", "Planets are managed and rewarded by the rules",
    "Only governance appoints planet managers, starts the issue, sets the claimable rate and (from revision 3) the USDT price; only the planet NFT contract registers, hands over and unregisters planets; only managers report work. A planet's work counts once a term, from the term after its registration on, and yields the term's reward per planet, helped by the hoover fund up to the guideline of its prices, within the planet's price and the fund's balance; of a company planet's reward three fifths go to the ecosystem. "
    "A claim pays the caller the claimable part of the rewards of its own planets, once: all of it, or for private planets what exceeds the locked share. From revision 2 the unclaimed reward of an unregistered planet becomes lost and only governance withdraws it. A refused call changes nothing, and every query reports exactly the state these rules lead to.",
    ["histories", "inputs"], "all histories of planet, report and claim transactions over terms, revisions and genesis configurations, by permitted and foreign callers",
    "Rewards depend on the order of registrations, reports, claims and price changes across term boundaries.",
    ["havah/chainscore_havah.go", "havah/hvh/extension.go", "havah/hvh/hvhstate/state.go", "havah/hvh/hvhstate/planet.go", "havah/hvh/hvhstate/planetreward.go"],
    [("planets and rewards", "havah/hvh/hvhstate"), ("system contract", "havah")],
    "results, events and queries of the system contract")
add("P28", "Validators are registered, elected, replaced and penalized by the rules",
    "After decentralization each term starts with an active set of the configured size, filled with the main validators in order and then, in rotation, with sub validators that are not disabled and have the keys the open BTP networks need. Within a term it changes only where an active validator unregisters or changes its key, and at vote checks: a sub validator that missed more votes in a row than allowed is disabled and replaced, in place, by the next ones of the rotation, or leaves. "
    "Governance alone registers validators and sets the parameters; owners and governance unregister and enable them, owners only three times; node addresses and owners are never used twice. A refused call changes nothing, every query and event reports exactly this state, and no order of operations makes a block fail to execute.",
    ["histories", "inputs", "schedules"], "all histories of validator operations and votes over terms and revisions",
    "Who signs blocks depends on long histories of votes, penalties and registrations, and one wrong order forks or halts the chain.",
    ["havah/hvh/decentralization.go", "havah/hvh/hvhstate/state.go", "havah/hvh/hvhstate/validatorinfo.go", "havah/hvh/hvhstate/validatorstatus.go", "havah/chainscore_havah.go"],
    [("validators", "havah/hvh/hvhstate"), ("block vote check and replacement", "havah/hvh/decentralization.go")],
    "next validators, results, events and queries of the system contract")
add("P29", "Every node gets the same result from the same blocks",
    "Executing the same blocks gives the same result hash, receipts, logs bloom and next validators on every node: whether its transactions come from memory or are read from their bytes, whether it proposed, validated or trusts the block, whatever its concurrency level, and whether its state is in memory or read again from the database after a restart at any block. "
    "Execution with any concurrency level ends, and a block that can not be executed is refused by all of them.",
    ["histories", "schedules", "configurations", "crash points"], "all histories of blocks, with restarts at any block and parallel execution",
    "Consensus needs bit-identical results from nodes with different histories, settings and schedules.",
    ["service/transition.go", "service/transition_pe.go", "service/manager.go", "service/state/worldvirtualstate.go", "service/state/worldsnapshot.go", "service/contract/contractmanager.go", "havah/hvh"],
    [("parallel execution", "service/transition_pe.go"), ("virtual world state", "service/state/worldvirtualstate.go"), ("persistence of state", "service/state")],
    "result hashes, receipts and validators")
add("P30", "Transactions are identified and authenticated by their content, and no bytes stop a node",
    "The identifier of a version 3 transaction is the SHA3-256 of the standard serialization of its content, and it is accepted only with a signature of it by the key of its `from` address: however the same content is written (JSON with any order, spacing and escapes, or the binary form), it is the same transaction, with the same fields, and it is reported as the sender wrote it; no change of what it says after signing is accepted, except ones which leave the serialized content the same (a number and its decimal text, `[\"\"]` and `[]`). Writing and reading its bytes keeps identifier, hash and content. "
    "A transaction for another network, or without its sender's signature, is not executed, whoever brings it: a user, a peer, or a block. Any other bytes, sent by users or peers or in proposed blocks, are refused or treated as what they say: they neither panic nor stop block production, and nobody can put transactions of the system into the pool.",
    ["inputs"], "all contents and encodings of transactions, all changes of signed ones, and all byte strings",
    "Forging or re-labelling a transaction, or a few bytes from any peer that stop a node, break the chain; parsers meet inputs no test lists.",
    ["service/transaction/transaction_v3.go", "service/transaction/serialize.go", "service/transaction/transaction.go", "service/transaction/patchtransaction.go", "havah/hvh/base.go", "service/transactionmanager.go", "service/transactionreactor.go", "common/crypto"],
    [("transactions", "service/transaction"), ("pool and gossip of transactions", "service"), ("base transactions", "havah/hvh/base.go")],
    "identifiers, verification, JSON of transactions and the life of the node")
add("P31", "What users send gets executed, and nothing anybody sends stops the chain",
    "A proper transaction given to a node by a user or a peer, whose sender can pay for it, is in one of the next blocks that node proposes, with its result reported to the waiting sender; transactions that can not be executed are dropped or left out. A proposal keeps the limits of blocks, contains no transaction twice, and every other node that executes it gets the same result. "
    "Whatever the pool holds - damaged, expired, doubled, oversized, unpayable transactions - proposing does not stop. Calls of the system contract by anybody (governance included) with any parameters end with a receipt, the same on every node, queries end with an answer or an error, and after them blocks can still be made.",
    ["histories", "inputs"], "all contents and orders of the transactions two nodes receive and propose, and all calls of the system contract",
    "One transaction of a user that stays in the pool and breaks each proposal, or one odd value of a call that is stored, stops the network for all.",
    ["service/transactionpool.go", "service/transactionlist.go", "service/transactionmanager.go", "service/transition.go", "service/contract/systemscore.go", "havah/chainscore_basic.go", "havah/chainscore_havah.go", "service/state/worldcontext.go"],
    [("pool and proposals", "service"), ("system contract", "havah")],
    "proposed blocks, results, and the life of the node")
add("P32", "A transaction is executed at most once and only in its time",
    "A block is accepted only if every transaction's time is within the threshold of the block's time (as governance set it last) and no transaction was executed before in that branch: in the block itself, in blocks not yet committed, in committed ones, in memory or only in the database, before or after restarts at any point, and after the threshold was changed. A proper transaction in its time that was not executed is never refused as a repeat. "
    "The place of each executed transaction is found by its identifier.",
    ["histories", "crash points", "inputs"], "all histories of blocks with repeats, branches, changes of the threshold and restarts",
    "Executing a payment twice is theft; which lists and caches are asked depends on times at the edges of ranges, branches and restarts.",
    ["common/txlocator/manager.go", "common/txlocator/tracker.go", "service/txidmanager.go", "service/tschecker.go", "service/transition.go"],
    [("locators of transactions", "common/txlocator"), ("checks of repeats and times", "service")],
    "acceptance of blocks and the locators of transactions")
add("P33", "Nodes never finalize different blocks, and go on when the network is good again",
    "With less than a third of the validators at fault, no two honest nodes ever finalize different blocks at a height, and no honest validator signs two different votes or proposals of the same kind for a round - whatever is delayed, lost, repeated, reordered, garbled or forged by the others, whichever links are cut, and at whatever effect (a write, a sync, a message) nodes crash and start again, together or one by one. "
    "A final block stays final after restarts; its successor carries valid signatures of more than two thirds of its validators for exactly this block and a later time. Once all nodes run and messages arrive in time, all of them go on finalizing blocks.",
    ["schedules", "crash points", "faults", "histories"], "all schedules of messages, losses, attacks and crashes",
    "This is what the network exists for; a vote forgotten at one crash point, or one lock not respected, forks the chain, and happens in schedules no test plays.",
    ["consensus/consensus.go", "consensus/voteset.go", "consensus/syncer.go", "consensus/vote.go", "consensus/commitvotelist.go", "consensus/wal.go", "consensus/fastsync", "block/manager.go", "block/blockv2.go"],
    [("consensus of validators", "consensus"), ("catching up", "consensus/syncer.go, consensus/fastsync"), ("block manager", "block")],
    "final blocks of the nodes and the messages they send")
add("P34", "A node that fell behind catches up, whatever its peers send",
    "Fetching a range of blocks delivers each of them, in order and one at a time, again after a rejection, and then reports its end once - as long as one peer that has the blocks stays and answers, whatever the other peers do: stay silent, deny, send damaged, partial, oversized, doubled or false data, other heights, wrong numbers, lie about lengths, leave and return at any moment; with delays and full queues, after cancelling and starting again. No block is given to the caller twice or after the end. "
    "A server answers every request that is not cancelled, in order, with exactly the block and proof asked for or its absence, to each peer on its own, whatever the others ask.",
    ["schedules", "faults", "inputs", "histories"], "all behaviours of peers, orders and delays of their messages",
    "A node that can not catch up is lost to the network (and a validator to its quorum), and one hostile peer is enough for that.",
    ["consensus/fastsync/client.go", "consensus/fastsync/server.go", "consensus/fastsync/manager.go", "consensus/fastsync/heightset.go"],
    [("fast sync", "consensus/fastsync")],
    "blocks delivered to the caller and messages sent to peers")
add("P35", "A node takes only true blocks, and keeps and shows what it decided",
    "A block from anybody is taken only if it extends the node's last block by one, names it, carries the result, logs bloom and next validators the node itself computed for it, a proof of more than two thirds of the validators of that time for exactly that block (none doubled, none of others), a time that is the median of the votes' and later than its parent's, transactions that match its hashes, are signed by their senders for this network, fit the time and were not executed before; every such block is taken, and unchanged. What a node proposes is such a block. "
    "Whatever candidates a node proposes, imports, duplicates, disposes or cancels, in any order and at once, it finalizes only children of its last block, exactly once; blocks, transactions and results are found by height, id and position as finalized and nothing else is; who waits for a block or a result is told when it is final, once, and not before. After a restart, or a crash at any write, the chain is as before or one decided block longer, and goes on.",
    ["inputs", "histories", "crash points", "schedules"], "all forged blocks, all orders of operations on candidates, and crashes at any write",
    "A node that takes one false block, or forgets or mixes up a decided one, leaves the chain; the checks are spread over many functions and each one matters.",
    ["block/manager.go", "block/block.go", "block/blockv2.go", "block/handlerv2.go", "block/transition.go", "block/cache.go", "consensus/commitvotelist.go", "service/transition.go"],
    [("block manager", "block"), ("proofs of blocks", "consensus/commitvotelist.go")],
    "acceptance of blocks, candidates, look-ups and notifications of the block manager")
add("P36", "Contract packages unpack to exactly their files, in their own folder, for every call",
    "The code of a deployed contract is stored in a folder of its own inside the node's contract store, and a call gets that folder or, for a package that has to be refused, an error. A plain Python package (zip) gives exactly the files in the folder of its first package.json, with their contents, without caches of tools; Java code gives exactly its code.jar. A package without package.json, with a file that would lie outside its folder, with a file above 1 MiB or more than 2 MiB in total is refused. Nothing outside the code's folder is created, changed or left behind, whatever the package contains, and the same package has the same outcome the next time and after a restart. "
    "All calls that wait for the same code, whenever they come, get the same answer and none waits forever; a full disk or the number of files open while it is stored has no effect on what later calls get.",
    ["inputs", "schedules", "fault points"], "all packages, all orders of calls that need the same code, I/O failures while storing",
    "Packages come from anybody who may deploy; one that writes elsewhere takes over the node, one that unpacks differently, or a call that never gets its code, makes the node differ from the others or stop.",
    ["service/contract/contractmanager.go", "service/contract/callhandler.go", "service/contract/deployhandler.go"],
    [("unpacking and storing of contract code", "service/contract/contractmanager.go")],
    "files in the contract store and answers to calls")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
