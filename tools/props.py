# The list of properties: source of properties.jsonl, MANIFEST.json and the
# per-property part of DESIGN.md. Run: python3 tools/gen.py
P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, tech, note, design, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, tech=tech, note=note, design=design, observe=list(observe), state=list(state)))

def na(id, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, na=reason, observe=[], state=[]))

ENG = "path-sensitive must-fact dataflow over go/ssa with interprocedural inlining"

prop("C01", "Every RPC needs the permission its effects call for",
 "Every method of the published operator and wallet gRPC services can be called only with a macaroon that grants the permission of its scope, and write access whenever it changes state; only seed generation, wallet initialisation, unlocking and password change are exempt. Methods that change state never accept a read-only macaroon, and read-only macaroons cover only methods without effects.",
 ["inputs", "configurations"], "all methods of all registered services, all macaroons",
 "Tests call a few methods with all permissions or none; nothing enumerates the services against the permission table or compares effects with the required action.",
 ["internal/interfaces/grpc/permissions/permissions.go", "internal/interfaces/grpc/service.go", "internal/interfaces/grpc/interceptor/auth.go"],
 [("permission table", "internal/interfaces/grpc/permissions/permissions.go"), ("service registration", "internal/interfaces/grpc/service.go")],
 "abstract evaluation of the permission tables + registered-service enumeration + call-graph effect analysis",
 "Decides the table against the registered services and the effects reachable over the call graph; macaroon cryptography is assumed.",
 "The permission tables are folded to constants by abstract evaluation of the functions building them. The obligations are: for each method of each generated service interface passed to a Register*Server call an entry exists in exactly one of the tables (protected/whitelisted), its entity is the scope of the method, its action is write when a state-changing port method (repositories, explorer broadcast, pubsub) is reachable from the handler over the class-hierarchy call graph; no stale entries; the macaroon bakery permissions written at start-up are those tables; read-only macaroons hold no write action.",
 ["gRPC status of each call"])

prop("C02", "Requests reach a protected handler only after the macaroon was accepted",
 "When macaroons are enabled no unary or streaming request reaches a handler of a protected method unless its macaroon was validated for the permissions of that method, and a method without known permissions is refused. If the macaroon service cannot be set up the daemon does not serve at all.",
 ["inputs", "configurations", "fault_sequences"], "all requests, all failures while setting up authentication",
 "Tests cover one accepted and one refused call; failures of the set-up and the streaming chain are not exercised.",
 ["internal/interfaces/grpc/interceptor/auth.go", "internal/interfaces/grpc/service.go", "pkg/macaroons/service.go"],
 [("auth interceptors", "internal/interfaces/grpc/interceptor/auth.go"), ("service set-up", "internal/interfaces/grpc/service.go")],
 ENG + " (must-pass-through on the handler call)",
 "Every path to the wrapped handler is enumerated; grpc-go's chaining and the macaroon bakery are assumed.",
 "The interceptor chain installed by the server is resolved; in each auth interceptor every call of the wrapped handler must be dominated by a nil error of the validation made with the permissions looked up for the called method, the lookup must not fall through for unknown methods, and the whitelist is consulted only by full method name. In the service constructor the facts on every path to a usable service include a nil error of the macaroon set-up.",
 ["gRPC status of each call"])

prop("C03", "Macaroon root keys are stored only encrypted, and only while unlocked",
 "The macaroon store never writes a root key that is not encrypted with the password-derived key, never serves or creates one while locked, and never lets a caller overwrite or read its reserved entries as a root key. Changing the password re-encrypts under the new password in one transaction after the old password was verified, and the in-memory key is only touched under its lock.",
 ["inputs", "schedules", "fault_sequences"], "all method sequences, interleavings and storage failures",
 "Tests run single-threaded happy paths; they cannot show that every write is encrypted or that no interleaving or error path exposes the key.",
 ["pkg/macaroons/store.go"],
 [("encrypted bucket", "pkg/macaroons/store.go")],
 ENG + " (encrypt-before-write, locksets, error dominance)",
 "snacl's cryptography and bbolt's transactions are assumed.",
 "All exported methods of the store are analysed with their transaction callbacks inlined. Each bucket Put must store the output of Encrypt with a nil error (or the key's own parameters under the reserved id), each returned key must come from a successful Decrypt, loads/stores of the in-memory key must happen with the store's mutex held, and the password change must pass a successful DeriveKey with the old password before storing a key made from the new one, in one transaction whose every error aborts it.",
 ["bytes in the bucket", "returned keys and errors"])

prop("C04", "The secure store keeps data encrypted and locked without the password",
 "The secure store never writes a value that is not encrypted, never returns or accepts values while locked, and becomes unlocked only with a key derived from the stored record and the given password. Reserved entries cannot be overwritten, removed or read through the public operations, and the key is only touched under its lock.",
 ["inputs", "schedules", "fault_sequences"], "all method sequences, interleavings and storage failures",
 "Tests run single-threaded happy paths over one bucket; error paths and interleavings are not sampled.",
 ["pkg/securestore/bolt/store.go"],
 [("encrypted buckets", "pkg/securestore/bolt/store.go")],
 ENG + " (encrypt-before-write, locksets, error dominance)",
 "snacl's cryptography and bbolt's transactions are assumed.",
 "The rules of C03 on the secure store, plus: every public operation on buckets refuses the bucket/entry holding the key record, and data is only decrypted when unlocked.",
 ["bytes in the database file", "returned values and errors"])

prop("C05", "A trade proposal is accepted only after every check passed",
 "A swap proposal is accepted only if the wallet is unlocked, the market exists and is open, the swapped assets are exactly the market's pair in the requested direction, the amounts are within the slippage tolerance around the market's own preview, and both the market and the fee account have spendable funds. The daemon funds, signs and locks inputs only for such proposals, adding exactly the amount it receives/sends in the request to addresses derived for that market; every other proposal is answered with a failure.",
 ["inputs", "histories", "fault_sequences"], "all proposals, wallet/market states and failures of the repositories",
 "Tests use mocks that always accept and a few hand-made proposals; they do not show that no path reaches acceptance around a check.",
 ["internal/core/application/trade_service.go", "internal/core/domain/market_service.go"],
 [("proposal handling", "internal/core/application/trade_service.go"), ("market preview", "internal/core/domain/market_service.go")],
 ENG + ", case split on the trade direction, polynomial normal form of the price bounds",
 "Decides that all guards dominate acceptance and compare the right quantities; that the strategy formula computes a sensible price is not decided.",
 "The proposal entry point is analysed once per trade direction with all helpers inlined. For each return that may carry an accept message the path facts must include: vault unlocked, market found, base asset equal to the daemon's, both assets of the request equal to the market's sides of that direction, amount >= E*(1-slippage) and amount <= E*(1+slippage) as polynomials where E is the amount previewed by the market for the opposite side (balances and side flags checked), non-empty available unspents for both accounts, successful funding/signing, successful transition and successful locking. The funding arguments (accounts, addresses, amounts, assets) are traced by value flow, inside the proposal filler too.",
 ["reply of TradePropose"])

prop("C06", "A trade only moves along its life cycle",
 "A trade moves only empty -> proposal -> accepted -> completed -> settled (or expired after its expiration date); it is accepted only from a non-failed proposal, completed only from a non-failed, non-expired accepted trade with a transaction validated against the accepted one, and settled only once accepted, completed or failed. A failure is never cleared except by settlement, and a transition reports success only if the trade actually got there.",
 ["histories", "inputs"], "all sequences of operations on a trade",
 "Unit tests try selected source statuses; the life cycle must hold for all of them and for every writer of the status.",
 ["internal/core/domain/trade_service.go", "internal/core/domain/trade_model.go"],
 [("trade entity", "internal/core/domain/trade_service.go")],
 ENG + " (typestate of the status field) + who-may-write check",
 "The parsers behind the domain ports are assumed to validate (see C28).",
 "Who-may-write: status, expiry, message fields of a trade are written only inside the entity's package. Typestate: each write of a status is identified by the constant value it stores and must be dominated by the guards of that transition (path facts about the status code, failure flag, expiry date and parser errors); each (true,nil)/OK return must come after the write or under the equality that makes it idempotent; each (false,nil) return must record the failure.",
 ["status of stored trades"])

prop("C07", "Accepted and completed trades are always followed up",
 "A completed swap is broadcast only if the trade entity completed it with the transaction of the complete message, and its transaction id is reported only after a successful broadcast; the trade is then persisted as completed independently of the request's lifetime. An aborted trade is persisted as failed before its inputs are released; an accepted trade is always persisted with the vault, observed and scheduled for expiry, with inputs released only once it is actually expired. On confirmation the trade is settled with the block time and the utxo set updated before observation stops.",
 ["histories", "fault_sequences", "schedules"], "all completion, abortion, expiry and confirmation sequences and failures in between",
 "Tests complete one good trade with mocks; which follow-ups are skipped on which error or goroutine path is not sampled.",
 ["internal/core/application/trade_service.go", "internal/core/application/blockchain_listener.go"],
 [("completion", "internal/core/application/trade_service.go"), ("settlement", "internal/core/application/blockchain_listener.go")],
 ENG + ", goroutines and update callbacks inlined, value-flow tracing",
 "Decides ordering, guards and which values flow where; that background goroutines eventually run is assumed.",
 "The methods completing and proposing trades and the blockchain listener are analysed with helpers, goroutines and update callbacks inlined. At the broadcast the facts must include a nil error and OK result of the entity's Complete on the looked-up trade and the hex of that result must be what is sent; returns with a txid must follow a successful broadcast with the (possibly asynchronous) update of that trade under way, whose context does not stem from the request's. Releases of inputs must follow the recorded failure or, after sleeping at least the expiry duration, the trade found expired. Settlement requires the confirmation event's type, lookup by its txid and block time, and the stop of observation requires both the settlement and the utxo updates.",
 ["reply of TradeComplete", "stored trades, unspents and locks"])

prop("C08", "Two accepted trades never spend the same output",
 "The inputs the daemon contributes to a swap are chosen only among its available outputs (confirmed, unspent, unlocked, of the market's or fee account's addresses) and are locked for that trade before any other proposal can choose them; a proposal whose inputs could not be locked is not accepted. In both storage back-ends a lock is never taken over by another trade, spent and confirmed marks are never cleared, an unspent already known is never overwritten, and the balances and lists offered are filtered alike.",
 ["schedules", "histories"], "all interleavings of proposals and all sequences of operations on the utxo set",
 "Tests run one proposal at a time against mocks and a few rows; the race between selection and locking, and rows in every combination of states, are not sampled.",
 ["internal/core/application/trade_service.go", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go", "internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go"],
 [("proposal handling", "internal/core/application/trade_service.go"), ("badger utxo store", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go"), ("in-memory utxo store", "internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go")],
 ENG + " (locksets, value flow of the selected inputs, query conditions)",
 "Withdrawals do not reserve their inputs and are not covered; badgerhold evaluates queries as written.",
 "The proposal entry point is analysed with helpers inlined: each selection of unspents must hold the mutex of the trade service that is not released before LockUnspents; the keys locked must be exactly the filled swap's selected ones, all of them, under the accepted trade's id, with a nil error before the accept message. Both implementations of the utxo repository (found by interface) are analysed: each unspent entering a result (append, or rows returned, or values summed) must carry the conditions of that query as path facts or as conditions of the badgerhold query that filled the rows, and locks must have been read; writes of locks, spends and confirmations are checked for their keys, values and exclusivity (insert, or known unlocked). A program-wide scan checks that stored spent/confirmed marks are only ever set to true.",
 ["inputs of concurrently accepted swaps", "utxo store contents"])

prop("C14", "Work done in a storage transaction is committed whole or discarded",
 "A function run in a storage transaction has all its accesses through the repositories made in that transaction, is committed only if it returned no error, and success is reported only after the commit; conflicting transactions are retried from scratch and none is left open. Functions run this way use the transaction's context for every access and fail if any access failed. An accepted trade with its derived addresses, a new market with its account, and a restored vault with its markets and unspents are each written in a single transaction.",
 ["fault_sequences", "schedules", "crash_points"], "all storage failures, conflicts and crashes at any point of the work",
 "Tests commit a few happy-path transactions; they inject no storage failure or conflict, and no crash between two writes meant to be one.",
 ["internal/infrastructure/storage/db/badger/db_manager.go", "internal/infrastructure/storage/db/badger/trade_repository_impl.go", "internal/infrastructure/storage/db/badger/market_repository_impl.go", "internal/infrastructure/storage/db/badger/vault_repository_impl.go", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go", "internal/core/application/trade_service.go", "internal/core/application/wallet_service.go", "internal/core/application/operator_service.go"],
 [("transaction runner", "internal/infrastructure/storage/db/badger/db_manager.go"), ("badger stores", "internal/infrastructure/storage/db/badger/")],
 ENG + " (typestate of the transaction object, value flow of the context, error propagation)",
 "Badger's own atomicity is assumed. The in-memory back-end has no rollback by design and is not covered.",
 "The transaction runner is analysed with the work function as an unknown call: commit only under its nil error, nil returned only after a nil commit, every transaction closed on all paths (defer included), the conflict error leads to a new transaction, the context handed over carries the very transaction under the key of its database. Every badger repository method is analysed under a context with a transaction: each access to a badgerhold store must be the Tx variant with the transaction read from the method's own context under the key of the store's own database. Every function passed to RunTransaction (and the callees reached with its context) must use a context derived from its parameter for repository calls and return non-nil when one failed. The three multi-record writes are located by their effects and must be under one transaction.",
 ["stored records after a failed or interrupted operation"])

prop("C17", "Concurrent updates of a stored record never overwrite each other",
 "Updating a stored market, trade, vault or unspent is an atomic read-modify-write in both storage back-ends: the update function gets the current record, and exactly its result is stored, only if it succeeded. Every update changes the record it is handed rather than a copy read before, so concurrent changes are never lost. Since an update may be repeated on conflict, it has no outside effects such as broadcasting, notifying or starting observers.",
 ["schedules", "histories"], "all interleavings of updates of the same record",
 "Tests update records one at a time; a lost update needs two interleaved writers or a record changed between an earlier read and the update.",
 ["internal/infrastructure/storage/db/badger/db_manager.go", "internal/infrastructure/storage/db/badger/market_repository_impl.go", "internal/infrastructure/storage/db/badger/trade_repository_impl.go", "internal/infrastructure/storage/db/badger/vault_repository_impl.go", "internal/infrastructure/storage/db/inmemory/", "internal/core/application/"],
 [("badger stores", "internal/infrastructure/storage/db/badger/"), ("in-memory stores", "internal/infrastructure/storage/db/inmemory/"), ("update call sites", "internal/core/application/")],
 ENG + " (locksets, transaction typestate, value flow of the updated record)",
 "Badger's serializable snapshot isolation is assumed; whether the change made to the record is the right one is left to other properties.",
 "All implementations of the update methods of the repository ports (those taking a function from a record to a record) are enumerated. Each must read the record, call the function and store its result within one critical section of the store's mutex (in-memory) or one conflict-checked transaction (badger); the value stored must be the function's result under its nil error; an error of function or store must be returned. All call sites of these methods in the repository are enumerated; the function passed is analysed and each successful return must give back its own argument (or a record that cannot exist yet), and no broadcast, publish, observer registration, channel send or goroutine may be reached from within it or from a function run in a transaction.",
 ["stored records after concurrent updates"])

prop("C15", "Shared state is accessed under its lock, and the locks never deadlock",
 "State that several goroutines share in the daemon's long-lived objects (services, listeners, crawler, stores, encrypted databases) is read and changed only while the lock belonging to it is held, exclusively for changes; objects without a lock do not change after construction. Every lock taken is released on every path, never taken again by its holder, all locks are taken in one global order, and no object waits for other goroutines (channel, wait group, sleep) while holding its own lock. The in-memory back-end hands out copies of its records, never the stored ones.",
 ["schedules"], "all interleavings of the goroutines of the daemon",
 "Tests run few goroutines and pass under most schedules; an unguarded access or an inverted lock order shows under rare ones only.",
 ["internal/infrastructure/storage/db/inmemory/", "internal/core/application/", "pkg/crawler/", "pkg/macaroons/store.go", "pkg/securestore/bolt/store.go"],
 [("in-memory stores", "internal/infrastructure/storage/db/inmemory/"), ("listener and services", "internal/core/application/"), ("crawler", "pkg/crawler/"), ("encrypted stores", "pkg/securestore/bolt/store.go")],
 ENG + " (locksets, lock-order graph over the call graph, escape of stored records)",
 "Objects are taken as unshared until their constructor returns; state guarded by other means than a mutex (channels, a single goroutine) is not judged.",
 "All structs of the repository with a mutex are enumerated; a field of theirs is shared state when some function other than on a fresh object changes it (assignment, map or element write, delete, copy). From every entry (exported functions, goroutine bodies, functions without callers; then whatever was not reached) the functions around the accesses are followed with helpers and callbacks inlined and the held mutexes as facts: each access to shared state needs the mutex of its struct (write lock for changes), locking needs it not held, unlocking needs it held, each return needs it released, no channel operation, sleep or WaitGroup.Wait happens with one held. Functions handed to a method that calls them under its mutex must not reach that mutex. Pairs (held, taken), including those through interface calls and callbacks, form a graph that must be acyclic. The long-lived services (everything the application services hold through interfaces) without a mutex must have no field changed outside of constructors. In the in-memory back-end no result, callback argument or element of a returned container may be, or contain through pointers and maps, a record or map read from the store.",
 ["races and deadlocks"])

prop("C11", "The seed and the wallet's passwords stay secret",
 "The mnemonic and the passwords given by the operator never leave the daemon's memory in plain text: not in logs, errors, replies (but for the reply generating a seed), files, stored records or requests to others. The mnemonic is stored only encrypted with the password, by authenticated encryption under a fresh random nonce and a slow salted key; it becomes available only by decrypting it with the given password, the vault is locked after its creation, and locking forgets it. A password changes only if the current one is right, for mnemonic and hash together, a failed change alters nothing, and all stores protected by the password get current and new one each in its place.",
 ["inputs", "faults"], "all passwords and mnemonics, all paths including failures",
 "No test can show that no path logs a secret, that a nonce is fresh or that a failure between two steps of a password change leaves nothing behind.",
 ["internal/core/domain/vault_service.go", "internal/core/domain/vault_model.go", "pkg/wallet/cypher.go", "internal/core/application/wallet_service.go", "internal/interfaces/grpc/service.go", "internal/interfaces/grpc/handler/wallet.go"],
 [("vault", "internal/core/domain/vault_service.go"), ("cipher", "pkg/wallet/cypher.go"), ("wallet service", "internal/core/application/wallet_service.go"), ("gRPC service", "internal/interfaces/grpc/service.go")],
 ENG + " and a whole-program information-flow (taint) analysis",
 "What third-party libraries do with a secret, other processes reading the memory, and secrets of webhooks (which sign the outgoing requests) are out of scope; so is the command line client.",
 "Information flow: all reads of the mnemonic store, decryptions, generated mnemonics, extended private keys, password and mnemonic fields of requests and the untyped requests seen by interceptors are sources; values are followed through assignments, fields (by type), closures, containers, channels, calls and results across the repository; every argument of a log, error, file, database and network call, every field of a reply or of a stored record, and every struct holding such a field printed as a whole is an obligation. Vault: at every place that sets the plain mnemonic it must be the checked decryption, with the given password, of the vault's own encrypted mnemonic (or, in the constructor, what has just been encrypted); the encrypted mnemonic and the hash may only be replaced under the check of the current password, by the checked encryption of the decrypted mnemonic with the new one and its hash, both of them, and on no path returning an error. Cipher: the nonce and the salt must have been read completely from the system's generator on every path, cost parameters are constants of at least scrypt's usual minimum, and decryption succeeds only with the checked output of the authenticated opening. Password routing is checked argument by argument from the handlers over the wallet service and its message to the gRPC service's macaroon store and the webhooks' store.",
 ["logs", "errors and replies", "stored vault"])

prop("C12", "Addresses are derived once, recorded and persisted before they are used",
 "Deriving an address gives the next unused index of the account and chain asked for, advances that chain's index by exactly one and leaves every other untouched, also when it fails. The path, script, address and blinding key of an address derived all belong together and are recorded in the vault, and all of them are listed, so that funds sent to it can be recognised, unblinded and signed for. An address is handed out, or a transaction paying to it broadcast, only once the vault holding it is persisted, and accounts for different purposes never share an index.",
 ["inputs", "histories", "crash_points"], "all accounts, chains, histories of derivations and failures in between",
 "Tests derive a handful of addresses of a fresh vault; reuse of an address, or a lost index, shows only after failures, restarts or dropped markets.",
 ["internal/core/domain/vault_service.go", "internal/core/domain/vault_model.go", "internal/core/application/operator_service.go", "internal/core/application/trade_service.go", "pkg/wallet/keys.go"],
 [("derivation", "internal/core/domain/vault_service.go"), ("vault repositories", "internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go"), ("wallet keys", "pkg/wallet/keys.go")],
 ENG + " (typestate of the index and of the records, value identity, who-may-write, persist-before-use order)",
 "That different paths give different addresses is assumed (BIP32); addresses of failed or abandoned requests may be left unused.",
 "Both derivations of the vault are followed with the wallet package opaque: the path, however it is put together, has the account asked for, the constant of the chain and that chain's own counter; script, address and key of the result come from one wallet call on that very path; on success the counter was stored once, incremented (restarting only past the last BIP32 index), and script and address were recorded; on failure nothing was stored. The listings must run the counters from 0 up to the chain's own counter and list the records as they belong together. All stores to accounts, counters and records in the program are enumerated: only the vault's derivations write them, and the copies made by the in-memory repository are complete, entry by entry. The constants of the reserved accounts differ and lie below the first market account, a market's account is the latest one's successor, and both back-ends determine the latest by the account index. In every service method each address handed out, watched or paid to is derived from the vault inside an update callback whose success dominates the use (or derived again from the persisted vault until it holds it), and errors of the derivation reach the caller; the wallet derives keys along all steps of the path given.",
 ["stored vault", "addresses returned by the services"])

prop("C19", "What the daemon observes on the blockchain is checked until it is removed",
 "Every address and transaction handed to the listener, before or after its start, is observed exactly once until it is removed or the crawler stops: whatever a check's outcome, it is checked again at the next tick, and each check ends with exactly one event about that very object, of the kind the explorer's answer calls for, or with the error of the failed request. Stopping ends all goroutines first, then announces the end to the consumer, once; no event or error is lost by a consumer that gave up while the crawler runs.",
 ["schedules", "faults"], "all answers and failures of the explorer, at any point of the life of an observable",
 "Tests run a mock explorer for seconds; an observable left stuck by one failed request, or a stop racing with a check, shows in none of them.",
 ["pkg/crawler/observable.go", "pkg/crawler/service.go", "internal/core/application/blockchain_listener.go"],
 [("observables", "pkg/crawler/observable.go"), ("crawler", "pkg/crawler/service.go"), ("listener", "internal/core/application/blockchain_listener.go")],
 ENG + " (typestate of observables, handlers and of the stop protocol)",
 "That the consumer keeps receiving and that tickers tick is assumed; what the listener does with the events belongs to other properties.",
 "All implementations of the observable port are analysed with helpers and deferred calls inlined: on every path exactly one value is sent on the event or the error channel, an event only after a successful answer and with the fields of the observable itself (its type decided by the account, or by the explorer's confirmed flag), and the status left at return is not the one that keeps it from being checked. The goroutine around them must call the check synchronously at each tick unless one is going on, end only on the stop channel, stop its ticker and signal its end once. The crawler's methods are analysed for the protocol of registration (key, at most once, never after the stop, counted before its goroutine starts, wired to the crawler's own channels), removal (stopped and forgotten together) and stop (once, all goroutines told and awaited, then the closing event, then the error channel closed; no other channel is ever closed). The listener must hand each request to the running crawler or keep it for the start, where all kept ones are handed over; its event loop ends only on the closing event.",
 ["goroutines of the crawler"])

prop("C18", "RPCs pass on valid requests and complete answers, nothing else",
 "Each RPC hands the service exactly the values of the request, once those that must be valid were validated (market, amount, asset, trade type, swap message, fees, price, strategy, passwords, mnemonic, outputs, fee rate, counts); an invalid request is refused as an invalid argument, never reaches the service and never crashes the daemon. The reply carries exactly and completely what the service returned, each value in its own field. A failed service call ends in an error, never in a reply.",
 ["inputs", "faults"], "all requests (missing parts, extreme numbers, lists of any length) and all results of the services",
 "Tests never run the handlers; a field swapped, dropped or validated only for the first element concerns requests nobody sampled.",
 ["internal/interfaces/grpc/handler/trade.go", "internal/interfaces/grpc/handler/operator.go", "internal/interfaces/grpc/handler/wallet.go", "internal/interfaces/grpc/interceptor/auth.go"],
 [("trade handlers", "internal/interfaces/grpc/handler/trade.go"), ("operator handlers", "internal/interfaces/grpc/handler/operator.go"), ("wallet handlers", "internal/interfaces/grpc/handler/wallet.go")],
 ENG + " (access paths of arguments and replies, validated facts at the service call, loop completeness)",
 "Conversions between number types are taken as the same value; that list elements of a received message are not nil is assumed of the transport.",
 "Every method of the three published services is followed from the request to the only call of the application service and back, with the handlers' helpers inlined. At the service call the facts on the path must imply the validity of the parts of the request (interval and non-emptiness facts, equality with the configured base asset, a loop that checks each element); every field of every argument is traced back to the access path it must stem from, for all alternatives, and so is every field of the reply, including fields of list elements and map entries. Parts that may be missing may be so only where their source is missing (the case is refuted otherwise). Lists must be passed on whole: either as they are, or by a loop that ends only after having handled each element. A reply or a nil error needs the service's error to be nil, an error before the service call must be an invalid argument, and the numbers of all enumerations must agree with the protocol's. Interceptors must hand on what the handler returns.",
 ["replies of all RPCs"])

prop("C28", "Swap messages carry what they were made of, and only checked content",
 "The four swap messages carry exactly the values they are made of: identifiers referring to the message answered, assets and amounts in their roles, transaction and blinding keys; the identifier and bytes returned are those of the message serialized. A request or acceptance is made only of a transaction that parses, whose inputs are all sane and have a previous output, and whose inputs and outputs have a blinding key each if keys are given; a completion only of the accepted transaction with all signatures valid, one that can be finalized where a trade is concerned. Every failure is an error, with the code of the message concerned, and what is decoded from a message is that message.",
 ["inputs"], "all transactions, keys, identifiers, amounts and previous messages",
 "Tests compare the length of a few messages; values in exchanged roles or an element left unchecked do not change it.",
 ["pkg/swap/request.go", "pkg/swap/accept.go", "pkg/swap/complete.go", "pkg/swap/fail.go", "internal/core/domain/trade_model.go"],
 [("messages", "pkg/swap/request.go"), ("parser of the trades", "internal/core/domain/trade_model.go")],
 ENG + " (access paths of the fields of the serialized message, must-have-checked labels, loop completeness)",
 "Signature checks and hashing are those of go-elements; a transaction completed in its final raw form is compared with the accepted one by hash but its signatures are not verified.",
 "Each constructor is followed to the call that serializes the message, once as function of the swap package and once as method of the trades' parser: every field of the message must come from the argument it is specified to come from (also for an identifier that may be generated: a case split assumes one is given). At the return of a message the facts must include the checks: transaction parsed, each input sane, with previous output (in range) and key, each output with a script with key, the completed transaction's hash equal to the accepted one's, signatures validated, finalization succeeded. The parser's errors carry cause and code.",
 ["serialized swap messages"])

prop("C22", "Wallet transactions spend, pay, blind and sign exactly what they should",
 "Coins selected for an amount are distinct, revealed, of the wanted asset and cover the amount, the change being what they exceed it by; adding inputs and outputs to a transaction adds exactly the selected coins, the requested outputs and, if not null, the change of each asset to the change script of that asset, fees being covered by bitcoin inputs not yet selected and never making the change underflow. Every input is revealed with its own blinding key or data and every output blinded with its own key, and what is revealed of an output is what it contains. Every input is signed for its own script and value, committing to the whole transaction, with the key of its own derivation path, the signature being verified before it is added; any failure is an error.",
 ["inputs"], "all transactions, coins, outputs, amounts, assets, keys and derivation paths",
 "Tests build a few transactions against fixed coins; a wrong role, index, path or change for another combination of assets, coins and fees still gives a valid-looking transaction.",
 ["pkg/wallet/transaction.go", "pkg/wallet/util.go", "pkg/wallet/sign.go", "pkg/wallet/blind.go", "pkg/explorer/coinselection.go", "pkg/transactionutil/transactionutil.go"],
 [("inputs and outputs", "pkg/wallet/transaction.go"), ("signatures", "pkg/wallet/sign.go"), ("blinding", "pkg/wallet/blind.go"), ("coin selection", "pkg/explorer/coinselection.go")],
 ENG + " (access paths of the parts of the transaction, loop completeness, linear forms of the amounts, case split on coins and fees)",
 "go-elements, the size estimation behind the fees and rounding of the fee rate are assumed; which of the possible selections is made is not judged.",
 "The functions updating a transaction are analysed with the helpers of the wallet inlined, the general one once for each of three modes (inputs given, fees paid by the wallet, fees left out): every coin selected must be asked for the total of the outputs of its asset, only from coins not selected before; each change output must be of the change of a selection, in the asset and with the script of the path of that asset; the change of the fee asset must be, as linear form, what the coins exceed the outputs and fees by, with a guard excluding underflow; at a return all coins selected and all outputs are added to the transaction and the blinding keys are those of the outputs at their positions. Signing: the hash, script, value, index, key and signature handed to the library must be those of one input, the signature verified, all inputs done at a return. Blinding: each entry of the blinding data or keys must stem from what belongs to the input or output at that index, for all of them, the retries bounded and only after a failed surjection proof. Revealing: each field must stem from the successful unblinding of the output, or of its explicit value if it is not confidential. Coin selection: asset and revealed checks dominate each candidate, the amounts combined are those of all candidates in order, a coin is taken at the index of an amount equal to the chosen one and not taken before, the combinations are guarded to cover the target, the change is the sum minus the target.",
 ["transactions built by the wallet"])

prop("C23",
 "Accepting swaps, withdrawing and sending spend the right funds as requested",
 "An accepted proposal is filled with exactly the amounts and assets of the request, out of available coins of the market, the network fees out of those of the fee account; its outputs and changes go to fresh addresses of the account each belongs to, every input added is revealed and signed with the key of its own address, and all selected coins and blinding keys are reported. Withdrawing from a market and sending to many pay every requested amount, in its asset, to its address and nothing else, at no less than the minimum fee rate, with the change and the fees of the accounts involved, blinded and signed completely. What is broadcast is that transaction, only if asked for, after the change addresses are persisted and only if no step failed; failures are reported.",
 ["inputs", "faults"], "all proposals, withdrawals and payments, sets of coins, accounts and failing steps",
 "Tests mock the filling of proposals and never run withdrawals or payments against real coins; a wrong account, index, key or amount shows only for particular combinations of coins and outputs.",
 ["internal/core/application/trade_service.go", "internal/core/application/wallet_service.go", "internal/core/application/operator_service.go", "internal/core/domain/vault_model.go"],
 [("filling proposals", "internal/core/application/trade_service.go"), ("payments", "internal/core/application/wallet_service.go"), ("withdrawals", "internal/core/application/operator_service.go")],
 ENG + " (value flow between the steps of a spending, loop completeness, positions as linear forms, facts at the broadcast)",
 "What the steps of the wallet do is C22, which addresses are derived C12, that coins are locked and marked C08; coins of the wallet account are those the explorer reports.",
 "The three operations are analysed with all helpers of the application and the callbacks of vault updates inlined. Each step of the wallet (swap inputs, fees, blinding, fee output, signing, finalizing) must get the result of the step before it and coins, addresses, paths, amounts and keys traced to the account or part of the request they must come from. Filling: the inputs added are revealed and signed at positions that are, as linear forms, the number of the proposer's inputs plus the position in the list of selected coins, the number being taken before the list grows; the address used for an input is one found by the script of that very coin; loops over the selected coins and change keys must be complete. Sending: one output and one key per request of the same element, the keys of changes appended from the first output without a key on, looked up by the script of that output; the map of paths must have been filled completely from both accounts; the rate is bounded from below on every path. At the broadcast the facts must include the request to do so and the success of every step and of the vault update; a return without error requires the broadcast unless it was not asked for. For withdrawals also: balances checked, market existing, base asset right.",
 ["transactions of the services"])

prop("C24",
 "An explorer client reports only, and all, what its explorer answered",
 "Coins, transactions, statuses and heights returned by an explorer client are those its explorer answered for the very address, transaction or block asked for: none missing, every part from the same coin or transaction, values unchanged, and confirmed exactly if the explorer says so. A request that fails, or an answer that is not understood, is reported and never crashes the client. Given blinding keys, a confidential coin is returned with the value, asset and blinders that unblinding this coin reveals, or the failure is reported, and a node is told to watch an address with the blinding key of that address before it is asked for its coins.",
 ["inputs", "faults"], "all answers of an explorer, addresses, blinding keys and transactions",
 "Nearly all tests of the explorer clients need a running explorer and are not among the stable ones; mixed up parts, dropped elements, failures taken for empty answers and crashes on unexpected ones need answers no test gives.",
 ["pkg/explorer/esplora/unspents.go", "pkg/explorer/esplora/transaction.go", "pkg/explorer/esplora/types.go", "pkg/explorer/esplora/client.go", "pkg/explorer/elements/unspents.go", "pkg/explorer/elements/transaction.go", "pkg/explorer/elements/types.go", "pkg/explorer/elements/client.go"],
 [("esplora", "pkg/explorer/esplora"), ("elements", "pkg/explorer/elements")],
 ENG + " (value flow from requests and answers to every part of a result, by JSON keys; typestate of requests; loop and channel completeness; index and type assertion obligations)",
 "What the explorer says is taken as true. Faucet and mint are test helpers and only covered by the crash rules. Order of the elements is free.",
 "The nine reading and broadcasting methods of both clients are analysed with their helpers and goroutines inlined. Every request made is named by its method and arguments and must be one of those of the operation; an answer may be used only under the facts that the request succeeded (no error, status 200, no RPC error) and, once decoded, that decoding succeeded. Each part of the result is traced through channels, lists, maps and structs to the key of the answer it comes from and must be the right one, of the same element; for lists, each loop and channel on the way must have passed on every element. Unblinding: the parts of the output unblinded are those of the coin, and the revealed parts come from one successful call. Watching: import before asking, under a fact that the key belongs to the address (equality of its public key with the one in the address), lists kept alongside indexed at the same place. Confirmed: the two outcomes are judged under the facts on the number of confirmations. Constructors and methods of coins and transactions keep and report what they were given (case analysis for the confidential ones). Elements of answers are read only within bounds, types of answers asserted only if checked. The transport sends the given method, address and body and returns what it read.",
 ["answers of the explorer service"])

prop("C30",
 "The trade client previews, proposes and signs exactly what its user asked for",
 "A preview states, for either type of trade and either asset of the market, the amount asked for on its side of the trade and on the other side the amount the server quoted for that very request, in the other asset of the market. An order is placed only with valid arguments; the proposal carries the amounts previewed and a transaction that spends coins of the user's address covering the amount to send, and pays the amount to receive and all the change to that address; failed calls and rejections are reported. The user's key signs all and only the inputs of his own script, each for its own value, and what completes a trade is the signed accepted transaction.",
 ["inputs", "faults"], "all markets, types, amounts, assets, coins, keys and replies of a server",
 "The stable tests only construct the client: every other operation needs a running daemon; which side an amount belongs to, what of the coins returns and which inputs are signed depend on combinations no test runs.",
 ["pkg/trade/preview.go", "pkg/trade/buy.go", "pkg/trade/sell.go", "pkg/trade/wallet.go", "pkg/trade/client/market.go", "pkg/trade/client/trade_propose.go", "pkg/trade/client/trade_complete.go"],
 [("orders", "pkg/trade/buy.go"), ("preview", "pkg/trade/preview.go"), ("transaction and keys", "pkg/trade/wallet.go"), ("calls of the service", "pkg/trade/client")],
 ENG + " (value flow from the options to each step and request, case analysis of the preview, loop completeness over coins and inputs)",
 "Known finding: the accepted transaction is signed without being compared with the one proposed. The price itself is the server's; swap messages are C28, coin selection C22.",
 "Each exported operation of the client is analysed with its helpers inlined and the other exported operations named. Calls: every field of a request must be the option of the same meaning, sent only under facts that validate it; messages given as bytes must have been decoded successfully. Preview: four runs under the assumptions buy or sell and base or quote; at a successful return the four results must be the given asset and amount and the quoted ones on the right side, under the fact that the quoted asset is the other one of the market. Orders: coins by address and blinding key of the user, the arguments of the transaction, of the swap message, of the proposal and of the completion traced to the step before, each step only after the previous succeeded; results only if no failure was reported. Transaction: all and only the selected coins become inputs with their own prevouts, outputs are exactly what is received and, unless zero, the change. Signing: loop completeness over the inputs with a script of the user, hash and value of the same input, signature verified. Keys, addresses and network of the client are those given.",
 ["replies of the trade service"])

prop("C20",
 "Every registered webhook, and no other, gets the messages of its action",
 "A webhook that was registered stays registered, listed and invoked, exactly for its own action or for all, until it is removed, whatever others are registered or removed meanwhile. A message is posted to each webhook of the action (and to those for all actions), at its own endpoint and authorized with its own secret, even if others fail, and failures are reported. What is published says, for a settled trade or a withdrawal, the amounts, assets, prices, balances and transaction of that very trade or withdrawal, once it is settled or sent.",
 ["inputs", "histories", "schedules", "faults"], "all webhooks, actions, registrations and removals in any order, failing endpoints and stores",
 "One test registers five webhooks and publishes once to endpoints that all answer; lost updates, the wrong one removed, one failing endpoint hiding others and payloads with mixed up fields need other histories.",
 ["internal/infrastructure/pubsub/webhook/service.go", "internal/infrastructure/pubsub/webhook/webhook.go", "internal/infrastructure/pubsub/webhook/action.go", "internal/infrastructure/pubsub/webhook/store.go", "internal/core/application/blockchain_listener.go", "internal/core/application/operator_service.go", "internal/core/application/wallet_service.go"],
 [("webhooks", "internal/infrastructure/pubsub/webhook"), ("messages", "internal/core/application/blockchain_listener.go"), ("withdrawals", "internal/core/application/operator_service.go")],
 ENG + " (value flow into every stored list, request, header and payload field; loop completeness; lock and error typestate; case analysis by action)",
 "Delivery itself (network, retries, the circuit breaker shared by all endpoints) is not decided. AccountLowBalance is never published by this daemon.",
 "Registering: under the mutex, the webhook is stored by its id and the list stored for its action is the one read for that action plus it. Removing: the list stored is the one read without exactly the entry whose decoded id is that of the webhook, whether cut or filtered, and nothing is stored if it is not there. Publishing and listing are analysed once for an action and once for all actions: each request goes to the endpoint of an element of the lists of the action (and of all actions), every element is reached although others fail, the token is signed with the secret of the same element iff it has one, any status but 200 is an error, and the outcome is waited for. Stored form, numbers, labels and topics are inverse to each other; every error of the store is propagated. Each publication: every field of the payload is traced to the trade, market or request it must come from, under the facts that it is settled or broadcast, and goes to its topic. The store is initialized before the wallet can be unlocked, then opened and re-keyed with the passwords of the wallet.",
 ["registered webhooks", "payload of a message"])

prop("C21",
 "Goroutines neither race for what they share nor get lost or stuck",
 "A variable or map that a goroutine shares with the function that started it, or with other goroutines, is not written by one while another may use it. What is waited for is what was started: one goroutine for every element, each telling exactly once and last that it is done, no channel closed while somebody may still send to it, and no goroutine left waiting for a result to be received. Work that goes on after a request was served does not depend on the context of the request.",
 ["schedules"], "all interleavings of the goroutines started by any function",
 "Tests run one schedule, mostly with one element and against mocks; loop variables shared by goroutines, groups that are waited for too early and goroutines stuck on a channel only show in others, and the race detector only sees the schedules of the tests.",
 ["internal/core/application/operator_service.go", "internal/core/application/wallet_service.go", "internal/core/application/trade_service.go", "internal/core/application/blockchain_listener.go", "internal/infrastructure/pubsub/webhook/service.go", "pkg/explorer/esplora/unspents.go", "pkg/explorer/esplora/transaction.go", "pkg/explorer/elements/unspents.go", "pkg/crawler/service.go"],
 [("goroutines of the services", "internal/core/application"), ("goroutines of the explorers", "pkg/explorer"), ("goroutines of the crawler", "pkg/crawler")],
 "escape and access analysis of captured variables over the SSA form; reachability without synchronization; path counting of Add, Done, Wait, close and send over the control flow graphs",
 "Fields of shared services are C15 and C17. Any receive or Wait is taken to wait for all goroutines started before; a mutex taken before both accesses is taken to be the same one.",
 "For every instruction that starts a goroutine (go statements and error groups) the variables it captured or was given are related to their accesses in the goroutine, in the starting function after the start (through loop back edges, up to something that waits or the variable being made anew) and in other goroutines: a write on one side and any access on the other is a violation, by field for structs and by content for maps; the Go 1.16 semantics of loop variables come with the SSA form. For groups: the numbers of times Done may be called on the paths of a goroutine must be {1}, nothing is sent after it, the length added is that of the list whose loop starts one goroutine per round and cannot be left before, close is dominated by Wait, and the channel has room for the results unless the receiving loop only ends when the channel is closed. A goroutine that may outlive its function (a return is reachable without waiting) must not use a context that derives from a parameter of it.",
 ["schedule of goroutines"])

prop("C13",
 "What the operator is shown is what is stored",
 "The lists and sums shown to the operator contain every stored market, trade, fee and coin exactly once, and every field shown is that of the entry it is shown for. Fees collected are those of completed trades, at the percentage and price recorded for them, and totals per asset are their sums. Coins are listed with the account they belong to and as spent, locked or available according to their marks; addresses to deposit to and balances are of the account asked for.",
 ["inputs", "histories"], "all stored markets, trades, coins and addresses",
 "Tests look at one market and no trades; entries missing or mixed up show with more entries, or in states of trades and coins the tests do not produce.",
 ["internal/core/application/operator_service.go", "internal/core/application/types.go"],
 [("reports of the operator service", "internal/core/application/operator_service.go")],
 "abstract interpretation of every report over symbolic entries: provenance of the elements of lists and maps, loops over what is stored covered entirely, branch facts where entries are told apart",
 "What the repositories return is taken as stored; the conversion for the wire is C18. The link to the block explorer is not interpreted.",
 "Every method that reports is analysed with its helpers inlined, across goroutines and channels. The elements appended, sent or put into maps are recorded as expressions over the results of repository calls; the fields of the result must be exactly the expected expressions (of the same element). Loops over what is stored (and over channels) must reach the recording on every iteration, apart from empty trades. For collected fees the price chosen must come with the branch fact of the asset of the fee, and each entry must be added exactly once to the total of its own asset. For coins, what is appended to each list must come with the marks of that coin, and the lists kept must be those of the same account.",
 ["lists and sums reported"])

prop("C25",
 "Deposits are credited to the account they were made to, or not at all",
 "A claim credits an account only if every claimed output exists, is confirmed, pays an address the account derived for deposits and could be unblinded with its key; the coins added are exactly those outputs, with their own outpoint, value, asset, blinders and address, and a market is funded with exactly these before they are added. Otherwise nothing is credited. Addresses given out for deposits are as many as asked for, new external addresses of the right account with their own blinding keys, and stored.",
 ["inputs", "histories"], "all claims of any outputs, against any set of accounts and addresses",
 "Tests claim two valid outputs of one market; claims mixing accounts, repeated transactions, unconfirmed or unrelated outputs and outputs that cannot be unblinded are not sampled.",
 ["internal/core/application/operator_service.go", "internal/core/application/wallet_service.go"],
 [("operator service", "internal/core/application/operator_service.go")],
 "abstract interpretation with provenance of the coins and addresses, a typestate per claimed output (counted if and only if recorded), branch facts at crediting, case analysis of the assets given",
 "What the explorer and the blinder return is taken as is. That the market accepts the assets is C09, that the coins are stored is C08. Another algorithm than counting outputs per account would have to be specified.",
 "ClaimMarketDeposit and ClaimFeeDeposit are analysed to the calls that fund the market and add coins. Maps of addresses must be keyed by account and by the script of the same address, only external addresses of the market (or of all markets not funded yet) or of the fee account; the output looked up must be at the claimed index, proven to be below the number of outputs on every path; the coin recorded must have every field from the same outpoint, output, address and unblinded result, under the facts that the transaction is confirmed, the script known and the unblinding successful. An iteration either counts the output for that account and records it, or neither. Crediting needs the fact that the count of the very account equals the number of outpoints, after all were handled. For addresses, the loop must run from zero to the number asked for, each round deriving one external address for the account of the case analysed.",
 ["accounts credited", "addresses given out"])

prop("C16",
 "Storage queries return exactly the matching records, in both back-ends",
 "Every query of the stores for utxos, trades, markets and the wallet is answered with all the records that match its conditions and no other, once each, whichever back-end is used; a balance is the sum over exactly these. Updates, locks and deletions reach exactly the records named, all of them, and leave the others and what was stored before alone; a record stays findable by its other names. A record is said not to exist only if it does not, and an error of the database is not taken for an empty answer.",
 ["inputs", "histories"], "all contents of the stores and all arguments of the queries and updates",
 "Tests query a store filled with a few records; the conditions, the loops and the indexes must be right for any content and for both back-ends alike.",
 ["internal/infrastructure/storage/db/badger/unspent_repository_impl.go", "internal/infrastructure/storage/db/badger/trade_repository_impl.go", "internal/infrastructure/storage/db/badger/market_repository_impl.go", "internal/infrastructure/storage/db/badger/vault_repository_impl.go", "internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go", "internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go", "internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go", "internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go"],
 [("badger back-end", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go"), ("in-memory back-end", "internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go")],
 "abstract interpretation of each query with the conditions assumed of every record (all must reach the result on all paths) and negated one by one (none may), evaluation of the database queries to their conditions, provenance of keys and values at each access",
 "That the database evaluates a query as documented and encodes records faithfully is assumed. The order of records is only covered for the latest market (C12), the transactions around the updates by C17, the state of locks and spends by C08. Whether an unknown id is an error or no record differs between the back-ends and is left open.",
 "A table of the queries gives the conditions on the fields of a record. In-memory: under the assumption that the current record of each loop satisfies all conditions, every iteration must add it to the list (or sum) that is returned, and every loop must be left only when exhausted; under the negation of one condition the record must not be added, unless an index map implies the condition. Badger: the query handed to the database is reduced to its conditions, which must be exactly those of the table with the arguments given (an In list must be made of all of them), all rows must be returned or summed, the lock looked up for each, and the error seen. Every read, write and deletion by key in any method must have a key and a value from the table of accesses; methods given many keys must handle each; a new record must be written before it is handed out.",
 ["stored records", "answers of the repositories"])

prop("C31",
 "Settings are validated at startup and reach the services in their unit",
 "The daemon starts only if its settings are in range: fee, slippage, thresholds, intervals and limits, a known network, a data directory, and the key and the certificate of the trade interface both or neither. Every setting reaches what it is for and nothing else, unchanged and in the unit it is documented in: fees, slippage, expiry, timeouts, intervals, base asset, network, directories, and which authentication is on. Each interface listens on its own address, and in clear only if no key is configured for it.",
 ["inputs", "configurations"], "all values of all settings",
 "Settings are read once, at the start of the process, from its environment; no test starts the daemon, and those of its parts choose their parameters themselves.",
 ["config/config.go", "cmd/tdexd/main.go", "internal/interfaces/grpc/service.go", "pkg/circuitbreaker/circuitbreaker.go", "pkg/crawler/service.go", "pkg/explorer/esplora/service.go"],
 [("configuration", "config/config.go"), ("daemon", "cmd/tdexd/main.go")],
 "abstract interpretation from the reads of settings through the constructors to the fields and arguments made of them, each reduced to a setting times a constant; branch facts at the successful end of the validation; case analysis of networks and keys",
 "viper is assumed to return the value set for a name. Whether the base asset exists, the explorer answers or the ports are free is not known before the daemon runs. A new setting is only covered once it is added to the tables.",
 "The initialisers of the daemon's variables and its main function are followed into the configuration and the constructors of the services, the crawler and the explorer. What is stored in each field and passed in each argument of the tables is reduced to a setting's name, a rational factor and marks for rounding, truncation and formatting, and compared. At every successful end of the validation the facts known must bound each numeric setting (comparisons that are false say nothing about what is not a number), name one of the two networks and exclude an empty directory; assuming only one of key and certificate set, there must be no successful end. The initialisation must not end unless the validation's error is known to be nil. With each network assumed, only it may be chosen. With keys assumed configured or not, the listener each registered server is served on must be traced to its own address, and through a TLS listener made of its own key and certificate exactly if there are any.",
 ["listening addresses", "behaviour of the services"])

prop("C09", "A market's configuration changes only when allowed, and as requested",
 "A market is opened only with both assets known and, under the pluggable strategy, a price set since the switch to it; its fees and strategy change only while it is closed, to a percentage of 0 to 9999 basis points and non-negative fixed fees for both assets or none; its two assets are set once, from confirmed deposits of exactly two assets, one being the daemon's base asset. The operator's requests change only the market of the requested pair, which must have the daemon's base asset and valid asset hashes, to exactly the requested values; prices must be positive. Failures of a change are reported.",
 ["inputs", "histories"], "all sequences of operator requests and all values in them",
 "Tests try selected values on a fresh market; the rules must hold after any history, for every writer of the configuration and every request.",
 ["internal/core/domain/market_service.go", "internal/core/domain/market_model.go", "internal/core/application/operator_service.go"],
 [("market entity", "internal/core/domain/market_service.go"), ("operator service", "internal/core/application/operator_service.go")],
 ENG + " (guards and interval facts at each write of the configuration, who-may-write, value flow from the request)",
 "That deposits are confirmed is what the explorer says; two markets for one pair and the account a deposit belongs to are not covered.",
 "Who-may-write: all stores to fields of the market record in the program are enumerated; outside the entity only literals of new markets and the completion of loaded records are allowed. Each exported method of the entity is analysed: at every write of a field the facts must include the guards of that field (closed, funded, bounds on the value, both-or-none of the fixed fees as an exclusion of the two mixed sign cases, price known when opening a pluggable market), and leaving a method that switched to the pluggable strategy requires both prices reset. Each method of the operator service reaching a market operation is analysed with helpers and update callbacks inlined: the operation must be dominated by the equality of the requested base asset with the configured one, by a successful match of both assets against a pattern (judged by what it matches), by the existence of the market, must target the record found for the requested quote asset and pass the requested values; claims of deposits must use confirmed transactions, unblinded values and known scripts; every error of an operation must reach the caller.",
 ["stored markets", "replies of the operator service"])

prop("C10", "Quotes follow the market's price, fees and balances",
 "A quote is made only for an open, existing market with the daemon's base asset, and for one of its two assets; the amount is that of the market's strategy for the direction of the trade, computed on the market's available funds with its percentage fee charged on the incoming side, plus or minus the fixed fee of the other asset, always in favour of the market. It never offers the whole reserve or a null amount. Prices, balances, fees and assets reported for a market are its own, never mixed up between base and quote or between markets.",
 ["inputs", "configurations"], "all amounts, balances, prices, fees, directions, assets and strategies",
 "Tests compare a table of amounts; a formula, guard or role mixed up for one combination of direction, asset and strategy goes unnoticed.",
 ["internal/core/domain/market_service.go", "internal/core/domain/pluggable_strategy.go", "pkg/marketmaking/formula/balanced_reserves.go", "pkg/mathutil/fee.go", "internal/core/application/trade_service.go"],
 [("market preview", "internal/core/domain/market_service.go"), ("strategies", "pkg/marketmaking/formula/balanced_reserves.go"), ("quotes", "internal/core/application/trade_service.go")],
 ENG + ", case split on direction, asset and strategy, rational normal form of the formulas, role check of base/quote assignments",
 "Rounding to whole units and overflow of machine integers are not judged.",
 "The preview of the market is analysed for each of the eight combinations of direction, given asset and strategy: the formula called, the reserves, price, fee and amount handed to it, the fixed fee applied to its result (as a linear form), the asset and price returned, and the guards (open, minimum, fee covered, below the reserve) must be those of that combination. Each strategy is analysed on its own: its result as a rational function of the inputs must equal the documented formula and its guards exclude null amounts, empty reserves, asking for the whole reserve and a null divisor. The methods reporting on markets are analysed with helpers inlined: guards before a quote, which market, account, map entries and request values the preview gets, that balances are summed per asset, and that each field reported stems from the right field of one and the same market. Program-wide, every assignment from a base/quote named field or getter to a base/quote named field must keep the role.",
 ["replies of GetMarketPrice, GetMarketBalance, GetTradableMarkets, ListMarket"])

na("C32", "Estimated fees reach the relay rate of the network",
   "Every transaction the daemon broadcasts pays at least the requested rate for its final virtual size, whatever its inputs and outputs.",
   "inputs", "for every combination of inputs, outputs, scripts and fee rates",
   "Tests compare one or two templates with a constant.",
   ["pkg/wallet/estimation.go", "pkg/wallet/transaction.go"],
   [("size estimation", "pkg/wallet")],
   "the virtual size of the final transaction is made by the signer and the range prover of the elements library at run time; no static bound on it is in reach, only that the estimate covers all inputs and outputs, which C22 decides.")

na("C33", "Every accepted trade is eventually settled, expired or failed",
   "From every reachable state a trade gets to a final one in bounded time, as long as the explorer answers.",
   "histories", "for every history of requests, blocks and restarts",
   "Tests drive one trade through one schedule.",
   ["internal/core/application/trade_service.go", "internal/core/application/blockchain_listener.go"],
   [("expiration and observation", "internal/core/application")],
   "a liveness property over timers, an external explorer and restarts; the static part, that every accepted or completed trade is scheduled for follow-up, is C07 and C19.")

na("C34", "Restoring from the seed finds every funded address",
   "A wallet restored from its mnemonic has all accounts, addresses and coins the lost one had.",
   "histories", "for every history of the lost wallet",
   "Tests restore one wallet against a mocked explorer.",
   ["internal/core/application/wallet_service.go"],
   [("restore", "internal/core/application/wallet_service.go")],
   "whether the gap limits suffice depends on the contents of the chain; that each address found is recorded, derived from its own index and its coins added is decided in C12, C14 and C17.")

na("C35", "Rounding never lets a sequence of trades drain a market",
   "After any sequence of trades the product of the reserves of a balanced market is not smaller than before.",
   "histories", "for every sequence of amounts",
   "Tests check single quotes.",
   ["pkg/marketmaking/formula/balanced_reserves.go"],
   [("formula", "pkg/marketmaking/formula")],
   "needs a numeric proof over rounded decimal arithmetic, a solver's task; C10 decides that the formula itself is the documented one with the fee on the incoming side.")
