#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that they stay in step."""
import json

P = []      # properties
C = {}      # id -> (technique note, level note)
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, hook=None, claimed=True, reason=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    })
    if claimed:
        C[id] = note
    else:
        NA.append({"property": id, "reason": reason})

prop("D01", "Acknowledged commits survive crashes, power loss and restarts",
     "Once a transaction has been reported as committed, every fact it asserted or retracted, its log entry, and the vocabulary and identifiers it changed are there after any number of later crashes, power failures and restarts. Facts that were never committed do not appear.",
     ["crash_points", "histories", "fault_sequences"],
     "Every history of transactions, restarts and refused or failed operations, with the process dying or the power failing at any disk operation, whatever subset or prefix of unsynced writes survives.",
     "The tests never crash; they read back from the connection that wrote. Which bytes were synced when is invisible to them.",
     ["db/src/db.rs", "transaction/src/lib.rs", "src/conn.rs", "src/store.rs"],
     [("journal mode, synchronous level and spill settings of every connection", "db/src/db.rs make_connection"),
      ("one SQLite transaction per mentat transaction, committed before memory changes", "transaction/src/lib.rs InProgress::commit"),
      ("recovery of partitions, idents and attributes when opening", "db/src/db.rs read_db")],
     ["Store::open after a simulated reboot, then a full read of datoms, log, schema and ids"],
     "Seeded runs with crashes at chosen disk operations in a disk model that loses, keeps, reorders and tears unsynced sectors.")

prop("D02", "A crash leaves each transaction wholly done or wholly undone",
     "After a crash at any point, including while a store is first created or a schema is being changed, the store opens without manual repair and is in the state after some whole number of transactions: all acknowledged ones, and at most the one whose outcome was never reported.",
     ["crash_points", "fault_sequences", "histories"],
     "Every disk operation of every transaction, of creating a store and of opening one, as the point of the crash, with all persistence outcomes for unsynced data.",
     "No test kills anything. A multi-statement change that is not inside one atomic unit passes every test.",
     ["db/src/db.rs", "src/conn.rs", "transaction/src/lib.rs"],
     [("creation of the store in one exclusive SQLite transaction, version set last", "db/src/db.rs create_current_version"),
      ("materialised idents, schema and partitions written in the transaction that changes them", "db/src/db.rs update_metadata, tx.rs conclude_tx")],
     ["Store::open after a simulated reboot"],
     "As D01, with crashes concentrated inside commits, schema changes and store creation.")

prop("D03", "A failed or abandoned transaction leaves no trace",
     "A transaction that is refused, that fails because of a disk or memory error, or that is rolled back or dropped, changes nothing: not the facts, the log, the schema, the identifiers, the caches, what observers hear, or the outcome of anything later. Within an open transaction a refused step leaves the earlier steps as they were.",
     ["histories", "fault_sequences", "inputs"],
     "Every sequence of accepted, refused, failing and abandoned transactions, with an error at any disk operation or memory allocation, in any combination inside one open transaction.",
     "Tests check a few refusals on a fresh store and none under I/O or allocation errors, nor what a refusal half way through a compound transaction leaves behind.",
     ["transaction/src/lib.rs", "src/conn.rs", "src/store.rs", "db/src/tx.rs", "db/src/cache.rs"],
     [("savepoint around each step of a compound transaction", "transaction/src/lib.rs all_or_nothing"),
      ("copy-on-write schema, partitions and cache in the open transaction", "transaction/src/lib.rs InProgress"),
      ("recovery of a connection whose rollback failed", "src/store.rs connection")],
     ["full comparison of disk and memory with the model after every step"],
     "After every step the whole store, on disk and in memory, is compared with the reference model; faults hit the n-th write, sync, read, lock, open, truncate or allocation.")

prop("L01", "The log and the current facts tell the same story, and the log only grows",
     "Replaying every recorded assertion and retraction in transaction order yields exactly the current facts; each entry of the log is a real change (nothing already true is asserted, nothing absent retracted), each transaction has exactly one instant, and entries once committed never change. Queries over the log give the same answer as the log.",
     ["histories", "inputs", "crash_points"],
     "Every reachable history: any mix of transactions, refusals, restarts, crashes and errors, and any query over transaction ids and transaction data.",
     "Tests compare log and facts for hand-written transactions of a few datoms; the relation must hold after every history.",
     ["db/src/db.rs", "db/src/tx.rs", "query-algebrizer/src/clauses/tx_log_api.rs"],
     [("search results decide both what is logged and what is applied", "db/src/db.rs search, insert_transaction, update_datoms"),
      ("log queries", "query-algebrizer/src/clauses/tx_log_api.rs")],
     ["datoms, timelined_transactions, tx-ids and tx-data queries"],
     "The log rows each transaction adds are compared with the model's changes at once, and the whole log and all facts after every step and restart.")

prop("T01", "A transaction does exactly what it says, or is refused",
     "The facts, retractions, identifier assignments and instants which a transaction records are those the transaction language defines for its text and the current state, whatever the order and notation of its parts (lists, maps, nested maps, reversed attributes, lookup references, the programmatic builder). A transaction which the language makes meaningless is refused.",
     ["inputs", "histories"],
     "Every transaction over every reachable state: all value types, cardinalities and uniqueness combinations, all notations, batches beyond one SQL statement's binding limit, several transactions composed in one.",
     "Tests enumerate a few dozen transactions on nearly empty stores and never vary binding limits, order or notation together.",
     ["db/src/tx.rs", "db/src/db.rs", "db/src/internal_types.rs", "src/entity_builder.rs", "transaction/src/entity_builder.rs"],
     [("explosion of entities into terms", "db/src/tx.rs entities_into_terms_with_temp_ids_and_lookup_refs"),
      ("search against current facts and application", "db/src/db.rs search, insert_transaction, update_datoms"),
      ("chunking of bindings", "db/src/db.rs insert_non_fts_searches, insert_fts_searches, resolve_avs")],
     ["the report and the log rows of each transaction"],
     "Every transaction of every run is judged against an executable model of the transaction language, up to the names of fresh entities.")

prop("T02", "Identity: tempids and lookups resolve consistently to one entity each",
     "Temporary names that assert the same identity value denote one entity, which is the existing one if some entity already has that value and a fresh one otherwise; this is so through chains of references between identities and whatever the order of the assertions, and each name is reported with the entity it got. Identity values that pull one name towards two different entities are refused.",
     ["inputs", "histories"],
     "Every set of assertions over identity attributes (scalar and reference), tempids, lookup references and nested maps, over every reachable state.",
     "Tests cover a handful of upsert shapes; generations of simultaneous resolution are combinatorial.",
     ["db/src/upsert_resolution.rs", "db/src/tx.rs", "db/src/internal_types.rs"],
     [("generations of upsert evolution", "db/src/upsert_resolution.rs Generation"),
      ("looking up identity values in bulk", "db/src/db.rs resolve_avs")],
     ["tempids in the report, and the facts recorded"],
     "The model resolves identities by a fixed point over equivalence classes, independently of generations, and every report and log entry is compared.")

prop("T03", "Constraints hold at all times: cardinality, uniqueness, types",
     "No reachable state has two values for a single-valued attribute of an entity, two entities with one value of a unique attribute, or a value of another type than its attribute's; transactions that would lead there are refused whole, and those that would not are accepted, including ones that move a unique value from one entity to another.",
     ["inputs", "histories"],
     "Every transaction that meets or violates a constraint, against every reachable state, in one step or through the composition of several.",
     "Tests try single violations in isolation, not conflicts between parts of a transaction, values arriving through upserts, or after schema alterations.",
     ["db/src/tx.rs", "db/src/tx_checking.rs", "db/src/db.rs", "db/src/schema.rs"],
     [("conflict and type checks over the terms of a transaction", "db/src/tx_checking.rs"),
      ("unique indices of the datoms table", "db/src/db.rs V1_STATEMENTS")],
     ["acceptance or refusal of each transaction, and the facts after it"],
     "More than half of the transactions generated contain something the model says must be refused; acceptance and refusal are both judged.")

prop("T04", "Entity and transaction identifiers are never handed out twice",
     "An identifier given to a new entity or transaction has never before been in use by anything committed, as entity, value or transaction, across restarts, crashes, abandoned transactions and failures; transaction identifiers increase by one with each committed transaction.",
     ["histories", "crash_points", "fault_sequences"],
     "Every history of transactions, abandoned transactions, restarts and crashes, including entities that only ever appear as values and facts later retracted.",
     "Tests allocate in one process lifetime; reuse needs an allocation, a retraction or abandonment, and a restart.",
     ["db/src/db.rs", "db/src/tx.rs", "db/src/types.rs"],
     [("next identifier derived from what is on disk", "db/src/db.rs create_current_partition_view, read_partition_map"),
      ("allocation in memory", "db/src/db.rs allocate_entids")],
     ["tempids of every report, next identifiers after every restart"],
     "The model keeps the floor below which nothing may be allocated; reports, and the next ids after every restart and inside every transaction, are compared.")

prop("S01", "Schema changes are accepted exactly when the data allows them",
     "Installing or altering an attribute is accepted exactly when the resulting definition is coherent and the facts already there satisfy it (for example cardinality one only if no entity holds several values, uniqueness only if no value is shared), and then takes effect for everything that follows; otherwise it is refused and nothing changes. Aspects of an attribute that the change does not mention stay as they were.",
     ["inputs", "histories"],
     "Every installation and alteration of type, cardinality, uniqueness, index, fulltext and component flags over every reachable state, alone and mixed with data in one transaction.",
     "Tests alter empty or tiny attributes one aspect at a time.",
     ["db/src/metadata.rs", "db/src/schema.rs", "db/src/db.rs"],
     [("merging schema assertions and retractions into definitions", "db/src/metadata.rs update_schema_from_entid_quadruples"),
      ("validation of definitions and alterations", "db/src/schema.rs"),
      ("applying alterations to stored facts", "db/src/db.rs update_metadata")],
     ["acceptance, schema in memory, facts and flags on disk"],
     "Seven in ten transactions change the vocabulary; acceptance, the resulting definitions, and the behaviour of later transactions are compared with the model.")

prop("S02", "The schema in memory is the schema on disk",
     "At every moment the vocabulary and identifiers a process works with are those defined by the committed facts (plus, inside an open transaction, by what that transaction did so far), and closing and reopening the store changes nothing.",
     ["histories", "fault_sequences", "crash_points"],
     "Every history of schema changes, renames, refusals, failures, abandoned transactions and restarts.",
     "Tests compare after one transaction; drift between memory and disk needs a refused or failed change, or a rename, followed by more work or a restart.",
     ["db/src/db.rs", "db/src/metadata.rs", "transaction/src/lib.rs", "src/conn.rs"],
     [("materialised views and in-memory maps updated side by side", "db/src/db.rs update_metadata"),
      ("publication at commit", "transaction/src/lib.rs InProgress::commit")],
     ["Conn::current_schema, the schema of open transactions, both compared with the facts"],
     "After every step, in memory and after reopening, ident and attribute maps are derived from the facts by the model and compared.")

prop("C01", "Attribute caches never change an answer",
     "Whatever attributes are cached, in whichever direction, and whenever they were cached or stopped being cached, queries and lookups give the answers they would give without caches: outside and inside open transactions, and after commits, rollbacks and failures.",
     ["histories", "fault_sequences"],
     "Every interleaving of caching and uncaching (by the store and inside transactions), transactions, rollbacks, failures and queries.",
     "Tests cache one attribute and query once; stale entries need particular sequences of retractions, rollbacks and cached lookups.",
     ["db/src/cache.rs", "query-algebrizer/src/clauses/pattern.rs", "transaction/src/lib.rs", "src/conn.rs"],
     [("copy-on-write overlay for open transactions", "db/src/cache.rs InProgressSQLiteAttributeCache"),
      ("following what a transaction changed", "db/src/cache.rs update_from_transaction, applied_changes"),
      ("use of caches while planning queries", "query-algebrizer/src/clauses/pattern.rs")],
     ["answers of q_once, q_prepare, lookups and pulls"],
     "All answers are compared with the model, which has no caches; runs cache most attributes and query most of the time, and one answer in five is taken with caching off.")

prop("O01", "Observers hear of every committed change to their attributes, once, in order",
     "An observer registered before a transaction commits is told, exactly once and in commit order, of each transaction that changed an attribute it watches, with the attributes changed; it is never told of abandoned, failed or refused transactions, nor of ones that do not concern it. A misbehaving observer does not affect the others or later commits.",
     ["schedules", "histories", "fault_sequences"],
     "Every interleaving of the committing thread with the notifying thread, registrations and removals, panicking observers, failures and closing of the store.",
     "Tests sleep and hope; delivery depends on how two threads interleave with registration and shutdown.",
     ["db/src/tx_observer.rs", "transaction/src/lib.rs", "src/conn.rs"],
     [("queue and worker thread for notifications", "db/src/tx_observer.rs TxObservationService, TxCommandExecutor"),
      ("watching what a transaction touches", "db/src/tx_observer.rs InProgressObserverTransactWatcher")],
     ["callbacks of registered observers"],
     "Both threads run under the simulated scheduler, which decides every preemption at futex and I/O operations; what each observer heard is checked against the commits.")

prop("Q01", "Queries, pulls and lookups return exactly what the facts imply",
     "A query's answer is the set of bindings that satisfy its clauses over the current facts (including, inside an open transaction, everything that transaction did so far), aggregated, ordered and limited as asked; pulls and lookups return exactly the values the entity has. A well-formed query is never refused.",
     ["inputs", "histories"],
     "Every query shape generated (joins, constants, inputs, not, or, predicates, ground, fulltext, log functions, aggregates, ordering, limits, all find forms, prepared and not) over every reachable state.",
     "Tests check translation to SQL text and a few answers on fixed data.",
     ["query-algebrizer/src", "query-projector/src", "query-sql/src", "sql/src", "query-pull/src", "transaction/src/query.rs", "src/query_builder.rs"],
     [("algebrizing, type inference and simplification", "query-algebrizer/src"),
      ("projection and reading of rows", "query-projector/src"),
      ("pull", "query-pull/src/lib.rs")],
     ["q_once, q_prepare, pull and lookup results"],
     "Answers are compared with a small relational evaluator over the model's facts.")

prop("Q02", "A read that fails says so; it never returns a wrong answer or panics",
     "When reading the disk or allocating memory fails during a query, pull, lookup or while filling a cache, the caller gets an error; it never gets an incomplete or wrong answer, or a panic, and the store works as before once the failure is over.",
     ["fault_sequences", "inputs", "histories"],
     "Every read, lock and memory allocation of every generated query, pull, lookup and cache registration as the point of failure.",
     "No test injects an error into a read.",
     ["query-projector/src", "query-pull/src/lib.rs", "db/src/cache.rs", "transaction/src/query.rs", "sql-traits", "db/src/db.rs"],
     [("row iteration", "query-projector/src/projectors"),
      ("filling caches", "db/src/cache.rs")],
     ["results of queries during which a fault fired, and of those after it"],
     "Page cache emptied before armed reads, then the n-th read or allocation fails once or for good; the answer must be right or an error.")

prop("Q03", "Whatever is asked or transacted is answered or refused, and nothing else happens",
     "Whatever text is given as a query, pull or transaction, and whatever inputs with it, the caller gets an answer or an error, and never a panic; a query gets the same whether it's asked at once or prepared; and however malformed it was, the store, its connection and its open transaction work on as if it had not been given.",
     ["inputs", "histories", "fault_sequences"],
     "Generated questions and transactions of every shape with one to three nodes of their syntax trees removed, doubled, exchanged, wrapped or replaced by something which doesn't belong there, with inputs left out, of other types or superfluous, over every reachable state, with and without failures of reads and allocations.",
     "Tests give the parser and the algebrizer a few malformed examples each; unfinished branches (unimplemented!, unwrap, indexing) are reached by combinations nobody wrote down.",
     ["edn/src", "query-algebrizer/src", "query-projector/src", "query-sql/src", "query-pull/src/lib.rs", "db/src/tx.rs", "db/src/internal_types.rs", "transaction/src/query.rs"],
     [("parsing", "edn/src/lib.rs, edn/src/query.rs"),
      ("algebrizing", "query-algebrizer/src"),
      ("projection", "query-projector/src"),
      ("transacting", "db/src/tx.rs")],
     ["results of malformed queries and transactions, and the state and the answers after them"],
     "Put out of shape by a seeded mutator; judged by: no panic, same verdict at once and prepared, state and later answers as the model says.")

prop("F01", "Text search matches exactly the current text",
     "A text search over an attribute finds an entity exactly when one of its current values for that attribute contains the words asked for, and reports those values; this holds through updates, retractions, re-assertions, alterations, restarts, crashes and failures, and the values themselves read back as the strings they are.",
     ["histories", "inputs", "crash_points"],
     "Every history of assertions, replacements and retractions of searchable strings (with repeats across entities and within one transaction), crashes and restarts.",
     "Tests index a few strings once.",
     ["db/src/db.rs", "query-algebrizer/src/clauses/fulltext.rs"],
     [("interning of strings in the search table", "db/src/db.rs insert_fts_searches"),
      ("views that give strings back", "db/src/db.rs fulltext_datoms, all_datoms"),
      ("search clauses", "query-algebrizer/src/clauses/fulltext.rs")],
     ["fulltext queries, datoms and log of searchable attributes"],
     "Most strings are searchable and most queries search; answers are compared with word containment over the model's facts.")

prop("K01", "Transaction order does not depend on the clock",
     "However the wall clock jumps, forwards or backwards, each committed transaction gets the next transaction identifier, an instant which is the clock's at that time or the one the transaction states for itself, and everything that orders transactions follows the identifiers.",
     ["schedules", "histories", "inputs"],
     "Every sequence of transactions with clock jumps of milliseconds to years in both directions, explicit instants, restarts and crashes.",
     "Tests use whatever time it is.",
     ["db/src/tx.rs", "db/src/db.rs", "transaction/src/lib.rs"],
     [("instant taken from the clock or from the transaction", "db/src/tx.rs get_or_insert_tx_instant"),
      ("transaction identifiers allocated in order", "db/src/tx.rs start_tx")],
     ["reports, log, last transaction id, log queries"],
     "The clock is simulated: nearly half of the steps start with a jump.")

prop("R01", "Errors are contained: the store goes on working when a fault is over",
     "A disk error, a full disk, a lost lock or a failed allocation makes at most the operations it hits return errors: nothing panics, hangs or deadlocks, no later operation fails because of it, and within one retry after faults stop the same store accepts and keeps new work.",
     ["fault_sequences", "histories", "schedules"],
     "Every sequence of faults of every kind at any operation, single, repeated or lasting, with or without a restart in between.",
     "No test injects faults; error paths are not run at all.",
     ["src/store.rs", "src/conn.rs", "transaction/src/lib.rs", "db/src/db.rs", "db/src/cache.rs"],
     [("rolling back what a failure left open", "src/store.rs connection"),
      ("savepoint per step, refusing to commit what could not be undone", "transaction/src/lib.rs")],
     ["every operation after a fault"],
     "More than half of the steps are hit by a fault; every later step must succeed, and every run must end.")

prop("Y01", "Stores that follow one remote log hold the same history and the same facts",
     "A store that syncs while nothing conflicts takes over every transaction of the remote log word for word (identifiers, values, instants, order) on top of what it had, or sends the remote its own unsent transactions word for word, completely and in order; afterwards its log is the remote's, its facts are what that log implies, its vocabulary and next identifiers follow from it, and it works on as if it had committed those transactions itself. Once nobody writes any more and every store has synced, all hold the same facts.",
     ["histories", "schedules", "inputs"],
     "Every history of transactions (data and vocabulary), restarts and syncs of two or three stores against one remote, of which at most one has unsent transactions at a time.",
     "Tests sync two stores a few times with a handful of hand-written transactions and compare identifiers they expect by heart.",
     ["tolstoy/src/syncer.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/tx_processor.rs", "tolstoy/src/metadata.rs", "tolstoy/src/tx_mapper.rs", "tolstoy/src/bootstrap.rs"],
     [("uploading local transactions with their partitions", "tolstoy/src/tx_uploader.rs"),
      ("transacting remote transactions under their own identifiers", "tolstoy/src/syncer.rs fast_forward_local"),
      ("deciding what to do from the two heads", "tolstoy/src/syncer.rs Syncer::what_do, sync")],
     ["each store's log, facts, schema and next identifiers, the remote log, and the store's record of what the remote has"],
     "Several real stores and the real syncer over a stub remote behind the GlobalTransactionLog trait; after each sync log and facts are compared with the remote's, chunk by chunk.")

prop("Y02", "Syncing is all or nothing and repeatable, whatever network and process do",
     "When a request to the remote is lost, repeated, delayed, or carried out without the answer arriving, when the disk fails or when the process dies or the power fails at any point of a sync, the store is either as before the sync or wholly synced; the remote's head only ever names transactions that are completely there; and syncing again later succeeds, without losing, repeating or altering any transaction on either side.",
     ["fault_sequences", "crash_points", "histories", "schedules"],
     "Every request of every sync as the point where the network fails in any of these ways or the process dies, every disk operation as the point of a crash or an error, over histories as in Y01.",
     "The tests' remote never fails and the client never dies.",
     ["tolstoy/src/syncer.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/metadata.rs", "tolstoy/src/tx_mapper.rs"],
     [("everything local within one open transaction, committed by the caller", "tolstoy/src/syncer.rs Syncer::sync"),
      ("chunks before transactions before the head", "tolstoy/src/tx_uploader.rs, syncer.rs fast_forward_remote"),
      ("recognising what was already sent", "tolstoy/src/syncer.rs combine_changes")],
     ["the store after a failed, interrupted or repeated sync, and the remote log"],
     "Faulty network (lost request, lost answer, repeated, delayed, outage, slow, death before or after), disk errors and crashes at seeded points of each sync; afterwards everything is compared and everybody syncs again.")

prop("Y03", "A merge keeps the remote history, sets the local one aside, loses no plain fact",
     "When local and remote have both grown, a sync that reports a merge has put the remote's transactions into the log word for word, moved exactly the local unsent ones, unchanged, to a timeline of their own, disturbed no timeline set aside earlier, and applied what is left of the local ones on top as new transactions: every current non-reference fact of an entity without unique attributes is still stated by an entity of its own, and nothing is stated that neither side stated. Facts are what the log implies, each attributed to the transaction that asserted it; and after the follow-up syncs all stores agree. (Merging changes of the vocabulary, contradictory identities and references to renamed entities are documented as unsupported; such a merge may be refused, and then changes nothing.)",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "Every history of concurrent writes and syncs by two or three stores, including syncs at the same time, repeated merges, network faults and crashes.",
     "Tests merge once, with one or two transactions on either side.",
     ["tolstoy/src/syncer.rs", "db/src/timelines.rs", "tolstoy/src/metadata.rs"],
     [("rewinding local transactions onto another timeline", "db/src/timelines.rs move_from_main_timeline"),
      ("rebasing local transactions with fresh names", "tolstoy/src/syncer.rs merge")],
     ["main log, other timelines, facts and heads after each sync"],
     "Races between clients are schedules of the simulated threads; structure and conservation are checked after each merge, convergence at the end.")


prop("I01", "A reader sees exactly one committed state, whatever a writer does meanwhile",
     "Every read transaction, and every single question asked outside one, on any connection, is answered from the state after some whole number of committed transactions: none older than what was acknowledged before it began, the same one to the end of the read transaction, with facts, log, schema, identifiers and caches all of that state. Schemas and caches somebody holds on to stay as they were. Opening a store while others write to it, create it or recover it yields one such state too. Readers never block a writer or make its commits fail.",
     ["schedules", "histories", "crash_points"],
     "Every interleaving of one writer and several readers, each with a connection of its own or with schemas and caches held from the writer's, down to single disk, lock and memory operations, with restarts and crashes.",
     "The tests have one connection and one thread; no test reads while another writes.",
     ["src/conn.rs", "transaction/src/lib.rs", "db/src/db.rs", "db/src/cache.rs", "transaction/src/query.rs"],
     [("read transactions and what is read within them", "src/conn.rs begin_read, transaction/src/lib.rs InProgressRead"),
      ("reading the whole store in one transaction when opening", "db/src/db.rs ensure_current_version, read_db"),
      ("copy-on-write metadata and caches shared between a connection and its readers", "src/conn.rs Metadata, db/src/cache.rs SQLiteAttributeCache"),
      ("journal mode that lets readers and the writer be", "db/src/db.rs make_connection")],
     ["answers of queries, lookups, pulls and schemas in read transactions and outside"],
     "A writer and up to four readers as simulated threads, each on a disk of its own speed, switching at any lock, disk or memory operation; every answer must be that of one of the states committed in its time.")

prop("V01", "Vocabularies are installed and upgraded once, wholly, and only forwards",
     "Ensuring a vocabulary installs it if it is absent, adds what is missing if it is there at this version, upgrades it if it is older, and otherwise changes nothing: it is refused if the store's is newer or defines an attribute of this version differently. Afterwards reading the vocabulary, by name or with all others, gives back the version and the definitions that were asked for, and ensuring it again finds it there. Migration functions run exactly once, in order, before and after the change they belong to, and are told the version that was there. If any step is refused or fails, none of it has happened and the transaction can be used further.",
     ["histories", "inputs", "fault_sequences", "crash_points"],
     "Every history of definitions of any versions and attributes, alone or together with others, with data in the way, other schema changes, migration functions that transact or fail, restarts, crashes and disk or memory errors.",
     "Tests install and upgrade a handful of vocabularies on fresh stores; none fails half way and goes on, restarts between versions, or meets an error.",
     ["src/vocabulary.rs", "transaction/src/lib.rs", "db/src/metadata.rs", "db/src/entids.rs"],
     [("comparison of a definition with what is stored", "src/vocabulary.rs check_vocabulary, read_vocabulary_named"),
      ("description of a definition as a transaction", "src/vocabulary.rs description_for_attributes"),
      ("order of installs, upgrades and migration functions", "src/vocabulary.rs ensure_vocabularies, upgrade_vocabulary")],
     ["outcome, migration calls, log, schema, read_vocabularies, read_vocabulary_named, check_vocabulary"],
     "Each run evolves up to four vocabularies through both interfaces, among other transactions, faults and restarts; the model says what each call does, transaction by transaction.")


def na(id, title, statement, over, text, why, files, mech, observe, reason):
    prop(id, title, statement, over, text, why, files, mech, observe, None, None, False, reason)

na("E01", "Parsing and printing of notation are inverse",
   "Every value and every transaction the printer writes is read back as the same value, and malformed text is refused with an error rather than a crash.",
   ["inputs"], "Every value tree and every string.",
   "Tests parse a few hundred strings.",
   ["edn/src"], [("grammar", "edn/src/edn.rustpeg"), ("pretty printer", "edn/src/pretty_print.rs")], ["edn::parse, Display"],
   "A pure function of its input: no scheduling, time, I/O, crash or second party for a simulation to vary; seeded search over inputs alone would be property testing, not this technique.")
na("X01", "The C interface never misuses memory",
   "Every sequence of calls through the C interface that follows its documented ownership rules frees each object exactly once and touches none after it is freed.",
   ["programs"], "Every well-formed client program.",
   "The interface has no tests that run under a memory checker.",
   ["ffi/src/lib.rs"], [("ownership transfer through raw pointers", "ffi/src/lib.rs")], ["exported functions"],
   "Ownership of raw pointers does not depend on schedules, time, I/O or faults; it is the business of memory checkers and proofs, not of a fault-injecting simulation.")
na("Z01", "Encrypted stores reveal nothing without their key",
   "A store created with a key can be opened only with that key, and its file contains no plaintext; after changing the key only the new key opens it.",
   ["inputs", "configurations"], "Every key and content.",
   "Built only with a feature that needs an external library.",
   ["db/src/db.rs", "src/store.rs"], [("key pragmas", "db/src/db.rs make_connection, change_encryption_key")], ["Store::open_with_key"],
   "Needs SQLCipher, which is neither bundled nor installed here, so the code cannot be built, let alone simulated.")
na("A01", "Query type inference is sound",
   "The set of types the planner computes for a variable contains the type of every value the variable can take, so that no answer is lost to pruning and no comparison is made across types.",
   ["programs"], "Every query and schema.",
   "Tests cover single clauses.",
   ["query-algebrizer/src"], [("type sets", "query-algebrizer/src/clauses")], ["ConjoiningClauses known_types"],
   "A pure function of query and schema with no schedule, time, I/O or fault in it; its observable consequences (wrong or missing answers) are decided under Q01.")

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for p in P:
    if p["id"] in C:
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "technique": "deterministic simulation with fault injection, seeded search, reference model",
            "level": "exploration",
            "level_note": C[p["id"]] + " Assurance is that of seeded search: it shows the property on the runs made, and reports any violation with a replayable seed, schedule and fault trace. Trusts the simulator's disk, scheduler and clock models and the reference model; real SQLite and all mentat crates run unmodified.",
        })
json.dump({
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": NA,
    "notes": "No hooks in /repo: the seams are SQLite's VFS, allocator and mutex interfaces and the libc entry points (futex, clocks, randomness, threads), all supplied by the simulator. See DESIGN.md.",
}, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
