#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
C='src/polodb_core/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    a={"files":[C+f if not f.startswith(('src/','py-')) else f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":a})
DB='db/db_inner.rs'
p("C01","Committed writes are durable and recovery is exact",
 "Once an operation outside of a transaction, or Transaction::commit, has returned Ok, its effect is found by every later open of the same path, after a clean close as well as after the process is killed or the power fails at any later moment. A write that was still in progress when the process died is found either completely or not at all, with documents, indexes and collection list in agreement, and nothing that was rolled back or never committed ever reappears.",
 ["inputs","schedules","crash_points","histories"],
 "for every sequence of operations, every point at which the process is killed or power is lost (un-synced file contents dropped), and every number of reopens",
 "unit tests close the database in an orderly way; the crash points are every system call of every commit",
 [ "db/rocksdb_wrapper.rs","db/rocksdb_transaction.rs",DB],
 [("write options with sync=true for every transaction","RocksDBTransactionInner::new"),("open/close: create_if_missing, flush, close","RocksDBWrapperInner::open/Drop"),("one storage transaction per operation","DatabaseInner::start_write, CollectionT for Collection")],
 [("committed database","collections, documents, indexes as of the last commit","RocksDB files under the path")],
 ["Database::open_path, then list_collection_names / find / count_documents"])
p("C02","Transactions are all-or-nothing",
 "The writes of a Transaction, over any number of collections and including collection and index creation and removal, become visible to others together when commit returns Ok. If the transaction is rolled back, dropped, or its commit returns an error, none of them ever becomes visible and the database is exactly as if the transaction had not been started.",
 ["inputs","histories"],
 "for every mix of inserts, updates, deletes, index and collection changes in a transaction, and every way of ending it",
 "tests commit or roll back one or two inserts; the guarantee is about every combination of operations, collections, indexes and endings",
 ["transaction/transaction.rs","transaction/transaction_inner.rs","db/rocksdb_transaction.rs","coll/txn_collection.rs",DB],
 [("auto_commit flag cleared for explicit transactions","TransactionInner::set_auto_commit, VM DbOp::Close"),("commit / rollback / drop","RocksDBTransactionInner"),("operations joined to the transaction","TransactionalCollection")],
 [("workspace","uncommitted writes of a transaction","rocksdb_transaction_t")],
 ["Database::collection reads before and after commit/rollback/drop"])
p("C03","Transactions are isolated: snapshot reads, own writes, no lost update",
 "Inside a Transaction every read (find, find_one, count_documents, aggregate) sees the database as it was when the transaction began, plus the transaction's own earlier writes; nobody else ever sees uncommitted writes. Two transactions that write the same document (or the same unique value, or a collection one of them drops or creates an index on) can not both commit: the later writer gets an error instead of silently overwriting what it did not see.",
 ["schedules","histories"],
 "for every interleaving of the operations of several transactions and of operations outside of them",
 "isolation is a statement about interleavings; the tests run one transaction at a time",
 ["transaction/transaction_inner.rs","db/rocksdb_transaction.rs","db/rocksdb_iterator.rs",DB],
 [("snapshot taken at begin","DatabaseInner::start_transaction, begin_snapshot_transaction"),("pessimistic row locks and snapshot validation","rocksdb_transaction_put/delete/get_for_update"),("shared lock on the collection's metadata","lock_collection_meta")],
 [("snapshot","state at begin","read_options"),("locks","keys written by open transactions","TransactionDB lock manager")],
 ["results of every read and the error of every write in an interleaving"])
p("C04","A failed operation has no effect",
 "An operation that returns an error leaves the database, inside and outside of a transaction, exactly as it was before the call: no document added, changed or removed, no index entry, no collection or index created, in particular when a multi-document operation fails after some documents have been processed. A transaction in which an operation failed can go on, and committing it commits exactly its successful operations (or fails).",
 ["inputs","histories"],
 "for every operation, every position of the offending document and every cause of failure (duplicate key, invalid update, uncomparable values, invalid names, unindexable values)",
 "needs multi-document operations which fail halfway and an inspection of everything they could have touched",
 [DB,"coll/collection.rs","coll/txn_collection.rs","transaction/transaction_inner.rs","vm/vm.rs"],
 [("commit only after success","CollectionT for Collection"),("savepoint per operation","TransactionInner::run_operation"),("duplicate and validation checks","insert_one_with_meta, IndexHelper, update operators")],
 [],["full dump of all collections after each failed operation"])
p("C05","Concurrent operations are linearizable",
 "Operations issued by several threads on one Database, or on one and the same Transaction, behave as if each of them happened atomically at one instant between its call and its return: no lost update or increment, no duplicated _id or unique value, no read of a half-done multi-document write, counts returned by updates and deletes agree with what was changed. No operation outside of a transaction fails merely because others run at the same time.",
 ["schedules","histories"],
 "for every schedule of concurrent inserts, updates, deletes, finds, counts, index and collection changes by several threads",
 "the outcome depends on thread schedules that ordinary tests do not exercise",
 [DB,"coll/collection.rs","db/rocksdb_transaction.rs","db/db.rs"],
 [("write lock for operations which commit on their own","DatabaseInner::start_write"),("snapshot per read","start_transaction"),("row locks","rocksdb transactions")],
 [],["call/return history of every thread plus the final dump"])
p("C06","Inserts store the document exactly and keep _id unique",
 "A successfully inserted document is returned by later reads with every field, nested value, BSON type and field order intact, under the _id it was given or, when _id is missing or null, under a fresh unique ObjectId that is also what the insert result reports (insert_many reports the id of the i-th document under i). Inserting a document whose _id (same BSON type and value) exists in the collection fails with DuplicateKey and changes nothing, and every _id, of any of the supported types, finds exactly its own document.",
 ["inputs","histories"],
 "for every document of every BSON type, every _id type and value, and every history of inserts, deletes and re-inserts",
 "the space of documents and keys (types, byte prefixes, embedded zero bytes, extreme numbers) is unbounded",
 [DB,"utils/bson.rs","cursor.rs","db/client_cursor.rs"],
 [("fix_doc: generated _id","DatabaseInner::fix_doc"),("key encoding","stacked_key"),("duplicate check","insert_one_with_meta"),("lookup by key","Cursor::reset_by_pkey")],
 [("documents of a collection","map from _id to document","keys <collection><_id>")],
 ["InsertOneResult/InsertManyResult, find, find_one by _id, count_documents"])
p("C07","A find returns exactly the documents that match its filter",
 "find and find_one return the documents of the collection for which the filter holds and no others, each once: literal equality, $eq $ne $gt $gte $lt $lte $in $nin $all $size $regex $not, nested paths, several predicates (conjunction), $and, $or and any nesting of them. Numbers compare by value across Int32, Int64 and Double (as doubles as soon as one of them is), except that a literal _id selects by exact type and value; values of other different types are never equal, a missing field does not satisfy a comparison, and $in/$nin/$all treat it as null.",
 ["inputs"],
 "for every filter built from the operators, to any depth, against every collection content",
 "the operators multiply: tests try each one in isolation on one or two documents",
 ["vm/codegen.rs","vm/vm.rs","vm/query_matcher.rs","vm/subprogram.rs","utils/bson.rs"],
 [("filter compiler","Codegen::emit_query_layout, emit_query_tuple, emit_logic_and/or"),("interpreter","VM::execute"),("comparison","value_cmp, generic_cmp, query_matcher")],
 [],["documents returned by find / find_one / aggregate $match"])
p("C08","Updates apply their operators to exactly the matching documents",
 "update_many changes every document that matches the filter and update_one exactly one of them (if any): each of $set $unset $inc $mul $min $max $rename $push $pop has its meaning on the stored value, several operators are applied in order, and fields not named keep their values and order. matched_count and modified_count tell how many documents matched and were written, the _id never changes, and with upsert and no match exactly one document, made of the filter's literal fields and $set, is inserted.",
 ["inputs","histories"],
 "for every update document, every filter and every stored document (missing, null, mixed numeric types, overflow, arrays)",
 "operator x stored type x filter shape x number of matching documents; tests sample single fields",
 ["vm/update_operators/mod.rs","vm/update_operators/inc_operator.rs","vm/update_operators/mul_operator.rs","vm/update_operators/set_operator.rs","vm/update_operators/rename_operator.rs","vm/codegen.rs","vm/subprogram.rs",DB],
 [("update compiler","Codegen::emit_update_operation"),("operators","vm/update_operators/*"),("write back and index maintenance","DbOp::UpdateCurrent, InsertIndex, DeleteIndex"),("upsert","DatabaseInner::upsert")],
 [],["UpdateResult and the documents found afterwards"])
p("C09","Deletes remove exactly the matching documents",
 "delete_many removes every document that matches its filter (all documents for the empty filter) and delete_one exactly one of them (if any); deleted_count is the number removed and no other document, collection or index is affected. A deleted _id or unique value can be inserted again, and the collection itself goes on existing.",
 ["inputs","histories"],
 "for every filter and content, and every history of deletes, re-inserts and index changes",
 "depends on filters, on index state and on iteration while deleting",
 [DB,"vm/subprogram.rs","vm/codegen.rs","vm/vm.rs"],
 [("delete compiler","SubProgram::compile_delete, compile_delete_all"),("deletion at the cursor","DbOp::DeleteCurrent, DeleteIndex"),("delete_one/delete_many/delete_all","DatabaseInner")],
 [],["DeleteResult, dump of all collections"])
p("C10","Indexes never change the result of a query",
 "Creating or dropping an index, before or after documents are inserted, updated, deleted or upserted, never changes what any find, find_one, aggregate, count, update or delete returns or does (other than rejecting values an index can not hold and duplicates in a unique one). At every moment an index answers with exactly the documents that have the value now: none that were changed or removed and none missing, for nested keys and every value type.",
 ["inputs","histories"],
 "for every history of writes and index changes, every indexed path and value, every filter",
 "stale or missing index entries show only after particular histories and only in queries that use the index",
 ["index/index_helper.rs","index/index_builder.rs","vm/codegen.rs","vm/vm.rs",DB,"cursor.rs"],
 [("index maintenance","IndexHelper::try_execute_with_index_info"),("index build/removal","IndexBuilder::execute, internal_drop_index"),("query by index","Codegen::try_query_by_index, VM::find_by_index")],
 [("index entries","(index, value, _id) for each document with the field","keys $I<collection><index><value><_id>")],
 ["find on the indexed field compared with the specification's scan"])
p("C11","A unique index never admits two documents with the same value",
 "While a unique index on a path exists, no operation or sequence of operations (insert, update, upsert, creation of the index on existing data, concurrent transactions) leaves two documents with the same value (same BSON type) at that path: the operation that would do so fails with DuplicateKey and has no effect. Nothing else is rejected: documents without the field, the same value after the former owner was deleted or changed, and updates that keep a document's own value all succeed.",
 ["inputs","histories","schedules"],
 "for every history of writes by one or several clients and every value type",
 "uniqueness is broken by histories (update away, delete, re-insert, rollback) rather than by single calls",
 ["index/index_helper.rs",DB,"vm/subprogram.rs"],
 [("unique check","IndexHelper::check_unique_key"),("index on existing documents","IndexBuilder"),("delete old entry, insert new entry on update","SubProgram::compile_update")],
 [],["result of each write and the values found afterwards"])
p("C12","Collections are separate and their lifecycle is exact",
 "list_collection_names returns exactly the collections that were created, explicitly or by an insert, upsert or index creation, and not dropped since; reads, counts, deletes and drops of a missing collection succeed, find nothing and create nothing. Operations on one collection never touch another, whatever their names (prefixes of each other, non-ASCII, long), a dropped collection takes its documents and indexes with it, and one created again under the same name starts empty and without indexes.",
 ["inputs","histories"],
 "for every set of collection names and every history of creation, use, drop and re-creation",
 "key prefixes of names and leftovers of dropped collections need particular names and histories",
 [DB,"cursor.rs","utils/bson.rs","coll/collection_info.rs","db/db.rs"],
 [("metadata","$TABLE_META entries"),("key prefixes","stacked_key, Cursor::has_next"),("drop","drop_collection_internal")],
 [("collection list","names and index specifications","$TABLE_META")],
 ["list_collection_names, dump"])
p("C13","sort, skip and limit return the right documents in the right order",
 "A find with sort returns the matching documents ordered by the sort keys, the first key being the major one, 1 ascending and -1 descending, numbers by value across types and documents lacking a key after the others when ascending. skip(n) leaves out the first n documents of that order and limit(m) keeps the first m of the rest; without them no document is missing or repeated, whatever their number.",
 ["inputs"],
 "for every content, every combination of filter, sort keys and directions, skip and limit (zero, exact, beyond the end)",
 "combinations of sort keys, ties, missing fields, mixed types and boundaries",
 ["action/find.rs","vm/vm_sort.rs","vm/vm_skip.rs","vm/vm_limit.rs","vm/codegen.rs"],
 [("find options become pipeline stages","Find::run"),("stages","VmFuncSort, VmFuncSkip, VmFuncLimit")],
 [],["sequence of documents returned by find"])
p("C14","Aggregation pipelines compute the composition of their stages",
 "aggregate returns the result of applying its stages one after another to the documents of the collection: $match (as the first stage), $sort, $skip, $limit, $count, $unset, $addFields (constants, \"$field\", $abs) and $group with a constant _id ($sum of constants and fields). Each stage sees exactly the output of the stage before it, in order, for any number and order of stages and an empty input included.",
 ["inputs"],
 "for every pipeline of supported stages and every content",
 "stages keep state and hand rows to one another; errors show for particular orders of stages and at their boundaries",
 ["action/aggregate.rs","vm/codegen.rs","vm/vm_group.rs","vm/vm_count.rs","vm/vm_add_fields.rs","vm/vm_unset.rs","vm/vm_sort.rs","vm/operators/sum_operator.rs","vm/operators/abs_operator.rs","vm/operators/op_registry.rs"],
 [("pipeline compiler","Codegen::emit_aggregation_pipeline/_stage"),("stage functions","VmExternalFunc implementations")],
 [],["sequence of documents returned by aggregate"])
p("C15","An open cursor is stable: each matching document once, as of its opening",
 "A cursor returned by find or aggregate yields, one advance at a time, exactly the documents that matched when it was opened, each once, even if documents are inserted, updated or deleted, indexes or the collection dropped between two advances, and however slowly it is read (only later writes of the cursor's own transaction may be seen). After the last document it keeps reporting the end, and a cursor that is dropped early leaves no lock or other trace behind.",
 ["histories","schedules"],
 "for every interleaving of advances of several cursors with writes, and every point of abandoning a cursor",
 "tests collect cursors at once",
 ["db/client_cursor.rs","vm/vm.rs","db/rocksdb_iterator.rs","db/rocksdb_transaction.rs","cursor.rs"],
 [("advance","ClientCursor::advance"),("storage iterator and snapshot","RocksDBIterator, read options")],
 [("open cursors","snapshot, filter and position","VM")],
 ["rows of each advance, and writes afterwards"])
p("C16","Invalid input is answered by an error, never by a panic or a wrong result",
 "Unknown or misplaced operators, operands of the wrong type, updates of _id, malformed sort or pipeline stages, invalid collection or index names, unsupported index definitions, values that can not be keys and use of a closed database or finished transaction are answered with an Err. They never panic, hang, are silently ignored or damage data, and the database goes on working for the next call.",
 ["inputs","histories"],
 "for every malformed filter, update, pipeline, index definition and name, at any nesting depth, on empty and non-empty collections",
 "the set of malformed inputs is unbounded; tests try a few",
 ["vm/codegen.rs","vm/update_operators/mod.rs",DB,"errors.rs","vm/vm_sort.rs","vm/operators/op_registry.rs"],
 [("validation in the compilers","Codegen, UpdateOperator::compile, VmFunc*::compile"),("names","validate_col_name, validate_index_name"),("closed database","Weak::upgrade -> DbIsClosed")],
 [],["Result of the call and a dump afterwards"])
S='src/polodb/'
p("C17","The server executes CRUD commands like the database itself",
 "Each insert, find, update, delete and aggregate command sent over the wire, with its filter, documents and options (sort, skip, limit, multi, upsert), has on the stored data, and reports in its reply, exactly the effect of the corresponding library call; the statements of one update or delete command are carried out in order, up to the first that fails. An invalid, unknown or failing command is answered with an error reply (ok: 0) that leaves the data unchanged and the connection and the server usable, and every reply is addressed to its request.",
 ["inputs","histories"],
 "for every sequence of commands from one or several connections",
 "the server's own tests send a handful of commands and check few of the replies",
 [S+"main.rs",S+"reply.rs",S+"handlers/insert_handler.rs",S+"handlers/find_handler.rs",S+"handlers/update_handler.rs",S+"handlers/delete_handler.rs",S+"handlers/aggregate_handler.rs",S+"wire/message.rs"],
 [("command dispatch","main.rs handle_message, AppContext::get_handlers"),("commands","handlers/*.rs"),("wire format","wire/message.rs")],
 [],["OP_MSG replies on a loopback connection"])
p("C18","Server cursors deliver every document exactly once",
 "A find or aggregate over the wire followed by getMore requests until the cursor id is 0 delivers exactly the documents of the result, in order and each once, in batches no larger than asked for, independent of other cursors that are open at the same time on any connection. killCursors closes only the named cursors, and a getMore of an unknown, killed or exhausted cursor is answered with an error.",
 ["inputs","histories","schedules"],
 "for every result size, batch size and interleaving of several cursors and connections",
 "the server's tests read one cursor to its end; defects show at batch boundaries and with several cursors",
 [S+"app_context.rs",S+"handlers/find_handler.rs",S+"handlers/aggregate_handler.rs",S+"handlers/get_more_handler.rs",S+"handlers/kill_cursors_handler.rs"],
 [("cursor table","AppContext"),("batches","find/getMore handlers")],
 [("open cursors","id -> remaining rows","AppContext")],
 ["cursor.id, firstBatch and nextBatch of the replies"])
p("C19","Server sessions carry transactions",
 "Commands of a session with startTransaction/autocommit:false and its txnNumber run inside one transaction: they see its own writes, nobody else does, commitTransaction makes all of them visible at once and abortTransaction discards all of them, as does starting the session's next transaction. Afterwards the session can run plain commands and start the next transaction, and other sessions are never affected.",
 ["histories","schedules"],
 "for every interleaving of the commands of several sessions and connections",
 "the server's tests run one transaction; the guarantee is about interleavings of sessions",
 [S+"app_context.rs",S+"session_context.rs",S+"main.rs",S+"handlers/commit_transaction.rs",S+"handlers/abort_transaction.rs"],
 [("session table","AppContext::create_session/get_session"),("commit/abort commands","CommitTransactionHandler, AbortTransactionHandler")],
 [("sessions","lsid -> transaction","AppContext")],
 ["replies and reads from other sessions"])
p("C20","The Python binding is faithful to the database",
 "Documents, filters, updates and pipelines passed from Python are taken with the same values (bool, int as Int64, float, str, list, nested dict in order), and every method of the binding has the effect and the result of the corresponding library call; rows come back with the values of the documents: integers as int, strings, symbols and code as str, object ids as hex str, binaries as bytes, dates as datetime in UTC with milliseconds, regular expressions as re.Pattern with their options, timestamps as tuple, null and types Python has no counterpart for as None. A value that can not be converted, and a failing call, raise a Python exception (never a panic) and change nothing. Asking for a collection creates it.",
 ["inputs","histories"],
 "for every Python value and every sequence of calls of the binding",
 "the binding's tests use a handful of documents",
 ["py-polodb/src/lib.rs","py-polodb/src/helper_type_translator.rs","py-polodb/src/py_database.rs"],
 [("value conversion","helper_type_translator.rs"),("method wrappers","py_database.rs")],
 [],["return values and exceptions in Python"])
p("C21","The line diff is a correct and minimal edit script",
 "For any two texts, the edits reported by polodb_line_diff turn the first into the second line by line: unchanged and deleted lines read in order give the first text, unchanged and added lines give the second. The script is minimal: no other has fewer lines inserted, deleted or replaced in place.",
 ["inputs"],
 "for every pair of texts",
 "optimality and reconstruction must hold for every pair; tests sample a few",
 ["src/polodb_line_diff/lib.rs","src/polodb_line_diff/line.rs"],
 [("edit script","lib.rs")],
 [],["the edits returned"])
p("C22","No message can stop the server or harm others",
 "Whatever bytes a client sends (incomplete, malformed, wrongly framed or too deeply nested messages) and however many connections it opens, the server keeps running, answers the other connections, and changes only what a complete well-formed command names. A malformed message changes nothing at all, and its sender is answered with an error reply or its connection is closed; a well-formed one is carried out once, whether its documents are in the command, in a document sequence or in a compressed message with the compressor 0.",
 ["inputs","histories"],
 "for every byte sequence on a connection, among the commands of other connections",
 "the server's tests use a driver, which never sends a malformed message",
 [S+"wire/message.rs",S+"wire/header.rs",S+"wire/util.rs",S+"bson_util.rs",S+"sync_read_ext.rs",S+"checked.rs",S+"main.rs"],
 [("framing","Header::read_from, Message::read_from and read_op_common, MessageSection::read"),("accept loop, connection tasks","main.rs")],
 [],["replies, closed connections, and the database afterwards"])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
