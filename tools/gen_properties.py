#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

J="src/joedb/journal/"; C="src/joedb/concurrency/"; U="src/joedb/ui/"; G="src/joedb/compiler/generator/"

p("J01","A journal replays exactly the operations that were written to it",
"Whatever sequence of schema, data, vector, blob, comment, timestamp and custom operations is written to a journal, with checkpoints at any places, replaying that journal (at once, step by step, in several increments, after closing and reopening and appending more) delivers the same operations in the same order with bit-identical values. This holds for every value of every type, every string and vector length and every alignment with internal buffers, and two ways of producing the same operations produce a journal with the same meaning.",
["inputs","programs"],"every operation sequence, value, size and buffer alignment, checkpoint placement, replay increment, and reopen/append split",
"Unit tests write a few short journals with small values; they never cross buffer boundaries at each field kind, nor the relative encodings (append, update last/next) across table, field, vector and reopen boundaries.",
[J+"Writable_Journal.cpp",J+"Readonly_Journal.cpp",J+"File_Buffer.h",J+"Buffer.h"],
[("relative operation encoding",J+"Writable_Journal.cpp: generic_update, insert_into"),("compact integers",J+"Buffer.h: compact_write/compact_read"),("buffered reads and writes",J+"File_Buffer.h")],
["calls received by a recording listener during replay","bytes of the file"])

p("J02","Data covered by a completed hard checkpoint survives any power failure",
"Once a hard checkpoint has returned, then whatever happens next (any later writes, soft or hard checkpoints, and a power failure at any instant that leaves an arbitrary subset of the not-yet-synced writes on disk), reopening the file recovers at least that checkpoint, with every byte up to it intact. The hard checkpoint found on reopening is always one that the application requested, and data up to it is always exactly what had been written.",
["crash_points","fault_sequences","histories"],"every crash instant between or inside write and sync calls, every subset and tearing of unsynced writes, every history of soft and hard checkpoints",
"The existing crash test simulates one truncated file; no test varies which unsynced writes reach the disk or interleaves soft and hard checkpoints before the crash.",
[J+"Writable_Journal.cpp",J+"Readonly_Journal.cpp",J+"Header.h"],
[("two alternating pairs of checkpoint copies",J+"Writable_Journal.cpp: hard_checkpoint_at"),("selection of the valid pair",J+"Readonly_Journal.cpp: read_checkpoint")],
["write and sync calls made on the file","journal reopened from each crash image"],
None,[("checkpoint copies","4 positions in the header, hard positive and soft negative",J+"Header.h")])

p("J03","A process that dies leaves a journal that recovers to a checkpointed prefix",
"If a writing process is killed at any point, or a write fails (disk full, I/O error), reopening finds a checkpoint that the application requested, at least as recent as the last completed hard checkpoint, and at least as recent as the last completed soft checkpoint; data up to it is exactly what was written. Opening for writing is refused when uncheckpointed data follows the checkpoint, unless the caller asks to overwrite it or to take the whole file, in which case exactly the checkpointed prefix, respectively the whole file, is kept; a write failure is always reported to the caller.",
["crash_points","fault_sequences","histories"],"every kill point between system calls, every failing or short write, each recovery mode",
"Tests cover one aborted transaction; they do not kill the process at each write, nor fail writes, nor combine this with each recovery mode and with continued writing.",
[J+"Writable_Journal.cpp",J+"Readonly_Journal.cpp",J+"Journal_Construction_Lock.cpp",J+"Posix_File.cpp"],
[("soft checkpoints in the spare pair",J+"Writable_Journal.cpp: soft_checkpoint_at"),("recovery modes",J+"Journal_Construction_Lock.h, Writable_Journal.cpp constructor")],
["journal reopened from each prefix of the write sequence","exceptions seen by the caller"])

p("J04","Readers of a shared file only ever see complete checkpointed prefixes",
"While writers append to a file, any reader of the same file (another process or another handle) observes checkpoints that never decrease and never lie beyond what a writer has checkpointed, and everything it replays up to its checkpoint is exactly the operations the writers committed, in order, with no operation missing, repeated, altered or partially visible. A reader never modifies the file.",
["schedules","histories"],"every interleaving of concurrent writers and readers over processes and handles, every pull timing, soft and hard checkpoints",
"Tests interleave one reader and one writer in a single thread at a handful of points.",
[J+"Readonly_Journal.cpp",J+"Writable_Journal.cpp",C+"Readonly_Client.h"],
[("head lock around header access",J+"Readonly_Journal.cpp: pull"),("incremental replay",J+"Readonly_Journal.cpp: play_until")],
["values replayed by readers","event log of committed transactions"])

p("J05","Loading any file whatsoever is memory-safe and ends",
"Opening and replaying an arbitrary sequence of bytes as a journal, into an interpreted or a compiled database or through any of the dump and conversion paths, either succeeds or reports an error through an exception. It never reads or writes out of bounds, uses uninitialised or freed memory, overflows, aborts or loops forever, and a record-count limit given by the caller bounds the memory it may take.",
["inputs"],"every byte string, including mutations of valid journals and inconsistent headers, each replay target",
"The repository has fuzzers but they are not part of the test suite, run without a corpus of deep mutations, and ignore several replay targets.",
[J+"Readonly_Journal.cpp",J+"File_Buffer.cpp","src/joedb/interpreted/Database.cpp",G+"Database_Writable_h.cpp"],
[("size checks before allocation",J+"Readonly_Journal.cpp: one_step"),("range and type checks","src/joedb/interpreted/Database.cpp")],
["sanitizer reports","exceptions","time and memory used"])

p("J06","File locking keeps writers apart and open modes do what they say",
"At any time at most one process or handle has a file open in an exclusive writing mode, and a shared-mode transaction never overlaps another transaction or an exclusive writer on the same file; a second exclusive opener is refused, or waits in the waiting mode. Read mode never creates or changes a file, create-new mode fails on an existing file and leaves it untouched, existing-file modes fail on a missing one, and locks disappear with their holder even when it is killed.",
["schedules","configurations","fault_sequences"],"every pair of open modes, order of opening and closing, and process death",
"Tests check a few mode pairs inside one process; they do not check all pairs across processes, nor death of the holder, nor mutual exclusion under contention.",
[J+"Posix_File.cpp",J+"Journal_Construction_Lock.cpp",J+"Open_Mode.h"],
[("tail lock for writers",J+"Posix_File.cpp constructor"),("construction lock",J+"Journal_Construction_Lock.cpp")],
["success or failure of each open","overlap of critical sections recorded by the holders","file bytes"])

p("J07","Every kind of file behaves like a plain array of bytes",
"Memory, stream, local, portable, sliced, read-only, upgradable and encoded (compressed) files all give back, for any sequence of writes, reads, copies, comparisons, hashes and reopenings, the same bytes, sizes and end-of-file results as a plain byte array would, within what their mode permits. Copying any range from one file to another, and comparing ranges, work for every size, offset and combination of file kinds, including sources that return short reads.",
["inputs","histories","configurations"],"every operation sequence and size/offset alignment, each file kind and pair of kinds",
"Tests use a few fixed offsets per file kind; encoded files are only tested with sequential writes, and short reads only on one path.",
[J+"Abstract_File.cpp",J+"Memory_File.cpp",J+"Stream_File.cpp",J+"Encoded_File.cpp",J+"Readonly_Encoded_File.cpp",J+"File_Slice.h",J+"Async_Reader.cpp",J+"Async_Writer.h"],
[("generic copy and comparison",J+"Abstract_File.cpp"),("encoded buffers stored in a joedb database",J+"Encoded_File.cpp")],
["bytes and counts returned by reads","model byte array"])

p("J08","Stream buffers over joedb files behave like standard file streams",
"Reading, writing, seeking and telling through the standard-stream adapter over any joedb file gives the same characters, positions and end-of-file states as the same calls on an in-memory standard stream, for any mix of operations and sizes, and everything written is in the file once flushed or closed.",
["inputs","histories"],"every interleaving of reads, writes, seeks and flushes with every size around the buffer size",
"Tests exercise a few seeks with a short text.",
[J+"filebuf.h",J+"filebuf.cpp",J+"fstream.h"],
[("get and put areas over one buffer",J+"filebuf.cpp")],
["characters, positions and states returned","bytes of the file"])

p("J09","Content hashes are true SHA-256 and expose every difference",
"The hash of any byte string, computed at once or over any file and range, is the standard SHA-256 value, and the full comparison of two journals up to a position succeeds exactly when their content up to that position is identical. The result does not depend on how the file splits reads or on what follows the position.",
["inputs"],"every content, length, range and read chunking",
"Tests compare a few known digests of short strings.",
[J+"SHA_256.h",J+"File_Hasher.cpp"],
[("block hashing",J+"SHA_256.h"),("journal hashing",J+"File_Hasher.cpp")],
["digests compared with an independent implementation"])

p("C01","Concurrent local transactions are atomic and serializable, and none is lost",
"When any number of clients in any number of threads or processes run transactions on one shared file, the committed transactions form one total order: each sees exactly the effects of those before it, a committed transaction is never lost or duplicated, and the final file replays to the result of executing them in that order. A transaction whose function throws leaves nothing visible to other clients, and creating the file concurrently is safe.",
["schedules","histories","fault_sequences"],"every interleaving of transactions, aborts, client creations, closings and kills over processes and handles",
"Tests run two clients alternately in one thread.",
[C+"Writable_Client.h",J+"Writable_Journal.cpp",J+"Journal_Construction_Lock.cpp",G+"Client_h.cpp"],
[("tail lock held for the transaction",J+"Writable_Journal.cpp: Tail_Exclusive_Lock"),("pull before the transaction",C+"Writable_Client.h")],
["read and write values logged by each transaction","final file replay"])

p("C02","Replicas of a server share one linear history with exclusive transactions",
"For any set of clients connected to one server, the server journal is the concatenation of the committed transactions in a single order, every replica is at all times a byte-for-byte prefix of it (plus at most its own unpushed work), and a transaction runs only while its client holds the server lock with a replica that is up to date. A push that does not start exactly at the end of the server history is rejected without changing the server data, no acknowledged push is ever lost, and a waiting pull returns promptly once new data is available.",
["schedules","histories"],"every interleaving of pulls, waiting pulls, locks, pushes, conflicting pushes, offline work and reconnections from any number of clients, shared or exclusive server files",
"Tests use one or two clients in a fixed sequence.",
[C+"Server.cpp",C+"Server_Connection.cpp",C+"Client.h",C+"Writable_Client.h"],
[("lock queue",C+"Server.cpp: lock/unlock"),("conflict test on push",C+"Server.cpp: push"),("tail transfer",C+"Server.cpp: send, Server_Connection.cpp: pull")],
["server journal bytes after each step","replica bytes","event log of transactions"])

p("C03","No client behaviour can corrupt a server or stop it serving others",
"Whatever bytes a client sends, and whenever it disconnects or goes silent, the server keeps running without any memory error, never alters data below its committed checkpoint, and keeps serving its other clients correctly. Bytes that are not a valid push never become committed data, and a lock held by a client that disconnected or exceeded the lock timeout is released so that another client obtains it.",
["inputs","fault_sequences","schedules"],"every byte stream and disconnection point of hostile clients, together with well-behaved ones",
"Tests send a few malformed requests; the server fuzzer is not part of the suite and has no oracle but crashes.",
[C+"Server.cpp","src/joedb/asio/Server.cpp",J+"File_Hasher.cpp"],
[("session exception handling","src/joedb/asio/Server.cpp"),("lock timeout",C+"Server.cpp: refresh_lock_timeout")],
["sanitizer reports","server journal prefix","answers to a well-behaved client"])

p("C04","Objects shared between threads are free of data races",
"Connections and remote files with background keep-alive, the server running beside clients in the same process, thread-safe wrappers, remote-procedure clients and loggers can be constructed, used and destroyed while their background threads run without any data race, use before construction, use after destruction or deadlock. Keep-alive traffic never disturbs the meaning of concurrent requests.",
["schedules"],"every schedule of user threads and background threads over construction, use and destruction",
"Tests run these objects briefly without a race detector, with keep-alive intervals that rarely fire.",
[C+"Server_Client.h",C+"Keep_Alive_Thread.h",C+"Server_Connection.cpp",C+"Server_File.cpp","src/joedb/Thread_Safe.h","src/joedb/rpc/Client.h"],
[("locked channel",C+"Server_Client.cpp"),("keep-alive thread",C+"Keep_Alive_Thread.cpp")],
["race detector reports","values returned by requests issued while pinging"])

p("C05","A broken connection never makes a client diverge silently or lose its work",
"If the connection to a server breaks at any byte of any exchange, the client reports an error or transparently reconnects, and its replica remains equal to a prefix of the server history followed by its own unpushed work: a push whose acknowledgement was lost is found either fully applied or not applied at all, and is never applied twice. After reconnecting, work continues without manual repair unless another client pushed conflicting work, in which case an error is reported; a push that was applied but whose acknowledgement was lost may also be reported as an error, after which a new client of the same replica goes on.",
["fault_sequences","histories"],"every byte position at which the stream is cut or stalls in either direction, every request kind, plain and self-repairing connections",
"One test cuts the stream at a few positions of one scenario.",
[C+"Server_Connection.cpp",C+"Robust_Connection.cpp",C+"Server.cpp"],
[("reconnection",C+"Robust_Connection.cpp"),("incomplete push is not checkpointed",C+"Server.cpp: push")],
["server and replica bytes after the fault and after recovery"])

p("C06","A client never synchronises with a different history",
"When a client connects to a server or a file, the connection is accepted only if one side's journal is a prefix of the other (as far as the requested check examines: entirely for the full check, by sampled content for the fast check); otherwise an error is reported and neither side changes. A pull brings the client exactly the other side's bytes and a push brings the other side exactly the client's bytes, up to the requested position.",
["inputs","histories","configurations"],"every pair of journals (equal, prefix, diverging at any byte), each check mode, file and server connections, read-only and writable sides, partial pushes",
"Tests check one equal and one different pair.",
[C+"Connection.cpp",C+"File_Connection.cpp",C+"Server_Connection.cpp",J+"File_Hasher.cpp"],
[("handshake content check",C+"File_Connection.cpp, Server_Connection.cpp"),("range copy",J+"Writable_Journal.cpp: pull_from")],
["acceptance or error of each handshake","bytes on both sides"])

p("D01","Compiled, interpreted and replayed databases hold the same data",
"For any sequence of valid operations, the generated (compiled) database, the interpreted database, and any database obtained by replaying the journal in either form contain exactly the same records and values as a simple model of tables, including after deletions, id reuse, vector operations, schema edits and transfers between the two forms. The generated accessors, iterators, first/last/next/previous, counts and sort helpers agree with that content.",
["programs","inputs","histories"],"every operation sequence on every table and field type, through every generated entry point",
"Tests check specific small scenarios for each feature.",
[G+"Database_h.cpp",G+"Database_Writable_h.cpp",G+"Writable_Database_h.cpp",G+"Readable_h.cpp","src/joedb/interpreted/Database.cpp","src/joedb/interpreted/Table.cpp"],
[("column storage and free list",G+"Database_h.cpp"),("interpreted tables","src/joedb/interpreted/Table.cpp")],
["contents read through each interface","model of tables"])

p("D02","Indexes always match the table, and unique indexes reject duplicates",
"After every successful operation (insert, update, delete, vector operations, replay of a file), each index of a compiled database contains exactly the records whose indexed columns have been set, under their current keys, and find functions return exactly the matching records in order. An operation that would create a duplicate key in a unique index reports an error, and that update reaches neither the journal nor the index, so that once repaired the database and its file agree again.",
["programs","histories"],"every operation sequence including failed updates, multi-column and multiple indexes, deletions and vector updates",
"Tests check a few inserts and one duplicate per index kind.",
[G+"Database_h.cpp",G+"Writable_Database_h.cpp",G+"Writable_Database_cpp.cpp"],
[("index maintenance on update and delete",G+"Database_h.cpp")],
["index contents and find results","file replay"])

p("D03","Invalid operations are rejected and leave data and file intact",
"An operation that refers to a missing table, field or record, has a wrong type, an invalid or duplicate name, an identifier already in use, or a range outside the table, is reported by an exception in the interpreted database, and when replayed into a compiled database; the data held before is unchanged by the rejected operation. Rejected operations sent to a client transaction or interpreter session do not reach the journal.",
["programs","inputs"],"every kind of invalid operation at every point of a history",
"Tests check a few error cases per function, mostly checking only that an exception is thrown.",
["src/joedb/interpreted/Database.cpp","src/joedb/interpreted/Database_Schema.cpp","src/joedb/interpreted/Table.cpp",G+"Database_Writable_h.cpp","src/joedb/Multiplexer.cpp"],
[("argument checks","src/joedb/interpreted/Database.cpp"),("checks before the journal is written","src/joedb/Multiplexer.cpp")],
["exceptions","contents before and after","bytes of the file"])

p("D04","Schema upgrades keep data, run each custom step once, and refuse mismatches",
"Opening with a newer program a file whose schema is a prefix of the program's schema keeps all existing data, applies exactly the missing schema steps and runs each missing custom function once in order, and opening again changes nothing more. A file whose schema is not such a prefix is refused, and refused or failed openings never damage committed data; a read-only opening or a pull never modifies the file.",
["histories","configurations","inputs"],"every pair of old and new schema from a family of evolutions, with any data, via file, client and read-only openings",
"Tests check one two-version upgrade.",
[G+"Writable_Database_cpp.cpp",G+"Database_Writable_h.cpp",G+"Client_h.cpp",J+"Upgradable_File.h"],
[("schema string comparison",G+"Database_Writable_h.cpp"),("upgrade",G+"Writable_Database_cpp.cpp")],
["contents after opening","custom-function call log","file bytes"])

p("D05","Record-identifier bookkeeping is exact for any allocation history",
"For any sequence of allocations, releases, explicit-identifier insertions and range insertions or deletions, the set of used identifiers, its size, its first, last, next and previous elements, and its enumeration in both directions are those of a plain set with the documented order, in both the dense and the general representation and across the change from one to the other. A freshly allocated identifier is never one in use.",
["programs","histories"],"every sequence of keeper operations, crossing the dense/general switch at every size",
"Tests follow a few fixed sequences.",
["src/joedb/Freedom_Keeper.h"],
[("dense and list keepers and their composition","src/joedb/Freedom_Keeper.h")],
["results of every query against a set model"])

p("D06","Blobs read back exactly what was written",
"A blob written to a database or journal is read back with exactly its bytes through the returned reference, at any later time: after other writes, checkpoints, reopening, replication to another client, copying or serving of the file, and through every file kind that can hold it. Reading a reference that does not lie in the file yields an error or truncated data, never memory corruption or other files' data.",
["inputs","histories"],"every blob size and position, mix with other operations, file kind and access path",
"Tests write one or two small blobs.",
[J+"Writable_Journal.cpp",J+"Abstract_File.cpp",C+"Server_File.cpp",G+"Writable_Database_h.cpp"],
[("blob record in the journal",J+"Writable_Journal.cpp: write_blob"),("bounded read",J+"Abstract_File.cpp: read_blob")],
["bytes returned by each access path"])

p("T01","A textual dump reproduces the database when it is interpreted again",
"Interpreting the text produced by dumping any database or replaying any journal as commands gives a database with the same schema, records and values (floating-point numbers to their printed precision, which is a fixed point of a second dump); strings with any bytes survive. The same holds for files that store commands as text and are read as databases.",
["inputs","programs"],"every database content, string byte, number, identifier hole and schema history",
"Tests compare one dump with a stored file.",
[U+"Interpreter_Dump_Writable.cpp",U+"type_io.cpp",U+"Readable_Writable_Command_Processor.cpp",U+"dump.cpp",J+"Interpreted_File.cpp"],
[("escaping and parsing of values",U+"minimal_runtime_io.cpp, type_io.cpp")],
["contents after the round trip","text of a second dump"])

p("T02","JSON and SQL exports are well-formed and state the database's content",
"For any database, the JSON export is valid JSON holding exactly the tables, columns and live rows, with references translated to row positions, and strings intact (or encoded in base64 on demand); the SQL export is accepted by an SQL engine and builds the same tables, rows and values. Data that the format cannot represent is flagged as documented and never breaks the structure of the output.",
["inputs"],"every database content, including any string bytes, extreme numbers, dangling references, dropped tables and fields",
"Tests compare one export with a stored file.",
[U+"json.cpp",U+"base64.cpp",U+"SQL_Dump_Writable.cpp",U+"minimal_runtime_io.cpp"],
[("string escaping",U+"minimal_runtime_io.cpp: write_string, type_io.cpp: write_sql_string"),("reference translation",U+"json.cpp")],
["export parsed by independent JSON and SQLite implementations"])

p("T03","Packing, converting, pushing and merging preserve the data",
"Packing or converting a file gives a file with the same schema and exactly the same live records and values, and leaves the source unchanged; pushing a file to another gives an identical copy up to the checkpoint. Merging files with the same schema gives the concatenation of their rows with references translated to the same rows, refuses files of a different schema, and no tool overwrites an existing output.",
["inputs","programs"],"every database content with deletions, id holes, references, vectors, schema edits; any number of merged files",
"Tests run each tool on one or two tiny files.",
[U+"dump.cpp",U+"merge.cpp",U+"inplace_pack.cpp",U+"joedb_convert.cpp",U+"joedb_push.cpp",U+"joedb_merge.cpp","src/joedb/Selective_Writable.cpp"],
[("data dump by runs of used records",U+"dump.cpp: dump_data"),("reference offsets",U+"merge.cpp")],
["contents of output files read by an independent reader","bytes of source files"])

p("T04","Interpreter and compiler accept any text without crashing",
"Feeding any text to the command interpreter, to a file of commands, or to the schema and option parsers of the compiler is memory-safe and ends; bad commands are reported and do not change the database, and later commands still work. Every schema and option file the compiler accepts yields code that compiles and behaves as specified.",
["inputs","programs"],"every command text, including malformed numbers, strings, names and sizes; every accepted schema from a random family",
"Tests use one script of commands; the interpreter fuzzer is not part of the suite and has no oracle but crashes.",
[U+"Command_Interpreter.cpp",U+"Data_Manipulation_Command_Processor.cpp",U+"Readable_Writable_Command_Processor.cpp","src/joedb/compiler/Compiler_Options_io.cpp","src/joedb/compiler/joedbc.cpp"],
[("command dispatch and error reporting",U+"Command_Interpreter.cpp"),("option parsing","src/joedb/compiler/Compiler_Options_io.cpp")],
["sanitizer reports","state after each command","output of compiled programs"])

p("R01","Remote procedures act like local calls, and server failures stay contained",
"Calling a procedure through a remote connection leaves the message database exactly as running the procedure locally on it would, including errors, which reach the caller without affecting other calls or clients. A client whose procedure signatures differ from the server's is refused, and arbitrary bytes, sizes or disconnections from a client cause no memory error in the server and leave it serving others.",
["inputs","schedules","fault_sequences"],"every message content and size, concurrent callers, throwing procedures, hostile byte streams",
"Tests call one procedure on one client.",
["src/joedb/rpc/Server.h","src/joedb/rpc/Client.h","src/joedb/rpc/get_hash.cpp",G+"Procedure_h.cpp",G+"RPC_Client_h.cpp"],
[("transfer of the message journal tail","src/joedb/rpc/Server.h, Client.h"),("signature hash","src/joedb/rpc/get_hash.cpp")],
["message contents after the call compared with a local execution","sanitizer reports"])

p("R02","A remote or logged file gives the same database as the file itself",
"A database opened through a file served by a server shows exactly what the server's journal contains at that checkpoint, every range read returns the server's bytes, and writes made through it reach the server as transactions or are reported as failed. It can be used for reading, pulling and writing transactions for any mix of operations and sizes, with other clients writing at the same time.",
["histories","inputs","schedules"],"every mix of range reads, pulls, transactions, blob reads and concurrent writers, every size",
"Tests read one small file.",
[C+"Server_File.cpp",C+"Server_Client.cpp",C+"Server.cpp"],
[("range reads over the network",C+"Server_File.cpp: pread"),("tail kept in memory until pushed",C+"Server_File.cpp")],
["bytes returned","server journal bytes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
