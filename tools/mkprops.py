"""Writes /verif/properties.jsonl (the list of properties, in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=hook)))
PQ='postgresql/driver/pq3.py'; CL='postgresql/protocol/client3.py'; XA='postgresql/protocol/xact3.py'
EL='postgresql/protocol/element3.py'; PB='postgresql/protocol/pbuffer.py'; BC='postgresql/port/_optimized/buffer.c'
SO='postgresql/python/socket.py'; NM='postgresql/notifyman.py'; AL='postgresql/alock.py'; CM='postgresql/copyman.py'
WS='postgresql/port/_optimized/wirestate.c'; FC='postgresql/port/_optimized/functools.c'; DB='postgresql/driver/dbapi20.py'
CU='postgresql/cluster.py'; CF='postgresql/configfile.py'; LB='postgresql/lib/__init__.py'; E3='postgresql/port/_optimized/element3.c'

p('C01','Results do not depend on how the network splits or joins bytes',
 'However the network splits, coalesces or delays the bytes of a session in either direction (reads returning any number of bytes, writes accepting any prefix), every statement yields exactly the rows, counts, errors and notices it yields when the bytes arrive whole, and the server receives exactly the same request bytes. This holds with the C accelerator module and with the pure-Python fallback, for messages of any size.',
 ['schedules','inputs'],'for every segmentation of both byte streams, every message size (including bodies far larger than one read) and both implementations of the message buffer',
 'Tests talk to a local server over a loopback socket, which nearly always delivers whole messages; segment boundaries inside a header or body of every message type are never produced on purpose.',
 [CL,PB,BC,XA,E3,FC],[('message buffering','postgresql/protocol/pbuffer.py, port/_optimized/buffer.c: pq_message_stream'),('partial send loop','client3.Connection.send_message_data'),('read loop','client3.Connection.read_into / complete / step')],
 ['values returned by db.prepare(..)(..), rows/chunks/column/first, db.execute','bytes received by the server'])
p('C02','Each operation receives its own results under any interleaving',
 'When several statements, row streams, chunk streams, COPY streams and cursors of one connection are open at once and are advanced in any order, every row, count, completion and error is delivered to the operation that asked for it, exactly once and in server order. Requests that were sent ahead of need never change what another operation returns, and an error belonging to a stream is never turned into a silently shortened result.',
 ['schedules','histories','programs'],'for every interleaving of operations on the open result objects of a connection, with server errors at any point',
 'Tests advance one stream at a time; the cross product of open streams, lazily pushed protocol transactions and errors is not sampled.',
 [PQ,CL,XA],[('lazy push then complete','pq3.Connection._pq_push/_pq_complete/_pq_step'),('single outstanding transaction','client3.Connection.push/step/complete'),('per-transaction message store','xact3.Instruction.completed')],
 ['rows yielded by each open iterator','exceptions raised by each call'])
p('C03','Transient socket errors are invisible to the application',
 'When the operating system reports that a send or receive should be tried again (EAGAIN, EWOULDBLOCK, EINTR, ETIMEDOUT), at any point and any number of times, the operation continues and completes with the result it would have had without the error. No request byte is lost, repeated or reordered, and no reply is lost or processed twice.',
 ['fault_sequences','schedules'],'for every finite sequence of retryable errors at any send/receive of any operation, including COPY in both directions',
 'A local socket in blocking mode never reports these errors, so the retry paths are not executed by tests at all.',
 [CL,SO,XA,CM],[('classification of errors','python.socket.SocketFactory.try_again'),('retry loops','client3.Connection.complete/step'),('idempotent re-delivery','xact3.Instruction.standard_put / put_copydata / put_tupledata')],
 ['results of operations','byte stream seen by the server'])
p('C04','A lost connection is always reported, never passed off as success',
 'If the connection breaks (EOF, reset, failed send, or a fatal server error) at any byte of any exchange, the operation in progress raises a postgresql.exceptions error within bounded time instead of hanging, raising some unrelated Python exception, or returning an incomplete result as if it were complete. From then on the connection reports itself closed and every further operation raises a postgresql.exceptions error; a transaction is reported committed only if the server committed it.',
 ['fault_sequences','crash_points'],'for every byte offset in both directions at which the connection may fail, under every kind of operation',
 'Tests close a connection at one or two quiet moments; the byte offsets inside handshakes, row streams and COPY are not reachable with a healthy local server.',
 [CL,PQ,XA,SO,CM],[('EOF and fatal error marking','client3.Connection.read_into/send_message_data'),('error raising','pq3.Connection._pq_push/_pq_complete/_pq_step'),('closed','pq3.Connection.closed')],
 ['exception type raised','db.closed','server-side committed data'])
p('C05','A server error leaves the connection synchronised',
 'After the server answers any request with a non-fatal error, at any step of the simple or extended protocol and with any number of requests already sent, exactly one error with the code and message the server sent is raised for it, and the connection stays usable: the next operation receives its own complete reply, and the reported transaction status matches the server.',
 ['fault_sequences','histories'],'for every protocol step of every operation at which the server may raise an error, followed by any operations',
 'Tests provoke parse and division errors at a few steps only; errors at Bind, Describe, mid-stream, mid-COPY or in a prefetched request need a server that fails on demand.',
 [XA,PQ,CL],[('skip to Sync','xact3.Instruction.standard_put error branch'),('error raising','pq3.TypeIO.raise_server_error'),('state tracking','client3.Connection.state')],
 ['exception code/message','results of following operations','db.state'])
p('C06','Transaction blocks commit exactly what ran and roll back on failure',
 'A transaction context manager commits its effects if and only if the block ended without an exception and the server acknowledged the commit; if an exception leaves the block, or the block swallowed a server error, its effects are rolled back and the enclosing block (for nested blocks) or the idle state is restored. When a commit or block exit fails for any reason the error is raised and, if the connection is alive, no transaction is left open that was not open before the block. The transaction runs in the isolation level and mode it was given. Transaction objects driven by start(), commit() and rollback() directly follow the same rules: repeating a call that has already taken effect does nothing, a finished transaction is not started again, and a call that failed leaves the object in the state the server is in.',
 ['programs','fault_sequences','histories'],'for every nesting of transaction blocks, every sequence of statements and errors (client side, server side, at commit) inside them',
 'Tests check a handful of fixed nestings; arbitrary nestings with errors at every boundary, in particular in commit, savepoint and pending prefetch, are not sampled.',
 [PQ,XA],[('Transaction.__enter__/__exit__/start/commit/rollback','postgresql/driver/pq3.py'),('status from ReadyForQuery','client3.Connection.state')],
 ['committed rows on the server','exceptions leaving the with-block','db.state'])
p('C07','Row streams deliver every row once, in order, at any size',
 'Reading a statement through a full call, rows(), chunks(), column(), first() or iteration gives exactly the rows the server produced, each once and in order, with column names and values intact (including NULLs), whether the result is empty, smaller than, equal to, or any multiple of the internal chunk size, inside or outside a transaction block, and however long the reader pauses or runs other statements between steps. An error in the middle of the result is raised and never shortens the result silently.',
 ['inputs','schedules','histories'],'for every result size, access method, transaction state and interleaving with other work',
 'Tests read a few fixed sizes without interleaving or mid-stream failure.',
 [PQ,XA,FC],[('FetchAll, MultiXactStream','postgresql/driver/pq3.py'),('tuple fast path','xact3.Instruction.put_tupledata; functools.c consume_tuple_messages/process_chunk')],
 ['rows produced by iterators'])
p('C08','Scrollable cursors behave like a cursor over a fixed list',
 'For any sequence of read, seek and next on a declared or attached cursor, with either direction setting, the rows returned and the position afterwards are those of a reference cursor over the fixed result list. Commits, other statements, reclaimed objects and server errors in between do not disturb the position or the rows of another cursor.',
 ['programs','histories','fault_sequences'],'for every sequence of cursor operations and every result size',
 'cursor_integrity.py samples random movement against a live server in one configuration; reversed cursors with seeks, several cursors and failures in between are not covered.',
 [PQ],[('Cursor.read/seek/__next__/_which_way','postgresql/driver/pq3.py')],['rows returned','following reads'])
p('C09','COPY FROM STDIN loads everything or nothing',
 'Loading rows through a COPY statement stores exactly the lines supplied, each once and in order, if the call returns; if the source of lines raises, the server rejects a line, or the call raises for any other reason, none of the lines are stored. Whatever happens to the load, a connection that is still alive is immediately usable for other operations without a leftover error.',
 ['inputs','fault_sequences','schedules'],'for every line sequence and chunking, every point at which the source or the server fails, and every segmentation',
 'Tests load small well-formed inputs; a failing source or server at arbitrary positions is not exercised.',
 [PQ,XA,CL],[('Statement._load_copy_chunks','postgresql/driver/pq3.py'),('sent_from_stdin, CopyFail/CopyDone sequences','xact3.Instruction')],
 ['table contents on the server','exception raised','next operation'])
p('C10','COPY TO STDOUT yields every line once, in order',
 'Reading a COPY ... TO STDOUT statement by a full call, rows or chunks yields exactly the lines the server sent, each once and in order; running other operations or receiving notices or notifications during the COPY loses or duplicates none of them. If the server or the connection fails during the COPY, a postgresql.exceptions error is raised rather than a shortened result.',
 ['inputs','schedules','fault_sequences'],'for every line sequence, segmentation, interleaving and failure point',
 'Tests copy a fixed table without asynchronous messages, failures or small reads.',
 [PQ,XA],[('SingleXactCopy/FetchAll','postgresql/driver/pq3.py'),('put_copydata','xact3.Instruction')],['lines yielded'])
p('C11','copyman transfers exact bytes to every surviving receiver',
 'A copy manager run from a producer to any number of receivers delivers to every receiver that did not fault exactly the row bytes the producer supplied, and reports the true totals. If it ends by an exception, every receiver connection aborts its COPY so that no partial load is committed, and every connection that is still alive is usable for further queries; a receiver reconciled after a fault has received every message exactly once.',
 ['inputs','schedules','fault_sequences'],'for every message sequence, segmentation of the producer stream and of the receivers, and every sequence of producer and receiver failures',
 'Tests run one or two transfers with whole buffers and one artificial fault; boundaries inside message headers and combined failures are not sampled.',
 [CM,WS,CL,XA],[('CopyManager','postgresql/copyman.py'),('WireState message boundary tracking','postgresql/copyman.py, port/_optimized/wirestate.c'),('StatementProducer/StatementReceiver','postgresql/copyman.py')],
 ['rows stored by each receiver','callers and producer totals','queries after the copy'])
p('C12','Every notification is delivered once and in order',
 'Every NOTIFY the server delivers to a listening connection is reported by the notification manager exactly once, with its channel, payload and sender, in the order sent per connection, even if it arrives during other queries, together with equal notifications, or just before the connection is lost. With a positive timeout idle events occur at about the configured interval and never while notifications are waiting, with a zero timeout iteration ends once everything available has been reported, and a failed connection is set aside without disturbing the others.',
 ['schedules','histories','fault_sequences'],'for every arrival time of notifications relative to queries, polls and timeouts, for any set of connections, and for connection failures at any time',
 'Tests check a few notifications at fixed times; arrival in the middle of other traffic, duplicates in one read and failures are not sampled.',
 [NM,PQ,CL,XA],[('NotificationManager.__next__','postgresql/notifyman.py'),('asynchronous message hook','pq3.Connection._receive_async; xact3.Instruction.standard_put')],
 ['items yielded by NotificationManager / iternotifies','virtual time of idle events'])
p('C13','Advisory locks exclude, nest and release like RLocks',
 'While one client holds an exclusive advisory lock object on some identifiers no other client holds a conflicting one, until it has been released as many times as it was acquired; share locks coexist. A non-blocking acquire takes all of its identifiers or none, never waits, and says truthfully which; what an object reports about being locked always agrees with the locks the server holds for that connection.',
 ['schedules','histories','fault_sequences'],'for every interleaving of clients acquiring and releasing overlapping identifier sequences, with connection loss and server errors',
 'Tests use one or two connections sequentially; contention, nesting and partial acquisition are not explored.',
 [AL,PQ],[('ALock.acquire/release','postgresql/alock.py'),('advisory lock statements','postgresql/lib/libsys.sql')],['server lock table','locked()','return value of acquire'])
p('C14','Settings read through the driver agree with the server',
 'A setting assigned through the settings interface is in force on the server when the assignment returns and reads back as the value the server reported; changes the server reports by itself are reflected at once and each reported change calls every currently subscribed matching subscriber exactly once. Settings given when connecting are in force afterwards, reset() restores them, and text sent and received (parameters, rows, errors, notices, notifications) is intact in every client_encoding in force. A settings context manager restores the previous values on exit, whether or not the block raised.',
 ['programs','histories','schedules'],'for every sequence of reads, assignments, updates, resets, context managers and asynchronous changes',
 'Tests exercise a few fixed sequences without asynchronous changes or transactions.',
 [PQ],[('Settings','postgresql/driver/pq3.py'),('ParameterStatus handling','pq3.Connection._receive_async')],['settings values','server GUC table','subscriber calls'])
p('C15','Connecting honours sslmode, fails over and leaks nothing',
 "Connecting tries the candidate addresses in order and, per address, exactly the encrypted and unencrypted attempts the sslmode prescribes: with 'require' neither startup data nor password is ever sent unencrypted, with 'disable' encryption is never requested, 'prefer' and 'allow' use their documented order. If every attempt fails for whatever reason (refusal, timeout, reset, bad TLS reply or handshake, authentication failure) one client-cannot-connect error listing the failed attempts is raised and every socket opened is closed; if any permitted attempt can succeed the connection is established. A connection used as a context manager is closed when the block is left, whether or not an error leaves it.",
 ['fault_sequences','configurations','schedules'],'for every sslmode, address list, authentication request, and failure at any byte of any attempt',
 'Tests connect to healthy local servers; failures between TCP connect and the end of authentication need a misbehaving server.',
 [PQ,CL,SO,XA],[('attempt sequence','pq3.Connection._establish'),('TLS negotiation','client3.Connection.connect/negotiate_ssl'),('authentication','xact3.Negotiation')],
 ['attempts seen by the servers (TLS request, startup)','exception','open sockets'])
p('C16','Discarded statements and cursors are closed, live ones never are',
 'A prepared statement or cursor whose object was closed or has become unreachable is closed on the server after at most a bounded number of further operations, and one that is still reachable is never closed or replaced by the driver, even when identifiers are reused and objects are reclaimed at arbitrary moments. The clean-up never alters the result of, or swallows messages belonging to, the operation it accompanies.',
 ['schedules','histories'],'for every order of creation, use, closing and reclaiming of statements and cursors, with reclamation at any instant',
 'When objects are reclaimed depends on the garbage collector; tests never control it and do not look at the server side.',
 [CL,PQ],[('register_*/trash_*/take_out_trash','client3.Connection'),('generated identifiers','pq3.ID')],['statements and portals existing on the server','results of live statements'])
p('C17','Asynchronous messages reach their handlers once and disturb nothing',
 'A notice, warning or parameter change sent by the server at any point between messages of an established session is handed to the message hook (or settings subscriber) exactly once, in order, with all of its fields, and the operation during which it arrives returns the same result as without it. An exception raised by a handler does not change the outcome of the operation or of later ones.',
 ['schedules','fault_sequences'],'for every position of asynchronous messages in the reply streams of every operation',
 'The position of notices in tests is whatever a local server happens to produce.',
 [XA,PQ,CL],[('AsynchronousMap branch','xact3.Instruction.standard_put'),('Connection._receive_async','postgresql/driver/pq3.py')],['msghook calls','operation results'])
p('C18','Interrupting a query cancels that session only',
 "Interrupting a connection asks the server to cancel exactly that session, identified by the process id and secret it was given, and always closes the extra connection it used. Whether the request arrives before, during or after the query, the query either completes with its full result or raises a query-cancelled error, and the connection and all other sessions remain usable.",
 ['schedules','fault_sequences'],'for every arrival time of the cancel request and every failure of the cancel connection',
 'Tests interrupt one sleeping query.',
 [CL,PQ,EL],[('interrupt','client3.Connection.interrupt'),('key data','xact3.Negotiation')],['sessions cancelled on the server','open sockets','result of the query'])
p('C19','Malformed server data is a reported fatal error',
 'If the server sends data that is not a valid protocol reply (bad lengths, unknown or unexpected message types, truncated messages, fields that do not fit their message), the operation raises a postgresql.exceptions error (or UnicodeError/LookupError for text that cannot be decoded in the announced encoding) or, where the data is a legal reply, returns what it says (a value longer than its type needs is read by its leading bytes); once the server has closed the connection it never hangs, and it never crashes the interpreter, raises an unrelated Python exception from a query, leaks the socket, or makes a later operation return data that belongs to an earlier one.',
 ['inputs','fault_sequences'],'for every corruption (flip, insertion, removal, replacement) of the server byte stream at any offset',
 'Only a healthy server is used in tests of whole sessions.',
 [XA,CL,PB,BC,EL,E3],[('protocol violation branch','xact3.Instruction.standard_put'),('exception trap','client3.Connection.complete'),('length validation','pbuffer.py / buffer.c')],['exceptions','process survival'])
p('C20','Bulk row loading applies every row or reports the failure',
 'Loading rows or chunks of rows through a parameterised statement executes it exactly once per row, in order, if the call returns. If packing a row, the row source or the server fails, that error is raised, only whole leading chunks have taken effect (none inside a rolled-back transaction), nothing after the failure is sent for execution twice or out of order, and the connection is immediately usable.',
 ['inputs','fault_sequences','histories'],'for every number of rows and chunking, and every row at which packing, the source or the server fails',
 'Tests use fixed rows with one bad value.',
 [PQ,XA],[('Statement._load_tuple_chunks','postgresql/driver/pq3.py')],['table contents','exception','next operation'])
p('C21','Cluster control reports the true state of the server process',
 'Starting, stopping, waiting for and destroying a cluster under any timing of the server process (slow start, crash during start, pid file appearing late, empty, stale or vanishing between checks) returns success only if the described state was reached, raises the documented cluster error otherwise, and gives up no later than about the requested timeout. Signals are sent only to the process recorded for that cluster, and temporary password files do not outlive initialisation.',
 ['schedules','fault_sequences','crash_points'],'for every timing of process start, exit and pid file events relative to the polls',
 'Tests start one healthy server; races between polls and process events are not controlled.',
 [CU],[('Cluster.start/stop/kill/wait_until_started/wait_until_stopped/init','postgresql/cluster.py')],['return or exception','signals sent','elapsed simulated time'])
p('C22','A configuration file update is all or nothing',
 'Updating a configuration file changes exactly the requested keys and preserves every other line; after a failed read or write, a full disk, or a crash at any moment, the file holds either its previous or its new content, never a truncated or mixed one.',
 ['crash_points','fault_sequences','inputs'],'for every sequence of updates and every I/O step at which an error or crash may occur',
 'Tests use StringIO and healthy temporary files.',
 [CF],[('ConfigFile.update/_save, alter_config','postgresql/configfile.py')],['bytes of the file after error or crash'])
p('C23','DB-API connections and cursors keep transaction and fetch semantics',
 'Through the DB-API interface, every change made since the last commit or rollback is made durable by commit and undone by rollback or close, unless autocommit is on, in which case each statement stands alone; a failing statement does not make later committed work disappear silently. fetchone, fetchmany and fetchall in any mix return exactly the remaining rows in order, and operations on closed objects raise the DB-API error classes.',
 ['programs','histories','fault_sequences'],'for every sequence of execute/executemany/fetch/commit/rollback/autocommit/close calls with server errors and connection loss anywhere',
 'The DB-API compliance tests run fixed sequences without faults.',
 [DB],[('Connection.commit/rollback/autocommit/close','postgresql/driver/dbapi20.py'),('Cursor.execute/fetch*','postgresql/driver/dbapi20.py')],['rows returned','committed data'])
p('C24','Closing always ends the session and frees the socket',
 'Closing a connection, explicitly or by leaving its context manager, in any state (idle, in a transaction, with open streams or an unfinished COPY, after an error or a lost connection) returns without hanging, finishes or aborts what was pending, tells a live server goodbye once, and closes the socket; closing again does nothing. An unfinished transaction or COPY of a closed connection is never committed.',
 ['histories','fault_sequences','crash_points'],'for every state in which close is called and every failure during the close itself',
 'Tests close idle connections.',
 [PQ,CL],[('Connection.close/__exit__','postgresql/driver/pq3.py'),('Closing','xact3.Closing')],['socket state','Terminate messages seen by the server','committed data'])
p('C25','Values of every type survive the trip, whatever has to be looked up for them',
 'Over a connection, a value of any supported type (built-in, enum, domain, array or composite, nested in any way, anonymous records included) read as a column is the Python object documented for it, and a parameter is stored as the value that object means; for types without conversion functions the text is passed both ways. This holds at the first use, when the driver has to ask the server about the type in the middle of a statement or between the rows of another result, after an error or a lost transaction hit one of those questions, and after a change of client_encoding: a type is never half-learned, other open results are not disturbed, and statements describe their columns and parameters without failing.',
 ['inputs','histories','fault_sequences'],'for every set of user types, every value, every interface that reads or sends it, every order of first uses among open results, and every error among the lookups',
 'Tests send fixed samples of fixed types over a fresh, healthy connection, one statement at a time.',
 [PQ,'postgresql/types/__init__.py','postgresql/types/io','postgresql/lib/libsys.sql',FC,E3],[('TypeIO.resolve and the I/O factories','postgresql/driver/pq3.py'),('pack and unpack functions','postgresql/types/io/*.py'),('process_tuple','postgresql/python/functools.py, port/_optimized/functools.c'),('catalog queries','postgresql/lib/libsys.sql')],['values returned','values the server decoded','statement metadata','exceptions'])
p('C26','A temporary cluster is private to its process and leaves nothing behind',
 'postgresql.temporal (pg_tmp and further Temporal objects, as a context manager and as a decorator, nested and interleaved): a block runs on a connection to a cluster made by and for the current process, in a schema of its own; inside it the builtins (db, prepare, xact, sqlexec, do, settings, proc, connector, new) are those of its own connection, and after it they are exactly what they were before, whether it ended normally, with an exception, an interrupt, or was refused at any step. A block left normally or with an Exception has closed the connections made for it and dropped its own schema and no other; the exception of the block propagates. When making the cluster or entering the block fails, the error is raised and a later block can succeed. At the exit of the process, or after destroy(), no server process, socket or directory of it is left, whatever failed before and however slowly the server stops, while the exit of a forked child, and servers and directories of others (also on the default port, or of PGTEST), are left alone; with PGTEST set no cluster is made. A new process of the same number as a killed one clears what that one left and works.',
 ['histories','fault_sequences','crash_points','schedules'],'for every program of blocks, processes and forks, every life cycle of the server process, and every step of making, using and destroying the cluster at which a system call, the server, or an interrupt fails it',
 'Tests use one healthy pg_tmp per process and never look at what remains after the exit.',
 ['postgresql/temporal.py','postgresql/installation.py',CU,CF,'postgresql/python/socket.py'],[('Temporal.init/destroy/push/pop/__enter__/__exit__/__call__','postgresql/temporal.py'),('Installation, default','postgresql/installation.py'),('Cluster.init/start/stop/drop','postgresql/cluster.py'),('find_available_port','postgresql/python/socket.py')],['builtins','schemas and sessions of the server','processes, files and sockets after the exit','exceptions'])
p('C27','A stored procedure object is the function it names',
 'db.proc() given a signature (name, optional schema, argument types) or an oid makes an object for exactly that function, whatever others share its name, schema or arguments, or raises the error of the server when there is none. Calling it with positional arguments, keyword arguments named like the input arguments, or both (positional ones fill the gaps) executes that function once with every argument in its place, OUT and TABLE columns not counted as arguments; too few, too many, unknown or doubly given arguments raise TypeError with nothing executed. It returns the value, the row of OUT or composite values, None for void, or, for a set, an iterable of each value or row once, in order, complete unless the function fails half-way, in which case the error is raised; this holds for any types, any order in which open results are read among other operations, inside and outside transactions; errors and failed look-ups are reported and leave the connection usable.',
 ['inputs','histories','fault_sequences'],'for every set of functions and overloads, every mix of positional and keyword arguments, every interleaving of set results with other operations, every error at any exchange',
 'Tests call half a dozen fixed functions with positional arguments.',
 [PQ,'postgresql/lib/libsys.sql','postgresql/types/__init__.py'],[('Connection.proc','postgresql/driver/pq3.py'),('StoredProcedure.__init__/__call__','postgresql/driver/pq3.py'),('lookup_procedures','postgresql/lib/libsys.sql')],['function calls and arguments received by the server','values returned','exceptions'])
# pure functions: listed, not claimed
p('C90','Pack and unpack functions alone are inverses',
 'Called directly, outside any session, packing any value of a supported type and unpacking the result gives the value back.',
 ['inputs'],'for every value of every supported type','Tests sample values.',
 ['postgresql/types/io','postgresql/types/__init__.py'],[('pack/unpack pairs','postgresql/types/io/*.py')],['values'])
p('C91','IRI, pgpass and connection-string parsing is faithful',
 'Parsing a connection IRI, pgpass file or client parameters and serialising it again denotes the same connection parameters, and SQL literals and identifiers quoted by the library denote the original string.',
 ['inputs'],'for every string','Tests sample strings.',
 ['postgresql/iri.py','postgresql/pgpassfile.py','postgresql/clientparameters.py','postgresql/string.py','postgresql/resolved/riparse.py'],[('parse/serialize','postgresql/iri.py')],['parsed parameters'])
p('C92','SQLSTATE codes map to the documented exception classes',
 'Every SQLSTATE the server can send maps to the most specific exception class defined for it.',
 ['inputs'],'for every five character code','Tests sample codes.',
 ['postgresql/exceptions.py'],[('ErrorLookup','postgresql/exceptions.py')],['exception class'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
