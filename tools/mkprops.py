#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run to regenerate it.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))
T='sttp/transport/'
DS=T+'DataSubscriber.go'
NOTEST='The repository has no test of this package at all; '

p('C01','Compact data packets are delivered whole, in order and unaltered',
 'For every sequence of compact data packets a publisher sends, the application receives one batch per packet, in order, holding exactly the measurements in the packet: the signal ID that the packet\'s signal index stands for, the exact value, the state flags and the timestamp. The timestamp is the full 64-bit one (leap-second bits kept), or the base time selected by the measurement plus the 2-byte millisecond or 4-byte tick offset, or absent when the subscription excludes time; the received-measurements total grows by the number delivered, and a packet whose signal index cache has not arrived yet delivers nothing.',
 ['inputs','histories','configurations'],'All packet sequences, measurement contents (flags, indexes, values, timestamps), base-time rotations, time/resolution settings, interleaved with other publisher messages.',
 NOTEST+'and the input space (every flag byte, both base times, both resolutions, every history of base time and cache updates) cannot be covered by examples.',
 [DS,T+'CompactMeasurement.go',T+'Measurement.go'],[('handleDataPacket / parseCompactMeasurements',DS),('Decode, SetCompactStateFlags, mapToFullFlags',T+'CompactMeasurement.go')],
 [('baseTimeOffsets, timeIndex','the two base times','%s'%DS),('signalIndexCache','two signal index cache slots',DS)],['NewMeasurementsCallback','TotalMeasurementsReceived'])

p('C02','Compressed (TSSC) streams decode to exactly what the publisher encoded',
 'For every sequence of measurements a publisher compresses with TSSC, however split into packets, the application receives the same measurements in the same order with identical signal, timestamp, state flags and bit-identical 32-bit value. A packet with sequence number 0 restarts the compression state, sequence numbers advance by one and roll over from 65535 to 1, and a packet that is out of sequence delivers no measurements and leaves the decoding of the in-sequence packets unaffected.',
 ['inputs','histories'],'All measurement sequences (IDs, 64-bit times, 32-bit flags and values), packet splits, resets, rollovers, lost or repeated packets.',
 NOTEST+'the codec is adaptive: every code word depends on the whole history of the stream, so no finite set of vectors settles it.',
 [T+'tssc/Decoder.go',T+'tssc/PointMetadata.go',DS],[('TryGetMeasurement and its per-field decoders',T+'tssc/Decoder.go'),('ReadCode / adaptCommands: adaptive code word statistics',T+'tssc/PointMetadata.go'),('parseTSSCMeasurements: sequence handling',DS)],
 [('points, lastPoint, prevTimestamp*, prevTimeDelta*','adaptive decoder state',T+'tssc/Decoder.go')],['Decoder.TryGetMeasurement','NewMeasurementsCallback'])

p('C03','Signal index caches: right slot, right mapping, confirmed once',
 'After a publisher sends a signal index cache for one of its two slots, every later packet that designates that slot resolves signal indexes by exactly that cache (unknown indexes give the empty ID) until the slot is replaced, and the other slot is unaffected. The cache reported to the application as active is the last one received, its lookups (by index, by ID, membership, count, ID set) agree with the records sent, the assigned subscriber ID is recorded, and each accepted cache is confirmed to the publisher exactly once and reported to the application exactly once.',
 ['inputs','histories','configurations'],'All histories of cache updates for both slots interleaved with data packets, compressed or not, both GUID byte orders, protocol versions 1 and 2.',
 NOTEST+'slot mix-ups appear only in histories that alternate updates and packets over both slots.',
 [DS,T+'SignalIndexCache.go'],[('handleUpdateSignalIndexCache',DS),('decode, addRecord, lookups',T+'SignalIndexCache.go')],
 [('signalIndexCache, cacheIndex','slots and active slot',DS)],['SubscriptionUpdatedCallback','ActiveSignalIndexCache','NewMeasurementsCallback','ConfirmUpdateSignalIndexCache on the wire'])

p('C04','Commands reach the publisher as intact, whole frames under concurrency',
 'Every command the subscriber sends arrives at the publisher as one well-formed frame: 4-byte big-endian length of what follows, the command code, then the payload unaltered, whatever its size. This holds when the application and the subscriber\'s own threads send commands at the same time: frames are never mixed, lost, repeated or sent out of the order in which one caller issued them.',
 ['schedules','inputs'],'All interleavings of concurrent senders (application goroutines, confirmations from the socket thread) and all payload sizes from empty to larger than the initial buffer.',
 'No test opens a socket; the shared output buffer is only wrong under particular interleavings or for payloads beyond its size.',
 [DS,'sttp/Subscriber.go'],[('SendServerCommandWithPayload',DS),('RequestMetadata, Subscribe, confirmations',DS)],
 [('writeBuffer','shared buffer frames are built in',DS)],['bytes written to the command channel'])

p('C05','Message handling is independent of how TCP splits the byte stream',
 'However the publisher\'s byte stream is split into TCP segments, the subscriber handles exactly the same messages with the same contents and in the same order, including messages larger than its initial buffer, and a message is never merged with, lost between, or shifted into its neighbours. Commands, subscriptions and unsubscriptions issued by the application while messages arrive do not change which messages are handled; the command-channel byte count equals the bytes of the messages consumed.',
 ['inputs','schedules','histories'],'All message sequences, all segmentations, all points at which the application sends, subscribes or unsubscribes.',
 'No test reads from a socket; segment boundaries are chosen by the network, not by a test.',
 [DS],[('runCommandChannelResponseThread, readPayloadHeader, readPacket',DS),('processServerResponse',DS)],
 [('readBuffer','receive buffer, grown on demand',DS)],['all callbacks','TotalCommandChannelBytesReceived'])

p('C06','No publisher input can crash the subscriber',
 'Whatever bytes a connected peer sends - truncated, oversized, inconsistent or undefined messages of every type - the subscriber never panics: it handles the message, reports an error, or ends that connection. After ending the connection it can be connected again and then works normally.',
 ['inputs','histories'],'All byte strings framed as messages of every response code in every connection state, as sent by a faulty or hostile peer.',
 NOTEST+'the property is universal over byte strings.',
 [DS,T+'SignalIndexCache.go',T+'CompactMeasurement.go',T+'tssc/Decoder.go',T+'Common.go'],[('processServerResponse and the handlers behind it',DS)],None,['process survival','ErrorMessageCallback','ConnectionTerminatedCallback'])

p('C07','Every connection is announced once and its end is announced once',
 'In every execution the application sees connection-established and connection-terminated notifications alternate: one established notification for each connection that is set up and exactly one terminated notification when that connection ends, whether the publisher closes it, it breaks, or the application disconnects - also when these coincide. The subscriber reports itself connected from before the established notification until the connection ends, and no data from a connection is delivered after its terminated notification.',
 ['schedules','fault_sequences','histories'],'All interleavings of socket threads, peer closes, write failures, Dial/Listen/Disconnect calls and reconnects.',
 NOTEST+'duplicate or missing notifications need particular interleavings of the reader, terminator and disconnect threads.',
 [DS,T+'SubscriberConnector.go','sttp/thread/Thread.go'],[('establishConnection, disconnect, runDisconnectThread, dispatchConnectionTerminated',DS),('Thread.TryStart','sttp/thread/Thread.go')],
 [('connected, disconnecting, disconnected','lifecycle flags',DS)],['ConnectionEstablishedCallback','ConnectionTerminatedCallback','IsConnected'])

p('C08','Disconnect and Close always finish, and nothing happens afterwards',
 'In every state - idle, dialing, waiting to retry, connected, listening, already disconnecting - Disconnect called from anywhere, also from inside a callback, and Close called from any goroutine outside callbacks return, and the shutdown they start completes: sockets are closed, threads end, a pending Dial returns, without waiting for a retry delay to pass. After Close returns no connection exists, no new connection attempt is made and no measurement is delivered; after Disconnect completes nothing reconnects until the application asks, and a later Dial or Listen works as on a new subscriber.',
 ['schedules','fault_sequences','histories'],'All interleavings of shutdown requests with dialing, retry waits, socket reads, peer failures, reconnection and each other.',
 NOTEST+'hangs and late reconnects are schedule dependent (retry timer, joins between threads, lost cancel requests).',
 [DS,T+'SubscriberConnector.go','sttp/thread/Thread.go','sttp/Subscriber.go'],[('Dispose, Disconnect, disconnect, runDisconnectThread',DS),('Cancel, waitForRetry, autoReconnect',T+'SubscriberConnector.go')],
 [('cancel','request to stop connecting',T+'SubscriberConnector.go'),('waitTimer','pending retry delay',T+'SubscriberConnector.go')],['return of Disconnect/Close/Dial','callbacks','sockets'])

p('C09','Connection retries follow the configured policy, and reconnection resumes',
 'Failed connection attempts are retried with delays that start at the retry interval, double with each further failure and never exceed the maximum retry interval, until a connection succeeds, the configured maximum number of retries is used up (-1: never), or it is cancelled. When an established connection is lost and automatic reconnection is enabled, the subscriber reconnects by itself by the same policy and runs its automatic start-up (metadata request or subscription) again; when it is disabled it makes no attempt.',
 ['fault_sequences','configurations','schedules'],'All sequences of refused, dropped and accepted connections; all retry settings; all interleavings of reconnect and application calls.',
 NOTEST+'needs controlled time and failure sequences.',
 [T+'SubscriberConnector.go','sttp/Subscriber.go',DS],[('connect, waitForRetry, autoReconnect',T+'SubscriberConnector.go'),('handleReconnect, handleConnect','sttp/Subscriber.go')],
 [('connectAttempt','attempts since last reset',T+'SubscriberConnector.go')],['connection attempts and their times at the publisher','result of Dial'])

p('C10','A thread runs once per accepted start; Join waits for it',
 'For the thread helper: every accepted start runs the function exactly once, runs never overlap, a start attempted while a run is pending or in progress is refused, and a thread that has finished can be started again. Join called after a start was accepted returns only when that run has completed, and afterwards the thread is not reported as running.',
 ['schedules'],'All interleavings of Start, TryStart, Join and IsRunning from any number of goroutines.',
 NOTEST+'the property is about interleavings only.',
 ['sttp/thread/Thread.go'],[('Start, TryStart, Join, run','sttp/thread/Thread.go')],
 [('running, mutex','run state','sttp/thread/Thread.go')],['executions of the function','return values','return of Join'])

p('C11','Buffer blocks are delivered in order, exactly once, complete and confirmed',
 'Whatever the order in which a connection\'s buffer blocks arrive, and however often they are retransmitted, the application receives every block exactly once, in sequence-number order with no gaps, with the signal ID of its signal index and its complete payload. Each block is confirmed to the publisher with its own sequence number when it first arrives, and blocks of one connection never appear in the next.',
 ['inputs','histories'],'All arrival orders, losses, retransmissions, payloads, cache slots, and reconnects.',
 NOTEST+'the reordering buffer is exercised only by out-of-order histories.',
 [DS,T+'BufferBlock.go'],[('handleBufferBlock',DS)],[('bufferBlockCache, bufferBlockExpectedSequenceNumber','reorder buffer',DS)],['NewBufferBlocksCallback','ConfirmBufferBlock on the wire'])

p('C12','One metadata record per signal, filled from what the publisher sent',
 'For each connection all lookups of the same signal ID, from any goroutine, return the same record, so an update made through one is seen through every other. Received metadata and signal index caches fill in each signal\'s source, ID, tag, type, reference, description and update time as sent (a cache never overrides what metadata set); unknown signals get multiplier 1 and adder 0, and an adjusted value is value x multiplier + adder.',
 ['schedules','inputs','histories'],'All concurrent lookups, all metadata contents and orders of metadata and cache arrival.',
 NOTEST+'duplicate records need racing first lookups.',
 [DS,'sttp/Subscriber.go',T+'SignalIndexCache.go',T+'MeasurementMetadata.go'],[('LookupMetadata, Metadata, AdjustedValue',DS),('loadMeasurementMetadata','sttp/Subscriber.go'),('addRecord',T+'SignalIndexCache.go')],
 [('measurementRegistry','records by signal ID',DS)],['LookupMetadata','Metadata','AdjustedValue'])

p('C13','A measurement reader yields every measurement once, in order',
 'A measurement reader yields each measurement received since it was attached exactly once and in the order received, for any batch sizes and any mix of waiting and cancelled reads; a read whose context ends returns the completed flag and loses no measurement. Closing the reader makes pending and later reads end, and never crashes or blocks the subscriber.',
 ['schedules','inputs'],'All interleavings of incoming batches, reads, cancellations, Close and disconnect.',
 NOTEST+'losing or duplicating a measurement depends on the race between cancellation and delivery.',
 ['sttp/MeasurementReader.go','sttp/Subscriber.go'],[('newMeasurementReader, NextMeasurement, Close','sttp/MeasurementReader.go')],
 [('current','hand-over channel','sttp/MeasurementReader.go')],['NextMeasurement'])

p('C14','Set operations obey set algebra',
 'For all sets and all slices (including empty ones and ones with repeated items) the set operations - add, remove, membership, union, intersection, difference, symmetric difference, subset, superset, proper variants, equality, overlap - give the mathematical result for the set of the slice\'s items. Queries do not modify their operands and results keep no duplicates.',
 ['inputs','programs'],'All sequences of operations on sets and slices, with duplicates, empties and self-application.',
 'The tests try a handful of sets; wrong results need empty or duplicated operands, or particular operation sequences.',
 ['sttp/hashset/HashSet.go'],[('HashSet methods','sttp/hashset/HashSet.go')],None,['return values and set contents'])

p('C15','Filter expression operators compute the documented value, type and null',
 'Every well-typed filter expression built from literals, columns and the arithmetic, bit, comparison, logical, LIKE, IN, IS NULL and exact-match operators evaluates, on every row, to the value and type given by the documented rules: operator precedence, operand type widening, SQL-like null propagation and case-insensitive string comparison unless exact match is requested. Ill-typed or undefined operations (such as integer division by zero) are reported as errors, never as a crash or a silently wrong value.',
 ['programs','inputs'],'All expressions over the grammar (nesting, mixed types, nulls) and all row contents.',
 'The tests evaluate about a hundred fixed expressions; operator, type and null combinations number in the tens of thousands before nesting.',
 ['sttp/data/ExpressionTree.go','sttp/data/ValueExpression.go','sttp/data/Constants.go','sttp/data/FilterExpressionParser.go'],[('evaluateOperator, evaluateUnary, evaluateInList','sttp/data/ExpressionTree.go'),('derive*OperationValueType tables','sttp/data/Constants.go'),('conversions','sttp/data/ValueExpression.go')],None,['ExpressionTree.Evaluate','EvaluateDataRowExpression / EvaluateExpression'])

p('C16','Filter expression functions compute the documented result',
 'Every built-in function call evaluates, for all argument values, types and nulls, to its documented result: numeric functions, string functions (search, split, replace, trim, substring, case, comparison, regular expressions with their index and ignore-case options), conversions, IIf, Coalesce, IsNull tests and date/time functions. Invalid arguments are reported as errors, never as a crash.',
 ['programs','inputs'],'All functions with all argument shapes, nested in each other.',
 'Each function is tested on a few fixed strings; boundary indexes, empty strings, nulls and option combinations are not.',
 ['sttp/data/ExpressionTree.go','sttp/data/FunctionExpression.go'],[('evaluateFunction and the functions behind it','sttp/data/ExpressionTree.go')],None,['ExpressionTree.Evaluate'])

p('C17','Row selection returns the matching rows, sorted, then limited',
 'Selecting rows with FILTER [TOP n] table WHERE condition [ORDER BY terms] returns exactly the rows whose condition is true (null counts as false), ordered by the terms with their directions and exact-match options - rows equal on all terms keep table order - and limited to the first n after sorting; a negative or absent limit means all and zero means none. Selection never modifies the data.',
 ['programs','inputs'],'All tables (types, nulls, duplicates), conditions, sort term lists and limits.',
 'The tests select from one small fixed data set.',
 ['sttp/data/ExpressionTree.go','sttp/data/DataTable.go','sttp/data/DataRow.go','sttp/data/FilterExpressionParser.go'],[('Select, SelectWhere','sttp/data/ExpressionTree.go'),('CompareDataRowColumns','sttp/data/DataRow.go')],None,['DataTable.Select','DataSet select functions'])

p('C18','Signal selection returns the union of what its parts designate',
 'A signal selection made of any mix of direct signal IDs, measurement keys, point tags and filter statements, separated by semicolons, yields exactly the set of signal IDs those parts designate in the given metadata: IDs as given, keys and tags by lookup, statements by their matching rows. Each ID appears once in a set result, unknown keys and tags add nothing, and the order and spelling variants of the parts do not change the set.',
 ['programs','inputs'],'All compositions of identifier statements and filters over all metadata contents.',
 'The tests use a few fixed selections on one data set.',
 ['sttp/data/FilterExpressionParser.go','sttp/data/TableIDFields.go'],[('SelectSignalIDSet, enter/exit identifier statement listeners','sttp/data/FilterExpressionParser.go')],None,['SelectSignalIDSet','SelectSignalIDSetFromTable'])

p('C19','Loading a data set from XML reproduces tables, types and values',
 'Loading a data set from a schema-plus-data XML document yields exactly the declared tables and columns, with the declared types (and computed columns), and one row per record with every field equal to the value written in the document: text unescaped, numbers, booleans, GUIDs and times converted, missing fields null. Table and column lookup ignore case, and row accessors return the stored value, the null flag, or an error for a wrong type.',
 ['inputs','programs'],'All schemas and documents over the supported types, with missing, empty, escaped and boundary values.',
 'The tests load two sample files and check counts.',
 ['sttp/data/DataSet.go','sttp/data/DataTable.go','sttp/data/DataRow.go','sttp/data/DataColumn.go','sttp/xml/XmlDocument.go','sttp/xml/XmlNode.go'],[('ParseXmlDocument, loadSchema, loadRecords','sttp/data/DataSet.go'),('typed accessors','sttp/data/DataRow.go')],None,['DataSet.Table / Row / *Value accessors'])

p('C20','XML documents parse to the tree written; path selection finds its nodes',
 'Parsing a well-formed XML document yields the element tree as written: names, attributes, text, nesting, sibling order, parents and levels. Selecting nodes by path returns exactly the nodes the path designates, in document order, for child steps, wildcards and predicates on the existence or value of attributes and child elements; no path string makes it crash.',
 ['inputs','programs'],'All documents and all path expressions of the supported subset.',
 'The tests use one sample document and a list of paths.',
 ['sttp/xml/XmlDocument.go','sttp/xml/XmlNode.go'],[('LoadXml','sttp/xml/XmlDocument.go'),('SelectNodes','sttp/xml/XmlDocument.go')],None,['XmlDocument.SelectNodes','XmlNode accessors'])

p('C21','Timestamps convert exactly both ways over the whole range',
 'For every timestamp from year 1 to 9999, converting ticks to a calendar time and back gives the same ticks, calendar times convert to the tick count of 100-nanosecond intervals since 0001-01-01 UTC (sub-tick part dropped), and order is preserved. Leap-second flags can be set, read and cleared independently of the time value and never change the converted time.',
 ['inputs'],'All 62-bit tick values up to the maximum, all four flag combinations, all times in range.',
 'The tests check a few recent dates.',
 ['sttp/ticks/Ticks.go'],[('ToTime, FromTime, ToUnixNano, FromUnixNano, leap second accessors','sttp/ticks/Ticks.go')],None,['ticks functions and methods'])

p('C22','GUIDs survive text and byte conversions and compare as documented',
 'For every GUID, formatting then parsing, and writing to bytes then reading from bytes with the same byte-order option, give the GUID back; the swapped form exchanges exactly the first three fields\' bytes, and conversion never alters its input. Comparison is a total order consistent with equality, and malformed text or too few bytes is an error.',
 ['inputs'],'All 128-bit values, both byte orders, all text forms.',
 'The tests use a few constants.',
 ['sttp/guid/Guid.go'],[('Parse, String, FromBytes, ToBytes, Compare, Components','sttp/guid/Guid.go')],None,['guid functions'])

p('C23','Requests to the publisher carry exactly the configured settings',
 'Every subscription request is a connection string from which the publisher reads back each setting the application configured - throttling, intervals, time options, lag/lead, NaN filter, filter expression, UDP port, time constraints, extra parameters - under its key, with unset optional ones absent, and the source information. The operational-modes message that opens each connection states the configured protocol version, string encoding and compression choices (no payload compression over UDP), and metadata requests carry the configured filters.',
 ['configurations','inputs'],'All combinations of settings and configuration values.',
 NOTEST+'the request is a function of about twenty independent settings.',
 [DS,'sttp/Subscriber.go','sttp/Settings.go','sttp/Config.go'],[('Subscribe, sendOperationalModes',DS),('Subscribe, RequestMetadata, connect, listen','sttp/Subscriber.go')],None,['commands on the wire'])

p('C24','Publisher messages reach the right callback, once, with their content',
 'Every message from the publisher leads to its documented effect exactly once: notifications are delivered with their text and confirmed with their hash, data start time and end-of-playback are delivered with their value, configuration changes are signalled, metadata is delivered whole and unaltered (compressed or not, whatever arrives after it), command successes and failures are reported with their text and change the subscribed state accordingly. Unknown or idle messages have no other effect, and a connection whose first response is not the expected one, or exceeds 8 KB, is rejected.',
 ['inputs','histories','schedules'],'All message sequences and contents in every state, all schedules of asynchronous callbacks.',
 NOTEST+'content can be overwritten by later messages only under particular timings.',
 [DS,'sttp/Subscriber.go'],[('processServerResponse and handlers',DS),('handle* intermediate handlers','sttp/Subscriber.go')],
 [('subscribed, validated','session flags',DS)],['callbacks','confirmation commands on the wire'])

p('C25','Automatic start-up runs in the configured order on every connection',
 'On every connection, dialed, accepted or re-established, the subscriber first states its operational modes, then does exactly what is configured: request metadata once and subscribe once after it is received, or subscribe once at connection, or nothing; a configuration-change notice requests metadata again when automatic metadata is on. Settings given before connecting are used in the subscription, and a subscription made while connected replaces the previous one (unsubscribe first when one is active).',
 ['histories','configurations','schedules'],'All configurations, connection histories and timings of publisher responses.',
 NOTEST+'requires whole-session histories.',
 ['sttp/Subscriber.go',DS],[('handleConnect, handleReconnect, handleMetadataReceived, handleConfigurationChanged','sttp/Subscriber.go')],None,['commands on the wire, callbacks'])

p('C26','Encrypted data packets are decrypted with the designated current key',
 'After the publisher sends cipher keys, every data packet is decrypted with the even or odd key and initialization vector that the packet designates from the latest key message, and delivers exactly the measurements the publisher encrypted; packets before any key message on a connection are read in the clear. Keys of one connection are not used on the next, and data that cannot be decrypted ends the connection with an error instead of delivering measurements.',
 ['inputs','histories'],'All histories of key rotations and packets, all keys, both key slots.',
 NOTEST+'needs key rotation histories.',
 [DS,T+'Common.go'],[('handleUpdateCipherKeys, handleDataPacket',DS),('decipherAES',T+'Common.go')],[('keyIVs','current keys',DS)],['NewMeasurementsCallback'])

p('C27','Callbacks can be changed and the API used from callbacks at any time',
 'Setting or replacing receivers at any moment, from any goroutine, never loses an event (each goes to the receiver installed before or after the change) and never deadlocks. Query, logging, subscribe, unsubscribe and metadata request methods may be called from inside any callback without deadlock.',
 ['schedules'],'All interleavings of callback dispatch, receiver replacement and API calls.',
 NOTEST+'lock recursion deadlocks only when a writer arrives between two read acquisitions.',
 ['sttp/Subscriber.go',DS,T+'SubscriberConnector.go'],[('begin/end callback sync and assignment','sttp/Subscriber.go'),('BeginCallbackSync / BeginCallbackAssignment',DS)],
 [('assigningHandlerMutex','guards receivers',DS)],['callbacks, return of setters'])

p('C28','Reverse connections: one publisher at a time, next one accepted after it',
 'While listening, the subscriber serves one publisher connection at a time: a second publisher is refused and the first is undisturbed, and after a publisher\'s connection ends the next one is accepted and served like the first, any number of times. Listening continues until disconnect, after which the port is released.',
 ['schedules','histories','fault_sequences'],'All interleavings of publisher connects, drops and disconnect requests.',
 NOTEST+'needs races between accept and disconnect.',
 [DS],[('Listen, runListeningSocketAcceptThread, runDisconnectThread',DS)],[('listening','accept loop runs',DS)],['sockets, callbacks'])

p('C29','Numbers are formatted with correct digit grouping',
 'Formatting any integer or floating-point number gives its exact decimal digits (with the requested precision) with a group separator between each group of three integer digits and nowhere else, the sign first, and the requested decimal symbol; removing the separators gives the plain number back.',
 ['inputs'],'All 64-bit integers and floats, all precisions and symbols.',
 'The repository has no test of this package.',
 ['sttp/format/Common.go','sttp/format/Float.go','sttp/format/Int.go','sttp/format/UInt.go'],[('formatNumber','sttp/format/Common.go')],None,['format functions'])

p('C30','Datagrams of the data channel are handled in step with the command channel',
 'With a UDP data channel, every datagram that arrives while the channel is open is handled exactly once, in order of arrival, whatever the command channel is doing meanwhile; each packet is decoded as a whole with the signal index caches, base times and keys received so far, never with a mixture of old and new ones. The channel is open before the subscription request that names it is sent, closed when the application unsubscribes or the connection ends, and the count of bytes received on it is that of the datagrams handled.',
 ['schedules','histories'],'All interleavings of the two receive threads, application calls, and histories of messages on both channels.',
 'Two threads decode with shared state; the existing tests run no connection.',
 ['sttp/transport/DataSubscriber.go'],[('runDataChannelResponseThread','sttp/transport/DataSubscriber.go'),('openDataChannel','sttp/transport/DataSubscriber.go'),('parseCompactMeasurements','sttp/transport/DataSubscriber.go')],[('keyIVs, baseTimeOffsets, signalIndexCache','decoding state both threads use',DS),('dataChannelSocket','the data channel',DS)],['measurement and block callbacks','confirmations','byte counts','socket state'])

p('C31','Computed columns give their expression\'s value, in the column\'s type',
 'The value read from a computed column - by type, by name, as a generic value or as text, any number of times - is the value of its expression on that row, converted to the type of the column; null stays null, and computed columns may refer to each other in any order. A value that cannot be converted, an expression that cannot be evaluated and a column that is defined by itself are reported as errors, never as a crash or a wrong value.',
 ['inputs','programs'],'All expressions, row contents, column types, and ways computed columns can refer to each other.',
 'No test defines a computed column; value and column types combine to over a hundred conversions, each with its own edge cases.',
 ['sttp/data/DataRow.go','sttp/data/ExpressionTree.go'],[('getComputedValue, convertFrom*','sttp/data/DataRow.go')],None,['DataRow typed accessors, Value, ValueAsString'])
p('C32','Signal kinds, signal references and state flags read and print as defined',
 'Every signal reference of the form source-KKn gives back its source (which may contain dashes), its kind and its position, and text that is not of that form gives an unknown kind, never a crash. Each signal kind has its own acronym, from which it is read back in any letter case, its name and its signal type for voltages and currents; state flags print as the names of exactly the flags that are set.',
 ['inputs'],'All texts as signal references and acronyms, all kinds and all combinations of the 32 state flags.',
 'No test uses signal references, kinds or flag names; the text comes from publisher metadata and is unconstrained.',
 ['sttp/transport/MeasurementMetadata.go','sttp/transport/SignalKind.go','sttp/transport/Constants.go'],[('ParseSignalReference','sttp/transport/MeasurementMetadata.go'),('ParseSignalKindAcronym','sttp/transport/SignalKind.go')],None,['ParseSignalReference, ParseSignalKindAcronym, Acronym, SignalTypeAcronym, String'])
p('C33','The compact form of a measurement decodes to what was encoded',
 'For every measurement, time options and base times, the length, state byte and time offset computed for the compact form are those the protocol defines, and decoding the bytes made of them gives the measurement back: the value exactly, the time exactly (or to the millisecond when that is the resolution, and with leap-second flags when sent in full), and the state flags to the extent of the six flag groups. A time is sent as an offset exactly when it lies after the selected base time and within the reach of the offset, and every state byte read is written back unchanged.',
 ['inputs'],'All timestamps, base times, time options, values and state flags.',
 'No test covers the compact form; offsets differ in width and resolution and have boundary cases that random examples do not meet.',
 ['sttp/transport/CompactMeasurement.go'],[('GetBinaryLength, GetTimestampC2/C4, Get/SetCompactStateFlags, Decode','sttp/transport/CompactMeasurement.go')],None,['CompactMeasurement accessors and Decode'])

p('C34','A subscriber has one connection or listener; other starts change nothing',
 'At any moment a subscriber has at most one connection attempt, connection or listener: of several Dial and Listen calls at the same time one takes effect, and a call made while connected or listening returns an error at once and leaves the connection or listener, its data, its configuration and its automatic reconnection undisturbed. An address that is not a (possibly empty) host and a port from 1 to 65535 is refused without any attempt; every other address, IPv6 included, is the one that is dialed or listened at. After a start that failed, or a disconnect, the next one works.',
 ['schedules','inputs','histories'],'All interleavings of several starts, connection outcomes and losses; all addresses.',
 NOTEST+'overlapping starts need schedules, and refused starts show only in what happens later (a lost connection, the next start).',
 ['sttp/Subscriber.go',DS],[('Dial, Listen','sttp/Subscriber.go'),('Connect, Listen',DS)],[('connected, listening','connection state',DS)],['Dial, Listen, IsConnected, IsListening'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
