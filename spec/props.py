# Source of properties.jsonl and MANIFEST.json (python3 spec/gen.py).
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,technique=None,note=None,na=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,technique=technique,note=note,na=na,state=state))
STATIC='Sound up to the modelled C++ subset for the paths of the witness instantiations; trusts the clang 18 front end, the engine in /verif/engine and its idiom tables. '

prop('P01','Stream entries have consecutive indexes and strictly increasing timestamps',
 'Every accepted publish of an entry to a stream (in memory or in a file) gets the index equal to the number of entries before it and a timestamp strictly greater than every earlier entry and every head update; a publish, raw publish or head update which would break this is rejected by an exception and changes nothing. The returned index and timestamp are those of the entry as readers and the file see it. Opening an existing file accepts its entries and head directives only under the same order and continues exactly after the last one.',
 ['histories','schedules','inputs'],'all sequences of publishes, raw publishes, head updates and reopenings, with any timestamps, from any number of threads',
 'Tests publish a few entries with increasing timestamps from one thread; the guarantee is about every order of timestamps, every mix of entries and head updates, and concurrent publishers.',
 ['blocks/persistence/file.h','blocks/persistence/memory.h'],
 [('publishing an entry','file.h FilePersister::PersisterPublishImpl; memory.h MemoryPersister'),('raw publishing','PersisterPublishUnsafeImpl'),('head updates','PersisterUpdateHeadImpl'),('replay','FilePersisterImpl::ValidateFileAndInitializeHead, IteratorOverFileOfPersistedEntries::ProcessNextEntry')],
 'interprocedural path-sensitive dataflow (publish automaton, guard dominance) over clang CFGs',STATIC)
prop('P02','A publish takes effect entirely or not at all, and is in the file once reported',
 'A publish or head update which returns normally has been written, flushed and found written to the file of a persisted stream, with all the in-memory bookkeeping updated; one which throws (a bad timestamp, a failing serialization, a failing write) leaves the stream as it was for its readers. The head directive is rewritten only in place, directly after the last entry, and a file which cannot be opened, or has a malformed, misplaced or incomplete line, is rejected rather than appended to.',
 ['fault_sequences','histories','crash_points'],'all points at which a publish may throw or a write may fail, all histories of publishes and head updates, all file contents at startup',
 'No test makes a write or a serialization fail, and the tests reopen a handful of well-formed files.',
 ['blocks/persistence/file.h','blocks/persistence/memory.h'],
 [('publishing','file.h PersisterPublishImpl, PersisterPublishUnsafeImpl, PersisterUpdateHeadImpl'),('replay','ValidateFileAndInitializeHead')],
 'interprocedural typestate (write/flush/check/commit order) with exception edges over clang CFGs',STATIC+'Operations which may throw are those listed in the idiom tables (stream exceptions are off unless enabled; allocation failure is not considered).')
prop('P03','Readers see exactly the published prefix and exactly the requested range',
 'Size, emptiness, head, last entry and iteration of a stream report a state which existed at one moment, and iterating over an index range or a time range (ends inclusive, absent ends meaning unbounded) yields exactly the entries of that range, in order, each once, with their own index and timestamp, also while others publish. Ranges which are out of bounds or reversed are rejected by an exception and the internal tables of a stream are only read under its lock.',
 ['schedules','inputs','histories'],'all ranges and timestamps including the ones between, before and after entries, all interleavings with publishers',
 'Tests iterate over a few fixed ranges with no concurrent publisher.',
 ['blocks/persistence/file.h','blocks/persistence/memory.h','blocks/ss/persister.h'],
 [('ranges','Iterate, IterateUnsafe, IndexRangeByTimestampRange'),('iterators','Iterator, IteratorUnsafe, IterableRangeImpl'),('snapshot reads','Size, Empty, CurrentHead, LastPublishedIndexAndTimestamp')],
 'interprocedural dataflow over clang CFGs: lock typestate, bound-guard dominance, symbolic range transfer',STATIC)
prop('P08','The in-memory queue delivers every accepted message exactly once, in order',
 'Each message accepted by the fixed-size message queue is given to its consumer exactly once, in the order of acceptance, with consecutive indexes and strictly increasing timestamps, one at a time and with no lock of the queue held, and before the queue is destroyed. A message which is not accepted (the queue is full and dropping, or its timestamp is not greater than the previous one) changes nothing; a publisher of a blocking queue which finds it full is woken once a slot becomes free; no slot is touched by two threads at a time.',
 ['schedules','histories'],'all interleavings of any number of publishers, the consumer thread and the destructor',
 'The tests run a few schedules with sleeps; a wrong slot transition or a missed wakeup shows only under specific interleavings.',
 ['blocks/mmq/mmq.h'],
 [('slot states','MMQImpl::CircularBuffer, Entry::status'),('publish','PublishImpl / EmplaceImpl, CircularBufferAllocate'),('consumer','ConsumerThread'),('termination','~MMQImpl')],
 'interprocedural slot-typestate and lock dataflow over clang CFGs',STATIC)

prop('P09','The priority queue hands over each message once, in order, up to the head',
 'Each message published to the priority queue is kept under its own timestamp and the next index, several messages with one timestamp included, whatever the order of publishing, and publishing never moves the head; the head moves only to a greater timestamp, else the update throws and changes nothing. The consumer gets the messages once each, in the order of their timestamps and then indexes, with their own index and timestamp, only when the head has reached them, is woken by every publish and head update, and gets every message up to the head before the queue is destroyed.',
 ['schedules','histories'],'all interleavings of publishers, head updates, the consumer thread and the destructor, any timestamps',
 'The tests publish a few messages with a few schedules; a lost message or wakeup depends on the order of the timestamps and on the interleaving.',
 ['blocks/mmq/mmpq.h'],
 [('publish','PublisherPublishImpl, PublisherUpdateHeadImpl'),('consumer','ConsumerThread, Entry::operator<'),('termination','~MMPQImpl')],
 'lock, ordering and loop-protocol dataflow over clang CFGs',STATIC)
prop('P10','An owned object outlives its borrowers, each counted exactly once',
 'Each borrower of an owned object is registered under a key of its own with its own callback, is unregistered exactly once, when it is destroyed, set to null or assigned to, and hands its registration over, once, when it is moved; no sequence of copies, moves and assignments, self- and null-moves included, loses or duplicates a registration. The destructor of the owner first makes every borrower invalid, then calls the callback of each borrower registered by then with no lock held, and returns only once no borrower is left; the last borrower does not touch the object after it lets the destructor go. An object is reported as valid only while it was not moved away from and its owner is not being destroyed, and the exclusive accessors exclude each other.',
 ['schedules','histories'],'all sequences of constructions, copies, moves, assignments and destructions of owners and borrowers, on any threads',
 'The tests exercise a few sequences of borrows and moves, mostly on one thread; a lost or doubled registration shows only after a specific sequence, and a use after the destruction only under a specific interleaving.',
 ['bricks/sync/owned_borrowed.h'],
 [('registration','impl::UniqueInstance, WeakBorrowed::MoveFrom, InternalUnRegister'),('borrowers','Borrowed, BorrowedWithCallback, BorrowedOfGuaranteedLifetime'),('owner','Owned, ~UniqueInstance')],
 'linear-resource (typestate) analysis of the keys of the borrowers and lock dataflow over clang CFGs',STATIC)
prop('P11','Waitable atomics and termination signals lose no change and no client',
 'The data of a waitable atomic is read and written only under its mutex, every change of it is followed by a notification of all the waiters, and a wait reports success only if its predicate was seen to hold under the mutex, and goes on only if it was seen not to hold and the object is not being destroyed. An intrusive waitable atomic counts each of its clients exactly once, refuses new ones once it is being destroyed, and its destructor tells every waiter and returns only when there is no client left, the last of which does not touch it any more. A termination signal notifies every waiter after it was set, a wait for it ends only if it was set or the condition of the wait holds, and a bulk notifier notifies each signal registered with it.',
 ['schedules','histories'],'all interleavings of readers, writers, waiters, clients and destructors, for any data and predicates',
 'Lost wakeups, torn reads and use after destruction show only under specific interleavings; the tests sample a few with sleeps.',
 ['bricks/sync/waitable_atomic.h','bricks/util/waitable_terminate_signal.h'],
 [('accessors','WaitableAtomicImpl::BasicImpl'),('clients','WaitableAtomicImpl::IntrusiveImpl, IntrusiveClient'),('signals','WaitableTerminateSignal, WaitableTerminateSignalBulkNotifier')],
 'lock, notification and counter dataflow over clang CFGs',STATIC)
prop('P31','A stream subscriber gets every entry once, in order, until done or terminated',
 'A subscription to a stream, checked or unchecked, to the entry type or to one case of it, passes to its subscriber every entry from the index it begins at, each once, in order, with its own index, and every later head update, and passes nothing after the subscriber has replied Done or accepted a termination. It waits only when there is nothing new to pass, is woken up by every publish, head update and termination request, asks its subscriber to terminate at most once, and calls it with no lock of the stream held. The destructor of the subscription scope signals the thread and joins it, and the done callback is called once, after the last call to the subscriber.',
 ['schedules','histories'],'all interleavings of publishers, head updates, terminations and subscribers, with any replies of the subscriber',
 'Tests subscribe with a few entries and rely on sleeps; a skipped entry, a lost wakeup or a delivery after Done appears only under specific interleavings of publishing, waiting and terminating.',
 ['stream/stream.h'],
 [('delivery','stream.h Stream::SubscriberThreadInstance::ThreadImpl, PassEntriesToSubscriber, PassEntriesToSubscriberUnsafe'),('termination','~SubscriberThreadInstance, Thread'),('wake up','StreamPublisherImpl')],
 'interprocedural path-sensitive dataflow (delivery automaton over symbolic ranges, wait-condition completeness) over clang CFGs',STATIC+'That the ranges returned by the persister contain exactly the requested entries is P03.')

prop('P07','Only the master stream gives out its publisher; a flip moves it entirely or not',
 'A stream gives out a publisher only while it is the master, and every change of its authority first takes its publisher away and waits for all who hold it, so at most one publisher of a stream exists at any time. A follower is given the publisher and follows from the end of the stream; a flip gives the authority away only to a request with the right secret key, after sending all entries and the head which the requester lacks, and a flip or a following which fails leaves the authority where it was.',
 ['schedules','histories','fault_sequences'],'all orders and interleavings of flips, followings, publishers and failures of the remote side',
 'Tests flip a few streams one at a time; two requests at once, a refused diff or an unreachable remote at a particular moment is not tried.',
 ['stream/stream.h','stream/replicator.h'],
 [('authority','stream.h Stream::RecreatePublisher, BecomeMasterStream, BecomeFollowingStream, BorrowPublisher'),('flip','replicator.h MasterFlipController::MasterFlipRequest, FlipToMaster, FollowRemoteStream, ValidateAndSendDiff')],
 'interprocedural typestate of the publishing authority, with exception edges, over clang CFGs',STATIC+'That destroying an owned publisher waits for its borrowers is P10.')
prop('P32','A follower receives every entry of the remote stream once, in order',
 'A subscription to a remote stream passes each received line to its subscriber exactly once, in order, however the lines are split into chunks; in the checked mode it passes only the entry with the expected index and nothing before the timestamp asked for. After a broken connection or a malformed line it subscribes again from the first entry not passed, discarding the incomplete line, having checked the schema; it ends only when the subscriber replies Done or accepts a termination, and its thread is then joined and its done callback called once. A replicator publishes exactly what it was passed, with the original timestamp.',
 ['inputs','fault_sequences','schedules'],'all ways the data can be split into chunks, all points where the connection may break, all interleavings with the termination',
 'Tests replicate over a healthy local connection, with chunks as the server happens to send them.',
 ['stream/replicator.h'],
 [('lines','RemoteStreamSubscriber::PassChunkToSubscriber, PassEntryToSubscriber'),('thread','RemoteSubscriberThread::ThreadImpl, Thread, OnChunk'),('publishing','StreamReplicatorImpl')],
 'interprocedural path-sensitive dataflow (framing and resume automata) over clang CFGs',STATIC+'That the HTTP client passes the bytes received in order is assumed.')

prop('P12','Rolling back a storage transaction restores exactly the previous state',
 'Whatever the entries and however the mutations of a transaction follow one another, when it is rolled back every container has the entries, the indexes by row and column and the times of the last modifications it had before the transaction, and nothing of the transaction is left in the journal. The undo functions run once each, in the reverse order, and use only what they have captured by value.',
 ['inputs','histories'],'all states of all eight kinds of containers, all sequences of adds, erases and patches, all conflicts by row and column',
 'Tests roll back a few transactions on a few containers and look mostly at the entries, not at the times of the erased ones or the indexes.',
 ['storage/container/dictionary.h','storage/container/many_to_many.h','storage/container/one_to_many.h','storage/container/one_to_one.h','storage/base.h'],
 [('mutators and undo functions','storage/container/*.h Add, Erase, EraseRow, EraseCol, Patch'),('journal','storage/base.h MutationJournal')],
 'symbolic effect analysis of the mutators and of the undo functions they log, over clang CFGs',STATIC+'The maps of the standard library behave as documented; a local update is judged slot by slot, where slots are the keys occurring in the function.')
prop('P13','The indexes of storage containers agree, and one-to-X conflicts are resolved',
 'After each mutator and each replayed event of a storage container, its map of the entries, its index by row and its index by column hold the same entries with the current addresses, no row or column without entries is left, at most one entry has a given row (column) where the container is one-to-one (or one-to-many by column), and an entry present has a time of its last modification. The lookups report what the maps hold.',
 ['inputs','histories'],'all states of all eight kinds of containers, all entries and conflicts',
 'Tests add and erase a few entries in a few orders.',
 ['storage/container/dictionary.h','storage/container/many_to_many.h','storage/container/one_to_many.h','storage/container/one_to_one.h','storage/container/common.h'],
 [('invariants','DoUpdateWithLastModified, DoEraseWithLastModified, DoEraseWithoutTouchingLastModified'),('lookups','Has, operator[], Get, Row, Col, Rows, Cols, LastModified')],
 'inductive invariant check by symbolic effects of each mutator and event handler, over clang CFGs',STATIC+'The maps of the standard library behave as documented.')
prop('P14','A storage transaction is committed once or rolled back, and so reported',
 'A transaction runs under the publishing mutex, a read-write one only while the storage is the master, and calls its function once; when the function returns its journal is persisted exactly once before the caller is told it was committed or a second function runs; when it throws everything is rolled back once, nothing is persisted, and the caller gets the rollback or the exception. The future is fulfilled exactly once, a failure to persist is never reported as success, and what was persisted is never reported as rolled back.',
 ['histories','schedules','fault_sequences'],'all kinds of transactions, all points at which the functions of the user or the persister may throw, all threads',
 'Tests throw a few exceptions from a few kinds of transactions; two-step and void transactions and failures of the persister are hardly sampled.',
 ['storage/storage.h','storage/transaction_policy.h'],
 [('transactions','storage.h StorageImpl::ReadWriteTransaction, ReadOnlyTransaction'),('policy','transaction_policy.h Synchronous::TransactionFromLockedSection, PersistJournal')],
 'interprocedural typestate with exception edges and lock dataflow over clang CFGs',STATIC)
prop('P16','Replaying the persisted mutations of a storage gives the same storage',
 'Each mutator of each storage container logs events such that replaying them, in order, in the state before it, gives the state the mutator itself leaves: the same entries, the same indexes, the same times of the last modifications of present and erased entries.',
 ['inputs','histories'],'all states of all eight kinds of containers, all entries, conflicts and patches',
 'Tests replay a few logs and compare the entries, hardly the times of erased ones or several conflicts at once.',
 ['storage/container/dictionary.h','storage/container/many_to_many.h','storage/container/one_to_many.h','storage/container/one_to_one.h'],
 [('mutators','Add, Erase, EraseRow, EraseCol, Patch'),('handlers','operator()(const UPDATE_EVENT&), operator()(const DELETE_EVENT&), operator()(const PATCH_EVENT&)')],
 'symbolic effect analysis: effects of the logged events compared with the effects of the mutator, over clang CFGs',STATIC+'The maps of the standard library behave as documented.')
prop('P34','The persister of a storage loses, repeats and reorders no transaction',
 'A transaction which changed something is published once, with all its mutations in order, its own meta and one timestamp, and nothing of its journal is left for the next one. A storage which starts or follows applies every mutation of every transaction in the stream, once and in order, under the publishing mutex, and the flip to the master ends the subscription, then replays exactly what it has not replayed, before any other publisher.',
 ['histories','schedules','crash_points'],'all histories of transactions and other entries of the stream, all interleavings of replay, transactions and the flip',
 'Tests flip and replay a few transactions with sleeps; the races of the replay with transactions and the flip are not sampled.',
 ['storage/persister/stream.h','storage/storage.h'],
 [('persisting','StreamStreamPersisterImpl::PersistJournalFromLockedSection'),('replay','SyncReplayStreamFromLockedSectionOrConstructor, ApplyMutationsFromLockedSectionOrConstructor, StreamSubscriberImpl'),('flip','BecomeMasterStorage')],
 'loop-coverage automata, typestate and lock dataflow over clang CFGs',STATIC)
prop('P18','One response per HTTP request',
 'Each accepted request gets exactly one response: a second attempt throws, a request left unanswered gets the 500, a malformed one its error, one without a route the 404, and a moved-from Request sends nothing. No exception of the network, of a handler or of the parser ends the server thread. A chunked response is, whatever is cached or flushed, the chunks in order, each with its size, ended by one zero chunk, and its cache never overflows.',
 ['inputs','histories'],'all sequences of responses, moves, chunks and flushes, all failures of the network',
 'Tests answer each request once, in the intended way; double answers, failures of writing and odd sizes of chunks are hardly sampled.',
 ['bricks/net/http/impl/server.h','blocks/http/request.h','blocks/http/impl/posix_server.h'],
 [('connection','GenericHTTPServerConnection'),('chunks','ChunkedResponseSender::Impl::SendImpl, ~Impl'),('request','Request::operator(), Request::Request'),('server thread','HTTPServerPOSIX::Thread'),('parser','GenericHTTPRequestData')],
 'typestate of the connection with exceptional paths, and symbolic output of the chunk sender, over clang CFGs',STATIC+'Exceptions which handlers let out derive from current::Exception.')
prop('P35','An HTTP response carries the given code, headers, content type and body',
 'Whichever overload sends a response, what is written is the status line of the given code, one line for each given header and cookie, the given content type, the exact length of the given body, a blank line and the body, with the documented defaults for what is not given. A Response keeps what it is given, sends it once, with the CORS header exactly if it is enabled, and sends nothing if it was given nothing.',
 ['inputs'],'all overloads, all codes, headers, cookies, content types and bodies',
 'Tests use some overloads with some of the arguments, mostly with the defaults.',
 ['bricks/net/http/impl/server.h','blocks/http/response.h'],
 [('sending','HTTPResponder::SendHTTPResponse, SendHTTPResponseImpl, PrepareHTTPResponseHeader'),('chunked','SendChunkedHTTPResponse'),('response','Response::Construct, setters, DoRespondViaHTTP')],
 'symbolic output: the text written, piece by piece, over clang CFGs, with an automaton for the lines of the header',STATIC)

prop('P20','HTTP requests reach the most specific registered route',
 'A request is given to the handler registered for the longest prefix of its path, component by component, with exactly the number of components beyond it as decoded arguments, and to none only if no prefix matches. Registration either throws and changes nothing or sets every argument count of its mask, never silently replacing a route unless asked to, and the returned scope removes just those. The routes are only touched under their mutex, which is not held while a handler being removed is waited for.',
 ['inputs','schedules'],'all paths, masks, sequences of registrations, and interleavings with requests',
 'Tests register a few routes, with few argument counts, and rarely unregister while requests are served.',
 ['blocks/http/impl/posix_server.h'],
 [('lookup','HTTPServerPOSIX::FindHandler'),('registration','DoRegisterHandler, Register, UnRegister'),('mutex','mutex_, retired handlers'),('start','thread_ is constructed last')],
 'typestate over clang CFGs: the cursor of the lookup, the bit of the mask in step with the count; lock sets; order of construction',STATIC)

prop('P22','Parsing JSON fills the destination or throws a JSON exception',
 'Whatever the text, parsing it into a reflected type either fills the destination from exactly the values in the JSON, each element once, in order and at its place, with nothing of an earlier value left, or throws an exception of the JSON parser because the text is not JSON or a value does not match the type. No value is looked at as another type, beyond the end of an array, or where a member does not exist, and no number is narrowed to a type it does not fit. When patching, a value absent from the JSON changes nothing and is not an error, and every entry point parses the text given, in the format asked for, and checks the result for uninitialized variants.',
 ['inputs','programs'],'all JSON texts; all types built of those the deserializers handle',
 'Tests parse a few well-formed texts, and fewer malformed ones, into a few types.',
 ['typesystem/serialization/json'],
 [('deserializers','DeserializeImpl<json::JSONParser<...>, T>::DoDeserialize'),('variants','JSONVariantPerStyle, JSONVariantCase*'),('parser','JSONParser: constructor, Inner'),('entry points','ParseJSON, TryParseJSON, PatchObjectWithJSON')],
 'symbolic dataflow over clang CFGs of each deserializer, per type and format: type facts before each accessor, provenance of what is stored, element typestate',STATIC)

def na(id,title,statement,over,qtext,why,files,mech,reason): prop(id,title,statement,over,qtext,why,files,mech,na=reason)
na('N01','Serializing a value to JSON and parsing it back yields the same value',
 'For every reflected type and every value of it, parsing the JSON, binary or FlatBuffers-less serialization of the value in a given format yields an equal value, in each format that format supports.',
 ['inputs','programs'],'all user-defined types and all their values','Tests round-trip chosen values of chosen types.',
 ['typesystem/serialization'],[('JSON','typesystem/serialization/json'),('binary','typesystem/serialization/binary.h')],
 'Equality of values after a round trip quantifies over unbounded run-time strings and numbers handled by rapidjson and iostreams; no sound static argument over the C++ source in reach decides value equality. The structural part (type checked before access, errors thrown, format forwarded) is claimed separately.')
na('N02','Distinct reflected types have distinct type identifiers',
 'Two structurally different types never get the same type identifier, and the same type always gets the same one.',
 ['programs'],'all user-defined types','Tests compare identifiers of a few types.',
 ['typesystem/reflection'],[('type ids','typesystem/reflection/types.h')],
 'Type identifiers are 64-bit hashes: injectivity over all programs is false in principle and its probability is not a static fact.')
na('N03','Automatic differentiation returns the gradient of the given function',
 'For every function built from the supported operations the computed gradient equals its mathematical derivative, and the JIT-compiled function equals the interpreted one.',
 ['inputs','programs'],'all expressions and all points','Tests check chosen functions at chosen points up to a tolerance.',
 ['fncas'],[('differentiation','fncas/fncas')],
 'Numeric equality of floating-point expressions over all inputs is beyond dataflow, lint or type-level argument.')
na('N04','Text algorithms (edit distance, compact TSV, TF-IDF) compute their definitions',
 'The numeric and textual results of the text processing utilities equal their mathematical definitions on every input.',
 ['inputs'],'all input strings','Tests use a few strings.',
 ['nlp','compact_tsv','bricks/strings/distance.h'],[('algorithms','nlp/nlp.h, compact_tsv/compact_tsv.h')],
 'Functional correctness over unbounded run-time strings; a static rule could only restate the implementation.')
na('N05','Numbers and percent-encoded strings convert to text and back unchanged',
 'Encoding then decoding a URL component, and printing then parsing a number, is the identity.',
 ['inputs'],'all strings and numbers','Tests use a few values.',
 ['blocks/url/url.h','bricks/strings'],[('URL encoding','blocks/url/url.h')],
 'Value equality over run-time strings; only the character-signedness part is statically decidable and is claimed separately.')
