CC = "reverb/cc/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[(CC + f if not f.startswith("reverb/") else f) for f in files], mech=mech, tech=tech, note=note, na=na))


NOTE = ("Decided for every control-flow path (helpers and lambdas inlined) of the listed functions, with syntactic "
        "path facts; trusts clang's CFG and the documented behaviour of absl/protobuf/gRPC/TF. ")

prop("P01", "Rate limiter admits exactly the documented inserts and samples",
     """A sample may proceed exactly when enough items have been inserted (inserts minus deletes at least the minimum size)
     and the insert/sample difference after it stays at or above the minimum; an insert may proceed exactly when the table
     would not exceed the minimum size with it or the difference after it stays at or below the maximum. The parameters
     used are those the limiter was constructed or restored with.""",
     ["inputs", "histories", "configurations"],
     "every value of the counters and parameters, every constructor (explicit, checkpoint)",
     "the unit tests evaluate the predicates at a handful of parameter and counter values",
     ["rate_limiter.cc", "rate_limiter.h"],
     [("admission predicates", "RateLimiter::CanSample / CanInsert"), ("constructors", "RateLimiter::RateLimiter")],
     "symbolic path summaries of the two predicates, normalised to polynomials over the counters and compared with the specified formula; typestate of the constructors' initialisers",
     NOTE + "Overflow and floating point rounding of the products are outside the rule.")

prop("P02", "Rate limiter counts every operation once and never loses a wake-up",
     """Each admitted insert, sample, delete and reset changes exactly its own counter once, a rejected or timed-out operation
     changes none. An operation waits only on its own condition, returns OK only when its predicate holds and the limiter is not cancelled,
     and returns the timeout error only after a wait for the caller's timeout expired. After every counter change every waiter
     whose condition may have become true is woken, and cancelling wakes everybody.""",
     ["schedules", "histories"],
     "every path of every limiter operation, hence every interleaving at the granularity of the limiter's lock",
     "missed wake-ups and double counting need a particular interleaving of waiters and a particular history of counters",
     ["rate_limiter.cc", "rate_limiter.h"],
     [("await operations", "RateLimiter::AwaitCanInsert / AwaitAndFinalizeSample"), ("wake-ups", "RateLimiter::MaybeSignalCondVars / Cancel")],
     "typestate over all CFG paths (counter effect table, predicate established since last wait, write-then-signal obligation)",
     NOTE)

prop("P03", "Items, sampler, remover and episode counts of a table always agree",
     """Whenever another thread can observe a table, its stored items, the keys and priorities known to its sampler, those known to its
     remover, and the per-episode reference counts describe the same set of items: an item is added to, removed from or updated in all of
     them or in none, also when a selector rejects a priority. An episode is counted as deleted exactly when the last item
     chunk that references it goes away.""",
     ["schedules", "histories", "inputs"],
     "every operation, every outcome of the selectors, every point where the table lock is released",
     "the tests observe sizes after a few successful operations; rejected priorities, partial failures and lock releases in the middle of an operation are not sampled",
     ["table.cc", "table.h"],
     [("insert", "Table::InsertOrAssign / InsertOrAssignInternal / InsertCheckpointItem"), ("delete/update", "Table::DeleteItem / UpdateItem"), ("selectors", "Table::InsertIntoSelectors")],
     "abstract interpretation of every table operation as a set of per-item transactions; at each lock release and loop iteration the accumulated effects per item key must form an allowed transaction",
     NOTE + "Assumes (inductively) that deleting a present key from a selector succeeds and that items reference at least one chunk.")

prop("P04", "A table never holds more than its maximum number of items",
     """A new item is followed, before any other thread can see the table, by a comparison of the size with the maximum and, exactly when it is
     exceeded, by the removal of one item chosen by the remover; no other operation evicts. Items restored from a checkpoint are only accepted
     into free capacity and under keys that are not yet present.""",
     ["schedules", "histories", "configurations"],
     "every path that stores an item, every table size and maximum",
     "the tests exercise eviction with two or three table sizes through one of the insert paths",
     ["table.cc"],
     [("eviction", "Table::InsertOrAssign / InsertOrAssignInternal"), ("restore", "Table::InsertCheckpointItem")],
     "same per-item transaction analysis as P03: capacity typestate (undecided/over/evicted) with polarity- and off-by-one-exact comparison of size and maximum",
     NOTE)

prop("P05", "Table operations are accounted to the rate limiter exactly once",
     """Every new item counts as one insert and every removed item as one delete in the rate limiter, in the same critical section; a new item is only stored
     under an admission obtained while the lock has been held ever since and after its key was found absent. Every committed sample is served before the lock is
     released and no item is sampled without a commitment; resetting a table resets the limiter with the data.""",
     ["schedules", "histories"],
     "every path of every table operation between two releases of the table lock, every outcome of waits",
     "an insert that turns into an update while waiting, failures after the admission and batch sampling are interleavings tests do not enumerate",
     ["table.cc", "rate_limiter.cc"],
     [("insert accounting", "Table::InsertOrAssign / InsertOrAssignInternal / DeleteItem"), ("sample accounting", "Table::SampleFlexibleBatch / TableWorkerLoop"), ("reset", "Table::Reset")],
     "per-item transaction analysis as P03 with admission and commitment tokens consumed by inserts and samples and voided by lock releases",
     NOTE)

prop("P06", "Samples carry the sampled item's true data and are counted once",
     """A sample reports the item the sampler chose, the probability the sampler returned with it, the table size before any removal, the item's priority, its sample
     count including this sample, and whether the request had to wait. The item's sample count grows by exactly one, the unique counter exactly for first samples, and the item is removed exactly when its count reaches
     the configured maximum; a request never samples more items than its batch size.""",
     ["histories", "schedules", "configurations"],
     "every sampling path (synchronous, table worker), every count and maximum, every batch size",
     "tests check the fields for a few samples of small tables and mostly one path",
     ["table.cc"],
     [("synchronous sampling", "Table::SampleFlexibleBatch"), ("worker sampling", "Table::SampleInternal / TableWorkerLoop")],
     "per-item transaction analysis as P03: canonical terms of each reported field, increment and removal decisions per sampled key",
     NOTE + "The waited flag of the table worker's path is not decided (it is an approximation by design).")

prop("P07", "Every queued insert and sample of an asynchronous table is answered once",
     """A sample request handed to the table worker is completed exactly once: with OK only when its batch is full, otherwise with the timeout or cancellation error, and it is not touched afterwards; queued inserts are not dropped unless the table is closed. The worker sleeps only after checking, without releasing the lock in between, that nothing was queued, mutated, closed or stopped, that the work in hand cannot proceed, and at most until the earliest deadline; everything that queues, mutates, resets, closes or stops wakes it. An inserter is told to wait exactly when it is registered for a notification, and every one registered is notified when the queue is taken or the table is closed.""",
     ["schedules", "histories"],
     "every path of the worker loop, of the producers and of shutdown",
     "lost wake-ups and double completion depend on where the worker is when a producer runs",
     ["table.cc", "table.h"],
     [("worker", "Table::TableWorkerLoop"), ("producers", "Table::EnqueSampleRequest / InsertOrAssignAsync / MutateItems / Reset / Close / ~Table")],
     "typestate over all paths of the worker loop (observations before each sleep, idle/progress order domain, expiry scan, request ownership), wake-up obligation after each producer write, told-to-wait versus registered equivalence",
     NOTE)

prop("P08", "Blocking waits recheck their condition and shutdown wakes and joins",
     """Every wait on a condition variable happens in a loop that re-evaluates its condition under the same lock after waking up, and where the component has a stop or close flag, the flag is found unset in the same critical section before each wait. Whoever sets such a flag, frees space or completes the data a waiter waits for then wakes the waiters. A destructor or stop operation sets the flag before it joins the threads it owns, and every thread owned is joined; a table's worker is joined before the extension worker it feeds is stopped.""",
     ["schedules"],
     "every condition wait and every stop/close/cancel/destructor in the C++ library",
     "a missed stop wake-up hangs only in one interleaving",
     ["table.cc", "rate_limiter.cc", "sampler.cc", "trajectory_writer.cc", "task_worker.cc", "support/queue.h", "support/unbounded_queue.h", "support/task_executor.h"],
     [("waits", "every CondVar wait / Mutex::Await"), ("shutdown", "destructors, Close, Cancel, Stop")],
     "control-flow query on every condition wait (enclosing loop, condition and stop flag read in the waiting critical section) plus write-then-signal and flag-before-join typestate over every path of the setters, stop operations and destructors",
     NOTE)

prop("P09", "Shared state is only accessed with its lock held",
     """Every access to state that the code declares as protected by a mutex happens with that mutex held, on every path, in every function including lambdas run on other threads; no reference to such state is used after its lock was released; state under a reader lock is not modified. State shared between threads is protected by a mutex, atomic, or never written after the threads start, and the set of state declared protected does not shrink.""",
     ["schedules"],
     "every access in every function of the C++ library that clang's analysis covers",
     "data races manifest in rare schedules and the regular tests run without a race detector",
     ["table.h", "rate_limiter.h", "trajectory_writer.h", "sampler.h", "chunker.h", "task_worker.h", "support/queue.h", "chunk_store.h", "writer.h"],
     [("annotations", "ABSL_GUARDED_BY / ABSL_EXCLUSIVE_LOCKS_REQUIRED")],
     "flow-sensitive lock-set analysis of every member access (lambdas analysed where they run) against the declared guards and a pinned inventory of guarded state; escape query for references returned or kept past the critical section; thread-entry reachability for unguarded fields",
     NOTE)

prop("P10", "Lock acquisition order is acyclic and no callback runs under the table lock",
     """No two threads can wait for each other's locks: the relation 'acquired while holding' between the library's mutexes has no cycle and no lock is acquired again by a function that already holds it. No user callback, RPC, thread join, file access or wait on another component happens while a table, sampler, writer or service lock is held, except waits on the lock's own condition variables.""",
     ["schedules"],
     "every lock acquisition reachable while another lock is held",
     "a deadlock needs two threads in two particular critical sections at once",
     ["table.cc", "rate_limiter.cc", "trajectory_writer.cc", "sampler.cc", "chunker.cc", "reverb_service_impl.cc"],
     [("lock sites", "absl::MutexLock and Mutex::Lock call sites")],
     "interprocedural lock-set analysis over the call graph; cycle search in the resulting order graph; blocking-effect query for every call under a held lock",
     NOTE)

prop("P11", "A checkpoint is complete on disk before it is marked complete",
     """Saving creates the marker file that makes a checkpoint valid only after every table and every chunk of the tables it was given has been written and both files closed, all successfully; it reports success only if nothing failed, the marker exists and the reported path is the directory written. Older checkpoints are removed only after that, oldest first, and never one of the keep_latest newest complete ones. The Checkpoint RPC reports the outcome of saving and refuses when the server has no checkpointer.""",
     ["crash_points", "fault_sequences"],
     "a crash or I/O failure at any point of a save",
     "the tests save to a healthy disk and load the result",
     ["platform/tfrecord_checkpointer.cc"],
     [("save", "TFRecordCheckpointer::Save")],
     "typestate over all paths of Save and of the RPC handler (writers, writes, closes, marker, removal, status of every I/O call); the guard of the removal is evaluated for small numbers of complete and incomplete directories",
     NOTE)

prop("P12", "Only complete checkpoints are loaded and only absence permits a fallback",
     """A checkpoint's files are read only after its completion marker was found in the same directory; the newest complete checkpoint is the one loaded and the outcome of loading it is reported; every failing open, read or parse makes loading fail, only the end of a file ends reading it. A server falls back to another checkpoint only when none was found, and does not start when loading failed. Every kind of record is read from the file it was written to.""",
     ["crash_points", "fault_sequences", "histories"],
     "every content of the checkpoint directory, every failing read",
     "the tests load checkpoints that a successful save has just written",
     ["platform/tfrecord_checkpointer.cc", "platform/server.cc", "reverb_service_impl.cc"],
     [("load", "TFRecordCheckpointer::Load / LoadLatest / LoadFallbackCheckpoint"), ("initialise", "ReverbServiceImpl::Initialize")],
     "status typestate over all paths of the load functions and of both services' Initialize",
     NOTE)

prop("P13", "A checkpoint captures every field that restoring a table needs",
     """Everything that determines a table's future behaviour - name, sizes, limits, signature, rate limiter parameters and counters, selector options, statistics, items with their chunks - is written into its checkpoint from one consistent state and restored to the same place: no field of the checkpoint messages is left unset by saving, ignored by loading or restored to a different member. All items are restored, in the order in which they were inserted and with all chunks of their trajectories, before the restored table replaces the table of its name. An item's insertion time is taken in the critical section that inserts it and kept when it is restored.""",
     ["histories", "configurations"],
     "every field of the checkpoint messages, every table configuration",
     "tests compare the fields somebody thought of",
     ["table.cc", "rate_limiter.cc", "platform/tfrecord_checkpointer.cc"],
     [("table", "Table::Checkpoint"), ("limiter", "RateLimiter::CheckpointReader"), ("restore", "TFRecordCheckpointer::Load")],
     "field-coverage dataflow: for each field of the checkpoint messages (read from the .proto), the member it is saved from on every path must equal the member that the loading code's constructor, setter or delegated constructor stores it in; typestate over the item and chunk loops of both sides; the comparator is evaluated on all order patterns of seconds and nanos",
     NOTE)

prop("P14", "Selector configuration survives a checkpoint round trip",
     """The options a selector reports name exactly one kind - its own, no other selector class uses it -, carry the value of each of its parameters, and say it is deterministic exactly if its sampling draws no random number. Building a selector from those options (as loading a checkpoint does) yields the same class, with the same parameter values. Every selector kind can be restored.""",
     ["configurations"],
     "every selector class and parameter value",
     "the tests round-trip the selectors that existed when they were written, with one parameter value",
     ["selectors/fifo.cc", "selectors/lifo.cc", "selectors/uniform.cc", "selectors/prioritized.cc", "selectors/heap.cc", "platform/tfrecord_checkpointer.cc", "table.cc"],
     [("options", "ItemSelector::options overrides"), ("factory", "MakeDistribution"), ("pattern", "selectors/*")],
     "abstract evaluation of options() and of the factory per selector class; the composition must be the identity on kind and parameters",
     NOTE)

prop("P15", "Selectors reject bad operations without changing and stay consistent",
     """Insert fails exactly for a key that is present, update and delete exactly for one that is not (the prioritized selector also refuses negative and NaN priorities); a failed operation leaves the selector as it was. After every successful operation all of its internal containers (map, list, vector, heap, sum tree) agree on the set of keys, on where each key sits and on its weight, and clearing empties all of them.
     Sampling then returns the key the kind promises - FIFO the oldest, LIFO the newest, heap the lowest (or highest) priority with ties broken by the earliest update, uniform any key with equal probability - and reports its probability.""",
     ["inputs", "histories"],
     "every selector class, every key and priority (also duplicate, missing, negative, NaN)",
     "tests check the returned status, not the state left behind by a rejected operation",
     ["selectors/fifo.cc", "selectors/lifo.cc", "selectors/uniform.cc", "selectors/prioritized.cc", "selectors/heap.cc"],
     [("operations", "Insert / Update / Delete / Clear overrides")],
     "path exploration of each operation: no container write precedes an error return (or is undone), successful paths change each container by the same key",
     NOTE)

prop("P16", "Inserted items always reference live, matching chunks",
     """An item enters a table only if every chunk its trajectory refers to was received on the same stream and is kept alive by the item (each exactly once, in the order of the references); the table itself accepts only a non-empty trajectory whose chunks equal, one by one, those it refers to. Received chunks stay available until a request says that they need not be kept. A request whose item refers to unknown chunks is rejected without changing any table.""",
     ["inputs", "histories", "schedules"],
     "every insert path (legacy stream, asynchronous stream, checkpoint), every order of chunks and items",
     "tests send well-formed requests in the order the writers produce",
     ["reverb_service_impl.cc", "reverb_service_async_impl.cc", "table.cc", "chunk_store.cc", "platform/tfrecord_checkpointer.cc"],
     [("validation", "CheckItemValidity"), ("lookup", "GetItemWithChunks / ChunkStore::Get")],
     "path-sensitive typestate over both insertion paths (chunk loop / reference loop / insertion / release), provenance of keys and chunks incl. use after move, dominance of the validity check, loop-coverage analysis of GetChunkKeys and CheckItemValidity",
     NOTE)

prop("P17", "Chunk data lent to an outgoing message is taken back before the message dies",
     """Data (chunks, items, parts of items) that is lent, not copied, to an outgoing request or response is detached from it again on every path before that message is destroyed, cleared, overwritten or reused, without being freed; and whatever owns the data is kept alive until the last message it is lent to has been sent and destroyed. So shared chunks are neither freed twice nor used after being freed.""",
     ["histories", "fault_sequences", "schedules"],
     "every path including send failures and cancelled streams",
     "double frees on error paths need a stream failure at a particular message",
     ["writer.cc", "trajectory_writer.cc", "sampler.cc", "reverb_service_impl.cc", "reverb_service_async_impl.cc", "support/grpc_util.h"],
     [("lending", "unsafe_arena_set_allocated / AddAllocated sites"), ("taking back", "UnsafeArenaRelease / ReleaseLast sites")],
     "typestate of lent sub-messages: every lend site (UnsafeArenaAddAllocated / set_allocated_*) in the program is resolved to its holder through aliases, helpers and loops; the holder's destructor and every local message are explored on all paths for release of each lent kind, of every element, before any freeing operation; owner-outlives rule for queued responses and for the writer's queue",
     NOTE)

prop("P18", "Streaming RPC reactors finish exactly once and outlive their callbacks",
     """Every streaming call handled by the asynchronous server is finished exactly once: for every order of reads, writes, cancellations and table callbacks, at most one read and one write (and one sampling request) is outstanding, nothing is started after the stream was finished, success is reported only after the client stopped sending, queued responses are always on their way, and a stream that has not been finished always waits for something. The reactor is destroyed once, after gRPC is done with it and after every callback registered with a table has ended. Every unary call is finished exactly once and its messages are not touched afterwards.""",
     ["schedules", "fault_sequences"],
     "every sequence of read/write/cancel/done events and every outcome of the handlers",
     "double finish and use after free need particular client misbehaviour and timing",
     ["reverb_service_async_impl.cc", "reverb_server_reactor.h", "reverb_server_table_reactor.h"],
     [("reactors", "ReverbServerReactor / ReverbServerTableReactor and subclasses")],
     "typestate of each reactor class as an abstract transition system read off the source: every reaction and callback is interpreted over abstract reactor states (flags, queue length, outstanding operations, callbacks), split at lock acquisitions, to a fixpoint over all their interleavings; a dataflow rule each for destructors and unary handlers",
     NOTE)

prop("P19", "Inserts are confirmed only after they have been applied",
     """The server sends a confirmation only when the request asked for it, exactly once, with the key of the item, after the table (or, in the asynchronous service, the table's insert queue) accepted that item; when the table refuses it the stream ends with the error. The clients count an item as confirmed only for keys in a response they received, or because writing it failed.""",
     ["schedules", "fault_sequences"],
     "every insert path of the synchronous and asynchronous services",
     "an early confirmation is visible only when the later insert fails or a crash follows",
     ["reverb_service_impl.cc", "reverb_service_async_impl.cc", "trajectory_writer.cc", "writer.cc"],
     [("server", "InsertStream handlers"), ("client", "TrajectoryWriter::StreamReaderWorker / Writer::ItemConfirmationWorker")],
     "path-sensitive typestate over both insertion paths (insert result / confirmation requested / confirmation sent) and over every function of the writers that changes the set or number of unconfirmed items",
     NOTE)

prop("P20", "Synchronous and asynchronous services validate requests alike",
     """In both the synchronous and the asynchronous service: a request that names a table which does not exist is answered with NotFound and has no effect; a sample request whose num_samples is not positive, or whose flexible_batch_size is neither positive nor the automatic value, is answered with InvalidArgument and reaches no table; every other sample request is accepted and makes the service ask exactly this table, again and again, for min(batch size, samples still missing) samples - the batch size being the requested one or the table's default if automatic - with the timeout of this very request (infinite when absent or negative), until num_samples were sent, and only then is the next request of the stream read. MutatePriorities and Reset hand the content of the request to the table and the outcome back to the client. The memory address of a table is sent only to a client of the same process.""",
     ["inputs", "configurations"],
     "every request content, both service implementations",
     "the tests exercise each implementation with mostly valid requests",
     ["reverb_service_impl.cc", "reverb_service_async_impl.cc", "sampler.cc"],
     [("sync", "ReverbServiceImpl"), ("async", "ReverbServiceAsyncImpl")],
     "decision tables: every path of both services from request to table call, refusal or next read is turned into conditions and argument expressions and evaluated over a grid of requests (num_samples x batch size x timeout x default x progress) against the specified outcome; must-check typestate of table lookups and process ids",
     NOTE)

prop("P21", "No error status is silently dropped",
     """In the C++ library the outcome of every operation that can fail (it returns a Status, a pair with a Status, or one of the success flags such as Queue::Pop, ParseFrom..., stream Read) is looked at: it is tested, returned, stored or handed on, not dropped or overwritten before anybody saw it; and on a path where such an operation was seen to fail, a function that can report errors does not report success. Excepted are failures which are an answer (a closed queue for the cleanup thread, no direct access to a table, retrying or stopping on Unavailable, Cancelled or a timeout, the stream of a writer whose items are all confirmed), functions without a result (which must record or at least log), and destructors.""",
     ["fault_sequences", "inputs"],
     "every call of a function returning a status in the C++ library",
     "a dropped error shows only when that call fails",
     ["table.cc", "sampler.cc", "trajectory_writer.cc", "writer.cc", "chunker.cc", "client.cc", "reverb_service_impl.cc", "reverb_service_async_impl.cc", "platform/tfrecord_checkpointer.cc"],
     [("status producers", "all functions returning absl::Status / StatusOr")],
     "per function exploration of all paths tracking every fallible call's value from the call to its uses: a value that dies or is overwritten unseen, and a successful return after okp(value) was false, are violations",
     NOTE)

prop("P22", "A trajectory item is sent only after the data it refers to",
     """The stream worker of the trajectory writer puts every finished chunk of the next item that is not yet on the stream into the request, notes exactly those as being there, and clears the request only after it was written. It writes the first item of the queue only when every chunk the item refers to is on the same stream, takes the item out of the queue exactly when it was written (on a failure it stays for the next stream), and items are only ever added at the end of the queue. The keys to keep that go with an item are all keys on the stream which a chunker or a later queued item still needs, and from then on these are the chunks the writer takes to be on the stream.""",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of appended steps, items, episode ends and reconnects",
     "an item with missing chunks is rejected only by a real server under particular chunk boundaries",
     ["trajectory_writer.cc", "chunker.cc"],
     [("sending", "TrajectoryWriter::RunStreamWorker / SendItem"), ("chunks", "Chunker")],
     "path-sensitive typestate of the stream worker (per reference: ready/unsent -> added and noted; per item: all chunks on the stream -> written -> popped; per request: filled -> written -> cleared) with the helpers inlined, and loop-coverage analysis of the keep-key computation",
     NOTE)

prop("P23", "Writer errors are sticky and a successful flush means confirmed items",
     """Once the trajectory writer has recorded an unrecoverable error, every later append, item creation, flush and episode end reports an error; a recorded error is never replaced by success, and the stream worker records every non-transient outcome of a stream and why it ends. CreateItem returns OK only with the item queued exactly once. A flush returns OK only when no error was recorded and at most the given number of the items created before (none for an episode end) is still queued or unconfirmed, and an item counts as unconfirmed from before it is written until its confirmation arrived; its wait ends exactly then or when an error is recorded, and the data the items refer to is finished before. Items on a stream that is lost are written again or reported.""",
     ["fault_sequences", "schedules"],
     "every failure point and operation order",
     "tests inject a few failures at fixed points",
     ["trajectory_writer.cc", "writer.cc"],
     [("flush", "TrajectoryWriter::Flush / FlushLocked"), ("error", "unrecoverable_status_")],
     "path-sensitive must-check analysis of the recorded error on every successful path of the public operations, decision table of the flush's wait condition over abstract states (queued, unconfirmed, first of the queue unconfirmed, bound, error), overwrite analysis of the recorded error and typestate of the unconfirmed set",
     NOTE)

prop("P24", "Data is validated against the table signature before it is accepted",
     """A writer queues an item for a table only if its data fits that table: no signatures are known, the table's entry has no signature, or every column of the item (for the legacy writer: every tensor of each of its newest num_timesteps steps) agrees with the table's signature in number, dtype and shape; a table missing from the known signatures is rejected. What is compared is the type of a cell of that very column, with the number of cells as leading dimension unless the column is squeezed. Every column is validated (not empty, cells still alive, one dtype and compatible shapes, exactly one cell when squeezed), kept alive until the item is queued and made part of the item. Clients hand the signatures they fetched from the server to every writer they create. Everything else is rejected with an error and queues nothing.""",
     ["inputs", "configurations"],
     "every item and signature",
     "tests use a handful of mismatching dtypes and shapes",
     ["trajectory_writer.cc", "writer.cc", "signature.h"],
     [("validation", "TrajectoryWriter::CreateItem / internal signature checks")],
     "symbolic path exploration of TrajectoryWriter::CreateItem and Writer::CreateItem with a check automaton (which signatures were compared with which column, over which index range), of TrajectoryColumn::Validate/LockReferences and of the clients' writer factories: on every path that queues an item all required comparisons have succeeded; no path that failed one queues",
     NOTE)

prop("P25", "The legacy writer neither loses nor duplicates steps and items",
     """The legacy writer accepts a step exactly once or reports an error and keeps no trace of it; a full buffer becomes one chunk which holds all buffered steps in order under the key that pending items refer to, and after a failure the buffer, the key and the position are unchanged. An item consists of exactly the newest num_timesteps steps in order and is refused if there are fewer. Pending items are sent in creation order, each after the chunks it refers to and at most once per stream, with the keys the server shall keep; only what was really sent is noted, dequeued and counted as unconfirmed. A failed stream is never reused, exactly transient failures are retried (on request), and success means that everything was sent (Flush: and confirmed).""",
     ["histories", "fault_sequences"],
     "every sequence of appends, items, flushes and stream failures",
     "tests cover short episodes and one failure at a time",
     ["writer.cc"],
     [("chunking", "Writer::Finish"), ("sending", "Writer::WriteWithRetries / WritePendingData")],
     "path exploration (typestate over the step buffer, signature ring, chunk list, pending queue, stream) of Writer::{Append,Finish,CreateItem,WritePendingData,WriteWithRetries,Flush,ConfirmItems,ItemConfirmationWorker,AppendSequence} and FlatTimestepTrajectory; arithmetic (ring position, chunk range, slice offset/length, limit of unconfirmed items) decided by evaluating the extracted expressions over all small values",
     NOTE)

prop("P26", "A sampler returns each fetched sample once and stops with an error or limit",
     """A sampler returns each fetched sample exactly once and in complete form: workers never request more samples than max_samples allows and re-request what they did not fetch; a fetch counts exactly the valid samples it handed over; every returned sample is counted once and the last one ends the sampler; the first non-transient error stops everything and reaches the waiting consumer, timeouts only once they expired while somebody waited; Close cancels, wakes and joins all workers; a sample is decomposed into all of its rows, columns and its information.""",
     ["schedules", "fault_sequences"],
     "every interleaving of workers, consumers, errors and Close",
     "depends on worker timing",
     ["sampler.cc", "sampler.h"],
     [("workers", "Sampler::RunWorker / MaybeSampleNext"), ("consumer", "Sampler::PopNextSample")],
     "path-sensitive typestate of RunWorker, PopNextSample, MaybeSampleNext, each getter, FetchSamples of both workers, Close/Cancel; finite evaluation of the request arithmetic and stop conditions over the facts of each path; must-cover loops over columns, chunks and slices in the decomposition",
     NOTE)

prop("P27", "Sampled data is validated against the expected specification everywhere",
     """Every way of taking a sample out of a sampler compares the data with the expected dtypes and shapes (in the form that this getter returns) before it reports success; the comparison covers number, type and shape of all tensors and refuses nothing that matches; what is expected is the item information followed by the complete signature of the table (or the validated request of the user), it is handed on to every sampler and missing only if there is no signature (or its lookup timed out).""",
     ["inputs", "configurations"],
     "every public getter of the sampler, every mismatch",
     "tests check one or two getters",
     ["sampler.cc"],
     [("getters", "Sampler::GetNextTimestep / GetNextSample / GetNextTrajectory"), ("validation", "Sampler::ValidateAgainstOutputSpec")],
     "must-check typestate on every path of each getter, of the validation loop (index agreement of data and specification, mode-dependent shape) and of the Client functions that build and hand on the specification",
     NOTE)

prop("P28", "Queues deliver in order, bound their size and wake blocked peers",
     """The bounded queue: Push waits exactly while the queue is open, the last element has not been announced and capacity elements are stored; it then stores the element at the tail and returns true, or returns false without effect when the queue is closed or ended. Pop waits exactly while the queue is open and empty, returns false when closed and otherwise hands out the element at the head. PopBatch removes exactly the requested number of elements in order, or none with InvalidArgument (batch larger than the capacity), DeadlineExceeded (timeout), Cancelled (closed) or ResourceExhausted (ended with too few elements), and returns as soon as one of these is decided. SetLastItemPushed, and the pop that empties an ended queue, close it. The unbounded queue behaves the same without the capacity, and its size equals the number of stored elements. TaskExecutor and TaskWorker run every task they take from their queue exactly once, put every scheduled task into it, and on Close mark the end, drain and then join.""",
     ["schedules", "histories"],
     "every path of every queue operation",
     "interleavings of blocked producers and consumers with closing",
     ["support/queue.h", "support/unbounded_queue.h", "support/task_executor.h"],
     [("queues", "Queue / UnboundedQueue / TaskExecutor")],
     "paths of every queue operation turned into guarded effects and compared, as a decision table over the abstract states (capacity, occupancy, head position, closed, ended, batch), with the specified outcome; wait conditions compared in the same states; typestate of popped tasks",
     NOTE)

prop("P29", "Chunk encoding and decoding are inverse for every configuration",
     """A reader gets the values that were written, for every configuration: the tensors of a chunk are delta encoded, once each and all of them, exactly when the option of the writer asks for it, and exactly then the chunk says so; a tensor read from a chunk is decompressed from the column asked for, which the chunk must have, and delta decoded exactly when the chunk says so. Decoding inverts encoding element by element for every tensor, and leaves alone the same tensors; tensors are decompressed in the format they were compressed in, into a tensor of the stored type and shape. A slice of a column consists of exactly the rows asked for, or is an error if the column lacks them. A copy of a column's options has the values of the original.""",
     ["inputs", "configurations"],
     "every chunk (delta encoded or not), every reader",
     "readers are tested mostly on non-delta chunks",
     ["tensor_compression.cc", "chunker.cc", "sampler.cc", "writer.cc", "support/trajectory_util.cc"],
     [("encode", "CompressTensorAsProto / DeltaEncode"), ("decode", "DecompressTensorFromProto / DeltaEncode(.., false)"), ("readers", "internal::UnpackChunkColumn*")],
     "path exploration of every function that compresses or decompresses chunk tensors (typestate of flag, option and data), grid evaluation of what the guards imply about column, offset and length, linear normal form of the element stores of the delta coding (per row kind and direction) with loop bounds, pairing of the formats written and read per case, constructor/clone argument matching",
     NOTE)

prop("P30", "Server shutdown stops serving before the state it serves is destroyed",
     """Stopping a running server (by Stop, by its destructor or by a signal) first closes all its tables, so that blocked operations end, and then shuts the RPC server down with a deadline; stopping twice or stopping a server that does not run has no effect, and the server counts as running exactly from its successful start to its stop. Closing a service closes every one of its tables; closing a table cancels its rate limiter and then wakes its worker. A signal only records itself in a flag, which a periodic worker turns into a stop; Wait handles signals while it waits (holding no lock) and no longer afterwards, and tells whether a signal ended it. The destructors of server, table, chunk store, task executor and periodic closure tell each of their threads to stop, wake and join it without holding its locks, in the order in which the threads depend on each other, before anything they use is released or unregistered; pending tasks still run; a periodic closure has at most one thread and never runs after Stop.""",
     ["schedules"],
     "every shutdown path (Stop, destructor, signal)",
     "use-after-free at shutdown depends on requests in flight",
     ["platform/default/server.cc", "reverb_service_impl.cc", "reverb_service_async_impl.cc", "table.cc"],
     [("shutdown", "ServerImpl::Stop / ~ServerImpl / Table::~Table")],
     "order typestate over every path of the shutdown functions (required predecessor steps, held locks, wake-up after each stop flag, loop coverage), lock-freedom of the signal handler, member order of the server, typestate of the threads' loops",
     NOTE)

prop("P31", "The Python bindings release the interpreter lock exactly around blocking calls",
     """A function bound to Python gives up the interpreter lock wherever it may wait for another thread or for the server (so other Python threads can run, and a thread the wait depends on can't be locked out); it never makes, uses, destroys or raises Python objects without holding it. Every error status becomes a Python exception (ValueError, IndexError, NotImplementedError or RuntimeError according to its code), success never does, and expired cell references are errors rather than crashes. Destruction of bound objects is not covered.""",
     ["schedules", "fault_sequences"],
     "every binding, every path through it and every error",
     "a crash or hang needs another Python thread at the right moment; the C++ tests never enter the bindings",
     ["reverb/pybind.cc"],
     [("bindings", "PYBIND11_MODULE(libpybind)"), ("errors", "MaybeRaiseFromStatus")],
     "typestate of the interpreter lock over every bound lambda and call_guard, with may-wait and uses-Python summaries of the whole call graph; status tracking to raise or return; case analysis of the raising function",
     NOTE)

prop("P32", "Table extensions see every change of every item exactly once and in order",
     """For each item, extensions are told exactly about the changes that happen to it - insertion, applied priority update, sample, deletion - once each, in the order they take effect and while the item's data is still valid; each kind of change reaches the matching hook of every registered synchronous or asynchronous extension, and a reset reaches all of them.""",
     ["schedules", "histories"],
     "every table operation, both kinds of extensions",
     "tests use a counting extension with successful operations only",
     ["table.cc", "table_extensions/base.cc"],
     [("notification", "Table::ExtensionOperation"), ("async delivery", "Table::ExtensionsWorkerLoop")],
     "per-item transaction analysis as P03 for the notifications; case-table extraction of both dispatchers",
     NOTE)

prop("P33", "Dataset operators stop on cancellation and report errors and sequence ends",
     """An iterator of a Reverb dataset waits for data only with a cancellation callback registered that closes its sampler (and not at all once its context is cancelled), deregisters the callback on every path before it returns, and returns an error if it was cancelled meanwhile. Data is returned with the sequence going on; the sequence ends exactly when the rate limiter's timeout expires and a finite timeout was asked for; every other failure is reported as an error, and only the error made for the rate limiter's timeout is taken for one. With a sequence length set, a sample with fewer or more steps is an error, and steps are counted per sample. The sampler of an iterator has the dataset's table and options and is validated against the dataset's types and shapes unless the server cannot be reached in time. Serialising a dataset keeps every attribute.""",
     ["schedules", "fault_sequences"],
     "every outcome of the sampler calls in the iterators",
     "tests cover the timeout and a cancelled iterator once",
     ["ops/dataset.cc", "ops/timestep_dataset.cc", "ops/trajectory_dataset.cc"],
     [("iterators", "GetNextInternal of the dataset iterators")],
     "typestate of callback, sampler status and end-of-sequence flag over every path of the three iterators (status-to-result table), grid evaluation of the step accounting, order and condition checks of the sampler's construction, attribute read/write matching, decision table of the timeout predicate",
     NOTE)

prop("P34", "A trajectory item holds exactly the cells it was created from",
     """An item created from columns of cell references describes, for every column in order, exactly the referenced cells in the order given: every reference becomes one row of one slice, and a slice is extended only by the cell at the next position of the same chunk. A reference carries the key and the position at which its cell ends up: a chunk holds exactly the cells appended since the last one, in order and once each, under the key its references carry, all of which get it; cells of a chunk belong to one episode with increasing steps, and the chunk's range covers them. Reading a cell returns that row of its chunk or its entry of the buffer. Every column of an appended step goes to its own chunker and yields one reference (or none if absent).""",
     ["inputs", "histories"],
     "every sequence of references (gaps, repetitions, any order), every chunk boundary",
     "tests use contiguous histories",
     ["trajectory_writer.cc", "chunker.cc"],
     [("slices", "MergeAdjacent / TrajectoryColumn::ToProto / TrajectoryWriter::CreateItem"), ("cells", "Chunker::Append / FlushLocked / Reset")],
     "path exploration of the slice construction (grid evaluation of what the guards imply about chunk, offset and length when a slice grows, one treatment per reference, order) and of every chunker method with a relative model of buffer, offset, key and references (equal at every exit), of the data lookup (evaluation of the position expression) and of the writer's column, item and episode loops",
     NOTE)

prop("P35", "Arrays keep their dtype, shape and values across the Python boundary",
     """Every array handed to Reverb from Python arrives as the tensor of the corresponding dtype with the same dimensions and values, whatever its memory layout or byte order, and every tensor handed out arrives as the array of the corresponding dtype with the same dimensions and values; what can't be converted is an error, never other data. Converting back and forth preserves the dtype.""",
     ["inputs", "fault_sequences"],
     "every dtype and every path of both conversions",
     "the C++ tests never enter the conversions",
     ["reverb/pybind.cc"],
     [("array to tensor", "NdArrayToTensor"), ("tensor to array", "TensorToNdArray")],
     "path-sensitive analysis of both conversions (requirements of the array, origin of dtype and dimensions, operands and size of the copy, error propagation), extraction of both dtype tables and comparison with each other and the representation of the types; case analysis of the caster",
     NOTE)

prop("P40", "Samples follow the distribution the selector advertises",
     """Over many draws the frequency of each item converges to the probability reported with the samples.""",
     ["inputs", "histories"], "all priorities and all draws", "statistical claim over infinitely many draws",
     ["selectors/prioritized.cc", "selectors/uniform.cc"], [("draw", "Sample overrides")],
     na="numerical/statistical property of runtime values (floating point sums, random draws); no sound static argument in reach bounds it")

prop("P41", "Concurrent table operations are linearizable",
     """Every concurrent history of inserts, samples and mutations of a table is equivalent to some sequential order of the operations.""",
     ["schedules", "histories"], "all concurrent histories", "tests run few interleavings",
     ["table.cc"], [("critical sections", "Table operations")],
     na="needs a semantic model of histories; the static consequences that imply it at lock granularity (transactional agreement at every lock release, lock discipline) are decided as P03-P06 and P09 instead")

prop("P42", "Blocked operations eventually proceed",
     """An insert or sample whose admission condition becomes and stays true returns eventually, also under contention.""",
     ["schedules"], "all fair schedules", "liveness over infinite executions",
     ["rate_limiter.cc", "table.cc"], [("waits", "Await*")],
     na="liveness under fairness is not a safety property of paths; the no-lost-wake-up part is decided as P02, P07 and P08")

prop("P43", "Compression and arithmetic are exact at the numeric limits",
     """Delta encoding wraps around without loss for all integer values, and counters never overflow in long-lived servers.""",
     ["inputs", "histories"], "all integer values, unbounded histories", "tests use small values",
     ["tensor_compression.cc", "rate_limiter.cc"], [("arithmetic", "DeltaEncode, counters")],
     na="bounds on runtime magnitudes (number of operations, tensor contents) that no static rule over this source can establish")

KNOWN = [
 {"property": "P23", "key": "D|StreamWorker/unconfirmed-lost", "status": "open",
  "what": "items that a TrajectoryWriter has written but whose confirmation had not arrived when the stream was lost with Unavailable are neither written again on the next stream nor reported: Flush, EndEpisode and the destructor then wait for them forever (TrajectoryWriter::RunStreamWorker)",
  "history": "findings/unconfirmed-lost/demo.sh (run in /repo): a table whose rate limiter admits one item, four items created, server restarted: Flush(0, 10s) reports '0 items waiting to be written and 3 items awaiting confirmation' and the new server holds none"},
]
FIXED = [
 "fixed: property=P03 afaf012 Table::InsertOrAssign/ExtensionOperation released the table lock in the middle of an operation, so other threads saw half-applied items",
 "fixed: property=P03 23cfa75 a priority rejected by a selector left data_, sampler_ and remover_ in disagreement; MutateItems did not wake the table worker",
 "fixed: property=P07 23cfa75 MutateItems (deletes) did not wake the table worker",
 "fixed: property=P07 920993c a table modification between the worker's last check and its sleep was lost",
 "fixed: property=P18 ce20450 async InitializeConnection finished its stream twice when the client sent an unexpected message",
 "fixed: property=P18 b928540 the worker-less insert reactor could be destroyed while the table's callback still used it",
 "fixed: property=P20 036da08 the async server treated a rate limiter timeout of 0 as no timeout",
 "fixed: property=P29 7734066 cloned chunker options lost delta encoding",
 "fixed: property=P02 46ab465 RateLimiter::GetEventHistory missed the most recent completed event",
 "fixed: property=P28 d2c8f18 Queue::PopBatch dropped the remaining items once the last item had been pushed",
 "fixed: property=P31 0bddcb9 Python exceptions and objects were created without the GIL",
 "fixed: property=P31 fbe3cbd the Server constructor held the GIL while the checkpoint was loaded: all Python threads stalled",
 "fixed: property=P35 c3419d8 arrays in foreign byte order ('>f4') were stored as garbage",
 "fixed: property=P32 353307e asynchronous extensions added to or cleared from a running table were not tracked",
 "fixed: property=P33 fb39e44 the timestep dataset reported rate limiter timeouts as errors and leaked its cancellation callback",
 "fixed: property=P30 4a8e96f non-atomic flag shared between the signal handler and the stop worker",
 "fixed: property=P08 81f720e TrajectoryWriter's stream worker could miss Close and never end",
 "fixed: property=P09 46d4f80 the stream worker accessed chunkers_ without the lock",
 "fixed: property=P09 0a003c2 Chunker::OnItemFinalized used options_ without the lock",
 "fixed: property=P11 ba1aaaa Save counted unfinished checkpoint directories towards keep_latest and deleted the last complete checkpoint, even the one it had just written",
 "fixed: property=P09 910558c Table::extension_requests_ was not declared guarded",
 "fixed: property=P21 097dccf Writer::Close returned success although items it had sent were never confirmed",
 "fixed: property=P21 8d645bd Client::NewSampler ignored every error of the signature lookup except a timeout",
 "fixed: property=P18 4426542 a stream cancelled while its insert reactor waited for the table was never finished, so the server's shutdown hung",
 "fixed: property=P18 6d9b2d9 the sample reactor kept requesting samples, touching sampling_done_ unsynchronised with the destructor, after its stream was finished",
 "fixed: property=P18 f5e7b9b the Checkpoint handler read the response after the call had been finished",
 "fixed: property=P34 5d31b92 TrajectoryWriter merged cells of one chunk into a slice without looking at their positions, so items with gaps, repeated or reordered cells (history['a'][::2], [::-1]) silently held other steps",
 "fixed: property=P34 ac40737 TrajectoryWriter::CreateItem crashed for a column without any cell next to a non-empty one",
 "fixed: property=P29 3291c2b reading a slice with a negative or overflowing length aborted the process instead of returning an error",
 "fixed: property=P21 6e2ae1f DecompressTensorFromProto ignored a failed decompression and returned garbage",
 "fixed: property=P25 020c635 Writer::CreateItem accepted more (or no) steps than available after flushes made short chunks and created an item with a negative offset (or crashed)",
 "fixed: property=P26 0fcf49d GetNextTimestep failed half way through a sample whose columns are chunked differently: rows already returned counted towards the length of a column",
 "fixed: property=P20 727fc1b the synchronous service used the timeout of the first request of a sample stream for all later ones, so a request with a timeout could block forever",
]
