#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties_src.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe,hook_needed=None)))

AS=["Awl/Io/AtomicStorage.cpp","Awl/Io/AtomicStorage.h","Platforms/Posix/Awl/Io/NativeStream.h"]

p("S01","An interrupted save always leaves one complete durable copy",
 "While a value is saved over an intact storage, at every instant at least one of the two files (main, backup) durably holds one complete value: the main file is not modified before the backup has been completely rewritten, cut to its new length and flushed, and the backup is not emptied before the main file has been completely rewritten, cut and flushed. If any I/O step or the value's own writer fails, the save ends with an exception and changes neither file any further. A save that returns normally has done all of these steps, including emptying the backup durably.",
 ["crash_points","fault_sequences","inputs"],"every point between two system calls of a save, with and without a lock, for every value and every set of failing calls",
 "The tests corrupt the files by hand after complete saves; no test stops a save in the middle or makes a write, truncate or fsync fail, so the order of the steps is never observed.",
 AS,[("two-file save protocol","AtomicStorage::Save"),("seek/write/truncate/flush","AtomicStorage::WriteToStreamFunc"),("backup reset","AtomicStorage::ClearBackup")],
 ["system calls on the two descriptors"])
p("S02","Recovery at load copies a good backup before dropping it and reports the truth",
 "Loading reads the backup first; when and only when it is read completely (no error, no bytes left over) the main file is rewritten from it, cut and flushed before the backup is emptied, and an unusable backup never causes the main file to be written. Otherwise the value is read from the main file; load reports success only if the value delivered was read completely from a file, and the backup is never emptied while it is the only complete copy.",
 ["crash_points","fault_sequences","inputs"],"every combination of readable/unreadable/partly consumed backup and main file, every failing call, every crash point of the recovery",
 "The tests load a handful of hand-made file pairs and never fail an I/O call during recovery.",
 AS,[("recovery","AtomicStorage::Load"),("classification of read results","AtomicStorage::LoadFromFile")],["system calls on the two descriptors","load result"])
p("S03","A locked save snapshots under the lock and does all file I/O without it",
 "A save given a lock acquires it, captures the value while holding it and releases it before the first file operation; afterwards the value's data is not touched again, only the captured snapshot is written. The lock is released exactly once on every exit of the save, including every exception, and it is never held while files are written. The mutex adapters (wrapped and optional mutex) lock and unlock exactly the mutex they were given, and nothing when there is none.",
 ["schedules","fault_sequences"],"every interleaving of the saver with other users of the lock and every failing call",
 "One test starts a saver thread and only checks the final value; which lock is held around which I/O call is not observable by it.",
 AS+["Awl/OptionalMutex.h","Awl/Io/Snapshotable.h"],[("snapshot under lock","AtomicStorage::Save")],["lock/unlock calls","system calls","reads of the value"])
p("S04","No failed or short file operation is reported as success",
 "Every file-stream operation (open, read, write, seek, move, truncate, flush, length, position, end test) whose underlying system call fails ends with an I/O exception, and a write that stored fewer bytes than requested ends with an I/O exception too. A normal return means that the requested effect was accomplished with the caller's own arguments on the stream's own descriptor; a read returns exactly the number of bytes the system delivered. A file that is created can be read and written by its owner when it is opened again.",
 ["fault_sequences","inputs"],"every system-call outcome (success, error, short count) of every stream operation",
 "System calls do not fail in the tests, so no error branch is executed.",
 ["Platforms/Posix/Awl/Io/NativeStream.h","Platforms/Posix/Awl/Io/NativeException.h"],[("result check","PosixStream::Check and PosixStream::Write"),("open","CreateUniqueFile/OpenUniqueFile")],["system-call results vs. exceptions"])
p("S05","Every opened file is closed exactly once",
 "A file descriptor obtained by the library is closed exactly once: by destroying, closing, or assigning over the object that owns it, and on every error path. Moving an owner transfers the descriptor and leaves the source empty, and nothing is ever closed that the library does not own (no double close, no close of an empty handle). A handle tells truly whether it is empty.",
 ["programs","fault_sequences"],"every sequence of open, move, assign, close and destroy of streams and storages, and every failing open",
 "Leaks and double closes of descriptors are invisible to the assertions of the tests; failing opens are not exercised.",
 ["Platforms/Posix/Awl/Io/UniqueHandle.h","Platforms/Posix/Awl/Io/NativeStream.h","Awl/Io/AtomicStorage.h","Awl/Io/OptionalStorage.h"],[("owning handle","UniqueHandle"),("cleanup after failed open","AtomicStorage::Open")],["open/close system calls"])
p("S06","A stream failure surfaces as an exception and never terminates the process",
 "When an underlying stream throws while a value is being written, read, saved or loaded through any of the serializable wrappers and hashing streams, the exception reaches the caller. No destructor or non-throwing function on the way lets it escape and terminate the process, and no wrapper swallows it and reports success.",
 ["fault_sequences"],"a failure of each individual underlying read or write, through each wrapper",
 "No test makes an underlying stream fail while a hashing or euphoric wrapper is on the stack.",
 ["Awl/Io/HashStream.h","Awl/Io/HashingSerializable.h","Awl/Io/EuphoricallySerializable.h","Awl/Io/AtomicStorage.cpp"],[("buffered hash writer","HashOutputStream")],["exception propagation / process termination"])
p("S07","The optional storage degrades without losing its guarantees",
 "A storage whose files cannot be opened stays closed and usable: opening or saving failures are reported to the log, not thrown, and a closed storage never performs file I/O: loading from it reports that nothing was loaded, saving to it does nothing. When it is open it forwards every load and save to the underlying storage with the same value and lock.",
 ["fault_sequences","histories"],"every failing open and save and every later use",
 "The tests never fail an open.",
 ["Awl/Io/OptionalStorage.cpp","Awl/Io/OptionalStorage.h"],[("guarded forwarding","OptionalStorage")],["calls into the storage, log records"])
p("S08","The value last saved is kept in exactly the two files that were named",
 "A storage opened on a pair of names uses exactly these two files; open reports whether one of them existed before, and the storage is empty exactly when both are. Whatever was saved, loaded or reopened before, a load delivers the value last saved, or reports that nothing was loaded and leaves the value alone. A persistent object keeps its value in the files <name>.dat (main) and <name>.bak (backup), hands every open, load, save and close to its storage and its outcome to the caller; removing it closes these two files before deleting them, and deletes nothing else.",
 ["histories","inputs"],"all combinations of existing, missing and empty files and all sequences of open, save, load, close and remove",
 "The tests save and load one object once per storage kind; the second use of an open storage and leftover files are not sampled.",
 ["Awl/Io/PersistentObject.h","Awl/Io/AtomicStorage.h","Awl/Io/AtomicStorage.cpp","Awl/Io/OptionalStorage.h"],[("names","PersistentObject::append_extensions"),("two files","AtomicStorage::Open/IsEmpty"),("every use starts at the beginning","AtomicStorage::ReadFromStream/WriteToStreamFunc")],["files named, bytes stored, values delivered"])
p("H01","A hashed reader never delivers a byte it has not verified",
 "Every byte delivered by the hashing input stream belongs to a block whose stored hash has been compared with the hash recomputed over exactly that block's payload and found equal. A mismatch, or a trailing fragment too short to contain a hash, raises a corruption error before any byte of that block is delivered, and also afterwards no byte of it is ever delivered; end of stream is reported only at a clean block boundary.",
 ["inputs","histories","fault_sequences"],"all byte contents, block sizes, request sizes, and sequences of reads including reads after an error",
 "Tests flip bytes in a few streams and stop at the first exception.",
 ["Awl/Io/HashStream.h"],[("block verification","HashInputStream::PeekBuf"),("delivery","HashInputStream::FlushBuf/Read")],["bytes delivered to the caller, comparisons of hashes"])
p("H02","A hashed writer emits every byte exactly once, each block with its hash",
 "Every byte given to the hashing output stream reaches the underlying stream exactly once and in order, in blocks consisting of payload followed by the hash of exactly that payload; the final partial block is emitted as well before the wrapper finishes. No block exceeds the block size the reader uses, and payload plus hash fill a full block exactly, so that reader and writer agree on the framing.",
 ["inputs"],"all sequences of write sizes and all block sizes larger than the hash",
 "Round trips at a few sizes only.",
 ["Awl/Io/HashStream.h","Awl/Io/HashingSerializable.h"],[("buffering","HashOutputStream::Write/Flush")],["writes to the underlying stream, hash calls"])
p("H03","Buffered streams pass every byte through, in order and exactly once",
 "A buffered input stream delivers exactly the bytes of the stream below it, in order, however that stream cuts them into pieces: a read returns as many bytes as were asked for unless the stream ends, never writes behind the request, and the end is reported exactly when nothing is left, in the buffer or below. A buffered output stream has written all bytes, in order and once, after a flush and after its destruction. Neither moves more than a block at a time, and a failure of the stream below reaches the caller; a block that failed is not written again.",
 ["inputs","faults"],"any sizes of requests, blocks and pieces",
 "The order of sizes decides which path through the buffer is taken; tests use a few.",
 ["Awl/Io/BufferedStream.h","Awl/Io/HashStream.h"],[("buffers","BufferedInputStream, BufferedOutputStream (HashInputStream, HashOutputStream with FakeHash)")],["bytes on both sides"])
p("W01","Readers consume exactly the layout that writers produce, for every type",
 "For every serializable type (arithmetic, bool, enum, string, vector, array, deque, set, map, tuple, pair, variant, optional, smart pointer, chrono, bitmap, atomic, decimal, reflected structs) and every wrapper header, the reader consumes the same sequence of fixed-size items, length prefixes, presence flags and alternatives that the writer emits. In particular the width of every length, index and flag, the order of fields, and the condition under which an optional part is present are the same on both sides.",
 ["inputs","programs"],"every value of every supported type and every composition of types",
 "Round-trip tests cover a few values; a pair of functions that disagrees only for some presence/length combination passes.",
 ["Awl/Io/Rw/","Awl/Io/Writer.h","Awl/Io/Reader.h","Awl/Io/HeaderedSerializable.h"],[("Read/Write pairs","Awl/Io/Rw/*.h")],["calls on the underlying streams"])
p("W02","Stream data is never used unchecked as an index, selector or size",
 "A value read from a stream is compared with the limits of the table, variant, enum, container or buffer it addresses before it is used as an index, selector, count or skip distance; an out-of-range value raises an I/O exception. This does not depend on debug assertions, so no stream content leads to an out-of-bounds access, an abort, or a failure of the reader other than an I/O exception or the failed allocation of the size the stream states (bad_alloc, length_error). A length limit is applied before the limited text is read, and an object behind a header of another format or version is not read.",
 ["inputs"],"every byte content of the stream",
 "Corrupted streams are sampled; with assertions on, some corrupt inputs abort instead of throwing.",
 ["Awl/Io/Reader.h","Awl/Io/Rw/VariantReadWrite.h","Awl/Io/Rw/EnumReadWrite.h","Awl/Io/Rw/BitMapReadWrite.h","Awl/Io/HeaderedSerializable.h"],[("index validation","Reader, VariantReader, enum reader")],["uses of stream-derived values"])
p("W03","A failed read leaves the target object unchanged",
 "When reading an object through the plain or version-tolerant wrapper fails with an exception at any point, the caller's object still has the value it had before the call; it changes only after the whole value has been read successfully. For objects that cannot be moved the previous value is restored from a snapshot taken before the read. After a successful read the object holds exactly the stored value; members that the stored version did not have get their default value when the object can be moved.",
 ["fault_sequences","inputs"],"a failure at every individual stream read of the operation, of any exception type",
 "Tests truncate streams but compare the old object only in one or two cases.",
 ["Awl/Io/PlainSerializable.h","Awl/Io/VersionTolerantSerializable.h"],[("read into a temporary then move","PlainSerializable::Read, VersionTolerantSerializable::Read")],["stores to the caller's object"])
p("W04","Reading a value replaces the previous content completely",
 "After a successful read of an optional, smart pointer, container, ring or string the object holds exactly what the stream described: elements, entries, or presence that the object had before the read do not survive. This holds for an absent optional or pointer and for an empty container too.",
 ["inputs","histories"],"every previous content of the object and every stream",
 "Tests read into freshly constructed objects only.",
 ["Awl/Io/Rw/OptionalReadWrite.h","Awl/Io/Rw/PointerReadWrite.h","Awl/Io/Rw/CollectionReadWrite.h","Awl/Io/Rw/VectorReadWrite.h"],[("reset before fill","Read overloads")],["state of the target after a read"])
p("W05","The version-tolerant reader consumes every stored field exactly once",
 "While reading an object written with another version of its type, every stored field is consumed exactly once, either by reading it into the member of the same name or, if no such member exists, by skipping exactly its stored representation; the reader therefore ends exactly at the end of the object. A field is read into a member only after its stored type has been found equal to the member's type, otherwise a type-mismatch error is raised; members without a stored field keep their value, and a stored field without a member raises a not-found error if removing fields is forbidden. All stored types must be in the reader's table of types, under their own names or under the new names the reader has been given for them. A reader can be cleared and then reads an object of yet another version in the same way.",
 ["inputs","programs"],"every pair of stored and current field lists",
 "A few version pairs are tested.",
 ["Awl/Io/Reader.h"],[("field mapping","Reader::ReadV/FindProtoMap/SkipField/CheckTypesCompatible")],["stream reads, member stores, exceptions"])
p("W06","Truncated input is always reported",
 "Whenever a stream delivers fewer bytes than a value needs, reading that value fails with an end-of-file error; no reader returns normally with a partly filled value, and the in-memory streams never read or skip beyond their data.",
 ["inputs","fault_sequences"],"every truncation point of every stream",
 "Only selected truncations are tested.",
 ["Awl/Io/ReadWrite.h","Awl/Io/Rw/ReadRaw.h","Awl/Io/VectorStream.h","Awl/Io/StdStream.h"],[("short read check","ReadRaw"),("bounded copy","VectorInputStream")],["stream reads and exceptions"])
p("L01","List links stay mutually consistent",
 "After every operation on the intrusive lists (insert at any place, push, pop, exclude, attach, clear, move, reinsert) each link's successor has that link as predecessor and vice versa, an excluded or popped link is detached on both sides, and no link other than the operated one and its immediate neighbours is changed. The forward and backward traversals therefore visit the same elements in opposite order, for any list.",
 ["programs","histories"],"lists of any length and content, any position",
 "Unit tests walk short lists, mostly forwards.",
 ["Awl/QuickLink.h","Awl/QuickList.h","Awl/SingleLink.h","Awl/SingleList.h"],[("link surgery","basic_quick_link"),("list operations","quick_list")],["link fields"])
p("L02","Neither a dead observer nor a dead observable is ever reached",
 "An observer that is destroyed is no longer registered anywhere; an observable that is destroyed or cleared leaves none of its observers registered; moving an observer or an observable transfers the registration so that the new object is notified and the old one is not. Hence a notification is never delivered to a destroyed or moved-from observer, and unsubscribing or destroying in any order is safe.",
 ["programs","histories"],"any order of subscribe, unsubscribe, move, destroy",
 "Tests use a few orders.",
 ["Awl/Observable.h","Awl/QuickLink.h","Awl/QuickList.h"],[("self-excluding link","Observer destructor"),("list teardown","quick_list destructor")],["link fields of observers"])
p("L03","An observer may unsubscribe or die while being notified",
 "During a notification each observer subscribed at its start is called once in subscription order, also when the observer being called unsubscribes or destroys itself from within the call, in which case the notification continues with its successor. The notifier does not touch an observer after having called it, and a while-true notification stops at, and reports, the first observer that returns false.",
 ["programs","histories"],"any observer list and any subset of self-removing observers",
 "One or two fixed scenarios.",
 ["Awl/Observable.h"],[("advance before call","Observable::Notify, NotifyWhileTrue")],["observer calls and link reads"])
p("L04","Observable containers notify exactly the changes they make",
 "An observable container announces every element it adds (after it is in the container) and every element it removes (while the announced element still exists), exactly once each, and announces nothing when an operation changes nothing. This covers every mutating operation of the container including insertion by hint, emplace, erase by value and position, clear, and assignment where offered. Every way to read the container (iteration in both directions, index, key, bounds, first, last, comparison) shows the same content.",
 ["inputs","programs"],"every operation and content",
 "Tests check a few operations.",
 ["Awl/ObservableSet.h"],[("notify after insert / before erase","observable_set")],["observer calls vs. container mutations"])
p("L05","Derived containers follow their source",
 "A mirrored or foreign-keyed container reflects its source: an element announced as added is inserted, an element announced as removed is removed, clearing empties it, and it never keeps an element that its source no longer has. Initial content is taken over at construction and subscription is in place before later changes. Every way to read a derived container shows this content, and its own observers are told of its changes from their subscription to their unsubscription.",
 ["histories"],"any history of the source",
 "Short fixed histories.",
 ["Awl/MirrorSet.h","Awl/ForeignSet.h"],[("observer callbacks","mirror_set, foreign_set")],["derived container contents"])
p("L06","Indexed-set bookkeeping is restored by every structural change",
 "In the order-statistics set, whenever an operation attaches, detaches or rotates nodes, parent and child references stay mutual, and each affected node's subtree size is recomputed from its children, up to the root, so that index lookups agree with iteration. Each element stays linked exactly once in both the tree and the ordered list, and a removed node is freed exactly once.",
 ["inputs","histories"],"any set and any insertion or removal",
 "Random tests sample orders; local bookkeeping for every shape is not established.",
 ["Awl/VectorSet.h"],[("tree surgery","vector_set")],["node fields"])
p("L07","The ring never reads or writes outside its window and destroys each element once",
 "Every ring operation constructs an element only in a free slot and destroys it exactly once when it leaves the ring (overwrite when full, pop, clear, destruction, assignment); element access with an invalid position through the checked accessor raises an out-of-range error. Copy, move and assignment leave both rings valid, with the size never exceeding the capacity, and a failing element constructor leaves the ring consistent.",
 ["inputs","histories","fault_sequences"],"any capacity, fill level, start position and throwing constructor",
 "Tests use small fixed rings of trivial elements.",
 ["Awl/Ring.h"],[("modular window","ring")],["element constructor/destructor calls, buffer accesses"])
p("L08","A pooled object is owned by exactly one party at a time",
 "An object obtained from the pool is not handed out again until it has been returned, is returned exactly once when its last owner releases it, and is finalized between owners. The pool never loses or duplicates an object, also when creation fails.",
 ["histories","fault_sequences"],"any sequence of make and release",
 "A single short scenario.",
 ["Awl/ObjectPool.h"],[("free list and deleter","object_pool")],["free-list and finalize calls"])
p("L09","A scope guard runs its action exactly once unless released",
 "The action of an engaged guard runs exactly once, when the guard goes out of scope, normally or by exception; a released guard never runs it. Moving a guard transfers this duty: the new guard is engaged exactly if the old one was, and the old one never runs the action.",
 ["programs"],"any sequence of construct, move, assign, release, destroy, on normal and exceptional exits",
 "Tests use one guard on the normal path.",
 ["Awl/ScopeGuard.h"],[("engaged flag","scope_guard")],["action calls"])
p("L10","Owning pointers free what they own exactly once",
 "The library's unique pointer and handles delete the owned object exactly once, with reset, move, assignment, swap and release transferring or giving up ownership; a released object is not deleted and the moved-from pointer is empty.",
 ["programs"],"any sequence of operations",
 "Leaks and double deletes are not visible in the tests.",
 ["Awl/UniquePtr.h"],[("ownership","unique_ptr")],["delete calls"])
p("L11","The indexed set stays balanced",
 "After any history of insertions and removals the tree of the order-statistics set is a valid red-black tree: its root is black, no red node has a red child, and all paths from the root down contain the same number of black nodes. Hence its height never exceeds twice the binary logarithm of its size, and lookups, insertions, removals and index computations stay logarithmic whatever was inserted and removed before.",
 ["inputs","histories"],"any set and any insertion or removal",
 "Tests compare contents, never the shape; a degenerate tree gives the same results.",
 ["Awl/VectorSet.h"],[("rebalancing","vector_set::BalanceAfterInsert, BalanceAfterRemove, RemoveNode")],["node colours and links"])
p("L12","An aggregator calls its function when all of its arguments have been set",
 "The function of an aggregator is called by the very setting that makes its arguments complete, in whatever order they are set and however often one of them is set before that: never earlier, never after it has been cancelled, and with the value set last for each argument. all() tells at any time whether the arguments are complete. Arguments that can only be moved are moved, none is lost or left behind.",
 ["inputs","histories"],"any order of settings and cancellations",
 "The only test sets three arguments once, in order.",
 ["Awl/Aggregator.h"],[("set and call","aggregator::set, all, cancel, make_shared_aggregator")],["calls of the function"])
p("L13","A shared singleton has one instance, of which all users see the same",
 "At any time at most one instance of a shared singleton lives; it is made by the first request, every request while it lives returns this instance, and it is destroyed with its last user. After that a shared_singleton never comes back (requests return null), while an ondemand_singleton is made anew. If making the instance fails, the exception reaches the caller and the next request tries again.",
 ["histories"],"any order of requests, releases and failures, in one thread",
 "Tests follow one history; the order of failures and releases matters.",
 ["Awl/SharedSingleton.h"],[("instances","shared_singleton, ondemand_singleton, is_uninitialized")],["instances made and destroyed"])
p("L14","A test assertion fails exactly when it is violated; attributes are true",
 "Every test assertion fails, with a test exception, exactly when its condition is violated. An expected exception is required: the assertion passes when and only when the function throws it (or a derived one), also when a failed assertion would be such an exception itself, and any other exception reaches the test. A test attribute has the value parsed from the text that was given under its own name, or its default when none was given or it cannot be parsed.",
 ["inputs","fault_sequences"],"every condition and value, every kind of exception expected and thrown",
 "An assertion that cannot fail makes the tests that use it pass on any code.",
 ["Awl/Testing/TestAssert.h","Awl/Testing/LocalAttribute.h","Awl/Testing/AttributeProvider.h"],[("assertions","Assert::IsTrue, IsFalse, AreEqual, Throws, Fail, AWT_ASSERT*"),("attributes","LocalAttribute, AWT_ATTRIBUTE")],["outcome of the assertion","value of the attribute"])
p("L15","Every registered test that is selected runs exactly once; failures surface",
 "A test that is linked into the program is in the test chain and in the test map, under its own name; two tests of one name are refused. Running all tests of a selection runs every selected test once and no other one, in the context that was given; the count of a selection is their number. Running a test by name runs that test as often as the loop option says (once without it) with the output that was chosen, stops at its first failure, and fails exactly when the test fails, does not exist, or an option is unknown. After a shutdown no test is registered.",
 ["inputs","histories","fault_sequences"],"every set of tests, selection, option and failing run",
 "A test runner that skips a test or loses its failure reports success: no test can notice.",
 ["Awl/Testing/TestMap.h","Awl/Testing/TestMap.cpp","Awl/Testing/TestChain.h","Awl/Testing/TestLink.h"],[("registration","TestLink, GetTestChain, Shutdown"),("running","TestMap::RunAll, Run, InternalRun")],["runs of every test","exceptions that leave the map"])
p("T01","The update queue runs each update once, outside its lock, under balanced locking",
 "Shared queue state is touched only with the queue's lock held, user callbacks run with the lock released, and the lock is released on every exit including exceptions. Every accepted update is executed exactly once, in order, by one processing call; an update that throws ends that call, its exception reaches the processing thread, and the updates taken with it are dropped, never executed later or twice. Clearing discards what is pending without executing it, a posting call that fails leaves the queue unchanged, and what executed, dropped or discarded updates have captured is released.",
 ["schedules","histories"],"any interleaving of posting and processing threads, any throwing update",
 "Tests are single threaded.",
 ["Awl/UpdateQueue.h"],[("lock scope","UpdateQueue")],["lock/unlock calls, callbacks, queue state accesses"])
p("T02","An interruptible sleep never misses its stop request",
 "A thread in an interruptible sleep returns promptly once stop is requested, whenever the request is made: the stop notification cannot fall between the sleeper's test of the stop state and its wait, because the notifier passes through the sleeper's lock or the wait itself re-tests the stop state. Without a stop request the sleep lasts its full time, spurious wakeups included, and the sleeper never waits for a callback that waits for the sleeper.",
 ["schedules"],"every interleaving of requester and sleeper",
 "The window is a few instructions wide.",
 ["Awl/Sleep.h"],[("stop callback and wait","sleep_for")],["lock, notify and wait operations"])
p("T03","The watch dog's thread never outlives or precedes its data",
 "In the class that owns a worker thread (watch_dog) everything the thread uses is initialised before the thread starts and is destroyed only after the thread has been joined. Its token is stopped when the time-out has elapsed, which is reported once and never early, or when the user's own token is stopped, and not before.",
 ["schedules"],"every schedule of the owner and its thread",
 "The window is tiny and the tests keep objects alive long enough.",
 ["Awl/WatchDog.h"],[("declaration order","watch_dog")],["member initialisation and destruction order"])
p("T04","Stop callbacks run exactly once, unlocked, never after deregistration",
 "Requesting stop runs every registered callback exactly once without holding the internal lock; registering after stop has been requested runs the callback at once in the registering thread; destroying a callback guarantees that it is not running on another thread and will not run later. The internal lock is released on every path and shared state is freed exactly once, after the last token, source and callback is gone.",
 ["schedules","histories"],"every interleaving of request, registration and deregistration",
 "Race windows of a few instructions; tests sample schedules.",
 ["Extras/JThread/JThreadExtras/stop_token.hpp"],[("spin lock in state word","__stop_state")],["lock bit, callback calls, reference counts"])
p("T05","A joining thread handle stops and joins before it lets go of its thread",
 "Destroying, or move-assigning to, a joinable auto-joining thread first requests stop and then joins the thread it held; a non-joinable handle does neither. The new thread receives the handle's own stop token, and moving transfers thread and stop state together.",
 ["programs","schedules"],"every use of the handle",
 "Existing tests cover selected sequences only.",
 ["Extras/JThread/JThreadExtras/jthread.hpp"],[("destructor and move assignment","jthread")],["request_stop/join calls"])
p("T06","Interruptible condition waits keep the caller's lock balanced and miss no stop",
 "Every interruptible wait returns, normally or by exception, with the caller's lock held exactly as on entry, releases it while blocked, and never blocks after stop was requested; a notifier or a stop request cannot fall between the predicate test and the blocking.",
 ["schedules","fault_sequences"],"every interleaving and every throwing predicate",
 "Only sampled schedules.",
 ["Extras/JThread/JThreadExtras/condition_variable_any2.hpp"],[("unlock guard and internal mutex","condition_variable_any2")],["lock, unlock and wait calls"])
p("T07","Coroutine frames are destroyed once and their exceptions reach the consumer",
 "Every coroutine object destroys its frame exactly once: moved-from and finished-and-released objects destroy nothing, assignment destroys the frame that is replaced. An exception leaving the coroutine body is stored and rethrown to the consumer that resumes or awaits it, never lost and never rethrown twice; an update task, which has no consumer for it, terminates the program instead. An awaiting coroutine is resumed once, after the awaited one has finished.",
 ["programs","fault_sequences"],"every sequence of create, move, assign, resume, destroy",
 "Leaks and double destroys are not asserted.",
 ["Awl/Coro/Generator.h","Awl/Coro/AsyncGenerator.h","Awl/Coro/ProcessTask.h","Awl/Coro/UpdateTask.h"],[("handle ownership","coroutine wrappers")],["destroy and resume calls"])
p("T08","The time queue resumes each waiting coroutine once, in time order, not too early",
 "A coroutine that waits in a time queue is resumed exactly once for each wait, never before its time has passed, and coroutines that are due earlier are resumed first; a wait of no time does not suspend. Working off the queue ends when nothing waits any more, including waits that were started meanwhile, and does not sleep when nothing waits. Results and exceptions of the coroutines are kept, and their frames are destroyed.",
 ["inputs","schedules"],"any waits of any length",
 "Tests look at the overall result of a few waits, not at the order.",
 ["Awl/Testing/TimeQueue.h"],[("queue","TimeQueue::push, loop; TimeAwaitable; operator co_await")],["resumptions and clock"])
p("K01","Comparers are strict orderings and their siblings agree",
 "Every comparer of the library yields false for equal keys and never true in both directions, compares each key part with the same accessor on both operands, and consults a later part only if all earlier parts are equal. The overloads for object/object, object/key and key/object, and for plain, raw-pointer, smart-pointer elements, order the same keys the same way, and the reversing comparer is exactly the swapped base comparer.",
 ["inputs","programs"],"all values and element kinds",
 "Tests sort small samples.",
 ["Awl/KeyCompare.h","Awl/CompositeCompare.h","Awl/TransparentCompositeCompare.h","Awl/ReverseCompare.h"],[("comparison functors","KeyCompare and friends")],["primitive comparisons performed"])
p("K02","Decimal arithmetic is exact or raises an error",
 "A sum, difference, product, extension, rescaling, rounding (floor, ceil, truncate), normalization, negation, conversion to bits or to nanoseconds of decimals yields exactly the mathematical value, or raises an error if and only if that value does not fit the mantissa, the number of fractional digits or the duration (a checked rescale also if digits would be lost). Two decimals are equal, or ordered, exactly if their values are, whatever their digits and also if one of them is a negative zero. Text is parsed to the exact value it denotes; malformed text and text that does not fit is rejected; printing writes the sign, the integer part and all fractional digits. A mantissa or stored bits out of range are rejected. (A text without digits denotes zero; conversions to and from floating-point values are not covered.)",
 ["inputs"],"all operand pairs and strings",
 "Sampled values.",
 ["Awl/Decimal.h","Awl/DecimalData.h","Awl/DecimalConstants.h","Awl/DecimalTime.h"],[("overflow checks","decimal operators")],["arithmetic results"])
p("K03","Enum names and values are converted only inside the enumeration's table",
 "Converting an enumerator to its name, index or stored form and back accesses the table of names only at positions inside it and yields the corresponding name, index or enumerator; a value or name that is not in the table raises an error or is reported as absent. The table holds exactly the declared names in their order, however the declaration is spaced; the same holds for the names of reflected members.",
 ["inputs"],"all integer values and strings","Sampled values.",
 ["Awl/EnumTraits.h"],[("table lookup","EnumTraits")],["table accesses"])
p("K04","The 64-bit checksum is a true CRC of the bytes it is given",
 "The checksum consumes each input byte exactly once and in order through a table that is the one generated by its polynomial, so that any error burst of at most 64 bits in a block changes the checksum. Its serialised form is the same on all platforms.",
 ["inputs"],"all inputs","Sampled strings; a single wrong table entry affects 1/256 of the bytes.",
 ["Awl/Crypto/Crc64.h"],[("table-driven CRC","Crc64")],["table constants, update step"])
p("K05","Objects that refer to parts of themselves cannot be copied or moved apart",
 "A class whose instances hold references or pointers into themselves cannot be implicitly copied or moved, so no copy can end up referring to the internals of another, possibly destroyed, object.",
 ["programs"],"every program using these classes","Misuse compiles and works until the source dies.",
 ["Awl/Io/EuphoricallySerializable.h","Awl/Io/PersistentObject.h","Awl/Io/HeaderedSerializable.h","Awl/MirrorSet.h","Awl/ForeignSet.h","Awl/WatchDog.h"],[("special member functions","class definitions")],["type traits"])
p("K06","Static registration chains contain every registered object exactly once",
 "Every object registered by a static link before main is in its chain exactly once and is found there by its name (in the factory: by its name and signature; in the test map: by its name), regardless of the order in which translation units are initialised; an unknown name is reported as such, registering an equal name again neither removes nor replaces the earlier object, and the test map reports a duplicate test name as an error.",
 ["programs","configurations"],"every initialisation order","One order per build.",
 ["Awl/StaticChain.h","Awl/StaticFactory.h"],[("function-local list head","static_chain")],["chain contents"])
p("K07","128-bit integers are printed exactly; integers convert to byte arrays and back",
 "Printing an unsigned 128-bit integer writes exactly its decimal digits, padded with the fill character of the stream up to its width (on the side the stream asks for) and never beyond it; the width is used up. A signed one is printed with its minus, and refused with an exception, without printing anything, if a width is set. An optional value is printed as its value or as the word empty. to_array gives the bytes of any integer, the most significant one first, and from_array gives the same integer back.",
 ["inputs"],"every integer, width and fill",
 "Values of 128 bits cannot be enumerated; tests print a few without a width.",
 ["Awl/String.h","Awl/Int2Array.h"],[("printing","operator << for __uint128_t, __int128_t, std::optional"),("bytes","to_array, from_array")],["printed characters","bytes"])
p("K08","Texts compare and hash alike in every form; a hash sees every field and element",
 "The orders of C strings are lexicographic: by the characters, or by their lower case, a prefix first; the equalities hold exactly for texts that neither precedes. A fixed hash is given exactly the characters of its text (without the terminating zero), whether the text is a string, a view, a literal, a fixed string or a range, zero characters included. Equal hashable structures and vectors have equal hashes, and every field, element, their order and number influence the hash. position_changed tells exactly whether an element is out of order with a neighbour; clamp and sign give the nearest limit and the sign.",
 ["inputs"],"every pair of texts, every structure",
 "The relation has to hold for every pair of texts; tests compare a few.",
 ["Awl/String.h","Awl/Crypto/FixedHash.h","Awl/Hashable.h","Awl/RangeUtil.h","Awl/Math.h"],[("texts","CStringLess, CStringInsensitiveLess, StringEqual, StringInsensitiveEqual, FixedHash"),("structures","GetTupleHash, CombineHash, AWL_HASHABLE, hash of vector"),("values","position_changed, clamp, sign")],["result of the comparison","characters given to the hash"])
p("K09","The description of a type matches the type: members, names, collected types",
 "The tuple of a structure consists of references to exactly its listed members, in order; getters and the tuple helpers reach every element once, at its own index. The name of a type is determined by what is stored: types that are stored differently get different names and hashes (except that all structures are called 'struct' and packed booleans are called bytes), types that are stored alike get the same. The types collected from a structure are exactly those it stores, its deleted fields included, each once.",
 ["inputs"],"every structure and composition of types",
 "Stored files are matched by these names and lists; tests spell out a few of them.",
 ["Awl/Tuplizable.h","Awl/TupleHelpers.h","Awl/Getters.h","Awl/FixedString.h","Awl/TypeTraits.h","Awl/FunctionTraits.h","Awl/Reflection.h","Awl/Mp/TypeDescriptor.h","Awl/Mp/TypeCollector.h","Awl/Mp/TupleToVariant.h","Awl/Mp/TypeHash.h"],[("type names","type_descriptor"),("collection","type_collector, tuple_to_variant"),("tuples","for_each, transform_tuple, tuple_cast, map_types")],["types and constant expressions"])
p("N01","Decimal rounding and conversion give the mathematically right digit string",
 "Converting between decimals, integers, floating-point numbers and strings, rounding, flooring and rescaling return the mathematically specified value.",
 ["inputs"],"all values","Sampled values.",["Awl/Decimal.h"],[("numeric algorithms","decimal")],["results"])
p("N02","A value read back equals the value written",
 "For every supported type, reading what was written yields an equal value.",
 ["inputs"],"all values","Sampled values.",["Awl/Io/Rw/"],[("Read/Write pairs","Awl/Io/Rw")],["values"])
p("N04","The watchdog fires within its timeout",
 "A watchdog that is not fed reports within its timeout, and one that is fed in time never reports.",
 ["schedules"],"all schedules","Timing.",["Awl/WatchDog.h","Awl/StopWatch.h"],[("timed wait","watch_dog")],["time of report"])
for x in P: print(json.dumps(x))
