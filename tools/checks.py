"""Rule tables: which models, entries and rules decide each property."""
ABS = "abstract interpretation of the clang-18 LLVM IR of the current sources (disjunctive typestate x store domain, joins and widening), environment given by the listed models; "
CHECKS = {}
def chk(id, **k):
    # in every harness: an exception that leaves an entry, a loop that nothing leaves, an assertion of the library that fails
    k["rules"] = k.get("rules", []) + ["hang", "uncaught", "assert"]
    CHECKS[id] = k

SAVE = dict(unroll=24, harness="s01.cpp", deps=["Awl/Io/AtomicStorage.cpp"])
chk("S01", units=[dict(SAVE, entries=["vfh_save", "vfh_save_locked"])], rules=["S01.*"], covers=["saved", "failed"], min_functions=15,
    require=["S01.stop-after-error", "S01.backup-complete-before-main", "S01.main-complete-before-backup", "S01.main-written", "S01.backup-emptied", "S01.one-copy"],
    explain=ABS + "rule: two-file typestate (old/partial/full/cut/flushed) checked at every modifying system call reachable from a save, for every outcome of every call",
    assume=["a file counts as complete from its successful fsync on", "starts from an intact main file"])
chk("S03", units=[dict(SAVE, entries=["vfh_save_locked", "vfh_save_wrapped", "vfh_optional_mutex"])], rules=["S03.*", "mem.*"], covers=["saved", "failed", "optional mutex"], min_functions=15, require=["S03.adapters", "S03.no-io-under-lock", "S03.snapshot-under-lock", "S03.captured-snapshot", "S03.balanced", "S03.released-on-exit"],
    explain=ABS + "rule: lock typestate around snapshot and system calls on every path of a locked save")
chk("S02", units=[dict(SAVE, entries=["vfh_load"])], rules=["S02.*"], covers=["recovered", "loaded from main", "nothing to load"], min_functions=15,
    require=["S02.main-from-backup-only", "S02.backup-dropped-late", "S02.success-is-complete", "S02.main-restored", "S02.backup-emptied", "S02.good-file-is-loaded", "S02.only-copy", "S02.stop-after-error"],
    explain=ABS + "rule: two-file typestate of a load, from all 16 combinations of good/trailing/unusable/empty main and backup files and every outcome of every system call",
    assume=["the value's own reader changes the value only on success (W03)"])

NOT_APPLICABLE = {
    "N01": "numeric correctness over all values of 64/128-bit and floating-point arithmetic: no static domain in reach bounds it without handing the paths to a solver or running it",
    "N02": "value equality after a round trip quantifies over stored values; statically decidable is only the agreement of the two layouts (W01) and replacement of content (W04)",
    "N04": "a timing bound of the scheduler and clock, not a property of the source",
}
chk("S04", units=[dict(harness="s04.cpp", unroll=24, flags=["-DNDEBUG"])], rules=["S04.*"], min_functions=14,
    covers=["write stores all bytes", "read reports the delivered bytes", "seek sets the position", "move shifts the position", "flush syncs the file", "truncate cuts at the position", "length is the file size", "position is the file position", "end means position equals length", "create opens the file", "open opens the file", "failure write stores all bytes", "failure flush syncs the file"],
    require=["S04.own-descriptor", "S04.error-reported", "S04.effect", "S04.open-flags", "S04.own-arguments", "S04.existed", "S04.usable-file"],
    explain=ABS + "rule: every POSIX stream operation from an unknown position and size, every outcome of every system call, effect and arguments compared with the request")
chk("S05", units=[dict(harness="s05.cpp", unroll=24, deps=["Awl/Io/AtomicStorage.cpp", "Awl/Io/OptionalStorage.cpp"], flags=["-DNDEBUG"])], rules=["S05.*"], covers=["all owners gone"], min_functions=20,
    require=["S05.closed-once", "S05.no-leak", "S05.move-transfers", "S05.assign-closes", "S05.open-all-or-nothing", "S05.owner-keeps-open", "S05.close-closes", "S05.no-empty-close", "S05.knows-itself"],
    explain=ABS + "rule: descriptor typestate (never/open/closed) over all owner operations of handles, streams and storages, every open and close may fail")
chk("S06", units=[dict(harness="s06.cpp", flags=["-DNDEBUG"], unroll=24, transparent=["std::__cxx11::basic_string<", "std::basic_string_view", "std::_Hash_bytes"])], rules=["S06.*", "mem.*", "terminate"], covers=["write failed", "read failed", "stream finished"], min_functions=60,
    require=["S06.reported", "S06.unchanged", "S06.parts"],
    explain=ABS + "rule: each wrapper (plain, version tolerant, hashing, euphoric, its snapshot, headered) and the hashing stream write and read an unknown value over a stream of which any of the last 20 writes or reads throws an I/O exception, bad_alloc or another type, once or for good: that exception must reach the caller, no call may end in std::terminate, the object keeps its value",
    assume=["the failing operation is one of the last 20 on the underlying stream"])
chk("S07", units=[dict(harness="s07.cpp", deps=["Awl/Io/AtomicStorage.cpp", "Awl/Io/OptionalStorage.cpp"], flags=["-DNDEBUG"], unroll=24)], rules=["S07.*"], covers=["closed", "saved", "save failed", "load"], min_functions=25,
    require=["S07.closed-no-io", "S07.closed-usable", "S07.failure-logged", "S07.forwarded", "S07.same-value", "S07.same-lock"],
    explain=ABS + "rule: closed/open/failed typestate of the optional storage against the descriptor model, every system call may fail")
chk("S08", units=[dict(harness="s08.cpp", deps=["Awl/Io/AtomicStorage.cpp", "Awl/Io/OptionalStorage.cpp"], flags=["-DNDEBUG"], unroll=24, transparent=["std::__cxx11::basic_string<", "std::basic_string_view", "std::_Hash_bytes", "std::__str_concat", "std::operator+", "std::filesystem::"])], rules=["S08.*", "mem.*"], covers=["opened", "saved and loaded", "forwarded", "removed", "object"], min_functions=60,
    require=["S08.names", "S08.existed", "S08.empty", "S08.last-saved", "S08.released", "S08.removed", "S08.result", "S08.one-value"],
    explain=ABS + "rule: a byte-accurate model of the two files, known by name only: every combination of existing and empty files at open, every sequence of three saves, loads and reopenings of a storage, and a persistent object over its storage (a recording one, and the real ones)",
    assume=["the system calls succeed (their failures are S01 to S07)"])
chk("H01", units=[dict(harness="h01.cpp", flags=["-DNDEBUG"], unroll=8)], rules=["H01.*", "mem.*"], covers=["byte delivered", "corruption or failure raised", "end of stream"], min_functions=5,
    require=["H01.only-verified", "H01.own-hash", "H01.hash-of-payload", "H01.delivered-in-order", "H01.end-at-boundary"],
    explain=ABS + "rule: a byte may be delivered only where 'stored hash = hash computed over exactly this payload' is an established fact of the path; bytes and hash values are unknown symbols, the underlying stream delivers any piece or fails; two client reads with recovery after errors",
    assume=["block size 8 with a 2-byte hash represents all block and hash sizes"])
chk("H02", units=[dict(harness="h02.cpp", flags=["-DNDEBUG"], unroll=16)], rules=["H02.*", "mem.*"], covers=["all emitted", "failure reported"], min_functions=8,
    require=["H02.framing", "H02.own-hash", "H02.block-size", "H02.hash-of-payload", "H02.full-blocks", "H02.once", "H02.in-order", "H02.all-emitted", "H02.failure-reported"],
    explain=ABS + "rule: every block handed to the underlying stream is compared symbolically with the next unemitted bytes and with the hash computed over exactly them; any sequence of three writes of 0..9 unknown bytes, the wrapper with header and snapshot, a failure at any block",
    assume=["payload 4 with a 2-byte hash represents all block and hash sizes"])
VTS = ["std::__cxx11::basic_string<", "std::basic_string_view", "std::_Hash_bytes"]
chk("H03", units=[dict(harness="h03.cpp", unroll=24, leak=True, flags=["-DNDEBUG"])], rules=["H03.*", "mem.*", "terminate"], covers=["read", "written", "failure seen"], min_functions=8,
    require=["H03.block", "H03.end", "H03.count", "H03.bytes", "H03.failure", "H03.all"],
    explain=ABS + "rule: every sequence of three reads (or writes and flushes) of any length with blocks of 1 to 3 bytes over an underlying stream that delivers short pieces and may fail at any call; the unknown bytes on both sides are compared one by one",
    assume=["blocks of 1 to 3 bytes and streams of up to 8 bytes represent every size", "what is read after a failed read is not specified"])
chk("W01", units=[dict(harness="w01.cpp", flags=["-DNDEBUG"], unroll=24), dict(harness="w01w.cpp", flags=["-DNDEBUG"], unroll=24, transparent=VTS)], rules=["W01.*", "mem.*"], covers=["round trip", "wrapper round trip"], min_functions=80,
    require=["W01.consumes-all", "W01.same-value"],
    explain=ABS + "rule: for every serializable type the bytes the writer emits are recorded symbolically and the reader is analysed on exactly these bytes: it must accept them, consume all of them and nothing else, and reconstruct the value term by term",
    assume=["containers of 0 to 2 elements represent every size"])
chk("W04", units=[dict(harness="w04.cpp", flags=["-DNDEBUG"], unroll=24)], rules=["W04.*", "mem.*"], covers=["read over previous content"], min_functions=80, require=["W04.replaced"],
    explain=ABS + "rule: every serializable type is read over a non-empty previous value; the result must equal the recorded value term by term",
    assume=["containers of 0 to 3 elements represent every size"])
chk("W02", units=[dict(harness="w02.cpp", flags=["-DNDEBUG"], unroll=24, transparent=VTS, engine=["--max-alloc", "65536"]), dict(harness="w02.cpp", unroll=24, transparent=VTS, engine=["--max-alloc", "65536"]), dict(harness="w02h.cpp", flags=["-DNDEBUG"], unroll=24, transparent=VTS)],
    rules=["W02.*", "mem.*"], covers=["item replaced", "reported", "accepted", "too large", "header accepted", "header refused"], min_functions=80, require=["W02.bounded", "W02.valid", "W02.limit", "W02.header"],
    explain=ABS + "rule: in the recorded stream of every serializable type and of a version tolerant stream with its metadata, any one item read (size, selector, flag, index, text, number) is replaced with every class of other contents: small numbers, sizes that overflow a multiplication, the largest numbers, any other number; every access of the reader must stay inside its objects, no debug assertion may be reached (analysed with assertions on and off), a refusal must be an I/O exception or the failed allocation of the size in the stream; a length limit is applied exactly",
    assume=["one replaced item at a time", "allocations above 64 KB fail"])
chk("W03", units=[dict(harness="w03.cpp", flags=["-DNDEBUG"], unroll=24, transparent=VTS)], rules=["W03.*", "mem.*", "terminate"], covers=["read failed", "read succeeded", "read directly"], min_functions=80,
    require=["W03.accepted", "W03.unchanged", "W03.reported", "W03.complete"],
    explain=ABS + "rule: the plain and the version tolerant wrapper read a recorded stream (same version, another version, an incompatible version) into an object with unknown previous contents; any of the last 24 reads fails with an I/O exception, bad_alloc or an exception of another type, or the stream ends after any of its last 100 bytes: the object must then equal its previous value term by term, for movable types and for types holding std::atomic",
    assume=["the failing read is one of the last 24, the cut one of the last 100 bytes: earlier ones precede the object and are in the metadata"])
chk("W05", units=[dict(harness="w05.cpp", flags=["-DNDEBUG"], unroll=24, transparent=VTS)], rules=["W05.*", "mem.*"], covers=["another version read", "nested version read", "type mismatch", "cleared", "initialized", "type map"], min_functions=80,
    require=["W05.accepted", "W05.consumed", "W05.values", "W05.mismatch", "W05.not-found", "W05.representation", "W05.cleared", "W05.initialized", "W05.type-map"],
    explain=ABS + "rule: for every pair of versions (same, reordered, fields added, removed at each place, renamed, nested, in containers, in optional, in variant, mixed) the recorded stream of the old one is analysed through the reader of the new one: it must be accepted, consumed exactly, every member must get the stored field of its name and every other member keep its value; pairs of types with different representations must be refused, pairs with the same type name must read alike; one reader is cleared between two versions, told that an object has its own types, and given new names of types",
    assume=["containers of 0 to 2 elements represent every size", "the listed pairs represent the pairs of versions"])
chk("W06", units=[dict(harness="w06.cpp", flags=["-DNDEBUG"], unroll=24)], rules=["W06.*", "mem.*"], covers=["truncation reported"], min_functions=80, require=["W06.bounded"],
    explain=ABS + "rule: the recorded bytes of every serializable type are cut at every position; the read must end with the end-of-file exception",
    assume=["containers of 0 to 2 elements represent every size"])
chk("L07", units=[dict(harness="l07.cpp", flags=["-DNDEBUG"], unroll=24, leak=True)], rules=["L07.*", "mem.*"], covers=["state compared", "element constructor failed", "all destroyed", "positions compared"], min_functions=40,
    require=["L07.free-slot", "L07.live-source", "L07.destroy-live", "L07.size", "L07.no-lost-element", "L07.window", "L07.contents", "L07.iteration", "L07.after-failure", "L07.checked-access", "L07.default-empty", "L07.moved-from", "L07.given", "L07.iterator-arithmetic"],
    explain=ABS + "rule: slot typestate (free/live) of every element of the ring, checked at every element construction, copy, move and destruction of every ring operation; any element constructor may fail; contents compared with the sequence the operations imply",
    assume=["capacities 1 to 4 with every start and fill represent every capacity", "the allocator is stateless"])
chk("L08", units=[dict(harness="l08.cpp", flags=["-DNDEBUG"], unroll=16, leak=True)], rules=["L08.*", "mem.*"], covers=["handed out", "released", "creation failed", "pool gone", "nested make"], min_functions=20,
    require=["L08.deleted-while-owned", "L08.finalize-once", "L08.exclusive", "L08.valid", "L08.reused", "L08.failed-creation", "L08.clear", "L08.none-lost"],
    explain=ABS + "rule: ownership typestate (free, handed out, being finalized, deleted) of every object over any sequence of four make/release/share/clear steps with failing creation and with a finalizer that uses the pool",
    assume=["two owner slots and sequences of four operations represent every history", "the pool outlives the objects it handed out (asserted by the library)"])
chk("L09", units=[dict(harness="l09.cpp", unroll=16)], rules=["L09.*", "mem.*", "terminate"], covers=["guards left"], min_functions=8,
    require=["L09.exactly-once", "L09.at-the-end", "L09.init", "L09.moved-with-duty", "L09.replaced"],
    explain=ABS + "rule: duty typestate of every guard (engaged, released, moved from) on every normal and exceptional exit, for all combinations of construct, release, move and assign")
chk("L10", units=[dict(harness="l10.cpp", unroll=16, leak=True)], rules=["L10.*", "mem.*"], covers=["all owners gone", "creation failed"], min_functions=10,
    require=["L10.once", "L10.kept", "L10.value", "L10.transfer", "L10.replaced"],
    explain=ABS + "rule: ownership typestate (owned, transferred, released, deleted) of every object over all operations of the owning pointer; heap objects that become unreachable are leaks")
chk("L01", units=[dict(harness="l01.cpp", unroll=24)], rules=["L01.*", "mem.*"], covers=["lists compared", "element moved"], min_functions=60,
    require=["L01.forward", "L01.backward", "L01.size", "L01.ends", "L01.detached", "L01.mutual", "L01.bystander", "L01.reinserted"],
    explain=ABS + "rule: link typestate (successor/predecessor mutual, detached on both sides) of every element after every list operation at every position; both traversals compared with the order the operation implies, elements also linked into a second, uninvolved list",
    assume=["lists of 0 to 3 elements represent every length: an operation touches a link and its two neighbours"])
OBS = dict(harness="l02.cpp", unroll=24, flags=["-DNDEBUG"])
chk("L02", units=[dict(OBS, entries=["vfh_lifetime", "vfh_ctl_late"])], rules=["L02.*", "mem.*"], covers=["verified", "all gone"], min_functions=30,
    require=["L02.exactly-registered", "L02.counted", "L02.self-knowledge", "L02.moved-from"],
    explain=ABS + "rule: liveness typestate of observers and observables (heap objects that are freed when they die: any later access is reported) over any sequence of three subscribe/unsubscribe/move/assign/destroy operations followed by destruction in either order; after each one exactly the registered observers are notified",
    assume=["three observers and two observables represent any number: an operation touches one registration and its neighbours", "nothing is moved onto itself"])
chk("L03", units=[dict(OBS, entries=["vfh_notify", "vfh_ctl_late"])], rules=["L03.*", "mem.*"], covers=["notified"], min_functions=20,
    require=["L03.argument", "L03.each-once", "L03.in-order", "L03.reported", "L03.removed"],
    explain=ABS + "rule: every combination of self-removal (four ways, including destruction) by each of up to three observers while they are notified; a link of a removed or destroyed observer that is read again is reported",
    assume=["zero to three observers represent any number", "an observer removes only itself"])
chk("L06", units=[dict(harness="l06.cpp", unroll=80, flags=["-DNDEBUG"], leak=True)], rules=["L06.*", "mem.*"], covers=["compared", "looked up", "all gone", "element copy failed", "removed from any tree", "inserted into any tree"], min_functions=60,
    require=["L06.links", "L06.order", "L06.count", "L06.list", "L06.size", "L06.iteration", "L06.find", "L06.index", "L06.access", "L06.bounds", "L06.inserted", "L06.erased", "L06.unique", "L06.copy", "L06.moved-from", "L06.destroyed", "L06.allocator"],
    explain=ABS + "rule: after every insertion and removal the parent, child and count fields of every node, the list threaded through the nodes and all lookups (by key, index, bound, iterator) are compared with the order the operations imply; the rank of every inserted element is unknown, element copies may fail, nodes are owned by exactly one set and one allocator",
    assume=["all histories of up to 4 elements (thorough: 5), selected ones of 11, one operation on every red-black tree of black height 1 and 2, one removal from every tree of a class without the black height rule, represent every tree: an operation touches a path and the siblings along it", "the comparer is a strict weak order and does not throw"])
chk("L11", units=[dict(harness="l11.cpp", unroll=80, flags=["-DNDEBUG"])], rules=["L11.*", "mem.*"], covers=["balanced", "colours compared", "inserted", "removed", "inserted high", "inserted into any tree", "removed from any tree"], min_functions=20,
    require=["L11.tree", "L11.root", "L11.red", "L11.black-height", "L11.black-leaf"],
    explain=ABS + "rule (inductive invariant): for every valid red-black tree of the enumerated classes, after an insertion at any place and after the removal of any element the root is black, no red node has a red child, every path has the same number of black nodes; every valid tree is built, also one that no operation of the set produces; the colour rules also from every tree that is not balanced",
    assume=["every red-black tree of black height 0 to 2, and every coloured tree of four levels, represent every tree: a step of the fix-up sees a node, its parent, its sibling and the sibling's children"])
chk("L04", units=[dict(harness="l04.cpp", unroll=24, flags=["-DNDEBUG"])], rules=["L04.*", "mem.*"], covers=["added", "removed", "cleared", "all announced"], min_functions=60,
    require=["L04.only-changes", "L04.exact", "L04.added-present", "L04.removed-present", "L04.cleared-present", "L04.announced", "L04.content", "L04.result", "L04.unsubscribed", "L04.reads"],
    explain=ABS + "rule: every callback of two observers is compared with the change being made (kind, element, presence of the element at this moment) for any content and any sequence of two operations of the observable set, including emplace, migration, move and destruction",
    assume=["contents of 0 to 3 elements and two observers represent every size"])
chk("L05", units=[dict(harness="l05.cpp", unroll=24, flags=["-DNDEBUG"])], rules=["L05.*", "mem.*"], covers=["mirrors compared", "groups compared", "source gone"], min_functions=80,
    require=["L05.value", "L05.no-empty-group", "L05.one-group", "L05.right-group", "L05.once", "L05.not-stale", "L05.foreign-follows", "L05.initial", "L05.mirror-follows", "L05.moved", "L05.detached", "L05.reads", "L05.announced"],
    explain=ABS + "rule: mirrors, mirrors of mirrors and foreign-key sets are compared with their source after any initial content and any sequence of two (thorough: three) source operations, after moves, and when either side dies first",
    assume=["three keys in two groups represent every content", "the keys of a contained element do not change"])
THR = ABS + "two threads are analysed together: the other thread may start, be suspended and continue at every lock, atomic operation, wait and callback of the analysed call chain; "
chk("T01", units=[dict(harness="t01.cpp", unroll=24, leak=True)], rules=["T01.*", "mem.*", "terminate"], covers=["update executed", "cleared", "update threw", "posting failed", "queue finished"], min_functions=15,
    require=["T01.lockset", "T01.balanced", "T01.executed-once", "T01.in-order", "T01.executed", "T01.outside-lock", "T01.exception", "T01.released"],
    explain=THR + "rule: lockset of every byte of the queue, lock balance at every exit, and a typestate (pending, executed, cleared, dropped, released) of every update",
    assume=["two threads and up to eight updates represent every history", "one processing thread at a time, as the library requires", "a call of the other thread that falls between two lock operations completes there"])
chk("T02", units=[dict(harness="t02.cpp", unroll=24)], rules=["T02.*", "threads.*", "mem.*", "terminate"], covers=["requested", "returned", "sleeps", "timed out", "finished"], min_functions=2,
    require=["T02.missed", "T02.balanced", "T02.early", "T02.forever", "T02.duration"],
    explain=THR + "rule: a thread that blocks must be unaware of no pending stop request; the deadline of the wait is the requested one; every mutex is released; no circular wait between the sleeper and the stop callback",
    assume=["the other thread is suspended at most once of its own accord (and whenever it must wait)", "the standard library's stop_token is analysed from its headers; mutexes, condition variables and clocks are modelled"])
chk("T03", units=[dict(harness="t03.cpp", unroll=24, leak=True)], rules=["T03.*", "threads.*", "mem.*", "terminate"], covers=["joined", "logged", "thread ended", "timed out", "stopped", "destroyed"], min_functions=5,
    require=["T03.reported", "T03.dead", "T03.join", "T03.stop", "T03.early", "T03.balanced", "T03.once"],
    explain=THR + "the owned thread is the other thread, from its creation on; rule: everything that the thread reaches through its owner is initialised and alive whenever it runs, and the owner is not gone before the thread is joined",
    assume=["the owner of a thread in the library is watch_dog; the thread is created and joined through std::thread or std::jthread of libstdc++, whose inline code is analysed too"])
chk("T04", units=[dict(harness="t04.cpp", unroll=24, leak=True, std="gnu++17", include=["Extras/JThread/JThreadExtras"], engine=["--gaps", "stop_token.hpp"])], rules=["T04.*", "threads.*", "mem.*", "terminate"],
    covers=["callback", "deregistered", "others ran", "ran in the registering thread", "ran in the requesting thread", "registered late", "two requests", "destroyed inside", "registered inside", "other callback running", "shared", "values", "dropped", "list", "in any order", "source gone", "thread 1 waits", "other thread waits"], min_functions=30,
    require=["T04.running", "T04.late", "T04.once", "T04.early", "T04.one-requester", "T04.requested", "T04.possible", "T04.unlocked", "T04.balanced"],
    explain=THR + "here also at every access of the stop state's own code to memory that is not local; rule: typestate of every callback (registered, executing in a thread, executed, gone) and of the shared state (heap lifetime, leaks)",
    assume=["sequentially consistent atomics", "one or two voluntary suspensions of the other thread", "up to three callbacks represent every list", "a stop source outlives the request made on it unless the last callback destroys it"])
chk("T05", units=[dict(harness="t05.cpp", unroll=24, leak=True, std="gnu++17", include=["Extras/JThread/JThreadExtras"])], rules=["T05.*", "threads.*", "mem.*", "terminate"],
    covers=["joined", "detached", "let go", "move-assigned", "destroyed", "arguments", "no thread", "failed"], min_functions=15,
    require=["T05.joinable", "T05.joined-once", "T05.stop-first", "T05.arguments", "T05.own-token", "T05.moved", "T05.stop", "T05.joined", "T05.ran"],
    explain=ABS + "rule: typestate of every thread (running, asked to stop, joined, detached) along every sequence of three (thorough: four) operations on handles; a joinable std::thread that dies calls std::terminate",
    assume=["two handles and a temporary represent every program", "a thread's function runs either at its start or when it is joined (the schedules in between are T04's)", "self-move-assignment is not analysed"])
chk("T06", units=[dict(harness="t06.cpp", unroll=24, leak=True, std="gnu++17", include=["Extras/JThread/JThreadExtras"])], rules=["T06.*", "threads.*", "mem.*", "terminate"],
    covers=["waits", "waits to its end", "predicate throws", "notified", "destroyed early", "stopped", "returned", "satisfied", "interrupted", "timed out", "other woken", "notified all"], min_functions=20,
    require=["T06.balanced", "T06.released", "T06.stop-missed", "T06.notify-missed", "T06.deadline", "T06.predicate-locked", "T06.result", "T06.gives-up", "T06.notify"],
    explain=THR + "rule: typestate of the caller's lock at every exit and while blocked; a thread that blocks must have no pending notification or stop request; no circular wait; the internal state outlives the object while a notified thread returns",
    assume=["a waiter and one notifier or requester", "the other thread is suspended at most once of its own accord", "relocking the caller's lock does not throw", "the condition changes only under the caller's lock"])
chk("T07", units=[dict(harness="t07.cpp", unroll=24, leak=True)], rules=["T07.*", "mem.*", "terminate"], covers=["generator threw", "generator abandoned", "generator moved", "task abandoned", "task finished", "awaited", "consumer abandoned", "chained", "operations on tasks", "released", "async generator", "async generator threw", "async generator abandoned", "terminated", "variable yielded", "async generator moved"], min_functions=40,
    require=["T07.frame", "T07.values", "T07.exception", "T07.lazy", "T07.moved-from", "T07.ready", "T07.released", "T07.resumed", "T07.resumed-early"],
    explain=ABS + "rule: lifetime typestate of every coroutine frame (created, suspended, finished, destroyed once) and of every exception over all sequences of create, move, assign, resume, release and destroy; heap frames that become unreachable are leaks",
    assume=["sequences of four operations on two task objects and generators of up to two values represent every program", "a consumer outlives the task it awaits, or is destroyed after it"])
chk("T08", units=[dict(harness="t08.cpp", unroll=24, leak=True, flags=["-DNDEBUG"])], rules=["T08.*", "mem.*", "terminate"], covers=["worked off"], min_functions=20,
    require=["T08.once", "T08.not-early", "T08.order", "T08.result", "T08.frame"],
    explain=ABS + "rule: on every path of up to three coroutines with waits of different and equal lengths, one of which waits again and one of which fails, every resumption is compared with what waits at this moment and with the time",
    assume=["three coroutines and four lengths of waits (none, equal ones and different ones) represent every number", "the clock advances with every look at it and by at least the time slept"])
chk("L12", units=[dict(harness="l12.cpp", unroll=24, leak=True, entries=["vfh_l12*", "vfh_ctl_l12"], flags=["-DNDEBUG"])], rules=["L12.*", "mem.*"], covers=["called"], min_functions=8,
    require=["L12.cancel", "L12.early", "L12.value", "L12.all", "L12.call", "L12.leak"],
    explain=ABS + "rule: every sequence of up to five settings (in any order, repeated) and cancellations is analysed with unknown argument values; the call is compared with what is set at this moment",
    assume=["one and three arguments, taken by value, by reference and movable only, represent every signature", "setting an argument again after the call is not specified"])
chk("L13", units=[dict(harness="l12.cpp", unroll=24, leak=True, entries=["vfh_l13*", "vfh_ctl_l13"], flags=["-DNDEBUG"])], rules=["L13.*", "mem.*"], covers=["instance", "gone"], min_functions=2,
    require=["L13.destroyed", "L13.failure", "L13.once", "L13.instance", "L13.same"],
    explain=ABS + "rule: every sequence of up to five requests, releases and failing constructions is analysed; the number of instances made and alive and the identity of what is returned are compared with the history",
    assume=["up to three users represent every number", "requests come from one thread"])
chk("K07", units=[dict(harness="k07.cpp", unroll=80, transparent=["std::operator<<", "std::basic_ostream<char16_t", "std::__cxx11::basic_string<", "std::basic_string_view"], flags=["-DNDEBUG"])], rules=["K07.*", "mem.*"], covers=["printed", "bytes"], min_functions=6,
    require=["K07.print", "K07.width", "K07.refused", "K07.optional", "K07.bytes", "K07.back"],
    explain=ABS + "rule: numbers of 1 to 39 unknown digits are printed to a stream that records every character, with every combination of width, fill and side; every byte of the array of an unknown integer is compared with its bits",
    assume=["the digit counts 1, 2, 3, 19, 20, 38 and 39 and the limits of the types represent all numbers", "the stream pads strings like the standard one"])
chk("K08", units=[dict(harness="k08.cpp", unroll=24, leak=True, transparent=["std::operator", "std::__cxx11::basic_string<", "std::basic_string_view"])], rules=["K08.*", "mem.*"], covers=["compared", "hashed", "fields hashed", "placed", "limited"], min_functions=10,
    require=["K08.order", "K08.equal", "K08.hash-form", "K08.hash-equal", "K08.hash-field", "K08.position", "K08.clamp", "K08.sign"],
    explain=ABS + "rule: every pair of texts of up to two characters is compared in both directions with the lexicographic order; a hash that records what it is given is applied to every form of every text; structures of unknown fields are hashed",
    assume=["texts of up to two of five characters (both cases of a letter, its successor, one between the cases, one outside of ASCII) represent every text", "the lower case of a character is that of the C locale"])
chk("L14", units=[dict(harness="l14.cpp", unroll=24, opaque=["awl::basic_format"], transparent=["std::operator", "std::__cxx11::basic_string<", "std::basic_string_view"])], rules=["L14.*"], covers=["conditions", "exceptions", "attributes"], min_functions=8,
    require=["L14.condition", "L14.equal", "L14.fail", "L14.throws", "L14.attribute"],
    explain=ABS + "rule: every assertion is applied to unknown values and to a function that throws nothing, the expected exception, a derived one, another one or a failed assertion; the exception that leaves the assertion is compared with what its condition implies",
    assume=["messages are formatted without failing"])
chk("L15", units=[dict(harness="l15.cpp", unroll=24, opaque=["awl::basic_format", "std::__cxx11::basic_ostringstream", "std::basic_ostream", "std::basic_ios", "std::basic_streambuf", "std::endl", "awl::operator<<", "std::chrono"], transparent=["std::__cxx11::basic_string<", "std::basic_string_view", "std::operator"])],
    rules=["L15.*", "mem.uaf", "mem.oob", "mem.null", "mem.doublefree"], covers=["chain", "all run", "one run", "options", "duplicates"], min_functions=40,
    require=["L15.registered", "L15.shutdown", "L15.run", "L15.count", "L15.context", "L15.outcome", "L15.loop", "L15.output", "L15.duplicate"],
    explain=ABS + "rule: the chain and the map are analysed with three registered tests that record their runs, for every selection, name (registered or not), option and failing run; the record is compared with the selection, and the failure that leaves the map with the failure of the test",
    assume=["three tests represent any number", "formatting, streams and clocks are opaque and do not fail"])
TYPES = "type-level witnesses compiled against the current headers: "
chk("K05", units=[dict(static="k05.cpp", min=28)], rules=["K05.*"], no_engine=True, technique="compile-time witnesses (static assertions over type traits)",
    explain=TYPES + "every class with references or pointers into itself, or to which other objects refer, must not be copy (and where nothing re-registers it, not move) constructible or assignable")
chk("K04", units=[dict(static="k04.cpp", min=12, flags=["-fconstexpr-steps=2000000000"])], rules=["K04.*"], no_engine=True, technique="compile-time witnesses (static assertions on constant expressions)",
    explain=TYPES + "the compiler folds the checksum on an affine basis of the seeds and messages of each length and compares it with the polynomial division: all 256 table entries under a basis of states, all lengths up to 80, block-sized messages, byte and wide elements, single-pass iterators, the serialised form",
    assume=["the checksum is affine over GF(2) in seed and message, so a basis decides a length"])
chk("K09", units=[dict(static="k09.cpp", min=28, flags=["-fconstexpr-steps=200000000"]), dict(harness="k09b.cpp", unroll=24)], rules=["K09.*", "mem.*"], covers=["members", "compared", "getters", "each", "transformed", "arrays", "similar", "strings", "addresses"], min_functions=30,
    require=["K09.members", "K09.compared", "K09.getters", "K09.each", "K09.transformed", "K09.arrays", "K09.similar", "K09.strings", "K09.addresses"],
    technique="abstract interpretation of LLVM IR with typestate rules; compile-time witnesses (static assertions over types and constant expressions)",
    explain=ABS + "the compiler builds the names, hashes and collections of types of every kind and compares them with their spelled-out names and the lists of the types that they store; tuples of members, getters and helpers are analysed on unknown values with elements that record the visits",
    assume=["the helpers are templates: tuples of two to four elements represent all"])
chk("K01", units=[dict(harness="k01.cpp", unroll=24, flags=["-DNDEBUG"])], rules=["K01.*", "mem.*"], covers=["compared", "mixed compared", "strings"], min_functions=60,
    require=["K01.same-accessor", "K01.earlier-equal", "K01.configured", "K01.order", "K01.irreflexive", "K01.compared", "K01.siblings", "K01.memberwise", "K01.strings"],
    explain=ABS + "rule: every comparer and each of its overloads is analysed on two objects with unknown key parts in every order; each primitive comparison it performs is checked for the parts it compares and for the parts consulted before, its answer against the order of the keys",
    assume=["three key parts represent any number", "the key type's own order is a strict weak order"])
_K02 = dict(harness="k02.cpp", unroll=24, transparent=["std::basic_ostream<OutC", "std::operator<<<OutC", "std::__cxx11::basic_string<", "std::basic_string_view"])
chk("K02", units=[dict(_K02, flags=["-DNDEBUG", "-DUINT=" + u, "-DEXPLEN=" + e]) for u, e in (("uint64_t", "4"), ("uint64_t", "5"), ("__uint128_t", "4"), ("__uint128_t", "6"))],
    rules=["K02.*", "mem.*"], covers=["sum", "sum refused", "product", "product refused", "extended", "extension refused", "rounded", "precision loss refused", "normalized", "ordered", "compared", "value", "bits restored", "nanoseconds", "text", "text refused", "zeros", "printed"], min_functions=40,
    require=["K02.refused", "K02.overflow", "K02.sum", "K02.product", "K02.extend", "K02.digits", "K02.round", "K02.precision", "K02.normalize", "K02.order", "K02.equal", "K02.parts", "K02.negate", "K02.bits", "K02.nanoseconds", "K02.text", "K02.parse", "K02.print"],
    explain=ABS + "rule: every operation is analysed on mantissas that are unknown integers (or sums of unknown parts at powers of ten) and every mix of signs and digit counts out of a list; on every path the result must equal the exact integer result, and a path may raise an error only if the exact result does not fit",
    assume=["the digit counts 0, 1, 3, 9, 14 and the largest one represent all (thorough: 13 to 15 of them)", "mantissas in the comparisons and roundings are sums of an integer part and a fraction, each of any value", "strings of up to 4 characters, of as many digits as the largest mantissa has and of long runs of zeros represent all"])
chk("K03", units=[dict(harness="k03.cpp", unroll=24, ctors=True, flags=["-DNDEBUG"])], rules=["K03.*", "mem.*"], covers=["accepted", "refused", "named", "members"], min_functions=25,
    require=["K03.table", "K03.validated", "K03.name", "K03.index", "K03.known-name", "K03.unknown-name", "K03.members", "K03.found", "K03.absent"],
    explain=ABS + "rule: every conversion between values, indices, names and stored bytes is analysed for every value inside the enumeration and an unknown value outside of it, and for names of all kinds (equal, other case, prefix, extension, unknown); every table access must be inside the table",
    assume=["enumerations of 1 and 4 enumerators and records of 0, 1 and 3 members represent every size"])
chk("K06", units=[dict(harness="k06.cpp", deps=["Awl/Testing/TestMap.cpp"], unroll=24, ctors=True, flags=["-DNDEBUG"])], rules=["K06.*", "mem.*"], covers=["any order", "created", "unknown name", "any chain", "test map", "duplicate reported"], min_functions=25,
    require=["K06.once", "K06.found", "K06.own-value", "K06.absent", "K06.factory", "K06.map", "K06.duplicate", "K06.shutdown"],
    explain=ABS + "rule: the static initialisers are analysed in an order where links are constructed before and after everything else; for any sequence of registrations with any names the chain, the lookup, the factory and the test map must contain exactly the registered objects",
    assume=["zero to three links and three names represent any number"])
