LIB = 'tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_tiny.cc tkrzw_dbm_baby.cc tkrzw_dbm_cache.cc tkrzw_dbm_std.cc'.split()
FILES = 'tkrzw_file_mmap.cc tkrzw_file_pos.cc tkrzw_file_std.cc tkrzw_file_util.cc'.split()

prop('C01', 'Every operation gives back the locks it took',
     'Whatever its arguments and whichever failure it runs into, a library operation returns with every lock it took '
     'given back in the mode it was taken, and never gives back a lock that it does not hold. Objects that own locks '
     'leave nothing locked after they are destroyed.',
     ['inputs', 'fault_sequences', 'schedules'],
     'every path through every public operation, including the ones taken after an I/O failure or a broken record',
     'a lock left behind on an error path hangs the next operation, but the tests do not inject I/O errors into the '
     'middle of multi-record operations, so those paths are never run',
     LIB + FILES + ['tkrzw_thread_util.h', 'tkrzw_message_queue.cc'],
     [('scoped guards', 'all database and file classes'), ('manual lock and unlock pairs over leaf nodes',
       'TreeDBMImpl::ProcessMulti, BabyDBMImpl::ProcessMulti'), ('hash locks', 'ScopedHashLock, ScopedHashLockMulti, HashMutex')],
     claim=('interprocedural path-sensitive lock-set analysis',
            'Covers every path the abstraction distinguishes (loops are widened; loops that lock an element per turn are '
            'matched by container). Trusts the clang front end, the standard library guards, and that callbacks do not '
            'touch the locks of the library.'))

prop('C02', 'Shared state is only touched under the lock that guards it',
     'Every member variable of a database, file, cache, iterator registry or queue class that several threads can reach '
     'is modified only while an exclusive lock is held, and is read only under a lock that every writer of it holds '
     'exclusively (or it is atomic, or it is not modified after construction). Operations documented to leave locking '
     'to the caller are outside.',
     ['schedules', 'programs'],
     'every pair of operations which threads may run at the same time on one object',
     'a data race shows only in a particular interleaving, and mostly not even then; the threaded tests run few '
     'operations against each other',
     LIB + FILES + ['tkrzw_thread_util.h', 'tkrzw_message_queue.cc', 'tkrzw_dbm_ulog.cc'],
     [('mutex_ of each database guards its members', 'all *DBMImpl classes'), ('iterator registries', 'iterators_ of each database'),
      ('slot mutexes', 'CacheSlot, PageCache, TinyDBM and HashDBM buckets'), ('file size and mapping', 'MemoryMapParallelFileImpl, PositionalAtomicFileImpl')],
     claim=('pairwise lock-set (guarded-by) analysis over the call graph',
            'Locks and fields are identified by class and field with access paths relative to the object. Objects made '
            'in the same function, and not yet shared, are exempt. The online rebuild of HashDBM and unlocked reads in '
            'ImportFromFile* are recorded findings.'))

prop('C03', 'No lock cycle and no self-deadlock',
     'No operation asks for a lock which its own thread already holds in a conflicting mode, and there is no set of '
     'operations whose lock requests could wait for each other in a circle. This holds for the locks of one database, '
     'its file, its caches and its records together.',
     ['schedules', 'programs'],
     'every combination of operations on one database or file by any number of threads',
     'a deadlock needs a particular interleaving of particular operations; the threaded tests sample a few',
     LIB + FILES + ['tkrzw_thread_util.h', 'tkrzw_message_queue.cc', 'tkrzw_dbm_hash_impl.cc'],
     [('order database, record or page, cache slot, file', 'lock guards of all database and file classes'),
      ('rebuild mutex outside everything', 'HashDBMImpl::Rebuild, TreeDBMImpl::Rebuild')],
     claim=('lock-order analysis over the call graph with modes and gate locks',
            'Locks are identified by class and field, so the order among several locks of one field (records, leaf '
            'nodes) is out of scope here. Databases passed by the caller and user callbacks are the caller\'s business.'))

prop('C07', 'A failed step is never reported as success',
     'When a function that returns a Status calls another one which returns a failure, directly or through a status '
     'pointer handed to it, then it returns a failure too (or hands the status over); it does not report success, and '
     'it does not overwrite the failure by a later success. Functions without a Status result do not throw a status '
     'away. Scans that look for damage, health probes and clean-up after another failure are outside.',
     ['inputs', 'fault_sequences'],
     'every call of a Status-returning function, failing on any path, in all classes of the library',
     'the tests inject no failures of files, loggers or databases underneath, so a dropped status is never observed',
     LIB + FILES + 'tkrzw_dbm.h tkrzw_dbm_shard.cc tkrzw_dbm_ulog.cc tkrzw_dbm_common_impl.cc tkrzw_dbm_hash_impl.cc tkrzw_dbm_skip_impl.cc tkrzw_message_queue.cc'.split(),
     [('status checks and merges', 'all functions returning tkrzw::Status'), ('status out parameters', 'record processors, zones')],
     claim=('path-sensitive static fault propagation (each Status result is assumed to fail and followed to the return)',
            'Decides dropping within a function; the failure code is SYSTEM_ERROR (all codes in the thorough tier). '
            'Update logger failures ignored by ProcessImpl of TreeDBM, TinyDBM, BabyDBM and CacheDBM, and node removal in '
            'MergeNodes, are recorded findings. Absorbed failures are listed with reasons in the check.'))

prop('C06', 'Operations refuse the states that forbid them, without side effects',
     'An operation on a database, iterator, queue or file object that is not opened returns PRECONDITION_ERROR; so does '
     'opening an object that is opened already, a modifying operation on an object opened read-only, and a writable '
     'Process, ProcessFirst, ProcessEach, ProcessMulti, iterator Process, import or Synchronize on a persistent database '
     'marked unhealthy. The refusal comes before any effect: no processor is called, nothing is logged, read or written.',
     ['inputs', 'histories', 'programs'],
     'every public operation in every state which forbids it, with any arguments',
     'the tests call few operations in a wrong state, and never check that a refused one did nothing',
     LIB + FILES + ['tkrzw_file_poly.cc', 'tkrzw_dbm_poly.cc', 'tkrzw_dbm_shard.cc', 'tkrzw_message_queue.cc'],
     [('checks of open_, writable_ and healthy_', 'all *DBMImpl and *DBMIteratorImpl classes'), ('checks of fd_ and file_', 'all file classes'),
      ('checks of dbm_ and files_', 'PolyDBM, MessageQueueImpl')],
     claim=('abstract interpretation of each operation from the forbidding state',
            'Covers some 300 listed pairs of operation and state. On-memory databases accept updates without being opened '
            'by design, so only their file operations are covered. Next and Previous of iterators rely on Close cancelling '
            'iterators instead.'))

DBMS = ['tkrzw_dbm_%s.cc' % x for x in ('hash', 'tree', 'skip', 'tiny', 'baby', 'cache', 'std')]

prop('C13', 'The update log records every update exactly once',
     'When an update logger is set, each modification of a record made by a database (through Process, ProcessMulti, '
     'ProcessFirst, ProcessEach, iterators and what is built on them, and Append) writes exactly one record to it: a set '
     'with the key and the complete new value as the caller gave it (not compressed), or a removal with the key. Clear '
     'writes one clearing record. Nothing is written if the record processor returns NOOP, if the mode is read-only, or '
     'if a missing record is removed. Databases in files write it before they modify anything, and leave the data alone '
     'if it fails.',
     ['inputs', 'histories', 'fault_sequences'],
     'every verdict of every record processor on every kind of record in each database class, with and without a logger',
     'the tests compare a few logs after a few operations on fresh data',
     DBMS,
     [('calls of WriteSet, WriteRemove and WriteClear', 'ProcessImpl, ProcessFirst, ProcessEach, AppendImpl, UpdateRecord, Clear and iterator Process of each class')],
     claim=('path-sensitive abstract interpretation per verdict of the record processor',
            'The functions which call a record processor are interpreted with each verdict; file databases must log first. '
            'On-memory databases may log after or before the change, under the same lock.'))

prop('C27', 'The record count follows every update exactly',
     'Each update changes the number of records of the database by what it did: +1 when a value is stored for a missing key, '
     '-1 when an existing record is removed, and 0 when an existing value is replaced, when the processor returns NOOP, when '
     'the mode is read-only, and when a missing record is removed. This holds on every path, including appending mode, free '
     'block reuse and iterators. (SkipDBM, which counts at synchronization, and the standard container databases, which '
     'ask their container, are outside.)',
     ['inputs', 'histories'],
     'every verdict on existing and missing records on each path of each update function',
     'the tests count after mixed operations, so that rare paths and compensating errors pass',
     [x for x in DBMS if 'skip' not in x and 'std' not in x],
     [('changes of num_records_', 'ProcessImpl of HashDBM, TreeDBM, TinyDBM, BabyDBM and CacheSlot, AppendImpl')],
     claim=('path-sensitive abstract interpretation per verdict of the record processor',
            'Counts increments and decrements of num_records_ between the call of the processor and the end of its transaction.'))

prop('C28', 'Verdicts of record processors are honoured',
     'What a record processor returns decides what happens to the record: after NOOP nothing is modified; after REMOVE an '
     'existing record is removed, and for a missing record nothing is modified; after a value, that value is what is stored. '
     'In the read-only mode nothing is ever modified whatever the processor returns, and in the writable mode the result of '
     'ProcessFull is never ignored.',
     ['inputs', 'histories', 'programs'],
     'every verdict of every record processor on each path of each processing function, iterators included',
     'the tests use few processors, which mostly return a value; rare combinations of verdict and record state are not run',
     DBMS,
     [('handling of the returned view', 'ProcessImpl, ProcessFirst, ProcessEach and iterator Process of each class')],
     claim=('path-sensitive abstract interpretation per verdict of the record processor',
            'Decides that the data is or is not modified and that the stored value is the returned one; not the byte layout.'))

prop('C29', 'Basic operations decide as documented on existing and missing records',
     'Get, Set, Remove, Append, CompareExchange, Increment and PopFirst, the Get, Set and Remove of iterators, and the '
     'processors of CompareExchangeMulti and Rekey ask for the documented change, return the documented status, and set the '
     'documented outputs, for an existing and for a missing record, for any combination of flags, of null and given output '
     'pointers, and of null, ANY and given views, equal or not. They process the record in the read-only mode if they cannot '
     'change it, and in the writable mode otherwise. This covers the overriding versions in HashDBM and SkipDBM.',
     ['inputs'],
     'every combination of arguments and record states of the basic operations',
     'the tests call each operation with a few combinations, mostly without optional outputs',
     ['tkrzw_dbm.h', 'tkrzw_dbm_hash.cc', 'tkrzw_dbm_skip.cc'],
     [('record processor classes', 'DBM in tkrzw_dbm.h'), ('overridden Get, Set and Remove', 'HashDBM and SkipDBM')],
     claim=('abstract interpretation against decision tables',
            'Every cell of the tables in checks/c29.py is compared: mode, verdict, status and outputs. SkipDBM::Set and Remove '
            'without old_value store blindly by design, and do not report duplicates or missing records.'))


prop('C05', 'Record processors run under a lock which excludes conflicting ones',
     'While a record processor which may modify a record runs, no other processor can run for the same record of the same '
     'database, and while one which only reads runs, no modifying one can: every call of a record processor by a database '
     'class, from Process, ProcessMulti, ProcessFirst, ProcessEach and the iterators, is made under a lock which every '
     'conflicting call must also hold, one of them exclusively. The update log is written under the same locks, so that its '
     'order is the order of the updates. ProcessMulti keeps all its record locks until its last processor has been called.',
     ['schedules', 'programs'],
     'every pair of calls of record processors from any two operations of one class, for all schedules',
     'a race between two processors of one record shows under rare schedules only, and the tests use few concurrent operations',
     DBMS,
     [('record locks', 'record_mutex_ of HashDBM and TinyDBM, leaf node mutexes of TreeDBM and BabyDBM, slot mutexes of CacheDBM')],
     claim=('lock-set analysis with pairwise comparison of call sites',
            'Locks are compared by class and field: that two calls for one record take the same instance (the same bucket, slot or '
            'node) is assumed. Announcements of ProcessEach do not concern a record and are left out.'))


prop('C21', 'Wrapping classes hand every call on unchanged',
     'The public database, iterator, file and message queue classes, PolyDBM with its iterators, PolyFile, and the index '
     'classes only wrap the object which does the work. Every method which that object has under the same name and signature '
     'hands the call on: on every path it is called exactly once, with each argument as given and in its place, and its '
     'result is returned. A wrapper without an object (an unopened PolyDBM) fails with PRECONDITION_ERROR instead. Methods '
     'which do more by design (Open, Close, Rebuild and Synchronize of PolyDBM, Open of PolyFile) are not covered.',
     ['inputs', 'programs'],
     'every method, argument value and state of the wrapping classes',
     'the tests exercise the wrappers with few argument values; a dropped flag or delimiter changes nothing they look at',
     ['tkrzw_dbm_*.cc', 'tkrzw_file_*.cc', 'tkrzw_index.h', 'tkrzw_message_queue.cc'],
     [('methods which return impl_->...', 'end of each tkrzw_dbm_*.cc and tkrzw_file_*.cc'), ('PolyDBM', 'tkrzw_dbm_poly.cc')],
     claim=('abstract interpretation with symbolic arguments',
            'Static methods and methods without a counterpart of the same name and signature are outside.'))


prop('C09', 'The C interface hands calls, lengths, statuses and results on faithfully',
     'Each function of the C interface calls the method it is named after exactly once, with its own arguments in their '
     'places: a negative length means strlen of that very string, any other length is taken as is, and null and ANY views are '
     'kept apart. The resulting Status becomes the last status, the function returns true exactly if it succeeds, and no pointer '
     'if it fails. Returned copies fit the memory allocated for them and the reported size is that of the copied data. '
     'Callbacks get the record and their NOOP, REMOVE or data is honoured. No exception of the library escapes.',
     ['inputs', 'programs'],
     'every function, every combination of lengths, null and ANY pointers and outcomes of the call behind',
     'the tests pass well-formed strings with few lengths, do not fail calls, and cannot see a copy which is one byte short',
     ['tkrzw_langc.h', 'tkrzw_langc.cc'],
     [('functions of the C interface', 'tkrzw_langc.cc'), ('callback wrappers', 'RecordProcessorWrapper in tkrzw_langc.cc')],
     claim=('abstract interpretation with symbolic arguments, linear comparison of allocations and copies',
            'Elements of arrays (the multi functions) are followed for the copies, not for the lengths of their inputs. Functions '
            'which open databases, files and indexes are only covered for exceptions and copies.'))


prop('C15', 'The metadata of a database file reads back as stored',
     'What HashDBM (and TreeDBM within it), SkipDBM and MessageQueue store in the metadata of their files is restored into the '
     'same fields on opening: every field is decoded from the offset and with the width of its encoding, fields do not overlap, '
     'and 64-bit numbers keep at least 48 bits. The copy of the tuning in the record header of HashDBM reads back likewise. '
     'Each standard key comparator of TreeDBM is restored as itself, and the update mode, record CRC mode and compression mode '
     'of HashDBM are recorded so that the stored flags give the same mode, CRC width and compressor.',
     ['inputs', 'histories'],
     'every field of the metadata, all 14 standard comparators, all 120 combinations of modes',
     'the tests reopen databases with few combinations, and a field restored from its neighbour is often equal or unused',
     ['tkrzw_dbm_hash.cc', 'tkrzw_dbm_tree.cc', 'tkrzw_dbm_skip.cc', 'tkrzw_message_queue.cc'],
     [('SaveMetadata / LoadMetadata / ReadMetadata / ParseMetadata', 'tkrzw_dbm_*.cc'), ('FindRecordBase', 'tkrzw_dbm_hash.cc'),
      ('SetTuning', 'tkrzw_dbm_hash.cc')],
     claim=('abstract interpretation of encoder and decoder, comparison of layout tables',
            'Closure flags and checks of plausibility on loading are outside, as are the record and node formats.'))

prop('C04', 'No wakeup of a waiting thread is lost',
     'A thread that waits on a condition variable of the library (workers of TaskQueue, WaitCounter::Wait, waiters of '
     'SignalBroker and KeySignalBroker, readers of MessageQueue) is woken whenever what it waits for happens: the change is '
     'made under the mutex of the waiters, or that mutex is locked between the change and the notification; each such change '
     '(also close and cancellation) is notified before it is reported as done; a change which concerns all waiting threads '
     'is notified to all of them; and the waiting thread looks at everything that should end its wait, after each wakeup.',
     ['schedules'],
     'every schedule of waiting threads and threads which end the wait',
     'a lost wakeup needs the notification to fall between the check and the sleep of another thread, a window of some '
     'nanoseconds; a test mostly notifies while all threads sleep',
     ['tkrzw_thread_util.h', 'tkrzw_message_queue.cc'],
     [('cond_ and what is waited for', 'TaskQueue, WaitCounter, SignalBroker, KeySignalBroker, MessageQueueImpl')],
     claim=('interprocedural path-sensitive typestate analysis of changes, mutexes and notifications',
            'All paths of all functions of the five classes. What ends a wait is a table of fields and operations in the '
            'check; it trusts that the waiting side holds the mutex between its check and its sleep, which the types '
            'enforce (std::unique_lock).'))

prop('C20', 'An asynchronous operation is the synchronous one on copies of its arguments',
     'Each operation of AsyncDBM copies its arguments (data of keys and values, flags, parameters) before it returns, so that '
     'the caller may change or free them; nothing in the queued task refers to memory of the caller or to memory that moves. '
     'The queued task calls the operation of the same name of the underlying database exactly once, with those arguments in '
     'their places (no data stays different from empty data, and ANY_DATA stays ANY_DATA), then tells the common postprocessor '
     '(or the record processor) the name and the status, and then fulfils, exactly once, the future which the caller got, '
     'with that status and the results of the operation.',
     ['inputs', 'schedules'],
     'every argument of every operation, whenever the worker thread gets to run it',
     'a view of memory of the caller reads right as long as the caller keeps it; a test waits for the future while its '
     'strings are still alive, and uses small strings and small batches',
     ['tkrzw_dbm_async.cc', 'tkrzw_dbm_async.h'],
     [('the *Task classes', 'AsyncDBM::Get ... AsyncDBM::SearchModal'), ('templates', 'AsyncDBM::Process, ProcessFirst, ProcessMulti, ProcessEach')],
     claim=('provenance analysis of task fields plus path-sensitive interpretation of methods and tasks',
            'All methods and all paths. Templates are analysed as instantiated for AsyncDBM::RecordProcessor. Objects '
            'documented to be used in place (databases, files, processors) are passed as pointers and not copied.'))

prop('C10', 'Synchronize and Close save everything, down to the lowest layer',
     'Whenever Synchronize of a database, queue, file index or update logger reports success, what is kept only in memory has '
     'been saved (metadata, cached pages of TreeDBM, records of SkipDBM in work, records of on-memory databases), after '
     'that the file or database below has been synchronized with the very "hard" flag of the caller, the update logger has been '
     'synchronized with it too, and the given processor has been called, once, after all that; HashDBM hardens the records '
     'before the metadata that vouch for them. Synchronize of a file with "hard" makes the system call that hardens it, '
     'after caches are written. Close saves likewise before it closes the layer below, '
     'and with OPEN_SYNC_HARD hardens the file. ShardDBM does it for each shard. (StdFile is documented to synchronize nothing.)',
     ['crash points', 'histories'],
     'every path of Synchronize and Close which reports success',
     'without a power failure nothing shows that a file was not hardened, or that it was before the data were written to it',
     ['tkrzw_dbm_*.cc', 'tkrzw_message_queue.cc', 'tkrzw_file_pos.cc', 'tkrzw_file_mmap.cc', 'tkrzw_dbm_ulog.cc'],
     [('Synchronize / Close', 'HashDBMImpl, TreeDBMImpl, SkipDBMImpl, BabyDBMImpl, TinyDBMImpl, CacheDBMImpl, StdDBMImpl, '
       'ShardDBM, MessageQueueImpl, *FileImpl, DBMUpdateLogger*')],
     claim=('path-sensitive abstract interpretation of saving and synchronizing calls',
            'That the saving functions save everything is the subject of C02, C07 and C15; here they are called '
            'where and when they must be. The ranges given to msync and fsync_range are not compared.'))


prop('C25', 'A failed Open leaves nothing open, and Close and destructors always close',
     'When Open (or OpenAdvanced) of a database, file or message queue fails, the file, database or descriptor below which it has opened '
     'is closed, the object is not marked as open, and so it can be opened again. When it succeeds the object is marked as '
     'open. Close of an open object closes what is below it (descriptor, memory mapping, file, database) and leaves the object '
     'marked as closed, even if saving or another step fails; the destructor of an open file or database closes it. Functions '
     'which open descriptors, directories or mappings (ReadFile, WriteFile, CopyFileData, ReadDirectory, SynchronizeFile, ...) '
     'release them on every path, once they are opened.',
     ['faults', 'inputs'],
     'every path of Open, Close and destructors of 13 classes and of all functions which open descriptors',
     'the tests hardly make system calls or files below fail, and do not open an object again after a failure',
     ['tkrzw_dbm_*.cc', 'tkrzw_file_*.cc', 'tkrzw_message_queue.cc', 'tkrzw_file_util.cc'],
     [('Open / Close', 'HashDBMImpl, TreeDBMImpl, SkipDBMImpl, on-memory *DBMImpl, PolyDBM, ShardDBM, MessageQueueImpl, *FileImpl, PolyFile'),
      ('functions with raw descriptors', 'tkrzw_file_util.cc')],
     claim=('path-sensitive typestate analysis with abstract interpretation of error paths',
            'Every system call and call to a layer below may fail independently. Local database and file objects are '
            'closed by their destructors and not followed. StdFile keeps its stream in a member which closes itself.'))


prop('C11', 'A rebuilt, restored or exported file replaces the live one only if complete',
     'When a database is rebuilt, restored, merged (SkipDBM) or exported (on-memory databases), or a file is written by WriteFileAtomic, the new '
     'file takes the place of the live one by a rename, and only if every step which makes the new file has succeeded: creating, '
     'writing, saving metadata, closing. The live file is never removed or truncated on the way. If a step fails the live file '
     'stays in use, also when the rename itself fails, and the temporary file is removed. With hard synchronization asked for '
     '(sync_hard of Rebuild, RESTORE_WITH_HARDSYNC of HashDBM and SkipDBM) the new file is hardened before the rename. A restoration '
     'in Open reads the records with the key of the encrypted database.',
     ['faults', 'crash points'],
     'every path of the functions which rename a file over another, with every step failing independently',
     'the tests make no step of a rebuild or restoration fail',
     ['tkrzw_dbm_hash.cc', 'tkrzw_dbm_skip.cc', 'tkrzw_dbm_tree.cc', 'tkrzw_dbm_{tiny,baby,cache,std}.cc', 'tkrzw_dbm_shard.cc', 'tkrzw_file_util.cc'],
     [('rename sites', 'HashDBMImpl::{OpenImpl,Open,RebuildImpl}, SkipDBMImpl::{Open,Rebuild,FinishStorage}, TreeDBMImpl::Open, '
       '*DBMImpl::ExportRecords, WriteFileAtomic, ShardDBM::RenameDatabase')],
     claim=('path-sensitive abstract interpretation with every step failing independently',
            'RESTORE_WITH_HARDSYNC in TreeDBM, and the order of rename and hardening in Synchronize, are not claimed. What the '
            'steps write is the subject of other properties.'))


prop('C08', 'A failing system call or a partial transfer never passes for success',
     'When a system call (open, read, write, pread, pwrite, sendfile, ftruncate, mmap, mremap, munmap, msync, fsync, fcntl, rename, unlink, mkdir, '
     'close, ...) or an operation of a file stream fails below an operation of a file or a file utility which returns a status, the operation '
     'returns a status other than SUCCESS. Only an error which the code asks for by its number (EINTR, ENOTEMPTY, ...) may be answered otherwise. When '
     'a call transfers only a part of the data, the rest is transferred from where it stopped, or the operation fails.',
     ['faults'],
     'every system call and stream operation of the library failing, on every path',
     'the tests hardly make a system call fail or transfer less than asked',
     ['tkrzw_file_*.cc', 'tkrzw_sys_util_posix.h', 'tkrzw_file_util.cc'],
     [('system calls', '*FileImpl, tkrzw_file_util.cc, PReadSequence, PWriteSequence, TruncateFile'), ('file streams', 'StdFileImpl')],
     claim=('path-sensitive abstract interpretation with every system call failing',
            'One call fails at a time. readdir, and functions without a status (GetSystemInfo, printing), are not claimed. What callers do with the '
            'status is the subject of C07.'))


prop('C30', 'Files are opened, locked and truncated exactly as asked for',
     'Open of MemoryMap*File and Positional*File opens a writable file for reading and writing (created unless OPEN_NO_CREATE), a read-only one '
     'only for reading. Unless OPEN_NO_LOCK is given, it holds a lock of the whole file before it alters the file and before it succeeds: '
     'an exclusive one if writable, else a shared one; with OPEN_NO_WAIT it does not wait for it. The file is emptied only with '
     'OPEN_TRUNCATE, and only by writable files, after the lock; it is mapped with the protection of its mode. Close alters the file before '
     'the lock is given up. Open of a database hands its mode and options to the file or database below and keeps them; a database file '
     'which is opened again meanwhile (synchronization, export, restoration) is not truncated, and waits and locks as asked for at first.',
     ['inputs', 'schedules'],
     'every path of Open for both modes and all combinations of options, with failing calls',
     'the tests open files in one process, where record locks have no effect',
     ['tkrzw_file_mmap.cc', 'tkrzw_file_pos.cc', 'tkrzw_dbm_*.cc'],
     [('Open, Close', 'MemoryMapParallelFileImpl, MemoryMapAtomicFileImpl, PositionalParallelFileImpl, PositionalAtomicFileImpl'),
      ('Open, Synchronize, ExportRecords', 'HashDBMImpl, TreeDBMImpl, SkipDBMImpl, BabyDBMImpl, TinyDBMImpl, CacheDBMImpl, StdDBMImpl')],
     claim=('path-sensitive abstract interpretation with constant modes and options, compared with a decision table',
            'StdFile has no locks and is not claimed; files of message queues are opened without options.'))


prop('C22', 'Iterators never point at what is gone',
     'An iterator of a database, of an index, or a reader of a message queue is known to its owner from its construction to its destruction, '
     'and detached when the owner is destroyed first. When an element of a map (StdDBM, StdIndex) or a node of BabyDBM is removed '
     'from memory, every iterator which points there, not just one, is moved on or loses its position before. After Close, Clear, '
     'rebuilding, and the replacement of the file no iterator keeps a position from before.',
     ['histories', 'inputs'],
     'every path of every removal, with any number of iterators at any positions',
     'the tests move few iterators and seldom two at one record when it vanishes; use of freed memory often goes unnoticed',
     ['tkrzw_dbm_{hash,tree,skip,tiny,baby,cache,std}.cc', 'tkrzw_index.h', 'tkrzw_message_queue.cc'],
     [('lists of iterators', 'iterators_ of *DBMImpl, StdIndex, StdIndexStr; readers_ of MessageQueueImpl'),
      ('removals', 'map_.erase in StdDBMImpl and StdIndex, delete of nodes in BabyDBMImpl')],
     claim=('path-sensitive typestate analysis over the registries of iterators',
            'An iterator which has moved on is not followed to the record it finds there (that is C51). Positions of TreeDBM and HashDBM '
            'iterators are keys and offsets: there only cancellation is demanded.'))


# ---- properties which static analysis cannot decide here ----

prop('C50', 'Stored values read back, and concurrent histories are linearizable',
     'A record reads back as the value which the latest update gave it, whatever sequence of updates, rebuilds, merges and reopenings '
     'came before, and any concurrent history of operations on a database is equivalent to a serial one.',
     ['histories', 'schedules'], 'every history of operations', 'tests sample a few histories', LIB,
     [('record layout and search', 'HashRecord, TreeDBM nodes, SkipRecord, on-memory tables')],
     na='Quantifies over the contents of heap and file after any history (chains of records, splits and merges of nodes); no sound '
        'static argument in reach bounds them. Its lock, verdict, count, log and codec parts are claimed as C01-C05, C13, C15, C27, C28.')

prop('C51', 'Ordered databases iterate in the order of the comparator',
     'TreeDBM, BabyDBM and SkipDBM visit each record once in the order of the comparator, from any jump, while records are added and removed.',
     ['histories', 'inputs'], 'every set of keys, comparator and interleaved update',
     'tests visit a few key sets', ['tkrzw_dbm_tree.cc', 'tkrzw_dbm_baby.cc', 'tkrzw_dbm_skip.cc'],
     [('nodes and links', 'TreeDBMImpl, BabyDBMImpl'), ('skip list', 'SkipDBMImpl')],
     na='The order is an invariant of unbounded linked nodes in heap and file; shape and content analysis of that kind is outside '
        'what a source-level analysis can decide here without a prover or running the code.')

prop('C52', 'After a crash every synchronized record is recovered',
     'After a crash at any point, opening with restoration brings back each record which was synchronized before, with a value which was set.',
     ['crash points', 'histories'], 'every crash point', 'tests copy files at quiet moments', ['tkrzw_dbm_hash.cc', 'tkrzw_dbm_skip.cc'],
     [('RestoreDatabase', 'HashDBM, TreeDBM, SkipDBM')],
     na='Quantifies over the bytes in the file at every crash point and the recovery run on them. The ordering duties behind it '
        '(write, harden, mark, rename) are claimed as C10 and C11.')

prop('C53', 'Caches and buffers stay within their configured bounds',
     'CacheDBM never holds more records or bytes than configured and evicts the least recently used; page and record caches of TreeDBM and '
     'SkipDBM stay within theirs.', ['histories'], 'every sequence of operations', 'tests fill caches once',
     ['tkrzw_dbm_cache.cc', 'tkrzw_containers.h', 'tkrzw_dbm_tree.cc', 'tkrzw_dbm_skip_impl.cc'], [('eviction', 'CacheSlot, LeafCache, SkipRecordCache')],
     na='A quantity of run-time memory over unbounded histories; the number of evictions needed is a numeric relation to sizes of heap blocks.')

prop('C54', 'Codecs, compressors, hashes and text functions compute what they promise',
     'Compression and encryption invert each other for every input; the hash functions equal their references; string, regular expression and '
     'edit-distance functions return the defined results.', ['inputs'], 'every input', 'tests use a few inputs',
     ['tkrzw_compress.cc', 'tkrzw_hash_util.cc', 'tkrzw_str_util.cc'], [('functions', 'Compressor classes, Hash*, Str*')],
     na='Value-level input/output relations of numeric loops; deciding them is a matter of proof or testing, not of dataflow.')

prop('C55', 'Key comparators are total orders',
     'Each standard comparator is a strict total order up to equivalence, consistent with equality of what it compares.', ['inputs'],
     'all triples of keys', 'tests compare a few pairs', ['tkrzw_key_comparators.cc'], [('comparators', 'tkrzw_key_comparators.cc')],
     na='Transitivity is a relation of three executions of numeric parsing loops; there is no dataflow fact which decides it.')

prop('C56', 'Searches find the records they describe',
     'Prefix, substring, regular expression, bound and edit-distance searches return just the matching keys, in the documented order and number.',
     ['inputs', 'histories'], 'every key set and pattern', 'tests search a few sets', ['tkrzw_dbm_common_impl.cc', 'tkrzw_file_util.cc'],
     [('SearchDBM*', 'tkrzw_dbm_common_impl.cc')],
     na='Depends on values of keys, and on heaps of candidates built at run time.')
