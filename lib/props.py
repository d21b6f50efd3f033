"""property id -> (module, function, explanation of what is analysed, assumptions)"""

COMMON = ('Path-sensitive typestate/dataflow analysis of the compiler IR of /repo\'s current headers and sources (clang -O0 with CORO and symmetric transfer, lowered by a fixed pass list; '
          'regenerated on every run). Each public operation is an entry point analysed with symbolic arguments; values are tracked by an abstract store with branch facts (no solver, nothing is executed); '
          'the continuation of a step at later callbacks (Call/Drop/Here/Next) is analysed from the abstract state the registration left behind, so every history of a step is covered whatever the interleaving. ')

ASSUME = ['client code keeps the documented threading contract and calls no operation on an invalid handle',
          'allocation does not fail; calls through IExecutor/InlineCore/Job interfaces not visible in the entry behave as their contracts say (each implementation is itself analysed)',
          'atomic operations on one word are linearizable; the hand-off rules are checked per operation']

PROPS = {
    'C01': ('rules_core', 'c01', COMMON + 'Rules: every registration, fulfilment, destroy, Get and Connect operation on the callback word of a unique state.', ASSUME),
    'C02': ('rules_core', 'c02', COMMON + 'Rules: routing by signature, exception capture, unwrapping, passing unchanged inputs, for every signature x attachment form x resume kind.', ASSUME),
    'C03': ('rules_core', 'c03', COMMON + 'Rules: ownership typestate of every object of a step (functor, results, references, caller, executor) over complete histories, and of every handle operation.', ASSUME),
    'C04': ('rules_hb', 'c04', COMMON + 'Rules: the memory order every publication, observation and hand-over needs, the ordering of every pair of accesses to an object shared between the callbacks of a combinator, lock coverage of guarded state, and no access after an object was given up.', ASSUME),
    'C05': ('rules_core', 'c05', COMMON + 'Rules: placement of steps, executor inheritance, Call xor Drop of every job.', ASSUME),
    'C06': ('rules_core', 'c06', COMMON + 'Rules: shared states: registration, fulfilment walk, reference thresholds of moving, readiness.', ASSUME),
    'C07': ('rules_exe', 'c07', COMMON + 'Rules: Strand::Submit/Call/Drop as operations on the inbox word, for all list lengths up to the loop bound.', ASSUME),
    'C08': ('rules_exe', 'c08', COMMON + 'Rules: critical sections of FairThreadPool::Submit/Stop/SoftStop/HardStop/Loop/Wait on an arbitrary pool state, and its queue.', ASSUME),
    'C09': ('rules_when', 'c09', COMMON + 'Rules: every completion history of WhenAll/Join (static, iterator, tuple, unique, shared and mixed inputs) against the policy.', ASSUME),
    'C10': ('rules_when', 'c10', COMMON + 'Rules: every completion history of WhenAny (static, iterator, unique, shared and mixed inputs) against the policy.', ASSUME),
    'C11': ('rules_event', 'c11', COMMON + 'Rules: accounting of registrations, counter and ready flag on every path of Wait/WaitFor/WaitUntil, and the completion callbacks.', ASSUME),
    'C14': ('rules_mutex', 'c14', COMMON + 'Rules: every operation of Mutex (all four option combinations) on the lock word and waiter list, and the guards.', ASSUME),
    'C15': ('rules_shared', 'c15', COMMON + 'Rules: every operation of SharedMutex (all four option combinations) on its counters, queues and writer list under the spinlock, and the guards.', ASSUME),
    'C16': ('rules_event', 'c16', COMMON + 'Rules: every operation of OneShotEvent and WaitGroup on the waiter list, the counter and the waiters.', ASSUME),
    'C13': ('rules_coro', 'c13', COMMON + 'Rules: coroutine bodies lowered by the compiler around every kind of co_await, driven through every completion order and overlap, every Call/Drop of the executors and every fate of the handle.', ASSUME),
    'C20': ('rules_alloc', 'c20', COMMON + 'Rules: number of allocations on every path of every operation and over the whole life of every step and combinator.', ASSUME),
    'C19': ('rules_atomic', 'c19', 'Translation validation of yaclib_std::atomic/atomic_flag/fences against std::atomic on the compiler IR of the current headers, in both backends. For every operation x type (22 types) x volatile/plain x memory-order overload an obligation function constructs both atomics over arbitrary storage and an arbitrary value, applies the operation with arbitrary operands and demands equal result, equal expected, equal stored value and an object left as a freshly constructed one (so equality carries over to sequences); it is discharged when no path of the optimized IR reaches the failure call, values being kept in a normal form modulo 2^w. Random draws and injection points are opaque. Rules: operation, strong/weak compare_exchange (with and without injected failure), construction, flag, fences, aliases (static_assert witnesses).',
            ['one thread operates on the object (as the property states)', 'LLVM\'s O2 pipeline preserves the meaning of the obligation functions', 'operations on class types are checked for a class without padding; long double and 16-byte types are not']),
    'C18': ('rules_fiber', 'c18', COMMON + 'Rules: each of the six fiber lock types closed under its own operations from the state its constructor leaves (typestate over memory x holders; every blocking wait continued by every effect of other fibers); FiberQueue, Scheduler run queue and sleep list, condition variable, thread join/detach and thread-local storage as operations on concrete small heaps which the code itself builds, compared with the contract of the std counterpart.', ASSUME[:2] + ['fibers of one scheduler switch only inside Scheduler::Suspend/Sleep/Yield/RunLoop (checked by C17/C18 rules on the switch points)', 'heaps hold at most 2 (quick) / 3 (thorough) other fibers; lock typestate at most 2 (3) holders and 2 (3) intermediate waits']),
    'C17': ('rules_determ', 'c17', COMMON + 'Rules: no source of nondeterminism is called or computed from addresses; interprocedural taint of every mutable global of the fiber build (what re-seeding and restoring do not set decides nothing); the random engine, its count and the injector state tracked symbolically through every sequence of operations that use, seed, forward and restore them; one outcome per draw of every scheduling operation on every placement of fibers; virtual clocks.', ['the program itself is a function of what the library returns to it (no real time, threads or addresses of its own)', 'std::mersenne_twister_engine behaves as specified', 'ids of threads are only compared for equality', 'heaps hold at most 2 (quick) / 3 (thorough) other fibers; operation sequences up to 3 (4)']),
    'C12': ('rules_core', 'c12', COMMON + 'Rules: lazy pipelines: building starts nothing, start, cancel, drop and detach paths.', ASSUME),
}

NOTES = {}
NA = {}
