"""Which contracts, which translation units and which replay harness decide which property."""
import importlib, os
TRUST = ['clang 18 front end and astdump (typed AST of the real functions)', 'fvc symbolic execution and obligation generator', 'z3 (Python binding and 4.8.12), cvc5']
ASSUME = ['memory allocation succeeds unless stated otherwise', 'termination is proved per loop; deadlock freedom of other threads is not']
def config_value(n): return {'FALCON_LITTLE_ENDIAN': '1', 'FALCON_HOST_SYSTEM': 'Linux'}.get(n, '0')
def config_line(name, is01, rest, have):
    on = name == 'FALCON_SYSTEM_UNIX'
    if is01: return '#define %s %d' % (name, 1 if on else 0)
    return ('#define %s%s' % (name, rest)) if on else '/* #undef %s */' % name

def planner(mod):
    def f(tu, prop):
        m = importlib.import_module(mod)
        return m.plan(tu, prop)
    return f
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
TSAN = ['-fsanitize=thread', '-DWITH_TSAN']
def ps_replay(prop, tier):
    j = [dict(src='pagedstack.cpp', flags=ASAN, procs=3)]
    if prop == 'C07': j.append(dict(src='pagedstack.cpp', flags=TSAN, procs=2))
    return j
def fx_replay(prop, tier):
    j = [dict(src='futex.cpp', flags=ASAN + ['-fno-access-control'] + (['-fwrapv', '-fno-sanitize=signed-integer-overflow'] if prop == 'C13' else []), procs=3)]
    if prop in ('C10', 'C12'): j.append(dict(src='futex.cpp', flags=TSAN + ['-fno-access-control'], procs=2))
    return j
def log_replay(prop, tier):
    j = [dict(src='log.cpp', flags=ASAN + ['-w'], procs=3, leaks=prop in ('C20', 'C22', 'C23', 'C24'))]
    if prop in ('C20', 'C23', 'C24', 'C25'): j.append(dict(src='log.cpp', flags=TSAN + ['-w'], procs=2))
    return j
def item_replay(prop, tier): return [dict(src='item.cpp', flags=ASAN + ['-w'], procs=3, leaks=prop in ('C31', 'C32'))]
def fut_replay(prop, tier): return [dict(src='fut.cpp', flags=ASAN + ['-fno-access-control', '-w'], procs=3)]
FUA = ['std containers, strings and streams behave as documented (trusted contracts); texts handed to the framework hold no NUL', 'test code leaves the buffers and formatting of the standard streams as it found them, records failures only (it does not declare itself passed), and does not run tests itself', 'tests do not override init() and destroy() with other effects; the clock does not fail inside a run', 'fewer than 2^31 test runs, times below 2^50 milliseconds', 'registered tests exist until the run is over']
ITA = ['std::string, std::ostringstream, strtoll and the boost big number behave as documented: conversions of a double or big number to text, and of text or a big number to an integer, are the library\'s own functions, left uninterpreted', 'strings are shorter than 2^62', 'the bits of a double survive being stored in a union and read back']
LGA = ['std library containers, strings, regex matching, streams, mutexes, condition variables, threads and smart pointers behave as documented (trusted contracts); regex matching does not throw', 'strings and queues are shorter than 2^62', 'levels are values of the enumeration']
LGM = ['a mutex protects what the table of the specification says it protects: other threads may change it arbitrarily, within the stated invariant, whenever the mutex is free', 'atomics are sequentially consistent (the code uses the default order)']
FXA = ['atomics are executed sequentially between interference points; acquire/release annotations are checked as obligations, the C++ memory model turns them into visibility', 'lock() of a Futex is called by a thread that does not hold it, unlock() only by the holder', 'std::this_thread::yield is the only way the code gives up the processor']
NOTES = {}
NA = {}
GROUPS = [
 dict(props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'], tus=lambda p: [('pagedstack.cpp', planner('spec_pagedstack'))], replay=ps_replay, level=lambda p: 'proof', gnote='every function of PagedStack the property depends on is verified against its contract for an opaque element type, any page size, any content; std containers and mutex are trusted contracts',
  assume={p: ['element type and allocator are well behaved: copies are equal to their source', 'page sizes and counts below 2^48, total content below 2^60 elements'] for p in ['C01','C02','C03','C04','C05','C06','C07','C08']}),
 dict(props=['C10', 'C11', 'C12', 'C13', 'C14'], tus=lambda p: [('futex.cpp', planner('spec_futex'))], replay=fx_replay, level=lambda p: 'proof', gnote='every function is verified against a rely/guarantee contract: other threads may act before each atomic operation in any way the protocol allows, each own step must respect the protocol',
  assume={'C10': FXA, 'C11': FXA + ['the yield arithmetic is proved for the spin counts 0, 1, 2, 3, 1000, 100000 and 2^32-1 and, on the text of one more instance, for a symbolic spin count from 2 to 2^32-1; only a compile-time distinction between other spin counts would escape'],
          'C12': FXA + ['fewer than 2^32 threads ever lock a recursive futex'], 'C13': ['a volatile 32-bit load or store is indivisible (atomicFetch and atomicSet)', 'GCC/clang __sync and __atomic builtins are the read-modify-writes their documentation states', 'int arithmetic outside the builtins wraps around, as compiled code does at these widths (the property is about the values, not about the language rule for signed overflow)'],
          'C14': ['a function-local static is constructed once (C++11)']}),
 dict(props=['C%d' % i for i in range(20, 30)], tus=lambda p: [('log.cpp', planner('spec_log'))], replay=log_replay, level=lambda p: 'proof', gnote='every function of the log system the property depends on is verified against its contract for any content, any number of messages and listeners, and any interference of other threads at each point where a mutex is free',
  assume={p: LGA + (LGM if p in ('C20', 'C21', 'C22', 'C23', 'C24', 'C25') else []) + x for p, x in dict(C20=['listeners do not keep or change the message they are given'], C21=['the flags and filter of a listener do not change while one message is being dispatched (a change takes effect between messages)'], C22=['a listener is detached before or after, not during, the scan that drops detached ones'], C23=[], C24=['the condition variable wakes a waiting thread after notify_all'],
     C25=['user-written listeners protect their own state'], C26=[], C27=['localtime gives the local time; the target stream has default formatting when a line starts and accepts all output'], C28=['the system level does not change between the opening and the closing test of one block', 'streamed values are text and numbers; other types are written by their own operator<<'], C29=['one thread at a time sets or clears the filter (documented)']).items() for p in [p]}),
 dict(props=['C30', 'C31', 'C32', 'C33'], tus=lambda p: [('item.cpp', planner('spec_item'))], replay=item_replay, level=lambda p: 'proof', gnote='the constructors, copies, assignments, destructors, conversions and handlers are verified for every value of every kind: ownership contracts on each function over arbitrary well formed items, and drivers that consist of calls of the real functions only, whose bodies are entered',
  assume={'C30': ITA, 'C31': ITA + ['the caller of a handler\'s copy or destroy passes data of that kind'], 'C32': ['std::string behaves as documented', 'texts are shorter than 2^62'], 'C33': ['proved for 1 to 5, 8, 12 and 16 targets over vectors (each of them covers the instances for fewer targets it calls, so every number up to 16) of integers and strings; the recursion of the template is the same for every larger number', 'the targets do not alias the source']}),
 dict(props=['C40', 'C41', 'C42', 'C43', 'C44', 'C45', 'C46'], fnbudget=400, tus=lambda p: [('fut.cpp', planner('spec_fut'))], replay=fut_replay, level=lambda p: 'proof', gnote='every function of the test framework the property depends on is verified against its contract for any number of tests, any outcome of each and any options; test code is an environment that may record failures, write, take time and leave by any exception',
  assume={p: FUA + (['names, id and texts are valid UTF-8 without the two noncharacters U+FFFE and U+FFFF; a test is selected at most once', 'no test runs or is added between the run and its report'] if p == 'C44' else []) for p in ['C40', 'C41', 'C42', 'C43', 'C44', 'C45', 'C46']}),
]
def of(p):
    for g in GROUPS:
        if p in g['props']: return g
    raise SystemExit('unknown property ' + p)
