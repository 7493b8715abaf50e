#!/usr/bin/env python3
"""The properties and how they are claimed: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def m(name, where):
    return {'name': name, 'where': where}


P = []      # (property, claim or None)
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, level=None, note=None, state=None,
         hook='none: the seam is the system call and allocator boundary'):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': mech, 'observe_at': observe,
                                            'hook_needed': hook}}
    if state:
        d['anchors']['state'] = state
    P.append((d, (technique, level, note) if technique else None))


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


SIM = ('deterministic simulation of the whole april process at the system call and allocator boundary, '
       'seeded fault injection, ')
TRUST = ('Trusts the simulator\'s seam (seccomp-trapped system calls, own allocator), the fault-free run of the same '
         'tree as reference where no independent model exists, and tmpfs below the seam.')

prop('A01', 'An assembly file is always the previous one or the new one, complete',
     'Whatever happens while april compiles - the process is killed at any moment, the disk fills up, a write, close or '
     'rename fails - every assembly file it was to produce is afterwards byte for byte either what it was before the '
     'command (or absent, if it did not exist) or the complete new assembly. It is never missing when it existed, '
     'truncated, or a mixture.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every kill point (before, after or in the middle of any system call), every I/O error or short write at any '
     'operation and combinations of them, with and without an earlier assembly, for single files, projects and solutions',
     'The tests run each command once, undisturbed, in a healthy file system.',
     ['modules/compile/compile.cpp', 'modules/april/compiler.cpp', 'modules/core/assembly_writer.cpp', 'lib/file.cpp'],
     [m('temporary file, checked close and rename', 'modules/compile/compile.cpp: file stream of an assembly'),
      m('assembly serialisation', 'modules/core/assembly_writer.cpp')],
     ['the bytes of the assembly files after the process has ended'],
     SIM + 'kill points and I/O faults; old-or-new invariant on the files left behind', 'fault_enumeration',
     'Seeded sweep over kill points and I/O faults at numbered system calls of real compilations. ' + TRUST)

prop('A02', 'Exit status 0 means every assembly was written completely',
     'When april compile or run ends with exit status 0, every assembly it was to produce exists and is exactly the '
     'assembly a fault-free run produces, and a program that was run printed exactly its output. When a write, flush, '
     'close or rename of an output fails in a way that prevents that, the exit status is not 0 and a message is printed; '
     'the process neither hangs nor dies from a signal.',
     ['fault_sequences'],
     'every I/O error, short write, interruption and full disk at any operation on an output file, and combinations',
     'No test makes an output operation fail.',
     ['modules/compile/compile.cpp', 'modules/april/april.cpp', 'modules/april/compiler.cpp', 'common/common.cpp',
      'lib/file.cpp'],
     [m('stream failures become errors', 'modules/compile/compile.cpp, lib/file.cpp'),
      m('exit status', 'modules/april/april.cpp main, april_t::execute')],
     ['exit status, assembly files, console'],
     SIM + 'faults on output operations; exit status checked against the files', 'fault_enumeration',
     'Seeded faults on every output operation of real compilations. ' + TRUST)

prop('A03', 'A failure to read an input never turns into a wrong result',
     'When opening, reading or listing a source file, project or solution file, directory or referenced assembly fails, '
     'is interrupted or delivers fewer bytes than asked, april either still produces exactly the right assemblies and '
     'program output with exit status 0, or reports a failure with a non-zero exit status and a message. It never '
     'succeeds with part of its input, hangs, or dies from a signal.',
     ['fault_sequences'],
     'every read-side error, interruption or short read at any operation on any input, and combinations',
     'The tests only read healthy files.',
     ['lib/file.cpp', 'lib/lib.cpp', 'modules/april/compiler.cpp', 'modules/april/util.cpp', 'modules/core/assembly_reader.cpp',
      'modules/compile/compile.cpp'],
     [m('file loading', 'lib/file.cpp; modules/compile/compile.cpp file_t::load'),
      m('assembly reading', 'modules/core/assembly_reader.cpp')],
     ['exit status, assembly files, console'],
     SIM + 'faults on input operations', 'fault_enumeration',
     'Seeded faults on every input operation. A directory that is reported as absent is taken as such (a pattern in it '
     'matches nothing). ' + TRUST)

prop('A04', 'A torn input file is rejected',
     'An assembly file of which only a prefix survived (an interrupted copy, a full disk, a crash) is never accepted: '
     'compiling against it or running it ends with a non-zero exit status and a message, without a signal, a hang or any output of the '
     'program. A source, project or solution file cut in the middle of a definition or element never leads to exit '
     'status 0.',
     ['crash_points', 'inputs'],
     'every length at which every input file of a build or run may have been cut, under different contents of '
     'uninitialised memory',
     'The tests read only complete files; lengths are too many to list.',
     ['modules/core/assembly_reader.cpp', 'modules/rt/assembly_loader.cpp', 'modules/compile/analyze_tree.cpp', 'modules/april/util.cpp'],
     [m('bounds of every stream and table of an assembly', 'modules/core/assembly_reader.cpp'),
      m('end of input inside a definition', 'modules/compile/analyze_tree.cpp')],
     ['exit status, console, files'],
     SIM + 'torn files left by a simulated crash', 'fault_enumeration',
     'Seeded sweep of cut points over all input files of the workspaces. ' + TRUST)

prop('A05', 'april writes its outputs and nothing else',
     'A command changes or creates no file other than the assemblies it is to produce, in the output directory; inputs '
     'are never modified, and a command that ends by itself leaves no temporary file behind, whatever fails on the way. '
     'Sources with an error end with an error message and a non-zero exit status (never with a signal) and never replace an earlier assembly '
     'of the failed project.',
     ['fault_sequences', 'crash_points'],
     'every I/O fault and kill point, for correct and for erroneous sources',
     'The tests do not look at what else a command left in the file system, and inject no fault.',
     ['modules/compile/compile.cpp', 'modules/april/compiler.cpp', 'modules/april/april.cpp'],
     [m('removal of the temporary file', 'modules/compile/compile.cpp'),
      m('compile errors stop the output', 'modules/april/compiler.cpp april_compiler_t::compile, modules/compile/compile.cpp')],
     ['the file tree before and after'],
     SIM + 'containment invariant over all system calls and the file tree', 'fault_enumeration',
     'Every system call that could write outside the workspace is intercepted; the tree is compared before and after. ' + TRUST)

prop('A06', 'After crashes and failures the same command recovers',
     'After any sequence of killed or failed runs of a command, running the same command once more without faults '
     'ends with exit status 0, leaves exactly the assemblies a clean build makes, and a program that is run prints '
     'exactly its output. Nothing an interrupted run left behind has to be removed by hand.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every history of up to three interrupted runs (kill or I/O error at any operation), then a fault-free one',
     'The tests never interrupt a run, so nothing left behind is ever found by the next one.',
     ['modules/compile/compile.cpp', 'modules/april/compiler.cpp', 'lib/lib.cpp'],
     [m('temporary names that inputs never match', 'modules/compile/compile.cpp'),
      m('directory arguments skip hidden files', 'modules/april/compiler.cpp, lib/lib.cpp')],
     ['exit status, assembly files and output of the last run'],
     SIM + 'crash-restart histories; recovery as a bounded liveness check', 'fault_enumeration',
     'Histories of interrupted runs in one workspace, then one clean run. ' + TRUST)

prop('A07', 'The same sources always give the same assembly',
     'Compiling the same sources with the same command gives byte-identical assemblies and the same console output in '
     'every environment: whatever addresses and contents the allocator hands out, in whatever order the '
     'directory lists its files, whatever the process id, random bytes, stack position and kind of console are.',
     ['schedules', 'configurations'],
     'every allocator behaviour (direction, gaps, reuse order, fill bytes), directory order, pid, randomness, console kind',
     'A test sees one environment; address-order and uninitialised-memory dependence shows only in another.',
     ['modules/core/assembly_writer.cpp', 'modules/core/assembly_layout.cpp', 'modules/core/xil.cpp', 'modules/core/__xil.h',
      'modules/april/compiler.cpp'],
     [m('metadata tables in first-use order', 'modules/core/assembly_writer.cpp'),
      m('every byte of an instruction initialised', 'modules/core/__xil.h')],
     ['assembly bytes and console'],
     SIM + 'the environment (allocator, directory order, randomness, pid) as the injected nondeterminism', 'exploration',
     'Every run is compared with the reference environment of the same tree, including the core library. ' + TRUST)

prop('C01', 'Program output arrives completely or the exit status says so',
     'If a program run by april ends with exit status 0, every byte it printed has been accepted by the standard '
     'output, in order and once; if a write to the standard output fails, the exit status is not 0. Up to the first '
     'failed write, or a kill, the delivered bytes are a prefix of the program\'s output, and writes that accept only '
     'part of the bytes lose and repeat nothing.',
     ['fault_sequences', 'crash_points', 'configurations'],
     'every failure, partial write, interruption or kill at every write to the console, on a terminal and on a pipe',
     'Tests read the output through a healthy pipe.',
     ['common/common.cpp', 'modules/exec/commands.cpp', 'modules/april/april.cpp', 'modules/rt/rt.cpp', 'modules/rtlib/system.cpp'],
     [m('console output of programs', 'core_lib console methods'), m('flush and check at exit', 'modules/april/april.cpp main')],
     ['bytes accepted by descriptor 1, exit status'],
     SIM + 'faults on console writes; prefix and completeness checks against the program\'s known output', 'fault_enumeration',
     'Console faults at every write of real runs, expected output computed independently of april. ' + TRUST)

prop('R01', 'Running out of memory never produces a wrong result',
     'When memory runs out at any point of a compile or run, the command does not end with exit status 0 unless its '
     'assemblies and program output are exactly those of an undisturbed run. Earlier assemblies stay complete, inputs '
     'stay untouched, nothing is written outside the workspace, and the process neither crashes, corrupts its heap nor hangs.',
     ['fault_sequences'],
     'every allocation of a run as the first that fails, with one, a few or all later ones failing too',
     'No test makes an allocation fail.',
     ['algorithm/collections.cpp', 'modules/mm/mm.cpp', 'modules/compile/compile.cpp', 'modules/april/april.cpp', 'modules/exec/commands.cpp'],
     [m('std::bad_alloc ends the command', 'modules/april/april.cpp'), m('assembly replaced only when complete', 'modules/compile/compile.cpp')],
     ['exit status, assembly files, console'],
     SIM + 'allocation failures', 'fault_enumeration',
     'Any allocation may be the first to fail. A crash inside a shared library (libstdc++ locale code) after a failed '
     'allocation is counted, not reported. One known finding (stream code swallows a failed allocation). ' + TRUST)

prop('E01', 'Exceptions thrown anywhere unwind as the language says',
     'When an exception is thrown at any point of a program\'s execution, control goes to the first matching catch '
     'clause of the innermost enclosing try, every finally block on the way runs exactly once, inner before outer, and '
     'variables hold what was assigned before the throw; an exception, return, break or continue that leaves a finally or catch '
     'block supersedes what was pending. An exception that nothing catches ends the process with a non-zero status, after everything printed '
     'before it and the name of its type; all this whether methods are called directly, on objects, virtually, through interfaces or through delegates, at every optimisation level, whether compiled in the same process or before.',
     ['programs', 'fault_sequences', 'configurations'],
     'every program of nested try/catch/finally, loops, calls and recursion, every point at which an exception of every '
     'type may be injected, all optimisation levels, any heap content',
     'The tests hold a handful of fixed programs; the throw points and nestings are unbounded.',
     ['modules/exec/commands.cpp', 'modules/exec/exec.cpp', 'include/modules/exec.h', 'modules/compile/statements.cpp', 'modules/compile/xilx.cpp'],
     [m('exception and block tables', 'modules/exec/commands.cpp, include/modules/exec.h'),
      m('code of try, catch, finally', 'modules/compile/statements.cpp')],
     ['console output and exit status of the program'],
     'deterministic simulation of compiling and running generated programs with an exception injected at a seeded point of '
     'their execution, compared with a reference interpreter', 'exploration',
     'Seeded programs and throw points against an independent reference model, under an adversarial allocator. ' + TRUST)

prop('H01', 'Objects, arrays and variables keep what the program put into them',
     'Whatever memory the allocator hands out - whichever addresses, in whichever order, with whatever left in it - a running '
     'program sees every field, element and variable with its default value until it assigns it, and afterwards with exactly the last value assigned: '
     'objects are shared by reference, structs and primitive values are copied, a box holds a copy, ref and out reach the caller\'s '
     'variable, an inherited or overridden method or interface method that is called is the one of the object\'s own class, a delegate calls the (static or non-virtual) method '
     'it was made of, with its object, is and as and casts tell the truth about it, and nothing else in the heap or on the stack changes with it. This holds at every optimisation level, in the process that '
     'compiled the program as in another, and wherever its types were defined.',
     ['programs', 'configurations', 'histories'],
     'every program over classes, structs, interfaces, delegates, arrays, boxes, properties, ref parameters and nested blocks, every '
     'heap layout and heap content, all optimisation levels, one or two processes, one or two source files',
     'The tests run a few fixed programs on the zero-filled fresh memory that a short process happens to get.',
     ['modules/mm/mm.cpp', 'modules/rt/layout.cpp', 'modules/rt/__layout.h', 'modules/rt/rt.cpp', 'modules/exec/commands.cpp', 'modules/exec/parser.cpp',
      'modules/exec/exec.cpp', 'modules/core/assembly_writer.cpp', 'modules/compile/expression.cpp'],
     [m('allocation and clearing of objects and arrays', 'modules/mm/mm.cpp'),
      m('layout of fields and locals', 'modules/rt/layout.cpp, modules/rt/__layout.h'),
      m('virtual and interface tables', 'modules/rt/rt.cpp'), m('instructions', 'modules/exec/commands.cpp')],
     ['console output and exit status of the program'],
     'deterministic simulation of compiling and running generated programs over a heap whose addresses, reuse and contents '
     'a seed decides, compared with a reference interpreter', 'exploration',
     'Seeded programs and heaps against an independent reference model. ' + TRUST)

prop('A08', 'Processes that work in the same folder do not disturb each other',
     'Several april commands at work at the same time in one folder - the same build several times, different builds, a '
     'library or a whole solution rebuilt while programs are compiled against it or run - each end with exit status 0 and do '
     'what they would have done alone: a program prints what it prints with the previous or the new version of each '
     'assembly it loads, never a mixture of one assembly or an error, every assembly is in the end complete and the one its sources mean, and no '
     'temporary file is left. A command that fails or is killed does not make the others fail.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'every interleaving of the system calls of two or three processes, one of which may be killed or have an operation fail',
     'The tests run one process at a time.',
     ['modules/compile/compile.cpp', 'modules/april/compiler.cpp', 'modules/core/assembly_reader.cpp', 'lib/file.cpp', 'include/lib.h'],
     [m('temporary name of its own, then rename', 'modules/compile/compile.cpp'),
      m('directory listing', 'include/lib.h __each'), m('reading of assemblies', 'modules/core/assembly_reader.cpp, lib/file.cpp')],
     ['exit status and output of every process, files in the end'],
     SIM + 'several processes under a seeded scheduler that switches at system calls, kills and I/O faults in one of them', 'exploration',
     'Seeded schedules biased to switches at operations on shared files. ' + TRUST)

prop('X01', 'A command line means exactly the files it names',
     'The sources of an assembly are exactly the files that the command line, project or solution names: a pattern stands for '
     'the files of its directory that match it (* any text, ? one character, everything else itself), a directory for its '
     'source files without hidden ones and without subdirectories, in whatever order the '
     'directory lists them and whatever was there at an earlier build; a file named several times, by whatever path, counts once. Each project makes '
     'one assembly: a project of a solution under its name, otherwise under the name of its directory, the second and later ones of '
     'one directory with a number in the order of their names or of the command line.',
     ['inputs', 'schedules', 'histories'],
     'every tree of files, pattern and command line, every directory order, files added and removed between builds',
     'The tests use one fixed layout in the order the machine lists it.',
     ['modules/april/util.h', 'modules/april/compiler.cpp', 'include/lib.h', 'lib/file.cpp', 'modules/april/parser.cpp'],
     [m('expansion of patterns and directories', 'modules/april/util.h each_files, include/lib.h __each, lib/file.cpp split_path_filter'),
      m('files and names of projects', 'modules/april/compiler.cpp add_file, __get_default_project_name')],
     ['program output, assemblies made, exit status'],
     SIM + 'directory order and history of the tree as the injected nondeterminism, independent model of matching', 'exploration',
     'Seeded trees and command lines; files that must not be taken hold text that does not compile. ' + TRUST)


prop('X02', 'april run executes the program asked for, in its present version',
     'april run executes exactly one program: with -e the assembly of that name, otherwise the only executable one, where those just '
     'compiled take precedence over assemblies named on the command line. When there is none, several, or the one asked for is '
     'unknown or not executable, no program runs, a message is printed and the exit status is not 0. Every assembly the program '
     'imports, directly or not, is the one just compiled if there is one, else the one named on the command line, else the one in the '
     'folder of the program\'s own assembly, whatever other and older assemblies of that name lie around and in whatever order '
     'they were made. The projects of a solution may be listed in any order and import each other; sources that import an assembly '
     'that was not named, and projects that import each other in a circle, are refused and leave their earlier assemblies as they were.',
     ['inputs', 'histories', 'fault_sequences'],
     'every set of assemblies with any imports between them, every history of builds, partial rebuilds, killed builds and runs, every '
     'order of arguments and projects',
     'The tests run one freshly built assembly.',
     ['modules/april/compiler.cpp', 'modules/april/__compiler.h', 'modules/april/april.cpp', 'modules/compile/compile.cpp', 'modules/rt/rt.cpp',
      'modules/rt/assembly_loader.cpp'],
     [m('choice of the program', 'modules/april/compiler.cpp __pick_default_execute_assembly, __get_assembly'),
      m('choice of the imported assemblies', 'modules/april/compiler.cpp __rt_assembly_provider_t, __record_assembly; modules/compile/compile.cpp load_assembly')],
     ['program output, assemblies made, exit status, message'],
     SIM + 'histories of builds and runs with versions, kills, address order and directory order injected, refinement against a model '
     'of which version every assembly on the disk has', 'exploration',
     'Seeded histories. Every assembly prints or returns its version, so the output tells which ones were loaded. ' + TRUST)


THR = ('deterministic simulation of threads: the real classes under a seeded scheduler that decides at every memory access, '
       'lock, wait and wake-up, with virtual time, ')
THRTRUST = ('Seeded schedules, sequentially consistent; unsynchronised accesses are found by vector clocks, accesses to freed '
            'memory by a quarantining allocator, deadlock and lost wake-up by the scheduler. Trusts the simulator\'s '
            'implementation of the pthread primitives.')
THOOK = 'none: the seam is the pthread interface and compiler-inserted calls at every memory access'


def thread(id, title, statement, text, files, mech, observe, faults, note):
    prop(id, title, statement, ['schedules', 'fault_sequences'] if faults else ['schedules'], text,
         'A test sees the few interleavings the machine happens to produce; here nearly all are equally likely.',
         files, mech, observe, THR + (faults or 'races, deadlocks and the conditions of the statement as invariants'), 'exploration',
         note + ' ' + THRTRUST, hook=THOOK)


thread('T01', 'A semaphore never hands out a permit it does not have, and never loses one',
       'At no time do more threads hold a permit of a semaphore than it has permits. A permit that is given back is available '
       'again: a thread waiting in acquire() gets one as soon as permits are returned, without anything else having to happen, and '
       'in the end all permits are there, no more and no less. acquire() without a time limit returns only with a permit; '
       'acquire(d) gives up only after at least d; try_acquire() of a permit that is free with nobody else waiting or asking succeeds; returning '
       'a permit nobody holds is refused.',
       'every interleaving of acquire, timed acquire, try_acquire and release by any number of threads, spurious wake-ups, '
       'stalls and every moment at which a time limit can expire',
       ['algorithm/__thread.h', 'algorithm/thread.cpp'],
       [m('semaphore_t', 'algorithm/__thread.h, algorithm/thread.cpp')],
       ['results of acquire, try_acquire and release'],
       'spurious wake-ups, stalled threads and jumps of time against time limits',
       'Two to six threads, up to three permits, up to six operations each; also permits handed from producers to consumers.')

thread('T02', 'The lock of an object belongs to one thread at a time',
       'Between entering and leaving the lock of an object, by a guard or by enter and exit, no other thread is inside the lock of the same object, and what '
       'was written under the lock is seen by the next holder. Locks of different objects, whatever their addresses, never wait '
       'for each other: a thread that holds one object and waits does not keep others from theirs. Nobody waits for a lock '
       'that nobody holds. Leaving a lock that was never entered is refused. A failed allocation while locking '
       'leaves all locks as they were.',
       'every interleaving of locking and unlocking any number of objects by any number of threads, nested too, including '
       'those during which unused locks are recycled; every allocation failing',
       ['algorithm/__thread.h', 'algorithm/__collections.h'],
       [m('object_lock_manager_t, object_lock_guard_t', 'algorithm/__thread.h'), m('pool of locks', 'algorithm/__collections.h respool_t')],
       ['who is inside a lock, values written under it'],
       'failing allocations, stalled threads',
       'Two to five threads, up to sixteen objects, enough operations to recycle locks.')

thread('T03', 'A lazy value is computed once and seen complete by everybody',
       'The initialiser of a lazy_t or an initializer_t runs at most once at a time and never again after it succeeded; every '
       'user gets exactly the value it computed, completely written. If the initialiser throws, exactly the thread '
       'that ran it sees the exception, and the next use tries again.',
       'every interleaving of any number of first uses, with initialisers that fail any number of times first',
       ['algorithm/__thread.h', 'algorithm/thread.cpp'],
       [m('lazy_t, initializer_t', 'algorithm/__thread.h, algorithm/thread.cpp')],
       ['values handed out, runs of the initialiser'],
       'initialisers that throw, stalled threads',
       'Two to six threads, one to four uses each, zero to three failures.')

thread('T04', 'A pooled resource has at most one user, and none is lost',
       'An object acquired from a respool_t is given to nobody else until it is released, is one the creator made, and is not '
       'destroyed while somebody has it; objects that were released are reused before new ones are made; no more than one and a half times the '
       'capacity stay idle. Destroying the pool destroys every object that still exists, each exactly once. Releasing an '
       'object that is not acquired from the pool is refused. A creation or allocation that fails is reported to exactly the caller and '
       'loses nothing.',
       'every interleaving of acquire and release by any number of threads; creations and allocations failing anywhere',
       ['algorithm/__collections.h'],
       [m('respool_t', 'algorithm/__collections.h')],
       ['objects handed out, calls of the creator'],
       'failing creations and allocations, stalled threads',
       'Two to five threads, capacities zero to three.')

thread('T05', 'The language registry is consistent under concurrent use',
       'Languages registered, looked up and created from several threads at once: every registration gets an id of its own, '
       'a language whose registration has returned is found by its name, its id gives its name, and creating it uses its own '
       'creator; a name nobody registered is not found; a name registered again means the newer language. A failed allocation fails that call only.',
       'every interleaving of registrations, lookups and creations; every allocation failing',
       ['include/modules/compile.h', 'modules/compile/compile.cpp', 'algorithm/collections.cpp'],
       [m('simple_lang_factory_t', 'include/modules/compile.h, modules/compile/compile.cpp')],
       ['ids, names and languages returned'],
       'failing allocations, stalled threads',
       'Two to five threads, up to twenty languages. Other units of the compiler are linked uninstrumented.')



def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            f.write(json.dumps(d, ensure_ascii=True) + '\n')
    checks = []
    for d, c in P:
        if not c:
            continue
        t, lv, note = c
        checks.append({'property': d['id'], 'quick_cmd': 'python3 sim/check.py %s --tier quick' % d['id'],
                       'thorough_cmd': 'python3 sim/check.py %s --tier thorough' % d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'],
                       'technique': t, 'level': lv, 'level_note': note})
    man = {'version': 1, 'setup_cmd': 'python3 sim/check.py --setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the simulator takes over the system call, allocator and thread '
                     'boundaries of the unmodified sources', 'source_commits': []},
           'checks': checks, 'not_applicable': NA,
           'notes': 'Replay: python3 sim/check.py <property> --replay <file>. Known findings: known_findings.txt. '
                    'Genuine defects repaired: the fix: commits in /repo.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
