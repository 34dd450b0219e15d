#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("P01", "Source delivery does not change what a program means",
  "The same source bytes give the same program output, the same notices (code, text, file, line, column) and the same exit status however the bytes reach the compiler: in one read, in reads split at arbitrary byte positions (inside multi-byte characters, operators, comments, string literals, at any buffer boundary), with reads interrupted and retried, or with unrelated heap and clock conditions. Typing the same statements in the interactive mode produces the same program output as running them from a file.",
  ["schedules", "programs", "inputs"],
  "every source text x every way of cutting its delivery into reads (sizes 1..n, EINTR between them) x file or interactive delivery",
  "The tests feed each sample file once, in one 8 KB read from a quiet disk; no test cuts a read, interrupts one, or compares file with interactive delivery.",
  ["Sources/Core/Processing/Engine.cpp", "Sources/Core/Processing/InputBuffer.cpp", "Sources/Core/Processing/Lexer.cpp", "Sources/Core/Processing/StdCharInStream.h", "Sources/Core/Processing/InteractiveCharInStream.h"],
  [("byte to wide character accumulation and the lexer's state set", "Core::Processing::Lexer::handleNewChar / processBuffer"), ("character pull loop", "Core::Processing::Engine::processStream")],
  ["stdout of the alusus process", "exit status"])
p("P02", "A source that cannot be read is an error, never a hang",
  "When reading a source file or the interactive input fails with an I/O error at any point, the compiler stops consuming it and terminates within a bounded number of further reads; it reports the failure and does not report success. What the program printed by then is a prefix of what it prints when the reads succeed.",
  ["fault_sequences", "programs"],
  "every program, every file it is made of (main, imported, standard library) and every read or open at which an error can be returned",
  "The tests read from a healthy disk only; no test makes a read fail.",
  ["Sources/Core/Processing/Engine.cpp", "Sources/Core/Processing/StdCharInStream.h", "Sources/Core/Processing/InteractiveCharInStream.h", "Sources/Core/Main/RootManager.cpp", "Sources/Core/start.cpp"],
  [("end of stream / failed stream test", "CharInStreaming::isEof, Engine::processStream"), ("exit status and message", "Core start.cpp")],
  ["exit status", "stdout", "number of read calls after the fault"])
p("P03", "Input cut off at any byte ends cleanly with a prefix of the effects",
  "If a program's text ends at an arbitrary byte, alusus terminates normally (no crash, no hang), and what the program prints is a prefix of what the complete program prints, apart from diagnostics and effects of the one statement that the cut shortened. A cut inside a statement that leaves it incomplete is diagnosed with at least one notice.",
  ["crash_points", "programs"],
  "every program and every byte position at which its delivery stops, from a file or interactively",
  "The tests contain complete programs only, plus a few hand written syntax errors.",
  ["Sources/Core/Processing/Parser.cpp", "Sources/Core/Processing/Lexer.cpp", "Sources/Core/Processing/Engine.cpp", "Sources/Core/Processing/ParserState.cpp"],
  [("end of input handling", "Lexer FILE_TERMINATOR handling, Parser::endParsing"), ("statement by statement execution", "Spp root scope handling")],
  ["stdout", "exit status"])
p("P04", "An interactive session survives erroneous statements",
  "In interactive mode a statement that fails to build is reported and has no run-time effect, and every later correct statement behaves as if the erroneous one had not been entered: variables keep their values, functions, classes and templates defined before stay usable, functions that failed can be corrected, and definitions entered later work. This holds for any sequence of correct and erroneous statements.",
  ["histories", "programs"],
  "every interleaving of correct definitions, assignments, calls, imports and of erroneous statements of every build-error kind in one session",
  "No test runs the interactive mode at all; the recovery path (reset of the build data after an error) is never executed by the suite.",
  ["Sources/Spp/BuildManager.cpp", "Sources/Spp/RootScopeHandlerExtension.cpp", "Sources/Core/Main/RootScopeHandler.cpp", "Sources/Core/Notices/Store.cpp", "Sources/Spp/CodeGen/GlobalItemRepo.h"],
  [("error reset before each build", "BuildManager::_prepareBuild"), ("reset of generated data", "BuildManager::_resetBuild / _resetBuildData"), ("survival of globals", "CodeGen::GlobalItemRepo")],
  ["stdout"])
p("P05", "Global variables are initialised once, in order, and keep their state",
  "Over any history of root level statements, preprocess blocks and run-time imports in one process, every global variable's initialiser or constructor runs exactly once: when it is first needed, after the globals its own initialiser uses and before the first statement that uses it executes (and a global marked @priority before the other globals the same statement mentions directly); afterwards its value is whatever the program last assigned, no matter how many further statements, definitions, imports or preprocess executions happened in between. Code run while compiling and code run afterwards see the same variable.",
  ["histories", "programs"],
  "every history of definitions, uses, imports, preprocess executions",
  "Tests run a handful of fixed programs, each with one pattern of globals and one build session.",
  ["Sources/Spp/BuildManager.cpp", "Sources/Spp/BuildSession.h", "Sources/Spp/CodeGen/GlobalItemRepo.h", "Sources/Spp/CodeGen/Generator.cpp", "Sources/Spp/LlvmCodeGen/jit_engines.cpp"],
  [("pending global constructor list", "BuildManager::_execute, BuildSession::globalCtors"), ("storage shared by sessions", "CodeGen::GlobalItemRepo")],
  ["stdout"])
p("P06", "Generating an object file either succeeds completely or reports failure",
  "When a program asks for an object file of one of its elements, the request reports success only if the named file then holds the complete object code, identical to that of an undisturbed generation; if creating, writing or closing the file fails, the failure is reported to the program and the user, the process is not aborted, and the program continues. Globals and functions of the running program are unaffected by the generation, whether it succeeded or not.",
  ["fault_sequences", "histories"],
  "every open/write/close failure, short or interrupted write, at any point of any sequence of object file generations mixed with execution",
  "The suite generates objects on a healthy disk only and never with a failing write.",
  ["Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp", "Sources/Spp/BuildManager.cpp", "Sources/Spp/Rt/BuildMgr.cpp"],
  [("object emission", "LlvmCodeGen::OfflineBuildTarget::generateObjectFile"), ("session teardown", "BuildManager::_buildObjectFileForElement, _resetBuild")],
  ["value returned by Spp.buildMgr.buildObjectFileForElement", "bytes of the object file", "exit status"])
p("P07", "File functions report success only for what really happened on disk",
  "A file function of the standard library that reports success (createFile, readFile in all its forms, makeDir, readDir, rename) has done exactly what it says: the file holds exactly the given bytes, the returned content is exactly the file's bytes and zero terminated, the returned list holds exactly the directory's entries. When the disk refuses, is full, fails in the middle, or files and directories appear or vanish in between, the function reports failure through its documented result, never crashes, never reads or writes outside its buffers, and leaks no file handle, directory handle or memory.",
  ["fault_sequences", "histories", "inputs"],
  "every sequence of file operations, contents and names, and every placement of open/read/write/close/seek/opendir/readdir faults and concurrent changes",
  "The tests exercise a few Fs calls on a healthy disk with one content each and never fault them.",
  ["Sources/Srt/Srl/Fs.alusus", "Sources/Srt/Srl/Memory.alusus", "Sources/Srt/Srl/String.alusus"],
  [("whole file write", "Srl.Fs.createFile"), ("whole file read", "Srl.Fs.readFile (three forms)"), ("directory listing", "Srl.Fs.readDir")],
  ["function results", "file system state", "open handles", "heap"])
p("P08", "A download either delivers the complete response or reports failure",
  "A network fetch to memory or to a file reports success only if the whole response body, byte for byte and in order, is in the result (with the right size, zero terminated) or in the file. With the connection refused, dropped or timing out at any byte, data arriving in any number of pieces, or the local file failing to open, write or close, it reports failure, and in every case it releases its connection handle, its file handle and its memory exactly once.",
  ["fault_sequences", "schedules", "inputs"],
  "every response body, every way of cutting it into chunks, every network or disk fault at any byte, any sequence of requests",
  "The suite has no network; no test runs the Net module.",
  ["Sources/Srt/Srl/Net.alusus", "Sources/Srt/Srl/Memory.alusus", "Sources/Srt/Srl/Fs.alusus"],
  [("chunk accumulation", "Srl.Net.responseCallback"), ("transfer and clean up", "Srl.Net.get (memory and file)")],
  ["function results", "file content", "curl and file handle counts", "heap"])
p("P09", "Console input functions are total: bounded, terminated and in sync",
  "Reading from the console consumes exactly the line or number it is asked for, stores at most the given number of characters including a terminating zero, and returns; at end of input or on a read error, at any byte, it returns with what was read so far instead of waiting for input that cannot come. The bytes it leaves unread are seen, once and in order, by the next read.",
  ["inputs", "schedules", "fault_sequences"],
  "every input byte sequence, every way it is delivered in pieces, end of input or a read error at any byte, every mix of console read functions",
  "No test gives a program any console input.",
  ["Sources/Srt/Srl/Console.alusus"],
  [("line input", "Srl.Console.getString"), ("number input", "Srl.Console.getInt / getFloat / scan")],
  ["values returned", "buffer contents", "position in the input"])
p("P10", "Library containers follow their model under any allocator behaviour",
  "String, WString, StringBuilder, Array, Map and the wrappers around them behave as plain sequences, maps and text for any history of operations: results equal those of the obvious sequential model, and changing one copy never changes another. This holds whatever legal behaviour the allocator shows (blocks that always move, dirty or immediately reused memory, a replacement allocator): nothing is read or written outside live blocks, every block taken is returned exactly once, elements are constructed and destroyed exactly once, and nothing remains allocated when the last owner is gone.",
  ["histories", "schedules"],
  "every history of container operations over several aliased containers x every legal allocator behaviour",
  "Tests run one fixed history per container under the default allocator and print results; memory errors and leaks are invisible to them.",
  ["Sources/Srt/Srl/String.alusus", "Sources/Srt/Srl/WString.alusus", "Sources/Srt/Srl/StringBuilder.alusus", "Sources/Srt/Srl/Array.alusus", "Sources/Srt/Srl/Map.alusus", "Sources/Srt/Srl/ArrayIndex.alusus", "Sources/Srt/Srl/Nullable.alusus", "Sources/Srt/Srl/Possible.alusus", "Sources/Srt/Srl/Memory.alusus"],
  [("shared buffers with copy on write", "Srl.String / Srl.Array reference counted buffers"), ("growth through realloc", "Srl.Memory.realloc users")],
  ["operation results", "heap of the simulated process"])
p("P11", "Every object is destroyed exactly once on every way out of a scope",
  "For any run-time path through a program (early return, break or continue out of nested loops, conditional branches, temporaries inside larger expressions, by-value arguments and results, members, elements of library arrays, base and injected objects), every object whose constructor completed is destroyed exactly once (an object before its members, everything by the end of its scope or statement) and never before its last use. Values remain correct while this happens.",
  ["histories", "programs"],
  "every program of classes with constructors, destructors and copy operations x every sequence of run-time decisions steering its control flow",
  "The tests contain fixed programs whose control flow takes one path each.",
  ["Sources/Spp/CodeGen/Generator.cpp", "Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Spp/CodeGen/CommandGenerator.cpp", "Sources/Spp/CodeGen/DestructionStack.h"],
  [("destruction bookkeeping", "CodeGen::DestructionStack, generateVarGroupDestruction"), ("exit paths", "CommandGenerator return/break/continue")],
  ["constructor/destructor event history"])
p("P12", "Imports: each file is processed once, found predictably, and fails locally",
  "However a source file is reached (relative or absolute path, with or without extension, through symbolic links, repeatedly, in cycles, from nested directories, at compile time or from running code), its statements are processed exactly once per session, names are resolved against the importing file's directory before outer search paths, and diagnostics name the right file and line. A missing or unloadable import is reported at its location, alternatives are tried in order, and it disturbs neither the importing file nor later path lookups.",
  ["histories", "configurations", "fault_sequences"],
  "every import graph, directory layout, spelling of paths, search path list, and lookup or open failure",
  "Tests import a fixed handful of existing files; no test has cycles through links, vanishing files or failing opens.",
  ["Sources/Core/Main/RootManager.cpp", "Sources/Core/Processing/Handlers/ImportParsingHandler.cpp", "Sources/Core/Main/LibraryManager.cpp", "Sources/Spp/Rt/CoreMgr.cpp"],
  [("processed file set", "RootManager::_processFile"), ("search path stack", "RootManager::pushSearchPath / popSearchPath / findFile"), ("fallback", "Import handler")],
  ["stdout", "order of opens"])
p("P13", "After a build error nothing further of a file-mode program executes",
  "When a program run from a file produces an error notice, no statement that follows the erroneous one is executed, including in files imported later, and all statements before it have executed completely and in order; warnings never suppress execution. The erroneous statement itself has no run-time effect, neither its globals' constructors nor parts of its expressions run, and the remaining errors of the program are still reported.",
  ["programs", "histories"],
  "every program and every placement of an erroneous statement of every error kind: main file, imported file, function body, class, preprocess block, global constructor",
  "Tests check the text of notices for fixed erroneous programs, mostly one error at one place each.",
  ["Sources/Spp/BuildManager.cpp", "Sources/Spp/RootScopeHandlerExtension.cpp", "Sources/Core/Main/RootManager.cpp", "Sources/Core/Notices/Store.cpp"],
  [("severity gate", "BuildManager::_execute"), ("severity bookkeeping", "Notices::Store::getMinEncounteredSeverity, RootManager::getMinNoticeSeverityEncountered")],
  ["stdout"])
p("P14", "The same input gives the same result in any environment",
  "Running the same program twice gives byte-identical output, notices, generated code listings and object files, whatever the heap addresses and memory contents, the time of day, the process id, the order in which directories list their entries, unrelated environment variables, or the location of buffers in memory.",
  ["configurations", "schedules", "programs"],
  "every program x every heap layout, uninitialised memory content, clock value, pid, environment block and directory order",
  "Each test compares one run on one machine; a dependence on addresses or uninitialised memory shows only when the layout changes.",
  ["Sources/Core/Basic/SharedMapBase.h", "Sources/Core/Data/IdGenerator.cpp", "Sources/Spp/CodeGen/TypeGenerator.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp", "Sources/Spp/Ast/Helper.cpp", "Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp"],
  [("ordered containers", "Core::Basic maps"), ("generated names", "IdGenerator, ExtraDataAccessor id prefixes")],
  ["stdout", "object file bytes"])
p("P15", "Compile-time execution is independent of thread timing",
  "Programs that execute code while being compiled (preprocess blocks, generated definitions, templates expanded by them) give the same output, notices and definitions under every scheduling of the compiler's background threads, and always terminate: no schedule deadlocks, loses a wake-up, or lets code run before it is completely compiled.",
  ["schedules", "programs"],
  "every interleaving of the execution thread with the code compilation threads at every synchronisation point, for every program with compile-time execution",
  "The tests observe the one interleaving the operating system happens to choose.",
  ["Sources/Spp/LlvmCodeGen/jit_engines.cpp", "Sources/Spp/LlvmCodeGen/jit_engines.h", "Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp", "Sources/Spp/BuildManager.cpp"],
  [("lazy just-in-time engine", "LlvmCodeGen lazy JIT with compile threads"), ("callbacks into the compiler", "Spp::Rt::AstMgr")],
  ["stdout", "termination"])
p("P16", "Building an executable reports success only for a complete, fresh build",
  "The build module's generate functions report success only if the object file was produced completely, the link command for exactly this output, these flags and dependencies succeeded, and the dependencies it promises to place beside the output are there. If any step fails (object generation, directory creation, missing linker, link, copy, a command that cannot be started), they report failure, do not crash, run no later step that depends on the failed one, and never present a file left over from an earlier build as the new result.",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of builds of executables and web modules with any flags, dependencies, paths and lengths, and every failing or crashing step",
  "No test runs the Build module; nothing in the suite makes an external command fail.",
  ["Sources/Srt/Build.alusus", "Sources/Spp/BuildManager.cpp", "Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp"],
  [("step sequence", "Build.Exe.generate, Build.Wasm.generate"), ("command composition", "String.assign into command buffers, getDepsString")],
  ["results", "commands run", "files present"])
p("P17", "A package is usable only when completely installed",
  "The package manager reports a package as installed, or imports from it, only when the complete content of the requested release is in place, whatever fails in between (network, archive, disk, external command, a crash of the process at any step) and however often installation is retried. A failed or interrupted installation can be repeated successfully once the cause is gone, it does not affect other packages or versions, and releases both its memory and its files.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of installs and imports of packages, versions and scopes with faults or crashes at every step",
  "No test runs the package manager.",
  ["Sources/Srt/Apm/apm.core.alusus", "Sources/Srt/Zip.alusus", "Sources/Srt/Srl/Net.alusus"],
  [("install sequence", "Apm.installRelease / downloadModule"), ("installed test", "Fs.exists on the module path")],
  ["file system state after each step", "messages and results"])
p("P18", "Time and system functions reflect the system they run on",
  "Clock, timestamp, calendar, sleep, environment and process functions return what the system provides at that moment, for any clock value, any jump forwards or backwards and any time zone: broken down time has every field right, waiting lasts at least the requested time, environment changes are seen by later reads, and a process's output and exit code are passed through unchanged, also when starting it fails. Leaving the program with an exit code ends it at once with that code.",
  ["schedules", "fault_sequences", "configurations"],
  "every clock value, jump, time zone, sequence of environment changes, child process result",
  "No test controls the clock or the environment; results are not checked.",
  ["Sources/Srt/Srl/Time.alusus", "Sources/Srt/Srl/System.alusus", "Sources/Srt/Srl/Fs.alusus", "Sources/Core/start.cpp"],
  [("bindings to the C library", "Srl.Time, Srl.System expname functions")],
  ["values returned", "exit status"])
p("P19", "Shared, weak and unique references destroy their object exactly once",
  "For any history of creating, copying, assigning, casting, releasing and dropping shared, weak and unique references and closures (including aliases, self assignment, cycles broken by weak references, references held in containers and captured in closures), the referred object is destroyed exactly once, at the moment its last owning reference goes, its memory is returned exactly once through the allocator it came from, weak references neither keep it alive nor change when it goes, and dereferencing a reference whose object is alive always reaches the live object.",
  ["histories", "schedules"],
  "every history of reference operations over several objects and references x every legal allocator behaviour",
  "Tests run fixed short histories under the default allocator, which hides use after release and leaks.",
  ["Sources/Srt/Srl/refs.alusus", "Sources/Srt/Srl/refs_base.alusus", "Sources/Srt/closure.alusus"],
  [("reference counters", "Srl.RefCounter"), ("release", "SrdRef/WkRef/UnqRef handlers")],
  ["constructor/destructor events", "heap of the simulated process"])
p("P20", "Localised messages degrade to usable ones, never to failure",
  "Whatever the state of the message catalogue (missing, unreadable, cut off at any byte, failing in the middle) and whatever locale the environment names, the compiler starts, compiles and runs programs with the same program output, and every diagnostic still appears with its code, severity and source location.",
  ["fault_sequences", "configurations"],
  "every locale setting and every open or read fault or truncation of the message catalogue, for programs with and without diagnostics",
  "The tests use one healthy catalogue and one locale.",
  ["Sources/Core/Notices/L18nDictionary.cpp", "Sources/Core/Notices/notices.cpp", "Sources/Core/start.cpp", "Sources/Core/Basic/basic.cpp"],
  [("catalogue loading", "Notices::L18nDictionary::initialize"), ("fallback text", "Notices printing")],
  ["stdout", "exit status"])
p("P21", "Generated code computes what the language defines",
  "Arithmetic, conversions, comparisons and control flow of compiled programs give the results the language reference defines for every operand value.",
  ["inputs", "programs"], "every operand value and expression",
  "Tests sample a few operand values per operator.",
  ["Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp"],
  [("code generation", "ExpressionGenerator, TargetGenerator")], ["program results"])
p("P22", "The grammar accepts and rejects exactly the documented language",
  "Every program of the documented grammar parses to the tree the reference describes and every other text is rejected with a notice.",
  ["inputs"], "every source text", "Tests sample programs.",
  ["Sources/Core/Processing/Parser.cpp", "Sources/Spp/Grammar/SppFactory.cpp"],
  [("parser", "Core::Processing::Parser")], ["notices", "syntax tree"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P), 'properties')
