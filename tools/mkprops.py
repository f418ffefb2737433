#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, pathlib
M = "markflow/__main__.py"; A = "markflow/_argparse.py"; R = "markflow/reformat_markdown.py"
U = "markflow/_utils/_utils.py"; W = "markflow/_utils/textwrap.py"; P = "markflow/parser.py"
FL = "markflow/formatters/lists.py"; FB = "markflow/formatters/block_quote.py"
FT = "markflow/formatters/table.py"; FF = "markflow/formatters/fenced_code_block.py"
DL = "markflow/detectors/_lines.py"; DB = "markflow/detectors/block_quote.py"
DF = "markflow/detectors/fenced_code_block.py"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

NOTEST = "No existing test runs the command line at all; "

p("C01", "A crash never leaves a document torn, empty or mixed",
  "When the tool is formatting files in place and the process is killed or the machine loses power at any instant, every ordinary document named on the command line afterwards holds either exactly the bytes it held before or exactly its complete formatted bytes. No other file in the tree loses or changes its contents.",
  ["crash_points", "histories"],
  "Every system-call boundary and every byte inside a write at which the process can die, with or without losing data the operating system had not yet been told to make durable; for one or many files, any documents and line lengths. Ordinary document: a regular file with one name, in a directory the user may write.",
  NOTEST + "a crash window lies between two system calls and cannot be hit by calling functions.",
  [M], [("single-step replacement of the document", M)], ["file system state after restart"],
  [("in-flight document", "file whose new contents are being written", M)])
p("C02", "A failing system call or an interrupt never costs a document",
  "When any system call fails (full disk, quota, I/O error, descriptor exhaustion, out of memory), is only partly carried out, or the run is interrupted by Ctrl-C at any instant, every ordinary document named on the command line still holds either its previous bytes or its complete formatted bytes. Every other file keeps its contents.",
  ["fault_sequences", "crash_points"],
  "Every fault sequence over the run's system calls (error before or after effect, short writes, disk filling at any byte, errors that persist or go away) and every point in the code at which a signal or memory exhaustion can strike.",
  NOTEST + "faults and their positions are not sampled anywhere.",
  [M], [("single-step replacement of the document", M), ("clean-up on any exception", M)], ["file system state when the run has ended"])
p("C03", "Exit status 0 means every requested document was formatted, and says so",
  "A formatting run always ends, and ends with status 0 only if every document it was asked to format now holds exactly the formatted text of what it held at the start, including normalised line endings; if anything prevented that, the status is not 0. When nothing fails and every document is one the library can format, the status is 0, and the files the run reports as reformatted or left unchanged are exactly those that were. A run that fails half-way never reports a file as reformatted that does not hold its formatted text.",
  ["fault_sequences", "inputs", "histories"],
  "All document sets, line lengths and fault sequences over the system calls, standard output included.",
  NOTEST + "nothing compares the status or the report with the resulting files, with or without faults.",
  [M, R], [("per-file loop, exception propagation, counters", M)], ["exit status", "standard output", "file contents"])
p("C04", "Check mode never writes and its verdict matches a real run",
  "With --check, under every combination of the other ordinary options and under every fault, no file or directory is created, removed, written or otherwise modified (renders that --write-renders asks for excepted). Absent faults the status is 0 exactly when a formatting run on the same input would change nothing and 1 when it would change something; it is never 0 when some input could not be examined. The files and numbers it reports are those that the formatting run then reports.",
  ["configurations", "fault_sequences", "histories"],
  "All option combinations (in place, output directory, output files, standard input, verbosity, line length), document sets and faults, followed by the real run whose outcome the verdict predicts.",
  NOTEST + "the verdict has to be compared with what a later run does.",
  [M], [("check branches of the file and standard-input paths", M)], ["file system operations and state", "exit status"])
p("C05", "Formatting converges: re-runs are no-ops and interrupted runs can resume",
  "After a run has succeeded, running it again writes nothing, reports every file unchanged and --check succeeds. After any history of crashed, failed or interrupted runs, the next undisturbed run succeeds and leaves exactly the bytes a single undisturbed run would have left on the original documents.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "Every sequence of runs with kills, power losses, I/O errors and interrupts at any point, then undisturbed runs; all document sets the library can format.",
  "Tests feed 24 fixed documents through the library twice; no test re-runs the command, and none resumes after a failure.",
  [M, R], [("stability double-check before anything is written", R), ("single-step replacement", M)], ["file contents and modification times across runs"])
p("C06", "Output that would change again never reaches the user",
  "If reformatting a result would not reproduce it exactly, whatever part of the formatting pipeline misbehaves and however, the call raises the inconsistency error, the command ends with a non-zero status, and nothing is written to the document, the redirected output or standard output. Text that is delivered is reproduced unchanged when it is formatted again.",
  ["fault_sequences", "inputs", "configurations"],
  "Every formatter that can be made to misbehave (drifting, flapping, call-dependent, width-dependent or nested), every document containing the block it formats, every delivery mode.",
  "No test exercises the inconsistency error: that needs a formatter that is wrong.",
  [R, M], [("second pass and comparison", R), ("error path of each delivery mode", M)], ["exceptions", "files", "standard output"])
p("C07", "Concurrent runs over the same files behave as if run one after another",
  "When several formatting or checking runs operate on overlapping files at the same time, in any interleaving and even if one of them is killed, each file ends up as some one-after-another order of the runs would have left it; no run ever reads or publishes partial text, and no run fails merely because another is active.",
  ["schedules", "crash_points", "configurations"],
  "Every interleaving of the runs' system calls, two or three runs, same or different line lengths, files named directly or through directories, optional kill of one run.",
  "Tests are single-process and never touch files through the command.",
  [M, A], [("single-step replacement", M), ("in-flight data invisible to directory expansion", A)], ["file contents", "exit statuses"])
p("C08", "Concurrent library calls return what each would return alone",
  "Any number of threads may reformat texts at the same time; whatever the interleaving, each call returns the same text or raises the same error as it would if it ran alone in a fresh interpreter.",
  ["schedules", "inputs"],
  "Every interleaving of two to four calls at line and bytecode granularity, over texts using all section types and nesting, equal or different widths.",
  "Tests are single-threaded; shared state only shows under particular interleavings.",
  [R, P, U, DF, W], [("no shared mutable state in detectors and formatters", P)], ["return values and exceptions"],
  [("module-level fence variables", "leftovers of a stateful detector", DF), ("logging globals", "process-wide logging state", U)])
p("C09", "Formatting never disturbs the host program's logging",
  "During and after any calls, in any number of threads, whether they return, raise or are interrupted, every log record of the host program is delivered exactly once at its own level, and loggers, levels, level constants, handlers and filters are what the host set; importing the library changes none of them either. Each call emits the same diagnostics it would emit if it ran alone.",
  ["schedules", "crash_points", "histories"],
  "Every interleaving of formatting calls with each other and with logging by the host, every instant at which a call can be interrupted or fail, and level changes by the host between calls.",
  "No test inspects logging; restoration errors need an exception or an interleaving at the wrong moment.",
  [U, R, FL, FB, DB], [("muting of nested and second-pass diagnostics", U), ("muting of the second pass", R)], ["log records received by host handlers", "logger levels"])
p("C10", "A call's result depends only on its input, never on what ran before",
  "Within one process, after any history of calls that returned, raised, or were interrupted at an arbitrary instant (Ctrl-C, memory or stack exhaustion), each further call returns or raises exactly what it would in a fresh interpreter, and emits the same diagnostics.",
  ["histories", "crash_points"],
  "Every sequence of calls over all section types with arbitrary widths, with asynchronous exceptions struck at any function entry of the library.",
  "Tests never interrupt a call and share state only by accident of order.",
  [R, P, U, DF], [("no state surviving a call", R)], ["return values, exceptions and diagnostics of later calls"])
p("C11", "Pipe mode delivers the document alone, whole, or not at all",
  "Reading standard input and writing standard output, the tool writes exactly the formatted text and nothing else to standard output, whatever the verbosity and however the input arrives in pieces. If the input cannot be read to its end, decoded or formatted, nothing of a document is written to standard output and the status is not 0; if the output cannot be written completely, the status is not 0.",
  ["fault_sequences", "schedules", "configurations"],
  "Every chunking of the input stream (splits inside characters and line endings included), read errors at any byte, write errors, short writes and closed pipes at any byte, every verbosity and ignored output option.",
  "No test runs pipe mode.",
  [M, R], [("read all, format, then write", M), ("diagnostics kept off standard output", M)], ["bytes on standard output", "exit status"])
p("C12", "Redirected output leaves inputs alone and gives each input its own result",
  "With an output directory or output files, no input document is modified (unless it is its own destination), and after status 0 each destination holds exactly the formatted text of its own input, co-indexed as given. Two different inputs never end up sharing one destination silently; when something fails or crashes, each destination, if it is a regular file with one name, holds its previous contents (or is absent) or its complete result.",
  ["configurations", "fault_sequences", "crash_points"],
  "All sets of inputs (equal names in different directories included), destinations new or existing, links and aliases between them, with faults and crashes at any system call.",
  "No test uses the output options.",
  [M, A], [("pairing of inputs and outputs", M), ("output argument validation", A)], ["contents of inputs and destinations", "exit status"])
p("C13", "A directory argument means each Markdown file in it, in any listing order",
  "A directory on the command line stands for every regular, non-hidden file ending in .md at any depth beneath it, each once, whatever characters the names contain, and for nothing else. The outcome, including which files were handled when a run stops at a bad one, does not depend on the order in which the operating system lists directory entries, and a directory without such files means there is nothing to do.",
  ["configurations", "schedules", "fault_sequences"],
  "All directory trees (odd names, directories called *.md, hidden and nested entries, links to files), every listing order, entries appearing or vanishing while the run is going on.",
  "No test expands a directory; listing order is chosen by the file system.",
  [A, M], [("directory expansion", A)], ["set and order of files handled"])
p("C14", "A rejected command line has no effect at all",
  "If any argument is unusable as the arguments are examined (a missing, unreadable or unwritable file, a bad or duplicate destination, mismatched counts, an unknown option), the run ends with a non-zero status before any file is created or modified and without consuming standard input, however many valid arguments precede it.",
  ["configurations", "inputs"],
  "All command lines mixing valid arguments with at least one unusable one, in every position, over all permission states of the files.",
  "No test covers argument handling.",
  [A, M], [("argument types and checks made before work starts", A), ("writability and count checks", M)], ["file system operations", "exit status"])
p("C15", "Verbosity, environment, clock and hash seed never change the result",
  "The bytes written and the exit status are the same at every verbosity, terminal size and type, environment, wall-clock value (jumps included) and hash seed, and whether or not diagnostics can be delivered.",
  ["configurations", "fault_sequences"],
  "All verbosity flags, terminal widths, environment settings, clocks, hash seeds and process ids, and failures of the diagnostic stream, over all documents.",
  "Tests run in one environment with one hash seed and look only at return values.",
  [M, R], [("diagnostics separate from results", R)], ["file contents", "standard output", "exit status"])
p("C16", "A document's outcome in a batch is its outcome alone",
  "In a run over several documents each one ends up exactly as if it had been the only one, whatever its companions and the order they come in. If one cannot be formatted, its own bytes stay as they were, the documents handled before it are complete, those after it are untouched or complete, the status is not 0 and the message names the failing file.",
  ["histories", "inputs", "configurations"],
  "All batches and orders of formattable, unformattable and undecodable documents, repeats included.",
  "No test formats more than one document through the command.",
  [M, R], [("per-file loop and error annotation", M)], ["file contents", "exit status", "error text"])
p("C17", "A run touches only what it was asked to write, and only its contents",
  "A formatting run changes no file other than the documents that need reformatting, the requested destinations and the requested renders, and leaves no other file behind, also when it ends with an error of its own or is interrupted while it writes. A rewritten document keeps its name, permission bits, owner and links, and a document that needs no change is not written at all.",
  ["configurations", "fault_sequences", "histories"],
  "All document sets with arbitrary modes, owners, symbolic and hard links, long names, read-only directories and special files, with failing system calls.",
  "No test looks at file metadata or at the rest of the tree.",
  [M], [("single-step replacement preserving metadata", M), ("unchanged files skipped", M)], ["complete file-system state before and after"])
# ---- properties this technique does not decide
p("C18", "Formatting preserves what the document renders to",
  "For every CommonMark document without tables, the reformatted text renders to the same HTML as the original, up to list start numbers and insignificant whitespace.",
  ["inputs"], "All documents and line lengths.", "Only 21 file pairs are rendered and compared.",
  [R, P, W, FL, FB], [("section-wise reformatting", R)], ["rendered HTML"])
p("C19", "Every text is formatted or refused with a documented error",
  "For every text and width, reformatting terminates and either returns text or raises one of the documented formatting errors.",
  ["inputs"], "All Unicode texts and widths.", "Tests sample a few dozen texts.",
  [R, P, DF, FF, FT], [("exhaustive section splitters", P)], ["return value or exception type"])
p("C20", "Wrapped lines respect the requested width",
  "No line of reflowed text is longer than the requested width unless it is a single unbreakable element.",
  ["inputs"], "All texts and widths.", "Tests use three widths on fixed text.",
  [W], [("greedy wrapping", W)], ["lengths of output lines"])
p("C21", "Code, links and cell contents are carried over verbatim",
  "The contents of code blocks, code spans, link destinations and table cells appear in the output unchanged apart from trailing whitespace and documented padding.",
  ["inputs"], "All documents containing those elements.", "Tests sample fixed documents.",
  [FF, W, FT], [("literal sections bypass wrapping", W)], ["output text"])
p("C22", "Output follows the documented style rules",
  "Headings, list markers and numbering, table padding and alignment, thematic breaks, blank lines and the final newline in the output always follow the documented rules.",
  ["inputs"], "All documents.", "Tests sample one or two documents per rule.",
  [R, FL, FT], [("one formatter per section type", R)], ["output text"])
p("C23", "Sections tile the document and are recognised exclusively",
  "Splitting a document into sections loses and duplicates no line, and at each position at most one kind of section is recognised.",
  ["inputs"], "All documents.", "The documentation says this is not tested.",
  [P, DL, DB], [("mutually exclusive splitters", P)], ["section list"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in props))
print(len(props), "properties")
