#!/usr/bin/env python3
"""Writes known-findings.txt; commits are looked up by subject so that the list survives a rebase."""
import pathlib
import subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
FIXED = [
    ("C08 C09 C10", "fix: keep formatting from changing the host program's logging",
     "logging levels changed process-wide during a call, stayed changed after an exception, and whether a nested or "
     "second-pass diagnostic appeared (and whether repr of a formatter ran at all) depended on other calls"),
    ("C15 C11", "fix: read and write documents as UTF-8 whatever the locale",
     "the same command gave other bytes or failed under another locale encoding"),
    ("C03 C04 C05", "fix: notice line endings that need normalizing",
     "CRLF documents were reported as unchanged, passed --check and stayed as they were"),
    ("C04", "fix: don't write output files when checking",
     "--check --output-dir/--output-file wrote the destinations of documents that need no change"),
    ("C01 C02 C05 C07 C12 C17", "fix: replace documents in a single step",
     "a kill, power loss, full disk, I/O error or interrupt while writing left documents empty or torn, and a "
     "concurrent run could read and publish the empty text"),
    ("C11", "fix: log to standard error", "with -v diagnostics were mixed into the document on standard output"),
    ("C05 C06", "fix: check the text that is delivered for consistency",
     "text with trailing blanks was delivered although formatting it again changed it or failed"),
    ("C05 C06", "fix: don't run past the end of a document",
     "formatted text ending in a hard break or a split link definition raised StopIteration when formatted again"),
    ("C14", "fix: check that paths can be read before starting",
     "an unreadable document was noticed only after earlier documents had been rewritten"),
    ("C13 C14 C03 C17", "fix: find the Markdown files of a directory reliably",
     "pattern characters in a directory's name hid its files, unlistable directories were skipped with status 0, "
     "directories, pipes and dangling links called *.md were opened, results depended on the listing order, links "
     "could be followed in circles, and an empty directory made the run consume standard input"),
    ("C12 C14", "fix: refuse output files that would overwrite each other or other inputs",
     "inputs with equal base names or aliased destinations overwrote each other's results, or another input, with "
     "status 0"),
    ("C16", "fix: name the file that cannot be reformatted",
     "undecodable documents and formatting errors other than RuntimeError were reported without the file's name"),
    ("C03 C13 C15", "fix: report the names of files as they are",
     "reports garbled names with Markdown characters, and a name the terminal cannot represent made the run fail"),
    ("C15", "fix: keep going when nobody reads the diagnostics",
     "a diagnostic written to a broken pipe ended the run (and sent standard output to /dev/null)"),
    ("C03", "fix: take linear time for nested block quotes",
     "every level of block quotes doubled the time, so that a line starting with 20 '>' took minutes and one with 60 "
     "never came back"),
    ("C15", "fix: report names that the terminal can't represent",
     "refusing an output file whose name the encoding of standard output cannot represent ended in a traceback and another "
     "status"),
    ("C15", "fix: print refusals to STDOUT again",
     "(with the commit before it) such a refusal depended on whether standard error could be written"),
    ("C15", "fix: write renders to STDOUT as UTF-8 whatever the locale",
     "--write-renders of standard input failed under locale encodings that cannot represent the document"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    by = {line.split(" ", 1)[1]: line.split(" ", 1)[0] for line in log.splitlines()}
    lines = ["# Genuine defects found by the checks.  'known: {json}' lines would suppress the finding they describe;",
             "# there are none: every defect found has been repaired.  'fixed:' lines suppress nothing."]
    for props, subject, what in FIXED:
        for p in props.split():
            lines.append(f"fixed: property={p} {by[subject]} {what}")
    (ROOT / "known-findings.txt").write_text("\n".join(lines) + "\n")


main()
