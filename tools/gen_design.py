#!/usr/bin/env python3
"""Rewrites everything after '## Properties' in DESIGN.md from properties.jsonl, the checks, NOTES below, the seeds and the known-findings file."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.__main__ import find
# id: (oracle, why tests cannot settle it, cost quick/thorough, false alarms corrected)
NOTES = {
"C01": ("`mc/z80.py`: a table built from the x/y/z/p/q decomposition of the opcode byte, not from opcodes.cpp", "one wrong table row or one operand value near a sign boundary is enough to break a program; the test suite samples a handful of rows", "3 s / 60 s", ""),
"C02": ("`mc/ez80.py` (forms, suffix resolution, lengths) plus a two-state automaton (default mode) for histories; the arithmetic of relative jumps for page ends", "the mode is hidden state set by `.assume`, undone or not by includes, macros and code buffers: only sequences show it", "25 s / 100 s", ""),
"C03": ("the interval of each field", "every limit has four neighbours, two passes and nine ways for the value to get there", "5 s / 30 s", "jumps that wrap around the address space were first demanded to be diagnosed; they are outside the property now"),
"C04": ("an independent 32-bit left-to-right evaluator", "operators interact with spelling (`<` `<<` `<=`), unary operators, parentheses, define substitution", "13 s / 250 s", "shift counts outside 0..31 are undefined in the language and not generated"),
"C05": ("a reader of literals written from the documentation", "all tokens up to a length, all values up to 16 bits, the powers around the limits, all characters", "12 s / 60 s", ""),
"C06": ("differential: the same program with the definition of the symbol moved behind the use; only the real assembler judges itself", "the two passes use different code for the same value; any operand kind, expression, wrapper or redefinition in between may tell them apart", "17 s / 200 s", "first version compared exit statuses 1 and 3 (a warning is fatal in pass two): now `diagnosed` is one class"),
"C07": ("explicit machine (location counter, output position, bytes, symbols)", "state accumulates over any number of statements", "10 s / 220 s", ""),
"C08": ("reference interpreter of the conditional grammar", "nesting and skipped text are combinatorial; every skipped kind of text must leave no trace", "27 s / 400 s", "an empty argument before a comma is not judged (`#ifdef` of it depends on its spelling)"),
"C09": ("explicit model of frames, bindings and probes", "bindings are dynamic state; shadowing, surplus, omitted and mutated parameters interact", "24 s / 300 s", "call by value, missing arguments and `#define` of a bound name are modelled as the assembler has them"),
"C10": ("explicit model of the define table, text substitution and its own evaluator", "order of (re)definitions matters; the value of an operand that is resolved later is fixed by the state at its line", "10 s / 250 s", "the spelling of the text left by eval() is not specified"),
"C11": ("counting model", "a reference is resolved by position, which macros, includes, skipped blocks and pass two all disturb", "10 s / 100 s", ""),
"C12": ("list model", "interactions of elements in one list; escapes; list-valued defines", "20 s / 250 s", "the 254-character limit of an element may be refused, but not silently"),
"C13": ("differential by renaming: a program with one spelling / with a fresh name per spelling", "every definition kind x every use kind x every mode has its own lookup", "8 s / 60 s", ""),
"C14": ("differential against the canonical layout, plus the bytes of the canonical layout", "layout is orthogonal to everything; every token boundary of every statement kind is a place", "12 s / 200 s", ""),
"C15": ("differential against the inlined text; model of the search path; the file's own bytes for import/getc", "every piece of global state crosses the file boundary", "35 s / 400 s", "unbalanced blocks across files are left out (`.end` is C32's)"),
"C16": ("independent reader of the containers (lengths, checksum, name, payload)", "lengths and checksums have carries and 8/16-bit boundaries only certain sizes reach", "3 s / 40 s", "the TI-85 entry header length was first taken from the 86 form (false alarm)"),
"C17": ("independent Intel-HEX reader", "paging and record boundaries", "4 s / 60 s", ""),
"C18": ("independent 8XK reader, MD5, and Rabin verification with the public key", "four residue classes of the signature, shortened signatures and room on the last page depend on the image", "3 s / 60 s", ""),
"C19": ("parser of the listing against the model of statements, rows and addresses; the binary with and without -T", "the listing is patched in pass two at saved offsets: any insertion in between moves them", "5 s / 120 s", "lines that themselves contain .list/.nolist and the place of macro bytes after an include are left open"),
"C20": ("dictionary of symbols", "hash table growth, order, case, value classes", "1 s / 40 s", "order of names that differ only in case, or of '_', is left open"),
"C21": ("independent table of times (eZ80 from the fetch/access rule), sizes and counts from the model", "sums over any program; the option combinations share state", "3 s / 60 s", "the eZ80 rule was first too simple for control transfers (now tabulated)"),
"C22": ("class of the worst statement (clean, warning, error) and the bytes of the clean rest; `host`: every place for a value x every value that can never be had must fail", "an error found in a nested session can be dropped at each of ~20 places where sessions are opened, replayed and closed", "6 s / 90 s", "`-O` writes no output, `.equ` text, `#if` of an unknown name (false), unclosed parentheses (a warning), `.option` text were first judged wrongly"),
"C23": ("line arithmetic of the generated program", "every line-consuming construct must keep count, alone and in combination", "9 s / 200 s", ""),
"C24": ("fault enumeration: status 0 only with outputs identical to the undisturbed run", "each single operation on each stream is a fault point; tests inject none", "3 s / 130 s", "short writes are masked by stdio and are no failure"),
"C25": ("AddressSanitizer, signals, exit status, time limit", "delimiters and lengths at every position, extreme numbers, nesting, recursion, truncated files", "200-280 s / 1500 s", "doubling time of deeply nested macro calls is a known finding"),
"C26": ("differential: the canonical order and spelling of the same option set", "all interleavings", "40 s / 320 s", "the location of a self-referential -D define and the name of the listing of -V are not judged"),
"C27": ("independent decoder of the bitmap formats", "depth x width x padding x palette x format options", "95 s / 200 s", "palette indexes beyond the palette and uneven image maps are not modelled"),
"C28": ("explicit machine (current buffer, pending texts) and the text in place of the run", "buffers are hidden state; code in a buffer may itself use the buffers", "6 s / 210 s", "clr() leaves an empty buffer that may be run (documented now)"),
"C29": ("encoding computed from the declaration", "the declaration changes the table that every later statement is looked up in", "10 s / 145 s", "`[*]` patterns are not supported by the assembler and were removed"),
"C30": ("the concatenation of the elements' texts, for console and file", "values resolve at two different times; the lists have limits", "18 s / 170 s", "-O prints no messages; unclosed parentheses are only warned of"),
"C31": ("self-composition: the execution repeated under other memory contents, leftover files, environments must be identical", "uninitialised memory never shows in a test that runs once", "190-220 s / 3000 s", "a file that the program names itself (appended or imported) is an input"),
"C32": ("model: the table of definitions in force, and the line and file of every text as it is written", "the value of a predefined name depends on which of several expansion paths evaluates it, and in which pass", "3 s / 30 s", "blanks at the ends of a shown text are not compared; `__FILE` inside a define and `__LINE` inside a macro that stands for a list are left open"),
"C33": ("model: the conventional value of every equate (independent evaluator), the bytes of every macro and extended instruction (independent Z80 model), page and relocation state machines", "a user's program is these files plus a few lines; one wrong token or precedence rule changes one of several thousand values", "12 s / 2 min", "arrays.inc is not covered (it has never worked); six names of ti84pce.inc refer to an address that is defined nowhere (known finding)"),
}
known = json.load(open(os.path.join(V, "known_findings.json")))
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
missed = json.load(open(os.path.join(V, "tools", "missed.json"))) if os.path.exists(os.path.join(V, "tools", "missed.json")) else {}
o = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    c = find(i)
    n = NOTES.get(i, ("", "", "", ""))
    o.append("### %s %s" % (i, p["title"]))
    o.append("")
    o.append(p["statement"])
    o.append("")
    o.append("* *Enumerated* (`mc/checks/%s.py`, level %s): %s" % (c.__module__.split(".")[-1], c.level, c.rule))
    o.append("* *Oracle*: %s." % n[0])
    o.append("* *Assumed*: %s." % "; ".join(c.assumptions))
    o.append("* *Beyond tests*: %s. *Cost* (quick / thorough, 8 cores): %s." % (n[1], n[2]))
    if n[3]:
        o.append("* *Corrected after a false alarm, or left open on purpose*: %s." % n[3])
    fx = [x for x in known["fixed"] if "property=%s " % i in x]
    kn = [x for x in known["known"] if x["property"] == i]
    o.append("* *Defects found*: %d repaired%s." % (len(fx), "".join("; known finding `%s`: %s" % (k["key"], k["what"]) for k in kn)))
    if i in seeds:
        o.append("* *Planted bugs*: %s." % "; ".join("`%s` (%s)%s" % (s, m["needs"], " - " + missed[s] if s in missed else "") for s, m in seeds[i]))
    o.append("")
o.append("## Not applicable")
o.append("")
o.append("None: every property listed is decided by enumeration of executions. Assembler behaviour on Windows (COM interface, `dll.cpp`, `Z80Assembler.cpp`) isn't part of the build here and is not listed as a property.")
o.append("")
o.append("## Defects repaired")
o.append("")
o.append("Each line is one `fix:` commit in /repo (also in `known_findings.json`).")
o.append("")
for x in known["fixed"]:
    w = x.split(" ", 3)
    o.append("* %s %s: %s" % (w[1][9:], w[2], w[3]))
o.append("")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = t[:t.index("## Properties")] + "## Properties\n\n" + "\n".join(o)
open(p, "w").write(t)
print(len(o), "lines")
