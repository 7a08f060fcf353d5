"""Writes known_findings.json: the defects found, repaired ones by the commit that repaired them (looked up by subject)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split("\t", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h%x09%s"], capture_output=True,
           text=True).stdout.splitlines())
FIXED = [
    ("C02", "fix: keep the eZ80 mode selected by .assume across #include and run()", ".assume adl=0 was undone by every #include and run()"),
    ("C06", "fix: encode rst with a forward-referenced operand", "rst fw was written as the raw operand byte instead of the opcode"),
    ("C22", "fix: exit with an error status when an unresolved symbol was reported", "an undefined symbol was reported but the exit status was 0"),
    ("C06", "fix: keep literals and negative labels intact in deferred expressions", "'a'+fw with a label a, $hex names and 1-neg-fw changed value when deferred"),
    ("C06", "fix: evaluate macros in deferred expressions as in immediate ones", "#define d 3+4 in 2*d*fw was pasted textually when fw was a forward reference"),
    ("C04", "fix: report the error when a macro call is followed by more of a failing expression", ".dw fn(3)/0 emitted fn(3) and exit 0"),
    ("C04", "fix: report a division by zero in eval() and macro arguments where it happens", "#define q eval(fn(3)/0) / .dw q emitted fn(3) and exit 0"),
    ("C05", "fix: reject malformed numeric literals instead of evaluating a part of them", "% without digits was 0, $0x10 and 0x10h were 16"),
    ("C05", "fix: treat character literals as unsigned and do not read past an unfinished one", ".dw of a character above 127 was negative; a lone ' at the end of a line read past the text"),
    ("C05", "fix: recognise literal characters and escapes when looking for the end of a line", "#define q ';' lost its value, '\"' and \"\\\\\" swallowed the comment"),
    ("C06", "fix: group the value of a macro in an argument that refers to a later symbol", "m(2*d*S) with #define d 3+4 depended on whether S was known"),
    ("C06", "fix: decide conditions and $ in deferred macro calls as at the call", "fn(S) with #if on its argument silently took the false branch; m($-S) used the address of the use"),
    ("C06", "fix: accept a macro that lists several values when one of them is a later symbol", "#define q S,1 / .dw q was rejected when S is defined later"),
    ("C25", "fix: stay inside the output buffer when writing and seeking", ".seek and .fill wrote outside the output buffer"),
    ("C22", "fix: write no output after a fatal error, and clear the output buffer", "a fatal error in pass two still wrote the output; unwritten gaps held uninitialised memory"),
    ("C07", "fix: report an unknown value where it is needed at once", ".org/.fill/.seek with an undefined symbol were silently ignored"),
    ("C08", "fix: report stray conditionals after a skipped branch", "a stray #endif, or a second #else or an #elif after #else, was accepted once any branch had been skipped"),
    ("C08", "fix: assemble what follows a skipped #endif on the same line", "'#if 0 \\ nop \\ #endif \\ .db 9' lost the .db 9"),
    ("C09", "fix: evaluate all arguments of a macro call in the context of the caller", "in m(b,a) the second argument saw the binding of the first one"),
    ("C22", "fix: carry on after a warning instead of failing without output", "a macro call with a surplus argument stopped with status 3, no output and no further diagnostics"),
    ("C06", "fix: end an unclosed parenthesis at the end of its line", "'ld hl,2*(S' swallowed the rest of the file without assembling it"),
    ("C09", "fix: report a data value whose macro argument was not given", ".db t with t a missing argument emitted nothing, without any diagnostic"),
    ("C09", "fix: assemble every line of a macro when more follows its call", "with anything left on the line of the call only the first line of the macro was assembled"),
    ("C09", "fix: skip all surplus arguments of a macro call", "m(1,2,3) with one parameter assembled the first line of m only"),
    ("C28", "fix: don't take the start of a name for buf, clr, wr or run", "a macro named r, ru, w, b, bu, c or cl was taken for run, wr, buf or clr"),
    ("C09", "fix: expand calls of macros without parameters in deferred expressions", ".db f()*later could not be resolved"),
    ("C10", "fix: keep the names of labels in the text of a redefined define", "in the text of a #define that replaces another one equates were frozen at their current value"),
    ("C10", "fix: report an unknown value in concat()", "an argument of concat() that is defined later was dropped silently"),
    ("C14", "fix: don't keep the blanks before a comment in the text of a define", "a comment after a #define changed what concat() made of it"),
    ("C06", "fix: leave comments and line ends out of the value of a macro", "2*f(3)*later with a #macro f that has a single line, or a comment, was cut off after f(3)"),
    ("C10", "fix: take only the text of its line into a #defcont", "what a second #defcont added to an expression was ignored"),
    ("C25", "fix: forget the define that #defcont adds to when it is removed", "#defcont after #undef used freed memory"),
    ("C11", "fix: allow any number of anonymous labels", "more than 4096 anonymous labels overran a fixed table (memory corruption)"),
    ("C12", "fix: emit all of a string that has a \\0 in it, and report what follows its closing quote", ".db \"a\\0b\",1 emitted 22 61 01; .db \"a\"+1 and an unclosed string were accepted silently"),
    ("C23", "fix: count the lines of a string that spans several", "line numbers in diagnostics were too small after a string that spans lines"),
    ("C13", "fix: add defines from the command line after all options are known", "-D before -A lost the case of the name; -Dname took the text of the next argument as its value"),
    ("C14", "fix: end the name of a command or directive at a comment or backslash", "a comment or joining backslash directly after #endif, #else, .list etc. was taken for a part of the name"),
    ("C14", "fix: accept files of less than three bytes", "an empty, 1- or 2-byte source or included file could not be read"),
    ("C14", "fix: assemble what follows an .addinstr on the same line", "statements joined to an .addinstr with a backslash were dropped silently"),
    ("C15", "fix: look for included files beside a main file with a relative name", "spasm sub/a.asm did not find files included from sub/"),
    ("C15", "fix: name the file that an #import can't find", "a missing #import file was looked up and reported as (null)"),
    ("C15", "fix: don't take source text that starts with BM for a bitmap", "an included file whose first label starts with BM was rejected as a bitmap; the header of files under 14 bytes was read uninitialised"),
    ("C15", "fix: don't take a directory for an included file", "an #include or #import whose name is a directory was accepted silently"),
    ("C15", "fix: allow a semicolon in the name of an included file", "#include of a quoted name with a semicolon was rejected though #import accepts it"),
    ("C16", "fix: write the file header of TI-85 programs and strings as the format requires", "the signature of .85P files ended in 0C 0A instead of 0C 00, .85S files had the one of other calculators"),
    ("C16", "fix: write correct length fields into .85S and .86S files", "the data section length of .85S/.86S was off and the entry header length of .85S was 0"),
    ("C16", "fix: cut the name of a TI-85 or TI-86 variable before its length is written", "names over 8 characters left wrong name, header and data section lengths in 85P/85S/86P/86S files"),
    ("C16", "fix: leave the directory out of the name of a TI-82 program, and the root directory out of any", "an .82P written to a directory was named after the path; /prog.8xp was named /PROG"),
    ("C16", "fix: warn about every program that is too large for the length fields of its file", "eZ80 programs of 65514 to 65535 bytes got a wrapped data section length without any message"),
    ("C17", "fix: the checksum of a HEX page record covers both bytes of the page number", "a HEX file of 256 pages or more has a wrong checksum in the page records from page 256 on"),
    ("C17", "fix: a dot in a directory name is not the start of the output extension", "an output name without an extension in a directory whose name has a dot (out.d/prog, ../x/prog) warns about an unknown extension and loses part of the name"),
    ("C18", "fix: a one-page application needs room for its signature too", "an application of 16289 to 16384 bytes, whose signature does not fit on its page, is written without an error (with header lengths that do not match)"),
    ("C18", "fix: a header field cut off by the end of the application is missing", "an application that ends within its page count or name field is signed with the field lost"),
    ("C19", "fix: a macro call does not break up the listing of its line", "after the first macro call in a file, and after every call inside another macro, the listing ends the line early: the bytes that follow stand on a line of their own, glued to a \"Listing for file\" banner"),
    ("C19", "fix: list the bytes a macro emits after an included file on rows of their own", "bytes that a macro emits after an #include or run() are inserted into the listing after the banner without address or line end, in front of the next line"),
    ("C19", "fix: .nolist and .list beside code on the same line keep the listing intact", ".nolist after code on its line (or in a macro after an include) cuts 14 characters from the middle of the listing, and code after .list on its line is glued in front of the next line; the same on lines from number 100000 on"),
    ("C20", "fix: a dot in a directory name does not start the extension to replace", "with an output name without extension in a directory whose name has a dot (sub.d/x, ./x) the symbol table, the listing and the default output go to a file named after the directory (sub.lab, .lab)"),
    ("C21", "fix: execution times of adc a,l, bit n,(ix+d) and the undocumented Z80 instructions", "the code counter counts adc a,l as 7 clocks, bit n,(ix+d) as 23, and sll, sub/xor with index register halves and the set/shift forms with a register copy as none"),
    ("C21", "fix: count the bytes of imported files and bitmaps as data", "the statistics leave the bytes of #import and of included bitmaps out of the data size and the total size"),
    ("C21", "fix: the code counter mode assembles labels and equates like the normal mode", "with -C no label or equate is defined: a program with an equate fails without a message, and every label in the output is written as zero"),
    ("C21", "fix: the eZ80 execution time of adc a,l", "the code counter counts adc a,l as 7 clocks on the eZ80 instead of 1"),
    ("C22", "fix: a failed export leaves no output file", "An application rejected by the exporter (missing header field, no room for the signature) left an empty .8xk file behind."),
    ("C22", "fix: exit with the status of the errors in code counter mode", "-C: erroneous programs exited with status 0 and wrong output, because the suppressed messages did not set the exit code."),
    ("C30", "fix: resolve forward references in .echo at the end", ".echo of a symbol defined later printed nothing for it, and of an undefined symbol reported no error (exit status 0)."),
    ("C30", "fix: report values not known yet in a redirected .echo", ".echo > file of a symbol defined later (or never) silently left it out of the file."),
    ("C30", "fix: the quoted name of a redirected .echo may follow the > directly", ".echo >\"f\" lost the first character of the name and .echo > at the end of a line took the next line as its file name."),
    ("C23", "fix: count the lines of strings in macro arguments", "After a macro call or wr() with a string argument spanning several lines all messages named lines that were too low."),
    ("C23", "fix: an #if inside a comment block is just text", "An #if without #endif between #comment and #endcomment silently swallowed the rest of the file."),
    ("C23", "fix: a redefined macro is where it was redefined", "Messages from the body of a redefined #macro named a line near its first definition (one further down per redefinition) and the wrong file."),
    ("C25", "fix: a macro may undefine or redefine itself", "A macro that #undefs itself while it runs, or is undefined before its forward references are resolved, left dangling name and file name pointers."),
    ("C23", "fix: a list macro in data doesn't move the line number", ".db with a macro of several lines standing for several values shifted the line numbers of all later messages."),
    ("C23", "fix: name the line of a #macro without #endmacro", "An unterminated #macro was reported one line too low."),
    ("C23", "fix: name the file and line of an error inside a macro", "An error inside a macro used in an expression named the line of the macro in the file of the call, and a label conflicting with a #macro the line after it."),
    ("C08", "fix: directives in a comment block don't count while skipping", "An #else, #endif, #endmacro or unbalanced #if inside a #comment block was taken for a real one when the block was skipped or part of a macro, although it is just text otherwise."),
    ("C24", "fix: a redirected .echo that cannot be stored is reported", "a write error while redirecting .echo (disk full) was ignored: exit 0 with a truncated file"),
    ("C24", "fix: a program that cannot be stored completely is reported", "write errors of the output file (disk full) were ignored: exit 0 with a truncated program"),
    ("C24", "fix: a symbol table that cannot be stored completely is reported", "write errors of the symbol table (disk full) were ignored: exit 0 with a truncated .lab"),
    ("C24", "fix: a listing that cannot be stored completely is reported", "write errors of a listing surfacing only at fclose (disk full) were ignored: exit 0 with a truncated .lst; the open failure message had no line end"),
    ("C03", "fix: getc() reads the byte at the given offset", "getc(file, offset) never looked at its second argument, so it gave 0 and no operator could follow it"),
    ("C24", "fix: an input file whose size or contents cannot be read is reported", "a directory or unseekable file given as input or include assembled as an empty file (or crashed) with status 0"),
    ("C24", "fix: a file that cannot be read is not imported in part", "a read error while #importing a file (or a directory) ended the data silently with status 0"),
    ("C24", "fix: getc() reports a file it cannot read", "getc() on a file (or directory) that cannot be read gave -1 with status 0"),
    ("C27", "fix: a malformed or unsupported bitmap is reported as an error", "truncated, empty, top-down or oddly deep bitmaps were included as nothing or as garbage (or crashed) with status 0; read errors were ignored"),
    ("C24", "fix: bitmap rows that cannot be reached are reported", "a failed seek to the rows of a bitmap included the wrong bytes with status 0"),
    ("C25", "fix: endless nesting of macros, included files and run() is reported", "a macro, an included file or a run() that calls itself without end crashed the assembler (stack overflow)"),
    ("C28", "fix: buf() reports a buffer that doesn't exist", "buf() with a number outside 0..9 wrote outside the table of buffers, and an unknown value printed garbage"),
    ("C28", "fix: a missing parenthesis after clr, wr or run doesn't skip the next line", "wr(, clr( or run( without the closing parenthesis swallowed the next line or read past the end of the file"),
    ("C28", "fix: run() empties the buffer it runs, whatever its code does", "code in a buffer that uses buf(), clr() or run() made run() free the wrong buffer, or the same one twice (crash)"),
    ("C25", "fix: a function-like define that uses itself in an expression is reported", "a define with arguments that uses itself was evaluated without end"),
    ("C25", "fix: expanding a define that uses itself more than once ends", "a define that uses itself more than once (or a long chain of defines that double) expanded as a macro argument, in eval(), #if or .echo, ran practically forever"),
    ("C25", "fix: a list macro that uses itself is reported", "a define that holds a list with itself in it, used in .db, .dw, .echo or wr(), ran practically forever"),
    ("C25", "fix: a macro may change its own definition while it's evaluated", "a macro that undefines or redefines itself while it's evaluated in an expression used freed memory"),
    ("C25", "fix: a skipped line that starts with a parenthesis doesn't hang", "a line starting with ')' inside a #comment, a macro or a skipped block, and a condition starting with ')', looped forever"),
    ("C25", "fix: .fill and .block stop when the output is full", "a .fill or .block of a huge size kept running long after the output was reported as too large"),
    ("C27", "fix: 16 and 32-bit bitmaps have the right colors", "the pixels of 16 and 32-bit bitmaps were decoded wrongly, and those of 24-bit bitmaps with a color table"),
    ("C27", "fix: only the colors matter for the mask and inverted pixels of a bitmap", "the unused fourth byte of the color table, and an uninitialized one, were compared with the mask and the inverted color"),
    ("C27", "fix: the size in a bitmap header is the number of bytes that follow", "the size in a bitmap header was wrong with 8 or 16 shades, a mask, or a minimum width"),
    ("C25", "fix: bitmap options that can't be satisfied are reported", "an image map with a width or height of 0, tiles that don't fit, a huge minimum width or an impossible number of shades crashed or hung the assembler"),
    ("C25", "fix: reading an expression doesn't search the rest of the file at each character", "reading an expression searched the rest of the source for a delimiter at each character, so large sources took practically forever"),
    ("C27", "fix: a bitmap header format in quotes may be given with #define", "a header format in quotes given with #define __BM_HDR_FMT kept its quotes (only .option worked): every token was unknown"),
    ("C29", "fix: the instruction data of .addinstr may be up to eight bytes and has to be valid", ".addinstr data of 5 to 8 bytes was shifted wrongly or rejected, an odd number of digits lost one, invalid digits left the bytes undefined, end data of more than a byte was cut"),
    ("C29", "fix: .addinstr rejects sizes that don't fit the instruction and its operands", ".addinstr with a size that isn't that of its bytes and operands moved the addresses of everything after it, two word operands became a byte and a word, and more than three operands overflowed the stack"),
    ("C14", "fix: an instruction may follow the colon of a label directly", "'l1:nop' silently defined a second label 'nop' and emitted nothing: an instruction right after the colon of a label was taken for another label"),
    ("C30", "fix: problems inside a list given as a macro are reported", "`#define L \"l\",1,fw` / `.echo L` with fw defined later printed `l1(error)`; `.db L` with a malformed or too large value in the list gave no error or warning"),
    ("C28", "fix: wr() reports a value that isn't known", "`wr(\"; \",nope)` (also a label defined later) wrote the text `(error)` into the buffer and assembly succeeded"),
    ("C30", "fix: error messages are not cut off", "a message of .error was cut after 127 characters (and any diagnostic after 255, with a long path)"),
    ("C30", "fix: .echo prints its whole text", "`.echo S,S` with strings of together over 252 characters was a fatal error (\"Expression is too long\") and `.echo \"a\\0b\"` lost everything after the NUL"),
    ("C25", "fix: .echo with a long path doesn't overflow", "`.echo > \"...\"` wrote past its file name buffer when the source's directory (up to 4095 characters) and the name didn't fit together, and with a define of over 4095 characters as the name"),
    ("C23", "fix: count the lines of a string that ends its lines with carriage returns only", "a string over several lines of a file with bare carriage returns as line ends was counted as one line: all later messages carried wrong line numbers"),
    ("C25", "fix: getc() takes a file name from a define and does not crash on an omitted argument", "getc(f,0) in a macro whose argument f was omitted dereferenced a null pointer; a name taken from a #define kept its leading blank and was not found"),
    ("C30", "fix: .echo does not write to a file called \"(null)\"", ".echo > f in a macro whose argument f was omitted wrote to a file called \"(null)\""),
    ("C22", "fix: getc() with an omitted argument is reported in a data list, too", ".db getc(f,0) in a macro whose argument f was omitted silently emitted a zero byte"),
    ("C06", "fix: getc() with an offset that is defined later", "getc(file,n) whose offset is defined later (or never) was silently taken as 0, in data lists also after any error"),
    ("C22", "fix: getc() of a file that can't be read has no value", "a list define given getc() of a missing file as its argument emitted 0 bytes without an error; .echo of it printed an uninitialised number"),
    ("C10", "fix: concat() of a define takes its text without the blank before it", "concat() of a define whose text is a string kept the blank before it and the quotes"),
    ("C06", "fix: __LINE and __FILE in a define have the same value when another symbol is defined later", ".db q+fw with #define q __LINE and a later symbol fw gave the line of the use instead of the line of the define"),
    ("C32", "fix: .option of a name that is a label already reports the conflict", "`__n = 7` followed by `.option n=5` crashed"),
    ("C32", "fix: statements after .end on its line are assembled, whatever follows it", "`.end start \\ .db 1` left out the .db"),
    ("C33", "fix: an equate of an unknown symbol leaves its label undefined, so that ti84pce.inc assembles", "inc/ti84pce.inc (F_DF equ anovaf_vars) couldn't be included"),
    ("C33", "fix: PStat in the include files doesn't depend on the precedence of operators", "PStat and the eight names after it were wrong: (MedY3+2)*FPLEN"),
    ("C33", "fix: AppOnErr takes its argument", "AppOnErr(handler) was not a macro"),
    ("C33", "fix: app.inc doesn't warn about skipped pages when none is", "every page after the first gave a warning: (page > gpage)+1"),
]
KNOWN = [
    ("C09", "label-on-first-line-of-macro", "a label (or an anonymous label) on the first line of a #macro is reported as an unknown opcode, because the first line of every "
     "macro is indented before it is assembled; changing that would turn unindented instructions there, which are accepted, into labels"),
    # (property, key printed by the check, what)
    ("C06", "condition-on-later-symbol-in-redefined-macro", "fn(S), with fn a #macro whose #if depends on the later symbol S, uses the "
     "definition of fn at the end of the program when fn is redefined between the use and the definition of S"),
    ("C25", "deep mcalls 40", "macro calls nested as arguments of each other, whose values aren't numbers, take time that doubles with each level (each "
     "argument is tried as a number first and then expanded), so 40 levels take practically forever"),
    ("C07", "seek-back-over-later-operand", "' .dw later / .seek $-1 / .db 1': the operand that is only resolved in pass two is written over "
     "the byte that was emitted there later in the source"),
] + [("C33", "equ ti84pce.inc " + n, "the value of %s in ti84pce.inc refers to %s, which is defined nowhere in the repository (the address isn't known)" % (n, "anovaf_vars")) for n in
     ("F_DF", "F_SS", "F_MS", "E_DF", "E_SS", "E_MS")]
json.dump({"known": [{"property": p, "key": k, "what": w} for p, k, w in KNOWN],
           "fixed": ["fixed: property=%s %s %s" % (p, log[s], w) for p, s, w in FIXED]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
