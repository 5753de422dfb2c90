# What each check runs: harness, cases per worker (plain, asan) in the quick
# tier, and the rule for counting cases.
#   sim harnesses have one variant: cases per worker.
T = {
 'F01': ('fmt', 700000, 150000, 'a format string of placeholders, percent signs and arbitrary bytes, and a sequence of 0..140 values of all kinds; non-trivial: at least one placeholder was filled with a value'),
 'F02': ('fmt', 450000, 80000, 'a history of up to 300 add/reset/copy/assign/read/strict-read/stream steps on up to 5 format objects; non-trivial: values were added after a reset or copy'),
 'F03': ('fmt', 1500000, 250000, '1-5 signed integers with width, separator and fill; non-trivial: a field was padded or grouped'),
 'F04': ('fmt', 500000, 60000, '1-4 unsigned long values with representation, width, separator and group size; non-trivial: grouped, wider than the number, or above 32 bits'),
 'F05': ('fmt', 600000, 250000, '1-3 doubles (ties, powers of ten +-ulps, subnormals, extremes, random bits, nan, inf) in f, s, g with precision 0-400 and width 0-900; non-trivial: special value, padding, or precision > 0'),
 'F06': ('fmt', 1500000, 500000, 'one double (as for F05) in engineering notation with 1-17 digits and width 0-600; non-trivial: the value is not zero'),
 'F07': ('fmt', 450000, 90000, '1-30 fields of all kinds and a radix character; non-trivial: at least one float field contains a radix point and the radix is not "."'),
 'F08': ('fmt', 1200000, 150000, '1-4 string, character and boolean fields with widths of both signs, strings of any bytes up to 6000 long; non-trivial: a non-empty string field'),
 'F09': ('fmt', 450000, 60000, 'a sequence of up to 60 adds (explicit and default arguments), own methods and resets on an extended and a plain format; non-trivial: at least two adds including a float or an unsigned above 32 bits'),
 'U01': ('utils', 500000, 15000, 'a string of blanks and arbitrary bytes up to 20000 long; non-trivial: squashing changes it, or it is empty'),
 'U02': ('utils', 500000, 55000, 'a string up to 5000 long, 0-3 delimiter characters and no_empty; non-trivial: at least one delimiter occurs'),
 'O01': ('opts', 300000, 60000, '1-40 declared options and a well-formed command line of up to some 100 tokens; non-trivial: at least one option got a value'),
 'O02': ('opts', 300000, 60000, 'declared options and a command line with one planted fault (unknown option, inconvertible value, refused value, missing value at the end) or a help request, or arbitrary tokens; non-trivial: the fault or request is there'),
 'O03': ('opts', 300000, 60000, 'declared options and a well-formed command line, presence asked for every declared name and for others; non-trivial: some option appeared and some did not'),
 'O04': ('opts', 300000, 60000, 'declared options and a well-formed command line rich in dash-led values, negative numbers and omitted values; non-trivial: one of these occurs'),
 'O05': ('opts', 200000, 35000, 'declared options and any token list, rendered as argc/argv, list and quoted string; non-trivial: more than one token'),
 'O06': ('opts', 300000, 60000, 'declared value options and a key=value list with random spacing, empty items, and values with "="; non-trivial: at least two items set options, or one is faulty'),
 'O07': ('opts', 150000, 30000, 'declared options, a history of 1-6 command lines (well-formed and faulty) on one parser, then one line compared with a fresh parser; non-trivial: the last line is not empty'),
 'O08': ('opts', 250000, 50000, 'declared options, a command line, and int indexes around its bounds and at the extremes; non-trivial: there is at least one positional argument'),
 'O09': ('opts', 200000, 40000, 'declared options, information lines, both parser modes, help printed and requested; non-trivial: at least two options'),

 'P01': ('ptree', 50000, 9000, 'a tree of mappings and scalars rendered as YAML (block, flow, quoted, literal, anchors and aliases, comments), every path looked up from the tree and from intermediate nodes, as string and as seven numeric types; non-trivial: the tree has a scalar'),
 'P02': ('ptree', 50000, 12000, 'a tree and up to 40 lookups of absent paths and of values that are no numbers, with and without exceptions, from the tree and from nodes; non-trivial: at least one such lookup'),
 'P03': ('ptree', 70000, 20000, 'a document of mappings, nested and top-level sequences, nulls and scalars rendered as YAML; non-trivial: more than one node below the top, or a list'),
 'P04': ('ptree', 25000, 9000, '1-6 files read into one tree: good ones (some reusing top-level keys), malformed ones and missing ones; non-trivial: two good files, or a refused one'),
 'P05': ('ptree', 50000, 10000, 'file content: random bytes, YAML characters, YAML tokens, mutated documents, self references, nesting up to 3000 deep; non-trivial: the content is not empty'),
 'P06': ('ptree', 80000, 20000, 'a document of mappings, sequences and single-line scalars, dumped twice; non-trivial: the dump has at least two entries'),
 'P07': ('ptree', 60000, 20000, 'a document as for P03, loaded, written and (if a file was written) read back; non-trivial: the tree is not empty'),

 'B01': ('sim', 110000, 0, '1-16 threads, 1-20 rounds over 1-2 barriers, pauses, and a schedule (preemption at memory accesses and synchronisation calls, spurious wake-ups, time steps); non-trivial: more than one thread, and more switches than threads'),
 'B02': ('sim', 140000, 0, 'a barrier for 2-12, 1 to N+3 threads with 1-6 waits of short, long and no timeouts, and a schedule; non-trivial: a Timeout happened'),
 'B03': ('sim', 180000, 0, 'a barrier for 1-9, up to 11 threads with 0-12 waits each, and a schedule; non-trivial: more calls than one group, by more than one thread'),
 'B04': ('sim', 250000, 0, 'a barrier for 2-9, 0-3 complete rounds, and an incomplete one whose waits have timeouts from 1 ms to 100 years or none, pauses, a schedule and virtual time; non-trivial: every case'),
 'M02': ('sim', 60000, 0, '2-5 threads with up to 26 operations on one mailbox with own and shared subscriptions, and a schedule; non-trivial: operations of two threads overlapped'),
 'M01': ('mbox', 130000, 14000, 'a history of up to some 200 operations on 1-3 mailboxes; non-trivial: at least one message was received'),
 'M03': ('mbox', 100000, 10000, 'a history as for M01 with messages that record their life, held by receivers for a while, subscriptions and mailboxes ending; non-trivial: a message was sent, and something was received, cleared, left or sent to nobody'),
 'M04': ('mbox', 100000, 6000, 'a history over several mailboxes of several types with subscriptions used with the wrong mailbox or after their end, and conversions; non-trivial: at least one such misuse'),
 'T01': ('thr', 12000, 0, '2-8 threads with 1-3 jobs each (formats, splitting, options, loading trees, mailboxes, barriers of their own; queries of a shared format, parser, tree, mailbox) and a schedule; non-trivial: at least two threads do the same kind of job, and one was preempted'),
 'R01': ('mem', 12000, 3500, 'work with the library (as for T01, loading trees excepted) repeated 8 times, or one object used for 170 equal turns; non-trivial: the work has results, or it is the latter'),
 'E01': ('exc', 12000, 3000, 'two provocations of one kind of exception with generated names (arbitrary bytes, format directives, up to some thousand long): the same text by another handler, a copy, another thread, after the object ended; non-trivial: the message names something'),
 'S01': ('all', 60000, 15000, 'a case of another property picked at random, or an object written to a stream with settings of the caller, between two looks at the state of the process; non-trivial: the case is non-trivial by its own rule'),
 'X01': ('oom', 14000, 2500, 'work as for T01 done again with another allocation failing each time (or all from there on), and histories of one mailbox, format or parser whose operations run out of memory; non-trivial: an allocation failed'),
 'X02': ('exc', 60000, 12000, 'a parser, tree or stream used several times with functions of the caller (tests, >>, stream buffers) of which some throw; non-trivial: one of them threw'),
 'N01': ('comp', 10, 0, 'a client project: 1-4 units including any of the installed headers in any order, uses of them with results that are checked, package and version requests, C++ standard, compiler, build type, order of the libraries, install prefix; configured, built and run; non-trivial: something is used and the request can be satisfied'),
 'N02': ('comp', 30, 0, 'a program of 1-14 snippets that copy, assign or merely refer to barriers, mailboxes, and classes made of them, for a C++ standard and a compiler; non-trivial: at least one snippet copies or assigns'),
}
# properties that are decided elsewhere or not at all
NOT_CLAIMED = {}
