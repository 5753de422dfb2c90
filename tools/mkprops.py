import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
FH,FC="include/Format.hxx","src/Format.cxx"
OH,OC="include/Options.hxx","src/Options.cxx"
PH,PC,YC,YH="include/PropertyTree.hxx","src/PropertyTree.cxx","src/PropertyTreeYAML.cxx","include/PropertyTreeYAML.hxx"
BH,BC="include/Barrier.hxx","src/Barrier.cxx"
MH="include/MailBox.hxx"; UH,UC="include/Utils.hxx","src/Split.cxx"

add("F01","Placeholders are replaced by the right values and nothing else changes",
 "For every format string and every sequence of supplied values, the k-th value (counting from 0) replaces every occurrence of the placeholder '%k' - whatever the order, repetition, adjacency or number of digits of the placeholders - and all other text is reproduced exactly, with '%%' giving one '%' and a '%' not followed by a digit or '%' left as it is. Inserted text is never scanned again for placeholders, and a placeholder whose value has not been supplied stays visible as '%' and its number. Values beyond the highest placeholder never alter the text.",
 ["inputs"],"every format string and every finite sequence of supplied values",
 "FormatTest uses a handful of fixed strings with placeholders 0..4 and checks one of them; order, repetition, %% next to placeholders, multi-digit numbers and text containing '%' are never compared.",
 [FC,FH],[("scan of the format string into literal and placeholder segments","Format::initialScan"),("fill of all segments with the current argument number","Format::insertField"),("assembly","Format::str")],
 [("segment list","literal text and unfilled placeholders in order","Format::format_string_segments"),("argument counter","index of the next value","Format::cur_arg_number")],["Format::str()","operator<<"])
add("F02","Format objects can be reset, copied and read without losing their meaning",
 "After a reset a format object behaves exactly like a newly created one with the same format string, however it was used before; copies evolve independently of their originals, and reading the text (as a string or by streaming it) never changes the object. Asking for the text with the filled-out check raises the bad-format error (a library exception naming the original format string) exactly when at least one placeholder is still unfilled, and otherwise returns the same text.",
 ["histories"],"every history of add / reset / copy / assign / read operations over several format objects",
 "No test calls reset, copies a format, or uses the filled-out check; the guarantee ranges over call histories.",
 [FC,FH],[("rescan of the saved original string","Format::reset"),("unfilled count","Format::str"),("value semantics of the segment list","class Format")],
 [("original format string","kept for reset and messages","Format::orig_fmt_string")],["Format::str(bool)","operator<<","Format::BadFormat::what()"])
add("F03","Signed integers print exactly, grouped by three and padded on the left",
 "For every int value, minimum width, separator and fill character, the inserted field is the decimal representation of the value, with the separator (if one is given) between digits at every third position counted from the right and nowhere else - never between the sign and the first digit - padded on the left to the minimum width with the fill character (blank by default) and never truncated.",
 ["inputs"],"every int x width x separator x fill",
 "FormatTest checks four positive five-digit values; signs, INT_MIN/INT_MAX, and digit counts that are multiples of three with a sign are never exercised.",
 [FC],[("grouping loop and setw/setfill","Format::addI")],[],["Format::str()"])
add("F04","Unsigned integers print exactly in decimal, octal and hex with even groups",
 "For every unsigned long value, representation (decimal; lower- or upper-case hex with a '0x' prefix and at least 'width' zero-filled digits; octal with a leading 0, zero-filled to 'width'), width, separator and positive group size, removing the prefix, separators and padding from the field gives back exactly the value. The separator appears between digits at every group_count-th digit counted from the right and nowhere else (never next to padding blanks or splitting the prefix), and the field is at least as wide as requested and never truncated.",
 ["inputs"],"every unsigned long x representation x width x separator x group size >= 1",
 "FormatHexTest compares about two dozen fixed rows (values 0, 100, 0x100, 0137) and separators only for hex; 64-bit values, decimal or octal grouping and wide decimal fields are untested.",
 [FC],[("radix conversion","Format::toHex / Format::toOct / Format::addU"),("group separator loop","Format::addU")],[],["Format::str()"])
add("F05","Fixed, scientific and general floats print what the C library would print",
 "For every double (subnormals, extremes, NaN and infinities included), every precision and every width, the 'f', 's' and 'g' representations terminate and equal the correctly rounded C conversion (%f, %e, %g) with that precision, left-justified and padded with blanks to at least the requested width. In every representation NaN prints as 'nan' and infinities as 'inf' with a minus sign for negative infinity, padded in the same way.",
 ["inputs"],"every double x {f,s,g,e (non-finite)} x width x precision",
 "FormatTest parses the text back with a tolerance of 5*10^-p for positive values only and never looks at width or justification; FormatNaN checks one fixed line.",
 [FC],[("non-finite handling","Format::addF"),("stream conversions","Format::addF")],[],["Format::str()"])
add("F06","Engineering notation is well formed, correctly rounded and always terminates",
 "For every finite non-zero double and every number of significant digits n from 1 to 17, engineering notation terminates and prints a sign column (minus or blank), an integer part between 1 and 999, and an exponent that is a multiple of three; it shows exactly n digits in all (or, if n is smaller than the integer part, integer digits only, those past the n-th being zero), and the printed number differs from the value by at most half a unit of the n-th significant digit. Zero prints as a number equal to zero. The field is left-justified and at least as wide as requested.",
 ["inputs"],"every finite double x significant digits 1..17 x width",
 "FormatTest accepts any text that parses to within 5*10^-p (p<5) for exponents -18..18 of positive values; it checks neither the exponent multiple, nor the integer range, nor the digit count, nor extremes.",
 [FC],[("engineering conversion","Format::addF case 'e'")],[],["Format::str()"])
add("F07","The chosen radix separator is used in every floating point representation",
 "Whatever character is assigned as the radix separator, every finite floating point field (fixed, scientific, general and engineering, zero included) is the field that would be printed with '.', with that radix point replaced by the chosen character; no other part of the output - literal text, integer, string and character fields, nan and inf - changes.",
 ["configurations","inputs"],"every separator character x every sequence of formatted values",
 "No test assigns the separator.",
 [FC,FH],[("static separator","Format::separator"),("use when printing","Format::addF")],[("radix separator","process-wide setting","Format::separator")],["Format::str()"])
add("F08","Strings, characters and booleans are inserted verbatim with exact padding",
 "For every string (any bytes, any length) and width w, the string field contains the string unchanged, padded with blanks to |w| characters - on the left for positive w, on the right for negative w - and is exactly the string when it is at least |w| long. A character field is that one character and a boolean field is 'T' or 'F'.",
 ["inputs"],"every byte string x width, every char, every bool",
 "FormatTest inserts 'foo' and 'bar' without looking at the result; widths and justification of strings are untested.",
 [FC],[("padding loops","Format::addS"),("single character","Format::addC"),("T/F","Format::addB")],[],["Format::str()"])
add("F09","An extended format class formats exactly like the base class",
 "For every class derived through the extension template and every sequence of integer, unsigned, float, string, character and boolean values with their directives, adding them through the extended class gives the same text as adding them to a plain format with the same format string; no value is narrowed on the way. Each add call returns the extended object itself so that its own methods can be chained.",
 ["inputs","programs"],"every sequence of add calls through Format_ext",
 "No test uses the extension template; only an example prints with it.",
 [FH],[("forwarding methods","Format_ext::addI/addU/addF/addS/addC/addB")],[],["Format_ext::str()"])
add("U01","Squashing spaces yields the unique single-spaced, trimmed string",
 "For every string, squashing spaces removes leading and trailing spaces and turns every run of spaces inside into one space, keeps every other character (tabs and newlines included) in order, and never reads or writes outside the string, also for empty and all-space strings; applying it twice changes nothing more.",
 ["inputs"],"every byte string",
 "No test calls it directly; SplitTest has one string without repeated, leading or trailing spaces.",
 [UC],[("trim and collapse loops","squashSpaces")],[],["squashSpaces()"])
add("U02","Splitting yields exactly the tokens between delimiters, in order",
 "For every string and delimiter set, split returns, in order, the pieces of the space-squashed string between consecutive delimiter characters, empty pieces included (a delimiter at the very end adds none), so that the pieces joined by the delimiters give the squashed string back; with no_empty the result is the same list without the empty pieces. The vector form returns the same tokens as the list form.",
 ["inputs"],"every byte string x delimiter set x no_empty flag",
 "SplitTest splits one comma string with three non-empty tokens; no empty tokens, several delimiters, no_empty or edge delimiters.",
 [UC,UH],[("find_first_of loop","split"),("copy","splitVec")],[],["split()","splitVec()"])
add("O01","A well-formed command line sets exactly what it says",
 "For every set of declared options (presence, scalar with or without default, vector; integer, floating, bool, char and string types) and every command line made of declared options by long or short name with convertible, accepted values and of positional tokens in any order, parsing succeeds without a message and every target holds the value given last for it, every vector has the given values appended in order, and the positional arguments are exactly the remaining tokens in order (a lone '-' or '--' is an ordinary token). Targets of options that are not mentioned are not touched.",
 ["inputs","configurations"],"every option declaration x every well-formed command line",
 "OptionsTest runs one fixed line with seven options and exits 0 whatever the outcome; the combination of declaration kinds, types, orders and spellings is unbounded.",
 [OC,OH],[("token loop","Options::parse(list)"),("switch recognition","Options::isSwitch"),("string conversion","OptBase::setValBase"),("lookup tables","Options::registerOpt/findOpt")],
 [("option tables","long and short name to option","Options::long_map/ab_map"),("positional tokens","in order of appearance","Options::pos_arg_vec")],["targets","getPosArgs()"])
add("O02","A faulty command line is refused with a message, never accepted or fatal",
 "Whenever a command line - otherwise arbitrary - contains an unknown option, a value that cannot be converted to the option's type, a value the option's test refuses, or ends with an option that lacks its mandatory value, parsing returns false, throws nothing, and writes a message naming the offending option (with the declared error text for a refused value) to the error stream. A help request prints the help text, not a complaint about an unknown option, and returns false.",
 ["inputs"],"every option declaration x every command line with one fault at any position",
 "OptionsTest contains no faulty command line.",
 [OC,OH],[("exceptions for bad names and values","BadOptionNameException / BadOptValueException"),("catch and report","Options::parse(list)")],[],["return value of parse","std::cerr"])
add("O03","Presence queries and defaults reflect the command line exactly",
 "After a successful parse an option is reported present - by long and by short name alike - exactly if it appeared on the command line, with or without a value, at any position including the last; names that were never declared are reported absent. An option that did not appear leaves its scalar target at the declared default (or at the type's zero value if none was declared), its presence flag false and its vector unchanged.",
 ["inputs","configurations"],"every option declaration x every well-formed command line",
 "OptionsTest never calls the presence query and declares no defaults.",
 [OC,OH],[("present flags","OptBase::setPresent/isPresent"),("defaults at declaration","Opt constructors")],[("present flag","option was seen","OptBase::present")],["isPresent(string)","isPresent(char)","targets"])
add("O04","Dash-led values and omitted values are told apart from options",
 "A negative number following an option of a signed numeric type (scalar or vector, with or without default) is its value, not an option; an option without a default takes the next token as its value whatever it looks like. An option that has a default may be followed directly by another option or by the end of the line, and then keeps its default and is present, whatever its type.",
 ["inputs"],"every sequence of options with negative, dash-led or omitted values",
 "OptionsTest has two negative values on options without defaults; defaults, vectors and omitted values are never combined.",
 [OC,OH],[("waiting-for-signed state and switch test","Options::isSwitch / Options::parse(list)"),("signedness of the target type","Options::add / OptVec")],[("waiting flag","previous option may take a negative number","Options::waiting_for_signed")],["targets","isPresent()","return value"])
add("O05","Argument vector, token list and command string parse alike",
 "For every list of tokens, parsing it as argc/argv, as a list, or as one string - tokens separated by any white space, tokens that are empty or contain white space enclosed in double quotes - has the same outcome: same return value, same targets, same presence, same positional arguments.",
 ["inputs"],"every token list (tokens without double quotes) x every spacing and quoting of it",
 "OptionsTest uses the list form only; the string tokenizer is never run by a test.",
 [OC],[("tokenizers","Options::buildTokenList (both)")],[],["targets","getPosArgs()","isPresent()"])
add("O06","Key=value lists set exactly the named options",
 "For every set of declared options and every comma separated list of key=value items naming them, at least one of them not empty - spaces around items, empty items (doubled, leading or trailing commas), values that contain '=' or are empty included - parsing a key=value list succeeds and each target holds the text after the first '=' of its last item, converted to its type; it has the same effect whether given as one string or as a list of items. A key alone marks a presence option, or an option with a default (which it keeps), as present. An unknown key (which the message names), a value that cannot be converted, the lone key of an option without default or the key 'help' (which prints the help text) makes it return false, and no list makes it fail otherwise.",
 ["inputs"],"every declaration x every key=value list, well formed or not",
 "No test parses key=value lists.",
 [OC,OH],[("splitting","Options::parseKeyValue (both)"),("hand-over to the option machinery","Options::parse(list)")],[],["targets","return value"])
add("O07","A parser's earlier use does not change how it reads the next line",
 "For every history of parse calls on one parser, successful or refused, the next parse call returns what it would return on a freshly declared parser, assigns the options it mentions the same values, and contributes the same positional arguments.",
 ["histories"],"every history of well-formed and faulty parse calls on one parser object",
 "OptionsTest parses once per object; leftovers of a refused line only show on the following call.",
 [OC],[("per-parse state","Options::parse(list)")],[("waiting flag","survives a parse call","Options::waiting_for_signed")],["targets","getPosArgs()","return value"])
add("O08","Positional arguments are accessible by index, safely for every index",
 "For every parsed command line and every int index, positional access returns the argument at that index if it is in range and an empty string otherwise, without touching memory outside the list, and agrees with the reported count and the returned vector.",
 ["inputs"],"every command line x every int index",
 "OptionsTest reads indexes 0..2 of three arguments; out-of-range indexes, and the index equal to the count, are never used.",
 [OC,OH],[("bounds test","Options::getPosArg"),("count","Options::numPosArgs")],[],["getPosArg()","getPosArgs()","numPosArgs()"])
add("O09","The help text describes every declared option",
 "For every set of declarations the help text contains every information line in the order added and, for every declared option, its long name, its short name (in command line mode) and its description, each option on a line of its own; printing it returns the given stream, is repeatable, and changes no option, target or later parse. A help request on the command line, or the key help in a key=value list, prints this text to the error stream.",
 ["configurations","inputs"],"every option declaration x every command line with a help request",
 "No test prints the help text.",
 [OC],[("listing","Options::printHelp")],[],["printHelp()","std::cerr"])
add("P01","Every value in a loaded YAML file is found under its path, with its type",
 "For every YAML document made of nested mappings and scalars in any notation (block, flow, quoted, anchors and aliases), looking up the colon-separated path of a scalar returns its text exactly when read as a string, and the same number when read as a numeric type. Lookups work alike from the tree and from any intermediate node with the remaining path.",
 ["inputs"],"every tree of mappings and scalars (keys without ':' and with single inner spaces) x every notation x every path in it",
 "The test loads one file and dumps it; no lookup is ever made.",
 [PC,PH,YC],[("recursive fill","PropertyTreeYAML::fillRecurse"),("path walk","PropNode::getPropRecursive"),("conversion","PropNode::get")],[("tree","dictionary and list of each node","PropNode::dictionary/prop_list")],["PropertyTree::get","PropNode::getProp"])
add("P02","Missing paths and unreadable values are reported as asked for",
 "For every tree and every path that names nothing, a lookup returns 'not found' (a false result or a null node) and leaves the target variable alone when exceptions are off, and throws the property-not-found exception naming the path when they are on; a value that cannot be read as the requested type likewise gives false or the bad-property-type exception naming the value and its path. All these exceptions are library exceptions.",
 ["inputs"],"every tree x every absent path or mistyped request x throw flag",
 "No test looks up anything.",
 [PC,PH],[("not-found handling","PropertyTree::get / PropNode::getPropRecursive"),("type failure","PropNode::get")],[],["return value","exceptions"])
add("P03","Keys, lists and path names enumerate the loaded document faithfully",
 "For every loaded document the keys reported at each mapping are exactly its keys whose values are mappings or scalars, in sorted order, and the list of a mapping holds the scalar items of the sequences found in it, in document order. The path name of every node reached through keys leads back to that same node.",
 ["inputs"],"every YAML document of mappings, sequences and scalars",
 "No test enumerates keys or lists or asks for a path name.",
 [PC,YC],[("enumeration","PropNode::getKeys/getList"),("path name","PropNode::getPathName"),("sequence items","PropertyTreeYAML::fillRecurse")],[],["getKeys()","getList()","getPathName()"])
add("P04","Reading further files adds to the tree",
 "For every sequence of files read into one tree, every scalar of the last file is found with its value; every scalar of an earlier file whose top-level key does not occur in a later file is still found with its value, and list items accumulate in reading order. A file that does not exist or is malformed leaves the tree as it was.",
 ["histories"],"every sequence of readable, missing and malformed files",
 "The test reads one file into a tree once.",
 [YC],[("fill into the existing root","PropertyTreeYAML::readFile")],[],["get()","getKeys()","getList()"])
add("P05","Any file is loaded or refused with a library exception",
 "For every file content (arbitrary bytes, malformed YAML, unusual keys, nested or top-level sequences, self-referring aliases) reading it (if its aliases expand to what fits in memory) either succeeds or throws an exception of the library's own exception class, and never crashes, hangs or lets a foreign exception escape; a missing file gives the file-not-found exception, a malformed one the bad-syntax exception, both naming the file. After a successful read all queries on the tree work without crashing.",
 ["inputs"],"every byte string up to a size bound as file content",
 "The test reads one small valid file.",
 [YC,YH,PH],[("parse and exception translation","PropertyTreeYAML::readFile"),("recursive fill","PropertyTreeYAML::fillRecurse")],[],["exceptions of readFile / constructor"])
add("P06","A dump shows the whole tree and changes nothing",
 "For every loaded document the dump contains, for every scalar stored under a key, a line with that key and value, for every key of a nested mapping a line with that key, and every list item, each exactly as often as it occurs in the tree; the dump of a single node shows that part of it (for a scalar, its value). It returns the stream it was given, and dumping changes neither the tree nor a second dump.",
 ["inputs"],"every YAML document of mappings, sequences and single-line scalars",
 "The test prints a dump without looking at it.",
 [PC],[("recursive dump","PropNode::dump")],[],["dump()"])
add("P07","A written property file reads back as the same tree",
 "For every tree, writing it to a file creates that file, and reading the file into an empty tree gives a tree with the same keys, values and lists; writing leaves the original tree unchanged.",
 ["inputs"],"every tree of mappings, lists and scalars",
 "No test writes a property file.",
 [YC,YH],[("file writer","PropertyTreeYAML::writeFile")],[],["the written file"])
add("B01","No thread passes a barrier before all have arrived, and then all pass",
 "With as many threads as the barrier expects, under every schedule and for any number of rounds, no thread returns from its k-th wait before every thread has called its k-th wait, every thread returns from every round (no lost wake-up, no deadlock) and none sees an exception as long as no timeout elapses. The accesses the barrier makes on behalf of different threads are free of data races.",
 ["schedules"],"every thread count, number of rounds and interleaving of the threads",
 "BarrierTest runs whatever interleavings the machine happens to produce and would only notice a 100 ms stall, not an early release.",
 [BC,BH],[("arrival counting and phase number under a mutex","Barrier::wait"),("condition variable wake-up","Barrier::wait")],[("arrivals","threads waiting in this round","Barrier::waiting"),("phase","rounds completed","Barrier::barrier_count")],["order of call and return of wait"])
add("B02","A timed-out barrier fails for everyone: one Timeout, Corrupt for the rest",
 "Under every schedule, when a waiter's timeout elapses before its round is complete, exactly one waiter in the barrier's lifetime gets the Timeout exception; every other thread waiting in the incomplete round gets the Corrupt exception, as does every later call of wait, and none of them hangs or returns normally. Threads whose round was complete before that return normally, and both exceptions are library exceptions naming the barrier.",
 ["schedules","fault_sequences"],"every interleaving of arrivals, timeouts and late arrivals",
 "FastBarrierTest_should_timeout only looks for one line of output; it cannot tell Timeout from Corrupt, nor see a waiter that returned normally from a broken round.",
 [BC,BH],[("corrupted flag","Barrier::wait")],[("corrupted flag","the barrier is broken","Barrier::corrupted")],["exceptions and returns of wait"])
add("B03","With more threads than expected the barrier releases full groups only",
 "When more threads than the barrier expects call wait, or call it different numbers of times, then under every schedule at every moment the number of calls that have returned is at most the largest multiple of the expected count not above the number of calls made, and once all threads are blocked or done it is exactly that multiple; the remaining callers wait until further calls complete their group.",
 ["schedules"],"every expected count, every larger set of callers and calls, every interleaving",
 "No test uses more threads than the barrier expects, although the documentation describes that case.",
 [BC,BH],[("arrival counting and phase number under a mutex","Barrier::wait")],[("phase","rounds completed","Barrier::barrier_count")],["order of call and return of wait"])
add("B04","A barrier timeout is neither early nor forgotten, and zero means no limit",
 "Under every schedule a wait fails with Timeout only after at least its own timeout has passed since it was called, and a wait with a timeout in a round that never completes does fail once that time has passed, for both forms of specifying it (a millisecond count or a duration; up to 100 years). A timeout of zero means no practical limit: it does not expire within years.",
 ["schedules","inputs"],"every combination of timeouts, arrival delays and interleavings",
 "The tests use one timeout value (100 ms) in real time; an early, ignored or wrongly scaled timeout, and the zero case, cannot be told apart there.",
 [BC,BH],[("timed condition wait","Barrier::wait"),("zero replaced by about 1000 days","Barrier::wait (both)")],[],["time between call and exception"])
add("M01","Each subscriber receives exactly the messages sent while subscribed, in order",
 "For every history of subscribing, unsubscribing, sending (to all, or to all but a given subscriber), receiving, clearing and counting, each subscriber receives exactly the messages sent between its subscription and its end, except those sent with itself excluded and those discarded by clearing, oldest first, and an empty result when none is left. Clearing, receiving or leaving affects no other subscriber, and the ready count, smallest ready count and subscriber count agree with this after every step.",
 ["histories"],"every finite history of operations over any number of subscribers",
 "MailBoxTest compares only the sum of payloads after all threads have subscribed; order, late subscribers, clearing, leaving and the counts are never checked.",
 [MH],[("one queue per subscriber","MailBox::put/get/clear/unsubscribe")],[("queues","pending messages of each subscriber","MailBox::message_queues"),("counter","next subscriber id","MailBox::subscription_counter")],["get()","readyCount()","minReadyCount()","subscriberCount()"])
add("M02","Concurrent mailbox use is equivalent to some one-at-a-time order",
 "Under every schedule of any number of threads that subscribe, unsubscribe, send, receive, clear and count on one mailbox, the results of all operations are those of executing them one at a time in some order that respects the order of non-overlapping operations; in particular no message is lost, duplicated or reordered differently for different subscribers. The accesses are free of data races and no operation deadlocks.",
 ["schedules","histories"],"every set of thread programs x every interleaving at memory-access granularity",
 "MailBoxTest sums payloads in the interleavings that happen to occur; reordering, torn counts and rare races stay invisible.",
 [MH],[("mutex around every operation","MailBox (all operations)")],[("mutex","protects queues and counter","MailBox::mtx")],["results of all operations"])
add("M03","Messages live exactly as long as someone can still receive or holds them",
 "For every history, a message stays alive while any subscriber has yet to receive it or any caller still holds it, and is destroyed exactly once as soon as neither is the case: after the last subscriber's receive is let go, after clearing, after a subscription ends, or when the mailbox goes away. A message sent when nobody (else) is subscribed is not retained.",
 ["histories"],"every finite history of operations including destruction of subscriptions and mailbox",
 "MailBoxTest checks one total after all threads have read everything.",
 [MH],[("shared ownership in queues","MailBox::put/get/clear"),("queue removal","MailBox::unsubscribe"),("destructor","~MailBox")],[],["destructor calls of messages"])
add("M04","Misuse of mailboxes is refused by an exception without any effect",
 "Using a subscription with a mailbox it does not belong to throws the subscription-mismatch exception, receiving or counting after the subscription was ended explicitly throws the missing-subscriber exception, and converting a generic mailbox pointer to the wrong message type throws the bad-conversion exception, all of them library exceptions; no mailbox is changed by the refused operation, and ending an already ended subscription is harmless. Converting to the right type gives the same mailbox.",
 ["histories"],"every history mixing correct and misdirected operations over several mailboxes of several types",
 "MailBoxTest tries one wrong conversion; subscriptions are never mixed up or ended twice.",
 [MH],[("owner check","SubscriptionCl::getIndex"),("lookup","MailBox::getQueue"),("dynamic cast","MailBoxBase::convert")],[],["exceptions","state of all mailboxes"])
add("T01","Threads that use different objects do not disturb each other",
 "Whatever several threads do at the same time with objects of their own - formats, split and squashSpaces, option parsers, property trees that they load and query, mailboxes, barriers -, and with one format, option parser, loaded property tree or mailbox name that all of them only read, each of them gets exactly the results it gets when it is alone, under every schedule, and there is no data race.",
 ["schedules","inputs"],"every set of threads, every work on distinct objects or with read-only queries, and every interleaving",
 "The tests of these parts have one thread; state shared behind the caller's back shows only in particular interleavings.",
 [FC,FH,UC,OC,OH,PC,PH,YC,MH,BC],[("no state outside the objects","all sources"),("queries that do not change the object","Format::str, Options::isPresent, PropNode::getProp, PropNode::get")],
 [("radix separator","the only variable of the library that is not part of an object","Format::separator")],["results of all calls"])
add("R01","Finished work gives its memory back",
 "Whatever is done with formats, split and squashSpaces, option parsers, mailboxes and their subscriptions, conversions of mailboxes, barriers, and queries of a loaded property tree - also if it ends with an exception of the library -, once the objects and results are gone the program holds no more memory than before, so repeating the same work any number of times does not make it grow. Nor does one object that is used over and over without keeping anything: a format that is filled and reset, a mailbox whose messages are received or cleared and whose further subscriptions end, a barrier that is waited on, a key=value parser that sets options which hold one value.",
 ["histories"],"every work with these objects, repeated any number of times",
 "No test looks at memory, and each does its work once.",
 [FC,FH,UC,OC,OH,PC,MH,BC],[("values and smart pointers own everything","all classes"),("end of a subscription","SubscriptionCl::~SubscriptionCl, MailBox::unsubscribe")],
 [],["live memory of the process"])
add("N01","The installed package lets any client project find, build and run",
 "After installation to any prefix, every client CMake project that requests either package in a version that is not newer finds it and its headers and libraries. Every program of one or more translation units, each including any selection of the installed headers in any order (none needs another to be included before it), compiles in C++11 to C++20, links in whatever order the libraries are named, and runs with the library's behaviour, which includes that the library reports the version of the package that was found. A request for a newer version is refused.",
 ["configurations","programs"],"every prefix, package and version request, build type, and client program",
 "No ctest test builds a client; only the build script does, with one fixed set of examples.",
 ["CMakeLists.txt","SoDaUtilsConfig.cmake.in","SoDaPropsConfig.cmake.in","src/CMakeLists.txt","include/UtilsBase.hxx"],[("export and install rules","CMakeLists.txt")],[],["client configure and build"])
add("N02","Barriers and mailboxes cannot be copied",
 "Every program that copies or assigns a barrier or a mailbox object - by value, from a const object or a temporary, as a base class or a member, or through a standard container or algorithm - is rejected at compile time, and programs that use them only through references and pointers are accepted.",
 ["programs"],"every client program",
 "A compile-time refusal cannot be expressed in the project's runtime tests.",
 ["include/NoCopy.hxx",BH,MH],[("deleted copy operations","class NoCopy")],[],["compiler diagnostics"])
add("E01","Errors can be caught at every level and name what they are about",
 "Every exception the library throws to its user - a strict read of an unfinished format, a barrier's timeout, use of an ended or foreign mailbox subscription, a wrong mailbox conversion, a missing or malformed property file, a missing property path, an unreadable property value - can be caught as its own class, as the exception class of its component (where there is one), as SoDa::Exception, as std::runtime_error and as std::exception, with the same message each time. The message contains the name of the mailbox, file, path or value concerned, in full and unaltered whatever bytes it is made of, and is otherwise the same for all names. It stays readable and unchanged in copies, when rethrown, in another thread, after the object that threw it is gone and while others are thrown.",
 ["inputs","histories"],"every kind of exception x every name of a mailbox, file, path or value, and every way to catch and keep it",
 "The tests catch a few exceptions, by one handler each, and look at no message.",
 ["include/Exception.hxx",FH,FC,BH,BC,MH,PH,PC],[("base classes","Exception.hxx"),("messages","Format::BadFormat, Barrier::Exception, MailBoxBase exceptions, PropertyTree exceptions")],[],["exceptions and their messages"])
add("S01","The library does nothing behind the caller's back",
 "Whatever is done with formats, strings, option parsers, property trees and mailboxes, with good input or bad, nothing else changes: no file is created or written, no descriptor stays open, no thread stays, and the working directory, environment, locales, signal handlers, rounding mode, random numbers of the program and settings of the standard streams stay as they are. Nothing is written to the standard output, nor to the standard error except the documented messages of a refused command line. An object written to a stream of the caller gives the same text whatever the settings of the stream, which keeps them.",
 ["inputs","histories"],"every use of the library, and every setting of the caller's streams",
 "The tests look at results only.",
 [FC,FH,UC,OC,OH,PC,PH,YC,MH,BC,"include/Exception.hxx"],[("file reading","PropertyTreeYAML::readFile"),("output","Options::printHelp, PropNode::dump, operator<<(Format)")],[],["state of the process before and after"])
add("X01","Running out of memory does no harm",
 "If any allocation of an operation fails, or all from one on do - in formats, split and squashSpaces, option parsers, loading and querying property trees, mailboxes and their subscriptions, conversions of mailboxes, barriers, and the ends of these objects -, the operation ends normally or with an exception: it does not end the program, leaves no lock held, and (loading trees excepted) loses no memory. Once memory is there again the objects are usable as before: a format that is reset works like a new one, a parser takes the missing declarations and further lines, a tree answers as before, and the same work gives the same results. A mailbox keeps the order and content of what its subscribers have not received; of a put that failed each of them has the message or has it not.",
 ["fault points","histories"],"every operation x every point at which memory runs out",
 "The tests never run out of memory.",
 [FC,FH,UC,OC,OH,PC,PH,YC,MH,BC],[("locks released and memory freed by destructors","all classes"),("end of a subscription","SubscriptionCl::~SubscriptionCl"),("new subscription","MailBox::subscribe")],[],["allocations, locks, results afterwards"])
add("X02","Exceptions of the caller's functions pass through",
 "What a function of the caller throws while the library runs it - the test of an option's or vector's values, the >> of a class that is the type of an option, a vector or a value read from a property tree, a stream (set to throw) that help, a tree or a format is written to - arrives at the caller unchanged: the same object, of whatever type (also one that is no std::exception), not another exception, a refused line or success; no copy of it stays behind. A stream that is not set to throw keeps it, and has got exactly the text before. Afterwards the objects are usable as before: the parser reads further lines right, the tree is unchanged, help, trees and formats are written in full.",
 ["inputs","fault points","histories"],"every function of the caller, every point at which it throws, every type of what it throws",
 "The tests use no functions that throw, and no streams that fail.",
 [OH,OC,PH,PC,FC],[("tests and conversion of values","Options::Opt::setVal, OptVec::setVal, setValBase"),("conversion of values","PropNode::readVal"),("output","Options::printHelp, PropNode::dump, operator<<(Format)")],[],["exceptions, results afterwards"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    import re
    n=len(re.findall(r'[.](?:\s|$)',p['statement'])); 
    if n>3: print(p['id'],n)
print(len(P))
