#!/usr/bin/env python3
"""Writes properties.jsonl (single source of truth for the property texts)."""
import json, os
F = "include/scn/scan.h"; I = "src/scn/impl.h"; C = "src/scn/impl.cpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = state
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Scanning a FILE* is independent of how its bytes arrive",
     "Scanning a C stream gives the same outcome (success or error code, every value, number of characters consumed) as scanning a string holding the same characters. This holds for every argument type and format, however the stream's content is split into reads, whatever its buffer size or buffering mode, and wherever a value, separator or multi-byte character straddles a buffer boundary. (Input is validly encoded text; regular-expression and string-view fields, which the library rejects for such sources, are excepted.)",
     ["schedules", "inputs", "programs"], "all inputs, argument lists/format strings, partitions of the input into read deliveries, stdio buffer sizes and modes, and read positions at which the scan starts",
     "The unit tests scan a handful of small files that always fit one stdio buffer; the defect space is the product of input x format x split point, and most splits only occur with pipes, terminals and files larger than a buffer.",
     [F, I, C], [("file source buffer: fill/putback/current view", "src/scn/impl.h basic_scan_file_buffer::fill"), ("contiguity tests deciding fast vs slow readers", "src/scn/impl.h is_segment_contiguous, get_as_contiguous"), ("segmented readers", "src/scn/impl.h read_until_*, read_code_point_into, default_arg_reader, arg_reader")],
     "scn::scan / scan_value on std::FILE* vs the same call on std::string_view")

prop("P02", "Scanning any forward range equals scanning the same string",
     "Scanning a non-contiguous forward range (node based, segmented, or user-written iterators with or without a distinct end type; narrow or wide) yields the same success or error code, values and consumed count as scanning the same characters from a contiguous string. The source is only read through its iterators, never past its end, and may be preempted or observed between any two character reads without changing the outcome. (Input is validly encoded text; regular-expression and string-view fields, which the library rejects for such sources, are excepted.)",
     ["inputs", "programs", "schedules"], "all inputs, argument lists/format strings, and iterator behaviours allowed by the forward-range concept, at every interleaving of the per-character reads with other work",
     "Unit tests use a few deque/list inputs with a few formats; contiguous and segmented readers are separate code paths that must agree on every input.",
     [F, I, C], [("character-at-a-time source buffer", "include/scn/scan.h basic_scan_forward_buffer_impl::fill"), ("buffer iterators", "include/scn/scan.h basic_scan_buffer::forward_iterator"), ("generic vs contiguous readers", "src/scn/impl.h source_reader / reader_impl_for_* / arg_reader")],
     "scn::scan on user forward ranges vs std::string_view")

prop("P03", "After a scan, a C stream stands exactly after the consumed text",
     "In any interleaved history of library scans, C stdio reads and pushbacks, and iostream reads on one C stream, every operation sees exactly the characters that the earlier successful operations left unconsumed: none lost, duplicated or reordered. A successful scan leaves the next reader at the first character the scan did not consume, even when lookahead crossed buffer boundaries.",
     ["histories", "schedules", "inputs"], "all finite sequences of scan/scan_value/input/getc/ungetc/fgets/fread/fscanf/iostream reads on one stream, all inputs and all deliveries of the bytes",
     "Tests check one or two reads on one short file; position errors depend on which buffer boundary the lookahead crossed and on what earlier operations left in the stream's pushback area.",
     [F, I, C], [("position synchronisation", "src/scn/impl.h basic_scan_file_buffer::sync"), ("sync after a scan", "src/scn/impl.cpp sync_after_vscan, vinput")],
     "std::FILE* content seen by later getc/fgets/fread/fscanf/std::istream/scn calls")

prop("P04", "A failed scan from a C stream gives back everything it read",
     "If a scan from a C stream fails for any reason, all characters it had read, including successfully parsed leading fields and skipped whitespace, are again available to the next reader in order, so that a retry with another format sees the input from the same place. No field of a failed scan is reported as a success.",
     ["histories", "schedules", "inputs"], "all inputs that make a scan fail at any field or literal, all deliveries, all chains of failing and succeeding attempts",
     "The amount to give back may span many buffers and goes through the stream's pushback area; tests only fail on the first few characters of a single-buffer file.",
     [I, C], [("rollback", "src/scn/impl.h basic_scan_file_buffer::sync"), ("failure path", "src/scn/impl.cpp sync_after_vscan, vinput")],
     "std::FILE* content after a failed scan")

prop("P05", "Read errors end the input cleanly and lose nothing",
     "When a read on the underlying C stream fails or reports end of file in the middle of a scan, the scan behaves as if the input ended at the first such fault, or fails; it never joins text from both sides of the fault, invents, drops or repeats characters, crashes or spins. Once the fault is cleared, later scans continue with exactly the characters not yet consumed; if consumed lookahead cannot be pushed back, the scan reports an error instead of success. A read error stays visible to the caller in the stream's error indicator, which is set by nothing else.",
     ["fault_sequences", "schedules", "inputs"], "all placements of EIO/EINTR/EAGAIN, transient end-of-file and failing pushback relative to the scan's reads, all inputs, formats and deliveries",
     "No test injects an I/O error; the faults only matter at specific points inside a field, between fields or during lookahead.",
     [F, I, C], [("fill at EOF/error", "src/scn/impl.h basic_scan_file_buffer::fill, include/scn/scan.h fill_buffer"), ("putback failure", "src/scn/impl.h basic_scan_file_buffer::sync, src/scn/impl.cpp sync_after_vscan")],
     "scn::scan result, then clearerr() and further reads")

prop("P06", "Concurrent scans on one C stream are atomic",
     "When several threads scan from, and read with C stdio functions from, the same C stream, each call behaves as if it ran alone at some instant between its start and its return: for validly encoded text, the overall outcome equals some sequential order of the calls. A failed scan's attempt and rollback are invisible to other threads.",
     ["schedules", "histories"], "all thread interleavings of scan/scan_value/getc/fgets calls on a shared stream, all deliveries, succeeding and failing scans",
     "The suite has no concurrent test; atomicity only breaks at a preemption in a particular window such as in the middle of rolling back.",
     [F, I, C], [("stream locking for the lifetime of the source buffer", "src/scn/impl.h basic_scan_file_buffer ctor/dtor"), ("locking around putback", "include/scn/scan.h posix_stdio_file_interface::prepare_putback/finalize_putback")],
     "results of concurrent calls on one std::FILE*, checked for linearizability against a cursor model")

prop("P07", "A scan always releases the stream lock and keeps the caller's",
     "Whatever way a scan from a C stream ends (success, error, end of input, exception from memory allocation or from user code), the stream is afterwards locked by the calling thread exactly as often as before the call, so other threads can always proceed. A caller that already holds the stream lock can scan without blocking itself and without its lock being given up at any time during the call.",
     ["schedules", "fault_sequences"], "all exit paths of a scan, all placements of allocation failures and user-code exceptions, all caller lock depths and all interleavings with waiting threads",
     "A leaked or prematurely dropped lock is invisible to single-threaded tests.",
     [F, I], [("lock/unlock", "src/scn/impl.h basic_scan_file_buffer ctor/dtor"), ("lock handling during putback", "include/scn/scan.h posix_stdio_file_interface")],
     "flockfile/funlockfile balance and progress of other threads")

prop("P08", "Concurrent scans of different sources do not affect each other",
     "Scans running at the same time in different threads on different sources each give the outcome they give when run alone, for every argument type, locale and format, including the very first uses of the library.",
     ["schedules", "programs"], "all interleavings, at basic-block granularity, of scans in several threads on separate strings, ranges and streams",
     "Shared hidden state (caches, lazily created locales, scratch buffers, errno) only shows when a preemption falls between its use and re-use.",
     [I, C, "include/scn/chrono.h"], [("lazily created shared state", "src/scn/impl.cpp strtod C-locale static, locale handling"), ("reader state objects", "src/scn/impl.h reader_impl_for_*, readbuf/scratch strings")],
     "per-thread scn::scan outcomes vs solo run")

prop("P09", "Results do not depend on the process-wide locale, nor change it",
     "Scans that do not ask for localized behaviour give the same outcome whatever the global C or C++ locale is, and even if it is changed by another thread in the middle of the scan. A scan never changes the process-wide C locale, C++ locale, the calling thread's locale or the time zone, at any point during or after the call, on success, failure or exception.",
     ["schedules", "configurations", "inputs"], "all global locale settings, all moments of change relative to the scan, all argument types and formats that are not explicitly localized, all sources",
     "Tests run in one fixed locale; dependence appears only with a decimal-comma/grouping/other-month-name locale set before or during the call.",
     [I, C, F, "include/scn/chrono.h"], [("locale-independent float parsing", "src/scn/impl.cpp strtod_l path"), ("locale_ref", "include/scn/scan.h locale_ref"), ("chrono readers", "include/scn/chrono.h")],
     "scn::scan outcome; setlocale(LC_ALL,NULL), std::locale(), uselocale(0), TZ")

prop("P10", "Exceptions in a scan leak nothing and corrupt nothing",
     "If a memory allocation fails, or a user-supplied iterator or scanner throws, at any point of a scan, the exception reaches the caller (or an error is returned), no memory is leaked and no memory is misused. Values are not reported as a success, a stream that was being read still yields a suffix of its remaining content in order, and later scans by the same process behave as if the failed one had never run.",
     ["fault_sequences", "programs", "inputs"], "every allocation, iterator step and user-scanner call of a scan as failure point, all sources, formats and inputs",
     "Tests never fail an allocation; each of the many allocation sites per scan is a separate failure point.",
     [F, I, C], [("buffers owning putback text", "include/scn/scan.h basic_scan_buffer"), ("heap users: readers, regex, locale, containers", "src/scn/impl.h, src/scn/impl.cpp, include/scn/ranges.h, include/scn/regex.h")],
     "live-allocation balance, caught exception, subsequent scans")

prop("P11", "Scans nested in user scanners see exactly the remaining input",
     "A user-defined scanner that itself scans (once, repeatedly, recursively, retrying after a failed inner attempt, or through an iostream extraction that may also put characters back) from the input it is given reads exactly the characters that the enclosing scan has not consumed, and the enclosing scan continues exactly where the scanner stopped. The outcome is the same for strings, forward ranges and C streams, however the bytes are delivered.",
     ["programs", "schedules", "inputs"], "all nesting shapes, retry sequences and positions at which a nested scan starts, all source kinds, inputs and deliveries",
     "The tests use nested scanners on contiguous strings only; nested scans over segmented sources go through a separate forwarding buffer whose state depends on how much the outer source had already delivered.",
     [F, "include/scn/istream.h", "include/scn/ranges.h"], [("forwarding buffer for nested scans", "include/scn/scan.h basic_scan_ref_buffer"), ("iostream adaptor", "include/scn/istream.h basic_range_streambuf"), ("containers", "include/scn/ranges.h range_scanner")],
     "user scanner results and enclosing scan results vs std::string_view")

prop("P12", "Reading record by record delivers every value exactly once",
     "Repeatedly scanning a source, each time from where the previous scan stopped, returns every value that was written to it exactly once, in order and unchanged, then reports end of input, whatever source kind, delivery, buffer size and grouping of fields into calls is used. Each scan finishes within a bounded amount of work for its input.",
     ["histories", "schedules", "inputs"], "all sequences of records of mixed field types, all groupings of fields into scan calls, all source kinds and deliveries",
     "Unit tests read two or three values; loss or duplication depends on where buffer boundaries fall in a long history.",
     [F, I, C], [("remaining-range reporting", "include/scn/scan.h make_vscan_result_range"), ("stream position sync", "src/scn/impl.h basic_scan_file_buffer::sync"), ("EOF detection", "src/scn/impl.h eof_check / skip_classic_whitespace")],
     "values returned by consecutive scans against the values originally written")

prop("P13", "A scan never waits for input it does not need",
     "When the fields requested by a scan are complete and terminated within the text that a terminal, pipe or socket has delivered so far, the scan returns without asking the stream for more. Prompting writes and flushes the whole prompt before the first read, and prompting and reading from standard input give what scanning that stream would give.",
     ["schedules", "inputs"], "all interactive delivery schedules (a producer that stalls after any line), all argument lists whose format does not end in a request for more",
     "Tests read from regular files, where an extra read is harmless; on an interactive stream it hangs the program.",
     [F, I, C], [("lookahead in readers", "src/scn/impl.h read_until_*, skip_classic_whitespace, forward_iterator::operator++"), ("standard input", "src/scn/impl.cpp vinput, include/scn/scan.h prompt/input")],
     "read requests issued to the underlying device, and order of prompt write vs first read")

prop("P14", "Every scan terminates in work proportional to what it reads",
     "Every scan, on any source and under any sequence of read results including endless errors, endless empty reads and adversarial input, completes within a bound that grows only with the length of the input it examined; it never loops without consuming input and never aborts the process or touches memory it does not own. (The recursion depth of the std::regex engine for matches of many thousands of characters is excepted.)",
     ["inputs", "fault_sequences", "programs"], "all inputs including invalid encodings, all delivery and fault sequences, all formats and argument types",
     "Termination and absence of crashes are claims about all inputs and fault sequences.",
     [F, I, C], [("iteration primitives", "include/scn/scan.h forward_iterator::read_at_position"), ("fill at end of input", "src/scn/impl.h basic_scan_file_buffer::fill"), ("code point iteration", "src/scn/impl.h get_next_code_point, read_code_point_into")],
     "executed basic blocks per input character; sanitizer/assertion reports")

# --- decided not to be simulation targets: pure functions of their input -----------------
def na(id, title, statement, over, qtext, why, files, mech, observe):
    prop(id, title, statement, over, qtext, why, files, mech, observe)
na("P20", "Integers parse to their exact value or a range error",
   "For every integer type and base, text that spells an integer representable in the type yields exactly that value, and text outside its range yields a range error, never a wrapped value.",
   ["inputs"], "all digit strings, types and bases", "Value space is unbounded.", [I], [("integer reader", "src/scn/impl.h reader_impl_for_int")], "scn::scan<int>")
na("P21", "Floating-point text parses to the correctly rounded value",
   "For every floating-point type, decimal or hexadecimal text yields the correctly rounded nearest value, and overflow or underflow is reported as a range error.",
   ["inputs"], "all decimal and hexadecimal spellings", "Value space is unbounded.", [I, C], [("float reader", "src/scn/impl.cpp float_reader")], "scn::scan<double>")
na("P22", "Invalid text encodings are never stored in a string value",
   "Strings read from narrow or wide input are validly encoded or the scan fails, and conversion between narrow and wide text preserves every code point.",
   ["inputs"], "all code unit sequences", "Input space is unbounded.", [I], [("validation and transcoding", "src/scn/impl.h validate_unicode, transcode_*")], "scn::scan<std::string>/<std::wstring>")
na("P23", "Field width, precision, fill and alignment are honoured",
   "For every replacement field the minimum and maximum field lengths, fill character and alignment given in the format bound what is read, and input violating them is an error.",
   ["inputs", "programs"], "all format specifications and inputs", "Combinatorial in specs and inputs.", [I], [("spec handling", "src/scn/impl.h arg_reader")], "scn::scan with specs")
na("P24", "Invalid format strings are rejected before reading",
   "A format string that does not match the argument list is rejected, at compile time or as an error, and no input is consumed.",
   ["programs"], "all format strings and argument lists", "Space of format strings is unbounded.", [F, C], [("format string parser", "include/scn/scan.h parse_format_string")], "scn::scan with runtime formats")
na("P25", "Regular-expression and character-set fields match exactly",
   "A field with a character set or regular expression stores exactly the longest run of matching characters and the declared captures.",
   ["inputs", "programs"], "all patterns and inputs", "Input space is unbounded.", [I, "include/scn/regex.h"], [("regex/set readers", "src/scn/impl.h regex_matches reader, read_matching_*")], "scn::scan with {:/.../} and {:[...]}")
na("P26", "Dates, times and durations parse to the value they spell",
   "Chrono arguments parsed according to their format yield the calendar or clock value spelled by the input, and inconsistent or out-of-range fields are errors.",
   ["inputs", "programs"], "all chrono formats and inputs", "Input space is unbounded.", ["include/scn/chrono.h", C], [("chrono readers", "src/scn/impl.cpp chrono_scan_impl")], "scn::scan<std::tm> etc.")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
