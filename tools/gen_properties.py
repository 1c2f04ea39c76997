#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Integer parsing accepts exactly the in-range decimals and returns their value",
 "Converting text to any standard integer type succeeds exactly when the whole text is an optional '-' (signed types only) followed by one or more decimal digits whose value is representable in the target type; the value returned is then exactly that number. Every other text (empty, sign only, blanks, '+', stray characters, out of range by one) yields an empty result; the conversion never throws, never overflows silently and reads nothing outside the text.",
 ["inputs"], "every byte string up to the stated length, for all 8/16/32/64-bit signed and unsigned targets",
 "Tests sample a few dozen strings per type; boundaries such as max+1, max*10 wrap-around, non-ASCII bytes and leading zeros form a space of 256^n strings per type.",
 ["include/gul14/to_number.h", "src/to_number.cc"],
 [("to_unsigned_integer / multiply-add with overflow check", "include/gul14/to_number.h"), ("sign handling in to_number overloads", "include/gul14/to_number.h")],
 ["gul14::to_number<T>(string_view) return value"])

prop("C02", "Floating-point and bool parsing accept exactly the documented grammar",
 "Converting text to float, double or long double succeeds exactly for an optional '-', digits with at most one '.', at least one digit, and an optional exponent (e or E, optional sign, digits), or for the case-insensitive words for infinity and NaN; anything else, including trailing garbage after any number of digits, gives an empty result (an exponent that does not fit into an int may be rejected). Accepted text yields the number it denotes up to a few units of rounding error, with its sign, infinity if it is too large for the type and zero if it is too small; converting to bool accepts exactly \"0\", \"1\" and case-insensitive \"true\"/\"false\". The conversion never throws and has no undefined behaviour for any text.",
 ["inputs"], "every byte string up to the stated length plus long digit strings with arbitrary bytes in them",
 "Tests check a list of literals; malformed tails behind long mantissas, extreme exponents and unusual sign/point/exponent combinations are unsampled.",
 ["include/gul14/to_number.h", "src/to_number.cc"],
 [("to_unsigned_float / NormalizedFloat parsing", "include/gul14/to_number.h"), ("pow10 scaling, infinity/NaN words", "src/to_number.cc")],
 ["gul14::to_number<float|double|long double|bool> return value"])

prop("C03", "Escaping yields printable ASCII and unescaping restores the original bytes",
 "For every byte string, escape() produces text consisting only of printable ASCII characters in which quotes, backslashes and all non-printable or non-ASCII bytes are replaced by their escape sequences, leaves ordinary printable characters unchanged, and unescape(escape(s)) is s again. Unescaping any text whatsoever decodes exactly the documented escape sequences (including two-digit hexadecimal ones), leaves everything else, including invalid or truncated sequences, unchanged, and reads nothing outside the text.",
 ["inputs"], "every byte string up to the stated length",
 "The tests check all single bytes and some literals; combinations such as an escape sequence cut off at the end of the string or a hex escape followed by hex digits are not enumerated.",
 ["include/gul14/escape.h", "src/escape.cc"],
 [("escape character table/switch", "src/escape.cc"), ("unescape state machine and hex digit decoding", "src/escape.cc")],
 ["gul14::escape, gul14::unescape return values"])

prop("C04", "Splitting and joining are inverse and split pieces are exact",
 "Splitting a text at a delimiter (character, string, or custom) yields exactly the pieces between successive non-overlapping left-to-right occurrences, one more than the number of occurrences, for copies, views and output-iterator forms alike; an empty string delimiter splits between characters as documented. Joining a sequence with a glue concatenates the elements with the glue between neighbours only, and joining the pieces of a split with the same delimiter restores the text; views refer into the original text and nothing outside it is read.",
 ["inputs"], "every text and delimiter up to the stated lengths",
 "Tests use a few literal sentences; overlapping delimiters, delimiters at both ends, empty pieces and partial matches at the end of the text are an unbounded family.",
 ["include/gul14/join_split.h"],
 [("split / split_sv iterator loops", "include/gul14/join_split.h"), ("ByChar/ByString delimiters", "include/gul14/join_split.h"), ("join size precomputation and copy loop", "include/gul14/join_split.h")],
 ["gul14::split, split_sv, join results"])

prop("C05", "Tokenizing yields exactly the maximal delimiter-free runs in order",
 "Tokenizing a text with a set of delimiter characters returns, in order, exactly the maximal non-empty runs of characters that are not delimiters, both as strings and as views and for user-supplied containers; with no delimiter argument the documented whitespace set is used. No token is empty or contains a delimiter, no non-delimiter character is lost, and views point into the original text.",
 ["inputs"], "every text and delimiter set up to the stated lengths",
 "Tests use fixed sentences; the interplay of leading, trailing and repeated delimiters with arbitrary bytes (including NUL) is not enumerated.",
 ["include/gul14/tokenize.h"], [("tokenize / tokenize_sv scanning with find_first_of / find_first_not_of", "include/gul14/tokenize.h")],
 ["gul14::tokenize, gul14::tokenize_sv results"])

prop("C06", "Trimming removes exactly the leading/trailing characters of the trim set",
 "Trimming a text on the left, right or both sides removes the maximal prefix and/or suffix made of characters from the given set (default: ASCII whitespace) and nothing else; what remains is a contiguous part of the original, byte for byte. Copying and view variants agree, and a text consisting only of such characters becomes empty.",
 ["inputs"], "every text and trim set up to the stated lengths",
 "Tests check fixed strings; all positions of mixed whitespace, NUL and high bytes cannot be listed.",
 ["include/gul14/trim.h", "src/trim.cc"], [("find_first_not_of / find_last_not_of based trimming", "src/trim.cc")],
 ["trim, trim_left, trim_right and _sv variants"])

prop("C07", "Replacement substitutes all non-overlapping matches, left to right, once",
 "Replacing a search term in a text substitutes every non-overlapping occurrence found scanning left to right and leaves all other bytes unchanged; replaced text is not searched again, and an empty search term changes nothing. The copying and the in-place variant produce the same text and both terminate for every input.",
 ["inputs"], "every text, search term and replacement up to the stated lengths, including terms overlapping themselves and replacements containing the term",
 "Tests use a few literals; self-overlapping terms, replacements containing the term and length-changing replacements at the ends are not covered in combination.",
 ["include/gul14/replace.h", "src/replace.cc"], [("find/append loop", "src/replace.cc"), ("replace_inplace", "src/replace.cc")],
 ["gul14::replace, gul14::replace_inplace"])

prop("C08", "ASCII case conversion touches exactly the ASCII letters",
 "Lower- and upper-casing (character, copying and in-place string forms) map exactly the 26 ASCII letters of the other case and leave every other byte, including high bytes and NUL, unchanged, keep the length, and are idempotent. The result does not depend on the locale.",
 ["inputs"], "all 256 byte values at every position, strings up to the stated length",
 "Tests check the alphabet and samples; position- or length-dependent errors escape them.",
 ["include/gul14/case_ascii.h", "src/case_ascii.cc"], [("lowercase_ascii/uppercase_ascii", "include/gul14/case_ascii.h"), ("inplace string loops", "src/case_ascii.cc")],
 ["lowercase_ascii, uppercase_ascii and _inplace variants"])

prop("C09", "Substring and case-insensitive predicates equal their definitions",
 "contains, starts_with and ends_with (for strings, characters, and case-insensitive variants) are true exactly when the text has the given part somewhere, at its beginning, or at its end; equality ignoring case is true exactly when both texts have the same length and their bytes agree after mapping ASCII letters to one case. The predicates are exact for every byte value, for empty arguments and for arguments longer than the text, and read nothing outside their arguments.",
 ["inputs"], "every pair of byte strings up to the stated lengths",
 "Tests compare a few words; non-letters differing only in bit 5 ('@' vs '`', '[' vs '{'), high bytes, and partial matches are combinatorial.",
 ["include/gul14/substring_checks.h", "include/gul14/string_util.h"],
 [("contains / contains_nocase search", "include/gul14/substring_checks.h"), ("equals_nocase, starts_with_nocase, ends_with_nocase", "include/gul14/substring_checks.h")],
 ["return values of the predicates"])

prop("C10", "String view operations agree with the reference string semantics",
 "For every view and argument the search functions (find, rfind and the four find-of families), compare and relational operators, substr, copy, prefix/suffix removal and element access return exactly what the corresponding standard string operation returns on the same characters, including the documented exceptions for positions past the end. No operation, whatever position or count it is given, produces a view or reads characters outside the viewed range.",
 ["inputs"], "every view, needle, position and count (full 64-bit range) up to the stated lengths",
 "Tests use fixed literals and small positions; 64-bit positions/counts (overflow), embedded NULs and high bytes, and empty needles at every position are unsampled.",
 ["include/gul14/string_view.h"], [("find/rfind/find_*_of loops", "include/gul14/string_view.h"), ("substr/compare bounds arithmetic", "include/gul14/string_view.h")],
 ["gul14::basic_string_view member functions"])

prop("C11", "Concatenation, repetition and text conversion build exactly the expected text",
 "Concatenating any mix of strings, views, characters and numbers gives the exact concatenation of each argument's text (integers in shortest decimal form with sign, for the full range of each type); repeating a text n times gives exactly n copies. Converting a bounded character buffer stops at the first NUL or the given length and never reads beyond it, and hexadecimal rendering prints two lowercase digits per byte (full element width for wider integers) with the separator only in between.",
 ["inputs"], "every argument value and string content up to the stated lengths",
 "Tests use a handful of values; extreme integers, signed bytes, missing NULs and separator placement for all lengths are not covered.",
 ["include/gul14/cat.h", "src/cat.cc", "include/gul14/string_util.h", "src/string_util.cc"],
 [("ConvertingStringView number formatting", "src/cat.cc"), ("repeat, safe_string, hex_string", "include/gul14/string_util.h, src/string_util.cc")],
 ["cat, repeat, safe_string, hex_string results"])

prop("C12", "Hexdump shows every element at its offset, exactly and within the limit",
 "A hexdump consists of the prompt and lines of up to sixteen elements, each with the hexadecimal offset and every element in order with all its hexadecimal digits (two per byte); for bytes the printable rendering follows, with a dot for each non-printable byte. Every element up to the documented limit appears exactly once and elements beyond it never, and the forms taking iterators, containers or raw memory, returning a string or writing to a stream, produce the same text.",
 ["inputs"], "every content of every length and limit up to the stated bounds, byte and wider elements",
 "Tests compare a few literal dumps; partial last lines of all lengths, sign-extended bytes and limits around line ends are unsampled.",
 ["include/gul14/hexdump.h"], [("detail::hexdump_stream line loop", "include/gul14/hexdump.h")],
 ["hexdump(), hexdump_stream() output"])

prop("C13", "Small vector behaves like a standard vector under any operation sequence",
 "After any sequence of constructions, insertions, erasures, assignments, resizes, reservations, shrinks, copies, moves and swaps, a small vector holds exactly the elements a standard vector would hold in the same order, iterators/returned positions agree, and capacity is at least the size and the inline capacity; checked access throws exactly when out of range. This holds across the boundary between inline and heap storage, and also when an argument refers to an element of the vector itself; memory outside the storage is never touched.",
 ["histories", "inputs"], "every sequence of operations up to the stated length with arbitrary positions, counts and values",
 "Tests run fixed scripts; the product of operation, position, size relative to inline capacity and gap size (overlap of moved and uninitialised regions) is combinatorial.",
 ["include/gul14/SmallVector.h"], [("grow/move_or_copy_to_new_storage", "include/gul14/SmallVector.h"), ("insert gap handling, erase shifting, swap of mixed storage", "include/gul14/SmallVector.h")],
 ["gul14::SmallVector public API"])

prop("C14", "Small vector constructs and destroys every element exactly once",
 "For element types with non-trivial lifetime, every element a small vector constructs is destroyed exactly once, no element is used before construction or after destruction, moved-from and cleared vectors own nothing, and no heap block is leaked or released twice. This also holds when an element constructor or copy throws in the middle of an operation: nothing leaks or is destroyed twice and the vector remains destructible.",
 ["histories", "fault_sequences"], "every operation sequence up to the stated length, with an exception injected at any element construction",
 "Tests count constructions in a few scenarios and never inject failures at arbitrary points.",
 ["include/gul14/SmallVector.h"], [("uninitialized_* helpers, destroy_range, deallocate", "include/gul14/SmallVector.h")],
 ["element constructor/destructor balance, heap balance"])

prop("C15", "Sliding buffer behaves as a bounded double-ended queue under any history",
 "After any history of pushes and pops at either end, clears, capacity changes, element writes, copies and moves, a sliding buffer contains exactly what a double-ended queue limited to its capacity would contain, in the same order: a push onto a full buffer drops the element at the other end, and a capacity change keeps the front elements (or, on request, the back elements) that fit. Size, filled, front, back, indexing and forward, backward and const iteration agree with that content, checked access throws exactly outside it, and the fixed-capacity, runtime-sized and exposed-iterator forms agree (exposed iterators visit every element, and nothing else while the elements are contiguous or the buffer is empty or full).",
 ["histories", "inputs"], "every operation history up to the stated length for capacities up to the stated bound, arbitrary values",
 "Tests script some histories; wrap-around position combined with resize and fill state multiplies beyond what they sample.",
 ["include/gul14/SlidingBuffer.h"], [("push_front wrap-around", "include/gul14/SlidingBuffer.h"), ("resize rotation/shift", "include/gul14/SlidingBuffer.h"), ("iterator index arithmetic", "include/gul14/SlidingBuffer.h")],
 ["SlidingBuffer and SlidingBufferExposed public API"])

prop("C16", "Spans denote exactly the requested part of the underlying array",
 "For every array and every valid offset/count (static or dynamic extent), first, last, subspan, element access, iteration and byte views of a span refer to exactly the requested elements of the original array, with the matching size; conversions from arrays, containers and other spans keep pointer and size. Nothing outside the underlying array is accessed.",
 ["inputs"], "every size, offset and count up to the stated bound, arbitrary contents",
 "Tests check a few constants.",
 ["include/gul14/span.h"], [("subspan/first/last pointer arithmetic", "include/gul14/span.h")], ["gul14::span public API"])

prop("C17", "Bit manipulation changes and reports exactly the addressed bit",
 "For every integer type, value and valid bit index, setting, resetting or flipping a bit changes that bit as requested and no other, testing reports exactly that bit, and the mask helper has exactly that bit set.",
 ["inputs"], "every value and bit index of all 8..64-bit integer types",
 "Tests check a few constants per type; width and promotion errors show up only for particular types and indices.",
 ["include/gul14/bit_manip.h"], [("bit_set/bit_reset/bit_flip/bit_test/set_bit templates", "include/gul14/bit_manip.h")], ["return values"])

prop("C18", "gcd and lcm return the mathematical greatest divisor / least multiple",
 "gcd(a, b) is non-negative, divides both arguments and is divisible by every common divisor, with gcd(a, 0) = |a|; lcm(a, b) is the smallest non-negative common multiple whenever it is representable and 0 if an argument is 0. This holds for signed, unsigned and mixed-width arguments of the same signedness whose magnitudes are representable, and for either order of the arguments.",
 ["inputs"], "every pair of arguments within the stated bounds, including mixed widths",
 "Tests list a few pairs; sign, width and intermediate overflow combinations are unsampled.",
 ["include/gul14/gcd_lcm.h"], [("Euclid loop, abs handling, lcm divide-before-multiply", "include/gul14/gcd_lcm.h")], ["gcd, lcm return values"])

prop("C19", "Numeric tolerance, clamp and abs helpers equal their mathematical definitions",
 "The absolute-tolerance comparison of integers is true exactly when |a-b| <= |tolerance|, that of floating-point numbers when the greater one minus |tolerance| is not above the smaller one (never for NaN); the order-of-magnitude comparison is true exactly for equal numbers and for |a-b| < max(|a|,|b|) / 10^orders; the ULP comparison accepts numbers at most the given number of steps apart and rejects those clearly further apart; and all comparisons are symmetric in their operands for signed, unsigned and floating-point types. clamp returns the value limited to the given interval and abs the magnitude, for every representable input for which the result is representable.",
 ["inputs"], "every operand of the stated integer types and every floating-point bit pattern within bounds",
 "Tests sample values; wrap-around for unsigned differences, extreme values, NaN and infinities are unsampled.",
 ["include/gul14/num_util.h"], [("within_abs, within_orders, within_ulp, clamp, abs", "include/gul14/num_util.h")], ["return values"])

prop("C20", "Statistics equal their definitions over every data set",
 "Minimum, maximum, min/max pair, mean, rms, median, variance/standard deviation and accumulation over any non-empty container range equal the values defined by the data, independent of element order (median for odd and even counts), work through iterators and user accessors alike, and leave the data unmodified. NaN entries are ignored by minimum, maximum and the min/max pair as documented.",
 ["inputs"], "every data set up to the stated size, element order and accessor",
 "Tests use a few data sets; all orderings, duplicates, extreme values, NaNs and even/odd lengths are not enumerated.",
 ["include/gul14/statistics.h"], [("min_max, median selection, mean/rms accumulation", "include/gul14/statistics.h")], ["return values"])

prop("C21", "A finalizer runs its action exactly once, whatever way the scope is left",
 "The action given to a finalizer runs exactly once when the owning object dies, on normal exit and during exception propagation, and never before; moving transfers the duty so that it still runs exactly once (a finalizer that another one is assigned to takes over that duty and drops its own action). A callable passed as an lvalue is copied and stays usable.",
 ["histories", "fault_sequences"], "every exit path, move chain and exception point up to the stated bounds",
 "Tests check a couple of scopes.",
 ["include/gul14/finalizer.h", "include/gul14/utility.h"], [("FinalizerWithReference destructor and move", "include/gul14/finalizer.h")], ["count and time of action calls"])

prop("C22", "Optional engages, accesses and destroys its value exactly as specified",
 "After any sequence of construction, emplace, assignment (value, copy, move, disengage), swap and reset, an optional reports engaged and yields the value exactly as the model of 'maybe one value' says, checked access throws exactly when empty, and all relational operators order an empty one before every value and otherwise compare the values. The contained object is constructed and destroyed exactly once per engagement, also when its constructor throws; references held by an optional reference refer to the original object.",
 ["histories", "inputs", "fault_sequences"], "every operation sequence up to the stated length with arbitrary values and a possible throw",
 "Tests (taken over from the reference implementation) use constants and fixed sequences.",
 ["include/gul14/optional.h"], [("optional storage, init flag, assignment operators, relational operators", "include/gul14/optional.h")], ["gul14::optional public API"])

prop("C23", "Expected holds exactly one of value or error through every operation",
 "After any sequence of construction, assignment, emplace and swap an expected object holds exactly the value or exactly the error last put into it, reports which one, and checked access to the value throws exactly when it holds an error. The monadic operations call their function exactly when applicable and pass everything else through unchanged, and when an element operation throws during assignment or swap no object is leaked, destroyed twice or left in neither state.",
 ["histories", "inputs", "fault_sequences"], "every operation sequence up to the stated length, arbitrary values, throwing at any element construction",
 "Tests use fixed sequences and constants; failure in the middle of a cross-kind assignment is not covered systematically.",
 ["include/gul14/expected.h"], [("reinit/assign with rollback", "include/gul14/expected.h"), ("and_then/or_else/map/map_error", "include/gul14/expected.h")], ["gul14::expected public API"])

prop("C24", "Variant holds exactly the last alternative put into it",
 "After any sequence of construction, assignment, emplacement and swap a variant reports the index of the alternative last stored and yields exactly that value; access to any other alternative is refused (exception or null pointer), visiting calls the visitor with exactly the active alternative, and comparisons order by index first and then by value. Every alternative object is constructed and destroyed exactly once; if construction throws, the variant is valueless or unchanged, never holding a half-made object; a swap of different alternatives that fails leaves both variants unchanged if at least one of the two held types has a non-throwing move constructor.",
 ["histories", "inputs", "fault_sequences"], "every operation sequence up to the stated length over alternatives, arbitrary values, a possible throw",
 "Tests use constants and fixed sequences.",
 ["include/gul14/variant.h"], [("index bookkeeping, visitation dispatch, assignment/emplace", "include/gul14/variant.h")], ["gul14::variant public API"])

prop("C25", "Calendar conversions are exact, monotonic and mutually inverse",
 "Converting a day count to year/month/day and back is the identity, the produced date is a valid Gregorian date whose successor is the next day count, and weekday, last-day-of-month, leap-year and month/year arithmetic agree with the proleptic Gregorian calendar. Splitting a duration or time point into fields and recombining restores it.",
 ["inputs"], "every date in the stated year range and every day count in it",
 "Tests in the repository barely touch it; era and leap boundaries need the whole range.",
 ["include/gul14/date.h"], [("year_month_day::to_days / from_days", "include/gul14/date.h"), ("weekday_from_days, last-day tables, ok()", "include/gul14/date.h")], ["gul14::date types' public API"])

prop("C26", "A trigger wakes every waiter and never loses or invents a trigger",
 "Under every interleaving, a thread waiting on a trigger returns from an untimed wait exactly when the trigger is or becomes set, and a timed wait returns true exactly if it was set when the wait ended and otherwise only after the timeout has passed; a set trigger stays set until reset. Setting wakes all waiting threads, and no call deadlocks or races.",
 ["schedules"], "every interleaving of setter, resetter and waiter threads within the preemption bound, arbitrary clock progress and spurious wake-ups",
 "Tests run a few real-time schedules; a wake-up lost in a window of a few instructions is practically never hit.",
 ["include/gul14/Trigger.h", "src/Trigger.cc"], [("flag and condition variable under one mutex", "src/Trigger.cc, include/gul14/Trigger.h")], ["return values and termination of wait calls"])

prop("C27", "The thread pool runs every accepted task exactly once and delivers its result",
 "Under every interleaving each task accepted by a thread pool that is not cancelled and whose pool stays alive runs exactly once, on a pool thread, not before its start time, at most one per worker at a time and, for equal start times on a single worker, in order of submission; its handle delivers exactly the value or exception the task produced. Tasks added while the queue is full are rejected with an exception and never run, and the number of pending tasks never exceeds the capacity; no data race or deadlock occurs.",
 ["schedules", "histories"], "every interleaving within the preemption bound of submitting threads and workers, arbitrary clock progress and start times",
 "Tests observe single timing-dependent runs; lost wake-ups, double execution and early starts need particular interleavings.",
 ["include/gul14/ThreadPool.h", "src/ThreadPool.cc"], [("pending/running queues under one mutex, condition variable protocol", "src/ThreadPool.cc"), ("packaged task and future", "include/gul14/ThreadPool.h")], ["task execution counts/order, TaskHandle::get_result, exceptions of add_task"])

prop("C28", "Task states and cancellation are truthful",
 "Cancelling a pending task succeeds and guarantees that it never runs and is reported as cancelled, also when it is cancelled through the pool; cancelling a task that has started or finished reports failure and leaves its result and state untouched. At any time the handle reports exactly one of pending, running, complete or cancelled in accordance with what happened, states only move forward, and the pool's counts and idle/full predicates match.",
 ["schedules", "histories"], "every interleaving of cancel, query, execution and submission within the preemption bound",
 "Tests use sleeps to force a single order; the races between cancellation and start are not covered.",
 ["include/gul14/ThreadPool.h", "src/ThreadPool.cc"], [("cancel_pending_task, get_task_state, is_pending/is_running", "src/ThreadPool.cc"), ("TaskHandle::cancel/get_state", "include/gul14/ThreadPool.h")], ["TaskHandle::cancel/get_state/is_complete/get_result, ThreadPool counters"])

prop("C29", "Destroying a pool stops it cleanly without hanging or leaking",
 "Destroying the last owner of a thread pool at any moment waits for running tasks, discards pending ones, ends all worker threads and returns; it never hangs, never terminates the program and never touches freed memory, even if tasks hold or query the pool. Handles outliving the pool stay safe: completed results remain available and operations needing the pool fail with an exception.",
 ["schedules", "histories"], "every interleaving within the preemption bound of destruction with idle, waiting and busy workers and of handles used after destruction",
 "Tests destroy pools at one or two moments in time.",
 ["include/gul14/ThreadPool.h", "src/ThreadPool.cc"], [("destructor shutdown flag, notify and join", "src/ThreadPool.cc"), ("weak pool reference in handles", "include/gul14/ThreadPool.h")], ["termination of the destructor, handle calls after destruction"])

prop("C30", "Sleeping respects duration and trigger, elapsed time is measured exactly",
 "Sleeping without a trigger returns true only after at least the given duration; with a trigger it returns false exactly if the trigger cut it short and returns at once if already set. The elapsed-time helper returns the difference between now and the start in the requested unit and never a wrong sign or scale.",
 ["schedules", "inputs"], "every duration and clock reading within the stated bounds, every moment of triggering, spurious wake-ups",
 "Tests measure a few real-time sleeps with tolerance.",
 ["include/gul14/time_util.h", "include/gul14/Trigger.h"], [("sleep overloads, tic/toc", "include/gul14/time_util.h")], ["return values and clock at return"])

prop("C31", "Containers and text functions fail cleanly when memory runs out",
 "If a memory allocation fails during an operation on a small vector (with elements whose copying may throw), a sliding buffer, an optional, expected or variant of strings, or during a text function that builds strings (concatenation, joining, splitting, tokenizing, replacing, escaping and unescaping, trimming, case conversion, repetition, hexadecimal rendering), std::bad_alloc reaches the caller and nothing is leaked or released twice. Arguments and source objects are unchanged, and the object operated on stays valid, keeps its elements in order (assignment may lose the old content of its target) and is usable afterwards; without a failure the result is the usual one.",
 ["fault_sequences", "inputs"], "every allocation of the operation as the point of failure, once or for all allocations from there on, from every container state within the bounds",
 "Tests never let an allocation fail.",
 ["include/gul14/SmallVector.h", "include/gul14/SlidingBuffer.h", "include/gul14/join_split.h", "src/replace.cc", "src/escape.cc"], [("reserve/insert/assign and allocation order", "include/gul14/SmallVector.h"), ("change_capacity()", "include/gul14/SlidingBuffer.h"), ("string building functions", "src/")],
 ["exceptions, container content, number of live heap blocks"])

prop("C32", "The thread pool survives failed memory allocations",
 "If a memory allocation fails while a thread pool is created, a task is submitted, or task names are queried, std::bad_alloc reaches the caller, nothing is leaked and the pool goes on working: a task whose submission failed never runs, and all accepted tasks run exactly once and deliver their results. Workers take, run and finish accepted tasks without needing memory, an allocation failure inside a task is delivered through its handle, and triggers and sleeping need no memory at all.",
 ["fault_sequences", "schedules"], "every allocation as the point of failure (once or persistently) in every interleaving within the bounds",
 "Tests never let an allocation fail, least of all in a worker thread at a particular moment.",
 ["src/ThreadPool.cc", "include/gul14/ThreadPool.h", "src/Trigger.cc"], [("bookkeeping of running tasks", "src/ThreadPool.cc"), ("add_task()", "include/gul14/ThreadPool.h")],
 ["handles, counts, exceptions, number of live heap blocks"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
