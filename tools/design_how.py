HOW.update({
'C01': ('`to_number<T>` for every integer type on a heap buffer of exactly n symbolic bytes. Oracle: a left-to-right scan in the harness that computes sign, digits and value in 128-bit arithmetic; acceptance and value must be equal. Reading outside the buffer, signed overflow and exceptions are violations of their own.', '25 s', 'the type limits, every stray byte at every position and out-of-range by one are a handful of 256^n texts.'),
'C02': ('`to_number<float/double/long double/bool>`. Grammar: oracle is a scanner of the documented grammar over symbolic bytes. Value: (a) bit-precise floating-point queries for short mantissas, (b) case by case over three digits in six layouts (also behind the 19 digits that are evaluated) and over every exponent of the type, against the correctly rounded value (`sx_strtold`), a few ulp tolerated.', '112 s', 'the value has an error only at particular combinations of digits, point position and exponent; trailing garbage was accepted only behind the 19th digit (found and repaired).'),
'C03': ('`escape`, `unescape` and their composition on symbolic bytes; the regular-expression machinery of the installed libstdc++ headers is executed symbolically. Oracle: direct decoder/encoder in the harness written from the documentation.', '6-10 s', '256 byte values at each position and every truncated or malformed sequence.'),
'C04': ('`split`/`split_sv`/output-iterator forms with character, string and regex delimiters; `join` in all forms; join(split(s, d), d) == s. Oracle: naive scan; views must lie in the original buffer (`sx_obj_check`).', '10 s', 'overlapping occurrences, delimiters containing NUL, empty delimiters and their combination with position in the text.'),
'C05': ('`tokenize`, `tokenize_sv` (default and explicit delimiters, other containers) against a naive run scanner.', '11 s', 'every placement of delimiters, any byte as delimiter (NUL, high bytes).'),
'C06': ('all `trim*` functions against a naive scan from both ends; views must be inside the original.', '13 s', 'as C05, and texts that consist of trim characters only.'),
'C07': ('`replace` and `replace_inplace` against a naive left-to-right replacement; termination is a bound on executed steps (an endless loop is reported as incomplete or exceeds the heap model).', '18 s', 'replacements that contain the needle, self-overlapping needles, growth across the small-string buffer.'),
'C08': ('`lowercase_ascii`, `uppercase_ascii` and in-place forms, every character; strings byte by byte.', '15 s', 'all 256 values, also at word borders of an optimised loop.'),
'C09': ('`contains`, `starts_with`, `ends_with` and `_nocase` variants, `equals_nocase`, string/view/char/pointer arguments, against naive definitions.', '16 s', 'high bytes, embedded NUL, arguments longer than the text, partial matches.'),
'C10': ('`basic_string_view` operations against `std::string`-semantics written out in the harness (naive loops), with position and count as full 64-bit symbolic values; stream output against the documented padding.', '36 s', 'positions near 2^64 (this found an overflow in substr), every combination of empty arguments.'),
'C11': ('`cat`, `repeat`, `safe_string`, `hex_string`, with symbolic integers around the limits of all types; `std::to_string` comes from the libstdc++ headers. Oracle: digits computed in the harness.', '25 s', 'values at the ends of the types; buffers without terminator.'),
'C12': ('`hexdump`, `hexdump_stream` in all forms against a renderer in the harness. iostream formatting of the headers is executed; the compiled half is modelled.', '21 s', 'sign extension of elements, borders of lines and of the 16000-element limit in each form.'),
'C13': ('one-step check from every reachable representation: the vector is put into every state (inline/heap, capacity, size) with arbitrary values, then one operation (thorough: two) with arbitrary arguments is executed and contents, capacity, iterators and return values are compared with a plain array model. As every state within the bounds is covered as a starting point, histories of any length within the state bounds are covered as long as the operations lead to states in the set.', '61 s', 'the product of operation, position, count, size, capacity and aliasing argument.'),
'C14': ('as C13 with tracked element types: a registry of live objects reports construction over a live object, use after destruction, leaks and double destruction; an exception is thrown by any (symbolically chosen) element operation.', '33 s', 'the point at which an exception occurs is a symbolic variable; five leaks were found and repaired.'),
'C15': ('as C13 for `SlidingBuffer` (fixed, dynamic) and `SlidingBufferExposed` against a bounded deque model.', '51 s', 'every rotation of the ring together with every change of capacity.'),
'C16': ('`span` member functions: pointer and size of the result against the arithmetic definition; every byte of the result must be inside the array.', '7 s', 'all offsets and counts, static and dynamic extent.'),
'C17': ('`bit_set`, `bit_reset`, `bit_flip`, `bit_test`, `bit_func` for all values and indices.', '7 s', 'complete: every value and index of every type.'),
'C18': ('`gcd`/`lcm`: the result divides both arguments, is a multiple of every common divisor (an arbitrary symbolic divisor), and gcd*lcm = |a*b|.', '47 s', 'operand pairs and mixed types, including minimum values.'),
'C19': ('`within_abs`, `within_orders`, `within_ulp`, `clamp`, `abs`: definitions evaluated in wider arithmetic (integers) or by bit-precise floating-point queries (float/double).', '120 s', 'wrap-around at the limits of the types (found and repaired), NaN, infinities, argument order.'),
'C20': ('`min_max`, `minimum`, `maximum`, `mean`, `rms`, `median`, `standard_deviation`, `accumulate`, `remove_outliers` over symbolic data. Oracle: definitions in the harness evaluated in the same order of operations so that floating-point results are bit-identical; medians by counting.', '74 s', 'every order of elements, NaN at every position.'),
'C21': ('histories of `finally` objects with a counter per action.', '8 s', 'every order of moves, assignments, destructions and exceptions.'),
'C22': ('histories over two optionals against a model (engaged, value) with tracked elements as in C14.', '12 s', 'sequences, exception points.'),
'C23': ('histories over two expected objects against a model, tracked elements, exceptions; monadic functions count their calls.', '9 s', 'as C22; four defects found and repaired, one is an open finding.'),
'C24': ('histories over two variants against a model (index, value), tracked elements, exceptions; visiting and relations.', '15 s', 'as C22.'),
'C25': ('date <-> day count: induction step by the solver (successor of every valid date is the next count, anchored at 1970-01-01) and the conversion back for all days of 400-year cycles; month arithmetic, weekdays, roundings and time of day against naive definitions.', '52 s', 'leap-year exceptions, negative years and month differences across zero.'),
'C26': ('`Trigger` with threads as explicit engine threads; which thread continues at each lock, wait, notification, join, sleep (and optionally each atomic access) is a symbolic choice, as are spurious wake-ups and the progress of the clock. Data races by vector clocks, deadlocks by the absence of a runnable thread.', '21 s', 'interleavings, lost wake-ups, spurious wake-ups.'),
'C27': ('`ThreadPool::add_task` and `TaskHandle` with real tasks; every task records when and where it ran; results and exceptions are compared with what the task did. std::thread, futures, mutex and condition variables are executed from the headers down to the modelled pthread layer.', '92 s', 'interleavings of workers, submitters and time; a missed wake-up and a self-deadlock were found and repaired.'),
'C28': ('handle operations at every moment of every interleaving; the harness keeps ghost facts (started, finished, cancelled) and checks each report against them.', '30 s', 'the moment of a cancellation relative to the worker.'),
'C29': ('destruction at every moment of the interleavings; afterwards no thread and no heap block of the pool may be left.', '21 s', 'the moment of destruction; worker as last owner; thread creation failing at any worker.'),
'C31': ('operations as in C13 and text functions while the n-th call of operator new fails; n is a symbolic value, so the engine forks at each allocation. Oracle: the result without failure, or std::bad_alloc with unchanged content and the same number of heap blocks.', '20 s', 'no test injects an allocation failure; a defect of SlidingBuffer::resize() was found and repaired.'),
'C32': ('pool operations with a failing operator new (symbolic n) in every interleaving.', '55 s', 'failures in a worker thread at a particular moment; a terminating worker was found and repaired.'),
'C30': ('`sleep`, `tic`, `toc` with a model clock whose progress is symbolic.', '7 s', 'arbitrary durations and moments of the trigger.'),
})
