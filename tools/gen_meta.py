#!/usr/bin/python3 -B
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, level='exploration', note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None),
                  technique=technique, level=level, note=note))


prop('C01', 'An array list behaves as a sequence of fixed-size elements',
     'After any history of add, set, remove, get and size calls, an array list holds exactly the elements a plain sequence would, each byte for byte, in order, at every index; an index outside the list is refused. '
     'A call that is refused or runs out of memory leaves the list as it was, however often the list had to grow. Finalizing returns all memory, and a capacity or element size whose product does not fit is refused.',
     'histories inputs fault_sequences', 'every call history, every element size and capacity, every allocation that may fail',
     'the tests use one element type and a handful of adds and removes; they never compare the whole content, nor element sizes and growth points in combination',
     'src/array_list.c include/rcutils/types/array_list.h',
     [('rcutils_array_list_increase_capacity', 'src/array_list.c'), ('rcutils_array_list_remove shifts the tail', 'src/array_list.c')],
     [('impl', 'list pointer, size, capacity, element size', 'src/array_list.c')], ['get of every index after every call', 'allocator bookkeeping'],
     'stateful model-based random testing against a vector model, under ASan/UBSan, with shrinking')
prop('C02', 'A hash map stores exactly the last value set for every key',
     'After any history of set, unset, get and key queries, a hash map holds exactly the last value set for each key not unset since, reports that number as its size and a power-of-two capacity, whatever the hash values collide on and however often it grew. '
     'A missing key is reported as not found. A call that is refused or runs out of memory keeps every other entry and an overwritten value intact, and finalizing returns all memory.',
     'histories inputs fault_sequences', 'every call history over fixed-size and string keys, every hash function including constant ones, every allocation that may fail',
     'tests store a few keys with one hash function and do not reach growth after removals, collisions within a bucket or failures in the middle of a growth',
     'src/hash_map.c include/rcutils/types/hash_map.h',
     [('hash_map_find (hash, then comparison)', 'src/hash_map.c'), ('hash_map_check_and_grow_map', 'src/hash_map.c'), ('rcutils_hash_map_init rounds the capacity up', 'src/hash_map.c')],
     [('impl', 'buckets, entry count, load', 'src/hash_map.c')], ['get and key_exists of every key of the universe after every call'],
     'stateful model-based random testing against std::map, under ASan/UBSan, with shrinking')
prop('C03', 'Iterating a hash map visits every entry exactly once',
     'Starting from no key and passing on each returned key, the iteration of an unchanged hash map yields every stored entry exactly once with its current value, then reports that there are no more entries; this also holds when the buffer of the previous key is reused for the next one. '
     'Continuing from any stored key yields what follows it in that same walk, and continuing from a key that is not stored is reported as not found.',
     'histories inputs', 'every map content reachable by sets, unsets and growth, every starting key',
     'tests iterate one or two fixed maps, without collisions, removals or aliased key buffers',
     'src/hash_map.c', [('rcutils_hash_map_get_next_key_and_data', 'src/hash_map.c')], (), ['whole walks'],
     'random map histories, complete walks compared with the model key set')
prop('C04', 'A string map holds exactly the key-value pairs put into it',
     'After any history of set, set-without-resize, unset, reserve, clear and copy, a string map holds exactly the pairs a dictionary would; keys match as whole strings (or as exactly the given number of bytes), values are private copies, and iteration visits each key once. '
     'Capacity is never below the number of pairs, set-without-resize refuses a new key only when the map is full, and reserving, growing or shrinking loses nothing. '
     'A call that is refused or runs out of memory leaves every pair as it was, and finalizing returns all memory.',
     'histories inputs fault_sequences', 'every call history, keys that are prefixes of each other or empty, every allocation that may fail',
     'tests use a few unrelated keys and no out-of-memory in the middle of a growth; keys that are prefixes and shrinking reserves are not reached',
     'src/string_map.c include/rcutils/types/string_map.h',
     [('__get_index_of_key_if_exists', 'src/string_map.c'), ('rcutils_string_map_reserve', 'src/string_map.c'), ('rcutils_string_map_set_no_resize', 'src/string_map.c'), ('rcutils_string_map_copy', 'src/string_map.c')],
     [('impl', 'key_value_pairs, capacity, size', 'src/string_map.c')], ['get, getn, next_key over the whole universe after every call'],
     'stateful model-based random testing against std::map, under ASan/UBSan, with shrinking')
prop('C05', 'String arrays keep their entries through resize, comparison and sorting',
     'Resizing a string array keeps every entry below the new size, adds empty slots above the old one and gives back what it drops. Comparing two arrays orders them entry by entry by byte value and then by length, and refuses empty slots it meets; '
     'sorting yields the same strings in byte order with empty slots last. A call that is refused (also for a size that cannot be represented) or runs out of memory leaves the array as it was, and finalizing returns all memory.',
     'histories inputs fault_sequences', 'every history over arrays with empty, equal and prefix-related strings, every size, every allocation that may fail',
     'tests check a few fixed arrays',
     'src/string_array.c include/rcutils/types/string_array.h',
     [('rcutils_string_array_resize', 'src/string_array.c'), ('rcutils_string_array_cmp', 'src/string_array.c'), ('rcutils_string_array_sort_compare', 'src/string_array.c')],
     [('data', 'size and entry pointers', 'include/rcutils/types/string_array.h')], ['entries, comparison results and allocator bookkeeping'],
     'stateful model-based random testing against vectors of optional strings')
prop('C06', 'Char arrays hold exactly the bytes written and never exceed their buffer',
     'After any history of copies, string copies, concatenations, prints and resizes, a char array holds exactly the bytes a growing byte string would, terminated where the operation promises it, with its length covering that content and its capacity never below its length. '
     'A buffer the array does not own is never freed, and never written outside its capacity; growing moves the content to owned memory. '
     'A call that is refused or runs out of memory leaves a usable array with its content.',
     'histories inputs fault_sequences', 'every call history, every initial and requested size, owned and foreign buffers, every allocation that may fail',
     'tests use a few sizes; growth of foreign buffers, appends around the capacity and failing reallocations with content are not compared with a model',
     'src/char_array.c include/rcutils/types/char_array.h',
     [('rcutils_char_array_resize', 'src/char_array.c'), ('rcutils_char_array_expand_as_needed', 'src/char_array.c'), ('rcutils_char_array_vsprintf', 'src/char_array.c'), ('rcutils_char_array_strncat', 'src/char_array.c')],
     [('owns_buffer', 'whether the buffer is freed by fini', 'include/rcutils/types/char_array.h')], ['buffer bytes, length, capacity, foreign buffer surroundings'],
     'stateful model-based random testing against a byte-string model with exact-size foreign buffers')
prop('C07', 'Byte arrays keep their content through every resize',
     'Resizing a byte array keeps its content up to the new capacity, cuts its length only where the capacity falls below it, and never changes the bytes it keeps. '
     'Resizing to zero is refused and changes nothing; a resize or init without memory for it reports an error and leaves an array whose capacity and length describe what it holds. Initializing gives the asked capacity and length zero, and finalizing returns all memory.',
     'histories inputs fault_sequences', 'every history of init, fill, resize and fini, every size, every allocation that may fail',
     'tests resize one array to a few sizes', 'src/uint8_array.c include/rcutils/types/uint8_array.h',
     [('rcutils_uint8_array_resize', 'src/uint8_array.c')], (), ['buffer bytes, length, capacity, allocator bookkeeping'],
     'stateful model-based random testing against a byte-vector model')
prop('C08', 'Splitting a string yields exactly its non-empty parts',
     'Splitting yields the non-empty parts between the delimiters, in order, as an array of exactly that many strings, for any text and any delimiter byte. '
     'Splitting at the last delimiter, after ignoring one leading and one trailing delimiter, yields the text before (without one further delimiter directly before it) and after it, or the one part there is. '
     'No text yields an empty array; an allocation that fails yields an error, and no memory stays behind.',
     'inputs fault_sequences', 'every string up to 4000 bytes, every delimiter byte, every allocation that may fail',
     'tests use about a dozen literal strings', 'src/split.c include/rcutils/split.h',
     [('rcutils_split (counts tokens, then copies)', 'src/split.c'), ('rcutils_split_last', 'src/split.c')], (), ['resulting string arrays'],
     'differential random testing against independent reference splitters')
prop('C09', 'String replacement replaces every occurrence, left to right',
     'Replacing a non-empty pattern yields the text with every non-overlapping occurrence, found from left to right, replaced and every other byte kept, for any lengths of text, pattern and replacement and any number of occurrences. '
     'Replacements are not searched again, the inputs are not changed, and an allocation that fails yields nothing and leaves no memory behind.',
     'inputs fault_sequences', 'every text, pattern and replacement, every allocation that may fail',
     'tests use a few texts with at most a handful of occurrences; the position cache grows only after many', 'src/repl_str.c include/rcutils/repl_str.h',
     [('rcutils_repl_str (position cache)', 'src/repl_str.c')], (), ['returned string'], 'differential random testing against a reference replacement')
prop('C10', 'Finding a byte returns its first or last position within the length',
     'Searching for the first or last occurrence of any byte returns exactly its position, or the not-found value when it does not occur, in plain strings and in strings given with a length. '
     'With a length, nothing at or behind that length is looked at, and bytes before it count whatever their value.',
     'inputs', 'every string, every byte, every length', 'tests use a few literal strings', 'src/find.c include/rcutils/find.h',
     [('rcutils_findn', 'src/find.c'), ('rcutils_find_lastn', 'src/find.c')], (), ['returned position, reads under ASan'],
     'differential random testing against a linear scan on exactly sized buffers')
prop('C11', 'String copies, caseless comparison and alphanumeric test follow bytes',
     'Duplicating a string gives an independent, terminated copy of it, or of at most the given number of bytes, reading nothing beyond them. Caseless comparison, plain or bounded, is (in the "C" locale) zero exactly if the strings are equal up to ASCII letter case, otherwise has the sign of the first differing bytes in lower case; '
     'alphanumeric means exactly the ASCII letters and digits, whatever the locale. An allocation that fails gives nothing.',
     'inputs fault_sequences', 'all pairs of byte strings, all bounds', 'tests use a few literals in one locale; no bytes above 127',
     'src/strdup.c src/strcasecmp.c include/rcutils/isalnum_no_locale.h',
     [('rcutils_strndup', 'src/strdup.c'), ('rcutils_strncasecmp', 'src/strcasecmp.c'), ('rcutils_isalnum_no_locale', 'include/rcutils/isalnum_no_locale.h')], (), ['results'],
     'differential random testing against byte-wise references')
prop('C12', 'Formatted printing truncates safely and reports the full length',
     'Printing into a buffer writes at most its size, always terminates a non-empty buffer, writes exactly the prefix of the full output that fits and returns the length of the full output, also for no buffer of size zero. '
     'Formatting into a new string yields the full output, or its prefix within the limit counting the terminator, and nothing when an allocation fails or the output cannot be made.',
     'inputs fault_sequences', 'every format of the supported conversions, every buffer size around the output length, every allocation that may fail',
     'tests check a few literal formats', 'src/snprintf.c src/format_string.c include/rcutils/format_string.h include/rcutils/snprintf.h',
     [('rcutils_vsnprintf', 'src/snprintf.c'), ('rcutils_format_string_limit', 'src/format_string.c')], (), ['buffer bytes and surroundings, returned length'],
     'differential random testing against an independent renderer')
prop('C13', 'The error state is the last error set, until it is reset',
     'Setting an error stores the message, the file name and the line, cut to the documented capacities and always terminated, also when the arguments point into the present state; the error string shows all three, and overwriting an unread error reports both on standard error. '
     'Is-set, get and reset agree at any time: nothing is set at first and after a reset. The message macros store the location of the call and the formatted text, the appending ones also the previous message if there was one; a checking macro sets its error and then runs its statement exactly when its check fails. '
     "Initialising a thread's error storage clears it at most once: it changes nothing, and succeeds, once it was done or an error was set.",
     'histories inputs', 'every history of set, get, query, reset and macro calls, all lengths around the capacities',
     'tests set a few literal messages; the error handling tests are not built in the stable suite', 'src/error_handling.c src/error_handling_helpers.h include/rcutils/error_handling.h',
     [('rcutils_set_error_state', 'src/error_handling.c'), ('__rcutils_format_overwriting_error_state_message', 'src/error_handling_helpers.h'), ('__rcutils_copy_string', 'src/error_handling_helpers.h')],
     [('gtls_rcutils_error_state', "the thread's error", 'src/error_handling.c')], ['get_error_state, get_error_string, standard error'],
     'stateful model-based random testing')
prop('C14', 'The effective level of a logger is that of its nearest configured ancestor',
     'After any history of level changes, the effective level of a dotted logger name is the level last set for it or, if unset, for the nearest ancestor with a level, or else the default level; a logger is enabled for exactly the severities at or above it. '
     'The level read back for a name (or a name given with a length) is exactly the one set, names that only share leading bytes do not influence each other, and a failed change leaves all levels as they were. '
     'Severity names parse regardless of case to their levels and anything else is refused.',
     'histories inputs fault_sequences', 'every history of set, query and default changes over related names, every allocation that may fail',
     'tests set few levels once; caching, re-setting ancestors after queries and failures are not covered, and the logging tests are mostly not in the stable suite',
     'src/logging.c include/rcutils/logging.h resource/logging.h',
     [('rcutils_logging_get_logger_effective_level', 'src/logging.c'), ('rcutils_logging_set_logger_level (invalidates cached descendants)', 'src/logging.c'), ('add_key_to_hash_map', 'src/logging.c')],
     [('g_rcutils_logging_severities_map', 'levels set and cached by name', 'src/logging.c')], ['levels and enablement of every name of the universe'],
     'stateful model-based random testing against a map of names to levels')
prop('C15', 'Logging macros deliver and filter messages exactly as their name says',
     'A logging macro delivers one message with its severity, logger name, location and formatted text exactly when the logger is enabled for it and its filter lets it pass: once, on expression, by function, skip-first, throttled by its interval, or any combination; each call site keeps its own state. '
     'When a message is not enabled, its arguments are not evaluated, and messages below the compile-time minimum severity are never delivered. The handler set last gets every message.',
     'histories inputs programs configurations', 'every history of calls through all macros in C and C++, level and handler changes, clock values and filter results',
     'the tests exercise each macro once or twice', 'resource/logging_macros.h.em include/rcutils/logging.h rcutils/logging.py src/logging.c',
     [('RCUTILS_LOG_COND_NAMED and conditions', 'resource/logging_macros.h.em'), ('rcutils_log, rcutils_log_internal', 'src/logging.c')],
     [('static once/skip/throttle state', 'per call site', 'resource/logging_macros.h.em')], ['calls reaching a recording output handler, argument evaluations'],
     'stateful model-based random testing over generated macro call sites with a scripted clock')
prop('C16', 'A log message is the output format with every token replaced',
     'Formatting a message replaces every known token of the configured output format by its value and every known escape sequence by its character, and keeps everything else - unknown tokens, unknown escapes, stray braces and backslashes - as it is, for any mix and any length up to the limit, beyond which the format is cut. '
     'An unset or empty format means the default one; a missing location or name gives an empty text for it; running out of memory is reported as an error, without crash or leak.',
     'inputs configurations fault_sequences', 'every format string, every message, name, location and time, every allocation that may fail',
     'tests compare a few formats and are not in the stable suite', 'src/logging.c',
     [('parse_and_create_handlers_list', 'src/logging.c'), ('rcutils_logging_format_message', 'src/logging.c'), ('expand_* handlers', 'src/logging.c')],
     [('g_rcutils_logging_output_format_string, g_handlers', 'the parsed format', 'src/logging.c')], ['formatted message'],
     'differential random testing against an independent format expander')
prop('C17', 'The console handler writes each message whole to the chosen stream',
     'The console handler writes every message at a known severity exactly once, whole, with one line end and the colour of its severity only if colours are on (always, never, or automatically on a terminal), to the stream chosen by the environment (standard error unless standard output is asked for) and nothing to the other. '
     'Buffering follows the environment, invalid values of these variables make initialization fail, and neither long messages nor failing allocations crash or write elsewhere.',
     'inputs configurations fault_sequences', 'every combination of the environment variables, message length and severity, files and terminals',
     'tests check few combinations and are not in the stable suite', 'src/logging.c',
     [('rcutils_logging_console_output_handler', 'src/logging.c'), ('parse_and_get_environment variables in initialize', 'src/logging.c'), ('IS_STREAM_A_TTY / SET_*_COLOR macros', 'src/logging.c')],
     (), ['bytes arriving at redirected streams and a pseudo-terminal'], 'random configurations and messages compared with the expected bytes of each stream')
prop('C18', 'Time points are written exactly, for every 64-bit value',
     'Writing any 64-bit time point as nanoseconds, as seconds with nine decimals, or as local date with milliseconds gives text that denotes exactly that time (the date cut to milliseconds towards the past), with the documented padding, before and after the epoch. '
     'A too short buffer gets the terminated prefix and nothing is written behind it.',
     'inputs configurations', 'all 64-bit time points, all time zones used, all buffer sizes', 'tests check a handful of values and one buffer size',
     'src/time.c include/rcutils/time.h',
     [('rcutils_time_point_value_as_seconds_string', 'src/time.c'), ('rcutils_time_point_value_as_date_string', 'src/time.c'), ('rcutils_time_point_value_as_nanoseconds_string', 'src/time.c')], (), ['text'],
     'differential random testing against an independent calendar, plus parse-back round trip')
prop('C19', 'Clock readings and unit conversions are exact',
     'Reading the system or steady clock gives the value of the corresponding system clock in nanoseconds, without loss for any value it can have; a clock that fails or is negative is reported as an error and gives no value. '
     'Successive steady readings never go back, and the conversion macros between seconds, milli-, micro- and nanoseconds compute exactly what integer arithmetic says.',
     'inputs histories fault_sequences', 'all clock values, all convertible integers and doubles', 'tests can only read the real clock of the moment',
     'src/time_unix.c include/rcutils/time.h', [('rcutils_system_time_now, rcutils_steady_time_now', 'src/time_unix.c'), ('RCUTILS_*_TO_* macros', 'include/rcutils/time.h')], (), ['returned time, with a scripted clock_gettime'],
     'random clock scripts (interposed clock_gettime) and conversions compared with exact arithmetic')
prop('C20', 'SHA-256 gives the standard digest however the data is fed',
     'The digest of any byte sequence is its SHA-256 value as the standard defines it, no matter into which pieces the data is cut, how contexts are interleaved and whether one was used before and initialized again.',
     'inputs histories', 'all messages (lengths to 3000 and one of 512 MiB), all ways to cut them', 'tests hash a few messages in one or two pieces',
     'src/sha256.c include/rcutils/sha256.h', [('rcutils_sha256_update, rcutils_sha256_final', 'src/sha256.c'), ('sha256_transform', 'src/sha256.c')], [('rcutils_sha256_ctx_t', 'partial block, bit length, chaining value', 'include/rcutils/sha256.h')], ['digest'],
     'differential random testing against an independent implementation')
prop('C21', 'Path queries answer what is on the file system',
     'Asking whether a path exists, is a file or a directory, is readable or writable by its owner permission bits, and how many bytes a file has, gives exactly what the file system holds behind the path after following links, for any kind of entry, missing paths, dangling or circular links and malformed paths. '
     'The current directory is returned whole in a buffer that has room for it and refused otherwise.',
     'inputs configurations', 'every kind of entry, permission bits, link structure, path spelling and buffer size', 'tests ask about a few fixed files and are not in the stable suite',
     'src/filesystem.c include/rcutils/filesystem.h', [('rcutils_is_* and rcutils_exists (stat)', 'src/filesystem.c'), ('rcutils_get_cwd', 'src/filesystem.c'), ('rcutils_get_file_size', 'src/filesystem.c')], (), ['answers'],
     'random file trees in a scratch directory, answers compared with what was created')
prop('C22', 'Directory iteration and size cover every entry exactly once',
     'Iterating a directory yields every entry in it exactly once (its own and parent entry included), then ends; the iterator gives all its memory and descriptors back. '
     'The size of a directory is the sum of the sizes of the regular files in it, and with recursion of those at most the asked depth below it, never following links out of it; what cannot be examined or allocated is reported as an error.',
     'inputs configurations fault_sequences', 'every directory tree, depth limit and failing allocation', 'tests use one fixed directory and are not in the stable suite',
     'src/filesystem.c include/rcutils/filesystem.h', [('rcutils_dir_iter_start/next/end', 'src/filesystem.c'), ('rcutils_calculate_directory_size_with_recursion', 'src/filesystem.c')], (), ['entries, sizes, open descriptors, allocator bookkeeping'],
     'random directory trees compared with their model, allocations failing at every point')
prop('C23', 'Paths are joined, expanded and created without loss',
     'Joining two paths gives them with one separator between, byte for byte at any length; converting to native form on this platform changes nothing but separators; expanding replaces exactly a leading tilde by the home directory. '
     'Making a directory creates exactly the one asked for, accepts one that is there already, and refuses relative paths, missing parents and names taken by something else. An allocation that fails gives nothing.',
     'inputs configurations fault_sequences', 'all paths up to 5000 bytes, any home directory, every allocation that may fail', 'tests use a few short paths and are not in the stable suite',
     'src/filesystem.c include/rcutils/filesystem.h', [('rcutils_join_path', 'src/filesystem.c'), ('rcutils_expand_user', 'src/filesystem.c'), ('rcutils_mkdir', 'src/filesystem.c'), ('rcutils_to_native_path', 'src/filesystem.c')], (), ['strings; tree under a scratch directory'],
     'random paths against string equations; random mkdir histories against a tree model')
prop('C24', 'Environment changes affect exactly the named variable',
     'After any history of setting (with and without overwriting), unsetting and reading environment variables, each holds the value last set, or the one it had if overwriting was not allowed, and no other variable changes; unset variables read as empty. '
     'Names that are missing, empty or contain an equals sign are refused, and the home directory is the value of its variable or nothing.',
     'histories inputs', 'every history over related names and any values', 'tests set one or two variables', 'src/env.c include/rcutils/env.h',
     [('rcutils_set_env_overwrite', 'src/env.c'), ('rcutils_get_env', 'src/env.c'), ('rcutils_get_home_dir', 'src/env.c')], (), ['the whole environ'],
     'stateful model-based random testing against a map, whole environment compared')
prop('C25', 'Running out of memory anywhere is reported and harms nothing',
     'Whichever allocation of any call fails - one alone, or it and all later ones - the call reports an error (or succeeds without needing it), every object stays usable with the content its documentation promises, and no memory is lost. '
     'The same call succeeds once memory is available again.',
     'fault_sequences histories', 'every allocation of every call of a generated script over all modules, failing alone or with all later ones',
     'fault injection tests loop over a few single calls and only look for crashes', 'src/array_list.c src/hash_map.c src/string_map.c src/string_array.c src/char_array.c src/uint8_array.c src/logging.c src/filesystem.c src/shared_library.c src/split.c src/repl_str.c src/format_string.c src/strdup.c src/process.c',
     [('error paths after every allocate/reallocate', 'src/*.c')], (), ['status, models of all objects, allocator bookkeeping'],
     'systematic enumeration of failing allocations over random multi-module scripts', 'fault_enumeration')
prop('C26', 'Each object uses only the allocator it was given, and gives back all',
     'Every call takes memory only from the allocator given to it or to its object, passes it the state it belongs to, gives every block back to the same allocator exactly once, and takes none from the heap behind its back; objects with different allocators never mix. '
     'An allocator is valid exactly if all its functions are present; the default allocator behaves as the C heap, and a failed reallocate-or-free gives the block back.',
     'histories inputs configurations', 'every script of calls over two sets of all objects with separate allocators', 'tests use the default allocator nearly everywhere', 'src/allocator.c include/rcutils/allocator.h src/*.c'.replace(' src/*.c', ''),
     [('allocator stored with every object', 'include/rcutils/allocator.h'), ('rcutils_reallocf', 'src/allocator.c')], (), ['tracking allocators, heap hooks'],
     'random multi-module scripts with tracking allocators and heap hooks')
prop('C27', 'Fault injection fails exactly the asked point',
     'With the counter at n, exactly the n-th next fault point fails, points before it count down and all others pass; a negative counter never fails and stays; threads share the one counter so that one of them takes the fault. '
     'The fault injection loop runs its code once per point, failing each in turn, and ends after the first run in which none failed; a library call that meets an injected fault reports an error without crashing, and the next call without fault works.',
     'histories fault_sequences schedules programs', 'every history of counter settings and fault points, generated code with any number of points, up to four threads',
     'the tests only use it as a tool', 'src/testing/fault_injection.c include/rcutils/testing/fault_injection.h include/rcutils/macros.h',
     [('_rcutils_maybe_fail', 'src/testing/fault_injection.c'), ('RCUTILS_FAULT_INJECTION_TEST', 'include/rcutils/testing/fault_injection.h')], [('g_rcutils_fault_injection_count', 'remaining points', 'src/testing/fault_injection.c')], ['returns of fault points, counter'],
     'stateful model-based random testing plus enumeration of the counter over library calls', 'fault_enumeration')
prop('C28', 'Shared library handles stand for exactly the loaded library',
     'After any history of loading, unloading and symbol queries, a handle is loaded exactly if its last load succeeded and it was not unloaded since; symbols found are those of its own library, anything else is reported missing, also when a library is open through several handles. '
     'A load that fails leaves the handle as it was and loses no memory; platform library names are prefix, name and suffix, and refused if they do not fit the buffer.',
     'histories inputs fault_sequences', 'every history over four handles and libraries under any file names, every allocation that may fail', 'tests load one library once',
     'src/shared_library.c include/rcutils/shared_library.h', [('rcutils_load_shared_library', 'src/shared_library.c'), ('rcutils_has_symbol, rcutils_get_symbol', 'src/shared_library.c'), ('rcutils_get_platform_library_name', 'src/shared_library.c')], (), ['symbol addresses and what they return, handle state'],
     'stateful model-based random testing over generated copies of two small libraries')
prop('C29', 'Command line options are found only where they stand',
     'An option is reported present exactly if some argument equals it, and its value is the argument that follows its first occurrence, or nothing if it is absent or last; arguments that merely resemble it never count and nothing outside the given range is read.',
     'inputs', 'every argument array, option and range', 'tests use one argument list', 'src/cmdline_parser.c include/rcutils/cmdline_parser.h',
     [('rcutils_cli_option_exist, rcutils_cli_get_option', 'src/cmdline_parser.c')], (), ['results'], 'differential random testing against a linear search')
prop('C30', 'Sorting orders the elements, keeps them all and touches nothing else',
     'Sorting any array of any element size with any consistent comparison yields the same elements in order, writes only to the array and compares only its elements; no elements or invalid arguments are handled as documented.',
     'inputs', 'arrays to 600 elements of 1 to 40 bytes, any comparison', 'tests sort a few small integer arrays', 'src/qsort.c include/rcutils/qsort.h', [('rcutils_qsort', 'src/qsort.c')], (), ['array and its surroundings'],
     'random testing against order and permutation predicates')
prop('C31', 'Logging can be initialized, shut down and used in any order',
     'Initializing logging twice has the effect of once, shutting down an uninitialized one none, and using it first initializes it; after a shutdown and a new initialization no level, handler, format or memory of the time before remains. '
     'An initialization that fails - for lack of memory, an invalid allocator or a refused environment - is reported and leaves logging uninitialized and able to be initialized later. Shutdown gives back all memory to the allocator it came from.',
     'histories configurations fault_sequences', 'every history of initializations, shutdowns and uses, every environment and failing allocation', 'the logging tests initialize once per process and are mostly not in the stable suite', 'src/logging.c include/rcutils/logging.h',
     [('rcutils_logging_initialize_with_allocator', 'src/logging.c'), ('rcutils_logging_shutdown', 'src/logging.c'), ('RCUTILS_LOGGING_AUTOINIT', 'include/rcutils/logging.h')], [('g_rcutils_logging_initialized and the other globals', 'logging state', 'src/logging.c')], ['levels, handler, formatted output, allocator bookkeeping'],
     'stateful model-based random testing')
prop('C32', 'Invalid arguments are refused and change nothing',
     'A call in which a required pointer is missing, an object is only zero-initialized, an index, size or capacity is out of range, or an allocator lacks functions, is refused with the documented status (or nothing, false, or not found) and an error message where the function sets one. '
     'It writes no result, uses no allocator, changes no object, and does not crash.',
     'inputs configurations', 'every public function that checks its arguments, every such argument, any valid values of the others and any missing allocator functions', 'the tests pass invalid values for some functions only, and never look whether something was changed or allocated',
     'include/rcutils/error_handling.h include/rcutils/allocator.h src/array_list.c src/hash_map.c src/string_map.c src/string_array.c src/char_array.c src/uint8_array.c src/filesystem.c src/shared_library.c src/time.c src/logging.c',
     [('RCUTILS_CHECK_ARGUMENT_FOR_NULL, RCUTILS_CHECK_ALLOCATOR', 'include/rcutils'), ('ARRAY_LIST_VALIDATE_ARRAY_LIST, HASH_MAP_VALIDATE_HASH_MAP', 'include/rcutils/types')], (), ['status, error state, objects, allocator bookkeeping'],
     'random testing over a table of invalid argument positions, all objects compared afterwards')
prop('C33', 'Executable name, error text and process id are those of the process',
     'The executable name is the part of the invocation name after its last slash, whole, at any length; the text of the current error number is the C library\'s, cut to the buffer and terminated, with nothing written behind; the process id is that of the process. An allocation that fails gives nothing and loses nothing.',
     'inputs configurations fault_sequences', 'every invocation name, error number and buffer size', 'tests ask once', 'src/process.c src/strerror.c include/rcutils/process.h include/rcutils/strerror.h',
     [('rcutils_get_executable_name', 'src/process.c'), ('rcutils_strerror', 'src/strerror.c')], (), ['strings'], 'random testing against string equations')
prop('C34', 'Atomic operations are indivisible and return what they should',
     'Loading, storing, exchanging, adding and comparing-and-exchanging an atomic object returns and leaves exactly what the same operation on a plain variable would, for every value of every supported type, with the compiler\'s own header as with the bundled one; an atomic flag is taken by the first to ask for it. '
     'When several threads use one object at once, every operation takes effect exactly once and none is lost, and what a thread wrote before it released another is visible to that one; all threads see the operations on all objects in one order.',
     'histories inputs schedules', 'all values; up to four threads at once', 'the tests only compile them and use one thread', 'include/rcutils/stdatomic_helper.h include/rcutils/stdatomic_helper/gcc/stdatomic.h',
     [('rcutils_atomic_* macros and functions', 'include/rcutils/stdatomic_helper.h')], (), ['returned values, sums, token, message, order and mutual exclusion checks'],
     'model-based random testing, plus randomized concurrent runs with linearizable invariants and generated litmus tests, under the thread sanitizer')
prop('C35', "A thread's error state is its own",
     'Whatever other threads set, reset, read or fail in at any time, also as they start and end, each thread sees exactly the error state its own calls produced.',
     'schedules histories', 'every schedule of up to four threads over error state operations and failing library calls', 'the tests use a single thread', 'src/error_handling.c include/rcutils/error_handling.h',
     [('RCUTILS_THREAD_LOCAL error state', 'src/error_handling.c')], [('gtls_*', 'thread-local error state, string and set flag', 'src/error_handling.c')], ['error state in every thread'],
     'generated schedules with a baton over real threads, a model per thread, plus concurrent phases')

prop('C36', 'Threads that use the library on things of their own do not disturb each other',
     'Once logging is initialized, threads that call the library at the same time, each on objects, strings and files of its own, or that log at the same time, get the results they get alone, without data races; every message arrives once and whole, in the order of its thread.',
     'schedules inputs', 'every schedule of threads over every function that does not by its purpose change state of the whole process', 'the tests use a single thread', 'src include/rcutils/logging.h',
     [('rcutils_log', 'src/logging.c'), ('rcutils_time_point_value_as_date_string', 'src/time.c'), ('rcutils_format_string_limit', 'src/format_string.c')],
     [('g_rcutils_logging_*', 'the only state shared by all threads, read by every log call', 'src/logging.c')], ['concurrent use on separate objects', 'concurrent logging'],
     'generated programs run at once in several threads and then each alone (differential), under the thread sanitizer')

prop('C37', 'The error state tells of failures, and only of failures',
     'A call that succeeds leaves no error of its own: none is set where none was, and an earlier one stays (a string map that has to grow may drop it). Lookups in hash and string maps, copies of strings and formatted strings set none even when they fail, as documented. '
     'A call of a container, split, shared library or logging function that fails for want of memory sets one, with a message, replacing an earlier one.',
     'inputs fault_sequences', 'every sequence of calls, every allocation that may fail, with and without an earlier error', 'tests rarely look at the error state and never after a success', 'src',
     [('rcutils_string_map_get', 'src/string_map.c'), ('rcutils_array_list_add', 'src/array_list.c'), ('rcutils_char_array_resize', 'src/char_array.c'), ('rcutils_hash_map_set', 'src/hash_map.c')],
     [('gtls_rcutils_error_state', 'the error state of the thread', 'src/error_handling.c')], ['error state after each call'],
     'generated call scripts with injected allocation failures, the error state compared with what each outcome permits')

NOTE = ('Random generated-input search with an explicit oracle, counted and shrunk; shows the absence of violations among the '
        'generated cases only. Trusts the oracle in props/%s.cpp, clang\'s sanitizers and the C library.')


def main():
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in P:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           technique='property-based testing: ' + p['technique'], level=p['level'],
                           level_note=p['note'] or NOTE % p['id']))
    m = dict(version=1, setup_cmd='python3 check.py --build-all', checks=checks, not_applicable=[],
             notes='The checks need no hooks in /repo. See DESIGN.md.')
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
    try:
        import jsonschema
        s = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(m, s)
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(H, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), s)
    except ImportError:
        pass
    for p in P:
        assert len(p['title']) <= 80, p['id']


main()
