CHECKS = {
    'R01': ('c_rb', 'r01'),
    'L01': ('c_seq', 'l01'),
    'Q01': ('c_seq', 'q01'),
    'A01': ('c_seq', 'a01'),
    'K01': ('c_seq', 'k01'),
    'T01': ('c_seq', 't01'),
    'B01': ('c_buf', 'b01'),
    'S01': ('c_buf', 's01'),
    'H01': ('c_hmap', 'h01'),
    'H02': ('c_hmap', 'h02'),
    'H03': ('c_hmap', 'h03'),
    'J01': ('c_json', 'j01'),
    'J02': ('c_json', 'j02'),
    'J03': ('c_json', 'j03'),
    'M01': ('c_misc', 'm01'),
    'M02': ('c_misc', 'm02'),
    'I01': ('c_misc', 'i01'),
    'E01': ('c_b64', 'e01'),
    'U01': ('c_uri', 'u01'),
    'U02': ('c_uri', 'u02'),
    'X01': ('c_json', 'x01'),
    'F01': ('c_sys', 'f01'),
    'V01': ('c_sys', 'v01'),
    'P01': ('c_sys', 'p01'),
    'G01': ('c_sys', 'g01'),
    'N01': ('c_net', 'n01'),
    'W01': ('c_tests', 'w01'),
    'W02': ('c_tests', 'w02'),
    'C01': ('c_config', 'c01'),
    'C02': ('c_config', 'c02'),
    'C03': ('c_config', 'c03'),
    'D01': ('c_mem', 'd01'),
    'Y01': ('c_repl', 'y01'),
    'G02': ('c_carpal', 'g02'),
}
COMMON = (' Binding: histories covering every transition of the explored state graph plus seeded random longer histories are executed '
          'on the real code (AddressSanitizer build of the working tree) and every recorded result is validated by TLC against the '
          'specification; a rejection is confirmed by a second execution. Trusted: TLC, the compiler and sanitizer, the driver '
          'that reports results through the public API. Beyond the enumerated bounds the assurance is that of the sampled histories.')
NOTES = {
    'G02': 'TLC explores functions made of macro statements (every form, level, truth value, statement position) and states which expressions are evaluated, '
           'which way out is taken and which message is delivered; the same functions are generated as C, compiled in three configurations and '
           'compared, with messages around the size limit, error codes, hooks and `die` in a child process.' + COMMON,
    'G01': 'TLC explores hook/lock/unlock installation and log calls (every severity, error codes, texts around the size limit, failing '
           'conversions); replayed with recording hooks, locks and a wrapped syslog.' + COMMON,
    'N01': 'TLC explores addresses (schemes, hosts, ports, options), the attempts made for them under every planned failure, and every schedule of a '
           'pending connection; replayed over a simulated kernel, clock and resolver (only numeric hosts and two names).' + COMMON,
    'W01': 'TLC explores every schedule of every dependency graph of 3 (thorough: 4) cases under every bound, and small programs of suites; all graphs '
           'of up to 3 cases and random programs are run by the real runner with start/end of each case logged across processes, failing '
           'fork, interrupted or childless wait; which real schedules occur is up to the operating system.' + COMMON,
    'W02': 'Same programs with more failing outcomes: returns, signals, abort, exits, corrupted memory; text and XML reports are parsed by a '
           'strict reader and compared with what each case did.' + COMMON,
    'P01': 'TLC explores password sources (duplicates, prefixes, empty fields, comments), both modes, hashing, changes of the source, failing '
           'reloads and notifications; replayed through callbacks and through files (change times controlled by the driver).' + COMMON,
    'F01': 'TLC explores the file system specification (four names: files, hard links, a symbolic link, a directory) with a fault in any '
           'step of copy/move/remove; replayed with wrapped system calls and file sizes around every buffer boundary.' + COMMON,
    'V01': 'TLC explores scripts of assignments (literal, from another variable, conditional, default; exported or not) and their effect on '
           'the environment, faults of the helper included; replayed as shell scripts with values and file names of any length and characters.' + COMMON,
    'R01': 'TLC explores the ring buffer specification exhaustively for capacities up to 4 units and all request sizes; both backings replayed.' + COMMON,
    'L01': 'TLC explores all list histories up to 4 (thorough: 5) items.' + COMMON,
    'Q01': 'TLC explores the abstract priority queue together with a binary-heap refinement (design-level invariant) up to capacity 5 (thorough: 7).' + COMMON,
    'A01': 'TLC explores arrays with several indices/values and wrong-type accessors; replayed with every pair of element types.' + COMMON,
    'K01': 'TLC explores list/tailq/circleq histories over 4 (thorough: 5) elements, with removal during safe traversal.' + COMMON,
    'T01': 'TLC explores push-bottom, push-top, randomised (nondeterministic shape) and rebalanced trees up to 5 (thorough: 6) nodes with '
           'the tree structure as a refinement of the sorted multiset.' + COMMON,
    'B01': 'TLC explores growable buffers (append, reserve, set, printf, shrink, load/save incl. I/O faults through wrapped calls).' + COMMON,
    'S01': 'TLC explores string objects over a small alphabet with growth, self copy and failing calls.' + COMMON,
    'H01': 'TLC explores maps with colliding hashes for chain and linear probing, all insert/delete/resize histories in the bound.' + COMMON,
    'H02': 'TLC explores bounded maps for every discard policy; the designated victim is a function of the recorded history.' + COMMON,
    'H03': 'TLC tracks the owner of every key/value through copy, overwrite, eviction, clear; releases are counted by the driver callbacks.' + COMMON,
    'X01': 'The lexer is specified character by character; TLC enumerates short texts and operations.' + COMMON,
    'J01': 'A recursive-descent grammar in TLA+ decides every enumerated short text and every mutated/seeded longer text.' + COMMON,
    'J02': 'TLC enumerates small trees; encode/decode round trips are compared with the tree.' + COMMON,
    'J03': 'TLC explores tree edits, removals, iteration and by-name cache use over small forests.' + COMMON,
    'M01': 'Each helper is a TLA+ function over byte sequences; enumerated exhaustively on short inputs, sampled on long ones.' + COMMON,
    'M02': 'Conversions are specified on the decimal text with the platform limits; errno state left by earlier calls is part of the history.' + COMMON,
    'I01': 'The kernel is an adversarial environment in the specification (partial counts, EINTR, errors, EOF at every step); the driver replays it through wrapped read/write.' + COMMON,
    'E01': 'The codec is specified byte by byte; TLC enumerates short inputs and all malformed short texts, longer ones are sampled.' + COMMON,
    'U01': 'RFC 3986 decomposition is written in TLA+ (appendix B split, then one production per component); TLC enumerates short texts over delimiter alphabets, lengths and every byte per component are added.' + COMMON,
    'C01': 'The text language is a TLA+ loader over characters; TLC enumerates all texts of up to 6 tokens over three alphabets (checking layout independence and save/load laws on each), other texts, line lengths and bytes are sampled; every way of loading is replayed.' + COMMON,
    'C02': 'TLC explores all edit histories of trees with up to 2 entries (thorough: 3) with lookups, saving and reloading as self loops, and checks the lossless law in every state.' + COMMON,
    'C03': 'TLC enumerates include graphs over three resources with a failing open or close at every position; replayed through a counting driver and on the real file system, with allocation failures.' + COMMON,
    'D01': 'Every component specification is extended with "this memory request is refused": the operation then either fails with its documented effect '
           '(nothing, for most) or completes. TLC explores the extended graphs of six components; the k-th request of one operation is refused for '
           'every small k, some operations are repeated afterwards, objects are created and released under a live-allocation count; the settings tree and the '
           'network addresses are covered in C01-C03 and N01. mmap and stdio requests are outside the replaceable allocator.' + COMMON,
    'Y01': 'Shell patterns, tokens, bounded copies, the proleptic calendar, temporary files and daemons are specified in TLA+; TLC enumerates all short '
           'patterns and texts over four alphabets with all 32 flag combinations, all short token/temporary file histories, and checks the calendar laws day by day; '
           'the replacements are compiled as on a system without the standard ones. Replacements that only build on Windows are left out.' + COMMON,
    'U02': 'TLC proves on the enumerated texts that composition inverts parsing, and explores object histories (parse, setters in any order, compose).' + COMMON,
}
NA = {}
