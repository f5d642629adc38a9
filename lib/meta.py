"""Everything written about each property: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
ABS = ("Path-sensitive abstract interpretation of the type-checked, callee-resolved MIR (a rustc driver dumps it from the current tree): helpers, closures, macros and core/alloc combinators are inlined, "
       "undecided branches are followed both ways, operands carry provenance. ")
REPLAY = ABS + "Every abstract path of every variant is replayed against a written specification of that variant: which sub-evaluations may happen, on which operands, in which state, in which order, and which result and final URL/scratchpad follow. "
LOOPS = "Loops are followed for up to 3 elements (the loop bodies carry no other state), so a fault that needs a 4th element in a way the first three do not show would be missed. The url, regex, reqwest, sqlite and std crates are trusted to do what their documentation says."
P = {}
def prop(pid, title, statement, over, text, why, files, mech, technique, note, rule=REPLAY, level='other', assumptions=None):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, rule=rule, level=level, assumptions=assumptions or [])

prop('C09', 'Each condition gives exactly its documented verdict',
     'Every kind of condition a configuration can state evaluates to its documented truth value for every URL and task state: constants, if/not/all/any (left to right, stopping at the first deciding member; an empty "all" holds, an empty "any" does not), part and string maps with their fallbacks, host and domain comparisons, query, path and part tests, flag and variable tests, string tests, and calls of named common conditions. '
     'An error in a sub-evaluation is returned as an error unless the condition is one that treats errors as pass, fail or else, and then only when its error filter accepts that error. Evaluating a condition evaluates nothing but the parts its documentation names.',
     ['inputs', 'configurations'], 'for every condition variant, every URL, task state and outcome (value, absence or error) of its parts',
     'Tests exercise a few conditions of the default configuration on ordinary URLs; the error, absence and empty-list combinations of every variant are never reached.',
     ['src/types/rules/conditions.rs', 'src/types/map.rs'], [('Condition evaluation', 'src/types/rules/conditions.rs'), ('maps with fallbacks', 'src/types/map.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of all condition variants. ' + LOOPS)
prop('C10', 'Each mapper does exactly its documented change, once, and nothing on error',
     'Every kind of mapper a configuration can state performs exactly its documented sub-evaluations in order and its documented change of the URL or scratchpad, for every URL and task state; conditionals and maps select exactly one branch, lists run in order and stop at the first error, and error-handling mappers run their alternatives only after a failure. '
     'A failing sub-evaluation is reported as an error unless the mapper is one documented to ignore or recover from errors.',
     ['inputs', 'configurations'], 'for every mapper variant, every URL, task state and outcome of its parts',
     'Tests run the default configuration on ordinary URLs; most mapper variants and nearly all error paths are never executed by them.',
     ['src/types/rules/mappers.rs'], [('Mapper application', 'src/types/rules/mappers.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of all mapper variants. ' + LOOPS)
prop('C11', 'Rules run in order, stop at the first error, and repeat until nothing changes',
     'A list of rules applies each rule in its written order and stops at the first error. A normal rule applies its mapper when its condition holds and its else-mapper otherwise; map rules apply exactly the entry selected by the part or string with the documented fallbacks; a shared condition is evaluated once. '
     'A repeat applies its rules until a round changes neither the URL nor the scratchpad, and never more often than its limit.',
     ['inputs', 'configurations', 'histories'], 'for every rule variant, task state, outcome of its parts and limit',
     'Tests apply the default rules only; a repeat that stops early or late, or a list that continues after an error, changes nothing there.',
     ['src/types/rules.rs'], [('Rule and rule-list application', 'src/types/rules.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of all rule variants and of rule lists. ' + LOOPS)
prop('C12', 'Each string source yields exactly its documented value',
     'Every kind of string source yields exactly its documented value for every task state: absent values stay absent unless the source is documented to replace them, errors are returned unless it is documented to absorb them, alternatives are consulted only when the first choice fails or is absent, and lookups use the named map, partitioning, variable or URL part and no other. '
     'A join is absent as soon as one member is absent.',
     ['inputs', 'configurations'], 'for every string source variant, every task state and outcome of its parts',
     'Tests reach a handful of sources with present values; absence and error combinations of every variant are not sampled.',
     ['src/types/string_source.rs', 'src/types/map.rs', 'src/types/named_partitioning.rs'], [('String source evaluation', 'src/types/string_source.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of all string source variants. ' + LOOPS)
prop('C08', 'Reverting and moving operations are all-or-nothing',
     'A mapper or string modification that is documented to revert on error leaves the URL, the scratchpad or the string exactly as it found them when the wrapped operation fails, and still reports the error. Moving one URL part to another either copies and clears, or changes nothing.',
     ['inputs', 'fault_sequences'], 'for every wrapped operation, whatever it changed before failing, and every URL',
     'Tests contain no failing operation under a reverting wrapper; a revert that forgets the scratchpad or restores too late passes them.',
     ['src/types/rules/mappers.rs', 'src/types/string_modification.rs'], [('reverting mapper and part move', 'src/types/rules/mappers.rs'), ('reverting string modification', 'src/types/string_modification.rs')],
     'path-sensitive abstract interpretation of MIR with a havoc model of the wrapped operation; final-state comparison', 'The wrapped operation may change everything it can reach; the state after the error path must be the saved one. ' + LOOPS)
prop('C17', 'Common calls run the named item in the caller\'s state with only their arguments',
     'Calling a named common rule, mapper, condition, string source, string modification or string matcher evaluates exactly the item of that name and kind, in the caller\'s URL, context, params, scratchpad, cache, commons and job context, with the call\'s own arguments in place of the caller\'s arguments; an unknown name is an error. '
     'The arguments are computed in the caller\'s scope: every declared flag, variable and common item is passed on under its own name, and a variable whose value is absent is an error.',
     ['configurations', 'inputs'], 'for each of the six call sites, every set of commons, arguments and caller state',
     'The six call sites rebuild the state field by field; tests use few common calls and none that would notice a wrong field or a leaked argument.',
     ['src/types/rules.rs', 'src/types/rules/mappers.rs', 'src/types/rules/conditions.rs', 'src/types/string_source.rs', 'src/types/string_modification.rs', 'src/types/string_matcher.rs', 'src/types/config/commons.rs'],
     [('common call sites', 'src/types/rules.rs'), ('argument building', 'src/types/config/commons.rs')],
     'path-sensitive abstract interpretation of MIR; field-by-field comparison of the forwarded state', 'All six call sites and the argument builder. ' + LOOPS)
prop('C18', 'The cache is used only as allowed, with one key per computation',
     'A cached computation reads the cache only when reading is enabled and uses a found entry instead of computing, without computing; otherwise it computes. After a successful computation, and only then, it stores the result if writing is enabled, under the same category and key that were looked up, the key being the URL as it was before the computation.',
     ['configurations', 'histories', 'fault_sequences'], 'for every cached operation, both cache switches, every cache content and every failure of the computation',
     'Tests run with an empty in-memory cache and without network, so hits, disabled switches and failing computations are not exercised.',
     ['src/types/rules/mappers.rs', 'src/types/string_source.rs', 'src/glue/caching.rs'], [('redirect and URL caching', 'src/types/rules/mappers.rs'), ('string caching', 'src/types/string_source.rs')],
     'path-sensitive abstract interpretation of MIR; must/must-not-precede rules on cache events', 'All paths of the three cached operations. ' + LOOPS)
prop('C13', 'Each string modification does its documented change, or nothing when it fails',
     'Every kind of string modification computes exactly its documented new value of the string from the string, its parameters and the task state; lists apply in order and stop at the first error, alternatives run only after a failure, conditionals apply exactly one branch. '
     'An elementary modification that cannot be carried out (a missing prefix, segment, match, range, index or value) reports the documented error and leaves the string as it was.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every string modification variant, every string, task state and outcome of its parts',
     'Tests reach the handful of modifications the default configuration uses on ordinary values; failing parts and edge positions of every variant are not sampled.',
     ['src/types/string_modification.rs'], [('String modification', 'src/types/string_modification.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of all string modification variants, and all 128 ASCII characters of every percent-encoding alphabet. ' + LOOPS)
prop('C14', 'String, location and character matchers give their documented verdict',
     'Every kind of string matcher, string location and character matcher evaluates to its documented truth value for every string, character and task state: combinators are evaluated left to right and stop at the deciding member, positions are counted in the string that is searched, lists and sets are the named ones. '
     'Failures (a missing segment, list, value, an invalid slice or radix) are errors, never panics or verdicts, unless the matcher is documented to treat errors as a verdict.',
     ['inputs', 'configurations'], 'for every matcher, location and character matcher variant, every string, character and outcome of its parts',
     'Tests reach few matchers, with matching values; error combinations and out-of-range parameters are not sampled.',
     ['src/types/string_matcher.rs', 'src/types/string_location.rs', 'src/types/char_matcher.rs'], [('String matching', 'src/types/string_matcher.rs'), ('location matching', 'src/types/string_location.rs'), ('character matching', 'src/types/char_matcher.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of all variants of the three matcher types. ' + LOOPS)
prop('C33', 'Negative positions count from the back, and out-of-range positions are absent',
     'Everywhere a configuration gives a position or range (segments, characters, slices), a non-negative position counts from the start and a negative one from the end; a position outside the sequence is absent, a range is absent when a boundary is outside the sequence or the end precedes the start, and the end is exclusive. '
     'Setting, removing or inserting relative to a segment changes exactly that segment, and a missing segment is an error only if something was to be put there.',
     ['inputs'], 'for every position, range and sequence length',
     'The unit tests of these helpers sample one short list; boundary positions of other lengths and the segment setter are not covered.',
     ['src/util.rs'], [('index helpers', 'src/util.rs')],
     'path-sensitive abstract interpretation of MIR with interval facts, replayed against specifications', 'All paths of neg_index, neg_range_boundary, neg_range, neg_nth, neg_vec_keep and set_rel_segment in every instance; integer casts are taken as value-preserving. ' + LOOPS)
prop('C06', 'The stored host details always describe the current host',
     'At every moment the host details kept beside a URL (kind of host, where the registrable domain and the suffix start, whether there is a trailing period) are those of the URL\'s current host, whatever sequence of parsing, copying and setting led there. '
     'So each domain part read from a URL is exactly the slice of its host that the public suffix list defines, and is absent when there is no such part.',
     ['inputs', 'histories'], 'for every URL and every sequence of operations on it',
     'Tests look at ordinary https domains after one setter; other schemes, hosts that are normalised when set and sequences of setters are not sampled.',
     ['src/types/better_url.rs', 'src/types/better_url/host_details.rs', 'src/types/better_url/host_details/domain.rs'], [('URL wrapper', 'src/types/better_url.rs'), ('host details', 'src/types/better_url/host_details.rs'), ('domain part positions', 'src/types/better_url/host_details/domain.rs')],
     'who-may-write enumeration over MIR plus path-sensitive abstract interpretation of every writer (class invariant)', 'Every function that assigns, mutably borrows or builds the two fields is enumerated and must leave them coherent on every path, which makes the invariant inductive. Trusted: the url crate changes the host only in the setters named for it and leaves a URL alone when it reports an error; psl returns tails of its argument. ' + LOOPS,
     rule='Class invariant: every function of the crate that assigns, mutably borrows or constructs the url/host_details pair is found in MIR; every abstract path through it must end with host_details equal to the details of Url::host of the final url (or with both untouched, or with only host-preserving url calls). The computation of the details, the part bounds and the accessors are replayed against their specification.')
prop('C07', 'Setting one domain part keeps the other parts and fails without a change',
     'Setting the subdomain, registrable domain, domain middle, suffix, everything before the suffix, the whole domain or the trailing period replaces exactly that part: the labels before and after it, and the trailing period, are kept in place. When the host is not a domain, or the neighbouring part that must follow is missing, it is the documented error and the URL is unchanged. '
     'The remaining URL setters set exactly the component they are named after and report a refusal as their error.',
     ['inputs'], 'for every URL, every part and every value, present or absent',
     'Tests cover ordinary two-label domains; the trailing-period, absent-neighbour and non-domain combinations of each setter are not all sampled.',
     ['src/types/better_url.rs'], [('domain setters', 'src/types/better_url.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-function specifications', 'All paths of the 17 setters, in terms of the parts the accessors return. Values are compared as concatenation terms. ' + LOOPS)
STRUCT = "Final values are compared field by field; collections are described by the ordered effects on them. "
prop('C27', 'Every URL part reads and writes exactly the component it names',
     'Reading a URL part yields exactly the named component of the current URL, or nothing when the URL has no such component. Setting a part to a value, or to nothing, changes exactly that component as documented and leaves all others alone; a part that cannot be set, cannot be removed or cannot be created there is the documented error, and then the URL is unchanged.',
     ['inputs'], 'for every URL part a configuration can name, every URL and every value, present or absent',
     'Tests read and set a few parts of ordinary URLs; most of the 35 parts, removal, negative positions and refused settings are not sampled.',
     ['src/types/url_part.rs', 'src/util.rs'], [('URL part reading and setting', 'src/types/url_part.rs'), ('segment setting', 'src/util.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of get and set of every part; the state on error paths is compared too. Query and path strings are compared as terms of the pairs and segments the url crate yields. ' + LOOPS)
prop('C28', 'A flag or variable is read from the named store only',
     'A flag reference is true exactly when the flag of that name is in the named store (the params, the current common call arguments, the scratchpad), and a variable reference yields exactly the value under that name in the named store (params, job context, task context, common call arguments, scratchpad, environment) or nothing. '
     'A common-argument reference outside a common call and a non-UTF-8 environment variable are errors; the name is evaluated once, in the current task state.',
     ['inputs', 'configurations'], 'for every store, name and task state',
     'Stores share names and types, so a lookup in the wrong one compiles; tests mostly use params.',
     ['src/types/flag_var_thing/flag.rs', 'src/types/flag_var_thing/var.rs'], [('flag lookup', 'src/types/flag_var_thing/flag.rs'), ('variable lookup', 'src/types/flag_var_thing/var.rs')],
     'path-sensitive abstract interpretation of MIR, replayed against per-variant specifications', 'All paths of the two lookups and the two references. ' + LOOPS)
prop('C15', 'An error filter accepts exactly the kinds of error it lists',
     'A condition that treats errors specially does so exactly for the errors its filter accepts: without a filter all of them, with a filter those whose kind is listed, each error having its own kind. Every other error is returned unchanged, and a value is never changed.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every kind of condition error and every filter',
     'Tests contain no error filter; a kind that maps to another, or an inverted filter, changes nothing there.',
     ['src/types/rules/conditions.rs', 'src/types/error_behavior.rs', 'url-cleaner-macros/src/error_names.rs'], [('error kinds and filters (derived)', 'url-cleaner-macros/src/error_names.rs'), ('error-handling conditions', 'src/types/rules/conditions.rs'), ('error behaviour', 'src/types/error_behavior.rs')],
     'path-sensitive abstract interpretation of MIR (after macro expansion), one obligation per error kind', 'All paths. ' + LOOPS)
prop('C20', 'The HTTP client is built from all of its configuration and exactly that',
     'Every network request uses a client built from the params\' HTTP client configuration as changed by the request\'s own diff: default headers, redirect policy, https-only, referer, every proxy with its mode and credentials, every extra certificate, and no proxies at all (not even those of the system) when proxies are turned off. '
     'A diff changes exactly the settings it mentions: given values replace, additions add, removals are applied after additions. A proxy or certificate that is not valid is an error, not a client without it.',
     ['configurations'], 'for every configuration and diff',
     'Tests have no network, so no client is ever built; a dropped or swapped setting would go unnoticed.',
     ['src/glue/http_client_config.rs', 'src/glue/proxy.rs', 'src/types/job/task_state.rs'], [('client building and diffs', 'src/glue/http_client_config.rs'), ('proxies', 'src/glue/proxy.rs'), ('client of a task', 'src/types/job/task_state.rs')],
     'path-sensitive abstract interpretation of MIR with effect models of collections and builders, replayed against specifications', STRUCT + 'Proxies, certificates and additions are followed for 1 element (2 in the thorough tier). The reqwest builder is trusted to honour each option.')
prop('C21', 'A params diff changes exactly what it names, additions before removals',
     'Applying a params diff to params adds exactly the named flags and variables and then removes the named ones; creates the named sets and maps that do not exist, inserts into and then removes from exactly the named sets and maps, and finally deletes the named ones; and changes the cache switches and the HTTP client configuration only when the diff mentions them. Everything else in the params stays as it was.',
     ['configurations'], 'for every params and every diff',
     'Tests apply hardly any diff; one that touches the wrong store, removes before it adds or drops a setting is not noticed.',
     ['src/types/config/params.rs', 'src/types/map.rs'], [('params diffs', 'src/types/config/params.rs'), ('map diffs', 'src/types/map.rs')],
     'path-sensitive abstract interpretation of MIR with effect models of collections, replayed against specifications', STRUCT + 'Each slot is followed alone for 2 elements (3 in the thorough tier) and together with every other slot for 1. Elements of one collection under different names are taken as different.')
prop('C22', 'Every params argument on the command line reaches the params diff',
     'Each flag, unflag, var, unvar, set, map, cache and proxy argument given on the command line, however often and in whatever combination, ends up in the params diff under its own name with its own values and nothing else does; malformed arguments are the documented error. '
     'The diff is applied whenever at least one such argument is given.',
     ['inputs'], 'for every combination and repetition of arguments',
     'Tests never run the command line with such arguments; repeated arguments, single switches and malformed groups are not sampled.',
     ['src/types/config/params.rs', 'src/main.rs'], [('argument groups to diff', 'src/types/config/params.rs'), ('application in the CLI', 'src/main.rs')],
     'path-sensitive abstract interpretation of MIR with effect models of collections, replayed against specifications', STRUCT + 'Each argument kind is followed alone for 2 occurrences of up to 4 values (3 occurrences in the thorough tier) and together with every other kind for 1. clap is trusted to fill the fields as declared.')
MAIN = ABS + ("The program is interpreted as a network of threads and FIFO channels with 1, 2 and 3 workers (thorough: up to 5); since the threads share nothing but one-producer one-consumer channels and cells that one thread writes - "
       "which is checked - the streams do not depend on the schedule, so one schedule stands for all. For every abstract path the printed text and the returned code are compared with a specification of the inputs' outcomes.")
MAINLIM = ("Up to 2 (thorough: 3) arguments and as many stdin lines, each with every outcome; the thread code treats all elements alike. TaskConfig::from_str and Task::do are opaque here. Standard input is assumed to be readable (an input line may fail to decode); "
           "std's channels, threads and printing, clap and serde_json are trusted; a panicking worker is outside this property.")
prop('C01', 'Output lines correspond to inputs in order, one per input, under any schedule',
     'For any number of worker threads and any interleaving, the inputs are the command-line URLs followed by the lines of standard input, the nth line of standard output belongs to the nth input and is the cleaned URL, or empty if and only if that input failed, and the nth non-empty line of standard error, which takes exactly one line, describes the nth failure.',
     ['schedules', 'inputs'], 'for every schedule of the threads, every number of inputs and every combination of their outcomes',
     'No test runs the command-line program; lost, duplicated or reordered lines depend on the number of threads, the mixture of failures and the schedule.',
     ['src/main.rs'], [('task distribution and output', 'src/main.rs')],
     'abstract interpretation of the thread network (Kahn determinism checked), replayed against an output specification', MAINLIM, rule=MAIN)
prop('C02', 'The exit code tells whether cleanings worked and failed',
     'The program exits with 0 when no cleaning failed, with 1 when some failed and none worked, and with 2 when some worked and some failed, in text and in JSON mode, for any number of threads.',
     ['schedules', 'inputs'], 'for every schedule and every combination of outcomes',
     'No test runs the command-line program at all.',
     ['src/main.rs'], [('exit code', 'src/main.rs')],
     'abstract interpretation of the thread network (Kahn determinism checked), replayed against an output specification', MAINLIM, rule=MAIN)
prop('C03', 'JSON output is well formed and lists every input in order',
     'With --json the output is one well-formed JSON object whose list has exactly one entry per input in input order: the cleaned URL, the error of the cleaning, or the error of making the task, with every message and debug text encoded as a JSON string, and nothing is written to standard error.',
     ['schedules', 'inputs'], 'for every schedule and every combination of outcomes, whatever characters the messages contain',
     'No test produces JSON output; a missing comma or quote shows only for particular mixtures of outcomes.',
     ['src/main.rs'], [('JSON output', 'src/main.rs')],
     'abstract interpretation of the thread network (Kahn determinism checked), replayed against an output specification', MAINLIM, rule=MAIN)
prop('C16', 'Cleaning one URL cannot influence the cleaning of another',
     'Every task starts from its own URL and context, an empty scratchpad, no common-call arguments, and the parameters, commons, job context and cache of its job, applies the rules of its configuration exactly once, and returns its own URL or the error; a job makes one task per task configuration in order. '
     'Apart from the cache, nothing a task does is visible to another task: the configuration they share contains only write-once cells filled from the configuration itself, and there is no other mutable global state.',
     ['histories', 'schedules', 'inputs'], 'for every sequence of tasks, every schedule and every configuration',
     'Tests clean URLs one at a time and compare one result; state leaking from one task to the next shows only in particular sequences.',
     ['src/types/job/task.rs', 'src/types/job/job.rs', 'src/types/job/task_config.rs', 'src/types/job/task_state.rs', 'src/glue/regex.rs'], [('Task::do and JobConfig::new_task', 'src/types/job/task.rs'), ('Job::iter', 'src/types/job/job.rs'), ('lazily compiled regexes', 'src/glue/regex.rs')],
     'abstract interpretation of task construction against specifications; ownership/interior-mutability analysis of statics and types', 'All paths of task construction; every static, every field type and every writer of a write-once cell of the crate. Unsafe code is forbidden by the crate. The cache is shared by design. ' + LOOPS,
     rule=REPLAY + 'Every static and every field of every type of the crate is classified (immutable, write-once, mutable cell); mutable cells other than the cache are violations, as is a function that fills a write-once cell and takes task state.')
prop('C05', 'No text, URL, configuration or answer from outside makes the library panic',
     'Whatever URL is cleaned, whatever configuration that parses is applied to it, and whatever a server, a command, the environment or the cache answers, no function of the library panics or ends the process: every failure is an error value. Slices and positions stay inside the text or list they are taken from and on character boundaries, and nothing is unwrapped that can be absent. (The suitability assertions panic by design.)',
     ['inputs', 'faults'], 'for every input text, however short, long or multi-byte, every configuration and every outcome of an outside operation',
     'Unit tests reach a panic only with the particular index, length or multi-byte character that provokes it.',
     ['src/util.rs', 'src/types', 'src/glue'], [('index helpers', 'src/util.rs'), ('string modifications', 'src/types/string_modification.rs'), ('URL parts and setters', 'src/types/better_url.rs'), ('text formats', 'src/glue/parse')],
     'path-sensitive abstract interpretation of MIR: every diverging call, failed assertion and partial std operation with the facts known on its path', 'Panics inside other crates are out of sight except for the partial operations of std (indexing, slicing, removing, unwrapping, radix, division, borrow). Arithmetic overflow (which panics in debug builds only), exhausted memory, deep recursion and locks poisoned by another panic are not covered. Loops are followed twice, the second time with everything the loop changes unknown. The private tag tokenizer is decided in C30. Functions are entered with arbitrary arguments; a private function that needs more is judged with its callers.',
     rule='Every non-derived function and every closure of the library is interpreted with arbitrary arguments; at each diverging call (panic, unwrap, expect, unreachable, exit), each bounds or division assertion, and each std operation that panics for some arguments, the facts of the path must exclude the panic.')
prop('C30', 'HTML text, HTML attributes and JavaScript strings decode as documented',
     'A JavaScript string literal at the start of a text decodes to the string it denotes in JavaScript, ending at its closing quote; HTML text decodes by replacing each &name; or &#number; with the characters the HTML standard gives it; the value of an attribute of the start tag a text begins with is that of the last attribute with exactly that name, decoded, and no value or no attribute are told apart. Malformed input is an error, never a wrong value or a panic.',
     ['inputs'], 'for every input text, however malformed',
     'The unit tests try a handful of literals and tags; which characters end a name, which escapes are known and what a multi-byte character does to positions depend on the particular text.',
     ['src/glue/parse/html/get_attribute.rs', 'src/glue/parse/html/unescape.rs', 'src/glue/parse/js/string_literal_prefix.rs'], [('tag tokenizer', 'src/glue/parse/html/get_attribute.rs'), ('character references', 'src/glue/parse/html/unescape.rs'), ('string literals', 'src/glue/parse/js/string_literal_prefix.rs')],
     'path summaries of the text automata extracted from MIR by abstract interpretation, compared with reference semantics on every character class a path distinguishes',
     'Texts are families "prefix + up to 3 to 5 arbitrary characters" (one more in the thorough tier) with prefixes that reach every state of the automata; longer texts repeat those states. Not specified: unterminated literals, octal escapes not of three digits, line terminators in literals, braces with more than five digits, form feeds in tags, characters the standard accepts with a parse error. Paths whose conditions the evaluator does not know are reported as undecided, not as violations.',
     rule='For each family of texts the analysis enumerates every path of the function through its MIR with symbolic characters; for every path the result expression and the path condition are evaluated for each class of characters the condition leaves open and compared with the reference. All 2125 named references are compared with the HTML table.')
prop('C36', 'The cache returns what was last written and keeps other entries',
     'Reading a category and key from the cache returns the value last written for exactly that category and key (a written absence is told apart from no entry), reading changes nothing, and writing replaces only that entry: all others stay as they were. When any step fails the caller gets an error and the stored entries are as before. '
     'Connecting opens the configured path, creates the table if it is missing, never truncates or replaces an existing database, and a cache that failed to connect is not taken for connected.',
     ['histories', 'faults', 'inputs'], 'for every content of the cache, every sequence of reads and writes, and every failing database or file operation',
     'No test opens a cache database; overwriting, entries that share a category or a key, an existing file without the table and failures half-way show only in particular histories.',
     ['src/glue/caching.rs'], [('InnerCache::connect, read and write', 'src/glue/caching.rs'), ('Cache::read and write', 'src/glue/caching.rs')],
     'abstract interpretation of MIR into the SQL statements of every path, each evaluated on small tables against a keyed store', 'What the database engine does with a statement (diesel, SQLite) is modelled for filter, select, limit, order, insert, update and delete; a statement outside that is reported as not evaluated. Tables of up to three entries, which tell same/other category, key and value apart. Concurrent processes sharing one database file are not covered.',
     rule='Every path of read and write is turned into its sequence of SQL statements with the outcome of each; on each table the statements are applied (a transaction is undone when it fails) and the result and the table are compared with a keyed store. Every path of connect must open the configured path, check that the table could be created, and keep the connection only then.')
prop('C34', 'HTTP requests carry what is configured and answers are read as configured',
     'A request goes to the URL its source evaluates to, with the configured method, through the client of its task with the configured changes; it has every header whose value is present and no other, and the configured body: the text, the form fields that are present, or the JSON value with every string evaluated in place (any JSON value can be configured). '
     'The value of the answer is its body, the named header, its final URL or the named cookie, as configured. A value that is missing where one is needed, an invalid URL or header, a failed request or a missing header or cookie is an error, and nothing is sent when making the request fails. Proxies get the configured scheme and credentials.',
     ['inputs', 'faults'], 'for every request configuration, every value of the sources in it and every answer or failure of the server',
     'No test sends a request: there is no network in the tests.',
     ['src/glue/http.rs', 'src/glue/json.rs', 'src/glue/proxy.rs'], [('RequestConfig::make, send and response', 'src/glue/http.rs'), ('RequestBody::apply and ResponseHandler::handle', 'src/glue/http.rs'), ('JSON bodies', 'src/glue/json.rs'), ('proxies', 'src/glue/proxy.rs')],
     ABS, 'What reqwest does with a builder is out of sight. Header order is that of the configuration map; a header set twice by differently-cased names is not considered. ' + LOOPS, rule=REPLAY)
prop('C35', 'The command line sets up the job it was asked for, or cleans nothing',
     'The program cleans with the configuration file given, or else the built-in default, with its params changed by every params diff file in the order given and after them by the params arguments; with the cache path given, or else the configuration\'s; and with the job context given, or else an empty one. '
     'When the configuration, a params diff file, the params arguments or the job context cannot be read or parsed, the program ends with that error and prints no cleaned URL.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every combination of present, absent, unreadable and malformed files and arguments',
     'No test runs the command-line program; which diff wins when two set the same variable is never sampled.',
     ['src/main.rs', 'src/types/config.rs'], [('job set-up', 'src/main.rs'), ('loading a configuration', 'src/types/config.rs')],
     'abstract interpretation of main and of the configuration loaders, replayed against an output specification', 'One thread and one URL; up to 2 params diff files (thorough: 3). What applying a diff, building one from arguments and cleaning mean is C21, C22 and C16. serde_json, clap and std are trusted.', rule=MAIN)
prop('C23', 'A name given twice in params, diffs, docs, contexts or maps is refused',
     'Reading params, a params diff, the docs, a job or task context, a scratchpad or a map in which a name occurs twice in the same map or set is an error, as is a query parameter named twice in a removal or allow list, and a named partitioning in which a partition name or a value occurs twice. None of them silently drops one of the two.',
     ['inputs', 'configurations'], 'for every configuration text and every position of the duplicate',
     'Tests read no text with duplicates; reading it without the guard succeeds and looks right.',
     ['src/types/config/params.rs', 'src/types/config/docs.rs', 'src/types/job/job_context.rs', 'src/types/job/task_context.rs', 'src/types/job/task_scratchpad.rs', 'src/types/map.rs', 'src/types/named_partitioning.rs', 'src/types/rules/mappers.rs'],
     [('guarded deserialisers', 'src/types/config/params.rs'), ('named partitionings', 'src/types/named_partitioning.rs')],
     'query over the type arguments of the derived deserialisers (which adapter reads each map and set), and path-sensitive abstract interpretation of the partitioning builder', 'Every map- or set-typed field of ten types and two mapper variants; all paths of the partitioning builder for up to 2 partitions of up to 2 values. That the serde_with adapters refuse duplicates is trusted.',
     rule='In the derived deserialiser of each listed type, every map or set is read through MapPreventDuplicates or SetPreventDuplicates (type arguments of the resolved calls); every path of NamedPartitioning\'s builder is replayed against its specification.')
prop('C24', 'A configuration written as JSON and read back is the same configuration',
     'Every configuration, params, task and testing type that can be written as JSON and read back keeps its value: each field and variant is written under a name that is read back into the same field or variant, through a converter that reverses the one it was written with; a field that is left out when it has some value is read, when absent, as that value. A type that can also be given as a bare string or null reads such a string as the same thing as the map with everything else left out (job tasks and globs aside), reads every bare word it writes back as the variant that wrote it, and a bare word names the variant of that name with its default settings. A params, docs, context, regex, Base64 or HTTP client settings map with everything left out is the default of that type.',
     ['inputs', 'configurations'], 'for every value of every such type (custom variants aside)',
     'Tests round-trip a few values; a renamed field, a skipped field with another default, or one bare word read as something else only shows for the values nobody serialised.',
     ['src/types/config.rs', 'src/types/rules/mappers.rs', 'src/types/rules/conditions.rs', 'src/types/string_source.rs', 'src/types/string_modification.rs', 'src/glue/json.rs', 'src/glue/caching.rs', 'src/glue/regex/regex_parts.rs', 'src/util/macros.rs', 'src/types/error_behavior.rs'],
     [('derived writers and readers', 'src/types/config.rs'), ('bare-string forms', 'src/util/macros.rs'), ('hand-written writers and readers', 'src/types/error_behavior.rs')],
     'path-sensitive abstract interpretation of the generated and hand-written serde code (MIR): extraction of what each writer emits and what each reader does with it, compared with each other', 'All variants and fields of about 60 types. That serde_json writes and reads the serde data model faithfully, and that serde_with and the HTTP and glob types convert both ways, is trusted. Custom variants (never written) are outside.',
     rule='For each type, the writer is interpreted to the list of (name, field, converter, left-out condition), and the reader on exactly those names, and again without each name that can be left out: the result must have every field back through the reverse converter, or the one value for which it is left out.')
prop('C31', 'Files, network, processes, environment and output are reached only as configured',
     'Loading a configuration and cleaning URLs reach the outside world only through the constructs documented to do so. Files are read only where a configuration, params diff or test file is loaded, and only the cache opens or creates one; environment variables are read only by an environment variable lookup and never changed; programs are started only by a configured command; '
     'requests are sent only by a configured HTTP request or a redirect expansion, and only with a client made from the configured client settings; only a retry waits. The library never writes to standard output or reads standard input, and writes to standard error only for the debug constructs; it starts no threads and never ends the process.',
     ['inputs', 'configurations'], 'for every configuration, URL and function of the library and the program',
     'A test observes only the effects it looks for; that nothing else on any path touches files, the environment, the network or the output cannot be sampled.',
     ['src/glue/http_client_config.rs', 'src/glue/http.rs', 'src/glue/command.rs', 'src/glue/caching.rs', 'src/types/flag_var_thing/var.rs', 'src/types/config.rs', 'src/types/rules/mappers.rs', 'src/main.rs'],
     [('who may call what', 'src/lib.rs')],
     'call-graph effect confinement on callee-resolved MIR with variant dominance', 'Every call or mention of an effectful operation of std, reqwest or diesel in the two crates; effects inside other foreign crates (psl, regex, clap, serde) are not looked at. unsafe code is forbidden by the crate, which is checked.',
     rule="Every call or mention of an operation of std::fs, std::env, std::process, std::net, std::io standard streams, std::thread, reqwest clients and diesel connections is followed up the resolved call graph (closures to where they are built); each way up must end at a listed construct, for functions that serve many variants in a block reached only through the listed variant.")

prop('C29', 'Regex, glob and base64 options take effect exactly as configured',
     'A regex is compiled from its pattern with every one of its nine options as configured, at most once per value, and a pattern that cannot be compiled is an error wherever it is used; one written as a bare string has the default options. Setting flags makes the options exactly those named, adding or removing flags touches only those named, and reading them back names exactly those that are on. '
     'A glob matches with its configured options. Base64 encodes and decodes with the configured alphabet and padding.',
     ['inputs', 'configurations'], 'for every pattern, every combination of options and every string of flags',
     'The tests compile a handful of patterns with default options.',
     ['src/glue/regex.rs', 'src/glue/regex/regex_parts.rs', 'src/glue/glob.rs', 'src/glue/base64.rs'], [('RegexParts::build, RegexWrapper::get and conversions', 'src/glue/regex.rs'), ('flags', 'src/glue/regex/regex_parts.rs'), ('GlobWrapper::matches', 'src/glue/glob.rs'), ('Base64Config::build', 'src/glue/base64.rs')],
     ABS, 'What regex, glob and base64 do with the options they are given is trusted. A glob written as a bare string and one written as a map have different defaults (see DESIGN.md); which of them is right is not decided.', rule=REPLAY)
prop('C37', 'External commands run what is configured and report what happened',
     'A command is the configured program with every argument in the configured order, in the configured directory, with exactly the variables whose value is present. An argument or input that is missing or fails is an error and the value of that error; nothing runs when the command cannot be built. '
     'Its exit code is the real one, and ending by a signal is an error, not a code. Its output is everything it wrote to its standard output, given the configured input if any, and its standard error is discarded; output that is not UTF-8 is an error. A URL taken from it is that output without the line ends at its end.',
     ['inputs', 'faults'], 'for every command configuration, every value of its sources and every failure of the system',
     'The tests run two or three commands; failing arguments, variables, input and signals are never sampled.',
     ['src/glue/command.rs'], [('CommandConfig::build', 'src/glue/command.rs'), ('exit_code, output and get_url', 'src/glue/command.rs')],
     ABS, 'With the commands feature. Deadlock when a command fills its output pipe before reading its input is not considered (see DESIGN.md). ' + LOOPS, rule=REPLAY)
prop('C38', 'Tests of a configuration pass only if every result is the expected one',
     'In test mode every test of every set of every test file is run, in order: its URL is cleaned with the configuration as changed by the params diff of its set and in the job context of its set. The run passes only when every one of them can be cleaned and gives exactly the expected URL; otherwise it panics, and a test file that cannot be read or parsed is that error. '
     'The suitability check runs when it is asked for. In both modes no URL of the arguments or of the standard input is cleaned, and the exit code is 0 when everything passed.',
     ['inputs', 'configurations', 'faults'], 'for every list of test files, sets and tests and every outcome of each cleaning',
     'The tests run test files that pass; whether one that should fail does is never tried.',
     ['src/testing.rs', 'src/types/config.rs', 'src/main.rs'], [('Tests and TestSet', 'src/testing.rs'), ('Config::run_tests', 'src/types/config.rs'), ('test mode of main', 'src/main.rs')],
     ABS, 'That a job yields one task per configuration is C16, what a params diff changes is C21, what equality of URLs means is derived. What the suitability check demands is not decided. ' + LOOPS, rule=REPLAY)
prop('C25', 'The suitability test finds every unsuitable part of a configuration, only those',
     'The suitability test of a configuration looks at every part of it, at any depth: rules, commons, params, and every value inside them. It fails if anywhere in it there is a debugging or custom (code) variant, an external command, a regex that does not compile, a flag or variable whose name is not written out, or the written-out name of a params flag, of a params, job context, task context or environment variable, or of a set, list, map or named partitioning that the configuration\'s own documentation does not have. '
     'Of the names that are computed rather than written out, the parts they are computed from are looked at as well. A configuration with none of these passes.',
     ['inputs', 'configurations'], 'for every configuration, and every place in it where such a part may be',
     'One documentation test runs it on the default configuration, where it passes; what it would overlook in another is never sampled.',
     ['src/util/suitability.rs', 'url-cleaner-macros/src/suitability.rs', 'src/types/flag_var_thing/flag.rs', 'src/types/flag_var_thing/var.rs', 'src/glue/regex/regex_parts.rs', 'src/types/config.rs'],
     [('the test of containers and of names', 'src/util/suitability.rs'), ('derived tests', 'url-cleaner-macros/src/suitability.rs'), ('flags and variables', 'src/types/flag_var_thing/flag.rs')],
     'structural coverage by path-sensitive abstract interpretation: on every path of every implementation of the test, each part whose type can hold something unsuitable is handed on', 'Every implementation of the trait, derived or written, in generic form. Which variants are for debugging or code is a list of ours. The environment\'s and a context\'s actual values are not part of the configuration. ' + LOOPS,
     rule='The types that can hold something unsuitable are computed from the type graph; every returning path of each implementation must cover each part of such a type (hand it on, or cover its own parts), every panic must have one of the listed reasons, and every other variant must have a returning path.')

prop('C26', 'Configurations are read by documented names; absent fields get their defaults',
     'In every configuration, params, context, task and test that is read, each type, variant and field is read under its documented name. A field documented as optional may be left out and then has exactly its documented default (nothing, false, an empty collection, or the value its documentation names); every other field is required, and no field that today\'s configurations do not have is. '
     'A value given as a bare string stands for what it is documented to stand for: the variant or setting of that name with default settings, or the value whose one required field is that string, with the others at their defaults.',
     ['inputs', 'configurations'], 'for every configuration text and every field left out of it',
     'The tests read configurations that leave out and spell what those happen to; a changed default, a field that became required or a renamed variant shows only in the configurations of users.',
     ['src/types/config.rs', 'src/types/rules.rs', 'src/types/rules/mappers.rs', 'src/types/rules/conditions.rs', 'src/types/string_source.rs', 'src/types/string_modification.rs', 'src/types/string_matcher.rs', 'src/glue/http.rs', 'src/glue/http_client_config.rs', 'src/glue/regex/regex_parts.rs', 'src/util/macros.rs'],
     [('derived readers', 'src/types/config.rs'), ('defaults', 'src/types/config/params.rs'), ('bare strings', 'src/util/macros.rs')],
     'path-sensitive abstract interpretation of the generated readers and of the default and from-string functions, compared with a table of the documented format', 'About 390 types and variants and 315 fields; the table was extracted from this tree and compared by hand with the documentation of every field that states a default. That serde_json hands the reader the names that are in the text is assumed. New variants and optional fields are allowed.',
     rule='Each derived reader is interpreted on all field names of its type and again without each one: the result must be an error where the format requires the field and the documented default where it does not; each from-string function is interpreted on every string it tells apart.')

DSL = ("Abstract interpretation of the rules of the default configuration, which is compiled into the program: conditions are evaluated to what they may be (true, false, an error) under assumptions about flags and the URL, mappers, rules, maps and common calls to what they may reach and in which state. "
       "A construct the interpreter does not know is taken to possibly run everything inside it. The constructs used are replayed against their specifications on the MIR of the code that interprets them. ")
DSLNOTE = 'default-config.json as in the working tree. That the constructs the argument rests on mean what it takes them to mean is decided along with it, on the code that interprets them. Other configurations are not decided.'
prop('C39', 'With the flag no-network the default configuration makes no HTTP request',
     'When the flag no-network is set, cleaning a URL with the default configuration never makes an HTTP request, whatever the URL, the other flags, the variables and the job and task contexts are: neither to the site the URL is of, nor to a third party, nor by following a redirect. '
     'URLs are sent to bypass.vip only when the flag bypass.vip is set.',
     ['inputs', 'configurations'], 'for every URL, every other flag, every context and whatever the cache holds',
     'The tests of the default configuration run without network on URLs that need none; the rules of the sites that do are never run by them.',
     ['default-config.json', 'README.md', 'threat-model.md'], [('the rules', 'default-config.json'), ('the flag', 'default-config.json: docs/flags'), ('what makes requests', 'src/types/rules/mappers.rs, src/types/string_source.rs')],
     'abstract interpretation of the default configuration as a program: reachability of every request under the flag', DSLNOTE, rule=DSL + 'No HttpRequest or ExpandRedirect may be reached.')
prop('C40', 'Tracking parameters are removed from the result and before any HTTP request',
     'Cleaning an http or https URL with the default configuration removes its universal tracking parameters (those in the set utps or starting with one of the list utp-prefixes) unless its registered domain is exempt (utps-reg-domain-whitelist): both from the final URL, after whatever last replaced it or its query, and before every HTTP request the rules make for it, so that they are not sent there. URLs of the exempt domains keep them.',
     ['inputs', 'configurations'], 'for every http or https URL and every way through the rules, every flag and context',
     'The tests clean a few URLs each of which takes one way through the rules, and none of the ways with a request.',
     ['default-config.json', 'README.md'], [('the common mapper universal', 'default-config.json: commons/mappers'), ('the rules', 'default-config.json')],
     'must-analysis over the default configuration as a program: a state (removed since the URL was last replaced) at every request and at the end', DSLNOTE + ' A URL without registered domain (an IP address) is exempt. That what the result of a request is replaced by keeps is part of the state.', rule=DSL + 'The state "removed" must hold at every request and at the end of the rules.')
prop('C41', 'The default configuration refers only to what exists, and uses what it documents',
     'Every set, list, map, named partitioning, common, flag, variable and environment variable that a rule of the default configuration refers to exists or is documented; every call of a common gives it the variables it reads, and no common calls itself. Everything it documents as a setting (flags, variables, sets, lists, maps, named partitionings) is used by its rules, so that setting it has an effect, and everything it sets by default is documented.',
     ['configurations'], 'for every reference of every rule and common, whichever URL would reach it',
     'A reference is resolved only when a URL reaches it, and the tests reach few rules; the suitability test compares names with the documentation in one direction only.',
     ['default-config.json'], [('docs, params, commons and rules', 'default-config.json'), ('looking names up', 'src/types/string_source.rs')],
     'reference analysis: definitions and uses of every name of the default configuration, and its call graph of commons', DSLNOTE, rule='Every use has a definition or documentation, every documented setting a use, every read argument is given by every caller, the call graph of the commons has no cycle and no orphan.')
prop('C42', 'Flags and sets of the default configuration do what they are documented to',
     'A change that the default configuration documents as brought about by a flag is made only when (one of) its flag(s) is set, and can be made when it is: replacing and restoring frontends (breezewiki, nitter, invidious), embed-compatibility, discord-unexternal, tor2web2tor, tumblr-unsubdomain-blog, unmobile, the youtube flags, remove-unused-search-query (rule34), instagram-unprofilecard, furaffinity-sfw and bypass.vip. What a flag is documented to prevent is not done when it is set, and can be when it is not: no-https-upgrade, keep-lang, youtube-keep-sub-confirmation, no-network. '
     'Hosts listed as redirects are followed; hosts and domains in the blacklists for https and unmobile are left alone.',
     ['inputs', 'configurations'], 'for every combination of the other flags and every listed host',
     'Few flags are set by any test, and never to see that something does not happen.',
     ['default-config.json', 'README.md'], [('docs/flags and docs/sets', 'default-config.json'), ('the rules', 'default-config.json')],
     'abstract interpretation of the default configuration as a program: reachability of each documented change with and without its flags, per host', DSLNOTE + ' Which change a flag is about is a table of ours, from its documentation. That a change that can be made is made for every URL it should be is not decided.', rule=DSL + 'Each change of the table is unreachable without its flags and reachable with each of them.')
prop('C43', 'Every rule of the default configuration for a site is reached by its URLs',
     'Every site for which the default configuration has a rule (a host, registered domain, or name of one, as a key of a map, a member of a category, or a value in a condition) is written in the form in which that part of a URL is reported, so that it can be equal to it, and URLs of that site get as far as that rule: the conditions around it let them through. The same holds of paths, path segments and schemes as far as their form goes.',
     ['inputs', 'configurations'], 'for every site that is named anywhere in the rules',
     'The tests have URLs for a fraction of the sites, and a rule that is never reached fails nothing.',
     ['default-config.json'], [('maps, sets and conditions on hosts', 'default-config.json'), ('parts of a URL', 'src/types/url_part.rs')],
     'abstract interpretation of the default configuration as a program under the assumption of each site\'s host, with registrable domains by the public suffix list', DSLNOTE + ' Registrable domains are by the list the psl crate was built from.', rule=DSL + 'Under the assumption that the URL is of the site, the place that names it is reached; a name must be a possible value of its part.')
NA = {}
