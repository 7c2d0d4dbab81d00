"""How each property is decided: oracle, stubs, why it reaches further than the tests."""
HOW = {
 'P01': 'Oracle: the required members of every type, written down in `harness/spec_table.py` (not read from the code). Per type and required member the instance lacks that member (absent, or empty) and `verify()` has to raise; the twin with all of them must not raise MissingRequiredAttribute.',
 'P02': 'Oracle: the enumerations in `harness/spec_table.py`. The member is an arbitrary string; the solver splits it into "one of the set" and "any other text".',
 'P03': 'Oracle: after construction / parsing / assignment, the stored value is of the declared type or the call raised.',
 'P04': 'Differential: `from_dict(to_dict(m)) == m`, `from_json(to_json(m)) == m`, original unchanged; JSON text is a structured term (`Doc`) that json.loads inverts, numbers and types kept apart.',
 'P05': 'As P04 for form encoding; `urlencode` / `parse_qs` are contracts over (name, value) sequences.',
 'P06': 'Oracle: a short reference parser in the harness over the pairs that were sent.',
 'P07': 'Oracle: the spec table for the refusal, string concatenation for the URL; the location is an unconstrained string, so where its first "?" is gets decided by the string solver.',
 'P08': 'Differential: a plain dictionary runs the same operations; every history of the given length is a path.',
 'P09': 'A witness instance, the class tables and defaults are compared with the specification after every sequence of operations; module and class state is snapshotted and restored between paths (`symx/state.py`).',
 'P10': 'Oracle: the rules of OpenID Connect Core 3.1.3.7 as one boolean formula over the inputs; accepted if and only if. Clock, times and skew are integer variables, so all window borders are decided at once.',
 'P11': 'As P10 with the rules of RFC 7519.',
 'P12': 'Tokens are terms (header, claims, signing key, tampered?) built by `X.jwt`; cryptojwt is replaced by its contract (`symx/jwtm.py`): verification succeeds exactly for an untampered token whose key is offered. The concrete replay builds real tokens with real keys.',
 'P13': 'As P12; `left_hash` is an injective uninterpreted function per algorithm; the replay computes the real hashes.',
 'P14': 'As P12, for `Message.from_jwt` itself, including nested encrypted tokens; the key jar contract keeps the rules by which cryptojwt chooses keys (names, the permissions to leave them out, keys limited to an algorithm, keys that are others after they were fetched anew), also for tokens carried by other messages.',
 'P15': 'As P12; slots are planted by every channel.',
 'P16': 'Oracle: the rules of OpenID Connect Core 3.1.2.1/11 as a formula over arbitrary lists of strings.',
 'P17': 'Oracle: dictionary merge per policy in the harness; member names are symbolic, so that coincidence of names is decided by the solver.',
 'P18': 'Oracle: equality formulas over arbitrary strings.',
 'P19': 'Oracle: OpenID back-channel logout 2.4/2.6 as a formula.',
 'P20': 'Oracle: redirect needs hint; hint needs the P12/P10 rules.',
 'P21': 'Oracle: formula over presence patterns.',
 'P22': 'Oracle: the URL is given by its parts, so that the oracle needs no parser; `urlparse` is a contract for such URLs and executed on the real text in the replay.',
 'P23': 'Oracle: a regular expression over the whole string, decided by the solver\'s regular-expression theory against the character loop of the code.',
 'P24': 'Oracle: two-line reference function.',
 'P25': 'Oracle: reference validator over (constraint key, JSON type, length, characters).',
 'P26': 'Oracle: required members of each evidence type from OpenID Connect for Identity Assurance.',
 'P27': 'Oracle: proleptic Gregorian calendar as an integer formula in the harness (independent of `datetime`); text is a vector of character codes, `strptime` / `strftime` go through the pattern of the library; the clock is an integer variable.',
 'P28': 'Oracle: a reference parser for the grammar in the harness, over every text of the given length (vector of character codes); `re` is a backtracking program over the same vector.',
 'P34': 'Oracle: four algebraic laws (prefix, suffix, idempotence, the rest kept) and string concatenation; paths are vectors of character codes.',
 'P37': 'Oracle: the digits and the calendar, written as character comparisons in the harness, over every text of the given length.',
 'P29': 'Oracle: a Python dictionary that goes through the same operations. The file system (`symx/fsm.py`: directory entries, contents, modification times, locks) is a model with symbolic contents and write times; file names are exact percent-encoded vectors. Every replay uses a real temporary directory (`symx/replay_fs.py`).',
 'P30': 'As P29 with two stores on one directory. The model counts file system calls; the other process is let in before the n-th call for every n (the schedule is a solver-chosen index), write times are symbolic integers. The replay injects the same interruption at the same call in a real directory.',
 'P31': 'Oracle: one dictionary per view. Labels, keys and values are symbolic, so prefix collisions between label and key are decided by the solver and not guessed.',
 'P32': 'Oracle: the laws (inverse, injective, no separator, not a directory or lock name); keys are vectors of character codes and percent encoding is modelled exactly, UTF-8 included.',
 'P33': 'Oracle: own entry, else default, else none - over presence patterns and arbitrary names; the handler is a recorder class in the harness.',
 'P35': 'Oracle: the type of the result. Texts that no JSON document can start with are one symbolic string each.',
 'P36': 'Oracle: the type names of `harness/spec_table.py`; an arbitrary name is split by the solver into "one of these" and "any other".',
 'P38': 'Oracle: the dictionary that was put in, and two lines for iat / exp / aud / jti. Signatures and encryption are an algebra over key identities (`symx/jwtm.py`: a JWS verifies with the key it was made with and no other, a JWE opens with its own); each replay signs and encrypts with real RSA, EC and symmetric keys.',
 'P39': 'Oracle: proleptic Gregorian arithmetic on integers; local time is a table of offset changes from the C library (POSIX zone rules), instants are solver integers so that every change of the clocks, the skipped and the repeated hour included, is decided; texts are vectors of character codes. Replays set TZ.',
 'P40': 'Oracle: a list of pairs. `symx/sqlm.py` is a model of SQLAlchemy core/session over SQLite with transactions: what is not committed is not seen by other sessions and locks them out; keys and values are symbolic strings. Replays use a real SQLite file in a scratch directory.',
 'P41': 'Oracle: the object that was given. JSON and form texts are kept structurally (the JSON codec and percent-encoding are the standard library\'s); where code would form-decode a JSON text, the solver decides whether a "=" can be in it. The JWT form is read with the bare Message type, which shows what is on the wire.',
 'P42': 'Oracle: `harness/spec_table.py`, the declared members of every type at the pinned commit, committed as a table, and set arithmetic on dictionaries.',
 'P43': 'Oracle: the first answer and the content after it (2-safety over a history of two, thorough three, verifications of one object). Tokens are the algebra of P10-P15; each replay uses real tokens.',
 'P44': 'Oracle: the list of configured keys as (material, name, usage), and a union over what is stored. `harness/kjmodel.py` states what is assumed of cryptojwt\'s key jar (get/set on the storage, importing takes the usage out of the descriptions it is given, exporting describes active keys); each replay uses the real key jar with real symmetric keys and a store that serialises what it is given. Key material and names are vectors of characters, so that whether a configured key is already stored is decided by the solver.',
}
