#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/oidcmsg/message.py'
O2 = 'src/oidcmsg/oauth2/__init__.py'
OI = 'src/oidcmsg/oidc/__init__.py'
SE = 'src/oidcmsg/oidc/session.py'
IA = 'src/oidcmsg/oidc/identity_assurance.py'
SQ = 'src/oidcmsg/storage/absqlalchemy.py'
DB = 'src/oidcmsg/storage/db_setup.py'
DA = 'src/oidcmsg/oauth2/device_authorization.py'
TU = 'src/oidcmsg/time_util.py'
AB = 'src/oidcmsg/storage/abfile.py'
EX = 'src/oidcmsg/storage/extension.py'
CV = 'src/oidcmsg/storage/converter.py'
IN = 'src/oidcmsg/storage/init.py'
UT = 'src/oidcmsg/storage/utils.py'
CX = 'src/oidcmsg/context.py'
TOP = 'src/oidcmsg/__init__.py'


def P(id, title, statement, over, text, why, files, mech):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [
                {'name': n, 'where': w} for n, w in mech]}}


PROPS = [
    P('P01', 'A message without a required member is refused by verification',
      'For every message type of the library, verifying an instance in which a member that the '
      'specification of that type marks as required is missing (or, except for booleans, empty) '
      'raises an error; when no required member is missing and no other rule of the type is '
      'broken, verification does not complain about a missing member. (A request passed by '
      'reference to a request object may leave its other members to that object.)',
      ['inputs', 'programs'],
      'every message class of the library x every required member x absent/empty/present with '
      'arbitrary content in all members',
      'The tests construct a handful of messages per class; which members are required and the '
      'refusal must hold for every class, member and content.',
      [M, O2, OI, SE, IA, DA], [('Message.verify', M), ('the c_param tables', O2)]),
    P('P02', 'Enumerated members only take values from their list',
      'Verifying a message whose member is limited to an enumerated set (error codes, grant types, '
      'display, prompt, application type, subject type, assertion type) raises an error for any '
      'other value, and for list members if any element is outside the set; values inside the '
      'set are not refused. The sets of different message types are independent of each other.',
      ['inputs', 'programs'],
      'every class with an enumerated member x arbitrary string value (arbitrary lists up to the '
      'bound)',
      'Tests use one or two sample values; the negative side quantifies over all strings.',
      [M, O2, OI], [('Message.verify / _type_check', M), ('c_allowed_values', OI)]),
    P('P03', 'Declared types are enforced when a message is filled in',
      'A member declared as string, integer, boolean, list of strings or JSON object only ever '
      'holds a value of that type (or nothing) after construction, parsing of JSON or a '
      'dictionary, or item assignment with any JSON-like value (the unchecked update() aside); a '
      'value that cannot be converted is refused with an error or dropped and never stored as '
      'is, and in particular booleans are never taken for integers or strings.',
      ['inputs', 'programs'],
      'declared type x construct/from_dict/from_json/assign x arbitrary JSON-like value '
      '(string, integer, bool, null, list, object) of symbolic content',
      'Tests try a few type confusions; the guarantee is over every combination of declared type, '
      'entry point and value.',
      [M], [('Message._add_value', M), ('Message.__setitem__', M), ('from_dict', M)]),
    P('P04', 'Dictionary and JSON round trips preserve a message',
      'Serializing a message to a dictionary or to JSON and reading the result back into a fresh '
      'instance of the same type gives an equal message, including unknown extra members, '
      'language-tagged members and nested messages; neither step changes the original.',
      ['inputs', 'programs'],
      'message classes x every subset shape of members within the bound x arbitrary contents',
      'Tests round-trip fixed sample messages only.',
      [M, OI], [('to_dict/from_dict/to_json/from_json', M), ('nested serializers', OI)]),
    P('P05', 'Form encoding round trips preserve a message',
      'Serializing a message made of string and list-of-string members to '
      'application/x-www-form-urlencoded and parsing it back into a fresh instance of the same '
      'type gives an equal message, whatever characters (reserved, non-ASCII, spaces in plain '
      'strings) the values contain, as long as list items contain no space and no value is empty.',
      ['inputs', 'programs'],
      'message classes x which members are present x arbitrary non-empty strings',
      'Escaping and list joining must be right for every character; tests use a few plain values.',
      [M], [('to_urlencoded/from_urlencoded', M), ('list (de)serializers', M)]),
    P('P06', 'Form input is parsed member by member without loss or guessing',
      'Parsing form-encoded input stores, for every parameter, exactly the decoded value(s) sent: '
      'a repeated parameter that is declared single-valued is refused, a declared list is split '
      'or collected, undeclared parameters are kept, language-tagged ones follow the declaration '
      'of their base name, and non-empty input with no parameter at all is refused as malformed.',
      ['inputs'],
      'arbitrary sequences of up to 3 name/value pairs (names from declared, tagged and undeclared '
      'ones), arbitrary values',
      'Repetition, tagging and unknown names multiply; tests only cover well-formed samples.',
      [M], [('Message.from_urlencoded', M)]),
    P('P07', 'Incomplete messages are not form-encoded; requests extend URLs properly',
      'Form-encoding a message that lacks a required member raises an error naming it unless the '
      'message has been marked lax; building a request URL appends exactly the encoded message '
      'after "?", after "&" if the location already has a query, or after "#" when a fragment '
      'is asked for.',
      ['inputs', 'programs'],
      'message classes x which members are present x arbitrary locations and values',
      'Tests show one missing parameter and two URLs.',
      [M], [('to_urlencoded', M), ('request', M)]),
    P('P08', 'A message behaves like a dictionary over any history of operations',
      'After any sequence of assignments, deletions, updates, blank removals and weeding, lookups, '
      'membership, length, iteration, extra-member reports, copies and equality agree with a plain '
      'dictionary that went through the same operations; a copy is independent of the original. '
      '(Values of the declared type; lists non-empty.)',
      ['histories', 'inputs'],
      'operation sequences up to the bound over known/unknown members with arbitrary contents',
      'Tests call each method once on fixed data.',
      [M], [('MutableMapping methods of Message', M), ('extra/weed/rm_blanks/copy', M)]),
    P('P09', 'Using or loading one message type or instance never changes another',
      'Nothing done to a message instance (assignment, in-place change of its values, verification, '
      'parsing) changes what another instance, created before or after, contains or accepts; the '
      'default values and the allowed values of a message type stay those of its specification. '
      '(Mutable values that the caller itself puts into two messages aside.)',
      ['histories', 'programs'],
      'classes with defaults / enumerations x any in-place modification sequence within the bound '
      'x arbitrary contents',
      'Tests run each class in isolation and do not look at sharing between instances or classes.',
      [M, O2, OI], [('Message.__init__ defaults', M), ('c_allowed_values of error classes', OI)]),
    P('P10', 'ID Token claims are accepted exactly when every rule holds',
      'Verification of an ID Token with all required claims succeeds if and only if the issuer is '
      'the expected one, the client is among the audience, a multi-valued audience comes with an '
      'authorized party in it, the authorized party is the client, the token is neither expired '
      'nor issued too long ago (allowing the skew), and the nonce matches; checks whose '
      'expectation was not supplied are skipped.',
      ['inputs', 'configurations'],
      'all claim contents, audience sizes 1-3 (4 thorough), all subsets of verification '
      'parameters, arbitrary clock',
      'The rules combine over clock, skew and audience; tests pick about a dozen points.',
      [OI], [('IdToken.verify', OI)]),
    P('P11', 'JSON Web Token time, audience and issuer rules',
      'A JSON Web Token is accepted exactly when it is not expired, not issued in the future, '
      'already valid (a clock skew allowance always widens, never narrows, each of these windows), '
      'the expected audience is listed and the expected issuer matches; absent claims and '
      'unsupplied expectations impose nothing.',
      ['inputs', 'configurations'],
      'all claim contents and presence patterns, arbitrary clock and skew',
      'Time windows with skew have boundary cases in three directions.',
      [OI], [('JsonWebToken.verify', OI)]),
    P('P12', 'Messages with an ID Token only verify if the token itself is acceptable',
      'A token or authorization response carrying an ID Token verifies only if the token is a '
      'compact JWS, unsigned tokens are explicitly allowed when unsigned, a signed token\'s '
      'algorithm is the allowed one if one is required, its issuer is known to the key store, its signature '
      'verifies with a key of that issuer, and its claims are acceptable; then and only then the '
      'parsed token is exposed as the verified one.',
      ['inputs', 'configurations'],
      'token algorithm x signature validity x known/unknown issuer x allowed algorithm x '
      'allow-none switches x arbitrary claims',
      'The combinations of header, key store and verification parameters are many more than the '
      'tests sample.',
      [OI, M], [('verify_id_token', OI), ('Message.from_jwt', M)]),
    P('P13', 'Access token and code are bound to the ID Token by their hashes',
      'An authorization response that carries an ID Token together with an access token (or a '
      'code) verifies only if the signed ID Token contains the matching hash of that access token '
      '(or code) under the algorithm of its own header; a missing or different hash is an error.',
      ['inputs'],
      'arbitrary tokens, codes and hash claims; every signing algorithm family',
      'Tests use fixed values for one algorithm.',
      [OI], [('verify_id_token check_hash', OI), ('AuthorizationResponse.verify', OI)]),
    P('P14', 'Signed input is only accepted with a verified signature',
      'Reading a message from a signed JWT only succeeds if the signature verifies with a key the '
      'key store holds for the sender; without a usable key, with a bad signature, or when the '
      'header algorithm is not the one pinned by the caller (including an unsigned token when '
      'a real algorithm is pinned) it raises an error and the message stays without the content.',
      ['inputs', 'configurations'],
      'header algorithm x pinned algorithm x key availability x signature state x payload',
      'Header/pin/key combinations; tests cover the good path and two failures.',
      [M], [('Message.from_jwt', M)]),
    P('P15', 'Callers cannot be handed a "verified" object that was not verified',
      'After a response or request has been verified successfully, a member under which its '
      'message type publishes a verified token or request object is present only if the corresponding '
      'raw token was present in that very message and passed verification, whatever the message '
      'contained before.',
      ['inputs', 'histories'],
      'every message type that publishes verified objects x attacker-chosen initial members '
      '(including the slot names) x raw token present/absent',
      'Tests never send a message that already contains the slot.',
      [OI, O2, SE], [('clear_verified_claims', OI), ('verified_claim_name', TOP)]),
    P('P16', 'OpenID authorization request rules',
      'An OpenID authorization request verifies exactly when the required members are there, '
      'openid is in scope, a nonce is present (and the expected one, if given) whenever an ID '
      'Token is requested, offline access comes with a consent prompt, and prompt=none stands '
      'alone.',
      ['inputs'],
      'arbitrary response types, scopes and prompts (lists of up to 2-3 arbitrary strings), '
      'nonce present or not',
      'Rules interact across list-valued members; tests have single samples.',
      [OI], [('AuthorizationRequest.verify', OI)]),
    P('P17', 'Request objects replace request parameters according to the chosen policy',
      'Merging a request object into a request gives the object\'s value for every member the '
      'object has; members only in the original request survive never (strict), always (lax) or '
      'only if white-listed (whitelist), and a verified OpenID request with a request object '
      'consists of that object\'s members only.',
      ['inputs', 'configurations'],
      'presence patterns of members in request and object x policy x white list x arbitrary values',
      'Tests merge one pair of messages.',
      [O2, OI], [('AuthorizationRequest.merge', O2), ('JWTSecured/Pushed requests', O2)]),
    P('P18', 'Authorization responses meant for someone else are refused',
      'An OAuth2/OpenID authorization response that names a client or an issuer other than the '
      'expected one does not verify, nor does an OpenID one whose audience lacks the client; '
      'without an expectation, or without the member, nothing is imposed.',
      ['inputs', 'configurations'],
      'presence of each member and each expectation x arbitrary strings, audiences of 1-3',
      'Tests compare one matching and one mismatching value.',
      [O2, OI], [('AuthorizationResponse.verify', O2)]),
    P('P19', 'Logout token rules',
      'A logout token verifies exactly when it has no nonce, has exactly the back-channel logout '
      'event with an empty object, has a subject or session id, lists the expected audience, is '
      'from the expected issuer, was not issued in the future beyond the skew, and was signed '
      'with the required algorithm if one is required; a back-channel logout request verifies '
      'only with such a token.',
      ['inputs', 'configurations'],
      'presence patterns, event tables with arbitrary keys, arbitrary clock and skew',
      'Combination of eight rules; tests break them one at a time with fixed data.',
      [SE], [('LogoutToken.verify', SE), ('BackChannelLogoutRequest.verify', SE)]),
    P('P20', 'End-session requests need an ID Token hint to redirect',
      'A request to end the session with a post-logout redirect URI but without an ID Token hint '
      'does not verify; with a hint it verifies only if the hint is an acceptable ID Token.',
      ['inputs'], 'presence patterns x arbitrary values x token states',
      'Two-way interaction with token verification.',
      [SE], [('EndSessionRequest.verify', SE)]),
    P('P21', 'Client registration consistency rules',
      'A registration request verifies exactly when it has redirect URIs, its login-initiation URI '
      'uses https, each encryption method comes with an algorithm (the method defaults when only '
      'the algorithm is given), and "none" is not the token endpoint signing algorithm; a response '
      'must have both or neither of the configuration URI and the registration access token.',
      ['inputs'], 'presence patterns of the members x arbitrary strings',
      'Tests exercise a few patterns.',
      [OI], [('RegistrationRequest.verify', OI), ('RegistrationResponse.verify', OI)]),
    P('P22', 'Provider configuration rules',
      'A provider configuration verifies exactly when its required members are there, the issuer '
      'is an https URL (http only if explicitly allowed) without query or fragment, RS256 is '
      'among the ID Token algorithms, openid is among the published scopes, scopes use allowed '
      'characters, and a token endpoint is given if any response type involves a code.',
      ['inputs', 'configurations'],
      'arbitrary issuers (as URL parts), lists of up to 2 arbitrary strings, presence patterns',
      'URL structure and list membership over arbitrary strings.',
      [OI], [('ProviderConfigurationResponse.verify', OI), ('check_char_set', OI)]),
    P('P23', 'Character-set restrictions follow the specification',
      'An error description verifies exactly when all its characters are in %x20-21 / %x23-5B / '
      '%x5D-7E, a published scope exactly when all are in %x21 / %x23-5B / %x5D-7E, whatever the '
      'position of the character.',
      ['inputs'], 'arbitrary strings up to the bounded length',
      'Three tests with fixed strings cannot cover the ranges and their borders.',
      [O2, OI], [('ResponseMessage.verify', O2), ('check_char_set', OI)]),
    P('P24', 'Claims request matching',
      'A claim value matches a claims specification exactly when the specification puts no '
      'constraint on the value (it is null, or has neither "value" nor "values", as when it only '
      'has the essential flag), or the value equals "value" or is listed in "values".',
      ['inputs'], 'specifications with any subset of essential/value/values/other x arbitrary '
      'strings, lists up to 3', 'Order and combination of keys; tests have six samples.',
      [OI], [('claims_match', OI)]),
    P('P25', 'Identity-assurance claims requests are validated value by value',
      'A request for verified claims is refused exactly when a constraint on a claim that the '
      'message types of the request declare has a '
      'non-boolean essential flag, a value or listed value of the wrong type for that claim, or a '
      'purpose shorter than 3, longer than 300 or with illegal characters; requests without '
      'constraints pass.',
      ['inputs'], 'constraint tables with any subset of keys x arbitrary contents, at any claim '
      'position within the bound', 'Tests verify two sample requests.',
      [IA], [('verify_claims_request', IA)]),
    P('P26', 'Evidence is checked as what it says (or looks like) it is',
      'An evidence element verifies exactly when its declared type is known and the members that '
      'type requires are there; without a type it is recognised by its members and labelled, and '
      'anything else is refused. A claims constructor only accepts claim values of the type the '
      'claim has (claims that are lists aside).',
      ['inputs'], 'type present/absent x presence patterns of the members x arbitrary values',
      'Tests cover one example per type.',
      [IA], [('Evidence.verify', IA), ('ClaimsConstructor.__setitem__', IA)]),
    P('P27', 'Time utilities agree with each other and with the clock',
      'Parsing a formatted time gives back the instant it was formatted from, "before"/"after" are '
      'complementary and ordered like the instants, shifting and "a while ago/in a while" move '
      'by exactly the given amount, and the whole-second clock readings truncate the real clock.',
      ['inputs'], 'arbitrary instants within 1970-2100, arbitrary offsets, arbitrary clock',
      'Calendar arithmetic has many borders; tests look at fixed dates.',
      [TU], [('time_util', TU)]),
    P('P28', 'Durations are parsed according to their grammar',
      'Parsing a duration of the form (-)PnYnMnDTnHnMnS returns the sign and the number before '
      'each designator, with absent designators zero; a string that does not start with P, that '
      'negates individual items, ends in T or lacks the T separator is refused.',
      ['inputs'], 'arbitrary strings up to the bounded length and arbitrary structured durations',
      'Tests have a few samples and no adversarial strings.',
      [TU], [('parse_duration', TU)]),
    P('P29', 'The file store behaves like a dictionary on disk',
      'After any sequence of set, delete, update, clear and lookups on a file store, its lookups, '
      'membership, length, keys and items agree with a dictionary that went through the same '
      'operations (deleting a missing key may do nothing), and so does a second store opened later '
      'on the same directory; keys may be any non-empty text and values any text.',
      ['histories', 'inputs'], 'operation sequences up to the bound with symbolic keys and values',
      'Tests use a few fixed keys in one order.',
      [AB, CV], [('AbstractFileSystem', AB), ('QPKey', CV)]),
    P('P30', 'A file store sees what other processes write',
      'A lookup in a file store returns the value most recently written to that key by any process '
      'working on the directory (provided the modification time moved on), and raises a key error '
      'after another process removed it; membership and listings follow the other processes too.',
      ['histories', 'schedules'],
      'interleavings of two store instances over one directory, symbolic keys/values, arbitrary '
      'file times', 'Tests use one instance at a time.',
      [AB], [('is_changed/_read_info/synch', AB)]),
    P('P31', 'Labels partition a shared store',
      'Two labelled views of a store with different (alphanumeric) labels never see or change each '
      'other\'s entries, and each view behaves like a dictionary of its own: lookups, membership, '
      'keys, items, updates, deletion and default handling use the caller\'s keys (a lookup of a '
      'missing key may give None).',
      ['histories', 'inputs'], 'operation sequences over two labelled views, symbolic labels, '
      'keys and values', 'Tests use one label and one key at a time.',
      [EX, AB], [('key_label', EX), ('LabeledDict', EX), ('LabeledAbstractFileSystem', AB)]),
    P('P32', 'Key conversion is reversible and stays inside the store directory',
      'For every non-empty key the file name derived from it converts back to that key, different '
      'keys give different file names, and the name contains no path separator and is not that of '
      'a directory or of a lock file, so that storing under '
      'arbitrary keys never touches a file outside the store\'s directory.',
      ['inputs'], 'arbitrary key text up to the bound',
      'Injectivity and containment over all strings.',
      [CV, AB], [('QPKey', CV), ('AbstractFileSystem.__setitem__', AB)]),
    P('P33', 'Storage configuration is selected and passed on faithfully',
      'The configuration used for a kind of data is its own entry, else the default entry, else '
      'none (an error if the default itself is asked for and missing); the handler named is given '
      'exactly the remaining settings, a configuration without handler is an error, and adding '
      'an issuer escapes it, adds it to every entry and leaves the input configuration unchanged.',
      ['configurations', 'inputs'], 'configuration tables with any subset of entries x arbitrary '
      'names', 'Tests have one or two configurations.',
      [IN, CX, UT], [('get_storage_conf/storage_factory', IN), ('add_issuer', CX)]),
    P('P34', 'Configured paths are normalised and based consistently',
      'Normalising a path gives a relative path that starts with "./" and ends with "/" with the '
      'rest of the given path kept, and doing it twice changes nothing; adding a base path '
      'changes only the named, relative entries and leaves absolute ones alone.',
      ['inputs', 'configurations'], 'arbitrary path strings up to the bound; configuration tables '
      'with any subset of entries', 'Tests have four sample paths and none for base paths.',
      [TOP], [('proper_path', TOP), ('add_base_path', TOP)]),
    P('P35', 'Verification gives a definite answer and failures are never silent',
      'When reading a message from JSON, a dictionary, form data or a JWT fails, the error '
      'propagates to the caller as an exception and is never reported as success; a verification '
      'of any message type returns true or raises, or returns false, but never an undefined '
      'result that looks neither accepted nor refused.',
      ['inputs', 'programs'], 'message classes x arbitrary well/ill-formed inputs',
      'Tests assert on results of a few calls.',
      [M, OI, IA, DA], [('verify overrides', OI)]),
    P('P36', 'Message factories build the type that was asked for',
      'Asking a factory for a message type by name gives an instance of the type of that name '
      'filled with the given members, the OpenID factory preferring its own types and falling back '
      'to the OAuth2 ones, and an unknown name gives nothing.',
      ['inputs'], 'every type name and arbitrary other names, arbitrary members',
      'Tests ask for four names.',
      [O2, OI], [('factory', O2), ('factory', OI)]),
    P('P37', 'User-info content rules',
      'User information (and the ID Token claims built on it) verifies exactly when the subject is '
      'there, no claim is null, and a birthdate, if present, is YYYY-MM-DD, YYYY or 0000-MM-DD '
      'with a valid month and day.',
      ['inputs'], 'arbitrary birthdate text up to the bound, arbitrary presence and null patterns',
      'Date formats over arbitrary strings; tests have four samples.',
      [OI], [('OpenIDSchema.verify', OI)]),
    P('P38', 'Signed and encrypted forms of a message carry the message',
      'A message turned into a JWT or a JWE is read back by whoever holds the fitting key as the same '
      'members with the same values, nobody without a fitting key reads or accepts it, and making it leaves the '
      'message as it was. An ID Token made by the library carries the current time as iat, an exp of iat plus the '
      'lifetime if one is given, at_hash and c_hash in place of the access token and the code, and every other '
      'claim as it is; a request object carries every member of the request, the issuer, the receiver as its only '
      'audience, the current time as iat, an exp only if a lifetime and a jti only if one is asked for.',
      ['inputs', 'programs', 'configurations'],
      'message type x members x algorithm x keys of the reader x lifetime x current time, with arbitrary contents',
      'Tests sign one or two messages with one key and one algorithm; here every type, content, key list, '
      'lifetime and instant.',
      [M, OI], [('Message.to_jwt/to_jwe/from_jwe', M), ('IdToken.to_jwt/pack', OI), ('make_openid_request', OI)]),
    P('P39', 'Identity-assurance times and dates denote the instant they were made from',
      'A time stamp written for a number of seconds, a datetime or the current time denotes exactly that '
      'instant, in whatever local time zone and on whichever side of a change of the clocks, and reading it gives '
      'the seconds back; a date written for an instant is the local calendar day of it. A text '
      'YYYY-MM-DDThh:mm:ss with Z, \u00b1hh, \u00b1hhmm or \u00b1hh:mm is read as the instant it denotes, a date '
      'YYYY-MM-DD as the beginning of that day in local time, and any other text is refused with a value error; '
      'members of messages that are already text stay as they are.',
      ['inputs', 'configurations'],
      'every instant of the bounds x every way to give it x local time zones with and without daylight saving '
      'time; every text of the given shape',
      'Tests format the current time in the zone of the machine.',
      [IA], [('to_iso8601_2004 / from_iso8601_2004', IA), ('time_stamp_ser / date_ser', IA)]),
    P('P40', 'The SQL store behaves like a dictionary for every process using it',
      'After any history of set, update, delete and flush by any of the processes that share a database, '
      'looking a key up gives the value stored for it last (nothing if it was deleted or never stored), '
      'membership is true exactly for stored keys, deleting tells how many entries went, and listing, iterating '
      'and the text form show exactly the stored entries - to the process that made the change, to '
      'the others and to one started later. Creating the database again loses nothing, and a store on a table '
      'that does not exist is refused.',
      ['histories', 'inputs'],
      'sequences of operations by two stores on one database up to the bound, with arbitrary keys and values',
      'Tests run one fixed sequence in one process.',
      [SQ, DB], [('AbstractStorageSQLAlchemy', SQ), ('create_database', DB)]),
    P('P41', 'Members that hold objects are objects in every form',
      'A member declared as a JSON object or a nested message is held as an object of its declared type however it '
      'was given - as an object or as JSON text, to the constructor, by assignment, in a dictionary, in JSON or in a '
      'form - and shows the same content, whatever characters are in it. It is written as a JSON object (never as '
      'text holding JSON) to dictionaries, JSON and JWTs, and as its JSON text to forms. Text '
      'that is no JSON object is refused for it.',
      ['inputs', 'programs'],
      'message type x object member x how it is given x content of arbitrary texts x form it is written to',
      'Tests give one object for two of the 36 members and look at the Python side only.',
      [M, OI], [('json_serializer/json_deserializer', M), ('deserialize_from_one_of', OI), ('msg_ser_json', OI)]),
    P('P42', 'Members are described and selected by what the message type declares',
      'For every message type, the list of members, of required members and the declared type of a member are those '
      'of the type (and handing them out does not let callers change it), a member that is not declared has no type; '
      'selecting by a type keeps exactly the members it declares with their values; copying the non-standard members '
      'of one message to another adds exactly those that neither declares and changes nothing else; and a '
      'response is an error message exactly if it has an error member.',
      ['inputs', 'programs'],
      'message type(s) x members of declared and arbitrary names x arbitrary values',
      'Tests use one type and two names.',
      [M, O2], [('by_schema', M), ('add_non_standard', M), ('Message.value_type', M), ('is_error_message', O2)]),
    P('P43', 'Asking again gives the same answer',
      'Verifying a message a second time with the same arguments at the same time gives the same answer: what was '
      'accepted is accepted and the message stays as it is, and what was refused is never accepted. (Where a '
      'request object has been replaced by its content, there is nothing left to verify it by: then the verified '
      'object is no longer published and everything else stays as it is.) Accepting a message that carries no token '
      'takes no member away from it.',
      ['histories', 'inputs'],
      'message type x members (one optional, one missing) x tokens x expectations, with arbitrary contents, verified repeatedly',
      'Tests verify each message once.',
      [M, O2, OI, SE, IA], [('Message.verify', M), ('IdToken.verify', OI), ('AuthorizationRequest.verify', OI),
                            ('Evidence.verify', IA), ('JWTSecuredAuthorizationRequest.verify', O2)]),
    P('P44', 'A context holds exactly its own keys, under both names, each once',
      'The key jar of a context made from a key set, from key files or from key definitions holds exactly those keys, '
      'and the same keys under the entity identifier if there is one. Making a context leaves the configuration '
      '(the key set included) unchanged, so that it can be used again with the same outcome. Made over a key store '
      'that already has keys, the context adds the configured keys to the stored ones, holds each key once under '
      'each of the two names however often it is made, keeps the keys of others, and uses the store configured for '
      'keys only.',
      ['histories', 'inputs'],
      'key sets x entity names x stored keys x repeated start-up, with arbitrary key material and names',
      'Tests make one context from one literal key set.',
      ['src/oidcmsg/context.py', 'src/oidcmsg/storage/init.py'],
      [('OidcContext._keyjar', 'src/oidcmsg/context.py'), ('get_storage_conf', 'src/oidcmsg/storage/init.py')]),
]

# properties whose check is registered; everything else is listed as not applicable for now
NOT_APPLICABLE = {
}

TECH = 'symbolic execution of the real Python source with Z3 (string/integer theories), models ' \
       'replayed on the unmodified code'


def main():
    harness = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'harness'))
               if f.startswith('p') and f.endswith('.py')}
    checks, na = [], []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            fp.write(json.dumps(p) + '\n')
            pid = p['id']
            if pid in harness and pid not in NOT_APPLICABLE:
                checks.append({
                    'property': pid,
                    'quick_cmd': 'python3-vt run.py %s --tier quick' % pid,
                    'thorough_cmd': 'python3-vt run.py %s --tier thorough' % pid,
                    'evidence_file': 'evidence/%s.json' % pid,
                    'technique': TECH, 'level': 'model_checking',
                    'level_note': NOTES.get(pid, DEFAULT_NOTE)})
            else:
                na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
                    pid, 'no check has been built yet')})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks,
                   'not_applicable': na}, fp, indent=1)
        fp.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


DEFAULT_NOTE = (
    'The real functions are executed symbolically from their current source; every path within the '
    'stated bounds is explored and each branch and assertion decided by Z3 over all values. Trusts '
    'the translator and the models of the standard library / cryptojwt boundary, which every path '
    'model replayed on the real code cross-checks. Bounds are in the evidence file.')
NOTES = {}

if __name__ == '__main__':
    main()
