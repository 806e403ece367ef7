"""Source of /verif/properties.jsonl: python3 tools/props.py writes it."""

import json
import os

F = ["src/urlstd/parse.py"]
P = "src/urlstd/parse.py"


def prop(id, title, statement, over, text, why, mechanism, observe, state=()):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": F,
            "state": [
                {"name": n, "meaning": m, "where": w} for n, m, w in state
            ],
            "mechanism": [{"name": n, "where": P + " " + w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


REC = [("URL record", "scheme, credentials, host, port, path, query, fragment", P + " URLRecord")]
PARAMS = [("pair list", "ordered name-value pairs and the URL they belong to", P + " URLSearchParams")]

PROPS = [
    prop(
        "C01",
        "Absolute URL parsing conforms to the URL Standard",
        "For every string parsed without a base, the library fails exactly when the WHATWG URL Standard's parser (July 2023) returns failure, and otherwise every component it exposes (href, origin, protocol, username, password, host, hostname, port, pathname, search, hash and the list of search parameters) equals what the standard's parser and serializer produce for that string.",
        ["inputs"],
        "every input string: every scheme class, host kind, port, code point, length and combination of delimiters",
        "the tests replay some 900 web-platform URL cases; the parser is a state machine over arbitrary strings and most combinations of state and next code point are never exercised",
        [
            ("the parser's state loop", "BasicURLParser.parse"),
            ("one method per parser state", "BasicURLParser._parse_*"),
            ("serializer", "URLRecord.serialize_url"),
        ],
        ["URL(s) attributes", "parse_url(s)"],
        REC,
    ),
    prop(
        "C02",
        "Relative resolution conforms to the URL Standard for every base",
        "For every reference string and every base URL, resolving the reference against the base fails or yields components exactly as the URL Standard's parser does, whatever the kind of base (special, file with or without drive letter, non-special with list or opaque path, with or without host, credentials, port, query, fragment). The result does not depend on whether the base is given as a string, as a URL object or as a URL record.",
        ["inputs", "configurations"],
        "every pair (reference, base), and every way to pass the base",
        "the tests replay the pairs listed in the web-platform data; base kind x parser state x next code point is a product they sample thinly",
        [
            ("relative, relative slash, no scheme, file and file slash states", "BasicURLParser._parse_relative, _parse_relative_slash, _parse_no_scheme, _parse_file, _parse_file_slash"),
            ("base handling", "parse_url, URL.__init__"),
        ],
        ["URL(s, base) attributes", "parse_url(s, base)", "urlparse(s, base)"],
        REC,
    ),
    prop(
        "C03",
        "A serialized URL parses back to the same URL",
        "For every URL obtained by parsing, parsing its serialization (with no base, or against any base) succeeds and yields a URL with identical components and identical serialization. The same holds after any sequence of assignments to a URL's components and search parameters that never switches its scheme to file, and the serialization consists of printable ASCII only.",
        ["inputs", "histories"],
        "every parseable string, and every URL reachable from one by any sequence of setters",
        "tests compare one serialization per listed input and never re-parse the result of setter sequences",
        [
            ("serializer and its '/.' guard", "URLRecord.serialize_url"),
            ("trailing-space stripping of opaque paths", "potentially_rstrip_from_opaque_path"),
            ("percent-encode sets", "SAFE_*_PERCENT_ENCODE_SET"),
        ],
        ["str(url)", "URL(str(url))"],
        REC,
    ),
    prop(
        "C04",
        "Setter histories conform; a refused assignment changes nothing",
        "After any sequence of assignments to the components of a URL object (href, protocol, username, password, host, hostname, port, pathname, search, hash), all its components equal those the URL Standard's setters produce for the same sequence. An assignment the standard refuses leaves every component as the standard leaves it, whether the library ignores the value or raises its URL parse error; a refused href assignment raises that error and leaves the URL untouched.",
        ["histories", "inputs"],
        "every initial URL and every finite sequence of (component, value) assignments",
        "the web-platform setter tests make one assignment to a fresh URL; state left behind by earlier assignments and values outside the list are not explored",
        [
            ("property setters", "URL.*.setter"),
            ("state-override parsing", "BasicURLParser.parse(state_override=...)"),
        ],
        ["URL attributes after each assignment"],
        REC,
    ),
    prop(
        "C05",
        "A URL and its search parameters object stay in step",
        "Through any interleaving of assignments to a URL and mutations (append, set, delete, sort) of the search parameters object obtained from it at any time, that object keeps listing exactly the pairs of the URL's current query, and the URL's query is exactly the form-urlencoded serialization after each mutation, with no query when the list becomes empty. The object stays the same one for the life of the URL, including after href is assigned.",
        ["histories"],
        "every finite sequence mixing URL assignments and search parameter mutations",
        "tests exercise single steps in each direction, not sequences, held references or empty-list transitions",
        [
            ("write-back after each mutation", "URLSearchParams._update"),
            ("re-reading after search/href assignment", "URLSearchParams.attach, URL.search/href setters"),
        ],
        ["url.search", "url.href", "list(url.search_params)"],
        PARAMS,
    ),
    prop(
        "C06",
        "Search parameters behave as an ordered list of pairs",
        "Built from a string, a sequence of pairs, a mapping or another instance, a search parameters object holds exactly the given pairs in order, and after any sequence of append, set, delete, sort it holds what the URL Standard's operations on an ordered list of pairs produce (names and values verbatim apart from surrogate replacement, sort stable and by UTF-16 code units). Every query (get, get_all, has, in, len, indexing, keys, values, entries, iteration, equality, string form) answers from that list and changes nothing.",
        ["histories", "inputs"],
        "every initial list and every finite sequence of operations with any names and values (strings and numbers)",
        "tests check short scripted sequences on a few names; duplicates, order, deletion during removal and unusual names interact",
        [
            ("operations on the pair list", "URLSearchParams.append/delete/get/get_all/has/set/sort"),
            ("constructors", "URLSearchParams.__init__"),
        ],
        ["list(params)", "str(params)", "the queries' return values"],
        PARAMS,
    ),
    prop(
        "C07",
        "The form-urlencoded codec is lossless and canonical",
        "Serializing any list of name-value pairs to application/x-www-form-urlencoded and parsing the result gives back the same list (lone surrogates read as U+FFFD); the output uses only letters, digits, '*', '-', '.', '_', '+', '&', '=' and upper-case percent escapes, as the standard's serializer does. Parsing any byte sequence gives what the standard's parser gives: split at '&', empty sequences skipped, first '=' separates, '+' is a space, valid percent escapes are decoded, and UTF-8 is decoded with replacement.",
        ["inputs"],
        "every list of pairs of strings and every byte sequence",
        "tests check a few dozen strings; the claim is about every code point, byte pair and delimiter placement",
        [("parser and serializer", "parse_qsl, urlencode, string_percent_encode")],
        ["parse_qsl(bytes)", "urlencode(pairs)", "str(URLSearchParams)"],
    ),
    prop(
        "C08",
        "Each component percent-encodes exactly the standard's code points",
        "For every code point, wherever it is placed (username, password, path segment, opaque path, query of a special or other URL, fragment, opaque host; by parsing or by assignment), it appears in the result percent-encoded as upper-case UTF-8 escapes if it is in the standard's percent-encode set for that component and verbatim otherwise; existing escapes are left as they are and lone surrogates become U+FFFD. Percent-decoding a string yields its UTF-8 bytes with exactly the well-formed escapes replaced.",
        ["inputs"],
        "every code point in every component, in every position, and every string for decoding",
        "the tests contain a few hundred distinct code points in selected components",
        [
            ("percent-encode sets", "SAFE_*_PERCENT_ENCODE_SET"),
            ("encoder/decoder", "string_percent_encode, utf8_percent_encode, string_percent_decode"),
        ],
        ["URL attributes", "utf8_percent_encode", "string_percent_encode", "string_percent_decode"],
    ),
    prop(
        "C09",
        "IPv4 hosts: recognition, value, range and canonical form",
        "A host of a special URL whose last label is numeric is accepted exactly when the standard's IPv4 parser accepts it (one to four decimal, octal or hexadecimal parts, every part in range), its value is the one the standard computes, and it serializes as dotted decimal which parses back to the same value; anything else that merely looks numeric is rejected, never treated as a name.",
        ["inputs"],
        "every host string: every part count, radix, digit string, overflow and trailing dot",
        "tests list about 80 addresses; radix x part count x magnitude x malformed digits is a product",
        [("IPv4 number and address parser, serializer", "IPv4Address, Host.parse, Host.serialize")],
        ["Host.parse", "Host.serialize", "URL.hostname"],
    ),
    prop(
        "C10",
        "IPv6 hosts: acceptance, value and shortest canonical form",
        "A bracketed host is accepted exactly when the standard's IPv6 parser accepts it (groups, one compression, embedded IPv4 at the end), its eight pieces are those the standard computes, and it serializes in lower-case hexadecimal without leading zeros with the first longest run of two or more zero pieces compressed. Every address value survives serializing and parsing.",
        ["inputs"],
        "every bracketed string and every one of the 2^128 address values (by zero pattern and piece value)",
        "tests list a few dozen addresses; the 256 zero patterns, group counts, compression positions and IPv4 tails combine",
        [("IPv6 parser and serializer", "IPv6Address, Host.parse, Host.serialize")],
        ["Host.parse", "Host.serialize", "URL.hostname"],
    ),
    prop(
        "C11",
        "Domains and opaque hosts are normalized and refused per the standard",
        "For special URLs a host that is not an IP address is percent-decoded, converted with UTS #46 non-transitional processing and accepted exactly when the standard's host parser accepts it, with the same lower-case ASCII result and no forbidden code point in it. For other URLs the host is kept as written with only C0 controls and non-ASCII percent-encoded, and refused exactly when it contains a forbidden host code point.",
        ["inputs"],
        "every host string over every code point, label structure and percent-escape placement",
        "the IDNA and host test lists fix particular labels; the interplay of escapes, mapping, forbidden code points and numeric detection is open-ended",
        [
            ("host parser", "Host.parse, Host._parse_opaque_host"),
            ("UTS #46", "IDNA.domain_to_ascii, IDNA.domain_to_unicode"),
            ("forbidden sets", "FORBIDDEN_HOST_CODE_POINT, FORBIDDEN_DOMAIN_CODE_POINT"),
        ],
        ["Host.parse", "IDNA.domain_to_ascii/domain_to_unicode", "URL.hostname"],
    ),
    prop(
        "C12",
        "Total: bad input raises only the URL parse error; can_parse agrees",
        "For any strings whatsoever, constructing, resolving, assigning, validating, querying and serializing terminates and either succeeds or raises the library's URL parse error, never another exception. The can-parse predicate never raises and is true exactly when constructing a URL from the same string and base succeeds, and a string judged valid can always be parsed.",
        ["inputs", "histories"],
        "every string (including empty, very long, control characters, lone surrogates) through every public entry point",
        "tests feed well-chosen strings; the absence of any other exception or hang is a universal claim",
        [
            ("error classes", "urlstd.error; every raise in parse.py"),
            ("predicates", "URL.can_parse, URLValidator.is_valid, HostValidator.*"),
        ],
        ["exceptions raised by the public functions", "URL.can_parse"],
    ),
    prop(
        "C13",
        "The validity verdict and its report match the standard's errors",
        "A URL string is judged valid exactly when the standard's parser reports no validation error for it (including those of its base given as a string) and its scheme is registered (ASCII case-insensitively); the report object lists the kinds of validation errors the standard names for that string, with as many entries as its error count and a valid flag that is set exactly when it is empty. A report object that is reused reflects only the latest call, the sum of two reports lists the errors of both and leaves them as they were, and asking for a report never changes the outcome of parsing.",
        ["inputs", "histories"],
        "every string and base, and every sequence of validations sharing one report object",
        "tests check one error per case for selected strings; mixtures of errors and reuse across calls are not covered",
        [
            ("error recording", "_Logger, ValidityState.prepend/reset/__add__"),
            ("verdict", "URLValidator.is_valid, is_valid_url_scheme, URL.can_parse"),
        ],
        ["URLValidator.is_valid", "ValidityState fields"],
        [("report object", "valid flag, error types, descriptions, count", P + " ValidityState")],
    ),
    prop(
        "C14",
        "Host validity verdicts are right and imply parseability",
        "The host validators accept exactly: bracketed addresses the standard's IPv6 parser accepts; four-part decimal IPv4 addresses with every part 0..255 and no leading zero; domains that pass strict UTS #46 processing; and, for opaque hosts, non-empty strings of URL units without forbidden host code points. Every host string the general or the opaque-host validator accepts is also accepted by the host parser of that kind, and the report object agrees with the verdict.",
        ["inputs"],
        "every host string, every validator, fresh or reused report object",
        "tests give a handful of examples per validator",
        [("host validators", "HostValidator.*")],
        ["HostValidator.is_valid and the is_valid_* methods", "ValidityState"],
    ),
    prop(
        "C15",
        "Operations are isolated: no aliasing, no memory of earlier calls",
        "Parsing or resolving never changes the base or any other existing object, and changing one URL, URL record or search parameters object never changes another, even one derived from it or parsed from the same string. The result of every operation depends only on its arguments and the object's own history, not on which calls were made before or in what order, nor on the locale, hash seed, options or directory of the process.",
        ["histories", "inputs"],
        "every sequence of operations over several live objects",
        "unit tests build one object at a time and look only at it",
        [
            ("copying of base components", "BasicURLParser._parse_relative/_parse_file/_parse_no_scheme"),
            ("module-level state", "IDNA._cache, module constants"),
        ],
        ["all components of all live objects after each step"],
        REC + PARAMS,
    ),
    prop(
        "C16",
        "Concurrent use of the library gives the sequential results",
        "Threads that parse, validate, resolve against a shared base, read a shared URL, or mutate URL and search parameter objects of their own obtain, under every interleaving, exactly the results each would obtain running alone, and leave shared objects they only read unchanged. No interleaving deadlocks or raises an error.",
        ["schedules"],
        "every interleaving of two threads running library operations on independent objects or shared read-only ones",
        "the test suite is single-threaded",
        [
            ("class-level caches and shared module state", "IDNA._create_instance, module constants, get_logger"),
            ("per-call parser state", "BasicURLParser.parse and _parse_* locals"),
        ],
        ["return values and exceptions of each thread's calls"],
        [("shared state", "ICU instance cache, loggers, module constants", P + " IDNA._cache")],
    ),
    prop(
        "C17",
        "Origins are computed and compared as the standard defines",
        "The origin of a URL is the tuple of scheme, host and port for http, https, ws, wss and ftp, the origin of the inner http, https or file URL for blob, and opaque (serialized 'null') otherwise; it depends on nothing but those components and its serialization omits a default port. Two tuple origins are same-origin exactly when all three agree, and same origin-domain exactly when schemes and non-null domains agree or both domains are null and they are same-origin.",
        ["inputs", "histories"],
        "every URL (parsed or modified) and every pair of origins",
        "tests check listed origins one at a time; relations between pairs and after modification are not covered",
        [("origin", "URLRecord.origin, Origin, URL.origin")],
        ["URL.origin", "URLRecord.origin", "Origin.is_same_origin/is_same_origin_domain"],
    ),
    prop(
        "C18",
        "A legacy encoding affects only the query, as the standard says",
        "Parsing with an encoding other than UTF-8 gives the same result as without it except for the query of a special URL that is not ws or wss, where code points are encoded with that encoding before percent-encoding and unencodable ones become percent-encoded decimal character references. A base given as a string is parsed with the same encoding. UTF-16 labels behave as UTF-8, labels are case-insensitive, and the form serializer encodes names and values by the same rule.",
        ["inputs", "configurations"],
        "every string, every scheme class, base, encoding label and code point",
        "tests check a few strings in three encodings",
        [
            ("encoding selection", "BasicURLParser.parse, _parse_query"),
            ("encode with character references", "string_percent_encode, urlencode"),
        ],
        ["parse_url(s, base, encoding)", "urlparse(..., encoding=)", "string_percent_encode(encoding=)", "urlencode(encoding=)"],
    ),
    prop(
        "C19",
        "The urlparse replacement splits exactly the parsed URL",
        "For every string and base, the urlparse replacement fails exactly when parsing fails and otherwise returns the parsed URL's scheme, authority (credentials, host and port as serialized), path up to the first ';', parameters after it, query and fragment. With fragments disallowed, nothing is lost: the fragment is appended, with '#', to the last non-empty of query, parameters and path.",
        ["inputs", "configurations"],
        "every string, base, encoding and setting of allow_fragments",
        "tests cover a dozen strings",
        [("urlparse", "urlparse")],
        ["urlparse(...)"],
    ),
    prop(
        "C20",
        "URL equality is an equivalence that is exactly serialization equality",
        "Two URLs (objects or records) compare equal exactly when their serializations are equal, or equal without their fragments when fragments are excluded; this is reflexive, symmetric and transitive, whatever strings or histories produced the URLs. Comparing with any other kind of object is false, never an error, and comparing changes nothing.",
        ["inputs", "histories"],
        "every pair and triple of URLs however obtained",
        "tests compare a few hand-picked pairs",
        [("comparison", "URL.equals/__eq__, URLRecord.equals/__eq__")],
        ["==, !=, equals()"],
    ),
    prop(
        "C21",
        "Dot segments and drive letters are normalized and cannot escape",
        "For every path or relative reference, the resulting path contains no single- or double-dot segment in any spelling (including percent-encoded dots) and equals the result of removing dot segments from the merged path; climbing above the root stays at the root. In a file URL a drive letter is normalized to letter-colon and cannot be climbed out of, and a path can never turn into an authority when the URL is serialized and parsed again.",
        ["inputs", "histories"],
        "every sequence of path segments, in every spelling, for every scheme class and base, by parsing or by assignment",
        "tests list some dot-segment spellings; sequences of them with bases and drive letters are a product",
        [
            ("path state and shortening", "BasicURLParser._parse_path, URLRecord.shorten_path"),
            ("dot segment spellings", "SINGLE_DOT_PATH_SEGMENTS, DOUBLE_DOT_PATH_SEGMENTS"),
            ("'/.' guard", "URLRecord.serialize_url"),
        ],
        ["URL.pathname", "URLRecord.path"],
    ),
    prop(
        "C22",
        "Every reachable URL is well formed; components never leak",
        "Every URL reachable by parsing, resolving and assigning satisfies the standard's invariants: a scheme of lower-case letters, digits, '+', '-', '.' starting with a letter; a host and list path for special schemes (non-empty host unless file); no credentials or port without a host or with file; a port in 0..65535 that is not the scheme's default; no delimiter of another component inside a component. The serialization is the concatenation of the exposed components, and each attribute agrees with the record.",
        ["inputs", "histories"],
        "every URL reachable by any sequence of parses and assignments",
        "tests check expected values of listed results, not invariants of all results",
        [
            ("URL record invariants", "BasicURLParser, URL setters, URLRecord"),
        ],
        ["URL attributes", "parse_url record fields"],
        REC,
    ),
    prop(
        "C23",
        "Surrounding spaces and embedded tabs or newlines do not matter",
        "Adding any C0 controls or spaces at either end of an input or a base, or ASCII tabs and newlines anywhere in it, never changes the outcome of parsing, nor do tabs and newlines added after the first character of a value assigned to protocol, host, hostname, port, pathname, search or hash change the outcome of the assignment. No other code point is ever dropped from an input.",
        ["inputs"],
        "every string, every insertion of such characters at any set of positions",
        "tests insert whitespace at a few places in a few URLs",
        [("stripping and removal", "BasicURLParser.parse, LEADING_AND_TRAILING_C0_CONTROL_OR_SPACE_RE, ASCII_TAB_OR_NEWLINE_RE")],
        ["URL(s) attributes", "URL attributes after assignment"],
    ),
    prop(
        "C24",
        "Logging configuration never changes results",
        "Every parsing, validation and assignment result, including the contents of a report object, is the same whatever the logging configuration of the program: any level, handlers, disabled loggers, logging disabled globally, a custom logger class installed before or after import, or loggers created before import. With a report object whose logging is disabled nothing is logged, and without one every validation error is logged, by a logger under `urlstd`. Importing and using the library leaves the logging configuration of the program as it is, and nothing gets past a level set on, or propagation switched off at, the logger `urlstd`.",
        ["configurations", "inputs"],
        "every logging configuration x every input",
        "tests run under pytest's single logging configuration",
        [
            ("logger class and creation", "_Logger, get_logger"),
            ("suppression", "ValidityState.disable_logging"),
        ],
        ["results of the public functions", "log records"],
    ),
    prop(
        "C25",
        "Conversions of a domain to ASCII and to Unicode are consistent",
        "The conversions of a domain to ASCII and to Unicode, strict or not, give for every string what UTS #46 non-transitional processing gives with the standard's options, or raise the library's URL parse error. Where the conversion to ASCII succeeds its result is ASCII and is its own ASCII form, it has the same Unicode form as the original domain, and that Unicode form is its own Unicode form and converts back to the same ASCII form. What the strict conversion to ASCII accepts the other accepts with the same result.",
        ["inputs"],
        "every domain string, strict and not",
        "the tests list conversions of single domains; that the two functions are consistent with each other and in both modes is a relation over all domains",
        [
            ("conversions", "IDNA.domain_to_ascii, IDNA.domain_to_unicode"),
            ("options, ignored errors and cached converters", "IDNA._create_instance"),
        ],
        ["IDNA.domain_to_ascii(s, strict)", "IDNA.domain_to_unicode(s, strict)"],
    ),
    prop(
        "C26",
        "The low-level parser and URL records agree with the standard",
        "For every string and base the basic parser, parse_url and the URL class accept the same inputs and produce the same record, whichever way the arguments are given. For every record, parsed or put together from its fields, the predicates (special, not special, includes credentials, opaque path, cannot have a username, password or port), the origin and the serializers of host, path and URL, with or without fragment, answer exactly as the standard defines them from its fields, and asking changes nothing. Given an existing record and a state override that the standard's setters use, the basic parser changes that record in place as the standard says, and returns it.",
        ["inputs", "histories"],
        "every input and base, every record, every sequence of state overrides",
        "the tests call the record API on a handful of records and state overrides only through single setters",
        [
            ("the parser with a record and a state override", "BasicURLParser.parse"),
            ("predicates and serializers", "URLRecord"),
            ("URL parser", "parse_url"),
        ],
        ["BasicURLParser.parse(s, base, encoding, url, state_override)", "parse_url(s, base)", "URLRecord methods and fields"],
        REC,
    ),
]

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
