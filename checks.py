"""The checks: which harness, over which libraries, how many cases, per property."""
LIBS = ["rapidjson", "rapidjson_crt", "nlohmann", "jsoncpp", "picojson", "boostjson", "poco", "qtjson", "qvariant", "json11"]
ALL = LIBS + ["yaml", "ptree"]


def B(main, libs=LIBS, **kw):
    return dict(main=main, libs=libs, **kw)


def S(name, binary, quick, thorough, mode=None, **kw):
    return dict(name=name, bin=binary, quick=quick, thorough=thorough, mode=mode or name, **kw)


CHECKS = {}

CHECKS["C01"] = dict(
    level="exploration",
    rule="a case is a random draft 7 schema with 12 instances generated from it, or (bulk7) one keyword with many parts (up to hundreds of properties, items, branches, values, ...) and instances of similar sizes; a (schema, instance) pair counts as non-trivial when the schema accepted some and rejected others of its instances",
    distinct=["pairs"],
    least={"valid": 20000, "invalid": 20000, "schemas": 4000},
    stages=[S("d7", B("m_sem"), 24000, 1500000), S("bulk7", B("m_sem"), 2000, 60000)],
    assumptions=["reference evaluator harness/ref.hpp states the draft correctly", "regular expressions restricted to patterns with hand-written predicates",
                 "numbers below 2^53; multipleOf with fractions only below 1e9"],
)
CHECKS["C02"] = dict(
    level="exploration",
    rule="a case is a random draft 3 or draft 4 schema with 12 instances generated from it, or (bulk4) one keyword with many parts and instances of similar sizes; a (schema, instance) pair counts as non-trivial when the schema accepted some and rejected others of its instances",
    distinct=["pairs"],
    least={"valid": 20000, "invalid": 20000, "schemas": 4000},
    stages=[S("d4", B("m_sem"), 14000, 800000), S("d3", B("m_sem"), 14000, 800000), S("bulk4", B("m_sem"), 2000, 60000)],
    assumptions=["reference evaluator harness/ref.hpp states the drafts correctly", "draft 3 'disallow' is not supported by valijson and not generated",
                 "instances and schemas without integral floating-point literals (1.0 is an integer to valijson in every draft)"],
)
CHECKS["C03"] = dict(
    level="exploration",
    rule="a case is a set of schemas referring to each other, written as one document (pointers, plain-name and embedded identifiers) with 14 instances judged by the label-linked model; or (slots) a document in which every place that can hold a schema is referred to by pointer, judged through the schema standing there; a (document, instance) pair counts as non-trivial when the document accepted some and rejected others of its instances",
    distinct=["pairs"],
    least={"valid": 15000, "invalid": 15000, "references": 8000},
    stages=[S("ptr", B("m_refs"), 6000, 400000), S("any", B("m_refs"), 6000, 400000), S("deep", B("m_refs"), 1600, 40000),
            S("slots", B("m_refs"), 3000, 200000), S("fixed", B("m_refs"), 12, 12, shards=1)],
    assumptions=["references inside subschemas with embedded identifiers name that subschema or identified ones inside it (other forms: known findings, stage fixed)",
                 "no draft 3 'required' in referenced schemas"],
)
CHECKS["C04"] = dict(
    level="fault_enumeration",
    rule="a case is a set of schemas spread over up to 5 documents, populated without faults, with every single fetch failing, throwing, or yielding a malformed document, without callbacks, with one callback only, and three times through one parser; non-trivial distinct: (documents, fault) combinations with at least one fetch",
    distinct=["faults", "pairs"],
    least={"fetches": 3000, "fault_injected": 3000, "fault_runtime_error": 8000},
    stages=[S("remote", B("m_remote"), 3000, 400000)],
    exhaustive="for each generated document set, the fault position (each fetch) is enumerated completely for each fault kind",
    assumptions=["documents are served under URIs ending in a file name"],
)

VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes", "--num-callers=25"]
CHECKS["C05"] = dict(
    level="exploration",
    rule="a case is one hostile schema (random, mutated, with odd references and identifiers; or spoilt text) compiled and used to validate hostile instances with all type and date modes, with and without results, in one of 11 libraries, in a build with AddressSanitizer, UndefinedBehaviorSanitizer, float-cast-overflow and libstdc++ assertions (plus a smaller valgrind run for uninitialised reads); every third case is repeated and the bytes in use compared; distinct: documents and texts",
    distinct=["documents", "texts"],
    least={"evaluations": 100000, "leak_measurements": 3000, "rejected": 1000, "compiled": 8000, "vg.evaluations": 200},
    stages=[S("docs", B("m_safety", ALL), 16000, 1200000), S("texts", B("m_safety", ALL), 16000, 1200000),
            S("vg", B("m_safety", ALL, variant="plain", opt="-O1"), 352, 24000, mode="docs", wrap=VALGRIND),
            S("vgt", B("m_safety", ALL, variant="plain", opt="-O1"), 352, 24000, mode="texts", wrap=VALGRIND)],
    assumptions=["documents nested at most about 45 levels and strings of at most 300 characters (std::regex recursion)", "references consume a level of the instance", "YAML without aliases"],
)

CHECKS["C06"] = dict(
    level="exploration",
    rule="a case is a schema (random with known failing places, or hostile) with instances, each validated without and with results by one library; every error's context and pointer is resolved independently and compared with the set of places where a keyword may or must fail; distinct: sets of errors",
    distinct=["error_sets"],
    least={"evaluations": 100000, "errors": 100000, "failing_keywords": 20000},
    stages=[S("places", B("m_errors", ALL), 20000, 1500000), S("hostile", B("m_errors", ALL), 10000, 800000), S("bulk", B("m_errors", ALL), 800, 30000)],
    assumptions=["several failing children of allOf/extends: only the first one's errors are required", "the order of errors is not specified"],
)
CHECKS["C07"] = dict(
    level="exploration",
    rule="a case is a schema with six instances, compiled and validated in ten typed libraries (built through their API, or parsed from the same text), with verdicts and error lists compared; or a schema held in one library validating instances held in others (loose: with weak types); or a document whose adapter is walked along every access path and compared with the document; distinct: pairs and documents",
    distinct=["pairs", "documents"],
    least={"evaluations": 200000, "errors": 20000, "invalid": 20000, "valid": 20000},
    stages=[S("built", B("m_libs", ALL), 8000, 400000), S("text", B("m_libs", ALL), 8000, 400000),
            S("cross", B("m_libs", ALL), 12000, 600000), S("walk", B("m_libs", ALL), 24000, 1500000),
            S("loose", B("m_libs", ALL), 8000, 400000)],
    assumptions=["json11 is a stand-in written from its documentation (harness/json11), as the library is not installed",
                 "QtJson and json11 cannot tell 3.0 from 3; Poco's and PicoJson's parsers read integers beyond 2^53 as doubles", "members in the order of their names, as several libraries keep them"],
)
CHECKS["C08"] = dict(
    level="exploration",
    rule="a case is a random document whose values (and property names) are queried through every is/maybe/as/get function, or a value against every form of the type keyword, or a schema with weakly typed instances judged by the weak reference evaluator; distinct: (value, library) combinations",
    distinct=["values", "pairs"],
    least={"conversions": 200000, "to_integer": 2000, "to_double": 3000, "differs_from_strong": 500, "valid": 20000, "invalid": 20000},
    stages=[S("conv", B("m_weak", ALL), 40000, 2500000), S("types", B("m_weak", ALL), 14000, 800000), S("weak", B("m_weak", ALL), 20000, 1200000),
            S("fixed", B("m_weak", ALL), 4, 4, shards=1)],
    assumptions=["numeric strings with leading white space, a plus sign, or naming infinities or NaN are not judged", "equality of empty values of different types among each other is not judged"],
)
CHECKS["C09"] = dict(
    level="exploration",
    rule="a case is a pair of documents (equal, permuted, nearly equal or unrelated) held by two libraries, compared in both directions, as adapters and as frozen copies (with the originals destroyed); or an enum, const or uniqueItems schema in one library with instances in others; distinct: pairs",
    distinct=["pairs"],
    least={"equal": 10000, "unequal": 10000, "comparisons": 100000, "keyword_checks": 20000},
    stages=[S("pairs", B("m_eq", ALL), 30000, 2000000), S("words", B("m_eq", ALL), 20000, 1200000)],
    assumptions=["numbers are int64 or double; NaN is not a JSON value", "json11 keeps numbers as doubles: integers beyond 2^53 are not given to it"],
)
CHECKS["C10"] = dict(
    level="fault_enumeration",
    rule="a case is a life of up to four schemas with custom or default allocation functions (populated with references and fetched documents, moved by construction and assignment, cloned constraint by constraint, destroyed in random order) with verdicts judged by the model after every step and every block accounted for; or one schema populated and used with every allocation of the custom functions (null or exception) and a sweep over every global allocation failing in turn; distinct: (schema, instance) pairs of schemas that accept some and reject others, and histories",
    distinct=["pairs", "histories"],
    least={"moves": 2000, "clones": 2000, "custom_failures": 10000, "global_failures": 30000, "validation_failures": 20000, "pool_blocks": 100000, "valid": 20000, "invalid": 20000},
    stages=[S("lives", B("m_own", []), 4000, 400000), S("faults", B("m_own", []), 600, 20000)],
    exhaustive="for each schema of stage faults: every allocation made through the custom functions fails once by null pointer and once by exception (thorough tier; every n-th, at least 40 of them, in the quick tier)",
    assumptions=["the JSON library does not use the global operator new (RapidJSON with CrtAllocator), so that injected failures are valijson's", "memory held inside constraints built by the parser may come from the global heap"],
)
CHECKS["C11"] = dict(
    level="exploration",
    rule="a case is one year (every month 0-13 with every day 0-32), one time offset (leap seconds at every minute around 23:59 UTC and at other minutes), one hour with random fields in and beyond their ranges, one octet value in every place, or strings a few edits away from valid ones; verdict and number of errors compared with a hand-written recogniser, in both date-time modes; distinct: (format, string) pairs",
    distinct=["strings"],
    least={"valid": 100000, "invalid": 100000, "distinct:years": 1500, "distinct:offsets": 2880},
    stages=[S("days", B("m_format"), 2000, 10000), S("leaps", B("m_format"), 2880, 28800), S("clock", B("m_format"), 2600, 150000), S("near", B("m_format"), 3500, 300000),
            S("ip", B("m_format"), 1010, 20200), S("others", B("m_format"), 1500, 60000)],
    exhaustive="all 2880 time-zone offsets (quick and thorough); all days of the years 0000-9999 (thorough)",
    assumptions=["years are written with four digits; octets without leading zeros", "a missing time zone (permissive mode) is read as UTC", "leap seconds are allowed on every day"],
)
CHECKS["C12"] = dict(
    level="exploration",
    rule="a case is a random document (odd member names, arrays up to 130 elements) with the pointer of each of its places in several percent-encodings, or pointers a small step away from them, resolved in one library and compared with an evaluator written from RFC 6901; distinct: (document, pointer) pairs",
    evals=["pointers"],
    distinct=["pairs"],
    least={"found": 300000, "not_found": 100000, "locations": 100000, "distinct:reasons": 9},
    stages=[S("locate", B("m_ptr"), 12000, 800000), S("near", B("m_ptr"), 24000, 1600000)],
    assumptions=["a percent-encoded slash inside a token, and '~' followed by neither 0 nor 1, are not judged"],
)
CHECKS["C13"] = dict(
    level="exploration",
    rule="a case is a set of (base, reference) pairs resolved and compared with an implementation of RFC 3986 section 5.2, directly and by way of a relative scope; texts classified as absolute, URN or neither and split at '#'; or a schema with nested identifiers whose fetched URI and verdicts are compared; distinct: pairs and texts",
    evals=["resolutions", "through_scope", "classified", "urns", "evaluations", "rows"],
    distinct=["pairs", "texts"],
    least={"resolutions": 300000, "through_scope": 100000, "fetch_cases": 8000, "urns": 50000, "rows": 21},
    stages=[S("resolve", B("m_uri"), 20000, 1500000), S("classify", B("m_uri"), 6000, 400000), S("fetch", B("m_uri"), 16000, 800000), S("table", B("m_uri"), 21, 21, shards=1)],
    assumptions=["the deviations listed in uri.md give either the result listed there or that of RFC 3986", "a base without a path keeps its '/' before a query or fragment"],
)
CHECKS["C14"] = dict(
    level="exploration",
    rule="a case is a numeric keyword with operands at and around the edges of int64, double and every power of two, as integers, doubles or (weak types) strings; a decimal multiple; a size bound up to INT64_MAX; the same in another spelling parsed by the library; or under a C++ locale with grouping and a C locale with decimal comma; compared with exact integer and decimal arithmetic; distinct: (schema, instance) pairs",
    distinct=["pairs"],
    least={"valid": 100000, "invalid": 100000, "under_cpp_locale": 20000, "spellings": 10000, "kw_multipleOf": 20000, "kw_maxLength": 1000},
    stages=[S("bounds", B("m_num"), 3000, 200000), S("multiples", B("m_num"), 8000, 600000), S("others", B("m_num"), 6000, 400000), S("locale", B("m_num"), 4000, 200000),
            S("spelling", B("m_num"), 6000, 400000), S("fixed", B("m_num"), 4, 4, shards=1)],
    assumptions=["bounds of minimum and maximum are representable as double (others: known findings, stage fixed)", "fractional divisors: quotients up to 1e8, as decimals with few digits",
                 "the C locale stage needs localedef; without it only the C++ locale is changed"],
)

THREADLIBS = ["rapidjson", "nlohmann", "picojson", "json11"]
TSAN = dict(libs=THREADLIBS, variant="tsan", opt="-O1")
TSANENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}
CHECKS["C15"] = dict(
    level="exploration",
    rule="a case is 2 to 8 threads started together, each with its own Validator, validating with one shared Schema, or parsing documents of their own (with a remote document that differs per thread), or both; run under ThreadSanitizer with random delays, every verdict and error list compared with that of one thread afterwards; distinct: schemas, and orders in which the validations of a case started",
    distinct=["pairs", "interleavings"],
    least={"valid": 3000, "invalid": 10000, "overlapping_validations": 10000, "distinct:interleavings": 1000, "remote_documents": 500},
    stages=[S("shared", B("m_threads", **TSAN), 1600, 60000, env=TSANENV), S("parse", B("m_threads", **TSAN), 800, 30000, env=TSANENV), S("mixed", B("m_threads", **TSAN), 1200, 40000, env=TSANENV)],
    assumptions=["races inside libstdc++ (std::ctype's cache, filled before the threads start) are not valijson's", "RapidJSON, nlohmann, PicoJson and json11 documents"],
)
CHECKS["C16"] = dict(
    level="exploration",
    rule="a case is a sequence of validations with one Validator (several schemas, libraries and instances; similar, many and invalid patterns; formats), or of documents with one SchemaParser (malformed ones, other documents under the same URI, failing fetches), each compared with new objects; a schema and instances with their members in other orders; or a batch run in two processes with other addresses and other contents of fresh memory; distinct: (schema, instance) pairs",
    distinct=["pairs"],
    least={"valid": 20000, "invalid": 20000, "threw": 300, "malformed": 1500, "well_formed": 1500, "remote_documents": 1000, "two_processes": 2500},
    stages=[S("history", B("m_hist"), 800, 60000), S("parser", B("m_hist"), 900, 60000), S("shuffle", B("m_hist"), 2000, 120000), S("rerun", B("m_hist"), 48, 2400)],
    assumptions=["error lists are compared for the same member order only", "schemas with a pattern that throws are left out of the comparison of member orders"],
)
CHECKS["C17"] = dict(
    level="exploration",
    rule="a case is a set of strings (all UTF-8 lengths, edges of the code point ranges, combining characters, embedded null characters) against minLength and maxLength around their number of code points, as values and as property names; or a random pattern (judged by a backtracking matcher written for the check) against strings near its matches, as value, name, property pattern or through the default engine; distinct: (schema, instance) pairs",
    distinct=["pairs"],
    least={"valid": 10000, "invalid": 10000, "with_null_characters": 1000, "multibyte": 3000, "matches": 5000, "no_match": 5000},
    stages=[S("length", B("m_text"), 8000, 600000), S("pattern", B("m_text"), 9000, 600000)],
    assumptions=["std::regex: no anchors inside lookaheads and no ambiguous nested repetition in generated patterns", "patterns without null characters"],
)
CHECKS["C18"] = dict(
    level="exploration",
    rule="a case is a keyword of a draft with one of 55 values of every type (or a random one), in a random kind of place (under any applicator, behind references, in remote documents) up to three levels deep; a reference that leads nowhere or in circles, in one document or over several; or a well-formed schema with odd content where it has no meaning; judged by the forms the drafts give; distinct: (keyword, value) combinations, places and documents",
    distinct=["forms", "places", "documents"],
    least={"malformed": 20000, "well_formed": 8000, "references": 3000, "distinct:places": 2000},
    stages=[S("forms", B("m_form"), 48000, 1500000), S("references", B("m_form"), 8000, 400000), S("wellformed", B("m_form"), 12000, 600000),
            S("rootcycle", B("m_form"), 1, 1, shards=1, fixed=True)],
    exhaustive="every keyword of each draft with each of the 55 fixed values, twice",
    assumptions=["values that the parser's documented conversions turn into a permitted one (numeric strings, empty values) are not judged", "empty and duplicate lists, unknown type names in draft 3 and identifiers that are not strings are not judged"],
)
CHECKS["C19"] = dict(
    level="exploration",
    rule="a case is a schema with custom keywords whose constraints log every consultation (value, path, answer), judged by the reference evaluator with the keywords replaced by standard ones, with builders, copies and validations that throw; a schema with patterns decided by one of six custom engines; or a schema assembled from the public constraint classes in random order with shared subschemas, with the parsed schema beside it; distinct: pairs and consultations",
    distinct=["pairs", "calls"],
    least={"valid": 20000, "invalid": 20000, "calls": 50000, "made": 10000, "errors": 5000, "builder_failures": 200, "custom_exceptions": 300, "searches": 10000, "constraints": 30000, "recursive_schemas": 300},
    stages=[S("custom", B("m_ext", []), 8000, 600000), S("regex", B("m_ext", []), 8000, 600000), S("hand", B("m_ext", []), 8000, 600000)],
    assumptions=["a builder returns a constraint (not null)", "RapidJSON, nlohmann and PicoJson documents"],
)
CHECKS["C22"] = dict(
    level="exploration",
    rule="a case is a random well-formed schema (or one keyword with many parts) with references, titles, descriptions and identifiers, parsed by a typed library; its constraints as a ConstraintVisitor, apply, applyStrict, the applyTo functions (stopped at every call) and the getters show them are compared with the document, subschema by subschema, for the constraints and for clones of them, and again after moving the Schema twice; distinct: documents",
    distinct=["documents"],
    least={"constraints": 300000, "subschemas": 200000, "metadata": 100000, "references": 6000, "stops": 1000000, "moved": 16000},
    stages=[S("model", B("m_model"), 12000, 800000)],
    assumptions=["an empty schema in dependencies or extends counts as an empty list", "no key twice in one object"],
)
ALLLD = ["-ljsoncpp", "-lyaml-cpp", "-lPocoJSON", "-lPocoFoundation", "-lQt6Core"]
CHECKS["C20"] = dict(
    level="fault_enumeration",
    rule="a case is a file (a document in random spelling and size; the same truncated or corrupted, with null characters, odd bytes, numbers, nesting; or what is no readable file) loaded twice by each library's loader, with different bytes on the stack and heap, into new and used documents, compared with the library's own parser applied to the text of the file; distinct: texts and unreadable files",
    distinct=["texts", "files"],
    least={"valid": 10000, "invalid": 10000, "no_file": 100, "as_generated": 5000, "large_files": 50},
    stages=[S("docs", B("m_load", [], ld=ALLLD), 1600, 100000), S("spoilt", B("m_load", [], ld=ALLLD), 3200, 200000), S("nofile", B("m_load", [], ld=ALLLD), 24, 240, shards=1)],
    assumptions=["what the library itself accepts (comments, trailing text, other forms of numbers) is right; yaml-cpp takes empty files and directories for null", "YAML documents without references to themselves"],
)

CONF = B("m_conf", [], generate="conf")
CHECKS["C21"] = dict(
    level="exploration",
    rule="a case is a schema and six instances, as files, put to worker programs that load, parse and validate in one configuration each: header tree or bundle.sh's output, exceptions enabled or disabled (-fno-exceptions), clang or gcc, C++17 or 20, other string conversions and regular expressions; answers compared byte by byte, and aborts with exceptions; well-formed, mutated, and spoilt texts; distinct: (schema, instances, adapter) and configurations",
    distinct=["pairs", "configurations"],
    least={"evaluations": 40000, "mixed_verdicts": 5000, "aborted": 3000, "messages": 3000, "distinct:configurations": 36},
    stages=[S("build", CONF, 60, 200, shards=1), S("verdicts", CONF, 16000, 400000), S("hostile", CONF, 16000, 400000), S("texts", CONF, 8000, 200000)],
    assumptions=["configurations that the installed compilers and libraries allow (no fast_float, no MSVC)", "Poco and yaml-cpp need exceptions themselves", "with exceptions disabled, what the JSON library throws ends the process"],
)
