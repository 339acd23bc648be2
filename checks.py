"""The properties this framework decides: which analyses run, on which configurations, and what they need to see."""

# AArch64 code generated from this machine's own C and C++ headers (only their declarations matter here)
NEON = ["--target=aarch64-linux-gnu", "-D__x86_64__", "-isystem", "/usr/include/c++/13",
        "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu"]

CONFIGS = {
    "sse2": {"driver": "handlers.cpp"},
    "scalar": {"driver": "handlers.cpp", "flags": ["-DJS_DISABLE_SIMD"]},
    "avx2": {"driver": "handlers.cpp", "flags": ["-mavx2", "-msse4.2"]},
    "tok": {"driver": "tokens.cpp"},
    "tok-scalar": {"driver": "tokens.cpp", "flags": ["-DJS_DISABLE_SIMD"]},
    "tok-avx2": {"driver": "tokens.cpp", "flags": ["-mavx2", "-msse4.2"]},
    "tok-neon": {"driver": "tokens.cpp", "flags": NEON},
    "text": {"driver": "text.cpp", "flags": ["-fstandalone-debug"]},
    "members": {"driver": "members.cpp", "flags": ["-fstandalone-debug"]},
    "numbers": {"driver": "numbers.cpp", "flags": ["-fstandalone-debug"]},
    "output": {"driver": "output.cpp", "flags": ["-fstandalone-debug"]},
    "calls": {"driver": "calls.cpp", "flags": ["-fstandalone-debug"]},
    "text-scalar": {"driver": "text.cpp", "flags": ["-fstandalone-debug", "-DJS_DISABLE_SIMD"]},
    "text-avx2": {"driver": "text.cpp", "flags": ["-fstandalone-debug", "-mavx2", "-msse4.2"]},
}

COMMON = [
    "clang 18's lowering of the driver (-O0, SROA) to LLVM IR represents the source faithfully",
    "stores through pointers the analysis cannot resolve do not overwrite the tracked context fields",
]

TOK_JOBS = [{"config": "tok", "args": ["tokens", "k=4", "flags=a"]},
            {"config": "tok", "args": ["tokens", "k=5"]},
            {"config": "tok", "args": ["tokens", "k=3", "flags=ancm"]},
            {"config": "tok", "args": ["tokens", "k=2", "queue"]},
            {"config": "tok", "args": ["tokens", "k=2", "refill"]},
            {"config": "tok", "args": ["tokens", "k=3", "flags=m"]},
            {"config": "tok", "args": ["tokens", "k=3", "flags=n"]},
            {"config": "tok", "args": ["tokens", "k=3", "flags=c"]},
            {"config": "tok-scalar", "args": ["tokens", "k=3"]},
            {"config": "tok-avx2", "args": ["tokens", "k=3"]},
            {"config": "tok", "args": ["tokens", "k=1", "queue", "flags=ancm"]},
            {"config": "tok", "args": ["tokens", "k=1", "refill", "flags=ancm"]}]
TOK_DEEP = ([{"config": "tok", "args": ["tokens", "k=5", "flags=a"]}, {"config": "tok", "args": ["tokens", "k=6"]},
             {"config": "tok", "args": ["tokens", "k=4", "flags=ancm"]}, {"config": "tok", "args": ["tokens", "k=2", "refill", "flags=ancm"]},
             {"config": "tok-scalar", "args": ["tokens", "k=4", "flags=ancm"]}] +
            [{"config": "tok", "args": ["tokens", "k=3", "flags=" + f]}
             for f in ("an", "ac", "am", "nc", "nm", "cm", "anc", "anm", "acm", "ncm")])
TOK_HOW = ("The tokenizer's code is interpreted abstractly, to a fixpoint over its states between two tokens, on an input of "
           "unknown bytes that arrives in buffers of 1..k bytes (k up to 5 for the default options, 3 or 4 for the others), "
           "in lock step with a reference automaton of the documented grammar; nesting depth, number of tokens and number "
           "of buffers are not bounded.")
TOK_ASSUME = COMMON + [
    "buffers hold at most k bytes (k as listed per configuration) and no NUL byte; larger buffers reach the same code, and the "
    "vector code used from 16 bytes on is decided separately (P09)",
    "at most two buffers are registered at a time; when the request callback delivers data it delivers one buffer of at most 2 bytes per call",
    "scopes, copy buffers and token lists are not in use",
]
TOK_FLOORS = {"boundary_states": 5000, "token_returns": 10000, "option_sets": 10, "functions_followed": 100}

def _long(config, size, window, fill, flags=""):
    return {"config": config, "args": ["tokens", "k=1", "long=%d" % size, "window=%d" % window, "fill=%d" % ord(fill)] +
            (["flags=" + flags] if flags else [])}


SIMD_JOBS = ([_long("tok", 31, 1, " ", "am"), _long("tok", 31, 1, "x", "m"), _long("tok-neon", 31, 1, " ", "m"),
              _long("tok", 17, 1, "x", "a"), _long("tok-neon", 17, 1, "x", "a")] +
             [_long(c, 17, 2, f) for f in "1 x\\" for c in ("tok", "tok-neon")] +
             [_long("tok-avx2", 33, 1, f) for f in " x\\"] +
             [_long("tok-avx2", 17, 2, "1"), _long("tok", 17, 1, "x", "mn"), _long("tok-neon", 17, 1, "x", "mn")])
SIMD_DEEP = ([_long("tok-avx2", 63, 1, f) for f in "x "] +
             [_long(c, 31, 1, "x", "am") for c in ("tok", "tok-neon")] + [_long("tok-neon", 31, 1, " ", "am")] +
             [_long("tok-avx2", 33, 1, f, "am") for f in "x "] +
             [_long(c, 17, 2, f, "a") for f in " x1" for c in ("tok", "tok-neon")] +
             [_long(c, 34, 2, f) for f in "x \\" for c in ("tok", "tok-neon", "tok-avx2")])

CHECKS = {
    "P09": {
        "level": "other",
        "explanation": "The tokenizer analysis of P04-P06 on long buffers, in builds with SSE2, SSE4.2/AVX2 and NEON: besides single "
        "unknown bytes the input arrives in buffers of 17, 31 or 33 bytes that hold one repeated character (space, letter, digit "
        "or backslash) except for a window of one or two unknown bytes at any position. All rules of P04-P06 apply.",
        "rules": ["released-input", "outside-input", "release", "stalls", "empty-stack", "wrong-text", "lost-token", "spurious-token",
                  "wrong-kind-token", "position", "container-stack", "rejects-valid", "accepts-malformed"],
        "jobs": SIMD_JOBS, "thorough_jobs": SIMD_DEEP,
        "floors": {"boundary_states": 15000, "token_returns": 20000, "option_sets": 15, "vector_loads": 5000},
        "assumptions": COMMON + [
            "long buffers consist of one repeated character except for a window of one or two unknown bytes; no NUL byte",
            "one buffer is registered at a time; scopes, copy buffers and token lists are not in use",
            "the NEON build is compiled against this machine's C and C++ headers"],
    },
    "P07": {
        "level": "other",
        "explanation": "The tokenizer analysis of P04-P06, where in addition the tokenizer is reset to new unknown text from every "
        "state it can reach between two calls, after an error included; the reference automaton starts afresh there. All rules of "
        "P04-P06 apply to what follows.",
        "rules": ["reset", "release", "released-input", "outside-input", "stalls", "empty-stack", "wrong-text", "lost-token",
                  "spurious-token", "wrong-kind-token", "position", "container-stack", "rejects-valid", "accepts-malformed"],
        "jobs": [{"config": "tok", "args": ["tokens", "k=3", "reset"]},
                 {"config": "tok", "args": ["tokens", "k=2", "reset", "flags=ancm"]},
                 {"config": "tok", "args": ["tokens", "k=2", "reset", "queue"]},
                 {"config": "tok", "args": ["tokens", "k=3", "reset", "flags=m"]},
                 {"config": "tok", "args": ["tokens", "k=3", "reset", "flags=a"]},
                 {"config": "tok-scalar", "args": ["tokens", "k=2", "reset"]}],
        "thorough_jobs": [{"config": "tok", "args": ["tokens", "k=4", "reset"]},
                          {"config": "tok", "args": ["tokens", "k=4", "reset", "flags=a"]},
                          {"config": "tok", "args": ["tokens", "k=3", "reset", "flags=ancm"]}],
        "floors": {"states_reset": 8000, "boundary_states": 5000, "token_returns": 10000, "option_sets": 6},
        "assumptions": TOK_ASSUME + ["one buffer is registered when the reset happens; the start index is 0 or 1"],
    },
    "P10": {
        "level": "other",
        "explanation": "Abstract interpretation of the std::string reader and writer and of the map key reader and writer, the standard "
        "library's string and map code included, in a domain of byte values as functions of the unknown bytes of the text: lengths "
        "and addresses are known, bytes are not. What is handed over on each path is compared with the JSON definition of escapes "
        "for all values the bytes can still have there. Rules: what is written is a legal JSON string body that stands for the text, "
        "what is read is the text the string body stands for, nothing outside the text and the memory obtained is touched.",
        "rules": ["wrong-encoding", "wrong-decoding", "outside", "throws", "no-result"],
        "jobs": [{"config": "text", "args": ["text", "in", "long=17"], "shards": 8},
                 {"config": "text", "args": ["text", "out", "long=17,33,40"], "shards": 2},
                 {"config": "text-avx2", "args": ["text", "out", "long=17,33,40"], "shards": 2},
                 {"config": "text-scalar", "args": ["text", "out", "long=17"]}],
        "thorough_jobs": [{"config": "text", "args": ["text", "in", "deep", "long=17,33"], "shards": 16},
                          {"config": "text", "args": ["text", "out", "deep", "long=17,40,70"], "shards": 8},
                          {"config": "text-avx2", "args": ["text", "out", "deep", "long=17,40,70"], "shards": 8}],
        "floors": {"texts_shapes": 1200, "texts_read": 30000, "texts_written": 8000},
        "assumptions": [COMMON[0],
            "texts of up to 2 (writing) or 3 (reading) unknown bytes, all escapes of the form \\uXXXX with unknown digits and "
            "surrogate pairs with either half unknown, and texts of 17 to 40 bytes with a window of one or two unknown bytes in "
            "a repeated character",
            "memory allocation does not fail; the search tree behind std::map is not rebalanced",
            "string tokens contain no unescaped quote and do not end in a lone backslash (P05)"],
    },
    "P12": {
        "level": "other",
        "explanation": "Abstract interpretation (the engine of P10) of the struct reader and writer and of the enum reader and writer for "
        "structs with base classes, renamed members, aliases that collide with other members' names and three kinds of optional "
        "members. The bytes of the names in the input are unknown, every value reader may succeed or fail, the tokenizer may fail at "
        "every call, all three options take both values. What happened on each path (members read, result, members reported) is "
        "compared with a reference for all names the path stands for.",
        "rules": ["wrong-member", "wrong-result", "wrong-report", "wrong-members-written", "wrong-name-written", "wrong-enumerator",
                  "reads-past-end", "outside", "throws"],
        "jobs": [{"config": "members", "args": ["members"], "shards": 8}],
        "thorough_jobs": [{"config": "members", "args": ["members", "deep"], "shards": 16}],
        "floors": {"object_shapes": 60, "paths_judged": 15000, "name_combinations_compared": 1000000},
        "assumptions": [COMMON[0],
            "the structs and enums of driver/members.cpp stand for all: member tables are built by the same macros and templates for every type",
            "objects with up to two members with unknown names of up to 4 bytes, or with all members present and one name unknown",
            "value readers leave the last token of their value behind (P03); memory allocation does not fail",
            "names are compared as they stand in the input, escapes in names are not decoded (as documented by the tests)"],
    },
    "P13": {
        "level": "other",
        "explanation": "Abstract interpretation (the engine of P10) of callFunctions for a class with functions of all twelve forms "
        "(argument, result, context), aliases that collide with other functions' names, base classes and a virtual function. The bytes "
        "of the names are unknown, reading an argument and fetching a token may fail everywhere, functions may report errors, both "
        "options take both values. What was read, called, written and recorded on each path is compared with a reference.",
        "rules": ["wrong-call", "wrong-output", "wrong-report", "wrong-result", "reads-past-end", "outside", "throws"],
        "jobs": [{"config": "calls", "args": ["calls"], "shards": 8}],
        "thorough_jobs": [{"config": "calls", "args": ["calls", "deep"], "shards": 32}],
        "floors": {"call_shapes": 35, "paths_judged": 12000, "name_combinations_compared": 150000},
        "assumptions": [COMMON[0],
            "the class of driver/calls.cpp stands for all: function tables are built by the same macros and templates for every class",
            "one call with an unknown name of up to 3 bytes, or a call of each function followed by one with an unknown one byte name, "
            "and some sequences of three and four calls",
            "argument readers leave the last token of their value behind (P03); goToEndOfScope goes to the end of the value at which "
            "pushScope was called; memory allocation does not fail",
            "names are compared as they stand in the input"],
    },
    "P16": {
        "level": "other",
        "explanation": "Abstract interpretation (the engine of P10) of Serializer and SerializerContext, std::function and std::string "
        "included, for sequences of tokens. The bytes of names and values are unknown; styles, indentation, depth, delimiter and ascii "
        "options, kinds of tokens, the sizes of all buffers and the requests for buffers that are refused are enumerated. The bytes "
        "found in the buffers are compared with a reference of the layout.",
        "rules": ["wrong-text", "wrong-text-after-refusal", "wrong-result", "gap", "outside", "throws"],
        "jobs": [{"config": "output", "args": ["output"], "shards": 8}],
        "thorough_jobs": [{"config": "output", "args": ["output", "deep"], "shards": 32}],
        "floors": {"configurations": 350, "paths_judged": 25000, "tokens_judged": 50000, "buffer_requests": 8000},
        "assumptions": [COMMON[0],
            "sequences of two tokens from every depth up to 7 (the state a token leaves behind is the depth, whether a container was just "
            "opened, and the buffer); first output buffers of every size up to 20 followed by one of 1 or 2 bytes or none, sequences of "
            "buffers of 1, 2 or 3 bytes, strings of 0 to 16, 4096 and more bytes",
            "a closing bracket is written with the text of the bracket; memory allocation does not fail"],
    },
    "P15": {
        "level": "other",
        "explanation": "Abstract interpretation (the engine of P10) of the readers and writers of all integer types and bool, and of the "
        "readers of float and double up to the conversion of the decimal number. Of the text (of the value, when writing) some characters "
        "(one byte) are unknown, at every position around the limits of the type and in all parts of a number; arithmetic on several "
        "unknown characters is split into cases. The value read, or the decimal number converted, and the text written are compared "
        "with a reference for all values of the unknown characters.",
        "rules": ["wrong-value", "wrong-text", "rejects-valid", "accepts-malformed", "outside", "throws"],
        "jobs": [{"config": "numbers", "args": ["numbers"], "shards": 8}],
        "thorough_jobs": [{"config": "numbers", "args": ["numbers", "deep"], "shards": 32}],
        "floors": {"text_shapes": 1500, "paths_judged": 10000, "values_compared": 50000},
        "assumptions": [COMMON[0],
            "texts have at most three unknown characters, the other digits are those of the limits of the type or a fixed pattern; values "
            "written have one unknown byte, the others are 00, 7f, 80, ff or 5a",
            "the conversion of a decimal number to binary floating point, and back, is not analysed (N01)"],
    },
    "P04": {
        "level": "other",
        "explanation": TOK_HOW + " Rules: every read lies inside the registered buffer, no read and no returned text refers to a "
        "buffer given back, each used up buffer is released once by its start, more data is asked for only when all is used.",
        "rules": ["released-input", "outside-input", "release", "stalls", "empty-stack"],
        "jobs": TOK_JOBS, "thorough_jobs": TOK_DEEP, "floors": dict(TOK_FLOORS, input_accesses=10000), "assumptions": TOK_ASSUME,
    },
    "P05": {
        "level": "other",
        "explanation": TOK_HOW + " Rules: each token returned is the one due, with its kind, name and text; none is lost or invented.",
        "rules": ["wrong-text", "lost-token", "spurious-token", "wrong-kind-token", "position", "container-stack", "rejects-valid",
                  "accepts-malformed", "released-input"],
        "jobs": TOK_JOBS, "thorough_jobs": TOK_DEEP, "floors": TOK_FLOORS, "assumptions": TOK_ASSUME,
    },
    "P06": {
        "level": "other",
        "explanation": TOK_HOW + " Rules: no token is returned once the input cannot be continued to a document of the grammar the "
        "options select; no error is returned while it can.",
        "rules": ["accepts-malformed", "rejects-valid", "spurious-token", "lost-token", "wrong-kind-token", "container-stack"],
        "jobs": TOK_JOBS, "thorough_jobs": TOK_DEEP, "floors": dict(TOK_FLOORS, error_returns=10000), "assumptions": TOK_ASSUME,
    },
    "P01": {
        "level": "other",
        "explanation": "Disjunctive finite-domain abstract interpretation, to a fixpoint, of every reader, every parse "
        "entry point and every token-map entry point instantiated by the driver; token fetches and nested reads are "
        "modelled as succeeding or failing with any error, all other library code is followed through its calls.",
        "rules": ["dropped-error", "consume-after-error", "stale-error"],
        "jobs": [{"config": "sse2", "args": ["reader", "dropped-error", "consume-after-error", "stale-error"], "shards": 16}],
        "floors": {"readers": 60, "parse_entry_points": 55, "map_entry_points": 7},
        "assumptions": COMMON,
    },
    "P02": {
        "level": "other",
        "explanation": "For every reader and every kind of first token, the same abstract interpretation decides "
        "whether a success return is reachable; nested readers contribute the kinds they accept themselves.",
        "rules": ["wrong-kind"],
        "jobs": [{"config": "sse2", "args": ["reader", "wrong-kind"], "shards": 16}],
        "floors": {"kind_checked_readers": 30},
        "assumptions": COMMON,
    },
    "P03": {
        "level": "other",
        "explanation": "Each reader is run against an abstract token stream with an explicit stack of open brackets: a "
        "success return must leave exactly the brackets of its own value closed, and no token beyond may be fetched.",
        "rules": ["not-exact"],
        "jobs": [{"config": "sse2", "args": ["reader", "not-exact"], "shards": 16}],
        "floors": {"readers": 60},
        "assumptions": COMMON + ["bracket nesting inside one value is explored to depth 3 relative to the reader; deeper "
                                 "nesting is cut off"],
    },
    "P08": {
        "level": "other",
        "explanation": "Abstract interpretation of every writer against a bracket automaton (one value, balanced, names "
        "exactly inside objects), and of Serializer::write for every token kind, position, style and a representative of "
        "every class of depth, collecting the sequence of texts that can reach the output and the state left behind.",
        "rules": ["two-values", "name-in-array", "unnamed-member", "stale-name", "unknown-kind", "bracket-text", "unbalanced",
                  "name-on-end", "no-value", "number-cut", "leaks-name", "false-failure", "lost-failure", "emit-order", "emit-state"],
        "jobs": [{"config": "sse2", "args": ["writer"]}],
        "floors": {"writers": 60, "write_sites": 200, "emit_cases": 1000, "emit_sites": 6},
        "assumptions": COMMON + [
            "converting a number into a buffer that can hold its longest text succeeds",
            "once a write has failed, later writes fail too",
            "the indentation and line-end strings of the options contain white space only",
            "token lists replayed verbatim (JS::Map, JsonTokens, std::vector<Token>) are as balanced as the list itself"],
    },
    "P11": {
        "level": "other",
        "explanation": "Flow-insensitive interprocedural derivation of every address reachable from each variable of "
        "static or thread storage duration; any write outside its guarded initialisation is reported, as is any call "
        "of a C-library routine with hidden process-wide state.",
        "rules": ["global-written", "hidden-state"],
        "jobs": [{"config": c, "args": ["globals"]} for c in ("sse2", "scalar", "avx2")],
        "floors": {"library_functions": 1000, "external_calls": 500},
        "assumptions": ["const-qualified access does not cast constness away", "user code called back by the library is out of scope"],
    },
    "P14": {
        "level": "other",
        "explanation": "For each error code, abstract interpretation of both report functions with that code collects "
        "which code names and which member lists can reach the text.",
        "rules": ["error-name", "error-members"],
        "jobs": [{"config": "sse2", "args": ["errnames"]}],
        "floors": {"codes": 60},
        "assumptions": COMMON,
    },
}
