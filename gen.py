#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and from checks.py."""
import json, os
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
J = "include/json_struct/json_struct.h"
D = "include/json_struct/json_struct_diff.h"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe),
                        "hook_needed": None}}


PROPS = [
    p("P01", "A failed read is never reported as success",
      "When fetching a token or reading a nested value fails anywhere below a value being parsed, the parse of that value "
      "reports an error, no later token is fetched and no later element is read. When the parse reports success, the "
      "parse context carries no error.",
      ["inputs", "fault_sequences"],
      "every target type the library ships a reader for, every position at which the input can turn out malformed or "
      "truncated, every error code",
      "The tests feed a few malformed documents to a few types; the failure can occur after any token of any type.",
      [J], [("every TypeHandler<T>::to and ParseContext::parseTo checks the result of nextToken and of nested reads", J),
            ("Map::castToType / setValue", J)],
      [("ParseContext::error", "last failure of the context", J)], ["return value of the parse, ParseContext::error"]),
    p("P02", "A value of the wrong JSON kind is rejected",
      "Reading into an array-like target succeeds only on a JSON array, reading into a struct or map only on a JSON object, "
      "reading into an enum only on a string or number, and the optional, nullable and pointer wrappers accept only what "
      "their content accepts (plus null for nullable and pointer wrappers). Plain text, number and boolean targets are "
      "not covered.",
      ["inputs"], "every container, struct, enum and wrapper target and every kind of JSON value offered to it",
      "The tests offer mostly matching values; the mismatch matrix target x kind is barely sampled.",
      [J], [("kind check at the top of each TypeHandler<T>::to", J)], (), ["return value of the parse"]),
    p("P03", "A successful read consumes exactly one value",
      "When reading a value succeeds, the reader has consumed that value up to and including its closing bracket and "
      "nothing beyond it, so the surrounding value continues at the right place.",
      ["inputs"], "every target type, every kind of value and every nesting and length of its content",
      "Whether a reader stops early or runs on depends on the shape of the input (empty, shorter or longer than the "
      "target, unknown members with nested content); tests sample a few shapes.",
      [J], [("loops until the matching ArrayEnd/ObjectEnd in each TypeHandler<T>::to", J),
            ("skipArrayOrObject for unknown members", J)], (), ["position of the token stream after a read"]),
    p("P04", "Tokenizing stays inside the buffers it was given",
      "While producing tokens the tokenizer reads only bytes inside the buffers registered with it, reads no byte of a buffer "
      "after giving it back, returns no token whose name or text lies in a buffer already given back, passes every used up "
      "buffer to the release callback exactly once and by its start address, asks for more data only after all registered "
      "bytes were used, and never looks at or closes a container when none is open.",
      ["inputs", "histories"], "every byte sequence, well formed or not, every way of cutting it into buffers, every option",
      "A read past the end of a buffer or of a released one needs the buffer to end at a particular point of a particular "
      "construct; tests cut a few documents at a few places and do not notice stray reads.",
      [J], [("Tokenizer::nextToken / populateNextTokenFromDataRef / populateFromDataRef", J),
            ("findStringEnd, findNumberEnd, findAsciiEnd, findDelimiter, findStartOfNextValue, findTokenEnd", J),
            ("Tokenizer::releaseFirstDataRef", J)],
      [("Tokenizer::data_list / cursor_index", "registered buffers and the read position", J),
       ("Tokenizer::intermediate_token", "text carried over from released buffers", J)],
      ["memory reads, release callback, NeedMoreData results"]),
    p("P05", "The tokens do not depend on how the input is cut into buffers",
      "For every input and every way of cutting it into buffers (down to single bytes), supplied up front or by the "
      "request callback, the tokenizer returns the same sequence of tokens: each with the kind, the name and the text that "
      "stand in the input, none lost, none invented, none altered, and the same error or none.",
      ["inputs", "histories"], "every document and every way of cutting it, every option",
      "The number of cuts is exponential in the length of the document; tests try a few.",
      [J], [("intermediate token buffer and resume states of Tokenizer::populateNextTokenFromDataRef", J),
            ("is_escaped, comment_state, property_state, token_state carried between buffers", J)],
      [("Tokenizer::token_state / property_state / intermediate_token", "where in a token the previous buffer ended", J)],
      ["tokens returned by Tokenizer::nextToken"]),
    p("P06", "The tokenizer accepts exactly the documented grammar",
      "With default options the tokenizer accepts sequences of JSON objects and arrays only: member names and strings are "
      "quoted, a name is followed by a colon and a value, values are separated by one comma (one comma may trail a scalar "
      "element of an array), brackets match, and a value is an object, an array, a string, a number-like word, true, false "
      "or null. Each option admits only its own extension: unquoted words as names and values, a line break in place of a "
      "comma, a comma before a closing bracket, comments from // to the end of the line. Everything else gives an error, "
      "never a token; nothing that can still become such a document gives an error. The inside of numbers and strings is "
      "not judged here.",
      ["inputs", "configurations"], "every byte sequence without NUL and every setting of the four options",
      "Malformed inputs are unbounded in number; the tests hold a few dozen.",
      [J], [("Tokenizer::populateNextTokenFromDataRef, findDelimiter, findStartOfNextValue, findTokenEnd", J),
            ("allow_ascii_properties, allow_new_lines, allow_superfluous_comma, allow_comments", J),
            ("container_stack checks in Tokenizer::nextToken", J)],
      [("Tokenizer::container_stack", "open brackets", J)], ["tokens and errors returned by Tokenizer::nextToken"]),
    p("P07", "A tokenizer that is reset behaves like a new one",
      "After resetData(data, size, index) the tokenizer behaves as a new one with the same options that was given only the text "
      "from index on, whatever came before: a finished document, a half read token, open containers or an error. The tokens and "
      "errors are those of the new text alone, and a buffer that was still registered has been passed to the release callback "
      "once. Scopes, copy buffers and token lists are not covered.",
      ["inputs", "histories"], "every history of a tokenizer before the reset and every text after it",
      "What is left over depends on where exactly the earlier text stopped or failed; no test resets a tokenizer in use.",
      [J], [("Tokenizer::resetData, resetForNewDocument, resetForNewToken, resetForNewValue", J)],
      [("all members of Tokenizer", "where in a document the tokenizer is", J)],
      ["tokens returned by Tokenizer::nextToken, release callback"]),
    p("P08", "Serialized output has the structure of JSON",
      "Serializing a value writes exactly one JSON value (std::optional, OptionalChecked, the silent types and an empty "
      "OneOrMany may write none): brackets are balanced and of the right kind, members of objects carry their name and "
      "array elements carry none, names and strings are quoted, a name is followed by one colon and one value, "
      "consecutive values are separated by exactly one comma (none when the delimiter is switched off), at every depth "
      "and for every layout option. The buffer a number is converted in holds its longest text. A write that could not store its text reports failure. Token lists replayed "
      "verbatim are outside this property.",
      ["inputs", "configurations"], "every type the library can serialize, every nesting depth, both styles, every indentation",
      "Layout shortcuts depend on depth, indentation and position; tests serialize a few small structures in the default style.",
      [J], [("Serializer::write(const Token &)", J), ("every TypeHandler<T>::from", J)],
      [("Serializer::m_token_start", "the next value is the first of its container", J),
       ("SerializerOptions::m_depth", "number of open brackets", J)], ["text produced by serializeStruct / Serializer"]),
    p("P09", "Vector instructions change nothing about tokenizing",
      "In builds that use SSE2, SSE4.2, AVX2 or NEON instructions the tokenizer returns for long buffers exactly the tokens and "
      "errors that the documented grammar gives, as the build without vector instructions does, however white space, strings, "
      "words, numbers, comments and escapes lie relative to the vector width and to the ends of the buffers, and reads no byte "
      "outside the registered buffer.",
      ["inputs", "configurations", "histories"],
      "every position of a construct relative to the vector width, the start and the end of a buffer, in every instruction set build",
      "Tests run one instruction set (NEON never runs on this machine) and a handful of alignments.",
      [J], [("findStringEndSIMD/AVX2/NEON, findNumberEnd*, findAsciiEnd*, skipComment*, skipWhitespace*", J),
            ("the dispatch on the number of remaining bytes in Tokenizer::findStringEnd, findAsciiEnd, findNumberEnd, "
             "findStartOfNextValue, findDelimiter, findTokenEnd, skipComment", J)], (),
      ["tokens returned by Tokenizer::nextToken, memory reads"]),
    p("P10", "Strings keep their text through escaping and unescaping",
      "A std::string value or map key is written as a legal JSON string that stands for exactly the bytes of the string: quotes, "
      "backslashes and all control characters are escaped, everything else is written as it is. Reading a string value or key "
      "replaces every JSON escape, \\uXXXX and surrogate pairs included, by the character it stands for in UTF-8 and keeps all "
      "other bytes, sequences that are no JSON escape as they are, whatever the target held before; hence what was written reads "
      "back unchanged. The builds with and without vector instructions agree, and no byte outside the text is read.",
      ["inputs", "configurations"],
      "every text, every escape sequence and every position of a special character in the text",
      "Tests sample a few strings; 256 byte values at every position, 65536 \\u escapes and a million surrogate pairs are out of reach.",
      [J], [("Internal::handle_json_escapes_in, push_back_escape", J), ("Internal::handle_json_escapes_out, findFirstEscapeOut", J),
            ("TypeHandler<std::string>::to / from, the key handling of TypeHandlerMap::to / from", J)], (),
      ["the std::string or map key read", "the token handed to Serializer::write"]),
    p("P11", "Independent contexts share no mutable state",
      "Parsing, serializing, diffing and calling functions write no variable that outlives the call other than the objects "
      "the caller passed in, and call no library routine with hidden process-wide state, so independent contexts can be "
      "used from several threads at once and results never depend on earlier calls.",
      ["schedules", "histories"], "every interleaving of operations on distinct contexts and every history of earlier calls",
      "The tests are single threaded and each builds a fresh context.",
      [J, D], [("all look-up tables are constant, the enum and function tables are initialised once under the language's "
                "guard", J)], (), ["results of concurrent and repeated operations"]),
    p("P12", "Names and members correspond one to one",
      "A member of a JSON object is stored in the struct member, base class members included, whose name it carries, or else in the one "
      "that has the name as an alias, and in no other. A name that belongs to no member is skipped with its whole value, or is an error "
      "when allow_missing_members is off; required members that do not occur are an error when allow_unasigned_required_members is off, "
      "optional ones never are; exactly those names are listed in missing_members and unassigned_required_members when tracking is on. "
      "Optional members count as present exactly when they occurred. Writing a struct emits every member once, under its primary name, "
      "except optional ones that are absent. Enumerators are read from and written as exactly their own names and other names "
      "are rejected.",
      ["inputs", "configurations"],
      "every sequence of names, every combination of the three options, every point at which reading fails",
      "Tests use a few hand-written structs and inputs; prefix, alias and base class collisions for arbitrary names are not sampled.",
      [J], [("TypeHandler<T>::to / from, Internal::MemberChecker, unpackMember, verifyMember, serializeMember", J),
            ("Internal::SuperClassHandler, StartSuperRecursion, NameChecker, compareDataRefWithStringLiteral, skipArrayOrObject", J),
            ("JS_OBJ, JS_OBJECT*, JS_MEMBER*, JS_SUPER_CLASS*, JS_ENUM, Internal::EnumHandler, populateEnumNames", J)], (),
      ["values of struct members", "missing_members, unassigned_required_members and the returned error", "names in the JSON written"]),
    p("P13", "A function call object calls the functions it names",
      "callFunctions handles the members of the JSON object in order, each exactly once: it calls the function, base class functions "
      "included, that has the member's name, or else the one that has it as an alias, with the argument read from the member's value, and "
      "no other function. A function is not called when its argument cannot be read. The execution list gets one entry per member with "
      "its name, its own error (MissingFunction for a name that belongs to none) and a report of that error, never of another call's. "
      "The output is one array with the results of the calls that succeeded and return something, in order. After a failed call the "
      "remaining members are still handled, unless stop_execute_on_fail is set: then nothing more is called and the error is returned "
      "(an unknown function does not count when allow_missing is set). After an error in the JSON text nothing more is called and the "
      "error is returned.",
      ["inputs", "configurations", "histories"],
      "every sequence of names, every combination of the two options, every point at which reading or a call fails",
      "Tests call a few functions with valid arguments; failures followed by further calls and colliding names are not sampled.",
      [J], [("CallFunctionContext::callFunctions, Internal::FunctionObjectTraverser, matchAndCallFunction", J),
            ("Internal::FunctionCaller, checkValidVoidParameter, FunctionalSuperRecursion, add_error", J),
            ("JS_FUNCTION*, makeFunctionInfo, CallFunctionErrorContext::setError, Internal::ErrorContext", J)], (),
      ["functions called and their arguments", "CallFunctionContext::execution_list", "the array written to return_serializer",
       "the result of callFunctions"]),
    p("P15", "Integers are read and written exactly",
      "Reading a JSON number into an integer of any width gives the number's value, digits after the point cut off, with its exponent "
      "taken into account; a value outside the range of the type gives the nearest value of the type (0 for negative numbers in unsigned "
      "types), however many digits it has - never a value that has wrapped around. A text with other characters than those of a "
      "number is reported as an error, true and false are read as such and nothing else is. Every value of an integer type and of bool "
      "is written as its decimal text, or true and false. The decimal number that is converted to float and double has the sign, the "
      "leading digits (all up to 17 significant ones) and the exponent of the text, and zero is zero whatever its exponent.",
      ["inputs"], "every number text, every value of every integer type",
      "Tests read and write a few values per type; numbers with long digit strings, exponents or out of range are hardly sampled.",
      [J], [("Internal::ft::parseNumber, integer::to_integer, convert_to_integer, make_integer_return_value", J),
            ("Internal::ft::integer::to_buffer, count_chars", J), ("TypeHandlerIntType, TypeHandler<bool>, TypeHandler<double>, TypeHandler<float>", J)], (),
      ["values read by ParseContext::parseTo", "text of serialized integers"]),
    p("P16", "The text written is that of the tokens, whatever the buffers",
      "The bytes a Serializer writes are determined by the tokens and the options alone: in compact style nothing but the tokens, "
      "commas and colons; in pretty style every token on a line of its own, indented by the depth times the shift size, with one space "
      "after the colon; no comma when the delimiter is skipped; strings in quotes, null as null, unquoted text quoted when conversion is "
      "on. They do not depend on the sizes of the output buffers: every buffer is filled completely before another one is requested, and the "
      "buffers in the order given, with the used part of the last one, contain the text without gap or repetition. A token is "
      "reported as not written only when a closing bracket matches no open one (nothing is written then) or a buffer was needed and "
      "none was supplied (a beginning of the text has been written then). SerializerContext, serializeStruct and reformat put exactly "
      "this text into the string, however long it was before, also when writing goes on after a flush; reformat returns the error of the "
      "text it reads.",
      ["inputs", "configurations", "histories"],
      "every sequence of tokens, every combination of options, every sequence of buffer sizes and refusals, every length of the string",
      "Tests serialize whole structs into one large string with three option settings; no test supplies buffers.",
      [J], [("Serializer::write, askForMoreBuffers, markCurrentSerializerBufferFull, setBuffer", J),
            ("SerializerBuffer::append, SerializerOptions", J), ("SerializerContext, serializeStruct, reformat", J)], (),
      ["buffers handed to Serializer and its return values", "the string of SerializerContext, serializeStruct and reformat"]),
    p("P14", "Error reports name the error that occurred",
      "The report made for an error code contains the name of exactly that code; for members missing on either side it "
      "lists the members of that side and not the other's.",
      ["inputs", "histories"], "every error code the library can report, through the tokenizer and through the parse context",
      "Tests compare a couple of error reports; a shifted table entry passes for the others.",
      [J], [("error_strings table indexed by the code", J), ("ParseContext::makeErrorString", J)], (),
      ["ParseContext::makeErrorString, Tokenizer::makeErrorString"]),
]

NA = [
    (p("N01", "Floating point numbers survive a round trip",
       "Serializing a finite floating point number and parsing the text gives back the identical number.",
       ["inputs"], "every finite float and double",
       "Only a few thousand values are sampled.", [J], [("shortest decimal conversion and its inverse", J)]),
     "The truth lies in the arithmetic of 128-bit multiplications and decimal/binary scaling over all 2^64 values; no "
     "structural fact of the code decides it and no static numeric domain in reach is precise enough."),
    (p("N03", "Parse of serialized output equals the original value",
       "Serializing a value of any supported type and parsing the text gives an equal value.",
       ["inputs", "programs"], "every supported type and value",
       "Tests round-trip a few values.", [J], [("TypeHandler<T>::to / from", J)]),
     "Equality of runtime values across two unbounded traversals; only structural parts (escape tables, bracket balance, "
     "member tables) are decidable statically and are claimed separately."),
    (p("N04", "Parsing terminates in time linear in the input",
       "The work done for a document grows at most linearly with its size.",
       ["inputs"], "every document", "Tests measure nothing.", [J], [("single forward cursor", J)]),
     "A bound on running time needs ranking arguments over runtime quantities for every loop, including user callbacks."),
]


def main():
    have = [q for q in PROPS if q["id"] in CHECKS]
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for q in have + [n[0] for n in NA]:
            f.write(json.dumps(q) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "checks": [{"property": q["id"], "quick_cmd": "python3 check.py %s" % q["id"],
                     "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                     "technique": CHECKS[q["id"]].get("technique", "abstract interpretation of LLVM IR"),
                     "level": CHECKS[q["id"]]["level"], "level_note": CHECKS[q["id"]].get("note", CHECKS[q["id"]]["explanation"])}
                    for q in have],
         "not_applicable": [{"property": n[0]["id"], "reason": n[1]} for n in NA]}
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(H, "MANIFEST.json"), "a").write("\n")


main()
