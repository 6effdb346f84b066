#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, level="other", technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                  files=files.split(), mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note, na=na))

TODO = "The analysis for this property is not built yet."
AI = "path-sensitive abstract interpretation of go/ssa"

# ---------------------------------------------------------------- encoding
prop("C01", "Every successful encoding is one well-formed JSON value",
     "Whenever marshaling or encoding a Go value succeeds, the bytes produced, with colour codes removed, are exactly one JSON text according to RFC 8259: separators are placed only between members, every key is a string followed by a colon, and every bracket is closed. This holds for every combination of types, values, options, colours and indentation.",
     "inputs configurations", "all Go values and types the encoder accepts, all append flags, colours, prefixes and indents",
     "The tests encode a few dozen values; separators go wrong only for particular combinations of omitted, embedded, empty or failing members, colours and indentation.",
     "encode.go json.go jsoncolor.go codec.go",
     [("composite encoders", "encode.go: encodeArray, encodeStruct, encodeMap*"), ("fast path", "json.go: Append")], na=TODO)
prop("C02", "Colours never change the JSON that is produced",
     "For every value and set of options, encoding with colours gives the same result as encoding without them once the colour codes are removed: the same JSON bytes, the same success or failure. Colour codes only ever appear between tokens, never inside one.",
     "inputs configurations", "all values, flags and colour sets, including granular punctuation colours",
     "Tests compare coloured output for fixed samples; a colour-only branch that drops or duplicates a separator needs one type, flag and colour combination.",
     "encode.go jsoncolor.go", [("coloured emitters", "encode.go; jsoncolor.go: Colors.append*")], na=TODO)
prop("C03", "Each colour prefix is closed by a reset around exactly one token",
     "In coloured output every colour prefix is followed by exactly one complete JSON token and then by the reset sequence, and a reset is never written without such a prefix. Nothing else lies between a prefix and its reset, so colour never leaks into the next token, the indentation or the terminal.",
     "inputs configurations", "all values and all colour sets in which some colours may be empty",
     "A missing reset is visible only for the token kind, colour set and error path that lacks it.",
     "encode.go jsoncolor.go", [("colour bracketing", "jsoncolor.go: Colors.append*")], na=TODO)
prop("C04", "Every token kind is written in its own configured colour",
     "Strings, numbers, booleans, nulls, keys, byte slices, times and text-marshaled values are each written in the colour configured for that kind; object keys use the key colour whatever the key's type, and times and byte slices use theirs even when held in an interface. Punctuation uses its specific colour (brace, bracket, comma, colon) when that is set and the general punctuation colour otherwise.",
     "inputs configurations", "all token kinds and all colour sets",
     "Tests fix a few colour sets; a swapped colour shows only when the two colours differ and the kind is reached on that path.",
     "encode.go jsoncolor.go json.go", [("colour selection", "jsoncolor.go; encode.go")], na=TODO)
prop("C05", "No escape codes without colours",
     "When no colours are set, or all of them are empty, the output contains no escape codes at all, and it equals the plain output byte for byte.",
     "inputs configurations", "all values; nil and zero colour sets",
     "Tests check plain output for samples; one encoder that writes a reset unconditionally is reached only by its type.",
     "encode.go jsoncolor.go json.go", [("nil and zero colours", "jsoncolor.go; json.go: Encoder.SetColors")], na=TODO)
prop("C06", "Indented output has the standard layout",
     "With indentation on, every member of a non-empty object or array is on its own line, which starts with the prefix and as many indents as containers are open; closing brackets are on their own line at the level of the opening one; empty objects and arrays are written as {} and []; and a colon is followed by one space. Without indentation no white space is written between tokens, apart from what raw messages contain.",
     "inputs configurations", "all values, prefixes, indents and colour sets, both container paths (arrays, slices, maps of each kind, structs)",
     "Each container kind has its own plain, coloured and sorted code path; tests cover a few of the combinations.",
     "encode.go jsoncolor.go", [("layout", "encode.go: Indenter and the composite encoders")], na=TODO)
prop("C07", "The indentation level is restored on every exit from a value",
     "After any value has been encoded, whether that succeeded, failed, or the member was dropped, the indentation level is what it was before, so later siblings and later values of the same encoder are laid out correctly.",
     "inputs histories", "all exits of all encoders, including failing marshalers and unsupported values, then any further encoding",
     "Needs a failure at depth followed by a successful encoding with the same encoder; tests do neither.",
     "encode.go json.go", [("level", "encode.go: Indenter push/pop")], na=TODO)
prop("C08", "String tokens escape exactly what JSON requires",
     "The string token written for a Go string decodes to that string, with invalid UTF-8 replaced by U+FFFD: quotes, backslashes and control characters are always escaped, and the characters <, >, & are escaped if and only if HTML escaping is on; U+2028 and U+2029 are always escaped. This also holds for map keys and for field names.",
     "inputs configurations", "all strings, with and without HTML escaping",
     "The escape loop copies runs of unescaped bytes between indexes; tests try a few strings out of infinitely many.",
     "encode.go ascii.go", [("escaping", "encode.go: doEncodeString")], na=TODO)
prop("C09", "Numbers are always written as valid JSON numbers",
     "Floating point values are written as JSON numbers and NaN and infinities are refused with an error; integers are written in base 10 with the sign and range of their own type; number literals held in a string type are written only if they are valid JSON numbers.",
     "inputs", "all numeric values of all numeric kinds, all number literals",
     "Special values and literals are infinitely many; tests sample them.",
     "encode.go codec.go", [("numbers", "encode.go: encodeInt*/encodeUint*/encodeFloat*/doEncodeFloat, encodeNumber")], na=TODO)
prop("C10", "Raw JSON is validated before it is copied, unless it is trusted",
     "JSON text supplied by raw messages and by MarshalJSON methods reaches the output only after it has been checked in full to be one valid JSON value, unless the caller declared raw messages as trusted; text that is not valid makes the encoding fail. When raw text is re-laid out for colours or indentation its tokens and their order are kept.",
     "inputs configurations", "all raw texts, all MarshalJSON implementations, all flags, colours and indents",
     "Each of the plain, coloured and indented paths must validate; tests use malformed text on one of them.",
     "encode.go", [("raw messages", "encode.go: encodeRawMessage, encodeJSONMarshaler")], na=TODO)
prop("C11", "An encoding error in any nested value fails the whole encoding",
     "If encoding any nested value fails, by an unsupported value, a marshaler's error, or invalid raw JSON, the enclosing call returns a non-nil error, whatever containers lie between; an error is never lost, even in sorted maps or omitted members. The only exception is a nil embedded pointer, which silently omits its promoted members.",
     "inputs configurations", "all nestings of containers around a failing value, all flags and colours",
     "Each container kind has several code paths that must propagate the error; tests exercise few of them.",
     "encode.go json.go codec.go", [("error propagation", "encode.go: composite encoders")], na=TODO)
prop("C12", "Encoder writes each value with one write ending in newline, or nothing",
     "Each successful encode call hands the writer exactly one write that holds the complete value followed by a newline; a failed encoding writes nothing. An error of the writer is returned by the call, and by every later call, without writing anything more.",
     "inputs histories fault_sequences", "all values, all sequences of encode calls and all writer failures",
     "Tests use writers that never fail and seldom look at the calls made.",
     "json.go", [("encoder", "json.go: Encoder.Encode")], na=TODO)
prop("C13", "Sorted map keys really are in sorted order",
     "When sorting of map keys is requested, which is the default of marshaling and encoders, the members of every map are written in increasing order of the key strings that appear in the output, whatever the key and value types; without it, every entry is still written exactly once.",
     "inputs configurations", "all map types, including the specialised string-keyed ones, all flags and colours",
     "Go randomises map iteration, but small maps often come out sorted by chance; five specialised encoders each need their own sort.",
     "encode.go codec.go", [("sorting", "encode.go: encodeMap*, mapslice")], na=TODO)
prop("C14", "Pooled buffers are returned once and never used or shared afterwards",
     "A temporary buffer taken from an internal pool is returned at most once, is not used after it has been returned, and no part of it becomes visible to the caller; buffers are reset before reuse so data of earlier calls never appears in later results.",
     "schedules histories", "all interleavings of concurrent calls and all error paths",
     "Aliasing corrupts results only if another call reuses the buffer at the wrong moment.",
     "json.go encode.go", [("pools", "json.go: Marshal, Encoder.Encode; encode.go: mapslice pools")], na=TODO)
prop("C15", "Concurrent use of the package is free of data races",
     "Package-level functions may be called from any number of goroutines: the only mutable package-level state are caches and pools that are accessed atomically, a published cache is never modified in place, and what it holds is never changed after it was published.",
     "schedules", "all interleavings of calls of all exported functions",
     "No test calls the package concurrently, and races show up on few schedules.",
     "codec.go encode.go json.go terminal.go", [("type cache", "codec.go: cacheLoad/cacheStore"), ("pools", "json.go, encode.go")], na=TODO)
prop("C16", "The caller's data is never modified by encoding or by parsing",
     "Encoding never writes to the memory of the value that is encoded, and validating, decoding or tokenizing never write to the input text; appending only writes beyond the length of the destination slice. Methods that the user defines are not part of it.",
     "inputs schedules", "all values and input texts",
     "A write to shared input is invisible unless the test looks at the input afterwards or shares it between goroutines.",
     "encode.go decode.go parse.go token.go json.go", [("effects", "all encoders and parsers")], na=TODO)
prop("C17", "Encoders and decoders access memory at the width of the Go type",
     "For every kind of Go type the code chosen to encode or decode its values reads and writes them with exactly the size and layout of that type: no access is wider or narrower than the value, signed, unsigned, float and header layouts are never confused, and elements are stepped over with the size of their type.",
     "inputs programs", "all Go types, including named types and all array, slice and struct elements",
     "Memory next to a field is only damaged or misread for particular layouts and values.",
     "codec.go encode.go decode.go reflect.go", [("codec table", "codec.go: constructCodec")], na=TODO)
prop("C18", "Appending keeps the bytes already in the destination",
     "Appending the encoding of a value to a byte slice keeps the bytes of that slice unchanged as the prefix of the result, also when the encoding fails.",
     "inputs", "all destination slices and values",
     "Tests append to nil or empty slices.",
     "json.go encode.go", [("append", "json.go: Append")], na=TODO)
prop("C19", "Options, colours and indentation reach every nested value",
     "The flags, colours and indentation given for a value are applied unchanged to all values nested in it, at any depth and through containers, pointers and interfaces.",
     "inputs configurations", "all nestings of containers",
     "Tests set options on shallow values.",
     "encode.go", [("propagation", "encode.go: composite encoders")], na=TODO)

# ---------------------------------------------------------------- parsing
prop("C20", "The validity check accepts exactly the JSON texts of RFC 8259",
     "The validity check accepts a text if and only if it is one JSON value according to RFC 8259, with optional surrounding white space, whose arrays and objects are nested at most 10000 deep.",
     "inputs", "all byte strings",
     "The language is infinite; the tests hold a list of samples. Word-at-a-time string scanning has cases that depend on the length modulo eight.",
     "parse.go json.go ascii.go",
     [("recursive descent", "parse.go: parseValueDepth and what it calls"), ("word scanning", "ascii.go: asciiValidPrint")],
     technique="abstract interpretation of go/ssa in product with a JSON automaton",
     note="Every path of the parser is covered for inputs of every length; refusals and acceptances are compared with an automaton of RFC 8259 (UTF-8 validity inside strings is not required). Trusts go/ssa and the models of bytes.IndexByte and of syntax-error constructors in the checker.")
prop("C21", "Decoding succeeds only on exactly one complete JSON value",
     "Decoding a text succeeds only if the text is one valid JSON value with nothing but white space after it, and parsing the first value of a text returns exactly what follows that value; malformed text is never silently accepted, whatever Go type it is decoded into.",
     "inputs programs", "all byte strings, all destination types",
     "Each destination kind has its own parser loop; tests try malformed text on few of them.",
     "decode.go json.go", [("typed parsers", "decode.go: decoder.decode*")], na=TODO)
prop("C22", "No input makes validation, parsing or tokenizing read out of bounds",
     "No input text, however malformed or truncated, makes the package index or slice outside the input: checking, parsing and decoding return an error instead of panicking.",
     "inputs", "all byte strings",
     "Out-of-range accesses need a text that ends at one particular point.",
     "parse.go ascii.go decode.go token.go", [("index expressions", "parse.go; decode.go; token.go")], na=TODO)
prop("C23", "Decoded integers are range-checked against their destination",
     "An integer that does not fit the destination type is reported as an error and is never stored truncated, for every signed and unsigned kind and for integer map keys and quoted numbers as well.",
     "inputs programs configurations", "all integer texts and all integer kinds, on 32-bit and 64-bit platforms",
     "Each width has its own bounds; tests try few boundary values and run on one platform.",
     "decode.go parse.go", [("narrowing", "decode.go: decodeInt*/decodeUint*")], na=TODO)
prop("C24", "Decoded data never aliases the input unless zero-copy was requested",
     "Strings, numbers, raw messages and byte slices produced by decoding do not share memory with the input buffer unless the caller passed the flag that asks for it for that kind of data; the streaming decoder never hands out memory of its buffer otherwise.",
     "inputs histories configurations", "all decoded values and flags",
     "Aliasing shows only after the input buffer is modified or reused.",
     "decode.go json.go", [("copies", "decode.go: decodeString, decodeNumber, decodeRawMessage; json.go: Decoder")], na=TODO)
prop("C25", "null leaves scalars unchanged and clears pointers, maps and slices",
     "Decoding null is accepted for every destination kind: it sets pointers, interfaces, maps and slices to nil and leaves every other destination unchanged.",
     "inputs programs", "all destination types",
     "Every decoder has its own null case.",
     "decode.go", [("null prefix", "decode.go: decoder.decode*")], na=TODO)
prop("C26", "A decoding error in any nested value fails the whole decoding",
     "If any element, key or member cannot be decoded, the enclosing decode call returns a non-nil error; errors are never dropped on the way out of containers.",
     "inputs programs", "all nestings",
     "Each container loop must propagate the error on each of its paths.",
     "decode.go json.go", [("propagation", "decode.go: composite decoders")], na=TODO)
prop("C27", "The streaming decoder is independent of how the input is split into reads",
     "The sequence of values and errors a streaming decoder produces depends only on the concatenation of the bytes its reader returns, never on how they are split into reads; read errors are reported after the values that precede them, and the input offset always equals the number of bytes consumed.",
     "inputs histories fault_sequences", "all inputs, all splits into reads and all read errors",
     "Tests read from buffers that return everything at once.",
     "json.go", [("framing", "json.go: Decoder.readValue")], na=TODO)
prop("C28", "Tokenizing never panics and its errors are sticky",
     "The tokenizer never panics. Once it has reported an error it returns no further tokens and keeps the error until it is reset; a token is reported only without an error, and an error is never reported together with a token. Every token is a non-empty part of the input, preceded by nothing but white space, and the tokenizer continues right behind it; a token that is not a delimiter is one complete JSON string, number, true, false or null. The end is reported without an error only if nothing but white space is left.",
     "inputs histories", "all byte strings",
     "Tests tokenize well-formed samples.",
     "token.go", [("tokenizer", "token.go: Tokenizer.Next")], na=TODO)
prop("C29", "Deeply nested input cannot exhaust the stack",
     "Validating, parsing and decoding refuse arrays and objects nested more than 10000 deep with an error; every level of nesting in the input is counted, so recursion on input is bounded whatever the text and destination type.",
     "inputs programs", "all byte strings, all destination types",
     "Only inputs of tens of thousands of brackets show it, on the one recursion that lacks the counter.",
     "parse.go decode.go", [("nesting limit", "parse.go: parseObject, parseArray; decode.go: composite decoders")], na=TODO)

# ---------------------------------------------------------------- API and tools
prop("C30", "Every option changes exactly the behaviour it names",
     "Each append and parse flag is a distinct bit, and each option setter of encoders and decoders switches exactly its own option on and off, leaving all others as they were. New encoders escape HTML and sort map keys; new decoders have no option set. Every exported encode, append, decode and parse function hands exactly the options, colours and indentation it was given to the codec of the value.",
     "histories configurations", "all sequences of setter calls, all flag combinations",
     "Tests set one option at a time.",
     "json.go", [("setters", "json.go: Encoder.Set*, Decoder.*"), ("flags", "json.go: AppendFlags, ParseFlags")], na=TODO)
prop("C31", "Colour terminals are recognised by the documented rules only",
     "If NO_COLOR has a non-empty value no writer counts as a colour terminal; otherwise, if FORCE_COLOR has a non-empty value, every writer does; otherwise none does if TERM is dumb; and otherwise exactly those do that are files which the operating system says are terminals (on Windows: consoles that process escape codes, or can be switched to do so). The decision is the same function of the environment on Unix and on Windows.",
     "configurations", "all environments, writers and platforms",
     "Tests do not run on terminals, nor on Windows.",
     "terminal.go terminal_windows.go", [("terminal test", "terminal.go: IsColorTerminal")], na=TODO)
prop("C32", "The fatihcolor adapter copies each colour to its own counterpart",
     "Converting a set of fatih colours gives a set in which every colour is the escape prefix of the field with the same meaning, fields without a colour give an empty colour, and the conversion never changes the input.",
     "configurations", "all colour sets",
     "Tests check some fields.",
     "helper/fatihcolor/fatihcolor.go", [("conversion", "helper/fatihcolor/fatihcolor.go: ToCoreColors")], na=TODO)
prop("C33", "The jc tool colours only terminal output",
     "The command-line tool uses colours exactly when it writes to standard output, colour was not switched off, and standard output is recognised as a colour terminal; output to a file given by an option is never coloured. Every failure to read, parse or write is reported on standard error with a non-zero exit status.",
     "configurations fault_sequences", "all flag combinations, inputs and outputs",
     "The tool has no tests.",
     "cmd/jc/main.go", [("colour choice", "cmd/jc/main.go")], na=TODO)
prop("C34", "The package keeps the exported API of encoding/json",
     "Every exported function, type, method and field of encoding/json that the package documents as supported exists with an identical signature, and the types it shares with encoding/json are aliases of them, so that code can switch by changing the import.",
     "programs", "all programs written against encoding/json",
     "Tests only use the parts they call.",
     "json.go", [("exported API", "json.go")], na=TODO)
prop("C35", "Preparing a type for encoding or decoding always terminates",
     "Building the encoder and decoder for a Go type terminates for every type, including types that contain themselves through structs, pointers, slices, arrays or maps.",
     "programs", "all Go types, recursive ones included",
     "Recursion through each type constructor needs its own test type.",
     "codec.go", [("construction", "codec.go: constructCodec and the functions it calls")], na=TODO)
prop("C36", "Decoded strings equal the text they denote",
     "Decoding a string token yields the characters it denotes: each escape yields its character, surrogate pairs are joined, and unescaped text is kept, with invalid UTF-8 replaced by U+FFFD.",
     "inputs", "all string tokens",
     "Infinitely many strings.",
     "parse.go", [("unquoting", "parse.go: parseStringUnquote")], na=TODO)
prop("C37", "Object members are matched to fields exactly, then ignoring case",
     "A member is stored in the field whose name is identical, otherwise in a field whose name differs only in case unless that is disabled; members without a field are skipped completely, or reported as an error if unknown fields are disallowed.",
     "inputs configurations programs", "all member names, structs and flags",
     "Tests use few names.",
     "decode.go codec.go", [("lookup", "decode.go: decodeStruct")], na=TODO)
prop("C38", "omitempty omits a member exactly when its value is empty",
     "The test that decides whether a member marked omitempty is omitted holds if and only if the value is false, zero, a nil pointer or interface, or an array, slice, map or string of length zero, for every kind of type.",
     "inputs programs", "all field types and values",
     "Each kind has its own emptiness test.",
     "codec.go encode.go", [("emptiness", "codec.go: emptyFuncOf")], na=TODO)

exec(open(os.path.join(ROOT, "tools", "claims.py")).read())

ids = {p["id"] for p in P}
out = []
man = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[],
           notes="All checks are one Go program, /verif/checker, which loads and type-checks /repo's working tree and interprets its SSA form abstractly; nothing of /repo is executed.")
for p in P:
    if p["id"] in CLAIMS:
        p["technique"], p["note"] = CLAIMS[p["id"]]
        p["na"] = None
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"])))
    if p["na"] is None:
        man["checks"].append(dict(property=p["id"], quick_cmd="bash /verif/run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash /verif/run.sh " + p["id"],
                                  technique=p["technique"], level="other", level_note=p["note"]))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
