# technique and level_note of the properties that are claimed
NOTE = " Trusts go/types, go/ssa and the checker's models of library functions."
CLAIMS = {
 "C20": ("abstract interpretation of go/ssa in product with an RFC 8259 automaton",
         "Every path of the validity function and of the recursive parser below it is covered, for inputs of every length, by a fixpoint over abstract states that carry the state of a reference automaton; each return is checked to agree with it. UTF-8 validity inside strings is not required, as in encoding/json." + NOTE),
 "C30": ("abstract interpretation of go/ssa with bit-level evaluation of the stored flags",
         "Setters and constructors are interpreted with symbolic fields, so the result holds for every previous state; every codec call below the exported functions is compared with the options given. How each option acts on values is the subject of other properties." + NOTE),
 "C31": ("abstract interpretation of go/ssa over all classes of environments (decision table)",
         "All paths are enumerated over the classes unset, empty, dumb and other of every environment variable, over nil, file and other writers, and over the answers of the operating system, for the Unix and the Windows source." + NOTE),
 "C32": ("abstract interpretation of go/ssa with provenance of fields and effects",
         "Every field of the result is followed to the field it comes from; writes through the argument are excluded. Trusts that color.Color prints its prefix before the text." + NOTE),
 "C33": ("abstract interpretation of go/ssa with fault branches for every fallible call",
         "All paths of the tool's main function are covered, for both values of the colour option, with and without an output file, and with each call failing or not. Errors of closing files are not considered." + NOTE),
 "C34": ("comparison of type-checked signatures and type identities",
         "Compares every object whose comment refers to encoding/json, and a fixed list of supported ones. Covers the types only, not the behaviour." + NOTE),
}
ENC = "abstract interpretation of go/ssa: the output of every codec is matched with a grammar"
ENCN = (" Every codec that the type analysis can build is interpreted from its entry over all paths, for a symbolic value, every set of flags and five"
        " combinations of colours and indentation, loops by fixpoint; a codec called through a function value counts as one value by induction, so values of any"
        " depth are covered. Raw text is tokenised to a nesting of two inside one codec.") + NOTE
CLAIMS.update({
 "C01": (ENC + " of JSON texts", "The output language of every codec is contained in that of one JSON value." + ENCN),
 "C02": (ENC + "; runs with and without colours are compared", "The sets of contents and outcomes of every codec are equal with and without colours." + ENCN),
 "C03": (ENC + " of colour, token, reset", "Every prefix is followed by one whole token and a reset on every path." + ENCN),
 "C04": (ENC + " that records the colour field of each token", "The colour of every token is followed back to the field it is read from and compared with the kind of the token." + ENCN),
 "C05": (ENC + " without escape codes", "With nil colours, and for unset fields, no label of the output can hold an escape code." + ENCN),
 "C06": (ENC + " of laid out JSON texts", "New lines, prefixes, indents and spaces are labels of the output; the number of indents is symbolic." + ENCN),
 "C07": (ENC + "; the depth field is compared at every exit", "The depth in the indenter at each exit, error exits included, equals that at the entry." + ENCN),
 "C09": (ENC + " of number tokens", "Number literals come from strconv with the right base, width and sign, or are checked by an automaton for JSON numbers." + ENCN),
 "C10": (ENC + "; raw text carries the states of a reference automaton", "Raw text is written only where the facts on the path say that the validity function accepted all of it, or the trust flag was tested." + ENCN),
 "C11": (ENC + "; pending errors are tracked to the exit", "No path returns a nil error while a callee's error, or an output label that marks a failure, is pending." + ENCN),
 "C18": (ENC + " whose first label is the destination", "The output list of every exit starts with the given destination; in-place edits and truncations below its length are violations." + ENCN),
 "C19": (ENC + "; options at calls of codecs are compared", "Flags, colours and indentation of every nested call are the terms given at the entry." + ENCN),
})
CLAIMS["C08"] = ("abstract interpretation of go/ssa: string writers are compared with a reference transducer",
 "Each function that writes a string token is explored over all strings with HTML escaping on and off, and what it writes is matched byte by byte with the text it reads; that codecs write strings, keys and names only through such functions comes from the exploration of the codecs. The extra escaping of strings inside raw messages is not part of it." + NOTE)

DECN = (" Every decode function the type analysis can build, and every function below it that consumes text, is interpreted over all paths for inputs of every length, loops by fixpoint;"
        " a nested decode function called through a function value is assumed to consume one value or to fail, which is what is proved of each of them (induction on the length of the input).") + NOTE
CLAIMS.update({
 "C21": ("abstract interpretation of go/ssa in product with an RFC 8259 automaton run along the input", "On every path on which a decode function, Parse or Unmarshal returns a nil error the automaton has read exactly one value (and, for Unmarshal, nothing but white space after it)." + DECN),
 "C22": ("abstract interpretation of go/ssa: interval and difference-bound facts at every index and slice expression", "Every index and slice expression on the input is proved in bounds on every path. Accesses to unescaped copies of strings, panics of nil interfaces and of user methods are not covered." + DECN),
 "C26": ("abstract interpretation of go/ssa; a failure of a nested call is tracked to the exit", "On every path on which a nested decode, a key or a user method fails, the error returned is not nil." + DECN),
 "C29": ("abstract interpretation of go/ssa; the nesting depth passed on is compared with the open containers of the automaton", "The decoder's depth at each nested call is at least the depth at entry plus the containers opened by the input since, and is bounded by a constant when a container is open; the validator's depth is exact. Recursion of the type, not of the input, is not part of it." + DECN),
})

CLAIMS["C28"] = ("abstract interpretation of go/ssa in product with an RFC 8259 automaton run along the input",
 "Every path of Tokenizer.Next is covered, for symbolic fields, so the result holds after every history of calls, and for inputs of every length. That delimiters match and stand in the right places is not part of it." + NOTE)

CLAIMS["C12"] = ("abstract interpretation of go/ssa with fault branches for the encoding and the write; the written buffer is a graph of labels",
 "Every path of Encoder.Encode, for symbolic fields, so for every history. Writers that return fewer bytes without an error are not considered." + NOTE)

CLAIMS["C16"] = ("abstract interpretation of go/ssa: a provenance check of the target of every store, append, copy and reflective setter",
 "Every path of the encode functions, the decode functions, the parsers, the validator and the tokenizer. A target that is computed from the input or from the encoded value is a violation. Methods of the user, and memory that user code shares, are not part of it." + NOTE)

CLAIMS["C17"] = ("abstract interpretation of the construction of codecs for a symbolic type of each kind, and a dataflow of the value's address in the selected functions",
 "All kinds, and the types compared by identity. Accesses through the address of the value itself and the sizes of elements passed on; the offsets of struct fields are taken from package reflect and not checked." + NOTE)
CLAIMS["C38"] = ("abstract interpretation of the selection of emptiness tests for a symbolic type of each kind, and of the selected tests for a symbolic value",
 "All kinds and all values. That the struct encoder calls the test of each member, and the tests of members that are promoted through embedded pointers, are not part of it." + NOTE)
CLAIMS["C14"] = ("typestate and aliasing dataflow over go/ssa of every object taken from a sync.Pool, through wrapper functions and deferred closures",
 "All paths of every function that takes an object. That writers, functions of other packages and functions that are passed an object do not keep it is assumed (io.Writer requires it)." + NOTE)
CLAIMS["C15"] = ("interprocedural dataflow over go/ssa of references to shared memory; writes outside of atomics, mutexes and initialisation are violations",
 "All functions of the library and helper packages. Values that the caller passes in are assumed not to be shared between calls; access through unsafe pointers other than conversions of variables is not followed." + NOTE)
CLAIMS["C23"] = ("abstract interpretation over go/ssa with intervals of exact unbounded integers, path-sensitive comparisons and widening",
 "Every path of the functions that decode into integers, with the parsers they call, for inputs of every length. That the value equals the digits is not part of it; which function is chosen for a type is C17." + NOTE)
