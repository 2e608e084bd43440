"""The properties: text (properties.jsonl), check parameters, and what each check assumes."""
F = "imap-codec/src/fragmentizer.rs"
CORE, SEQ, UT = "imap-types/src/core.rs", "imap-types/src/sequence.rs", "imap-types/src/utils.rs"
ENC, DEC = "imap-codec/src/codec/encode.rs", "imap-codec/src/codec/decode.rs"

DEV = "every case with at most k non-default choices of the generator (k per group, deepest layer sampled above a cap; groups marked complete enumerate their whole tree), plus seeded random cases; a case is non-trivial when it reaches the contract's consequent, and distinct by the bytes/value it produced"

A_RUST = "rustc, LLVM and std behave as documented"
A_BOUND = "the executable contracts are exhaustive only within the stated bounds; beyond them they are sampling"

PROPS = {}


def P(id, title, statement, over, qtext, why, files, mech, configs="ab", level="exploration", scale=10.0, rule=DEV, assumptions=(), note=None):
    PROPS[id] = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        configs=list(configs),
        level=level,
        scale=scale,
        rule=rule,
        assumptions=[A_RUST, A_BOUND, *assumptions],
        note=note,
    )


P("C01", "Fragmentation is faithful and independent of how bytes arrive",
  "Fed any byte stream in any chunks, the fragmentizer yields exactly the lines (each up to and including its line feed) and announced literals of that stream, in order, with nothing lost, duplicated, changed or invented, and a message is complete exactly after a line that announces no literal. The sequence of fragments, their bytes and the message boundaries depend only on the concatenated stream, never on chunking or on when progress is polled.",
  ["inputs", "schedules"], "every byte stream, every partition of it into enqueued chunks, every interleaving of enqueueing and polling",
  "The tests feed a handful of fixed streams in fixed chunks; the claim is about all streams and all chunkings.",
  [F], [("Fragmentizer::progress", F), ("LineParser::parse, LiteralParser::parse", F), ("Parser::dequeue_parsed_bytes", F)], level="proof")
P("C02", "Literal announcements are recognised exactly",
  "A line is reported as announcing a literal of n bytes if and only if, directly before its LF or CRLF, it ends in an opening brace, one or more decimal digits denoting n with n below 2^32, an optional plus sign, and a closing brace; the reported mode is non-synchronizing exactly when the plus is present. The reported line ending is CRLF exactly when a CR precedes the LF. No line content causes a panic, an overflow or a wrong length.",
  ["inputs"], "every line of bytes, including every digit string and every placement of braces, plus signs and carriage returns",
  "The tests try about a dozen lines; overflow limits, repeated braces and stray CRs are a combinatorial space.",
  [F], [("LineParser state machine", F), ("LiteralAnnouncement", F)], level="proof")
P("C03", "The message size limit is enforced exactly and without losing framing",
  "With a maximum message size of m, at most m bytes of a message are ever kept, they are the first bytes of the message, and the too-long condition is reported exactly when the message received so far is longer than m. Exceeding the limit changes neither the fragments, their ranges, the message boundaries nor the handling of the following messages. Decoding a message that exceeds the limit always fails with the too-long error carrying exactly the kept bytes.",
  ["inputs", "histories"], "every byte stream, every limit including 0, every chunking, messages in sequence",
  "The tests use one limit and one or two messages.",
  [F], [("MessageBuffer / max_message_size", F), ("dequeue_parsed_bytes", F), ("decode_message", F)], level="proof")
P("C04", "Poisoning, skipping and resetting affect exactly the current message",
  "After any history of enqueueing, polling, skipping and poisoning, a poisoned message is never decoded, poisoning lasts exactly until the next message starts or the message is skipped, and skipping discards exactly the current message's already parsed bytes and restarts line parsing at the next unparsed byte. Decoding the current message gives precisely what the chosen codec gives for the kept bytes, reporting remainder, failure, poison and over-length distinctly, and the tag extracted from a message is its leading tag whenever there is a valid one followed by a space.",
  ["histories", "inputs"], "every finite sequence of the fragmentizer's operations on every byte stream and limit",
  "The tests exercise fixed short scripts; the claim quantifies over operation histories.",
  [F], [("poison_message, skip_message", F), ("decode_message, decode_tag", F), ("Fragmentizer::progress (reset of a complete message)", F)], level="proof")
P("C05", "Validated string types accept exactly their grammar",
  "Atoms, extended atoms, tags, response texts, quoted strings and quoted characters, literals and list patterns can be constructed from an input if and only if the input satisfies the corresponding IMAP grammar, on every public validating construction route. The accepted value holds exactly the bytes given. The byte classification predicates agree with the IMAP grammar for all 256 bytes.",
  ["inputs"], "every byte and every string, on every construction route (from str, String, Cow, bytes, arrays)",
  "The tests check a few good and bad strings per type; the classes range over all bytes and all positions.",
  [CORE, UT, "imap-types/src/mailbox.rs"], [("validate functions of Atom, AtomExt, Tag, Text, Quoted, QuotedChar, Literal, ListCharString", CORE), ("utils::indicators", UT)], level="proof")
P("C06", "Automatic representation picks the simplest form that can carry the value",
  "Converting text or bytes to a string argument yields an atom when the grammar allows one, otherwise a quoted string when the content is quotable, otherwise a literal, and fails only when no representation can carry it. Whatever representation is chosen, it denotes exactly the input bytes.",
  ["inputs"], "every text and byte string, on every conversion route",
  "The tests check individual strings; the choice must be right for all.",
  [CORE, "imap-types/src/mailbox.rs"], [("TryFrom conversions of AString, IString, NString, ListMailbox", CORE)], level="proof")
P("C07", "Quoted-string escaping and unescaping are exact inverses",
  "Escaping a text prefixes exactly its double quotes and backslashes with a backslash, and unescaping the result gives back the original text, for every text. Every text that may stand between the quotes of a quoted string is unescaped to what it means.",
  ["inputs"], "every text, including runs of quotes and backslashes",
  "The tests list seven pairs; sequential replacements go wrong only on particular adjacent runs.",
  [UT, "imap-codec/src/core.rs"], [("escape_quoted, unescape_quoted", UT), ("quoted parser", "imap-codec/src/core.rs")], level="proof")
P("C08", "Lists with a minimum length can never be shorter",
  "A list type with a required minimum number of elements cannot be constructed with fewer by any conversion, keeps the given elements and their order, and is never rejected when long enough.",
  ["inputs"], "every list length and every construction route",
  "Tests try one short and one long list.",
  [CORE], [("VecN::validate and its conversions", CORE)], level="proof")
P("C09", "Well-known names are recognised in any letter case and never shadowed",
  "Every name the library knows (authentication mechanisms, capabilities, flags, mailbox INBOX, quota resources, compression and threading algorithms, charsets and so on) is recognised in every letter case and gives the same value on every construction route. An unknown name is kept with exactly the spelling it was given and prints back as such, and a value meant for unknown names can not be built from a known one. Printing a known name and reading it again gives the same value. On the wire, every protocol keyword is read in any letter case with the same meaning.",
  ["inputs"], "every known name, every letter-case pattern, every near-miss of a known name",
  "Tests use one or two spellings per name.",
  ["imap-types/src/auth.rs", "imap-types/src/response.rs", "imap-types/src/flag.rs", "imap-types/src/mailbox.rs", "imap-types/src/extensions", "imap-codec/src"], [("From<Atom> / TryFrom<&str> of the name types", "imap-types/src"), ("tag_no_case in the parsers", "imap-codec/src")], configs="ab", level="proof", note="Proved: the conversions, invariants and printing of the name types (unit names), INBOX (unit core), and on the wire that the case of letters decides nothing (unit case: for each parser and codec, inputs that differ only in letter case get the same verdict, consume the same bytes and build the same structure; judged contents such as base64 are assumed to be judged alike). That the closures of the parsers hand names to those conversions, and which keyword stands for which value, is observed by the executable contracts, bounded.")
P("C10", "Iterating a sequence set visits exactly the denoted numbers",
  "For every sequence set and every number of the largest message, iterating the set yields exactly the numbers it denotes, in strictly increasing order, each once, with an asterisk standing for the largest number and reversed ranges meaning the same as ordered ones. The simple iteration yields the same numbers element by element in the order and direction written, duplicates included.",
  ["inputs"], "every sequence set and every largest number",
  "Tests check about ten sets.",
  [SEQ], [("SequenceSet::iter, iter_naive, Sequence cleanup and merging", SEQ)], level="proof")
P("C11", "Converting numbers, ranges and text to sequence sets loses nothing",
  "Converting a number, a non-empty Rust range or a text to a sequence set denotes exactly the numbers of that number, range or text, with an open end meaning up to the largest, and fails for zero, out-of-range numbers and texts outside the grammar. Every supported integer width behaves alike.",
  ["inputs"], "every number of every integer type, every pair of bounds of every range kind, every text",
  "Tests check a few ranges of one or two integer types.",
  [SEQ], [("TryFrom and FromStr conversions", SEQ)], level="proof", note="Proved: texts of any length, lists and numbers (Verus); numbers and the ranges of every kind, over the ten integer types, for every value and pair of bounds (Kani on the real code, no loop). Executable contracts observe the same, bounded.")
P("C12", "Normalising and encoding a sequence set preserve its meaning",
  "Normalising a sequence set never changes which messages it selects, whatever the largest message number is, identifying the number 2^32-1 with the asterisk. The result is sorted, disjoint, maximally merged and stable under normalising again, and the set that is sent on the wire selects the same messages. The ordering of sequence numbers is a total order with the asterisk largest, and one sequence is reported less than another only if every number of it is.",
  ["inputs"], "every sequence set and every largest number",
  "Tests check a dozen sets.",
  [SEQ], [("SequenceSet::normalize, Sequence::normalize", SEQ), ("Ord for SeqOrUid, PartialOrd for Sequence", SEQ), ("EncodeIntoContext for SequenceSet", ENC)], level="proof", note="Proved: normalising (meaning, canonical form, idempotence), the order, and the text sent, with and without the normalising quirk; that text reads as exactly one set, which selects the same messages.")
P("C13", "Generated tags are valid and never repeat",
  "Every tag produced by tag generators is a valid tag, and within one process no two generated tags are equal, whichever generator and whichever thread produced them.",
  ["schedules", "histories"], "every number of generators and calls, every interleaving of threads",
  "The existing test samples random generators; uniqueness is about all pairs of generators and calls.",
  ["imap-types/src/core.rs", "imap-types/src/command.rs"], [("TagGenerator", CORE)], configs="br", rule="8 threads × several generators per thread × thousands of tags, all compared", level="proof", note="Proved for the release and the debug build: every generated tag is a valid tag that determines the number of its generator and of the call; generator numbers come from one fetch_add(1) each and generators cannot be copied. Trusted: fetch_add, decimal Display, the character class of rand's Alphanumeric.")
P("C14", "Owned copies equal the borrowed originals",
  "Converting any message or error to its owned form, by copying or by consuming it, yields an equal value that encodes identically. Owned decoding gives the same verdict, remainder and value as borrowed decoding for every input.",
  ["inputs"], "every message value and every input",
  "Tests check a handful of messages.",
  ["imap-types/src/lib.rs", DEC], [("IntoStatic, ToStatic", "imap-types/src/lib.rs"), ("Decoder::decode_static", DEC)], configs="abc", level="proof", note="Proved: every hand-written ToStatic, IntoStatic and decode_static (for any decoder), and that the repository has no other. Assumed: derive(ToStatic) of the dependency bounded-static copies every part, derive(PartialEq) compares every part, Decoder::decode is a function of its input; the executable contracts run what is derived, bounded.")
P("C15", "Dates and times are validated exactly and keep their value",
  "A date-time can be constructed exactly when its year has four digits, it has no fraction of a second or leap second and its zone offset is in whole minutes; a date exactly when its year has four digits. An accepted value is encoded and decoded without changing the instant, the local time or the offset, and text with impossible dates, times or offsets is rejected without a panic.",
  ["inputs"], "every date, time of day, fraction and offset",
  "Tests use a few dates.",
  ["imap-types/src/datetime.rs", "imap-codec/src/datetime.rs"], [("DateTime::validate, NaiveDate::validate", "imap-types/src/datetime.rs"), ("date_time parser", "imap-codec/src/datetime.rs")], note="Proved with the real chrono, for every date, time of day, fraction and offset: which values the constructors accept, and that they keep them. Bounded: encoding and decoding (chrono's formatting and nom).")
P("C16", "Secrets do not appear in debug output of release builds",
  "In a release build, the debug output of any message or error that carries a password, authentication data or undecoded message bytes wrapped as secret does not depend on the secret's content. Wrapping changes neither equality nor encoding.",
  ["inputs", "configurations"], "every secret content, every message that carries one",
  "Tests run in debug mode with one secret.",
  ["imap-types/src/secret.rs"], [("Debug for Secret", "imap-types/src/secret.rs")], configs="ar", level="proof", note="Proved for every type of content: in the release build, Debug of Secret calls nothing of its content, so (the content being a type parameter) what it prints is independent of it; new and declassify keep the value; every type that holds a Secret prints itself by derive, and nothing else writes their Debug. Assumed: derived Debug prints each field by its Debug, derived PartialEq compares the content. The executable contracts compare the output, equality and encoding in a release build, bounded.")
P("C17", "Serialized values cannot smuggle in invalid messages",
  "Serializing any message and deserializing it gives an equal message. No serialized document, however edited, deserializes to a value that the validating constructors would have rejected, so that what it encodes to is always well framed; texts that the documentation marks as not validated are excepted.",
  ["inputs"], "every message, every edit of its serialized form",
  "Tests round-trip a few values.",
  ["imap-types/src"], [("serde(try_from) on validated types", "imap-types/src/core.rs")], configs="bc", level="proof", note="Proved: for every type whose serialized form is checked (serde attributes try_from, from, deserialize_with, read from the current source), what is made of any document satisfies the grammar of the type, and reading what a valid value was written as gives that value; no other type that derives Deserialize carries such attributes. Trusted: what serde_derive generates for the other types (each part read as its own type). Executable contracts run the real serde on every kind of message and on edited documents, bounded. Excepted: QuotedUtf8 (KNOWN_FINDINGS.txt).")
P("C18", "Encoded messages are framed exactly and admit no injection",
  "Every encoded message is a sequence of lines, each ending in CRLF and containing no other CR or LF, and literals, each directly preceded by a line that announces exactly its length and mode. In a command, a line announces a literal exactly when that literal follows, and the last fragment is a line that announces nothing. Hence no content of any validated message can end the message early or inject another one.",
  ["inputs", "configurations"], "every message of every kind made of validated values, in every feature configuration",
  "Tests encode a few dozen messages; injection needs one unusual content in one of hundreds of fields.",
  [ENC, "imap-codec/src/extensions"], [("EncodeContext, EncodeIntoContext impls", ENC)], configs="abc",
  level="proof", note="Proved for every message value that satisfies the type invariants (C05 proves that the constructors establish them), with all features and with none: every EncodeIntoContext implementation, Display implementation and codec. Assumed: the URL of a referral, CodeOther and QuotedUtf8 hold no CR or LF (see KNOWN_FINDINGS.txt and DESIGN.md), chrono, base64 and integer formatting and Thread's Display print neither CR, LF nor an opening brace. Executable contracts cover the assumed parts, bounded.")
P("C19", "Dumping an encoded message equals concatenating its fragments",
  "Collecting all bytes of an encoded message equals concatenating its fragments, also after any number of fragments has already been taken, and encoding is deterministic.",
  ["inputs", "histories"], "every message, every number of fragments taken first",
  "Tests compare a few messages.",
  [ENC], [("Encoded::dump, Iterator for Encoded", ENC)], configs="abc",
  level="proof", note="Dumping and taking fragments are proved for every queue. Determinism is not an obligation of its own: it follows from the encoder under contract, which has no state but its arguments; the executable contracts observe it, bounded.")
P("C20", "Decoding an encoded message gives the same message",
  "Every valid greeting, command, authentication line, response and idle terminator, once encoded, is decoded by its own codec to an equal message with nothing left over. Documented exceptions: response text that starts with a bracket, sequence sets under the normalising quirk (equal in meaning), empty parameter lists under the empty-to-nil quirk, and messages nested deeper than the decoder's recursion limits.",
  ["inputs", "configurations"], "every message of every kind, in every feature configuration",
  "Tests round-trip known trace lines; the claim is about every combination of field values.",
  ["imap-codec/src"], [("encode_ctx impls and the parsers they mirror", "imap-codec/src")], configs="abc", scale=8.0)
P("C21", "Decoding is streaming: verdicts never change as bytes arrive",
  "No proper prefix of an encoded message is accepted or rejected: it is reported as incomplete or as waiting for a literal. For any bytes whatsoever, once a prefix is accepted or rejected, appending more bytes changes neither the verdict, the message nor the number of bytes consumed.",
  ["inputs"], "every message and every split point, every byte string and every extension",
  "Tests check prefixes of a few messages.",
  ["imap-codec/src"], [("streaming parsers", "imap-codec/src"), ("Decoder impls", DEC)], configs="abc", level="proof", note="Proved for every byte string and every codec, on the combinator terms extracted from the parsers: verdicts are stable under extension, and no proper prefix of a message accepted whole has a verdict. That encoded messages are accepted whole is C20 (bounded).", scale=6.0)
P("C22", "Decoding any bytes terminates without panicking",
  "For every byte string, every codec returns a message, an incomplete verdict, a literal request or a failure, in bounded stack and without panicking, whatever the nesting depth or the numbers in it. An accepted message consumes at least one byte, and the remainder is the untouched rest of the input.",
  ["inputs"], "every byte string, every codec, in every feature configuration",
  "Tests feed dozens of inputs; the fuzz targets are not part of the tests.",
  ["imap-codec/src"], [("nom parsers and their recursion limits", "imap-codec/src")], configs="abc", note="Proved: every parser terminates with bounded recursion, consumes at least one byte of an accepted message and never more than the input, fills in the tag where the decoder relies on it, and no closure panics: unwraps, unreachable arms, indices and arithmetic on parsed numbers are obligations. Bounded: three sites listed as unchecked in the evidence (the validation of a parsed date-time, the unwraps of a continuation request), and what dependencies do inside.")
P("C23", "Decoded messages are valid and survive re-encoding",
  "Every message accepted from any bytes satisfies the type invariants, so that encoding it is well framed, and decoding that encoding gives the message again (up to sequence-set normalisation and empty parameter lists under the respective quirks).",
  ["inputs", "configurations"], "every byte string accepted by some codec",
  "Tests re-encode only a few canonical lines.",
  ["imap-codec/src"], [("parsers constructing values unchecked", "imap-codec/src/core.rs")], configs="abc", note="Proved for every byte string: whatever the parsers hand unchecked to Atom, AtomExt, Tag, Text, Quoted, ListCharString, Vec1 and Vec2 satisfies the invariant of the type (with C18, proved from those invariants, its encoding is well framed). Bounded: that decoding that encoding gives the message again.")
P("C24", "Literal requests report exactly the announced literal",
  "When input ends directly after the announcement of a literal that belongs to a message of the grammar, the decoder reports that literal with exactly its announced length, for commands also its mode and the command's tag; at no other point of a valid message is a literal reported. A literal request is reported only if the input ends in such an announcement.",
  ["inputs"], "every message with literals at any position, every cut point, every byte string",
  "Tests check a few commands.",
  ["imap-codec/src/core.rs", "imap-codec/src/command.rs", DEC], [("literal, literal8", "imap-codec/src/core.rs"), ("command: filling in the tag", "imap-codec/src/command.rs")], configs="abc", note="Proved for commands: literal requests exactly at the announcements, with length, mode and tag; proved for responses: only at announcements, with the announced length. Bounded: that a response reports every one of its literals.")
P("C25", "Fragmentizer and command codec agree on command boundaries",
  "Whenever the command codec accepts a command at the start of some bytes, the fragmentizer's first message in those bytes ends at the same byte and decodes to the same command; whenever the codec asks for more bytes, the fragmentizer has not yet seen a complete message.",
  ["inputs", "configurations"], "every byte string",
  "No existing test relates the two components.",
  [F, "imap-codec/src/command.rs"], [("Fragmentizer::progress", F), ("CommandCodec::decode", DEC)], configs="abc", level="proof", note="Proved by two units that share the line scanner (proofs/scan.inc): the command parsers end a command where the scanner does, and the fragmentizer completes a message there.")
P("C26", "Message constructors build exactly what was asked",
  "Every convenience constructor of commands, responses, greetings and continuation requests puts each argument in its place unchanged, fails only when an argument is not valid, and gives the command its right name; macro expansion yields the documented items. A continuation request whose text would be read back as something else is refused.",
  ["inputs"], "every constructor and every argument",
  "Tests build a few of them.",
  ["imap-types/src/command.rs", "imap-types/src/response.rs", "imap-types/src/fetch.rs"], [("CommandBody constructors", "imap-types/src/command.rs"), ("Greeting, Status, Data, CommandContinuationRequest constructors", "imap-types/src/response.rs")], level="proof")
