"""Layer A: deductive proofs on the code in /repo. `run(prop, tier, tmp, log)` returns one record per proof unit.

A Verus unit is a template in proofs/: specifications, lemmas and contracts, with directives that pull the functions
under contract out of /repo's current source (extract/). A Kani unit is a harness in kani/ on the real crates.
"""
import concurrent.futures, fcntl, json, os, re, shutil, signal, subprocess, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")

STD = "std: "
# unit -> properties it serves, what is trusted in it, and the theorems that state the properties
UNITS = {
    "frag": dict(
        backend="verus/z3",
        props=["C01", "C02", "C03", "C04", "C25"],
        trusted=[
            STD + "VecDeque::drain(..n) removes and yields the first n bytes; Iterator::take; Vec::extend and VecDeque::extend append (vx_drain, vx_take, vx_extend, vx_extend_slice in proofs/frag.rs)",
            STD + "vstd's specifications of VecDeque/Vec/Option/slice methods and u32::checked_mul/checked_add",
            "the byte stream fed to one fragmentizer is shorter than usize::MAX bytes",
        ],
        # whose failure counts against which property; a failure elsewhere only means the proof is not re-established
        owns={
            "C01": r"Parser::|progress|enqueue_bytes|dequeue|fragment_bytes|is_message_complete|message_bytes|range|Fragmentizer::(new|without)",
            "C02": r"LineParser::",
            "C03": r"progress|dequeue|is_max_message|decode_message|Fragmentizer::new|skip_message|message_bytes",
            "C04": r"decode_tag|skip_message|poison|progress|decode_message|Fragmentizer::(new|without)|Secret",
            "C25": r"theorem_(frame|walk)",
        },
        theorems={
            "C01": ["Fragmentizer::progress (proofs/frag.rs: progressed)", "theorem_enqueue", "theorem_progress", "theorem_chunks", "theorem_bytes", "vx_client (termination)"],
            "C02": ["LineParser::parse (line_result: line_announces, line_ending)", "lemma_run", "lemma_step", "lemma_end"],
            "C03": ["Fragmentizer::dequeue_parsed_bytes", "Fragmentizer::progress (fed: message_buffer, max_message_size_exceeded)", "theorem_bytes", "Fragmentizer::decode_message"],
            "C04": ["Fragmentizer::decode_tag (parse_tag on exactly the kept bytes)", "Fragmentizer::skip_message, poison_message, progress, decode_message", "theorem_skip"],
            "C25": ["theorem_walk, theorem_frame: the fragmentizer completes a message exactly where the line scanner of proofs/scan.inc (shared with unit parse) ends it"],
        },
    ),
    "seq": dict(
        backend="verus/z3",
        props=["C10", "C12"],
        trusted=[
            STD + "[(u32, u32)]::sort and [T]::sort_unstable_by_key return the same elements in order; Iterator::skip; VecDeque::back_mut and the conversions between VecDeque and Vec; mem::replace (vx_* and assume_specification in proofs/seq.rs)",
            STD + "Display of NonZeroU32 prints its decimal digits; Write::write_all over a write that takes everything; write! writes its pieces in order (rewritten by the extractor); <[T]>::split_last",
            STD + "#[derive(Clone, PartialEq)] of SeqOrUid, Sequence and SequenceSet; NonZeroU32 is determined by its non-zero value",
            STD + "vstd's specifications of Vec/VecDeque/Option/RangeInclusive/Rev",
            "merge_ranges is verified at the one type it is used at (u64)",
        ],
        owns={
            "C10": r"simplify|cleanup|SequenceSetIter|Sorting|SequenceSet::iter|expand",
            "C12": r"normalize|merge_ranges|cmp|to_non_zero|SeqOrUid::from|encode_ctx|join_serializable|theorem_reads",
        },
        theorems={
            "C10": ["SequenceSet::iter (strictly increasing, exactly in_set)", "SequenceSet::iter_naive (naive)", "SequenceSetIter::next", "lemma_flat"],
            "C12": ["SequenceSet::normalize (canonical, names)", "theorem_meaning", "theorem_normal_form", "theorem_idempotent", "SeqOrUid::cmp (order of rank)", "Sequence::partial_cmp (below)", "SequenceSet::encode_ctx (sends: the text of a set that selects the same messages)", "theorem_reads (that text reads as that set and as no other)"],
        },
    ),
    "seqwire": dict(
        backend="verus/z3",
        props=["C12"],
        trusted=[
            STD + "Display of NonZeroU32 prints its decimal digits; Write::write_all over a write that takes everything; write! writes its pieces in order (rewritten by the extractor); <[T]>::split_last",
            STD + "NonZeroU32 is determined by its non-zero value",
        ],
        owns={"C12": r"encode_ctx|join_serializable|theorem_reads"},
        theorems={"C12": ["SequenceSet::encode_ctx without the normalising quirk (sends: the text of exactly this set)", "theorem_reads"]},
    ),
    "core": dict(
        backend="verus/z3",
        props=["C04", "C05", "C06", "C08", "C09"],
        trusted=[
            STD + "str::from_utf8, String::from_utf8, String::into_bytes, str::eq_ignore_ascii_case, <[u8]>::eq_ignore_ascii_case, char::is_ascii, Vec::clone, Vec::from([T; N]), Cow as_ref/deref (vx_* and assume_specification in proofs/core.rs)",
            STD + "iter().position(f) is the first index satisfying f (vx_position, verified against that statement)",
            STD + "AsRef of str, String, [u8], Vec<u8>, &T gives the same bytes",
            STD + "vstd's specifications of str, String, UTF-8, Cow, Vec, Option, Result and TryInto",
            "thiserror: #[from] wraps the error",
            "the generated text in proofs/core.rs (written by mk_core.py) is the contract that counts",
        ],
        owns={
            "C04": r"parse_tag",
            "C05": r"is_\w+|: (Atom|AtomExt|Tag|Text|Quoted|QuotedChar|Literal|ListCharString)(<[^>]*>)?::",
            "C06": r": (IString|NString|AString|Charset|ListMailbox)(<[^>]*>)?::",
            "C08": r"VecN|Vec1|Vec2",
            "C09": r": (Mailbox|MailboxOther)(<[^>]*>)?::",
        },
        theorems={
            "C04": ["parse_tag: the bytes before the first space iff they are a valid tag"],
            "C05": ["is_char .. is_list_char (every byte, against RFC 3501)", "validate and every TryFrom of Atom, AtomExt, Tag, Text, Quoted, Literal, ListCharString, QuotedChar: Ok iff the grammar holds, content unchanged"],
            "C06": ["every TryFrom/From of IString, NString, AString, Charset, ListMailbox (best_istring, best_astring, best_charset, best_list_mailbox)", "IString::into_inner, NString::into_option, AsRef of every string type: the same bytes"],
            "C08": ["VecN::validate, unvalidated (precondition), into_inner, TryFrom<Vec<T>>, From<[T; N]>, Vec1::from, Vec2::from"],
            "C09": ["MailboxOther::validate and every TryFrom, From<AString> for Mailbox and every TryFrom: INBOX in any letter case and nothing else is Mailbox::Inbox"],
        },
    ),
    "esc": dict(
        backend="verus/z3",
        props=["C07"],
        trusted=[
            STD + "str::contains(pattern) and str::replace(pattern, text) for a character or text pattern: occurrence, and leftmost non-overlapping replacement (VxStr in proofs/esc.inc)",
            STD + "vstd's specifications of str, String and Cow",
        ],
        owns={"C07": r"escape_quoted|theorem"},
        theorems={"C07": ["escape_quoted (r@ == esc(unescaped@))", "unescape_quoted (inverse of esc)", "theorem_escape", "theorem_inverse", "theorem_meant"]},
    ),
    "enc": dict(
        backend="verus/z3",
        props=["C18", "C19"],
        trusted=[
            STD + "Write::write_all over a write that takes everything; write! writes its pieces in order (rewritten by the extractor); mem::take; <[T]>::split_last; Cow as_ref/as_bytes/len/is_empty",
            STD + "Display of integers prints decimal digits; ToString collects what Display prints; Display of Cow<str> prints it",
            "base64 and chrono's format print neither CR, LF nor an opening brace; likewise Display of Thread (recursive over a private helper)",
            "CodeOther and QuotedUtf8 hold no CR or LF and the URL of a referral neither (not validated by the library: KNOWN_FINDINGS.txt)",
            "SequenceSet and Sequence clone and normalize (under the quirk feature) give some set (C12 proves which)",
            "the type invariants of Atom, AtomExt, Tag, Text, Quoted, QuotedChar, ListCharString (established by every constructor, unit core)",
            "termination of the encoders is not claimed (recursion over the finite message)",
        ],
        owns={
            "C18": r"::encode(_ctx)?\b|EncodeContext::|::fmt|join_|format_status|encode_namespaces|::inner|::vx_ref|::as_ref|escape_quoted",
            "C19": r"Encoded::(dump|next)",
        },
        theorems={
            "C18": ["<XCodec>::encode (framed; commands: !reads_announcing of the last line)", "every EncodeIntoContext::encode_ctx (outcome)", "theorem_framed", "lemma_plain", "lemma_literal", "EncodeContext::push_line, push_literal, into_items, write"],
            "C19": ["Encoded::dump (cat)", "Encoded::next"],
        },
    ),
    "parse": dict(
        backend="verus/z3",
        props=["C21", "C22", "C23", "C24", "C25"],
        trusted=[
            "nom 7.1.3 and abnf-core 0.6.0: the streaming combinators and nom::sequence/multi/branch/combinator mean what proofs/parse.inc defines (tag, take_while*, take_until, one_of, crlf, crlf_relaxed, escaped_transform, opt, peek, recognize, many*, separated_list*, alt, tuple, map*, verify, value, cut)",
            "closures given to map, map_res, map_opt, verify are pure functions of the bytes parsed (uninterpreted `accepts`); which constructor a closure builds is read off its source; unwrap, expect, unreachable!, indices and arithmetic in them are obligations or listed as UNCHECKED, functions they call do not panic (IString::try_from of a fixed quotable text: unit core; NaiveDate::unvalidated of a four-digit year: unit c15)",
            "predicates on bytes are evaluated by the extractor for all 256 values",
            "the header of a literal is flattened to (opening, number, close, line break) and the arms of CodecX::decode are evaluated symbolically (decode_error, Incomplete, LiteralFound)",
            "str::from_utf8(x).unwrap() on ASCII bytes, and the unwraps listed as UNCHECKED in the evidence, do not panic",
        ],
        by_failure=True,
        owns={
            "C21": r"^(?!.*termination).* in (g_p_|theorem_C21)",
            "C22": r"termination in [pgsu]_p_|in (a_p_|t_p_|theorem_C22)",
            "C23": r"in a_p_",
            "C24": r"^(?!.*termination).* in (m_p_|t_p_|s_p_|u_p_|theorem_C24)",
            "C25": r"^(?!.*termination).* in (s_p_|u_p_|theorem_C25)",
        },
        theorems={
            "C21": ["theorem_C21_{Greeting,Command,Response,AuthenticateData,IdleDone}: a verdict never changes when bytes are appended; none on a proper prefix of an accepted message", "g_p_* (good) for every parser of the crate"],
            "C22": ["theorem_C22_*: no Panic result, 0 < consumed <= input", "p_* and g_* decrease (recursion bounded)", "a_p_* (unwraps after ASCII runs, single bytes, non-empty lists)"],
            "C23": ["a_p_* (within, filled, nonempty, two): the bytes and lists given to Atom, AtomExt, Tag, Text, Quoted, ListCharString, Vec1 and Vec2::unvalidated satisfy the invariant of the type"],
            "C24": ["theorem_C24: of an accepted command, a literal is requested exactly after each announcement, with its length, mode and the command's tag", "theorem_C24_only (responses: only after an announcement)", "m_p_* (mode)", "t_p_command_command (tag)"],
            "C25": ["theorem_C25: an accepted command ends where the line scanner ends it and decodes alike alone", "s_p_*, u_p_* (framing of every parser reachable from a command)"],
        },
    ),
    "taggen": dict(
        backend="verus/z3",
        props=["C13"],
        trusted=[
            STD + "AtomicUsize::fetch_add(1) returns pairwise different values to all callers of all threads (fewer than 2^64 of them); the counter is used nowhere else (checked by the extractor)",
            STD + "Display of integers prints their decimal digits; format! concatenates its pieces",
            "rand: Alphanumeric gives ASCII letters and digits",
            "Tag::unvalidated keeps the text; one generator makes fewer than 2^64 tags",
        ],
        owns={"C13": r"TagGenerator::|theorem_unique|sole_|generate|\bnew\b"},
        theorems={"C13": ["TagGenerator::new (issued)", "TagGenerator::generate (tagged, names, counter + 1)", "theorem_unique: equal tags have the same generator and call number", "sole_TagGenerator (not Clone, Copy or Default; the counter is as wide as usize)"]},
    ),
    "secret": dict(
        backend="verus/z3",
        props=["C16"],
        trusted=[
            STD + "generic code learns of a value of a type parameter T: Debug only through Debug (parametricity); derived Debug prints each field by its Debug",
            "that password, initial_response, Continue, remainder, initial and discarded are of type Secret is what the harness's use of them type-checks",
        ],
        owns={"C16": r"Secret|fmt|declassify|new"},
        theorems={"C16": ["<Secret<T> as Debug>::fmt under not(debug_assertions): never prints (requires open()) the content", "Secret::new, declassify: the same value"]},
    ),
    "serde": dict(
        backend="verus/z3",
        props=["C17"],
        trusted=[
            "serde_derive: a container attribute try_from reads the named type and converts it; deserialize_with reads the field by the named function; otherwise every part is read as its own type, and reading what was written gives it again (for adjacently tagged enums as well); serde's and serde_json's implementations for std types, chrono and NonZero",
            "a deserializer that reads bytes gives a Vec or an error",
            "DateTime::validate and NaiveDate::validate (Kani, unit c15), CommandContinuationRequestBasic::new (unit ctor)",
            "everything trusted in unit core",
        ],
        owns={"C17": r"serde of|deserialize_|ContinuationRequestBasic"},
        theorems={
            "C17": [
                "de_Atom, de_AtomExt, de_Tag, de_Text, de_Quoted, de_QuotedChar, de_Literal, de_VecN, de_ListCharString, de_MailboxOther, de_DateTime, de_NaiveDate, de_CommandContinuationRequestBasic: what the derived Deserialize makes of any document satisfies the type's grammar, and what a valid value is written as gives it again",
                "no other type that derives Deserialize says anything about its parts (93 types)",
            ],
        },
    ),
    "static": dict(
        backend="verus/z3",
        props=["C14"],
        trusted=[
            "bounded-static: the derived to_static/into_static of a type copies every part; derive(PartialEq) compares every part and, in a Cow, its content",
            "Tag::into_static (derived) keeps the text; cloning chrono's values",
            "Decoder::decode is a function of its input (a codec has no state)",
            "encoding looks at content only (the encoders of unit enc take Cows by their content); observed by the executable contracts",
        ],
        owns={"C14": r"imap-"},
        theorems={
            "C14": [
                "ToStatic and IntoStatic of DateTime, NaiveDate and of the five decoders' errors: the same value",
                "the blanket implementations of ToStatic and IntoStatic hand on",
                "decode_static (for any decoder): the same verdict, remainder and value as decode",
                "no other implementation of ToBoundedStatic, IntoBoundedStatic, ToStatic, IntoStatic, PartialEq or decode_static is written in the repository: the rest is derived",
            ],
        },
    ),
    "names": dict(
        backend="verus/z3",
        props=["C09"],
        trusted=[
            STD + "str::to_ascii_lowercase, to_ascii_uppercase, to_lowercase and to_uppercase (on ASCII), eq_ignore_ascii_case, split_once, strip_prefix, split_at_checked, to_owned, [u8]::to_ascii_lowercase, comparison of byte slices; Cow clone and deref",
            STD + "a str is determined by its characters (`==` and patterns that are texts)",
            STD + "write! writes its pieces in order (rewritten by the extractor); a Formatter takes everything",
            "TryFrom of &str, String, Cow<str>, &[u8], Vec<u8> for Atom: the contracts proved in unit core",
            "values for unknown names made through serde or arbitrary (C17, C20)",
        ],
        owns={"C09": r"imap-types/|theorem_"},
        theorems={"C09": [
            "From<Atom> and every TryFrom of AuthMechanism, Capability, CapabilityEnable, Resource, SortAlgorithm, ThreadingAlgorithm, FlagNameAttribute; Flag::system, AttributeFlag::system, TryFrom<&str> of Flag and AttributeFlag; every TryFrom of CompressionAlgorithm: the known names in any letter case, and only they, give the known value; any other text is kept as it is",
            "type invariants of AuthMechanismOther, CapabilityOther, CapabilityEnableOther, ResourceOther, SortAlgorithmOther, ThreadingAlgorithmOther, FlagExtension, AttributeFlagExtension, FlagNameAttributeExtension: not a known name",
            "Display and AsRef of each; theorem_{auth,cap,enable,res,sort,thread,fna,flag,aflag,comp}: printing and reading gives the same value",
        ]},
    ),
    "case": dict(
        backend="verus/z3",
        props=["C09"],
        by_failure=True,
        trusted=[
            "nom 7.1.3 and abnf-core 0.6.0: the combinators do what their specifications in proofs/parse.inc say",
            "the generator's reading of the parsers as terms (extract/src/parsers.rs); closures given to map are functions of what they are given",
            "hypothesis contents_alike of every theorem: the closures that judge a content (NonZero, from_utf8, Literal::try_from, Entry::try_from, existing dates, base64, is_some, eq_ignore_ascii_case) accept both or none of two texts that differ in letter case only; so for base64 the theorems speak of inputs with the same, or equally valid, contents",
        ],
        owns={"C09": r" in (c_p_|theorem_C09)"},
        theorems={
            "C09": [
                "theorem_C09_{Greeting,Command,Response,AuthenticateData,IdleDone}: inputs that differ only in the case of letters get the same verdict, the same number of bytes consumed, and messages built by the same closures from texts that differ only in letter case",
                "c_p_*: the same for each of the parsers",
            ],
        },
    ),
    "ctor": dict(
        backend="verus/z3",
        props=["C26"],
        trusted=[
            STD + "NonZeroU32::try_from fails for zero only and keeps the number; str::starts_with(char); Cow and Option as_ref",
            "base64: which texts decode (uninterpreted `base64`)",
            "what TryInto and Into of the arguments give is taken as it is (units core, seq and c11 say what)",
        ],
        owns={"C26": r"imap-types/"},
        theorems={"C26": [
            "every constructor of CommandBody, Command, Greeting, Status, Data, Code, CommandContinuationRequest(Basic), AuthenticateData, SearchKey::uid, Namespace, QuotaGet, QuotaSet: Ok holds what converting each argument gave, in its place; Err is the error of converting that argument",
            "CommandBody::name, Command::name (named)", "Macro::expand (stands_for)",
            "CommandContinuationRequestBasic::new: Ambiguity exactly for a text without code that starts with [ or is base64",
        ]},
    ),
    "c05": dict(
        backend="kani/cbmc",
        props=["C05"],
        trusted=["Kani's and CBMC's semantics of MIR"],
        theorems={"C05": ["c05::indicators (every byte)", "c05::quoted_char (every char)"]},
    ),
    "c11": dict(
        backend="kani/cbmc",
        props=["C11"],
        trusted=["Kani's and CBMC's semantics of MIR", "the harnesses are loop-free or unwound completely (unwinding assertions on)"],
        theorems={"C11": ["c11::<int>::number, open_ranges, closed_ranges for the ten integer types (every value, every pair of bounds)", "c11::nonzero", "c11::bounds"]},
    ),
    "numtext": dict(
        backend="verus/z3",
        props=["C11"],
        trusted=[
            "str::split at a character gives the pieces between its occurrences; str::starts_with one of two characters; NonZeroU32::from_str (digits with an optional plus sign, below 2^32, not zero); u32::try_from and NonZeroU32::try_from of an integer; Vec::into_iter().map().collect(), to_vec",
        ],
        theorems={
            "C11": [
                "FromStr and TryFrom<&str> of SeqOrUid, Sequence, SequenceSet: Ok exactly for the texts of the grammar (no bound on length), with the numbers written, in order",
                "TryFrom of Vec<Sequence>, Vec<NonZeroU32>, &[NonZeroU32] and of a slice of each of the ten integer types: the numbers, in order; an error exactly for an empty list or an invalid number",
                "TryFrom of each of the ten integer types, From<NonZeroU32>, From<SeqOrUid>, From<Sequence>",
            ],
        },
    ),
    "c15": dict(
        backend="kani/cbmc",
        props=["C15"],
        trusted=["Kani's and CBMC's semantics of MIR"],
        theorems={"C15": ["c15::date_time (DateTime::validate, TryFrom: every local date, time of day, nanosecond and offset of chrono)", "c15::naive_date (every date of chrono)"]},
    ),
}
# the same contracts with no features
UNITS["enc0"] = dict(UNITS["enc"])
UNITS["parse0"] = dict(UNITS["parse"])
# the same contracts under debug_assertions
UNITS["taggend"] = dict(UNITS["taggen"])


def units_of(prop):
    return [u for u, d in UNITS.items() if prop in d["props"]]


def theorems(prop):
    return [f"{u}: {t}" for u in units_of(prop) for t in UNITS[u]["theorems"].get(prop, [])]


BOUNDED = (
    "executable contracts on the real code, bounded-exhaustive and seeded (bounded stand-in)",
    "Bounded: the contract is executed on the real crates for every case within the stated bounds and for seeded random cases; not a proof beyond them.",
)


def describe(prop):
    us = units_of(prop)
    if not us:
        return BOUNDED
    import props

    P = props.PROPS[prop]
    be = " + ".join(sorted({UNITS[u]["backend"].split("/")[0].capitalize() for u in us}))
    if P["level"] == "proof":
        return (
            f"{be}: contracts on functions extracted from /repo on every run, all obligations discharged; executable contracts replay and search for counterexamples",
            P.get("note") or "Proved for all inputs under the listed trusted std contracts. The executable contracts on the real crates, bounded, additionally cover what the extraction drops.",
        )
    return (
        f"{be}: contracts on the functions named in theorems; executable contracts (bounded stand-in) for the rest",
        P.get("note") or "Bounded overall: the functions named in theorems are proved for all inputs, the rest of the property is decided by executable contracts within the stated bounds.",
    )


# ---------------------------------------------------------------------------------------------------------------


def extractor():
    td = os.path.join(BUILD, "x")
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(BUILD, "x.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "-q", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "extract/Cargo.toml"), "--target-dir", td], capture_output=True, text=True, env=dict(os.environ, RUSTFLAGS=""))
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return os.path.join(td, "debug", "vextract"), ""


def run_verus(unit, tmp, tier):
    d = UNITS[unit]
    rec = dict(unit=unit, backend=d["backend"], obligations=0, discharged=0, trusted=d["trusted"], cmd=f"vextract proofs/{unit}.rs /repo; verus {unit}.rs")
    x, err = extractor()
    if x is None:
        return dict(rec, status="lost", reason="the extractor does not build: " + err)
    wd = os.path.join(tmp, "verus-" + unit)
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, unit + ".rs")
    r = subprocess.run([x, os.path.join(VERIF, "proofs", unit + ".rs"), REPO, out], capture_output=True, text=True)
    if r.returncode != 0:
        return dict(rec, status="lost", reason=(r.stdout + r.stderr).strip()[-500:])
    t0 = time.time()
    rl = ["--rlimit", "60"] if tier == "quick" else ["--rlimit", "300"]
    try:
        r = subprocess.run(["verus", unit + ".rs", "--output-json", "--time", "--multiple-errors", "4", "--num-threads", "4", *rl], cwd=wd, capture_output=True, text=True, timeout=400 if tier == "quick" else 3000)
    except subprocess.TimeoutExpired:
        return dict(rec, status="lost", reason="the verifier ran out of time")
    rec["wall_s"] = round(time.time() - t0, 2)
    try:
        j = json.loads(r.stdout[r.stdout.index("{") :])
        res = j["verification-results"]
        smt = j["times-ms"]["smt"]
        rec["solver_s"] = round(smt["total"] / 1000, 3)
        fns = [f for m in smt["smt-run-module-times"] for f in m["function-breakdown"]]
    except (ValueError, KeyError, IndexError):
        return dict(rec, status="lost", reason="outside the verifier's subset: " + first_errors(r.stderr))
    rec["obligations"] = res.get("verified", 0) + res.get("errors", 0)
    rec["discharged"] = res.get("verified", 0)
    rec["functions_under_contract"] = sorted(extracted(out + ".map"))
    rec["unchecked_panic_sites"] = sorted({l[13:].strip() for l in open(out) if l.startswith("// UNCHECKED ")})
    rec["exec"] = sum(1 for f in fns if f.get("mode:") == "exec")
    rec["lemmas"] = sum(1 for f in fns if f.get("mode:") == "proof")
    if res.get("success") and res.get("errors") == 0 and res.get("verified", 0) > 0:
        return dict(rec, status="proved")
    if res.get("encountered-vir-error") or not res.get("errors"):
        return dict(rec, status="lost", reason="outside the verifier's subset: " + first_errors(r.stderr))
    errs = split_errors(r.stderr)
    hard = [e for e in errs if "Resource limit" not in e and "aborting due to" not in e and "soft: " not in e]
    if any("soft: " in e for e in errs):
        # something was not recognised: what rests on it is unknown, not refuted
        soft = {lemma(e, out) for e in errs if "soft: " in e}
        hard = [e for e in hard if lemma(e, out) not in soft and not re.match(r"(theorem|[stu]_p)_", lemma(e, out))]
    names = sorted({f["function"].split("::", 1)[-1] for f in fns if not f.get("success")})
    if not hard:
        return dict(rec, status="lost", reason="the solver ran out of resources on, or does not know, " + ", ".join(names))
    fails = [locate(e, out, out + ".map") for e in hard]
    return dict(rec, status="failed", failed_functions=names, failures=[f for f in fails if f], reason="not discharged: " + ", ".join(names), output="\n".join(hard)[-12000:])


def split_errors(s):
    out, cur = [], None
    for line in s.splitlines():
        if re.match(r"(error|warning|note)(\[|:)", line):
            cur = [] if line.startswith("error") else None
            if cur is not None:
                out.append(cur)
        if cur is not None:
            cur.append(line)
    return ["\n".join(e) for e in out]


def first_errors(s):
    e = split_errors(s)
    return (e[0] if e else s)[:500]


def extracted(m):
    # types carry no line
    rows = [l.rstrip("\n").split("\t")[:4] for l in open(m) if ".rs: " in l]
    return {r[2] for r in rows if r[3] != "0" or "::" in r[2] or "fn " in r[2]}


def lemma(err, out):
    """The function of the verified text in which the error lies."""
    k = re.search(r"--> \S+?:(\d+):", err)
    for l in reversed(open(out).read().splitlines()[: int(k.group(1))] if k else []):
        f = re.match(r"\s*(?:pub(?:\(crate\))? )?(?:open |closed )?(?:proof |spec |exec )?fn (\w+)", l)
        if f:
            return f.group(1)
    return "?"


def locate(err, out, m):
    """The obligation, named by the function of the repository it belongs to."""
    head = err.splitlines()[0] + " in " + lemma(err, out)
    k = re.search(r"--> \S+?:(\d+):", err)
    if not k:
        return head
    n = int(k.group(1))
    for l in open(m):
        a, b, label, src = l.rstrip("\n").split("\t")[:4]
        if int(a) <= n <= int(b):
            return f"{head} [{label}, line {src} of the repository file]: {open(out).read().splitlines()[n-1].strip()[:200]}"
    return f"{head}: {open(out).read().splitlines()[n-1].strip()[:200]}"


def run_kani(unit, tmp, tier):
    d = UNITS[unit]
    rec = dict(unit=unit, backend=d["backend"], obligations=0, discharged=0, trusted=d["trusted"], cmd=f"cargo kani --harness {unit}:: (in kani/)")
    import check

    td = os.path.join(BUILD, "kani")
    os.makedirs(td, exist_ok=True)
    limit = 600 if tier == "quick" else 3000
    with open(os.path.join(BUILD, "kani.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, now = os.path.join(td, "repo.stamp"), check.repo_hash()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            shutil.rmtree(td, ignore_errors=True)
            os.makedirs(td)
        t0 = time.time()
        rc, out = kani(td, ["--harness", unit + "::", "-j", "8", "--output-format", "terse"], limit)
        rec["wall_s"] = round(time.time() - t0, 2)
        if rc is None:
            return dict(rec, status="lost", reason="the verifier ran out of time")
        open(stamp, "w").write(now)
        m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", out)
        if not m or int(m.group(3)) == 0:
            return dict(rec, status="lost", reason="outside the verifier's subset: " + first_errors(out))
        fails = [(int(a), int(b)) for a, b in re.findall(r"\*\* (\d+) of (\d+) failed", out)]
        rec["obligations"] = sum(b for a, b in fails)
        rec["discharged"] = sum(b - a for a, b in fails)
        rec["solver_s"] = round(sum(float(x) for x in re.findall(r"Verification Time: ([\d.]+)s", out)), 2)
        rec["functions_under_contract"] = d["theorems"][d["props"][0]]
        rec["exec"] = int(m.group(3))
        if int(m.group(2)) == 0:
            return dict(rec, status="proved")
        names = sorted(set(re.findall(r"Verification failed for - (\S+)", out)))
        hard, log_ = [], ""
        for n in names[:3]:
            rc, o = kani(td, ["--harness", n, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"], 300)
            for blk in re.findall(r"Check \d+: [^\n]*\n\t - Status: FAILURE\n(?:[^\n]+\n)*", o or ""):
                desc = re.search(r"Description: \"(.*)\"", blk)
                if desc and not re.search(r"unwinding assertion|is not currently supported|unsupported|reachability|sink", desc.group(1)):
                    loc = re.search(r"Location: (.*)", blk)
                    hard.append(f"{n}: {desc.group(1)} [{loc.group(1) if loc else ''}]")
            log_ += "\n".join(l for l in (o or "").splitlines() if "SUCCESS" not in l)[-4000:]
        if not hard:
            return dict(rec, status="lost", reason="not decided: " + ", ".join(names))
        return dict(rec, status="failed", failed_functions=names, failures=hard, reason="not discharged: " + ", ".join(names), output=log_[-12000:])


def kani(td, args, limit):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    p = subprocess.Popen(["cargo", "kani", "--target-dir", td, *args], cwd=os.path.join(VERIF, "kani"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, ""


def run_unit(unit, tmp, tier):
    return (run_kani if UNITS[unit]["backend"].startswith("kani") else run_verus)(unit, tmp, tier)


def run(prop, tier, tmp, log):
    us = units_of(prop)
    if not us:
        return []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        out = list(ex.map(lambda u: run_unit(u, tmp, tier), us))
    for r in out:
        own = UNITS[r["unit"]].get("owns", {}).get(prop)
        names = r.get("failures", []) + ([] if UNITS[r["unit"]].get("by_failure") else r.get("failed_functions", []))
        if r["status"] == "failed" and own and r.get("failed_functions") and not any(re.search(own, f) for f in names):
            r["status"] = "lost"
            r["reason"] += " (none of them states this property; the argument is not re-established)"
    return out
