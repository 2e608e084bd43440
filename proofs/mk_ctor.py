#!/usr/bin/env python3
"""Writes ctor.rs: one contract per constructor, in the same form."""
import os

H = r'''#![allow(unused, non_snake_case, non_upper_case_globals, unused_parens, unused_braces)]
use std::{borrow::Cow, num::{NonZeroU32, NonZeroU64, TryFromIntError}};
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::convert::TryFromSpecImpl;
verus! {

// ===== what is used ==================================================================================

/// `r` is what converting `a` gave. Nothing else is known of the conversion.
spec fn tried<T: TryInto<X>, X>(a: T, r: Result<X, T::Error>) -> bool {
    call_ensures(<T as TryInto<X>>::try_into, (a,), r)
}
spec fn turned<T: Into<X>, X>(a: T, r: X) -> bool {
    call_ensures(<T as Into<X>>::into, (a,), r)
}
spec fn may_try<T: TryInto<X>, X>(a: T) -> bool { call_requires(<T as TryInto<X>>::try_into, (a,)) }
spec fn may_turn<T: Into<X>, X>(a: T) -> bool { call_requires(<T as Into<X>>::into, (a,)) }

struct FixedOffset;
mod chrono {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct DateTime<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    pub struct NaiveDate { t: u8 }
}
type ChronoDateTime<T> = chrono::DateTime<T>;

uninterp spec fn nz(n: NonZeroU32) -> u32;
#[verifier::external_body]
fn vx_non_zero(n: u32) -> (r: Result<NonZeroU32, TryFromIntError>)
    ensures
        r is Ok <==> n != 0,
        r matches Ok(x) ==> nz(x) == n,
{
    NonZeroU32::try_from(n)
}
/// May be decoded as base64.
uninterp spec fn base64(s: Seq<char>) -> bool;
struct Base64;
const _base64: Base64 = Base64;
impl Base64 {
    #[verifier::external_body]
    fn decode(&self, data: &str) -> (r: Result<Vec<u8>, u8>)
        ensures
            r is Ok <==> base64(data@),
    {
        unimplemented!()
    }
}
#[verifier::external_body]
fn vx_starts_with(s: &str, c: char) -> (r: bool)
    ensures
        r == (s@.len() > 0 && s@[0] == c),
{
    s.starts_with(c)
}

trait VxRef {
    type To: ?Sized;
    spec fn referred(&self, r: &Self::To) -> bool;
    fn vx_ref(&self) -> (r: &Self::To)
        ensures
            self.referred(r),
    ;
}
impl<'a> VxRef for Cow<'a, str> {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_ref(&self) -> (r: &str) { self }
}
trait VxOptRef<T> {
    spec fn opt(&self) -> Option<T>;
    fn vx_ref(&self) -> (r: Option<&T>)
        ensures
            r matches Some(x) ==> self.opt() == Some(*x),
            r is None <==> self.opt() is None,
    ;
}
impl<T> VxOptRef<T> for Option<T> {
    spec fn opt(&self) -> Option<T> { *self }
    fn vx_ref(&self) -> (r: Option<&T>) { self.as_ref() }
}

// ===== types =========================================================================================

//@ wrap as_ref=vx_ref:method starts_with=vx_starts_with:ref
//@ optmatch map_err
//@ path NonZeroU32::try_from=>vx_non_zero
//@ file imap-types/src/core.rs
//@ items Atom AtomExt IString Literal Quoted NString AString Tag Text Charset NString8 VecN Vec1 Vec2
//@ struct QuotedChar #[derive(Clone, Copy)]
//@ enum LiteralMode #[derive(Clone, Copy)]
//@ impl Text<'a> {
//@ fn inner -> r
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Text<'_> => impl Text<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl
// its contract: unit core
struct ValidationError { kind: u8 }
impl<'a> TryFromSpecImpl<&'a str> for Text<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<&'a str> for Text<'a> {
    type Error = ValidationError;
    #[verifier::external_body]
    fn try_from(value: &'a str) -> Result<Self, ValidationError> { unimplemented!() }
}
//@ file imap-types/src/secret.rs
//@ items Secret
//@ impl Secret<T> {
//@ fn new -> r
    ensures
        r.0 == inner,
//@ endfn
//@ endimpl
//@ file imap-types/src/datetime.rs
//@ items DateTime NaiveDate
//@ file imap-types/src/auth.rs
//@ items AuthMechanism AuthMechanismOther AuthenticateData
//@ file imap-types/src/body.rs
//@ items Body BasicFields SpecificFields BodyStructure SinglePartExtensionData MultiPartExtensionData Disposition Language Location BodyExtension
//@ file imap-types/src/command.rs
//@ items Command CommandBody SelectParameter? FetchModifier? StoreModifier? LoginError RenameError ListError AppendError CopyError
//@ file imap-types/src/envelope.rs
//@ items Envelope Address
//@ file imap-types/src/extensions/binary.rs
//@ items LiteralOrLiteral8 Literal8
//@ file imap-types/src/extensions/compress.rs
//@ items CompressionAlgorithm
//@ file imap-types/src/extensions/condstore_qresync.rs
//@ items AttributeFlag AttributeFlagExtension EntryTypeReq?
//@ file imap-types/src/extensions/enable.rs
//@ items CapabilityEnable CapabilityEnableOther
//@ file imap-types/src/extensions/metadata.rs
//@ items EntryValue Entry GetMetadataOption Depth MetadataCode MetadataResponse
//@ file imap-types/src/extensions/move.rs
//@ items MoveError
//@ file imap-types/src/extensions/namespace.rs
//@ items Namespaces Namespace NamespaceResponseExtension NamespaceError
//@ file imap-types/src/extensions/quota.rs
//@ items Resource ResourceOther QuotaGet QuotaSet QuotaError QuotaRootError SetQuotaError
//@ file imap-types/src/extensions/sort.rs
//@ items SortAlgorithm SortAlgorithmOther SortCriterion SortKey
//@ file imap-types/src/extensions/thread.rs
//@ items Thread ThreadingAlgorithm ThreadingAlgorithmOther
//@ file imap-types/src/extensions/uidplus.rs
//@ items UidSet UidElement
//@ file imap-types/src/extensions/utf8.rs
//@ items Utf8Kind QuotedUtf8
//@ file imap-types/src/fetch.rs
//@ items Macro MacroOrMessageDataItemNames MessageDataItemName MessageDataItem Section Part
//@ file imap-types/src/flag.rs
//@ items Flag FlagExtension FlagFetch FlagPerm FlagNameAttribute FlagNameAttributeExtension StoreType StoreResponse
//@ file imap-types/src/mailbox.rs
//@ items ListCharString ListMailbox Mailbox MailboxOther
//@ file imap-types/src/response.rs
//@ items Greeting GreetingKind Status StatusBody StatusKind Tagged Bye Data CommandContinuationRequest CommandContinuationRequestBasic Code CodeOther Capability CapabilityOther ContinueError FetchError
//@ file imap-types/src/search.rs
//@ items SearchKey
//@ file imap-types/src/sequence.rs
//@ items SequenceSet Sequence SeqOrUid
//@ file imap-types/src/status.rs
//@ enum StatusDataItemName #[derive(Clone)]
//@ enum StatusDataItem #[derive(Clone)]

// ===== constructors ==================================================================================

'''
o = [H]
def w(s): o.append(s + '\n')
def fn(name, req, ens, asname=None):
    w(f"//@ fn {name} -> r")
    if asname: w(f"//@ as {asname}")
    if req: w("    requires\n" + ''.join(f"        {x},\n" for x in req).rstrip())
    if ens: w("    ensures\n" + ''.join(f"        {x},\n" for x in ens).rstrip())
    w("//@ endfn")
def ctor(name, ok, args, err=None, plain=()):
    """ok: pattern => condition with v_<arg> bound; args: (arg, Type of generic, target, Error variant)"""
    pat, cond = ok
    req = [f"may_try::<{t}, {x}>({a})" for a, t, x, e in args] + [f"may_turn::<{t}, {x}>({a})" for a, t, x in plain]
    ens = [f"r matches Ok(vx_r) ==> vx_r matches {pat} && {cond}"]
    for a, t, x, e in args:
        p = f"Err(vx_e)" if e is None else f"Err({e}(vx_e))"
        ens.append(f"r matches {p} ==> tried::<{t}, {x}>({a}, Err(vx_e))")
    fn(name, req, ens)
def try_(t, x, a, v): return f"tried::<{t}, {x}>({a}, Ok({v}))"
AM, MB, SS, AS, TX, TG = "AString<'a>", "Mailbox<'a>", "SequenceSet", "AString<'a>", "Text<'a>", "Tag<'a>"

w("//@ file imap-types/src/command.rs\n//@ impl CommandBody<'a> {")
w("""    /// RFC 3501 and the extensions.
    spec fn named(self) -> &'static str {
        match self {""")
NAMES = dict(Capability="CAPABILITY", Noop="NOOP", Logout="LOGOUT", StartTLS="STARTTLS", Authenticate="AUTHENTICATE", Login="LOGIN", Select="SELECT", Sort="SORT", Thread="THREAD", Unselect="UNSELECT", Examine="EXAMINE", Create="CREATE", Delete="DELETE", Rename="RENAME", Subscribe="SUBSCRIBE", Unsubscribe="UNSUBSCRIBE", List="LIST", Lsub="LSUB", Status="STATUS", Append="APPEND", Check="CHECK", Close="CLOSE", Expunge="EXPUNGE", ExpungeUid="EXPUNGE", Search="SEARCH", Fetch="FETCH", Store="STORE", Copy="COPY", Idle="IDLE", Enable="ENABLE", Compress="COMPRESS", GetQuota="GETQUOTA", GetQuotaRoot="GETQUOTAROOT", SetQuota="SETQUOTA", Move="MOVE", Id="ID", SetMetadata="SETMETADATA", GetMetadata="GETMETADATA", Namespace="NAMESPACE")
for k, v in NAMES.items(): w(f'            Self::{k} {{ .. }} => "{v}",')
w("        }\n    }")
fn("name", [], ["r@ == self.named()@"])
ctor("tag", ("Command { tag: vx_t, body }", "body == self && " + try_("T", TG, "tag", "vx_t")), [("tag", "T", TG, None)])
fn("authenticate", [], ["r == (CommandBody::Authenticate { mechanism, initial_response: None })"])
fn("authenticate_with_ir", ["may_turn::<I, Cow<'a, [u8]>>(initial_response)"], ["r matches CommandBody::Authenticate { mechanism: vx_m, initial_response: Some(vx_i) } && vx_m == mechanism && turned::<I, Cow<'a, [u8]>>(initial_response, vx_i.0)"])
ctor("login", ("CommandBody::Login { username: vx_u, password: vx_p }", try_("U", AS, "username", "vx_u") + " && " + try_("P", AS, "password", "vx_p.0")), [("username", "U", AS, "LoginError::Username"), ("password", "P", AS, "LoginError::Password")])
for n in ["select", "examine"]:
    ctor(n, (f"CommandBody::{n.capitalize()} {{ mailbox: vx_m, parameters: vx_p }}", try_("M", MB, "mailbox", "vx_m") + " && vx_p@.len() == 0"), [("mailbox", "M", MB, None)])
for n in ["create", "delete", "subscribe", "unsubscribe"]:
    ctor(n, (f"CommandBody::{n.capitalize()} {{ mailbox: vx_m }}", try_("M", MB, "mailbox", "vx_m")), [("mailbox", "M", MB, None)])
ctor("rename", ("CommandBody::Rename { from: vx_f, to: vx_t }", try_("F", MB, "mailbox", "vx_f") + " && " + try_("T", MB, "new_mailbox", "vx_t")), [("mailbox", "F", MB, "RenameError::From"), ("new_mailbox", "T", MB, "RenameError::To")])
LM = "ListMailbox<'a>"
for n in ["list", "lsub"]:
    ctor(n, (f"CommandBody::{n.capitalize()} {{ reference: vx_a, mailbox_wildcard: vx_b }}", try_("A", MB, "reference", "vx_a") + " && " + try_("B", LM, "mailbox_wildcard", "vx_b")), [("reference", "A", MB, "ListError::Reference"), ("mailbox_wildcard", "B", LM, "ListError::Mailbox")])
CI = "Cow<'a, [StatusDataItemName]>"
ctor("status", ("CommandBody::Status { mailbox: vx_m, item_names: vx_i }", try_("M", MB, "mailbox", "vx_m") + f" && turned::<I, {CI}>(item_names, vx_i)"), [("mailbox", "M", MB, None)], plain=[("item_names", "I", CI)])
LI = "Literal<'a>"
ctor("append", ("CommandBody::Append { mailbox: vx_m, flags: vx_f, date: vx_d, message: LiteralOrLiteral8::Literal(vx_l) }", "vx_f == flags && vx_d == date && " + try_("M", MB, "mailbox", "vx_m") + " && " + try_("D", LI, "message", "vx_l")), [("mailbox", "M", MB, "AppendError::Mailbox"), ("message", "D", LI, "AppendError::Data")])
fn("search", [], ["r == (CommandBody::Search { charset, criteria, uid })"])
MO = "MacroOrMessageDataItemNames<'a>"
ctor("fetch", ("CommandBody::Fetch { sequence_set: vx_s, macro_or_item_names: vx_i, uid: vx_u, modifiers: vx_m }", "vx_u == uid && vx_m@.len() == 0 && " + try_("S", SS, "sequence_set", "vx_s") + f" && turned::<I, {MO}>(macro_or_item_names, vx_i)"), [("sequence_set", "S", SS, None)], plain=[("macro_or_item_names", "I", MO)])
ctor("store", ("CommandBody::Store { sequence_set: vx_s, kind: vx_k, response: vx_r1, flags: vx_f, uid: vx_u, modifiers: vx_m }", "vx_k == kind && vx_r1 == response && vx_f == flags && vx_u == uid && vx_m@.len() == 0 && " + try_("S", SS, "sequence_set", "vx_s")), [("sequence_set", "S", SS, None)])
ctor("copy", ("CommandBody::Copy { sequence_set: vx_s, mailbox: vx_m, uid: vx_u }", "vx_u == uid && " + try_("S", SS, "sequence_set", "vx_s") + " && " + try_("M", MB, "mailbox", "vx_m")), [("sequence_set", "S", SS, "CopyError::Sequence"), ("mailbox", "M", MB, "CopyError::Mailbox")])
w("//@ endimpl\n//@ impl Command<'a> {")
ctor("new", ("Command { tag: vx_t, body: vx_b }", "vx_b == body && " + try_("T", TG, "tag", "vx_t")), [("tag", "T", TG, None)])
fn("name", [], ["r@ == self.body.named()@"])
w("//@ endimpl")
w("//@ file imap-types/src/extensions/compress.rs\n//@ impl CommandBody<'_> {")
fn("compress", [], ["r == (CommandBody::Compress { algorithm })"])
w("//@ endimpl\n//@ file imap-types/src/extensions/enable.rs\n//@ impl CommandBody<'a> {")
V = "Vec1<CapabilityEnable<'a>>"
ctor("enable", ("CommandBody::Enable { capabilities: vx_c }", try_("C", V, "capabilities", "vx_c")), [("capabilities", "C", V, None)])
w("//@ endimpl\n//@ file imap-types/src/extensions/move.rs\n//@ impl CommandBody<'a> {")
ctor("raw_move", ("CommandBody::Move { sequence_set: vx_s, mailbox: vx_m, uid: vx_u }", "vx_u == uid && " + try_("S", SS, "sequence_set", "vx_s") + " && " + try_("M", MB, "mailbox", "vx_m")), [("sequence_set", "S", SS, "MoveError::Sequence"), ("mailbox", "M", MB, "MoveError::Mailbox")])
w("//@ endimpl\n//@ file imap-types/src/extensions/namespace.rs\n//@ impl CommandBody<'a> {")
fn("namespace", [], ["r == CommandBody::<'a>::Namespace"])
w("//@ endimpl\n//@ impl Data<'a> {")
N = "Namespaces<'a>"
ctor("namespace", ("Data::Namespace { personal: vx_p, other: vx_o, shared: vx_s }", " && ".join([try_("P", N, "personal", "vx_p"), try_("O", N, "other", "vx_o"), try_("S", N, "shared", "vx_s")])), [("personal", "P", N, "NamespaceError::Personal"), ("other", "O", N, "NamespaceError::Other"), ("shared", "S", N, "NamespaceError::Shared")])
w("//@ endimpl\n//@ impl Namespace<'a> {")
fn("new", [], ["r.prefix == prefix", "r.delimiter == delimiter", "r.extensions@.len() == 0"])
w("//@ endimpl\n//@ file imap-types/src/extensions/quota.rs\n//@ impl CommandBody<'a> {")
ctor("get_quota", ("CommandBody::GetQuota { root: vx_m }", try_("A", AS, "root", "vx_m")), [("root", "A", AS, None)])
ctor("get_quota_root", ("CommandBody::GetQuotaRoot { mailbox: vx_m }", try_("M", MB, "mailbox", "vx_m")), [("mailbox", "M", MB, None)])
V = "Vec<QuotaSet<'a>>"
ctor("set_quota", ("CommandBody::SetQuota { root: vx_m, quotas: vx_q }", try_("R", AS, "root", "vx_m") + " && " + try_("S", V, "quotas", "vx_q")), [("root", "R", AS, "SetQuotaError::Root"), ("quotas", "S", V, "SetQuotaError::QuotaSet")])
w("//@ endimpl\n//@ impl Data<'a> {")
V = "Vec1<QuotaGet<'a>>"
ctor("quota", ("Data::Quota { root: vx_m, quotas: vx_q }", try_("R", AS, "root", "vx_m") + " && " + try_("Q", V, "quotas", "vx_q")), [("root", "R", AS, "QuotaError::Root"), ("quotas", "Q", V, "QuotaError::Quotas")])
V = "Vec<AString<'a>>"
ctor("quota_root", ("Data::QuotaRoot { mailbox: vx_m, roots: vx_q }", try_("M", MB, "mailbox", "vx_m") + " && " + try_("R", V, "roots", "vx_q")), [("mailbox", "M", MB, "QuotaRootError::Mailbox"), ("roots", "R", V, "QuotaRootError::Roots")])
w("//@ endimpl\n//@ impl QuotaGet<'a> {")
fn("new", [], ["r == (QuotaGet { resource, usage, limit })"])
w("//@ endimpl\n//@ impl QuotaSet<'a> {")
fn("new", [], ["r == (QuotaSet { resource, limit })"])
w("//@ endimpl\n//@ file imap-types/src/extensions/unselect.rs\n//@ impl CommandBody<'_> {")
fn("unselect", [], ["r is Unselect"])
w("//@ endimpl\n//@ file imap-types/src/auth.rs\n//@ impl AuthenticateData<'a> {")
D = "Cow<'a, [u8]>"
fn("raw_continue", [f"may_turn::<D, {D}>(data)"], [f"r matches AuthenticateData::Continue(vx_d) && turned::<D, {D}>(data, vx_d.0)"])
w("//@ endimpl\n//@ file imap-types/src/search.rs\n//@ impl SearchKey<'_> {")
fn("uid", [f"may_turn::<S, SequenceSet>(sequence_set)"], [f"r matches SearchKey::Uid(vx_d) && turned::<S, SequenceSet>(sequence_set, vx_d)"])
w("//@ endimpl\n//@ file imap-types/src/fetch.rs\n//@ impl Macro {")
w("""    /// RFC 3501, 6.4.5
    spec fn stands_for<'a>(self) -> Seq<MessageDataItemName<'a>> {
        let fast = seq![MessageDataItemName::Flags, MessageDataItemName::InternalDate, MessageDataItemName::Rfc822Size];
        match self {
            Macro::Fast => fast,
            Macro::All => fast.push(MessageDataItemName::Envelope),
            Macro::Full => fast.push(MessageDataItemName::Envelope).push(MessageDataItemName::Body),
        }
    }""")
fn("expand", [], ["r@ == self.stands_for()"])
w("//@ endimpl\n//@ impl From<Macro> for MacroOrMessageDataItemNames<'_> => impl MacroOrMessageDataItemNames<'_> {")
fn("from", [], ["r == MacroOrMessageDataItemNames::Macro(m)"], "from_macro")
w("//@ endimpl\n//@ impl From<Vec<MessageDataItemName<'a>>> for MacroOrMessageDataItemNames<'a> => impl<'a> MacroOrMessageDataItemNames<'a> {")
fn("from", [], ["r == MacroOrMessageDataItemNames::MessageDataItemNames(item_names)"], "from_names")
w("//@ endimpl\n//@ file imap-types/src/response.rs\n//@ impl Greeting<'a> {")
RT = "&'a str"
def greet(name, kind):
    fn(name, [f"may_try::<{RT}, {TX}>(text)"], [f"r matches Ok(vx_r) ==> vx_r.kind == {kind} && vx_r.code == code && tried::<{RT}, {TX}>(text, Ok(vx_r.text))", f"r matches Err(vx_e) ==> tried::<{RT}, {TX}>(text, Err(vx_e))"])
greet("new", "kind"); greet("ok", "GreetingKind::Ok"); greet("preauth", "GreetingKind::PreAuth"); greet("bye", "GreetingKind::Bye")
w("//@ endimpl\n//@ impl Status<'a> {")
def stat(name, kind):
    fn(name, [f"may_try::<T, {TX}>(text)"], [f"r matches Ok(vx_r) ==> vx_r.made(tag, {kind}, code) && tried::<T, {TX}>(text, Ok(vx_r.told()))", f"r matches Err(vx_e) ==> tried::<T, {TX}>(text, Err(vx_e))"])
w("""    spec fn made(self, tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>) -> bool {
        match tag {
            Some(t) => self matches Status::Tagged(x) && x.tag == t && x.body.kind == kind && x.body.code == code,
            None => self matches Status::Untagged(x) && x.kind == kind && x.code == code,
        }
    }
    spec fn told(self) -> Text<'a> {
        match self {
            Status::Tagged(x) => x.body.text,
            Status::Untagged(x) => x.text,
            Status::Bye(x) => x.text,
        }
    }""")
stat("new", "kind"); stat("ok", "StatusKind::Ok"); stat("no", "StatusKind::No"); stat("bad", "StatusKind::Bad")
ctor("bye", ("Status::Bye(vx_b)", "vx_b.code == code && " + try_("T", TX, "text", "vx_b.text")), [("text", "T", TX, None)])
fn("tag", [], ["match *self {\n            Status::Tagged(x) => r matches Some(vx_t) && *vx_t == x.tag,\n            _ => r is None,\n        }"])
fn("code", [], ["""match (match *self {
            Status::Tagged(x) => x.body.code,
            Status::Untagged(x) => x.code,
            Status::Bye(x) => x.code,
        }) {
            Some(c) => r matches Some(vx_c) && *vx_c == c,
            None => r is None,
        }"""])
fn("text", [], ["*r == self.told()"])
w("//@ endimpl\n//@ impl Data<'a> {")
V = "Vec1<Capability<'a>>"
ctor("capability", ("Data::Capability(vx_c)", try_("C", V, "caps", "vx_c")), [("caps", "C", V, None)])
fn("expunge", [], ["r is Ok <==> seq != 0", "r matches Ok(vx_r) ==> vx_r matches Data::Expunge(vx_n) && nz(vx_n) == seq"])
V = "Vec1<MessageDataItem<'a>>"
ctor("fetch", ("Data::Fetch { seq: vx_s, items: vx_i }", try_("S", "NonZeroU32", "seq", "vx_s") + " && " + try_("I", V, "items", "vx_i")), [("seq", "S", "NonZeroU32", "FetchError::SeqOrUid"), ("items", "I", V, "FetchError::InvalidItems")])
w("//@ endimpl\n//@ impl Code<'a> {")
fn("badcharset", [], ["r == (Code::BadCharset { allowed })"])
V = "Vec1<Capability<'a>>"
ctor("capability", ("Code::Capability(vx_c)", try_("C", V, "caps", "vx_c")), [("caps", "C", V, None)])
fn("permanentflags", [], ["r == Code::PermanentFlags(flags)"])
for n, v in [("uidnext", "UidNext"), ("uidvalidity", "UidValidity"), ("unseen", "Unseen")]:
    fn(n, [], ["r is Ok <==> uidnext != 0", f"r matches Ok(vx_r) ==> vx_r matches Code::{v}(vx_n) && nz(vx_n) == uidnext"])
w("//@ endimpl")
w("""/// Would be read back as something else.
spec fn ambiguous(code: Option<Code<'_>>, text: Text<'_>) -> bool {
    code is None && (text.0@.len() > 0 && text.0@[0] == '[' || base64(text.0@))
}""")
w("//@ impl CommandContinuationRequestBasic<'a> {")
BASIC = [f"r matches Err(ContinueError::Text(vx_e)) ==> tried::<T, {TX}>(text, Err(vx_e))",
         f"r is Err && r->Err_0 is Ambiguity ==> exists|x: {TX}| #[trigger] call_ensures(<T as TryInto<{TX}>>::try_into, (text,), Ok(x)) && ambiguous(code, x)"]
fn("new", [f"may_try::<T, {TX}>(text)"], [f"r matches Ok(vx_r) ==> vx_r.code == code && tried::<T, {TX}>(text, Ok(vx_r.text)) && !ambiguous(vx_r.code, vx_r.text)"] + BASIC)
fn("code", [], ["match self.code {\n            Some(c) => r matches Some(vx_c) && *vx_c == c,\n            None => r is None,\n        }"])
fn("text", [], ["*r == self.text"])
w("//@ endimpl\n//@ impl CommandContinuationRequest<'a> {")
fn("basic", [f"may_try::<T, {TX}>(text)"], [f"r matches Ok(vx_r) ==> vx_r matches CommandContinuationRequest::Basic(vx_b) && vx_b.code == code && tried::<T, {TX}>(text, Ok(vx_b.text)) && !ambiguous(vx_b.code, vx_b.text)"] + BASIC)
D = "Cow<'data, [u8]>"
fn("base64", [f"may_turn::<D, {D}>(data)"], [f"r matches CommandContinuationRequest::Base64(vx_d) && turned::<D, {D}>(data, vx_d)"])
w("//@ endimpl")
w("} // verus!\nfn main() {}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ctor.rs"), "w").write("//@ cfg all-features debug\n// Written by mk_ctor.py.\n" + ''.join(o))
