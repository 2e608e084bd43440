//@ cfg all-features debug
// Written by mk_ctor.py.
#![allow(unused, non_snake_case, non_upper_case_globals, unused_parens, unused_braces)]
use std::{borrow::Cow, num::{NonZeroU32, NonZeroU64, TryFromIntError}};
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::convert::TryFromSpecImpl;
verus! {

// ===== what is used ==================================================================================

/// `r` is what converting `a` gave. Nothing else is known of the conversion.
spec fn tried<T: TryInto<X>, X>(a: T, r: Result<X, T::Error>) -> bool {
    call_ensures(<T as TryInto<X>>::try_into, (a,), r)
}
spec fn turned<T: Into<X>, X>(a: T, r: X) -> bool {
    call_ensures(<T as Into<X>>::into, (a,), r)
}
spec fn may_try<T: TryInto<X>, X>(a: T) -> bool { call_requires(<T as TryInto<X>>::try_into, (a,)) }
spec fn may_turn<T: Into<X>, X>(a: T) -> bool { call_requires(<T as Into<X>>::into, (a,)) }

struct FixedOffset;
mod chrono {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct DateTime<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    pub struct NaiveDate { t: u8 }
}
type ChronoDateTime<T> = chrono::DateTime<T>;

uninterp spec fn nz(n: NonZeroU32) -> u32;
#[verifier::external_body]
fn vx_non_zero(n: u32) -> (r: Result<NonZeroU32, TryFromIntError>)
    ensures
        r is Ok <==> n != 0,
        r matches Ok(x) ==> nz(x) == n,
{
    NonZeroU32::try_from(n)
}
/// May be decoded as base64.
uninterp spec fn base64(s: Seq<char>) -> bool;
struct Base64;
const _base64: Base64 = Base64;
impl Base64 {
    #[verifier::external_body]
    fn decode(&self, data: &str) -> (r: Result<Vec<u8>, u8>)
        ensures
            r is Ok <==> base64(data@),
    {
        unimplemented!()
    }
}
#[verifier::external_body]
fn vx_starts_with(s: &str, c: char) -> (r: bool)
    ensures
        r == (s@.len() > 0 && s@[0] == c),
{
    s.starts_with(c)
}

trait VxRef {
    type To: ?Sized;
    spec fn referred(&self, r: &Self::To) -> bool;
    fn vx_ref(&self) -> (r: &Self::To)
        ensures
            self.referred(r),
    ;
}
impl<'a> VxRef for Cow<'a, str> {
    type To = str;
    spec fn referred(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_ref(&self) -> (r: &str) { self }
}
trait VxOptRef<T> {
    spec fn opt(&self) -> Option<T>;
    fn vx_ref(&self) -> (r: Option<&T>)
        ensures
            r matches Some(x) ==> self.opt() == Some(*x),
            r is None <==> self.opt() is None,
    ;
}
impl<T> VxOptRef<T> for Option<T> {
    spec fn opt(&self) -> Option<T> { *self }
    fn vx_ref(&self) -> (r: Option<&T>) { self.as_ref() }
}

// ===== types =========================================================================================

//@ wrap as_ref=vx_ref:method starts_with=vx_starts_with:ref
//@ optmatch map_err
//@ path NonZeroU32::try_from=>vx_non_zero
//@ file imap-types/src/core.rs
//@ items Atom AtomExt IString Literal Quoted NString AString Tag Text Charset NString8 VecN Vec1 Vec2
//@ struct QuotedChar #[derive(Clone, Copy)]
//@ enum LiteralMode #[derive(Clone, Copy)]
//@ impl Text<'a> {
//@ fn inner -> r
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl
//@ impl AsRef<str> for Text<'_> => impl Text<'_> {
//@ fn as_ref -> r
//@ as vx_ref
    ensures
        r@ == self.0@,
//@ endfn
//@ endimpl
// its contract: unit core
struct ValidationError { kind: u8 }
impl<'a> TryFromSpecImpl<&'a str> for Text<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(value: &'a str) -> Result<Self, ValidationError> { arbitrary() }
}
impl<'a> TryFrom<&'a str> for Text<'a> {
    type Error = ValidationError;
    #[verifier::external_body]
    fn try_from(value: &'a str) -> Result<Self, ValidationError> { unimplemented!() }
}
//@ file imap-types/src/secret.rs
//@ items Secret
//@ impl Secret<T> {
//@ fn new -> r
    ensures
        r.0 == inner,
//@ endfn
//@ endimpl
//@ file imap-types/src/datetime.rs
//@ items DateTime NaiveDate
//@ file imap-types/src/auth.rs
//@ items AuthMechanism AuthMechanismOther AuthenticateData
//@ file imap-types/src/body.rs
//@ items Body BasicFields SpecificFields BodyStructure SinglePartExtensionData MultiPartExtensionData Disposition Language Location BodyExtension
//@ file imap-types/src/command.rs
//@ items Command CommandBody SelectParameter? FetchModifier? StoreModifier? LoginError RenameError ListError AppendError CopyError
//@ file imap-types/src/envelope.rs
//@ items Envelope Address
//@ file imap-types/src/extensions/binary.rs
//@ items LiteralOrLiteral8 Literal8
//@ file imap-types/src/extensions/compress.rs
//@ items CompressionAlgorithm
//@ file imap-types/src/extensions/condstore_qresync.rs
//@ items AttributeFlag AttributeFlagExtension EntryTypeReq?
//@ file imap-types/src/extensions/enable.rs
//@ items CapabilityEnable CapabilityEnableOther
//@ file imap-types/src/extensions/metadata.rs
//@ items EntryValue Entry GetMetadataOption Depth MetadataCode MetadataResponse
//@ file imap-types/src/extensions/move.rs
//@ items MoveError
//@ file imap-types/src/extensions/namespace.rs
//@ items Namespaces Namespace NamespaceResponseExtension NamespaceError
//@ file imap-types/src/extensions/quota.rs
//@ items Resource ResourceOther QuotaGet QuotaSet QuotaError QuotaRootError SetQuotaError
//@ file imap-types/src/extensions/sort.rs
//@ items SortAlgorithm SortAlgorithmOther SortCriterion SortKey
//@ file imap-types/src/extensions/thread.rs
//@ items Thread ThreadingAlgorithm ThreadingAlgorithmOther
//@ file imap-types/src/extensions/uidplus.rs
//@ items UidSet UidElement
//@ file imap-types/src/extensions/utf8.rs
//@ items Utf8Kind QuotedUtf8
//@ file imap-types/src/fetch.rs
//@ items Macro MacroOrMessageDataItemNames MessageDataItemName MessageDataItem Section Part
//@ file imap-types/src/flag.rs
//@ items Flag FlagExtension FlagFetch FlagPerm FlagNameAttribute FlagNameAttributeExtension StoreType StoreResponse
//@ file imap-types/src/mailbox.rs
//@ items ListCharString ListMailbox Mailbox MailboxOther
//@ file imap-types/src/response.rs
//@ items Greeting GreetingKind Status StatusBody StatusKind Tagged Bye Data CommandContinuationRequest CommandContinuationRequestBasic Code CodeOther Capability CapabilityOther ContinueError FetchError
//@ file imap-types/src/search.rs
//@ items SearchKey
//@ file imap-types/src/sequence.rs
//@ items SequenceSet Sequence SeqOrUid
//@ file imap-types/src/status.rs
//@ enum StatusDataItemName #[derive(Clone)]
//@ enum StatusDataItem #[derive(Clone)]

// ===== constructors ==================================================================================

//@ file imap-types/src/command.rs
//@ impl CommandBody<'a> {
    /// RFC 3501 and the extensions.
    spec fn named(self) -> &'static str {
        match self {
            Self::Capability { .. } => "CAPABILITY",
            Self::Noop { .. } => "NOOP",
            Self::Logout { .. } => "LOGOUT",
            Self::StartTLS { .. } => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE",
            Self::Login { .. } => "LOGIN",
            Self::Select { .. } => "SELECT",
            Self::Sort { .. } => "SORT",
            Self::Thread { .. } => "THREAD",
            Self::Unselect { .. } => "UNSELECT",
            Self::Examine { .. } => "EXAMINE",
            Self::Create { .. } => "CREATE",
            Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME",
            Self::Subscribe { .. } => "SUBSCRIBE",
            Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::List { .. } => "LIST",
            Self::Lsub { .. } => "LSUB",
            Self::Status { .. } => "STATUS",
            Self::Append { .. } => "APPEND",
            Self::Check { .. } => "CHECK",
            Self::Close { .. } => "CLOSE",
            Self::Expunge { .. } => "EXPUNGE",
            Self::ExpungeUid { .. } => "EXPUNGE",
            Self::Search { .. } => "SEARCH",
            Self::Fetch { .. } => "FETCH",
            Self::Store { .. } => "STORE",
            Self::Copy { .. } => "COPY",
            Self::Idle { .. } => "IDLE",
            Self::Enable { .. } => "ENABLE",
            Self::Compress { .. } => "COMPRESS",
            Self::GetQuota { .. } => "GETQUOTA",
            Self::GetQuotaRoot { .. } => "GETQUOTAROOT",
            Self::SetQuota { .. } => "SETQUOTA",
            Self::Move { .. } => "MOVE",
            Self::Id { .. } => "ID",
            Self::SetMetadata { .. } => "SETMETADATA",
            Self::GetMetadata { .. } => "GETMETADATA",
            Self::Namespace { .. } => "NAMESPACE",
        }
    }
//@ fn name -> r
    ensures
        r@ == self.named()@,
//@ endfn
//@ fn tag -> r
    requires
        may_try::<T, Tag<'a>>(tag),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Command { tag: vx_t, body } && body == self && tried::<T, Tag<'a>>(tag, Ok(vx_t)),
        r matches Err(vx_e) ==> tried::<T, Tag<'a>>(tag, Err(vx_e)),
//@ endfn
//@ fn authenticate -> r
    ensures
        r == (CommandBody::Authenticate { mechanism, initial_response: None }),
//@ endfn
//@ fn authenticate_with_ir -> r
    requires
        may_turn::<I, Cow<'a, [u8]>>(initial_response),
    ensures
        r matches CommandBody::Authenticate { mechanism: vx_m, initial_response: Some(vx_i) } && vx_m == mechanism && turned::<I, Cow<'a, [u8]>>(initial_response, vx_i.0),
//@ endfn
//@ fn login -> r
    requires
        may_try::<U, AString<'a>>(username),
        may_try::<P, AString<'a>>(password),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Login { username: vx_u, password: vx_p } && tried::<U, AString<'a>>(username, Ok(vx_u)) && tried::<P, AString<'a>>(password, Ok(vx_p.0)),
        r matches Err(LoginError::Username(vx_e)) ==> tried::<U, AString<'a>>(username, Err(vx_e)),
        r matches Err(LoginError::Password(vx_e)) ==> tried::<P, AString<'a>>(password, Err(vx_e)),
//@ endfn
//@ fn select -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Select { mailbox: vx_m, parameters: vx_p } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)) && vx_p@.len() == 0,
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn examine -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Examine { mailbox: vx_m, parameters: vx_p } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)) && vx_p@.len() == 0,
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn create -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Create { mailbox: vx_m } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn delete -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Delete { mailbox: vx_m } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn subscribe -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Subscribe { mailbox: vx_m } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn unsubscribe -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Unsubscribe { mailbox: vx_m } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn rename -> r
    requires
        may_try::<F, Mailbox<'a>>(mailbox),
        may_try::<T, Mailbox<'a>>(new_mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Rename { from: vx_f, to: vx_t } && tried::<F, Mailbox<'a>>(mailbox, Ok(vx_f)) && tried::<T, Mailbox<'a>>(new_mailbox, Ok(vx_t)),
        r matches Err(RenameError::From(vx_e)) ==> tried::<F, Mailbox<'a>>(mailbox, Err(vx_e)),
        r matches Err(RenameError::To(vx_e)) ==> tried::<T, Mailbox<'a>>(new_mailbox, Err(vx_e)),
//@ endfn
//@ fn list -> r
    requires
        may_try::<A, Mailbox<'a>>(reference),
        may_try::<B, ListMailbox<'a>>(mailbox_wildcard),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::List { reference: vx_a, mailbox_wildcard: vx_b } && tried::<A, Mailbox<'a>>(reference, Ok(vx_a)) && tried::<B, ListMailbox<'a>>(mailbox_wildcard, Ok(vx_b)),
        r matches Err(ListError::Reference(vx_e)) ==> tried::<A, Mailbox<'a>>(reference, Err(vx_e)),
        r matches Err(ListError::Mailbox(vx_e)) ==> tried::<B, ListMailbox<'a>>(mailbox_wildcard, Err(vx_e)),
//@ endfn
//@ fn lsub -> r
    requires
        may_try::<A, Mailbox<'a>>(reference),
        may_try::<B, ListMailbox<'a>>(mailbox_wildcard),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Lsub { reference: vx_a, mailbox_wildcard: vx_b } && tried::<A, Mailbox<'a>>(reference, Ok(vx_a)) && tried::<B, ListMailbox<'a>>(mailbox_wildcard, Ok(vx_b)),
        r matches Err(ListError::Reference(vx_e)) ==> tried::<A, Mailbox<'a>>(reference, Err(vx_e)),
        r matches Err(ListError::Mailbox(vx_e)) ==> tried::<B, ListMailbox<'a>>(mailbox_wildcard, Err(vx_e)),
//@ endfn
//@ fn status -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
        may_turn::<I, Cow<'a, [StatusDataItemName]>>(item_names),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Status { mailbox: vx_m, item_names: vx_i } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)) && turned::<I, Cow<'a, [StatusDataItemName]>>(item_names, vx_i),
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn append -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
        may_try::<D, Literal<'a>>(message),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Append { mailbox: vx_m, flags: vx_f, date: vx_d, message: LiteralOrLiteral8::Literal(vx_l) } && vx_f == flags && vx_d == date && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)) && tried::<D, Literal<'a>>(message, Ok(vx_l)),
        r matches Err(AppendError::Mailbox(vx_e)) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
        r matches Err(AppendError::Data(vx_e)) ==> tried::<D, Literal<'a>>(message, Err(vx_e)),
//@ endfn
//@ fn search -> r
    ensures
        r == (CommandBody::Search { charset, criteria, uid }),
//@ endfn
//@ fn fetch -> r
    requires
        may_try::<S, SequenceSet>(sequence_set),
        may_turn::<I, MacroOrMessageDataItemNames<'a>>(macro_or_item_names),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Fetch { sequence_set: vx_s, macro_or_item_names: vx_i, uid: vx_u, modifiers: vx_m } && vx_u == uid && vx_m@.len() == 0 && tried::<S, SequenceSet>(sequence_set, Ok(vx_s)) && turned::<I, MacroOrMessageDataItemNames<'a>>(macro_or_item_names, vx_i),
        r matches Err(vx_e) ==> tried::<S, SequenceSet>(sequence_set, Err(vx_e)),
//@ endfn
//@ fn store -> r
    requires
        may_try::<S, SequenceSet>(sequence_set),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Store { sequence_set: vx_s, kind: vx_k, response: vx_r1, flags: vx_f, uid: vx_u, modifiers: vx_m } && vx_k == kind && vx_r1 == response && vx_f == flags && vx_u == uid && vx_m@.len() == 0 && tried::<S, SequenceSet>(sequence_set, Ok(vx_s)),
        r matches Err(vx_e) ==> tried::<S, SequenceSet>(sequence_set, Err(vx_e)),
//@ endfn
//@ fn copy -> r
    requires
        may_try::<S, SequenceSet>(sequence_set),
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Copy { sequence_set: vx_s, mailbox: vx_m, uid: vx_u } && vx_u == uid && tried::<S, SequenceSet>(sequence_set, Ok(vx_s)) && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(CopyError::Sequence(vx_e)) ==> tried::<S, SequenceSet>(sequence_set, Err(vx_e)),
        r matches Err(CopyError::Mailbox(vx_e)) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ endimpl
//@ impl Command<'a> {
//@ fn new -> r
    requires
        may_try::<T, Tag<'a>>(tag),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Command { tag: vx_t, body: vx_b } && vx_b == body && tried::<T, Tag<'a>>(tag, Ok(vx_t)),
        r matches Err(vx_e) ==> tried::<T, Tag<'a>>(tag, Err(vx_e)),
//@ endfn
//@ fn name -> r
    ensures
        r@ == self.body.named()@,
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/compress.rs
//@ impl CommandBody<'_> {
//@ fn compress -> r
    ensures
        r == (CommandBody::Compress { algorithm }),
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/enable.rs
//@ impl CommandBody<'a> {
//@ fn enable -> r
    requires
        may_try::<C, Vec1<CapabilityEnable<'a>>>(capabilities),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Enable { capabilities: vx_c } && tried::<C, Vec1<CapabilityEnable<'a>>>(capabilities, Ok(vx_c)),
        r matches Err(vx_e) ==> tried::<C, Vec1<CapabilityEnable<'a>>>(capabilities, Err(vx_e)),
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/move.rs
//@ impl CommandBody<'a> {
//@ fn raw_move -> r
    requires
        may_try::<S, SequenceSet>(sequence_set),
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::Move { sequence_set: vx_s, mailbox: vx_m, uid: vx_u } && vx_u == uid && tried::<S, SequenceSet>(sequence_set, Ok(vx_s)) && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(MoveError::Sequence(vx_e)) ==> tried::<S, SequenceSet>(sequence_set, Err(vx_e)),
        r matches Err(MoveError::Mailbox(vx_e)) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/namespace.rs
//@ impl CommandBody<'a> {
//@ fn namespace -> r
    ensures
        r == CommandBody::<'a>::Namespace,
//@ endfn
//@ endimpl
//@ impl Data<'a> {
//@ fn namespace -> r
    requires
        may_try::<P, Namespaces<'a>>(personal),
        may_try::<O, Namespaces<'a>>(other),
        may_try::<S, Namespaces<'a>>(shared),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Data::Namespace { personal: vx_p, other: vx_o, shared: vx_s } && tried::<P, Namespaces<'a>>(personal, Ok(vx_p)) && tried::<O, Namespaces<'a>>(other, Ok(vx_o)) && tried::<S, Namespaces<'a>>(shared, Ok(vx_s)),
        r matches Err(NamespaceError::Personal(vx_e)) ==> tried::<P, Namespaces<'a>>(personal, Err(vx_e)),
        r matches Err(NamespaceError::Other(vx_e)) ==> tried::<O, Namespaces<'a>>(other, Err(vx_e)),
        r matches Err(NamespaceError::Shared(vx_e)) ==> tried::<S, Namespaces<'a>>(shared, Err(vx_e)),
//@ endfn
//@ endimpl
//@ impl Namespace<'a> {
//@ fn new -> r
    ensures
        r.prefix == prefix,
        r.delimiter == delimiter,
        r.extensions@.len() == 0,
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/quota.rs
//@ impl CommandBody<'a> {
//@ fn get_quota -> r
    requires
        may_try::<A, AString<'a>>(root),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::GetQuota { root: vx_m } && tried::<A, AString<'a>>(root, Ok(vx_m)),
        r matches Err(vx_e) ==> tried::<A, AString<'a>>(root, Err(vx_e)),
//@ endfn
//@ fn get_quota_root -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::GetQuotaRoot { mailbox: vx_m } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)),
        r matches Err(vx_e) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
//@ endfn
//@ fn set_quota -> r
    requires
        may_try::<R, AString<'a>>(root),
        may_try::<S, Vec<QuotaSet<'a>>>(quotas),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandBody::SetQuota { root: vx_m, quotas: vx_q } && tried::<R, AString<'a>>(root, Ok(vx_m)) && tried::<S, Vec<QuotaSet<'a>>>(quotas, Ok(vx_q)),
        r matches Err(SetQuotaError::Root(vx_e)) ==> tried::<R, AString<'a>>(root, Err(vx_e)),
        r matches Err(SetQuotaError::QuotaSet(vx_e)) ==> tried::<S, Vec<QuotaSet<'a>>>(quotas, Err(vx_e)),
//@ endfn
//@ endimpl
//@ impl Data<'a> {
//@ fn quota -> r
    requires
        may_try::<R, AString<'a>>(root),
        may_try::<Q, Vec1<QuotaGet<'a>>>(quotas),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Data::Quota { root: vx_m, quotas: vx_q } && tried::<R, AString<'a>>(root, Ok(vx_m)) && tried::<Q, Vec1<QuotaGet<'a>>>(quotas, Ok(vx_q)),
        r matches Err(QuotaError::Root(vx_e)) ==> tried::<R, AString<'a>>(root, Err(vx_e)),
        r matches Err(QuotaError::Quotas(vx_e)) ==> tried::<Q, Vec1<QuotaGet<'a>>>(quotas, Err(vx_e)),
//@ endfn
//@ fn quota_root -> r
    requires
        may_try::<M, Mailbox<'a>>(mailbox),
        may_try::<R, Vec<AString<'a>>>(roots),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Data::QuotaRoot { mailbox: vx_m, roots: vx_q } && tried::<M, Mailbox<'a>>(mailbox, Ok(vx_m)) && tried::<R, Vec<AString<'a>>>(roots, Ok(vx_q)),
        r matches Err(QuotaRootError::Mailbox(vx_e)) ==> tried::<M, Mailbox<'a>>(mailbox, Err(vx_e)),
        r matches Err(QuotaRootError::Roots(vx_e)) ==> tried::<R, Vec<AString<'a>>>(roots, Err(vx_e)),
//@ endfn
//@ endimpl
//@ impl QuotaGet<'a> {
//@ fn new -> r
    ensures
        r == (QuotaGet { resource, usage, limit }),
//@ endfn
//@ endimpl
//@ impl QuotaSet<'a> {
//@ fn new -> r
    ensures
        r == (QuotaSet { resource, limit }),
//@ endfn
//@ endimpl
//@ file imap-types/src/extensions/unselect.rs
//@ impl CommandBody<'_> {
//@ fn unselect -> r
    ensures
        r is Unselect,
//@ endfn
//@ endimpl
//@ file imap-types/src/auth.rs
//@ impl AuthenticateData<'a> {
//@ fn raw_continue -> r
    requires
        may_turn::<D, Cow<'a, [u8]>>(data),
    ensures
        r matches AuthenticateData::Continue(vx_d) && turned::<D, Cow<'a, [u8]>>(data, vx_d.0),
//@ endfn
//@ endimpl
//@ file imap-types/src/search.rs
//@ impl SearchKey<'_> {
//@ fn uid -> r
    requires
        may_turn::<S, SequenceSet>(sequence_set),
    ensures
        r matches SearchKey::Uid(vx_d) && turned::<S, SequenceSet>(sequence_set, vx_d),
//@ endfn
//@ endimpl
//@ file imap-types/src/fetch.rs
//@ impl Macro {
    /// RFC 3501, 6.4.5
    spec fn stands_for<'a>(self) -> Seq<MessageDataItemName<'a>> {
        let fast = seq![MessageDataItemName::Flags, MessageDataItemName::InternalDate, MessageDataItemName::Rfc822Size];
        match self {
            Macro::Fast => fast,
            Macro::All => fast.push(MessageDataItemName::Envelope),
            Macro::Full => fast.push(MessageDataItemName::Envelope).push(MessageDataItemName::Body),
        }
    }
//@ fn expand -> r
    ensures
        r@ == self.stands_for(),
//@ endfn
//@ endimpl
//@ impl From<Macro> for MacroOrMessageDataItemNames<'_> => impl MacroOrMessageDataItemNames<'_> {
//@ fn from -> r
//@ as from_macro
    ensures
        r == MacroOrMessageDataItemNames::Macro(m),
//@ endfn
//@ endimpl
//@ impl From<Vec<MessageDataItemName<'a>>> for MacroOrMessageDataItemNames<'a> => impl<'a> MacroOrMessageDataItemNames<'a> {
//@ fn from -> r
//@ as from_names
    ensures
        r == MacroOrMessageDataItemNames::MessageDataItemNames(item_names),
//@ endfn
//@ endimpl
//@ file imap-types/src/response.rs
//@ impl Greeting<'a> {
//@ fn new -> r
    requires
        may_try::<&'a str, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.kind == kind && vx_r.code == code && tried::<&'a str, Text<'a>>(text, Ok(vx_r.text)),
        r matches Err(vx_e) ==> tried::<&'a str, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn ok -> r
    requires
        may_try::<&'a str, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.kind == GreetingKind::Ok && vx_r.code == code && tried::<&'a str, Text<'a>>(text, Ok(vx_r.text)),
        r matches Err(vx_e) ==> tried::<&'a str, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn preauth -> r
    requires
        may_try::<&'a str, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.kind == GreetingKind::PreAuth && vx_r.code == code && tried::<&'a str, Text<'a>>(text, Ok(vx_r.text)),
        r matches Err(vx_e) ==> tried::<&'a str, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn bye -> r
    requires
        may_try::<&'a str, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.kind == GreetingKind::Bye && vx_r.code == code && tried::<&'a str, Text<'a>>(text, Ok(vx_r.text)),
        r matches Err(vx_e) ==> tried::<&'a str, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ endimpl
//@ impl Status<'a> {
    spec fn made(self, tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>) -> bool {
        match tag {
            Some(t) => self matches Status::Tagged(x) && x.tag == t && x.body.kind == kind && x.body.code == code,
            None => self matches Status::Untagged(x) && x.kind == kind && x.code == code,
        }
    }
    spec fn told(self) -> Text<'a> {
        match self {
            Status::Tagged(x) => x.body.text,
            Status::Untagged(x) => x.text,
            Status::Bye(x) => x.text,
        }
    }
//@ fn new -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.made(tag, kind, code) && tried::<T, Text<'a>>(text, Ok(vx_r.told())),
        r matches Err(vx_e) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn ok -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.made(tag, StatusKind::Ok, code) && tried::<T, Text<'a>>(text, Ok(vx_r.told())),
        r matches Err(vx_e) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn no -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.made(tag, StatusKind::No, code) && tried::<T, Text<'a>>(text, Ok(vx_r.told())),
        r matches Err(vx_e) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn bad -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.made(tag, StatusKind::Bad, code) && tried::<T, Text<'a>>(text, Ok(vx_r.told())),
        r matches Err(vx_e) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn bye -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Status::Bye(vx_b) && vx_b.code == code && tried::<T, Text<'a>>(text, Ok(vx_b.text)),
        r matches Err(vx_e) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
//@ endfn
//@ fn tag -> r
    ensures
        match *self {
            Status::Tagged(x) => r matches Some(vx_t) && *vx_t == x.tag,
            _ => r is None,
        },
//@ endfn
//@ fn code -> r
    ensures
        match (match *self {
            Status::Tagged(x) => x.body.code,
            Status::Untagged(x) => x.code,
            Status::Bye(x) => x.code,
        }) {
            Some(c) => r matches Some(vx_c) && *vx_c == c,
            None => r is None,
        },
//@ endfn
//@ fn text -> r
    ensures
        *r == self.told(),
//@ endfn
//@ endimpl
//@ impl Data<'a> {
//@ fn capability -> r
    requires
        may_try::<C, Vec1<Capability<'a>>>(caps),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Data::Capability(vx_c) && tried::<C, Vec1<Capability<'a>>>(caps, Ok(vx_c)),
        r matches Err(vx_e) ==> tried::<C, Vec1<Capability<'a>>>(caps, Err(vx_e)),
//@ endfn
//@ fn expunge -> r
    ensures
        r is Ok <==> seq != 0,
        r matches Ok(vx_r) ==> vx_r matches Data::Expunge(vx_n) && nz(vx_n) == seq,
//@ endfn
//@ fn fetch -> r
    requires
        may_try::<S, NonZeroU32>(seq),
        may_try::<I, Vec1<MessageDataItem<'a>>>(items),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Data::Fetch { seq: vx_s, items: vx_i } && tried::<S, NonZeroU32>(seq, Ok(vx_s)) && tried::<I, Vec1<MessageDataItem<'a>>>(items, Ok(vx_i)),
        r matches Err(FetchError::SeqOrUid(vx_e)) ==> tried::<S, NonZeroU32>(seq, Err(vx_e)),
        r matches Err(FetchError::InvalidItems(vx_e)) ==> tried::<I, Vec1<MessageDataItem<'a>>>(items, Err(vx_e)),
//@ endfn
//@ endimpl
//@ impl Code<'a> {
//@ fn badcharset -> r
    ensures
        r == (Code::BadCharset { allowed }),
//@ endfn
//@ fn capability -> r
    requires
        may_try::<C, Vec1<Capability<'a>>>(caps),
    ensures
        r matches Ok(vx_r) ==> vx_r matches Code::Capability(vx_c) && tried::<C, Vec1<Capability<'a>>>(caps, Ok(vx_c)),
        r matches Err(vx_e) ==> tried::<C, Vec1<Capability<'a>>>(caps, Err(vx_e)),
//@ endfn
//@ fn permanentflags -> r
    ensures
        r == Code::PermanentFlags(flags),
//@ endfn
//@ fn uidnext -> r
    ensures
        r is Ok <==> uidnext != 0,
        r matches Ok(vx_r) ==> vx_r matches Code::UidNext(vx_n) && nz(vx_n) == uidnext,
//@ endfn
//@ fn uidvalidity -> r
    ensures
        r is Ok <==> uidnext != 0,
        r matches Ok(vx_r) ==> vx_r matches Code::UidValidity(vx_n) && nz(vx_n) == uidnext,
//@ endfn
//@ fn unseen -> r
    ensures
        r is Ok <==> uidnext != 0,
        r matches Ok(vx_r) ==> vx_r matches Code::Unseen(vx_n) && nz(vx_n) == uidnext,
//@ endfn
//@ endimpl
/// Would be read back as something else.
spec fn ambiguous(code: Option<Code<'_>>, text: Text<'_>) -> bool {
    code is None && (text.0@.len() > 0 && text.0@[0] == '[' || base64(text.0@))
}
//@ impl CommandContinuationRequestBasic<'a> {
//@ fn new -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r.code == code && tried::<T, Text<'a>>(text, Ok(vx_r.text)) && !ambiguous(vx_r.code, vx_r.text),
        r matches Err(ContinueError::Text(vx_e)) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
        r is Err && r->Err_0 is Ambiguity ==> exists|x: Text<'a>| #[trigger] call_ensures(<T as TryInto<Text<'a>>>::try_into, (text,), Ok(x)) && ambiguous(code, x),
//@ endfn
//@ fn code -> r
    ensures
        match self.code {
            Some(c) => r matches Some(vx_c) && *vx_c == c,
            None => r is None,
        },
//@ endfn
//@ fn text -> r
    ensures
        *r == self.text,
//@ endfn
//@ endimpl
//@ impl CommandContinuationRequest<'a> {
//@ fn basic -> r
    requires
        may_try::<T, Text<'a>>(text),
    ensures
        r matches Ok(vx_r) ==> vx_r matches CommandContinuationRequest::Basic(vx_b) && vx_b.code == code && tried::<T, Text<'a>>(text, Ok(vx_b.text)) && !ambiguous(vx_b.code, vx_b.text),
        r matches Err(ContinueError::Text(vx_e)) ==> tried::<T, Text<'a>>(text, Err(vx_e)),
        r is Err && r->Err_0 is Ambiguity ==> exists|x: Text<'a>| #[trigger] call_ensures(<T as TryInto<Text<'a>>>::try_into, (text,), Ok(x)) && ambiguous(code, x),
//@ endfn
//@ fn base64 -> r
    requires
        may_turn::<D, Cow<'data, [u8]>>(data),
    ensures
        r matches CommandContinuationRequest::Base64(vx_d) && turned::<D, Cow<'data, [u8]>>(data, vx_d),
//@ endfn
//@ endimpl
} // verus!
fn main() {}
