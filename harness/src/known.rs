//! Probes for the known findings (see /verif/KNOWN_FINDINGS.txt): each returns its id and what
//! was observed if the defect is still there.
#[cfg(feature = "ext")]
use imap_codec::{
    CommandCodec, ResponseCodec,
    decode::Decoder,
    encode::{Encoder, Fragment},
};
#[cfg(feature = "ext")]
use imap_types::{
    command::CommandBody,
    core::{AString, IString},
    extensions::utf8::QuotedUtf8,
    response::{Code, Response, Status},
};

#[cfg(not(feature = "ext"))]
pub fn probes(_prop: &str) -> Vec<(&'static str, String)> {
    Vec::new()
}

#[cfg(feature = "ext")]
fn injected(fr: &[Fragment]) -> bool {
    crate::p_codec::check_framing(fr, false).is_err()
}

#[cfg(feature = "ext")]
pub fn probes(prop: &str) -> Vec<(&'static str, String)> {
    let mut v = Vec::new();
    let referral = |u: &'static str| Response::Status(Status::ok(None, Some(Code::Referral(u.into())), "x").unwrap());
    let utf8 = || CommandBody::login(AString::String(IString::QuotedUtf8(QuotedUtf8("a\r\nb".into()))), "p").unwrap().tag("A").unwrap();
    match prop {
        "C18" => {
            let m = referral("imap://h/\r\n* BYE x");
            let fr: Vec<_> = ResponseCodec::default().encode(&m).collect();
            if injected(&fr) {
                v.push(("referral-crlf", format!("a REFERRAL code with CRLF in its URL is sent as {:?}", fr)));
            }
            let fr: Vec<_> = CommandCodec::default().encode(&utf8()).collect();
            if injected(&fr) {
                v.push(("quotedutf8-crlf", format!("a UTF-8 quoted string with CRLF is sent as {:?}", fr)));
            }
        }
        "C20" => {
            let m = referral("imap://h/x");
            let b = ResponseCodec::default().encode(&m).dump();
            match ResponseCodec::default().decode(&b) {
                Ok((_, m2)) if m2 == m => {}
                r => v.push(("referral-roundtrip", format!("a REFERRAL code is decoded as {r:?}"))),
            }
        }
        #[cfg(feature = "extras")]
        "C17" => {
            let j = serde_json::to_value(utf8()).unwrap();
            if serde_json::from_value::<imap_types::command::Command>(j).is_ok() {
                v.push(("serde-quotedutf8", "a UTF-8 quoted string with CRLF is deserialized".into()));
            }
        }
        _ => {}
    }
    v
}
