//! C15: a date-time is accepted exactly when its local year has four digits, it has no fraction of a second (a leap
//! second is one, to chrono) and its offset is in whole minutes; a date exactly when its year has four digits. The value is kept.
use chrono::{FixedOffset, NaiveDate as Date, NaiveTime};
use imap_types::datetime::{DateTime, NaiveDate};

/// Every date chrono has.
fn date() -> Option<(i32, Date)> {
    let (y, o): (i32, u32) = (kani::any(), kani::any());
    let d = Date::from_yo_opt(y, o)?;
    Some((y, d))
}

#[kani::proof]
fn naive_date() {
    if let Some((y, d)) = date() {
        let ok = (0..=9999).contains(&y);
        assert!(NaiveDate::validate(&d).is_ok() == ok, "date accepted iff the year has four digits");
        match NaiveDate::try_from(d) {
            Ok(v) => assert!(ok && *v.as_ref() == d, "date kept"),
            Err(_) => assert!(!ok, "date rejected only for its year"),
        }
    }
}

#[kani::proof]
fn date_time() {
    let Some((y, d)) = date() else { return };
    let (secs, nanos): (u32, u32) = (kani::any(), kani::any());
    let Some(t) = NaiveTime::from_num_seconds_from_midnight_opt(secs, nanos) else { return };
    let off: i32 = kani::any();
    let Some(zone) = FixedOffset::east_opt(off) else { return };
    // the local time is `d t`; the instant must exist
    let local = d.and_time(t);
    let Some(utc) = local.checked_sub_offset(zone) else { return };
    let v = chrono::DateTime::<FixedOffset>::from_naive_utc_and_offset(utc, zone);
    let ok = (0..=9999).contains(&y) && nanos == 0 && off % 60 == 0;
    assert!(DateTime::validate(&v).is_ok() == ok, "date-time accepted iff four digits, no fraction, whole minutes");
    match DateTime::try_from(v) {
        Ok(w) => assert!(ok && *w.as_ref() == v && w.as_ref().offset().local_minus_utc() == off, "date-time kept"),
        Err(_) => assert!(!ok, "date-time rejected only for these"),
    }
}
