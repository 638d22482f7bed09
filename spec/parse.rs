//! Parsing of intervals and timestamps.
use juno::{Interval, Timestamp};
use std::str::FromStr;

pub fn impl_interval(s: &str) -> Option<u64> {
    Interval::from_str(s).ok().map(|x| x.0)
}

fn factor(unit: &str) -> Option<u64> {
    Some(match unit {
        "M" => 2_629_746_000,
        "d" => 86_400_000,
        "h" => 3_600_000,
        "m" => 60_000,
        "ms" => 1,
        "s" => 1000,
        "w" => 604_800_000,
        "y" => 31_556_952_000,
        _ => return None,
    })
}

/// One or more groups of digits followed by a unit, and nothing else; the sum.
pub fn spec_interval(s: &str) -> Option<u64> {
    let mut total: Option<u64> = None;
    let mut left = s;
    while !left.is_empty() {
        let digits = match left.find(|c: char| !c.is_ascii_digit()) {
            Some(i) => i,
            None => return None,
        };
        let value = match left[..digits].parse::<u64>() {
            Ok(v) => v,
            Err(_) => return None,
        };
        let after = &left[digits..];
        let end = match after.find(|c: char| c.is_ascii_digit()) {
            Some(i) => i,
            None => after.len(),
        };
        let ms = match factor(&after[..end]) {
            Some(f) => match value.checked_mul(f) {
                Some(x) => x,
                None => return None,
            },
            None => return None,
        };
        total = match total.unwrap_or(0).checked_add(ms) {
            Some(t) => Some(t),
            None => return None,
        };
        left = &after[end..];
    }
    total
}

pub fn impl_timestamp(s: &str) -> Option<u64> {
    Timestamp::from_str(s).ok().map(|x| x.0)
}

use once_cell::sync::Lazy;
use time::format_description::{self, well_known::Rfc3339, FormatItem};
use time::{Date, OffsetDateTime};

static DATE: Lazy<Vec<FormatItem<'_>>> = Lazy::new(|| format_description::parse("[year]-[month]-[day]").unwrap());

/// An RFC 3339 instant or a date (its midnight, UTC), not before the epoch.
pub fn spec_timestamp(s: &str) -> Option<u64> {
    let instant = match OffsetDateTime::parse(s, &Rfc3339) {
        Ok(x) => x,
        Err(_) => match Date::parse(s, &DATE) {
            Ok(d) => d.midnight().assume_utc(),
            Err(_) => return None,
        },
    };
    let ms: i128 = instant.unix_timestamp_nanos().div_euclid(1_000_000);
    match u64::try_from(ms) {
        Ok(x) => Some(x),
        Err(_) => None,
    }
}
