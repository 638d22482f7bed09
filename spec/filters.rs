//! Advice filters, order filters, spans, aggregation and time rounding.
use juno::filters::{Price, Size};
use juno::utils::*;
use juno::{Advice, Candle, Interval, Timestamp};
use std::borrow::Cow;

// --------------------------------------------------------- advice filters --
pub fn impl_advice_changed(enabled: bool, advices: &[Advice]) -> (Advice, Advice, u32) {
    let mut f = Changed::new(enabled);
    let mut out = Advice::None;
    for &a in advices {
        out = f.update(a);
    }
    (out, f.prevailing_advice(), f.prevailing_advice_age())
}

/// Passes an advice that is one and differs from the last one passed.
pub fn spec_advice_changed(enabled: bool, advices: &[Advice]) -> (Advice, Advice, u32) {
    let mut prevailing = Advice::None;
    let mut age: u32 = 0;
    let mut out = Advice::None;
    for &a in advices {
        if !enabled {
            out = a;
            continue;
        }
        if a != Advice::None && a != prevailing {
            prevailing = a;
            age = 1;
            out = a;
        } else {
            age += 1;
            out = Advice::None;
        }
    }
    (out, prevailing, age)
}

pub fn impl_advice_persistence(level: u32, return_previous: bool, advices: &[Advice]) -> Advice {
    let mut f = Persistence::new(level, return_previous);
    let mut out = Advice::None;
    for &a in advices {
        out = f.update(a);
    }
    out
}

/// Passes an advice given more than `level` times in a row.
pub fn spec_advice_persistence(level: u32, return_previous: bool, advices: &[Advice]) -> Advice {
    // how many times in a row `current` has been given before
    let mut run: u32 = 0;
    let mut current = Advice::None;
    let mut passed = Advice::None;
    let mut out = Advice::None;
    for &a in advices {
        if level == 0 {
            out = a;
            continue;
        }
        if a != current {
            current = a;
            run = 0;
        }
        if run >= level {
            passed = a;
            out = a;
        } else {
            out = if return_previous { passed } else { Advice::None };
        }
        run = std::cmp::min(run + 1, level);
    }
    out
}

pub fn impl_advice_mid_trend(policy: MidTrendPolicy, advices: &[Advice]) -> Advice {
    let mut f = MidTrend::new(policy);
    let mut out = Advice::None;
    for &a in advices {
        out = f.update(a);
    }
    out
}

/// Ignore: nothing until the advice first differs from the very first one.
pub fn spec_advice_mid_trend(policy: MidTrendPolicy, advices: &[Advice]) -> Advice {
    let mut first = None;
    let mut over = false;
    let mut out = Advice::None;
    for &a in advices {
        if policy != MidTrendPolicy::Ignore || over {
            out = a;
            continue;
        }
        match first {
            None => {
                first = Some(a);
                out = Advice::None;
            }
            Some(f) => {
                if a != f {
                    over = true;
                    out = a;
                } else {
                    out = Advice::None;
                }
            }
        }
    }
    out
}

pub fn impl_advice_combine(a: Advice, b: Advice) -> Advice {
    combine(a, b)
}

pub fn spec_advice_combine(a: Advice, b: Advice) -> Advice {
    match (a, b) {
        (Advice::None, _) | (_, Advice::None) => Advice::None,
        (Advice::Long, Advice::Long) => Advice::Long,
        (Advice::Short, Advice::Short) => Advice::Short,
        _ => Advice::Liquidate,
    }
}

pub fn impl_advice_maturities(level: u32, prev: bool, policy: MidTrendPolicy, on: bool) -> (u32, u32, u32) {
    (
        Persistence::new(level, prev).maturity(),
        MidTrend::new(policy).maturity(),
        Changed::new(on).maturity(),
    )
}

pub fn spec_advice_maturities(level: u32, _prev: bool, policy: MidTrendPolicy, _on: bool) -> (u32, u32, u32) {
    let mid_trend = match policy {
        MidTrendPolicy::Current => 1,
        MidTrendPolicy::Previous | MidTrendPolicy::Ignore => 2,
    };
    (level + 1, mid_trend, 1)
}

// ----------------------------------------------------------- order filters --
pub fn impl_order_price_down(f: &Price, x: f64) -> f64 {
    f.round_down(x)
}

pub fn spec_order_price_down(f: &Price, x: f64) -> f64 {
    down(f.min, f.max, f.step, x)
}

pub fn impl_order_size_down(f: &Size, x: f64) -> f64 {
    f.round_down(x)
}

pub fn spec_order_size_down(f: &Size, x: f64) -> f64 {
    down(f.min, f.max, f.step, x)
}

pub fn impl_order_size_up(f: &Size, x: f64) -> f64 {
    f.round_up(x)
}

pub fn spec_order_size_up(f: &Size, x: f64) -> f64 {
    if x < f.min {
        return 0.0;
    }
    let capped = if f.max > 0.0 { f64::min(x, f.max) } else { x };
    if f.step > 0.0 {
        (capped / f.step).ceil() * f.step
    } else {
        capped
    }
}

fn down(min: f64, max: f64, step: f64, x: f64) -> f64 {
    if x < min {
        return 0.0;
    }
    let capped = if max > 0.0 { f64::min(x, max) } else { x };
    if step > 0.0 {
        (capped / step).floor() * step
    } else {
        capped
    }
}

pub fn impl_order_price_valid(f: &Price, x: f64) -> bool {
    f.valid(x)
}

pub fn spec_order_price_valid(f: &Price, x: f64) -> bool {
    valid(f.min, f.max, f.step, x)
}

pub fn impl_order_size_valid(f: &Size, x: f64) -> bool {
    f.valid(x)
}

pub fn spec_order_size_valid(f: &Size, x: f64) -> bool {
    valid(f.min, f.max, f.step, x)
}

fn valid(min: f64, max: f64, step: f64, x: f64) -> bool {
    if min != 0.0 && x < min {
        return false;
    }
    if max != 0.0 && x > max {
        return false;
    }
    if step != 0.0 && (x - min) % step != 0.0 {
        return false;
    }
    true
}

// ------------------------------------------------------------- aggregation --
pub fn impl_buffer_candles(interval: Interval, buffer: Option<Interval>, candles: &[Candle]) -> Vec<Candle> {
    let mut b = BufferedCandle::new(interval, buffer);
    let mut out = Vec::new();
    for candle in candles {
        if let Some(c) = b.buffer(candle) {
            out.push(match c {
                Cow::Borrowed(c) => *c,
                Cow::Owned(c) => c,
            });
        }
    }
    out
}

/// One candle per larger interval, emitted at its end or, when that is missing,
/// with the first candle after it.
pub fn spec_buffer_candles(interval: Interval, buffer: Option<Interval>, candles: &[Candle]) -> Vec<Candle> {
    assert!(interval != 0);
    let whole = match buffer {
        Some(b) => {
            assert!(interval <= b);
            b
        }
        None => Interval(0),
    };
    let on = buffer.is_some() && interval < whole;
    let mut open: Option<Candle> = None;
    let mut out = Vec::new();
    for candle in candles {
        let first = Candle {
            time: candle.time.floor(whole),
            ..*candle
        };
        let due = if !on {
            Some(*candle)
        } else {
            // a boundary: weeks start on Mondays, months on their first day
            let end = candle.time + interval;
            let last = end == end.floor(whole);
            match open {
                None => {
                    if last {
                        Some(first)
                    } else {
                        open = Some(first);
                        None
                    }
                }
                Some(c) if first.time > c.time => {
                    // two candles would be due at once
                    assert!(!last);
                    open = Some(first);
                    Some(c)
                }
                Some(c) => {
                    let merged = Candle {
                        time: c.time,
                        open: c.open,
                        high: f64::max(c.high, candle.high),
                        low: f64::min(c.low, candle.low),
                        close: candle.close,
                        volume: c.volume + candle.volume,
                    };
                    if last {
                        open = None;
                        Some(merged)
                    } else {
                        open = Some(merged);
                        None
                    }
                }
            }
        };
        if let Some(c) = due {
            out.push(c);
        }
    }
    out
}

// -------------------------------------------------------------------- spans --
pub fn impl_span_merge(spans: &[(u64, u64)]) -> Vec<(u64, u64)> {
    merge_adjacent_spans(spans)
}

pub fn spec_span_merge(spans: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut out = Vec::new();
    let mut open = None;
    let mut last = None;
    for &(start, end) in spans {
        match open {
            None => open = Some(start),
            Some(first) => {
                if last != Some(start) {
                    out.push((first, last.unwrap()));
                    open = Some(start);
                }
            }
        }
        last = Some(end);
    }
    if let Some(first) = open {
        out.push((first, last.unwrap()));
    }
    out
}

pub fn spec_span_merge__2(spans: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut out = Vec::new();
    let mut open: Option<(u64, u64)> = None;
    for &(start, end) in spans {
        match open {
            None => open = Some((start, end)),
            Some((first, last)) => {
                if last == start {
                    open = Some((first, end));
                } else {
                    out.push((first, last));
                    open = Some((start, end));
                }
            }
        }
    }
    if let Some(span) = open {
        out.push(span);
    }
    out
}

pub fn spec_span_merge__3(spans: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = Vec::new();
    for &(start, end) in spans {
        match out.last_mut() {
            Some(last) if last.1 == start => last.1 = end,
            _ => out.push((start, end)),
        }
    }
    out
}

pub fn impl_span_missing(start: u64, end: u64, existing: &[(u64, u64)]) -> Vec<(u64, u64)> {
    generate_missing_spans(start, end, existing)
}

pub fn spec_span_missing(start: u64, end: u64, existing: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut out = Vec::new();
    // everything before `at` is covered or reported
    let mut at = start;
    for &(s, e) in existing {
        let until = std::cmp::min(s, end);
        if at < until {
            out.push((at, until));
        }
        at = std::cmp::max(at, e);
    }
    if at < end {
        out.push((at, end));
    }
    out
}

pub fn impl_span_page(start: u64, end: u64, interval: u64, limit: u64) -> Vec<(u64, u64)> {
    page(start, end, interval, limit).collect()
}

pub fn spec_span_page(start: u64, end: u64, interval: u64, limit: u64) -> Vec<(u64, u64)> {
    let width = interval * limit;
    let mut out = Vec::new();
    for k in 0..(end - start).div_ceil(width) {
        out.push((start + k * width, u64::min(start + k * width + width, end)));
    }
    out
}

// --------------------------------------------------------------------- time --
pub fn impl_time_floor_multiple(x: u64, m: u64) -> u64 {
    juno::math::floor_multiple(x, m)
}

pub fn spec_time_floor_multiple(x: u64, m: u64) -> u64 {
    x / m * m
}

pub fn impl_time_ceil_multiple(x: u64, m: u64) -> u64 {
    juno::math::ceil_multiple(x, m)
}

pub fn spec_time_ceil_multiple(x: u64, m: u64) -> u64 {
    if x % m == 0 {
        x
    } else {
        x / m * m + m
    }
}

pub fn impl_time_interval_ceil(x: Interval, m: Interval) -> Interval {
    x.ceil(m)
}

pub fn spec_time_interval_ceil(x: Interval, m: Interval) -> Interval {
    Interval(if x.0 % m.0 == 0 { x.0 } else { x.0 / m.0 * m.0 + m.0 })
}

const WEEK: u64 = 7 * 24 * 60 * 60 * 1000;
/// The average month of the Gregorian calendar: 30.436875 days.
const MONTH: u64 = 2_629_746_000;
/// 1970-01-05 00:00, a Monday.
const FIRST_MONDAY: u64 = 4 * 24 * 60 * 60 * 1000;

fn midnight_of_first(year: i32, month: time::Month) -> u64 {
    let first = time::Date::from_calendar_date(year, month, 1).unwrap();
    let midnight = first.with_hms(0, 0, 0).unwrap().assume_offset(time::UtcOffset::UTC);
    (midnight.unix_timestamp_nanos() / 1_000_000) as u64
}

fn date_of(t: u64) -> (i32, time::Month) {
    let at = time::OffsetDateTime::from_unix_timestamp_nanos(t as i128 * 1_000_000).unwrap();
    let (year, month, _) = at.to_calendar_date();
    (year, month)
}

fn floor_to(t: u64, m: u64) -> u64 {
    if m < WEEK {
        t / m * m
    } else if m == WEEK {
        // weeks start on Monday; from the first one on
        (t - FIRST_MONDAY) / m * m + FIRST_MONDAY
    } else {
        assert!(m == MONTH);
        let (year, month) = date_of(t);
        midnight_of_first(year, month)
    }
}

pub fn impl_time_floor(t: Timestamp, m: Interval) -> Timestamp {
    t.floor(m)
}

pub fn spec_time_floor(t: Timestamp, m: Interval) -> Timestamp {
    Timestamp(floor_to(t.0, m.0))
}

pub fn impl_time_ceil(t: Timestamp, m: Interval) -> Timestamp {
    t.ceil(m)
}

pub fn spec_time_ceil(t: Timestamp, m: Interval) -> Timestamp {
    let (t, m) = (t.0, m.0);
    Timestamp(if m < WEEK {
        if t % m == 0 {
            t
        } else {
            t / m * m + m
        }
    } else if m == WEEK {
        // FIRST_MONDAY is less than a week
        let first = FIRST_MONDAY % m;
        if t <= first {
            first
        } else if (t - first) % m == 0 {
            t
        } else {
            (t - first) / m * m + m + first
        }
    } else {
        assert!(m == MONTH);
        let (year, month) = date_of(t);
        let this = midnight_of_first(year, month);
        if this == t {
            t
        } else {
            let year = if month == time::Month::December { year + 1 } else { year };
            midnight_of_first(year, month.next())
        }
    })
}
