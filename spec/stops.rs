//! Reference definitions for stop losses and take profits.
//!
//! Every pair `impl_*` / `spec_*` takes the same inputs.  `impl_*` drives the
//! public API of the analysed crate, `spec_*` states what it has to answer.
//! Neither is executed: the analysis computes a value summary of both and
//! compares the two.
use juno::easing::tween;
use juno::indicators::Adx;
use juno::math::lerp;
use juno::stop_loss::{self as sl, StopLoss, StopLossParams};
use juno::take_profit::{self as tp, TakeProfit, TakeProfitParams};
use juno::Candle;

/// What can happen before the position at hand was opened.
pub enum Ev {
    Update(Candle),
    Clear(Candle),
}

/// A position opened on candle `entry`, followed by candles `after` and `last`.
pub struct Run<'a> {
    pub before: &'a [Ev],
    pub entry: Candle,
    pub after: &'a [Candle],
    pub last: Candle,
}

fn drive_sl(mut s: Box<dyn StopLoss>, r: &Run) -> (bool, bool) {
    for e in r.before {
        match e {
            Ev::Update(c) => s.update(c),
            Ev::Clear(c) => s.clear(c),
        }
    }
    s.update(&r.entry);
    s.clear(&r.entry);
    for c in r.after {
        s.update(c);
    }
    s.update(&r.last);
    (s.upside_hit(), s.downside_hit())
}

fn drive_tp(mut s: Box<dyn TakeProfit>, r: &Run) -> (bool, bool) {
    for e in r.before {
        match e {
            Ev::Update(c) => s.update(c),
            Ev::Clear(c) => s.clear(c),
        }
    }
    s.update(&r.entry);
    s.clear(&r.entry);
    for c in r.after {
        s.update(c);
    }
    s.update(&r.last);
    (s.upside_hit(), s.downside_hit())
}

/// Highest close from the entry candle on.
fn highest(r: &Run) -> f64 {
    let mut h = r.entry.close;
    for c in r.after {
        h = f64::max(h, c.close);
    }
    f64::max(h, r.last.close)
}

/// Lowest close from the entry candle on.
fn lowest(r: &Run) -> f64 {
    let mut l = r.entry.close;
    for c in r.after {
        l = f64::min(l, c.close);
    }
    f64::min(l, r.last.close)
}

// ------------------------------------------------------------ stop losses --

pub fn impl_sl_basic(p: sl::BasicParams, r: &Run) -> (bool, bool) {
    drive_sl(StopLossParams::Basic(p).construct(), r)
}
pub fn spec_sl_basic(p: sl::BasicParams, r: &Run) -> (bool, bool) {
    (
        r.last.close <= r.entry.close * (1.0 - p.up_threshold),
        r.last.close >= r.entry.close * (1.0 + p.down_threshold),
    )
}

pub fn impl_sl_trailing(p: sl::TrailingParams, r: &Run) -> (bool, bool) {
    drive_sl(StopLossParams::Trailing(p).construct(), r)
}
pub fn spec_sl_trailing(p: sl::TrailingParams, r: &Run) -> (bool, bool) {
    (
        r.last.close <= highest(r) * (1.0 - p.up_threshold),
        r.last.close >= lowest(r) * (1.0 + p.down_threshold),
    )
}

pub fn impl_sl_basic_plus_trailing(p: sl::BasicPlusTrailingParams, r: &Run) -> (bool, bool) {
    drive_sl(StopLossParams::BasicPlusTrailing(p).construct(), r)
}
pub fn spec_sl_basic_plus_trailing(p: sl::BasicPlusTrailingParams, r: &Run) -> (bool, bool) {
    let b = spec_sl_basic(p.basic, r);
    let t = spec_sl_trailing(p.trailing, r);
    (b.0 || t.0, b.1 || t.1)
}

pub fn impl_sl_legacy(p: sl::LegacyParams, r: &Run) -> (bool, bool) {
    drive_sl(StopLossParams::Legacy(p).construct(), r)
}
pub fn spec_sl_legacy(p: sl::LegacyParams, r: &Run) -> (bool, bool) {
    let top = if p.trail { highest(r) } else { r.entry.close };
    let bottom = if p.trail { lowest(r) } else { r.entry.close };
    (
        p.threshold > 0.0 && r.last.close <= top * (1.0 - p.threshold),
        p.threshold > 0.0 && r.last.close >= bottom * (1.0 + p.threshold),
    )
}

pub fn impl_sl_noop(p: sl::NoopParams, r: &Run) -> (bool, bool) {
    drive_sl(StopLossParams::Noop(p).construct(), r)
}
pub fn spec_sl_noop(_p: sl::NoopParams, _r: &Run) -> (bool, bool) {
    (false, false)
}

// ----------------------------------------------------------- take profits --

pub fn impl_tp_basic(p: tp::BasicParams, r: &Run) -> (bool, bool) {
    drive_tp(TakeProfitParams::Basic(p).construct(), r)
}
pub fn spec_tp_basic(p: tp::BasicParams, r: &Run) -> (bool, bool) {
    (
        r.last.close >= r.entry.close * (1.0 + p.up_threshold),
        r.last.close <= r.entry.close * (1.0 - p.down_threshold),
    )
}

pub fn impl_tp_legacy(p: tp::LegacyParams, r: &Run) -> (bool, bool) {
    drive_tp(TakeProfitParams::Legacy(p).construct(), r)
}
pub fn spec_tp_legacy(p: tp::LegacyParams, r: &Run) -> (bool, bool) {
    (
        p.threshold > 0.0 && r.last.close >= r.entry.close * (1.0 + p.threshold),
        p.threshold > 0.0 && r.last.close <= r.entry.close * (1.0 - p.threshold),
    )
}

pub fn impl_tp_noop(p: tp::NoopParams, r: &Run) -> (bool, bool) {
    drive_tp(TakeProfitParams::Noop(p).construct(), r)
}
pub fn spec_tp_noop(_p: tp::NoopParams, _r: &Run) -> (bool, bool) {
    (false, false)
}

fn factors(p: &tp::TrendingParams, adx: f64) -> (f64, f64) {
    let progress = tween(adx / 100.0, p.easing);
    (
        1.0 + lerp(p.up_thresholds.0, p.up_thresholds.1, progress),
        1.0 - lerp(p.down_thresholds.0, p.down_thresholds.1, progress),
    )
}

/// The trend strength follows every candle; the thresholds it sets are those
/// of the entry candle when locked, of the current candle otherwise.
pub fn impl_tp_trending(p: tp::TrendingParams, r: &Run) -> (bool, bool) {
    drive_tp(TakeProfitParams::Trending(p).construct(), r)
}
pub fn spec_tp_trending(p: tp::TrendingParams, r: &Run) -> (bool, bool) {
    let mut adx = Adx::new(p.period);
    for e in r.before {
        if let Ev::Update(c) = e {
            adx.update(c.high, c.low);
        }
    }
    adx.update(r.entry.high, r.entry.low);
    let at_entry = adx.value;
    for c in r.after {
        adx.update(c.high, c.low);
    }
    adx.update(r.last.high, r.last.low);
    let (up, down) = factors(&p, if p.lock_threshold { at_entry } else { adx.value });
    (
        r.last.close >= r.entry.close * up,
        r.last.close <= r.entry.close * down,
    )
}
