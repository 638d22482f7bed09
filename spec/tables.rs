//! Tables that name the same set twice, written out from the names alone.
use juno::easing::{tween, Easing, EasingExt};
use juno::indicators::*;
use juno::stop_loss::{self, StopLoss, StopLossParams};
use juno::strategies::{self, *};
use juno::take_profit::{self, TakeProfit, TakeProfitParams};
use juno::trading::{EvaluationAggregation, EvaluationStatistic};
use juno::utils::{MidTrendPolicy, MidTrendPolicyExt};
use juno::Interval;
use rand::prelude::*;
use std::fmt::{self, Display};

// ------------------------------------------------------------- easings --
pub fn impl_easing(x: f64, easing: Easing) -> f64 {
    tween(x, easing)
}

pub fn spec_easing(x: f64, easing: Easing) -> f64 {
    match easing {
        Easing::Linear => x,
        Easing::QuadIn => ezing::quad_in(x),
        Easing::QuadOut => ezing::quad_out(x),
        Easing::QuadInout => ezing::quad_inout(x),
        Easing::CubicIn => ezing::cubic_in(x),
        Easing::CubicOut => ezing::cubic_out(x),
        Easing::CubicInout => ezing::cubic_inout(x),
        Easing::QuartIn => ezing::quart_in(x),
        Easing::QuartOut => ezing::quart_out(x),
        Easing::QuartInout => ezing::quart_inout(x),
        Easing::QuintIn => ezing::quint_in(x),
        Easing::QuintOut => ezing::quint_out(x),
        Easing::QuintInout => ezing::quint_inout(x),
        Easing::SineIn => ezing::sine_in(x),
        Easing::SineOut => ezing::sine_out(x),
        Easing::SineInout => ezing::sine_inout(x),
        Easing::CircIn => ezing::circ_in(x),
        Easing::CircOut => ezing::circ_out(x),
        Easing::CircInout => ezing::circ_inout(x),
        Easing::ExpoIn => ezing::expo_in(x),
        Easing::ExpoOut => ezing::expo_out(x),
        Easing::ExpoInout => ezing::expo_inout(x),
        Easing::ElasticIn => ezing::elastic_in(x),
        Easing::ElasticOut => ezing::elastic_out(x),
        Easing::ElasticInout => ezing::elastic_inout(x),
        Easing::BackIn => ezing::back_in(x),
        Easing::BackOut => ezing::back_out(x),
        Easing::BackInout => ezing::back_inout(x),
        Easing::BounceIn => ezing::bounce_in(x),
        Easing::BounceOut => ezing::bounce_out(x),
        Easing::BounceInout => ezing::bounce_inout(x),
    }
}

/// Not a twin: which easings can come out of it is read off its summary.
pub fn drawn_easing(rng: &mut StdRng) -> Easing {
    rng.gen_easing()
}

pub fn drawn_ma(rng: &mut StdRng, period: u32) -> MAParams {
    rng.gen_ma_params(period)
}

// ------------------------------------------------------ moving averages --
pub fn impl_ma_from_adler32(code: u32, period: u32) -> Box<dyn MA> {
    ma_from_adler32(code, period)
}

/// The codes are the Adler-32 checksums of alma, ema, ema2, sma, smma, dema, kama.
pub fn spec_ma_from_adler32(code: u32, period: u32) -> Box<dyn MA> {
    match code {
        67_568_028 => Box::new(Alma::new(&AlmaParams { period, offset: 0.85, sigma: None })),
        40_698_164 => Box::new(Ema::new(&EmaParams { period, smoothing: None })),
        64_160_102 => Box::new(Ema2::new(&Ema2Params { period })),
        43_450_690 => Box::new(Sma::new(&SmaParams { period })),
        72_483_247 => Box::new(Smma::new(&SmmaParams { period })),
        66_978_200 => Box::new(Dema::new(&DemaParams { period })),
        68_026_779 => Box::new(Kama::new(&KamaParams { period })),
        _ => panic!(),
    }
}

pub fn impl_adler32(value: &str) -> u32 {
    juno::math::adler32(value)
}

pub fn spec_adler32(value: &str) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in value.chars() {
        a = a.wrapping_add(c as u32) % 65521;
        b = b.wrapping_add(a) % 65521;
    }
    b.wrapping_shl(16) | a
}

pub fn impl_ma_construct(p: &MAParams) -> Box<dyn MA> {
    p.construct()
}

pub fn spec_ma_construct(p: &MAParams) -> Box<dyn MA> {
    match p {
        MAParams::Alma(p) => Box::new(Alma::new(p)),
        MAParams::Dema(p) => Box::new(Dema::new(p)),
        MAParams::Ema(p) => Box::new(Ema::new(p)),
        MAParams::Ema2(p) => Box::new(Ema2::new(p)),
        MAParams::Kama(p) => Box::new(Kama::new(p)),
        MAParams::Sma(p) => Box::new(Sma::new(p)),
        MAParams::Smma(p) => Box::new(Smma::new(p)),
    }
}

pub fn impl_ma_period(p: &MAParams) -> u32 {
    p.period()
}

pub fn spec_ma_period(p: &MAParams) -> u32 {
    match p {
        MAParams::Alma(AlmaParams { period, .. }) => *period,
        MAParams::Dema(DemaParams { period, .. }) => *period,
        MAParams::Ema(EmaParams { period, .. }) => *period,
        MAParams::Ema2(Ema2Params { period, .. }) => *period,
        MAParams::Kama(KamaParams { period, .. }) => *period,
        MAParams::Sma(SmaParams { period, .. }) => *period,
        MAParams::Smma(SmmaParams { period, .. }) => *period,
    }
}

// ------------------------------------------------------------ constructs --
pub fn impl_strategy(p: &StrategyParams, m: &StrategyMeta) -> Box<dyn Signal> {
    p.construct(m)
}

pub fn spec_strategy(p: &StrategyParams, m: &StrategyMeta) -> Box<dyn Signal> {
    match p {
        StrategyParams::DoubleMA(p) => Box::new(DoubleMA::new(p, m)),
        StrategyParams::DoubleMA2(p) => Box::new(DoubleMA2::new(p, m)),
        StrategyParams::DoubleMAStoch(p) => Box::new(DoubleMAStoch::new(p, m)),
        StrategyParams::FourWeekRule(p) => Box::new(FourWeekRule::new(p, m)),
        StrategyParams::Macd(p) => Box::new(strategies::Macd::new(p, m)),
        StrategyParams::SingleMA(p) => Box::new(SingleMA::new(p, m)),
        StrategyParams::TripleMA(p) => Box::new(TripleMA::new(p, m)),
        StrategyParams::SigOsc(p) => Box::new(SigOsc::new(p, m)),
        StrategyParams::Sig(p) => Box::new(Sig::new(p, m)),
    }
}

pub fn impl_signal(p: &SignalParams, m: &StrategyMeta) -> Box<dyn Signal> {
    p.construct(m)
}

pub fn spec_signal(p: &SignalParams, m: &StrategyMeta) -> Box<dyn Signal> {
    match p {
        SignalParams::DoubleMA(p) => Box::new(DoubleMA::new(p, m)),
        SignalParams::DoubleMA2(p) => Box::new(DoubleMA2::new(p, m)),
        SignalParams::DoubleMAStoch(p) => Box::new(DoubleMAStoch::new(p, m)),
        SignalParams::FourWeekRule(p) => Box::new(FourWeekRule::new(p, m)),
        SignalParams::Macd(p) => Box::new(strategies::Macd::new(p, m)),
        SignalParams::SingleMA(p) => Box::new(SingleMA::new(p, m)),
        SignalParams::TripleMA(p) => Box::new(TripleMA::new(p, m)),
    }
}

pub fn impl_oscillator(p: &OscillatorParams, m: &StrategyMeta) -> Box<dyn Oscillator> {
    p.construct(m)
}

pub fn spec_oscillator(p: &OscillatorParams, m: &StrategyMeta) -> Box<dyn Oscillator> {
    match p {
        OscillatorParams::Rsi(p) => Box::new(strategies::Rsi::new(p, m)),
        OscillatorParams::Stoch(p) => Box::new(strategies::Stoch::new(p, m)),
    }
}

pub fn impl_stop_loss(p: &StopLossParams) -> Box<dyn StopLoss> {
    p.construct()
}

pub fn spec_stop_loss(p: &StopLossParams) -> Box<dyn StopLoss> {
    match p {
        StopLossParams::BasicPlusTrailing(p) => Box::new(stop_loss::BasicPlusTrailing::new(p)),
        StopLossParams::Basic(p) => Box::new(stop_loss::Basic::new(p)),
        StopLossParams::Legacy(p) => Box::new(stop_loss::Legacy::new(p)),
        StopLossParams::Noop(p) => Box::new(stop_loss::Noop::new(p)),
        StopLossParams::Trailing(p) => Box::new(stop_loss::Trailing::new(p)),
    }
}

pub fn impl_take_profit(p: &TakeProfitParams) -> Box<dyn TakeProfit> {
    p.construct()
}

pub fn spec_take_profit(p: &TakeProfitParams) -> Box<dyn TakeProfit> {
    match p {
        TakeProfitParams::Basic(p) => Box::new(take_profit::Basic::new(p)),
        TakeProfitParams::Legacy(p) => Box::new(take_profit::Legacy::new(p)),
        TakeProfitParams::Noop(p) => Box::new(take_profit::Noop::new(p)),
        TakeProfitParams::Trending(p) => Box::new(take_profit::Trending::new(p)),
    }
}

// -------------------------------------------------------------- intervals --
pub fn impl_interval_text(x: u64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Interval(x).fmt(f)
}

/// As many of each unit as fit, from the longest unit to the shortest.
pub fn spec_interval_text(x: u64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let mut text = String::new();
    let mut left = x;
    for (unit, ms) in [
        ("y", 31_556_952_000u64),
        ("M", 2_629_746_000),
        ("w", 604_800_000),
        ("d", 86_400_000),
        ("h", 3_600_000),
        ("m", 60_000),
        ("s", 1000),
        ("ms", 1),
    ] {
        let n = left / ms;
        left %= ms;
        if n > 0 {
            text.push_str(&n.to_string());
            text.push_str(unit);
        }
        if left == 0 {
            break;
        }
    }
    if text.is_empty() {
        text.push_str("0ms");
    }
    f.write_str(&text)
}

pub fn drawn_mid_trend(rng: &mut StdRng) -> MidTrendPolicy {
    rng.gen_mid_trend_policy()
}

/// Lists that offer every one of their kind.
pub fn offered_statistics() -> [EvaluationStatistic; 4] {
    EvaluationStatistic::values()
}

pub fn offered_aggregations() -> [EvaluationAggregation; 3] {
    EvaluationAggregation::values()
}
