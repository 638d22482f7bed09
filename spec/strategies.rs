//! What each strategy advises, stated over the whole candle series and the
//! indicators it is built on (which are decided on their own).
use juno::indicators::{self, MAParams, MA};
use juno::strategies::*;
use juno::utils::*;
use juno::{Advice, Candle};

fn run<S: Signal>(mut s: S, candles: &[Candle]) -> (Advice, bool, u32) {
    let announced = s.maturity();
    for candle in candles {
        s.update(candle);
    }
    (s.advice(), s.mature(), announced)
}

// ------------------------------------------------------- moving averages --
pub fn impl_double_ma(p: &DoubleMAParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(DoubleMA::new(p, meta), candles)
}

/// The shorter average above the longer: long; below: short; else as before.
pub fn spec_double_ma(p: &DoubleMAParams, _meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    assert!(p.mas.0.period() < p.mas.1.period());
    let mut s = p.mas.0.construct();
    let mut l = p.mas.1.construct();
    let announced = std::cmp::max(s.maturity(), l.maturity());
    let mut advice = Advice::None;
    for candle in candles {
        s.update(candle.close);
        l.update(candle.close);
        if s.mature() && l.mature() {
            if s.value() > l.value() {
                advice = Advice::Long;
            }
            if s.value() < l.value() {
                advice = Advice::Short;
            }
        }
    }
    (advice, s.mature() && l.mature(), announced)
}

pub fn impl_double_ma_2(p: &DoubleMA2Params, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(DoubleMA2::new(p, meta), candles)
}

/// The difference of the averages in percent of their mean beyond a threshold.
pub fn spec_double_ma_2(p: &DoubleMA2Params, _meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    assert!(p.mas.0.period() < p.mas.1.period());
    assert!(p.pos_threshold > 0.0 && p.pos_threshold < 1.0);
    assert!(p.neg_threshold < 0.0 && p.neg_threshold > -1.0);
    let mut s = p.mas.0.construct();
    let mut l = p.mas.1.construct();
    let announced = std::cmp::max(s.maturity(), l.maturity());
    let mut advice = Advice::None;
    for candle in candles {
        s.update(candle.close);
        l.update(candle.close);
        if s.mature() && l.mature() {
            let mean = (s.value() + l.value()) / 2.0;
            let percent = 100.0 * (s.value() - l.value()) / mean;
            if percent > p.pos_threshold {
                advice = Advice::Long;
            } else if percent < p.neg_threshold {
                advice = Advice::Short;
            }
        }
    }
    (advice, s.mature() && l.mature(), announced)
}

pub fn impl_triple_ma(p: &TripleMAParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(TripleMA::new(p, meta), candles)
}

/// All three in order: enter; the short one crossing both others against the
/// position: leave it.
pub fn spec_triple_ma(p: &TripleMAParams, _meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    assert!(p.mas.0.period() < p.mas.1.period());
    assert!(p.mas.1.period() < p.mas.2.period());
    let mut s = p.mas.0.construct();
    let mut m = p.mas.1.construct();
    let mut l = p.mas.2.construct();
    let announced = std::cmp::max(std::cmp::max(l.maturity(), m.maturity()), s.maturity());
    let mut advice = Advice::None;
    for candle in candles {
        s.update(candle.close);
        m.update(candle.close);
        l.update(candle.close);
        if s.mature() && m.mature() && l.mature() {
            let (sv, mv, lv) = (s.value(), m.value(), l.value());
            if sv > mv && mv > lv {
                advice = Advice::Long;
            } else if sv < mv && mv < lv {
                advice = Advice::Short;
            } else {
                let above = sv > mv && sv > lv;
                let below = sv < mv && sv < lv;
                if (advice == Advice::Short && above) || (advice == Advice::Long && below) {
                    advice = Advice::Liquidate;
                }
            }
        }
    }
    (advice, s.mature() && m.mature() && l.mature(), announced)
}

pub fn impl_single_ma(p: &SingleMAParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(SingleMA::new(p, meta), candles)
}

/// The close above a rising average: long; below a falling one: short.
pub fn spec_single_ma(p: &SingleMAParams, _meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    let mut ma = p.ma.construct();
    let n = ma.maturity() + 1;
    let mut previous = 0.0;
    let mut advice = Advice::None;
    let mut seen: u32 = 0;
    for candle in candles {
        seen = std::cmp::min(seen + 1, n);
        ma.update(candle.close);
        let v = ma.value();
        if seen >= n {
            if candle.close > v && v > previous {
                advice = Advice::Long;
            } else if candle.close < v && v < previous {
                advice = Advice::Short;
            }
        }
        if ma.mature() {
            previous = v;
        }
    }
    (advice, seen >= n, n)
}

pub fn impl_four_week_rule(p: &FourWeekRuleParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(FourWeekRule::new(p, meta), candles)
}

/// A close at or beyond the extremes of the previous `period` closes: enter;
/// a close back across the average: leave.
pub fn spec_four_week_rule(p: &FourWeekRuleParams, _meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    let mut ma = p.ma.construct();
    let n = std::cmp::max(p.period + 1, ma.maturity());
    let mut closes = bounded_vec_deque::BoundedVecDeque::new(p.period as usize);
    let mut advice = Advice::None;
    let mut seen: u32 = 0;
    for candle in candles {
        seen = std::cmp::min(seen + 1, n);
        ma.update(candle.close);
        if seen >= n {
            let mut lowest = f64::NAN;
            let mut highest = f64::NAN;
            for &x in closes.iter() {
                lowest = f64::min(lowest, x);
                highest = f64::max(highest, x);
            }
            if candle.close >= highest {
                advice = Advice::Long;
            } else if candle.close <= lowest {
                advice = Advice::Short;
            } else if advice == Advice::Long && candle.close <= ma.value() {
                advice = Advice::Liquidate;
            } else if advice == Advice::Short && candle.close >= ma.value() {
                advice = Advice::Liquidate;
            }
        }
        closes.push_back(candle.close);
    }
    (advice, seen >= n, n)
}

pub fn impl_macd(p: &MacdParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(Macd::new(p, meta), candles)
}

/// MACD above its signal line: long, else short.
pub fn spec_macd(p: &MacdParams, _meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    let mut macd = indicators::Macd::new(p.periods.0, p.periods.1, p.signal_period);
    let announced = macd.maturity();
    let mut advice = Advice::None;
    for candle in candles {
        macd.update(candle.close);
        if macd.mature() {
            if macd.value > macd.signal {
                advice = Advice::Long;
            } else {
                advice = Advice::Short;
            }
        }
    }
    (advice, macd.mature(), announced)
}

pub fn impl_rsi(p: &RsiParams, meta: &StrategyMeta, candles: &[Candle]) -> (bool, bool, bool, u32) {
    let mut s = Rsi::new(p, meta);
    let announced = s.maturity();
    for candle in candles {
        s.update(candle);
    }
    (s.overbought(), s.oversold(), s.mature(), announced)
}

pub fn spec_rsi(p: &RsiParams, _meta: &StrategyMeta, candles: &[Candle]) -> (bool, bool, bool, u32) {
    let mut rsi = indicators::Rsi::new(p.period);
    let announced = rsi.maturity();
    for candle in candles {
        rsi.update(candle.close);
    }
    let mature = rsi.mature();
    (mature && rsi.value >= p.up_threshold, mature && rsi.value < p.down_threshold, mature, announced)
}

pub fn impl_stoch(p: &StochParams, meta: &StrategyMeta, candles: &[Candle]) -> (bool, bool, bool, u32) {
    let mut s = Stoch::new(p, meta);
    let announced = s.maturity();
    for candle in candles {
        s.update(candle);
    }
    (s.overbought(), s.oversold(), s.mature(), announced)
}

pub fn spec_stoch(p: &StochParams, _meta: &StrategyMeta, candles: &[Candle]) -> (bool, bool, bool, u32) {
    let mut stoch = indicators::Stoch::new(p.k_period, p.k_sma_period, p.d_sma_period);
    let announced = stoch.maturity();
    for candle in candles {
        stoch.update(candle.high, candle.low, candle.close);
    }
    let mature = stoch.mature();
    (mature && stoch.k >= p.up_threshold, mature && stoch.k < p.down_threshold, mature, announced)
}

pub fn impl_double_ma_stoch(p: &DoubleMAStochParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(DoubleMAStoch::new(p, meta), candles)
}

/// The averages decide, entered only on the right side of the stochastic's
/// midline, left when they turn or the oscillator is at the far end.
pub fn spec_double_ma_stoch(p: &DoubleMAStochParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    let mut ma = DoubleMA::new(&p.double_ma, meta);
    let mut stoch = Stoch::new(&p.stoch, meta);
    let announced = std::cmp::max(ma.maturity(), stoch.maturity());
    let mut advice = Advice::None;
    for candle in candles {
        ma.update(candle);
        stoch.update(candle);
        if ma.mature() && stoch.mature() {
            let way = ma.advice();
            let k = stoch.indicator.k;
            let leave_long = way == Advice::Short || stoch.overbought();
            let leave_short = way == Advice::Long || stoch.oversold();
            match advice {
                Advice::Long if leave_long => advice = Advice::Liquidate,
                Advice::Short if leave_short => advice = Advice::Liquidate,
                _ => {}
            }
            if advice == Advice::None || advice == Advice::Liquidate {
                match way {
                    Advice::Long if k < 50.0 => advice = Advice::Long,
                    Advice::Short if k >= 50.0 => advice = Advice::Short,
                    _ => {}
                }
            }
        }
    }
    (advice, ma.mature() && stoch.mature(), announced)
}

// ------------------------------------------------------------ composites --
pub fn impl_sig(p: &SigParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(Sig::new(p, meta), candles)
}

/// The advice of the wrapped strategy, from its maturity on, through both
/// filters.
pub fn spec_sig(p: &SigParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    let mut sig = p.sig.construct(meta);
    let mut mid_trend = MidTrend::new(p.mid_trend_policy);
    let mut persistence = Persistence::new(p.persistence, false);
    let mut buffer = BufferedCandle::new(meta.interval, p.buffer_interval);
    let n = sig.maturity() + std::cmp::max(mid_trend.maturity(), persistence.maturity()) - 1;
    let mut advice = Advice::None;
    let mut seen: u32 = 0;
    for candle in candles {
        if let Some(whole) = buffer.buffer(candle) {
            seen = std::cmp::min(seen + 1, n);
            sig.update(whole.as_ref());
            if sig.mature() {
                let a = mid_trend.update(sig.advice());
                let b = persistence.update(sig.advice());
                advice = combine(a, b);
            }
        }
    }
    (advice, seen >= n, n)
}

pub fn impl_sig_osc(p: &SigOscParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    run(SigOsc::new(p, meta), candles)
}

pub fn spec_sig_osc(p: &SigOscParams, meta: &StrategyMeta, candles: &[Candle]) -> (Advice, bool, u32) {
    let mut sig = p.sig.construct(meta);
    let mut osc = p.osc.construct(meta);
    let mut mid_trend = MidTrend::new(p.mid_trend_policy);
    let mut persistence = Persistence::new(p.persistence, false);
    let n = std::cmp::max(sig.maturity(), osc.maturity())
        + std::cmp::max(mid_trend.maturity(), persistence.maturity())
        - 1;
    let mut advice = Advice::None;
    let mut seen: u32 = 0;
    for candle in candles {
        seen = std::cmp::min(seen + 1, n);
        sig.update(candle);
        osc.update(candle);
        if sig.mature() && osc.mature() {
            let raw = sig.advice();
            // the type of the policy has no public name: Enforce, Prevent
            let enforce = p.osc_filter as u8 == 0;
            let filtered = match raw {
                Advice::Long if enforce && !osc.oversold() => Advice::Liquidate,
                Advice::Short if enforce && !osc.overbought() => Advice::Liquidate,
                Advice::Long if !enforce && osc.overbought() => Advice::Liquidate,
                Advice::Short if !enforce && osc.oversold() => Advice::Liquidate,
                _ => raw,
            };
            let a = mid_trend.update(filtered);
            let b = persistence.update(filtered);
            advice = combine(a, b);
        }
    }
    (advice, seen >= n, n)
}
