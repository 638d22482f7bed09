//! What one candle does to a simulated run.
use juno::stop_loss::StopLoss;
use juno::strategies::Signal;
use juno::take_profit::TakeProfit;
use juno::trading::{CloseReason, LongPosition, OpenLongPosition, OpenPosition, OpenShortPosition, Position, ShortPosition, TradeInput};
use juno::{Advice, Candle, Fill, Timestamp};

/// Everything sees the candle once; then the strategy is asked.
pub fn observe(strategy: &mut Box<dyn Signal>, sl: &mut Box<dyn StopLoss>, tp: &mut Box<dyn TakeProfit>, candle: &Candle) -> Advice {
    sl.update(candle);
    tp.update(candle);
    strategy.update(candle);
    strategy.advice()
}

pub fn restart(sl: &mut Box<dyn StopLoss>, tp: &mut Box<dyn TakeProfit>, candle: &Candle) {
    sl.clear(candle);
    tp.clear(candle);
}

/// Only a change of the advice counts: (what counts now, what is remembered).
pub fn effective(previous: Advice, advice: Advice) -> (Advice, Advice) {
    match advice {
        Advice::None => (Advice::None, previous),
        _ => {
            if advice == previous {
                (Advice::None, previous)
            } else {
                (advice, advice)
            }
        }
    }
}

/// Why an open position is closed, if it is.
pub fn exit(open: &Option<OpenPosition>, advice: Advice, sl: &Box<dyn StopLoss>, tp: &Box<dyn TakeProfit>) -> Option<CloseReason> {
    match open {
        None => None,
        Some(OpenPosition::Long(_)) => {
            if advice == Advice::Short || advice == Advice::Liquidate {
                Some(CloseReason::Strategy)
            } else if sl.upside_hit() {
                Some(CloseReason::StopLoss)
            } else if tp.upside_hit() {
                Some(CloseReason::TakeProfit)
            } else {
                None
            }
        }
        Some(OpenPosition::Short(_)) => {
            if advice == Advice::Long || advice == Advice::Liquidate {
                Some(CloseReason::Strategy)
            } else if sl.downside_hit() {
                Some(CloseReason::StopLoss)
            } else if tp.downside_hit() {
                Some(CloseReason::TakeProfit)
            } else {
                None
            }
        }
    }
}

/// What is to be opened while flat.
pub fn entry(advice: Advice, input: &TradeInput) -> (bool, bool) {
    (input.long && advice == Advice::Long, input.short && advice == Advice::Short)
}

// ---------------------------------------------------------------- amounts --
fn down(value: f64, precision: u32) -> f64 {
    let factor = 10_f64.powi(precision as i32);
    (value * factor).floor() / factor
}

fn half_up(value: f64, precision: u32) -> f64 {
    let factor = 10_f64.powi(precision as i32);
    (value * factor).round() / factor
}

pub fn long_order(quote: f64, price: f64, input: &TradeInput) -> Option<OpenLongPosition> {
    let f = input.filters;
    let size = f.size.round_down(quote / price);
    if size == 0.0 {
        return None;
    }
    let fill = Fill {
        price,
        size,
        quote: down(price * size, f.quote_precision),
        fee: half_up(size * input.fees.taker, f.base_precision),
    };
    Some(OpenLongPosition { time: Timestamp(0), fills: [fill] })
}

pub fn short_order(quote: f64, price: f64, input: &TradeInput) -> Option<OpenShortPosition> {
    let f = input.filters;
    let collateral = f.size.round_down(quote / price);
    if collateral == 0.0 {
        return None;
    }
    let borrowed = f64::min(collateral * (input.margin_multiplier - 1) as f64, input.borrow_info.limit);
    let worth = down(price * borrowed, f.quote_precision);
    let fill = Fill {
        price,
        size: borrowed,
        quote: worth,
        fee: half_up(worth * input.fees.taker, f.quote_precision),
    };
    Some(OpenShortPosition { time: Timestamp(0), collateral: quote, borrowed, fills: [fill] })
}

pub fn long_close(open: &OpenLongPosition, price: f64, input: &TradeInput) -> Fill {
    let f = input.filters;
    let size = f.size.round_down(open.fills[0].size - open.fills[0].fee);
    let quote = down(price * size, f.quote_precision);
    Fill { price, size, quote, fee: half_up(quote * input.fees.taker, f.quote_precision) }
}

pub fn short_close(open: &OpenShortPosition, time: Timestamp, price: f64, input: &TradeInput) -> Fill {
    let f = input.filters;
    let b = input.borrow_info;
    let held = time.0 - open.time.0;
    let intervals = held.div_ceil(b.interest_interval);
    let interest = half_up(open.borrowed * intervals as f64 * b.interest_rate, f.base_precision);
    let owed = open.borrowed + interest;
    let fee = half_up(owed * input.fees.taker, f.base_precision);
    let size = owed + fee;
    Fill { price, size, quote: down(price * size, f.quote_precision), fee }
}

// ----------------------------------------------------------------- cash -----
/// Cash that an open position has taken out of the balance.
pub fn tied(open: &Option<OpenPosition>) -> f64 {
    match open {
        None => 0.0,
        Some(OpenPosition::Long(p)) => p.fills[0].quote,
        Some(OpenPosition::Short(p)) => p.fills[0].fee - p.fills[0].quote,
    }
}

/// Cash that closing brings.
pub fn long_proceeds(close: &Fill) -> f64 {
    close.quote - close.fee
}

pub fn short_proceeds(close: &Fill) -> f64 {
    -close.quote
}

pub fn long_profit(p: &LongPosition) -> f64 {
    p.profit()
}

pub fn short_profit(p: &ShortPosition) -> f64 {
    p.profit()
}

/// Names the types for the analysis.
pub fn types(_: &Position) {}
