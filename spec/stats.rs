//! Statistics of a trading summary.
use juno::statistics::*;
use juno::trading::{CloseReason, LongPosition, Position, ShortPosition, TradingSummary};
use juno::{Interval, SymbolExt, Timestamp};
use std::collections::HashMap;

// ------------------------------------------- fast statistics = full statistics --
pub fn impl_fast_profit(summary: &TradingSummary) -> f64 {
    get_profit(summary)
}

pub fn spec_fast_profit(summary: &TradingSummary) -> f64 {
    CoreStatistics::compose(summary).profit
}

pub fn impl_fast_return_over_max_drawdown(summary: &TradingSummary) -> f64 {
    get_return_over_max_drawdown(summary)
}

pub fn spec_fast_return_over_max_drawdown(summary: &TradingSummary) -> f64 {
    CoreStatistics::compose(summary).return_over_max_drawdown
}

pub fn impl_fast_sharpe_ratio(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    get_sharpe_ratio(summary, symbol, prices, interval)
}

pub fn impl_fast_sortino_ratio(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    get_sortino_ratio(summary, symbol, prices, interval)
}

pub fn impl_ratios(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> (f64, f64, f64) {
    let s = ExtendedStatistics::compose(summary, symbol, prices, interval);
    (s.annualized_return, s.sharpe_ratio, s.sortino_ratio)
}

// The same definition, once written as one pass and once phase by phase.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Asset {
    Base,
    Quote,
}

type Deltas = HashMap<Timestamp, Vec<(Asset, f64)>>;

/// What the positions add to the two holdings, by the period it happens in.
/// The changes of one event come in either order (`opened`, `closed`).
fn deltas(summary: &TradingSummary, interval: Interval, opened: bool, closed: bool) -> Deltas {
    let mut result = HashMap::new();
    for p in summary.positions.iter() {
        let p = position(p);
        let time = p.open.floor(interval);
        let at = result.entry(time).or_insert_with(Vec::new);
        if opened {
            at.push((Asset::Base, p.base_gain));
            at.push((Asset::Quote, -p.cost));
        } else {
            at.push((Asset::Quote, -p.cost));
            at.push((Asset::Base, p.base_gain));
        }
        let time = p.close.floor(interval);
        let at = result.entry(time).or_insert_with(Vec::new);
        if closed {
            at.push((Asset::Quote, p.gain));
            at.push((Asset::Base, -p.base_cost));
        } else {
            at.push((Asset::Base, -p.base_cost));
            at.push((Asset::Quote, p.gain));
        }
    }
    result
}

const ROOT_365: f64 = 19.104_973_174_542_8;

fn ratio(a: f64, b: f64) -> f64 {
    let r = a / b;
    if r.is_finite() {
        r
    } else {
        0.0
    }
}

pub fn spec_fast_sharpe_ratio(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sharpe_ratio(summary, symbol, prices, interval, false, false)
}

pub fn spec_fast_sharpe_ratio__2(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sharpe_ratio(summary, symbol, prices, interval, true, false)
}

pub fn spec_fast_sharpe_ratio__3(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sharpe_ratio(summary, symbol, prices, interval, false, true)
}

pub fn spec_fast_sharpe_ratio__4(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sharpe_ratio(summary, symbol, prices, interval, true, true)
}

fn fast_sharpe_ratio(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval, opened: bool, closed: bool) -> f64 {
    let deltas = deltas(summary, interval, opened, closed);
    let (start, end) = (summary.start.floor(interval), summary.end.floor(interval));
    let n = ((end - start).0 / interval.0) as usize;
    let base_prices = &prices[symbol.base_asset()];
    let quote_prices = &prices[symbol.quote_asset()];
    let (mut base, mut quote) = (0.0, summary.quote);
    let mut before = quote * quote_prices[0];
    let mut returns = Vec::new();
    let mut total = 0.0;
    for i in 0..n {
        if let Some(changes) = deltas.get(&(start + i as u64 * interval)) {
            for (asset, size) in changes {
                match asset {
                    Asset::Base => base += size,
                    Asset::Quote => quote += size,
                }
            }
        }
        let now = base * base_prices[i + 1] + quote * quote_prices[i + 1];
        let r = (now / before).ln();
        returns.push(r);
        total += r;
        before = now;
    }
    let mean = total / n as f64;
    let year = 365.0 * mean;
    if year.is_nan() || year == 0.0 {
        return 0.0;
    }
    let mut squares = 0.0;
    for r in &returns {
        squares += (mean - r) * (mean - r);
    }
    ratio(year, ROOT_365 * (squares / n as f64).sqrt())
}

pub fn spec_fast_sortino_ratio(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sortino_ratio(summary, symbol, prices, interval, false, false)
}

pub fn spec_fast_sortino_ratio__2(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sortino_ratio(summary, symbol, prices, interval, true, false)
}

pub fn spec_fast_sortino_ratio__3(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sortino_ratio(summary, symbol, prices, interval, false, true)
}

pub fn spec_fast_sortino_ratio__4(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> f64 {
    fast_sortino_ratio(summary, symbol, prices, interval, true, true)
}

fn fast_sortino_ratio(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval, opened: bool, closed: bool) -> f64 {
    let deltas = deltas(summary, interval, opened, closed);
    let (start, end) = (summary.start.floor(interval), summary.end.floor(interval));
    let n = ((end - start).0 / interval.0) as usize;
    let base_prices = &prices[symbol.base_asset()];
    let quote_prices = &prices[symbol.quote_asset()];
    let (mut base, mut quote) = (0.0, summary.quote);
    let mut before = quote * quote_prices[0];
    let mut returns = Vec::new();
    let mut total = 0.0;
    let mut losses = 0;
    let mut total_loss = 0.0;
    for i in 0..n {
        if let Some(changes) = deltas.get(&(start + i as u64 * interval)) {
            for (asset, size) in changes {
                match asset {
                    Asset::Base => base += size,
                    Asset::Quote => quote += size,
                }
            }
        }
        let now = base * base_prices[i + 1] + quote * quote_prices[i + 1];
        let r = (now / before).ln();
        returns.push(r);
        total += r;
        if r < 0.0 {
            losses += 1;
            total_loss += r;
        }
        before = now;
    }
    let year = 365.0 * (total / n as f64);
    if year.is_nan() || year == 0.0 {
        return 0.0;
    }
    let mean_loss = total_loss / losses as f64;
    let mut squares = 0.0;
    for r in &returns {
        if *r < 0.0 {
            squares += (mean_loss - r) * (mean_loss - r);
        }
    }
    ratio(year, ROOT_365 * (squares / losses as f64).sqrt())
}

fn mean(values: &[f64]) -> f64 {
    if values.is_empty() {
        return f64::NAN;
    }
    let mut total = 0.0;
    for v in values {
        total += v;
    }
    total / values.len() as f64
}

fn deviation(values: &[f64]) -> f64 {
    if values.is_empty() {
        return f64::NAN;
    }
    let m = mean(values);
    let mut squares = 0.0;
    for v in values {
        squares += (m - v) * (m - v);
    }
    (squares / values.len() as f64).sqrt()
}

fn values(base: f64, quote: f64) -> HashMap<Asset, f64> {
    let mut m = HashMap::new();
    m.insert(Asset::Base, base);
    m.insert(Asset::Quote, quote);
    m
}

/// The value of the portfolio at the start and after every period.
fn performance(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval, opened: bool, closed: bool) -> Vec<HashMap<Asset, f64>> {
    let base_prices = &prices[symbol.base_asset()];
    let quote_prices = &prices[symbol.quote_asset()];
    let deltas = deltas(summary, interval, opened, closed);
    let start = summary.start.floor(interval);
    let n = ((summary.end.floor(interval) - start).0 / interval.0) as usize;
    let (mut base, mut quote) = (0.0, summary.quote);
    let mut result = Vec::new();
    result.push(values(base * base_prices[0], quote * quote_prices[0]));
    for i in 0..n {
        if let Some(changes) = deltas.get(&(start + i as u64 * interval)) {
            for (asset, size) in changes {
                match asset {
                    Asset::Base => base += size,
                    Asset::Quote => quote += size,
                }
            }
        }
        result.push(values(base * base_prices[i + 1], quote * quote_prices[i + 1]));
    }
    result
}

pub fn spec_ratios(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> (f64, f64, f64) {
    ratios(summary, symbol, prices, interval, false, false)
}

pub fn spec_ratios__2(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> (f64, f64, f64) {
    ratios(summary, symbol, prices, interval, true, false)
}

pub fn spec_ratios__3(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> (f64, f64, f64) {
    ratios(summary, symbol, prices, interval, false, true)
}

pub fn spec_ratios__4(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval) -> (f64, f64, f64) {
    ratios(summary, symbol, prices, interval, true, true)
}

fn ratios(summary: &TradingSummary, symbol: &str, prices: &HashMap<String, Vec<f64>>, interval: Interval, opened: bool, closed: bool) -> (f64, f64, f64) {
    let mut values: Vec<f64> = Vec::new();
    for p in &performance(summary, symbol, prices, interval, opened, closed) {
        values.push(p.values().sum::<f64>());
    }
    let mut returns = Vec::new();
    for i in 0..values.len() - 1 {
        returns.push(values[i + 1] / values[i] - 1.0);
    }
    let mut logs = Vec::new();
    for r in &returns {
        logs.push((1.0 + r).ln());
    }
    let year = 365.0 * mean(&logs);
    if year.is_nan() || year == 0.0 {
        return (year, 0.0, 0.0);
    }
    let mut losses = Vec::new();
    for r in &logs {
        if *r < 0.0 {
            losses.push(*r);
        }
    }
    (year, ratio(year, ROOT_365 * deviation(&logs)), ratio(year, ROOT_365 * deviation(&losses)))
}

// --------------------------------------------------------------- definitions --
const YEAR_MS: u64 = 31_556_952_000;

fn annualized(duration: u64, value: f64) -> f64 {
    let years = duration as f64 / YEAR_MS as f64;
    if years == 0.0 {
        return 0.0;
    }
    let r = (1.0 + value).powf(1.0 / years) - 1.0;
    if r.is_nan() {
        0.0
    } else {
        r
    }
}

struct Pos {
    open: Timestamp,
    close: Timestamp,
    cost: f64,
    gain: f64,
    base_gain: f64,
    base_cost: f64,
    reason: CloseReason,
}

fn long(p: &LongPosition) -> Pos {
    let (open, close) = (&p.open_fills[0], &p.close_fills[0]);
    Pos {
        open: p.open_time,
        close: p.close_time,
        cost: open.quote,
        gain: close.quote - close.fee,
        base_gain: open.size - open.fee,
        base_cost: close.size,
        reason: p.close_reason,
    }
}

fn short(p: &ShortPosition) -> Pos {
    let (open, close) = (&p.open_fills[0], &p.close_fills[0]);
    Pos {
        open: p.open_time,
        close: p.close_time,
        cost: p.collateral,
        gain: p.collateral + open.quote - open.fee - close.quote,
        base_gain: p.borrowed,
        base_cost: p.borrowed,
        reason: p.close_reason,
    }
}

fn position(p: &Position) -> Pos {
    match p {
        Position::Long(p) => long(p),
        Position::Short(p) => short(p),
    }
}

pub fn impl_position(p: &Position) -> PositionStatistics {
    PositionStatistics::compose(p)
}

pub fn spec_position(p: &Position) -> PositionStatistics {
    let type_ = match p {
        Position::Long(_) => PositionType::Long,
        Position::Short(_) => PositionType::Short,
    };
    let p = position(p);
    let duration = p.close.0 - p.open.0;
    let profit = p.gain - p.cost;
    PositionStatistics {
        type_,
        open_time: p.open,
        close_time: p.close,
        cost: p.cost,
        gain: p.gain,
        profit,
        duration: Interval(duration),
        roi: profit / p.cost,
        annualized_roi: annualized(duration, profit / p.cost),
        close_reason: p.reason,
    }
}

pub fn impl_core(s: &TradingSummary) -> CoreStatistics {
    CoreStatistics::compose(s)
}

pub fn spec_core(s: &TradingSummary) -> CoreStatistics {
    let n = s.positions.len();
    let mut profit = 0.0;
    let mut held = 0;
    let (mut wins, mut losses) = (0, 0);
    let (mut stops, mut takes) = (0, 0);
    let mut top = s.quote;
    let (mut worst, mut drawdowns) = (0.0, 0.0);
    for p in &s.positions {
        let p = position(p);
        let gain = p.gain - p.cost;
        if gain >= 0.0 {
            wins += 1;
        } else {
            losses += 1;
        }
        match p.reason {
            CloseReason::StopLoss => stops += 1,
            CloseReason::TakeProfit => takes += 1,
            _ => {}
        }
        held += p.close.0 - p.open.0;
        profit += gain;
        let balance = s.quote + profit;
        top = f64::max(top, balance);
        let drawdown = 1.0 - balance / top;
        worst = f64::max(worst, drawdown);
        drawdowns += drawdown;
    }
    let duration = s.end.0 - s.start.0;
    let roi = profit / s.quote;
    CoreStatistics {
        start: s.start,
        end: s.end,
        duration: Interval(duration),
        cost: s.quote,
        gain: s.quote + profit,
        profit,
        roi,
        annualized_roi: annualized(duration, roi),
        mean_position_profit: if n == 0 { 0.0 } else { profit / n as f64 },
        mean_position_duration: Interval(if n == 0 { 0 } else { held / n as u64 }),
        max_drawdown: worst,
        mean_drawdown: if n == 0 { 0.0 } else { drawdowns / n as f64 },
        return_over_max_drawdown: if worst == 0.0 { 0.0 } else { roi / worst },
        num_positions: n as u32,
        num_positions_in_profit: wins,
        num_positions_in_loss: losses,
        num_stop_losses: stops,
        num_take_profits: takes,
    }
}
