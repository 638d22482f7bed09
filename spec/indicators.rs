//! Reference definitions for the indicators, stated over the whole series.
//! A composed indicator is defined over the indicators it is composed of.
use bounded_vec_deque::BoundedVecDeque;
use juno::indicators::*;

fn feed(m: &mut dyn MA, prices: &[f64]) {
    for &p in prices {
        m.update(p);
    }
}

// ---------------------------------------------------------------- simple --
pub fn impl_sma(p: &SmaParams, prices: &[f64]) -> f64 {
    let mut m = Sma::new(p);
    feed(&mut m, prices);
    m.value()
}

/// Mean of the last `period` prices (zero standing in for missing ones).
pub fn spec_sma(p: &SmaParams, prices: &[f64]) -> f64 {
    assert!(p.period > 0);
    let n = p.period as usize;
    let mut window = vec![0.0; n];
    let mut sum = 0.0;
    let mut value = 0.0;
    for (k, &price) in prices.iter().enumerate() {
        let oldest = window[k % n];
        window[k % n] = price;
        sum += price - oldest;
        value = sum / n as f64;
    }
    value
}

// ----------------------------------------------------------- exponential --
pub fn impl_ema(p: &EmaParams, prices: &[f64]) -> f64 {
    assert!(p.period > 1);
    let mut m = Ema::new(p);
    feed(&mut m, prices);
    m.value()
}

pub fn impl_ema_period_one(prices: &[f64]) -> f64 {
    let mut m = Ema::new(&EmaParams { period: 1, smoothing: None });
    feed(&mut m, prices);
    m.value()
}

/// The average of one price is that price.
pub fn spec_ema_period_one(prices: &[f64]) -> f64 {
    let mut v = 0.0;
    for &price in prices {
        v = price;
    }
    v
}

/// First price, then a weighted mean of the next price and the previous value.
pub fn spec_ema(p: &EmaParams, prices: &[f64]) -> f64 {
    assert!(p.period > 1);
    let a = match p.smoothing {
        Some(a) => {
            assert!(a > 0.0 && a <= 1.0);
            a
        }
        None => 2.0 / (p.period as f64 + 1.0),
    };
    let mut v = 0.0;
    for (k, &price) in prices.iter().enumerate() {
        // With period 1 the smoothing is 1 unless it is given.
        v = if k == 0 {
            price
        } else {
            a * price + (1.0 - a) * v
        };
    }
    v
}

pub fn impl_ema2(p: &Ema2Params, prices: &[f64]) -> f64 {
    let mut m = Ema2::new(p);
    feed(&mut m, prices);
    m.value()
}

/// Exponential average seeded with the simple average of the first period.
pub fn spec_ema2(p: &Ema2Params, prices: &[f64]) -> f64 {
    let n = p.period;
    let a = 2.0 / (n as f64 + 1.0);
    let mut sma = Sma::new(&SmaParams { period: n });
    let mut v = 0.0;
    let mut seen = 0u32;
    for &price in prices {
        seen += 1;
        if seen <= n {
            sma.update(price);
        }
        if seen == n {
            v = sma.value;
        } else if seen > n {
            v = a * price + (1.0 - a) * v;
        }
    }
    v
}

pub fn impl_dema(p: &DemaParams, prices: &[f64]) -> f64 {
    let mut m = Dema::new(p);
    feed(&mut m, prices);
    m.value()
}

/// Twice the average minus the average of the average, from 2*period - 1 on.
pub fn spec_dema(p: &DemaParams, prices: &[f64]) -> f64 {
    let n = p.period;
    let mut inner = Ema::new(&EmaParams { period: n, smoothing: None });
    let mut outer = Ema::new(&EmaParams { period: n, smoothing: None });
    let mut v = 0.0;
    let mut seen = 0u32;
    for &price in prices {
        seen = u32::min(seen + 1, 2 * n - 1);
        inner.update(price);
        if seen <= n {
            outer.update(price);
        }
        if seen >= n {
            outer.update(inner.value);
        }
        if seen >= 2 * n - 1 {
            v = 2.0 * inner.value - outer.value;
        }
    }
    v
}

pub fn impl_smma(p: &SmmaParams, prices: &[f64]) -> f64 {
    let mut m = Smma::new(p);
    feed(&mut m, prices);
    m.value()
}

/// Simple average of the first period, then (value * (n - 1) + price) / n.
pub fn spec_smma(p: &SmmaParams, prices: &[f64]) -> f64 {
    let n = p.period;
    let w = n as f64;
    let mut sma = Sma::new(&SmaParams { period: n });
    let mut v = 0.0;
    let mut seen = 0u32;
    for &price in prices {
        seen += 1;
        if seen <= n {
            sma.update(price);
        }
        if seen == n {
            v = sma.value;
        } else if seen > n {
            v = (v * (w - 1.0) + price) / w;
        }
    }
    v
}

// ---------------------------------------------------------------- kaufman --
pub fn impl_kama(p: &KamaParams, prices: &[f64]) -> f64 {
    let mut m = Kama::new(p);
    feed(&mut m, prices);
    m.value()
}

/// Smoothing from the efficiency ratio over the last `period` prices, between
/// the constants of a 2 and a 30 period average.
pub fn spec_kama(p: &KamaParams, prices: &[f64]) -> f64 {
    assert!(p.period > 0);
    let n = p.period;
    let mut window = BoundedVecDeque::new(n as usize);
    let mut moves = BoundedVecDeque::new(n as usize);
    let mut v = 0.0;
    let mut seen = 0u32;
    for &price in prices {
        seen += 1;
        if window.len() > 0 {
            let last: f64 = window[window.len() - 1];
            moves.push_back(f64::abs(price - last));
        }
        if seen == n {
            v = price;
        } else if seen > n {
            let path: f64 = moves.iter().sum();
            let er = if path == 0.0 { 1.0 } else { f64::abs(price - window[0]) / path };
            let (fast, slow) = (2.0 / 3.0, 2.0 / 31.0);
            let sc = f64::powf(slow + er * (fast - slow), 2.0);
            v = v + sc * (price - v);
        }
        window.push_back(price);
    }
    v
}

// --------------------------------------------------------- arnaud legoux --
pub fn impl_alma(p: &AlmaParams, prices: &[f64]) -> f64 {
    let mut m = Alma::new(p);
    feed(&mut m, prices);
    m.value()
}

/// Gaussian weights around offset * (period - 1), normalised to sum one.
pub fn spec_alma(p: &AlmaParams, prices: &[f64]) -> f64 {
    assert!(p.period > 0);
    assert!(p.offset > 0.0 && p.offset < 1.0);
    let n = p.period;
    let sigma = match p.sigma {
        Some(s) => {
            assert!(s > 0);
            s
        }
        None => (n as f64 / 1.5).floor() as u32,
    };
    let m = (p.offset * (n - 1) as f64).floor();
    let s = n as f64 / sigma as f64;
    let raw: Vec<f64> = (0..n).map(|i| (-((i as f64 - m) * (i as f64 - m)) / (2.0 * s * s)).exp()).collect();
    let total: f64 = raw.iter().sum();
    let weights: Vec<f64> = raw.iter().map(|v| v / total).collect();
    let mut window = BoundedVecDeque::new(n as usize);
    let mut v = 0.0;
    let mut seen = 0u32;
    for &price in prices {
        seen += 1;
        window.push_back(price);
        if seen >= n {
            v = window.iter().zip(weights.iter()).map(|(p, w)| p * w).sum();
        }
    }
    v
}

// -------------------------------------------------------------------- macd --
pub fn impl_macd(short: u32, long: u32, signal: u32, prices: &[f64]) -> (f64, f64, f64) {
    let mut m = Macd::new(short, long, signal);
    for &p in prices {
        m.update(p);
    }
    (m.value, m.signal, m.histogram)
}

/// Difference of two averages, its average, and the difference of both.
pub fn spec_macd(short: u32, long: u32, signal: u32, prices: &[f64]) -> (f64, f64, f64) {
    assert!(long >= short);
    let usual = short == 12 && long == 26;
    let mut s = Ema::new(&EmaParams { period: short, smoothing: if usual { Some(0.15) } else { None } });
    let mut l = Ema::new(&EmaParams { period: long, smoothing: if usual { Some(0.075) } else { None } });
    let mut g = Ema::new(&EmaParams { period: signal, smoothing: None });
    let (mut value, mut sig, mut hist) = (0.0, 0.0, 0.0);
    for &price in prices {
        s.update(price);
        l.update(price);
        if s.mature() && l.mature() {
            value = s.value - l.value;
            g.update(value);
            sig = g.value;
            hist = value - sig;
        }
    }
    (value, sig, hist)
}

// --------------------------------------------------------------------- rsi --
pub fn impl_rsi(period: u32, prices: &[f64]) -> f64 {
    let mut m = Rsi::new(period);
    for &p in prices {
        m.update(p);
    }
    m.value
}

/// 100 - 100 / (1 + up / down) over smoothed up and down moves; 100 without
/// down moves, 0 without any.
pub fn spec_rsi(period: u32, prices: &[f64]) -> f64 {
    let mut down = Smma::new(&SmmaParams { period });
    let mut up = Smma::new(&SmmaParams { period });
    let mut v = 0.0;
    let mut last = 0.0;
    let mut seen = 0u32;
    for &price in prices {
        seen = u32::min(seen + 1, period + 1);
        if seen > 1 {
            up.update(if price > last { price - last } else { 0.0 });
            down.update(if price < last { last - price } else { 0.0 });
            if seen > period {
                v = if down.value == 0.0 {
                    if up.value == 0.0 { 0.0 } else { 100.0 }
                } else {
                    100.0 - 100.0 / (1.0 + up.value / down.value)
                };
            }
        }
        last = price;
    }
    v
}

// ------------------------------------------------------------------- stoch --
pub fn impl_stoch(k: u32, ks: u32, ds: u32, bars: &[(f64, f64, f64)]) -> (f64, f64) {
    assert!(k > 0 && ks + ds > 1);
    let mut m = Stoch::new(k, ks, ds);
    for &(h, l, c) in bars {
        m.update(h, l, c);
    }
    (m.k, m.d)
}

/// Position of the close within the range of the last k bars, averaged twice.
pub fn spec_stoch(k: u32, ks: u32, ds: u32, bars: &[(f64, f64, f64)]) -> (f64, f64) {
    assert!(k > 0 && ks + ds > 1);
    let mut highs = BoundedVecDeque::new(k as usize);
    let mut lows = BoundedVecDeque::new(k as usize);
    let mut first = Sma::new(&SmaParams { period: ks });
    let mut second = Sma::new(&SmaParams { period: ds });
    let (mut vk, mut vd) = (0.0, 0.0);
    let mut seen = 0u32;
    let all = k + ks - 1 + ds - 1;
    for &(h, l, c) in bars {
        seen = u32::min(seen + 1, all);
        highs.push_back(h);
        lows.push_back(l);
        if seen >= k {
            let high = highs.iter().cloned().fold(f64::MIN, f64::max);
            let low = lows.iter().cloned().fold(f64::MAX, f64::min);
            first.update(if high == low { 0.0 } else { 100.0 * (c - low) / (high - low) });
            if seen >= k + ks - 1 {
                second.update(first.value);
            }
            if seen >= all {
                vk = first.value;
                vd = second.value;
            }
        }
    }
    (vk, vd)
}

// ---------------------------------------------------- directional movement --
pub fn impl_dm(period: u32, bars: &[(f64, f64)]) -> (f64, f64, f64, f64) {
    assert!(period > 0);
    let mut m = DM::new(period);
    for &(h, l) in bars {
        m.update(h, l);
    }
    (m.plus_value, m.minus_value, m.diff(), m.sum())
}

/// Up and down move of one bar: the larger one if positive, the other zero.
fn direction(ph: f64, pl: f64, h: f64, l: f64) -> (f64, f64) {
    let mut plus = h - ph;
    let mut minus = pl - l;
    if plus < 0.0 {
        plus = 0.0;
    } else if plus > minus {
        minus = 0.0;
    }
    if minus < 0.0 {
        minus = 0.0;
    } else if minus > plus {
        plus = 0.0;
    }
    (plus, minus)
}

/// Sum of the moves of the first period, then Wilder smoothing.
pub fn spec_dm(period: u32, bars: &[(f64, f64)]) -> (f64, f64, f64, f64) {
    assert!(period > 0);
    let per = (period as f64 - 1.0) / period as f64;
    let (mut up, mut down) = (0.0, 0.0);
    let (mut plus, mut minus) = (0.0, 0.0);
    let (mut ph, mut pl) = (0.0, 0.0);
    let mut seen = 0u32;
    for &(h, l) in bars {
        seen += 1;
        let (dp, dm) = direction(ph, pl, h, l);
        if seen > period {
            up = up * per + dp;
            down = down * per + dm;
        } else if seen >= 2 {
            up += dp;
            down += dm;
        }
        if seen >= period {
            plus = up;
            minus = down;
        }
        ph = h;
        pl = l;
    }
    (plus, minus, f64::abs(plus - minus), plus + minus)
}

pub fn impl_di(period: u32, bars: &[(f64, f64, f64)]) -> (f64, f64) {
    assert!(period > 0);
    let mut m = DI::new(period);
    for &(h, l, c) in bars {
        m.update(h, l, c);
    }
    (m.plus_value, m.minus_value)
}

/// Greatest of the bar's range and its distances from the previous close.
fn true_range(pc: f64, h: f64, l: f64) -> f64 {
    let a = (h - pc).abs();
    let b = (l - pc).abs();
    let mut v = h - l;
    if v < a {
        v = a;
    }
    if v < b {
        v = b;
    }
    v
}

/// Directional movement as a percentage of the average true range.
pub fn spec_di(period: u32, bars: &[(f64, f64, f64)]) -> (f64, f64) {
    assert!(period > 0);
    let mut dm = DM::new(period);
    let per = (period as f64 - 1.0) / period as f64;
    let mut atr = 0.0;
    let mut pc = 0.0;
    let (mut plus, mut minus) = (0.0, 0.0);
    let mut seen = 0u32;
    for &(h, l, c) in bars {
        seen += 1;
        dm.update(h, l);
        let tr = true_range(pc, h, l);
        if seen > period {
            atr = atr * per + tr;
        } else if seen >= 2 {
            atr += tr;
        }
        if seen >= period {
            plus = 100.0 * dm.plus_value / atr;
            minus = 100.0 * dm.minus_value / atr;
        }
        pc = c;
    }
    (plus, minus)
}

pub fn impl_dx(period: u32, bars: &[(f64, f64)]) -> f64 {
    assert!(period > 0);
    let mut m = DX::new(period);
    for &(h, l) in bars {
        m.update(h, l);
    }
    m.value
}

/// Difference of the directional movements relative to their sum, in
/// percent; zero without any movement.
pub fn spec_dx(period: u32, bars: &[(f64, f64)]) -> f64 {
    assert!(period > 0);
    let mut dm = DM::new(period);
    let mut v = 0.0;
    let mut seen = 0u32;
    for &(h, l) in bars {
        seen += 1;
        dm.update(h, l);
        if seen >= period {
            v = if dm.sum() == 0.0 { 0.0 } else { 100.0 * dm.diff() / dm.sum() };
        }
    }
    v
}

pub fn impl_adx(period: u32, bars: &[(f64, f64)]) -> f64 {
    assert!(period > 0);
    let mut m = Adx::new(period);
    for &(h, l) in bars {
        m.update(h, l);
    }
    m.value
}

/// Smoothed directional index, from the first meaningful value on.
pub fn spec_adx(period: u32, bars: &[(f64, f64)]) -> f64 {
    assert!(period > 0);
    let mut dx = DX::new(period);
    let mut smooth = Smma::new(&SmmaParams { period });
    let mut v = 0.0;
    for &(h, l) in bars {
        dx.update(h, l);
        if dx.mature() {
            smooth.update(dx.value);
            v = smooth.value;
        }
    }
    v
}

// --------------------------------------------------------------- maturity --
// Every indicator is mature exactly from the announced number of updates on.
// `impl_*` reports (announced, mature), `spec_*` what mature has to be.
macro_rules! ma_maturity {
    ($impl:ident, $spec:ident, $params:ty, $ind:ident, $p:ident, $n:expr) => {
        pub fn $impl($p: &$params, prices: &[f64]) -> (u32, bool) {
            assert!($p.period > 0);
            let mut m = $ind::new($p);
            let announced = m.maturity();
            feed(&mut m, prices);
            (announced, m.mature())
        }

        pub fn $spec($p: &$params, prices: &[f64]) -> (u32, bool) {
            assert!($p.period > 0);
            let m = $ind::new($p);
            let n: u32 = $n;
            (n, prices.len() >= n as usize)
        }
    };
}
ma_maturity!(impl_mat_sma, spec_mat_sma, SmaParams, Sma, p, p.period);
ma_maturity!(impl_mat_ema, spec_mat_ema, EmaParams, Ema, p, p.period);
ma_maturity!(impl_mat_ema2, spec_mat_ema2, Ema2Params, Ema2, p, p.period);
ma_maturity!(impl_mat_dema, spec_mat_dema, DemaParams, Dema, p, 2 * p.period - 1);
ma_maturity!(impl_mat_smma, spec_mat_smma, SmmaParams, Smma, p, p.period + 1);
ma_maturity!(impl_mat_kama, spec_mat_kama, KamaParams, Kama, p, p.period + 1);
ma_maturity!(impl_mat_alma, spec_mat_alma, AlmaParams, Alma, p, p.period);

macro_rules! bar_maturity {
    ($impl:ident, $spec:ident, $ind:ident, ($($a:ident),*), ($($v:expr),*), ($($f:ident),*), $pre:expr, $n:expr) => {
        pub fn $impl($($a: u32,)* bars: &[(f64, f64, f64)]) -> (u32, bool) {
            assert!($pre);
            let mut m = $ind::new($($v),*);
            let announced = m.maturity();
            for &(x, y, z) in bars {
                let bar = Bar { x, y, z };
                m.update($(bar.$f),*);
            }
            (announced, m.mature())
        }

        pub fn $spec($($a: u32,)* bars: &[(f64, f64, f64)]) -> (u32, bool) {
            assert!($pre);
            let _ = $ind::new($($v),*);
            let n: u32 = $n;
            (n, bars.len() >= n as usize)
        }
    };
}
struct Bar {
    x: f64,
    y: f64,
    z: f64,
}
bar_maturity!(impl_mat_rsi, spec_mat_rsi, Rsi, (p), (p), (x), p > 0, p + 1);
bar_maturity!(impl_mat_macd, spec_mat_macd, Macd, (s, more, g), (s, s + more, g), (x), s > 0 && s + more > 1 && g > 0, s + more + g - 1);
bar_maturity!(impl_mat_stoch, spec_mat_stoch, Stoch, (k, ks, ds), (k, ks, ds), (x, y, z), k > 0 && ks > 0 && ds > 0, k + ks + ds - 2);
bar_maturity!(impl_mat_dm, spec_mat_dm, DM, (p), (p), (x, y), p > 0, p);
bar_maturity!(impl_mat_di, spec_mat_di, DI, (p), (p), (x, y, z), p > 0, p);
bar_maturity!(impl_mat_dx, spec_mat_dx, DX, (p), (p), (x, y), p > 0, p);
bar_maturity!(impl_mat_adx, spec_mat_adx, Adx, (p), (p), (x, y), p > 1, 2 * p);
bar_maturity!(impl_mat_adx_one, spec_mat_adx_one, Adx, (), (1), (x, y), true, 2);
