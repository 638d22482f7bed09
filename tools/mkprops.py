#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


TR = "juno/src/trading/traders.rs"
TM = "juno/src/trading/mod.rs"
p("C01", "Every opened position is reported exactly once, closed, in order",
  "In a simulated run every position that is opened appears exactly once in the reported positions, in the order of closing, carrying the open time, open fill, and (for shorts) collateral and borrowed amount it was opened with. At most one position is open at any time, nothing is reported for a position that was never opened, and one still open when the candles end (or trading stops early) is reported as cancelled, at the close of the last candle that was processed.",
  ["inputs", "histories"], "all candle series, fees, filters, borrow terms and trading parameters; every prefix of a run, including runs stopped early because an order is too small",
  "The tests compare a few end results of fixed candle files; a position lost, duplicated or rewritten in one branch (early stop, reversal on one candle, end of data) is not on their path.",
  [TR, TM], [("tick: close then maybe open", TR), ("trade: close what is left after the loop", TR), ("OpenLongPosition::close / OpenShortPosition::close", TM)],
  [("open_position", "the position now open, if any", TR), ("summary.positions", "closed positions so far", TR)], ["TradingSummary.positions"])
p("C02", "The simulated cash balance and the reported profits agree at every step",
  "The quote balance a run trades with is conserved: while flat it equals the starting quote plus the profits of all positions reported so far, with each profit computed from the reported position itself. Opening or closing a position changes the balance by exactly the quote and fee amounts of the fill that is recorded for it, so the next position is sized from what the run really has.",
  ["inputs", "histories"], "all sequences of opens and closes, long and short, of any candle series and fee/filter/borrow terms",
  "Profit figures in the tests are read from the same summary; no test relates the balance that sizes the next position to the profits reported, over any history.",
  [TR, TM], [("state.quote updates in open/close", TR), ("LongPosition::profit, ShortPosition::profit", TM)],
  [("state.quote", "cash available", TR)], ["Position::profit"])
p("C03", "No look-ahead: fills use the current candle's close and its end time",
  "What a run does at a candle depends only on that candle and earlier ones, never on later ones. Each fill is priced at the close of the candle being processed and stamped with that candle's end (its time plus the trading interval), and the strategy, stop loss and take profit have seen every candle up to and including it exactly once before the decision. The reported start is the first candle's time, the reported end the last candle's end, and the reported starting quote the one given.",
  ["inputs", "histories"], "all candle series and positions in them",
  "Look-ahead or stale prices still give plausible results; fixed expected numbers would have to be recomputed by hand for every candle of every series.",
  [TR], [("tick", TR), ("trade", TR)], [], ["Position open/close times and fill prices"])
p("C04", "Trades follow the advice; exits are tried in a fixed order with true reasons",
  "A long is opened only while flat, on a changed advice to go long with longs enabled; a short likewise; the opposite advice or a liquidate advice closes an open position with reason strategy. Otherwise a stop loss hit on the position's side closes it as stop loss, otherwise a take profit hit closes it as take profit; a reversal closes and reopens on the same candle. Stop loss and take profit are restarted on every candle that finds the run flat (after closing, before or with opening) and on no other.",
  ["inputs", "histories"], "all sequences of advices and of stop loss and take profit states, all combinations of long and short being enabled",
  "The combinations of advice, open side, stop loss and take profit over time are far more than the two or three series tested; most wrong routings leave the tested totals unchanged.",
  [TR], [("tick", TR)], [("stop_loss, take_profit, changed", "per-run trackers", TR)], ["Position.close_reason"])
p("C05", "Order amounts respect balance, filters, precision, fees and borrow limits",
  "A long order's size is the balance divided by price, rounded down by the size filter, its quote rounded down and its fee (taken in the base asset) rounded half up to the asset precision. A short borrows at most the borrow limit and at most the collateral size times one less than the margin multiplier, and buys back the borrowed size plus interest for every started interest interval, grossed up for the fee. An order whose size rounds to zero is not placed and ends the run.",
  ["inputs", "configurations"], "all prices, balances, filters, fee rates, precisions, margin multipliers and borrow terms",
  "The tests use one set of filters and fees; a swapped precision, a fee on the wrong asset or a forgotten limit only shows with other configurations.",
  [TR, "juno/src/math.rs", "juno/src/filters.rs"], [("try_open_long_position, close_long_position, try_open_short_position, close_short_position", TR)], [], ["Position fills"])
SL = "juno/src/stop_loss/"
p("C06", "Stop losses trigger exactly at their thresholds since the position opened",
  "After a position opened at some candle, each stop loss kind reports an upside or downside hit exactly when the latest close has fallen to (risen to) its reference by the configured fraction: the opening close for the basic kind, the highest (lowest) close since the opening for the trailing kind, either of the two for the combined kind, one of the two as configured for the legacy kind (never when its threshold is zero), and never for the no-op. Candles before the opening have no influence.",
  ["inputs", "histories"], "all thresholds, all earlier histories, all candle series after the opening",
  "No test exercises stop losses over histories; a forgotten reset or swapped extreme shows only for particular price paths across several positions.",
  [SL + "basic.rs", SL + "trailing.rs", SL + "legacy.rs", SL + "basic_plus_trailing.rs", SL + "mod.rs"],
  [("clear / update / upside_hit / downside_hit", SL), ("StopLossParams::construct", SL + "mod.rs")], [], ["StopLoss trait"])
TP = "juno/src/take_profit/"
p("C07", "Take profits trigger exactly at their thresholds since the position opened",
  "After a position opened at some candle, each take profit kind reports an upside or downside hit exactly when the latest close has risen (fallen) from the opening close by the configured fraction. The trending kind interpolates that fraction between its two thresholds by the eased trend strength, which follows every candle from the start of the run, taking the strength at the opening when locked and the current one otherwise. A legacy take profit with threshold zero and the no-op never trigger.",
  ["inputs", "histories"], "all thresholds, easings, earlier histories and candle series after the opening",
  "No test exercises take profits over histories.",
  [TP + "basic.rs", TP + "legacy.rs", TP + "trending.rs", TP + "mod.rs", "juno/src/easing.rs", "juno/src/math.rs"],
  [("clear / update / upside_hit / downside_hit", TP), ("TakeProfitParams::construct", TP + "mod.rs")], [], ["TakeProfit trait"])
UT = "juno/src/utils/"
p("C08", "Advice filters: changed, persistence, mid-trend and combination",
  "The changed filter passes an advice only when it is not none and differs from the last one passed. The persistence filter passes an advice only once it has been given more than `level` times in a row, passing none (or, if so configured, the last passed one) before that, and is transparent for level zero. The mid-trend filter under the ignore policy withholds advice until it first differs from the very first one and is transparent otherwise; combining two advices gives none if either is none, their common value if equal, and liquidate otherwise.",
  ["inputs", "histories"], "all sequences of advices, all levels and policies",
  "The filters' tests run a few short sequences; filters are state machines whose errors need specific sequences.",
  [UT + "changed.rs", UT + "persistence.rs", UT + "mid_trend.rs", UT + "mod.rs"],
  [("update", UT), ("combine", UT + "mod.rs")], [], ["Changed::update, Persistence::update, MidTrend::update, combine"])
ST = "juno/src/strategies/"
p("C09", "Strategies advise by their rule, and only from mature inputs",
  "For every candle series each strategy's advice is the one its rule defines from its indicators: no advice before its inputs are mature, then long or short by its documented comparison (moving-average ordering, threshold, MACD against signal, channel break), keeping the previous advice when the rule says nothing, with filters and oscillators applied in order. Every indicator sees every candle once, with the price components it is defined on; the strategy kind named in the parameters is the one that runs.",
  ["inputs", "histories"], "all parameters of all strategy kinds, all candle series",
  "The strategy tests cover a handful of series with one parameter set each; a tie, a first mature candle or a combination of filters is not sampled.",
  [ST + f for f in ("double_ma.rs", "double_ma_2.rs", "double_ma_stoch.rs", "four_week_rule.rs", "macd.rs", "rsi.rs", "sig.rs", "sig_osc.rs", "single_ma.rs", "stoch.rs", "triple_ma.rs", "mod.rs")],
  [("Strategy::update", ST), ("StrategyParams::construct", ST + "mod.rs")], [], ["Signal::advice, Oscillator::overbought/oversold"])
IN = "juno/src/indicators/"
p("C10", "Indicators follow their defining recurrences for every series and period",
  "For every price series and valid period each indicator's output equals its definition: simple, exponential, double exponential, smoothed, Kaufman and Arnaud Legoux moving averages, MACD with signal and histogram, RSI, stochastic, directional movement, DI, DX and ADX. The definition covers the seeding of the first values, the window contents and the smoothing weights, and the moving average kind named in the parameters is the one that runs.",
  ["inputs", "histories"], "all price series of any length, all periods at least one",
  "The test data has one series per indicator with a single period; seeding, window wrap-around and ties are not sampled.",
  [IN + f for f in ("sma.rs", "ema.rs", "ema2.rs", "dema.rs", "smma.rs", "kama.rs", "alma.rs", "macd.rs", "rsi.rs", "stoch.rs", "dm.rs", "di.rs", "dx.rs", "adx.rs", "mod.rs")],
  [("update", IN), ("MAParams::construct", IN + "mod.rs")], [], ["MA::value and public value fields"])
p("C11", "An indicator or strategy reports maturity exactly when it has announced",
  "Every indicator and strategy announces the number of updates after which its output is meaningful, and reports itself mature from exactly that update on and stays mature for ever. Once mature, its output has been assigned from real inputs: an indicator never reports maturity while its value is still the initial placeholder, and a strategy never uses an indicator's value before that indicator is mature.",
  ["inputs", "histories"], "all periods and parameters, any number of updates",
  "The tests check values at the end of a series, not the first mature update for every period; an off-by-one at maturity changes only the first decisions.",
  [IN + "mod.rs", ST + "mod.rs"] + [IN + f for f in ("ema2.rs", "adx.rs", "stoch.rs", "macd.rs")] + [ST + "four_week_rule.rs", ST + "sig.rs"],
  [("maturity / mature", IN), ("maturity / mature", ST)], [], ["maturity(), mature()"])
GE = "juno/src/genetics/"
p("C12", "An optimisation is a function of its seed and inputs",
  "Two optimisations with the same seed, parameters and data give the same generations, also in different processes, and the seed reported is the one that reproduces them. Every random decision is drawn from the one generator seeded with it: none comes from the clock, thread timing, addresses, hash-map iteration order or an unseeded generator.",
  ["schedules", "inputs", "configurations"], "all seeds, thread schedules and processes (hash seeds), all parameter kinds",
  "Within one test process hash seeds and thread timing rarely differ; reproducibility across processes and schedules is not observable to a unit test.",
  [GE + "algorithm.rs", GE + "selection.rs", GE + "reinsertion.rs", "juno/src/easing.rs", "juno/src/trading/mod.rs"],
  [("StdRng::seed_from_u64", GE + "algorithm.rs"), ("rng threaded through generate/cross/mutate", "juno_derive/src/macros")], [], ["Evolution.seed, Evolution.generations"])
p("C13", "Parallel evaluation gives each individual the fitness of its own chromosome",
  "Evaluating a population writes to every individual, and only its fitness, the aggregate over all training symbols in their given order of the chosen statistic of a run with that individual's own chromosome, that symbol's own candles, fees, filters and borrow terms, and the configured quote. The result does not depend on how individuals are distributed over threads: evaluation reads shared data only and shares no mutable state.",
  ["schedules", "inputs"], "all populations, symbol lists, statistics and aggregations, all thread schedules",
  "Tests evaluate nothing in parallel with real data; a shared accumulator or mixed-up symbol data shows only under particular schedules or symbol sets.",
  ["juno/src/trading/evaluation.rs"], [("BasicEvaluation::evaluate, evaluate_symbol", "juno/src/trading/evaluation.rs")], [], ["Individual.fitness"])
p("C14", "Evolution bookkeeping: population size, evaluation, generation count",
  "Each generation's hall of fame is the first `hall_of_fame_size` individuals of a population of the requested size ordered by descending fitness, every one of them evaluated with its current chromosome. The number of generations reported is the number requested plus the initial one, each announced once with its own number, and every selected individual takes part in crossover and mutation.",
  ["inputs", "configurations", "histories"], "all population sizes from two, generation counts, hall of fame sizes and operator choices",
  "Optimiser tests use one small configuration; odd sizes, wrap-around pairing and stale fitness only show with others.",
  [GE + "algorithm.rs", GE + "reinsertion.rs", GE + "mod.rs"],
  [("evolve, run_generation, evaluate_and_sort_by_fitness_desc", GE + "algorithm.rs"), ("reinsert", GE + "reinsertion.rs")], [], ["Evolution.generations"])
p("C15", "Selection and reinsertion prefer the fitter individuals",
  "Elite selection picks the best individuals of the ordered parents, tournament selection the fittest of each sampled tournament, and both pick parents times rate of them. Elite reinsertion refills the population with the best parents (and the configured share of fresh individuals) so that the best parent always survives unless replaced by configuration; fitness reinsertion keeps the best offspring; pure reinsertion keeps all offspring. None of them alters the individuals it passes on.",
  ["inputs", "configurations", "histories"], "all populations, rates and population sizes",
  "The selection operators have no tests at all; picking the worst instead of the best still converges on toy problems.",
  [GE + "selection.rs", GE + "reinsertion.rs", GE + "mod.rs"],
  [("select", GE + "selection.rs"), ("reinsert", GE + "reinsertion.rs"), ("Individual::fitness_desc", GE + "mod.rs")], [], ["Selection::select, Reinsertion::reinsert"])
DE = "juno_derive/src/macros/"
p("C16", "Genes: each index addresses one gene; crossing swaps, mutating redraws it",
  "For every parameter type, the gene indexes below its length partition its parameters: crossing at an index exchanges exactly that gene between the two individuals and nothing else, mutating at an index redraws exactly that gene and nothing else. Crossing genes of different variants changes neither individual, and crossing the variant gene exchanges the variants whole; generating and mutating use the context's value for a gene fixed by the context and draw it otherwise.",
  ["inputs", "programs"], "all parameter types built with the derive macros, all indexes, contexts and pairs of individuals",
  "The derive tests cover two small sample types; the real parameter types, mixed variants and every index are not enumerated.",
  [DE + "derive_chromosome.rs", DE + "derive_chromosome_enum.rs", TM],
  [("generate / cross / mutate / len", DE), ("Chromosome for TraderParams", TM)], [], ["Chromosome trait"])
p("C17", "Every chromosome that can be generated can be constructed",
  "Every parameter set the optimiser can generate, cross or mutate (with an empty context) is accepted by the constructor it is meant for: values drawn satisfy all preconditions the constructors assert, such as ordered periods, non-zero periods and open threshold ranges.",
  ["inputs"], "all values the generators can produce, for every gene of every parameter type",
  "Generators are random; a boundary value that violates an assertion occurs in a tiny fraction of draws.",
  [ST + "mod.rs", IN + "mod.rs", SL + "mod.rs", TP + "mod.rs"],
  [("field generator functions", ST), ("assert! in constructors", IN)], [], ["construct() never panics on generated parameters"])
SA = "juno/src/statistics/"
p("C18", "Fast fitness statistics equal the reported statistics",
  "For every trading summary and price table, the profit, return over maximum drawdown, Sharpe ratio and Sortino ratio used as optimisation fitness are the same quantities as the ones reported in the full statistics of that summary.",
  ["inputs"], "all summaries (any number of long and short positions), prices, symbols and intervals",
  "One two-position summary is compared in the tests; shorts, empty summaries and zero-variance series are not.",
  [SA + "core.rs", SA + "extended.rs"], [("get_profit, get_return_over_max_drawdown", SA + "core.rs"), ("get_sharpe_ratio, get_sortino_ratio", SA + "extended.rs")], [], ["Statistics, fitness"])
p("C19", "Reported statistics follow their definitions over the positions",
  "Core statistics count every position once (in profit or in loss, by close reason), sum the profits, and derive gain, return, means, and drawdowns from the running balance and its running maximum; drawdown of an unprofitable prefix counts from the starting quote. A position's own statistics are those of that position: cost, gain, profit, duration, return and close reason.",
  ["inputs"], "all summaries, including empty ones",
  "Two hand-written positions are tested.",
  [SA + "core.rs", SA + "mod.rs", TM], [("CoreStatistics::compose", SA + "core.rs"), ("PositionStatistics::compose", SA + "mod.rs")], [], ["CoreStatistics, PositionStatistics"])
p("C20", "Risk ratios are finite for every run",
  "Computing statistics or fitness never fails and never yields a non-finite ratio because of the shape of the returns: a run without trades, with constant returns (zero volatility) or without losing days gives ratio zero instead of an infinity, a NaN or a panic.",
  ["inputs"], "all summaries and price tables, including flat prices and empty or all-winning runs",
  "The degenerate return series are exactly those a sample test does not contain.",
  [SA + "extended.rs", "juno/src/math.rs"], [("calculate_statistics, get_sharpe_ratio, get_sortino_ratio", SA + "extended.rs")], [], ["sharpe_ratio, sortino_ratio, fitness"])
PR = "juno/src/primitives/"
p("C21", "Time rounding: floor and ceil give the enclosing interval boundaries",
  "Flooring a timestamp to an interval gives the greatest boundary of that interval not after it, and ceiling the least one not before it, so both leave a boundary unchanged; boundaries of intervals below a week are multiples since the epoch, weeks start on Mondays (floor: from the first Monday of the epoch on) and months on the first day at midnight UTC. The underlying multiple rounding is exact for all 64-bit values.",
  ["inputs"], "all timestamps and supported intervals",
  "Seven example timestamps are tested, none of them on a month boundary or in the first week after the epoch.",
  [PR + "timestamp.rs", "juno/src/math.rs"], [("Timestamp::floor, Timestamp::ceil", PR + "timestamp.rs"), ("ceil_multiple, floor_multiple and offset variants", "juno/src/math.rs")], [], ["Timestamp::floor/ceil, math::*_multiple*"])
p("C22", "Malformed time strings are rejected with an error, never accepted or a crash",
  "Parsing an interval or timestamp from text or JSON gives the value it denotes or a parse error. Input that is empty, incomplete, has unknown units, trailing garbage or overflowing numbers is an error, not a zero, a partial value or a panic.",
  ["inputs"], "all strings",
  "Only well-formed strings are tested.",
  [PR + "interval.rs", PR + "timestamp.rs"], [("FromStr for Interval / Timestamp", PR), ("Visitor::visit_str", PR)], [], ["from_str, Deserialize"])
p("C23", "Order size and price filters: bounds, steps and disabled (zero) limits",
  "Rounding an amount down by a filter gives zero when it is below the minimum and otherwise the largest multiple of the step not above the amount and not above the maximum; a zero maximum or zero step means no such limit, for rounding up and for validity checks just as for rounding down.",
  ["inputs", "configurations"], "all amounts and filter settings, including disabled ones",
  "The filters have no tests.",
  ["juno/src/filters.rs"], [("Size::round_down/round_up/valid, Price::round_down/valid", "juno/src/filters.rs")], [], ["Size, Price"])
p("C24", "Candle aggregation keeps first open, extremes, last close and total volume",
  "Aggregating candles into a larger interval emits, once per larger interval that has candles, a candle with the first open, the maximum high, the minimum low, the last close and the summed volume of exactly the candles of that interval, at its start, no later than the first candle after it. With aggregation off candles pass through unchanged.",
  ["inputs", "histories"], "all candle series including ones with missing candles",
  "The unit tests cover five short gap patterns.",
  [UT + "buffered_candle.rs", "juno/src/lib.rs"], [("BufferedCandle::buffer", UT + "buffered_candle.rs"), ("AddAssign for Candle", "juno/src/lib.rs")], [], ["BufferedCandle::buffer"])
AX = "juno_axum/src/"
p("C25", "Every failing upstream request fails the call that needed it",
  "Every request to the upstream data service has its HTTP status checked before its body is used: a client error is returned with the upstream message and any other error status is an error too, never parsed as data. The HTTP handlers propagate every such failure to the caller as an error response rather than continuing with missing data.",
  ["fault_sequences", "inputs"], "all upstream responses and failures at every request",
  "The tests never contact an upstream service.",
  ["juno/src/clients/juno_core.rs", AX + "exchange.rs", AX + "routes/backtest.rs", AX + "routes/optimize.rs", AX + "error.rs"],
  [("error_for_juno_status", "juno/src/clients/juno_core.rs"), ("? in handlers", AX)], [], ["Result of client calls; HTTP responses"])
p("C26", "Market data reaches the run of the symbol and interval it was fetched for",
  "Candles fetched for a symbol and interval are stored and looked up under exactly that symbol and interval, whatever the number of symbols and intervals; each backtest, training or reporting run uses the candles, fees, filters and borrow terms of its own symbol and the interval of its own parameters. The requests name the exchange, range and assets the caller asked for.",
  ["inputs", "configurations"], "all lists of symbols and intervals",
  "One 2x3 matrix of identical values is tested, which cannot tell rows from columns.",
  [AX + "exchange.rs", AX + "routes/backtest.rs", AX + "routes/optimize.rs", "juno/src/trading/evaluation.rs"],
  [("map_of_maps, gather_exchange_info_candles_prices", AX + "exchange.rs"), ("TradeInput construction", AX + "routes")], [], ["TradeInput, request bodies"])
p("C27", "Optimising, validating and backtesting run under the same trading conditions",
  "The run that gives an individual its fitness, the run behind its reported statistics and a backtest of the same parameters use the same trading conditions: margin multiplier, sides enabled, starting quote, and the same kind of fee, filter and borrow data, so reported statistics are those of the run that was optimised. Statistics use the same interval everywhere, matching the interval of the prices fetched.",
  ["inputs", "configurations"], "all requests",
  "No test runs the optimiser and a backtest on the same parameters.",
  ["juno/src/trading/evaluation.rs", AX + "routes/backtest.rs", AX + "routes/optimize.rs", AX + "exchange.rs"],
  [("TradeInput construction at its three sites", "juno/src/trading/evaluation.rs")], [], ["TradeInput"])
p("C28", "Reported generations carry their true numbers and only improvements",
  "The optimiser's answer lists, in order, exactly the generations whose hall of fame improved on the best fitness seen before at some rank, each with the number of the generation it really is, with its individuals' fitness and parameters and the statistics of every training and validation symbol, together with the seed used.",
  ["inputs", "histories"], "all sequences of generations and fitness values",
  "The HTTP layer has no tests beyond one helper.",
  [AX + "routes/optimize.rs"], [("par_optimize", AX + "routes/optimize.rs")], [], ["OptimizeResult"])
p("C29", "Closed enumerations, tables and codes agree with each other",
  "Tables that describe the same set agree: every easing has a curve and can be drawn, interval units and their factors are unique and ordered, moving-average codes are the checksums of their names and select that moving average, and the lists of statistics and aggregations offered contain every one of them. Every kind of parameters is constructed as the kind it names.",
  ["programs", "configurations"], "all entries of all tables",
  "Adding, removing or swapping one entry is invisible unless that very entry is tested.",
  ["juno/src/easing.rs", PR + "interval.rs", IN + "mod.rs", "juno/src/trading/evaluation.rs"],
  [("EASINGS, EASING_CHOICES", "juno/src/easing.rs"), ("INTERVAL_FACTORS", PR + "interval.rs"), ("adler32 constants, ma_from_adler32", IN + "mod.rs")], [], ["tween, Interval, ma_from_adler32, values()"])
p("C30", "Spans: merging, gaps and paging cover exactly the requested range",
  "Merging adjacent spans joins exactly those that touch and keeps the rest in order; the missing spans reported for a range are exactly the parts of it not covered by the existing ones; pages of a range are consecutive, at most `limit` intervals long, and cover it exactly from start to end.",
  ["inputs"], "all ordered span lists and ranges",
  "Three examples are tested, paging not at all.",
  [UT + "mod.rs"], [("merge_adjacent_spans, generate_missing_spans, page", UT + "mod.rs")], [], ["utils functions"])
p("C31", "Shared trait objects are safe to share between threads",
  "Wherever the code promises by hand that a type may be sent to or shared between threads, everything it contains may be: its components are themselves safe to send and share, so the promise cannot hide a data race when individuals are evaluated in parallel.",
  ["schedules", "programs"], "all types with hand-written thread-safety promises, all schedules",
  "A data race needs a particular schedule; the compiler does not check hand-written promises.",
  [ST + "double_ma.rs", ST + "double_ma_2.rs", ST + "single_ma.rs", ST + "triple_ma.rs"],
  [("unsafe impl Send/Sync", ST)], [], ["type checker"])
p("C32", "Indicator outputs are numerically accurate for extreme inputs",
  "For every finite price series the floating-point outputs of indicators and statistics stay within a small relative error of the exact value, also for very large or very small prices and long series.",
  ["inputs"], "all finite inputs", "Rounding error accumulates over long series.",
  [IN + "sma.rs", SA + "core.rs"], [("running sums", IN + "sma.rs")], [], [])
p("C33", "Textual forms round-trip",
  "Formatting an interval or timestamp and parsing the text back gives the same value.",
  ["inputs"], "all 64-bit values", "Four values are tested.",
  [PR + "interval.rs", PR + "timestamp.rs"], [("Display and FromStr", PR)], [], [])
p("C34", "More generations never make the best reported individual worse",
  "With elite reinsertion the best fitness over all generations never decreases and tends to improve with the number of generations.",
  ["histories", "inputs"], "all seeds and fitness landscapes", "Convergence is statistical.",
  [GE + "algorithm.rs"], [("evolve", GE + "algorithm.rs")], [], [])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
