//! The optimiser's and the backtester's runs and what they answer.
use futures::future::{try_join3, try_join_all};
use itertools::Itertools;
use juno::{
    clients::juno_core,
    genetics::{crossover, mutation, reinsertion, selection, Chromosome, Evaluation, GeneticAlgorithm, Individual},
    statistics::{self, Statistics},
    trading::{
        trade, BasicEvaluation, BasicEvaluationInput, EvaluationAggregation, EvaluationStatistic, TradeInput,
        TradingParams, TradingParamsContext,
    },
    symbol, Candle, CandleType, ExchangeInfo, Interval, SymbolExt, Timestamp,
};
use axum::{extract::State, http::StatusCode, Json};
use std::{collections::HashMap, sync::Arc};

type Candles = HashMap<String, HashMap<Interval, Vec<Candle>>>;
type Prices = HashMap<String, Vec<f64>>;

pub mod backtest {
    pub(super) use super::*;
    struct Params {
        pub exchange: String,
        pub symbols: Vec<String>,
        pub start: Timestamp,
        pub end: Timestamp,
        pub quote: f64,
        pub trading: TradingParams,
    }

    /// What is gathered for a backtest.
    async fn spec_data(
        State(client): State<Arc<juno_core::Client>>,
        Json(args): Json<Params>,
    ) -> Result<(ExchangeInfo, Candles, Prices, Vec<String>), Error> {
        let symbols: Vec<String> = args.symbols.into_iter().unique().collect();
        let intervals = [args.trading.trader.interval];
        let (info, candles, prices) = gather(&client, &args.exchange, &symbols, &intervals, args.start, args.end).await?;
        Ok((info, candles, prices, symbols))
    }

    async fn spec_post(
        State(client): State<Arc<juno_core::Client>>,
        Json(args): Json<Params>,
    ) -> Result<(StatusCode, Json<BacktestResult>), Error> {
        let symbols: Vec<String> = args.symbols.into_iter().unique().collect();
        let intervals = [args.trading.trader.interval];
        let (info, candles, prices) = gather(&client, &args.exchange, &symbols, &intervals, args.start, args.end).await?;
        let symbol_stats = symbols
            .iter()
            .map(|symbol| (symbol.clone(), run(&args.trading, &info, &candles, symbol, args.quote, &prices)))
            .collect();
        Ok((StatusCode::OK, Json(BacktestResult { symbol_stats })))
    }
}

struct Params {
    population_size: usize,
    generations: usize,
    hall_of_fame_size: usize,
    seed: Option<u64>,
    exchange: String,
    start: Timestamp,
    end: Timestamp,
    quote: f64,
    training_symbols: Vec<String>,
    validation_symbols: Vec<String>,
    evaluation_statistic: EvaluationStatistic,
    evaluation_aggregation: EvaluationAggregation,
    context: TradingParamsContext,
}

struct Error(anyhow::Error);

impl From<anyhow::Error> for Error {
    fn from(e: anyhow::Error) -> Self {
        Error(e)
    }
}

struct GenerationOutput {
    nr: usize,
    hall_of_fame: Vec<IndividualStats>,
}

struct IndividualStats {
    individual: Individual<TradingParams>,
    symbol_stats: HashMap<String, Statistics>,
}

struct OptimizeResult {
    generations: Vec<GenerationOutput>,
    seed: u64,
}

struct BacktestResult {
    symbol_stats: HashMap<String, Statistics>,
}

/// One run of the given parameters on one symbol.
fn run(params: &TradingParams, info: &ExchangeInfo, candles: &Candles, symbol: &String, quote: f64, prices: &Prices) -> Statistics {
    let input = TradeInput {
        candles: &candles[symbol][&params.trader.interval],
        fees: &info.fees[symbol],
        filters: &info.filters[symbol],
        borrow_info: &info.borrow_info[symbol][symbol.base_asset()],
        margin_multiplier: 2,
        quote,
        long: true,
        short: true,
    };
    let summary = trade(params, &input);
    Statistics::compose(&summary, symbol, prices, Interval::DAY_MS)
}

fn announce<T: Chromosome>(nr: usize, gen: &juno::genetics::Generation<T>) {
    println!("gen {} best fitness {}", nr, gen.hall_of_fame[0].fitness);
    println!("{:?}", gen.timings);
}

fn symbols(args: &Params) -> Vec<String> {
    args.training_symbols.iter().chain(&args.validation_symbols).unique().cloned().collect()
}

/// What is gathered for an optimisation, and the symbols it trains on.
async fn spec_optimize_data(
    State(client): State<Arc<juno_core::Client>>,
    Json(args): Json<Params>,
) -> Result<(ExchangeInfo, Candles, Prices, Vec<String>), Error> {
    let intervals = &args.context.trader.intervals;
    let (info, candles, prices) =
        gather(&client, &args.exchange, &symbols(&args), intervals, args.start, args.end).await?;
    Ok((info, candles, prices, args.training_symbols))
}

async fn spec_optimize_post(
    State(client): State<Arc<juno_core::Client>>,
    Json(args): Json<Params>,
) -> Result<(StatusCode, Json<OptimizeResult>), Error> {
    let intervals = &args.context.trader.intervals;
    let (info, candles, prices) =
        gather(&client, &args.exchange, &symbols(&args), intervals, args.start, args.end).await?;
    Ok((StatusCode::OK, Json(optimize(&args, &info, &candles, &prices))))
}

fn optimize(args: &Params, info: &ExchangeInfo, candles: &Candles, prices: &Prices) -> OptimizeResult {
    let input = BasicEvaluationInput {
        exchange_info: info,
        candles,
        prices,
        symbols: &args.training_symbols,
        intervals: &args.context.trader.intervals,
        start: args.start,
        end: args.end,
        quote: args.quote,
        evaluation_statistic: args.evaluation_statistic,
        evaluation_aggregation: args.evaluation_aggregation,
    };
    let evolution = GeneticAlgorithm::new(
        BasicEvaluation::new(&input),
        selection::EliteSelection { shuffle: false },
        crossover::UniformCrossover::new(0.5),
        mutation::UniformMutation::new(0.25),
        reinsertion::EliteReinsertion::new(0.75, 0.5),
    )
    .evolve(args.population_size, args.generations, args.hall_of_fame_size, args.seed, announce, &args.context);

    let mut best = vec![f64::NAN; args.hall_of_fame_size];
    let mut generations = Vec::new();
    let mut nr = 0;
    for generation in evolution.generations {
        let mut improved = false;
        for (individual, best) in generation.hall_of_fame.iter().zip(best.iter_mut()) {
            if best.is_nan() || individual.fitness > *best {
                *best = individual.fitness;
                improved = true;
            }
        }
        if improved {
            let mut hall_of_fame = Vec::new();
            for individual in generation.hall_of_fame {
                let symbol_stats = args
                    .training_symbols
                    .iter()
                    .chain(&args.validation_symbols)
                    .unique()
                    .map(|symbol| (symbol.clone(), run(&individual.chromosome, info, candles, symbol, args.quote, prices)))
                    .collect();
                hall_of_fame.push(IndividualStats { individual, symbol_stats });
            }
            generations.push(GenerationOutput { nr, hall_of_fame });
        }
        nr += 1;
    }
    OptimizeResult { generations, seed: evolution.seed }
}

// ----------------------------------------------------------- evaluation --
fn impl_evaluate(input: &BasicEvaluationInput<'_>, population: &mut [Individual<TradingParams>]) {
    BasicEvaluation::new(input).evaluate(population);
}

fn spec_evaluate(input: &BasicEvaluationInput<'_>, population: &mut [Individual<TradingParams>]) {
    for individual in population.iter_mut() {
        let mut fitness = 0.0;
        for symbol in input.symbols {
            let params = &individual.chromosome;
            let trade_input = TradeInput {
                candles: &input.candles[symbol][&params.trader.interval],
                fees: &input.exchange_info.fees[symbol],
                filters: &input.exchange_info.filters[symbol],
                borrow_info: &input.exchange_info.borrow_info[symbol][symbol.base_asset()],
                margin_multiplier: 2,
                quote: input.quote,
                long: true,
                short: true,
            };
            let summary = trade(params, &trade_input);
            let value = match input.evaluation_statistic {
                EvaluationStatistic::Profit => statistics::get_profit(&summary),
                EvaluationStatistic::ReturnOverMaxDrawdown => statistics::get_return_over_max_drawdown(&summary),
                EvaluationStatistic::SharpeRatio => {
                    statistics::get_sharpe_ratio(&summary, symbol, input.prices, Interval::DAY_MS)
                }
                EvaluationStatistic::SortinoRatio => {
                    statistics::get_sortino_ratio(&summary, symbol, input.prices, Interval::DAY_MS)
                }
            };
            fitness += match input.evaluation_aggregation {
                EvaluationAggregation::Linear => value,
                EvaluationAggregation::Log10 => damped(value),
                EvaluationAggregation::Log10Factored => damped(10.0 * value),
            };
        }
        individual.fitness = fitness;
    }
}

/// Gains count by their logarithm, losses exponentially.
fn damped(value: f64) -> f64 {
    if value >= 0.0 {
        (1.0 + value).log10()
    } else {
        -(10.0_f64).powf(1.0 - value)
    }
}

// ---------------------------------------------------------- market data --
async fn gather(
    client: &juno_core::Client,
    exchange: &str,
    symbols: &[String],
    intervals: &[Interval],
    start: Timestamp,
    end: Timestamp,
) -> anyhow::Result<(ExchangeInfo, Candles, Prices)> {
    let info = client.get_exchange_info(juno_core::GetExchangeInfo { exchange });
    let candles = try_join_all(symbols.iter().flat_map(|symbol| {
        intervals.iter().map(|interval| {
            let request =
                juno_core::ListCandles { exchange, symbol, interval: *interval, start, end, type_: CandleType::Regular };
            client.list_candles(request)
        })
    }));
    let assets: Vec<&str> = symbol::iter_assets(symbols.iter().map(String::as_str)).chain(["btc"]).unique().collect();
    let prices = client.map_asset_prices(juno_core::MapAssetPrices {
        exchange,
        assets: &assets,
        interval: Interval::DAY_MS,
        start,
        end,
        target_asset: "usdt",
    });
    let (info, candles, prices) = try_join3(info, candles, prices).await?;
    let mut stored: Candles = HashMap::new();
    let mut i = 0;
    for candles in candles {
        let symbol = &symbols[i / intervals.len()];
        let interval = &intervals[i % intervals.len()];
        stored.entry(symbol.clone()).or_default().insert(*interval, candles);
        i += 1;
    }
    Ok((info, stored, prices))
}
