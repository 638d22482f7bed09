//! Evolution, selection and reinsertion, written out one step at a time.
#![allow(clippy::too_many_arguments)]
use juno::genetics::crossover::{Crossover, UniformCrossover};
use juno::genetics::mutation::{Mutation, UniformMutation};
use juno::genetics::reinsertion::*;
use juno::genetics::selection::*;
use juno::genetics::*;
use rand::prelude::*;
use std::cmp::Ordering;

type Ctx<TE> = <<TE as Evaluation>::Chromosome as Chromosome>::Context;
type Announce<TE> = fn(usize, &Generation<<TE as Evaluation>::Chromosome>) -> ();

fn fitter<T: Chromosome>(a: &Individual<T>, b: &Individual<T>) -> Ordering {
    b.fitness.partial_cmp(&a.fitness).unwrap()
}

fn fresh<T: Chromosome>(rng: &mut StdRng, ctx: &T::Context) -> Individual<T> {
    let chromosome = T::generate(rng, ctx);
    Individual { chromosome, fitness: f64::MIN }
}

// ------------------------------------------------------------ evolution --
pub fn impl_evolve<TE: Evaluation, TS: Selection, TC: Crossover, TM: Mutation, TR: Reinsertion>(
    algorithm: &GeneticAlgorithm<TE, TS, TC, TM, TR>,
    population_size: usize,
    generations: usize,
    hall_of_fame_size: usize,
    seed: Option<u64>,
    announce: Announce<TE>,
    ctx: &Ctx<TE>,
) -> Evolution<TE::Chromosome> {
    algorithm.evolve(population_size, generations, hall_of_fame_size, seed, announce, ctx)
}

pub fn spec_evolve<TE: Evaluation, TS: Selection, TC: Crossover, TM: Mutation, TR: Reinsertion>(
    algorithm: &GeneticAlgorithm<TE, TS, TC, TM, TR>,
    population_size: usize,
    generations: usize,
    hall_of_fame_size: usize,
    seed: Option<u64>,
    announce: Announce<TE>,
    ctx: &Ctx<TE>,
) -> Evolution<TE::Chromosome> {
    assert!(population_size >= 2);
    assert!(hall_of_fame_size >= 1);
    let seed = match seed {
        Some(seed) => seed,
        None => thread_rng().gen_range(0..u64::MAX),
    };
    let mut rng = StdRng::seed_from_u64(seed);
    let mut reported = Vec::new();

    let mut population = Vec::new();
    for _ in 0..population_size {
        population.push(fresh(&mut rng, ctx));
    }
    algorithm.evaluation.evaluate(&mut population);
    population.sort_by(fitter);
    report(&mut reported, 0, &population, hall_of_fame_size, announce);

    for nr in 1..=generations {
        let mut next = Vec::new();
        let rate = algorithm.reinsertion.selection_rate();
        algorithm.selection.select(&mut rng, &population, &mut next, rate, ctx);
        let n = next.len();
        // Pairs of neighbours; an odd last one pairs with the first.
        for i in (0..n).step_by(2) {
            let last = i == n - 1;
            if last && i == 0 {
                algorithm.mutation.mutate(&mut rng, &mut next[0].chromosome, ctx);
            } else {
                let (a, b) = if last {
                    let (x, y) = next.split_at_mut(i);
                    (&mut y[0].chromosome, &mut x[0].chromosome)
                } else {
                    let (x, y) = next.split_at_mut(i + 1);
                    (&mut x[i].chromosome, &mut y[0].chromosome)
                };
                algorithm.crossover.cross(&mut rng, a, b);
                algorithm.mutation.mutate(&mut rng, a, ctx);
                algorithm.mutation.mutate(&mut rng, b, ctx);
            }
        }
        algorithm.evaluation.evaluate(&mut next);
        next.sort_by(fitter);
        algorithm.reinsertion.reinsert(&mut rng, &population, &mut next, population_size, ctx);
        // Those the reinsertion generated have no fitness yet and come last.
        let evaluated = next.partition_point(|x| x.fitness > f64::MIN);
        if evaluated < next.len() {
            algorithm.evaluation.evaluate(&mut next[evaluated..]);
            next.sort_by(fitter);
        }
        population = next;
        report(&mut reported, nr, &population, hall_of_fame_size, announce);
    }
    Evolution { generations: reported, seed }
}

fn report<T: Chromosome>(
    reported: &mut Vec<Generation<T>>,
    nr: usize,
    population: &[Individual<T>],
    hall_of_fame_size: usize,
    announce: fn(usize, &Generation<T>) -> (),
) {
    let generation = Generation {
        hall_of_fame: population.iter().take(hall_of_fame_size).cloned().collect(),
        timings: Timings::default(),
    };
    announce(nr, &generation);
    reported.push(generation);
}

// ------------------------------------------------------------- selection --
pub fn impl_select_elite<T: Chromosome>(s: &EliteSelection, rng: &mut StdRng, parents: &[Individual<T>], rate: f32, ctx: &T::Context) -> Vec<Individual<T>> {
    let mut r = Vec::new();
    s.select(rng, parents, &mut r, rate, ctx);
    r
}

pub fn spec_select_elite<T: Chromosome>(s: &EliteSelection, rng: &mut StdRng, parents: &[Individual<T>], rate: f32, _ctx: &T::Context) -> Vec<Individual<T>> {
    let count = (parents.len() as f32 * rate) as usize;
    let mut r = Vec::new();
    for i in 0..count {
        r.push(parents[i].clone());
    }
    if s.shuffle {
        r.shuffle(rng);
    }
    r
}

pub fn spec_select_elite__2<T: Chromosome>(s: &EliteSelection, rng: &mut StdRng, parents: &[Individual<T>], rate: f32, _ctx: &T::Context) -> Vec<Individual<T>> {
    let count = (parents.len() as f32 * rate) as usize;
    let mut r: Vec<_> = parents.iter().take(count).cloned().collect();
    if s.shuffle {
        r.shuffle(rng);
    }
    r
}

pub fn impl_select_tournament<T: Chromosome>(size: f32, rng: &mut StdRng, parents: &[Individual<T>], rate: f32, ctx: &T::Context) -> Vec<Individual<T>> {
    let mut r = Vec::new();
    TournamentSelection::new(size, true).select(rng, parents, &mut r, rate, ctx);
    r
}

pub fn spec_select_tournament<T: Chromosome>(size: f32, rng: &mut StdRng, parents: &[Individual<T>], rate: f32, _ctx: &T::Context) -> Vec<Individual<T>> {
    assert!(0.0 < size && size < 1.0);
    let participants = usize::max((parents.len() as f32 * size) as usize, 1);
    let count = (parents.len() as f32 * rate) as usize;
    let mut r = Vec::new();
    for _ in 0..count {
        let best = parents.choose_multiple(rng, participants).min_by(|a, b| fitter(a, b));
        r.push(best.unwrap().clone());
    }
    r
}

pub fn impl_select_default_tournament<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], rate: f32, ctx: &T::Context) -> Vec<Individual<T>> {
    let mut r = Vec::new();
    TournamentSelection::default().select(rng, parents, &mut r, rate, ctx);
    r
}

pub fn spec_select_default_tournament<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], rate: f32, ctx: &T::Context) -> Vec<Individual<T>> {
    spec_select_tournament(0.2, rng, parents, rate, ctx)
}

pub fn impl_select_random<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], rate: f32, ctx: &T::Context) -> Vec<Individual<T>> {
    let mut r = Vec::new();
    GenerateRandomSelection {}.select(rng, parents, &mut r, rate, ctx);
    r
}

pub fn spec_select_random<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], rate: f32, ctx: &T::Context) -> Vec<Individual<T>> {
    let mut r = Vec::new();
    for _ in 0..(parents.len() as f32 * rate) as usize {
        r.push(fresh(rng, ctx));
    }
    r
}

// ----------------------------------------------------------- reinsertion --
pub fn impl_reinsert_elite<T: Chromosome>(selection: f32, generation: f32, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) -> f32 {
    let x = EliteReinsertion::new(selection, generation);
    x.reinsert(rng, parents, offsprings, n, ctx);
    x.selection_rate()
}

pub fn spec_reinsert_elite<T: Chromosome>(selection: f32, generation: f32, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) -> f32 {
    assert!((f32::EPSILON..1.0).contains(&selection));
    assert!((0.0..=1.0).contains(&generation));
    let missing = n - offsprings.len();
    let new = (missing as f32 * generation) as usize;
    for parent in &parents[..missing - new] {
        offsprings.push(parent.clone());
    }
    for _ in 0..new {
        offsprings.push(fresh(rng, ctx));
    }
    offsprings.sort_by(fitter);
    selection
}

pub fn impl_reinsert_default_elite<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) -> f32 {
    let x = EliteReinsertion::default();
    x.reinsert(rng, parents, offsprings, n, ctx);
    x.selection_rate()
}

pub fn spec_reinsert_default_elite<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) -> f32 {
    spec_reinsert_elite(0.75, 0.0, rng, parents, offsprings, n, ctx)
}

pub fn impl_reinsert_fitness<T: Chromosome>(selection: f32, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) -> f32 {
    let x = FitnessReinsertion::new(selection);
    x.reinsert(rng, parents, offsprings, n, ctx);
    x.selection_rate()
}

pub fn spec_reinsert_fitness<T: Chromosome>(selection: f32, _rng: &mut StdRng, _parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, _ctx: &T::Context) -> f32 {
    assert!(selection > 1.0);
    assert!(offsprings.len() > n);
    for _ in n..offsprings.len() {
        offsprings.pop();
    }
    selection
}

pub fn spec_reinsert_fitness__2<T: Chromosome>(selection: f32, _rng: &mut StdRng, _parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, _ctx: &T::Context) -> f32 {
    assert!(selection > 1.0);
    assert!(offsprings.len() > n);
    while offsprings.len() > n {
        offsprings.pop();
    }
    selection
}

pub fn impl_reinsert_pure<T: Chromosome>(rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) -> f32 {
    PureReinsertion {}.reinsert(rng, parents, offsprings, n, ctx);
    PureReinsertion {}.selection_rate()
}

pub fn spec_reinsert_pure<T: Chromosome>(_rng: &mut StdRng, _parents: &[Individual<T>], _offsprings: &mut Vec<Individual<T>>, _n: usize, _ctx: &T::Context) -> f32 {
    1.0
}

// -------------------------------------------------- crossover, mutation --
pub fn impl_cross<T: Chromosome>(p: f32, rng: &mut StdRng, a: &mut T, b: &mut T) {
    UniformCrossover::new(p).cross(rng, a, b)
}

pub fn spec_cross<T: Chromosome>(p: f32, rng: &mut StdRng, a: &mut T, b: &mut T) {
    assert!((0.0..=1.0).contains(&p));
    for gene in 0..T::len() {
        if rng.gen::<f32>() < p {
            a.cross(b, gene);
        }
    }
}

pub fn impl_mutate<T: Chromosome>(p: f32, rng: &mut StdRng, a: &mut T, ctx: &T::Context) {
    UniformMutation::new(p).mutate(rng, a, ctx)
}

pub fn spec_mutate<T: Chromosome>(p: f32, rng: &mut StdRng, a: &mut T, ctx: &T::Context) {
    assert!((0.0..=1.0).contains(&p));
    for gene in 0..T::len() {
        if rng.gen::<f32>() < p {
            a.mutate(rng, gene, ctx);
        }
    }
}
