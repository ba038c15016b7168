//! Sources of inputs: what is enumerated for a schema.
use crate::engine::*;
use crate::ep::*;
use crate::gen::*;
use crate::model;
use crate::seeds;
use crate::types::*;
use std::sync::atomic::Ordering::*;

pub struct Src<'c> {
    pub cases: &'c [Case],
    pub units: Vec<Unit<'c>>,
}

impl<'c> Src<'c> {
    pub fn new(cases: &'c [Case]) -> Src<'c> {
        Src { cases, units: vec![] }
    }
    fn each(&self, f: impl Fn(&Case) -> bool) -> Vec<usize> {
        (0..self.cases.len()).filter(|i| f(&self.cases[*i])).collect()
    }
    /// representative encodings as they are
    pub fn seeds(mut self) -> Self {
        for i in self.each(|_| true) {
            let ty = &self.cases[i].ty;
            self.units.push(Unit { case: i, gen: Box::new(move |o| seeds::reps(ty).into_iter().for_each(|b| o(b))) });
        }
        self
    }
    /// every single deviation of every representative encoding
    pub fn mutated(mut self, full: usize, trunc: bool, structural: bool, maxseeds: usize) -> Self {
        for i in self.each(|_| true) {
            let ty = &self.cases[i].ty;
            let mut reps = seeds::reps(ty);
            reps.sort();
            reps.dedup();
            if reps.len() > maxseeds {
                let k = reps.len() / maxseeds + 1;
                reps = reps.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
            }
            for seed in reps {
                self.units.push(Unit {
                    case: i,
                    gen: Box::new(move |o| {
                        o(seed.clone());
                        mutate1(&seed, &Budget { full_subst: full, truncations: trunc, structural }, o)
                    }),
                });
            }
        }
        self
    }
    /// every pair of deviations of short representative encodings
    pub fn mutated2(mut self, maxlen: usize, maxseeds: usize) -> Self {
        for i in self.each(|_| true) {
            let ty = &self.cases[i].ty;
            let mut reps: Vec<Vec<u8>> = seeds::reps(ty).into_iter().filter(|b| b.len() <= maxlen).collect();
            reps.sort();
            reps.dedup();
            if reps.len() > maxseeds {
                let k = reps.len() / maxseeds + 1;
                reps = reps.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
            }
            for seed in reps {
                // first deviation: structural, second: anything but exhaustive substitution
                let mut first = vec![];
                mutate1(&seed, &Budget { full_subst: 0, truncations: false, structural: true }, &mut |b| first.push(b));
                first.sort();
                first.dedup();
                for chunk in first.chunks(64) {
                    let chunk = chunk.to_vec();
                    self.units.push(Unit {
                        case: i,
                        gen: Box::new(move |o| {
                            for s in &chunk {
                                if s.len() <= 80 {
                                    mutate1(s, &Budget { full_subst: 0, truncations: true, structural: false }, o);
                                }
                            }
                        }),
                    });
                }
            }
        }
        self
    }
    /// exhaustive value grids
    pub fn grids(mut self, thorough: bool) -> Self {
        for i in self.each(|_| true) {
            let ty = &self.cases[i].ty;
            self.units.insert(0, Unit { case: i, gen: Box::new(move |o| seeds::grid(ty, thorough, o)) });
        }
        self
    }
    /// elements nested in each other
    pub fn nests(mut self, depths: &'static [usize], leafs: &'static [&'static [u8]], pairs: bool) -> Self {
        for i in self.each(|_| true) {
            for d in depths {
                self.units.push(Unit { case: i, gen: Box::new(move |o| nests(&[*d], leafs, pairs, o)) });
            }
        }
        self
    }
    /// containers and segmented strings with very many members
    pub fn wide(mut self, n: usize) -> Self {
        for i in self.each(|_| true) {
            self.units.push(Unit {
                case: i,
                gen: Box::new(move |o| {
                    for id in CONS {
                        for m in [&[5u8, 0][..], &[1, 1, 0xff], &[2, 1, 1], &[4, 1, 0x61], &[3, 2, 0, 0x55], &[0x0c, 1, 0x61], &[0x24, 0], &[0x30, 0], &[0x30, 0x80, 0, 0], &[0xa0, 3, 2, 1, 1]] {
                            let c = m.repeat(n);
                            let mut v = id.to_vec();
                            v.push(0x80);
                            v.extend_from_slice(&c);
                            v.extend_from_slice(&[0, 0]);
                            o(v);
                            let mut v = id.to_vec();
                            model::enc_len(c.len(), &mut v);
                            v.extend_from_slice(&c);
                            o(v);
                        }
                    }
                }),
            });
        }
        self
    }
    /// every string over an alphabet up to a length, as raw input
    pub fn raw(mut self, alpha: &'static [u8], len: usize) -> Self {
        for i in self.each(|_| true) {
            for l in 0..2.min(len + 1) {
                self.units.push(Unit { case: i, gen: Box::new(move |o| strings(&[], alpha, l, &mut |b| o(b.to_vec()))) });
            }
            if len >= 2 {
                for &a in alpha {
                    for &b in alpha {
                        self.units.push(Unit { case: i, gen: Box::new(move |o| (0..=len - 2).for_each(|l| strings(&[a, b], alpha, l, &mut |b| o(b.to_vec())))) });
                    }
                }
            }
        }
        self
    }
    pub fn run(self, ctx: &Ctx, label: &str, mask: u32, sel: &(dyn Fn(&Ep) -> bool + Sync)) {
        let s0 = ctx.states.load(SeqCst);
        let t0 = std::time::Instant::now();
        let n = self.cases.len();
        let eps: usize = self.cases.iter().map(|c| c.eps.iter().filter(|e| sel(e)).count()).sum();
        ctx.sweep(self.cases, self.units, mask, sel);
        ctx.sections.lock().unwrap().push(format!("{label}: {n} schemas, {eps} entry points, {} distinct inputs, {:.1} s", ctx.states.load(SeqCst) - s0, t0.elapsed().as_secs_f64()));
    }
}
