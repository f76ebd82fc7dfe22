//! The guest from its input frame to its journal. C27, C28.

use crate::ffg::Ffg;
use crate::model::Chunk;
use crate::reader::{self, Ep, Inp, Patch, Tamper};
use crate::votes::{self, Conf, Mutation, Over, RealCp, Scen, Step, Val};
use crate::world::*;
use beacon_types::{EthSpec, MainnetEthSpec, MinimalEthSpec};
use proptest::collection::vec;
use proptest::prelude::*;
use risc0_zkvm::sim;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vharness::{Case, Verdict, check, check_eq};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Target {
    Test,
    Mainnet,
    Sepolia,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    pub target: Target,
    pub inp: Inp,
    pub conf: Conf,
    pub steps: Vec<Step>,
    pub muts: Vec<(u16, Mutation)>,
    pub list: Vec<(u8, u16, u16)>,
    /// no mixes for the epoch F + x
    pub no_mix: Option<u8>,
    /// the input frame is cut short
    pub cut: Option<u16>,
}

mod deployed {
    #[allow(unused_attributes)]
    #[path = "/repo/methods/guest/src/bin/mainnet.rs"]
    pub mod mainnet;
    #[allow(unused_attributes)]
    #[path = "/repo/methods/guest/src/bin/sepolia.rs"]
    pub mod sepolia;
}

fn word(n: u64) -> Chunk {
    let mut w = [0; 32];
    w[24..].copy_from_slice(&n.to_be_bytes());
    w
}
fn journal(pre: &Ffg<RealCp>, post: &Ffg<RealCp>, slot: u64) -> Vec<u8> {
    let cp = |c: &RealCp| [word(c.0), c.1].concat();
    [cp(&pre.j), cp(&pre.f), cp(&post.j), cp(&post.f), word(slot).to_vec()].concat()
}

fn run<E: EthSpec>(r: &Run, c: &mut Case) -> Verdict {
    let inp = &r.inp;
    let spec = inp.net.spec::<E>();
    let b = inp.build::<E>();
    let reader = reader::model::<E>(&inp.net, &b);
    // the votes are those of the chain, whatever the reader makes of the input
    let honest = Inp { tamper: vec![], ..inp.clone() };
    let truth = reader::model::<E>(&inp.net, &honest.build::<E>());
    let Some(chain) = truth.as_ref().ok().or(reader.as_ref().ok()) else {
        c.label("the chain itself is refused");
        return Ok(());
    };
    let view = |m: &reader::MReader| -> (BTreeMap<u64, Vec<usize>>, BTreeSet<u64>) {
        let epochs = inp.f.saturating_sub(2)..inp.f + 16;
        let seeds = epochs
            .clone()
            .filter(|e| m.patches.get(e).is_some_and(|p| p.0.contains_key(&(seed_mix_index::<E>(&spec, *e) as u32))))
            .collect();
        (epochs.map(|e| (e, m.active(e))).collect(), seeds)
    };
    let (active, seeds) = view(chain);
    let roots = inp.blocks.iter().skip(1).enumerate().map(|(k, s)| (4 + k as u8, reader::other_block(*s, inp.salt).h)).collect();
    let mut scen = Scen {
        mainnet: r.target != Target::Test,
        conf: r.conf.clone(),
        net: inp.net.clone(),
        f: (inp.f, 1),
        j: (b.j.0, 2),
        vals: inp.vals.iter().map(|v| Val { bal: v.bal, slashed: v.slashed, from: -9, until: 0 }).collect(),
        salt: inp.salt,
        steps: r.steps.clone(),
        knife: None,
        knife_at: 0,
        muts: r.muts.clone(),
        list: r.list.clone(),
        slots: 0,
        far: false,
        over: Some(Over { f_root: b.f.1, j_root: b.j.1, active, roots, seeds }),
    };
    let (mut vals, atts) = votes::build::<E>(&scen, &spec);
    let want = match &reader {
        Err(why) => Err(*why),
        Ok(m) => {
            let over = scen.over.as_mut().unwrap();
            (over.active, over.seeds) = view(m);
            // what counts are the balances and flags of the registry that is proven (a change of it may be a truthful one)
            for (i, v) in &m.vals {
                (vals[*i].bal, vals[*i].slashed) = (v.bal, v.slashed);
            }
            votes::model::<E>(&scen, &spec, &vals, &atts, &m.slots)
        }
    };
    let mut frame = bincode::serialize(&reader::guest_input::<E>(&b, atts)).map_err(|e| e.to_string())?;
    let mut want = want;
    if let Some(k) = r.cut {
        frame.truncate(frame.len() * k as usize / 65536);
        want = Err("truncated");
    }
    let (got, end) = sim::run(vec![frame], || match r.target {
        Target::Test => beacon_guest::entry::<E>(spec, &r.conf.real()),
        Target::Mainnet => deployed::mainnet::run(),
        Target::Sepolia => deployed::sepolia::run(),
    });
    c.nontrivial(want.is_ok() || (reader.is_ok() && !r.steps.is_empty()));
    match &want {
        Ok((post, slot)) => {
            c.label("accepted");
            c.label_if(inp.patches.iter().any(|p| !p.exits.is_empty()), "accepted with exits");
            check!(end.is_ok(), "the guest fails, but all is in order");
            let pre = Ffg { j: b.j, f: b.f };
            check_eq!(got, journal(&pre, post, *slot), "journal");
        }
        Err(why) => {
            c.label(why);
            check!(end.is_err(), "the guest succeeds, but must fail: {why}");
            check!(got.is_empty(), "the guest commits {got:02x?}, but must fail: {why}");
        }
    }
    Ok(())
}
pub fn check_run(r: &Run, c: &mut Case) -> Verdict {
    if r.target == Target::Test { run::<MinimalEthSpec>(r, c) } else { run::<MainnetEthSpec>(r, c) }
}

// ---- generators ----

/// Links that end with a finalization, mostly.
fn steps() -> BoxedStrategy<Vec<Step>> {
    let share = || prop_oneof![8 => Just(255u8), 3 => 150u8..255, 2 => 175u8..235];
    let step = |gap: BoxedStrategy<u64>, root: u8| {
        (prop_oneof![30 => Just(9u8), 1 => 0u8..3], gap, share(), any::<u32>())
            .prop_map(move |(source, gap, share, salt)| Step { source, gap, root, share, salt })
            .boxed()
    };
    let one = || Just(1u64).boxed();
    prop_oneof![
        8 => step(one(), 4).prop_map(|s| vec![s]),
        4 => (step((2u64..4).boxed(), 4), step(one(), 5)).prop_map(|(a, b)| vec![a, b]),
        1 => (step((2u64..4).boxed(), 4), step((1u64..3).boxed(), 5), step(one(), 6)).prop_map(|(a, b, c)| vec![a, b, c]),
        1 => Just(vec![]),
    ]
    .boxed()
}
fn fill(inp: &mut Inp, mixes: impl Fn(u64) -> u32) {
    // one patch per epoch, with the mix of its seed
    for d in 0..10i8 {
        let i = mixes(inp.f + d as u64);
        match inp.patches.iter_mut().find(|p| p.epoch == d) {
            Some(p) => p.mixes.push(i),
            None => inp.patches.push(Patch { epoch: d, mixes: vec![i], exits: vec![], keep: true }),
        }
    }
    inp.patches.sort_by_key(|p| p.epoch);
    // the exits of a patch hold until the end
    for p in &mut inp.patches {
        p.keep = true;
    }
}
type Extra = (Vec<Step>, Vec<(u16, Mutation)>, Vec<(u8, u16, u16)>, Option<u8>, Option<u16>, Vec<Tamper>);
fn extra() -> BoxedStrategy<Extra> {
    (
        steps(),
        prop_oneof![6 => Just(vec![]), 1 => vec((any::<u16>(), votes::mutation()), 1..2)],
        prop_oneof![10 => Just(vec![]), 1 => vec((0u8..6, any::<u16>(), any::<u16>()), 1..2)],
        prop_oneof![12 => Just(None), 1 => (0u8..8).prop_map(Some)],
        prop_oneof![30 => Just(None), 1 => any::<u16>().prop_map(Some)],
        prop_oneof![6 => Just(vec![]), 1 => vec(reader::tamper(), 1..2)],
    )
        .boxed()
}
fn assemble<E: EthSpec>(target: Target, mut inp: Inp, conf: Conf, e: Extra) -> Run {
    let spec = inp.net.spec::<E>();
    let (steps, muts, list, no_mix, cut, tamper) = e;
    inp.fork_off = 0;
    inp.tamper = tamper;
    while inp.blocks.len() < 4 {
        inp.blocks.push(rnd64(&[inp.salt as u64, inp.blocks.len() as u64]));
    }
    for v in &mut inp.vals {
        v.slashed &= v.bal % 2 == 0;
        if v.bal == 32 * GWEI && v.exit == Ep::Far && v.act == Ep::Far && v.elig == Ep::Far {
            (v.elig, v.act) = (Ep::Rel(-20), Ep::Rel(-10));
        }
    }
    fill(&mut inp, |e| seed_mix_index::<E>(&spec, e) as u32);
    if let Some(d) = no_mix {
        inp.patches.iter_mut().filter(|p| p.epoch == d as i8).for_each(|p| p.mixes.clear());
    }
    Run { target, inp, conf, steps, muts, list, no_mix, cut }
}
pub fn test_network() -> BoxedStrategy<Run> {
    (prop_oneof![3 => reader::inp(40, false), 2 => reader::inp(40, true)], votes::conf(), extra())
        .prop_map(|(mut inp, conf, e)| {
            inp.patches.retain(|p| p.epoch >= 0);
            assemble::<MinimalEthSpec>(Target::Test, inp, conf, e)
        })
        .boxed()
}
/// Around the forks of the network, with exactly its parameters.
pub fn deployed() -> BoxedStrategy<Run> {
    (any::<bool>(), prop_oneof![4 => reader::inp(120, false), 1 => reader::inp(120, true)], extra(), prop_oneof![3 => 0usize..3, 1 => Just(3)], -9i64..4, 1u64..60_000)
        .prop_map(|(main, mut inp, mut e, around, d, far)| {
            let (target, net, conf) = if main {
                (Target::Mainnet, Net::MAINNET, Conf::Default)
            } else {
                (Target::Sepolia, Net::SEPOLIA, Conf::Sepolia)
            };
            let fork = net.fork_epoch([5, 6, 6, 6][around]);
            inp.f = if around == 3 { fork + far } else { fork.saturating_add_signed(d) };
            inp.net = net;
            inp.patches.retain(|p| p.epoch >= 0);
            // the votes are about to decide between 70 and 85 percent
            for s in &mut e.0 {
                if s.share < 255 {
                    s.share = 165 + (s.salt % 70) as u8;
                }
            }
            for v in &mut inp.vals {
                v.slashed = false;
                v.bal = 32 * GWEI;
            }
            assemble::<MainnetEthSpec>(target, inp, conf, e)
        })
        .boxed()
}
