//! Beacon states from the consensus specification: the types of every fork as data, with their SSZ
//! encoding, Merkle root and JSON form. C37 compares the host's states with them.

use crate::model::{Chunk, hash2};
use crate::world::{rnd, rnd64, u64_chunk};
use ethereum_consensus::Fork;
use host::mainnet::BeaconState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use ssz_rs::HashTreeRoot;
use vharness::{Case, Verdict, catch, check, check_eq};

#[derive(Clone, Debug)]
pub enum Ty {
    U8,
    U64,
    U256,
    Bool,
    /// fixed number of bytes
    B(usize),
    Bytes(usize),
    Bits4,
    Bitlist(usize),
    Vector(Box<Ty>, usize),
    List(Box<Ty>, u64),
    C(Vec<(&'static str, Ty)>),
}
use Ty::*;
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    N(u64),
    X(Vec<u8>),
    /// bits of a bit list
    Z(Vec<bool>),
    L(Vec<Val>),
}

impl Ty {
    fn size(&self) -> Option<usize> {
        Some(match self {
            U8 | Bool | Bits4 => 1,
            U64 => 8,
            U256 => 32,
            B(n) => *n,
            Bytes(_) | List(..) | Bitlist(_) => return None,
            Vector(t, n) => t.size()? * n,
            C(f) => return f.iter().map(|f| f.1.size()).sum(),
        })
    }
    fn basic(&self) -> bool {
        matches!(self, U8 | U64 | U256 | Bool)
    }
}
pub fn encode(t: &Ty, v: &Val, out: &mut Vec<u8>) {
    match (t, v) {
        (U8 | Bool | Bits4, Val::N(n)) => out.push(*n as u8),
        (U64, Val::N(n)) => out.extend(n.to_le_bytes()),
        (U256 | B(_) | Bytes(_), Val::X(x)) => out.extend(x),
        (Bitlist(_), Val::Z(b)) => {
            let mut x = vec![0u8; b.len() / 8 + 1];
            for (i, b) in b.iter().chain(&[true]).enumerate() {
                x[i / 8] |= u8::from(*b) << (i % 8);
            }
            out.extend(x);
        }
        (Vector(e, _) | List(e, _), Val::L(l)) => series(&l.iter().map(|v| (&**e, v)).collect::<Vec<_>>(), out),
        (C(f), Val::L(l)) => series(&f.iter().map(|f| &f.1).zip(l).collect::<Vec<_>>(), out),
        _ => unreachable!(),
    }
}
fn series(parts: &[(&Ty, &Val)], out: &mut Vec<u8>) {
    let fixed: usize = parts.iter().map(|p| p.0.size().unwrap_or(4)).sum();
    let mut tail = vec![];
    for (t, v) in parts {
        if t.size().is_some() {
            encode(t, v, out);
        } else {
            out.extend(((fixed + tail.len()) as u32).to_le_bytes());
            encode(t, v, &mut tail);
        }
    }
    out.extend(tail);
}
fn zero(depth: usize) -> Chunk {
    thread_local! {
        static Z: Vec<Chunk> = {
            let mut z = vec![[0; 32]];
            for i in 0..64 {
                z.push(hash2(&z[i], &z[i]));
            }
            z
        };
    }
    Z.with(|z| z[depth])
}
/// The root of the chunks, padded to `limit` leaves.
fn merkle(mut c: Vec<Chunk>, limit: u64) -> Chunk {
    let depth = limit.next_power_of_two().trailing_zeros() as usize;
    if c.is_empty() {
        return zero(depth);
    }
    for d in 0..depth {
        c = c.chunks(2).map(|p| hash2(&p[0], p.get(1).unwrap_or(&zero(d)))).collect();
    }
    c[0]
}
fn pack(bytes: &[u8]) -> Vec<Chunk> {
    bytes
        .chunks(32)
        .map(|b| {
            let mut c = [0; 32];
            c[..b.len()].copy_from_slice(b);
            c
        })
        .collect()
}
fn basics(t: &Ty, l: &[Val]) -> Vec<Chunk> {
    let mut b = vec![];
    for v in l {
        encode(t, v, &mut b);
    }
    pack(&b)
}
pub fn root(t: &Ty, v: &Val) -> Chunk {
    let with_len = |r: Chunk, n: usize| hash2(&r, &u64_chunk(n as u64));
    match (t, v) {
        (U8 | U64 | U256 | Bool | Bits4, _) => {
            let mut b = vec![];
            encode(t, v, &mut b);
            pack(&b)[0]
        }
        (B(n), Val::X(x)) => merkle(pack(x), n.div_ceil(32) as u64),
        (Bytes(n), Val::X(x)) => with_len(merkle(pack(x), n.div_ceil(32) as u64), x.len()),
        (Bitlist(n), Val::Z(b)) => {
            let mut x = vec![0u8; b.len().div_ceil(8)];
            for (i, b) in b.iter().enumerate() {
                x[i / 8] |= u8::from(*b) << (i % 8);
            }
            with_len(merkle(pack(&x), n.div_ceil(256) as u64), b.len())
        }
        (Vector(e, n), Val::L(l)) if e.basic() => merkle(basics(e, l), (n * e.size().unwrap()).div_ceil(32) as u64),
        (Vector(e, n), Val::L(l)) => merkle(l.iter().map(|v| root(e, v)).collect(), *n as u64),
        (List(e, n), Val::L(l)) if e.basic() => with_len(merkle(basics(e, l), (n * e.size().unwrap() as u64).div_ceil(32)), l.len()),
        (List(e, n), Val::L(l)) => with_len(merkle(l.iter().map(|v| root(e, v)).collect(), *n), l.len()),
        (C(f), Val::L(l)) => merkle(f.iter().zip(l).map(|(f, v)| root(&f.1, v)).collect(), f.len() as u64),
        _ => unreachable!(),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().fold(String::from("0x"), |s, b| s + &format!("{b:02x}"))
}
pub fn to_json(t: &Ty, v: &Val) -> Value {
    match (t, v) {
        (Bool, Val::N(n)) => json!(*n == 1),
        (U8 | U64, Val::N(n)) => json!(n.to_string()),
        (Bits4, Val::N(n)) => json!(hex(&[*n as u8])),
        // only as wide as u128 is needed here
        (U256, Val::X(x)) => json!(u128::from_le_bytes(x[..16].try_into().unwrap()).to_string()),
        (B(_) | Bytes(_), Val::X(x)) => json!(hex(x)),
        (Bitlist(_), _) => {
            let mut b = vec![];
            encode(t, v, &mut b);
            json!(hex(&b))
        }
        (Vector(e, _) | List(e, _), Val::L(l)) => Value::Array(l.iter().map(|v| to_json(e, v)).collect()),
        (C(f), Val::L(l)) => Value::Object(f.iter().zip(l).map(|(f, v)| (f.0.to_string(), to_json(&f.1, v))).collect()),
        _ => unreachable!(),
    }
}

fn list(t: Ty, n: u64) -> Ty {
    List(Box::new(t), n)
}
fn vector(t: Ty, n: usize) -> Ty {
    Vector(Box::new(t), n)
}
fn checkpoint() -> Ty {
    C(vec![("epoch", U64), ("root", B(32))])
}
const REGISTRY: u64 = 1 << 40;
/// The state of a fork: 0 is phase0, 6 is Fulu.
pub fn state_type(fork: usize) -> Ty {
    let eth1 = C(vec![("deposit_root", B(32)), ("deposit_count", U64), ("block_hash", B(32))]);
    let validator = C(vec![
        ("pubkey", B(48)),
        ("withdrawal_credentials", B(32)),
        ("effective_balance", U64),
        ("slashed", Bool),
        ("activation_eligibility_epoch", U64),
        ("activation_epoch", U64),
        ("exit_epoch", U64),
        ("withdrawable_epoch", U64),
    ]);
    let mut f = vec![
        ("genesis_time", U64),
        ("genesis_validators_root", B(32)),
        ("slot", U64),
        ("fork", C(vec![("previous_version", B(4)), ("current_version", B(4)), ("epoch", U64)])),
        (
            "latest_block_header",
            C(vec![("slot", U64), ("proposer_index", U64), ("parent_root", B(32)), ("state_root", B(32)), ("body_root", B(32))]),
        ),
        ("block_roots", vector(B(32), 8192)),
        ("state_roots", vector(B(32), 8192)),
        ("historical_roots", list(B(32), 1 << 24)),
        ("eth1_data", eth1.clone()),
        ("eth1_data_votes", list(eth1, 2048)),
        ("eth1_deposit_index", U64),
        ("validators", list(validator, REGISTRY)),
        ("balances", list(U64, REGISTRY)),
        ("randao_mixes", vector(B(32), 65536)),
        ("slashings", vector(U64, 8192)),
    ];
    if fork == 0 {
        let data = C(vec![
            ("slot", U64),
            ("index", U64),
            ("beacon_block_root", B(32)),
            ("source", checkpoint()),
            ("target", checkpoint()),
        ]);
        let pending = C(vec![("aggregation_bits", Bitlist(2048)), ("data", data), ("inclusion_delay", U64), ("proposer_index", U64)]);
        f.push(("previous_epoch_attestations", list(pending.clone(), 4096)));
        f.push(("current_epoch_attestations", list(pending, 4096)));
    } else {
        f.push(("previous_epoch_participation", list(U8, REGISTRY)));
        f.push(("current_epoch_participation", list(U8, REGISTRY)));
    }
    f.extend([
        ("justification_bits", Bits4),
        ("previous_justified_checkpoint", checkpoint()),
        ("current_justified_checkpoint", checkpoint()),
        ("finalized_checkpoint", checkpoint()),
    ]);
    if fork >= 1 {
        let sync = C(vec![("pubkeys", vector(B(48), 512)), ("aggregate_pubkey", B(48))]);
        f.extend([("inactivity_scores", list(U64, REGISTRY)), ("current_sync_committee", sync.clone()), ("next_sync_committee", sync)]);
    }
    if fork >= 2 {
        let mut p = vec![
            ("parent_hash", B(32)),
            ("fee_recipient", B(20)),
            ("state_root", B(32)),
            ("receipts_root", B(32)),
            ("logs_bloom", B(256)),
            ("prev_randao", B(32)),
            ("block_number", U64),
            ("gas_limit", U64),
            ("gas_used", U64),
            ("timestamp", U64),
            ("extra_data", Bytes(32)),
            ("base_fee_per_gas", U256),
            ("block_hash", B(32)),
            ("transactions_root", B(32)),
        ];
        if fork >= 3 {
            p.push(("withdrawals_root", B(32)));
        }
        if fork >= 4 {
            p.extend([("blob_gas_used", U64), ("excess_blob_gas", U64)]);
        }
        f.push(("latest_execution_payload_header", C(p)));
    }
    if fork >= 3 {
        f.extend([
            ("next_withdrawal_index", U64),
            ("next_withdrawal_validator_index", U64),
            ("historical_summaries", list(C(vec![("block_summary_root", B(32)), ("state_summary_root", B(32))]), 1 << 24)),
        ]);
    }
    if fork >= 5 {
        let deposit = C(vec![("pubkey", B(48)), ("withdrawal_credentials", B(32)), ("amount", U64), ("signature", B(96)), ("slot", U64)]);
        f.extend([
            ("deposit_requests_start_index", U64),
            ("deposit_balance_to_consume", U64),
            ("exit_balance_to_consume", U64),
            ("earliest_exit_epoch", U64),
            ("consolidation_balance_to_consume", U64),
            ("earliest_consolidation_epoch", U64),
            ("pending_deposits", list(deposit, 1 << 27)),
            (
                "pending_partial_withdrawals",
                list(C(vec![("validator_index", U64), ("amount", U64), ("withdrawable_epoch", U64)]), 1 << 27),
            ),
            ("pending_consolidations", list(C(vec![("source_index", U64), ("target_index", U64)]), 1 << 18)),
        ]);
    }
    if fork >= 6 {
        f.push(("proposer_lookahead", vector(U64, 64)));
    }
    C(f)
}

/// A value, by the seed; `dense` (of 255) of the scalars and elements are not zero.
pub fn make(t: &Ty, seed: u64, dense: u8) -> Val {
    fn rec(t: &Ty, s: u64, dense: u8) -> Val {
        let r = rnd64(&[s]);
        let on = (r >> 32) as u8 <= dense;
        let bytes = |n: usize| -> Vec<u8> {
            if !on {
                return vec![0; n];
            }
            (0..n.div_ceil(32)).flat_map(|i| rnd(&[s, i as u64])).take(n).collect()
        };
        match t {
            U8 => Val::N(if on { r & 7 } else { 0 }),
            U64 => Val::N(match (on, r % 4) {
                (false, _) => 0,
                (_, 0) => u64::MAX,
                (_, 1) => r >> 40,
                _ => rnd64(&[s, 1]),
            }),
            Bool => Val::N(u64::from(on && r % 2 == 1)),
            Bits4 => Val::N(if on { r & 15 } else { 0 }),
            U256 => {
                let mut b = bytes(16);
                b.resize(32, 0);
                Val::X(b)
            }
            B(n) => Val::X(bytes(*n)),
            Bytes(n) => Val::X(bytes(r as usize % (n + 1))),
            Bitlist(n) => Val::Z((0..r % 20 + if r & 1024 != 0 { *n as u64 - 20 } else { 0 }).map(|i| rnd64(&[s, i]) % 2 == 0).collect()),
            Vector(e, n) => {
                // few positions of a long vector are set
                let mut l = vec![rec(e, 0, 0); *n];
                let set = if *n > 600 { 40 } else { *n };
                for i in 0..set as u64 {
                    let at = if set == *n { i as usize } else { rnd64(&[s, i, 9]) as usize % n };
                    l[at] = rec(e, rnd64(&[s, i, 10]), dense);
                }
                Val::L(l)
            }
            List(e, limit) => {
                let n = if on { (r % 12).min(*limit) } else { 0 };
                Val::L((0..n).map(|i| rec(e, rnd64(&[s, i, 11]), dense)).collect())
            }
            C(f) => Val::L(f.iter().enumerate().map(|(i, f)| rec(&f.1, rnd64(&[s, i as u64, 12]), dense)).collect()),
        }
    }
    rec(t, seed, dense)
}
pub fn field<'a>(t: &Ty, v: &'a Val, name: &str) -> Option<&'a Val> {
    let (C(f), Val::L(l)) = (t, v) else { unreachable!() };
    f.iter().position(|f| f.0 == name).map(|i| &l[i])
}
pub fn set(t: &Ty, v: &mut Val, name: &str, x: Val) {
    let (C(f), Val::L(l)) = (t, v) else { unreachable!() };
    l[f.iter().position(|f| f.0 == name).unwrap()] = x;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StateCase {
    pub fork: u8,
    pub seed: u64,
    pub dense: u8,
    pub json: bool,
}
pub fn state_case() -> BoxedStrategy<StateCase> {
    (prop_oneof![1 => 0u8..5, 3 => Just(5u8), 3 => Just(6u8)], any::<u64>(), prop_oneof![1 => Just(255u8), 2 => any::<u8>()], prop::bool::weighted(0.3))
        .prop_map(|(fork, seed, dense, json)| StateCase { fork, seed, dense, json })
        .boxed()
}
const VERSIONS: [Fork; 7] = [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb, Fork::Electra, Fork::Fulu];

pub fn check_state(s: &StateCase, c: &mut Case) -> Verdict {
    let t = state_type(s.fork as usize);
    let v = make(&t, s.seed, s.dense);
    let mut bytes = vec![];
    encode(&t, &v, &mut bytes);
    c.nontrivial(s.dense > 0);
    c.label(["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu"][s.fork as usize]);
    let name = VERSIONS[s.fork as usize];
    let st: BeaconState = catch(|| ssz_rs::deserialize(&bytes))
        .map_err(|p| format!("decoding a {name} state panics: {p}"))?
        .map_err(|e| format!("a {name} state is not decoded: {e}"))?;
    check_eq!(st.version(), name, "version of the state");
    let again = ssz_rs::serialize(&st).map_err(|e| e.to_string())?;
    check!(again == bytes, "encoding a decoded {name} state again gives other bytes, the first at {:?}", again.iter().zip(&bytes).position(|(a, b)| a != b));
    let want = root(&t, &v);
    check_eq!(st.hash_tree_root().map_err(|e| e.to_string())?.0, want, "root of a {name} state");
    // each accessor gives the field of its name: compare by root
    macro_rules! same {
        ($($f:ident),*) => {$({
            let (C(fields), Val::L(vals)) = (&t, &v) else { unreachable!() };
            let i = fields.iter().position(|f| f.0 == stringify!($f)).unwrap();
            let got = st.$f().hash_tree_root().map_err(|e| e.to_string())?.0;
            check_eq!(got, root(&fields[i].1, &vals[i]), "{} of a {name} state", stringify!($f));
        })*};
    }
    same!(
        genesis_validators_root,
        slot,
        fork,
        latest_block_header,
        state_roots,
        historical_roots,
        validators,
        balances,
        randao_mixes,
        previous_justified_checkpoint,
        current_justified_checkpoint,
        finalized_checkpoint
    );
    macro_rules! maybe {
        ($($f:ident),*) => {$({
            let (C(fields), Val::L(vals)) = (&t, &v) else { unreachable!() };
            let i = fields.iter().position(|f| f.0 == stringify!($f));
            let got = st.$f().map(|x| x.hash_tree_root().map(|r| r.0)).transpose().map_err(|e| e.to_string())?;
            check_eq!(got, i.map(|i| root(&fields[i].1, &vals[i])), "{} of a {name} state", stringify!($f));
        })*};
    }
    maybe!(previous_epoch_attestations, current_epoch_attestations, previous_epoch_participation, current_epoch_participation);
    if s.json {
        c.label("json");
        let text = to_json(&t, &v);
        let from: BeaconState = serde_json::from_value(text.clone()).map_err(|e| format!("the JSON of a {name} state is not read: {e}"))?;
        check_eq!(from.version(), name, "version of the state, from JSON");
        check!(from == st, "the state from JSON is another one");
        let to = serde_json::to_value(&st).map_err(|e| e.to_string())?;
        check!(to == text, "the JSON of a {name} state is another one");
    }
    Ok(())
}
pub fn build(fork: usize, slot: u64, seed: u64) -> BeaconState {
    let t = state_type(fork);
    let mut v = make(&t, seed, 200);
    set(&t, &mut v, "slot", Val::N(slot));
    let mut bytes = vec![];
    encode(&t, &v, &mut bytes);
    ssz_rs::deserialize(&bytes).unwrap()
}
