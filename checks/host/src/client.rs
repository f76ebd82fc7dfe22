//! The client of the beacon API. C36.

use crate::chain::Hdr;
use crate::model::Chunk;
use crate::readers::block_on;
use crate::state;
use crate::votes::ccp;
use crate::world::{rnd, rnd64};
use ethereum_consensus::types::mainnet::BeaconBlock;
use ethereum_consensus::{deneb, electra};
use host::mainnet::BeaconState;
use host::{BeaconClient, ChainReader};
use proptest::collection::vec;
use proptest::prelude::*;
use reqwest::sim::{self, Answer};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use vharness::{Case, Verdict, check, check_eq};
use z_core::ConsensusState;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    Header,
    Block,
    State,
    Finality,
    /// by way of the trait that the readers use
    ReadHeader,
    ReadBlock,
    ReadConsensus,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Id {
    Head,
    Finalized,
    Slot(u64),
    Root(u8),
}
impl std::fmt::Display for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Id::Head => f.write_str("head"),
            Id::Finalized => f.write_str("finalized"),
            Id::Slot(n) => write!(f, "{n}"),
            Id::Root(k) => write!(f, "0x{}", hex(&rnd(&[*k as u64]))),
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Reply {
    Good,
    Status(u16),
    Broken,
    /// cut off after this share (of 256)
    Cut(u8),
    /// the data, without the envelope
    Bare,
    /// an envelope without data
    Empty,
    /// 200, but what it says is that there is nothing
    Null,
    /// of a state: another fork's name, or none known
    Version(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApiCase {
    pub calls: Vec<(Call, Id, Reply)>,
    pub prefix: u8,
    pub limit: bool,
    pub cache: bool,
    pub together: bool,
    pub salt: u32,
}
pub fn api_case() -> BoxedStrategy<ApiCase> {
    let call = prop_oneof![
        3 => Just(Call::Header), 3 => Just(Call::Block), 1 => Just(Call::State), 3 => Just(Call::Finality),
        2 => Just(Call::ReadHeader), 2 => Just(Call::ReadBlock), 3 => Just(Call::ReadConsensus),
    ];
    let id = prop_oneof![
        1 => Just(Id::Head), 1 => Just(Id::Finalized), 4 => (0u64..40).prop_map(Id::Slot), 1 => any::<u64>().prop_map(Id::Slot),
        3 => (0u8..4).prop_map(Id::Root),
    ];
    let code = prop_oneof![
        4 => Just(404u16), 1 => Just(400u16), 1 => Just(403u16), 1 => Just(410u16), 1 => Just(429u16), 2 => Just(500u16), 1 => Just(503u16),
    ];
    let reply = prop_oneof![
        8 => Just(Reply::Good), 4 => code.prop_map(Reply::Status), 1 => Just(Reply::Broken), 1 => any::<u8>().prop_map(Reply::Cut),
        1 => Just(Reply::Bare), 1 => Just(Reply::Empty), 1 => Just(Reply::Null), 2 => (0u8..8).prop_map(Reply::Version),
    ];
    (vec((call, id, reply), 1..8), 0u8..4, any::<bool>(), prop::bool::weighted(0.3), any::<bool>(), any::<u32>())
        .prop_map(|(calls, prefix, limit, cache, together, salt)| ApiCase { calls, prefix, limit, cache, together, salt })
        .boxed()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn cp(epoch: u64, root: &Chunk) -> Value {
    json!({"epoch": epoch.to_string(), "root": format!("0x{}", hex(root))})
}
fn header(k: u64) -> (Hdr, [u8; 96]) {
    let h = Hdr { slot: rnd64(&[k, 1]), proposer: rnd64(&[k, 2]) % (1 << 40), parent: rnd(&[k, 3]), state: rnd(&[k, 4]), body: rnd(&[k, 5]) };
    (h, [rnd64(&[k, 6]) as u8; 96])
}
fn block(k: u64) -> BeaconBlock {
    if k % 4 == 0 {
        BeaconBlock::Deneb(deneb::BeaconBlock {
            slot: rnd64(&[k, 1]),
            parent_root: rnd(&[k, 3]).into(),
            ..Default::default()
        })
    } else {
        BeaconBlock::Electra(electra::BeaconBlock {
            slot: rnd64(&[k, 1]),
            proposer_index: (rnd64(&[k, 2]) % (1 << 40)) as usize,
            parent_root: rnd(&[k, 3]).into(),
            state_root: rnd(&[k, 4]).into(),
            body: electra::BeaconBlockBody { graffiti: rnd(&[k, 5])[..].try_into().unwrap(), ..Default::default() },
        })
    }
}
fn finality(k: u64) -> [(u64, Chunk); 3] {
    let f = rnd64(&[k, 1]) % (1 << 50);
    let j = f + 1 + rnd64(&[k, 2]) % 2;
    [(j - 1, rnd(&[k, 3])), (j, rnd(&[k, 4])), (f, rnd(&[k, 5]))]
}
const FORKS: [&str; 9] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu", "gloas", "Electra"];
fn states() -> &'static [(BeaconState, Value); 6] {
    static S: OnceLock<[(BeaconState, Value); 6]> = OnceLock::new();
    S.get_or_init(|| {
        [4, 5, 6, 5, 6, 3].map(|f| {
            let s = state::build(f, rnd64(&[f as u64]) % 1000, 36 + f as u64);
            let v = serde_json::to_value(&s).unwrap();
            (s, v)
        })
    })
}
const STATE_FORK: [usize; 6] = [4, 5, 6, 5, 6, 3];

/// The content at an id.
fn content(call: Call, id: &Id, salt: u32) -> u64 {
    rnd64(&[salt as u64, call.kind() as u64, rnd(&[u64::from_le_bytes(rnd(&[id.to_string().bytes().fold(7, |a, b| a * 31 % 1_000_000_007 + b as u64)])[..8].try_into().unwrap())])[0] as u64])
}
impl Call {
    fn kind(self) -> u8 {
        match self {
            Call::Header | Call::ReadHeader => 0,
            Call::Block | Call::ReadBlock => 1,
            Call::State => 2,
            Call::Finality | Call::ReadConsensus => 3,
        }
    }
    fn path(self, id: &Id) -> String {
        match self.kind() {
            0 => format!("/eth/v1/beacon/headers/{id}"),
            1 => format!("/eth/v2/beacon/blocks/{id}"),
            2 => format!("/eth/v2/debug/beacon/states/{id}"),
            _ => format!("/eth/v1/beacon/states/{id}/finality_checkpoints"),
        }
    }
}
fn good(call: Call, k: u64, reply: Reply) -> Value {
    match call.kind() {
        0 => {
            let (h, sig) = header(k);
            json!({"execution_optimistic": false, "finalized": k % 2 == 0, "data": {
                "root": format!("0x{}", hex(&h.root())), "canonical": true,
                "header": {"message": {
                    "slot": h.slot.to_string(), "proposer_index": h.proposer.to_string(), "parent_root": format!("0x{}", hex(&h.parent)),
                    "state_root": format!("0x{}", hex(&h.state)), "body_root": format!("0x{}", hex(&h.body)),
                }, "signature": format!("0x{}", hex(&sig))},
            }})
        }
        1 => {
            let b = block(k);
            json!({"version": b.version().to_string(), "execution_optimistic": false, "finalized": true, "data": {
                "message": serde_json::to_value(&b).unwrap(), "signature": format!("0x{}", hex(&[3; 96])),
            }})
        }
        2 => {
            let i = (k % 6) as usize;
            let version = match reply {
                Reply::Version(n) => FORKS[(STATE_FORK[i] + 1 + n as usize) % 9],
                _ => FORKS[STATE_FORK[i]],
            };
            json!({"version": version, "execution_optimistic": false, "finalized": true, "data": states()[i].1})
        }
        _ => {
            let [p, j, f] = finality(k);
            json!({"execution_optimistic": false, "finalized": false, "data": {
                "previous_justified": cp(p.0, &p.1), "current_justified": cp(j.0, &j.1), "finalized": cp(f.0, &f.1),
            }})
        }
    }
}
fn answer(call: Call, k: u64, reply: Reply) -> Answer {
    let ok = |v: Value| Answer::Status(200, Arc::new(v.to_string().into_bytes()));
    match reply {
        Reply::Good | Reply::Version(_) => ok(good(call, k, reply)),
        Reply::Status(s) => Answer::Status(s, Arc::new(json!({"code": s, "message": "no"}).to_string().into_bytes())),
        Reply::Broken => Answer::Broken,
        Reply::Cut(n) => {
            let mut b = good(call, k, reply).to_string().into_bytes();
            b.truncate((b.len() - 1) * n as usize / 256);
            Answer::Status(200, Arc::new(b))
        }
        Reply::Bare => ok(good(call, k, reply)["data"].clone()),
        Reply::Empty => ok(json!({"execution_optimistic": false})),
        Reply::Null => ok(json!({"data": null})),
    }
}
/// What the client makes of an answer: nothing if it fails, and maybe that there is nothing.
#[derive(Debug, PartialEq)]
enum Got {
    Fail,
    Absent,
    Header(Box<(Hdr, Vec<u8>)>),
    Block(Box<BeaconBlock>),
    State(Box<BeaconState>),
    Finality([(u64, Chunk); 3]),
    Consensus(ConsensusState),
}
fn want(call: Call, k: u64, reply: Reply) -> Got {
    match reply {
        Reply::Good => {}
        Reply::Version(_) if call != Call::State => {}
        Reply::Status(404) if call.kind() < 2 => return Got::Absent,
        _ => return Got::Fail,
    }
    match call.kind() {
        0 => {
            let (h, sig) = header(k);
            Got::Header(Box::new((h, sig.to_vec())))
        }
        1 => Got::Block(Box::new(block(k))),
        2 => Got::State(Box::new(states()[(k % 6) as usize].0.clone())),
        _ if call == Call::Finality => Got::Finality(finality(k)),
        _ => {
            let [_, j, f] = finality(k);
            Got::Consensus(ConsensusState::new(ccp(j), ccp(f)))
        }
    }
}
fn hdr(h: ethereum_consensus::phase0::SignedBeaconBlockHeader) -> Got {
    let m = h.message;
    let x = Hdr { slot: m.slot, proposer: m.proposer_index as u64, parent: m.parent_root.0, state: m.state_root.0, body: m.body_root.0 };
    Got::Header(Box::new((x, h.signature.to_vec())))
}
async fn run(client: &BeaconClient, call: Call, id: &Id) -> (Got, String) {
    fn opt<T, X: std::fmt::Display>(r: Result<Option<T>, X>, f: impl Fn(T) -> Got) -> (Got, String) {
        match r {
            Ok(Some(x)) => (f(x), String::new()),
            Ok(None) => (Got::Absent, String::new()),
            Err(e) => (Got::Fail, format!("{e:#}")),
        }
    }
    match call {
        Call::Header => opt(client.get_block_header(id).await, |r| {
            let root = r.root.0;
            let h = hdr(r.header);
            match &h {
                Got::Header(x) if x.0.root() == root && r.canonical => h,
                _ => Got::Fail,
            }
        }),
        Call::ReadHeader => opt(ChainReader::get_block_header(client, id).await, hdr),
        Call::Block => opt(client.get_block(id).await, |b| Got::Block(Box::new(b))),
        Call::ReadBlock => opt(ChainReader::get_block(client, id).await, |b| Got::Block(Box::new(b))),
        Call::State => opt(client.get_beacon_state(id).await.map(Some), |s| Got::State(Box::new(s))),
        Call::Finality => opt(client.get_finality_checkpoints(id).await.map(Some), |r| {
            Got::Finality([r.previous_justified, r.current_justified, r.finalized].map(|c| (c.epoch, c.root.0)))
        }),
        Call::ReadConsensus => opt(client.get_consensus_state(id).await.map(Some), Got::Consensus),
    }
}
fn name() -> String {
    static N: AtomicU64 = AtomicU64::new(0);
    format!("api{}.test", N.fetch_add(1, Ordering::Relaxed))
}
const PREFIX: [&str; 4] = ["", "/", "/key-1/", "/a/b/"];

pub fn check_api(p: &ApiCase, c: &mut Case) -> Verdict {
    let host = name();
    let prefix = PREFIX[p.prefix as usize];
    // one reply for every path: that of the first call
    let mut replies: BTreeMap<String, (Call, u64, Reply)> = BTreeMap::new();
    for (call, id, reply) in &p.calls {
        replies
            .entry(format!("{}{}", prefix.trim_end_matches('/'), call.path(id)))
            .or_insert((*call, content(*call, id, p.salt), *reply));
    }
    let stray = Arc::new(Mutex::new(None));
    let (r, s) = (replies.clone(), stray.clone());
    sim::register(
        &host,
        Arc::new(move |url| match r.get(url.path()) {
            Some((call, k, reply)) if url.query().is_none() => answer(*call, *k, *reply),
            _ => {
                *s.lock().unwrap() = Some(url.to_string());
                Answer::Status(404, Default::default())
            }
        }),
    );
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let mut b = BeaconClient::builder(format!("http://{host}{prefix}").parse().unwrap());
    if p.limit {
        b = b.with_rate_limit(1000);
    } else {
        b = b.with_rate_limit(0);
    }
    if p.cache {
        b = b.with_cache(dir.path());
    }
    let client = b.build();
    let all: Vec<(Got, String)> = if p.together {
        block_on(futures::future::join_all(p.calls.iter().map(|(call, id, _)| run(&client, *call, id))))
    } else {
        p.calls.iter().map(|(call, id, _)| block_on(run(&client, *call, id))).collect()
    };
    sim::unregister(&host);
    check!(stray.lock().unwrap().is_none(), "the client asks for {:?}", stray.lock().unwrap());
    let mut seen = [false; 3];
    for ((call, id, _), (got, e)) in p.calls.iter().zip(&all) {
        let (_, k, reply) = replies[&format!("{}{}", prefix.trim_end_matches('/'), call.path(id))];
        let want = want(*call, k, reply);
        seen[match want {
            Got::Fail => 0,
            Got::Absent => 1,
            _ => 2,
        }] = true;
        check!(*got == want, "{call:?} of {id}, which the node answers by {reply:?}, gives {got:?} {e}, expected {want:?}");
    }
    c.label_if(seen[0], "failure");
    c.label_if(seen[1], "absent");
    c.label_if(seen[2], "answer");
    c.nontrivial(seen[2] && (seen[0] || seen[1]));
    Ok(())
}

// ---- the limit of the rate ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LimitCase {
    pub rps: u32,
    pub more: u32,
    pub together: bool,
    /// no cache, or one named before or after the limit
    pub cache: Option<bool>,
    /// limits that were given to the builder before the one that counts
    pub before: Option<u32>,
    pub clones: u8,
}
pub fn limit_case() -> BoxedStrategy<LimitCase> {
    let before = prop::option::weighted(0.3, prop_oneof![Just(0u32), 1000u32..100_000]);
    (50u32..400, 1u32..120, any::<bool>(), prop::option::of(any::<bool>()), before, 1u8..4)
        .prop_map(|(rps, more, together, cache, before, clones)| LimitCase { rps, more, together, cache, before, clones })
        .boxed()
}
pub fn check_limit(p: &LimitCase, c: &mut Case) -> Verdict {
    let host = name();
    let asked = Arc::new(AtomicU64::new(0));
    let count = asked.clone();
    sim::register(
        &host,
        Arc::new(move |_| {
            count.fetch_add(1, Ordering::Relaxed);
            answer(Call::Finality, 1, Reply::Good)
        }),
    );
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let mut b = BeaconClient::builder(format!("http://{host}/").parse().unwrap());
    if p.cache == Some(false) {
        b = b.with_cache(dir.path());
    }
    if let Some(rps) = p.before {
        b = b.with_rate_limit(rps);
    }
    b = b.with_rate_limit(p.rps);
    if p.cache == Some(true) {
        b = b.with_cache(dir.path());
    }
    let client = b.build();
    let clients: Vec<BeaconClient> = (0..p.clones).map(|_| client.clone()).collect();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let n = p.rps + p.more;
    let start = Instant::now();
    let ok = rt.block_on(async {
        let calls = (0..n).map(|i| clients[i as usize % clients.len()].get_finality_checkpoints(i));
        if p.together {
            futures::future::join_all(calls).await.iter().filter(|r| r.is_ok()).count()
        } else {
            let mut ok = 0;
            for call in calls {
                ok += usize::from(call.await.is_ok());
            }
            ok
        }
    });
    let took = start.elapsed();
    sim::unregister(&host);
    c.label_if(p.cache.is_some(), "cache");
    c.label_if(p.together, "together");
    c.label_if(p.clones > 1, "clones");
    c.nontrivial(true);
    check_eq!(ok, n as usize, "answered requests");
    check_eq!(asked.load(Ordering::Relaxed), n as u64, "requests that reach the node");
    // a second's worth of requests at once, and the rest at the rate
    let least = Duration::from_secs_f64(p.more as f64 / p.rps as f64 * 0.95);
    check!(took >= least, "{n} requests at {} per second are made in {took:?}", p.rps);
    Ok(())
}
