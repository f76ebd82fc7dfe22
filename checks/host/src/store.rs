//! Providers of states: files, the node's API kept in files, the cache. C31.

use crate::chain::E;
use crate::readers::block_on;
use crate::state;
use crate::world::rnd64;
use host::mainnet::BeaconState;
use host::{BeaconClient, CacheStateProvider, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError};
use proptest::collection::vec;
use proptest::prelude::*;
use reqwest::sim::{self, Answer};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{Epoch, Slot};

/// The slots that occur: around epoch boundaries, some a prefix of another as text.
pub const SLOTS: [u64; 9] = [0, 1, 31, 32, 33, 320, 3200, 3199, 10_000_000];
fn pool() -> &'static Vec<[Arc<BeaconState>; 2]> {
    static P: OnceLock<Vec<[Arc<BeaconState>; 2]>> = OnceLock::new();
    P.get_or_init(|| {
        (0..SLOTS.len()).map(|k| [0, 1].map(|v| Arc::new(state_of(k, v)))).collect()
    })
}
fn state_of(k: usize, v: usize) -> BeaconState {
    let mut s = state::build(5 + (k + v) % 2, SLOTS[k], rnd64(&[k as u64, v as u64, 31]));
    // the last block is that of the slot, or of an earlier one
    let block = if v == 0 { SLOTS[k] } else { SLOTS.into_iter().filter(|s| *s < SLOTS[k]).max().unwrap_or(0) };
    match &mut s {
        BeaconState::Electra(s) => s.latest_block_header.slot = block,
        BeaconState::Fulu(s) => s.latest_block_header.slot = block,
        _ => {}
    }
    s
}
fn len(k: usize, v: usize) -> u64 {
    static L: OnceLock<Vec<[u64; 2]>> = OnceLock::new();
    L.get_or_init(|| (0..SLOTS.len()).map(|k| [0, 1].map(|v| ssz_rs::serialize(&*pool()[k][v]).unwrap().len() as u64)).collect())[k][v]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Save(u8, u8),
    /// saving is cut off after this share (of 65536) of the bytes: the process dies, or the write fails
    Cut(u8, u8, u32, bool),
    Get(u8),
    /// by way of the cache
    Cached(u8),
    /// clear what is before this slot's epoch (or the one after)
    Clear(u8, bool),
    Reopen,
    /// a file that does not belong to the provider
    Foreign(u8),
    // of the API: whether it answers
    Api(u8),
}
const FOREIGN: [&str; 4] = ["notes.txt", "state_5.ssz", "README", "x_32_beacon_state.ssz"];

fn pick() -> BoxedStrategy<u8> {
    (0..SLOTS.len() as u8).boxed()
}
pub fn ops() -> BoxedStrategy<Vec<Op>> {
    let cut = prop_oneof![4 => 0u32..65536, 1 => Just(0u32), 1 => 65400u32..65536, 2 => 65536u32..65600];
    let op = prop_oneof![
        5 => (pick(), 0u8..2).prop_map(|(k, v)| Op::Save(k, v)),
        3 => (pick(), 0u8..2, cut, any::<bool>()).prop_map(|(k, v, n, kill)| Op::Cut(k, v, n, kill)),
        4 => pick().prop_map(Op::Get),
        2 => pick().prop_map(Op::Cached),
        2 => (pick(), any::<bool>()).prop_map(|(k, b)| Op::Clear(k, b)),
        1 => Just(Op::Reopen),
        1 => (0u8..4).prop_map(Op::Foreign),
    ];
    (vec(op, 1..14), 0u8..3)
        .prop_map(|(mut v, few)| {
            // often a few slots only
            for o in &mut v {
                if let Op::Save(k, _) | Op::Cut(k, ..) | Op::Get(k) | Op::Cached(k) = o
                    && few == 0
                {
                    *k = [6, 7, 7, 3][*k as usize % 4];
                }
            }
            v
        })
        .boxed()
}

/// `host-checks --save DIR K V`, run as a child whose writes are limited.
pub fn child(args: &[String]) -> i32 {
    let [dir, k, v] = args else { return 2 };
    let (k, v) = (k.parse().unwrap(), v.parse().unwrap());
    match FileProvider::<E>::new(dir.as_str()).and_then(|p| p.save_state(&state_of(k, v))) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
fn cut_save(dir: &Path, k: usize, v: usize, limit: u64, kill: bool) -> bool {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("--save").arg(dir).args([k.to_string(), v.to_string()]);
    cmd.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            if !kill {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            }
            if libc::setrlimit(libc::RLIMIT_CORE, &none) != 0 || libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    cmd.status().expect("child").success()
}
fn same(a: &BeaconState, k: usize, v: usize) -> bool {
    *a == *pool()[k][v]
}

pub fn check_files(ops: &Vec<Op>, c: &mut Case) -> Verdict {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let open = || FileProvider::<E>::new(dir.path()).map_err(|e| e.to_string());
    let mut p = open()?;
    let mut cached = CacheStateProvider::new(p.clone());
    let mut kept: BTreeMap<usize, usize> = BTreeMap::new();
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let mut foreign = BTreeSet::new();
    let mut cuts = false;
    let get = |p: &FileProvider<E>, k: usize, want: Option<&usize>| -> Verdict {
        let got = catch(|| p.state_at_slot(Slot::new(SLOTS[k]))).map_err(|e| format!("reading slot {} panics: {e}", SLOTS[k]))?;
        match (got, want) {
            (Ok(s), Some(v)) => check!(same(&s, k, *v), "the state read at slot {} is not the one that was saved", SLOTS[k]),
            (Ok(_), None) => return Err(format!("a state at slot {}, where none was saved", SLOTS[k])),
            (Err(StateProviderError::NotFound(s)), None) => check_eq!(s.as_u64(), SLOTS[k], "slot that is not found"),
            (Err(e), None) => return Err(format!("no state was saved at slot {}, but it is not reported as missing: {e:?}", SLOTS[k])),
            (Err(e), Some(_)) => return Err(format!("the state saved at slot {} is not found: {e:?}", SLOTS[k])),
        }
        Ok(())
    };
    for op in ops {
        match *op {
            Op::Save(k, v) => {
                let (k, v) = (k as usize, v as usize);
                let r = p.save_state(&pool()[k][v]);
                if model.contains_key(&k) {
                    check!(r.is_err(), "the state at slot {} is overwritten", SLOTS[k]);
                    get(&p, k, model.get(&k))?;
                } else {
                    r.map_err(|e| format!("the state at slot {} cannot be saved: {e:#}", SLOTS[k]))?;
                    model.insert(k, v);
                    c.label_if(cuts, "saved after a cut");
                }
            }
            Op::Cut(k, v, n, kill) => {
                let (k, v) = (k as usize, v as usize);
                let size = len(k, v);
                let limit = if n > 65535 { size + n as u64 - 65536 } else { (size - 1) * n as u64 / 65536 };
                let done = cut_save(dir.path(), k, v, limit, kill);
                match model.get(&k) {
                    Some(_) => check!(!done, "the state at slot {} is overwritten", SLOTS[k]),
                    None if limit >= size => {
                        check!(done, "saving {size} bytes fails, although there is room for {limit}");
                        model.insert(k, v);
                    }
                    None => {
                        c.label(if kill { "killed while saving" } else { "write failed" });
                        cuts = true;
                        check!(!done, "saving {size} bytes succeeds, although only {limit} can be written");
                        // all or nothing
                        match catch(|| p.state_at_slot(Slot::new(SLOTS[k]))).map_err(|e| format!("reading panics: {e}"))? {
                            Err(StateProviderError::NotFound(_)) => {}
                            Ok(s) if same(&s, k, v) => drop(model.insert(k, v)),
                            Ok(_) => return Err(format!("saving the state at slot {} was cut off after {limit} of {size} bytes; now another state is read", SLOTS[k])),
                            Err(e) => {
                                return Err(format!("saving the state at slot {} was cut off after {limit} of {size} bytes; it is not reported as missing: {e:?}", SLOTS[k]));
                            }
                        }
                    }
                }
                get(&p, k, model.get(&k))?;
            }
            Op::Get(k) => get(&p, k as usize, model.get(&(k as usize)))?,
            Op::Cached(k) => {
                let k = k as usize;
                let want = kept.get(&k).or(model.get(&k)).copied();
                match (cached.state_at_slot(Slot::new(SLOTS[k])), want) {
                    (Ok(s), Some(v)) => {
                        check!(same(&s, k, v), "the cache gives another state at slot {}", SLOTS[k]);
                        c.label_if(kept.contains_key(&k) && !model.contains_key(&k), "cached only");
                        kept.insert(k, v);
                    }
                    (Err(StateProviderError::NotFound(_)), None) => {}
                    (got, _) => return Err(format!("state at slot {} by way of the cache: found {}, expected {want:?}", SLOTS[k], got.is_ok())),
                }
                if let Some((k, v)) = kept.iter().next() {
                    let got = cached.genesis_validators_root().map_err(|e| e.to_string())?;
                    let of = |k: usize, v: usize| pool()[k][v].genesis_validators_root();
                    check!(
                        got == of(*k, *v) || kept.iter().any(|(k, v)| got == of(*k, *v)) || model.get(&0).is_some_and(|v| got == of(0, *v)),
                        "genesis validators root of no state"
                    );
                }
            }
            Op::Clear(k, next) => {
                let epoch = SLOTS[k as usize] / 32 + u64::from(next);
                p.clear_states_before(Epoch::new(epoch)).map_err(|e| format!("clearing fails: {e:#}"))?;
                let n = model.len();
                model.retain(|k, _| SLOTS[*k] >= epoch * 32);
                c.label_if(n != model.len(), "cleared");
            }
            Op::Reopen => {
                p = open()?;
                cached = CacheStateProvider::new(p.clone());
                kept.clear();
            }
            Op::Foreign(i) => {
                std::fs::write(dir.path().join(FOREIGN[i as usize]), [i]).map_err(|e| e.to_string())?;
                foreign.insert(i);
            }
            Op::Api(_) => {}
        }
    }
    c.nontrivial(!model.is_empty() && ops.len() > 2);
    for k in 0..SLOTS.len() {
        // reading is slow
        if model.contains_key(&k) || rnd64(&[k as u64, ops.len() as u64]) % 3 == 0 {
            get(&p, k, model.get(&k))?;
        }
    }
    for i in foreign {
        let got = std::fs::read(dir.path().join(FOREIGN[i as usize])).map_err(|e| format!("{} is gone: {e}", FOREIGN[i as usize]))?;
        check_eq!(got, vec![i], "content of {}", FOREIGN[i as usize]);
    }
    Ok(())
}

// ---- the provider that asks the node and keeps what it gets ----

fn body(k: usize, v: usize) -> Arc<Vec<u8>> {
    static B: Mutex<BTreeMap<(usize, usize), Arc<Vec<u8>>>> = Mutex::new(BTreeMap::new());
    if let Some(b) = B.lock().unwrap().get(&(k, v)) {
        return b.clone();
    }
    let s = &pool()[k][v];
    let text = format!(
        "{{\"version\":\"{}\",\"execution_optimistic\":false,\"finalized\":true,\"data\":{}}}",
        s.version(),
        serde_json::to_string(&**s).unwrap()
    );
    let b = Arc::new(text.into_bytes());
    B.lock().unwrap().insert((k, v), b.clone());
    b
}
pub fn api_ops() -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        6 => pick().prop_map(Op::Get),
        1 => pick().prop_map(Op::Cached),
        2 => (pick(), any::<bool>()).prop_map(|(k, b)| Op::Clear(k, b)),
        1 => Just(Op::Reopen),
        2 => (0u8..6).prop_map(Op::Api),
        1 => (pick(), 0u8..2, 0u32..65536).prop_map(|(k, v, n)| Op::Cut(k, v, n, true)),
    ];
    (vec(op, 2..14), 0u8..3)
        .prop_map(|(mut v, few)| {
            // mostly a few slots only
            for o in &mut v {
                if let Op::Get(k) | Op::Cached(k) | Op::Cut(k, ..) = o
                    && few > 0
                {
                    *k = 3 + *k % 2;
                }
            }
            v
        })
        .boxed()
}
pub fn check_api(ops: &Vec<Op>, c: &mut Case) -> Verdict {
    static N: AtomicU64 = AtomicU64::new(0);
    let host = format!("node{}.test", N.fetch_add(1, Ordering::Relaxed));
    // 0 and 1: the variant of the states that the node gives; more: it fails
    let mode = Arc::new(Mutex::new((0u8, 0u64)));
    let m = mode.clone();
    sim::register(
        &host,
        Arc::new(move |url| {
            let mut m = m.lock().unwrap();
            m.1 += 1;
            let slot = url.path().strip_prefix("/eth/v2/debug/beacon/states/").and_then(|s| s.parse().ok());
            let k = SLOTS.iter().position(|s| Some(*s) == slot);
            match (m.0, k) {
                (v @ 0..=1, Some(k)) => Answer::Status(200, body(k, v as usize)),
                (2, Some(k)) => Answer::Status(200, Arc::new(body(k, 0)[..body(k, 0).len() / 2].to_vec())),
                (3, _) => Answer::Status(500, Default::default()),
                (4, _) => Answer::Broken,
                _ => Answer::Status(404, Arc::new(b"{\"code\":404,\"message\":\"not found\"}".to_vec())),
            }
        }),
    );
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().map_err(|e| e.to_string())?;
    let r = rt.block_on(async { run_api(ops, c, &host, &mode) });
    sim::unregister(&host);
    r
}
fn run_api(ops: &[Op], c: &mut Case, host: &str, mode: &Mutex<(u8, u64)>) -> Verdict {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let client = BeaconClient::builder(format!("http://{host}/").parse().unwrap()).build();
    let open = || PersistentApiStateProvider::<E>::new(dir.path(), client.clone()).map_err(|e| e.to_string());
    let mut p = open()?;
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let (fetched, reread) = (Cell::new(0), Cell::new(0));
    let get = |p: &PersistentApiStateProvider<E>, k: usize, cached: bool, model: &mut BTreeMap<usize, usize>| -> Verdict {
        let (api, before) = *mode.lock().unwrap();
        let slot = SLOTS[k];
        let got = catch(|| {
            if cached { CacheStateProvider::new(p.clone()).state_at_slot(Slot::new(slot)) } else { p.state_at_slot(Slot::new(slot)) }
        })
        .map_err(|e| format!("getting the state at slot {slot} panics: {e}"))?;
        let asked = mode.lock().unwrap().1 - before;
        let want = match model.get(&k) {
            Some(v) => {
                check_eq!(asked, 0, "requests for the state at slot {slot}, which is stored");
                reread.set(reread.get() + 1);
                Some(*v)
            }
            None => (api < 2).then_some(api as usize),
        };
        match (got, want) {
            (Ok(s), Some(v)) => {
                check!(same(&s, k, v), "the state at slot {slot} is another one");
                if model.insert(k, v).is_none() {
                    fetched.set(fetched.get() + 1);
                }
            }
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("a state at slot {slot}, although the node fails")),
            (Err(e), Some(_)) => return Err(format!("no state at slot {slot}, although it is stored or the node has it: {e:#}")),
        }
        Ok(())
    };
    for op in ops {
        match *op {
            Op::Get(k) => get(&p, k as usize, false, &mut model)?,
            Op::Cached(k) => get(&p, k as usize, true, &mut model)?,
            Op::Clear(k, next) => {
                let epoch = SLOTS[k as usize] / 32 + u64::from(next);
                p.clear_states_before(Epoch::new(epoch)).map_err(|e| format!("clearing fails: {e:#}"))?;
                model.retain(|k, _| SLOTS[*k] >= epoch * 32);
            }
            Op::Reopen => p = open()?,
            Op::Api(m) => {
                mode.lock().unwrap().0 = m;
                c.label_if(m > 1, "failing node");
            }
            // an earlier process that died while saving
            Op::Cut(k, v, n, kill) => {
                let (k, v) = (k as usize, v as usize);
                if !model.contains_key(&k) {
                    cut_save(dir.path(), k, v, (len(k, v) - 1) * n as u64 / 65536, kill);
                    c.label("killed while saving");
                }
            }
            Op::Save(..) | Op::Foreign(_) => {}
        }
    }
    mode.lock().unwrap().0 = 4;
    for k in model.clone().into_keys() {
        get(&p, k, false, &mut model)?;
    }
    c.nontrivial(fetched.get() > 0 && reread.get() > 0);
    let _ = block_on(async {});
    Ok(())
}
