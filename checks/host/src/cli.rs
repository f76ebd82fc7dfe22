//! The command line program and the generator of tree positions, run as processes. C38, C39.

use crate::chain::*;
use crate::model::Chunk;
use crate::readers::{self, Node, Want, behind, journal, judge};
use crate::votes::ccp;
use host::{FileProvider, StateProvider};
use proptest::prelude::*;
use risc0_zkvm::sim;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{ConsensusState, Slot};

pub fn bin(name: &str) -> PathBuf {
    std::env::current_exe().expect("path of this program").with_file_name(name)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    /// build the input of one finalization, or of all up to the tip; the head is behind at first
    Build { continuous: bool, behind: u8 },
    Verify { r0vm: bool },
    Sync { r0vm: bool, at: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliCase {
    pub plan: Plan,
    pub cmd: Cmd,
    /// the node fails at this request; then the program runs again
    pub fail: Option<u8>,
    /// which states the program has to fetch
    pub fetch: u16,
    /// files of these names are there already, from another time: the input, the journal
    #[serde(default)]
    pub stale: u8,
}
fn junk() -> Vec<u8> {
    vec![0xa5; 1 << 20]
}
pub fn cli_case() -> BoxedStrategy<CliCase> {
    let cmd = prop_oneof![
        3 => (any::<bool>(), 0u8..3).prop_map(|(continuous, behind)| Cmd::Build { continuous, behind }),
        2 => any::<bool>().prop_map(|r0vm| Cmd::Verify { r0vm }),
        3 => (any::<bool>(), prop_oneof![0u16..320, 0u16..100]).prop_map(|(r0vm, at)| Cmd::Sync { r0vm, at }),
    ];
    (
        prop_oneof![6 => plan(false), 3 => plan(true), 1 => plan_with(false, 0.99)],
        any::<bool>(),
        cmd,
        prop_oneof![3 => Just(None), 1 => (0u8..40).prop_map(Some)],
        prop_oneof![3 => Just(0u16), 1 => (0u32..16).prop_map(|k| 1 << k)],
        0..4,
        prop_oneof![3 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(mut plan, sepolia, cmd, fail, fetch, good, stale)| {
            plan.net = if sepolia { NetKind::Sepolia } else { NetKind::Mainnet };
            plan.settle();
            if good > 0 {
                plan.trusted %= 160;
                for e in &mut plan.epochs {
                    if e.share < 128 {
                        e.share += 127;
                    }
                }
            }
            CliCase { plan, cmd, fail, fetch, stale }
        })
        .boxed()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
struct Server<'a> {
    chain: &'a Chain,
    /// how often the head is still behind
    behind: u8,
    requests: u32,
    heads: u32,
    fail: Option<u8>,
    failed: bool,
}
impl Server<'_> {
    fn answer(&mut self, path: &str) -> (u16, Vec<u8>) {
        let n = self.requests;
        self.requests += 1;
        if self.fail.is_some_and(|k| k as u32 == n) {
            self.failed = true;
            return (500, b"{\"code\":500,\"message\":\"no\"}".to_vec());
        }
        match self.content(path) {
            Some(v) => (200, v.to_string().into_bytes()),
            None => (404, b"{\"code\":404,\"message\":\"not found\"}".to_vec()),
        }
    }
    fn content(&mut self, path: &str) -> Option<Value> {
        let chain = self.chain;
        let node = Node::new(chain);
        if let Some(id) = path.strip_prefix("/eth/v1/beacon/headers/") {
            let b = node.block_at(id)?;
            return Some(json!({"execution_optimistic": false, "finalized": true, "data": {
                "root": format!("0x{}", hex(&b.root)), "canonical": true, "header": serde_json::to_value(chain.signed_header(b)).unwrap(),
            }}));
        }
        if let Some(id) = path.strip_prefix("/eth/v2/beacon/blocks/") {
            let b = node.block_at(id)?;
            return Some(json!({"version": b.real.version().to_string(), "execution_optimistic": false, "finalized": true, "data": {
                "message": serde_json::to_value(&b.real).unwrap(), "signature": format!("0x{}", hex(&[0; 96])),
            }}));
        }
        if let Some(id) = path.strip_prefix("/eth/v2/debug/beacon/states/") {
            let s = node.state_at_slot(Slot::new(id.parse().ok()?)).ok()?;
            return Some(json!({"version": s.version().to_string(), "execution_optimistic": false, "finalized": true, "data": serde_json::to_value(&*s).unwrap()}));
        }
        let id = path.strip_prefix("/eth/v1/beacon/states/")?.strip_suffix("/finality_checkpoints")?;
        let s = if id == "head" {
            self.heads += 1;
            chain.st(chain.last())
        } else {
            let slot = id.parse().ok()?;
            chain.has(slot).then(|| chain.st(slot))?
        };
        let cp = |c: (u64, Chunk)| json!({"epoch": c.0.to_string(), "root": format!("0x{}", hex(&c.1))});
        let mut f = s.f;
        if id == "head" && self.heads <= self.behind as u32 {
            f.0 = chain.plan.base.min(f.0) - 1;
        }
        Some(json!({"execution_optimistic": false, "finalized": false, "data": {
            "previous_justified": cp(s.pj), "current_justified": cp(s.j), "finalized": cp(f),
        }}))
    }
    fn serve(&mut self, mut s: TcpStream) -> std::io::Result<()> {
        s.set_nonblocking(false)?;
        s.set_read_timeout(Some(Duration::from_secs(20)))?;
        let mut head = vec![];
        let mut buf = [0; 4096];
        while !head.windows(4).any(|w| w == b"\r\n\r\n") {
            let n = s.read(&mut buf)?;
            if n == 0 {
                return Ok(());
            }
            head.extend(&buf[..n]);
        }
        let head = String::from_utf8_lossy(&head).into_owned();
        let path = head.split(' ').nth(1).unwrap_or_default();
        let (code, body) = self.answer(path);
        write!(s, "HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len())?;
        s.write_all(&body)
    }
}
/// Some(success), or none if the program was stopped because it waits for the chain.
struct Ran {
    ok: Option<bool>,
    failed: bool,
    out: String,
}
fn run(case: &CliCase, chain: &Chain, dir: &Path, epoch: u64, log: &Path, fail: Option<u8>) -> Result<Ran, String> {
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    l.set_nonblocking(true).map_err(|e| e.to_string())?;
    let port = l.local_addr().map_err(|e| e.to_string())?.port();
    let mode = |r0vm: &bool| ["native", "r0vm"][*r0vm as usize];
    let mut cmd = Command::new(bin("zkasper_cli"));
    cmd.env_clear().env("RUST_BACKTRACE", "0").env("NO_COLOR", "1").current_dir(dir);
    cmd.args(["--beacon-api", &format!("http://127.0.0.1:{port}"), "--data-dir"]).arg(dir);
    cmd.args(["--network", if case.plan.net == NetKind::Sepolia { "sepolia" } else { "mainnet" }, "--log-level", "error"]);
    let mut behind = 0;
    match &case.cmd {
        Cmd::Build { continuous, behind: b } => {
            behind = *b;
            cmd.args(["build-input", "--finalized-epoch", &epoch.to_string(), "--retry-interval", "0"]);
            if *continuous {
                cmd.arg("--continuous");
            }
        }
        Cmd::Verify { r0vm } => {
            cmd.args(["verify", "--mode", mode(r0vm), "--trusted-epoch", &epoch.to_string()]);
        }
        Cmd::Sync { r0vm, at } => {
            let slot = chain.first + *at as u64;
            cmd.args(["sync", "--mode", mode(r0vm), "--start-slot", &slot.to_string(), "--log-path"]).arg(log);
        }
    }
    let out = dir.join("stdout");
    let file = std::fs::File::create(&out).map_err(|e| e.to_string())?;
    cmd.stdin(Stdio::null()).stdout(file.try_clone().map_err(|e| e.to_string())?).stderr(file);
    let mut child = cmd.spawn().map_err(|e| format!("zkasper_cli does not start: {e}"))?;
    let mut server = Server { chain, behind, requests: 0, heads: 0, fail, failed: false };
    let start = Instant::now();
    let mut others = (0, 0);
    let ok = loop {
        match l.accept() {
            Ok((s, _)) => {
                let _ = server.serve(s);
                // nothing but heads: it waits
                let now = server.requests - server.heads;
                if now != others.0 {
                    others = (now, server.heads);
                }
                if server.heads > others.1 + behind as u32 + 3 {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                continue;
            }
            Err(_) => std::thread::sleep(Duration::from_micros(200)),
        }
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break Some(s.success());
        }
        if start.elapsed() > Duration::from_secs(100) {
            let _ = child.kill();
            let _ = child.wait();
            return Err("the program does not end".into());
        }
    };
    let out = std::fs::read(&out).map_err(|e| e.to_string())?;
    Ok(Ran { ok, failed: server.failed, out: String::from_utf8_lossy(&out[out.len().saturating_sub(600)..]).into_owned() })
}

/// What must come of the finalization after `f`: on the host, and in the guest.
struct Next {
    host: Want,
    guest: Want,
    pre: Option<crate::ffg::Ffg<crate::votes::RealCp>>,
}
fn next(chain: &Chain, epoch: u64) -> Next {
    let fail = |why| Next { host: Want::Fail(why), guest: Want::Fail(why), pre: None };
    if epoch < chain.plan.base || epoch >= chain.plan.base + chain.plan.epochs.len() as u64 {
        return fail("no such state");
    }
    let f = chain.cp(epoch);
    let x = chain.expect(f);
    if let Some(why) = x.why {
        return fail(why);
    }
    let links: Vec<_> = x.links.iter().map(|l| l.0).collect();
    let of = |last: bool| -> Vec<Vec<&Att>> {
        x.links
            .iter()
            .map(|(l, shown)| {
                chain.atts.iter().filter(|a| a.link() == *l && a.included.iter().any(|s| last || *s < shown * SPE)).collect()
            })
            .collect()
    };
    let (must, may) = (of(false), of(true));
    let host = judge(chain, f, &links, x.post.unwrap(), &|e| chain.st(e * SPE).clone(), &must, &may);
    let boundary = chain.head(f.0 * SPE);
    let old = chain.st(boundary.hdr.slot);
    let seen = |e: u64| readers::trusted_view(chain.st(e * SPE), old);
    let mut guest = judge(chain, f, &links, x.post.unwrap(), &seen, &must, &may);
    if matches!(guest, Want::Done(..)) && behind(chain, f, x.pre.unwrap().j.0, &links) {
        guest = Want::Either;
    }
    Next { host, guest, pre: x.pre }
}
fn files(dir: &Path, net: &str, kind: &str) -> BTreeMap<String, Vec<u8>> {
    let Ok(l) = std::fs::read_dir(dir.join(net).join(kind)) else { return BTreeMap::new() };
    l.flatten()
        .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()))
        .filter(|f| f.1 != junk())
        .collect()
}

pub fn check_cli(case: &CliCase, c: &mut Case) -> Verdict {
    let chain = Chain::new(&case.plan);
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let net = if case.plan.net == NetKind::Sepolia { "sepolia" } else { "mainnet" };
    let log = dir.path().join("logs").join("sync.log");
    // most states are there
    std::fs::create_dir_all(dir.path().join(net).join("states")).map_err(|e| e.to_string())?;
    let store = FileProvider::<E>::new(dir.path().join(net).join("states")).map_err(|e| e.to_string())?;
    let node = Node::new(&chain);
    let mut slots = vec![0];
    for e in case.plan.base..case.plan.base + case.plan.epochs.len() as u64 {
        slots.extend([e * SPE, chain.head(e * SPE).hdr.slot]);
    }
    slots.sort();
    slots.dedup();
    for (k, slot) in slots.iter().enumerate() {
        if case.fetch >> (k % 16) & 1 == 0 {
            let s = node.state_at_slot(Slot::new(*slot)).map_err(|e| e.to_string())?;
            store.save_state(&s).map_err(|e| format!("saving a state: {e:#}"))?;
        }
    }
    let epoch = readers::trusted(&chain).0;
    for (k, (kind, name)) in [("inputs", "stdin"), ("journals", "journal")].into_iter().enumerate() {
        if case.stale >> k & 1 == 1 {
            let d = dir.path().join(net).join(kind);
            std::fs::create_dir_all(&d).and_then(|()| std::fs::write(d.join(format!("{epoch}_{name}.bin")), junk())).map_err(|e| e.to_string())?;
        }
    }
    c.label_if(case.stale > 0, "old files");
    for fail in [case.fail.map(Some), Some(None)].into_iter().flatten() {
        let _ = std::fs::remove_file(&log);
        let ran = run(case, &chain, dir.path(), epoch, &log, fail)?;
        c.label_if(ran.failed, "the node fails");
        judge_run(case, &chain, dir.path(), net, epoch, &log, &ran, c).map_err(|e| format!("{e}; the program ends with {:?} and {:?}", ran.ok, ran.out))?;
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn judge_run(case: &CliCase, chain: &Chain, dir: &Path, net: &str, epoch: u64, log: &Path, ran: &Ran, c: &mut Case) -> Verdict {
    match &case.cmd {
        Cmd::Build { continuous, .. } => {
            let (inputs, journals) = (files(dir, net, "inputs"), files(dir, net, "journals"));
            let tip = chain.st(chain.last()).f.0;
            let mut f = epoch;
            let mut made = 0;
            // the files that may be there
            let mut known = vec![];
            let end = loop {
                if tip < f + 1 {
                    break None;
                }
                let n = next(chain, f);
                match n.host {
                    Want::Fail(why) => {
                        c.label(why);
                        break Some(false);
                    }
                    Want::Either => {
                        c.label("open");
                        return Ok(());
                    }
                    Want::Done(post, slot) => {
                        let want = journal(&n.pre.unwrap(), &post, slot);
                        let (i, j) = (format!("{f}_stdin.bin"), format!("{f}_journal.bin"));
                        match (inputs.get(&i), journals.get(&j)) {
                            (Some(input), Some(got)) => {
                                made += 1;
                                check_eq!(*got, want, "journal of epoch {f}");
                                check!(input.len() >= 4 && input[..4] == ((input.len() - 4) as u32).to_le_bytes(), "frame of the input of epoch {f}");
                                let (got, end) = sim::run(vec![input[4..].to_vec()], || {
                                    let conf = case.plan.conf().real();
                                    if catch(|| beacon_guest::entry::<E>(chain.spec.clone(), &conf)).is_err() {
                                        panic!("the guest fails");
                                    }
                                });
                                match n.guest {
                                    Want::Done(..) => {
                                        check!(end.is_ok(), "the guest refuses the input of epoch {f}");
                                        check_eq!(got, want, "journal of the guest for epoch {f}");
                                        c.nontrivial(true);
                                    }
                                    _ => check!(end.is_err() || got == want, "the guest makes another journal of the input of epoch {f}"),
                                }
                            }
                            (None, None) if ran.failed => break Some(false),
                            _ => return Err(format!("no input or no journal of epoch {f}")),
                        }
                        known.extend([i, j]);
                        f = post.f.0;
                        if !continuous {
                            break Some(true);
                        }
                    }
                }
            };
            for n in inputs.keys().chain(journals.keys()) {
                check!(known.contains(n), "{n} must not be there");
            }
            c.label_if(made > 1, "several inputs");
            if !ran.failed {
                check_eq!(ran.ok, end, "end of the program (none: it waits)");
                c.label_if(end.is_none(), "waits");
            }
        }
        Cmd::Verify { .. } => {
            let n = next(chain, epoch);
            let want = match (n.host, n.guest) {
                (Want::Fail(why), _) | (Want::Done(..), Want::Fail(why)) => {
                    c.label(why);
                    Some(false)
                }
                (Want::Done(..), Want::Done(..)) => Some(true),
                _ => None,
            };
            if let Some(w) = want {
                check!(ran.ok == Some(w) || ran.failed && ran.ok == Some(false), "verification ends with {:?}, expected {w}", ran.ok);
                c.label_if(w, "verified");
                c.nontrivial(w);
            }
        }
        Cmd::Sync { at, .. } => {
            let text = std::fs::read_to_string(log).unwrap_or_default();
            let mut lines = text.lines();
            let start = chain.first + *at as u64;
            check_eq!(ran.ok, Some(false), "the end of the program at the tip of the chain");
            if !chain.has(start) {
                check_eq!(lines.next(), None, "log without a start");
                return Ok(());
            }
            let mut f = chain.st(start).f.0;
            loop {
                let n = next(chain, f);
                let post = match n.host {
                    Want::Fail(why) => {
                        c.label(why);
                        break;
                    }
                    Want::Either => {
                        c.label("open");
                        return Ok(());
                    }
                    Want::Done(post, _) => post,
                };
                let Some(line) = lines.next() else {
                    check!(ran.failed, "the log ends before the finalization after {f}");
                    return Ok(());
                };
                let to = format!("{:?}", ConsensusState::new(ccp(post.j), ccp(post.f)));
                check!(line.contains(&to), "the log says {line}, expected a step to {to}");
                match n.guest {
                    Want::Done(..) => {
                        check!(line.ends_with("Ok"), "the log says {line}");
                        c.nontrivial(true);
                    }
                    Want::Fail(_) => {
                        check!(!line.ends_with("Ok"), "the log says {line}");
                        c.label("divergence");
                    }
                    Want::Either => {}
                }
                f = post.f.0;
            }
            check_eq!(lines.next(), None, "log after the tip");
        }
    }
    Ok(())
}
