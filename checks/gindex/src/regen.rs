//! C39: what the generator of the positions writes, whatever was there before. The generated code is
//! compiled, and its functions are compared with the layouts; its text does not matter.

use crate::guest_gindices as g;
use crate::{STATE, VALIDATOR};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use vharness::{Case, Check, Verdict, check, check_eq, facet};

const FILE: &str = "core/src/guest_gindices.rs";

fn generator() -> PathBuf {
    // built next to this program
    std::env::current_exe().unwrap().with_file_name("gen_gindices")
}

/// A directory of its own, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("gindices-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(d.join("core/src")).unwrap();
        Scratch(d)
    }
    fn read(&self) -> Option<Vec<u8>> {
        std::fs::read(self.0.join(FILE)).ok()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs the generator in `dir`, with files limited to `kib` KiB.
fn generate(dir: &Path, kib: Option<u32>) -> (bool, String) {
    let mut c = match kib {
        None => Command::new(generator()),
        Some(k) => {
            let mut c = Command::new("bash");
            c.args(["-c", "trap '' XFSZ; ulimit -f \"$0\" && exec \"$1\""]).arg(k.to_string()).arg(generator());
            c
        }
    };
    let out = c.current_dir(dir).stdin(Stdio::null()).output().expect("the generator can be started");
    (out.status.success(), String::from_utf8_lossy(&out.stderr).into_owned())
}

/// What the generator writes where there is no file.
fn fresh() -> Result<&'static [u8], String> {
    static FRESH: OnceLock<Result<Vec<u8>, String>> = OnceLock::new();
    FRESH
        .get_or_init(|| {
            let d = Scratch::new();
            let (ok, err) = generate(&d.0, None);
            check!(ok, "the generator fails: {err}");
            d.read().ok_or("the generator writes no file".into())
        })
        .as_ref()
        .map(Vec::as_slice)
        .map_err(Clone::clone)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Old {
    Missing,
    /// This many bytes of what the generator writes.
    CutOff(u16),
    /// The generator's output and something after it.
    Longer(Vec<u8>),
    Other(Vec<u8>),
    ReadOnly,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rerun {
    old: Old,
    times: u8,
    limit: Option<u32>,
}

fn check_rerun(r: &Rerun, c: &mut Case) -> Verdict {
    let want = fresh()?;
    let d = Scratch::new();
    let at = d.0.join(FILE);
    let old: Option<Vec<u8>> = match &r.old {
        Old::Missing => None,
        Old::CutOff(n) => Some(want[..*n as usize % want.len()].to_vec()),
        Old::Longer(x) => Some([want, x.as_slice()].concat()),
        Old::Other(x) => Some(x.clone()),
        Old::ReadOnly => Some(want.to_vec()),
    };
    if let Some(x) = &old {
        std::fs::write(&at, x).unwrap();
    }
    if matches!(r.old, Old::ReadOnly) {
        std::fs::remove_file(&at).unwrap();
        std::fs::create_dir(&at).unwrap();
    }
    c.nontrivial(old.as_deref() != Some(want) || r.limit.is_some());
    if let Some(kib) = r.limit {
        let (ok, _) = generate(&d.0, Some(kib));
        let fits = kib as usize * 1024 >= want.len() && !matches!(r.old, Old::ReadOnly);
        c.label_if(!fits, "not enough space");
        // it may fail for lack of space, but then it has to say so
        check!(!ok || d.read().as_deref() == Some(want), "the generator says it has written the positions, but has not");
        check!(ok || !fits, "the generator fails although there is space");
    }
    if matches!(r.old, Old::ReadOnly) {
        c.label("no file can be written");
        let (ok, _) = generate(&d.0, None);
        check!(!ok, "the generator says it has written the positions, but cannot have");
        return Ok(());
    }
    for _ in 0..=r.times % 2 {
        let (ok, err) = generate(&d.0, None);
        check!(ok, "the generator fails: {err}");
        check!(d.read().as_deref() == Some(want), "the result depends on what the file held before");
    }
    Ok(())
}
fn reruns() -> BoxedStrategy<Rerun> {
    let old = prop_oneof![
        1 => Just(Old::Missing),
        3 => any::<u16>().prop_map(Old::CutOff),
        3 => prop::collection::vec(any::<u8>(), 1..3000).prop_map(Old::Longer),
        3 => prop::collection::vec(any::<u8>(), 0..20_000).prop_map(Old::Other),
        1 => Just(Old::ReadOnly),
    ];
    let limit = prop_oneof![2 => Just(None), 1 => (0u32..12).prop_map(Some)];
    (old, any::<u8>(), limit).prop_map(|(old, times, limit)| Rerun { old, times, limit }).boxed()
}

const FIXED: &[&str] = &[
    "slot", "finalized_checkpoint_epoch", "genesis_validators_root", "fork_previous_version", "fork_current_version",
    "fork_epoch", "validators", "earliest_exit_epoch", "earliest_consolidation_epoch", "state_root", "block_slot",
];
const PER_VALIDATOR: &[&str] = &[
    "public_key_0", "public_key_1", "effective_balance", "activation_eligibility_epoch", "activation_epoch", "exit_epoch",
    "slashed",
];

/// The generated functions, as a program that answers each validator index with all values.
struct Compiled {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
fn compile() -> Result<Compiled, String> {
    let d = Scratch::new();
    std::fs::write(d.0.join(FILE), fresh()?).unwrap();
    let calls: String = FIXED.iter().map(|f| format!("gen::{f}_gindex(), ")).chain(PER_VALIDATOR.iter().map(|f| format!("gen::{f}_gindex(i), "))).collect();
    let main = format!(
        "#[allow(dead_code)]\n#[path = \"{FILE}\"]\nmod r#gen;\npub type ValidatorIndex = usize;\nfn main() {{\n  use std::io::BufRead;\n  for l in std::io::stdin().lock().lines() {{\n    let i: usize = l.unwrap().parse().unwrap();\n    let v: &[u64] = &[{}];\n    println!(\"{{}}\", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(\" \"));\n  }}\n}}\n",
        calls.replace("gen::", "r#gen::")
    );
    std::fs::write(d.0.join("main.rs"), main).unwrap();
    let out = Command::new("rustc")
        .args(["--edition", "2024", "-Copt-level=1", "-Coverflow-checks=on", "-o", "main", "main.rs"])
        .current_dir(&d.0)
        .output()
        .expect("rustc can be started");
    check!(out.status.success(), "the generated file does not give the functions that the guest uses: {}", String::from_utf8_lossy(&out.stderr));
    let mut child = Command::new(d.0.join("main")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Ok(Compiled { _child: child, to, from })
}
fn evaluate(i: usize) -> Result<Vec<u64>, String> {
    static PROGRAM: OnceLock<Result<Mutex<Compiled>, String>> = OnceLock::new();
    let p = PROGRAM.get_or_init(|| compile().map(Mutex::new)).as_ref().map_err(Clone::clone)?;
    let mut p = p.lock().map_err(|_| "the generated functions fail".to_string())?;
    writeln!(p.to, "{i}").map_err(|e| format!("the generated functions fail: {e}"))?;
    let mut line = String::new();
    p.from.read_line(&mut line).map_err(|e| format!("the generated functions fail: {e}"))?;
    check!(!line.is_empty(), "the generated functions fail for validator {i}");
    line.split_whitespace().map(|x| x.parse().map_err(|_| format!("not a number: {x}"))).collect()
}

fn check_values(&(i, _): &(u64, u64), c: &mut Case) -> Verdict {
    c.nontrivial(i > 0);
    c.label_if(i >= 1 << 32, "index beyond 32 bits");
    let idx = i as usize;
    let got = evaluate(idx)?;
    let top = |f: &str| 64 + STATE.iter().position(|x| *x == f).unwrap() as u64;
    let of = |f: &str| ((2u64 << 40) + i) * 8 + VALIDATOR.iter().position(|x| *x == f).unwrap() as u64;
    // a fork has three fields (in four places), a checkpoint two; the block header has five fields (in eight)
    let want = [
        top("slot"), top("finalized_checkpoint") * 2, top("genesis_validators_root"), top("fork") * 4, top("fork") * 4 + 1,
        top("fork") * 4 + 2, top("validators"), top("earliest_exit_epoch"), top("earliest_consolidation_epoch"), 8 + 3, 8,
        of("pubkey") * 2, of("pubkey") * 2 + 1, of("effective_balance"), of("activation_eligibility_epoch"),
        of("activation_epoch"), of("exit_epoch"), of("slashed"),
    ];
    let used = [
        g::slot_gindex(), g::finalized_checkpoint_epoch_gindex(), g::genesis_validators_root_gindex(),
        g::fork_previous_version_gindex(), g::fork_current_version_gindex(), g::fork_epoch_gindex(), g::validators_gindex(),
        g::earliest_exit_epoch_gindex(), g::earliest_consolidation_epoch_gindex(), g::state_root_gindex(),
        g::block_slot_gindex(), g::public_key_0_gindex(idx), g::public_key_1_gindex(idx), g::effective_balance_gindex(idx),
        g::activation_eligibility_epoch_gindex(idx), g::activation_epoch_gindex(idx), g::exit_epoch_gindex(idx),
        g::slashed_gindex(idx),
    ];
    let names: Vec<_> = FIXED.iter().chain(PER_VALIDATOR).collect();
    check_eq!(got.len(), want.len(), "number of values");
    for k in 0..want.len() {
        check_eq!(got[k], want[k], "generated position {} (validator {i})", names[k]);
        check_eq!(used[k], got[k], "position {} that the guest is built with, against the generated one (validator {i})", names[k]);
    }
    Ok(())
}

pub const CHECK: Check = Check {
    property: "C39",
    level: "exploration",
    assumptions: &[
        "the layouts of the block, state and validator containers are those of the Electra and Fulu specifications as written down in this check",
        "the ssz_rs and ethereum-consensus stand-ins give a path its position like the real crates; prettyplease only formats",
    ],
    facets: || {
        vec![
            facet(
                "values",
                "a validator index below 2^40; all functions of the generated file, compiled, against the layouts and against the file in the repository; non-trivial: not the first validator",
                (900_000, 13_500_000),
                crate::layouts,
                check_values,
            ),
            facet(
                "rerun",
                "what the file held before (nothing, a part, more, anything, or it cannot be written), one or two runs, possibly after one on a disk with little space; non-trivial: it was not the right content before, or the disk was limited",
                (8_000, 120_000),
                reruns,
                check_rerun,
            ),
        ]
    },
};
