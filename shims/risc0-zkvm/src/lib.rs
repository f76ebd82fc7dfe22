//! Stand-in for the zkVM's guest environment: frames and the journal of the current thread.

/// For the host side of a check.
pub mod sim {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    #[derive(Default)]
    pub struct Io {
        pub frames: VecDeque<Vec<u8>>,
        pub journal: Vec<u8>,
        pub logs: Vec<String>,
    }
    thread_local! {
        pub static IO: RefCell<Io> = RefCell::default();
    }
    /// Runs a guest and returns what it committed; the guest may have panicked.
    pub fn run(frames: Vec<Vec<u8>>, guest: impl FnOnce()) -> (Vec<u8>, Result<(), ()>) {
        IO.with(|io| *io.borrow_mut() = Io { frames: frames.into(), ..Default::default() });
        let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(guest)).map_err(drop);
        let journal = IO.with(|io| std::mem::take(&mut io.borrow_mut().journal));
        (journal, end)
    }
}

pub mod guest {
    pub mod env {
        use crate::sim::IO;

        pub fn read_frame() -> Vec<u8> {
            IO.with(|io| io.borrow_mut().frames.pop_front()).expect("no more input")
        }
        pub fn read_slice(buf: &mut [u8]) {
            let frame = read_frame();
            buf.copy_from_slice(&frame[..buf.len()]);
        }
        pub fn log(msg: &str) {
            IO.with(|io| io.borrow_mut().logs.push(msg.to_string()));
        }
        pub fn commit_slice(bytes: &[u8]) {
            IO.with(|io| io.borrow_mut().journal.extend_from_slice(bytes));
        }
        pub fn cycle_count() -> u64 {
            0
        }
    }
    /// The entry point becomes a function that a check can call.
    #[macro_export]
    macro_rules! guest_entry {
        ($main:path) => {
            pub fn run() {
                $main()
            }
        };
    }
    pub use crate::guest_entry as entry;
}

#[cfg(feature = "client")]
mod client {
    use anyhow::{Result, bail};

    #[derive(Clone, Debug, Default)]
    pub struct ExecutorEnv {
        frames: Vec<Vec<u8>>,
    }
    impl ExecutorEnv {
        pub fn builder() -> ExecutorEnvBuilder {
            ExecutorEnvBuilder::default()
        }
    }
    #[derive(Default)]
    pub struct ExecutorEnvBuilder {
        frames: Vec<Vec<u8>>,
    }
    impl ExecutorEnvBuilder {
        pub fn write_frame(&mut self, payload: &[u8]) -> &mut Self {
            self.frames.push(payload.to_vec());
            self
        }
        pub fn build(&mut self) -> Result<ExecutorEnv> {
            Ok(ExecutorEnv { frames: std::mem::take(&mut self.frames) })
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Journal {
        pub bytes: Vec<u8>,
    }
    #[derive(Clone, Debug)]
    pub struct SessionInfo {
        pub journal: Journal,
    }
    impl SessionInfo {
        pub fn cycles(&self) -> u64 {
            0
        }
    }
    pub struct Executor;
    pub fn default_executor() -> Executor {
        Executor
    }
    unsafe extern "Rust" {
        /// in shadow/methods: runs the program of this name, if there is one
        safe fn verif_run_guest(elf: &[u8]) -> bool;
    }
    impl Executor {
        pub fn execute(&self, env: ExecutorEnv, elf: &[u8]) -> Result<SessionInfo> {
            let mut found = false;
            let (bytes, end) = crate::sim::run(env.frames, || found = verif_run_guest(elf));
            if end.is_err() {
                bail!("Guest panicked");
            }
            if !found {
                bail!("not an ELF");
            }
            Ok(SessionInfo { journal: Journal { bytes } })
        }
    }
}
#[cfg(feature = "client")]
pub use client::*;
