//! The guest programs of /repo/methods. An "ELF" is a name here, and executing it calls the program.
pub const MAINNET_ELF: &[u8] = b"mainnet";
pub const SEPOLIA_ELF: &[u8] = b"sepolia";
pub const TEST_HARNESS_ELF: &[u8] = b"test_harness";

mod deployed {
    #[allow(unused_attributes)]
    #[path = "/repo/methods/guest/src/bin/mainnet.rs"]
    pub mod mainnet;
    #[allow(unused_attributes)]
    #[path = "/repo/methods/guest/src/bin/sepolia.rs"]
    pub mod sepolia;
}

#[no_mangle]
fn verif_run_guest(elf: &[u8]) -> bool {
    match elf {
        b"mainnet" => deployed::mainnet::run(),
        b"sepolia" => deployed::sepolia::run(),
        _ => return false,
    }
    true
}
