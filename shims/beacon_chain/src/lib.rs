//! Stand-in for lighthouse's beacon_chain: only what host's test harness needs to compile. Nothing of it
//! can be run; no check uses the harness.
#![allow(unused_variables)]
use beacon_types::{BeaconState, ChainSpec, EthSpec, Hash256, Keypair, Slot};
use std::marker::PhantomData;
use std::sync::Arc;

#[derive(Debug)]
pub struct BeaconChainError;

pub trait BeaconChainTypes: Send + Sync + 'static {
    type EthSpec: EthSpec;
}
pub enum StateSkipConfig {
    WithStateRoots,
    WithoutStateRoots,
}
pub enum WhenSlotSkipped {
    None,
    Prev,
}
#[derive(Default)]
pub struct ChainConfig {
    pub reconstruct_historic_states: bool,
}
#[derive(serde::Serialize)]
pub struct Json;
pub struct SignedBlock;
pub struct Message;
impl SignedBlock {
    pub fn signed_block_header(&self) -> Json {
        Json
    }
    pub fn deconstruct(self) -> (Message, ()) {
        (Message, ())
    }
}
impl Message {
    pub fn as_electra(&self) -> Result<Json, BeaconChainError> {
        Ok(Json)
    }
}
pub struct Head;
impl Head {
    pub fn head_slot(&self) -> Slot {
        unimplemented!()
    }
}
pub struct BeaconChain<T: BeaconChainTypes> {
    pub genesis_validators_root: Hash256,
    _p: PhantomData<T>,
}
impl<T: BeaconChainTypes> BeaconChain<T> {
    pub fn head(&self) -> Head {
        Head
    }
    pub fn state_at_slot(&self, slot: Slot, skip: StateSkipConfig) -> Result<BeaconState<T::EthSpec>, BeaconChainError> {
        unimplemented!()
    }
    pub fn get_state(&self, root: &Hash256, slot: Option<Slot>, update_cache: bool) -> Result<Option<BeaconState<T::EthSpec>>, BeaconChainError> {
        unimplemented!()
    }
    pub fn block_at_slot(&self, slot: Slot, skips: WhenSlotSkipped) -> Result<Option<SignedBlock>, BeaconChainError> {
        unimplemented!()
    }
    pub fn block_root_at_slot(&self, slot: Slot, skips: WhenSlotSkipped) -> Result<Option<Hash256>, BeaconChainError> {
        unimplemented!()
    }
    pub fn get_blinded_block(&self, root: &Hash256) -> Result<Option<SignedBlock>, BeaconChainError> {
        unimplemented!()
    }
    pub async fn get_block(&self, root: &Hash256) -> Result<Option<SignedBlock>, BeaconChainError> {
        unimplemented!()
    }
}

pub mod test_utils {
    use super::*;

    pub struct EphemeralHarnessType<E>(PhantomData<fn() -> E>);
    impl<E: EthSpec> BeaconChainTypes for EphemeralHarnessType<E> {
        type EthSpec = E;
    }
    pub struct BeaconChainHarness<T: BeaconChainTypes> {
        pub chain: Arc<BeaconChain<T>>,
        pub spec: Arc<ChainSpec>,
    }
    pub struct Builder<E>(PhantomData<E>);
    pub struct ExecutionBlockGenerator;
    impl ExecutionBlockGenerator {
        pub fn move_to_terminal_block(&mut self) -> Result<(), String> {
            unimplemented!()
        }
    }
    impl<E: EthSpec> BeaconChainHarness<EphemeralHarnessType<E>> {
        pub fn builder(spec: E) -> Builder<E> {
            Builder(PhantomData)
        }
    }
    impl<E: EthSpec> Builder<E> {
        pub fn spec(self, spec: Arc<ChainSpec>) -> Self {
            self
        }
        pub fn chain_config(self, config: ChainConfig) -> Self {
            self
        }
        pub fn keypairs(self, keypairs: Vec<Keypair>) -> Self {
            self
        }
        pub fn fresh_ephemeral_store(self) -> Self {
            self
        }
        pub fn mock_execution_layer(self) -> Self {
            self
        }
        pub fn build(self) -> BeaconChainHarness<EphemeralHarnessType<E>> {
            unimplemented!()
        }
    }
    impl<T: BeaconChainTypes> BeaconChainHarness<T> {
        pub fn slots_per_epoch(&self) -> u64 {
            T::EthSpec::slots_per_epoch()
        }
        pub async fn extend_to_slot(&self, slot: Slot) -> Hash256 {
            unimplemented!()
        }
        pub fn execution_block_generator(&self) -> ExecutionBlockGenerator {
            unimplemented!()
        }
        pub fn advance_slot(&self) {
            unimplemented!()
        }
        pub fn get_current_slot(&self) -> Slot {
            unimplemented!()
        }
        pub fn get_current_state(&self) -> BeaconState<T::EthSpec> {
            unimplemented!()
        }
        pub async fn add_attested_blocks_at_slots(&self, state: BeaconState<T::EthSpec>, state_root: Hash256, slots: &[Slot], validators: &[usize]) {
            unimplemented!()
        }
    }
}
