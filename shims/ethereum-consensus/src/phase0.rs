use crate::primitives::*;
use ssz_rs::prelude::*;

pub const JUSTIFICATION_BITS_LENGTH: usize = 4;
pub const DEPOSIT_CONTRACT_TREE_DEPTH: usize = 32;

pub mod mainnet {
    pub use super::presets::mainnet::*;
}
pub mod presets {
    pub mod mainnet {
        pub use crate::phase0::{BeaconBlockHeader, Checkpoint, Fork, SignedBeaconBlockHeader, Validator};
        pub const MAX_COMMITTEES_PER_SLOT: usize = 64;
        pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
        pub const MIN_SEED_LOOKAHEAD: u64 = 1;
        pub const MAX_SEED_LOOKAHEAD: u64 = 4;
        pub const SLOTS_PER_EPOCH: u64 = 32;
        pub const EPOCHS_PER_ETH1_VOTING_PERIOD: u64 = 64;
        pub const ETH1_DATA_VOTES_BOUND: usize = 2048;
        pub const SLOTS_PER_HISTORICAL_ROOT: usize = 8192;
        pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 65536;
        pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 8192;
        pub const HISTORICAL_ROOTS_LIMIT: usize = 16_777_216;
        pub const VALIDATOR_REGISTRY_LIMIT: usize = 1_099_511_627_776;
        pub const MAX_PROPOSER_SLASHINGS: usize = 16;
        pub const MAX_ATTESTER_SLASHINGS: usize = 2;
        pub const MAX_ATTESTATIONS: usize = 128;
        pub const MAX_DEPOSITS: usize = 16;
        pub const MAX_VOLUNTARY_EXITS: usize = 16;
        pub const PENDING_ATTESTATIONS_BOUND: usize = MAX_ATTESTATIONS * SLOTS_PER_EPOCH as usize;
        pub type BeaconState = crate::phase0::BeaconState<
            SLOTS_PER_HISTORICAL_ROOT,
            HISTORICAL_ROOTS_LIMIT,
            ETH1_DATA_VOTES_BOUND,
            VALIDATOR_REGISTRY_LIMIT,
            EPOCHS_PER_HISTORICAL_VECTOR,
            EPOCHS_PER_SLASHINGS_VECTOR,
            MAX_VALIDATORS_PER_COMMITTEE,
            PENDING_ATTESTATIONS_BOUND,
        >;
    }
}

#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Checkpoint {
    #[serde(with = "crate::serde::as_str")]
    pub epoch: Epoch,
    pub root: Root,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Fork {
    #[serde(with = "crate::serde::as_hex")]
    pub previous_version: Version,
    #[serde(with = "crate::serde::as_hex")]
    pub current_version: Version,
    #[serde(with = "crate::serde::as_str")]
    pub epoch: Epoch,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct BeaconBlockHeader {
    #[serde(with = "crate::serde::as_str")]
    pub slot: Slot,
    #[serde(with = "crate::serde::as_str")]
    pub proposer_index: ValidatorIndex,
    pub parent_root: Root,
    pub state_root: Root,
    pub body_root: Root,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct SignedBeaconBlockHeader {
    pub message: BeaconBlockHeader,
    pub signature: BlsSignature,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Eth1Data {
    pub deposit_root: Root,
    #[serde(with = "crate::serde::as_str")]
    pub deposit_count: u64,
    pub block_hash: Hash32,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Validator {
    #[serde(rename = "pubkey")]
    pub public_key: BlsPublicKey,
    pub withdrawal_credentials: Bytes32,
    #[serde(with = "crate::serde::as_str")]
    pub effective_balance: Gwei,
    pub slashed: bool,
    #[serde(with = "crate::serde::as_str")]
    pub activation_eligibility_epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    pub activation_epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    pub exit_epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    pub withdrawable_epoch: Epoch,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct AttestationData {
    #[serde(with = "crate::serde::as_str")]
    pub slot: Slot,
    #[serde(with = "crate::serde::as_str")]
    pub index: CommitteeIndex,
    pub beacon_block_root: Root,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct PendingAttestation<const MAX_VALIDATORS_PER_COMMITTEE: usize> {
    pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
    pub data: AttestationData,
    #[serde(with = "crate::serde::as_str")]
    pub inclusion_delay: Slot,
    #[serde(with = "crate::serde::as_str")]
    pub proposer_index: ValidatorIndex,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Attestation<const MAX_VALIDATORS_PER_COMMITTEE: usize> {
    pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
    pub data: AttestationData,
    pub signature: BlsSignature,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct IndexedAttestation<const N: usize> {
    #[serde(with = "crate::serde::seq_of_str")]
    pub attesting_indices: List<ValidatorIndex, N>,
    pub data: AttestationData,
    pub signature: BlsSignature,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct ProposerSlashing {
    pub signed_header_1: SignedBeaconBlockHeader,
    pub signed_header_2: SignedBeaconBlockHeader,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct AttesterSlashing<const N: usize> {
    pub attestation_1: IndexedAttestation<N>,
    pub attestation_2: IndexedAttestation<N>,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct DepositData {
    #[serde(rename = "pubkey")]
    pub public_key: BlsPublicKey,
    pub withdrawal_credentials: Bytes32,
    #[serde(with = "crate::serde::as_str")]
    pub amount: Gwei,
    pub signature: BlsSignature,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Deposit {
    pub proof: Vector<Bytes32, 33>,
    pub data: DepositData,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct VoluntaryExit {
    #[serde(with = "crate::serde::as_str")]
    pub epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    pub validator_index: ValidatorIndex,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct SignedVoluntaryExit {
    pub message: VoluntaryExit,
    pub signature: BlsSignature,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct BeaconState<const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const PENDING_ATTESTATIONS_BOUND: usize> {
    #[serde(with = "crate::serde::as_str")]
    pub genesis_time: u64,
    pub genesis_validators_root: Root,
    #[serde(with = "crate::serde::as_str")]
    pub slot: Slot,
    pub fork: Fork,
    pub latest_block_header: BeaconBlockHeader,
    pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
    pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
    pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
    pub eth1_data: Eth1Data,
    pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
    #[serde(with = "crate::serde::as_str")]
    pub eth1_deposit_index: u64,
    pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
    #[serde(with = "crate::serde::seq_of_str")]
    pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
    pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
    #[serde(with = "crate::serde::seq_of_str")]
    pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
    pub previous_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
    pub current_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
    pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
    pub previous_justified_checkpoint: Checkpoint,
    pub current_justified_checkpoint: Checkpoint,
    pub finalized_checkpoint: Checkpoint,
}
