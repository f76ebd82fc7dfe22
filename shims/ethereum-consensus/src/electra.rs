use crate::primitives::*;
use ssz_rs::prelude::*;
pub use crate::altair::{SyncAggregate, SyncCommittee};
pub use crate::capella::{HistoricalSummary, SignedBlsToExecutionChange, Withdrawal};
pub use crate::deneb::{ExecutionPayload, ExecutionPayloadHeader};
pub use crate::phase0::{
    AttestationData, AttesterSlashing, BeaconBlockHeader, Checkpoint, Deposit, Eth1Data, Fork,
    JUSTIFICATION_BITS_LENGTH, ProposerSlashing, SignedBeaconBlockHeader, SignedVoluntaryExit, Validator,
};
pub mod mainnet {
    pub use super::presets::mainnet::*;
}
pub mod presets {
    pub mod mainnet {
        pub use crate::altair::mainnet::*;
        pub use crate::bellatrix::mainnet::*;
        pub use crate::electra::{
            AttestationData, BeaconBlockHeader, Checkpoint, Fork, SignedBeaconBlockHeader, Validator,
        };
        pub use crate::phase0::mainnet::{
            EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, ETH1_DATA_VOTES_BOUND, HISTORICAL_ROOTS_LIMIT,
            MAX_COMMITTEES_PER_SLOT, MAX_VALIDATORS_PER_COMMITTEE, MIN_SEED_LOOKAHEAD, SLOTS_PER_EPOCH,
            SLOTS_PER_HISTORICAL_ROOT, VALIDATOR_REGISTRY_LIMIT,
        };
        pub const MAX_VALIDATORS_PER_SLOT: usize = MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT;
        pub const PENDING_DEPOSITS_LIMIT: usize = 134_217_728;
        pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 134_217_728;
        pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 262_144;
        pub type Attestation = crate::electra::Attestation<MAX_VALIDATORS_PER_SLOT, MAX_COMMITTEES_PER_SLOT>;
        pub type BeaconBlock = crate::electra::BeaconBlock;
        pub type BeaconBlockBody = crate::electra::BeaconBlockBody;
    }
}

#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct PendingConsolidation {
    #[serde(with = "crate::serde::as_str")]
    pub source_index: ValidatorIndex,
    #[serde(with = "crate::serde::as_str")]
    pub target_index: ValidatorIndex,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct Attestation<const MAX_VALIDATORS_PER_SLOT: usize, const MAX_COMMITTEES_PER_SLOT: usize> {
    pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_SLOT>,
    pub data: AttestationData,
    pub signature: BlsSignature,
    pub committee_bits: Bitvector<MAX_COMMITTEES_PER_SLOT>,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct DepositRequest {
    #[serde(rename = "pubkey")]
    pub public_key: BlsPublicKey,
    pub withdrawal_credentials: Bytes32,
    #[serde(with = "crate::serde::as_str")]
    pub amount: Gwei,
    pub signature: BlsSignature,
    #[serde(with = "crate::serde::as_str")]
    pub index: u64,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct WithdrawalRequest {
    pub source_address: ExecutionAddress,
    pub validator_public_key: BlsPublicKey,
    #[serde(with = "crate::serde::as_str")]
    pub amount: Gwei,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct ConsolidationRequest {
    pub source_address: ExecutionAddress,
    #[serde(rename = "source_pubkey")]
    pub source_public_key: BlsPublicKey,
    #[serde(rename = "target_pubkey")]
    pub target_public_key: BlsPublicKey,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct ExecutionRequests {
    pub deposits: List<DepositRequest, 8192>,
    pub withdrawals: List<WithdrawalRequest, 16>,
    pub consolidations: List<ConsolidationRequest, 2>,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct BeaconBlockBody {
    pub randao_reveal: BlsSignature,
    pub eth1_data: Eth1Data,
    pub graffiti: Bytes32,
    pub proposer_slashings: List<ProposerSlashing, 16>,
    pub attester_slashings: List<AttesterSlashing<131_072>, 1>,
    pub attestations: List<Attestation<131_072, 64>, 8>,
    pub deposits: List<Deposit, 16>,
    pub voluntary_exits: List<SignedVoluntaryExit, 16>,
    pub sync_aggregate: SyncAggregate<512>,
    pub execution_payload: ExecutionPayload<256, 32>,
    pub bls_to_execution_changes: List<SignedBlsToExecutionChange, 16>,
    pub blob_kzg_commitments: List<KzgCommitment, 4096>,
    pub execution_requests: ExecutionRequests,
}
#[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
pub struct BeaconBlock {
    #[serde(with = "crate::serde::as_str")]
    pub slot: Slot,
    #[serde(with = "crate::serde::as_str")]
    pub proposer_index: ValidatorIndex,
    pub parent_root: Root,
    pub state_root: Root,
    pub body: BeaconBlockBody,
}
