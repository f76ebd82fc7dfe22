use crate::{Epoch, Error, Fork, ForkName, Hash256, merkle};
use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// typenum's trait, for the associated constants of `EthSpec`.
pub trait Unsigned: Debug + Default + Clone + Copy + PartialEq + Eq + Send + Sync + 'static {
    const U64: u64;
    const USIZE: usize = Self::U64 as usize;
    fn to_u64() -> u64 {
        Self::U64
    }
    fn to_usize() -> usize {
        Self::U64 as usize
    }
}
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
pub struct U<const N: u64>;
impl<const N: u64> Unsigned for U<N> {
    const U64: u64 = N;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum EthSpecId {
    Mainnet,
    Minimal,
}

pub trait EthSpec: 'static + Default + Sync + Send + Clone + Debug + PartialEq + Eq {
    type GenesisEpoch: Unsigned;
    type JustificationBitsLength: Unsigned;
    type MaxValidatorsPerCommittee: Unsigned;
    type MaxValidatorsPerSlot: Unsigned;
    type MaxCommitteesPerSlot: Unsigned;
    type SlotsPerEpoch: Unsigned;
    type SlotsPerHistoricalRoot: Unsigned;
    type EpochsPerHistoricalVector: Unsigned;
    type EpochsPerSlashingsVector: Unsigned;
    type ValidatorRegistryLimit: Unsigned;

    fn spec_name() -> EthSpecId;
    fn default_spec() -> ChainSpec;

    fn genesis_epoch() -> Epoch {
        Epoch::new(Self::GenesisEpoch::to_u64())
    }
    fn slots_per_epoch() -> u64 {
        Self::SlotsPerEpoch::to_u64()
    }
    fn slots_per_historical_root() -> usize {
        Self::SlotsPerHistoricalRoot::to_usize()
    }
    fn epochs_per_historical_vector() -> usize {
        Self::EpochsPerHistoricalVector::to_usize()
    }
    fn max_committees_per_slot() -> usize {
        Self::MaxCommitteesPerSlot::to_usize()
    }
    fn get_committee_count_per_slot(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Self::get_committee_count_per_slot_with(
            active_validator_count,
            spec.max_committees_per_slot,
            spec.target_committee_size,
        )
    }
    fn get_committee_count_per_slot_with(
        active_validator_count: usize,
        max_committees_per_slot: usize,
        target_committee_size: usize,
    ) -> Result<usize, Error> {
        let slots_per_epoch = Self::SlotsPerEpoch::to_usize();
        Ok(std::cmp::max(
            1,
            std::cmp::min(
                max_committees_per_slot,
                active_validator_count.safe_div(slots_per_epoch)?.safe_div(target_committee_size)?,
            ),
        ))
    }
    fn get_committee_count_in_epoch(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Ok(Self::get_committee_count_per_slot(active_validator_count, spec)?.safe_mul(Self::SlotsPerEpoch::to_usize())?)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct MainnetEthSpec;
impl EthSpec for MainnetEthSpec {
    type GenesisEpoch = U<0>;
    type JustificationBitsLength = U<4>;
    type MaxValidatorsPerCommittee = U<2048>;
    type MaxValidatorsPerSlot = U<131072>;
    type MaxCommitteesPerSlot = U<64>;
    type SlotsPerEpoch = U<32>;
    type SlotsPerHistoricalRoot = U<8192>;
    type EpochsPerHistoricalVector = U<65536>;
    type EpochsPerSlashingsVector = U<8192>;
    type ValidatorRegistryLimit = U<1099511627776>;
    fn spec_name() -> EthSpecId {
        EthSpecId::Mainnet
    }
    fn default_spec() -> ChainSpec {
        ChainSpec::mainnet()
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct MinimalEthSpec;
impl EthSpec for MinimalEthSpec {
    type GenesisEpoch = U<0>;
    type JustificationBitsLength = U<4>;
    type MaxValidatorsPerCommittee = U<2048>;
    type MaxValidatorsPerSlot = U<8192>;
    type MaxCommitteesPerSlot = U<4>;
    type SlotsPerEpoch = U<8>;
    type SlotsPerHistoricalRoot = U<64>;
    type EpochsPerHistoricalVector = U<64>;
    type EpochsPerSlashingsVector = U<64>;
    type ValidatorRegistryLimit = U<1099511627776>;
    fn spec_name() -> EthSpecId {
        EthSpecId::Minimal
    }
    fn default_spec() -> ChainSpec {
        ChainSpec::minimal()
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
pub enum Domain {
    BlsToExecutionChange,
    BeaconProposer,
    BeaconAttester,
    BlobSidecar,
    Randao,
    Deposit,
    VoluntaryExit,
    SelectionProof,
    AggregateAndProof,
    SyncCommittee,
    ContributionAndProof,
    SyncCommitteeSelectionProof,
    Consolidation,
}

#[derive(PartialEq, Debug, Clone)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub genesis_slot: crate::Slot,
    pub far_future_epoch: Epoch,
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub min_per_epoch_churn_limit: u64,
    pub churn_limit_quotient: u64,
    pub shuffle_round_count: u8,
    pub min_deposit_amount: u64,
    pub max_effective_balance: u64,
    pub ejection_balance: u64,
    pub effective_balance_increment: u64,
    pub min_attestation_inclusion_delay: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub min_validator_withdrawability_delay: Epoch,
    pub shard_committee_period: u64,
    pub genesis_fork_version: [u8; 4],
    pub altair_fork_version: [u8; 4],
    pub altair_fork_epoch: Option<Epoch>,
    pub bellatrix_fork_version: [u8; 4],
    pub bellatrix_fork_epoch: Option<Epoch>,
    pub capella_fork_version: [u8; 4],
    pub capella_fork_epoch: Option<Epoch>,
    pub deneb_fork_version: [u8; 4],
    pub deneb_fork_epoch: Option<Epoch>,
    pub electra_fork_version: [u8; 4],
    pub electra_fork_epoch: Option<Epoch>,
    pub min_per_epoch_churn_limit_electra: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
    pub min_activation_balance: u64,
    pub max_effective_balance_electra: u64,
    pub fulu_fork_version: [u8; 4],
    pub fulu_fork_epoch: Option<Epoch>,
    pub gloas_fork_version: [u8; 4],
    pub gloas_fork_epoch: Option<Epoch>,
    pub(crate) domain_beacon_proposer: u32,
    pub(crate) domain_beacon_attester: u32,
}

fn ep(e: u64) -> Option<Epoch> {
    Some(Epoch::new(e))
}

impl ChainSpec {
    pub fn mainnet() -> Self {
        Self {
            config_name: Some("mainnet".into()),
            genesis_slot: crate::Slot::new(0),
            far_future_epoch: Epoch::new(u64::MAX),
            max_committees_per_slot: 64,
            target_committee_size: 128,
            min_per_epoch_churn_limit: 4,
            churn_limit_quotient: 65_536,
            shuffle_round_count: 90,
            min_deposit_amount: 1_000_000_000,
            max_effective_balance: 32_000_000_000,
            ejection_balance: 16_000_000_000,
            effective_balance_increment: 1_000_000_000,
            min_attestation_inclusion_delay: 1,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            min_validator_withdrawability_delay: Epoch::new(256),
            shard_committee_period: 256,
            genesis_fork_version: [0; 4],
            altair_fork_version: [1, 0, 0, 0],
            altair_fork_epoch: ep(74240),
            bellatrix_fork_version: [2, 0, 0, 0],
            bellatrix_fork_epoch: ep(144896),
            capella_fork_version: [3, 0, 0, 0],
            capella_fork_epoch: ep(194048),
            deneb_fork_version: [4, 0, 0, 0],
            deneb_fork_epoch: ep(269568),
            electra_fork_version: [5, 0, 0, 0],
            electra_fork_epoch: ep(364032),
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
            min_activation_balance: 32_000_000_000,
            max_effective_balance_electra: 2_048_000_000_000,
            fulu_fork_version: [6, 0, 0, 0],
            fulu_fork_epoch: None,
            gloas_fork_version: [7, 0, 0, 0],
            gloas_fork_epoch: None,
            domain_beacon_proposer: 0,
            domain_beacon_attester: 1,
        }
    }

    pub fn minimal() -> Self {
        Self {
            config_name: None,
            max_committees_per_slot: 4,
            target_committee_size: 4,
            min_per_epoch_churn_limit: 2,
            churn_limit_quotient: 32,
            shuffle_round_count: 10,
            genesis_fork_version: [0, 0, 0, 1],
            altair_fork_version: [1, 0, 0, 1],
            altair_fork_epoch: None,
            bellatrix_fork_version: [2, 0, 0, 1],
            bellatrix_fork_epoch: None,
            capella_fork_version: [3, 0, 0, 1],
            capella_fork_epoch: None,
            deneb_fork_version: [4, 0, 0, 1],
            deneb_fork_epoch: None,
            electra_fork_version: [5, 0, 0, 1],
            electra_fork_epoch: None,
            min_per_epoch_churn_limit_electra: 64_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 128_000_000_000,
            fulu_fork_version: [6, 0, 0, 1],
            gloas_fork_version: [7, 0, 0, 1],
            shard_committee_period: 64,
            ..Self::mainnet()
        }
    }

    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName {
        let mut name = ForkName::Base;
        for f in ForkName::list_all() {
            if f != ForkName::Base && self.fork_epoch(f).is_some_and(|e| e <= epoch) {
                name = f;
            }
        }
        name
    }

    pub fn fork_version_for_name(&self, fork_name: ForkName) -> [u8; 4] {
        match fork_name {
            ForkName::Base => self.genesis_fork_version,
            ForkName::Altair => self.altair_fork_version,
            ForkName::Bellatrix => self.bellatrix_fork_version,
            ForkName::Capella => self.capella_fork_version,
            ForkName::Deneb => self.deneb_fork_version,
            ForkName::Electra => self.electra_fork_version,
            ForkName::Fulu => self.fulu_fork_version,
            ForkName::Gloas => self.gloas_fork_version,
        }
    }

    pub fn fork_epoch(&self, fork_name: ForkName) -> Option<Epoch> {
        match fork_name {
            ForkName::Base => Some(Epoch::new(0)),
            ForkName::Altair => self.altair_fork_epoch,
            ForkName::Bellatrix => self.bellatrix_fork_epoch,
            ForkName::Capella => self.capella_fork_epoch,
            ForkName::Deneb => self.deneb_fork_epoch,
            ForkName::Electra => self.electra_fork_epoch,
            ForkName::Fulu => self.fulu_fork_epoch,
            ForkName::Gloas => self.gloas_fork_epoch,
        }
    }

    pub fn fork_version_for_epoch(&self, epoch: Epoch) -> [u8; 4] {
        self.fork_version_for_name(self.fork_name_at_epoch(epoch))
    }

    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let current = self.fork_name_at_epoch(epoch);
        let previous = current.previous_fork().unwrap_or(ForkName::Base);
        Fork {
            previous_version: self.fork_version_for_name(previous),
            current_version: self.fork_version_for_name(current),
            epoch: self.fork_epoch(current).unwrap_or(Epoch::new(0)),
        }
    }

    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, ArithError> {
        epoch.safe_add(1u64)?.safe_add(self.max_seed_lookahead)
    }

    pub fn get_domain_constant(&self, domain: Domain) -> u32 {
        match domain {
            Domain::BeaconProposer => self.domain_beacon_proposer,
            Domain::BeaconAttester => self.domain_beacon_attester,
            Domain::Randao => 2,
            Domain::Deposit => 3,
            Domain::VoluntaryExit => 4,
            Domain::SelectionProof => 5,
            Domain::AggregateAndProof => 6,
            Domain::SyncCommittee => 7,
            Domain::SyncCommitteeSelectionProof => 8,
            Domain::ContributionAndProof => 9,
            Domain::BlsToExecutionChange => 10,
            Domain::BlobSidecar => 11,
            Domain::Consolidation => 12,
        }
    }

    pub fn get_domain(&self, epoch: Epoch, domain: Domain, fork: &Fork, genesis_validators_root: Hash256) -> Hash256 {
        self.compute_domain(domain, fork.get_fork_version(epoch), genesis_validators_root)
    }

    pub fn compute_domain(&self, domain: Domain, fork_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        let mut d = [0u8; 32];
        d[..4].copy_from_slice(&self.get_domain_constant(domain).to_le_bytes());
        d[4..].copy_from_slice(&Self::compute_fork_data_root(fork_version, genesis_validators_root)[..28]);
        d.into()
    }

    pub fn compute_fork_data_root(current_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        let mut v = [0u8; 32];
        v[..4].copy_from_slice(&current_version);
        merkle(&[v.into(), genesis_validators_root])
    }

    /// Like lighthouse: the preset must be that of `E`, and everything the configuration knows is taken from it.
    pub fn from_config<E: EthSpec>(config: &Config) -> Option<Self> {
        if config.preset_base != format!("{:?}", E::spec_name()).to_lowercase() {
            return None;
        }
        let c = config.clone();
        let e = |e: Option<u64>| e.map(Epoch::new);
        Some(Self {
            config_name: c.config_name,
            min_per_epoch_churn_limit: c.min_per_epoch_churn_limit,
            churn_limit_quotient: c.churn_limit_quotient,
            ejection_balance: c.ejection_balance,
            shard_committee_period: c.shard_committee_period,
            min_per_epoch_churn_limit_electra: c.min_per_epoch_churn_limit_electra,
            max_per_epoch_activation_exit_churn_limit: c.max_per_epoch_activation_exit_churn_limit,
            genesis_fork_version: c.genesis_fork_version,
            altair_fork_version: c.altair_fork_version,
            altair_fork_epoch: e(c.altair_fork_epoch),
            bellatrix_fork_version: c.bellatrix_fork_version,
            bellatrix_fork_epoch: e(c.bellatrix_fork_epoch),
            capella_fork_version: c.capella_fork_version,
            capella_fork_epoch: e(c.capella_fork_epoch),
            deneb_fork_version: c.deneb_fork_version,
            deneb_fork_epoch: e(c.deneb_fork_epoch),
            electra_fork_version: c.electra_fork_version,
            electra_fork_epoch: e(c.electra_fork_epoch),
            fulu_fork_version: c.fulu_fork_version,
            fulu_fork_epoch: e(c.fulu_fork_epoch),
            gloas_fork_version: c.gloas_fork_version,
            gloas_fork_epoch: e(c.gloas_fork_epoch),
            ..E::default_spec()
        })
    }
}

mod text {
    use serde::{Deserialize, Deserializer, de::Error};
    fn parse<T: std::str::FromStr<Err: std::fmt::Display>, E: Error>(s: &str) -> Result<T, E> {
        s.parse().map_err(E::custom)
    }
    pub fn num<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        parse(&String::deserialize(d)?)
    }
    pub fn opt<'de, D: Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {
        parse(&String::deserialize(d)?).map(Some)
    }
    pub fn version<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
        let s = String::deserialize(d)?;
        let hex = s.strip_prefix("0x").filter(|h| h.len() == 8).ok_or_else(|| D::Error::custom("version"))?;
        u32::from_str_radix(hex, 16).map(u32::to_be_bytes).map_err(D::Error::custom)
    }
    pub fn unknown() -> [u8; 4] {
        [0xff; 4]
    }
}

/// The part of a network's configuration file that the stand-ins need.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct Config {
    pub config_name: Option<String>,
    pub preset_base: String,
    #[serde(deserialize_with = "text::num")]
    pub min_per_epoch_churn_limit: u64,
    #[serde(deserialize_with = "text::num")]
    pub churn_limit_quotient: u64,
    #[serde(deserialize_with = "text::num")]
    pub ejection_balance: u64,
    #[serde(deserialize_with = "text::num")]
    pub shard_committee_period: u64,
    #[serde(deserialize_with = "text::num")]
    pub min_per_epoch_churn_limit_electra: u64,
    #[serde(deserialize_with = "text::num")]
    pub max_per_epoch_activation_exit_churn_limit: u64,
    #[serde(deserialize_with = "text::version")]
    pub genesis_fork_version: [u8; 4],
    #[serde(deserialize_with = "text::version")]
    pub altair_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub altair_fork_epoch: Option<u64>,
    #[serde(deserialize_with = "text::version")]
    pub bellatrix_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub bellatrix_fork_epoch: Option<u64>,
    #[serde(deserialize_with = "text::version")]
    pub capella_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub capella_fork_epoch: Option<u64>,
    #[serde(deserialize_with = "text::version")]
    pub deneb_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub deneb_fork_epoch: Option<u64>,
    #[serde(deserialize_with = "text::version")]
    pub electra_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub electra_fork_epoch: Option<u64>,
    #[serde(deserialize_with = "text::version")]
    pub fulu_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub fulu_fork_epoch: Option<u64>,
    #[serde(default = "text::unknown", deserialize_with = "text::version")]
    pub gloas_fork_version: [u8; 4],
    #[serde(default, deserialize_with = "text::opt")]
    pub gloas_fork_epoch: Option<u64>,
}
