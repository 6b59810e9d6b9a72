//! Offline stand-in for Switchboard On-Demand's pull feed account (published layout).
use bytemuck::{Pod, Zeroable};

pub const PRECISION: u32 = 18;

/// Stand-in for rust_decimal::Decimal with scale 18.
#[derive(Clone, Copy, Debug)]
pub struct Decimal(pub i128);
#[derive(Debug)]
pub struct DecimalError;
impl std::fmt::Display for DecimalError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("decimal error")
    }
}
impl std::convert::TryFrom<Decimal> for f64 {
    type Error = DecimalError;
    fn try_from(d: Decimal) -> Result<f64, DecimalError> {
        // integral and fractional part separately, like Decimal::to_f64
        let scale = 10i128.pow(PRECISION);
        let (i, f) = (d.0 / scale, d.0 % scale);
        Ok(i as f64 + f as f64 / scale as f64)
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct CurrentResult {
    pub value: i128,
    pub std_dev: i128,
    pub mean: i128,
    pub range: i128,
    pub min_value: i128,
    pub max_value: i128,
    pub num_samples: u8,
    pub padding1: [u8; 7],
    pub slot: u64,
    pub min_slot: u64,
    pub max_slot: u64,
}
unsafe impl Zeroable for CurrentResult {}
unsafe impl Pod for CurrentResult {}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct OracleSubmission {
    pub oracle: [u8; 32],
    pub slot: u64,
    pub padding1: [u8; 8],
    pub value: i128,
}
unsafe impl Zeroable for OracleSubmission {}
unsafe impl Pod for OracleSubmission {}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct PullFeedAccountData {
    pub submissions: [OracleSubmission; 32],
    pub authority: [u8; 32],
    pub queue: [u8; 32],
    pub feed_hash: [u8; 32],
    pub initialized_at: i64,
    pub permissions: u64,
    pub max_variance: u64,
    pub min_responses: u32,
    pub name: [u8; 32],
    pub padding1: [u8; 2],
    pub historical_result_idx: u8,
    pub min_sample_size: u8,
    pub last_update_timestamp: i64,
    pub lut_slot: u64,
    pub _reserved1: [u8; 32],
    pub result: CurrentResult,
    pub max_staleness: u32,
    pub padding2: [u8; 12],
    pub historical_results: [[u8; 16]; 32],
    pub _ebuf4: [u8; 8],
    pub _ebuf3: [u8; 24],
    pub _ebuf2: [u8; 256],
}
unsafe impl Zeroable for PullFeedAccountData {}
unsafe impl Pod for PullFeedAccountData {}
impl PullFeedAccountData {
    pub fn value(&self) -> Option<Decimal> {
        if self.result.slot == 0 { None } else { Some(Decimal(self.result.value)) }
    }
    pub fn std_dev(&self) -> Option<Decimal> {
        if self.result.slot == 0 { None } else { Some(Decimal(self.result.std_dev)) }
    }
}
