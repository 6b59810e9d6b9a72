//! Offline stand-in for Switchboard V2's aggregator account (published packed layout).
use bytemuck::{Pod, Zeroable};
use std::convert::TryFrom;

#[derive(Clone, Copy, Default, Debug)]
#[repr(C, packed)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
}
unsafe impl Zeroable for SwitchboardDecimal {}
unsafe impl Pod for SwitchboardDecimal {}

#[derive(Debug)]
pub struct SwitchboardError(pub &'static str);
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = SwitchboardError;
    fn try_from(v: SwitchboardDecimal) -> Result<f64, SwitchboardError> {
        let (m, s) = (v.mantissa, v.scale);
        if s > 28 {
            return Err(SwitchboardError("decimal conversion"));
        }
        Ok(m as f64 / 10f64.powi(s as i32))
    }
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct Hash {
    pub data: [u8; 32],
}
unsafe impl Zeroable for Hash {}
unsafe impl Pod for Hash {}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub is_closed: u8,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
    pub min_response: SwitchboardDecimal,
    pub max_response: SwitchboardDecimal,
    pub oracle_pubkeys_data: [[u8; 32]; 16],
    pub medians_data: [SwitchboardDecimal; 16],
    pub current_payout: [i64; 16],
    pub medians_fulfilled: [u8; 16],
    pub errors_fulfilled: [u8; 16],
}
unsafe impl Zeroable for AggregatorRound {}
unsafe impl Pod for AggregatorRound {}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct AggregatorAccountData {
    pub name: [u8; 32],
    pub metadata: [u8; 128],
    pub _reserved1: [u8; 32],
    pub queue_pubkey: [u8; 32],
    pub oracle_request_batch_size: u32,
    pub min_oracle_results: u32,
    pub min_job_results: u32,
    pub min_update_delay_seconds: u32,
    pub start_after: i64,
    pub variance_threshold: SwitchboardDecimal,
    pub force_report_period: i64,
    pub expiration: i64,
    pub consecutive_failure_count: u64,
    pub next_allowed_update_time: i64,
    pub is_locked: u8,
    pub crank_pubkey: [u8; 32],
    pub latest_confirmed_round: AggregatorRound,
    pub current_round: AggregatorRound,
    pub job_pubkeys_data: [[u8; 32]; 16],
    pub job_hashes: [Hash; 16],
    pub job_pubkeys_size: u32,
    pub jobs_checksum: [u8; 32],
    pub authority: [u8; 32],
    pub history_buffer: [u8; 32],
    pub previous_confirmed_round_result: SwitchboardDecimal,
    pub previous_confirmed_round_slot: u64,
    pub disable_crank: u8,
    pub job_weights: [u8; 16],
    pub creation_timestamp: i64,
    pub resolution_mode: u8,
    pub base_priority_fee: u32,
    pub priority_fee_bump: u32,
    pub priority_fee_bump_period: u32,
    pub max_priority_fee_multiplier: u32,
    pub _ebuf: [u8; 122],
}
unsafe impl Zeroable for AggregatorAccountData {}
unsafe impl Pod for AggregatorAccountData {}

impl AggregatorAccountData {
    /// the latest confirmed result if enough oracles responded
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        if self.resolution_mode == 1 {
            return Ok(self.latest_confirmed_round.result);
        }
        if { self.min_oracle_results } > { self.latest_confirmed_round.num_success } {
            return Err(SwitchboardError("InvalidAggregatorRound"));
        }
        Ok(self.latest_confirmed_round.result)
    }
}
