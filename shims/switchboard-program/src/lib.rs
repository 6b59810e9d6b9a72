//! Offline stand-in for the one Switchboard V1 account mango-v4 can read.
use std::convert::TryInto;
#[derive(Clone, Copy, Default, Debug)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
    pub decimal: [u8; 0],
}
#[derive(Clone, Copy, Default, Debug)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}
#[derive(Debug)]
pub struct SwitchboardError;
impl FastRoundResultAccountData {
    pub fn deserialize(d: &[u8]) -> Result<Self, SwitchboardError> {
        if d.len() < 88 {
            return Err(SwitchboardError);
        }
        let a = |i: usize| -> [u8; 8] { d[i..i + 8].try_into().unwrap() };
        let b = |i: usize| -> [u8; 4] { d[i..i + 4].try_into().unwrap() };
        Ok(Self {
            parent: d[8..40].try_into().unwrap(),
            result: FastRoundResult {
                num_success: i32::from_le_bytes(b(40)),
                num_error: i32::from_le_bytes(b(44)),
                result: f64::from_le_bytes(a(48)),
                round_open_slot: u64::from_le_bytes(a(56)),
                round_open_timestamp: i64::from_le_bytes(a(64)),
                min_response: f64::from_le_bytes(a(72)),
                max_response: f64::from_le_bytes(a(80)),
                decimal: [],
            },
        })
    }
}
