//! Offline stand-in for the parts of mango-feeds-connector that the feed services name.
use solana_sdk::pubkey::Pubkey;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SlotStatus {
    Rooted,
    Confirmed,
    Processed,
}
#[derive(Clone, Debug)]
pub struct AccountWrite {
    pub pubkey: Pubkey,
    pub slot: u64,
    pub write_version: u64,
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub rent_epoch: u64,
    pub data: Vec<u8>,
    pub is_selected: bool,
}
#[derive(Clone, Debug)]
pub struct SlotUpdate {
    pub slot: u64,
    pub parent: Option<u64>,
    pub status: SlotStatus,
}

pub mod metrics {
    pub enum MetricType {
        Counter,
        Gauge,
    }
    #[derive(Clone, Default)]
    pub struct Metrics;
    #[derive(Clone, Default)]
    pub struct MetricU64(u64);
    impl Metrics {
        pub fn register_u64(&self, _: String, _: MetricType) -> MetricU64 {
            MetricU64(0)
        }
    }
    impl MetricU64 {
        pub fn increment(&mut self) {
            self.0 += 1;
        }
        pub fn set(&mut self, v: u64) {
            self.0 = v;
        }
        pub fn value(&self) -> u64 {
            self.0
        }
    }
}

pub mod account_write_filter {
    use super::chain_data::AccountData;
    use solana_sdk::pubkey::Pubkey;
    #[async_trait::async_trait]
    pub trait AccountWriteSink {
        async fn process(&self, pubkey: &Pubkey, account: &AccountData) -> Result<(), String>;
    }
}

/// What is known of the accounts, on the fork that ends in the newest slot.
pub mod chain_data {
    pub use super::SlotStatus;
    use solana_sdk::account::AccountSharedData;
    use solana_sdk::pubkey::Pubkey;
    use std::collections::HashMap;

    #[derive(Clone, Debug)]
    pub struct SlotData {
        pub slot: u64,
        pub parent: Option<u64>,
        pub status: SlotStatus,
        pub chain: u64,
    }
    #[derive(Clone, Debug)]
    pub struct AccountData {
        pub slot: u64,
        pub write_version: u64,
        pub account: AccountSharedData,
    }
    impl AccountData {
        pub fn is_newer_than(&self, slot: u64, write_version: u64) -> bool {
            (self.slot, self.write_version) > (slot, write_version)
        }
    }
    #[derive(Default)]
    pub struct ChainData {
        slots: HashMap<u64, SlotData>,
        accounts: HashMap<Pubkey, Vec<AccountData>>,
        rooted: u64,
        best: u64,
    }
    impl ChainData {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn update_slot(&mut self, n: SlotData) {
            let (slot, rooted) = (n.slot, n.status == SlotStatus::Rooted);
            let e = self.slots.entry(slot).or_insert_with(|| n.clone());
            e.parent = e.parent.or(n.parent);
            if e.status == SlotStatus::Processed || rooted {
                e.status = n.status;
            }
            self.best = self.best.max(slot);
            // mark the fork of the best slot
            let mut s = self.best;
            while let Some(d) = self.slots.get_mut(&s) {
                d.chain = self.best;
                match d.parent {
                    Some(p) if p < s => s = p,
                    _ => break,
                }
            }
            if rooted && slot > self.rooted {
                self.rooted = slot;
                let (slots, best, root) = (&self.slots, self.best, self.rooted);
                for w in self.accounts.values_mut() {
                    let keep = w.iter().rev().find(|a| a.slot <= root && live(slots, best, root, a.slot)).map(|a| (a.slot, a.write_version));
                    w.retain(|a| a.slot > root || Some((a.slot, a.write_version)) == keep);
                }
                self.slots.retain(|s, _| *s >= root);
            }
        }
        pub fn update_account(&mut self, key: Pubkey, a: AccountData) {
            let v = self.accounts.entry(key).or_default();
            let at = v.partition_point(|x| (x.slot, x.write_version) < (a.slot, a.write_version));
            if v.get(at).map(|x| (x.slot, x.write_version) == (a.slot, a.write_version)) == Some(true) {
                v[at] = a;
            } else {
                v.insert(at, a);
            }
        }
        pub fn account(&self, key: &Pubkey) -> anyhow::Result<&AccountData> {
            self.accounts
                .get(key)
                .and_then(|v| v.iter().rev().find(|a| live(&self.slots, self.best, self.rooted, a.slot)))
                .ok_or_else(|| anyhow::anyhow!("account {} has no live data", key))
        }
    }
    fn live(slots: &HashMap<u64, SlotData>, best: u64, rooted: u64, slot: u64) -> bool {
        slots
            .get(&slot)
            .map(|s| s.status == SlotStatus::Rooted || s.chain == best || slot > best)
            .unwrap_or(slot <= rooted || slot > best)
    }

    pub struct ChainDataMetrics;
    impl ChainDataMetrics {
        pub fn new(_: &super::metrics::Metrics) -> Self {
            Self
        }
        pub fn report(&mut self, _: &ChainData) {}
    }
}
