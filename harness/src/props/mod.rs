use crate::pbt::Prop;
#[cfg(feature = "services")]
pub mod feeds;
macro_rules! props {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Prop> {
            vec![
                $($m::prop(),)*
                #[cfg(feature = "services")]
                feeds::books(),
                #[cfg(feature = "services")]
                feeds::fills(),
                #[cfg(feature = "services")]
                feeds::cranks(),
            ]
        }
    };
}
props!(conserve, health, gates, tokenliq, bankruptcy, perpliq, orderbook, ledger, interest, limits, oracles, perpledger, funding, settle, tcs, access, modes, flash, layout, admin, spot, fees, math, cpi, tsnum, tshealth, tsviews, tstx, hclient);
