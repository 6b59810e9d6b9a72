//! The parts of the services that turn accounts into messages and instructions, compiled as they are.
#![allow(unused, unused_braces)]
#[path = "../../../build/src/bin/service-mango-fills/src/fill_event_filter.rs"]
pub mod fill_event_filter;
#[path = "../../../build/src/bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs"]
pub mod mango_v4_perp_crank_sink;
#[path = "../../../build/src/bin/service-mango-crank/src/openbook_crank_sink.rs"]
pub mod openbook_crank_sink;
#[path = "../../../build/src/bin/service-mango-orderbook/src/orderbook_filter.rs"]
pub mod orderbook_filter;

pub use mango_feeds_connector::{self as connector, metrics};
pub use {async_channel, mango_feeds_lib, service_mango_fills, service_mango_orderbook, tokio};
pub use solana_sdk;
