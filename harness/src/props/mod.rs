pub mod cli;
pub mod codec;
pub mod config;
pub mod content;
pub mod crypto;
pub mod dump;
pub mod extra;
pub mod faults;
pub mod history;
pub mod hostile;
pub mod huge;
pub mod ipfs;
pub mod kinds;
pub mod query;
pub mod reentrant;
pub mod stores;
pub mod stream;
pub mod tags;
use crate::engine::Prop;
pub static ALL: &[&[Prop]] = &[content::PROPS, history::PROPS, query::PROPS, crypto::PROPS, codec::PROPS, faults::PROPS, stream::PROPS, tags::PROPS, stores::PROPS, dump::PROPS, hostile::PROPS, ipfs::PROPS, cli::PROPS, extra::PROPS, kinds::PROPS, huge::PROPS, reentrant::PROPS, config::PROPS];
