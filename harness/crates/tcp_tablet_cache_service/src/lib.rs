//! /repo/apps/tablet_cache/service/src/lib.rs without its actor, which needs Oak.
//! The modules are links to it.
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
extern crate hashbrown;
extern crate prost;
extern crate slog;
extern crate tcp_runtime;
extern crate tcp_tablet_store_service;

pub mod apps {
    pub mod tablet_cache {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_cache.service.rs"));
        }
    }
}

// Its test module imports tcp_runtime::util::raft, which needs raft-rs, so it
// is compiled as part of the library only.
#[cfg(not(test))]
pub mod store;
pub mod transaction;
