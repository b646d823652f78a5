//! Stand-in for Oak's crate of this name: the messages the repository uses, with contents that
//! the stand-ins for the other Oak crates can check.
#![no_std]
extern crate alloc;
pub mod oak {
    pub mod attestation {
        pub mod v1 {
            include!(concat!(env!("OUT_DIR"), "/oak.attestation.v1.rs"));
        }
    }
    pub mod session {
        pub mod v1 {
            include!(concat!(env!("OUT_DIR"), "/oak.session.v1.rs"));
        }
    }
}
