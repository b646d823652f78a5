//! Stand-in for Oak's crate of this name.
#![no_std]
extern crate alloc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum StatusCode {
    Ok = 0,
    Unknown = 2,
    InvalidArgument = 3,
    Internal = 13,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Status {
    pub code: StatusCode,
    pub message: alloc::string::String,
}
