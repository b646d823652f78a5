//! Stand-in for what the runtime uses of tonic.

pub use async_trait::async_trait;

pub mod transport {
    pub mod channel {
        pub use oak_stubs::containers::Channel;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Code(pub i32);

impl From<i32> for Code {
    fn from(code: i32) -> Self {
        Code(code)
    }
}

#[derive(Clone, Debug)]
pub struct Status {
    pub code: Code,
    pub message: String,
}

impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self {
        Status { code, message: message.into() }
    }
    pub fn internal(message: impl Into<String>) -> Self {
        Self::new(Code(13), message)
    }
}

pub struct Request<T>(T);

impl<T> Request<T> {
    pub fn new(message: T) -> Self {
        Request(message)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}

#[derive(Debug)]
pub struct Response<T>(T);

impl<T> Response<T> {
    pub fn new(message: T) -> Self {
        Response(message)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}
