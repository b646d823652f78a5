//! What the checks of the actors share.

use bytes::Bytes;
use slog::{o, Discard, Logger};
use std::cell::Cell;
use std::rc::Rc;
use tcp_runtime::model::ActorContext;

pub fn logger() -> Logger {
    Logger::root(Discard, o!())
}

/// What an actor sees of its replica.
#[derive(Clone)]
pub struct Context {
    logger: Logger,
    pub id: u64,
    pub instant: Rc<Cell<u64>>,
    pub config: Bytes,
    pub leader: Rc<Cell<bool>>,
}

impl Context {
    pub fn new(id: u64, config: Bytes) -> Self {
        Context {
            logger: logger(),
            id,
            instant: Rc::new(Cell::new(0)),
            config,
            leader: Rc::new(Cell::new(true)),
        }
    }
}

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn instant(&self) -> u64 {
        self.instant.get()
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}

/// Monotone small index drawn from a byte: index into a list of any length.
pub fn pick<T>(list: &[T], at: u16) -> Option<&T> {
    if list.is_empty() {
        None
    } else {
        Some(&list[at as usize % list.len()])
    }
}
