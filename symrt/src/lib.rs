//! Runtime of the contract checker.
//!
//! The same contract text (functions of /repo called under `requires` with
//! `ensures` attached) is compiled twice:
//!
//! * default: floating point is a symbolic real ([`Sym`]); every path of the real code is
//!   executed, every `ensures` becomes one proof obligation per path, discharged by the
//!   polynomial normaliser or by an SMT solver (Z3, cvc5 as second opinion);
//! * feature `native`: floats are machine floats and the inputs come from a counterexample
//!   file (replay) or from a seeded generator (run-time contract checking).
#![allow(clippy::all)]

#[cfg(not(feature = "native"))]
mod sym;
#[cfg(not(feature = "native"))]
pub use sym::*;
#[cfg(not(feature = "native"))]
mod fmods;
#[cfg(not(feature = "native"))]
pub use fmods::*;

#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::*;

/// One contract: the body calls real functions and states obligations.
#[derive(Clone, Copy)]
pub struct Contract {
    pub name: &'static str,
    /// function(s) of /repo put under contract
    pub target: &'static str,
    pub body: fn(),
}

mod main_entry;
pub use main_entry::main_entry;
