//! Offline stand-in for the Rust bindings of EVMC with the Fantom extensions
//! (code and code hash in messages, step-wise execution). The feature
//! `optimized` gives the interface of the fork that borrows inputs and boxes
//! outputs.
#![allow(non_camel_case_types)]
mod container;
mod context;
pub mod ffi;
mod types;

pub use container::*;
pub use context::*;
pub use types::*;

/// What a VM implements.
pub trait EvmcVm {
    fn init() -> Self;
    fn set_option(&mut self, _key: &str, _value: &str) -> Result<(), SetOptionError> {
        Ok(())
    }
    fn execute<'a>(
        &self,
        revision: Revision,
        code: &'a [u8],
        message: &'a ExecutionMessage,
        context: Option<&'a mut ExecutionContext<'a>>,
    ) -> ExecutionResult;
}

pub trait SteppableEvmcVm {
    #[allow(clippy::too_many_arguments)]
    fn step_n<'a>(
        &self,
        revision: Revision,
        code: &'a [u8],
        message: &'a ExecutionMessage,
        context: Option<&'a mut ExecutionContext<'a>>,
        step_status: StepStatusCode,
        pc: u64,
        gas_refund: i64,
        stack: &'a mut [Uint256],
        memory: &'a mut [u8],
        last_call_return_data: &'a mut [u8],
        steps: i32,
    ) -> StepResult;
}

#[derive(Debug)]
pub enum SetOptionError {
    InvalidKey,
    InvalidValue,
}
