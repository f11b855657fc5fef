use std::{ptr, slice};

use crate::ffi;

pub type Address = ffi::evmc_address;
pub type Bytes32 = ffi::evmc_bytes32;
pub type Uint256 = ffi::evmc_uint256be;
pub type MessageKind = ffi::evmc_call_kind;
pub type MessageFlags = ffi::evmc_flags;
pub type StatusCode = ffi::evmc_status_code;
pub type StepStatusCode = ffi::evmc_step_status_code;
pub type StorageStatus = ffi::evmc_storage_status;
pub type AccessStatus = ffi::evmc_access_status;
pub type Revision = ffi::evmc_revision;
pub type ExecutionTxContext = ffi::evmc_tx_context;

#[cfg(not(feature = "optimized"))]
pub type Output = Vec<u8>;
#[cfg(feature = "optimized")]
pub type Output = Box<[u8]>;

unsafe fn buf<'a, T>(p: *const T, n: usize) -> Option<&'a [T]> {
    if p.is_null() {
        assert_eq!(n, 0);
        None
    } else if n == 0 {
        None
    } else {
        Some(slice::from_raw_parts(p, n))
    }
}

// ---------------------------------------------------------------- results

#[derive(Debug, Clone, PartialEq)]
pub struct ExecutionResult {
    pub status_code: StatusCode,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Output>,
    pub create_address: Option<Address>,
}

impl ExecutionResult {
    #[cfg(not(feature = "optimized"))]
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<&[u8]>) -> Self {
        Self { status_code, gas_left, gas_refund, output: output.map(|o| o.to_vec()), create_address: None }
    }
    #[cfg(feature = "optimized")]
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        Self { status_code, gas_left, gas_refund, output, create_address: None }
    }
    pub fn status_code(&self) -> StatusCode {
        self.status_code
    }
    pub fn gas_left(&self) -> i64 {
        self.gas_left
    }
    pub fn gas_refund(&self) -> i64 {
        self.gas_refund
    }
    #[cfg(not(feature = "optimized"))]
    pub fn output(&self) -> Option<&Vec<u8>> {
        self.output.as_ref()
    }
    #[cfg(feature = "optimized")]
    pub fn output(&self) -> Option<&[u8]> {
        self.output.as_deref()
    }
    pub fn create_address(&self) -> Option<&Address> {
        self.create_address.as_ref()
    }
}

impl From<ffi::evmc_result> for ExecutionResult {
    fn from(r: ffi::evmc_result) -> Self {
        let ret = Self {
            status_code: r.status_code,
            gas_left: r.gas_left,
            gas_refund: r.gas_refund,
            // SAFETY: the host's buffer is valid until released.
            output: unsafe { buf(r.output_data, r.output_size) }.map(|o| Output::from(o.to_vec())),
            create_address: Some(r.create_address),
        };
        if let Some(release) = r.release {
            // SAFETY: released once.
            unsafe { release(&r) };
        }
        ret
    }
}

extern "C" fn release_result(r: *const ffi::evmc_result) {
    // SAFETY: called once on a result built below.
    unsafe {
        let r = &*r;
        if !r.output_data.is_null() {
            drop(Box::from_raw(ptr::slice_from_raw_parts_mut(r.output_data as *mut u8, r.output_size)));
        }
    }
}

fn leak<T>(v: Option<Box<[T]>>) -> (*const T, usize) {
    match v {
        Some(b) if !b.is_empty() => {
            let n = b.len();
            (Box::into_raw(b) as *const T, n)
        }
        _ => (ptr::null(), 0),
    }
}

impl From<ExecutionResult> for ffi::evmc_result {
    fn from(v: ExecutionResult) -> Self {
        let (output_data, output_size) = leak(v.output.map(Box::<[u8]>::from));
        Self {
            status_code: v.status_code,
            gas_left: v.gas_left,
            gas_refund: v.gas_refund,
            output_data,
            output_size,
            release: Some(release_result),
            create_address: v.create_address.unwrap_or_default(),
            padding: [0; 4],
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct StepResult {
    pub step_status_code: StepStatusCode,
    pub status_code: StatusCode,
    pub revision: Revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Output>,
    pub stack: Vec<Uint256>,
    pub memory: Vec<u8>,
    pub last_call_return_data: Option<Vec<u8>>,
}

impl StepResult {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        step_status_code: StepStatusCode,
        status_code: StatusCode,
        revision: Revision,
        pc: u64,
        gas_left: i64,
        gas_refund: i64,
        output: Option<Output>,
        stack: Vec<Uint256>,
        memory: Vec<u8>,
        last_call_return_data: Option<Vec<u8>>,
    ) -> Self {
        Self { step_status_code, status_code, revision, pc, gas_left, gas_refund, output, stack, memory, last_call_return_data }
    }
}

extern "C" fn release_step_result(r: *const ffi::evmc_step_result) {
    // SAFETY: called once on a result built below.
    unsafe {
        let r = &*r;
        for (p, n) in [(r.output_data, r.output_size), (r.memory, r.memory_size), (r.last_call_return_data, r.last_call_return_data_size)] {
            if !p.is_null() {
                drop(Box::from_raw(ptr::slice_from_raw_parts_mut(p as *mut u8, n)));
            }
        }
        if !r.stack.is_null() {
            drop(Box::from_raw(ptr::slice_from_raw_parts_mut(r.stack as *mut Uint256, r.stack_size)));
        }
    }
}

impl From<StepResult> for ffi::evmc_step_result {
    fn from(v: StepResult) -> Self {
        let (output_data, output_size) = leak(v.output.map(Box::<[u8]>::from));
        let (stack, stack_size) = leak(Some(v.stack.into_boxed_slice()));
        let (memory, memory_size) = leak(Some(v.memory.into_boxed_slice()));
        let (last_call_return_data, last_call_return_data_size) = leak(v.last_call_return_data.map(Vec::into_boxed_slice));
        Self {
            step_status_code: v.step_status_code,
            status_code: v.status_code,
            revision: v.revision,
            pc: v.pc,
            gas_left: v.gas_left,
            gas_refund: v.gas_refund,
            output_data,
            output_size,
            stack,
            stack_size,
            memory,
            memory_size,
            last_call_return_data,
            last_call_return_data_size,
            release: Some(release_step_result),
        }
    }
}

// ---------------------------------------------------------------- messages

macro_rules! getters {
    ($t:ty) => {
        impl $t {
            pub fn kind(&self) -> MessageKind {
                self.kind
            }
            pub fn flags(&self) -> u32 {
                self.flags
            }
            pub fn depth(&self) -> i32 {
                self.depth
            }
            pub fn gas(&self) -> i64 {
                self.gas
            }
            pub fn recipient(&self) -> &Address {
                &self.recipient
            }
            pub fn sender(&self) -> &Address {
                &self.sender
            }
            pub fn value(&self) -> &Uint256 {
                &self.value
            }
            pub fn create2_salt(&self) -> &Bytes32 {
                &self.create2_salt
            }
            pub fn code_address(&self) -> &Address {
                &self.code_address
            }
            pub fn code_hash(&self) -> Option<&Bytes32> {
                self.code_hash.as_ref()
            }
        }
        impl From<&ffi::evmc_message> for $t {
            fn from(m: &ffi::evmc_message) -> Self {
                // SAFETY: the caller's pointers are valid for as long as the message.
                unsafe {
                    Self::new(
                        m.kind,
                        m.flags,
                        m.depth,
                        m.gas,
                        m.recipient,
                        m.sender,
                        buf(m.input_data, m.input_size),
                        m.value,
                        m.create2_salt,
                        m.code_address,
                        buf(m.code, m.code_size),
                        if m.code_hash.is_null() { None } else { Some(*m.code_hash) },
                    )
                }
            }
        }
    };
}

#[cfg(not(feature = "optimized"))]
mod message {
    use super::*;

    #[derive(Debug, Clone)]
    pub struct ExecutionMessage {
        kind: MessageKind,
        flags: u32,
        depth: i32,
        gas: i64,
        recipient: Address,
        sender: Address,
        input: Option<Vec<u8>>,
        value: Uint256,
        create2_salt: Bytes32,
        code_address: Address,
        code: Option<Vec<u8>>,
        code_hash: Option<Bytes32>,
    }

    impl ExecutionMessage {
        #[allow(clippy::too_many_arguments)]
        pub fn new(
            kind: MessageKind,
            flags: u32,
            depth: i32,
            gas: i64,
            recipient: Address,
            sender: Address,
            input: Option<&[u8]>,
            value: Uint256,
            create2_salt: Bytes32,
            code_address: Address,
            code: Option<&[u8]>,
            code_hash: Option<Bytes32>,
        ) -> Self {
            Self {
                kind,
                flags,
                depth,
                gas,
                recipient,
                sender,
                input: input.map(<[u8]>::to_vec),
                value,
                create2_salt,
                code_address,
                code: code.map(<[u8]>::to_vec),
                code_hash,
            }
        }
        pub fn input(&self) -> Option<&Vec<u8>> {
            self.input.as_ref()
        }
        pub fn code(&self) -> Option<&Vec<u8>> {
            self.code.as_ref()
        }
    }
    getters!(ExecutionMessage);
}
#[cfg(feature = "optimized")]
mod message {
    use super::*;

    #[derive(Debug, Clone)]
    pub struct ExecutionMessage<'a> {
        kind: MessageKind,
        flags: u32,
        depth: i32,
        gas: i64,
        recipient: Address,
        sender: Address,
        input: Option<&'a [u8]>,
        value: Uint256,
        create2_salt: Bytes32,
        code_address: Address,
        code: Option<&'a [u8]>,
        code_hash: Option<Bytes32>,
    }

    impl<'a> ExecutionMessage<'a> {
        #[allow(clippy::too_many_arguments)]
        pub fn new(
            kind: MessageKind,
            flags: u32,
            depth: i32,
            gas: i64,
            recipient: Address,
            sender: Address,
            input: Option<&'a [u8]>,
            value: Uint256,
            create2_salt: Bytes32,
            code_address: Address,
            code: Option<&'a [u8]>,
            code_hash: Option<Bytes32>,
        ) -> Self {
            Self { kind, flags, depth, gas, recipient, sender, input, value, create2_salt, code_address, code, code_hash }
        }
        pub fn input(&self) -> Option<&'a [u8]> {
            self.input
        }
        pub fn code(&self) -> Option<&'a [u8]> {
            self.code
        }
    }
    getters!(ExecutionMessage<'_>);
}
pub use message::ExecutionMessage;

