use std::ptr;

use crate::{ffi, AccessStatus, Address, Bytes32, ExecutionMessage, ExecutionResult, ExecutionTxContext, StorageStatus, Uint256};

/// The host of one execution.
pub struct ExecutionContext<'a> {
    host: &'a ffi::evmc_host_interface,
    context: *mut ffi::evmc_host_context,
    tx_context: Option<ExecutionTxContext>,
}

macro_rules! host {
    ($s:ident, $f:ident $(, $a:expr)*) => {
        // SAFETY: the host interface is complete and its context valid.
        unsafe { ($s.host.$f.expect(stringify!($f)))($s.context $(, $a)*) }
    };
}

impl<'a> ExecutionContext<'a> {
    pub fn new(host: &'a ffi::evmc_host_interface, context: *mut ffi::evmc_host_context) -> Self {
        Self { host, context, tx_context: None }
    }
    pub fn get_tx_context(&mut self) -> &ExecutionTxContext {
        if self.tx_context.is_none() {
            self.tx_context = Some(host!(self, get_tx_context));
        }
        self.tx_context.as_ref().unwrap()
    }
    pub fn account_exists(&self, address: &Address) -> bool {
        host!(self, account_exists, address)
    }
    pub fn get_storage(&self, address: &Address, key: &Bytes32) -> Bytes32 {
        host!(self, get_storage, address, key)
    }
    pub fn set_storage(&mut self, address: &Address, key: &Bytes32, value: &Bytes32) -> StorageStatus {
        host!(self, set_storage, address, key, value)
    }
    pub fn get_balance(&self, address: &Address) -> Uint256 {
        host!(self, get_balance, address)
    }
    pub fn get_code_size(&self, address: &Address) -> usize {
        host!(self, get_code_size, address)
    }
    pub fn get_code_hash(&self, address: &Address) -> Bytes32 {
        host!(self, get_code_hash, address)
    }
    pub fn copy_code(&self, address: &Address, code_offset: usize, buffer: &mut [u8]) -> usize {
        host!(self, copy_code, address, code_offset, buffer.as_mut_ptr(), buffer.len())
    }
    pub fn selfdestruct(&mut self, address: &Address, beneficiary: &Address) -> bool {
        host!(self, selfdestruct, address, beneficiary)
    }
    pub fn call(&mut self, message: &ExecutionMessage) -> ExecutionResult {
        let input = message.input();
        let code = message.code();
        let m = ffi::evmc_message {
            kind: message.kind(),
            flags: message.flags(),
            depth: message.depth(),
            gas: message.gas(),
            recipient: *message.recipient(),
            sender: *message.sender(),
            input_data: input.map_or(ptr::null(), |i| i.as_ptr()),
            input_size: input.map_or(0, |i| i.len()),
            value: *message.value(),
            create2_salt: *message.create2_salt(),
            code_address: *message.code_address(),
            code: code.map_or(ptr::null(), |c| c.as_ptr()),
            code_size: code.map_or(0, |c| c.len()),
            code_hash: message.code_hash().map_or(ptr::null(), |h| h as *const _),
        };
        host!(self, call, &m).into()
    }
    pub fn get_block_hash(&self, num: i64) -> Bytes32 {
        host!(self, get_block_hash, num)
    }
    pub fn emit_log(&mut self, address: &Address, data: &[u8], topics: &[Bytes32]) {
        host!(self, emit_log, address, data.as_ptr(), data.len(), topics.as_ptr(), topics.len())
    }
    pub fn access_account(&mut self, address: &Address) -> AccessStatus {
        host!(self, access_account, address)
    }
    pub fn access_storage(&mut self, address: &Address, key: &Bytes32) -> AccessStatus {
        host!(self, access_storage, address, key)
    }
    pub fn get_transient_storage(&self, address: &Address, key: &Bytes32) -> Bytes32 {
        host!(self, get_transient_storage, address, key)
    }
    pub fn set_transient_storage(&mut self, address: &Address, key: &Bytes32, value: &Bytes32) {
        host!(self, set_transient_storage, address, key, value)
    }
}
