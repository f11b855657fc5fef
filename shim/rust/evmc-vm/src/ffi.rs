use std::ffi::{c_char, c_void};

pub type evmc_host_context = c_void;
pub const EVMC_ABI_VERSION: u32 = 11;

#[repr(C)]
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, Default)]
pub struct evmc_bytes32 {
    pub bytes: [u8; 32],
}
pub type evmc_uint256be = evmc_bytes32;

#[repr(C)]
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, Default)]
pub struct evmc_address {
    pub bytes: [u8; 20],
}

macro_rules! cenum {
    ($n:ident $r:ident { $($v:ident = $x:expr,)* }) => {
        #[repr($r)]
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum $n { $($v = $x,)* }
    };
}
cenum!(evmc_call_kind u32 { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4, EVMC_EOFCREATE = 5, });
cenum!(evmc_flags u32 { EVMC_STATIC = 1, EVMC_DELEGATED = 2, });
cenum!(evmc_status_code i32 {
    EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4,
    EVMC_UNDEFINED_INSTRUCTION = 5, EVMC_STACK_OVERFLOW = 6, EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8,
    EVMC_INVALID_MEMORY_ACCESS = 9, EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11,
    EVMC_PRECOMPILE_FAILURE = 12, EVMC_CONTRACT_VALIDATION_FAILURE = 13, EVMC_ARGUMENT_OUT_OF_RANGE = 14,
    EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16, EVMC_INSUFFICIENT_BALANCE = 17,
    EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2, EVMC_OUT_OF_MEMORY = -3,
});
cenum!(evmc_step_status_code u32 { EVMC_STEP_RUNNING = 0, EVMC_STEP_STOPPED = 1, EVMC_STEP_RETURNED = 2, EVMC_STEP_REVERTED = 3, EVMC_STEP_FAILED = 4, });
cenum!(evmc_storage_status u32 {
    EVMC_STORAGE_ASSIGNED = 0, EVMC_STORAGE_ADDED = 1, EVMC_STORAGE_DELETED = 2, EVMC_STORAGE_MODIFIED = 3,
    EVMC_STORAGE_DELETED_ADDED = 4, EVMC_STORAGE_MODIFIED_DELETED = 5, EVMC_STORAGE_DELETED_RESTORED = 6,
    EVMC_STORAGE_ADDED_DELETED = 7, EVMC_STORAGE_MODIFIED_RESTORED = 8,
});
cenum!(evmc_access_status u32 { EVMC_ACCESS_COLD = 0, EVMC_ACCESS_WARM = 1, });
cenum!(evmc_set_option_result u32 { EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2, });
cenum!(evmc_capabilities u32 { EVMC_CAPABILITY_EVM1 = 1, EVMC_CAPABILITY_EWASM = 2, EVMC_CAPABILITY_PRECOMPILES = 4, });
cenum!(evmc_revision u32 {
    EVMC_FRONTIER = 0, EVMC_HOMESTEAD = 1, EVMC_TANGERINE_WHISTLE = 2, EVMC_SPURIOUS_DRAGON = 3, EVMC_BYZANTIUM = 4,
    EVMC_CONSTANTINOPLE = 5, EVMC_PETERSBURG = 6, EVMC_ISTANBUL = 7, EVMC_BERLIN = 8, EVMC_LONDON = 9, EVMC_PARIS = 10,
    EVMC_SHANGHAI = 11, EVMC_CANCUN = 12, EVMC_PRAGUE = 13,
});
pub type evmc_capabilities_flagset = u32;

#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct evmc_message {
    pub kind: evmc_call_kind,
    pub flags: u32,
    pub depth: i32,
    pub gas: i64,
    pub recipient: evmc_address,
    pub sender: evmc_address,
    pub input_data: *const u8,
    pub input_size: usize,
    pub value: evmc_uint256be,
    pub create2_salt: evmc_bytes32,
    pub code_address: evmc_address,
    pub code: *const u8,
    pub code_size: usize,
    pub code_hash: *const evmc_bytes32,
}

#[repr(C)]
#[derive(Debug, Clone, Copy, Hash, PartialEq)]
pub struct evmc_tx_initcode {
    pub hash: evmc_bytes32,
    pub code: *const u8,
    pub code_size: usize,
}

#[repr(C)]
#[derive(Debug, Clone, Copy, Hash, PartialEq)]
pub struct evmc_tx_context {
    pub tx_gas_price: evmc_uint256be,
    pub tx_origin: evmc_address,
    pub block_coinbase: evmc_address,
    pub block_number: i64,
    pub block_timestamp: i64,
    pub block_gas_limit: i64,
    pub block_prev_randao: evmc_uint256be,
    pub chain_id: evmc_uint256be,
    pub block_base_fee: evmc_uint256be,
    pub blob_base_fee: evmc_uint256be,
    pub blob_hashes: *const evmc_bytes32,
    pub blob_hashes_count: usize,
    pub initcodes: *const evmc_tx_initcode,
    pub initcodes_count: usize,
}

pub type evmc_release_result_fn = Option<unsafe extern "C" fn(*const evmc_result)>;
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct evmc_result {
    pub status_code: evmc_status_code,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output_data: *const u8,
    pub output_size: usize,
    pub release: evmc_release_result_fn,
    pub create_address: evmc_address,
    pub padding: [u8; 4],
}

type H = *mut evmc_host_context;
type A = *const evmc_address;
type B = *const evmc_bytes32;
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct evmc_host_interface {
    pub account_exists: Option<unsafe extern "C" fn(H, A) -> bool>,
    pub get_storage: Option<unsafe extern "C" fn(H, A, B) -> evmc_bytes32>,
    pub set_storage: Option<unsafe extern "C" fn(H, A, B, B) -> evmc_storage_status>,
    pub get_balance: Option<unsafe extern "C" fn(H, A) -> evmc_uint256be>,
    pub get_code_size: Option<unsafe extern "C" fn(H, A) -> usize>,
    pub get_code_hash: Option<unsafe extern "C" fn(H, A) -> evmc_bytes32>,
    pub copy_code: Option<unsafe extern "C" fn(H, A, usize, *mut u8, usize) -> usize>,
    pub selfdestruct: Option<unsafe extern "C" fn(H, A, A) -> bool>,
    pub call: Option<unsafe extern "C" fn(H, *const evmc_message) -> evmc_result>,
    pub get_tx_context: Option<unsafe extern "C" fn(H) -> evmc_tx_context>,
    pub get_block_hash: Option<unsafe extern "C" fn(H, i64) -> evmc_bytes32>,
    pub emit_log: Option<unsafe extern "C" fn(H, A, *const u8, usize, B, usize)>,
    pub access_account: Option<unsafe extern "C" fn(H, A) -> evmc_access_status>,
    pub access_storage: Option<unsafe extern "C" fn(H, A, B) -> evmc_access_status>,
    pub get_transient_storage: Option<unsafe extern "C" fn(H, A, B) -> evmc_bytes32>,
    pub set_transient_storage: Option<unsafe extern "C" fn(H, A, B, B)>,
}

#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct evmc_vm {
    pub abi_version: i32,
    pub name: *const c_char,
    pub version: *const c_char,
    pub destroy: Option<extern "C" fn(*mut evmc_vm)>,
    pub execute: Option<
        extern "C" fn(*mut evmc_vm, *const evmc_host_interface, H, evmc_revision, *const evmc_message, *const u8, usize) -> evmc_result,
    >,
    pub get_capabilities: Option<extern "C" fn(*mut evmc_vm) -> evmc_capabilities_flagset>,
    pub set_option: Option<extern "C" fn(*mut evmc_vm, *const c_char, *const c_char) -> evmc_set_option_result>,
}

pub type evmc_release_step_result_fn = Option<unsafe extern "C" fn(*const evmc_step_result)>;
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct evmc_step_result {
    pub step_status_code: evmc_step_status_code,
    pub status_code: evmc_status_code,
    pub revision: evmc_revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output_data: *const u8,
    pub output_size: usize,
    pub stack: *const evmc_uint256be,
    pub stack_size: usize,
    pub memory: *const u8,
    pub memory_size: usize,
    pub last_call_return_data: *const u8,
    pub last_call_return_data_size: usize,
    pub release: evmc_release_step_result_fn,
}

#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct evmc_vm_steppable {
    pub vm: *mut evmc_vm,
    pub step_n: Option<
        extern "C" fn(
            *mut evmc_vm_steppable,
            *const evmc_host_interface,
            H,
            evmc_revision,
            *const evmc_message,
            *const u8,
            usize,
            evmc_step_status_code,
            u64,
            i64,
            *mut evmc_bytes32,
            usize,
            *mut u8,
            usize,
            *mut u8,
            usize,
            i32,
        ) -> evmc_step_result,
    >,
    pub destroy: Option<extern "C" fn(*mut evmc_vm_steppable)>,
}
