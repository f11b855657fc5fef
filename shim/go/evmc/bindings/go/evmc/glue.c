#include "glue.h"
#include "_cgo_export.h"
#include <dlfcn.h>
#include <string.h>

void* verif_load(const char* file, const char* symbol, char** error) {
  void* h = dlopen(file, RTLD_LAZY);
  void* (*f)(void) = h ? (void* (*)(void))dlsym(h, symbol) : 0;
  if (!f) {
    *error = dlerror();
    return 0;
  }
  return f();
}
void verif_destroy(struct evmc_vm* vm) { vm->destroy(vm); }
void verif_destroy_steppable(struct evmc_vm_steppable* vm) { vm->destroy(vm); }
enum evmc_set_option_result verif_set_option(struct evmc_vm* vm, char* name, char* value) {
  return vm->set_option ? vm->set_option(vm, name, value) : EVMC_SET_OPTION_INVALID_NAME;
}

#define ID(c) ((uintptr_t)(c))
typedef struct evmc_host_context* ctx;
static bool exists(ctx c, const evmc_address* a) { return verifAccountExists(ID(c), (evmc_address*)a); }
static evmc_bytes32 get(ctx c, const evmc_address* a, const evmc_bytes32* k) { return verifGetStorage(ID(c), (evmc_address*)a, (evmc_bytes32*)k); }
static enum evmc_storage_status set(ctx c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { return verifSetStorage(ID(c), (evmc_address*)a, (evmc_bytes32*)k, (evmc_bytes32*)v); }
static evmc_uint256be balance(ctx c, const evmc_address* a) { return verifGetBalance(ID(c), (evmc_address*)a); }
static size_t code_size_of(ctx c, const evmc_address* a) { return verifGetCodeSize(ID(c), (evmc_address*)a); }
static evmc_bytes32 code_hash_of(ctx c, const evmc_address* a) { return verifGetCodeHash(ID(c), (evmc_address*)a); }
static size_t copy_code(ctx c, const evmc_address* a, size_t o, uint8_t* p, size_t n) { return verifCopyCode(ID(c), (evmc_address*)a, o, p, n); }
static bool destruct(ctx c, const evmc_address* a, const evmc_address* b) { return verifSelfdestruct(ID(c), (evmc_address*)a, (evmc_address*)b); }
static void release_call(const struct evmc_result* r) { free((void*)r->output_data); }
static struct evmc_result call(ctx c, const struct evmc_message* m) {
  struct evmc_result r = verifCall(ID(c), (struct evmc_message*)m);
  r.release = release_call;
  return r;
}
static struct evmc_tx_context tx(ctx c) { return verifGetTxContext(ID(c)); }
static evmc_bytes32 block_hash(ctx c, int64_t n) { return verifGetBlockHash(ID(c), n); }
static void emit_log(ctx c, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t k) { verifEmitLog(ID(c), (evmc_address*)a, (uint8_t*)d, n, (evmc_bytes32*)t, k); }
static enum evmc_access_status access_account(ctx c, const evmc_address* a) { return verifAccessAccount(ID(c), (evmc_address*)a); }
static enum evmc_access_status access_storage(ctx c, const evmc_address* a, const evmc_bytes32* k) { return verifAccessStorage(ID(c), (evmc_address*)a, (evmc_bytes32*)k); }
static evmc_bytes32 get_transient(ctx c, const evmc_address* a, const evmc_bytes32* k) { return verifGetTransientStorage(ID(c), (evmc_address*)a, (evmc_bytes32*)k); }
static void set_transient(ctx c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { verifSetTransientStorage(ID(c), (evmc_address*)a, (evmc_bytes32*)k, (evmc_bytes32*)v); }

static const struct evmc_host_interface host = {exists, get, set, balance, code_size_of, code_hash_of, copy_code, destruct, call, tx,
                                                block_hash, emit_log, access_account, access_storage, get_transient, set_transient};

static struct evmc_message message(enum evmc_call_kind kind, uint32_t flags, int32_t depth, int64_t gas, const evmc_address* recipient,
                                   const evmc_address* sender, const uint8_t* input, size_t input_size, const evmc_bytes32* value,
                                   const evmc_bytes32* code_hash) {
  struct evmc_message m;
  memset(&m, 0, sizeof m);
  m.kind = kind;
  m.flags = flags;
  m.depth = depth;
  m.gas = gas;
  m.recipient = *recipient;
  m.sender = *sender;
  m.input_data = input;
  m.input_size = input_size;
  m.value = *value;
  m.code_hash = code_hash;
  return m;
}

struct evmc_result verif_execute(struct evmc_vm* vm, uintptr_t context, enum evmc_revision rev, enum evmc_call_kind kind, uint32_t flags,
                                 int32_t depth, int64_t gas, const evmc_address* recipient, const evmc_address* sender,
                                 const uint8_t* input, size_t input_size, const evmc_bytes32* value, bool has_hash,
                                 const evmc_bytes32* code_hash, const uint8_t* code, size_t code_size) {
  struct evmc_message m = message(kind, flags, depth, gas, recipient, sender, input, input_size, value, has_hash ? code_hash : 0);
  return vm->execute(vm, &host, (ctx)context, rev, &m, code, code_size);
}
struct evmc_step_result verif_step_n(struct evmc_vm_steppable* vm, uintptr_t context, enum evmc_revision rev, enum evmc_call_kind kind,
                                     uint32_t flags, int32_t depth, int64_t gas, const evmc_address* recipient,
                                     const evmc_address* sender, const uint8_t* input, size_t input_size, const evmc_bytes32* value,
                                     bool has_hash, const evmc_bytes32* code_hash, const uint8_t* code, size_t code_size,
                                     enum evmc_step_status_code status, uint64_t pc, int64_t refund, const uint8_t* stack,
                                     size_t stack_size, const uint8_t* memory, size_t memory_size, const uint8_t* last,
                                     size_t last_size, int32_t steps) {
  struct evmc_message m = message(kind, flags, depth, gas, recipient, sender, input, input_size, value, has_hash ? code_hash : 0);
  return vm->step_n(vm, &host, (ctx)context, rev, &m, code, code_size, status, pc, refund, (evmc_uint256be*)stack, stack_size,
                    (uint8_t*)memory, memory_size, (uint8_t*)last, last_size, steps);
}
void verif_release(struct evmc_result* r) {
  if (r->release) r->release(r);
}
void verif_release_step(struct evmc_step_result* r) {
  if (r->release) r->release(r);
}
