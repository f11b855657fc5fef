#ifndef VERIF_GLUE_H
#define VERIF_GLUE_H
#include <evmc/evmc.h>
#include <stdlib.h>

void* verif_load(const char* file, const char* symbol, char** error);
void verif_destroy(struct evmc_vm* vm);
void verif_destroy_steppable(struct evmc_vm_steppable* vm);
enum evmc_set_option_result verif_set_option(struct evmc_vm* vm, char* name, char* value);
struct evmc_result verif_execute(struct evmc_vm* vm, uintptr_t context, enum evmc_revision rev, enum evmc_call_kind kind, uint32_t flags,
                                 int32_t depth, int64_t gas, const evmc_address* recipient, const evmc_address* sender,
                                 const uint8_t* input, size_t input_size, const evmc_bytes32* value, bool has_hash,
                                 const evmc_bytes32* code_hash, const uint8_t* code, size_t code_size);
struct evmc_step_result verif_step_n(struct evmc_vm_steppable* vm, uintptr_t context, enum evmc_revision rev, enum evmc_call_kind kind,
                                     uint32_t flags, int32_t depth, int64_t gas, const evmc_address* recipient,
                                     const evmc_address* sender, const uint8_t* input, size_t input_size, const evmc_bytes32* value,
                                     bool has_hash, const evmc_bytes32* code_hash, const uint8_t* code, size_t code_size,
                                     enum evmc_step_status_code status, uint64_t pc, int64_t refund, const uint8_t* stack,
                                     size_t stack_size, const uint8_t* memory, size_t memory_size, const uint8_t* last,
                                     size_t last_size, int32_t steps);
void verif_release(struct evmc_result* r);
void verif_release_step(struct evmc_step_result* r);
#endif
