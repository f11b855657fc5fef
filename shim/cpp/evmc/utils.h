#pragma once
#if defined(__GNUC__)
#define EVMC_EXPORT __attribute__((visibility("default")))
#else
#define EVMC_EXPORT
#endif
#if __cplusplus
#define EVMC_NOEXCEPT noexcept
#else
#define EVMC_NOEXCEPT
#endif
