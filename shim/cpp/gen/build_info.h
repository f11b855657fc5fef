#pragma once
namespace tosca::evmzero::internal {
constexpr auto kCompilerId = "verif";
constexpr auto kCompilerVersion = "0";
constexpr auto kBuildType = "verif";
constexpr auto kCompileDefinitions = "";
constexpr auto kCompileOptions = "";
constexpr auto kAssertions = "ON";
constexpr auto kAsan = "";
constexpr auto kMimalloc = "OFF";
constexpr auto kTracy = "OFF";
}  // namespace tosca::evmzero::internal
