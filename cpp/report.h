// What a harness observed, written as one JSON document for check.py.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <random>
#include <string>
#include <unordered_set>
#include <vector>

struct Report {
  std::mutex mu;
  std::map<std::string, int64_t> stats;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  struct V { std::string key, detail, replay; };
  std::vector<V> viols;
  std::map<std::string, int> seen;
  int64_t evals = 0;

  void Add(const std::string& k, int64_t n = 1) { std::scoped_lock l(mu); stats[k] += n; }
  void Eval(int64_t n = 1) { std::scoped_lock l(mu); evals += n; }
  void Distinct(uint64_t h) { std::scoped_lock l(mu); distinct.insert(h); }
  void Sample(const std::string& s) { std::scoped_lock l(mu); if (samples.size() < 6) samples.push_back(s.substr(0, 1500)); }
  bool Violation(const std::string& key, const std::string& detail, const std::string& replay = "") {
    std::scoped_lock l(mu);
    if (seen[key]++ == 0) viols.push_back({key, detail.substr(0, 4000), replay.substr(0, 20000)});
    return false;
  }
  bool Enough() { std::scoped_lock l(mu); for (auto& [k, n] : seen) if (n > 20) return true; return false; }

  static std::string Quote(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
      else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += char(c);
    }
    return r + "\"";
  }
  void Write(const char* path) {
    std::FILE* f = std::fopen(path, "w");
    if (!f) std::exit(9);
    std::fprintf(f, "{\"evaluations\":%lld,\"distinct\":%zu,\"stats\":{", (long long)evals, distinct.size());
    bool first = true;
    for (auto& [k, v] : stats) { std::fprintf(f, "%s%s:%lld", first ? "" : ",", Quote(k).c_str(), (long long)v); first = false; }
    std::fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) std::fprintf(f, "%s%s", i ? "," : "", Quote(samples[i]).c_str());
    std::fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < viols.size(); i++)
      std::fprintf(f, "%s{\"key\":%s,\"detail\":%s,\"replay\":%s}", i ? "," : "", Quote(viols[i].key).c_str(), Quote(viols[i].detail).c_str(), Quote(viols[i].replay).c_str());
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }
};

struct Args {
  const char* out = nullptr;
  uint64_t seed = 1;
  bool thorough = false;
  std::string prop, mode;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      auto is = [&](const char* n) { return !std::strcmp(argv[i], n); };
      if (is("-out")) out = argv[++i];
      else if (is("-seed")) seed = std::strtoull(argv[++i], nullptr, 10);
      else if (is("-prop")) prop = argv[++i];
      else if (is("-mode")) mode = argv[++i];
      else if (is("-thorough")) thorough = true;
    }
    if (!out) std::exit(9);
  }
};

inline uint64_t Fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325) {
  auto b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3;
  return h;
}
inline uint64_t Fnv(const std::string& s) { return Fnv(s.data(), s.size()); }

inline std::string HexOf(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
  return r;
}

// The original Keccak-256, written from its definition and used as an oracle.
inline void Keccak256Oracle(const uint8_t* in, size_t len, uint8_t out[32]) {
  uint64_t a[5][5] = {};
  auto rot = [](uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; };
  auto perm = [&] {
    uint64_t lfsr = 1;
    for (int round = 0; round < 24; round++) {
      uint64_t c[5], d[5];
      for (int x = 0; x < 5; x++) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
      for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) a[x][y] ^= d[x];
      int x = 1, y = 0;
      uint64_t cur = a[1][0];
      for (unsigned t = 0; t < 24; t++) {
        int ny = (2 * x + 3 * y) % 5;
        x = y; y = ny;
        uint64_t tmp = a[x][y];
        a[x][y] = rot(cur, ((t + 1) * (t + 2) / 2) % 64);
        cur = tmp;
      }
      for (int j = 0; j < 5; j++) {
        uint64_t r[5];
        for (int i = 0; i < 5; i++) r[i] = a[i][j];
        for (int i = 0; i < 5; i++) a[i][j] = r[i] ^ (~r[(i + 1) % 5] & r[(i + 2) % 5]);
      }
      for (int j = 0; j < 7; j++) {
        bool bit = lfsr & 1;
        lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171);
        if (bit) a[0][0] ^= uint64_t(1) << ((1u << j) - 1);
      }
    }
  };
  size_t pos = 0;
  auto put = [&](uint8_t b, size_t i) { a[(i / 8) % 5][i / 40] ^= uint64_t(b) << (8 * (i % 8)); };
  for (size_t i = 0; i < len; i++) {
    put(in[i], pos++);
    if (pos == 136) { perm(); pos = 0; }
  }
  put(0x01, pos);
  put(0x80, 135);
  perm();
  for (size_t i = 0; i < 32; i++) out[i] = uint8_t(a[(i / 8) % 5][i / 40] >> (8 * (i % 8)));
}
