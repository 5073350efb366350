// Stand-in for the third-party Poisson-disk sampler (not available offline).
// Contract assumed of the real one: every returned point lies in [x_min, x_max].
#pragma once
#include <array>
#include <cstdint>
#include <vector>
namespace thinks {
template <typename T, std::size_t N>
std::vector<std::array<T, N>> PoissonDiskSampling(T radius, const std::array<T, N>& x_min, const std::array<T, N>& x_max, std::uint32_t max_attempts = 30, std::uint32_t seed = 0){
    std::vector<std::array<T, N>> out; std::uint64_t s = seed*2654435761u + 12345u + (std::uint64_t)(radius*1e6)*1000003u + max_attempts*7919u;
  for (int k = 0; k < 200; k++){ std::array<T, N> a;
    for (std::size_t d = 0; d < N; d++){ s = s*6364136223846793005ull + 1442695040888963407ull; a[d] = x_min[d] + (x_max[d]-x_min[d])*((s >> 11) * (1.0/9007199254740992.0)); }
    out.push_back(a); }
  return out;
}
}
