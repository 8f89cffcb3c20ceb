// Put in front of the simulator's sources: every random engine answers from a script the explorer owns, and records its seed.
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <limits>
#include <random>
#include <vector>
#define MC_VISIBLE extern "C" __attribute__((visibility("default"), used))
inline std::vector<int> mc_script_;
inline std::vector<uint64_t> mc_seeds_;
inline size_t mc_used_ = 0;
inline int mc_log_ = 2;
inline uint64_t mc_device_ = 0;
MC_VISIBLE inline void mc_set_script(const int* s, int n) { mc_script_.assign(s, s + n); mc_used_ = 0; }
MC_VISIBLE inline void mc_set_grid(int log) { mc_log_ = log; }
MC_VISIBLE inline int mc_used() { return static_cast<int>(mc_used_); }
MC_VISIBLE inline int mc_seed_count() { return static_cast<int>(mc_seeds_.size()); }
MC_VISIBLE inline uint64_t mc_seed(int i) { return mc_seeds_[static_cast<size_t>(i)]; }
MC_VISIBLE inline void mc_forget_seeds() { mc_seeds_.clear(); }
// every number the engine returns is one of 2^mc_log_ equally likely ones: exact for probabilities that are multiples of 2^-mc_log_
inline uint64_t mc_next(int bits) {
  uint64_t k = mc_used_ < mc_script_.size() ? static_cast<uint64_t>(mc_script_[mc_used_]) : 0;
  ++mc_used_;
  return (2 * k + 1) << (bits - 1 - mc_log_);
}
namespace std {
template <class T, int bits> struct mc_engine {
  using result_type = T;
  static constexpr T min() { return 0; }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  mc_engine() { mc_seeds_.push_back(0); }
  explicit mc_engine(uint64_t s) { mc_seeds_.push_back(s); }
  explicit mc_engine(std::seed_seq& q) { std::vector<uint32_t> v(4); q.generate(v.begin(), v.end()); mc_seeds_.push_back((uint64_t(v[0]) << 32) ^ v[1] ^ v[2] ^ v[3]); }
  void seed(uint64_t s) { mc_seeds_.push_back(s); }
  T operator()() { return static_cast<T>(mc_next(bits)); }
  void discard(unsigned long long n) { while (n--) mc_next(bits); }
};
struct mc_device {
  using result_type = unsigned int;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return std::numeric_limits<result_type>::max(); }
  mc_device() = default;
  explicit mc_device(const std::string&) {}
  result_type operator()() { return static_cast<result_type>(++mc_device_ * 1000003U); }
  double entropy() const { return 32; }
};
using mc_engine64 = mc_engine<uint64_t, 64>;
using mc_engine32 = mc_engine<uint32_t, 32>;
} // namespace std
#define mt19937_64 mc_engine64
#define mt19937 mc_engine32
#define default_random_engine mc_engine32
#define minstd_rand mc_engine32
#define random_device mc_device
