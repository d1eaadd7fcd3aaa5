// Asio counts references with a fence, which ThreadSanitizer does not see (a false alarm when the last owner is another thread):
// the same count, with the ordering on the operation itself.
#ifndef BOOST_ASIO_DETAIL_ATOMIC_COUNT_HPP
#define BOOST_ASIO_DETAIL_ATOMIC_COUNT_HPP
#include <boost/asio/detail/config.hpp>
#include <atomic>
namespace boost {
namespace asio {
namespace detail {
typedef std::atomic<long> atomic_count;
inline void increment(atomic_count& a, long b) { a += b; }
inline void decrement(atomic_count& a, long b) { a -= b; }
inline void ref_count_up(atomic_count& a) { a.fetch_add(1, std::memory_order_relaxed); }
inline bool ref_count_down(atomic_count& a) { return a.fetch_sub(1, std::memory_order_acq_rel) == 1; }
} // namespace detail
} // namespace asio
} // namespace boost
#endif
