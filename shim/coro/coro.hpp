// Minimal stand-in for libcoro 0.14.1 (absent in this sandbox): the subset AlayaLite uses.
// Semantics follow libcoro: lazy tasks with symmetric transfer, thread_pool FIFO queue,
// when_all captures exceptions per task (rethrown only by return_value()), sync_wait rethrows.
#pragma once
#include <atomic>
#include <concepts>
#include <condition_variable>
#include <coroutine>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <mutex>
#include <optional>
#include <ranges>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace coro {

template <typename T = void>
class task;

namespace detail {
struct promise_base {
  std::coroutine_handle<> continuation_{nullptr};
  std::exception_ptr ex_{};
  struct final_awaitable {
    bool await_ready() const noexcept { return false; }
    template <typename P>
    std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept {
      auto c = h.promise().continuation_;
      return c ? c : std::coroutine_handle<>(std::noop_coroutine());
    }
    void await_resume() noexcept {}
  };
  std::suspend_always initial_suspend() noexcept { return {}; }
  final_awaitable final_suspend() noexcept { return {}; }
  void continuation(std::coroutine_handle<> c) noexcept { continuation_ = c; }
  void unhandled_exception() noexcept { ex_ = std::current_exception(); }
};

template <typename T>
struct promise final : promise_base {
  std::optional<T> value_{};
  task<T> get_return_object() noexcept;
  template <typename U>
    requires std::constructible_from<T, U &&>
  void return_value(U &&v) {
    value_.emplace(std::forward<U>(v));
  }
  decltype(auto) result() & {
    if (ex_) std::rethrow_exception(ex_);
    if (!value_) throw std::runtime_error("task result not set");
    return (*value_);
  }
  T result() && {
    if (ex_) std::rethrow_exception(ex_);
    if (!value_) throw std::runtime_error("task result not set");
    return std::move(*value_);
  }
};
template <>
struct promise<void> final : promise_base {
  task<void> get_return_object() noexcept;
  void return_void() noexcept {}
  void result() {
    if (ex_) std::rethrow_exception(ex_);
  }
};
}  // namespace detail

template <typename T>
class [[nodiscard]] task {
 public:
  using promise_type = detail::promise<T>;
  using coroutine_handle = std::coroutine_handle<promise_type>;
  task() noexcept = default;
  explicit task(coroutine_handle h) noexcept : h_(h) {}
  task(const task &) = delete;
  task(task &&o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  task &operator=(const task &) = delete;
  task &operator=(task &&o) noexcept {
    if (this != &o) {
      if (h_) h_.destroy();
      h_ = std::exchange(o.h_, nullptr);
    }
    return *this;
  }
  ~task() {
    if (h_) h_.destroy();
  }
  bool is_ready() const noexcept { return !h_ || h_.done(); }
  bool resume() {
    if (h_ && !h_.done()) h_.resume();
    return h_ && !h_.done();
  }
  bool destroy() {
    if (h_) {
      h_.destroy();
      h_ = nullptr;
      return true;
    }
    return false;
  }
  promise_type &promise() & { return h_.promise(); }
  const promise_type &promise() const & { return h_.promise(); }
  promise_type &&promise() && { return std::move(h_.promise()); }
  coroutine_handle handle() { return h_; }

  struct awaitable_base {
    coroutine_handle h_;
    bool await_ready() const noexcept { return !h_ || h_.done(); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) noexcept {
      h_.promise().continuation(c);
      return h_;
    }
  };
  auto operator co_await() & noexcept {
    struct aw : awaitable_base {
      decltype(auto) await_resume() { return this->h_.promise().result(); }
    };
    return aw{{h_}};
  }
  auto operator co_await() && noexcept {
    struct aw : awaitable_base {
      decltype(auto) await_resume() { return std::move(this->h_.promise()).result(); }
    };
    return aw{{h_}};
  }

 private:
  coroutine_handle h_{nullptr};
};

namespace detail {
template <typename T>
inline task<T> promise<T>::get_return_object() noexcept {
  return task<T>{std::coroutine_handle<promise<T>>::from_promise(*this)};
}
inline task<void> promise<void>::get_return_object() noexcept {
  return task<void>{std::coroutine_handle<promise<void>>::from_promise(*this)};
}

// fire-and-forget wrapper used by sync_wait/when_all
struct detached {
  struct promise_type {
    detached get_return_object() noexcept {
      return {std::coroutine_handle<promise_type>::from_promise(*this)};
    }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};

struct event {
  std::mutex m;
  std::condition_variable cv;
  bool set_{false};
  void set() {
    // notify under the lock: the waiter may destroy *this right after waking
    std::lock_guard<std::mutex> g(m);
    set_ = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> g(m);
    while (!set_) cv.wait(g);
  }
};

template <typename A>
decltype(auto) get_awaiter(A &&a) {
  if constexpr (requires { std::forward<A>(a).operator co_await(); })
    return std::forward<A>(a).operator co_await();
  else
    return std::forward<A>(a);
}
template <typename A>
using await_result_t = decltype(get_awaiter(std::declval<A>()).await_resume());

template <typename A, typename R>
detached sync_runner(A &&a, std::optional<R> &out, std::exception_ptr &ex, event &ev) {
  try {
    out.emplace(co_await std::forward<A>(a));
  } catch (...) {
    ex = std::current_exception();
  }
  ev.set();
}
template <typename A>
detached sync_runner_void(A &&a, std::exception_ptr &ex, event &ev) {
  try {
    co_await std::forward<A>(a);
  } catch (...) {
    ex = std::current_exception();
  }
  ev.set();
}
}  // namespace detail

template <typename A>
auto sync_wait(A &&a) -> std::remove_cvref_t<detail::await_result_t<A>> {
  using R = std::remove_cvref_t<detail::await_result_t<A>>;
  detail::event ev;
  std::exception_ptr ex;
  if constexpr (std::is_void_v<R>) {
    auto d = detail::sync_runner_void<A>(std::forward<A>(a), ex, ev);
    d.h.resume();
    ev.wait();
    if (ex) std::rethrow_exception(ex);
  } else {
    std::optional<R> out;
    auto d = detail::sync_runner<A, R>(std::forward<A>(a), out, ex, ev);
    d.h.resume();
    ev.wait();
    if (ex) std::rethrow_exception(ex);
    return std::move(*out);
  }
}

// ---- when_all --------------------------------------------------------------------------------
template <typename T>
class when_all_task {
 public:
  using store = std::conditional_t<std::is_void_v<T>, std::monostate, std::optional<std::conditional_t<std::is_void_v<T>, int, T>>>;
  store value_{};
  std::exception_ptr ex_{};
  decltype(auto) return_value() {
    if (ex_) std::rethrow_exception(ex_);
    if constexpr (!std::is_void_v<T>) return (*value_);
  }
};

namespace detail {
struct latch {
  std::atomic<int64_t> n;
  std::coroutine_handle<> cont{nullptr};
  explicit latch(int64_t k) : n(k + 1) {}
  bool arrive() { return n.fetch_sub(1, std::memory_order_acq_rel) == 1; }
};
template <typename T>
detached when_all_runner(task<T> t, when_all_task<T> *slot, latch *l) {
  try {
    if constexpr (std::is_void_v<T>)
      co_await std::move(t);
    else
      slot->value_.emplace(co_await std::move(t));
  } catch (...) {
    slot->ex_ = std::current_exception();
  }
  if (l->arrive()) l->cont.resume();
}
}  // namespace detail

template <typename T>
class when_all_awaitable {
 public:
  explicit when_all_awaitable(std::vector<task<T>> ts)
      : tasks_(std::move(ts)), slots_(tasks_.size()), latch_(static_cast<int64_t>(tasks_.size())) {}
  when_all_awaitable(when_all_awaitable &&o) noexcept
      : tasks_(std::move(o.tasks_)), slots_(std::move(o.slots_)), latch_(static_cast<int64_t>(tasks_.size())) {}
  bool await_ready() const noexcept { return tasks_.empty(); }
  bool await_suspend(std::coroutine_handle<> c) {
    latch_.cont = c;
    for (size_t i = 0; i < tasks_.size(); ++i) {
      auto d = detail::when_all_runner<T>(std::move(tasks_[i]), &slots_[i], &latch_);
      d.h.resume();
    }
    return !latch_.arrive();
  }
  std::vector<when_all_task<T>> await_resume() { return std::move(slots_); }

 private:
  std::vector<task<T>> tasks_;
  std::vector<when_all_task<T>> slots_;
  detail::latch latch_;
};
template <typename T>
when_all_awaitable<T> when_all(std::vector<task<T>> ts) {
  return when_all_awaitable<T>(std::move(ts));
}
template <typename... Ts>
  requires(std::is_same_v<Ts, task<void>> && ...)
when_all_awaitable<void> when_all(Ts &&...ts) {
  std::vector<task<void>> v;
  (v.push_back(std::move(ts)), ...);
  return when_all_awaitable<void>(std::move(v));
}

// ---- thread_pool -----------------------------------------------------------------------------
namespace detail {
struct pool_options {
  uint32_t thread_count = std::thread::hardware_concurrency();
  std::function<void(std::size_t)> on_thread_start_functor = nullptr;
  std::function<void(std::size_t)> on_thread_stop_functor = nullptr;
};
}  // namespace detail
class thread_pool {
 public:
  using options = detail::pool_options;
  struct operation {
    thread_pool &p;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { p.push(h); }
    void await_resume() noexcept {}
  };
  explicit thread_pool(options o = {}) : opts_(std::move(o)) {
    for (uint32_t i = 0; i < opts_.thread_count; ++i) threads_.emplace_back([this, i] { run(i); });
  }
  thread_pool(const thread_pool &) = delete;
  thread_pool &operator=(const thread_pool &) = delete;
  virtual ~thread_pool() { shutdown(); }
  uint32_t thread_count() const noexcept { return static_cast<uint32_t>(threads_.size()); }
  operation schedule() {
    std::lock_guard<std::mutex> g(m_);
    if (stop_) throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
    return operation{*this};
  }
  operation yield() { return schedule(); }
  bool resume(std::coroutine_handle<> h) noexcept {
    if (!h || h.done()) return false;
    std::lock_guard<std::mutex> g(m_);
    if (stop_) return false;
    q_.push_back(h);
    cv_.notify_one();
    return true;
  }
  void shutdown() noexcept {
    {
      std::lock_guard<std::mutex> g(m_);
      if (stop_ && threads_.empty()) return;
      stop_ = true;
      cv_.notify_all();
    }
    for (auto &t : threads_)
      if (t.joinable()) t.join();
    threads_.clear();
  }

 private:
  void push(std::coroutine_handle<> h) {
    std::lock_guard<std::mutex> g(m_);
    q_.push_back(h);
    cv_.notify_one();
  }
  void run(uint32_t idx) {
    if (opts_.on_thread_start_functor) opts_.on_thread_start_functor(idx);
    for (;;) {
      std::coroutine_handle<> h;
      {
        std::unique_lock<std::mutex> g(m_);
        while (q_.empty() && !stop_) cv_.wait(g);
        if (q_.empty()) break;
        h = q_.front();
        q_.pop_front();
      }
      h.resume();
    }
    if (opts_.on_thread_stop_functor) opts_.on_thread_stop_functor(idx);
  }
  options opts_;
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::coroutine_handle<>> q_;
  bool stop_{false};
  std::vector<std::thread> threads_;
};

// ---- mutex (FIFO, direct hand-off) -----------------------------------------------------------
class mutex;
class scoped_lock {
 public:
  explicit scoped_lock(mutex *m) : m_(m) {}
  scoped_lock(scoped_lock &&o) noexcept : m_(std::exchange(o.m_, nullptr)) {}
  ~scoped_lock() { unlock(); }
  inline void unlock();

 private:
  mutex *m_;
};
class mutex {
 public:
  struct op {
    mutex &m;
    bool await_ready() { return false; }
    bool await_suspend(std::coroutine_handle<> h) {
      std::lock_guard<std::mutex> g(m.m_);
      if (!m.held_) {
        m.held_ = true;
        return false;
      }
      m.w_.push_back(h);
      return true;
    }
    coro::scoped_lock await_resume() { return coro::scoped_lock{&m}; }
  };
  [[nodiscard]] op scoped_lock() { return op{*this}; }
  void unlock() {
    std::coroutine_handle<> h;
    {
      std::lock_guard<std::mutex> g(m_);
      if (w_.empty()) {
        held_ = false;
        return;
      }
      h = w_.front();
      w_.pop_front();
    }
    h.resume();
  }

 private:
  friend struct op;
  std::mutex m_;
  bool held_{false};
  std::deque<std::coroutine_handle<>> w_;
};
inline void scoped_lock::unlock() {
  if (auto *m = std::exchange(m_, nullptr)) m->unlock();
}

}  // namespace coro
