#pragma once
// minimal stand-in for swift-nav/ThreadPool: one thread per task
#include <functional>
#include <future>
#include <thread>
#include <vector>
class ThreadPool {
  std::size_t n_; std::vector<std::thread> threads_;
public:
  explicit ThreadPool(std::size_t n, std::function<void()> init = nullptr, std::size_t = 0) : n_(n) { if (init) init(); }
  std::size_t thread_count() const { return n_; }
  template <class F, class... A> auto enqueue(F &&f, A &&... a) {
    using R = typename std::invoke_result<typename std::decay<F>::type, typename std::decay<A>::type...>::type;
    std::packaged_task<R()> t(std::bind(std::forward<F>(f), std::forward<A>(a)...)); auto r = t.get_future(); threads_.emplace_back(std::move(t)); return r;
  }
  ~ThreadPool() { for (auto &t : threads_) t.join(); }
};
