// Stand-in for swift-nav/ThreadPool (not available offline).  Single threaded:
// tasks are queued and the ORDER in which they run is an adversarial choice.
// Every enqueue may run any subset of the queued tasks, and a future's get()
// runs queued tasks in any order until its own task is done.  The symbolic
// runtime is told which task runs, and reports accesses of two unordered tasks
// to the same memory.  With SYMX_TSAN the tasks run on threads of their own,
// for ThreadSanitizer to confirm such a conflict.
#pragma once
#include <cassert>
#include <functional>
#include <future>
#include <list>
#include <memory>
#include <thread>
#include <type_traits>
#include <vector>
#ifdef SYMX
#include "symx.h"
#define SYMX_TASK(w, i) symx_task_(w, i)
#else
#define SYMX_TASK(w, i) (void)(i)
#endif
class ThreadPool {
  struct Task { std::function<void()> run; bool done = false; int id = 0; };
  std::list<std::shared_ptr<Task>> pending;
  std::vector<std::thread> threads;
  std::size_t n_;
  static int next() { static int ids = 0; return ++ids; }
  static long pick(long n) {
#ifdef SYMX
    return adversarial ? symx::choose("sched", 0, n - 1) : 0;
#else
    (void)n; return 0;
#endif
  }
  void runOne(long k) {
    SYMX_TASK(5, 0);
    auto it = pending.begin(); std::advance(it, k);
    auto t = *it; pending.erase(it);
    SYMX_TASK(6, 0);
    exec(&t->run, t->id); t->done = true;
  }
  __attribute__((noinline)) static void exec(std::function<void()> *f, int id) { SYMX_TASK(2, id); (*f)(); SYMX_TASK(3, id); }
public:
  static bool adversarial;
  explicit ThreadPool(std::size_t n, std::function<void()> init = nullptr, std::size_t stack = 0) : n_(n) { (void)stack; if (init) init(); }
  template <class T> ThreadPool(std::size_t n, std::function<void()> init, T stack) : n_(n) { (void)stack; if (init) init(); }
  std::size_t thread_count() const { return n_; }
  template <class F, class... Args> auto enqueue(F &&f, Args &&... args) {
    using R = typename std::invoke_result<typename std::decay<F>::type, typename std::decay<Args>::type...>::type;
#ifdef SYMX_TSAN
    std::packaged_task<R()> task(std::bind(std::forward<F>(f), std::forward<Args>(args)...));
    auto future = task.get_future();
    threads.emplace_back(std::move(task));
    return future;
#else
    SYMX_TASK(5, 0);
    auto pt = std::make_shared<std::packaged_task<R()>>(std::bind(std::forward<F>(f), std::forward<Args>(args)...));
    auto fut = std::make_shared<std::future<R>>(pt->get_future());
    auto t = std::make_shared<Task>();
    t->run = [pt]() { (*pt)(); }; t->id = next();
    pending.push_back(t);
    SYMX_TASK(1, t->id); SYMX_TASK(6, 0);
    if (adversarial) { long k; while (!pending.empty() && (k = pick((long)pending.size() + 1)) > 0) runOne(k - 1); }
    SYMX_TASK(5, 0);
    std::future<R> result = std::async(std::launch::deferred, [this, t, fut]() -> R {
      while (!t->done) runOne(pending.size() > 1 ? pick((long)pending.size()) : 0);
      SYMX_TASK(4, t->id);
      return fut->get();
    });
    SYMX_TASK(6, 0);
    return result;
#endif
  }
  ~ThreadPool() { for (auto &t : threads) t.join(); while (!pending.empty()) runOne(0); }
};
inline bool ThreadPool::adversarial = false;
