// Built with the thread sanitizer: a data race ends the run with status 66.
#include "common.h"
#include "common/simple_thread_pool.h"
#include <atomic>
#include <memory>

using namespace vf;
using static_map::common::ThreadPool;

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }

static void stuck(int) {
  char b[9000];
  int n = snprintf(b, sizeof b, "MISMATCH a call or a future does not come back | case: %s\n", what());
  if (write(1, b, n)) {
  }
  _exit(1);
}

// Results, order (one worker) and completion at destruction.
static void batch(int workers, int n, bool wait, int slow) {
  at("%d workers, %d tasks%s%s", workers, n, wait ? ", results awaited before destruction" : "", slow ? ", slow tasks" : "");
  std::unique_ptr<std::atomic<int>[]> runs(new std::atomic<int>[n]);
  for (int i = 0; i < n; ++i) runs[i] = 0;
  std::vector<int> order;
  std::mutex m;
  std::vector<std::future<int>> fs;
  std::atomic<int> alive{0}, most{0};
  {
    ThreadPool p(workers);
    for (int i = 0; i < n; ++i)
      fs.push_back(p.enqueue(
          [&](int k, const std::string& s) {
            int a = ++alive;
            for (int b = most; a > b && !most.compare_exchange_weak(b, a);) {
            }
            if (slow) usleep(slow);
            ++runs[k];
            {
              std::lock_guard<std::mutex> l(m);
              order.push_back(k);
            }
            --alive;
            if (k % 7 == 3) throw k;
            return k * 3 + static_cast<int>(s.size());
          },
          i, std::string(i % 5, 'x')));
    if (wait)
      for (auto& f : fs) f.wait();
  }
  EXPECT(alive == 0, "a task is still running after destruction");
  EXPECT(most <= workers, "%d tasks at once with %d workers", most.load(), workers);
  for (int i = 0; i < n; ++i) {
    EXPECT(runs[i] == 1, "task %d ran %d times", i, runs[i].load());
    EXPECT(fs[i].valid() && fs[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready,
           "the future of task %d is not ready", i);
    try {
      int r = fs[i].get();
      EXPECT(i % 7 != 3, "task %d: its exception is lost", i);
      EXPECT(r == i * 3 + i % 5, "task %d gave %d", i, r);
    } catch (int e) {
      EXPECT(i % 7 == 3 && e == i, "task %d: exception %d", i, e);
    }
  }
  if (workers == 1)
    for (int i = 0; i < n; ++i) EXPECT(order[i] == i, "task %d ran at place %d", order[i], i);
}

// Several threads submit; the tasks of one thread start in their order (one worker).
static void producers(int workers, int threads, int n) {
  at("%d workers, %d submitting threads, %d tasks each", workers, threads, n);
  std::vector<std::pair<int, int>> order;
  std::mutex m;
  {
    ThreadPool p(workers);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < n; ++i)
          p.enqueue([&m, &order, t, i] {
            std::lock_guard<std::mutex> l(m);
            order.emplace_back(t, i);
          });
      });
    for (auto& t : ts) t.join();
  }
  EXPECT(order.size() == static_cast<size_t>(threads * n), "%zu of %d tasks ran", order.size(), threads * n);
  std::vector<int> next(threads, 0);
  if (workers == 1)
    for (auto& o : order) EXPECT(next[o.first]++ == o.second, "thread %d: task %d out of order", o.first, o.second);
}

// A task that goes on submitting is refused at some point after destruction
// began; what was accepted runs.
static void refused(int workers) {
  at("%d workers, a task goes on submitting while the pool is destroyed", workers);
  std::atomic<int> accepted{0}, ran{0};
  std::atomic<bool> other{false}, thrown{false}, started{false};
  {
    ThreadPool p(workers);
    p.enqueue([&] {
      started = true;
      while (true) {
        try {
          p.enqueue([&] { ++ran; });
          ++accepted;
          usleep(200);
        } catch (const std::runtime_error&) {
          thrown = true;
          return;
        } catch (...) {
          other = true;
          return;
        }
      }
    });
    while (!started) usleep(100);
    usleep(in(0, 3000));
  }
  EXPECT(thrown && !other, "the refusal is not a std::runtime_error");
  EXPECT(accepted == ran, "%d tasks accepted, %d ran", accepted.load(), ran.load());
}

// Workers idle before the task arrives.
static void idle(int workers, int n) {
  at("%d idle workers, %d tasks one by one", workers, n);
  ThreadPool p(workers);
  for (int i = 0; i < n; ++i) {
    usleep(i == 0 ? 2000 : 100);
    EXPECT(p.enqueue([](int a, int b) { return a - b; }, 7 * i, i).get() == 6 * i, "task %d", i);
  }
  // as many tasks as workers run at the same time
  std::atomic<int> in_{0};
  std::vector<std::future<void>> fs;
  for (int i = 0; i < workers; ++i)
    fs.push_back(p.enqueue([&] {
      ++in_;
      while (in_ < workers) usleep(50);
    }));
  for (auto& f : fs) f.get();
}

int main() {
  setup();
  signal(SIGALRM, stuck);
  alarm(30);
  std::unique_ptr<ThreadPool>(new ThreadPool(3));
  for (int r = 0; r < 2 || more(); ++r) {
    alarm(30);
    batch(1, r == 0 ? 1 : in(1, 40), chance(0.5), chance(0.3) ? 300 : 0);
    batch(in(2, 6), in(1, 60), chance(0.5), chance(0.3) ? 300 : 0);
    producers(chance(0.5) ? 1 : in(2, 5), in(2, 5), in(1, 30));
    refused(in(1, 4));
    idle(in(1, 4), in(1, 5));
  }
  return done();
}
