#include "jobs_ut.h"
#include <vrs/helpers/JobQueue.h>

namespace {
struct Conv {
  static long get(const long& v) { return v; }
  static long get(const std::unique_ptr<long>& v) { return v ? *v : -1; }
  static void set(long& t, long v) { t = v; }
  static void set(std::unique_ptr<long>& t, long v) { t = std::make_unique<long>(v); }
};
template <class T>
void sendTo(vrs::JobQueue<T>& q, long v, bool move) {
  T t{};
  Conv::set(t, v);
  if constexpr (std::is_copy_constructible_v<T>) {
    if (!move) { const T& c = t; q.sendJob(c); return; }
  }
  q.sendJob(std::move(t));
}
template <class T>
class QueueOnly : public vrs::JobQueue<T> {
 public:
  void run(const std::function<void()>&, bool) {}
  void stop() {}
};
template <class T>
class QueueThread : public vrs::JobQueueWithThread<T> {
 public:
  void run(const std::function<void()>& fn, bool need) { need ? this->startThreadIfNeeded(fn) : this->startThread(fn); }
  void stop() { this->endThread(); }
};
// the jobs a queue of copyable jobs cannot hold are instantiated only for what compiles
template <class Q, class T>
class Ut : public JobsUt {
 public:
  Q q;
  void send(long v, bool move) override { sendTo<T>(q, v, move); }
  bool out(bool ok, T& t, long& v) { if (ok) v = Conv::get(t); return ok; }
  bool waitSec(long& v, double sec) override { T t{}; bool ok = q.waitForJob(t, sec); return out(ok, t, v); }
  bool waitMs(long& v, int64_t ms) override { T t{}; bool ok = q.waitForJobMs(t, ms); return out(ok, t, v); }
  bool waitEnd(long& v) override { T t{}; bool ok = q.waitForJob(t); return out(ok, t, v); }
  bool get(long& v) override { T t{}; bool ok = q.getJob(t); return out(ok, t, v); }
  bool all(bool ok, std::deque<T>& d, std::vector<long>& v) {
    v.clear();
    for (auto& t : d) v.push_back(Conv::get(t));
    return ok;
  }
  bool waitAllSec(std::vector<long>& v, double sec) override { std::deque<T> d; bool ok = q.waitForJobs(d, sec); return all(ok, d, v); }
  bool waitAllMs(std::vector<long>& v, int64_t ms) override { std::deque<T> d; bool ok = q.waitForJobsMs(d, ms); return all(ok, d, v); }
  void wakeAll() override { q.wakeAll(); }
  void reset() override { q.reset(); }
  void end(bool clear) override { clear ? q.endQueue() : q.endQueue(false); }
  bool ended() const override { return q.hasEnded(); }
  void cancel(const std::function<bool(long)>& sel, const std::function<void(long)>& cleanup) override {
    auto s = [&sel](const T& t) { return sel(Conv::get(t)); };
    if (cleanup) q.cancelQueuedJobs(s, [&cleanup](const T& t) { cleanup(Conv::get(t)); });
    else q.cancelQueuedJobs(s);
  }
  void cancelAll() override { q.cancelAllQueuedJobs(); }
  size_t size() const override { return q.getQueueSize(); }
  void startThread(const std::function<void()>& fn, bool ifNeeded) override { q.run(fn, ifNeeded); }
  void endThread() override { q.stop(); }
};
} // namespace

std::unique_ptr<JobsUt> makeJobs(JobKind k) {
  using L = long;
  using U = std::unique_ptr<long>;
  switch (k) {
    case JobKind::kLong: return std::make_unique<Ut<QueueOnly<L>, L>>();
    case JobKind::kUnique: return std::make_unique<Ut<QueueOnly<U>, U>>();
    case JobKind::kThreadLong: return std::make_unique<Ut<QueueThread<L>, L>>();
    default: return std::make_unique<Ut<QueueThread<U>, U>>();
  }
}
