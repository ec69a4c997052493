// vrs::JobQueue is a template: these wrappers instantiate it in instrumented code (jobs_ut.cc).
#pragma once
#include <functional>
#include <memory>
#include <vector>

struct JobsUt {
  virtual ~JobsUt() = default;
  virtual void send(long v, bool move) = 0;
  virtual bool waitSec(long& v, double sec) = 0;
  virtual bool waitMs(long& v, int64_t ms) = 0;
  virtual bool waitEnd(long& v) = 0;
  virtual bool get(long& v) = 0;
  virtual bool waitAllSec(std::vector<long>& v, double sec) = 0;
  virtual bool waitAllMs(std::vector<long>& v, int64_t ms) = 0;
  virtual void wakeAll() = 0;
  virtual void reset() = 0;
  virtual void end(bool clear) = 0;
  virtual bool ended() const = 0;
  virtual void cancel(const std::function<bool(long)>& sel, const std::function<void(long)>& cleanup) = 0;
  virtual void cancelAll() = 0;
  virtual size_t size() const = 0;
  virtual void startThread(const std::function<void()>& fn, bool ifNeeded) = 0;
  virtual void endThread() = 0;
};
enum class JobKind { kLong, kUnique, kThreadLong, kThreadUnique };
std::unique_ptr<JobsUt> makeJobs(JobKind k);
