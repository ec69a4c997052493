// C19: job queues, event channels, semaphores.
#include "common.h"
#include "jobs_ut.h"
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <unordered_set>
#include <vrs/os/Event.h>
#include <vrs/os/Semaphore.h>
#include <vrs/os/Time.h>
using namespace w;
using namespace sim;
using sim::fail;
using vrs::os::EventChannel;

namespace {
constexpr int64_t kSlack = 200000000; // simulated time a runnable thread may need at most, generously

uint64_t gTick;
uint64_t tick() { return ++gTick; }

// ------------------------------------------------------------------ job queues: linearizability
enum QOp { qSend, qWait, qGet, qAll, qCancel, qCancelAll, qEnd, qEndKeep, qSize, qEnded, qReset };
const char* const kQNames[] = {"send", "wait", "get", "waitAll", "cancel", "cancelAll", "end", "endKeep", "size", "ended", "reset"};
struct QRec {
  QOp op;
  uint64_t b = 0, e = ~0ull; // real-time order
  int64_t tb = 0, te = 0;    // simulated time
  long v = 0;
  bool ok = false;
  bool zero = false;         // does not wait at all
  vector<long> vs;           // received or passed to the clean-up
  std::function<bool(long)> sel;
  bool hasCleanup = false;
  int thread = 0;
  string str() const {
    string s = "t" + std::to_string(thread) + " " + kQNames[op] + "(" + std::to_string(v) + ")=" + (ok ? "1" : "0");
    for (long x : vs) s += " " + std::to_string(x);
    return s;
  }
};
struct QState {
  std::deque<long> q;
  bool ended = false;
};
// applies one operation to the specification; false if the observed result is impossible in that state
bool applyQ(QState& s, const QRec& r) {
  switch (r.op) {
    case qSend: s.q.push_back(r.v); return true;
    case qWait:
    case qGet:
      if (r.ok) {
        if (s.q.empty() || s.q.front() != r.v) return false;
        s.q.pop_front();
        return true;
      }
      return s.q.empty() || (r.op == qWait && s.ended && !r.zero);
    case qAll:
      if (r.ok) {
        // either the whole queue, or the one job that was waited for
        if (r.vs.empty() || r.vs.size() > s.q.size()) return false;
        if (!std::equal(r.vs.begin(), r.vs.end(), s.q.begin())) return false;
        if (r.vs.size() != s.q.size() && (r.vs.size() != 1 || r.zero)) return false;
        s.q.erase(s.q.begin(), s.q.begin() + (long)r.vs.size());
        return true;
      }
      return s.q.empty() || (s.ended && !r.zero);
    case qCancel: {
      vector<long> gone;
      std::deque<long> keep;
      for (long x : s.q) (r.sel(x) ? (void)gone.push_back(x) : keep.push_back(x));
      if (r.hasCleanup) {
        vector<long> a = r.vs;
        std::sort(a.begin(), a.end());
        std::sort(gone.begin(), gone.end());
        if (a != gone) return false;
      }
      s.q = keep;
      return true;
    }
    case qCancelAll: s.q.clear(); return true;
    case qEnd: s.q.clear(); s.ended = true; return true;
    case qEndKeep: s.ended = true; return true;
    case qSize: return (size_t)r.v == s.q.size();
    case qEnded: return r.ok == s.ended;
    case qReset: s.q.clear(); s.ended = false; return true;
  }
  return false;
}
// Is there an order of the operations, compatible with real time, that the specification allows? (Wing & Gong with memo)
struct LinCheck {
  const vector<QRec>& h;
  std::unordered_set<string> seen;
  uint64_t visited = 0;
  size_t best = 0;
  bool gaveUp = false;
  explicit LinCheck(const vector<QRec>& hist) : h(hist) {}
  bool go(vector<bool>& done, size_t nDone, const QState& s) {
    if (nDone == h.size()) return true;
    if (gaveUp || ++visited > 400000) { gaveUp = true; return true; }
    best = std::max(best, nDone);
    string k;
    for (size_t i = 0; i < h.size(); i++) k += done[i] ? '1' : '0';
    k += s.ended ? 'E' : 'e';
    for (long x : s.q) k += std::to_string(x) + ",";
    if (!seen.insert(k).second) return false;
    uint64_t minEnd = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!done[i]) minEnd = std::min(minEnd, h[i].e);
    for (size_t i = 0; i < h.size(); i++) {
      if (done[i] || h[i].b > minEnd) continue;
      QState t = s;
      if (!applyQ(t, h[i])) continue;
      done[i] = true;
      if (go(done, nDone + 1, t)) return true;
      done[i] = false;
    }
    return false;
  }
};
} // namespace

// several producers and consumers, cancellation, ending: the history must be that of a queue
SCENARIO("C19", jobs_history, 3) {
  Rng& r = ctx.rng;
  JobKind kind = r.chance(0.5) ? JobKind::kLong : JobKind::kUnique;
  int nProd = 1 + (int)r.below(3), nCons = 1 + (int)r.below(3), nSend = 1 + (int)r.below(8), nRecv = 2 + (int)r.below(6);
  bool canceller = r.chance(0.5), ender = r.chance(0.6), drain = r.chance(0.6);
  if (r.chance(0.4)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  bool pace = r.chance(0.5);
  // few jobs for consumers that wait long, all at the same time: a lost wake-up shows
  const bool tight = r.chance(0.4);
  if (tight) {
    pace = false;
    nCons = 1 + (int)r.below(3);
    nRecv = 1;
    nProd = 1 + (int)r.below(2);
    nSend = 1 + (int)r.below((uint64_t)nCons);
    canceller = r.chance(0.1);
  }
  gTick = 0;
  ctx.begin();
  vector<QRec> h;
  {
    auto q = makeJobs(kind);
    auto add = [&](QRec x) { noPreempt(1); h.push_back(std::move(x)); noPreempt(-1); };
    auto start = [&](QOp op, int th) { QRec x; x.op = op; x.thread = th; x.tb = nowNs(); x.b = tick(); return x; };
    auto stop = [&](QRec& x) { x.e = tick(); x.te = nowNs(); };
    auto receive = [&](int th, Rng& g) {
      int how = (int)g.below(7);
      QRec x = start(how < 4 ? qWait : how == 4 ? qGet : qAll, th);
      int64_t ms = g.chance(tight ? 0.03 : 0.15) ? 0 : g.chance(tight ? 0.1 : 0.5) ? 1 + (int64_t)g.below(20) : 500 + (int64_t)g.below(3000);
      double sec = g.chance(0.1) ? -1 : ms / 1000.;
      int64_t want = ms * 1000000;
      switch (how) {
        case 0: case 1: x.ok = q->waitMs(x.v, ms); break;
        case 2: x.ok = q->waitSec(x.v, sec); if (sec <= 0) want = 0; break;
        case 3: x.ok = q->waitMs(x.v, -ms); want = 0; break;
        case 4: x.ok = q->get(x.v); want = 0; break;
        case 5: x.ok = q->waitAllSec(x.vs, sec); if (sec <= 0) want = 0; break;
        default: x.ok = q->waitAllMs(x.vs, ms); break;
      }
      stop(x);
      x.zero = want <= 0;
      if (!x.ok && x.op == qAll && !x.vs.empty()) fail("job queue, waiting for jobs failed but returned %zu jobs", x.vs.size());
      int64_t took = x.te - x.tb;
      if (took > std::max<int64_t>(want, 0) + kSlack) fail("job queue, waiting %.3f s took %.3f s", want / 1e9, took / 1e9);
      // giving up early is allowed only when the queue has ended by then
      if (!x.ok && want > 0 && took < want - 2000000 && !q->ended()) fail("job queue, a wait of %.3f s gave up after %.3f s and the queue has not ended", want / 1e9, took / 1e9);
      add(x);
      return x.ok;
    };
    vector<std::thread> th;
    std::atomic<long> next{1};
    for (int p = 0; p < nProd; p++)
      th.emplace_back([&, p] {
        for (int k = 0; k < nSend; k++) {
          if (!ctx.op(100 + p * 20 + k)) continue;
          Rng g = ctx.opRng(100 + p * 20 + k);
          if (pace && g.chance(0.4)) sleepNs((int64_t)g.below(30000000));
          if (g.chance(0.08)) {
            QRec x = start(qSize, p);
            x.v = (long)q->size();
            stop(x);
            add(x);
          }
          long v = next++;
          QRec x = start(qSend, p);
          x.v = v;
          q->send(v, g.chance(0.5));
          stop(x);
          add(x);
        }
      });
    for (int c = 0; c < nCons; c++)
      th.emplace_back([&, c] {
        for (int k = 0; k < nRecv; k++) {
          if (!ctx.op(200 + c * 20 + k)) continue;
          Rng g = ctx.opRng(200 + c * 20 + k);
          if (pace && g.chance(0.3)) sleepNs((int64_t)g.below(30000000));
          else if (tight && g.chance(0.5)) sleepNs((int64_t)g.below(3000));
          receive(10 + c, g);
        }
      });
    if (canceller)
      th.emplace_back([&] {
        for (int k = 0; k < 3; k++) {
          if (!ctx.op(300 + k)) continue;
          Rng g = ctx.opRng(300 + k);
          sleepNs((int64_t)g.below(pace ? 40000000 : 20000));
          if (g.chance(0.15)) { q->wakeAll(); continue; }
          QRec x = start(g.chance(0.15) ? qCancelAll : qCancel, 20);
          if (x.op == qCancelAll) q->cancelAll();
          else {
            long mod = 1 + (long)g.below(4), rem = (long)g.below((uint64_t)mod);
            x.sel = [mod, rem](long v) { return v % mod == rem; };
            x.hasCleanup = g.chance(0.7);
            vector<long> cl;
            q->cancel(x.sel, x.hasCleanup ? std::function<void(long)>([&](long v) { cl.push_back(v); }) : nullptr);
            x.vs = cl;
          }
          stop(x);
          add(x);
        }
      });
    bool clear = r.chance(0.5);
    if (ender)
      th.emplace_back([&, clear] {
        if (!ctx.op(400)) return;
        Rng g = ctx.opRng(400);
        if (!tight || g.chance(0.5)) sleepNs((int64_t)g.below(pace ? 60000000 : tight ? 3000 : 40000));
        QRec x = start(clear ? qEnd : qEndKeep, 30);
        q->end(clear);
        stop(x);
        add(x);
        x = start(qEnded, 30);
        x.ok = q->ended();
        stop(x);
        add(x);
      });
    for (auto& t : th) t.join();
    // what is left
    if (drain) {
      for (int k = 0; k < 60; k++) {
        QRec x = start(k % 2 ? qAll : qGet, 40);
        x.zero = true;
        x.ok = k % 2 ? q->waitAllMs(x.vs, 0) : q->get(x.v);
        stop(x);
        add(x);
        if (!x.ok) break;
      }
    }
    QRec x = start(qSize, 40);
    x.v = (long)q->size();
    stop(x);
    add(x);
    if (r.chance(0.3)) {
      x = start(qReset, 40);
      q->reset();
      stop(x);
      add(x);
      x = start(qEnded, 40);
      x.ok = q->ended();
      stop(x);
      add(x);
      x = start(qSize, 40);
      x.v = (long)q->size();
      stop(x);
      add(x);
      x = start(qSend, 40);
      x.v = next++;
      q->send(x.v, true);
      stop(x);
      add(x);
      Rng g = ctx.opRng(500);
      receive(40, g);
    }
  }
  ctx.end();
  // nothing invented, nothing twice
  set<long> sent;
  map<long, const QRec*> by;
  for (auto& x : h) if (x.op == qSend) { sent.insert(x.v); by[x.v] = &x; }
  set<long> got;
  size_t nGot = 0;
  for (auto& x : h) {
    vector<long> vs = x.op == qAll ? x.vs : (x.op == qWait || x.op == qGet) && x.ok ? vector<long>{x.v} : vector<long>{};
    for (long v : vs) {
      if (!sent.count(v)) fail("job queue, job %ld received but never sent", v);
      if (!got.insert(v).second) fail("job queue, job %ld received twice", v);
      nGot++;
      // a waiting consumer is woken when a job arrives
      int64_t avail = std::max(by[v]->te, x.tb);
      if (x.te > avail + kSlack) fail("job queue, job %ld was there for %.3f s while its receiver waited", v, (x.te - avail) / 1e9);
    }
  }
  // a waiter leaves when the queue ends
  for (auto& e : h)
    if (e.op == qEnd || e.op == qEndKeep)
      for (auto& x : h)
        if ((x.op == qWait || x.op == qAll) && x.b < e.e && x.te > e.te + kSlack && x.tb < e.te) fail("job queue, a wait went on %.3f s after the queue ended", (x.te - e.te) / 1e9);
  LinCheck lc(h);
  vector<bool> done(h.size());
  if (!lc.go(done, 0, QState{})) {
    string s;
    std::sort(h.begin(), h.end(), [](auto& a, auto& b) { return a.b < b.b; });
    for (auto& x : h) s += x.str() + "; ";
    fail("job queue, no order of the operations explains the history: (got to %zu of %zu): %s", lc.best, h.size(), s.c_str());
  }
  if (lc.gaveUp) probe("history too large to check"); else probe("job history explained");
  if (nGot) nontrivial();
  for (auto& x : h) hist(x.str());
}

// consumers that wait without limit, until the queue ends
SCENARIO("C19", jobs_until_end, 2) {
  Rng& r = ctx.rng;
  bool withThread = r.chance(0.4);
  JobKind kind = withThread ? (r.chance(0.5) ? JobKind::kThreadLong : JobKind::kThreadUnique) : r.chance(0.5) ? JobKind::kLong : JobKind::kUnique;
  int nCons = withThread ? 1 : 1 + (int)r.below(3), nProd = 1 + (int)r.below(3), nSend = (int)r.below(12);
  if (r.chance(0.4)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  bool waitDone = r.chance(0.6), clear = withThread || r.chance(0.5);
  bool longIdle = r.chance(0.2);
  gTick = 0;
  ctx.begin();
  {
    auto owner = makeJobs(kind);
    JobsUt* q = owner.get();
    struct Got { long v; int c; int64_t t; };
    vector<Got> got;
    struct Sent { long v; int p; uint64_t b, e; int64_t t; };
    vector<Sent> sent;
    std::atomic<int> alive{0};
    std::atomic<bool> over{false};
    auto consume = [&](int c, Rng g) {
      alive++;
      long v = 0;
      while (q->waitEnd(v)) {
        noPreempt(1);
        got.push_back({v, c, nowNs()});
        noPreempt(-1);
        if (over) fail("job queue, job %ld received after the thread was ended", v);
        if (g.chance(0.2)) sleepNs((int64_t)g.below(1000000));
      }
      if (!q->ended()) fail("job queue, an unlimited wait returned without a job before the queue ended");
      alive--;
    };
    vector<std::thread> cons, prod;
    if (withThread) {
      q->startThread([&] { consume(0, ctx.opRng(900)); }, r.chance(0.5));
      if (r.chance(0.3)) q->startThread([&] { fail("job queue, a second thread was started though one was there"); }, true);
    } else {
      for (int c = 0; c < nCons; c++) cons.emplace_back([&, c] { consume(c, ctx.opRng(900 + (uint64_t)c)); });
    }
    if (longIdle) sleepNs(11000000000);
    std::atomic<long> next{1};
    for (int p = 0; p < nProd; p++)
      prod.emplace_back([&, p] {
        for (int k = 0; k < nSend; k++) {
          if (!ctx.op(100 + p * 20 + k)) continue;
          Rng g = ctx.opRng(100 + p * 20 + k);
          if (g.chance(0.2)) sleepNs((int64_t)g.below(3000000));
          noPreempt(1);
          long v = next++;
          uint64_t b = tick();
          noPreempt(-1);
          q->send(v, g.chance(0.5));
          noPreempt(1);
          sent.push_back({v, p, b, tick(), nowNs()});
          noPreempt(-1);
        }
      });
    for (auto& t : prod) t.join();
    if (waitDone) {
      sleepNs(1000000000);
      if (got.size() != sent.size()) fail("job queue, %zu jobs sent, %zu received 1 s later by idle consumers", sent.size(), got.size());
    }
    int64_t t0 = nowNs();
    if (withThread) {
      if (r.chance(0.7)) {
        q->endThread();
        over = true;
        if (r.chance(0.3)) q->endThread();
        if (alive != 0) fail("job queue, endThread returned while the thread still runs");
      } else {
        owner.reset();
        q = nullptr;
        over = true;
      }
    } else {
      q->end(clear);
      for (auto& t : cons) t.join();
    }
    if (nowNs() - t0 > kSlack) fail("job queue, consumers left %.3f s after the queue ended", (nowNs() - t0) / 1e9);
    vector<long> rest;
    if (q && !withThread) {
      vector<long> v;
      while (q->waitAllMs(v, (int64_t)r.below(2) * 100)) rest.insert(rest.end(), v.begin(), v.end());
      if (clear && !rest.empty()) fail("job queue, %zu jobs left after ending with clearing", rest.size());
    }
    if (nCons == 1 || !rest.empty()) {
      // order: of jobs sent one after the other, the earlier one is received first (one consumer, then the rest)
      vector<long> order;
      if (nCons == 1) for (auto& g : got) order.push_back(g.v);
      order.insert(order.end(), rest.begin(), rest.end());
      map<long, const Sent*> by;
      for (auto& s : sent) by[s.v] = &s;
      for (size_t i = 0; i < order.size(); i++)
        for (size_t j = i + 1; j < order.size(); j++)
          if (by.count(order[i]) && by.count(order[j]) && by[order[j]]->e < by[order[i]]->b) fail("job queue, job %ld received before %ld, which was sent earlier", order[i], order[j]);
    }
    set<long> seen;
    for (auto& g : got) if (!seen.insert(g.v).second) fail("job queue, job %ld received twice", g.v);
    for (long v : rest) if (!seen.insert(v).second) fail("job queue, job %ld received twice", v);
    if (!clear && seen.size() != sent.size()) fail("job queue, %zu jobs sent, %zu received in the end", sent.size(), seen.size());
    for (long v : seen) if (v < 1 || v >= next) fail("job queue, job %ld was never sent", v);
    if (!seen.empty()) nontrivial();
    for (auto& g : got) hist((uint64_t)g.v * 10 + (uint64_t)g.c);
  }
  ctx.end();
}

// ------------------------------------------------------------------ semaphore
SCENARIO("C19", semaphore, 2) {
  Rng& r = ctx.rng;
  unsigned init = (unsigned)r.below(4);
  int nPost = (int)r.below(4), nWait = 1 + (int)r.below(3);
  if (r.chance(0.3)) ctx.sched.pSpurious = 0.1;
  gTick = 0;
  ctx.begin();
  {
    vrs::os::Semaphore s(init);
    struct Ev { uint64_t b, e; bool post, ok; };
    vector<Ev> h;
    auto add = [&](Ev x) { noPreempt(1); h.push_back(x); noPreempt(-1); };
    std::atomic<int> blocked{0};
    vector<std::thread> th, wt;
    for (int p = 0; p < nPost; p++)
      th.emplace_back([&, p] {
        for (int k = 0; k < 5; k++) {
          if (!ctx.op(100 + p * 10 + k)) continue;
          Rng g = ctx.opRng(100 + p * 10 + k);
          if (g.chance(0.6)) sleepNs((int64_t)g.below(g.chance(0.3) ? 2000000000 : 1000000));
          uint64_t b = tick();
          s.post();
          add({b, tick(), true, true});
        }
      });
    for (int c = 0; c < nWait; c++)
      wt.emplace_back([&, c] {
        for (int k = 0; k < 5; k++) {
          if (!ctx.op(200 + c * 10 + k)) continue;
          Rng g = ctx.opRng(200 + c * 10 + k);
          if (g.chance(0.3)) sleepNs((int64_t)g.below(1000000));
          uint64_t b = tick();
          int64_t t0 = nowNs();
          if (g.chance(0.3)) {
            s.wait();
            add({b, tick(), false, true});
          } else {
            double sec = g.chance(0.2) ? 0 : g.chance(0.5) ? 0.001 * (1 + (double)g.below(10)) : 0.1 + 2 * g.unit();
            bool ok = s.timedWait(sec);
            uint64_t e = tick();
            int64_t took = nowNs() - t0;
            if (took > (int64_t)(sec * 1e9) + kSlack) fail("semaphore, a wait of %.3f s took %.3f s", sec, took / 1e9);
            if (!ok && took < (int64_t)(sec * 1e9) - 1000000) fail("semaphore, a wait of %.3f s gave up after %.6f s", sec, took / 1e9);
            add({b, e, false, ok});
          }
        }
      });
    for (auto& t : th) t.join();
    // waits without limit may still lack permits: give them, one by one, once everything has settled
    unsigned extra = 0;
    auto waiters = [&] { return liveThreads(); };
    for (int k = 0; k < 40 && waiters() > 0; k++) {
      sleepNs(3000000000);
      if (waiters() == 0) break;
      uint64_t b = tick();
      s.post();
      extra++;
      add({b, tick(), true, true});
    }
    for (auto& t : wt) t.join();
    // permits are neither lost nor made up
    long posts = 0, taken = 0;
    for (auto& x : h) (x.post ? posts : taken) += x.ok;
    long left = 0;
    while (left < 1000 && s.timedWait(0)) left++;
    if ((long)init + posts - taken != left) fail("semaphore, %u + %ld permits, %ld taken, but %ld left", init, posts, taken, left);
    for (auto& x : h) {
      if (x.post || x.ok) continue;
      long sure = (long)init;
      for (auto& y : h) {
        if (y.post && y.e < x.b) sure++;
        if (!y.post && y.ok && y.b < x.e) sure--;
      }
      if (sure > 0) fail("semaphore, a timed wait failed though %ld permits were there", sure);
    }
    for (auto& x : h) {
      if (x.post || !x.ok) continue;
      long most = (long)init;
      for (auto& y : h) {
        if (y.post && y.b < x.e) most++;
        if (!y.post && y.ok && y.e < x.b) most--;
      }
      if (most <= 0) fail("semaphore, a wait succeeded without a permit");
    }
    if (taken) nontrivial();
    for (auto& x : h) hist(x.b * 4 + x.post * 2 + x.ok);
  }
  ctx.end();
}

// ------------------------------------------------------------------ event channels
namespace {
using St = EventChannel::Status;
// a waiter that does what it is told
struct Waiter {
  std::mutex m;
  std::condition_variable cv;
  int cmd = 0; // 1 wait, 2 leave
  double timeout = 0, back = 0;
  bool busy = false;
  St st = St::INVALID;
  EventChannel::Event ev{};
  double b = 0, e = 0;
  std::thread th;
  int tid = -1;
  void run(EventChannel*& ch) {
    tid = currentTid();
    std::unique_lock<std::mutex> l(m);
    for (;;) {
      cv.wait(l, [&] { return cmd != 0; });
      int c = cmd;
      cmd = 0;
      if (c == 2) return;
      double to = timeout, bk = back;
      l.unlock();
      EventChannel::Event x{-7, -7, -7};
      double t0 = vrs::os::getTimestampSec();
      St s = ch->waitForEvent(x, to, bk);
      double t1 = vrs::os::getTimestampSec();
      l.lock();
      st = s; ev = x; b = t0; e = t1;
      busy = false;
    }
  }
  void tell(int c, double to = 0, double bk = 0) {
    std::lock_guard<std::mutex> l(m);
    cmd = c; timeout = to; back = bk;
    if (c == 1) busy = true;
    cv.notify_one();
  }
};
} // namespace

// Commands are given one at a time, each once every waiter has come to rest: the outcome of each is exactly known.
SCENARIO("C19", events_exact, 3) {
  Rng& r = ctx.rng;
  bool bcast = r.chance(0.5);
  int nw = 1 + (int)r.below(4), nCmd = 5 + (int)r.below(25);
  if (ctx.sched.policy == kStarve && r.chance(0.5)) ctx.sched.policy = kRandomWalk;
  if (r.chance(0.4)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  ctx.begin();
  {
    EventChannel* ch = new EventChannel("ev", bcast ? EventChannel::NotificationMode::BROADCAST : EventChannel::NotificationMode::UNICAST);
    if (ch->getName() != "ev") fail("event channel, wrong name");
    vector<unique_ptr<Waiter>> ws;
    for (int i = 0; i < nw; i++) {
      ws.push_back(std::make_unique<Waiter>());
      Waiter* p = ws.back().get();
      p->th = std::thread([p, &ch] { p->run(ch); });
    }
    auto settle = [&] {
      for (int k = 0; k < 100000; k++) {
        sleepNs(2000);
        bool all = true;
        for (auto& x : ws) {
          const char* s = x->tid < 0 ? "" : threadWait(x->tid);
          if (!strstr(s, "condition wait") || x->cmd) all = false;
        }
        if (all) return;
      }
      fail("event channel, waiters do not come to rest");
    };
    // the model
    int64_t count = 0;
    set<int64_t> last; // possible values of the most recent event
    double lastLo = 0, lastHi = 0;
    struct L { int i; int64_t missed; double due; };
    vector<L> lst;
    auto now = [] { return vrs::os::getTimestampSec(); };
    auto outcome = [&](const char* what, Waiter& x, St want, int64_t missed, const set<int64_t>* vals, double lo, double hi) {
      if (x.busy) fail("event channel, %s: a waiter that had to return with status %d still waits", what, (int)want);
      if (x.st != want) fail("event channel, %s: a wait returned status %d, expected %d", what, (int)x.st, (int)want);
      if (x.ev.numMissedEvents != missed) fail("event channel, %s: a wait reports %ld missed events, expected %ld (status %d)", what, (long)x.ev.numMissedEvents, (long)missed, (int)want);
      if (want == St::SUCCESS) {
        if (!vals->count(x.ev.value)) fail("event channel, %s: a wait got the value %ld, which is not that of the event", what, (long)x.ev.value);
        if (x.ev.timestampSec < lo - 1e-9 || x.ev.timestampSec > hi + 1e-9) fail("event channel, %s: event time %.9f is not within %.9f..%.9f", what, x.ev.timestampSec, lo, hi);
      }
    };
    auto expire = [&](double t, const char* what) {
      for (size_t k = 0; k < lst.size();) {
        Waiter& x = *ws[(size_t)lst[k].i];
        if (!x.busy) {
          if (lst[k].due > t + 0.001) fail("event channel, %s: a wait with %.3f s left returned status %d", what, lst[k].due - t, (int)x.st);
          outcome(what, x, St::TIMEOUT, lst[k].missed, nullptr, 0, 0);
          lst.erase(lst.begin() + (long)k);
        } else {
          if (lst[k].due + 0.2 < t) fail("event channel, %s: a wait is %.3f s late", what, t - lst[k].due);
          k++;
        }
      }
    };
    int64_t nextVal = 100;
    int woken = 0;
    settle();
    for (int c = 0; c < nCmd; c++) {
      if (!ctx.op(100 + c)) continue;
      Rng g = ctx.opRng(100 + c);
      int what = (int)g.below(10);
      vector<int> idle;
      for (int i = 0; i < nw; i++) if (!ws[(size_t)i]->busy) idle.push_back(i);
      // keep away from deadlines: a command never comes within 0.25 s of one
      for (int k = 0; k < 20; k++) {
        bool near = false;
        for (auto& l : lst) if (l.due - now() < 0.25) near = true;
        if (!near) break;
        sleepNs(500000000);
        settle();
        expire(now(), "time passes");
      }
      if (what < 4 && !idle.empty()) {
        Waiter& x = *ws[(size_t)idle[g.below(idle.size())]];
        int idx = 0;
        for (int i = 0; i < nw; i++) if (ws[(size_t)i].get() == &x) idx = i;
        double to = g.chance(0.1) ? 0 : g.chance(0.1) ? -1 : g.chance(0.8) ? 2 + (double)g.below(5) : 0.001;
        double age = now() - lastHi;
        double back = g.chance(0.4) ? 0 : g.chance(0.5) ? 1000000 : std::max(0., age + (g.chance(0.5) ? 0.1 : -0.1));
        bool past = count > 0 && back > 0 && age < back;
        double t0 = now();
        x.tell(1, to, back);
        settle();
        if (past) {
          outcome("looking back", x, St::SUCCESS, count - 1, &last, lastLo, lastHi);
          woken++;
          probe("event from the past");
        } else if (to <= 0.001) {
          if (x.busy) { sleepNs(250000000); settle(); }
          outcome("not waiting", x, St::TIMEOUT, count, nullptr, 0, 0);
        } else {
          if (!x.busy) fail("event channel, a wait of %.3f s (look back %.3f s, %ld events, last %.3f s ago) returned at once with status %d", to, back, (long)count, age, (int)x.st);
          lst.push_back({idx, count, t0 + to});
        }
        count = 0;
      } else if (what < 7) {
        int64_t v = nextVal++;
        double t0 = now();
        ch->dispatchEvent(v);
        double t1 = now();
        settle();
        last = {v};
        lastLo = t0; lastHi = t1;
        if (lst.empty()) count++;
        int n = 0;
        for (size_t k = 0; k < lst.size();) {
          Waiter& x = *ws[(size_t)lst[k].i];
          if (x.busy) {
            if (bcast) fail("event channel, a broadcast event did not wake all %zu listeners", lst.size());
            k++;
            continue;
          }
          outcome("dispatch", x, St::SUCCESS, lst[k].missed, &last, t0, t1);
          n++;
          lst.erase(lst.begin() + (long)k);
        }
        woken += n;
        if (!bcast && n != 1 && count == 0) fail("event channel, one event woke %d listeners", n);
        probe(bcast ? "broadcast event" : "unicast event");
      } else if (what < 8) {
        // several events at the same time
        int k = 2 + (int)g.below(3);
        set<int64_t> vals;
        double t0 = now();
        vector<std::thread> th;
        for (int i = 0; i < k; i++) {
          int64_t v = nextVal++;
          vals.insert(v);
          th.emplace_back([&, v] { ch->dispatchEvent(v); });
        }
        for (auto& t : th) t.join();
        double t1 = now();
        settle();
        size_t had = lst.size();
        int n = 0;
        for (size_t j = 0; j < lst.size();) {
          Waiter& x = *ws[(size_t)lst[j].i];
          if (x.busy) { j++; continue; }
          outcome("concurrent dispatch", x, St::SUCCESS, lst[j].missed, &vals, t0, t1);
          n++;
          lst.erase(lst.begin() + (long)j);
        }
        woken += n;
        int64_t c2 = ch->getNumEventsSinceLastWait();
        if (bcast) {
          if (n != (int)had) fail("event channel, concurrent broadcasts woke %d of %zu listeners", n, had);
        } else if (had && (n < 1 || n > k)) {
          fail("event channel, %d concurrent events woke %d of %zu listeners", k, n, had);
        }
        if (had == 0) count += k;
        else {
          if (!lst.empty() && c2 != 0) fail("event channel, %ld events counted as missed while a listener waits", (long)c2);
          if (c2 < 0 || c2 > k - (bcast ? 1 : n)) fail("event channel, %d concurrent events woke %d listeners, and %ld count as missed", k, n, (long)c2);
          count = c2;
        }
        last = vals;
        lastLo = t0; lastHi = t1;
        probe("concurrent events");
      } else {
        sleepNs(1 + (int64_t)g.below(3000000000));
        settle();
      }
      // now() may be close to a deadline: those waiters may be in either state
      double t = now();
      for (size_t k = 0; k < lst.size(); k++)
        if (t > lst[k].due - 0.21 && t <= lst[k].due + 0.2) { sleepNs(700000000); settle(); k = (size_t)-1; t = now(); }
      expire(t, "time passes");
      if (ch->getNumEventsSinceLastWait() != count) fail("event channel, %ld events since the last wait, expected %ld", (long)ch->getNumEventsSinceLastWait(), (long)count);
      hist((uint64_t)count * 16 + lst.size());
    }
    // the channel goes away: its waiters leave
    bool fair = ctx.sched.policy != kStarve && ctx.sched.policy != kPct;
    if (!lst.empty() && (!fair || r.chance(0.3))) {
      sleepNs(20000000000);
      settle();
      expire(now(), "time passes");
      if (!lst.empty()) fail("event channel, a wait did not time out");
    }
    if (!lst.empty()) probe("destroyed with waiters");
    double t0 = now();
    delete ch;
    for (auto& l : lst) {
      Waiter& x = *ws[(size_t)l.i];
      for (int k = 0; k < 100 && x.busy; k++) sleepNs(1000000);
      if (x.busy) fail("event channel, a waiter is still there after the channel was destroyed");
      if (x.st != St::FAILURE) fail("event channel, a waiter of a destroyed channel got status %d", (int)x.st);
      if (x.e > t0 + 0.2) fail("event channel, a waiter left %.3f s after the channel was destroyed", x.e - t0);
    }
    for (auto& x : ws) { x->tell(2); x->th.join(); }
    if (woken) nontrivial();
  }
  ctx.end();
}

// waiters and dispatchers run freely: conservation, and no lost wake-up
SCENARIO("C19", events_free, 2.5) {
  Rng& r = ctx.rng;
  bool bcast = r.chance(0.5);
  int nw = 1 + (int)r.below(4), nd = 1 + (int)r.below(3), nWait = 2 + (int)r.below(6), nDisp = 2 + (int)r.below(8);
  if (r.chance(0.4)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  int64_t gap = r.chance(0.5) ? 20000 : 30000000;
  gTick = 0;
  ctx.begin();
  {
    EventChannel ch("free", bcast ? EventChannel::NotificationMode::BROADCAST : EventChannel::NotificationMode::UNICAST);
    struct D { int64_t v; uint64_t b, e; double tb, te; };
    struct W { uint64_t b, e, listening = ~0ull; double tb, te, to, back; St st; EventChannel::Event ev; };
    vector<D> ds;
    vector<W> wv;
    std::atomic<int64_t> next{1};
    vector<std::thread> th;
    for (int d = 0; d < nd; d++)
      th.emplace_back([&, d] {
        for (int k = 0; k < nDisp; k++) {
          if (!ctx.op(100 + d * 20 + k)) continue;
          Rng g = ctx.opRng(100 + d * 20 + k);
          if (g.chance(0.7)) sleepNs((int64_t)g.below((uint64_t)gap));
          D x;
          x.v = next++;
          x.tb = vrs::os::getTimestampSec();
          x.b = tick();
          ch.dispatchEvent(x.v);
          x.e = tick();
          x.te = vrs::os::getTimestampSec();
          noPreempt(1);
          ds.push_back(x);
          noPreempt(-1);
        }
      });
    for (int i = 0; i < nw; i++)
      th.emplace_back([&, i] {
        for (int k = 0; k < nWait; k++) {
          if (!ctx.op(300 + i * 20 + k)) continue;
          Rng g = ctx.opRng(300 + i * 20 + k);
          if (g.chance(0.5)) sleepNs((int64_t)g.below((uint64_t)gap));
          W x;
          x.to = g.chance(0.1) ? 0 : 0.0005 + (double)g.below((uint64_t)gap) * 3e-9;
          x.back = g.chance(0.5) ? 0 : g.chance(0.5) ? 1000 : gap * 1e-9;
          x.ev = {-7, -7, -7};
          x.tb = vrs::os::getTimestampSec();
          x.b = tick();
          x.st = ch.waitForEvent(x.ev, x.to, x.back);
          x.e = tick();
          x.te = vrs::os::getTimestampSec();
          noPreempt(1);
          wv.push_back(x);
          noPreempt(-1);
        }
      });
    for (auto& t : th) t.join();
    int64_t remaining = ch.getNumEventsSinceLastWait(), accounted = remaining;
    std::map<int64_t, const D*> by;
    for (auto& d : ds) by[d.v] = &d;
    map<int64_t, int> got;
    for (auto& x : wv) {
      if (x.st != St::SUCCESS && x.st != St::TIMEOUT) fail("event channel, a wait returned status %d", (int)x.st);
      if (x.te - x.tb > x.to + kSlack * 1e-9) fail("event channel, a wait of %.4f s took %.4f s", x.to, x.te - x.tb);
      if (x.st == St::TIMEOUT && x.te - x.tb < x.to - 1e-6) fail("event channel, a wait of %.6f s timed out after %.6f s", x.to, x.te - x.tb);
      if (x.ev.numMissedEvents < 0) fail("event channel, a wait reports %ld missed events", (long)x.ev.numMissedEvents);
      accounted += x.ev.numMissedEvents;
      if (x.st != St::SUCCESS) continue;
      auto it = by.find(x.ev.value);
      if (it == by.end()) fail("event channel, a wait got the value %ld, never dispatched", (long)x.ev.value);
      const D& d = *it->second;
      if (d.b > x.e) fail("event channel, a wait got an event dispatched later");
      if (x.ev.timestampSec < d.tb - 1e-9 || x.ev.timestampSec > d.te + 1e-9) fail("event channel, a wait got the value of one event with the time of another");
      if (d.e < x.b && (x.back <= 0 || d.te < x.tb - x.back - kSlack * 1e-9)) fail("event channel, a wait that may look back %.3f s got an event %.3f s old", x.back, x.tb - d.te);
      got[x.ev.value]++;
      if (!bcast) accounted++;
    }
    // what was reported as received or missed was dispatched (a broadcast event counts for each listener, so only what was missed is counted)
    if (accounted > (int64_t)ds.size()) fail("event channel, %zu events dispatched, but %ld are reported as received or missed", ds.size(), (long)accounted);
    // nobody receives and nobody has missed it: then a wake-up was lost
    if (accounted == 0 && !ds.empty() && got.empty()) fail("event channel, %zu events dispatched, none received nor missed", ds.size());
    if (remaining > 0 && !wv.empty()) {
      // counted events came after the last wait's begin, or while nobody listened
      uint64_t lastB = 0;
      for (auto& x : wv) lastB = std::max(lastB, x.b);
      int64_t may = 0;
      for (auto& d : ds) may += d.e > lastB;
      if (remaining > may) fail("event channel, %ld events counted since the last wait, at most %ld were dispatched since", (long)remaining, (long)may);
    }
    // a lone waiter never misses an event dispatched while it waits
    for (auto& x : wv) {
      if (x.st != St::TIMEOUT) continue;
      for (auto& d : ds) {
        // d happened well inside x: x was listening by then, for it had nothing else to do
        if (d.tb < x.tb + 0.01 || d.te > x.te - 0.01 || x.to < 0.03) continue;
        bool someone = false;
        for (auto& y : wv)
          if (y.st == St::SUCCESS && y.e > d.b && y.b < d.e) someone = true;
        if (bcast) fail("event channel, a broadcast event did not reach a waiter that was there");
        if (!someone) fail("event channel, an event reached none of its waiters");
        probe("event taken by another waiter");
      }
    }
    if (!got.empty()) nontrivial();
    for (auto& x : wv) hist((uint64_t)x.ev.value * 64 + (uint64_t)(x.ev.numMissedEvents & 63));
  }
  ctx.end();
}
