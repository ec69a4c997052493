#include "../core/scen.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <fstream>
using namespace sim;
SCENARIO("Z00", smoke, 1) {
  ctx.begin();
  std::mutex m; std::condition_variable cv; int n = 0;
  std::vector<std::thread> th;
  for (int i = 0; i < 4; i++) th.emplace_back([&] { std::unique_lock<std::mutex> l(m); n++; cv.notify_all(); cv.wait(l, [&]{return n==4;}); });
  for (auto& t : th) t.join();
  { std::ofstream o("/sim/x"); o << "hello"; }
  if (fs::content("/sim/x") != "hello") fail("bad content: %s", fs::content("/sim/x").c_str());
  FILE* f = fopen("/sim/y", "wb"); fwrite("abc", 1, 3, f); fclose(f);
  if (fs::content("/sim/y") != "abc") fail("bad content2");
  nontrivial();
  ctx.end();
}
