import sys, os; sys.path.insert(0, os.path.dirname(__file__)); from common import TABLE
SEED = dict(property="P02",
 needs="two or more inserters blocked on the rate limiter when the table is closed",
 breaks="cancelling the rate limiter wakes only one of the blocked inserters; the others stay blocked forever",
 edits=[("rate_limiter.cc", "  can_insert_cv_.SignalAll();\n", "  can_insert_cv_.Signal();\n")],
 demo=TABLE + r'''
int main() {
  auto table = std::make_shared<Table>("t", std::make_shared<UniformSelector>(), std::make_shared<FifoSelector>(),
      /*max_size=*/100, /*max_times_sampled=*/0, std::make_shared<RateLimiter>(1.0, 1, -1.0, 1.0));
  // Fill until the limiter blocks.
  int key = 1;
  while (table->InsertOrAssign(MakeItem(key, 1.0), absl::Milliseconds(100)).ok()) key++;
  std::atomic<int> done{0};
  std::vector<std::thread> threads;
  for (int i = 0; i < 4; i++) {
    threads.emplace_back([&, i] { (void)table->InsertOrAssign(MakeItem(1000 + i, 1.0)); done++; });
  }
  absl::SleepFor(absl::Milliseconds(300));
  table->Close();
  REQUIRE(WaitFor([&] { return done == 4; }));
  for (auto& t : threads) t.join();
  return 0;
}
''')
