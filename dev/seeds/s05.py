import sys, os; sys.path.insert(0, os.path.dirname(__file__)); from common import TABLE
SEED = dict(property="P07",
 needs="a sample request with a deadline queued behind another request that is blocked by the rate limiter (worker asleep with a batch in progress)",
 breaks="the table worker looks for expired requests only in the batch it is working on: a queued request never times out while the one in front of it is blocked",
 edits=[("table.cc", "      GetExpiredRequests(deadline, &pending_sampling_, &to_terminate, &wakeup);\n", "      if (current_sampling.empty()) {\n        GetExpiredRequests(deadline, &pending_sampling_, &to_terminate, &wakeup);\n      }\n")],
 demo=TABLE + r'''
int main() {
  auto table = std::make_shared<Table>("t", std::make_shared<UniformSelector>(), std::make_shared<FifoSelector>(),
      /*max_size=*/100, /*max_times_sampled=*/0, std::make_shared<RateLimiter>(1.0, 1, -1e9, 1e9));
  table->EnableTableWorker(std::make_shared<TaskExecutor>(2, "cb"));
  std::atomic<int> first{0}, second{0};
  auto a = std::make_shared<Table::SamplingCallback>([&](Table::SampleRequest* r) { first = r->status.ok() ? 1 : 2; });
  auto b = std::make_shared<Table::SamplingCallback>([&](Table::SampleRequest* r) { second = r->status.ok() ? 1 : 2; });
  table->EnqueSampleRequest(1, a, absl::InfiniteDuration());
  absl::SleepFor(absl::Milliseconds(300));
  table->EnqueSampleRequest(1, b, absl::Milliseconds(200));
  REQUIRE(WaitFor([&] { return second == 2; }));
  REQUIRE(first == 0);
  table->Close();
  REQUIRE(WaitFor([&] { return first == 2; }));
  std::_Exit(0);
}
''')
