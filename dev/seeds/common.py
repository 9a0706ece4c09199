TABLE = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "absl/status/status.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/schema.pb.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
#include "reverb/cc/support/task_executor.h"
#include "reverb/cc/table.h"
#include "reverb/cc/testing/proto_test_util.h"

using namespace deepmind::reverb;
namespace rtest = deepmind::reverb::testing;

#define REQUIRE(x) do { if (!(x)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); std::fflush(stderr); std::_Exit(1); } } while (0)

static TableItem MakeItem(uint64_t key, double priority, int chunks = 1) {
  TableItem item;
  std::vector<ChunkData> data;
  for (int i = 0; i < chunks; i++) {
    data.push_back(rtest::MakeChunkData(key * 100 + i, rtest::MakeSequenceRange(key * 100 + i, i, i + 1)));
  }
  for (auto& d : data) item.chunks.push_back(std::make_shared<ChunkStore::Chunk>(d));
  item.item = rtest::MakePrioritizedItem(key, priority, data);
  return item;
}

template <typename F>
static bool WaitFor(F f, int ms = 5000) {
  for (int i = 0; i < ms / 10; i++) {
    if (f()) return true;
    absl::SleepFor(absl::Milliseconds(10));
  }
  return f();
}
'''
