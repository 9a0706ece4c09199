
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "absl/status/status.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/schema.pb.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
#include "reverb/cc/support/task_executor.h"
#include "reverb/cc/table.h"
#include "reverb/cc/testing/proto_test_util.h"

using namespace deepmind::reverb;
namespace rtest = deepmind::reverb::testing;

#define REQUIRE(x) do { if (!(x)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); std::fflush(stderr); std::_Exit(1); } } while (0)

static TableItem MakeItem(uint64_t key, double priority, int chunks = 1) {
  TableItem item;
  std::vector<ChunkData> data;
  for (int i = 0; i < chunks; i++) {
    data.push_back(rtest::MakeChunkData(key * 100 + i, rtest::MakeSequenceRange(key * 100 + i, i, i + 1)));
  }
  for (auto& d : data) item.chunks.push_back(std::make_shared<ChunkStore::Chunk>(d));
  item.item = rtest::MakePrioritizedItem(key, priority, data);
  return item;
}

template <typename F>
static bool WaitFor(F f, int ms = 5000) {
  for (int i = 0; i < ms / 10; i++) {
    if (f()) return true;
    absl::SleepFor(absl::Milliseconds(10));
  }
  return f();
}

#include <cfloat>
#include "grpcpp/grpcpp.h"
#include "grpcpp/server_builder.h"
#include "reverb/cc/client.h"
#include "reverb/cc/chunker.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/trajectory_writer.h"
#include "reverb/cc/reverb_service_impl.h"
#include "tensorflow/core/framework/tensor.h"

struct S { std::shared_ptr<Table> table; std::unique_ptr<ReverbServiceImpl> service; std::unique_ptr<grpc::Server> server; int port=0; };
static void Start(S* s, int port) {
  s->table = std::make_shared<Table>("t", std::make_unique<UniformSelector>(), std::make_unique<FifoSelector>(), 10, 0,
    std::make_shared<RateLimiter>(1.0, 1, -1.0, 1.0));
  REQUIRE(ReverbServiceImpl::Create({s->table}, nullptr, &s->service).ok());
  grpc::ServerBuilder b;
  b.AddListeningPort("localhost:" + std::to_string(port), grpc::InsecureServerCredentials(), &s->port);
  b.RegisterService(s->service.get());
  s->server = b.BuildAndStart(); REQUIRE(s->server);
}
int main(int argc, char** argv) {
  S a, b; Start(&a, 0);
  Client client("localhost:" + std::to_string(a.port));
  std::unique_ptr<TrajectoryWriter> w;
  TrajectoryWriter::Options o; o.chunker_options = std::make_shared<ConstantChunkerOptions>(1, 4);
  REQUIRE(client.NewTrajectoryWriter(o, &w).ok());
  for (int i = 0; i < 4; i++) {
    tensorflow::Tensor x(tensorflow::DT_INT32, tensorflow::TensorShape({})); x.scalar<int>()() = i;
    std::vector<absl::optional<std::weak_ptr<CellRef>>> refs;
    REQUIRE(w->Append({x}, &refs).ok());
    REQUIRE(w->CreateItem("t", 1.0, {TrajectoryColumn({refs[0].value()}, false)}).ok());
  }
  absl::SleepFor(absl::Seconds(1));
  std::printf("first server holds %ld items\n", (long)a.table->size());
  a.table->Close();
  a.server->Shutdown(std::chrono::system_clock::now());
  a.server.reset();
  Start(&b, a.port);
  auto s = w->Flush(0, absl::Seconds(10));
  std::printf("flush: %s; second server holds %ld\n", s.ToString().c_str(), (long)b.table->size());
  std::fflush(stdout);
  std::_Exit(0);
}
