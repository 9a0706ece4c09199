import sys, os; sys.path.insert(0, os.path.dirname(__file__)); from common import TABLE
SEED = dict(property="P28",
 needs="Queue::SetLastItemPushed called while a consumer is already blocked in Pop on an empty queue",
 breaks="SetLastItemPushed on an empty queue no longer closes it when a consumer is waiting: that consumer stays blocked forever",
 edits=[("support/queue.h", """    last_item_pushed_ = true;
    if (pushes_ == pops_) {
""", """    last_item_pushed_ = true;
    if (pushes_ == pops_ && num_waiting_to_pop_ == 0) {
""")],
 demo=TABLE + r'''
#include "reverb/cc/support/queue.h"
int main() {
  internal::Queue<int> q(3);
  REQUIRE(q.Push(1));
  int v = 0;
  REQUIRE(q.Pop(&v) && v == 1);
  std::atomic<bool> done{false};
  std::thread t([&] { int w; if (q.Pop(&w)) std::_Exit(1); done = true; });
  absl::SleepFor(absl::Milliseconds(200));
  q.SetLastItemPushed();
  REQUIRE(WaitFor([&] { return done.load(); }));
  t.join();
  return 0;
}
''')
