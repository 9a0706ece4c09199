import sys, os; sys.path.insert(0, os.path.dirname(__file__)); from common import TABLE
SEED = dict(property="P15",
 needs="a key is deleted from a heap selector so that the element moved into its place belongs above its new parent (needs at least two subtrees of different priority)",
 breaks="IntrusiveHeap::Remove only sifts the moved element down; the heap order is broken afterwards and the heap selector returns an item that is not the smallest/largest",
 edits=[("support/intrusive_heap.h", "    Adjust(elem);  // Restore the heap invariant.\n", "    FixHeapDown(elem);  // Restore the heap invariant.\n")],
 demo=TABLE + r'''
#include <map>
int main() {
  for (bool min_heap : {true, false}) {
    HeapSelector s(min_heap);
    std::map<uint64_t, double> ref;
    uint64_t x = 12345;
    auto rnd = [&] { x = x * 6364136223846793005ull + 1442695040888963407ull; return x >> 33; };
    uint64_t next = 1;
    for (int i = 0; i < 20000; i++) {
      if (ref.size() < 8 || (ref.size() < 200 && rnd() % 2)) {
        double p = rnd() % 100000;
        REQUIRE(s.Insert(next, p).ok());
        ref[next++] = p;
      } else {
        auto it = ref.begin();
        std::advance(it, rnd() % ref.size());
        REQUIRE(s.Delete(it->first).ok());
        ref.erase(it);
      }
      double best = ref.begin()->second;
      for (auto& e : ref) best = min_heap ? std::min(best, e.second) : std::max(best, e.second);
      REQUIRE(ref.at(s.Sample().key) == best);
    }
  }
  return 0;
}
''')
