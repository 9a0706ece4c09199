"""Table capacity (see tablelib)."""
from rules import tablelib


def run(ctx):
    ctx.rule("A", "after storing a new item, and before the lock is released, every path compares the size with max_size_ and, when it is exceeded, removes the item chosen by remover_->Sample()")
    ctx.rule("B", "an item chosen by remover_ is removed only on paths where the size was found to exceed max_size_ after the insert, and only one per insert")
    ctx.rule("C", "InsertCheckpointItem stores an item only where size < max_size_ and the key's absence are established in the same critical section")
    ctx.rules["B"]["zero_ok"] = True
    tablelib.explore(ctx, "P04")
    ctx.need("A", 2)
