"""Table content agreement (see tablelib)."""
from rules import tablelib


def run(ctx):
    ctx.rule("A", "at every release of Table::mu_ (unlock, condition wait) and at the end of each loop iteration, the effects on data_, sampler_, remover_ "
                  "and episode_refs_ recorded for a key form an insert (+1 everywhere, the item's own key and priority), a delete (-1 everywhere) or an "
                  "update (same priority in sampler_, remover_ and the item); rejected selector operations count as no effect")
    ctx.rule("B", "entries are erased only where the key is known to be present; data_ is never replaced wholesale")
    ctx.rule("C", "the loop over an item's chunks covers all of them, changes each episode's count by one, and erases (and counts as deleted) an episode exactly when its count reaches zero")
    ctx.rule("D", "the outcome of every selector Insert/Update is examined before the lock is released")
    ctx.rule("E", "a reset clears data_, sampler_, remover_ and episode_refs_ in one critical section")
    for r in "BCD":
        ctx.rules[r]["zero_ok"] = True
    prog, names = tablelib.explore(ctx, "P03")
    ctx.need("A", 3)
    ctx.need("E", 1)
