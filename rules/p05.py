"""Table <-> rate limiter accounting (see tablelib)."""
from rules import tablelib


def run(ctx):
    ctx.rule("A", "between two releases of Table::mu_ the number of RateLimiter::Insert (Delete) calls equals the number of new (deleted) items")
    ctx.rule("B", "a new item is stored only after AwaitCanInsert returned OK or CanInsert(>=1) returned true with the lock held ever since, one item per admission, and with its key's absence established in the same critical section")
    ctx.rule("C", "sampler_->Sample() is only used for a sample committed to the limiter, and every committed sample is served before the lock is released or another one is committed")
    ctx.rule("D", "Reset resets the limiter in the critical section that clears the data")
    tablelib.explore(ctx, "P05")
    ctx.need("A", 3)
    ctx.need("C", 2)
