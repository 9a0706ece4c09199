"""Sampled item information and sample bookkeeping (see tablelib)."""
from rules import tablelib


def run(ctx):
    ctx.rule("A", "every served sample reports the sampled item itself, the probability returned with it by the sampler, the table size before a removal, its priority, its times_sampled including this sample and whether the call waited")
    ctx.rule("B", "num_unique_samples_ is incremented exactly when the item's times_sampled was 0")
    ctx.rule("C", "times_sampled of a sampled item is incremented by exactly one; of no other item")
    ctx.rule("D", "a sampled item is removed exactly when its times_sampled (after the increment) equals max_times_sampled_")
    ctx.rule("E", "Reset resets num_unique_samples_")
    ctx.rule("F", "another item is sampled for a request only after checking that its batch is not full")
    tablelib.explore(ctx, "P06")
    ctx.need("C", 2)
