def check_hashmap(ctx):
    ctx.rule = ("seeded random histories of put/get/contains/memoize/remove/for-each over 6 key/hash "
                "families (pointer, int, string, constant, low-bit, sign-extreme hashes), with and without "
                "injected allocation failures, each step compared with an association-list model; a history "
                "counts as distinct by its final contents")
    ctx.assumptions = ["single-threaded use; the callback of a for-each does not modify the map"]
    exe = ctx.plain("hashmap", ["h_hashmap.c"], wrap=True)
    n = 8 if ctx.quick else 64
    ctx.harness_many([(exe, [ctx.seed * 1000 + i, 48], "hashmap/%d" % i) for i in range(n)])


def check_iter(ctx):
    ctx.rule = ("seeded random task trees driven through the iterator; an online checker predicts every "
                "scheduled task, its state, context, level, ancestors, queue and each passed result; distinct "
                "= hash of the observed schedule")
    exe = ctx.plain("iter", ["h_iter.c"], wrap=True, libs=["-lpthread"])
    n = 8 if ctx.quick else 64
    ctx.harness_many([(exe, [ctx.seed * 1000 + i, 300], "iterator/%d" % i) for i in range(n)])
