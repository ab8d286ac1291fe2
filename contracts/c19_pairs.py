from vc.registry import contract, bounded

SP = "ssspy.utils.select_pair"

for mod in ("ssspy.utils.select_pair", "ssspy.bss._select_pair"):
    short = mod.split("ssspy.")[1]
    for sort in (False, True):

        @contract("sequential_pair_selector (%s) sort=%s" % (short, sort), "C19", short + ".sequential_pair_selector utils.select_pair.sequential_pair_selector", samples=12)
        def seq(c, sort=sort, mod=mod):
            n = c.dim("n", 2)

            def item(k, mn):
                m, q = mn
                c.ensure_int("distinct", m != q)
                c.ensure_int("in range (first, lower)", m >= 0)
                c.ensure_int("in range (first, upper)", m < n)
                c.ensure_int("in range (second, lower)", q >= 0)
                c.ensure_int("in range (second, upper)", q < n)
                first, second = m, q
                if sort:
                    c.ensure_int("ascending", m < q)
                    if k == n - 1:
                        first, second = q, m
                c.ensure_int("k-th pair starts at source k (every source exactly once, cyclic order)", first == k)
                nx = 0 if k == n - 1 else k + 1
                c.ensure_int("second member is the cyclic successor", second == nx)

            c.foreach("sequential", lambda: c.load(mod).sequential_pair_selector(n, sort=sort), n, item)

        @contract("sequential_pair_selector stop and step (%s) sort=%s" % (short, sort), "C19", short + ".sequential_pair_selector", samples=12)
        def seq2(c, sort=sort, mod=mod):
            n = c.dim("n", 2)
            step = c.dim("step", 1)
            stop = c.dim("stop", 1)

            def item(k, mn):
                m, q = mn
                if c.symbolic:
                    c.lemma_div_succ(k * step, n)
                c.ensure_int("distinct", m != q)
                c.ensure_int("in range (first, lower)", m >= 0)
                c.ensure_int("in range (first, upper)", m < n)
                c.ensure_int("in range (second, lower)", q >= 0)
                c.ensure_int("in range (second, upper)", q < n)
                w = (k * step) % n
                w2 = (k * step + 1) % n
                if sort:
                    c.ensure_int("ascending", m < q)
                    if w > w2:
                        w, w2 = w2, w
                c.ensure_int("first member", m == w)
                c.ensure_int("second member", q == w2)

            c.foreach("sequential", lambda: c.load(mod).sequential_pair_selector(n, stop, step, sort), (stop + step - 1) // step, item)

        @contract("combination_pair_selector (%s) sort=%s" % (short, sort), "C19", short + ".combination_pair_selector", samples=8)
        def comb(c, sort=sort, mod=mod):
            n = c.dim("n", 2)
            if not c.symbolic:
                ps = list(c.load(mod).combination_pair_selector(n, sort=sort))
                c.ensure("each unordered pair exactly once", sorted(tuple(sorted(p)) for p in ps) == [(i, j) for i in range(n) for j in range(i + 1, n)], str(ps))
                c.ensure("members distinct and in range", all(0 <= i < n and 0 <= j < n and i != j for i, j in ps))
                if sort:
                    c.ensure("ascending", all(i < j for i, j in ps))
                return
            m0 = c.load(mod)
            base = c.load(SP)
            tot, item = c.combinations_of(n)
            c.stub(base.itertools, "combinations", tot)

            def it(k, mn):
                c.ensure_int("the pair is the k-th pair of itertools.combinations (first)", (mn[0] == item(k)[0]))
                c.ensure_int("the pair is the k-th pair of itertools.combinations (second)", (mn[1] == item(k)[1]))

            c.foreach("combination", lambda: m0.combination_pair_selector(n, sort=sort), tot.n, it)
