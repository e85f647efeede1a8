"""A sparse transition matrix behaves like the dense matrix it encodes."""
import shutil
import tempfile

from symx.run import harness

H = []
NOT_COVERED = ['more times, states or subjects than configured', 'states without any possible transition '
               'when no replacement is set']
ASSUMPTIONS = ['arrays written by save are read back unchanged by numpy (replays use real files)']
B = 'all values and, where listed, all zero patterns, orders and draws, for the configured times T, states S, subjects m'


def perm(ctx, name, n):
    """A symbolic choice of an order."""
    left = list(range(n))
    out = []
    for i in range(n):
        k = ctx.choice('%s%d' % (name, i), list(range(len(left)))) if len(left) > 1 else 0
        out.append(left.pop(k))
    return out


def dense(ctx, name, T, S, zeros):
    """Matrices of positive values with symbolic places of zeros."""
    d = [[[0.0] * S for _ in range(S)] for _ in range(T)]
    entries = []
    for t in range(T):
        for i in range(S):
            for j in range(S):
                if bool(ctx.bool('z%s_%d_%d_%d' % (name, t, i, j))) if zeros == 'any' and t == 0 else (t, i, j) in (zeros if zeros != 'any' else ()):
                    continue
                v = ctx.real('v%s_%d_%d_%d' % (name, t, i, j), 0, 1)
                ctx.assume(v > 0)
                d[t][i][j] = v
                entries.append((t, i, j, v))
    return d, entries


def build(ctx, entries, S, T, **kw):
    sp = ctx.mod('utils.sparse')
    np = ctx.np
    return sp.SparseTPM(np.array([e[0] for e in entries]), np.array([e[1] for e in entries]),
                        np.array([e[2] for e in entries]), np.array([e[3] for e in entries]), S, T, **kw)


def reads(ctx, m, d, label):
    for t in range(len(d)):
        ctx.check(ctx.eq(m[t], ctx.np.array(d[t])), label)


@harness(H, 'read_write', B, quick=[dict(T=2, S=2, zeros='any', k=k) for k in (-1, 0, 3)],
         thorough=[dict(T=3, S=2, zeros='some', k=k) for k in (-4, 1, 5)],
         max_paths=20000)
def read_write(ctx, T, S, zeros, k):
    if zeros == 'some':
        zeros = {(0, 0, 0), (1, 1, 0), (2, 0, 1), (2, 1, 0)}
    d, entries = dense(ctx, 'a', T, S, zeros)
    if len(entries) == 0:
        return
    m = build(ctx, entries, S, T)
    reads(ctx, m, d, 'reads the stored matrices')
    ctx.check(ctx.eq(m[k], ctx.np.array(d[k % T])), 'times are taken modulo the period')
    ctx.check(ctx.eq(ctx.np.array(list(m)), ctx.np.array(d)), 'iteration gives all matrices in order')
    new = [[ctx.real('n%d_%d' % (i, j), 0, 1) for j in range(S)] for i in range(S)]
    m[k] = ctx.np.array(new)
    d2 = [new if t == k % T else d[t] for t in range(T)]
    reads(ctx, m, d2, 'replacing one matrix')
    new3 = [[ctx.real('q%d_%d' % (i, j), 0, 1) for j in range(S)] for i in range(S)]
    ctx.assume(ctx.And(*[v > 0 for v in ctx.els(new3)[1:]]))
    m[1] = ctx.np.array(new3)
    reads(ctx, m, [new3 if t == 1 else d2[t] for t in range(T)], 'replacing another matrix')
    err, _ = ctx.raises(lambda: m.__setitem__(0, ctx.np.zeros((S + 1, S + 1))), ValueError)
    ctx.check(err, 'a matrix of another size is refused')


@harness(H, 'lengths', 'four arrays of every length 1..4 each', quick=[dict()])
def lengths(ctx):
    sp = ctx.mod('utils.sparse')
    ls = [ctx.int('l%d' % i, 1, 4) for i in range(4)]
    arrs = [ctx.np.zeros(int(x), dtype=int) for x in ls[:3]] + [ctx.np.ones(int(ls[3]))]
    err, _ = ctx.raises(lambda: sp.SparseTPM(*arrs), ValueError)
    same = ctx.And(*[x == ls[0] for x in ls[1:]])
    ctx.check(ctx.Iff(err, ctx.Not(same)), 'exactly unequal lengths are refused')


@harness(H, 'sizes_found', 'two entries at any times and states in 0..2', quick=[dict()])
def sizes_found(ctx):
    sp = ctx.mod('utils.sparse')
    np = ctx.np
    t = [int(ctx.int('t%d' % i, 0, 2)) for i in range(2)]
    a = [int(ctx.int('a%d' % i, 0, 2)) for i in range(2)]
    b = [int(ctx.int('b%d' % i, 0, 2)) for i in range(2)]
    if (t[0], a[0], b[0]) == (t[1], a[1], b[1]):
        return
    v = ctx.reals('v', 2, 0, 1)
    m = sp.SparseTPM(np.array(t), np.array(a), np.array(b), v)
    T, S = max(t) + 1, max(a + b) + 1
    d = [[[0.0] * S for _ in range(S)] for _ in range(T)]
    for k in range(2):
        d[t[k]][a[k]][b[k]] = v[k]
    reads(ctx, m, d, 'sizes follow from the entries')


@harness(H, 'save_load', 'all values for the configured times and states', quick=[dict(T=3, S=3)])
def save_load(ctx, T, S):
    sp = ctx.mod('utils.sparse')
    zeros = {(t, i, j) for t in range(T) for i in range(S) for j in range(S) if (t + i + 2 * j) % 3 or t == T - 1}
    d, entries = dense(ctx, 'a', T, S, zeros)
    m = build(ctx, entries, S, T)
    tmp = tempfile.mkdtemp()
    try:
        m.save(tmp + '/x')
        back = sp.SparseTPM.load(tmp + '/x')
        reads(ctx, back, d, 'a loaded matrix equals the saved one')
        ctx.check(ctx.eq(back[T], ctx.np.array(d[0])), 'period after loading')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def stochastic(ctx, name, T, S, pattern):
    """Rows are distributions, zero exactly where the pattern says so."""
    d, entries = [], []
    for t in range(T):
        mat = []
        for i in range(S):
            js = [j for j in range(S) if pattern(t, i, j)]
            row = [0.0] * S
            if js:
                for j, v in zip(js, ctx.pdf('%s_%d_%d' % (name, t, i), len(js), positive=True)):
                    row[j] = v
                    entries.append((t, i, j, v))
            mat.append(row)
        d.append(mat)
    return d, entries


def interval(ctx, row, u, out, label):
    acc = 0.0
    for j, v in enumerate(row):
        lo = acc
        acc = acc + v
        here = out == j
        ctx.check(ctx.Implies(here, ctx.And(v > 0, u >= lo, u < acc)), label)
    ctx.check(ctx.And(out >= 0, out < len(row)), label + ' (valid)')


def sampling(ctx, m, d, t, states, S, first=0, dead=None):
    """Draw k belongs to subject k."""
    keep = [ctx.np.array(x) for x in (m.times, m.inds_from, m.inds_to, m.values)]
    arr = ctx.np.array(states)
    r = m.sparse_monte_carlo(t, arr)
    ctx.check(ctx.shape(r) == (len(states),), 'one state per subject')
    ctx.check(ctx.eq(arr, ctx.np.array(states)), 'the given states are not changed')
    for x, y in zip(keep, (m.times, m.inds_from, m.inds_to, m.values)):
        ctx.check(ctx.eq(x, y), 'sampling never alters the matrix')
    T = len(d)
    for k, s in enumerate(states):
        for i in range(S):
            row = d[t % T][i]
            if all(isinstance(v, float) and v == 0.0 for v in row):
                row = d[t % T][dead] if dead is not None else None
            if row is None:
                continue
            if bool(s == i):
                interval(ctx, row, ctx.draw(first + k), r[k], 'interval of the draw in the row of the state')
    ctx.observe('r', r)


PATTERNS = {'full': lambda t, i, j: True,
            'band': lambda t, i, j: (j - i) % 3 in (0, 1) if t == 0 else (j - i) % 3 in (0, 2),
            'holes': lambda t, i, j: j != t}


@harness(H, 'sampling', B, quick=[dict(T=2, S=3, m=2, pattern='band'), dict(T=1, S=2, m=3, pattern='full'),
                                  dict(T=2, S=3, m=2, pattern='holes')],
         thorough=[dict(T=2, S=3, m=4, pattern='band'), dict(T=3, S=4, m=2, pattern='full')], max_paths=20000)
def sampling_(ctx, T, S, m, pattern):
    d, entries = stochastic(ctx, 'p', T, S, PATTERNS[pattern])
    mat = build(ctx, entries, S, T)
    t = ctx.choice('t', [0, T - 1, T, 2 * T + 1])
    states = [ctx.int('s%d' % k, 0, S - 1) for k in range(m)]
    sampling(ctx, mat, d, t, states, S)


@harness(H, 'any_order', 'four entries in every order, three states', quick=[dict(m=1)], thorough=[dict(m=2)],
         max_paths=20000)
def any_order(ctx, m):
    d, entries = stochastic(ctx, 'p', 1, 3, lambda t, i, j: i != j and (i == 0 or j == 0))
    mat = build(ctx, [entries[i] for i in perm(ctx, 'o', len(entries))], 3, 1)
    reads(ctx, mat, d, 'reads the stored matrices')
    states = [ctx.int('s%d' % k, 0, 2) for k in range(m)]
    r = mat.sparse_monte_carlo(0, ctx.np.array(states))
    for k in range(m):
        ctx.check(ctx.And(r[k] >= 0, r[k] < 3, r[k] != states[k]), 'possible from the state, in any order of entries')
        ctx.check(ctx.Implies(states[k] != 0, r[k] == 0), 'only outcome')
    ctx.observe('r', r)


@harness(H, 'after_replacement', B, quick=[dict(S=2, m=2), dict(S=3, m=1)], thorough=[dict(S=3, m=2)], max_paths=20000)
def after_replacement(ctx, S, m):
    """Sampling uses the replaced matrix at its time and the old ones elsewhere."""
    d, entries = stochastic(ctx, 'p', 2, S, lambda t, i, j: (i + j + t) % 2 or i == j)
    mat = build(ctx, entries, S, 2)
    n, _ = stochastic(ctx, 'q', 1, S, lambda t, i, j: j != 0 or i == 1)
    mat[0] = ctx.np.array(n[0])
    t = ctx.choice('t', [0, 1])
    states = [ctx.int('s%d' % k, 0, S - 1) for k in range(m)]
    sampling(ctx, mat, [n[0], d[1]], t, states, S)


@harness(H, 'explicit_zeros', 'stored zeros, all values and draws', quick=[dict(m=2)])
def explicit_zeros(ctx, m):
    d, _ = stochastic(ctx, 'p', 1, 3, lambda t, i, j: j != i)
    entries = [(0, i, j, d[0][i][j]) for i in range(3) for j in range(3)]
    mat = build(ctx, entries, 3, 1)
    states = [ctx.int('s%d' % k, 0, 2) for k in range(m)]
    sampling(ctx, mat, d, 0, states, 3)


@harness(H, 'short_rows', 'row totals in [1-1e-9, 1]', quick=[dict(m=2)])
def short_rows(ctx, m):
    """Rounded rows: the outcome stays possible from the state."""
    S = 3
    d, entries = [[0.0] * S for _ in range(S)], []
    for i in range(S):
        js = [j for j in range(S) if j != i]
        p = [ctx.real('p%d_%d' % (i, j), 0, 1) for j in js]
        s = ctx.sum(p)
        ctx.assume(ctx.And(s >= 1 - 1e-9, s <= 1.0, p[0] > 0, p[1] > 0))
        for j, v in zip(js, p):
            d[i][j] = v
            entries.append((0, i, j, v))
    mat = build(ctx, entries, S, 1)
    states = [ctx.int('s%d' % k, 0, S - 1) for k in range(m)]
    r = mat.sparse_monte_carlo(0, ctx.np.array(states))
    for k in range(m):
        ctx.check(ctx.And(r[k] >= 0, r[k] < S, r[k] != states[k]), 'possible from the state')
    ctx.observe('r', r)


@harness(H, 'dead', 'one state without transitions, replaced by another', quick=[dict(m=2)])
def dead(ctx, m):
    d, entries = stochastic(ctx, 'p', 2, 3, lambda t, i, j: not (i == 2 and t == 0))
    mat = build(ctx, entries, 3, 2, dead_state_value=1)
    t = ctx.choice('t', [0, 1])
    states = [ctx.int('s%d' % k, 0, 2) for k in range(m)]
    first = 0
    sampling(ctx, mat, d, t, states, 3, first, dead=1)
