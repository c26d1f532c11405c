import itertools


def metrics(n, values):
    prs = list(itertools.combinations(range(n), 2))
    for vals in itertools.product(values, repeat=len(prs)):
        D = [[0] * n for _ in range(n)]
        for (i, j), v in zip(prs, vals):
            D[i][j] = D[j][i] = v
        if all(D[i][j] <= D[i][k] + D[k][j] for i in range(n) for j in range(n) for k in range(n)):
            yield D
