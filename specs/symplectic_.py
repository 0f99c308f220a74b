"""Contract of the symplectic form (C16)."""


def ens_omega(n, result):
    check("shape 2n x 2n", all_of(result.shape[0] == 2 * n, result.shape[1] == 2 * n))
    i = any_int(0, 2 * n)
    j = any_int(0, 2 * n)
    m = i // 2
    up = all_of(i % 2 == 0, j == i + 1)
    dn = all_of(i % 2 == 1, j == i - 1)
    check("entry (2m,2m+1) is +1", implies(up, result[i, j] == 1))
    check("entry (2m+1,2m) is -1", implies(dn, result[i, j] == -1))
    check("all other entries are 0", any_of(up, dn, result[i, j] == 0))
    check("antisymmetric", result[i, j] + result[j, i] == 0)
