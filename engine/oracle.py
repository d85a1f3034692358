"""The stable curve's published equations in the program's fixed-point arithmetic, for evaluating contracts on concrete runs only."""
W = 10 ** 18
M = (1 << 192) - 1


class Fail(Exception):
    pass


def fit(x):
    if not 0 <= x <= M:
        raise Fail()
    return x


def mul(a, b):
    return fit(a * b // W)


def div(a, b):
    if b == 0:
        raise Fail()
    return fit(a * W // b)


def power(a, n):
    r = W
    for _ in range(n):
        r = mul(r, a)
    return r


def isqrt(n):
    import math
    return math.isqrt(n)


def scale(v):
    n = 0
    while v > 1000 * W:
        v = div(v, 1000 * W)
        n += 1
    return v, n


def swap(n, amp, d, sm, pr):
    """root of a n^n x^2 + (a n^n sum - (a n^n - 1) D) x - D^(n+1) / (n^n prod), all scaled"""
    try:
        d, e = scale(d)
        pr = div(pr, power(1000 ** e * W, n - 1))
        if pr < 1000000:
            return None
        sm = div(sm, 1000 ** e * W)
        nn = power(n * W, n)
        l1 = mul(d, fit(mul(nn, amp) - W))
        l2 = mul(mul(amp, nn), sm)
        sym = l2 < l1
        b = abs(l2 - l1)
        c = div(power(d, n + 1), mul(nn, pr))
        q = mul(amp, nn)
        s = isqrt(fit(power(b, 2) + mul(mul(4 * W, q), c)) * W)
        a2 = mul(2 * W, q)
        return mul(div(fit(s + b) if sym else fit(s - b), a2), power(1000 * W, e))
    except Fail:
        return None


def invariant(amp, rs):
    try:
        n = len(rs)
        sm = sum(rs) * W
        d, e = scale(sm)
        co = power(1000 * W, e)
        pr = W
        for r in rs:
            pr = mul(pr, div(r * W, co))
        if amp == 0 or pr < 1000000:
            return None
        amp *= W
        nn = power(n * W, n)
        np = mul(nn, pr)
        c1 = mul(fit(mul(amp, nn) - W), np)
        c3 = div(mul(mul(mul(amp, nn), sm), np), co)
        new = d
        for _ in range(32):
            prev = new
            f = fit(power(prev, n + 1) + mul(prev, c1) - c3)
            new = fit(prev - div(f, mul((n + 1) * W, power(prev, n)) + c1))
            if prev <= new:
                if fit(power(prev, n + 1) + mul(prev, c1) - c3) == 0:
                    return mul(prev, co)
                return None
            if prev - new <= W // 2:
                break
        return mul(new, co)
    except Fail:
        return None


def accrued(snaps, periods, since, until, staked):
    """harvest a stake earns: snapshots (start, staked) oldest first, periods (first slot, last slot, tokens per slot)"""
    total, end = 0, until
    if not staked:
        return 0
    for start, all_ in reversed(snaps):
        if start == 0:
            continue
        if start > until:
            continue
        a, b = max(start, since), end
        end = start - 1
        if b < since:
            break
        if not all_ or a > b:
            continue
        share = staked * 10 ** 18 // all_
        total += sum((min(b, q) - max(a, p) + 1) * tps for p, q, tps in periods if max(a, p) <= min(b, q)) * share // 10 ** 18
    return total
