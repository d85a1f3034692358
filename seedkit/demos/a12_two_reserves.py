from kit import *
p = Program('amm')
L = 10 ** 9
t = make_pool(p, [10 ** 9] * 4, L, fee=10000)
s = 9 * 10 ** 7
assert t.swap(0, 1, s), p.msg
toll = p.amount(t.toll)
fee = -(-s // 100)
# a third of the fee over four reserves, as a share of the reserve sold into
if toll * (10 ** 9 + s) > L * (fee // 12 + 1):
    print('toll', toll)
    sys.exit(1)
assert toll > 0
