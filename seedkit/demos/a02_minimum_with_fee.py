from kit import *
p = Program('amm')
t = make_pool(p, [10 ** 6, 10 ** 6], 5000, fee=10000)
if t.swap(0, 1, 10000, 9850):
    print('got', 10 ** 6 - t.reserves()[1])
    sys.exit(1)
assert t.swap(0, 1, 10000, 9800), p.msg
