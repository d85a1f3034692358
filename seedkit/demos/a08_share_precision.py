from kit import *
p = Program('amm')
t = make_pool(p, [10 ** 6, 1000], 3)
assert t.redeem(3, [0, 0]), p.msg
if t.reserves() != [0, 0]:
    print('left', t.reserves())
    sys.exit(1)
