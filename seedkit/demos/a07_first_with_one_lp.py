from kit import *
p = Program('amm')
t = make_pool(p, [1000, 1000], 1)
if t.deposit([10, 10]):
    print('minted', p.supply(t.lp) - 1)
    sys.exit(1)
t = make_pool(p, [1000, 1000], 1)
assert t.deposit([2000, 3000]), p.msg
if p.supply(t.lp) != 3:
    print('minted', p.supply(t.lp) - 1)
    sys.exit(1)
