from kit import *
p = Program('amm')
D = 3000 * 10 ** 18
t = make_pool(p, [1000, 1000], 500, amplifier=10, invariant=2000 * 10 ** 18)
assert t.deposit([500, 500]), p.msg
o = 8 + 128 + 8 + 288 + 1 + 8
inv = lambda: int.from_bytes(p.data(t.key)[o:o + 24], 'little')
before = inv()
assert before == D, before
# a fee that is all kept, and is too small for a toll
p.state('Pool', t.key, pool_body(key('admin'), t.signer, t.lp, t.toll, list(zip([1500, 1500], t.mints, t.vaults)), amplifier=10, invariant=D, fee=10000))
for i in range(6):
    assert t.swap(0, 1, 2), p.msg
    assert t.swap(1, 0, 2), p.msg
if inv() == D:
    print('the invariant did not follow the reserves', t.reserves())
    sys.exit(1)
