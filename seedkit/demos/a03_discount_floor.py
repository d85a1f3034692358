from kit import *
p = Program('amm')
t = make_pool(p, [10 ** 6, 10 ** 6], 5000, fee=3000)
p.state('Discount', t.discount, u64(500000, p.slot + 5))
# fee 1.5 of 1000, hence 2: 998 tokens are swapped
assert t.swap(0, 1, 1000), p.msg
got = 10 ** 6 - t.reserves()[1]
if got != 10 ** 6 - -(-10 ** 12 // (10 ** 6 + 998)):
    print('paid', got)
    sys.exit(1)
