from kit import *
p = Program('amm')
t = make_pool(p, [1000, 1000], 500)
assert t.swap(0, 1, 111), p.msg
a, b = t.reserves()
if a * b < 10 ** 6:
    print('the product fell', a * b)
    sys.exit(1)
