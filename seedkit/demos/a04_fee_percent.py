from kit import *
p = Program('amm')
t = make_pool(p, [1000, 1000], 500)
p.user('admin')
assert p.call('set_pool_swap_fee', [key('admin'), t.key], u64(10000), signers=[key('admin')]), p.msg
if p.call('set_pool_swap_fee', [key('admin'), t.key], u64(10001), signers=[key('admin')]):
    print('accepted')
    sys.exit(1)
