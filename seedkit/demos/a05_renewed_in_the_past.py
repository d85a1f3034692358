from kit import *
p = Program('amm')
p.programs()
a = p.user('authority')
p.state('DiscountSettings', p.pda('discount_settings'), a)
u = key('user')
d = p.pda('discount', u)
p.state('Discount', d, u64(5, p.slot + 9))
put = lambda amount, until: p.call('put_discount', [a, d, p.pda('discount_settings'), SYS], u + u64(amount, until), signers=[a])
assert put(10, p.slot + 1), p.msg
if put(10, p.slot):
    print('accepted')
    sys.exit(1)
