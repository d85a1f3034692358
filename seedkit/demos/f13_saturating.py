from kit import *
p = Program('farming')
f = make_farm(p, harvests=[('h', [])])
m, v = f.hs[0]
w = p.token(key('w'), m, f.user, 10 ** 6)
f.position(harvests=[(m, 2 ** 64 - 11)])
go = lambda n: p.call('airdrop', [f.user, f.farmer, w, v, TOKEN], u64(n), signers=[f.user])
assert go(10), p.msg
if go(1):
    print('taken', f.get())
    sys.exit(1)
