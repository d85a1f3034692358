from kit import *
p = Program('farming')
f = make_farm(p, harvests=[('h', [])])
m, v = f.hs[0]
f.position(harvests=[(SYS, 0), (m, 70)])
if p.call('close_farmer', [f.user, f.farmer], signers=[f.user]):
    print('closed with harvest')
    sys.exit(1)
f.position()
assert p.call('close_farmer', [f.user, f.farmer], signers=[f.user]), p.msg
