from kit import *
p = Program('farming')
f = make_farm(p, harvests=[('h', [(10, 100, 500)]), ('g', [(7, 3, 9)])])
p.user('admin')
m, v = f.hs[0]
p.token(v, m, f.signer, 0)
assert p.call('remove_harvest', [key('admin'), f.key, f.signer, v, TOKEN], m, signers=[key('admin')]), p.msg
e = p.data(f.key)[8 + 96:8 + 96 + 304]
if any(e):
    print('not blank')
    sys.exit(1)
assert farm_periods(p.data(f.key), 1)[0] == (7, 3, 9)
