from kit import *
p = Program('amm')
t = make_pool(p, [1000, 1000], 500)
lim = struct.pack('<I', 2) + b''.join(m + u64(100) for m in t.mints)
go = lambda rest: p.call('deposit_liquidity', [t.user, t.key, t.signer, t.lp, t.lpw, TOKEN] + rest, lim, signers=[t.user])
assert go([t.vaults[0], t.wallets[0], t.vaults[1], t.wallets[1]]), p.msg
if go([t.vaults[0], t.wallets[0]] * 2):
    print('accepted', t.reserves(), p.amount(t.vaults[0]), p.amount(t.vaults[1]))
    sys.exit(1)
