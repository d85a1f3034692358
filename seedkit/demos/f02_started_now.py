from kit import *
p = Program('farming')
p.programs()
adm, farm, mint, hm = p.user('admin'), key('farm'), p.mint('stake'), p.mint('harvest')
hv = p.pda('harvest_vault', farm, hm)
p.token(hv, hm, p.pda('signer', farm), 10 ** 9)
w = p.token(key('wallet'), hm, adm, 10 ** 9)
# the running period starts in this very slot; the one before it ended long ago
p.state('Farm', farm, farm_body(adm, mint, p.pda('stake_vault', farm), [(hm, hv, [(5, p.slot, p.slot + 100), (3, 100, 200)])]))
ok = p.call('new_harvest_period', [adm, farm, w, hv, p.pda('signer', farm), TOKEN], hm + u64(p.slot + 50, 20, 7), signers=[adm])
ps = [x for x in farm_periods(p.data(farm), 0) if x[2]]
for a, b in zip(ps, ps[1:]):
    if b[2] >= a[1]:
        print('periods overlap', a, b)
        sys.exit(1)
assert not ok
assert p.call('new_harvest_period', [adm, farm, w, hv, p.pda('signer', farm), TOKEN], hm + u64(p.slot + 101, 20, 7), signers=[adm]), p.msg
