from kit import *
p = Program('farming')
p.programs()
adm, farm, mint, hm = p.user('admin'), key('farm'), p.mint('stake'), p.mint('harvest')
sig = p.pda('signer', farm)
hv = p.pda('harvest_vault', farm, hm)
p.token(hv, hm, sig, 10000)
w = p.token(key('wallet'), hm, adm, 10 ** 9)
s = p.slot + 1000
# 100 slots of 10 tokens are scheduled and funded; the admin moves them later and halves the length
p.state('Farm', farm, farm_body(adm, mint, p.pda('stake_vault', farm), [(hm, hv, [(10, s, s + 99)])]))
assert p.call('new_harvest_period', [adm, farm, w, hv, sig, TOKEN], hm + u64(s + 500, 50, 10), signers=[adm]), p.msg
if p.amount(hv) != 10000 - 500 or p.amount(w) != 10 ** 9 + 500:
    print('vault', p.amount(hv), 'wallet', p.amount(w))
    sys.exit(1)
