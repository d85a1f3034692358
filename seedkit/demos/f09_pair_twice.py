from kit import *
p = Program('farming')
f = make_farm(p, harvests=[('h', [])])
m, v = f.hs[0]
f.position(staked=5, harvests=[(m, 70)])
w = p.token(key('hw'), m, f.user, 0)
assert p.call('claim_eligible_harvest', [f.user, f.farmer, f.signer, TOKEN, v, w, v, w], signers=[f.user]), p.msg
if p.amount(w) != 70 or f.get()['harvests'].get(m):
    print(p.amount(w), f.get())
    sys.exit(1)
