from kit import *
p = Program('farming')
p.programs()
adm, farm, mint = p.user('admin'), key('farm'), p.mint('stake')
vault = p.pda('stake_vault', farm)
p.token(vault, mint, p.pda('signer', farm), 500)
# the admin asked for a window of 20000 slots; 15000 have passed
p.state('Farm', farm, farm_body(adm, mint, vault, tip=3, ring={3: (100, 900000)}, window=20000))
p.slot = 915000
if p.call('take_snapshot', [farm, vault]):
    print('a snapshot was taken after 15000 slots, the window is 20000')
    sys.exit(1)
p.slot = 920000
assert p.call('take_snapshot', [farm, vault]), p.msg
assert farm_ring(p.data(farm), 4) == (500, 920000)
