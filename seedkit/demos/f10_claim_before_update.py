from kit import *
p = Program('farming')
p.slot = 1000
g = make_farm(p, 'target', tip=1, ring={1: (100, 50)})
f = make_farm(p, 'source', harvests=[('target', [(10, 100, 5000)])], tip=1, ring={1: (100, 50)})
p.token(g.sv, g.mint, g.signer, 10 ** 12)
m, v = f.hs[0]
f.position(staked=100, nxt=991, harvests=[(m, 7)])
g.position()
wl = p.pda('whitelist_compounding', f.key, g.key)
p.state('WhitelistCompounding', wl, b'')
assert p.call('compound_across_farms', [f.key, g.key, f.signer, wl, g.sv, v, f.farmer, g.farmer, TOKEN]), p.msg
if g.get()['vested'] != 107:
    print(g.get(), f.get())
    sys.exit(1)
