from kit import *
p = Program('farming')
p.slot = 1000
f = make_farm(p, harvests=[('h', [])], tip=1, ring={1: (100, 50)})
f.position(staked=50, vested=7, vested_at=1000, nxt=1000)
assert f.stop(7), p.msg
g = f.get()
if g['staked'] != 50 or g['vested'] != 0 or p.amount(f.sv) != 10 ** 12 - 7:
    print(g, p.amount(f.sv))
    sys.exit(1)
