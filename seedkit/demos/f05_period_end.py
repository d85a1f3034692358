from kit import *
p = Program('farming')
p.slot = 1000
f = make_farm(p, harvests=[('h', [(10, 100, 500)])], tip=1, ring={1: (100, 50)})
f.position(staked=50, nxt=500)
assert f.update(), p.msg
got = f.get()['harvests'].get(f.hs[0][0])
if got != 5:
    print('credited', got)
    sys.exit(1)
