from kit import *
p = Program('farming')
p.slot = 1000
f = make_farm(p, harvests=[('h', [(1000, 100, 5000)])], tip=1, ring={1: (100, 50)})
f.position(staked=50, nxt=900)
assert f.update(), p.msg
p.slot = 1010
assert f.update(), p.msg
got = f.get()['harvests'][f.hs[0][0]]
if got != 111 * 500:
    print('credited', got)
    sys.exit(1)
