from kit import *
p = Program('farming')
p.slot = 1000
# the ring has no snapshot after slot 700
f = make_farm(p, harvests=[('h', [(10, 100, 5000)])], tip=1, ring={1: (100, 50)})
f.position(vested=5, vested_at=700, nxt=701)
assert f.start(7), p.msg
g = f.get()
if g['vested'] != 12 or g['vested_at'] != 1000:
    print(g)
    sys.exit(1)
