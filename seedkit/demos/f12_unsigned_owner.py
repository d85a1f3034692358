from kit import *
p = Program('farming')
f = make_farm(p)
p.user('admin')
p.user('new')
go = lambda *s: p.call('set_farm_owner', [key('admin'), key('new'), f.key], signers=s)
if go(key('admin')):
    print('handed over')
    sys.exit(1)
assert go(key('admin'), key('new')), p.msg
