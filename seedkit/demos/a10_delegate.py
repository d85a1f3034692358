from kit import *
p = Program('amm')
p.programs()
adm, pool = p.user('admin'), key('pool')
sg = p.pda('signer', pool)
lp = p.mint('lp', sg, 0)
toll = p.pda('toll')
p.state('ProgramToll', toll, key('ta'))
tw = p.token(key('tw'), lp, key('ta'), 0)
ms = [p.mint('m%d' % i) for i in range(2)]
vs = [p.token(key('v%d' % i), m, sg, 0, delegate=key('evil') if i else None) for i, m in enumerate(ms)]
accs = [adm, pool, sg, toll, tw, lp, TOKEN, SYS]
bad = p.call('create_pool', accs + vs, u64(0), signers=[adm, pool])
if bad:
    print('created with a delegate')
    sys.exit(1)
p.token(vs[1], ms[1], sg, 0)
assert p.call('create_pool', accs + vs, u64(0), signers=[adm, pool]), p.msg
