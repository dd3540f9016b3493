"""Which contract units decide which property.  A job is (name, [alternatives]); every
alternative is (unit function name, kwargs).  The job holds if one alternative is fully
discharged.  Jobs are plain data: they are executed in worker processes."""
from specs.machine import MACHINES

MD = [n for n, m in MACHINES.items() if m.kind == "md" and not m.legacy]
SIP = ['siphash_64', 'siphash_32']
XXH = ['xxhash_32', 'xxhash_64']
FNVS = ['fnv1a_32', 'fnv1a_64']
ALL = [n for n, m in MACHINES.items() if not m.legacy]
LEG = [n for n, m in MACHINES.items() if m.legacy]
CASES = ['m=0,short', 'm=0,long', 'm>0,short', 'm>0,long']


def J(name, *alts):
    return (name, list(alts))


def update_jobs(mcn, cfg, rel, fns=('h_update',)):
    out = []
    mc = MACHINES[mcn]
    for c in (CASES if mc.kind != 'fnv' else ['m=0,long']):
        for fn in fns:
            out.append(J('%s/%s/update/%s/%s' % (mcn, cfg, c, fn), ('update', dict(mcn=mcn, cfg=cfg, case=c, fn=fn, rel=rel))))
    return out


def result_jobs(mcn, cfg, rel, goals, chunk=32):
    mc = MACHINES[mcn]
    ms = list(range(mc.N)) if mc.kind != 'fnv' else [0]
    return [J('%s/%s/result/%d' % (mcn, cfg, a), ('result', dict(mcn=mcn, cfg=cfg, ms=ms[a:a + chunk], rel=rel, goals=goals))) for a in range(0, len(ms), chunk)]


def step_job(mcn, cfg, std):
    return J('%s/%s/step' % (mcn, cfg), ('step', dict(mcn=mcn, cfg=cfg, std=std)))


def one(unit, mcn, cfg, **kw):
    return J('%s/%s/%s' % (mcn, cfg, unit), (unit, dict(mcn=mcn, cfg=cfg, **kw)))


def spec(mcns, cfg, seed=False, key=False):
    out = []
    for n in mcns:
        out.append(step_job(n, cfg, True))
        out.append(one('default', n, cfg, rel=False))
        out += update_jobs(n, cfg, False, ('h_update', 'h_updatec') if MACHINES[n].kind == 'fnv' else ('h_update',))
        out += result_jobs(n, cfg, False, ('digest', 'post') if MACHINES[n].kind == 'fnv' else ('digest',))
        if seed:
            out.append(one('seed', n, cfg, rel=False, lt32=n == 'xxhash_32'))
        if key:
            out.append(one('key', n, cfg, special=True))
    return out


def cfgs(tier, more=('std11',)):
    return ['std17'] + (list(more) if tier == 'thorough' else [])


def p_spec(mcns, **kw):
    return lambda tier: [j for c in cfgs(tier, ('std11', 'std20')) for j in spec(mcns, c, **kw)]


HMK = ['default', 'seed0', 'seed', 'null', 'short', 'long']
HMO = ['update', 'update uchar', 'update null', 'result', 'copy', 'assign']


def hm_jobs(cfg, kinds=HMK, ops=HMO, mcns=MD):
    out = []
    for n in mcns:
        out += [J('hmac_%s/%s/ctor/%s' % (n, cfg, k), ('hmac_ctor', dict(mcn=n, cfg=cfg, kind=k))) for k in kinds]
        out += [J('hmac_%s/%s/%s' % (n, cfg, k), ('hmac_op', dict(mcn=n, cfg=cfg, op=k))) for k in ops]
    return out


def p01(tier):
    out = []
    for cfg in cfgs(tier):
        for n in ALL + LEG:
            out.append(step_job(n, cfg, False))
            out += update_jobs(n, cfg, True, ('h_update', 'h_updatec') if n in ALL else ('h_update',))
            out += result_jobs(n, cfg, True, ('dep',))
        out += hm_jobs(cfg, [], ['update', 'update uchar', 'update null'])
    return out


def p08(tier):
    return [j for c in cfgs(tier, ('std11', 'ce')) for j in hm_jobs(c, HMK, HMO[:4])]


def p09(tier):
    out = []
    for cfg in cfgs(tier, ('std11', 'ce')):
        for n in ALL:
            k = MACHINES[n].kind
            out.append(one('default', n, cfg, rel=True))
            if k in ('md', 'fnv'):
                out.append(J('%s/%s/seed' % (n, cfg), ('seedh', dict(mcn=n, cfg=cfg)), ('seed', dict(mcn=n, cfg=cfg, rel=False))))
            else:
                out.append(one('seed', n, cfg, rel=True, only='zero'))
            out.append(one('key', n, cfg, special=False))
        for n in LEG if cfg != 'ce' else []:
            out += [one('default', n, cfg, rel=True), one('seed', n, cfg, rel=True, only='zero'), one('key', n, cfg, special=False)]
        out += hm_jobs(cfg, HMK, [])
    return out


def p10(tier):
    out = []
    for cfg in cfgs(tier, ('std11', 'ce')):
        for n in SIP + XXH:
            out.append(one('inj_seed', n, cfg))
            if n in SIP:
                out.append(one('inj_key', n, cfg))
    return out


def p11(tier):
    out = []
    for cfg in cfgs(tier):
        for n in ALL + LEG:
            out.append(step_job(n, cfg, False))
            out += update_jobs(n, cfg, True)
            out += result_jobs(n, cfg, 'step' if n in ALL else True, ('dep', 'post') if n in ALL else ('dep',))
            out.append(one('copy', n, cfg, fn='h_copy'))
            out.append(one('copy', n, cfg, fn='h_assign'))
        out += hm_jobs(cfg, [], ['result', 'copy', 'assign'])
    return out


def p12(tier):
    out = []
    for cfg in cfgs(tier, ('std11', 'ce')):
        for n in MD + SIP + XXH:
            out.append(step_job(n, cfg, False))
            if n in MD:
                out += update_jobs(n, cfg, True)
            out += result_jobs(n, cfg, True, ('erase',))
        for n in LEG if cfg != 'ce' else []:
            out += result_jobs(n, cfg, True, ('erase',))
    return out


def p13(tier):
    out = []
    for cfg in cfgs(tier, ('std11', 'ce', 'le32', 'be64')):
        for n in ALL:
            out.append(step_job(n, cfg, False))
            out += update_jobs(n, cfg, True, ('h_update', 'h_updatec') if cfg == 'std17' else ('h_update',))
            out += result_jobs(n, cfg, True, ('safe',))
            out.append(one('default', n, cfg, rel=True))
            out.append(one('seed', n, cfg, rel=True))
            out.append(one('key', n, cfg, special=True))
            out.append(one('copy', n, cfg, fn='h_copy'))
            out.append(one('copy', n, cfg, fn='h_assign'))
            out.append(one('null', n, cfg))
        for n in LEG if cfg in ('std17', 'std11', 'be64') else []:
            out += update_jobs(n, cfg, True) + result_jobs(n, cfg, True, ('safe',))
            out += [one('default', n, cfg, rel=True), one('seed', n, cfg, rel=True), one('key', n, cfg, special=True), one('copy', n, cfg, fn='h_copy'), one('copy', n, cfg, fn='h_assign'), one('null', n, cfg)]
            if MACHINES[n].seed2:
                out.append(one('seed2', n, cfg))
        out += hm_jobs(cfg)
    return out


def same_jobs(n, cfg):
    out = []
    mc = MACHINES[n]
    out.append(J('%s/%s/step same' % (n, cfg), ('same_step', dict(mcn=n, cfg=cfg))))
    out += update_jobs(n, cfg, True)
    ms = list(range(mc.N)) if mc.kind != 'fnv' else [0]
    ch = 32
    out += [J('%s/%s/result same/%d' % (n, cfg, a), ('same_result', dict(mcn=n, cfg=cfg, ms=ms[a:a + ch]))) for a in range(0, len(ms), ch)]
    out.append(one('same_seed', n, cfg))
    out.append(one('default', n, cfg, rel=True))
    out.append(one('key', n, cfg, special=False))
    if n in SIP:
        out.append(one('same_key', n, cfg))
    return out


def p14(tier):
    out = [J('detail/%s/ce' % w, ('ce_mem', dict(cfg='ce', what=w))) for w in ('memcpy', 'memset')]
    for n in ALL:
        out += same_jobs(n, 'ce')
    out += hm_jobs('ce', HMK, ['update uchar', 'result'])
    full = tier == 'thorough'
    out += fixed_jobs(FAMS, ['ce']) + range_jobs([('ce', 'dlbx' if full else 'd')]) + unord_jobs([('ce', 'dlbx' if full else 'd')]) + integral_jobs(['ce']) + digest_jobs(['ce'], NS if full else [1, 2, 7, 8, 16, 20])
    return out


def p15(tier):
    out = []
    for cfg in ['be64', 'le32'] + (['be32'] if tier == 'thorough' else []):
        for n in ALL + [n for n in LEG if cfg == 'be64' and (tier == 'thorough' or MACHINES[n].kind != 'spk')]:
            out += same_jobs(n, cfg)
        out += hm_jobs(cfg, HMK, ['update', 'result'], MD if tier == 'thorough' else ['md5', 'sha1', 'sha2_512'])
    cs = ['be64', 'le32', 'be32']
    out += fixed_jobs(FAMS, cs, 'lbx') + integral_jobs(cs)
    out += range_jobs([(c, 'lbx') for c in cs] if tier == 'thorough' else [('be64', 'l'), ('le32', 'b')]) + unord_jobs([(c, 'lbx' if tier == 'thorough' else 'l') for c in cs])
    return out


# ------------------------------------------------------------ hashing of objects
EVERY = ['std11', 'std14', 'std17', 'std20', 'ce', 'be64', 'be32', 'le32']
MODERN = [c for c in EVERY if c != 'std11']


def fixed_jobs(fams, cfgs=EVERY, flavs='dlbx'):
    return [J('object/%s/%s' % (f, c), ('app_fixed', dict(fam=f, cfg=c, flavs=flavs))) for c in cfgs for f in fams if not (f == 'described' and c == 'std11')]


def elems(cfg):
    import append
    return [d.name for d in append.elements(('c++17' if cfg != 'std11' else 'c++11'))] + [d.name for d in append.carrays()]


def range_jobs(pairs, names=None, conts=None):
    """pairs: (configuration, flavors)"""
    out = []
    for cfg, flavs in pairs:
        for fl in flavs:
            for e in elems(cfg):
                if names is None or e in names:
                    out.append(J('range/%s/%s/%s' % (cfg, fl, e), ('app_range', dict(cfg=cfg, fl=fl, flavs=flavs, elem=e, conts=conts))))
        out.append(J('size/%s' % cfg, ('app_size', dict(cfg=cfg, flavs=flavs))))
    return out


def unord_jobs(pairs):
    import append
    return [J('unordered/%s/%s/%s' % (cfg, fl, d.name), ('app_unord', dict(cfg=cfg, fl=fl, flavs=flavs, elem=d.name))) for cfg, flavs in pairs for fl in flavs for d in append.uelements()]


def integral_jobs(cfgs=EVERY):
    import integral
    ts = [t for t, _ in integral.TS]
    return [J('integral/%s/%d' % (c, i), ('integral', dict(cfg=c, ts=ts[i::2]))) for c in cfgs for i in range(2)]


def digest_jobs(cfgs, ns):
    import digest
    small = [n for n in ns if n <= 20]
    return [J('digest/%s/%s/%s' % (c, '+'.join(map(str, g)), w), ('digest', dict(cfg=c, ns=g, whats=[w]))) for c in cfgs for g in ([small] + [[n] for n in ns if n > 20]) for w in digest.WHAT]


FAMS = ['scalar', 'float', 'array', 'composite', 'described', 'trait']
NS = [1, 2, 7, 8, 16, 20, 28, 32, 48, 64]
MULTI = ['u16', 'int', 'u32', 'u64', 'wchar', 'c16', 'c32', 'es16', 'vptr', 'f32', 'f64', 'u16x3', 'f32x2', 'en2', 'eb', 'er3', 'p_elem_u16', 'bool']
DEEP = [('std17', 'dlbx'), ('std11', 'lx'), ('std14', 'd'), ('std20', 'dx'), ('ce', 'lb'), ('be64', 'lb'), ('be32', 'lx'), ('le32', 'db')]


def p16(tier):
    return fixed_jobs(['scalar', 'trait']) + range_jobs([], None)


def p17(tier):
    return fixed_jobs(['float']) + range_jobs([('std17', 'dlbx')] if tier == 'thorough' else [], ['f32', 'f64', 'f32x2'])


def p18(tier):
    return fixed_jobs(['array']) + range_jobs(DEEP if tier == 'thorough' else [('std17', 'dx'), ('ce', 'l')])


def p19(tier):
    return [J('lemma/decode', ('lemma', dict(name='Decode')))] + fixed_jobs(FAMS) + range_jobs(DEEP[1:4] + [('std17', 'lb')] if tier == 'thorough' else [('std17', 'x')]) + unord_jobs([('std17', 'dlbx' if tier == 'thorough' else 'x')])


def p20(tier):
    return [J('lemma/order', ('lemma', dict(name='Order')))] + unord_jobs([(c, 'dlbx') for c in EVERY] if tier == 'thorough' else [('std17', 'dx'), ('be64', 'l'), ('ce', 'd')])


def p21(tier):
    return fixed_jobs(['composite', 'described', 'trait'])


def p22(tier):
    return integral_jobs()


def p23(tier):
    return digest_jobs(['std17', 'std11', 'std14', 'std20', 'le32', 'be64', 'be32'] if tier == 'thorough' else ['std17', 'be64'], NS) + digest_jobs(['ce'], NS if tier == 'thorough' else [1, 2, 7, 8, 16, 20])


def p24(tier):
    return fixed_jobs(['trait', 'scalar', 'array', 'float', 'composite', 'described']) + (range_jobs(DEEP) if tier == 'thorough' else range_jobs([('std17', 'db'), ('be64', 'l')], MULTI))


def p25(tier):
    out = []
    for cfg in ['std17'] + (['std11', 'std14', 'std20', 'be64'] if tier == 'thorough' else []):
        for n in LEG:
            mc = MACHINES[n]
            out.append(step_job(n, cfg, True))
            out.append(one('default', n, cfg, rel=False))
            out.append(one('seed', n, cfg, rel=False, lt32=n == 'murmur3_32'))
            if mc.seed2:
                out.append(one('seed2', n, cfg))
            out.append(one('key', n, cfg, special=True))
            out += update_jobs(n, cfg, False) + result_jobs(n, cfg, False, ('digest',), 32)
    return out


PROPS = {
    'C01': p01,
    'C02': p_spec(['md5', 'sha1']),
    'C03': p_spec([n for n in MD if n.startswith('sha2')]),
    'C04': p_spec(['ripemd_128', 'ripemd_160']),
    'C05': p_spec(SIP, seed=True, key=True),
    'C06': p_spec(XXH, seed=True),
    'C07': p_spec(FNVS),
    'C08': p08, 'C09': p09, 'C10': p10, 'C11': p11, 'C12': p12, 'C13': p13, 'C14': p14, 'C15': p15,
    'C16': p16, 'C17': p17, 'C18': p18, 'C19': p19, 'C20': p20, 'C21': p21, 'C22': p22, 'C23': p23, 'C24': p24,
    'C25': p25,
}
ASSUME = {}
