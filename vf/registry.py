"""Which jobs decide which property."""
import json, os, re, sys
import core
from core import Job, PyJob, run_check

CHECKS = {}


def check(pid, title, assumptions=(), explanation=''):
    def d(fn):
        CHECKS[pid] = (title, fn, list(assumptions), explanation)
        return fn
    return d


def A(name, h, w=5, hh=2, r=1, n=1, defs=None, **kw):
    d = dict(W=w, H=hh, R=r, NIMG=n)
    d.update(defs or {})
    kw.setdefault('bounds', 'width %d, height %d, range %d, %d image(s); coefficients: all finite floats' % (w, hh, r, n))
    return Job(name, h, core.fftw_sources(), defs=d, **kw)


def sparse_measure(m, cfgs=((5, 4, 2, 1, 5), (8, 8, 1, 2, 43), (4, 4, 1, 1, 5), (9, 4, 3, 1, 11), (12, 1, 2, 2, 6), (16, 8, 3, 1, 48), (26, 2, 12, 1, 13))):
    out = []
    for c in cfgs:
        out += [j for j in measure(m, [c[:4]], {'FREEMOD': c[4], **(INTC if m == 'ORIG' else {})}, covers=[])]
    for j in out:
        j.name = 'sparse-' + j.name
        j.bounds += ' (one coefficient in %s free, the others concrete)' % j.defs['FREEMOD']
    return out


def measure(m, cfgs, extra=None, **kw):
    """cfgs: (length, lines, range, images[, tier])"""
    out = []
    for c in cfgs:
        ln, n, r, k = c[:4]
        tier = c[4] if len(c) > 4 else 'quick'
        for d in (0, 1):
            w, h = (ln, n) if d == 0 else (n, ln)
            out.append(A('%s-%s-len%d-n%d-r%d-img%d' % (m.lower(), 'wh'[d], ln, n, r, k), 'measure.c', w, h, r, k, defs=dict({'M': m, 'DIM': d}, **(extra or {})), tier=tier, **kw))
    return out


def KNOWN(*ids):
    return [k for k in core.load_known()['known'] if k['id'] in ids]


INTC = {'INTCOEF': 1}


def per_method(h, cfgs, pre='', ext=None, **kw):
    """one job per method, dimension and configuration"""
    out = []
    for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX'):
        for c in cfgs:
            ln, n, r, k = c[:4]
            if m in (c[5] if len(c) > 5 else ()):
                continue
            for d in (0, 1):
                w, hh = (ln, n) if d == 0 else (n, ln)
                df = {'M': m, 'DIM': d}
                df.update(ext or {})
                if m == 'ORIG':
                    df.update(INTC)
                out.append(A('%s%s-%s-len%d-n%d-r%d-img%d' % (pre, m.lower(), 'wh'[d], ln, n, r, k), h, w, hh, r, k, defs=df,
                             tier=c[4] if len(c) > 4 else 'quick', **kw))
    return out


def sparse(h, pre='sparse-', cfgs=((5, 4, 2, 1, 11), (8, 8, 1, 2, 67), (4, 4, 1, 1, 7), (9, 4, 3, 1, 19), (12, 1, 2, 2, 11), (16, 8, 3, 1, 65)), ext=None, **kw):
    """larger configurations with few free coefficients"""
    out = []
    for c in cfgs:
        out += per_method(h, [c[:4] + (c[5:] or ('quick',))], pre=pre, ext=dict(ext or {}, FREEMOD=c[4]), covers=[], bounds='length %d, %d lines, range %d, %d image(s), one coefficient in %d free' % c[:5], **kw)
    return out


def many(*cfgs):
    """long lists and sequences, one confidence in cfg[4] free"""
    return [A('many-%dx%d-r%d-img%d' % c[:4], 'stub.c', *c[:4], defs={'MANY': c[4]}, optional=True, covers=[],
              bounds='%dx%d, range %d, %d image(s): %s for one candidate of the longer dimension in one image in %d, the others concrete with ties; thresholds 0 and 0.25' % (c[:4] + ('any of 8 confidences' if c[0]+c[1] > 200 else 'any confidence', c[4])), tier=c[5] if len(c) > 5 else 'quick') for c in cfgs]


def stub(*cfgs):
    return [A('stub-%dx%d-r%d-img%d' % c[:4], 'stub.c', *c[:4], tier=c[4] if len(c) > 4 else 'quick', optional=True,
              bounds='%dx%d, range %d, %d image(s): any confidence for every candidate, any threshold' % c[:4]) for c in cfgs] + \
        [A('stub-near-%dx%d' % c, 'stub.c', *c, 1, 1, defs={'NEAR': 1}, optional=True, bounds='%dx%d, range 1: 256 confidences per candidate, half of them neighbouring floats, any threshold' % c) for c in ((4, 3), (3, 5), (5, 4)) if cfgs[0][3] == 1]


@check('C01', 'results list shape')
def c01():
    return per_method('shape.c', [(4, 1, 1, 1), (3, 1, 1, 2), (5, 2, 1, 1, 'thorough')]) + per_method('shape.c', [(4, 1, 2, 1)], covers=['only the original is listed']) + sparse('shape.c') + stub((4, 3, 1, 1), (5, 5, 1, 1), (6, 3, 1, 1), (3, 7, 1, 1), (8, 6, 2, 1)) + many((40, 23, 1, 1, 1), (150, 4, 12, 1, 1), (300, 3, 1, 1, 1), (20, 20, 2, 3, 3))


@check('C02', 'confidence in [0,1]')
def c02():
    out = per_method('conf01.c', [(4, 1, 1, 1), (3, 2, 1, 1), (3, 1, 1, 2), (5, 1, 2, 1)]) + sparse('conf01.c')
    out += per_method('conf01.c', [(3, 1, 1, 1), (3, 2, 1, 1), (3, 1, 1, 2, 'quick', ('MAG',))], pre='refused-', ext={'REFUSED': 2}, bounds='up to two refused frames before each good one')
    for c, fm in (((3, 66000, 1, 1), 131071), ((3, 1, 1, 300), 300)):
        for j in per_method('conf01.c', [c + ('quick', ('ORIG',))], pre='full-', ext={'FREEMOD': fm, 'FULL': 1}, covers=[], bounds='length 3, %d lines, %d frames, full confidence, one coefficient in %d free' % (c[1], c[3], fm)):
            j.weight, j.max_steps = 5, 120000000
            out.append(j)
    return out


@check('C03', 'threshold')
def c03():
    return per_method('threshold.c', [(3, 1, 1, 1), (3, 2, 1, 1), (4, 1, 1, 1)]) + per_method('threshold.c', [(3, 4, 1, 1, 'quick', ('ORIG', 'ZEROX')), (3, 2, 1, 1)], pre='default-', ext={'DEFAULT_T': 1}) + stub((4, 4, 1, 1), (6, 3, 1, 1), (3, 6, 1, 1), (7, 6, 2, 1)) + many((23, 40, 1, 1, 1), (4, 150, 12, 1, 1), (3, 300, 1, 1, 1))


@check('C08', 'transpose')
def c08():
    return per_method('transpose.c', [(4, 2, 1, 1), (5, 3, 2, 1, 'quick', ('ZEROX',)), (3, 2, 2, 1, 'quick', ('SIGN', 'MAG', 'ORIG')), (5, 2, 2, 1, 'thorough', ('SIGN', 'MAG', 'ORIG'))]) + sparse('transpose.c')


@check('C09', 'frames')
def c09():
    return per_method('frames.c', [(3, 1, 1, 2), (3, 1, 1, 3)]) + sparse('frames.c', cfgs=((5, 4, 2, 2, 11), (4, 4, 1, 3, 17), (12, 1, 2, 3, 13, 'quick', ('MAG',)))) + stub((4, 3, 1, 2), (4, 3, 1, 3, 'thorough'), (3, 4, 1, 2)) + many((3, 3, 1, 300, 150), (3, 4, 1, 70, 50), (3, 3, 1, 66000, 40000, 'thorough')) + [A('frames-66000', 'manyframes.c', 3, 1, 1, 66000, defs={'NIMG': 66000}, weight=9, max_steps=200000000, bounds='3x1, sign, 66000 frames, the first and last free')]


@check('C10', 'non-finite')
def c10():
    return [A('nonfinite-%dx%d' % (w, h), 'nonfinite.c', w, h, 1, 1) for w, h in ((3, 1), (1, 3), (3, 2))] + \
        [A('nonfinite-one-%dx%d' % (w, h), 'nonfinite.c', w, h, 1, 1, defs={'ONE': 1}, bounds='%dx%d, one pixel anywhere with any bit pattern' % (w, h)) for w, h in ((17, 9), (9, 17), (70, 1), (1, 131))]


@check('C11', 'memory safety')
def c11():
    out = []
    for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX'):
        for free, smax, tier in ((1, 3, 'quick'), (0, 6, 'quick'), (2, 5, 'thorough')):
            out.append(A('%s-free%d-size%d' % (m.lower(), free, smax), 'mem.c', defs={'M': m, 'FREE': free, 'SMAX': smax}, tier=tier,
                         bounds='width and height 1..%d, any range, filters 0/1/31, thresholds 0/0.5, 1 or 2 images, %d free coefficient(s)' % (smax, free)))
    return out


@check('C12', 'limits')
def c12():
    out = []
    for px in (None, 1, 255, 65536, (1 << 32) - 1):
        for swap in (0, 1):
            for kiss in (0, 1):
                d = {'SWAP': swap}
                if kiss:
                    d['KISS'] = 1
                j = A('%s%s-%s' % ('kiss' if kiss else 'fftw', '-px%d' % px if px else '', 'hw'[swap]), 'limits.c', defs=d,
                      bounds='one dimension any 64-bit value, the other one of 23 boundary values; PIXEL_MAX %s' % (px or 'SIZE_MAX'), cdefs=['-DPIXEL_MAX=%d' % px] if px else [])
                if kiss:
                    j.sources = core.kiss_sources()
                    j.models = ()
                out.append(j)
    return out


def kissify(j):
    j.sources = core.kiss_sources()
    j.models = ()
    j.defs['KISS'] = 1
    return j


@check('C13', 'allocation failures')
def c13():
    out = []
    for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX'):
        for b, tier in ((1, 'quick'), (2, 'quick'), (3, 'thorough')):
            out.append(A('%s-budget%d' % (m.lower(), b), 'oom.c', 5, 4, 1, 2, defs={'M': m, 'BUDGET': b}, tier=tier, known=KNOWN('C13-orig-retry') if m == 'ORIG' else (),
                         bounds='5x4, two images, every placement of up to %d failing allocations or plans' % b))
        for w, h in ((4, 4), (4, 5), (5, 2), (2, 5), (2, 2), (1, 1), (1, 2), (3, 1)):
            out.append(A('%s-%dx%d' % (m.lower(), w, h), 'oom.c', w, h, 1, 1, defs={'M': m, 'BUDGET': 2}, known=KNOWN('C13-orig-retry') if m == 'ORIG' else (), covers=['creation fails', 'results fail'],
                         bounds='%dx%d, one image, every placement of up to 2 failing allocations or plans' % (w, h)))
        for w, h in ((4, 3), (4, 4), (3, 4)):
            out.append(A('onecall-%s-%dx%d' % (m.lower(), w, h), 'oomhi.c', w, h, 1, 2, defs={'M': m, 'BUDGET': 3}, bounds='%dx%d, every placement of up to 3 failures' % (w, h)))
    out.append(kissify(A('kiss-onecall', 'oomhi.c', 4, 2, 1, 2, defs={'M': 'SIGN', 'BUDGET': 2})))
    out.append(kissify(A('kiss-onecall-prime', 'oomhi.c', 7, 2, 1, 2, defs={'M': 'SIGN', 'BUDGET': 1}, known=KNOWN('C13-kissfft'))))
    return out


@check('C14', 'out parameters')
def c14():
    out = []
    for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX'):
        for w, h in ((4, 3), (4, 4), (3, 5), (2, 6), (6, 1)):
            out.append(A('results-%s-%dx%d' % (m.lower(), w, h), 'outparams.c', w, h, 1, 2, defs={'M': m}, bounds='%dx%d, every subset of output parameters, 0 to 2 frames' % (w, h)))
            out.append(A('onecall-%s-%dx%d' % (m.lower(), w, h), 'outparams.c', w, h, 1, 2, defs={'M': m, 'ONECALL': 1}, bounds='%dx%d, every subset of output parameters, 0 to 2 frames' % (w, h)))
    return out


@check('C15', 'setters')
def c15():
    return [A('setters-%s' % m.lower(), 'setters.c', 6, 1, 1, 1, defs={'M': m}) for m in ('SIGN', 'ZEROX')]


@check('C16', 'compression filter')
def c16():
    out = []
    for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX'):
        for d in (0, 1):
            for ln, r, fr, tier in ((12, 1, 1, 'quick'), (24, 2, 0, 'quick'), (40, 3, 0, 'thorough'), (16, 1, 2, 'thorough')):
                out.append(A('%s-%s-len%d-r%d-free%d' % (m.lower(), 'wh'[d], ln, r, fr), 'filter.c', 1 if d else ln, ln if d else 1, r, 1, defs={'M': m, 'DIM': d, 'FREE': fr}, tier=tier,
                             bounds='length %d, range %d, every filter value, every threshold, %d free coefficients' % (ln, r, fr)))
    out.append(A('documented-instance', 'filterdoc.c', 16, 1, 1, 1, known=KNOWN('C16-doc')))
    return out


@check('C17', 'names and texts')
def c17():
    return [A('util', 'util.c', 3, 1, 1, 1)]


@check('C18', 'defaults')
def c18():
    return [A('copies-%s' % m.lower(), 'copies.c', 6, 1, 1, 1, defs={'M': m, 'NSYM': 0}, cdefs=['-DDEFAULT_RANGE=2']) for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX')] + \
        [A('copies-default-%s' % m.lower(), 'copies.c', 30, 1, 1, 1, defs={'M': m, 'NSYM': 0}) for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX')] + \
        [A('copies-free-%s' % m.lower(), 'copies.c', 5, 1, 1, 1, defs={'M': m, 'NSYM': 5}, cdefs=['-DDEFAULT_RANGE=1'], covers=['copied', 'defaults', 'spelt out', 'default method', 'method threshold']) for m in ('SIGN', 'ZEROX')]


NOEXT = ['-UHAVE_LIBJPEG', '-UHAVE_LIBPNG', '-UHAVE_MAGICKWAND', '-UHAVE_FFMPEG']


def RJ(name, h, defs, bounds, cdefs=(), **kw):
    """native image readers only"""
    return Job(name, h, core.rel(['lib/image.c', 'lib/image_readers.c', 'lib/util.c', 'lib/methods.c']) + core.rel_new_lib() + core.reader_sources(), defs=defs, models=(), cdefs=NOEXT + list(cdefs), bounds=bounds, **kw)


def big(name, fmt, w, h, fr, long, sparse):
    return RJ('big-' + name, 'big.c', {'FMT': fmt, 'W': w, 'H': h, 'FR': fr, 'LONG': long, 'SPARSE': sparse}, '%s %dx%d, %d frame(s), header padding of %d bytes, one sample in %d free; read, sought or in one call' % (fmt, w, h, fr, long, sparse), covers=['read'])


BIG = {'C20': (('pgm-wide', 'PGM', 5000, 1, 1, 0, 501), ('pgm-tall', 'PGM', 1, 700, 1, 0, 101), ('pgm', 'PGM', 300, 270, 1, 0, 20011), ('pgm-comments', 'PGM', 2, 2, 1, 5000, 1)),
       'C21': (('pfm-wide', 'PFM', 1300, 1, 2, 0, 501), ('pfm-tall', 'PFM', 1, 700, 1, 300, 101), ('pfm', 'PFM', 130, 70, 2, 0, 2003), ('pfm-large', 'PFM', 265, 255, 1, 0, 20011), ('pfm-comments', 'PFM', 2, 2, 1, 5000, 1),
               ('pfmc-wide', 'PFMC', 700, 1, 1, 0, 501), ('pfmc', 'PFMC', 70, 41, 2, 300, 2003), ('pfm-frames', 'PFM', 1, 1, 300, 0, 100)),
       'C22': (('y4m-wide', 'Y4M', 5000, 1, 2, 0, 501), ('y4m-tall', 'Y4M', 1, 700, 1, 300, 101), ('y4m', 'Y4M', 301, 231, 2, 0, 20011), ('y4m-tags', 'Y4M', 2, 2, 2, 1500, 1),
               ('y4md-wide', 'Y4MD', 1301, 1, 1, 0, 501), ('y4md', 'Y4MD', 71, 41, 2, 300, 2003), ('y4md-large', 'Y4MD', 265, 255, 2, 0, 20011), ('y4m-frames', 'Y4M', 2, 1, 300, 0, 100)),
       'C23': (('pfm-frames', 'PFM', 1, 2, 40, 0, 7), ('pfm-large', 'PFM', 150, 120, 3, 0, 7001), ('y4m-large', 'Y4M', 301, 231, 2, 0, 20011), ('y4m-frames', 'Y4M', 3, 1, 40, 0, 7), ('y4md-frames', 'Y4MD', 5, 3, 20, 0, 31)),
       'C28': (('pfm-frames', 'PFM', 2, 1, 40, 0, 7), ('pfmc-frames', 'PFMC', 2, 1, 9, 0, 3), ('y4m-frames', 'Y4M', 2, 2, 70, 0, 7), ('y4md-frames', 'Y4MD', 1, 2, 33, 0, 7), ('pfm-more', 'PFM', 1, 1, 300, 0, 100))}


@check('C20', 'PGM')
def c20():
    return [big(*b) for b in BIG['C20']] + [RJ('pgm-layouts', 'pgm.c', {'MODE': 0}, '2x1, 36 separator pairs, 4 comment layouts, 4 final separators, every sample'),
            RJ('pgm-sizes', 'pgm.c', {'MODE': 1}, 'up to 3x3, every way of opening, every sample'),
            RJ('pgm-maxvals', 'pgm.c', {'MODE': 2}, '1x1, every maximum 1..255, every sample')]


def pfm(name, w, h, fr, var, how, **kw):
    return RJ(name, 'pfm.c', {'MINW': w[0], 'MAXW': w[1], 'MINH': h[0], 'MAXH': h[1], 'FR': fr, 'VAR': var, 'HOW': how},
              'width %d..%d, height %d..%d, up to %d frames; every gray sample, whole-number colour samples' % (w + h + (fr,)), **kw)


@check('C21', 'PFM')
def c21():
    return [big(*b) for b in BIG['C21']] + [pfm('pfm-sizes', (1, 3), (1, 3), 1, 0, 0), pfm('pfm-frames', (1, 2), (1, 2), 2, 0, 0), pfm('pfm-headers', (2, 2), (1, 1), 1, 1, 0),
            pfm('pfm-how', (1, 1), (1, 1), 2, 0, 1), pfm('pfm-3frames', (1, 1), (1, 1), 3, 0, 0)]


def y4m(name, w, h, fr, var, how, **kw):
    return RJ(name, 'y4m.c', {'MINW': w[0], 'MAXW': w[1], 'MINH': h[0], 'MAXH': h[1], 'FR': fr, 'VAR': var, 'HOW': how},
              'width %d..%d, height %d..%d, up to %d frames; %s' % (w + h + (fr, 'header and frame tag variations' if var else '21 chroma layouts and depths, every luma sample')), **kw)


@check('C22', 'Y4M')
def c22():
    return [big(*b) for b in BIG['C22']] + [y4m('y4m-wide', (1, 6), (1, 1), 2, 0, 0), y4m('y4m-tall', (1, 1), (1, 4), 2, 0, 0), y4m('y4m-odd', (3, 3), (3, 3), 2, 0, 0), y4m('y4m-5x3', (5, 5), (3, 3), 2, 0, 0, tier='thorough'),
            y4m('y4m-tags', (2, 2), (1, 1), 2, 1, 0), y4m('y4m-how', (1, 2), (1, 1), 2, 0, 1)]


def seek(name, fmt, fr, steps, w=2, h=1, y4m=None, **kw):
    d = {'FMT': fmt, 'FR': fr, 'STEPS': steps, 'W': w, 'H': h}
    if y4m:
        d.update(TAGS='"%s"' % y4m[0], BYTES=y4m[1], CHROMA=y4m[2])
    return RJ(name, 'seek.c', d, '%s %dx%d, up to %d frames, %d seek(s) by any 64-bit number of frames, seekable or not' % (fmt, w, h, fr, steps), **kw)


@check('C23', 'seeking')
def c23():
    return [big(*b) for b in BIG['C23']] + [seek('pgm', 'PGM', 1, 3), seek('pfm', 'PFM', 2, 2), seek('pfm-3frames', 'PFM', 3, 1), seek('pfm-tall', 'PFM', 1, 2, w=1, h=2), seek('y4m', 'Y4M', 3, 2, y4m=('', 1, 2)),
            seek('y4m-mono', 'Y4M', 3, 2, y4m=(' Cmono', 1, 0)), seek('y4m-deep', 'Y4M', 3, 2, 3, 1, y4m=(' C422p10', 2, 8)), seek('y4m-alpha', 'Y4M', 2, 2, 3, 2, y4m=(' C444alpha', 1, 18)),
            seek('y4m-3steps', 'Y4M', 3, 3, 3, 2, y4m=('', 1, 4)), seek('y4m-411', 'Y4M', 2, 2, 5, 2, y4m=(' C411', 1, 8))]


def bad(name, fmt, mode, bounds, defs=None, **kw):
    cov = {'CUT': ['all frames read', 'no frame read'], 'IOERR': ['all frames read'] if fmt == 'PGM' else ['no frame read'], 'VALUES': ['refused']}.get(mode, [])
    return RJ('%s-%s' % (fmt.lower(), name), 'bad.c', dict({'FMT': fmt, 'MODE': mode, 'LO': 0, 'HI': 0, 'PRE': 0, 'N': 0}, **(defs or {})), bounds, covers=cov, **kw)


@check('C24', 'invalid input')
def c24():
    out = []
    for f in ('PGM', 'PFM', 'Y4M'):
        out += [bad('cut', f, 'CUT', 'valid files of up to three 2x1 frames cut after any byte, every sample'),
                bad('io-error', f, 'IOERR', 'valid files of up to three 2x1 frames, unreadable from any byte on'),
                bad('byte', f, 'BYTE', 'valid header with any one byte replaced by any value', {'LO': 0, 'HI': 40}),
                bad('dims', f, 'DIMS', '18 texts for each dimension (zero, huge, wrapping, missing)'),
                bad('values', f, 'VALUES', 'a list of invalid headers')]
        for pre, n, tier in ((0, 3, 'quick'), (1, 3, 'quick'), (2, 3, 'quick'), (3, 3, 'quick'), (0, 5, 'thorough'), (1, 5, 'thorough'), (2, 5, 'thorough'), (3, 5, 'thorough')):
            out.append(bad('free-%d-%d' % (pre, n), f, 'FREE', 'one of 4 prefixes followed by up to %d arbitrary bytes' % n, {'PRE': pre, 'N': n}, tier=tier))
    return out


@check('C25', 'opening images')
def c25():
    return [RJ('open-fail%d' % f, 'open.c', {'FAIL': f}, 'every combination of missing arguments, three formats, file present, missing or invalid, up to %d injected failures' % (2 * f)) for f in (0, 1)]


@check('C26', 'reader selection')
def c26():
    out = []
    cfgs = [('all', ()), ('native', tuple(NOEXT)), ('nopgm', ('-DOMIT_PGM_READER',)), ('nopfm', ('-DOMIT_PFM_READER', '-UHAVE_MAGICKWAND')), ('noy4m', ('-DOMIT_Y4M_READER', '-UHAVE_FFMPEG')),
            ('none', ('-DOMIT_PGM_READER', '-DOMIT_PFM_READER', '-DOMIT_Y4M_READER') + tuple(NOEXT)), ('magick', ('-DOMIT_PGM_READER', '-DOMIT_PFM_READER', '-DOMIT_Y4M_READER', '-UHAVE_LIBJPEG', '-UHAVE_LIBPNG', '-UHAVE_FFMPEG')),
            ('nojpeg', ('-UHAVE_LIBJPEG',)), ('nopng', ('-UHAVE_LIBPNG', '-UHAVE_MAGICKWAND')), ('nomagick', ('-UHAVE_MAGICKWAND',)), ('noffmpeg', ('-UHAVE_FFMPEG',))]
    for n, c in cfgs:
        j = RJ('select-' + n, 'select.c', {}, 'build configuration %s: 15 extensions, their MIME types, 17 names, every mixture of case; names of 1000 and extensions of 300 characters' % n)
        j.cdefs = list(c)
        for x, s in (('PGM', 'pgm'), ('PFM', 'pfm'), ('Y4M', 'y4m')):
            if '-DOMIT_%s_READER' % x in c:
                j.sources = [y for y in j.sources if not y.endswith('/%s.c' % s)]
        out.append(j)
    return out


def XJ(name, h, keep, defs, bounds, cdefs=(), **kw):
    """one external-library reader over a model of its library"""
    incs = core.PER_FILE.get(core.EXT_READERS[keep.lower()], []) + (['-I/usr/include/x86_64-linux-gnu'] if keep == 'FFMPEG' else [])
    j = RJ(name, h, defs, bounds, **kw)
    j.sources = core.rel(['lib/image.c', 'lib/image_readers.c', 'lib/util.c', 'lib/methods.c']) + core.rel_new_lib() + core.reader_sources((keep.lower(),))
    j.cdefs = ['-UHAVE_' + k for k in ('LIBJPEG', 'LIBPNG', 'MAGICKWAND', 'FFMPEG') if k != keep] + list(cdefs)
    j.per_file[h] = list(incs)
    return j


@check('C27', 'PNG and JPEG')
def c27():
    ok, ko = ['reads', 'end'], ['reads', 'header fails', 'read fails']
    return [XJ('png', 'png.c', 'LIBPNG', {'FAIL': 0, 'STEPS': 2}, '2x2; 14 colour types and depths, with and without transparency; every sample', covers=ok),
            XJ('png-interlaced', 'png.c', 'LIBPNG', {'FAIL': 0, 'W': 5, 'H': 5, 'INTERLACED': 1}, '5x5 interlaced', covers=['reads']),
            XJ('png-wide', 'png.c', 'LIBPNG', {'FAIL': 0, 'STEPS': 1, 'W': 260, 'H': 1}, '260x1, one sample in 37 free; as above', covers=['reads']),
            XJ('png-large', 'png.c', 'LIBPNG', {'FAIL': 0, 'STEPS': 1, 'W': 262, 'H': 255, 'LARGE': 1}, '262x255, 8-bit gray and 16-bit colour, a few samples free', covers=['reads']),
            XJ('jpeg-large', 'jpeg.c', 'LIBJPEG', {'FAIL': 0, 'STEPS': 1, 'W': 262, 'H': 255, 'WARN': 0, 'LARGE': 1}, '262x255, a few samples free; scanlines one or four at a time', covers=['reads']),
            XJ('jpeg-wide', 'jpeg.c', 'LIBJPEG', {'FAIL': 0, 'STEPS': 1, 'W': 300, 'H': 1, 'WARN': 0}, '300x1, one sample in 37 free; as above', covers=['reads']),
            XJ('jpeg-tall', 'jpeg.c', 'LIBJPEG', {'FAIL': 0, 'STEPS': 1, 'W': 1, 'H': 6, 'WARN': 0}, '1x6; scanlines in any batches', covers=['reads']),
            XJ('png-fail', 'png.c', 'LIBPNG', {'FAIL': 1, 'STEPS': 2, 'W': 1, 'H': 2}, '1x2; any one call to libpng or allocation fails; damaged signatures', covers=ko + ['not a png']),
            XJ('png-seek', 'png.c', 'LIBPNG', {'FAIL': 0, 'STEPS': 4, 'W': 1, 'H': 1}, '1x1; up to 3 seeks by any 64-bit number mixed with reads', covers=ok),
            XJ('jpeg', 'jpeg.c', 'LIBJPEG', {'FAIL': 0, 'STEPS': 2, 'W': 3, 'H': 4, 'WARN': 0}, '3x4; gray or colour; scanlines in any batches; every sample', covers=ok),
            XJ('jpeg-fail', 'jpeg.c', 'LIBJPEG', {'FAIL': 1, 'STEPS': 2, 'W': 2, 'H': 2, 'WARN': 1}, '2x2; any one call to libjpeg or allocation fails, warnings', covers=ko),
            XJ('jpeg-seek', 'jpeg.c', 'LIBJPEG', {'FAIL': 0, 'STEPS': 4, 'W': 1, 'H': 1, 'WARN': 0}, '1x1; up to 3 seeks by any 64-bit number mixed with reads', covers=ok)]


@check('C35', 'FFmpeg')
def c35():
    b = 'up to %d packets in two streams, decoder delay 0 to 2, every sample'
    return [XJ('ffmpeg', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'STEPS': 3, 'NPK': 3, 'W': 1, 'H': 2}, '1x2; ' + b % 3 + '; reads and seeks by any 64-bit number', covers=['reads', 'end']),
            XJ('ffmpeg-image', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'STEPS': 2, 'NPK': 2, 'W': 3, 'H': 3}, '3x3; ' + b % 2, covers=['reads', 'end']),
            XJ('ffmpeg-wide', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'STEPS': 1, 'NPK': 1, 'W': 300, 'H': 2}, '300x2; ' + b % 1, covers=['reads']),
            XJ('ffmpeg-long', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'STEPS': 4, 'NPK': 4, 'W': 1, 'H': 1}, '1x1; ' + b % 4, covers=['reads', 'end'], tier='thorough'),
            XJ('ffmpeg-large', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'STEPS': 2, 'NPK': 2, 'W': 262, 'H': 255, 'LARGE': 40009}, '262x255, two packets in two streams, decoder delay 1, one sample in 40009 free', covers=['reads']),
            XJ('ffmpeg-frames', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'STEPS': 2, 'NPK': 420, 'W': 1, 'H': 1, 'LARGE': 101}, '1x1, 420 packets in two streams, decoder delay 0 to 2, one sample in 101 free; a seek by any 64-bit number and a read', covers=['reads']),
            XJ('ffmpeg-fail', 'ffmpeg.c', 'FFMPEG', {'FAIL': 1, 'STEPS': 2, 'NPK': 2, 'W': 1, 'H': 2}, '1x2; any one call to FFmpeg or allocation fails in four ways; a frame of another size', covers=['reads', 'header fails', 'read fails', 'seek fails', 'odd size']),
            XJ('ffmpeg-extensions', 'ffmpeg.c', 'FFMPEG', {'FAIL': 0, 'NPK': 1, 'W': 1, 'H': 1, 'EXTS': 1}, 'eleven extensions and types', ('-DHAVE_MAGICKWAND=6',), covers=['chosen'])]


@check('C36', 'MagickWand')
def c36():
    return [XJ('magick', 'magick.c', 'MAGICKWAND', {'FAIL': 0, 'STEPS': 4, 'FR': 3, 'W': 1, 'H': 2}, '1x2, up to 3 images, every sample; reads and seeks by any 64-bit number', covers=['reads', 'end']),
            XJ('magick-image', 'magick.c', 'MAGICKWAND', {'FAIL': 0, 'STEPS': 2, 'FR': 2, 'W': 3, 'H': 2}, '3x2, up to 2 images, every sample', covers=['reads', 'end']),
            XJ('magick-wide', 'magick.c', 'MAGICKWAND', {'FAIL': 0, 'STEPS': 2, 'FR': 1, 'W': 300, 'H': 2}, '300x2, one image, every sample', covers=['reads', 'end']),
            XJ('magick-long', 'magick.c', 'MAGICKWAND', {'FAIL': 0, 'STEPS': 2, 'FR': 40, 'W': 1, 'H': 1}, '1x1, up to 40 images, every sample; a seek by any 64-bit number and a read', covers=['reads']),
            XJ('magick-large', 'magick.c', 'MAGICKWAND', {'FAIL': 0, 'STEPS': 2, 'FR': 2, 'W': 262, 'H': 255, 'LARGE': 40009}, '262x255, two images, one sample in 40009 free', covers=['reads']),
            XJ('magick-frames', 'magick.c', 'MAGICKWAND', {'FAIL': 0, 'STEPS': 2, 'FR': 300, 'W': 1, 'H': 1, 'LARGE': 101}, '1x1, 300 images, one sample in 101 free; a seek by any 64-bit number and a read', covers=['reads']),
            XJ('magick-fail', 'magick.c', 'MAGICKWAND', {'FAIL': 1, 'STEPS': 3, 'FR': 2, 'W': 1, 'H': 1}, '1x1, up to 2 images, eight kinds of exception, a failed export or allocation', covers=['reads', 'header fails', 'read fails'])]


def dct(w, h, times=1, tier='quick'):
    return kissify(A('kiss-%dx%d%s' % (w, h, '-again' if times > 1 else ''), 'dct.c', w, h, 1, 1, defs={'TIMES': times}, covers=['transformed'],
                     bounds='%dx%d, every image in [-1,1], %d image(s); coefficients within 1e-5 of the largest possible one' % (w, h, times), tier=tier, affine=True))


@check('C30', 'transform')
def c30():
    return [A('fftw-%dx%d-img%d' % (w, h, k), 'dct.c', w, h, 1, 1, defs={'TIMES': k}, covers=['transformed'], bounds='%dx%d, %d image(s), every finite pixel; any spectrum' % (w, h, k))
            for w, h, k in ((4, 3, 2), (3, 5, 1), (5, 1, 2), (1, 4, 1))] + \
        [dct(n, 1) for n in list(range(3, 41)) + [42, 45, 48, 49, 50, 54, 55, 60, 63, 64, 72, 75, 77, 81, 91, 96, 100, 105, 120, 121, 125, 128]] + [dct(1, n) for n in list(range(3, 17)) + [20, 25, 27, 64]] + \
        [dct(*s) for s in ((2, 3), (3, 2), (3, 3), (4, 4), (5, 3), (4, 6), (6, 6), (5, 5), (7, 7), (8, 8), (10, 6), (9, 14), (12, 12))] + [dct(4, 3, 2), dct(5, 5, 2), dct(12, 1, 2)] + \
        [dct(n, 1, tier='thorough') for n in (150, 169, 180, 200, 240, 256, 300, 343, 360)] + [dct(*s, tier='thorough') for s in ((15, 10), (16, 16), (14, 22), (20, 12))]


@check('C28', 'reading in one call')
def c28():
    return [big(*b) for b in BIG['C28']] + [RJ('%s-%dx%d%s' % (f.lower(), w, h, '-oom' if fail else ''), 'readall.c', {'FMT': f, 'W': w, 'H': h, 'FR': fr, 'FAIL': fail},
               '%s %dx%d, up to %d frames, every sample; cut short, trailing bytes, missing%s' % (f, w, h, fr, ', one failed allocation anywhere' if fail else ''),
               covers=['every frame', 'error'] + (['out of memory'] if fail else []))
            for f, w, h, fr in (('PGM', 2, 1, 1), ('PFM', 1, 2, 3), ('Y4M', 3, 2, 3), ('PFM', 3, 1, 2)) for fail in (0, 1)]


@check('C29', 'one-call detection')
def c29():
    out = []
    for m in ('SIGN', 'MAG', 'ORIG', 'ZEROX'):
        for w, h, r, k, fm, th in ((4, 3, 1, 2, 11, '.4f'), (5, 1, 1, 3, 7, '-1'), (6, 6, 2, 1, 37, '.2f')) if m != 'ORIG' else ((4, 2, 1, 2, 7, '.4f'), (5, 1, 1, 3, 7, '-1'), (8, 8, 2, 1, 67, '.2f')):
            d = dict({'M': m, 'FREEMOD': fm, 'TH': th}, **(INTC if m == 'ORIG' else {}))
            b = '%dx%d, up to %d images, one pixel in %d any bit pattern; every choice of output parameters' % (w, h, k, fm)
            out.append(A('mem-%s-%dx%d' % (m.lower(), w, h), 'onecall.c', w, h, r, k, defs=d, covers=['detects', 'fails while reading'], bounds=b))
            j = A('file-%s-%dx%d' % (m.lower(), w, h), 'onecall.c', w, h, r, k, defs=dict(d, INFILE=1), covers=['detects', 'fails while reading', 'fails to open'], bounds=b + '; PFM file complete, cut, with trailing bytes or missing')
            j.sources = j.sources + core.reader_sources()
            j.cdefs = list(NOEXT)
            out.append(j)
    return out


def CLI(name, mode, bounds, covers, digits=1, **kw):
    return Job(name, 'cli.c', core.rel(['src/resdet.c']), defs={'MODE': mode, 'DIGITS': digits}, models=(), per_file={'src/resdet.c': ['-Dmain=resdet_main', '-Dexit=v_exit']}, bounds=bounds, covers=covers, **kw)


def many_sizes(n=300):
    j = CLI('many-sizes', 'OUTCOME', 'every verbosity; %d sizes in one dimension, up to two in the other' % n, ['upscaled', 'lists', 'table'])
    j.defs['MANY'] = n
    return j


@check('C32', 'tool: output and exit status')
def c32():
    return [CLI('outcome', 'OUTCOME', 'every verbosity; up to three sizes per dimension; any error code from any of the library calls', ['failure', 'upscaled', 'not upscaled', 'lists', 'table'])] + [many_sizes()] + \
        [e2e('SIGN', 4, 4, 1, 2, 7), e2e('ZEROX', 5, 3, 1, 1, 5), e2e('MAG', 4, 2, 1, 1, 5), e2e('ORIG', 5, 2, 1, 1, 5)]


def e2e(m, w, h, r, k, fm):
    j = A('tool-%s-%dx%d' % (m.lower(), w, h), 'e2e.c', w, h, r, k, defs={'M': m, 'FREEMOD': fm}, bounds='%dx%d, up to %d frames, method %s, one pixel in %d any multiple of 8 up to 2^18' % (w, h, k, m.lower(), fm))
    j.sources = j.sources + core.reader_sources() + core.rel(['src/resdet.c'])
    j.cdefs = list(NOEXT)
    j.per_file = {'src/resdet.c': ['-Dmain=resdet_main', '-Dexit=v_exit']}
    return j


@check('C33', 'tool: frame range')
def c33():
    return [CLI('frames%d' % d, 'FRAMES', 'up to 4 frames; offsets and limits of up to %d arbitrary digits, 2^32+1 or 2^64-1' % d, ['refused', 'none left', 'limited'], d, tier='thorough' if d == 3 else 'quick') for d in (1, 2, 3)]


@check('C34', 'tool: options')
def c34():
    return [CLI('options%d' % d, 'OPTIONS', 'each option and pair of options with valid and invalid values, numbers of up to %d arbitrary digits, 12 file names' % d, ['refused', 'accepted'], d) for d in (1, 3)]


@check('C45', 'independent handles')
def c45():
    out = []
    for a, b, (wa, ha), (wb, hb), fm in (('SIGN', 'ZEROX', (4, 2), (3, 3), 5), ('ORIG', 'ORIG', (7, 3), (4, 4), 17), ('ORIG', 'ORIG', (3, 4), (8, 2), 13), ('MAG', 'MAG', (5, 3), (3, 4), 13), ('ORIG', 'SIGN', (4, 4), (5, 4), 13),
                                        ('ZEROX', 'ZEROX', (3, 3), (6, 4), 13), ('SIGN', 'SIGN', (6, 1), (1, 6), 3), ('ZEROX', 'MAG', (4, 4), (4, 4), 13)):
        out.append(Job('%s-%dx%d-%s-%dx%d' % (a.lower(), wa, ha, b.lower(), wb, hb), 'handles.c', core.fftw_sources(), defs={'MA': a, 'MB': b, 'WA': wa, 'HA': ha, 'WB': wb, 'HB': hb, 'R': 1, 'NIMG': 2, 'FREEMOD': fm},
                       bounds='two analyses interleaved and a third: %s of %dx%d and %s of %dx%d, two frames each, range 1; one coefficient in %d any multiple of 8 below 2^18' % (a, wa, ha, b, wb, hb, fm)))
    return out


@check('C04', 'sign measure')
def c04():
    return large('SIGN') + sparse_measure('SIGN') + measure('SIGN', [(5, 2, 1, 1), (3, 3, 1, 2), (6, 2, 2, 1), (7, 1, 2, 1), (25, 1, 12, 1)]) + \
        measure('SIGN', [(3, 300, 1, 1)], {'FREELINES': 2})


@check('C05', 'mag measure')
def c05():
    return large('MAG') + sparse_measure('MAG', ((5, 4, 2, 1, 5), (8, 8, 1, 2, 43), (4, 4, 1, 1, 5), (9, 4, 3, 1, 11), (12, 1, 2, 2, 13), (16, 8, 3, 1, 65), (26, 2, 12, 1, 13))) + measure('MAG', [(5, 1, 1, 1), (3, 2, 1, 1), (5, 1, 2, 1), (3, 1, 1, 2)])


@check('C06', 'orig measure')
def c06():
    return large('ORIG') + sparse_measure('ORIG', ((5, 4, 2, 1, 9), (8, 8, 1, 2, 67), (4, 4, 1, 1, 11), (9, 4, 3, 1, 37), (12, 1, 2, 2, 11), (16, 8, 3, 1, 128), (26, 2, 12, 1, 52))) + measure('ORIG', [(3, 1, 1, 1), (3, 2, 1, 1), (5, 1, 2, 1), (4, 1, 1, 1), (3, 1, 1, 2)], {'INTCOEF': 1})


@check('C07', 'zerox measure')
def c07():
    return large('ZEROX') + sparse_measure('ZEROX') + measure('ZEROX', [(3, 1, 1, 1), (3, 2, 1, 1), (5, 1, 2, 1), (4, 2, 3, 1), (3, 1, 1, 2)]) + measure('ZEROX', [(3, 300, 1, 1)], {'FREELINES': 1})


def PY(name, *make, seconds=200, weight=1, tier='quick', bounds=''):
    def fn(build):
        sys.path.insert(0, os.path.join(core.VERIF, 'pysym'))
        import run
        return run.go(make, core.REPO, core.new_result(j), seconds)
    j = PyJob(name, fn, bounds=bounds, weight=weight, tier=tier)
    j.make = make
    return j


PYA = ('The library behaves as documented (the subject of the other properties); ctypes and array behave as modelled in pysym/fake.py.',)


@check('C40', 'Python binding: calls', PYA)
def c40():
    b = 'every image kind the binding takes, one to four pixels, both files and memory, parameters any int or float or absent, methods none, named, object or unknown, every error of the library, lists of 0 to 2 sizes'
    out = [PY('constants', 'constants', bounds=b), PY('unknown', 'unknown_key', bounds=b)]
    for k in ('file', 'list', 'array', 'pointer', 'buffer'):
        for full in (False, True):
            out.append(PY('detect-%s%s' % (k, '-parameters' if full else ''), 'detect', k, full, weight=3 if k == 'file' else 1, bounds=b))
        if k != 'file':
            out.append(PY('analysis-' + k, 'analysis', [k], False, bounds=b))
    return out + [PY('analysis-parameters', 'analysis', ['list'], True, bounds=b), PY('analysis-two', 'analysis', ['list', 'array'], False, weight=3, bounds=b)]


@check('C41', 'Python binding: images', PYA)
def c41():
    b = 'images of any 64-bit size; index by any integers into buffers of five shapes; frames read, sought, closed in any order of two steps; every error of the library; malloc failing'
    out = [PY('make', 'with_dimensions', bounds=b), PY('iterate', 'iterate', bounds=b), PY('index-read', 'index', 'read', bounds=b), PY('index-made', 'index', 'made', bounds=b), PY('read', 'read_image', bounds=b)]
    for how in ('none', 'fresh', 'used', 'closed'):
        for first in (0, 1):
            out.append(PY('image-%s-%s' % (how, 'chosen' if first else 'steps'), 'image', how, first, weight=4, bounds=b))
    return out


@check('C42', 'Python binding: NumPy and Pillow', PYA + ('NumPy and Pillow behave as modelled in pysym/fakenp.py.',))
def c42():
    b = 'arrays of up to 12 elements of any value, five element types, five memory layouts, two or three axes; Pillow images of one to three frames, modes F, L, P and RGB, any current frame, frames of differing sizes; every error of the library'
    out = [PY('array-%s%s' % ('x'.join(map(str, sh)), '-parameters' if p else ''), 'np_detect', sh, p, bounds=b) for sh, p in (((2, 3), False), ((3, 2), False), ((1, 4), False), ((2, 2, 3), False), ((3, 2, 1), False), ((1, 3, 2), False), ((2, 1), True))]
    return out + [PY('array-odd', 'np_odd', bounds=b), PY('array-analysis', 'np_analysis', False, bounds=b), PY('array-frames', 'frames_of', 'resdet_numpy', 'read_image_frame_as_ndarray', bounds=b),
                  PY('pillow', 'pil_detect', False, bounds=b), PY('pillow-parameters', 'pil_detect', True, bounds=b), PY('pillow-analysis', 'pil_analysis', bounds=b), PY('pillow-frames', 'frames_of', 'resdet_PIL', 'read_image_frame_as_pil_image', bounds=b)]


TECHS = {i: 'symbolic execution of the real Python source by proxies and re-execution, every branch and assertion decided by an SMT solver (z3), over a model of ctypes and of the library\'s documented behaviour; counterexamples replayed on concrete values'
         for i in ('C40', 'C41', 'C42')}


def large(m):
    """counters past 8 and 16 bits: many lines, a long range, many frames; two or three free coefficients"""
    out = []
    cfgs = {'ORIG': ((3, 512, 1, 1), 801, 'quick'), 'ZEROX': ((3, 66000, 1, 1), 170001, 'quick')}.get(m, ((3, 66000, 1, 1), 80001, 'quick')), \
        ((522, 1, 260, 1), 301, 'quick') if m != 'ZEROX' else ((262, 1, 130, 1), 151, 'quick'), ((131, 40, 65, 1), 3001, 'quick'), ((3, 1, 1, 300), 300, 'quick')
    if m == 'ORIG':
        cfgs += ((3, 131072, 1, 1), 200001, 'thorough'),
    # ('full': the middle candidate of full confidence, so the count itself passes 16 bits)
    cfgs += ((3, 65536 if m == 'ORIG' else 66000, 1, 1), 131071, 'full'), ((3, 1, 1, 300), 300, 'full')
    for cfg, fm, tier in cfgs:
        full = {'FULL': 1} if tier == 'full' else {}
        if full:
            tier = 'quick'
        for j in measure(m, [cfg + (tier,)], {'FREEMOD': fm, **full, **(INTC if m == 'ORIG' else {})}, covers=[]):
            j.name = ('full-' if full else 'large-') + j.name
            if cfg[1] > 60000:
                j.weight, j.max_steps = 5, 120000000
            j.bounds += ' (one coefficient in %d free, the others concrete)' % fm
            out.append(j)
    return out



def shared(pid, *names):
    """jobs of another property, watched for writes to static variables of the library"""
    out = []
    for j in CHECKS[pid][1]():
        if j.name in names:
            j.shared, j.known, j.name, j.covers = True, (), '%s-%s' % (pid, j.name), []
            out.append(j)
    assert len(out) == len(names), (pid, [j.name for j in out])
    return out


@check('C46', 'no shared state')
def c46():
    out = []
    for m, fm in (('SIGN', 13), ('MAG', 29), ('ORIG', 29), ('ZEROX', 13)):
        for w, h in ((5, 4), (4, 3), (3, 7)):
            out.append(A('analysis-%s-%dx%d' % (m.lower(), w, h), 'concurrent.c', w, h, 1, 2, defs={'M': m, 'FREEMOD': fm}, shared=True, bounds='%dx%d, two analyses of two frames each by all calls, methods, parameters and images shared, one coefficient in %d any multiple of 8' % (w, h, fm)))
    for n in (1, 5, 7, 12):
        out.append(kissify(A('kiss-%dx2' % n, 'concurrent.c', n, 2, 1, 1, defs={'M': 'SIGN', 'FREEMOD': 1000, 'NIMG': 1}, shared=True, bounds='KISS FFT build, %dx2' % n)))
    return out + shared('C13', 'orig-budget1', 'sign-budget1', 'kiss-onecall') + shared('C15', 'setters-sign') + shared('C17', 'util') + \
        shared('C25', 'open-fail1') + shared('C26', 'select-all') + shared('C28', 'pgm-2x1-oom', 'pfm-1x2', 'y4m-3x2', 'y4m-3x2-oom') + shared('C23', 'pgm', 'pfm', 'y4m', 'y4m-deep') + \
        shared('C29', 'file-sign-4x3', 'mem-zerox-4x3') + shared('C27', 'png', 'png-fail', 'png-seek', 'jpeg', 'jpeg-fail') + shared('C35', 'ffmpeg', 'ffmpeg-fail') + shared('C36', 'magick', 'magick-fail') + \
        shared('C24', *[j.name for j in CHECKS['C24'][1]() if j.tier == 'quick' and 'values' in j.name or 'cut' in j.name][:6])


TRUST = 'Trusted: clang (source to LLVM IR, -O1, no contraction), this repository\'s symbolic executor and its rewriting, z3, the models of the C library and external libraries in model/. Counterexamples are believed only after they reproduce on a sanitizer build of the same sources.'


def note(pid):
    title, fn, ass, ex = CHECKS[pid]
    b = []
    for j in fn():
        if j.bounds and j.bounds not in b:
            b.append(j.bounds)
    t = 'Every assertion decided for all values within the bounds, exhaustive over paths; nothing outside the bounds is claimed. Bounds: ' + '; '.join(b[:6]) + (' (and %d more configurations, listed in the evidence)' % (len(b)-6) if len(b) > 6 else '') + '. '
    return t + ''.join(a + ' ' for a in ass) + TRUST


def main(a):
    if a and a[0] == '--selftest':
        import selftest
        return selftest.main()
    v = '-v' in a
    a = [x for x in a if x != '-v']
    sub = None
    if '-j' in a:
        i = a.index('-j')
        sub = a[i + 1]
        del a[i:i + 2]
    if a and a[0] == '--replay':
        return do_replay(a[1])
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t, fn, ass, ex = CHECKS[pid]
    jobs = fn()
    if sub:
        jobs = [j for j in jobs if sub in j.name]
    return run_check(pid, t, tier, jobs, ass, ex or t, v)


def do_replay(path):
    d = json.load(open(path))
    jobs = [j for j in CHECKS[d['property']][1]() if j.name == d['job']]
    if isinstance(jobs[0], PyJob):
        sys.path.insert(0, os.path.join(core.VERIF, 'pysym'))
        import run
        got = run.replay(jobs[0].make, core.REPO, d['values'])
        print(got or 'did not reproduce')
        return 1 if got else 0
    build = core.Build('replay')
    try:
        desc, last = core.replay(build.native(jobs[0]), d['values'], build.dir)
        print(desc or ('did not reproduce: ' + last))
        return 1 if desc else 0
    finally:
        build.close()
