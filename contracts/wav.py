"""WAV input (C01-C03)."""
from dv.contract import *
from dv.lib import *
from dv.libw import *
from dv.libw import byte, le_uint
from dv import terms as T
from contracts.misc import V, audio, sig, rate
from contracts.registry import OPTS, prop
WR = V + 'WavReader::'
WAV = ('wav_reader.cc',)
def u16(D, p): return le_uint(None, D, p, 2)
def u32(D, p): return le_uint(None, D, p, 4)
def tag(D, p, s): return and_(*[eq(at(D, add(p, I(i))), I(ord(c))) for i, c in enumerate(s)])
# ---- the chunk search: position of the first chunk, from p on, that is the data chunk, is truncated, or does not lie inside the stream
def find(D, p): return T.app('wav.find', (handle(D), p), 'I')
def stop(D, p): return or_(lt(D.n, add(p, I(8))), tag(D, p, 'data'), lt(D.n, add(p, I(8), u32(D, add(p, I(4))))))
def unfold(D, p): return eq(find(D, p), ite(stop(D, p), p, find(D, add(p, I(8), u32(D, add(p, I(4)))))))
def layout(D):
    """(supported, position of the data chunk's samples, channels, sample rate, payload bytes) of the bytes D"""
    N = D.n
    F, fmt, ch, sr, bits = u32(D, I(16)), u16(D, I(20)), u16(D, I(22)), u32(D, I(24)), u16(D, I(34))
    ext = not_(eq(F, I(16)))
    p1 = ite(ext, add(I(38), u16(D, I(36))), I(36))
    fact = eq(fmt, I(0xfffe))
    p2 = ite(fact, add(p1, I(8), u32(D, add(p1, I(4)))), p1)
    q = find(D, p2)
    size = u32(D, add(q, I(4)))
    ok = and_(le(I(36), N), tag(D, ZERO, 'RIFF'), tag(D, I(8), 'WAVE'), tag(D, I(12), 'fmt '), le(I(16), F), implies(ext, and_(le(I(38), N), le(p1, N))),
        or_(fact, eq(fmt, ONE)), implies(fact, and_(le(add(p1, I(8)), N), tag(D, p1, 'fact'), le(p2, N))), eq(bits, I(16)), not_(eq(ch, ZERO)),
        le(add(q, I(8)), N), tag(D, q, 'data'), not_(eq(size, ZERO)), eq(imod(size, I(2)), ZERO))
    return ok, p2, q, ch, sr, size
def at_start(v): return and_(good(v), eq(v.f['pos'], ZERO))
def reader(e, st, tv):
    st.vars['stream'] = e.build('std::istream', lambda k, path, bs, so: T.app('S' + path, bs, so) if bs else T.var('S' + path, so))
    e.gfact(stream_inv(st.vars['stream']))
    return SV(tv.type, {**tv.f, 'binary_stream_': Ptr(LV('stream'), FALSE)})
def stream(c): return c.e.load(c.st, c.place('binary_stream_.*'))
PARSED = ('num_channels_', 'sample_rate_hz_', 'num_total_samples_', 'num_remaining_samples_', 'bytes_per_sample_', 'pcm_offset_bytes_')
def described(c, p, D, g, post=lambda p, nm: p[nm]):
    ok, p2, q, ch, sr, size = layout(D)
    ok = and_(g, ok)
    n = idiv(size, I(2))
    v = lambda nm: post(p, nm)
    return ok, and_(eq(v('num_channels_'), ch), eq(v('sample_rate_hz_'), ite(le(I(1 << 31), sr), sub(sr, I(1 << 32)), sr)), eq(v('num_total_samples_'), n), eq(v('num_remaining_samples_'), n), eq(v('bytes_per_sample_'), I(2)), eq(v('pcm_offset_bytes_'), add(q, I(8)))), q
@contract(WR + 'ParseHeader', sources=WAV)
def _(c):
    s0 = stream(c)
    D = s0.f['data']
    c.req('a stream at its beginning, or one that cannot be read', or_(not_(good(s0)), eq(s0.f['pos'], ZERO)))
    c.req('a stream', stream_inv(s0))
    c.req('the length of the stream', implies(good(s0), eq(c.t('bytes_in_stream_'), D.n)))
    ok, p2, q0, ch, sr, size = layout(D)
    ok = and_(good(s0), ok)
    if c.mode == 'body':
        c.e.gfact(unfold(D, p2))
        def inv(h, s, k):
            p = sub(s.f['pos'], I(8))
            H = h.f['data'].f['header'].f
            nx = add(p, I(8), u32(D, add(p, I(4))))
            for x in (p, nx):
                c.e.gfact(unfold(D, x))
                for j in range(8): byte(c.e, D, add(x, I(j)))
            cid = H['id']
            return and_(good(s), le(add(p2, T.mulc(8, k)), p), le(s.f['pos'], D.n), eq(find(D, p), find(D, p2)), eq(H['size'], u32(D, add(p, I(4)))),
                *[eq(at(cid, I(j)), le_s8(at(D, add(p, I(j))))) for j in range(4)])
        c.inv(('header', 'stream'), inv, lambda st: D.n)
    for nm in PARSED: c.havoc(nm)
    for nm in ('pos', 'eof', 'fail', 'gcount'): c.havoc('binary_stream_.*.' + nm)
    c.ens('accepted exactly when supported', lambda p: iff(p.res, ok))
    c.ens('described as the header says', lambda p: implies(ok, described(c, p, D, good(s0))[1]))
    c.ens('ready to read the first sample', lambda p: implies(ok, and_(good(p['binary_stream_.*']), eq(p['binary_stream_.*'].f['pos'], add(q0, I(8))), le(I(44), p['binary_stream_.*'].f['pos']))))
    c.ens('position inside the stream', lambda p: and_(le(ZERO, p['binary_stream_.*'].f['pos']), le(p['binary_stream_.*'].f['pos'], D.n)))
    c.req('counts are sizes', and_(le(ZERO, c.t('num_total_samples_')), le(ZERO, c.t('num_channels_'))))
    c.ens('counts are sizes', lambda p: and_(le(ZERO, p['num_total_samples_']), le(ZERO, p['num_channels_'])))
def le_s8(b): return ite(le(I(128), b), sub(b, I(256)), b)
REG[WR + 'ParseHeader'][0].this_setup = reader

def new_stream(e, st):
    st.vars['stream'] = e.build('std::istream', lambda k, path, bs, so: T.app('S' + path, bs, so) if bs else T.var('S' + path, so))
    e.gfact(stream_inv(st.vars['stream']))
    return Ptr(LV('stream'), FALSE)
@contract(WR + 'GetCountOfBytesInStream', sources=WAV)
def _(c):
    s0 = stream(c)
    g = good(s0)
    c.req('a stream', stream_inv(s0))
    c.result(ite(g, s0.f['data'].n, ZERO))
    c.set('binary_stream_.*.pos', ite(g, ZERO, s0.f['pos']))        # and rewound
REG[WR + 'GetCountOfBytesInStream'][0].this_setup = reader
@contract(WR + 'WavReader', sources=WAV)
def _(c):
    s0 = c.arg(0)
    D = s0.f['data']
    c.req('a stream', stream_inv(s0))
    c.set('binary_stream_', c.raw(0))
    for nm in PARSED + ('init_', 'bytes_in_stream_'): c.havoc(nm)
    for nm in ('pos', 'eof', 'fail', 'gcount'): c.havoc('#0.*.' + nm)
    ok, p2, q, ch, sr, size = layout(D)
    for j in range(4): byte(c.e, D, add(q, I(4 + j)))
    ok = and_(good(s0), ok)
    c.ens('accepted exactly when supported', lambda p: iff(p['init_'], ok))
    c.ens('described as the header says', lambda p: implies(ok, described(c, p, D, good(s0))[1]))
    c.ens('ready to read the first sample', lambda p: implies(ok, and_(good(p['#0.*']), eq(p['#0.*'].f['pos'], add(q, I(8))), le(p['#0.*'].f['pos'], D.n))))
    c.ens('the stream stands at the first sample of the data chunk', lambda p: implies(ok, position({nm: p[nm] for nm in PARSED}, p['#0.*'])))
    c.ens('position inside the stream', lambda p: and_(le(ZERO, p['#0.*'].f['pos']), le(p['#0.*'].f['pos'], D.n)))
    c.ens('counts are sizes', lambda p: and_(le(ZERO, p['num_total_samples_']), le(ZERO, p['num_channels_'])))
REG[WR + 'WavReader'][0].setup = lambda e, st: [new_stream(e, st)]
def position(v, s):
    """class invariant of an accepted reader: the stream stands at the first sample not yet delivered, unless it ended early"""
    left, tot, pcm = v['num_remaining_samples_'], v['num_total_samples_'], v['pcm_offset_bytes_']
    return and_(eq(v['bytes_per_sample_'], I(2)), le(ZERO, left), le(left, tot), lt(tot, I(1 << 32)), le(ZERO, pcm), lt(pcm, I(1 << 48)), implies(good(s), eq(s.f['pos'], add(pcm, T.mulc(2, sub(tot, left))))))
def int16(D, p): return libw_le_int(D, p)
def libw_le_int(D, p):
    u = u16(D, p)
    return ite(le(I(1 << 15), u), sub(u, I(1 << 16)), u)
@contract(WR + 'ReadSamples', sources=WAV)
def _(c):
    want, left = c.arg(0), c.t('num_remaining_samples_')
    s0 = stream(c)
    D, N = s0.f['data'], s0.f['data'].n
    tgt = c.e.load(c.st, c.place('#1.*'))
    c.req('a stream', stream_inv(s0))
    c.req('room for the samples asked for', and_(le(ZERO, want), le(want, tgt.n), lt(want, I(1 << 40))))
    c.req('an accepted stream', position(c.this0.f, s0))
    avail = ite(good(s0), idiv(sub(N, s0.f['pos']), I(2)), ZERO)
    n = imin(imin(want, left), avail)
    c.result(n)
    c.set('num_remaining_samples_', sub(left, n))
    if c.mode == 'body': c.clobber('#1.*')
    else:                                    # what the clauses below say, as a value
        el = lambda i: ite(and_(le(ZERO, i), lt(i, n)), int16(D, add(first_, T.mulc(2, i))), ite(le(imin(want, left), i), at(tgt, i), T.app(fresh, (i,), 'I')))
        fresh = c.e.new('unread!')
        first_ = add(c.t('pcm_offset_bytes_'), T.mulc(2, sub(c.t('num_total_samples_'), left)))
        c.set('#1.*', mkseq(tgt.n, el))
    for nm in ('pos', 'eof', 'fail', 'gcount'): c.havoc('binary_stream_.*.' + nm)
    i = bv('I', 'i')
    first_ = add(c.t('pcm_offset_bytes_'), T.mulc(2, sub(c.t('num_total_samples_'), left)))
    c.ens('the next samples of the data chunk in order', lambda p: forall([i], implies(and_(le(ZERO, i), lt(i, n)), eq(at(p['#1.*'], i), int16(D, add(first_, T.mulc(2, i)))))))
    c.ens('nothing is written beyond the samples asked for', lambda p: forall([i], implies(and_(le(imin(want, left), i), lt(i, tgt.n)), eq(at(p['#1.*'], i), at(tgt, i)))))
    c.ens('the stream stands at the next sample', lambda p: position({**c.this0.f, 'num_remaining_samples_': p['num_remaining_samples_']}, p['binary_stream_.*']))
    c.ens('position inside the stream', lambda p: and_(le(ZERO, p['binary_stream_.*'].f['pos']), le(p['binary_stream_.*'].f['pos'], N)))
def target(e, st):
    iv = bv('I', 'i')
    n = T.var('target.n', 'I'); want = T.var('a0', 'I')
    e.gfact(and_(le(ZERO, n), lt(n, I(1 << 48)))); e.gfact(and_(le(ZERO, want), lt(want, I(1 << 64))))
    st.vars['target'] = Seq(n, iv, T.app('target', (iv,), 'I'))
    return [want, It(LV('target'), ZERO)]
REG[WR + 'ReadSamples'][0].this_setup = reader
REG[WR + 'ReadSamples'][0].setup = target
for nm, f in (('GetNumTotalSamples', 'num_total_samples_'), ('GetNumChannels', 'num_channels_'), ('GetSampleRateHz', 'sample_rate_hz_'), ('IsHeaderValid', 'init_')):
    contract(WR + nm, sources=WAV)(lambda c, f=f: c.result(c.t(f)))

# ---- C03: de-interleaving, down-mix, loading
LOAD = ('misc_audio.cc', 'misc_math.cc', 'wav_reader.cc', 'amatrix.cc')
MA = V + 'MiscAudio::'
@contract(MA + 'ExtractMultiChannel', sources=LOAD)
def _(c):
    C, v = c.arg(0), c.arg(1)
    c.req('at least one channel', lt(ZERO, C))
    c.req('a vector', lt(v.n, I(1 << 32)))
    c.result(mkseq(C, lambda ch: mkseq(idiv(v.n, C), lambda s: at(v, add(mul(s, C), ch)))))
def mono(m):
    mix = lambda r: fop('fdiv', fsum(m.c, lambda ch: mat(m, r, ch)), i2f(m.c))
    return vite(lt(ONE, m.c), mkmat(m.r, ONE, lambda r, k: mix(r)), m)
@contract(MA + 'ToMono', 'AMatrix<double> (', sources=LOAD)
def _(c): c.result(mono(c.arg(0)))
@contract(MA + 'ToMono', 'AudioSignal (', sources=LOAD)
def _(c):
    a = c.arg(0)
    c.result(audio(mono(sig(a)), rate(a)))

def loaded(D, q, ch, sr, size):
    n = idiv(size, I(2))
    smp = lambda i: fop('fdiv', i2f(int16(D, add(q, I(8), T.mulc(2, i)))), Fl(32768.0))
    return audio(mono(mkmat(idiv(n, ch), ch, lambda s, k: smp(add(mul(s, ch), k)))), sr), lt(sr, I(1 << 31))
def load_spec(s0, e=None):
    D, N = s0.f['data'], s0.f['data'].n
    ok, p2, q, ch, sr, size = layout(D)
    ok = and_(good(s0), ok)
    if e is not None:
        for x in [I(j) for j in range(16, 36)] + [add(q, I(4 + j)) for j in range(4)]: byte(e, D, x)
    some = and_(ok, le(add(q, I(10)), N))                    # at least one sample
    complete = and_(ok, le(add(q, I(8), size), N))
    return some, complete, *loaded(D, q, ch, sr, size)
EMPTY_SIGNAL = lambda: audio(mkmat(ZERO, ZERO, lambda r, k: Fl(0.0)), ZERO)
@contract(MA + 'LoadAsMono', 'stringstream', sources=LOAD)
def _(c):
    s0 = c.arg(0)
    c.req('a stream at its beginning', and_(stream_inv(s0), or_(not_(good(s0)), eq(s0.f['pos'], ZERO))))
    for nm in ('pos', 'eof', 'fail', 'gcount'): c.havoc('#0.*.' + nm)
    some, complete, a, fits = load_spec(s0, c.e)
    c.ens('a stream that cannot be parsed or holds no sample gives an empty signal', lambda p: implies(not_(some), veq_goal(p.res, EMPTY_SIGNAL())))
    c.ens('one mono sample per frame: the mean over the channels of the 16-bit samples / 32768', lambda p: implies(complete, veq_goal(sig(p.res), sig(a))))
    c.ens('at the rate of the header', lambda p: implies(and_(complete, fits), eq(rate(p.res), rate(a))))
REG[MA + 'LoadAsMono'][-1].setup = lambda e, st: [new_stream(e, st), e.build('absl::optional<std::string>', lambda k, path, bs, so: T.app('a1' + path, bs, so) if bs else T.var('a1' + path, so))]
@contract(MA + 'LoadAsMono', 'FilePath', sources=LOAD)
def _(c):
    path = c.arg(0).f['path_']
    s0 = file_stream(path)
    c.e.gfact(file_inv(path))
    some, complete, a, fits = load_spec(s0, c.e)
    c.ens('a file that cannot be read or parsed, or holds no sample, gives an empty signal', lambda p: implies(not_(some), veq_goal(p.res, EMPTY_SIGNAL())))
    c.ens('one mono sample per frame: the mean over the channels of the 16-bit samples / 32768', lambda p: implies(complete, veq_goal(sig(p.res), sig(a))))
    c.ens('at the rate of the header', lambda p: implies(and_(complete, fits), eq(rate(p.res), rate(a))))

FILES = 'an input stream delivers the bytes of its buffer in order (unformatted input of the C++ standard library); the bytes of a file do not change during a call; streams and files are shorter than 2^48 bytes'
LITTLE = 'the target is little-endian with 8-bit bytes and the record layout clang reports (as on this machine)'
LW = dict(sources=['misc_audio.cc', 'amatrix.cc', 'misc_math.cc', 'wav_reader.cc', 'spectrogram.cc'])
prop('C01', [WR + k for k in ('WavReader', 'ParseHeader', 'GetCountOfBytesInStream', 'GetNumTotalSamples', 'GetNumChannels', 'GetSampleRateHz', 'IsHeaderValid')],
     harness=dict(file='C01.cc', san=True, **LW), assumptions=[FILES, LITTLE])
prop('C02', [WR + 'ReadSamples', WR + 'WavReader', WR + 'GetNumTotalSamples'], harness=dict(file='C02.cc', san=True, **LW), assumptions=[FILES, LITTLE, 'requests are below 2^40 samples'])
prop('C03', [MA + 'ExtractMultiChannel', MA + 'ToMono|AMatrix<double> (', MA + 'ToMono|AudioSignal (', MA + 'LoadAsMono|stringstream', MA + 'LoadAsMono|FilePath', V + 'MiscMath::NormalizeInt16ToDouble'],
     harness=dict(file='C03.cc', **LW), assumptions=[FILES, LITTLE])
