"""RmsVad: energy based voice activity decision (C18)."""
from dv.contract import *
from dv.lib import *
SRC = ('rms_vad.cc',)
THR = Fl(5000.0)

def rms(ch): return fop('fsqrt', fop('fdiv', fsum(ch.n, lambda k: fpow(i2f(at(ch, k)), Fl(2.0))), i2f(ch.n)))
def seqapp(s, n, f):
    """s followed by n elements f(0..n-1)"""
    return mkseq(add(s.n, n), lambda i: ite(eq(i, s.n), f(ZERO), at(s, i)) if n is ONE else ite(lt(i, s.n), at(s, i), f(sub(i, s.n))))

@contract('Visqol::RmsVad::CalcRootMeanSquare', sources=SRC)
def _(c):
    c.result(rms(c.arg(0)))

@contract('Visqol::RmsVad::ProcessChunk', sources=SRC)
def _(c):
    r = rms(c.arg(0))
    c.result(r)
    c.set('each_chunk_result_', seqapp(c.t('each_chunk_result_'), ONE, lambda i: ite(fcmp('lt', r, THR), Fl(0.0), Fl(1.0))))

@contract('Visqol::RmsVad::CheckPreviousChunksForSilence', sources=SRC)
def _(c):
    e, i = c.t('each_chunk_result_'), c.arg(0)
    c.req('two earlier chunks exist', and_(le(I(2), i), le(i, e.n)))
    c.result(and_(not_(fcmp('eq', at(e, sub(i, ONE)), Fl(1.0))), not_(fcmp('eq', at(e, sub(i, I(2))), Fl(1.0)))))

def inv(v):
    """the results kept from construction or an earlier call start with 'voiced'"""
    return and_(implies(lt(ZERO, v.n), eq(at(v, ZERO), Fl(1.0))), implies(lt(ONE, v.n), eq(at(v, ONE), Fl(1.0))))

@contract('Visqol::RmsVad::RmsVad', sources=SRC)
def _(c):
    c.ens('no chunk recorded yet', lambda p: eq(p['each_chunk_result_'].n, ZERO))
    c.ens('object invariant established', lambda p: inv(p['vad_results_']))
    c.havoc('*')

def decisions(e):
    """a chunk is silent when it and the two before it are below the threshold"""
    silent = lambda k: fcmp('eq', at(e, k), Fl(0.0))
    quiet = lambda k: not_(fcmp('eq', at(e, k), Fl(1.0)))
    return mkseq(e.n, lambda i: ite(and_(le(I(2), i), silent(i), quiet(sub(i, ONE)), quiet(sub(i, I(2)))), Fl(0.0), Fl(1.0)))

@contract('Visqol::RmsVad::GetVadResults', sources=SRC)
def _(c):
    e, v = c.t('each_chunk_result_'), c.t('vad_results_')
    c.req('object invariant', inv(v))
    out = decisions(e)
    c.set('vad_results_', out)
    c.result(out)
    c.ens('object invariant kept', lambda p: inv(p['vad_results_']))

from contracts.registry import prop
V = 'Visqol::RmsVad::'
prop('C18', [V + n for n in ('RmsVad', 'CalcRootMeanSquare', 'ProcessChunk', 'CheckPreviousChunksForSilence', 'GetVadResults')],
     harness=dict(file='C18.cc', sources=['rms_vad.cc']))
