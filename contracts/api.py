"""The API session (C06)."""
from dv.contract import *
from dv.lib import *
from dv.libx import CWD
from dv import terms as T
from contracts.misc import *
from contracts import manager as M
from contracts.registry import OPTS, prop
from contracts.cli import default_model
AP = V + 'VisqolApi::'
APS = ('visqol_api.cc', 'commandline_parser.cc') + M.MG
INIT = M.VM + 'Init|const FilePath'
@contract(AP + 'Create', sources=APS)
def _(c):
    g = c.arg(0)
    a, o = g.f['audio'], g.f['options']
    has, opt = g.f['has_audio'], g.f['has_options']
    sr = a.f['sample_rate']
    given = lambda k, d: ite(opt, o.f[k], d)
    speech, override = given('use_speech_scoring', FALSE), given('allow_unsupported_sample_rates', FALSE)
    path = given('svr_model_path', S(''))
    radius = given('search_window_radius', ZERO)
    bad = or_(not_(has), eq(sr, ZERO), and_(not_(eq(sr, I(48000))), not_(speech), not_(override)))
    opts = [speech, given('use_unscaled_speech_mos_mapping', FALSE), ite(eq(radius, ZERO), I(60), radius), given('use_lattice_model', TRUE), FALSE, FALSE]
    model = SV(V + 'FilePath', {'path_': ite(eq(path, S('')), default_model(speech), path)})
    code = lambda p: p.res.f['code']
    c.havoc('sample_rate_')
    c.ens('the rate of the configuration is used', lambda p: implies(not_(bad), eq(p['sample_rate_'], imod(sr, I(1 << 64)))))
    c.ens('invalid argument for an unusable configuration', lambda p: implies(bad, eq(code(p), I(3))))
    c.ens('else the engine is initialised with the configured options', lambda p: implies(not_(bad), and_(*[iff(p['visqol_.' + k], v) if v.sort == 'B' else eq(p['visqol_.' + k], v) for k, v in zip(M.OPT, opts)])))
    c.ens('else the status of the engine', lambda p: implies(not_(bad), iff(eq(code(p), ZERO), p['visqol_.is_initialized_'])))
    c.havoc('visqol_')
    own = c.e.uf_value(c.st, 'absl::Status', 'fn:' + INIT, [handle(c.this0.f['visqol_']), handle(model)] + opts)
    c.ens('else the status is the one the engine gives for that model and these options', lambda p: implies(not_(bad), eq(code(p), own.f['code'])))
RUN = M.VM + 'Run|const AudioSignal'
@contract(AP + 'Measure', sources=APS)
def _(c):
    r, d = c.arg(0), c.arg(1)
    sr = c.t('sample_rate_')
    c.req('signals of fewer than 2^29 samples', and_(lt(r.n, I(1 << 29)), lt(d.n, I(1 << 29))))
    c.req('a sample rate below 2^30', and_(lt(ZERO, sr), lt(sr, M.SMALL)))
    sg = lambda x: audio(mkmat(x.n, ONE, lambda i, j: at(x, i)), sr)
    want = c.e.uf_value(c.st, 'absl::StatusOr<Visqol::SimilarityResultMsg>', 'fn:' + RUN, [handle(c.this0.f['visqol_']), handle(sg(r)), handle(sg(d))])
    c.ens('status of the comparison of the two signals', lambda p: eq(p.res.f['status'].f['code'], want.f['status'].f['code']))
    c.ens('message of the comparison of the two signals', lambda p: implies(eq(want.f['status'].f['code'], ZERO), veq_goal(want.f['val'], p.res.f['val'])))
OPTS[AP + 'Measure'] = dict(assume_pre=[RUN])

from contracts.registry import ENGINE
ENV = ['the messages are records of the fields in the .proto files; accessors read and write exactly their field', 'log output has no effect']
prop('C06', [AP + 'Create', AP + 'Measure'], harness=dict(file='C06.cc', sources=ENGINE), sources=('amatrix.cc',),
     assumptions=ENV + ['sessions compare signals of fewer than 2^29 samples at rates below 2^30 Hz'])
