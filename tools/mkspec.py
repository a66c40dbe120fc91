#!/usr/bin/env python3
"""Writes the table-driven driver files of /verif/spec (gen_*.go).

The table below is the documented interface of the indicators; nothing here is read from
/repo. Drivers whose names no longer type-check are dropped (and counted) by the checker."""
import os

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')

# name, package, constructor parameters "name:type=default", public fields by parameter
# (or None), signal rule, look-back of the rule, OHLC constructor, pointer data
T = [
    # channel
    dict(n='Boll', p='channel', a='n:int=20 w:int=2', f='PeriodN PeriodK', s='boll'),
    dict(n='DonchianChannel', p='channel', a='n:int=20', f='Period', s='middle'),
    dict(n='KeltnerChannel', p='channel', a='n:int=20', f='Period', s='middle'),
    dict(n='UlcerIndex', p='channel', a='n:int=14', f='Period'),
    # oscillator
    dict(n='AbsolutePriceOscillator', p='oscillator', a='', f='', s='zero', nodef=True, fixed='FastPeriod=14 SlowPeriod=30'),
    dict(n='AwesomeOscillator', p='oscillator', a='', f='', s='zero', nodef=True),
    dict(n='Camarilla', p='oscillator', a='n:int=8', f='EMAPeriod', s='camarilla', ptr=True),
    dict(n='ChaikinOscillator', p='oscillator', a='f:int=3 s:int=10', f='FastPeriod SlowPeriod', s='zero'),
    dict(n='IchimokuCloud', p='oscillator', a='c:int=20 b:int=60 g:int=120', f='ConversionPeriod LeadingSpanBPeriod LaggingLinePeriod', s='ichimoku', look='c'),
    dict(n='PercentagePriceOscillator', p='oscillator', a='f:int=12 s:int=26 g:int=9', f='FastPeriod SlowPeriod SignalPeriod', s='cross PPO Signal'),
    dict(n='ProjectionOscillator', p='oscillator', a='n:int=13 s:int=3', f='Period Smooth', s='level Po Spo'),
    dict(n='StochasticOscillator', p='oscillator', a='n:int=14', f='Period', s='cross K D'),
    dict(n='VolumeOscillator', p='oscillator', a='s:int=5 g:int=10', f='ShortLength LongLength'),
    dict(n='WilliamsR', p='oscillator', a='n:int=14', f='Period', s='under -80 over -20'),
    # trend
    dict(n='AiCoinCCI', p='trend', a='n:int=20', f='Period', s='under -100 over 100'),
    dict(n='Atr', p='trend', a='n:int=14', f='Period'),
    dict(n='AverageDirectionalIndex', p='trend', a='n:int=30 g:int=14', f='Period Len', ohlc=True),
    dict(n='BreakoutProbability', p='trend', a='q:float64=1.2 n:int=5', f='PercentageStep -', ohlc=True),
    dict(n='Cci', p='trend', a='n:int=20 s:int=20', f='Period SMAPeriod', s='under -100 over 100'),
    dict(n='Dema', p='trend', a='n:int=20', f='Period', ohlc=True, ptr=True),
    dict(n='EMAVegas', p='trend', a='n:int=12 s1:int=144 s2:int=169 g1:int=575 g2:int=676', f='Period PeriodShort1 PeriodShort2 PeriodLong1 PeriodLong2', s='vegas', look='11', ohlc=True),
    dict(n='Ema', p='trend', a='n:int=5', f='Period'),
    dict(n='Kdj', p='trend', a='n:int=9', f='Period', s='kdj'),
    dict(n='LinearRegressionCandles', p='trend', a='g:int=7 n:int=11 sma:bool=true', f='SignalSmoothing LinearRegressionLength SMASignal', ohlc=True),
    dict(n='Ma', p='trend', a='n:int=20', f='Period'),
    dict(n='Macd', p='trend', a='s:int=12 g:int=9 l:int=26', f='PeriodShort PeriodSignal PeriodLong', s='macd'),
    dict(n='PivotPointSuperTrend', p='trend', a='n:int=3 a:int=8 w:float64=2.8', f='Period AtrPeriod AtrFactor', s='begin', ohlc=True),
    dict(n='ReversalSignals', p='trend', a='', f='', nodef=True, nopts=True),
    dict(n='Rma', p='trend', a='n:int=13', f='Period'),
    dict(n='Rsi', p='trend', a='n:int=14', f='Period', s='rsi'),
    dict(n='Sma', p='trend', a='n:int=9', f='Period'),
    dict(n='StochRsi', p='trend', a='sk:int=3 sd:int=3 rl:int=14 sl:int=14', f='SmoothK SmoothD RsiLength StochLength', s='cross K D'),
    dict(n='StochasticHeat', p='trend', a='inc:int=8 sf:int=7 ss:int=26 pn:int=25 ma:types.MATypes=types.WMA', f='Increment SmoothFast SmoothSlow PlotNum MATypes', s='cross Slow Fast'),
    dict(n='SuperTrend', p='trend', a='a:int=10 w:int=3 ch:bool=true', f='AtrPeriod AtrMultiplier ChangeAtr', s='begin', ohlc='hl2'),
    dict(n='TraderXO', p='trend', a='f:int=12 s:int=25', f='FastPeriod SlowPeriod', s='xo', ohlc=True),
    dict(n='UTBot', p='trend', a='n:int=2 a:int=1', f='Period AtrPeriod', s='utbot', ohlc=True),
    dict(n='Vortex', p='trend', a='n:int=9', f='Period'),
    # volume
    dict(n='AccumulationDistribution', p='volume', a='', f=''),
    dict(n='ChaikinMoneyFlow', p='volume', a='n:int=20', f='Period'),
    dict(n='EaseOfMovement', p='volume', a='n:int=14', f='Period'),
    dict(n='ForceIndex', p='volume', a='n:int=13', f='Period'),
    dict(n='MoneyFlowIndex', p='volume', a='n:int=14', f='Period', s='under 10 over 90'),
    dict(n='NegativeVolumeIndex', p='volume', a='', f=''),
    dict(n='Obv', p='volume', a='', f='', nodef=True),
    dict(n='VolumePriceTrend', p='volume', a='n:int=14', f='Period'),
    dict(n='Vwma', p='volume', a='n:int=5', f='Period'),
]

# value accessors: indicator, accessor, fields of its results
ACC = [
    ('StochasticOscillator', 'GetValues', 'K D'), ('VolumeOscillator', 'GetValues', 'Value'),
    ('AiCoinCCI', 'GetValue', 'Value'), ('Atr', 'GetValues', 'TR Atr'), ('Cci', 'GetValue', 'Value'),
    ('Dema', 'GetValues', 'Value'), ('Ema', 'GetValues', 'Value'),
    ('Kdj', 'GetListK', 'K'), ('Kdj', 'GetListD', 'D'), ('Kdj', 'GetListJ', 'J'),
    ('LinearRegressionCandles', 'GetValues', 'Signal'),
    ('Macd', 'GetDifs', 'DIF'), ('Macd', 'GetMACDs', 'Macd'),
    ('PivotPointSuperTrend', 'GetValues', 'UpTrend DownTrend'), ('Rsi', 'GetValue', 'Value'),
    ('Sma', 'GetValues', 'Value'), ('SuperTrend', 'GetValues', 'UpTrend DownTrend'),
    ('TraderXO', 'GetValues', 'Fast Slow'), ('UTBot', 'GetValues', 'Value'),
    ('AccumulationDistribution', 'GetValues', 'Value'),
]

TT = []
for d in T:
    d['id'] = d['n']
    if 'MATypes=' in d['a']:
        for m in ('EMA', 'SMA', 'WMA'):
            x = dict(d)
            x['id'] += '_' + m
            x['const'] = {'ma': 'types.' + m}
            x['nodef'] = m != 'WMA'
            TT.append(x)
    else:
        TT.append(d)
T = TT
# parameter names the drivers use for something else
RENAME = {x: x + '0' for x in 'askcqdei'}
for d in T:
    d['params'] = [(RENAME.get(x.split(':')[0], x.split(':')[0]), x.split(':')[1].split('=')[0], x.split('=')[1]) for x in d['a'].split()]
    if 'look' in d:
        d['look'] = RENAME.get(d['look'], d['look'])


def decl(d, extra=''):
    return 'k *klines.Item' + ''.join(', %s %s' % (a, t) for a, t, _ in d['params'] if a not in d.get('const', {})) + extra


def args(d):
    return ''.join(', ' + d.get('const', {}).get(a, a) for a, _, _ in d['params'])


def pre(d):
    s = ''
    for a, t, _ in d['params']:
        if t == 'int':
            s += '\tAssume(%s >= 1)\n' % a
        if t == 'float64':
            s += '\tAssume(%s > 0)\n' % a
    return s


def ctor(d, k='k'):
    if d.get('fix'):
        return '%s.NewDefault%s(%s)' % (d['p'], d['n'], k)
    return '%s.New%s(%s%s)' % (d['p'], d['n'], k, args(d))


def dtype(d):
    return ('*' if d.get('ptr') else '') + '%s.%sData' % (d['p'], d['n'])


def head(body):
    imps = ['time']
    used = [p for p in imps if p + '.' in body]
    mods = [('channel', 'channel'), ('oscillator', 'oscillator'), ('trend', 'trend'), ('volume', 'volume'),
            ('utils.', 'utils'), ('klines', 'utils/klines'), ('types.', 'utils/types')]
    lines = ['"%s"' % p for p in used]
    for key, path in mods:
        key = key if key.endswith('.') else key + '.'
        if key in body.replace('stockindicator', ''):
            lines.append('"github.com/idoall/stockindicator/%s"' % path)
    return '// Code generated by tools/mkspec.py. DO NOT EDIT.\n\npackage zzverif\n\nimport (\n' + ''.join('\t%s\n' % l for l in lines) + ')\n\n'


# drivers too heavy for every change; their EMA and WMA siblings run in both tiers
HEAVY = {'C02_StochasticHeat_SMA', 'C04_StochasticHeat_SMA_signal', 'C04_StochasticHeat_WMA_signal', 'C06_StochasticHeat_SMA'}


def emit(name, body):
    for h in HEAVY:
        body = body.replace('func %s(' % h, '//zz:thorough\nfunc %s(' % h)
    with open(os.path.join(OUT, name), 'w') as f:
        f.write(head(body) + body)


def c01():
    o = ''
    for d in T:
        if d.get('nopts'):
            continue
        o += 'func C01_%s(%s) (points, candles int, at, wantAt time.Time) {\n%s' % (d['id'], decl(d, ', i int'), pre(d))
        o += '\td := %s.GetData()\n\tAssume(i >= 0 && i < len(k.Candles))\n' % ctor(d)
        o += '\treturn len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)\n}\n\n'
    emit('gen_c01.go', o)


def c02():
    o = ''
    for d in T:
        if d['n'] == 'BreakoutProbability':
            d = dict(d, params=[], const={}, fix=True)
        o += 'func C02_%s(%s) (again, once []%s) {\n%s' % (d['id'], decl(d), dtype(d), pre(d))
        o += '\ta := %s\n\ta.Calculation()\n' % ctor(d)
        o += '\tone := %s.GetData()\n' % ctor(d)
        if d.get('s') and d['s'] != 'camarilla':
            o += '\ta.AnalysisSide()\n'
        o += '\ta.Calculation()\n\treturn a.GetData(), one\n}\n\n'
    emit('gen_c02.go', o)


def c04():
    o = ''
    for d in T:
        if d.get('nopts'):
            continue
        o += 'func C04_%s(%s) (full, prefix %s) {\n%s' % (d['id'], decl(d, ', i, m int'), dtype(d), pre(d))
        o += '\tAssume(i >= 0 && i < m && m <= len(k.Candles))\n'
        o += '\tq := *k\n\tq.Candles = k.Candles[:m]\n'
        o += '\treturn %s.GetData()[i], %s.GetData()[i]\n}\n\n' % (ctor(d), ctor(d, '&q'))
        if d.get('s') and d['s'] not in ('camarilla',):
            o += 'func C04_%s_signal(%s) (full, prefix utils.Side) {\n%s' % (d['id'], decl(d, ', i, m int'), pre(d))
            o += '\tAssume(i >= 0 && i < m && m <= len(k.Candles))\n'
            o += '\tq := *k\n\tq.Candles = k.Candles[:m]\n'
            o += '\treturn %s.AnalysisSide().Data[i], %s.AnalysisSide().Data[i]\n}\n\n' % (ctor(d), ctor(d, '&q'))
    emit('gen_c04.go', o)


def c05():
    o = ''
    for d in T:
        if not d.get('s'):
            continue
        xa = 'k' if d['s'] == 'camarilla' else ''
        o += 'func C05_%s(%s) (signals, candles int, warm, hold utils.Side, defined, yes bool) {\n%s' % (d['id'], decl(d, ', i, j int'), pre(d))
        o += '\ts := %s.AnalysisSide(%s).Data\n' % (ctor(d), xa)
        o += '\tAssume(i >= 0 && i < len(k.Candles))\n\tAssume(j >= 0 && j < len(k.Candles))\n'
        if d['s'] == 'camarilla':
            o += '\twarm = utils.Hold\n'
        else:
            o += '\tAssume(j < %s)\n\twarm = s[j]\n' % d.get('look', '1')
        o += '\treturn len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true\n}\n\n'
    emit('gen_c05.go', o)


def rule(d):
    s = d['s'].split()
    cross = lambda a, b, pa, pb: ('%s > %s && %s < %s' % (a, b, pa, pb), '%s < %s && %s > %s' % (a, b, pa, pb))
    if s[0] == 'zero':
        return cross('d[i].Value', '0', 'd[i-1].Value', '0')
    if s[0] == 'cross':
        return cross('d[i].' + s[1], 'd[i].' + s[2], 'd[i-1].' + s[1], 'd[i-1].' + s[2])
    if s[0] == 'level':
        return 'd[i].%s > d[i].%s' % (s[1], s[2]), 'd[i].%s < d[i].%s' % (s[1], s[2])
    if s[0] == 'middle':
        return cross('c[i].Close', 'd[i].Middle', 'c[i-1].Close', 'd[i-1].Middle')
    if s[0] == 'under':
        return 'd[i].Value < %s && d[i-1].Value > %s' % (s[1], s[1]), 'd[i].Value > %s && d[i-1].Value < %s' % (s[3], s[3])
    if s[0] == 'rsi':
        return 'd[i].Value < 20 && d[i-1].Value > 20', 'd[i].Value < 80 && d[i-1].Value > 80'
    if s[0] == 'boll':
        return ('c[i].Close > d[i].Upper && c[i-1].Close < d[i-1].Upper', 'c[i].Close < d[i].Lower && c[i-1].Close > d[i-1].Lower')
    if s[0] == 'ichimoku':
        return tuple(' && '.join('c[i].Close %s d[i].LeadingSpan%s && c[i-1].Close %s d[i-1].LeadingSpan%s' % (x, l, y, l) for l in 'AB') for x, y in ('><', '<>'))
    if s[0] == 'kdj':
        return tuple(' && '.join('d[i].%s %s d[i].D && d[i-1].%s %s d[i-1].D' % (l, x, l, y) for l in 'KJ') for x, y in ('><', '<>'))
    if s[0] == 'macd':
        return ('d[i].DIF > 0 && d[i].DEA > 0 && d[i].DIF > d[i].DEA && d[i-1].DIF < d[i-1].DEA',
                'd[i].DIF < 0 && d[i].DEA < 0 && d[i].DIF < d[i].DEA && d[i-1].DIF > d[i-1].DEA')
    if s[0] == 'begin':
        return 'd[i].UpTrendBegin != 0', 'd[i].DownTrendBegin != 0'
    if s[0] == 'utbot':
        return cross('c[i].Close', 'd[i].Value', 'c[i-1].Close', 'd[i-1].Value')
    return None


def c06():
    o = ''
    for d in T:
        if not d.get('s') or not rule(d):
            continue
        b, s = rule(d)
        o += 'func C06_%s(%s) (signal, want utils.Side) {\n%s' % (d['id'], decl(d, ', i int'), pre(d))
        o += '\te := %s\n\ts, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles\n\t_ = c\n' % ctor(d)
        o += '\tAssume(i >= %s && i < len(k.Candles))\n' % d.get('look', '1')
        o += '\twant = utils.Hold\n\tif %s {\n\t\twant = utils.Buy\n\t} else if %s {\n\t\twant = utils.Sell\n\t}\n\treturn s[i], want\n}\n\n' % (b, s)
    for d in T:
        if d.get('s'):
            o += 'func C06_%s_name(%s) (name, want string) {\n%s' % (d['id'], decl(d), pre(d))
            o += '\te := %s\n\treturn e.AnalysisSide(%s).Name, e.Name\n}\n\n' % (ctor(d), 'k' if d['s'] == 'camarilla' else '')
    emit('gen_c06.go', o)


# BreakoutProbability is compared as constructed (its two series are too large to build twice)
def same(d):
    return '*a, *b' if d['n'] == 'BreakoutProbability' else 'a.GetData(), b.GetData()'


def samet(d):
    return '%s.%s' % (d['p'], d['n']) if d['n'] == 'BreakoutProbability' else '[]' + dtype(d)


def c09():
    o = ''
    for d in T:
        n = d['n']
        if not d.get('nodef'):
            o += 'func C09_%s_default(k *klines.Item) (name, wantName string, data, wantData %s) {\n' % (d['id'], samet(d))
            o += '\ta := %s.NewDefault%s(k)\n\tb := %s.New%s(k%s)\n' % (d['p'], n, d['p'], n, ''.join(', ' + v for _, _, v in d['params']))
            o += '\treturn a.Name, b.Name, %s\n}\n\n' % same(d)
            rs, ex = [], []
            for f, (_, t, v) in zip(d['f'].split(), d['params']):
                if f != '-':
                    rs.append('p%d, want%d %s' % (len(rs), len(rs), t))
                    ex.append('a.%s, %s' % (f, v))
            if n == 'BreakoutProbability':
                rs.append('p1, want1 int')
                ex.append('a.NumberOfLines, 5')
            if rs:
                o += 'func C09_%s_defaultFields(k *klines.Item) (%s) {\n\ta := %s.NewDefault%s(k)\n\treturn %s\n}\n\n' % (d['id'], ', '.join(rs), d['p'], n, ', '.join(ex))
        if d.get('ohlc'):
            x = 'k.GetOHLC()' + (', k.HL2()' if d['ohlc'] == 'hl2' else '')
            o += 'func C09_%s_ohlc(%s) (name, wantName string, data, wantData %s) {\n%s' % (d['id'], decl(d), samet(d), pre(d))
            o += '\ta, b := %s.New%sOHLC(%s%s), %s\n' % (d['p'], n, x, args(d), ctor(d))
            o += '\treturn a.Name, b.Name, %s\n}\n\n' % same(d)
        rs, ex = [], []
        for f, (a, t, _) in zip(d['f'].split(), d['params']):
            if f == '-':
                continue
            rs.append('p%d, want%d %s' % (len(rs), len(rs), t))
            ex.append('e.%s, %s' % (f, d.get('const', {}).get(a, a)))
        for x in d.get('fixed', '').split():
            rs.append('p%d, want%d int' % (len(rs), len(rs)))
            ex.append('e.%s, %s' % tuple(x.split('=')))
        if n == 'BreakoutProbability':
            rs.append('lines, wantLines int')
            ex.append('e.NumberOfLines, min(max(n, 1), 5)')
        if rs:
            o += 'func C09_%s_fields(%s) (%s) {\n\te := %s\n\treturn %s\n}\n\n' % (d['id'], decl(d), ', '.join(rs), ctor(d), ', '.join(ex))
            if d.get('ohlc'):
                x = 'k.GetOHLC()' + (', k.HL2()' if d['ohlc'] == 'hl2' else '')
                o += 'func C09_%s_ohlcFields(%s) (%s) {\n\te := %s.New%sOHLC(%s%s)\n\treturn %s\n}\n\n' % (d['id'], decl(d), ', '.join(rs), d['p'], n, x, args(d), ', '.join(ex))
    emit('gen_c09.go', o)


def c19():
    o = ''
    by = {d['n']: d for d in T}
    for n, m, fs in ACC:
        d, fs = by[n], fs.split()
        for how in ('fresh', 'calculated'):
            rs, vs, ex = [], [], []
            for i, f in enumerate(fs):
                x = f[0].lower() + f[1:] + 's'
                rs.append('%s, want%s []float64' % (x, f))
                ex.append('v%d, refMap(len(d), func(i int) float64 { return d[i].%s })' % (i, f))
                vs.append('v%d' % i)
            o += 'func C19_%s_%s_%s(%s) (%s) {\n%s' % (n, m, how, decl(d), ', '.join(rs), pre(d))
            o += '\te := %s\n%s\t%s := e.%s()\n\td := %s.GetData()\n' % (ctor(d), '\te.Calculation()\n' if how == 'calculated' else '', ', '.join(vs), m, ctor(d))
            o += '\treturn %s\n}\n\n' % ', '.join(ex)
    emit('gen_c19.go', o)


def xx():
    o = ''
    for d in T:
        o += '//zz:thorough C08\n' if d['id'] == 'BreakoutProbability' else ''
        o += 'func X_%s(%s) []%s {\n%s\treturn %s.GetData()\n}\n\n' % (d['id'], decl(d), dtype(d), pre(d), ctor(d))
        if d.get('s'):
            o += 'func X_%s_signal(%s) utils.SideData {\n%s\treturn %s.AnalysisSide(%s)\n}\n\n' % (d['id'], decl(d), pre(d), ctor(d), 'k' if d['s'] == 'camarilla' else '')
    for n, m, fs in ACC:
        d = {x['n']: x for x in T}[n]
        k = len(fs.split())
        o += 'func X_%s_%s(%s) (%s) {\n%s\treturn %s.%s()\n}\n\n' % (n, m, decl(d), ', '.join(['[]float64'] * k), pre(d), ctor(d), m)
    emit('gen_x.go', o)


def c27():
    o = ''
    for d in T:
        if not d.get('s') or d['s'] == 'camarilla':
            continue
        o += 'func C27_own_%s(%s) (name, want string) {\n%s\te := %s\n\treturn e.AnalysisSide().Name, e.Name\n}\n\n' % (d['id'], decl(d), pre(d), ctor(d))
    emit('gen_c27.go', o)


c01(); c02(); c04(); c05(); c06(); c09(); c19(); c27(); xx()
