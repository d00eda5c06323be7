import random
import vlib

TECH = ('TLA+ automaton and exact decimal order for the validator languages, '
        'checked against a declarative grammar by TLC; TLC-enumerated texts '
        'replayed on the validators and judged by TLC')


def R(r, **kw):
    return dict(r=r, **kw)

RANGES = [R('range', lo='0', hi='1'), R('range', lo='-1', hi='1'),
          R('range', lo='0.5', hi='0.5'), R('range', lo='-10.5', hi='99'),
          R('range', lo='-inf', hi='0'), R('range', lo='1e-3', hi='1e5')]
NUMERIC = [R('longitude'), R('latitude'), R('positiveint'),
           R('positivefloat'), R('probability'),
           R('noneor', sub=R('positivefloat'))]

BOUNDS = ['0', '1', '90', '180', '0.5', '10.5', '99', '0.001', '100000', '5']
WORDS = ['nan', 'NaN', '-nan', '+nan', 'inf', '-inf', 'Inf', '+INF',
         'infinity', '-Infinity', 'infinit', 'nano', '1.#INF', '', ' ', 'abc',
         'None', 'true', '0x10', '1,5', '1 2', '1e5', '1E5', '-1e-5', '1e',
         'e5', '.e1', '1e1.0', '--1', '+-1', '- 1', '1-', '1.2.3', '1\t',
         '\n1', ' 1 ', u'\xe9', '1e+2', '00', '007', '-0', '-0.0', '+0',
         '1.', '.5', '-.5', '+.5', '.', '99999999999999999999',
         '-99999999999999999999', '123456789012345', '1e15', '1e-15',
         '1e100', '-1e100', '1e-100', '-1e-100', '180.0', '1.8e2', '18e1',
         '0.18e3', '180.000000001', '179.999999999', '-180.000000001', '9e1',
         '90.0000001', '1.0000000001', '0.99999999999', '360', '-360', '181',
         '-181', '91', '-91', '2', '-1', '1/2', '50%', 'one', '1f', '1j',
         '-1e-300', '-1e-305', '1e-300', '-1e-307', '1e300', '-1e300', '1e305',
         '-0e5', '0e999', '-0e-999', '1\0', '\0', '0b1', '0o7', '1_000', '1L',
         '1l', '9007199254740993', '-9007199254740993', '4503599627370497.5',
         '2147483648', '4294967296', '9223372036854775808', '1e-16', '-1e-16',
         '1.0000000000000002', '180.00000000000003', '-180.00000000000003',
         '90.00000000000001', '-1e-17', '0.99999999999999989', '1e0', '1e00',
         '+1e+0', '0001e-0003', '1' * 40, '0.' + '0' * 40 + '1',
         '-0.' + '0' * 40 + '1', '1e+', '1e-', '+', '-', '1 e5', 'e', '\f7',
         '7\r\n', '1..', '..1', '0,5', '1;', '(1)', '"1"', 'NAN', 'nAn', 'nan ',
         ' nan', 'nan(1)', 'qnan', 'snan', '+Infinity', 'INFINITY', ' inf',
         '1inf', 'inf1', '-iNf ']


def numbers(rnd, n):
    """Texts of decimal numbers near the bounds and elsewhere"""
    res = []
    for _ in range(n):
        b = rnd.choice(BOUNDS)
        kind = rnd.randrange(6)
        if kind == 0:
            x = b
        elif kind == 1:     # slightly above
            x = (b if '.' in b else b + '.') + '0' * rnd.randrange(
                8) + str(rnd.randrange(1, 10))
        elif kind == 2:     # slightly below
            x = '%.6f' % (float(b) - rnd.choice([1e-6, 1e-3, .5, 1]))
        elif kind == 3:
            x = '%.*f' % (rnd.randrange(5), rnd.uniform(-400, 400))
        elif kind == 4:
            x = '%d.%de%d' % (rnd.randrange(10), rnd.randrange(1000),
                              rnd.randrange(-12, 13))
        else:
            x = str(rnd.randrange(-400, 400))
        if rnd.random() < .35:
            x = rnd.choice('-+') + x.lstrip('-+')
        if rnd.random() < .1:
            x = ' ' + x
        if rnd.random() < .1:
            x += rnd.choice(' \n\t')
        if rnd.random() < .08:
            i = rnd.randrange(len(x) + 1)
            x = x[:i] + rnd.choice('.e-x 1') + x[i:]
        res.append(x)
    return res


def run_v01(run):
    big = run.thorough
    vlib.design_check(run, 'TextsMC', 'TextsMC.cfg',
                      consts={'MaxLen': 6 if big else 5})
    rnd = random.Random(run.seed)

    def enum():
        texts = vlib.tlc_scenarios(
            run, 'TextsMC', 'TextsEnum.cfg', workers=2,
            consts={'MaxLen': 5 if big else 4})
        for s in texts:
            s['rules'] = NUMERIC + RANGES[:2]
        vlib.section(run, 'all-short-texts', 'texts', 'TextsTrace',
                     sorted(texts, key=str), classify=classify, shards=2)

    def rand():
        texts = WORDS + BOUNDS + ['-' + b for b in BOUNDS] + numbers(
            rnd, 20000 if big else 1500)
        scns = [dict(text=x, rules=NUMERIC + RANGES) for x in texts]
        vlib.section(run, 'numbers-near-the-bounds', 'texts', 'TextsTrace',
                     scns, classify=classify, shards=2)
    vlib.together(enum, rand)


def classify(scn, tr):
    for c in tr['calls']:
        yield c['rule']['r'] + ':' + c['out']


TEXTUAL = [R('name'), R('namelist'), R('not_empty'), R('boolean'),
           R('IMTstr'), R('choice', of=['a', 'b1', '']),
           R('choice', of=['population', 'buildings']),
           R('category_'), R('noneor', sub=R('boolean')),
           R('noneor', sub=R('choice', of=['a', 'ab'])),
           R('noneor', sub=R('IMTstr')), R('noneor', sub=R('name'))]
TEXTUAL = [r for r in TEXTUAL if r['r'] != 'category_']
GOOD = ['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI', 'SA(0.1)', 'SA(1)',
        'SA(1.)', 'SA(0)', 'SA(10.25)', 'SA(007.5)', 'true', 'false', '0',
        '1', 'population', 'buildings', 'a', 'ab', 'b1', 'name_1', '_x',
        'slight moderate', 'LS1 LS2\tLS3', 'a  b', ' a', 'a ', 'A', 'x9',
        'None', 'True', 'FALSE', 'tRuE', 'SA', 'SA()', 'SA(.1)', 'SA(1.2.3)',
        'SA(-1)', 'SA(1e1)', 'SA( 1)', 'SA(1', 'SA1)', 'sa(1)', 'pga',
        'PGAs', 'IAS', 'MMI2', 'XPGA', '1a', 'a-b', 'a.b', 'a b!', 'a,b',
        u'\xe9', u'na\xefve', '_', '__', 'a1_', '9', '-', 'not a name!',
        'PGA|PGV', 'SA(0.1', 'SA(0.1))', '2', '01', 'yes', 'no', 'b', 'aa',
        'buildin', 'population,buildings', "'population'", 'SA(1)PGA',
        'a\nb', 'a\n9b', 'a\tb\n', 'true false', 'truefalse', '00', '10',
        'SA(1000)', 'SA(12345.678)', 'SA(100000000000)', 'SA(0.00001)',
        'SA(00000)', 'SA(0.0)', 'SA(000.1)', 'SA(1.500)', 'SA(9999)', 'SA(10)',
        'SA(0.123456789)', 'SA(1,5)', 'SA(+1)', 'SA(1 )', 'SA (1)', 'Sa(1)',
        'SA(nan)', 'SA(inf)', 'SA[1]', 'SA1', 'SA1.0', 'PGA()', 'PGA(1)',
        'PGV ', ' PGA', 'P.G.A', 'PGAPGV', '\0', '\0a', 'a\0', 'a\r', 'a\f',
        'a\fb', 'a\rb1', u'a\xe9', u'a\xea', u'x\xfa1', u'a\xb5 b', u'\xeaa', u'\xe9a', u'ab \xe9', u'SA(1)\xe9',
        u'true\xe9', 'a' * 70, '_' * 40 + '9', ' '.join(['n%d' % i for i in
        range(20)]), 'TRUE', 'tRue', 'False', '1 ', ' 1', '1\n', 'true\n',
        '\ntrue', 'true ', '+1', '-0', '1.0', 'on', 'off', 't', 'f', '__x__',
        'a$', '$a', 'a@b', 'a:b', 'x-1', '1_', '9a b', 'a 9b', 'a,b c', 'a;b',
        'None ', 'none', 'null', 'population ', ' population', 'POPULATION',
        'Buildings', 'building', 'buildingss', 'pop']


def mutated(rnd, n):
    res = []
    chars = u'aZ_09 .()\n-+SPGA\t\xea'
    for _ in range(n):
        x = rnd.choice(GOOD)
        for _ in range(rnd.choice([1, 1, 2])):
            i = rnd.randrange(len(x) + 1)
            k = rnd.randrange(4)
            if k == 0:
                x = x[:i] + rnd.choice(chars) + x[i:]
            elif k == 1:
                x = x[:i] + x[i + 1:]
            elif k == 2:
                x = x + rnd.choice(chars)
            else:
                x = x + rnd.choice(['', ' ', '\n']) + rnd.choice(GOOD)
        res.append(x)
    return res


def run_v02(run):
    big = run.thorough
    rnd = random.Random(run.seed)
    vlib.design_check(run, 'TextsMC', 'TextsMC.cfg', consts={
        'Alphabet': '"SA(1.)"', 'MaxLen': 6 if big else 5})

    def enum():
        texts = []
        for alpha, n in [('"a_9 \\n"', 5 if big else 4), ('"01tA)"', 4 if big
                                                          else 3)]:
            texts += vlib.tlc_scenarios(
                run, 'TextsMC', 'TextsEnum.cfg', workers=2,
                consts={'MaxLen': n, 'Alphabet': alpha.replace('\\', '\\\\')})
        # the period of a spectral acceleration
        texts += [dict(text='SA(' + s['text']) for s in vlib.tlc_scenarios(
            run, 'TextsMC', 'TextsEnum.cfg', workers=2,
            consts={'MaxLen': 5 if big else 4, 'Alphabet': '"10.)"'})]
        for s in texts:
            s['rules'] = TEXTUAL
        vlib.section(run, 'all-short-texts', 'texts', 'TextsTrace',
                     sorted(texts, key=str), classify=classify, shards=2)

    def rand():
        texts = GOOD + [''] + mutated(rnd, 20000 if big else 1500)
        scns = [dict(text=x, rules=TEXTUAL) for x in texts]
        vlib.section(run, 'words-and-mutations', 'texts', 'TextsTrace',
                     scns, classify=classify, shards=2)
    vlib.together(enum, rand)

CHECKS = {
    'V01': dict(run=run_v01, level='model_checking', technique=TECH),
    'V02': dict(run=run_v02, level='model_checking', technique=TECH),
}
