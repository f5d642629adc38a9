"""The analyses, one function per property."""
from runner import replay_variants, replay_paths, replay_results, Report, engine, where
from interp import Interp, tok, Budget
from facts import Missing
import domain, spec, specs_rules as R, specs_strings as S, specs_util as U, specs_url as U2, specs_part as UP, specs_misc as M
from colls import COLLS, OWNED
from meta import P
TS = {'url': 'ts.url', 'scratchpad': 'ts.scratchpad'}; TO = {'to': 'to'}
PROPS = {}
def check(pid):
    def deco(f): PROPS[pid] = (f, P[pid]); return f
    return deco
def bodies(F, path):
    r = [b for b in F.local if b['path'] == path and b['dk'] != 'Promoted']
    if not r: raise Missing(path)
    return r
def fn_spec(rep, F, path, args, sp, look=(), roots=None, facts=None, key=None, only_first=False, **kw):
    """Every path of (every instance of) a function must replay its specification."""
    for i, b in enumerate(bodies(F, path)):
        if only_first and i: break
        replay_paths(rep, F, engine(F, look=look, **kw), b, args, sp, facts or {}, (key or path) + (f"#{i}" if i else ''), roots)

def one(rep, F, suffix, args, sp, roots=None, facts=None, key=None, look=(), models=None, **kw):
    """The function (in every instance) whose path ends like this."""
    bs = [b for b in F.local if b['dk'] != 'Promoted' and (b['path'] == suffix or b['path'].endswith('::' + suffix))]
    if not bs: raise Missing(suffix)
    for i, b in enumerate(bs):
        I = engine(F, look=own(b['path']) + [domain.short(b['path'])] + list(look), models=models, **kw)
        replay_paths(rep, F, I, b, args, sp, facts or {}, (key or suffix) + (f"#{i}" if i else ''), roots)
def each(rep, F, suffix, args, tab, by='self', **kw):
    for v, sp in tab.items(): one(rep, F, suffix, args, sp, facts={by: v}, key=f"{suffix}({v})", **kw)
TABLES = [('Condition', 'satisfied_by', R.CONDITION, None), ('Mapper', 'apply', R.MAPPER, TS), ('Rule', 'apply', R.RULE, TS), ('StringSource', 'get', R.SOURCE, None),
          ('StringModification', 'apply', S.MODIFICATION, TO), ('StringMatcher', 'satisfied_by', S.MATCHER, None), ('StringLocation', 'satisfied_by', S.LOCATION, None), ('CharMatcher', 'satisfied_by', S.CHAR, None)]
def table(rep, F, typ, only=None):
    for t, m, tab, roots in TABLES:
        if t == typ: replay_variants(rep, F, t, m, tab, only=only, roots=roots)

@check('C08')
def c08(rep, FX, tier):
    F = FX['lib']; table(rep, F, 'Mapper', ['RevertOnError', 'MovePart']); table(rep, F, 'StringModification', ['RevertOnError']); rep.floor('obligations', 3)
@check('C09')
def c09(rep, FX, tier): table(rep, FX['lib'], 'Condition'); rep.floor('obligations', 30)
@check('C10')
def c10(rep, FX, tier): table(rep, FX['lib'], 'Mapper'); rep.floor('obligations', 28)
def rules(rep, F):
    b = F.method('Rules', 'apply')
    I = Interp(F, events=domain.events(drop=('Rules::apply',)), opaque=domain.opaque(), models=domain.MODELS)
    replay_paths(rep, F, I, b, ['self', 'ts'], R.RULES, {}, 'Rules', TS)
@check('C11')
def c11(rep, FX, tier):
    F = FX['lib']; table(rep, F, 'Rule'); rules(rep, F); rep.floor('obligations', 12)
@check('C12')
def c12(rep, FX, tier): table(rep, FX['lib'], 'StringSource'); rep.floor('obligations', 22)
@check('C13')
def c13(rep, FX, tier):
    table(rep, FX['lib'], 'StringModification'); each(rep, FX['lib'], 'UrlEncodeAlphabet::get', ['self'], S.ALPHABET); rep.floor('obligations', 43)
@check('C14')
def c14(rep, FX, tier):
    F = FX['lib']; table(rep, F, 'StringMatcher'); table(rep, F, 'StringLocation'); table(rep, F, 'CharMatcher'); rep.floor('obligations', 70)
@check('C17')
def c17(rep, FX, tier):
    F = FX['lib']
    for t in ('Condition', 'Mapper', 'Rule', 'StringSource', 'StringModification', 'StringMatcher'): table(rep, F, t, ['Common'])
    one(rep, F, 'CommonCallArgsSource::build', ['self', 'ts'], M.ARGS); rep.floor('obligations', 7)
@check('C18')
def c18(rep, FX, tier):
    F = FX['lib']; table(rep, F, 'Mapper', ['CacheUrl', 'ExpandRedirect']); table(rep, F, 'StringSource', ['Cache']); rep.floor('obligations', 3)
@check('C33')
def c33(rep, FX, tier):
    for p, a, sp, look in U.FUNCTIONS: fn_spec(rep, FX['lib'], p, a, sp, look)
    rep.floor('obligations', 6)

# ------------------------------------------------------------------ the URL wrapper
BU = 'types::better_url::BetterUrl'
SELF = {'self': 'self'}
def own(p): return ['::'.join(p.split('::')[-2:])]
def specs(rep, F, lst, roots=None):
    for e in lst: fn_spec(rep, F, e[0], e[1], e[2], look=own(e[0]) + (list(e[3]) if len(e) > 3 else []), roots=roots)
@check('C06')
def c06(rep, FX, tier):
    F = FX['lib']; F.adt('BetterUrl')
    fs = {f['n']: i for i, f in enumerate(F.adts[BU]['variants'][0]['f'])}
    if set(fs) != {'url', 'host_details'}: raise Missing(f"fields url and host_details of BetterUrl (found {sorted(fs)})")
    for f in F.adts[BU]['variants'][0]['f']:
        if f.get('vis') == 'pub': rep.bad(f"pub:{f['n']}", f"BetterUrl::{f['n']} is public: any user can separate the url from its host details", BU)
    writers = 0
    for b in F.local:
        w = list(F.field_writes(b, BU))
        if not w: continue
        if b['dk'] == 'Closure': continue   # followed with the function that contains it
        writers += 1; rep.count('writers')
        ret = F.ty(b['locals'][0])
        if ret.get('k') == 'ref' and ret.get('mut') and F.ty(ret['to']).get('adt') in ('url::Url', 'core::option::Option'):
            rep.bad('escape:' + b['path'], f"{b['path']} hands out mutable access to the wrapped url, so the host can change behind the host details", w[0][2])
        replay_paths(rep, F, engine(F, look=own(b['path'])), b, ['self'] + [f"a{i}" for i in range(1, b['argc'])], U2.COHERENT, {}, 'coherent:' + b['path'])
    specs(rep, F, U2.DETAILS); rep.floor('writers', 10); rep.floor('obligations', 30)
@check('C07')
def c07(rep, FX, tier):
    F = FX['lib']; specs(rep, F, U2.SETTERS, SELF); specs(rep, F, U2.RAW, SELF); rep.floor('obligations', 17)

# ------------------------------------------------------------------ URL parts
SEGS = {'pop_if_empty', 'push', 'clear', 'pop', 'extend'}
def part_events(drop):
    base = domain.events(drop=drop)
    return lambda c: base(c) or (f"PathSegmentsMut::{c['name']}" if c['name'] in SEGS and 'PathSegmentsMut' in c['path'] else None)
def url_part(rep, F, meth, only=None):
    b = F.method('UrlPart', meth); tab = UP.GET if meth == 'get' else UP.SET
    for v in [v['n'] for v in F.adt('UrlPart')['variants']]:
        if only and v not in only: continue
        if v not in tab: rep.note(f"variant UrlPart::{v} has no specification (new?)"); continue
        I = engine(F, look=['UrlPart::get'] if meth == 'get' else [], events=part_events(())); I.unfold = {'UrlPart::set'}
        if meth == 'get' and v == 'Debug': I.opaque = (lambda o: lambda c: domain.label(c) == 'UrlPart::get' or o(c))(I.opaque)
        replay_paths(rep, F, I, b, ['self', 'url'] + (['to'] if meth == 'set' else []), tab[v], {'self': v}, f"UrlPart::{meth}({v})", {'purl': 'url'})
    for v in tab:
        if v not in [x['n'] for x in F.adt('UrlPart')['variants']]: rep.bad(f"UrlPart::{v}:missing", f"variant UrlPart::{v} no longer exists")

@check('C27')
def c27(rep, FX, tier):
    F = FX['lib']; url_part(rep, F, 'get'); url_part(rep, F, 'set'); rep.floor('obligations', 60)

# ------------------------------------------------------------------ flags, variables, tasks
@check('C28')
def c28(rep, FX, tier):
    F = FX['lib']
    each(rep, F, 'FlagType::get', ['self', 'ts', 'name'], M.FLAG); each(rep, F, 'VarType::get', ['self', 'ts', 'name'], M.VAR)
    one(rep, F, 'FlagRef::get', ['self', 'ts'], M.FLAG_REF, look=[]); one(rep, F, 'VarRef::get', ['self', 'ts'], M.VAR_REF)
    known_variants(rep, F, 'FlagType', M.FLAG); known_variants(rep, F, 'VarType', M.VAR); rep.floor('obligations', 11)
def known_variants(rep, F, typ, tab):
    for v in F.adt(typ)['variants']:
        if v['n'] not in tab: rep.note(f"variant {typ}::{v['n']} has no specification (new?)")
@check('C15')
def c15(rep, FX, tier):
    F = FX['lib']
    for v in [v['n'] for v in F.adt('ConditionError')['variants']]: one(rep, F, 'ConditionErrorFilter::matches', ['self', 'error'], M.FILTER, facts={'error': v}, key=f"ConditionErrorFilter::matches({v})", look=['ConditionErrorNames::matches', 'ConditionErrorNames::from_error'])
    one(rep, F, 'IfError::apply', ['self', 'x'], M.IF_ERROR)
    table(rep, F, 'Condition', ['TreatErrorAsPass', 'TreatErrorAsFail', 'TryElse']); rep.floor('obligations', 12)
@check('C20')
def c20(rep, FX, tier):
    F = FX['lib']; n = 2 if tier == 'thorough' else 1
    one(rep, F, 'HttpClientConfig::make', ['self'], M.client, maxlen=n)
    one(rep, F, 'HttpClientConfigDiff::apply', ['self', 'to'], M.CLIENT_DIFF, models=COLLS, maxlen=n)
    one(rep, F, 'TaskStateView::<\'a>::http_client', ['ts', 'diff'], M.VIEW_CLIENT, look=['TaskStateView::http_client'], opaque=['HttpClientConfigDiff::apply', 'HttpClientConfig::make'])
    rep.floor('obligations', 3)

@check('C21')
def c21(rep, FX, tier):
    F = FX['lib']; A = ['self', 'to']; deep = tier == 'thorough'
    fs = {f['n'] for f in F.adt('ParamsDiff')['variants'][0]['f']}; want = set(M.SLOTS) | set(M.SCALARS)
    for f in sorted(fs - want): rep.note(f"ParamsDiff::{f} has no specification (new?)")
    for f in sorted(want - fs): rep.bad('field:' + f, f"ParamsDiff::{f} no longer exists")
    kw = dict(models=COLLS, opaque=['HttpClientConfigDiff::apply'])
    for x in M.SLOTS: one(rep, F, 'ParamsDiff::apply', A, M.PARAMS_DIFF, facts=M.without([x]), key=f"ParamsDiff::apply({x})", maxlen=3 if deep else 2, **kw)
    for g in M.GROUPS: one(rep, F, 'ParamsDiff::apply', A, M.PARAMS_DIFF, facts=M.without(g), key=f"ParamsDiff::apply({'+'.join(g)})", maxlen=1, **kw)
    for i, g in enumerate(M.GROUPS):
        for h in M.GROUPS[i + 1:]: one(rep, F, 'ParamsDiff::apply', A, M.PARAMS_DIFF, facts=M.without(g + h if deep else (g[0], g[-1], h[0], h[-1])), key=f"ParamsDiff::apply({'+'.join(g + h)})", maxlen=1, **kw)
    one(rep, F, 'MapDiff::<T>::apply', A, M.MAP_DIFF, models=COLLS, maxlen=3 if deep else 2)
    rep.floor('obligations', 27)

@check('C22')
def c22(rep, FX, tier):
    F = FX['lib']; A = ['self']; deep = tier == 'thorough'
    fs = {f['n'] for f in F.adt('ParamsDiffArgParser')['variants'][0]['f']}; want = set(M.ARG_SLOTS) | set(M.ARG_SCALARS)
    for f in sorted(fs - want): rep.note(f"ParamsDiffArgParser::{f} has no specification (new?)")
    for f in sorted(want - fs): rep.bad('field:' + f, f"ParamsDiffArgParser::{f} no longer exists")
    f = 'ParamsDiffArgParser::build'
    for x in M.ARG_SLOTS: one(rep, F, f, A, M.BUILD, facts=M.without_args([x]), key=f"{f}({x})", maxlen=3 if deep else 2, models=OWNED)
    one(rep, F, f, A, M.BUILD, facts=M.without_args(M.ARG_SCALARS), key=f"{f}(switches)", maxlen=1, models=OWNED)
    L = M.ARG_SLOTS
    for i, x in enumerate(L):
        for y in L[i + 1:]: one(rep, F, f, A, M.BUILD, facts=M.without_args([x, y] + list(M.ARG_SCALARS if deep else [])), key=f"{f}({x}+{y})", maxlen=1, models=OWNED)
    one(rep, F, 'ParamsDiffArgParser::does_anything', A, M.DOES_ANYTHING, models=OWNED, maxlen=1)
    rep.floor('obligations', 38)

# ------------------------------------------------------------------ the command-line program
import threads as T, specs_main as SM
def program(rep, FX, key, sp, n, maxlen, facts=None, roots=None, base=SM.PLAIN):
    F = FX['bin']; b = [b for b in F.real if b['path'] == 'main']
    if not b: raise Missing('main')
    opq = domain.opaque()
    I = Interp(F, events=T.events, opaque=lambda c: opq(c) or T.opaque(c), models={**domain.MODELS, **T.MODELS, 'parse': T.cli(n)}, maxlen=maxlen, budget=400000, loopcap=40)
    try: replay_paths(rep, F, I, b[0], [], sp, {**base, **(facts or {})}, key, roots)
    except T.Unsound as e: rep.bad(key + ':threads', f"{key}: {e}", where(b[0]))
def sizes(tier): return [(1, 2), (2, 2), (3, 2)] + ([(2, 3), (4, 3), (5, 2)] if tier == 'thorough' else [])
@check('C01')
def c01(rep, FX, tier):
    for n, l in sizes(tier): program(rep, FX, f"main({n} threads, {l}+{l} inputs)", SM.text_mode, n, l, {'args.json': False})
    rep.floor('obligations', 3); rep.floor('paths', 500)
@check('C02')
def c02(rep, FX, tier):
    for j in (False, True):
        for n, l in sizes(tier)[::2]: program(rep, FX, f"main({n} threads, {l}+{l} inputs, json {j})", SM.exit_code, n, l, {'args.json': j})
    rep.floor('obligations', 4); rep.floor('paths', 500)
@check('C03')
def c03(rep, FX, tier):
    for n, l in sizes(tier): program(rep, FX, f"main({n} threads, {l}+{l} inputs, json)", SM.json_mode, n, l, {'args.json': True})
    rep.floor('obligations', 3); rep.floor('paths', 500)

@check('C35')
def c35(rep, FX, tier):
    L = FX['lib']
    for f, a, sp in (('load_from_file', ['path'], SM.LOAD_FILE), ('get_default_no_cache', [], SM.LOAD_DEFAULT), ('get_default', [], SM.DEFAULT_REF), ('load_or_get_default_no_cache', ['path'], SM.LOAD_OR), ('load_or_get_default', ['path'], SM.LOAD_OR_REF)):
        one(rep, L, 'Config::' + f, a, sp)
    program(rep, FX, "main(setup)", SM.cli_setup, 1, 3 if tier == 'thorough' else 2, SM.SETUP, base={})
    rep.floor('obligations', 6); rep.floor('paths', 60)

# ------------------------------------------------------------------ tasks
import re
CELLS = re.compile(r'\b(UnsafeCell|Cell|RefCell|OnceCell|OnceLock|LazyLock|LazyCell|Mutex|RwLock|Atomic\w+|ThreadLocal|LocalKey)\b')
ONCE = re.compile(r'\b(OnceLock|OnceCell|LazyLock|LazyCell)\b')
def shared_state(rep, F, owner_ok=('types::config::DEFAULT_CONFIG',)):
    """Which memory can carry something from one task to another: statics, and cells inside types."""
    if F.unsafe_lint != 'Forbid': rep.note(f"unsafe code is no longer forbidden ({F.unsafe_lint})")
    for s in F.statics:
        rep.count('statics'); t = F.tys(s['t'])
        if s['mut'] or not s['freeze'] and not ONCE.search(t.split('<')[0]): rep.bad('static:' + s['path'], f"static {s['path']}: {t} can carry state from one task to another", s['span'])
        elif not s['freeze'] and s['path'] not in owner_ok and 'clap' not in s['path']:
            rep.note(f"static {s['path']}: {t} is written once")
    held = {}
    for k, a in F.adts.items():
        if a['crate'] != F.crate: continue
        for v in a['variants']:
            for f in v['f']:
                t = F.tys(f['t'])
                if not CELLS.search(t): continue
                rep.count('cells'); held[k] = t
                if ONCE.search(t) or 'InnerCache' in t: continue
                rep.bad(f"cell:{k}.{f['n']}", f"{k}.{f['n']}: {t} is memory that tasks sharing the configuration can change", a.get('span', ''))
    for b in F.local:
        for c, t, i, bb in F.callees(b):
            if not c or c['name'] not in ('set', 'get_or_init', 'get_or_try_init', 'get_or_insert_with', 'initialize', 'try_insert') or not ONCE.search(c['path']): continue
            rep.count('write-once writers')
            bad = [F.tys(x) for x in b['locals'][1:1 + b['argc']] if re.search(r'TaskState|\bTask\b|BetterUrl|JobContext|TaskContext|\bstr\b|String', F.tys(x)) and 'InnerCache' not in F.tys(x)]
            if bad: rep.bad(f"once:{b['path']}", f"{b['path']} fills a cell shared between tasks from something that depends on the task ({bad[0][:80]})", where(b))
@check('C16')
def c16(rep, FX, tier):
    F = FX['lib']
    one(rep, F, "Task::<'_>::r#do", ['self'], M.TASK_DO); one(rep, F, "JobConfig::<'a>::new_task", ['self', 'tc', 'jc'], M.NEW_TASK)
    one(rep, F, "<types::job::task_config::TaskConfig as core::str::traits::FromStr>::from_str", ['s'], M.FROM_STR); one(rep, F, "TaskState::<'a>::to_view", ['self'], M.TO_VIEW)
    b = [x for x in F.real if x['path'].endswith("Job::<'a>::iter")]
    if not b: raise Missing('Job::iter')
    I = engine(F, look=['Job::iter', 'JobConfig::new_task'], maxlen=3); res = I.run(b[0], [tok('self')])
    for n in range(3):
        out = []
        for s, rv in res: s.mem[('R', 'it')] = rv; out += T.step(I, s, {'b': b[0], 'stack': (), 'id': 0}, ('R', 'it'), (), -1, 1, 0) or []
        replay_results(rep, I, [(s.copy(), v) for s, v in out], b[0], M.JOB_ITEM(n), f"Job::iter#{n}")
        res = [(s, I.read_path(s, ('R', 'it'), ())) for s, v in out]
    shared_state(rep, F); rep.floor('obligations', 7); rep.floor('cells', 3)

# ------------------------------------------------------------------ text formats
import strs, specs_text as ST, itertools, html.entities
def tag_env(w):
    ns = list(dict.fromkeys(re.findall(r'[^\s=/>"\'<]+', w)[1:4] + ['zz', '']))
    un = lambda x: ('Err', 0) if '&' in x else ('Ok', 'U' + x)
    return [{'name': n, 'unescape_text': un, 'unescape::unescape_text': un} for n in ns]
def ref_env(w): return [{'unescape::parse_char_ref': ST.stub_ref}]
JSP = [('', 4), ('"', 4), ("'", 4), ('"\\x', 3), ('"\\u', 5), ('"\\u{', 4), ('"\\u{00', 5), ('"\\1', 3), ('"\\u00', 4), ('"\\x41\\x', 3), ('"\\u{10ff', 3), ('"\\ud8', 3), ('"\\n', 3)] + [(p + q, 3) for p in ('"\\uffff', '"\\u{fffff}') for q in ('\\u{6', '\\x4', '\\u006', '\\10')]
NUM = [('', 4), ('#', 3), ('#x', 4), ('#11', 3), ('#x11', 3), ('#x10f', 4), ('#429496729', 2), ('#xffffffff', 2), ('#xd7', 3), ('#42949673', 2), ('#x1000000', 2), ('#x1000000000000000', 2), ('#184467440737095516', 2)]
TAG = [('', 3), ('<', 3), ('<a', 3), ('<a ', 3), ('<a/', 3), ('<a b', 3), ('<a b ', 3), ('<a b=', 3), ('<a b="', 3), ("<a b='", 3), ('<a b=c', 3), ('<a b=""', 3), ('<a b=c d', 2), ('<a b d', 2), ('<a b="c" d', 2), ('<a b=c b=', 2), ('<a b=c b', 2), ('<a b=c b>', 0), ('<a b=c/', 2), ('<a b /', 2)]
@check('C30')
def c30(rep, FX, tier):
    F = FX['lib']; more = 1 if tier == 'thorough' else 0; jobs = []; budget = 6000000 if more else 1500000
    for n in ('string_literal_prefix', 'get_attribute_value', 'unescape_text', 'parse_char_ref', 'parse_num_char_ref'):
        if not any(b['path'].endswith('::' + n) for b in F.local): raise Missing(n)
    for p, n in TAG: jobs.append((F, 'get_attribute_value', len(p) + n + more, p, ST.attribute, 'str::char_indices(s)', f"get_attribute_value on {p!r} followed by up to {n + more} characters", ('unescape::unescape_text',), {'env': tag_env, 'tails': ('', '>', ' ', 'a')}, budget))
    for p, n in JSP: jobs.append((F, 'string_literal_prefix', len(p) + n + more, p, ST.js, 'str::chars(s)', f"string_literal_prefix on {p!r} followed by up to {n + more} characters", (), {'tails': ('', 'a', ';') + tuple(x + q for q in (p[:1] or '"') for x in ('', '0', '00', '000', '}', '0}', '00}', '000}'))}, budget))
    for p, n in NUM: jobs.append((F, 'parse_num_char_ref', len(p) + n + more, p, ST.num_ref, 'str::chars(s)', f"parse_num_char_ref on {p!r} followed by up to {n + more} characters", (), {}, budget))
    words = [''.join(w) for k in range(7) for w in itertools.product('a&;E', repeat=k)]
    jobs.append((F, 'unescape_text', 4, '', ST.unescape, 'str::chars(s)', 'unescape_text', ('unescape::parse_char_ref',), {'env': ref_env, 'extra': words}, budget))
    strs.scenarios(rep, jobs)
    # the named character references
    b = [x for x in F.real if x['path'].endswith('::parse_char_ref')][0]
    I = engine(F, look=['parse_char_ref', 'unescape::parse_char_ref'], opaque=('unescape::parse_num_char_ref',), budget=3000000)
    named = {k[:-1]: v for k, v in html.entities.html5.items() if k.endswith(';')}; seen = set(); odd = 0
    try: res = I.run(b, [tok('s')])
    except Budget: res = []; rep.note('parse_char_ref: more paths than the bound, not compared')
    for s, rv in res:
        r = I.render(s, rv); eqs = [strs.parse(k) for k, v in s.facts.items() if v is True and k.startswith('eq(')]
        names = [a[1] for e in eqs for a in e[2] if a[0] == 'lit']
        num = [v for k, v in s.facts.items() if k in ("starts(s,'#')", "is(strip_prefix(s,'#'),Some)", "str::starts_with(s,'#')", "starts_with(s,'#')")]
        if num and num[0] is True:
            if 'parse_num_char_ref(s)' not in r: rep.bad('charref:#', f"a reference that starts with # returns {r[:100]}, not its character", where(b))
            continue
        try: got = strs.Eval({}).e(strs.parse(r))
        except Exception: got = None
        if len(names) == 1:
            n = names[0]; seen.add(n)
            if got is None: odd += 1
            elif not strs.same(got, ('Ok', named.get(n))): rep.bad('charref:' + n, f"&{n}; is {strs.show(got)}, not {named.get(n)!r}", where(b))
        elif not names and got is not None and got[0] == 'Ok': rep.bad('charref:unknown', f"an unknown reference returns {strs.show(got)}", where(b))
        elif names: odd += 1
    rep.count('obligations'); rep.count('named references', len(seen))
    if len(seen) > 1000:
        for n in sorted(set(named) - seen)[:5]: rep.bad('charref:' + n, f"&{n}; is not known", where(b))
    else: rep.note(f"parse_char_ref: only {len(seen)} names were recognised in its summary")
    rep.floor('obligations', 30)

# ------------------------------------------------------------------ panics
import panics
@check('C05')
def c05(rep, FX, tier):
    panics.DEEP = tier == 'thorough'
    panics.crate(rep, FX['lib'], ('parse::html::get_attribute::',)); rep.counts['obligations'] = rep.counts.get('functions', 0); rep.floor('functions', 300); rep.floor('places', 20)

# ------------------------------------------------------------------ the cache
import specs_cache as SC
@check('C36')
def c36(rep, FX, tier):
    F = FX['lib']
    SC.contract(rep, F, 'read'); SC.contract(rep, F, 'write'); SC.connect(rep, F)
    one(rep, F, 'glue::caching::Cache::read', ['self', 'cat', 'key'], SC.CACHE_READ, look=['Cache::read'], opaque=('InnerCache::read',))
    one(rep, F, 'glue::caching::Cache::write', ['self', 'cat', 'key', 'value'], SC.CACHE_WRITE, look=['Cache::write'], opaque=('InnerCache::write',))
    one(rep, F, 'CachePath::as_str', ['self'], SC.AS_STR); one(rep, F, 'CachePath::as_path', ['self'], SC.AS_PATH)
    one(rep, F, '<glue::caching::CachePath as core::convert::From<alloc::string::String>>::from', ['x'], SC.FROM); one(rep, F, '<glue::caching::CachePath as core::str::traits::FromStr>::from_str', ['x'], SC.FROM_STR)
    rep.floor('obligations', 9); rep.floor('tables', 50); rep.floor('statements', 2)

# ------------------------------------------------------------------ HTTP requests
import specs_http as SH
@check('C34')
def c34(rep, FX, tier):
    F = FX['lib']; J = ('StringSourceJsonValue::make',)
    one(rep, F, 'RequestConfig::make', ['self', 'ts'], SH.MAKE, also=('RequestBody::apply',), models=OWNED)
    one(rep, F, 'RequestConfig::send', ['self', 'ts'], SH.SEND, also=('RequestConfig::make',))
    one(rep, F, 'RequestConfig::response', ['self', 'ts'], SH.RESPONSE, also=('RequestConfig::send', 'ResponseHandler::handle'))
    each(rep, F, 'RequestBody::apply', ['self', 'req', 'ts'], SH.REQUEST_BODY, also=J, models=OWNED)
    each(rep, F, 'ResponseHandler::handle', ['self', 'resp', 'ts'], SH.HANDLER)
    each(rep, F, 'StringSourceJsonValue::make', ['self', 'ts'], SH.JSON, also=J, models=OWNED)
    one(rep, F, 'ProxyConfig::make', ['self'], SH.PROXY)
    one(rep, F, '<glue::json::StringSourceJsonValue as core::convert::From<serde_json::value::Value>>::from', ['value'], SH.FROM_VALUE, models=OWNED)
    own_ = [b for b in F.real if b['path'].split('::')[-1].startswith('visit_') and 'glue::json::StringSourceJsonValue as serde::de::Deserialize' in b['path'] and '::_::' not in b['path']]
    have = {b['path'].split('::')[-1]: b for b in own_}
    for k in ('visit_unit', 'visit_bool', 'visit_i64', 'visit_u64', 'visit_f64', 'visit_str', 'visit_seq', 'visit_map'):
        if own_ and k not in have: rep.bad('json:' + k, f"a JSON body value of the kind {k[6:]} is rejected: there is no {k}", 'src/glue/json.rs')
    for k, b in have.items(): one(rep, F, b['path'], ['self', 'x'][:b['argc']], SH.visit(k), key='json:' + k)
    rep.floor('obligations', 17)

# ------------------------------------------------------------------ pattern and encoding options
import specs_opts as SO
@check('C29')
def c29(rep, FX, tier):
    F = FX['lib']; RB = ('RegexParts::build',); G = 'glue::regex::'; P = G + 'regex_parts::'
    one(rep, F, 'RegexParts::build', ['self'], SO.PARTS_BUILD)
    one(rep, F, 'RegexWrapper::get', ['self'], SO.WRAPPER_GET, also=RB)
    one(rep, F, G + '<impl core::convert::TryFrom<glue::regex::RegexWrapper> for regex::regex::string::Regex>::try_from', ['value'], SO.WRAPPER_INTO, also=RB)
    for t in ('&glue::regex::regex_parts::RegexParts', 'glue::regex::regex_parts::RegexParts'):
        one(rep, F, P + f'<impl core::convert::TryFrom<{t}> for regex::regex::string::Regex>::try_from', ['value'], SO.PARTS_INTO, also=RB)
    one(rep, F, G + '<impl core::convert::From<glue::regex::RegexWrapper> for glue::regex::regex_parts::RegexParts>::from', ['value'], SO.PARTS_OF)
    for ty, a, sp, sps in ((P + 'RegexParts', '&str', SO.PARTS_FROM, None), (P + 'RegexParts', 'alloc::string::String', SO.PARTS_FROM, SO.PARTS_FROM_STR), (G + 'RegexWrapper', '&str', SO.WRAPPER_FROM, SO.WRAPPER_FROM_STR), (G + 'RegexWrapper', P + 'RegexParts', SO.WRAPPER_FROM_PARTS, None), ('glue::glob::GlobWrapper', 'glob::Pattern', SO.GLOB_FROM, SO.GLOB_FROM_STR)):
        one(rep, F, f'<{ty} as core::convert::From<{a}>>::from', ['s'], sp)
        if sps: one(rep, F, f'<{ty} as core::str::traits::FromStr>::from_str', ['s'], sps)
    one(rep, F, '<glue::regex::regex_parts::RegexConfig as core::default::Default>::default', [], SO.CONFIG_DEFAULT)
    for k in ('set', 'add', 'remove'): one(rep, F, f'RegexConfig::{k}_flags', ['self', 'flags'], SO.flags(k))
    one(rep, F, 'RegexConfig::get_flags', ['self'], SO.GET_FLAGS)
    one(rep, F, 'GlobWrapper::matches', ['self', 's'], SO.MATCHES); one(rep, F, 'GlobWrapper::matches_path', ['self', 's'], SO.MATCHES_PATH)
    one(rep, F, 'Base64Config::build', ['self'], SO.B64); one(rep, F, '<glue::base64::Base64Config as core::default::Default>::default', [], SO.B64_DEFAULT)
    rep.floor('obligations', 20)

# ------------------------------------------------------------------ commands
import specs_cmd as CM
@check('C37')
def c37(rep, FX, tier):
    F = FX['lib']; C = 'glue::command::CommandConfig'; B = ('CommandConfig::build',)
    one(rep, F, 'CommandConfig::build', ['self', 'ts'], CM.BUILD)
    one(rep, F, 'CommandConfig::exit_code', ['self', 'ts'], CM.EXIT_CODE, also=B)
    one(rep, F, 'CommandConfig::output', ['self', 'ts'], CM.OUTPUT, also=B)
    one(rep, F, 'CommandConfig::get_url', ['self', 'ts'], CM.GET_URL, also=B + ('CommandConfig::output',))
    one(rep, F, 'CommandConfig::exists', ['self'], CM.EXISTS)
    for a in ('&str', 'alloc::string::String'): one(rep, F, f'<{C} as core::convert::From<{a}>>::from', ['s'], CM.FROM)
    one(rep, F, f'<{C} as core::str::traits::FromStr>::from_str', ['s'], CM.FROM_STR)
    rep.floor('obligations', 8)

# ------------------------------------------------------------------ tests of a configuration
import specs_tests as SX
@check('C38')
def c38(rep, FX, tier):
    L = FX['lib']; M = {**domain.MODELS, 'collect': T.MODELS['collect'], 'unzip': T.MODELS['unzip']}
    one(rep, L, 'testing::Tests::r#do', ['self', 'config'], SX.TESTS, also=('TestSet::r#do',))
    one(rep, L, 'Config::run_tests', ['self', 'tests'], SX.RUN, also=('Tests::r#do',))
    one(rep, L, 'testing::TestSet::r#do', ['self', 'config'], SX.SET, also=('Task::r#do', 'Job::iter'), opaque=('ParamsDiff::apply',), models=M, maxlen=4 if tier == 'thorough' else 3)
    F = FX['bin']; b = [b for b in F.real if b['path'] == 'main']; opq = domain.opaque(); ex = ('Config::run_tests', 'Config::assert_suitability')
    if not b: raise Missing('main')
    for tests in ('Some', 'None'):
        ev = lambda c: T.events(c) or (domain.label(c) if domain.label(c) in ex or c['name'] == 'assert_suitability' else None)
        I = Interp(F, events=ev, opaque=lambda c: opq(c) or T.opaque(c) or domain.label(c) in ex, models={**domain.MODELS, **T.MODELS, 'parse': T.cli(1), 'std::process::exit': SX.exit_model}, maxlen=2, budget=400000, loopcap=40)
        I.ended = []
        facts = {'args.tests': tests, 'args.debug_no_printing': False, 'has(args.params_diff,0)': False, 'ParamsDiffArgParser::does_anything(args.params_diff_args)': False, 'args.job_context': 'None', 'has(args.urls,0)': True, 'has(args.urls,1)': False, 'Stdin::is_terminal(stdio::stdin())': True, 'args.cache_path': 'None', 'args.json': False}
        if tests == 'None': facts['args.test_suitability'] = True
        res = I.run(b[0], [], facts=facts); res = res + [(s, tok('()')) for s in I.ended]
        from runner import replay_results
        replay_results(rep, I, res, b[0], SX.TEST_MODE, f"main(tests {tests})")
    rep.floor('obligations', 5)

# ------------------------------------------------------------------ the suitability test
import suit
@check('C25')
def c25(rep, FX, tier):
    suit.suitability(rep, FX['lib'], 3 if tier == 'thorough' else 2); rep.floor('implementations', 60); rep.floor('obligations', 200); rep.floor('paths', 200)

# ------------------------------------------------------------------ the configuration format
import wire
@check('C26')
def c26(rep, FX, tier):
    wire.check(rep, FX['lib']); rep.floor('types_and_variants', 380); rep.floor('fields', 300); rep.floor('bare_strings', 18)

# ------------------------------------------------------------------ duplicate keys
import specs_made as MK
import specs_serde as SD
def readers(F, ty):
    """The bodies of a type's derived deserialiser."""
    return [b for b in F.local if re.search(r"Deserialize<'de> for " + re.escape(ty) + r"(<\w+>)?>::deserialize", b['path'])]
WRAPS = {'HashMap': 'MapPreventDuplicates', 'BTreeMap': 'MapPreventDuplicates', 'HashSet': 'SetPreventDuplicates', 'BTreeSet': 'SetPreventDuplicates'}
def unguarded(F, bs, names):
    """Calls that read a map or set in one of the named ways without an adapter that refuses duplicates; and how many use one."""
    bad, n = [], 0
    for b in bs:
        inner = '__DeserializeWith' in b['path'].rsplit(' as ', 1)[0] and re.search(r'::deserialize(~\d+)*$', b['path'])
        for c, t, i, bb in F.callees(b):
            ts = [F.tys(x) for x in c.get('ta', []) if isinstance(x, int)]
            if inner and c['name'] == 'deserialize' and ts:
                m = re.search(r'\b(HashMap|BTreeMap|HashSet|BTreeSet)<', ts[-1]); w = F.tys(c['impl_self']) if c.get('impl_self') is not None else ''
                w = ' '.join([w] + ts[:-1])
                if m and WRAPS[m.group(1)] not in w: bad.append((b, ts[-1], bb.get('sp')))
                elif m: n += 1
            elif not inner and c['name'] in names and ts and re.match(r'[\w:]*\b(HashMap|BTreeMap|HashSet|BTreeSet)<', ts[-1]): bad.append((b, ts[-1], bb.get('sp')))
            elif not inner and c['name'] in names and ts and '__DeserializeWith' in ts[-1]: n += 1
    return bad, n
@check('C23')
def c23(rep, FX, tier):
    F = FX['lib']
    for ty in MK.GUARDED:
        a = F.adts.get(ty); bs = readers(F, ty)
        if not a or not bs: raise Missing(ty)
        fs = [f for f in a['variants'][0]['f'] if re.match(r'[\w:]*\b(HashMap|BTreeMap|HashSet|BTreeSet)<', F.tys(f['t']))]
        rep.count('obligations', len(fs)); rep.count('bodies', len(bs))
        bad, n = unguarded(F, bs, ('next_value', 'next_element'))
        for b, t, sp in bad: rep.bad(f"{ty}:{t}", f"{ty}: a field of type {t} is read with duplicates silently dropped", sp or where(b))
        if fs and not n: rep.bad(f"{ty}:none", f"{ty}: no map or set of it is read by an adapter that refuses duplicates", where(bs[0]))
        rep.sample(f"{ty}: {', '.join(f['n'] for f in fs)} read by adapters that refuse duplicates")
    bs = readers(F, 'types::rules::mappers::Mapper'); inner = [b for b in bs if '__DeserializeWith' in b['path']]
    bad, n = unguarded(F, [b for b in bs if 'visit_enum' in b['path']], ('newtype_variant',))
    for b, t, sp in bad: rep.bad(f"Mapper:{t}", f"Mapper: a set of query parameter names of type {t} is read with duplicates silently dropped", sp or where(b))
    if not inner: rep.bad('Mapper:none', 'Mapper: the sets of RemoveQueryParams and AllowQueryParams are read without an adapter that refuses duplicates', where(bs[0]) if bs else '')
    rep.count('obligations', 2)
    I = dict(models=MK.MAPS, maxlen=2)
    one(rep, F, 'NamedPartitioning::try_from_iter', ['iter'], MK.PARTITIONING, **I)
    one(rep, F, "NamedPartitioningVisitor as serde::de::Visitor<'de>>::visit_map", ['self', 'map'], MK.PARTITIONING_READ, **I)
    rep.floor('obligations', 20); rep.floor('paths', 40)

@check('C24')
def c24(rep, FX, tier):
    F = FX['lib']; S = SD.Serde(F)
    for what, rows in (('written and read', SD.compare(S)), ('bare string', SD.shorthand(S)), ('hand over', SD.handover(S)), ('left out', SD.defaults(S))):
        for T, e in rows:
            if (what, T) in SD.DECLARED: continue
            rep.count('obligations'); rep.count({'written and read': 'types_and_variants', 'bare string': 'bare_strings', 'hand over': 'bare_strings', 'left out': 'defaults'}[what])
            if e: rep.bad(f"{what}:{T}", f"{T}: {e}", T)
    m = SD.LOGGED()
    for suffix, args, sp in SD.BY_HAND: one(rep, F, suffix, args, sp, models=m if 'Partitioning' in suffix else None, maxlen=2)
    for v in ('Pass', 'Fail', 'Error'): one(rep, F, 'IfError as serde::ser::Serialize>::serialize', ['self', 'serializer'], SD.if_error_write(v), facts={'self': v}, key=f"IfError::{v}")
    J = "StringSourceJsonValue as serde::de::Deserialize<'de>>::deserialize::V as serde::de::Visitor<'de>>::"
    for n, want in SD.NUM.items(): one(rep, F, J + n, ['self', 'v'][:1 if n == 'visit_unit' else 2], lambda c, w=want: w)
    one(rep, F, J + 'visit_seq', ['self', 'seq'], SD.JSON_SEQ, maxlen=2)
    rep.floor('types_and_variants', 380); rep.floor('bare_strings', 40); rep.floor('defaults', 10)

# ------------------------------------------------------------------ outside world
import effects as EF
BIN = {'process': [(r'^main$', None, r'exit')], 'files': [(r'^main$', None, r'read_to_string')], 'stdout': [(r'^main$', None)], 'stderr': [(r'^main$', None)], 'stdin': [(r'^main$', None)], 'threads': [(r'^main$', None)], 'waiting': [], 'environment': [], 'network': [], 'network client': []}
@check('C31')
def c31(rep, FX, tier):
    EF.confine(rep, FX['lib'], EF.DOORS)
    EF.confine(rep, FX['bin'], BIN, 'the command line program', set(FX['lib'].B))
    if FX['lib'].unsafe_lint != 'Forbid': rep.bad('unsafe', f"unsafe code is no longer forbidden ({FX['lib'].unsafe_lint}): foreign calls would not be seen")
    for c, n in (('files', 4), ('process', 3), ('network', 2), ('network client', 2), ('stderr', 9), ('environment', 1), ('waiting', 1)): rep.floor(c + ' sites', n)

# ------------------------------------------------------------------ the default configuration
import confprops as CP
COND = ['Always', 'Never', 'Not', 'All', 'Any', 'FlagIsSet', 'TreatErrorAsFail']; ARM = ['If', 'All', 'ConditionChain', 'PartMap', 'StringMap', 'Rule', 'Rules', 'Common']
RULE = ['Normal', 'SharedCondition', 'PartMap', 'PartRuleMap', 'PartRulesMap', 'StringMap', 'Repeat', 'Rules', 'Mapper', 'Common']
def language(rep, F, **used):
    """The constructs the argument about the configuration rests on mean what it takes them to mean."""
    for t, vs in used.items():
        if t in ('get', 'set'): url_part(rep, F, t, vs)
        else: table(rep, F, t, vs)
    rules(rep, F)
def flag_values(rep, F):
    """A flag that is asked for on the command line or in a job is the one that conditions see."""
    each(rep, F, 'FlagType::get', ['self', 'ts', 'name'], M.FLAG); one(rep, F, 'FlagRef::get', ['self', 'ts'], M.FLAG_REF, look=[])
    settings(rep, F, ('flags', 'unflags'), ('flag', 'unflag')); one(rep, F, 'ParamsDiff::apply', ['self', 'to'], M.PARAMS_DIFF, facts=M.without(['flags', 'unflags']), key="ParamsDiff::apply(flags+unflags)", maxlen=1, models=COLLS, opaque=['HttpClientConfigDiff::apply'])
def settings(rep, F, slots=None, args=None):
    """What is asked for is what the params hold."""
    for x in slots or M.SLOTS: one(rep, F, 'ParamsDiff::apply', ['self', 'to'], M.PARAMS_DIFF, facts=M.without([x]), key=f"ParamsDiff::apply({x})", maxlen=2, models=COLLS, opaque=['HttpClientConfigDiff::apply'])
    one(rep, F, 'ParamsDiffArgParser::does_anything', ['self'], M.DOES_ANYTHING, models=OWNED, maxlen=1)
    for x in args or M.ARG_SLOTS: one(rep, F, 'ParamsDiffArgParser::build', ['self'], M.BUILD, facts=M.without_args([x]), key=f"ParamsDiffArgParser::build({x})", maxlen=2, models=OWNED)
def asked(rep, FX):
    """A flag reaches the conditions from where it was asked for, and the program applies what was asked for, in order, to the configuration it uses."""
    task_done(rep, FX['lib']); flag_values(rep, FX['lib']); program(rep, FX, "main(setup)", SM.cli_setup, 1, 2, SM.SETUP, base={})
def task_done(rep, F):
    """A task is cleaned by the rules, with the params, commons and contexts of its job."""
    one(rep, F, "Task::<'_>::r#do", ['self'], M.TASK_DO); one(rep, F, "JobConfig::<'a>::new_task", ['self', 'tc', 'jc'], M.NEW_TASK)
    one(rep, F, "TaskState::<'a>::to_view", ['self'], M.TO_VIEW)
def located(rep, F): table(rep, F, 'StringLocation', ['Start', 'End', 'Anywhere'])
def written(rep, F): specs(rep, F, U2.SETTERS, SELF); specs(rep, F, U2.RAW, SELF)
def hosts(rep, F): specs(rep, F, U2.DETAILS)
def partitions(rep, F):
    one(rep, F, 'NamedPartitioning::try_from_iter', ['iter'], MK.PARTITIONING, models=MK.MAPS, maxlen=2)
    one(rep, F, "NamedPartitioningVisitor as serde::de::Visitor<'de>>::visit_map", ['self', 'map'], MK.PARTITIONING_READ, models=MK.MAPS, maxlen=2)
def config(rep): import runner; return CP.Conf(runner.REPO)

@check('C39')
def c39(rep, FX, tier):
    F = FX['lib']; CP.requests(rep, config(rep))
    language(rep, F, Condition=COND, Mapper=ARM + ['FirstNotError'], Rule=RULE); asked(rep, FX)
    EF.confine(rep, F, {k: v for k, v in EF.DOORS.items()}, only=('network', 'network client'))
@check('C40')
def c40(rep, FX, tier):
    F = FX['lib']; CP.tracking(rep, config(rep))
    language(rep, F, Condition=['Not', 'All', 'Any', 'PartMatches', 'PartIs', 'PartIsOneOf'], Mapper=ARM + ['RemoveQueryParamsMatching', 'RemoveQuery', 'AllowQueryParams', 'ExpandRedirect'], Rule=RULE, StringMatcher=['Any', 'InSet', 'ContainsAnyInList'], StringSource=['HttpRequest'], get=['RegDomain', 'Scheme']); located(rep, F); hosts(rep, F); task_done(rep, F); written(rep, F)
@check('C41')
def c41(rep, FX, tier):
    F = FX['lib']; CP.references(rep, config(rep))
    language(rep, F, StringMatcher=['InSet', 'ContainsAnyInList'], StringSource=['Var', 'ParamsMap', 'ParamsNamedPartitioning'], Mapper=['Common'], Condition=['FlagIsSet'])
    each(rep, F, 'VarType::get', ['self', 'ts', 'name'], M.VAR); one(rep, F, 'VarRef::get', ['self', 'ts'], M.VAR_REF)
    each(rep, F, 'FlagType::get', ['self', 'ts', 'name'], M.FLAG); one(rep, F, 'FlagRef::get', ['self', 'ts'], M.FLAG_REF, look=[])
    settings(rep, F); program(rep, FX, "main(setup)", SM.cli_setup, 1, 2, SM.SETUP, base={}); partitions(rep, F)
@check('C42')
def c42(rep, FX, tier):
    F = FX['lib']; CP.flags(rep, config(rep))
    language(rep, F, Condition=COND + ['PartMap', 'PartMatches'], Mapper=ARM + ['SetHost', 'SetPart', 'CopyPart', 'MovePart', 'RemoveQueryParams', 'RemoveQueryParam', 'ExpandRedirect'], Rule=RULE, StringMatcher=['InSet', 'IsOneOf'], StringSource=['ParamsNamedPartitioning', 'ParamsMap', 'Var'], get=['HostWithoutWWWDotPrefixAndFqdnPeriod', 'RegDomain']); asked(rep, FX); partitions(rep, F); written(rep, F); url_part(rep, F, 'set')
@check('C43')
def c43(rep, FX, tier):
    F = FX['lib']; CP.sites(rep, config(rep))
    language(rep, F, Condition=COND + ['PartMap', 'PartMatches', 'PartIs', 'PartIsOneOf', 'PartContains', 'PathIs', 'StringIs'], Mapper=['PartMap', 'StringMap'], Rule=RULE, StringMatcher=['Any', 'InSet', 'IsOneOf', 'Contains'], StringSource=['ParamsNamedPartitioning', 'Part'], get=['Host', 'HostWithoutWWWDotPrefixAndFqdnPeriod', 'RegDomain', 'DomainMiddle', 'DomainSuffix', 'Subdomain', 'Scheme', 'Path', 'PathSegment']); located(rep, F); hosts(rep, F); partitions(rep, F); task_done(rep, F)
