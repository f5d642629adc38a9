"""What the command-line program prints and returns, as a function of its inputs."""
import re
from spec import Bad, Any
from interp import tok
from domain import cat, parts
CFG = 'Config::load_or_get_default_no_cache(args.config)'
JOB = f"JobConfig{{cache=Cache::from({CFG}.Ok.0.cache_path),config={CFG}.Ok.0}}"
PLAIN = {CFG: 'Ok', 'ParamsDiffArgParser::does_anything(args.params_diff_args)': False, 'has(args.params_diff,0)': False, 'args.job_context': 'None', 'args.tests': 'None', 'args.test_suitability': False,
         'args.cache_path': 'None', 'args.debug_no_printing': False}
MAKE = 'MakeTaskError::MakeTaskConfigError'
def inputs(c):
    """The arguments, then (unless stdin is a terminal) each line of stdin."""
    for u in c.iter('args.urls'): yield u, None
    if not c.truth('Stdin::is_terminal(stdio::stdin())'):
        for l in c.iter('Stdin::lines(stdio::stdin())'):
            if c.ok(l): yield l + '.Ok.0', None
            else: yield None, l + '.Err.0'
def outcome(c, x, e, job=JOB, ctx='JobContext{vars=vec[]}'):
    if e: return 'make', f"{MAKE}(MakeTaskConfigError::IoError({e}))"
    t = f"TaskConfig::from_str({x})"
    if not c.ok(t): return 'make', f"{MAKE}({t}.Err.0)"
    r = c.nm(f"Task::r#do(JobConfig::new_task({job},{t}.Ok.0,{ctx}))")
    return ('url', r + '.Ok.0') if c.ok(r) else ('do', r + '.Err.0')
def stream(c, name):
    return [x if isinstance(x, str) else c.I.render(c.st, x) for x in parts(c.I, c.st, c.st.mem.get(('T', name), ('const', '')))]
def lines(c, name):
    """The stream cut at its literal newlines: a list of lists of pieces; the text must end with a newline."""
    out = [[]]
    for p in stream(c, name):
        if p.startswith('\n') or '\n' in p and "(" not in p or not re.search(r'[\w)\]]', p):
            bits = p.split('\n')
        else: bits = [p]
        if isinstance(p, str) and len(bits) > 1:
            if bits[0]: out[-1].append(bits[0])
            for b in bits[1:]: out.append([b] if b else [])
        else: out[-1].append(p)
    if out[-1]: raise Bad(f"{name} does not end with a newline")
    return out[:-1]
def same(got, want): return len(got) == len(want)
ONELINE = ('str::replace(', 'str::escape_debug(', 'str::escape_default(', 'ser::to_string(')
def text_mode(c, job=JOB, ctx='JobContext{vars=vec[]}'):
    res = [outcome(c, x, e, job, ctx) for x, e in inputs(c)]
    out, err = lines(c, 'stdout'), lines(c, 'stderr')
    if len(out) != len(res): raise Bad(f"{len(res)} inputs give {len(out)} lines of stdout")
    for i, ((k, t), ln) in enumerate(zip(res, out)):
        want = [t] if k == 'url' else []
        if [c.expect_norm(x) for x in ln] != [c.expect_norm(x) for x in want]: raise Bad(f"line {i} of stdout is `{' '.join(ln)[:160]}`, required `{' '.join(want)[:160]}` (input {i} is {k})")
    bad = [t for k, t in res if k != 'url']
    if len(err) != len(bad): raise Bad(f"{len(bad)} failures give {len(err)} lines of stderr")
    for i, (t, ln) in enumerate(zip(bad, err)):
        if not any(t in x for x in ln): raise Bad(f"line {i} of stderr does not show the {i}th failure")
        for x in ln:
            if t in x and not (x.startswith(ONELINE) and (not x.startswith('str::replace(') or re.search(r",(10|'\\\\n'|'\\n'),", x))): raise Bad(f"the failure is printed as it is, so a message with line breaks takes more than one line of stderr: `{x[:120]}`")
    return Any()
def exit_code(c):
    ks = [outcome(c, x, e)[0] for x, e in inputs(c)]
    ok, bad = 'url' in ks, any(k != 'url' for k in ks)
    n = 2 if ok and bad else 1 if bad else 0
    def f(got):
        m = re.fullmatch(r'Ok\(\D*(\d+)\D*\)', got.replace('ExitCode::SUCCESS', '0').replace('ExitCode::FAILURE', '1'))
        return bool(m) and int(m.group(1)) == n
    f.__name__ = f"exit code {n}"
    return f
def json_str(x): return tok(f"ser::to_string({x}).Ok.0")
def json_mode(c):
    ps = ['{"Ok":{"urls":[']
    for i, (k, t) in enumerate([outcome(c, x, e) for x, e in inputs(c)]):
        if i: ps.append(',')
        if k == 'url': ps += ['{"Ok":{"Ok":', json_str(t), '}}']
        else:
            o = '{"Ok":{"Err":{"message":' if k == 'do' else '{"Err":{"message":'
            ps += [o, json_str(t), ',"variant":', json_str(f"debug({t})"), '}}}' if k == 'do' else '}}']
    ps.append(']}}')
    want = [x if isinstance(x, str) else c.nm(x[1]) for x in parts(c.I, c.st, cat(ps))]
    got = stream(c, 'stdout')
    if got != want:
        d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Bad(f"JSON output differs at piece {d}: `{got[d][:160] if d < len(got) else '(end)'}`, required `{want[d][:160] if d < len(want) else '(end)'}`")
    if stream(c, 'stderr'): raise Bad('something is written to stderr in JSON mode')
    return Any()

# -- what the job is made of
SETUP = {k: v for k, v in PLAIN.items() if k in ('args.tests', 'args.test_suitability', 'args.debug_no_printing')}
SETUP.update({'args.json': False, 'Stdin::is_terminal(stdio::stdin())': True, 'has(args.urls,0)': True, 'has(args.urls,1)': False})
def cli_setup(c):
    """The configuration, changed by each params diff file in order and then by the params arguments; the cache path of the arguments or else of the configuration; the job context given or an empty one.
    Anything that cannot be loaded ends the program with that error before anything is printed."""
    def quiet(err):
        if stream(c, 'stdout'): raise Bad('something is printed although the job could not be set up')
        return err
    if not c.ok(CFG): return quiet(f"Err(CliError::GetConfigError({CFG}.Err.0))")
    diffs = []
    for p in c.iter('args.params_diff'):
        t = f"fs::read_to_string({p})"
        if not c.ok(t): return quiet(f"Err(CliError::CantLoadParamsDiffFile({t}.Err.0))")
        d = f"de::from_str({t}.Ok.0)"
        if not c.ok(d): return quiet(f"Err(CliError::CantParseParamsDiffFile({d}.Err.0))")
        diffs.append(d + '.Ok.0')
    b = 'ParamsDiffArgParser::build(args.params_diff_args)'
    if c.truth('ParamsDiffArgParser::does_anything(args.params_diff_args)'):
        if not c.ok(b): raise Bad('the program goes on although the params arguments are malformed')
        diffs.append(b + '.Ok.0')
    ps = f"{CFG}.Ok.0.params"
    for d in diffs: ps = f"ParamsDiff::apply({d},{ps})!1"
    cfg = f"{CFG}.Ok.0{{params:={ps}}}" if diffs else f"{CFG}.Ok.0"
    path = 'args.cache_path.Some.0' if c.some('args.cache_path') else f"{CFG}.Ok.0.cache_path"
    ctx = 'JobContext{vars=vec[]}'
    if c.some('args.job_context'):
        j = 'de::from_str(args.job_context.Some.0)'
        if not c.ok(j): return quiet(f"Err(CliError::CantParseJobContext({j}.Err.0))")
        ctx = j + '.Ok.0'
    return text_mode(c, f"JobConfig{{cache=Cache::from({path}),config={cfg}}}", ctx)
def LOAD_FILE(c, path='path'):
    t = f"fs::read_to_string({path})"
    if not c.ok(t): return f"Err(GetConfigError::CantLoadConfig({t}.Err.0))"
    d = f"de::from_str({t}.Ok.0)"
    return f"Ok({d}.Ok.0)" if c.ok(d) else f"Err(GetConfigError::CantParseConfig({d}.Err.0))"
def builtin(c):
    ks = [k for k in c.st.facts if k.startswith("de::from_str('{")]
    if len(ks) != 1: raise Bad('the built-in configuration is not parsed')
    return ks[0]
def LOAD_DEFAULT(c):
    d = builtin(c)
    return f"Ok({d}.Ok.0)" if c.ok(d) else f"Err(GetConfigError::CantParseConfig({d}.Err.0))"
def DEFAULT_REF(c):
    s = 'OnceLock::get(static:types::config::DEFAULT_CONFIG)'
    if c.some(s): return f"Ok({s}.Some.0)"
    d = builtin(c)
    if not c.ok(d): return f"Err(GetConfigError::CantParseConfig({d}.Err.0))"
    want = d + '.Ok.0'
    def f(got): return 'DEFAULT_CONFIG' in got and want in got
    f.__name__ = 'the parsed built-in configuration, kept in DEFAULT_CONFIG'
    return f
def LOAD_OR(c): return LOAD_FILE(c, 'path.Some.0') if c.some('path') else LOAD_DEFAULT(c)
def LOAD_OR_REF(c): return LOAD_FILE(c, 'path.Some.0') if c.some('path') else DEFAULT_REF(c)
