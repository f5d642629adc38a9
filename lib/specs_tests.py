"""Specifications of the tests a configuration can carry."""
import re
from spec import Err, Any, Ret, Bad
from interp import const, tok
from specs_main import stream
def TESTS(c):
    for s in c.iter('self.sets'): c.ev('TestSet::r#do', s, 'config')
    return '()'
def RUN(c): c.ev('Tests::r#do', 'tests', 'self'); return Any()
def SET(c):
    """Every test is cleaned with the changed configuration and the set's context, and a path that returns found every result as expected."""
    es = [str(e) for e in c.st.events]
    cfg = 'config'
    if c.some('self.params_diff'): cfg = 'config{params:=ParamsDiff::apply(self.params_diff.Some.0,config.params)!1}'
    job = next((e for e in c.st.events if e.label == 'Job::iter'), None)
    n = 0
    while c.fact(f'has(self.tests,{n})'): n += 1
    if n > c.I.maxlen: c.left = []; return Any()
    if job is None: raise Bad('the tests are not run as a job')
    c.left = [e for e in c.left if e is not job]
    t = str(job); lst = ','.join(f"self.tests[{i}].task_config" for i in range(n))
    if 'context=self.job_context' not in t: raise Bad('the tests do not run with the job context of their set')
    got = re.search(r',config=(.*?)\},context=', t, re.S)
    if not got or got.group(1) != cfg: raise Bad(f"the tests run with the configuration `{got.group(1)[:200] if got else '?'}`, required `{cfg}`")
    src = re.search(r'task_configs_source=(.*)\}\)$', t, re.S)
    names = re.findall(r'self\.tests\[(\d+)\]\.(\w+)', src.group(1)) if src else []
    if names != [(str(i), 'task_config') for i in range(n)]: raise Bad(f"the tasks of the job are `{src.group(1)[:200] if src else t[:200]}`, required those of the {n} tests in order")
    J = f"Job::iter#{[i for i, e in enumerate(c.st.events) if e is job][0] + 1}"
    for i in range(n):
        if c.fact(f"has({J},{i})") is False: c.left = []; return Any()        # cannot be: a job has as many tasks as configurations (C16)
        if c.fact(f"has({J},{i})") is None: raise Bad(f"test {i} of the set is never run")
        if c.fact(f"{J}[{i}]") != 'Ok': raise Bad(f"test {i} passes although its task cannot be made")
        d = c.ev('Task::r#do', f"{J}[{i}].Ok.0")
        if c.fact(d) != 'Ok': raise Bad(f"test {i} passes although its task fails")
        e = 'eq(%s,%s)' % tuple(sorted((f"self.tests[{i}].result", f"{d}.Ok.0")))
        if c.fact(e) is not True: raise Bad(f"test {i} passes although its result is not compared with the expected one, or differs")
    return '()'
# ------------------------------------------------------------------ the program in test mode
def exit_model(I, st, fr, c, args, atys, dty, depth, bb):
    """std::process::exit: the path ends here with this exit code."""
    st.exit = I.render(st, args[0]); I.ended.append(st); return []
def TEST_MODE(c):
    """Suitability first if asked for, then each file of tests in order; any that cannot be read or parsed ends the program with an error. Nothing is cleaned."""
    cfg = 'Config::load_or_get_default_no_cache(args.config)'
    es = [e for e in c.st.events]; c.left = []
    runs = [str(e) for e in es if e.label.endswith('run_tests')]; suit = [i for i, e in enumerate(es) if 'assert_suitability' in e.label]
    other = [e.label for e in es if not e.label.endswith('run_tests') and 'assert_suitability' not in e.label]
    if [x for x in other if 'Task' in x or 'Job' in x]: raise Bad(f"the program cleans in test mode: {other[:3]}")
    if [k for k in c.st.facts if 'Task::' in k or 'TaskConfig::' in k] or any('Task' in x for x in stream(c, 'stdout')): raise Bad('a URL is cleaned in test mode')
    if not c.ok(cfg): return Any()
    if c.truth('args.test_suitability') and not suit: raise Bad('--test-suitability is ignored')
    done = 0; want = []
    if c.some('args.tests'):
        for p in c.iter('args.tests.Some.0'):
            t = f"fs::read_to_string({p})"
            if not c.ok(t):
                if len(runs) != len(want): raise Bad(f"{len(runs)} files of tests are run, required {len(want)}")
                return f"Err(CliError::CantLoadTests({t}.Err.0))"
            d = f"de::from_str({t}.Ok.0)"
            if not c.ok(d):
                if len(runs) != len(want): raise Bad(f"{len(runs)} files of tests are run, required {len(want)}")
                return f"Err(CliError::CantParseTests({d}.Err.0))"
            want.append(d + '.Ok.0')
    if len(runs) != len(want): raise Bad(f"{len(runs)} files of tests are run, required {len(want)}")
    for r, w in zip(runs, want):
        if w not in r or cfg + '.Ok.0' not in r: raise Bad(f"`{r[:200]}` does not run {w} with the configuration")
    x = getattr(c.st, 'exit', None)
    if x is None:
        return lambda g: re.fullmatch(r'Ok\(\D*0\D*\)|Ok\(ExitCode::SUCCESS\)', g) is not None
    if x != '0': raise Bad(f"the program exits with {x} although no test failed")
    return Any()
