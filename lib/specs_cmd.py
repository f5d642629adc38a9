"""Specifications of external commands."""
import re
from spec import Err, Any, Ret, Bad
from specs_http import steps, split_args
def chain(t):
    """[(method, args..)] of a Command's changes, innermost first, and what it starts from. `x!` is x after the call that changed it."""
    out = []
    while True:
        t = t.rstrip('!')
        m = re.match(r'Command::(\w+)\(', t)
        if not m or not t.endswith(')') or m.group(1) == 'new': return t, out[::-1]
        a = split_args(t[m.end():-1]); out.append((m.group(1),) + tuple(a[1:])); t = a[0]
def bare(x):
    """The string itself, whichever owned or borrowed form it is passed in."""
    m = re.fullmatch(r'OsString\{inner=Buf\{inner=(.*)\.vec\}\}|OsStr(?:ing)?::(?:new|from)\((.*)\)', x, re.S)
    return (m.group(1) or m.group(2)) if m else x
def norm_steps(ss):
    """args/envs applied in bulk are the single ones in a row."""
    ss = [(s[0],) + tuple(bare(x) for x in s[1:]) for s in ss]; out = []
    for s in ss:
        v = re.fullmatch(r'vec\[(.*)\]|\[(.*)\]', s[1], re.S) if len(s) == 2 else None
        if s[0] == 'args' and v: out += [('arg', x) for x in split_args(v.group(1) or v.group(2) or '') if x]
        elif s[0] == 'envs' and v:
            for x in split_args(v.group(1) or v.group(2) or ''):
                p = re.fullmatch(r'\((.*)\)', x, re.S)
                if p: out.append(('env',) + tuple(split_args(p.group(1))))
        else: out.append(s)
    return out
def same(base, ss, want_base, args, envs, rest):
    """The command `base` with steps `ss` is the program with exactly these arguments in order, these variables in any order, and these other settings."""
    ss = norm_steps(ss)
    if base != want_base: return False
    if [s[1:] for s in ss if s[0] == 'arg'] != [(a,) for a in args]: return False
    if sorted(s[1:] for s in ss if s[0] == 'env') != sorted(envs): return False
    last = {}
    for s in ss:
        if s[0] not in ('arg', 'env'): last[s[0]] = s[1:]
    return last == rest
def BUILD(c):
    """Arguments first, then variables; evaluation stops at the first failure."""
    args, envs = [], []
    def a():
        for e in c.iter('self.args'): args.append(c.get_str(e))
    def b():
        for e in c.iter('self.envs'):
            v = c.get_opt(e + '.1')
            if c.some(v): envs.append((e + '.0', v + '.Some.0'))
    a(); cd = c.some('self.current_dir'); b()
    rest = {'current_dir': ('self.current_dir.Some.0',)} if cd else {}
    def ok(got):
        if not got.startswith('Ok(') or not got.endswith(')'): return False
        base, ss = chain(got[3:-1]); return same(base, ss, 'Command::new(self.program)', args, envs, rest)
    ok.__name__ = f"the program with the arguments {args}, the variables {envs} and {rest}"
    return ok
def EXIT_CODE(c):
    cmd = c.try_(c.ev('CommandConfig::build', 'self', c.state())); s = c.try_(f"Command::status({cmd})"); k = f"ExitStatus::code({s})"
    return f"Ok({k}.Some.0)" if c.some(k) else Err('SignalTermination')
def spawned(c):
    """The spawn call of this path."""
    for k in list(c.st.facts) + [c.norm(c.rv)]:
        m = re.search(r'Command::(spawn|output)\(', k)
        if not m: continue
        i = m.end(); d = 1
        while i < len(k) and d: d += {'(': 1, ')': -1}.get(k[i], 0); i += 1
        return k[m.start():i]
    return None
def OUTPUT(c):
    cmd = c.try_(c.ev('CommandConfig::build', 'self', c.state()))
    stdin = c.some('self.stdin'); given = None
    ev = [str(e) for e in c.left]
    sp = spawned(c)
    if sp is None and stdin:                      # reading the input first is fine
        given = c.get_str('self.stdin.Some.0'); sp = spawned(c)
    if sp is None: raise Bad("the command is not started")
    how = re.match(r'Command::(\w+)', sp).group(1)
    base, ss = chain(sp[len(f'Command::{how}('):-1])
    P, N = ('Stdio::piped()',), ('Stdio::null()',)
    rest = {'stdout': P, 'stderr': N}
    if stdin: rest['stdin'] = P
    if how == 'output' and not stdin: rest.pop('stdout')
    ss2 = [s for s in ss if not (how == 'output' and s[0] == 'stdout')]
    if not same(base, ss2, cmd, [], [], rest): raise Bad(f"the command is started as `{sp[:300]}`, required: the built command with {rest}")
    if how == 'output': out = c.try_(sp)
    else:
        child = c.try_(sp)
        if stdin:
            pipe = f"{child}.stdin"
            if c.fact(pipe) == 'None': c.left = []; return Any()          # cannot be: the pipe was just asked for
            c.some(pipe)
            if given is None: given = c.get_str('self.stdin.Some.0')
            w = [k for k in list(c.st.facts) + [c.norm(c.rv)] if 'write' in k]
            t = next((k for k in c.st.facts if re.match(r'(\w+::)*write_all\(', k)), None)
            if t is None: raise Bad(f"the configured input is not written ({[x[:120] for x in w][:2]})")
            a = split_args(t[t.index('(') + 1:-1])
            if not a[0].rstrip('!').startswith(pipe) or a[1] != given: raise Bad(f"`{t[:200]}` is not the configured input written to the command")
            c.try_(t)
        o = next((k for k in list(c.st.facts) if re.match(r'Child::wait_with_output\(', k)), None)
        if o is None: raise Bad('the output of the command is not awaited')
        if child not in o: raise Bad(f"`{o[:200]}` awaits something else than the started command")
        out = c.try_(o)
    t = c.alias(f"converts::from_utf8({out}.stdout)", f"String::from_utf8({out}.stdout)")
    return f"Ok({c.try_(t)})"
def GET_URL(c):
    o = c.try_(c.ev('CommandConfig::output', 'self', c.state()))
    def trimmed(k): return re.search(r"trim_end_matches\(%s,\[(13,10|10,13|'\\r','\\n'|'\\n','\\r')\]\)" % re.escape(o), k)
    t = next((k for k in list(c.st.facts) + [c.norm(c.rv)] if 'Url::parse(' in k and trimmed(k)), None)
    if t is None: raise Bad('the URL is not parsed from the output without its trailing line ends')
    m = re.search(r'Url::parse\(.*\]\)\)', t); t = m.group(0)
    return f"Ok({c.try_(t)})"
def EXISTS(c):
    p = next((k for k in c.st.facts if re.match(r'Path::(exists|try_exists)\(', k) and 'self.program' in k), None); w = 'is(which::which(self.program),Ok)'
    t = c.norm(c.rv)
    if c.fact('which::which(self.program)') == 'Ok': return 'true'
    if p and c.truth(p): return 'true'
    if p is None and 'Path::exists' not in t: raise Bad(f"whether the program is a file is not considered (result `{t[:200]}`)")
    f = c.fact('which::which(self.program)')
    if f is not None: return 'true' if f == 'Ok' else ('false' if p else lambda g: 'Path::exists' in g and 'self.program' in g)
    return w
def FROM(c): return [f"CommandConfig{{args=vec[],current_dir=None,envs=vec[],program=s,stdin=None}}"]
def FROM_STR(c): return [f"Ok({x})" for x in FROM(c)]
