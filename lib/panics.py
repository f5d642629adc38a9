"""Where a path can end in a panic: every diverging call, failed assertion and argument-dependent std call, with what is known on the path."""
import re
PARTIAL = re.compile(r"""(^<?(alloc::string::String|alloc::vec::Vec<|core::str::|core::slice::|core::array::|std::collections::hash::map::HashMap).*::(index|index_mut)$
    |core::str::traits::<impl\ core::ops::index::Index.*::(index|index_mut)$
    |^alloc::string::String::(drain|truncate|remove|insert|insert_str|replace_range|split_off)$
    |^core::str::<impl\ str>::(split_at|split_at_mut)$
    |^alloc::vec::Vec::<T(,\ A)?>::(insert|remove|swap_remove|drain|split_off|splice)$
    |^core::slice::<impl\ \[T\]>::(split_at|split_at_mut|copy_from_slice|clone_from_slice|chunks|windows|chunks_exact|swap|copy_within|rotate_left|rotate_right|select_nth_unstable)$
    |::step_by$|^core::char::(methods::<impl\ char>::)?(to_digit|is_digit|from_digit)$|^core::char::methods::<impl\ char>::(to_digit|is_digit)$
    |^core::time::Duration::(from_secs_f32|from_secs_f64|new)$|core::cmp::Ord::clamp$|^core::cell::RefCell::<T>::(borrow|borrow_mut)$
    |^core::num::.*::(pow|abs|div_euclid|rem_euclid|ilog|ilog2|ilog10|strict_.*)$
    |Captures.*::index$)""", re.X)
def partial(c):
    return c.get('crate') in ('core', 'alloc', 'std', 'regex') and PARTIAL.search(c['path']) is not None

# ------------------------------------------------------------------ what discharges an obligation
from specs_misc import split_args
import domain
from interp import Interp, Budget, tok
from colls import OWNED
def num(x): return int(x) if re.fullmatch(r'-?\d+', x) else None
def bounds(F, x):
    """What is known of an integer on the path."""
    n = num(x)
    if n is not None: return n, n
    lo, hi = F.get('iv:' + x, (None, None)); f = F.get(x)
    m = re.fullmatch(r'(?:intrinsics::integer_|cmp::|Ord::)(max|min)\((.*)\)', x)
    if m and len(split_args(m.group(2))) == 2:
        (l1, h1), (l2, h2) = (bounds(F, y) for y in split_args(m.group(2)))
        if m.group(1) == 'max': lo = max((y for y in (lo, l1, l2) if y is not None), default=None)
        else: hi = min((y for y in (hi, h1, h2) if y is not None), default=None)
    if re.match(r'NonZero::get\(', x): lo = max(lo or 1, 1)      # unsigned, or at least not zero
    if isinstance(f, int) and not isinstance(f, bool): return f, f
    for k, v in F.items():
        m = re.fullmatch(r'(lt|le)\((.*)\)', k)
        if not m or not isinstance(v, bool): continue
        a = split_args(m.group(2))
        if len(a) != 2: continue
        r, (p, q) = m.group(1), a
        if not v: r, p, q = ('le' if r == 'lt' else 'lt'), q, p       # not p<q  =  q<=p
        if p == x and num(q) is not None: h = num(q) - (r == 'lt'); hi = h if hi is None else min(hi, h)
        if q == x and num(p) is not None: l = num(p) + (r == 'lt'); lo = l if lo is None else max(lo, l)
    return lo, hi
def true(F, k): return F.get(k) is True
def listlen(x):
    for p in ('vec[', '['):
        if x.startswith(p) and x.endswith(']'): return len(split_args(x[len(p):-1]))
    return None
def literal(x):
    """The number of bytes of a literal text or character."""
    m = re.fullmatch(r"'(.+)'|\"(.*)\"", x, re.S)
    if not m: return None
    try: return len((m.group(1) or m.group(2) or '').encode().decode('unicode_escape').encode('latin-1')) if x.isascii() else len((m.group(1) or m.group(2)).encode())
    except Exception: return None
def boundary(F, s, i):
    """Is byte position i of the text s known to be a character boundary within it?"""
    if i in ('0', f"len({s})"): return True
    if true(F, f"str::is_char_boundary({s},{i})"): return True
    m = re.fullmatch(r'Sub\(len\((.*)\),len\((.*)\)\)', i)
    if m:
        a = split_args(i[4:-1])
        if len(a) == 2 and a[0] == f"len({s})" and a[1].startswith('len('): return true(F, f"is(strip_suffix({s},{a[1][4:-1]}),Some)") or F.get(f"strip_suffix({s},{a[1][4:-1]})") == 'Some'
    for k, v in F.items():        # the bytes of a literal prefix or suffix that was seen
        if not (v is True or v == 'Some'): continue
        k = k[3:-6] if k.startswith('is(') and k.endswith(',Some)') else k
        for f in ('strip_prefix', 'starts_with', 'strip_suffix', 'ends_with'):
            if not k.startswith(f"{f}({s},"): continue
            n = literal(k[len(f) + len(s) + 2:-1])
            if n and ('prefix' in f or 'starts' in f) and i == str(n) or n and ('suffix' in f or 'ends' in f) and i == f"Sub(len({s}),{n})": return True
    if i.startswith('len(') and i.endswith(')'):
        p = i[4:-1]; return true(F, f"is(strip_prefix({s},{p}),Some)") or F.get(f"strip_prefix({s},{p})") == 'Some'
    if i.startswith('Add(') and i.endswith(')'):
        a = split_args(i[4:-1])
        if len(a) == 2 and (num(a[0]) is not None or a[0].startswith('len(')): i = f"Add({a[1]},{a[0]})"
    for f in ('find', 'str::rfind', 'rfind'):
        if i.startswith(f"{f}({s},") and i.endswith('.Some.0'): return True
        if i.startswith(f"Add({f}({s},") and i.endswith(')'):
            a = split_args(i[4:-1]); pat = split_args(a[0][len(f) + 1:-len(').Some.0')]) if a[0].endswith(').Some.0') else []
            if len(a) == 2 and len(pat) == 2:
                if a[1] == f"len({pat[1]})": return True
                if pat[1].startswith("'") and num(a[1]) == len(pat[1][1:-1].encode().decode('unicode_escape').encode()) and pat[1].isascii(): return True
    if place(F, s, i) is not None: return True
    # a position obtained from the characters of the text itself
    m = re.fullmatch(r'(str::char_indices\(.*\)\[\d+\])\.0', i)
    if m and i.startswith(f"str::char_indices({s})["): return True
    return False
def place(F, s, x):
    """The number of characters of s before this byte position, when known."""
    if x == '0': return 0
    m = re.fullmatch(r'str::char_indices\((.*)\)\[(\d+)\]\.0', x)
    if m and m.group(1) == s: return int(m.group(2))
    m = re.fullmatch(r'Add\((?:1,)?(str::char_indices\((.*)\)\[(\d+)\])\.0(?:,1)?\)', x)
    if m and m.group(2) == s:
        c = F.get(m.group(1) + '.1')
        if isinstance(c, int) and c < 128: return int(m.group(3)) + 1
    return None
def rng(r):
    m = re.fullmatch(r'(Range|RangeTo|RangeFrom|RangeFull|RangeInclusive|RangeToInclusive)(\{.*\})?', r)
    if m:
        f = dict(x.split('=', 1) for x in split_args(m.group(2)[1:-1])) if m.group(2) else {}
        return (f.get('start'), f.get('end')) if 'Inclusive' not in m.group(1) else None
    m = re.fullmatch(r'\((.*)\)', r)
    if m:
        a = split_args(m.group(1))
        if len(a) == 2:
            lo = a[0][9:-1] if a[0].startswith('Included(') else None if a[0] == 'Unbounded' else False
            hi = a[1][9:-1] if a[1].startswith('Excluded(') else None if a[1] == 'Unbounded' else False
            return None if False in (lo, hi) else (lo, hi)
    return None
def slice_ok(F, s, r):
    if F.get(f"str::get({s},{r})") == 'Some' or true(F, f"is(str::get({s},{r}),Some)"): return True
    q = rng(r)
    if q is None: return False
    a, b = q
    if a is not None and b is not None:
        p, w = place(F, s, a), place(F, s, b)
        if p is not None and w is not None: return p <= w
    if a is not None and not boundary(F, s, a) or b is not None and not boundary(F, s, b): return False
    if a is None or b is None or a == b or a == '0' or b == f"len({s})": return True
    return b.startswith(f"Add({a},") or true(F, f"lt({a},{b})") or F.get(f"lt({b},{a})") is False
def least(F, xs):
    """A lower bound of the number of elements of xs (bytes, for a text)."""
    m = re.fullmatch(r'slice::(?:windows|array_windows|chunks_exact)\(.*,(\d+)\)\[\d+\]', xs)
    if m: return int(m.group(1))
    n = listlen(xs)
    if n is not None: return n
    lo = bounds(F, f"len({xs})")[0] or 0
    for k, v in F.items():
        if v is True and k.startswith(f"has({xs},") and num(k[len(f"has({xs},"):-1]) is not None: lo = max(lo, int(k[len(f"has({xs},"):-1]) + 1)
        elif v is False and k in (f"eq(0,len({xs}))", f"eq(len({xs}),0)", f"is_empty({xs})"): lo = max(lo, 1)
    return lo
def index_ok(F, xs, i, edge=0):
    """0 <= i < len(xs) (+ edge)."""
    k = num(i)
    if k is not None: return 0 <= k < least(F, xs) + edge
    if true(F, f"lt({i},len({xs}))"): return True
    lo, hi = bounds(F, i)
    if hi is not None and hi < least(F, xs) + edge: return True       # a position is never negative
    if edge and (i == f"len({xs})" or F.get(f"lt(len({xs}),{i})") is False): return True
    m = re.fullmatch(r'(?:util::)?neg_(index|range_boundary)\((.*)\)\.Some\.0', i)
    if m: return split_args(m.group(2))[-1] == f"len({xs})" and (m.group(1) == 'index' or edge == 1)
    if i in (f"Sub(len({xs}),1)",): return least(F, xs) >= 1
    return False
def within(F, n, i):
    """0 <= i < n, with n the rendering of a length."""
    if n.startswith('len(') and n.endswith(')'): return index_ok(F, n[4:-1], i)
    k, m = num(i), num(n)
    if k is not None and m is not None: return 0 <= k < m
    if true(F, f"lt({i},{n})"): return True
    hi = bounds(F, i)[1]; lo = bounds(F, n)[0]
    return hi is not None and lo is not None and hi < lo
def impossible(F):
    """Facts which no run has together: what the engine does not know of the std functions it names."""
    for k, v in F.items():
        if k.startswith('iv:') and None not in v and v[0] > v[1]: return 'the conditions on an integer exclude each other'
        if v is False:
            m = re.fullmatch(r'has\((?:str::|String::)?(?:chars|char_indices|bytes|as_bytes)\((.*)\),0\)', k)
            if m and (least(F, m.group(1)) >= 1 or any(k2.startswith('eq(0,') and v2 is False and re.search('::(do_count_chars|char_count\\w*)', k2) and f"str::chars({m.group(1)})" in k2 for k2, v2 in F.items())): return 'a text that is not empty has characters'
        elif v == 'None':
            m = re.fullmatch(r'(?:methods|char)::to_digit\((.*),(\d+)\)', k)
            if m:
                c, r = m.group(1), int(m.group(2))
                lo, hi = bounds(F, c)
                if lo is not None and hi is not None and (48 <= lo and hi <= min(57, 47 + r) or r > 10 and (65 <= lo and hi <= 54 + r or 97 <= lo and hi <= 86 + r)): return 'the character is a digit of that radix'
                if r >= 10 and true(F, f"methods::is_ascii_digit({c})") or r >= 16 and true(F, f"methods::is_ascii_hexdigit({c})") or any(true(F, f"methods::is_digit({c},{q})") for q in range(2, r + 1)): return 'the character is a digit of that radix'
            m = re.fullmatch(r'(?:methods|char|convert)::from_digit\((.*),(\d+)\)', k)
            if m and bounds(F, m.group(1))[1] is not None and bounds(F, m.group(1))[1] < int(m.group(2)): return 'a digit of that radix'
            m = re.fullmatch(r'(HashMap|BTreeMap|map)::get\((.*?)(\.base)?,(.*)\)', k)
            if m and any(q != k and F.get(q) in ('Some', True) for w in ('get', 'contains_key') for z in ('', '.base') for q in (f"{m.group(1)}::{w}({m.group(2)}{z},{m.group(4)})",)): return 'the key was seen in the map'
    return None
def discharged(what, args, F):
    """Why this place cannot be reached / cannot panic here, or None."""
    n = what.split('::')[-1]
    r = impossible(F)
    if r: return r
    if n in ('index', 'index_mut') and 'HashMap' in what and any(F.get(f"{q}::{w}({args[0]}{z},{args[1]})") in ('Some', True) for q in ('HashMap', 'map') for w in ('get', 'contains_key', 'get_mut') for z in ('', '.base')): return 'the key was seen in the map'
    if what.startswith('alloc::string::String') or ' for str>' in what or 'impl str>' in what:
        if n in ('index', 'index_mut', 'drain', 'replace_range'): return slice_ok(F, args[0], args[1]) and 'both ends are known character boundaries'
        if n in ('insert', 'insert_str', 'split_off', 'truncate', 'split_at', 'split_at_mut'): return boundary(F, args[0], args[1]) and 'a known character boundary'
        if n == 'remove': return boundary(F, args[0], args[1]) and args[1] != f"len({args[0]})" and (index_ok(F, args[0], args[1])) and 'a known character boundary before the end'
    if n in ('to_digit', 'is_digit', 'from_digit') and len(args) == 2:
        lo, hi = bounds(F, args[1]); return hi is not None and hi <= 36 and lo is not None and lo >= 2 and 'a radix in range'
    if 'alloc::vec::Vec' in what or 'slice' in what or 'array' in what:
        if n in ('index', 'index_mut') and rng(args[1]) is None or n in ('remove', 'swap_remove'): return index_ok(F, args[0], args[1]) and 'a position inside the list'
        if n == 'insert' or n in ('split_off', 'split_at', 'split_at_mut'): return index_ok(F, args[0], args[1], 1) and 'a position inside the list or at its end'
        if n in ('drain', 'index', 'index_mut', 'splice'):
            q = rng(args[1]); ln = listlen(args[0])
            if q is not None and ln is not None:
                a, b = q[0] or '0', q[1] or str(ln); a, b = num(a), num(b)
                return a is not None and b is not None and a <= b <= ln and 'a range inside the list'
        if n in ('windows', 'chunks', 'chunks_exact'): lo, _ = bounds(F, args[1]); return lo is not None and lo > 0 and 'a positive size'
    if n == 'step_by': lo, _ = bounds(F, args[1]); return lo is not None and lo > 0 and 'a positive step'
    if what in ('assert div0', 'assert rem0'):       # reached with a divisor that equals zero: is that excluded by the rest?
        for k, v in F.items():
            m = re.fullmatch(r'eq\(0,(.*)\)|eq\((.*),0\)', k)
            if m and v is True:
                x = m.group(1) or m.group(2); lo, hi = bounds({q: w for q, w in F.items() if q not in (k, x, 'iv:' + x)}, x)
                if lo is not None and lo > 0 or hi is not None and hi < 0: return 'a divisor that is not zero'
    if what == 'assert bounds' and len(args) == 2: return within(F, args[0], args[1]) and 'a position inside the list'
    if n in ('expect_failed', 'unwrap_failed', 'unwrap_failed_inner') or 'panicking' in what:
        for k, v in F.items():
            if not isinstance(v, str): continue
            m = re.fullmatch(r'OnceCell::(get_mut|get)\((.*)\)', k)
            if m and v == 'None' and 'OnceCell::' in k and any(re.match(r'(is\()?OnceCell::(get|set|get_or_init)\(', q) and (w in ('Some', 'Ok', True)) and q != k for q, w in F.items()): return 'the cell was seen or made full on this path'
            m = re.fullmatch(r'OnceCell::set\((.*)\)', k)
            if m and v == 'Err' and any(q.startswith('OnceCell::get(') and w == 'None' for q, w in F.items()): return 'the cell was seen empty on this path'
            if re.fullmatch(r'.*::spawn\(.*Stdio::piped\(\).*\)\.Ok\.0\.(stdin|stdout|stderr)', k) and v == 'None':
                w = k.rsplit('.', 1)[1]
                if re.search(r'Command::' + w + r'\(', k): return f'{w} was set to be piped before the child was started'
            if re.fullmatch(r'(Mutex::lock|RwLock::read|RwLock::write|Mutex::into_inner)\(.*\)', k) and v == 'Err': return 'a lock is poisoned only by another panic'
            # the host details describe the current host (property C06)
            if re.fullmatch(r'Url::host_str\((.*)\)', k) and v == 'None' and any(re.fullmatch(r'(BetterUrl::host_details\(.*\)|.*host_details)(\.Some\.0)?', q) and w in ('Some', 'Domain', 'Ipv4', 'Ipv6') for q, w in F.items()): return 'a URL with host details has a host (C06)'
            if re.fullmatch(r"strip_suffix\(Url::host_str\(.*\)\.Some\.0,'\.'\)", k) and v == 'None' and any(q.endswith('.fqdn_period') and w == 'Some' for q, w in F.items()): return 'host details with a final period describe a host with one (C06)'
            m = re.fullmatch(r"BetterUrl::set_(?:domain_)?host\((.*)\)", k)
            if m and v == 'Err' and (re.search(r"cat\(Url::host_str\(.*\)\.Some\.0,'\.'\)", k)): return 'a domain stays valid with a final period (url crate)'
    return None

def readable(what, args): return f"{what.split('::')[-1] if not what.startswith('assert') else what}({', '.join(a[:60] for a in args)})"

# ------------------------------------------------------------------ the analysis
SKIP = re.compile(r'^testing::|Suitability|::suitability::|assert_suitability|diesel|clap_builder|^glue::caching::cache::')
PANICS = re.compile(r'panick|unwrap_failed|expect_failed|begin_panic|slice_error_fail|slice_index_fail|slice_end_index|slice_start_index|slice_index_order|assert_failed|len_mismatch_fail|panic_cold|^assert|process::(exit|abort)|rt::abort')
def relevant(what): return PANICS.search(what) is not None or PARTIAL.search(what) is not None
def analyse(F, b, inline=(), args=None, maxlen=2, budget=120000):
    """(obligations, Interp): every place a run of `b` may panic, with the path facts; functions in `inline` are followed, others stand alone."""
    models = dict(domain.MODELS)
    if 'config::params' in b['path']: models.update(OWNED)
    I = Interp(F, events=domain.events(), opaque=lambda c: c.get('crate', '').startswith('url_cleaner') and c['path'] not in inline, models=models, budget=budget, maxlen=maxlen)
    I.partial = partial; I.widen = True
    names = args or [f"a{i}" for i in range(b['argc'])]
    cut = None
    try: n = len(I.run(b, [tok(x) for x in names]))
    except Budget as e: cut = f"more paths than the bound ({e})"
    except RecursionError: cut = 'deeper than the bound'
    obs = {}
    for what, xs, facts, stack, sp in I.panics:
        if not relevant(what): continue
        obs.setdefault((what, tuple(xs), sp, stack[-1]), []).append((facts, stack))
    return obs, I, cut

# ------------------------------------------------------------------ every function of the crate
import multiprocessing, os, sys
from runner import Report
DEEP = False; STATE = {}; FOLLOWED = set()
def fresh():
    global FOLLOWED
    FOLLOWED = set(); return FOLLOWED
def attempt(F, b, inline):
    """Obligations of b that are not discharged, how many were, whether it was bounded."""
    bad = {}; good = {}; n = {}; steps = 0; note = None
    for maxlen, budget in (((3, 3000000),) if DEEP else ()) + ((2, 150000), (1, 500000)):
        obs, I, cut = analyse(F, b, inline, maxlen=maxlen, budget=budget); steps += I.steps; FOLLOWED.update(x for x in I.inlined if '{closure' in x)
        if not cut: break
    if cut: note = f"{b['path']}: only the first {I.steps} steps were followed"
    elif maxlen == 1: note = f"{b['path']}: loops followed for 1 element only"
    for (what, xs, sp, inn), fs in obs.items():
        n[(what, sp)] = 1
        for facts, stack in fs:
            r = discharged(what, list(xs), facts)
            if r: good[r] = good.get(r, 0) + 1
            else: bad.setdefault((what, sp), (xs, {k: v for k, v in facts.items() if not k.startswith(('iv:', '¬'))}))
    return bad, good, n, steps, note
def one_function(i):
    F, todo, callers = STATE['F'], STATE['todo'], STATE['callers']
    sys.setrecursionlimit(20000); b = todo[i]; rep = Report('C05'); rep.followed = fresh()
    bad, good, n, steps, note = attempt(F, b, ())
    rep.count('functions'); rep.count('places', len(n)); rep.count('steps', steps)
    for r, k in good.items(): rep.count('discharged: ' + r, k)
    if note: rep.note(note)
    def report(bad, via):
        for (what, sp), (xs, facts) in bad.items():
            rep.bad(f"{b['path']}:{what}", f"{b['path']} can panic: {readable(what, xs)}" + (f" (called from {via})" if via else '') + f" when {', '.join(f'{k}={v}' for k, v in list(facts.items())[-6:])[:500] or 'called'}", sp)
    if not bad: return rep
    # a private function is judged by what its callers pass
    if b.get('vis') == 'pub': report(bad, None); return rep
    front = [(b, (b['path'],))]; depth = 0; seen = set(); reached = set()
    while front and depth < 3:
        depth += 1; nxt = []
        for t, inl in front:
            cs = callers.get(t['key'], [])
            if not cs: report(bad, None if t is b else t['path']); return rep
            for c in cs:
                if c is b or c['key'] in seen: continue
                seen.add(c['key'])
                bd, good, n, steps, note = attempt(F, c, inl)
                reached |= set(n)
                bd = {k: v for k, v in bd.items() if k in bad}
                if not bd: rep.count('decided with the callers'); continue
                if c.get('vis') == 'pub' or depth == 3: report(bd, c['path']); return rep
                nxt.append((c, inl + (c['path'],)))
        front = nxt
    report({k: v for k, v in bad.items() if k not in reached}, 'no analysed path of a caller')
    return rep
def crate(rep, F, exempt=()):
    todo = [b for b in F.local if b['dk'] in ('Fn', 'AssocFn') and not b.get('derived') and not SKIP.search(b['path'])]
    callers = {}
    owner = {}
    for b in F.local:
        o = b
        if b['dk'] == 'Closure':
            root = [x for x in todo if x['key'] == b.get('root')] or [x for x in todo if x['path'] == b['path'].split('::{closure')[0]]
            o = root[0] if root else None
        if o is None: continue
        for c, *_ in F.callees(b):
            if c and c.get('crate', '').startswith('url_cleaner') and o not in callers.setdefault(c.get('key'), []): callers[c.get('key')].append(o)
    STATE.update(F=F, todo=todo, callers=callers); followed = set()
    def sweep():
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool: out = pool.map(one_function, range(len(STATE['todo'])), chunksize=4)
        for r in out:
            followed.update(r.followed)
            for k, v in r.counts.items(): rep.count(k, v)
            for n in r.notes: rep.note(n)
            for v in r.violations:
                if not any(e in v['key'] for e in exempt): rep.bad(v['key'], v['what'], v['where'])
                else: rep.count('left to C30')
    sweep()
    # closures handed to functions outside the crate: on their own
    for b in F.local:
        if b['dk'] == 'Closure': owner[b['key']] = b
    STATE['todo'] = [b for b in owner.values() if b['path'] not in followed and not SKIP.search(b['path']) and not b.get('derived')]
    rep.count('closures on their own', len(STATE['todo']))
    sweep()
