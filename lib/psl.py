"""Registrable domains, by the public suffix list the program's own dependency was built from."""
import glob, os, re

def rules(repo):
    try: m = re.search(r'name = "psl"\nversion = "([^"]+)"', open(os.path.join(repo, 'Cargo.lock')).read())
    except OSError: return None
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    for p in glob.glob(f"{home}/registry/src/*/psl-{m[1] if m else '*'}/data/rules.txt"):
        return {x.strip() for x in open(p, encoding='utf8') if x.strip() and not x.startswith('//')}
    return None

class List:
    def __init__(self, repo):
        self.r = set()
        for x in rules(repo) or ():
            try: self.r.add(x if x.isascii() else '.'.join(y if y in '*!' else y.encode('idna').decode() for y in x.split('.')))
            except UnicodeError: pass
        self.known = bool(self.r)
    def suffix(self, host):
        """The public suffix of a host name."""
        ls = host.split('.'); n = 1
        for i in range(len(ls)):
            x = '.'.join(ls[i:])
            if '!' + x in self.r: return '.'.join(ls[i + 1:])
            if x in self.r: n = max(n, len(ls) - i)
            if '*.' + '.'.join(ls[i + 1:]) in self.r and i + 1 < len(ls): n = max(n, len(ls) - i)
        return '.'.join(ls[-n:])
    def domain(self, host):
        """The registrable domain of a host name, if it has one."""
        s = self.suffix(host)
        if s == host: return None
        return host[:-len(s) - 1].split('.')[-1] + '.' + s
