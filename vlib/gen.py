"""Runs the extractor and assembles the Verus crate."""
from . import nomsrc
import json, os, re, subprocess
from . import contracts

HERE = contracts.HERE
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

FILES = [
    ('lib.rs', ''),
    ('properties.rs', 'properties'),
    ('value_types.rs', 'value_types'),
    ('components.rs', 'components'),
    ('components/alarm.rs', 'components::alarm'),
    ('components/date_time.rs', 'components::date_time'),
    ('components/event.rs', 'components::event'),
    ('components/other.rs', 'components::other'),
    ('components/todo.rs', 'components::todo'),
    ('components/venue.rs', 'components::venue'),
    ('calendar.rs', 'calendar'),
    ('calendar/calendar_component.rs', 'calendar::calendar_component'),
    ('parser/mod.rs', 'parser'),
    ('parser/parsed_string.rs', 'parser::parsed_string'),
    ('parser/utils.rs', 'parser::utils'),
    ('parser/parameters.rs', 'parser::parameters'),
    ('parser/properties.rs', 'parser::properties'),
    ('parser/components.rs', 'parser::components'),
    ('parser/calendar.rs', 'parser::calendar'),
]

METHODS = {m: 'x_' + m for m in (
    'replace chars len push push_str is_char_boundary to_lowercase contains to_owned as_str starts_with strip_prefix '
    'is_empty split parse is_alphanumeric'.split())}
ASSOC = {m: 'x_' + m for m in 'from into try_from try_into from_str default clone to_string as_ref from_iter'.split()}
METHODS.update(ASSOC)
METHODS.update({'into_iter': 'x_ii', 'iter': 'x_iter'})
PATHS = {
    'fmt::Error': 'Error', 'std::fmt::Error': 'Error', 'fmt::Write': 'Write', 'fmt::Formatter': 'Formatter',
    'std::fmt::Formatter': 'Formatter', 'fmt::Result': 'FmtResult', 'std::fmt::Result': 'FmtResult',
    'chrono::Duration': 'Duration', 'chrono_tz::Tz': 'Tz', 'chrono_tz::ParseError': 'TzParseError', 'chrono::TimeZone': 'TimeZone', 'chrono_tz::OffsetName': 'OffsetName', 'std::time::Duration': 'StdDuration', 'fmt::Display': 'Display', 'std::fmt::Display': 'Display',
    'IntoIterator': 'XIntoIter', 'PartialEq': 'XEq', 'nom::error::Error': 'NomError', 'mem::take': 'mem::take', 'std::mem::take': 'mem::take',
    'String::new': 'x_string_new', 'String::with_capacity': 'x_string_with_capacity',
}
INLINE = {}


def vx_binary():
    exe = os.path.join(HERE, 'vx', 'target', 'release', 'vx')
    src = os.path.join(HERE, 'vx', 'src', 'main.rs')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(HERE, 'vx'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('building the extractor failed:\n' + r.stdout)
    return exe


def config(fns, drops):
    return {
        'files': [{'path': os.path.join(SRC, p), 'module': m} for p, m in FILES],
        'fns': fns, 'drop': sorted(drops), 'paths': PATHS, 'methods': METHODS, 'assoc': ASSOC, 'inline': INLINE,
    }


def extract(work, fns, drops):
    os.makedirs(work, exist_ok=True)
    cfg, out = os.path.join(work, 'vx.json'), os.path.join(work, 'vx.out.json')
    json.dump(config(fns, drops), open(cfg, 'w'))
    r = subprocess.run([vx_binary(), cfg, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('extractor failed: ' + r.stdout)
    return json.load(open(out))['files']


LIT = re.compile(r'(?<![A-Za-z0-9_])(r#"(?P<r>.*?)"#|"(?P<s>(?:[^"\\]|\\.)*)")', re.S)
ESC = {'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', '"': '"', '0': '\0', "'": "'"}


def literals(text):
    out = []
    for m in LIT.finditer(text):
        if m.group('r') is not None:
            out.append(m.group('r'))
        else:
            s = m.group('s')
            s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), s)
            s = re.sub(r'\\\n\s*', '', s)
            out.append(re.sub(r'\\(.)', lambda k: ESC.get(k.group(1), k.group(1)), s))
    return out


def rs_char(c):
    return {"'": "'\\''", '\\': "'\\\\'", '\n': "'\\n'", '\r': "'\\r'", '\t': "'\\t'"}.get(
        c, "'%s'" % c if 32 <= ord(c) < 127 else "'\\u{%x}'" % ord(c))


def rs_str(s):
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(
        c, c if 32 <= ord(c) < 127 else '\\u{%x}' % ord(c)) for c in s) + '"'


class Lits:
    def __init__(self):
        self.ix = {}

    def name(self, s):
        if s not in self.ix:
            self.ix[s] = 'l%d' % len(self.ix)
        return self.ix[s]

    def text(self):
        out = ['pub mod lits {', '#[allow(unused_imports)] use vstd::prelude::*;', '#[allow(unused_imports)] use crate::spec::*;']
        for s, n in self.ix.items():
            v = 1
            for c in s:
                v = v * 0x110000 + ord(c)
            q = rs_str(s)
            sq = 'seq![%s]' % ', '.join(rs_char(c) for c in s) if s else 'Seq::<char>::empty()'
            ens = ['enc(%s@) == %dint' % (q, v), '%s@.len() == %d' % (q, len(s))]
            up = bool(re.fullmatch(r'[A-Z-]+', s))
            if up:
                ens.append('upname(%s@)' % q)
            if len(s) <= 4:
                ens.append('%s@ == %s' % (q, sq))
            out.append('pub proof fn %s() ensures %s { reveal_strlit(%s); assert(%s@ =~= %s); assert(enc(%s) == %dint) by(compute); %s}'
                       % (n, ', '.join(ens), q, q, sq, sq, v, 'assert(upname(%s)) by(compute); ' % sq if up else ''))
        out.append('}')
        return '\n'.join(out)


def spec_deps(text):
    """Verus orders the functions of a crate by what they mention; a trait impl's own specification
    functions are mentioned by the trait only, so every body of the impl mentions them here"""
    out = []
    for m in re.finditer(r'open spec fn (\w+)\(([^{]*?)\)\s*->', text):
        ps, call = [], []
        depth, cur, parts = 0, '', []
        for c in m.group(2):
            depth += c in '(<[' 
            depth -= c in ')>]'
            if c == ',' and depth == 0:
                parts.append(cur); cur = ''
            else:
                cur += c
        parts.append(cur)
        for k, a in enumerate(x.strip() for x in parts if x.strip()):
            if a in ('self', '&self'):
                ps.append('vx_d%d: Self' % k)
                call.append(('&' if a[0] == '&' else '') + 'vx_d%d' % k)
            else:
                ps.append('vx_d%d: %s' % (k, a.split(':', 1)[1].strip()))
                call.append('vx_d%d' % k)
        c = 'Self::%s(%s)' % (m.group(1), ', '.join(call))
        if ps:
            out.append('assert(forall|%s| #[trigger] %s == %s);' % (', '.join(ps), c, c))
    return 'proof { ' + ' '.join(out) + ' }\n' if out else ''


class Crate:
    """the generated crate, with the line range of every piece"""

    def __init__(self, files, fns, external=(), dropped=(), specs=None, nohide=()):
        self.nohide = set(nohide)
        self.files, self.fns = files, fns
        self.external, self.dropped = dict(external), set(dropped)
        self.lits = Lits()
        self.lines, self.map = [], []
        self.errors = []
        self.pieces = {}
        self.specs = specs or [os.path.join(HERE, 'verus', f) for f in
                               ['shim.rs', 'shim_col.rs', 'shim_time.rs', 'shim_nom.rs', 'spec.rs', 'spec_parse.rs', 'model.rs']  + sorted(f for f in os.listdir(os.path.join(HERE, 'verus'))
                                                               if f.startswith('lemma') and f.endswith('.rs'))]
        self.build()

    def emit(self, text, tag=None):
        a = len(self.lines) + 1
        self.lines.extend(text.split('\n'))
        if tag:
            self.map.append((a, len(self.lines), tag))

    def fn_text(self, p, detached=False):
        sc = self.fns.get(p['id']) or self.fns.get(p.get('of'), {})
        ext = None
        if p['body'] is not None:
            if p['id'] in self.external:
                ext = self.external[p['id']]
            elif not p['known'] or not sc.get('kind') == 'fn':
                ext = 'no contract'
            elif p['problems']:
                ext = 'not extractable: ' + '; '.join(p['problems'])
            elif 'trusted' in sc:
                ext = 'trusted: ' + sc['trusted']
            elif 'bounded' in sc:
                ext = 'bounded: ' + sc['bounded']
        p['external'] = ext
        if ext or ('detach' in sc and not detached):
            return '#[verifier::external_body]\n' + p['sig'] + '\n{ unimplemented!() }'
        t = p['text']
        pre = ''.join('hide(%s); ' % h for h in sc.get('hide', []) if h not in self.nohide) + self.deps
        if pre and '\n{' in t:
            a, b = t.split('\n{', 1)
            t = a + '\n{\n' + pre + b
        if 'vx_loop' in t or re.search(r'\b(while|loop)\b', t):
            t = '#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n' + t
        ls = []
        for s in literals(t) + sc.get('lits', []):
            if s not in ls:
                ls.append(s)
        calls = 'proof { ' + ' '.join('crate::lits::%s();' % self.lits.name(s) for s in ls) + ' }'
        return t.replace('proof { crate::lits::all(); }', calls)

    def build(self):
        self.emit('#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, deprecated, non_snake_case)]\n'
                  'use vstd::prelude::*;\nverus! {')
        for s in self.specs:
            nm = os.path.splitext(os.path.basename(s))[0]
            text = open(s).read()
            if nm == 'shim_nom':
                text, self.nom, self.nom_errors = nomsrc.fill(text)
            def lits_macro(m):
                return 'proof { ' + ' '.join('crate::lits::%s();' % self.lits.name(x) for x in literals(m.group(1))) + ' }'
            text = re.sub(r'lits!\(([^)]*)\);?', lambda m: ' '.join('crate::lits::%s();' % self.lits.name(x) for x in literals(m.group(1))), text)
            self.emit(text, ('spec', nm))
        tree = {}
        for f in self.files:
            if 'error' in f:
                self.errors.append('%s: %s' % (f['path'], f['error']))
                continue
            node = tree
            for part in (f['module'].split('::') if f['module'] else []):
                node = node.setdefault(part, {})
            node['#'] = f
        self.module(tree)
        self.emit(self.lits.text(), ('spec', 'lits'))
        self.emit('} // verus!\nfn main() {}')

    def module(self, node):
        f = node.get('#')
        if f:
            self.errors += ['%s: %s' % (f['module'], e) for e in f['errors']]
            if f['module']:
                self.emit('use vstd::prelude::*;\nuse crate::shim::*;\nuse crate::spec::*;\nuse crate::model::*;\nbroadcast use crate::model::group_model;')
            self.emit_pieces(f)
        for k, sub in node.items():
            if k != '#':
                self.emit('pub mod %s {' % k)
                self.module(sub)
                self.emit('}')

    def emit_pieces(self, f):
        skip, opened, self.deps = 0, '', ''
        later = []
        for p in f['pieces']:
            key = (p['kind'], p['id'])
            if skip:
                if p['kind'] == 'open':
                    skip += 1
                if p['kind'] == 'close':
                    skip -= 1
                continue
            if p['id'] in self.dropped and p['kind'] in ('use', 'const', 'type', 'fn', 'open'):
                if p['kind'] == 'open':
                    skip = 1
                continue
            if p['kind'] in ('open', 'close'):
                self.deps = ''
            if p['kind'] == 'inject' and opened.startswith('impl'):
                self.deps = spec_deps(p['text'])
            if p['kind'] == 'open':
                opened = p['text'].lstrip()
            if p['kind'] == 'fn':
                p['module'] = f['module']
                p['path'] = f['path']
                self.pieces[p['id']] = p
                self.emit(self.fn_text(p), ('fn', p['id']))
                if 'detach' in self.fns.get(p['id'], {}) and not p['external']:
                    later.append((p, opened))
            else:
                self.emit(p['text'], (p['kind'], p['id']))
            if p['kind'] == 'close' and later:
                # the bodies of trait methods, checked outside the impl: Verus orders the functions of a crate by
                # what an impl reaches, and would not yet know there that functions are Fn values
                for q, o in later:
                    m = re.match(r'impl\s*(<.*?>)?\s*(\w[^{]*?) for ([^{]*?)\s*\{', o, re.S)
                    deps, self.deps = self.deps, ''
                    t = re.sub(r'\bfn (x_)?', 'pub fn vx_d_', self.fn_text(q, True), count=1)
                    self.deps = deps
                    t = t.replace('Self :: Error', '< Self as %s > :: Error' % m.group(2)).replace('Self :: Err ', '< Self as %s > :: Err ' % m.group(2))
                    self.emit('impl %s %s {\n%s\n}' % (m.group(1) or '', m.group(3), t), ('fn', q['id']))
                later = []

    def text(self):
        return '\n'.join(self.lines) + '\n'

    def at(self, line):
        for a, b, tag in self.map:
            if a <= line <= b:
                return tag
        return None
