"""The bodies of nom's combinators, taken from the nom source that cargo builds the crate with.

A marker line `//@nom FILE NAME [param=expr ..] [inv=..]` in verus/shim_nom.rs precedes an `x_parse` without body; the body is
put in from the function (or macro) NAME of FILE.  What the text loses on the way: see DESIGN.md.
"""
import os, re, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def source():
    try:
        lock = open(os.path.join(HERE, 'harness', 'Cargo.lock')).read()
        v = re.search(r'name = "nom"\nversion = "(7\.[^"]*)"', lock).group(1)
    except Exception:
        return None
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    for c in [home, '/root/.cargo', '/usr/local/cargo']:
        for d in sorted(glob.glob(os.path.join(c, 'registry/src/*/nom-' + v + '/src'))):
            return d
    return None


def block(t, at):
    """the text of the brace block that starts at or after `at`, without its braces, and its end"""
    i = t.index('{', at)
    n, j = 0, i
    while True:
        n += {'{': 1, '}': -1}.get(t[j], 0)
        j += 1
        if n == 0:
            return t[i + 1:j - 1], j


def until(t, at, stops=';'):
    n, j = 0, at
    while not (n == 0 and t[j] in stops):
        n += {'(': 1, '{': 1, '[': 1, ')': -1, '}': -1, ']': -1}.get(t[j], 0)
        j += 1
    return j


def closure(d, file, name):
    t = open(os.path.join(d, file)).read()
    i = t.index('\npub fn %s<' % name)
    body, _ = block(t, t.index('\n{\n', i))
    m = re.match(r'\s*move \|(mut )?(\w+): (\w+)\| ', body)
    rest = body[m.end():].strip()
    return m.group(1) or '', m.group(2), rest


def arms(d, file, macro):
    """pattern and template of every arm of a macro"""
    t = open(os.path.join(d, file)).read()
    body = re.search(r'\nmacro_rules! %s\((.*?)\n\);' % macro, t, re.S).group(1)
    return [re.sub(r'\s+', ' ', x) for x in re.findall(r'\) => \((.*?)\n  \}?\);', body, re.S)]


def alt(d, n):
    t = open(os.path.join(d, 'branch/mod.rs')).read()
    top, _ = block(t, t.index('fn choice(&mut self, input: Input)', t.index('macro_rules! alt_trait_impl')))
    more, last = arms(d, 'branch/mod.rs', 'alt_trait_inner')

    def inner(k, err):
        # (the macro's own e and the e it is given are two variables)
        u = (more if k < n else last).replace('(e)', '(e%d)' % k).replace('$self.$it', 'self.t.%d' % k).replace('$input', 'input').replace('$err', err)
        if k < n:
            assert 'succ!($it, alt_trait_inner!($self, input, err, $($id)+))' in (more.replace('$input', 'input'))
            u = re.sub(r'succ!\(.*?\$\(\$id\)\+\)\)', lambda m: inner(k + 1, 'err'), u, count=1)
        return u
    assert 'alt_trait_inner!(1, self, input, e, $($id)+)' in top
    top = top.replace('alt_trait_inner!(1, self, input, e, $($id)+)', inner(1, 'e'))
    return '', 'input', top.replace('self.0', 'self.t.0')


def tup(d, n):
    t = open(os.path.join(d, 'sequence/mod.rs')).read()
    top, _ = block(t, t.index('fn parse(&mut self, input: Input)', t.index('macro_rules! tuple_trait_impl')))
    assert top.strip() == 'tuple_trait_inner!(0, self, input, (), $($name)+)', top
    first, more, last = [unbrace(x) for x in arms(d, 'sequence/mod.rs', 'tuple_trait_inner')]

    def inner(k, inp, parsed):
        # (as with e above, every arm has its own o)
        u = re.sub(r'\bo\b', 'o%d' % k, first if k == 0 else more if k < n - 1 else last).replace('$self.$it', 'self.t.%d' % k).replace('$input', inp)
        u = u.replace('$($parsed)*', parsed)
        if k < n - 1:
            nxt = 'o0' if k == 0 else parsed + ', o%d' % k
            u = re.sub(r'succ!\(.*?\$\(\$id\)\+\)\)', lambda m: inner(k + 1, 'i', nxt), u, count=1)
        return u
    return '', 'input', inner(0, 'input', '')


def unbrace(x):
    return x.strip()[1:].strip() if x.strip().startswith('{') else x


def method(d, file, head, name):
    t = open(os.path.join(d, file)).read()
    i = t.index(head)
    m = re.search(r'fn %s\(&mut self, (\w+): \w+\)' % name, t[i:])
    body, _ = block(t, i + m.end())
    return '', m.group(1), body.strip()


def function(d, file, name, head):
    t = open(os.path.join(d, file)).read()
    i = t.index(head) if head else 0
    m = re.compile(r'\n *(?:pub )?fn %s\b[^(]*\(\s*(&?\w+)' % name).search(t, i)
    # the body is the first block that starts a line or follows the result type
    body, _ = block(t, t.index('{\n', m.end()) if not head else t.index('{\n', m.end()))
    return '', m.group(1).replace('&', ''), body.strip()


def adapt(mut, par, t, names, inv, ext, entry='', subs=()):
    t = re.sub(r'//[^\n]*', '', t)
    for a, b in subs:
        rx = r'\s*'.join(re.escape(x) for x in a.split())
        if not re.search(rx, t):
            raise ValueError('%s is not in the source' % a)
        t = re.sub(rx, lambda m: b, t)
    t = re.sub(r'(?m)^\s*Err\(Err::Incomplete\(\w+\)\) => [^\n]*\n', '', t)
    for p, e in names.items():
        t = re.sub(r'\b%s\.parse\(' % p, '%s.parse(' % e, t)
    t = t.replace('crate::lib::std::vec::', '').replace('.parse(', '.x_parse(')
    t = re.sub(r'\b(\w+)\.clone\(\)', r'\1', t)
    t = re.sub(r'\b(\w+)\.input_len\(\)', r'x_input_len(\1)', t)
    t = re.sub(r'\b(?:E|Error)::(from_error_kind|append|add_context)\(', r'x_\1(', t)
    t = re.sub(r'\b(\w+)\.or\((\w+)\)', r'x_or(\1, \2)', t)
    t = t.replace('(i, context, e)', '(i, e)').replace('self(i)', '(*self)(i)')
    # `let P = X?;`
    out, at = '', 0
    for m in re.finditer(r'let [^=;]* = ', t):
        if m.start() < at:
            continue
        j = until(t, m.end())
        x = t[m.end():j]
        if x.endswith('?'):
            out += t[at:m.end()] + 'match %s { Ok(vx_o) => vx_o, Err(vx_e) => return Err(vx_e) }' % x[:-1]
            at = j
    t = out + t[at:]
    # `X.map(|P| Y)` at the end
    m = re.search(r'([\w.]+\([\w.]*\))\.map\(\|(.*?)\| (.*)\)\s*(\}?)\s*$', t, re.S)
    if m:
        t = t[:m.start()] + 'match %s { Ok(%s) => Ok(%s), Err(vx_e) => Err(vx_e) } %s' % m.groups()
    t = t.replace('loop {', 'loop %s {' % inv)
    if ext and 'loop' in t:
        t = re.sub(r'=> (return Ok\(.*\)),\n', lambda m: '=> { proof { %s } %s }\n' % (ext, m.group(1)), t, count=1)
    elif ext:
        t = 'let vx_r = {\n%s\n};\nproof { %s }\nvx_r' % (t, ext)
    if par == 'self':
        return 'broadcast use group_nom; proof { %s }\n%s' % (entry, t)
    return 'broadcast use group_nom; proof { %s } let %s%s = vx_i;\n%s' % (entry, mut, par, t)


PAT = re.compile(r'//@nom (\S+) (\S+) *([^\n]*)\n((?:    //@(?:inv|exit|entry|sub) [^\n]*\n)*)(\s*)#\[verifier::external_body\]\n(\s*(?:pub )?fn x_parse\w*(?:<[^>]*>)?\(&self, )i(: [^\n]*?) \{ unimplemented!\(\) \}')

PAT2 = re.compile(r'//@nomfn (\S+) (\w+)( \S+)?\n((?://@(?:exit|entry|sub) [^\n]*\n)*)#\[verifier::external_body\]\n(pub fn .*?\n)\{ unimplemented!\(\) \}', re.S)


def fill(text):
    """-> text with the bodies, the names of the combinators under contract, the errors"""
    d = source()
    done, errs = [], []

    def put(m):
        file, name, args, inv = m.group(1), m.group(2), m.group(3), m.group(4)
        names = dict(a.split('=', 1) for a in args.split())
        try:
            if d is None:
                raise ValueError('no source of nom 7')
            if name.startswith('alt'):
                c = alt(d, int(name[3:]))
            elif name.startswith('tuple'):
                c = tup(d, int(name[5:]))
            elif file == 'internal.rs':
                head = {'F': 'Parser<I, O, E> for F\n', 'Map': ' for Map<F, G, O1> {'}[name]
                c = method(d, file, head, 'parse')
            else:
                c = closure(d, file, name)
            body = adapt(*c, names, *[''.join(re.findall('//@%s (.*)' % k, inv)) for k in ('inv', 'exit', 'entry')], re.findall('//@sub (.*) ~>(.*)', inv))
        except Exception as e:
            errs.append('nom %s: %s' % (name, e))
            return m.group(0)
        done.append(name)
        attr = '#[verifier::loop_isolation(false)]\n' if 'loop' in body else ''
        return '%s%s%s%s\n{\n%s\n}' % (m.group(5).replace('\n', ''), attr, m.group(6).replace('&self, ', '&self, vx_i', 1), m.group(7).replace('i@', 'vx_i@'), body)
    def putfn(m):
        file, name, head, more, sig = m.groups()
        try:
            if d is None:
                raise ValueError('no source of nom 7')
            c = function(d, file, name, (head or '').strip().replace('_', ' '))
            body = adapt(*c, {}, *[''.join(re.findall('//@%s (.*)' % k, more)) for k in ('inv', 'exit', 'entry')], re.findall('//@sub (.*) ~>(.*)', more))
        except Exception as e:
            errs.append('nom %s: %s' % (name, e))
            return m.group(0)
        done.append(name)
        return sig + '{\n' + body + '\n}'
    text = PAT2.sub(putfn, text)
    return PAT.sub(put, text), done, errs


if __name__ == '__main__':
    t, done, errs = fill(open(os.path.join(HERE, 'verus/shim_nom.rs')).read())
    print(t)
    print(done, errs)
