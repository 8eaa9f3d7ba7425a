"""Reads the contract files (contracts/*.ct) and turns them into a vx configuration.

A contract file is a list of blocks.  A block starts with

    @fn ID [, ID ...]       contract of the function(s) with these extractor ids
    @impl ID / @trait ID    text for an impl or trait block (also @type, @const)
    @drop ID                item is left out (reason on the same line after #)

and continues with sections, each running to the next line that starts with @:

    @props C01 C05          properties whose check needs this function
    @requires / @ensures / @decreases
    @loop N invariant|invariant_except_break|ensures|decreases
    @hint entry|exit|after NAME|call NAME#N|loop_start N|loop_end N|loop_pre N
    @closure N              annotated closure head
    @inline name=how ...    @method name=new ...   @path a::b=c ...
    @arg name#n             extra (ghost) argument
    @value name             text that stands for that name (recursion through a function value)
    @inject / @head / @super / @attr / @replace / @generics / @args / @where / @ret / @name
    @hide f g               definitions the proof of this function does not look into
    @lits a|b|c             further literals whose facts are needed
    @mono                   default method of a trait, verified once per implementing type
    @detach                 trait method whose body is checked outside its impl, against the @ensures given here
    @trusted reason         body is not verified: the contract is an assumption
    @bounded reason         body is not verified here: the harness covers it, bounded
"""
import glob, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse():
    fns, drops = {}, {}
    for path in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.ct'))):
        cur, buf, key = [], [], None

        def flush():
            nonlocal buf, key
            if key is None:
                buf = []
                return
            text = '\n'.join(buf).strip('\n')
            for c in cur:
                put(c, key, text)
            buf, key = [], None

        def put(c, key, text):
            k = key.split(None, 1)
            h, rest = k[0], (k[1] if len(k) > 1 else '')
            if h in ('requires', 'ensures', 'decreases', 'inject', 'head', 'super', 'attr', 'replace',
                     'generics', 'args', 'where', 'name'):
                t = (rest + '\n' + text).strip()
                if h in ('requires', 'ensures') and h in c:
                    t = c[h].rstrip().rstrip(',') + ',\n' + t
                if h == 'inject' and h in c:
                    t = c[h] + '\n' + t
                c[h] = t
            elif h == 'ret':
                c['ret_type'] = (rest + text).strip()
            elif h == 'loop':
                n, what = rest.split()
                c.setdefault('loops', {}).setdefault(n, {})[what] = text
            elif h == 'hint':
                w = rest.split()
                hs = c.setdefault('hints', {})
                if w[0] in ('entry', 'exit'):
                    hs[w[0]] = text
                else:
                    hs.setdefault(w[0], {})[' '.join(w[1:])] = text
            elif h == 'closure':
                c.setdefault('closures', {})[rest] = text.strip()
            elif h in ('inline', 'method', 'path'):
                d = c.setdefault({'inline': 'inline', 'method': 'methods', 'path': 'paths'}[h], {})
                for p in (rest + ' ' + text).split():
                    a, b = p.split('=', 1)
                    d[a] = b
            elif h == 'arg':
                c.setdefault('extra_args', {})[rest] = text
            elif h == 'value':
                c.setdefault('values', {})[rest] = text.strip()
            elif h == 'props':
                c['props'] = (rest + ' ' + text).split()
            elif h == 'hide':
                c['hide'] = (rest + ' ' + text).split()
            elif h == 'lits':
                c['lits'] = (rest + text).split('|')
            elif h in ('trusted', 'bounded', 'nolits', 'opaque', 'chain', 'mono', 'detach'):
                c[h] = (rest + ' ' + text).strip() or 'yes'
            else:
                raise SystemExit('%s: unknown section @%s' % (path, key))

        for ln in open(path):
            ln = ln.rstrip('\n')
            if ln.startswith('#!'):
                continue
            if ln.startswith('@'):
                flush()
                m = re.match(r'@(fn|impl|trait|const|type)\s+(.*)', ln)
                if m:
                    # ids are separated by ' & ' (ids contain commas)
                    cur = []
                    for i in m.group(2).split(' & '):
                        i = i.strip()
                        cur.append(fns.setdefault(i, {}))
                        cur[-1]['kind'] = m.group(1)
                        cur[-1].setdefault('src', os.path.basename(path))
                    continue
                m = re.match(r'@drop\s+([^#]*)(#.*)?$', ln)
                if m:
                    drops[m.group(1).strip()] = (m.group(2) or '').strip('# ')
                    cur = []
                    continue
                key = ln[1:]
            else:
                buf.append(ln)
        flush()
    return fns, drops
