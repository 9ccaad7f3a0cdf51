#!/usr/bin/env python3
"""Assembles the Verus input from (a) the text extracted from /repo's current source and (b) the
contract files in this directory.  See DESIGN.md, "The extraction" and "Contracts"."""
import json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Contract:
    def __init__(self, path):
        self.path = path
        self.result = 'r'
        self.sig = []        # (kind, tag, text) kind in requires/ensures/decreases/no_unwind...
        self.loops = {}      # ordinal -> list of lines
        self.first = []      # text put at the start of the body
        self.last = []       # text put before the tail expression
        self.attrs = []
        self.inline = {}     # anchor regex -> text inserted before that statement
        self.generics = None
        self.where = ''
        self.file = None
        self.from_spec = None
        self.ret = None
        self.safety = None
        self.hide = []
        self.trusted = None  # reason, if body is not verified
        self.variants = []   # other proofs of the same contract, tried when this one does not fit

    def variant(self):
        v = Contract(self.path)
        for k in ('result', 'sig', 'file', 'from_spec', 'ret', 'safety', 'trusted', 'generics', 'where'):
            setattr(v, k, getattr(self, k))
        v.attrs = list(self.attrs)
        v.hide = list(self.hide)
        return v


def parse_contracts(files):
    """Format: `@fn PATH`, then sections `@requires`, `@ensures TAGS`, `@decreases`, `@first`,
    `@loop N`, `@attr`, `@before REGEX`, `@after REGEX`, `@trusted REASON`; text follows the section line."""
    out, cur, sec = {}, None, None
    for fn in files:
        for n, line in enumerate(open(fn), 1):
            line = line.rstrip('\n')
            if line.startswith('//#'):
                continue
            m = re.match(r'@(\w+)\s*(.*)$', line)
            if m:
                k, arg = m.group(1), m.group(2).strip()
                if k == 'fn':
                    cur = Contract(arg)
                    cur.file = os.path.basename(fn)
                    assert arg not in out, arg
                    out[arg] = base = cur
                    sec = None
                elif k == 'variant':
                    # what follows is another proof (loops, ghost code) of the same contract
                    cur = base.variant()
                    base.variants.append(cur)
                    sec = None
                elif k == 'result':
                    cur.result = arg
                elif k == 'ret':
                    # the concrete type behind an `impl Trait` return type
                    cur.ret = arg
                elif k == 'safety':
                    # what an obligation without a tag of its own belongs to
                    cur.safety = arg
                elif k == 'from_spec':
                    cur.from_spec = arg
                elif k == 'grammar':
                    # `@grammar TAGS | SPEC | VIEW`: the iterator is parameter `tokens` (spelled %T)
                    tags, spec, view = [x.strip() for x in arg.split('|')]
                    cur.sig.append(['requires', '', ['wf(*old(%T)),']])
                    cur.sig.append(['ensures', 'C09 C18', ['wf(*final(%T)),', 'final(%%T)@ == (%s).s,' % spec]])
                    cur.sig.append(['ensures', tags, ['(%s).r is Ok ==> r is Ok && (%s) == (%s).r->Ok_0,' % (spec, view, spec)]])
                    cur.sig.append(['ensures', 'C13', ['(%s).r is Err ==> r is Err && verr(r->Err_0) == (%s).r->Err_0,' % (spec, spec)]])
                    sec = None
                elif k == 'hide':
                    # specification functions kept folded in this body
                    cur.hide = arg.split()
                elif k == 'trusted':
                    cur.trusted = arg
                elif k == 'attr':
                    cur.attrs.append(arg)
                elif k in ('requires', 'ensures', 'decreases', 'recommends', 'opens_invariants', 'no_unwind'):
                    sec = []
                    cur.sig.append([k, arg, sec])
                elif k == 'first':
                    sec = cur.first
                elif k == 'last':
                    sec = cur.last
                elif k == 'loop':
                    # `@loop N`, or `@loop /REGEX/`: the loop over the iterator whose initialiser (spaces
                    # removed) matches; %it is that iterator, %acc the container filled since
                    sec = cur.loops.setdefault(arg if arg.startswith('/') else int(arg or 0), [])
                elif k in ('before', 'after', 'replace'):
                    sec = []
                    cur.inline.setdefault((k, arg), sec)
                else:
                    raise SystemExit('%s:%d: unknown section @%s' % (fn, n, k))
                continue
            if sec is not None and line.strip():
                sec.append(line)
    return out


strings_of = {'lexer'}
CLOSURE = re.compile(r'__closure_ens\s*!\s*\(')


def match_paren(s, i, op='(', cl=')'):
    d = 0
    instr = False
    while i < len(s):
        ch = s[i]
        if instr:
            if ch == '\\':
                i += 1
            elif ch == '"':
                instr = False
        elif ch == '"':
            instr = True
        elif ch == "'" and i + 2 < len(s) and (s[i + 2] == "'" or (s[i + 1] == '\\' and "'" in s[i + 2:i + 5])):
            i = s.index("'", i + 2)
        elif ch == op:
            d += 1
        elif ch == cl:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


def fix_closures(body):
    """`|t : & Token| -> bool { __closure_ens ! (E) ; B }`  =>  `|t: &Token| -> (b: bool) ensures b == (E) { B }`"""
    while True:
        m = CLOSURE.search(body)
        if not m:
            return body
        e = match_paren(body, m.end() - 1)
        expr = body[m.end():e]
        # the `{` that opens the closure body
        o = body.rindex('{', 0, m.start())
        assert body[o + 1:m.start()].strip() == '', body[o:m.start()]
        rest = body[e + 1:].lstrip()
        assert rest.startswith(';')
        rest = rest[1:]
        a = body.rindex('->', 0, o)
        ret = body[a + 2:o].strip()
        body = body[:a] + '-> (__b: %s) ensures __b == (%s) {' % (ret, expr) + rest


TAIL = re.compile(r'__tail_marker\s*!\s*\(\s*\)\s*;')
LOOP = re.compile(r'loop\s*\{\s*__loop_marker\s*!\s*\((\d+)\)\s*;')


def subst(text, f):
    if '%T' in text:
        ins = [i for i in f['inputs'] if i['name'] != 'self' and 'StatementIterator' in i['ty']]
        text = text.replace('%T', ins[0]['name'] if ins else '__no_such_parameter')
    # `*$2` where the second parameter is taken by reference at the moment, and by value now
    def by_value(m):
        ins = [i for i in f['inputs'] if i['name'] != 'self']
        k = int(m.group(1))
        return '$%d' % k if k <= len(ins) and re.match(r'impl\b|[A-Z]\d?$', ins[k - 1]['ty']) else m.group(0)
    text = re.sub(r'\*\$(\d+)', by_value, text)
    def rep(m):
        k = m.group(1)
        if k.isdigit():
            ins = [i for i in f['inputs'] if i['name'] != 'self']
            return ins[int(k) - 1]['name'] if int(k) <= len(ins) else '__no_such_parameter'
        return m.group(0)
    return re.sub(r'\$(\w+)', rep, text)


class Lost(Exception):
    pass


def resolve_lets(text, f):
    """`${init-prefix}` is the local variable whose initialiser starts with that text (spaces removed);
    `${Struct.field}` the one that initialises that field; `${A or B}` the first that there is."""
    def rep(m):
        for alt in m.group(1).split(' or '):
            try:
                return one(alt)
            except Lost as e:
                err = e
        raise err

    def one(pat):
        nth = 0
        if re.match(r'[A-Z]\w*\.[a-z]\w*$', pat):  # the variable that becomes this field of the result
            hits = [l[1] for l in f['lits'] if l[0] == pat]
            if not hits:
                raise Lost('no local variable for %s in %s' % (pat, f['path']))
            return hits[0]
        mm = re.match(r'(.*)#(\d+)$', pat)
        if mm:
            pat, nth = mm.group(1), int(mm.group(2))
        hits = [l[0] for l in f['lets'] if re.match(pat, l[1])]
        if nth >= len(hits):
            raise Lost('no local variable initialised with %s in %s' % (pat, f['path']))
        return hits[nth]
    return re.sub(r'\$\{([^}]*)\}', rep, text)


ACC = re.compile(r'(Vec|VecDeque)::(new|with_capacity)\(|vec!\[\]')


def place_loops(loops, f):
    """ordinal -> contract lines, the loops named by their iterator found"""
    out = {k: v for k, v in loops.items() if isinstance(k, int)}
    for rx, txt in loops.items():
        if isinstance(rx, int):
            continue
        hits = [i for i, l in enumerate(f['lets']) if re.match(rx.strip('/'), l[1])]
        if not hits:
            raise Lost('no loop over %s in %s' % (rx, f['path']))
        # a loop written `for` runs over a `__it` of its own
        i = ([h for h in hits if f['lets'][h][0].startswith('__it')] or hits)[0]
        name, _, k = f['lets'][i]
        acc = [l[0] for l in f['lets'][:i] + f['lets'][i + 1:i + 3] if ACC.match(l[1]) and l[2] <= k]
        near = [l[0] for l in f['lets'][i + 1:i + 3] if ACC.match(l[1]) and l[2] == k]
        a = (near or acc or ['__no_such_variable'])[0 if near else -1]
        if k in out or k >= f['loops']:
            raise Lost('loop over %s in %s' % (rx, f['path']))
        out[k] = [re.sub(r'%it\b', name, re.sub(r'%acc\b', a, x)) for x in txt]
    return out


def split_ws(text):
    return text


def emit_fn(f, c, mode, lines, canary=False):
    """mode: 'verify' or 'assume' (contract kept, body not verified). Appends to `lines`."""
    params = []
    for i in f['inputs']:
        if 'text' in i:
            params.append(i['text'])
        else:
            params.append(('mut ' if i.get('mut') and mode == 'verify' else '') + '%s: %s' % (i['name'], i['ty']))
    if mode != 'verify':
        params = [re.sub(r'^mut self$', 'self', p) for p in params]
    ret = f['ret']
    if c and c.ret and ret and ret.strip().startswith('impl'):
        ret = c.ret
    out = []
    for a in (c.attrs if c else []):
        out.append(a)
    if mode == 'assume':
        out.append('#[verifier::external_body]')
    vis = '' if f['keep_trait'] else 'pub '
    rn = (c.result if c else 'r')
    rt = ' -> (%s: %s)' % (rn, ret) if ret else ''
    gen = f['generics']
    out.append('%sfn %s%s(%s)%s %s' % (vis, f['name'], gen, ', '.join(params), rt, f['where']))
    marks = []
    if c:
        kinds = {}
        for k, arg, body in c.sig:
            kinds.setdefault(k, []).append((arg, body))
        for k in ('requires', 'ensures', 'decreases'):
            if k not in kinds:
                continue
            if k == 'decreases' and mode == 'assume':
                continue
            out.append('    ' + k)
            for arg, body in kinds[k]:
                for b in body:
                    t = resolve_lets(subst(b, f), f)
                    out.append('        ' + t + ('  /*@%s %s*/' % (k, arg) if arg else ''))
    body = f['body']
    if mode == 'assume':
        out.append('{ unimplemented!() }')
        lines.extend(out)
        return
    body = fix_closures(body)
    nloops = f['loops']
    loops = {}
    if c:
        loops = place_loops(c.loops, f)
        for k in loops:
            if k >= nloops:
                raise Lost('loop %d of %s' % (k, f['path']))
        if nloops and len(loops) < nloops:
            raise Lost('%s has %d loops, contracts for %d' % (f['path'], nloops, len(loops)))
    elif nloops:
        raise Lost('%s has a loop and no contract' % f['path'])

    def rep(m):
        k = int(m.group(1))
        txt = '\n'.join(resolve_lets(subst(x, f), f) for x in loops.get(k, []))
        # text after a line `@body` goes into the loop body
        head, _, inner = txt.partition('%body')
        return 'loop\n%s\n{ %s\n' % (head, inner)
    body = LOOP.sub(rep, body)
    if c:
        for (k, rx), txt in c.inline.items():
            t = '\n'.join(resolve_lets(subst(x, f), f) for x in txt)
            hits = list(re.finditer(subst(rx, f), body))
            if not hits:
                raise Lost('anchor /%s/ in %s' % (rx, f['path']))
            for m in reversed(hits):
                if k == 'before':
                    body = body[:m.start()] + '\n' + t + '\n' + body[m.start():]
                elif k == 'after':
                    body = body[:m.end()] + '\n' + t + '\n' + body[m.end():]
                else:
                    body = body[:m.start()] + m.expand(t) + body[m.end():]
        last = '\n'.join(resolve_lets(subst(x, f), f) for x in c.last)
        body = TAIL.sub(lambda m: last, body)
        first = '\n'.join(resolve_lets(subst(x, f), f) for x in c.first)
        lits = sorted(set(re.findall(r'"(?:[^"\\]|\\.)*"', f['body'])))
        if lits and 'lexer' in strings_of:
            first = 'proof { %s }\n' % ' '.join('reveal_strlit(%s);' % x for x in lits) + first
        if c.hide:
            first = ' '.join('hide(%s);' % h for h in c.hide) + '\n' + first
        if first:
            body = '{\n' + first + '\n' + body.lstrip()[1:]
    if canary:
        body = '{\nproof { assert(false); }\n' + body.lstrip()[1:]
    out.append(TAIL.sub('', body))
    lines.extend(out)


def load(j):
    """Reads the extraction; function bodies are pretty-printed by rustfmt (layout only)."""
    import subprocess
    o = json.load(open(j))
    src = ''.join('fn __f%d() %s\n' % (i, f['body']) for i, f in enumerate(o['fns']))
    p = subprocess.run(['rustfmt', '--edition', '2021', '--emit', 'stdout', '--config', 'max_width=110'], input=src, capture_output=True, text=True)
    if p.returncode == 0:
        parts = re.split(r'(?m)^fn __f(\d+)\(\) ', p.stdout)
        for k in range(1, len(parts), 2):
            o['fns'][int(parts[k])]['body'] = parts[k + 1].rstrip()
    return o


def contracts(files=None):
    d = os.path.join(HERE, 'contracts')
    return parse_contracts([os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.vc') and (x in files if files else x != 'lib.vc')])


CLONE = '''impl Clone for %s {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}'''
PARTIALEQ = '''#[cfg(verus_keep_ghost)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for %s {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &%s) -> bool { %s }
}
impl PartialEq for %s {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}'''


FROMSPEC = '''#[cfg(verus_keep_ghost)]
impl vstd::std_specs::convert::FromSpecImpl<%s> for %s {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: %s) -> Self { %s }
}'''


CONV = '''impl __Conv<%s> for %s {
    open spec fn cv(self) -> %s { let v = self; %s }
    fn __conv(self) -> %s { %s }
}'''


def clone_bodies(types):
    """The body that `derive(Clone)` makes, for the types it can be verified for (no sequences in them,
    no recursion): these need not be trusted."""
    leaf = {'String', 'bool', 'i32', 'u32', 'usize', 'i64', 'u64', 'char', 'f32', 'f64'}
    done = {}
    def split(x):
        x = x.strip()
        if x == '':
            return []
        if not re.match(r'\((.*)\)$', x):
            return None
        return [y.strip() for y in x[1:-1].split(',') if y.strip()]
    def good(ty):
        m = re.match(r'(?:Option|Box) < (.*) >$', ty)
        return good(m.group(1)) if m else ty in leaf or ty in done
    more = True
    while more:
        more = False
        for t in types:
            n, d, fs = t['name'], t['fields']['derives'], t['fields']['fields']
            if n in done or 'Clone' not in d or '<' in t['text'].split('{')[0].split('(')[0]:
                continue
            if t['text'].startswith('pub enum'):
                vs = [(v, split(x)) for v, x in fs]
                if any(x is None or not all(good(y) for y in x) for _, x in vs):
                    continue
                arms = []
                for v, x in vs:
                    b = ', '.join('__f%d' % i for i in range(len(x)))
                    c = ', '.join('__f%d.clone()' % i for i in range(len(x)))
                    arms.append('%s::%s%s => %s::%s%s' % (n, v, '(%s)' % b if x else '', n, v, '(%s)' % c if x else ''))
                body = 'match self { %s }' % ', '.join(arms)
            elif all(good(x) for _, x in fs):
                tup = bool(fs) and fs[0][0] == '0'
                body = '%s%s' % (n, ('(%s)' % ', '.join('self.%s.clone()' % f for f, _ in fs)) if tup else ' { %s }' % ', '.join('%s: self.%s.clone()' % (f, f) for f, _ in fs))
            else:
                continue
            done[n] = '*self' if 'Copy' in d else body
            more = True
    out = {n: CLONE_BODY % {'n': n, 'b': b} for n, b in done.items()}
    # sequences: the clone's elements are the same
    for t in types:
        n, d, fs = t['name'], t['fields']['derives'], t['fields']['fields']
        if n in done or 'Clone' not in d or not t['text'].startswith('pub enum') or '<' in t['text'].split('{')[0]:
            continue
        seq = lambda y: (re.findall(r'^(Vec|VecDeque) < (\w+) >$', y) or [(None, None)])[0]
        vs = [(v, split(x)) for v, x in fs]
        if any(x is None or not all(good(y) or seq(y)[1] in done for y in x) for _, x in vs):
            continue
        spec, body = [], []
        for v, x in vs:
            pat = lambda c: '%s::%s%s' % (n, v, '(%s)' % ', '.join('%s%d' % (c, i) for i in range(len(x))) if x else '')
            same = ' && '.join(('a%d@ == b%d@' if seq(y)[0] else 'a%d == b%d') % (i, i) for i, y in enumerate(x)) or 'true'
            copy = ', '.join(('__clone_%s(a%d)' % (seq(y)[0], i)) if seq(y)[0] else 'a%d.clone()' % i for i, y in enumerate(x))
            spec.append('%s => match b { %s => %s, _ => false }' % (pat('a'), pat('b'), same))
            body.append('%s => %s::%s%s' % (pat('a'), n, v, '(%s)' % copy if x else ''))
        out[n] = CLONE_SEQ % {'n': n, 'spec': ', '.join(spec), 'body': ', '.join(body)}
    return out


CLONE_SEQ = '''pub open spec fn __cl_%(n)s(a: %(n)s, b: %(n)s) -> bool { match a { %(spec)s } }
impl Clone for %(n)s {
    fn clone(&self) -> (r: Self) ensures __cl_%(n)s(*self, r) { match self { %(body)s } }
}'''


EQ_BODY = '''#[cfg(verus_keep_ghost)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for %(n)s {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &%(n)s) -> bool { __eq_%(n)s(*self, *other) }
}
pub open spec fn __eq_%(n)s(a: %(n)s, b: %(n)s) -> bool { %(spec)s }
pub fn __same_%(n)s(this: &%(n)s, other: &%(n)s) -> (r: bool) ensures r == __eq_%(n)s(*this, *other) { match this { %(body)s } }
impl PartialEq for %(n)s {
    fn eq(&self, other: &Self) -> (r: bool) { __same_%(n)s(self, other) }
}'''


def eq_bodies(types):
    """The comparison that `derive(PartialEq)` makes, with its specification, for the enums of plain
    values: variant by variant, strings by their characters, floats as floats compare."""
    leaf = {'String': ('%s@ == %s@', '*%s == *%s'), 'f32': ('float_eq(%s, %s)', '__float_eq(*%s, *%s)')}
    leaf.update({k: ('%s == %s', '*%s == *%s') for k in ('bool', 'i32', 'u32', 'usize', 'i64', 'u64', 'char')})
    done, more = {}, True
    while more:
        more = False
        for t in types:
            n, d, fs = t['name'], t['fields']['derives'], t['fields']['fields']
            if n in done or 'PartialEq' not in d or not t['text'].startswith('pub enum') or '<' in t['text'].split('{')[0]:
                continue
            vs = []
            for v, x in fs:
                m = re.match(r'\s*(?:\((.*)\))?\s*$', x)
                vs.append((v, [y.strip() for y in (m.group(1) or '').split(',') if y.strip()] if m else ['?']))
            if not all(y in leaf or y in done for _, x in vs for y in x):
                continue
            spec, body = [], []
            for v, x in vs:
                pat = lambda c: '%s::%s%s' % (n, v, '(%s)' % ', '.join('%s%d' % (c, i) for i in range(len(x))) if x else '')
                ab = lambda k: ' && '.join((leaf[y][k] if y in leaf else ('__%s_%s(%%s, %%s)' % (('eq', 'same')[k], y))) % ('a%d' % i, 'b%d' % i) for i, y in enumerate(x)) or 'true'
                spec.append('%s => match b { %s => %s, _ => false }' % (pat('a'), pat('b'), ab(0)))
                body.append('%s => match other { %s => %s, _ => false }' % (pat('a'), pat('b'), ab(1)))
            if len(vs) == 1:
                spec, body = [x.replace(', _ => false', '') for x in spec], [x.replace(', _ => false', '') for x in body]
            done[n] = EQ_BODY % {'n': n, 'spec': 'match a { %s }' % ', '.join(spec) if any(x for _, x in vs) else 'a == b', 'body': ', '.join(body)}
            more = True
    return done


CLONE_BODY = '''impl Clone for %(n)s {
    fn clone(&self) -> (r: Self) ensures r == *self { %(b)s }
}
impl __Exact for %(n)s {
    fn __dup(&self) -> (r: Self) { self.clone() }
}'''


def emit_types(o, lines, eq_types):
    clones = clone_bodies(o['types'])
    eqs = eq_bodies(o['types']) if eq_types else {}
    # nodes of the tree are not cloned by the code as it is; their Clone is given (and trusted) only to code that may use it
    needed = lambda n: n == 'ASTErrorType' or sum(len(re.findall(r'clone|to_owned', f['body'])) for f in o['fns'] if '/lexer/' not in f['file']) > 1
    for t in o['types']:
        d = t['fields']['derives']
        text = t['text']
        lines.append(text)
        if 'Clone' in d:
            lines.append(clones[t['name']] if t['name'] in clones else CLONE % t['name'] if needed(t['name']) else '')
        if 'Copy' in d:
            lines.append('impl Copy for %s {}' % t['name'])
        if t['name'] in eqs:
            lines.append(eqs[t['name']])
        elif 'PartialEq' in d and t['name'] in eq_types:
            lines.append(PARTIALEQ % (t['name'], t['name'], eq_types[t['name']], t['name']))


SKIP = {
    'StatementIterator::from<VecDeque<VecDeque<Token>>>': 'conversion of an unused private type',
    'StatementIterator::from<VecDeque<Token>>': 'conversion used by tests only',
    'StatementIterator::from<Vec<Token>>': 'conversion used by tests only',
    'VariableAssignment::similar': 'private trait method, called by nothing',
}


HEADER = """#[allow(unused_imports)] use super::*;
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use vstd::std_specs::vecdeque::*;
#[allow(unused_imports)] use std::collections::VecDeque;
verus! {
broadcast use vstd::std_specs::vecdeque::group_vec_dequeue_axioms;"""


def known():
    p = os.path.join(HERE, 'known.txt')
    return set(open(p).read().split('\n')) if os.path.exists(p) else set()


def baseline_calls():
    """which of the known functions each function called when the contracts were written"""
    p = os.path.join(HERE, 'calls.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def broadcasts(specs):
    """the lemma groups the specification files ask to have in scope everywhere (`//@broadcast NAME`)"""
    out = []
    for x in specs:
        m = re.search(r'//@broadcast (\w+)', open(x).read())
        if m:
            out.append(m.group(1))
    return 'broadcast use {%s};' % ', '.join(['vstd::std_specs::vecdeque::group_vec_dequeue_axioms'] + out)


def gen_keywords(o):
    """The keyword table as C07 states it: a keyword's spelling is its name with the underscores replaced
    by spaces.  Generated from the enum in /repo's current source, with a decision tree over the
    characters from which Verus proves that no text has two keywords at its beginning."""
    kws = [f[0] for t in o['types'] if t['name'] == 'Keywords' for f in t['fields']['fields']]
    txt = {k: k.replace('_', ' ') for k in kws}
    ch = lambda c: "'%s'" % c
    out = []
    for k in kws:
        out.append('#[verifier::opaque] pub open spec fn txt_%s() -> Seq<char> { seq![%s] }' % (k, ', '.join(ch(c) for c in txt[k])))
    out += ['/// the spellings', 'pub proof fn lemma_txt()', '    ensures', *['        txt_%s() == seq![%s],' % (k, ', '.join(ch(c) for c in txt[k])) for k in kws], '{', *['    reveal(txt_%s);' % k for k in kws], '}']
    out += ['pub open spec fn kw_text(k: Keywords) -> Seq<char> {', '    match k {']
    for k in kws:
        out.append('        Keywords::%s => txt_%s(),' % (k, k))
    out += ['    }', '}']

    def tree(ks, d, ind):
        here = [k for k in ks if len(txt[k]) == d]
        kids = {}
        for k in ks:
            if len(txt[k]) > d:
                kids.setdefault(txt[k][d], []).append(k)
        if not kids:
            return 'Keywords::%s' % here[0]
        s = ''
        for c in sorted(kids):
            s += 'if char_at(r, %d) == %s { %s } else ' % (d, ch(c), tree(kids[c], d + 1, ind))
        return s + '{ Keywords::%s }' % (here[0] if here else kids[sorted(kids)[0]][0])
    first = {}
    for k in kws:
        first.setdefault(txt[k][0], []).append(k)
    for c in sorted(first):
        out += ['#[verifier::opaque] pub open spec fn kw_tree_%s(r: Seq<char>) -> Keywords { %s }' % (c, tree(first[c], 1, ''))]
    out += ['pub open spec fn kw_tree(r: Seq<char>) -> Keywords {']
    out += ['    if char_at(r, 0) == %s { kw_tree_%s(r) } else' % (ch(c), c) for c in sorted(first)]
    out += ['    { Keywords::%s }' % kws[0], '}']
    for k in kws:
        n = len(txt[k])
        out += ['proof fn lemma_kw_%s(r: Seq<char>)' % k, '    requires word_at(r, kw_text(Keywords::%s)),' % k, '    ensures kw_tree(r) == Keywords::%s,' % k, '{',
                '    reveal(txt_%s); reveal(kw_tree_%s);' % (k, txt[k][0]), '    let w = txt_%s();' % k, '    assert(w.len() == %d);' % n]
        out += ['    assert(r.take(%d)[%d] == w[%d] && r[%d] == %s);' % (n, i, i, i, ch(c)) for i, c in enumerate(txt[k])]
        out += ['}']
    out += ['pub proof fn lemma_kw_tree(r: Seq<char>, k: Keywords)', '    requires word_at(r, kw_text(k)),', '    ensures kw_tree(r) == k,', '{', '    match k {']
    out += ['        Keywords::%s => lemma_kw_%s(r),' % (k, k) for k in kws] + ['    }', '}']
    out += ['pub open spec fn kw_all(s: Seq<Keywords>) -> bool {', '    ' + ' && '.join('s.contains(Keywords::%s)' % k for k in kws), '}']
    out += ['pub proof fn lemma_kw_all(s: Seq<Keywords>, k: Keywords)', '    requires kw_all(s),', '    ensures s.contains(k),', '{ match k { ' + ' '.join('Keywords::%s => assert(s.contains(Keywords::%s)),' % (k, k) for k in kws) + ' } }']
    out += ['pub proof fn lemma_kw_nonempty(k: Keywords)', '    ensures kw_text(k).len() > 0,', '{ match k { ' + ' '.join('Keywords::%s => { reveal(txt_%s); assert(kw_text(k).len() == %d) }' % (k, k, len(txt[k])) for k in kws) + ' } }']
    return '\n'.join(out)


GENERATED = {'keywords': gen_keywords}


def spec_text(x, o):
    return re.sub(r'//@generate (\w+)', lambda m: GENERATED[m.group(1)](o), open(x).read())


def generate(o, cs, verify, specs, broken=None, buckets=12, canary=False, extra=()):
    """Returns (text, linemap, lost): linemap is a list of (first line, last line, fn path, mode).
    The functions to verify are spread over modules, which Verus checks in parallel."""
    lines = []
    for x in ['prelude.rs']:
        lines.extend(open(os.path.join(HERE, x)).read().split('\n'))
    lines.append('verus! {')
    tl = []
    emit_types(o, tl, {'TokenType': 'some_eq(*self, *other)', 'Keywords': '*self == *other'})
    lines.extend('\n'.join(tl).split('\n'))
    lines.append('} // verus!')
    lmap = []
    for x in specs:
        n = 's_' + re.sub(r'\W', '_', os.path.basename(x)[:-3])
        lines.append('pub mod %s {' % n)
        lines.extend(HEADER.split('\n')[:-2])
        a = len(lines) + 1
        head = broadcasts([] if '//@nobroadcast' in open(x).read() else specs[:specs.index(x)])
        lines.extend(spec_text(x, o).replace('verus! {', 'verus! {\n' + head, 1).split('\n'))
        lmap.append((a, len(lines), 'spec/' + os.path.basename(x), 'spec'))
        lines.append('}')
        lines.append('pub use %s::*;' % n)
    if any('generate keywords' in open(x).read() for x in specs):
        lines.append('verus! {')
        for c in o['consts']:
            a = len(lines) + 1
            m = re.match(r'\[ ?Keywords ;', c['ty'])
            items = re.findall(r'Keywords :: (\w+)', c['expr']) if m else []
            if m and re.sub(r'[\s,\[\]]|Keywords :: \w+', '', c['expr']) == '':
                lines.append('pub exec const %s: %s' % (c['name'], c['ty']))
                lines.append('    ensures kw_all(%s@),  /*@ensures C07*/' % c['name'])
                lines.append('{ let __a = %s;' % c['expr'])
                lines.append('  proof { %s }' % ' '.join('assert(__a@[%d] == Keywords::%s);' % (i, k) for i, k in enumerate(items)))
                lines.append('  __a }')
                lmap.append((a, len(lines), c['name'], 'verify'))
            else:
                lines.append('pub const %s: %s = %s;' % (c['name'], c['ty'], c['expr']))
        lines.append('} // verus!')
    lost = {}
    todo = []
    conv = any('__conv' in f['body'] for f in o['fns'])
    reflexive = set()
    bc = broadcasts(specs)
    for f in o['fns']:
        p = f['path']
        if p in SKIP:
            continue
        c = cs.get(p)
        if verify is not None and p not in verify and c is None and p not in extra:
            continue
        want = 'verify' if (verify is None or p in verify or p in extra) and not (c and c.trusted is not None) else 'assume'
        if broken and p in broken:
            want = 'assume'
        out = []
        try:
            emit_fn(f, c, want, out, canary)
        except (Lost, ValueError, AssertionError, KeyError) as e:
            # text of a shape the assembler does not know: this function is not decided by the proof
            lost[p] = str(e) or type(e).__name__
            want = 'assume'
            out = []
            try:
                emit_fn(f, c, 'assume', out)
            except Lost as e2:
                # the contract speaks about something that is gone
                lost[p] = str(e2)
                out = []
                emit_fn(f, None, 'assume', out)
        pre = []
        if c and c.from_spec:
            pre = (FROMSPEC % (f['inputs'][0]['ty'], f['self_ty'], f['inputs'][0]['ty'], c.from_spec)).split('\n')
            if conv:
                a, b = f['inputs'][0]['ty'], f['self_ty']
                pre += (CONV % (b, a, b, c.from_spec, b, 'core::convert::From::from(self)')).split('\n')
                for x in (a, b):
                    if x not in reflexive:
                        reflexive.add(x)
                        pre += (CONV % (x, x, x, 'v', x, 'self')).split('\n')
        todo.append((f, want, pre, '\n'.join(out).split('\n')))
    place = {}
    load_ = [0] * buckets
    for i in sorted((i for i, t in enumerate(todo) if t[1] == 'verify'), key=lambda i: (-WEIGHT(todo[i]), i)):
        k = load_.index(min(load_))
        place[i] = k
        load_[k] += WEIGHT(todo[i])
    for k in [None] + list(range(buckets)):
        mine = [t for i, t in enumerate(todo) if place.get(i) == k]
        if not mine:
            continue
        if k is None:
            lines.append('verus! {')
        else:
            lines.append('pub mod b%d {' % k)
            lines.extend(HEADER.split('\n')[:-1] + [bc])
        for f, want, pre, out in mine:
            lines.extend(pre)
            if f['impl_header']:
                lines.append(f['impl_header'].replace('\n', ' ') + ' {')
            a = len(lines) + 1
            lines.extend(out)
            lmap.append((a, len(lines), f['path'], want))
            if f['impl_header']:
                lines.append('}')
        lines.append('} // verus!')
        if k is not None:
            lines.append('}')
            lines.append('pub use b%d::*;' % k)
    lines.append('fn main() {}')
    return '\n'.join(lines) + '\n', lmap, lost


def WEIGHT(t):
    """a guess at the solver time: the functions whose grammar nests deepest first"""
    n = len(t[3])
    return n * (4 if 'parse' in t[0]['name'] else 1) + 10


def spec_files():
    d = os.path.join(HERE, 'spec')
    return [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.rs')]


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('json')
    ap.add_argument('out')
    ap.add_argument('--only', help='regex of function paths to verify')
    a = ap.parse_args()
    o = load(a.json)
    cs = contracts()
    v = None
    if a.only:
        v = {f['path'] for f in o['fns'] if re.match(a.only + r'$', f['path'])}
    text, lmap, lost = generate(o, cs, v, spec_files())
    open(a.out, 'w').write(text)
    for k, e in lost.items():
        print('LOST', k, e)
