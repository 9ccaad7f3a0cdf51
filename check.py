#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]      decides one property of /repo's current working tree
check.py --setup                           builds the extractor and the harness

1. expand and extract the functions of /repo's current source (extract/), 2. put the contracts of
prove/ on them, 3. let Verus discharge every obligation, 4. run the executable oracle of the property
(harness/) against the real crate: as a guard on what the contracts trust, and as the search for a
failing input when an obligation is rejected.  See DESIGN.md."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LOLCODE_REPO', '/repo')
BUILD = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'prove'))
import assemble  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)
T0 = time.time()

PARSER = ['C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C17', 'C18', 'C19']
GROUPS = {  # property -> contract files whose functions are verified
    'iter': ['iter.vc', 'optoken.vc'],
    'parser': ['stmtit.vc', 'expr.vc', 'assign.vc', 'stmts.vc', 'blocks.vc', 'optoken.vc'],
    'exprs': ['stmtit.vc', 'expr.vc', 'assign.vc', 'optoken.vc'],
    'errors': ['errors.vc'],
    'kw': ['keywords.vc'],
    'lexer': ['lexer.vc', 'position.vc', 'keywords.vc'],
    'position': ['position.vc'],
}
AST = ['0_base', '0_source', 'a_ast']
SPECS = {  # the specification modules each group needs
    'iter': AST + ['b_iter', 'c_range'],
    'parser': AST + ['d_stmt', 'd_view', 'e_expr', 'f_node', 'g_stmts', 'h_le', 'j_theorems'],
    'exprs': AST + ['d_stmt', 'd_view', 'e_expr', 'f_node', 'g_stmts', 'h_tile'],
    'errors': AST + ['d_stmt', 'e_expr', 'f_node', 'i_errors'],
    'lexer': ['0_base', '0_source', '0_str', 'k_kw', 'k_pos', 'l_lex'],
    'position': ['0_base', '0_source', '0_str', 'k_pos'],
    'kw': ['0_base', '0_source', '0_str', 'k_kw'],
    'lib': AST + ['m_lib'],
}
GROUP_OF = {p: ['parser'] for p in PARSER}
GROUP_OF.update({p: ['lexer'] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')})
GROUP_OF.update({'C14': ['errors'], 'C15': ['iter', 'exprs'], 'C16': ['iter', 'exprs'], 'C18': ['local'], 'C19': ['yield'],
                 'C20': ['lib'], 'C21': ['position']})
GROUPS['lib'] = ['lib.vc']
SPECS['local'] = SPECS['parser'] + ['j_local']
SPECS['yield'] = SPECS['parser'] + ['j_yield', 'j_yieldb']
GROUPS['local'] = GROUPS['yield'] = GROUPS['parser']
# an obligation that carries no property tag (a precondition of a library call, an arithmetic
# range, termination): the freedom-from-panics-and-hangs property of its part of the code
SAFETY = {'lexer.vc': 'C01', 'position.vc': 'C01', 'keywords.vc': 'C01', 'iter.vc': 'C15', 'errors.vc': 'C14'}

# lemmas about what is generated from the source, and constants
SPECTAG = {'spec/k_kw.rs': 'C07', 'ALL_SYMBOLS': 'C07', 'spec/j_theorems.rs': 'C17', 'spec/k_pos.rs': 'C21',
           'spec/h_tile.rs': 'C15 C16', 'spec/j_local.rs': 'C18', 'spec/j_yield.rs': 'C19', 'spec/j_yieldb.rs': 'C19'}


def log(*a):
    print(*a, sep='\n  ', file=sys.stderr, flush=True)


def run(cmd, cwd=None, env=None, timeout=None, out=subprocess.PIPE):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, (p.stdout or b'').decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'


# ---------------------------------------------------------------- building
def build_extractor():
    rc, _, err = run(['cargo', 'build', '--offline', '--manifest-path', V + '/extract/Cargo.toml', '--target-dir', BUILD + '/extract'], timeout=600)
    return BUILD + '/extract/debug/extract' if rc == 0 else None, err


def build_harness():
    """Returns (binary, hooked, error text)."""
    err = ''
    for flags in ('--cfg lolcode_verif', ''):
        rc, _, err = run(['cargo', 'build', '--offline', '--release', '--manifest-path', V + '/harness/Cargo.toml', '--target-dir', BUILD + '/harness'],
                         env=dict(ENV, RUSTFLAGS=flags), timeout=600)
        if rc == 0:
            return BUILD + '/harness/release/harness', bool(flags), ''
    return None, False, err


# ---------------------------------------------------------------- proving
class Proof:
    def __init__(self):
        self.broken = {}      # fn path -> why its body is not verified on this tree
        self.rejected = []    # dicts: fn, tags, message, text
        self.verified = 0
        self.errors = 0
        self.items = 0
        self.functions = []
        self.smt_ms = 0
        self.lost_all = None  # reason, if nothing could be verified
        self.trusted = []
        self.cmd = ''
        self.output = ''
        self.notes = []


def fn_tags(c):
    t = set()
    if c:
        for k, arg, _ in c.sig:
            if k == 'ensures':
                t |= set(arg.split())
    return t


def verus(path, rlimit, seed, extra=(), timeout=300):
    cmd = ['verus', os.path.basename(path), '--num-threads', str(os.cpu_count() or 8), '--output-json', '--time-expanded',
           '--error-format=json', '--multiple-errors', '4', '--rlimit', str(rlimit)]
    if seed:
        cmd += ['--smt-option', 'smt.random_seed=%d' % seed]
    cmd += list(extra)
    rc, out, err = run(cmd, cwd=os.path.dirname(path), timeout=timeout)
    try:
        o = json.loads(out[out.index('{'):])
    except ValueError:
        o = {}
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level', '').startswith('error'):
                diags.append(d)
    return rc, o, diags, ' '.join(cmd), err


def owner(lmap, line):
    for a, b, p, mode in lmap:
        if a <= line <= b:
            return p, mode
    return None, None


def library(lmap, lines, n):
    """Is line n part of the contract of an executable function that stands for one of std's?"""
    if owner(lmap, n)[1] != 'spec':
        return False
    for k in range(min(n, len(lines)) - 1, max(0, n - 40), -1):
        m = re.match(r'\s*(?:pub(?:\(crate\))? )?((?:open |closed |uninterp )?(?:broadcast )?(?:spec |proof )?)(?:const )?fn ', lines[k])
        if m:
            return m.group(1).strip() == ''
    return False


def blame(d, lmap):
    """The function whose obligation the diagnostic is about: its primary span is in that function's text."""
    spans = d.get('spans', [])
    fn = None
    for s in [s for s in spans if s.get('is_primary')] + spans:
        p, mode = owner(lmap, s['line_start'])
        if p and mode == 'verify':
            return p
        if p and mode == 'spec' and fn is None:
            fn = p
    return fn


def module_of(text, line):
    m = None
    for i, l in enumerate(text.split('\n')[:line]):
        x = re.match(r'pub mod (\w+) \{', l)
        if x:
            m = x.group(1)
    return m


def uncontracted(o, f, newp):
    """the functions of `newp` that f calls"""
    if not newp:
        return set()
    r = set()
    for c in f['calls']:
        n = c.lstrip('.').split('::')
        for p in newp:
            q = p.split('::')
            if q[-1] == n[-1] and (len(q) == 1 or len(n) == 1 or q[-2] == n[-2]):
                r.add(p)
    return r


KIND_LOOP = re.compile(r'invariant|loop')
RL = re.compile(r'rlimit|Resource limit|timeout|timed out', re.I)


def prove(files, specs, work, canary=False, found=lambda: False):
    """Verifies the functions whose contracts are in `files`."""
    pr = Proof()
    exe, err = build_extractor()
    if not exe:
        pr.lost_all = 'the extractor does not build: ' + err[-400:]
        return pr
    rc, exp, err = run(['cargo', 'rustc', '--offline', '--lib', '--manifest-path', REPO + '/Cargo.toml', '--target-dir', BUILD + '/repo', '--', '-Zunpretty=expanded'],
                       env=dict(ENV, RUSTC_BOOTSTRAP='1'), timeout=300)
    expf = os.path.join(work, 'expanded.rs')
    open(expf, 'w').write(exp)
    js = os.path.join(work, 'extracted.json')
    with open(js, 'wb') as f:
        rc2, _, err2 = run([exe, REPO + '/src/lib.rs', expf if rc == 0 and exp else '-', os.path.join(assemble.HERE, 'known.txt')], out=f, timeout=120)
    if rc2 != 0:
        pr.lost_all = 'extraction failed: ' + err2[-400:]
        return pr
    o = assemble.load(js)
    cs = assemble.contracts(files)
    paths = {f['path'] for f in o['fns']}
    want = {p for p, c in cs.items() if c.file in files}
    for p in sorted(want - paths):
        pr.broken[p] = 'no function of this name in the current source (lost anchor)'
    known = assemble.known()
    new = [f for f in o['fns'] if f['path'] not in known and f['path'] not in cs]
    pr.notes += ['new function without a contract: ' + f['path'] for f in new]
    verify = {p for p in want if p in paths and cs[p].trusted is None}
    gen = os.path.join(work, 'generated.rs')
    rlimit, seed = 12, 0
    base = {p: c for p, c in cs.items() if c.variants}
    tried = {}            # function -> how many of its other proofs were tried

    def bump(fns):
        """Another proof of the same contract, for the functions that have one left."""
        hit = False
        for p in set(fns):
            if p in base and not canary and p in verify and p not in pr.broken:
                n = tried.get(p, 0)
                if n < len(base[p].variants):
                    cs[p], tried[p], hit = base[p].variants[n], n + 1, True
                elif n == len(base[p].variants) and cs[p] is not base[p]:
                    cs[p], tried[p], hit = base[p], n + 1, True   # none fits: back to the first, for the report
        return hit
    for rnd in range(20):
        try:
            text, lmap, lost = assemble.generate(o, cs, verify, [x for x in assemble.spec_files() if os.path.basename(x)[:-3] in specs], pr.broken, canary=canary, extra=[f['path'] for f in new])
        except Exception as e:  # an extraction the contracts no longer fit at all
            pr.lost_all = 'assembly failed: %r' % (e,)
            return pr
        if lost and bump(lost):
            continue
        for k, e in lost.items():
            if k in verify:
                pr.broken.setdefault(k, 'lost anchor: ' + e)
        open(gen, 'w').write(text)
        rc, out, diags, pr.cmd, raw = verus(gen, rlimit, seed)
        vr = out.get('verification-results') or {}
        pr.output = '\n'.join(d.get('rendered') or d.get('message', '') for d in diags)[:20000]
        if vr.get('encountered-vir-error') or 'verified' not in vr or (diags and not vr.get('errors') and not vr.get('success')):
            # not a verdict: some function is outside what the verifier accepts
            hit = bump([owner(lmap, s['line_start'])[0] for d in diags for s in d.get('spans', []) if s.get('is_primary')])
            for d in diags if not hit else []:
                for s in d.get('spans', []):
                    if not s.get('is_primary'):
                        continue
                    p, mode = owner(lmap, s['line_start'])
                    if p and mode == 'verify' and p not in pr.broken:
                        pr.broken[p] = 'not accepted by the verifier: ' + d['message'][:200]
                        hit = True
            if not hit:
                # a signature or type changed under the contracts: drop the contract of the owner
                for d in diags:
                    for s in d.get('spans', []):
                        p, mode = owner(lmap, s['line_start'])
                        if p and mode == 'assume' and p in verify:
                            verify.discard(p)
                            cs.pop(p, None)
                            pr.broken[p] = 'contract no longer fits: ' + d['message'][:200]
                            hit = True
            if not hit:
                pr.lost_all = 'the assembled text is not accepted: ' + (pr.output or raw)[:600]
                return pr
            continue
        rej = []
        rl = []
        for d in diags:
            spans = d.get('spans', [])
            if not spans:
                continue
            fn = blame(d, lmap)
            # the body whose obligation it is: for a postcondition every span lies in it; for a
            # precondition the primary span is the call
            if RL.search(d['message']):
                rl.append((fn, d))
            else:
                rej.append((fn, d, lmap, text))
        if (rl or rej) and not canary and not found() and bump([fn for fn, *_ in rl + rej]):
            continue
        if (rl or rej) and not canary and not found():
            # once more with another seed and more room, so that a rejection is not the solver's mood;
            # only the modules in which something was not accepted
            mods = set()
            for fn, d in rl + [(r[0], r[1]) for r in rej]:
                s = ([s for s in d['spans'] if s.get('is_primary')] or d['spans'])[0]
                mods.add(module_of(text, s['line_start']))
            mods.discard(None)
            rc, out2, diags2, _, raw2 = verus(gen, 30, 11, sum((['--verify-only-module', m] for m in sorted(mods)), []), timeout=170) if mods else (0, {}, [], '', '')
            vr2 = out2.get('verification-results')
            if vr2 and 'errors' in vr2:
                if vr2.get('success'):
                    rl, rej = [], []
                    vr['verified'] = vr.get('verified', 0) + vr.get('errors', 0)
                    vr['errors'] = 0
                    pr.notes.append('accepted on a second run with another solver seed: ' + ' '.join(sorted(mods)))
                    pr.output = ''
                else:
                    rl, rej = [], []
                    for d in diags2:
                        if not d.get('spans'):
                            continue
                        fn = blame(d, lmap)
                        (rl if RL.search(d['message']) else rej).append((fn, d) if RL.search(d['message']) else (fn, d, lmap, text))
            # functions that were not there when the contracts were written, and their callers: the
            # callers were proved against contracts, and these have none
            newp = {f['path'] for f in new}
            gone = {p for p in known if p not in paths and not p.startswith('const ')}
            for fn, d, *_ in list(rl) + list(rej):
                f = next((f for f in o['fns'] if f['path'] == fn), None)
                if f and fn not in pr.broken:
                    calls = uncontracted(o, f, newp)
                    if fn in newp or calls:
                        pr.broken[fn] = 'depends on a function without a contract: ' + (fn if fn in newp else ', '.join(sorted(calls)))
                    elif gone & set(assemble.baseline_calls().get(fn, [])):
                        pr.broken[fn] = 'a function it was proved with is gone: ' + ', '.join(sorted(gone & set(assemble.baseline_calls().get(fn, []))))
            rl = [r for r in rl if r[0] not in pr.broken]
            rej = [r for r in rej if r[0] not in pr.broken]
            und = {fn for fn, d in rl}
            rej = [r for r in rej if r[0] not in und]
        for fn, d in rl:
            # undecided: its contract is kept for its callers, and the bounded stand-in takes its place
            if fn and fn in verify:
                pr.broken[fn] = 'undecided: ' + d['message'][:160]
            else:
                pr.lost_all = 'lemma undecided: ' + str(fn)
                return pr
        lines = text.split('\n')
        for fn, d, _, _ in rej:
            tags = set()
            clause = ''
            c = cs.get(fn)
            for s in d['spans']:
                l = lines[s['line_start'] - 1] if s['line_start'] <= len(lines) else ''
                p, mode = owner(lmap, s['line_start'])
                m = re.search(r'/\*@(ensures|inv) ([^*]*)\*/', l)
                if p == fn and m and ('postcondition' if m.group(1) == 'ensures' else 'invariant') in d['message']:
                    tags |= set(m.group(2).split())
                    clause = l.strip()
            if not tags:
                if KIND_LOOP.search(d['message']) or 'assert' in d['message'] or 'postcondition' in d['message']:
                    tags = fn_tags(c)
                elif 'precondition' in d['message']:
                    # the precondition of a function of /repo or of a lemma belongs to the properties of the caller,
                    # that of a library function (slicing, unwrapping, arithmetic) to the freedom from panics
                    lab = [s['line_start'] for s in d['spans'] if not s.get('is_primary')]
                    tags = fn_tags(c) if any(owner(lmap, n)[0] and not library(lmap, lines, n) for n in lab) else set()
                if not tags and c is None and fn:
                    tags = set(SPECTAG.get(fn, '').split())
                if not tags:
                    tags = set((c.safety or '').split() if c and c.safety else [SAFETY.get(c.file if c else '', 'C08')])
            pr.rejected.append({'fn': fn or '?', 'tags': sorted(tags), 'message': d['message'], 'clause': clause, 'rendered': (d.get('rendered') or '')[:3000]})
        pr.verified, pr.errors = vr.get('verified', 0), vr.get('errors', 0)
        for m in (out.get('times-ms', {}).get('smt', {}) or {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                pr.smt_ms += f.get('time', 0)
                pr.items += 1
        pr.functions = sorted(p for a, b, p, mode in lmap if mode == 'verify')
        pr.trusted = trusted_scan(text, lmap)
        return pr
    pr.lost_all = 'no stable set of functions found'
    return pr


def trusted_scan(text, lmap):
    """Mechanical scan for everything the verifier was told to believe."""
    lines = text.split('\n')
    out = []
    impl = ''
    for i, l in enumerate(lines):
        m = re.match(r'(?:pub )?(impl\b|trait \w+).*?\{', l)
        if m:
            impl = re.sub(r"impl<[^>]*>", 'impl', re.sub(r'\s*\{$', '', m.group(0)))
        elif re.match(r'\S', l) and not l.startswith(('}', '//', '#', 'broadcast')):
            impl = ''
        if l.lstrip().startswith('//'):
            continue
        if re.search(r'\bassume_specification\b', l):
            m = re.search(r'assume_specification.*?\[\s*(.*?)\s*\]\s*\(', l)
            out.append('assumed specification of ' + (m.group(1) if m else l.strip())[:90])
        if 'external_body' in l:
            p, mode = owner(lmap, i + 1)
            if mode == 'spec' or p is None:
                here = ' '.join(x.strip() for x in [l.split('external_body]', 1)[1]] + lines[i + 1:i + 3])
                sig = re.sub(r'\s*\{.*', '', here)
                out.append('trusted body: ' + ((impl + ': ') if impl and not here.startswith('pub struct') else '') + sig.strip()[:150])
            elif mode == 'assume':
                out.append('contract used, body not verified in this check: ' + p)
        if re.search(r'\b(assume|admit)\s*\(', l) and 'assume_specification' not in l:
            out.append('ASSUME: ' + l.strip()[:90])
        if re.search(r'\baxiom\b', l) and 'group_vec_dequeue' not in l:
            out.append('axiom: ' + l.strip()[:90])
        if re.search(r'\buninterp spec fn\b', l):
            out.append('uninterpreted: ' + re.sub(r'.*uninterp spec fn\s*', '', l).strip()[:90])
    return sorted(set(out))


# ---------------------------------------------------------------- the oracle on the real code
def harness(exe, pid, seconds, seed, replay, workers=None, limit=None):
    """Returns ('ok', cases) or ('fail', message) or ('none', reason)."""
    rc, out, err = run([exe, 'run', pid, str(seconds), str(10 ** 12), str(seed), str(workers or os.cpu_count() or 8), replay],
                       env=dict(ENV, HARNESS_SRC=REPO + '/src'), timeout=seconds + 150)
    last = [l for l in out.strip().split('\n') if l]
    if rc == 0 and last and last[-1].startswith('ok'):
        return 'ok', int(last[-1].split()[1])
    if rc == 1 and os.path.exists(replay):
        return 'fail', next((l for l in last if l.startswith('fail')), 'fail')[5:]
    return 'none', (err or out)[-300:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        build_extractor()
        build_harness()
        return 0
    pid = a.id
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    thorough = a.tier == 'thorough'
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/replays', exist_ok=True)
    replay = os.path.join(V, 'replays', pid + '.replay')
    if os.path.exists(replay):
        os.unlink(replay)
    work = tempfile.mkdtemp(prefix='prove-%s-' % pid, dir=BUILD)
    try:
        return decide(pid, seed, thorough, replay, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, seed, thorough, replay, work):
    files = [f for g in GROUP_OF[pid] for f in GROUPS[g]]
    specs = {x for g in GROUP_OF[pid] for x in SPECS[g]}
    h = {}

    def hrun():
        exe, hooked, err = build_harness()
        h['exe'], h['hooked'], h['err'] = exe, hooked, err
        if exe:
            h['first'] = harness(exe, pid, 300 if thorough else 12, seed, replay, workers=None if thorough else 4)
    th = threading.Thread(target=hrun)
    th.start()
    pr = prove(files, specs, work, found=lambda: h.get('first', ('',))[0] == 'fail')
    canary = None
    if thorough and not pr.lost_all:
        canary = prove(files, specs, work, canary=True)
    th.join()
    first = h.get('first') or ('none', h.get('err', '')[-300:])
    mine = [r for r in pr.rejected if pid in r['tags']]
    other = [r for r in pr.rejected if pid not in r['tags']]
    cs = assemble.contracts(files)
    lost_mine = {p: w for p, w in pr.broken.items() if cs.get(p) is None or pid in fn_tags(cs.get(p)) or True}
    vacuous = []
    if canary is not None:
        failed = {r['fn'] for r in canary.rejected} | set(canary.broken)
        vacuous = [f for f in pr.functions if f not in failed]
    bounded = []
    cases = first[1] if first[0] == 'ok' else 0
    verdict, why = 0, ''
    if first[0] == 'fail':
        verdict, why = 1, 'failing input: ' + first[1]
    elif (mine or other or pr.broken or pr.lost_all) and h.get('exe'):
        # search longer: a rejected obligation wants a failing input, a function that could not be
        # verified wants its bounded stand-in
        secs = 240 if mine else 90
        left = 760 - (time.time() - T0)
        r = harness(h['exe'], pid, int(max(20, min(secs, left))), seed + 1, replay)
        if r[0] == 'fail':
            verdict, why = 1, 'failing input: ' + r[1]
        elif r[0] == 'ok':
            cases += r[1]
    no_input = False
    if not verdict and mine:
        verdict, no_input = 1, True
        why = 'rejected obligation of ' + mine[0]['fn'] + ': ' + mine[0]['message']
    if pr.lost_all:
        bounded.append('ALL functions of this check: ' + pr.lost_all[:300])
    for p, w in sorted(pr.broken.items()):
        bounded.append('%s: %s' % (p, w))
    if verdict:
        text = ''
        if no_input:
            text = '# no failing input was found; the verifier rejects these obligations\nproperty %s\n' % pid
        else:
            text = open(replay).read() if os.path.exists(replay) else ''
        if mine or other:
            text += '\n'
            for r in mine + other:
                text += '# obligation: %s: %s [%s] %s\n' % (r['fn'], r['message'], ' '.join(r['tags']), r['clause'][:300])
                for l in r['rendered'].split('\n'):
                    text += '#   ' + l + '\n'
        open(replay, 'w').write(text)
    total = pr.verified + pr.errors
    cov = {
        'obligations': total,
        'discharged': pr.verified,
        'checker_cmd': (pr.cmd or 'verus') + '   (in a scratch directory, on the text that extract/ and prove/assemble.py make of /repo/src)',
        'trusted_base': TRUSTED + pr.trusted,
        'backend': 'Verus 0.2026.09.13 / Z3',
        'what_an_obligation_is': 'one function body, loop or proof item, as Verus counts them (each bundles its pre/postconditions, overflow, bounds and termination conditions)',
        'solver_seconds': round(pr.smt_ms / 1000.0, 2),
        'functions_under_contract_verified': len(pr.functions),
        'functions': pr.functions,
        'clauses_tagged_with_this_property_in': sorted(p for p in pr.functions if pid in fn_tags(cs.get(p))),
        'bounded_stand_ins': bounded,
        'oracle_cases_run_on_the_real_crate': cases,
        'notes': pr.notes + ([] if h.get('exe') else ['the harness did not build: ' + h.get('err', '')[-200:]]) + ([] if h.get('hooked', True) else ['hook not available']),
        'rejected': [{'fn': r['fn'], 'tags': r['tags'], 'message': r['message']} for r in pr.rejected][:20],
    }
    if canary is not None:
        cov['vacuity'] = {'functions_whose_body_start_is_reachable': len(pr.functions) - len(vacuous), 'unreachable': vacuous}
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': verdict}
    open(V + '/evidence/%s.json' % pid, 'w').write(json.dumps(ev, indent=1) + '\n')
    if pr.lost_all or bounded:
        log('bounded stand-in used:', *bounded[:8])
    if vacuous:
        log('VACUOUS:', vacuous)
    if verdict:
        print(why)
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, ' no-failing-input-found' if no_input else ''))
        return 1
    for l in known_findings(pid):
        print(l)
    print('ok %s: %d of %d obligations discharged (%d functions), %d oracle cases, %.1f s' % (pid, pr.verified, total, len(pr.functions), cases, time.time() - T0))
    return 0


def known_findings(pid):
    p = V + '/known-findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l.strip())
    return out


TRUSTED = [
    'Verus and Z3',
    'the extraction (extract/): macros expanded by rustc, traits flattened to inherent functions, closures and literals restated as DESIGN.md lists',
    'rustc -Zunpretty=expanded for the derive macros of lolcode-ast-derive',
]
ASSUMPTIONS = [
    'derived Clone copies structurally and derived PartialEq compares structurally (derive expansions of the standard library are not verified)',
    'allocation succeeds and the call stack is deep enough (Verus proves termination, not stack use)',
]

if __name__ == '__main__':
    sys.exit(main())
