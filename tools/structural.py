"""Rules over the type-checked library crate (facts extracted by the analyser's scan) and over client programs that must or must not compile."""
import glob, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIGS = [('none', ['--no-default-features']), ('alloc', ['--no-default-features', '--features', 'alloc']), ('std', [])]

class Fatal(Exception): pass

def engine():
    import check
    return check.build_engine(), check.sysroot()

def build(tree, feats, T, tag, scan):
    """type-checks the library of `tree` with these features; returns (facts, {crate: file}, directories)"""
    exe, root = engine()
    td = os.path.join(T, 'scan'); os.makedirs(td, exist_ok=True)
    for d in glob.glob(f'{td}/debug/.fingerprint/nt-hive*') + glob.glob(f'{td}/debug/build/nt-hive*') + glob.glob(f'{td}/debug/deps/libnt_hive*'):
        shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)
    out = os.path.join(td, f'facts-{tag}.json')
    if os.path.exists(out): os.remove(out)
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=td, CARGO_INCREMENTAL='0', RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings')
    if scan: env.update(LD_LIBRARY_PATH=root + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, SA_SCAN=out)
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json', '--manifest-path', tree + '/Cargo.toml'] + feats, cwd=V + '/fixtures', env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    files, dirs, errs = {}, set(), []
    for l in p.stdout.splitlines():
        if not l.startswith('{'): continue
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact':
            for f in m['filenames']:
                dirs.add(os.path.dirname(f))
                if f.endswith('.rmeta'): files[m['target']['name'].replace('-', '_')] = f
        elif m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error': errs.append(m['message'].get('rendered') or m['message']['message'])
    if p.returncode != 0: return None, files, dirs, '\n'.join(errs)[-2500:] or p.stderr[-2500:]
    facts = None
    if scan:
        if not os.path.exists(out): raise Fatal(f'no facts were extracted from {tree} ({tag})')
        facts = json.load(open(out))
    return facts, files, dirs, ''

# ---------------------------------------------------------------- client programs
def client(code, files, dirs, prelude, work, n):
    """compiles one client program; returns (errors as (code, message), rendered)"""
    src = os.path.join(work, f'w{n}.rs')
    open(src, 'w').write(prelude + code)
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-Awarnings', '-o', os.path.join(work, f'libw{n}.rmeta'), src]
    for c in ('nt_hive', 'zerocopy'):
        if c in files: cmd += ['--extern', f'{c}={files[c]}']
    for d in sorted(dirs): cmd += ['-L', 'dependency=' + d]
    env = dict(os.environ); env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, text = [], ''
    for l in p.stderr.splitlines():
        if not l.startswith('{'): continue
        m = json.loads(l)
        if m.get('level') == 'error' and not m['message'].startswith('aborting due'):
            errs.append(((m.get('code') or {}).get('code') or '', m['message'])); text += m.get('rendered') or ''
    if p.returncode != 0 and not errs: errs = [('?', p.stderr[-500:])]
    return errs, text

LIFE = {'E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0515', 'E0597', 'E0716', 'E0713', 'E0521', 'E0310', 'E0621', 'E0700'}
def is_life(e): return e[0] in LIFE or (e[0] == '' and 'lifetime may not live long enough' in e[1])

def programs(progs, files, dirs, prelude, T, cov, rule):
    """progs: (name, code, want) with want 'ok', 'life' (rejected by the borrow checker and nothing else) or a set of codes"""
    viol = []
    work = tempfile.mkdtemp(prefix='clients-', dir=T)
    try:
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda a: client(a[1][1], files, dirs, prelude, work, a[0]), enumerate(progs)))
    finally: shutil.rmtree(work, ignore_errors=True)
    for (name, code, want), (errs, text) in zip(progs, res):
        cov['obligations'] = cov.get('obligations', 0) + 1
        if want == 'ok':
            if errs: viol.append((rule, name, 'a client program the property allows no longer compiles', text[:1500] + '\nprogram:\n' + code)); continue
        elif not errs: viol.append((rule, name, 'a client program the property forbids compiles', 'program:\n' + code)); continue
        elif want == 'life':
            if not all(is_life(e) for e in errs): viol.append(('anchor', name, 'a forbidden client program is rejected for an unexpected reason, so it decides nothing: ' + '; '.join(sorted({e[0] + ' ' + e[1] for e in errs}))[:300], text[:1500])); continue
        elif not all(e[0] in want for e in errs): viol.append(('anchor', name, 'a forbidden client program is rejected for an unexpected reason, so it decides nothing: ' + '; '.join(sorted({e[0] + ' ' + e[1] for e in errs}))[:300], text[:1500])); continue
        cov['discharged'] = cov.get('discharged', 0) + 1
    cov.setdefault('programs', []).extend(f'{n}: {"compiles" if w == "ok" else "rejected"}' for n, _, w in progs)
    return viol

# ---------------------------------------------------------------- C22
P22 = '''#![allow(unused, dead_code, mismatched_lifetime_syntaxes)]
use nt_hive::*; use zerocopy::{SplitByteSlice, SplitByteSliceMut};
'''
# what can be had from a handle: (name, type with lifetime 'x and bytes B, expression from `h: &'x Hive<B>`)
def got(root): return [
    ('the root key', "KeyNode<'x, B>", root),
    ('a key from subkey()', "KeyNode<'x, B>", root + '.subkey("a").unwrap().unwrap()'),
    ('a key from subpath()', "KeyNode<'x, B>", root + '.subpath("a\\\\b").unwrap().unwrap()'),
    ('the iterator from subkeys()', "SubKeyNodes<'x, B>", root + '.subkeys().unwrap().unwrap()'),
    ('a key from subkeys()', "KeyNode<'x, B>", root + '.subkeys().unwrap().unwrap().next().unwrap().unwrap()'),
    ('the iterator from values()', "KeyValues<'x, B>", root + '.values().unwrap().unwrap()'),
    ('a value from values()', "KeyValue<'x, B>", root + '.values().unwrap().unwrap().next().unwrap().unwrap()'),
    ('a value from value()', "KeyValue<'x, B>", root + '.value("a").unwrap().unwrap()'),
    ('the name of a value', "NtHiveNameString<'x>", root + '.value("a").unwrap().unwrap().name().unwrap()'),
    ('the data of a value', "KeyValueData<'x, B>", root + '.value("a").unwrap().unwrap().data().unwrap()'),
    ('the bytes of small data', "&'x [u8]", '(match ' + root + '.value("a").unwrap().unwrap().data().unwrap() { KeyValueData::Small(s) => s, _ => panic!() })'),
    ('the segments of big data', "BigDataSlices<'x, B>", '(match ' + root + '.value("a").unwrap().unwrap().data().unwrap() { KeyValueData::Big(s) => s, _ => panic!() })'),
    ('one segment of big data', "&'x [u8]", '(match ' + root + '.value("a").unwrap().unwrap().data().unwrap() { KeyValueData::Big(mut s) => s.next().unwrap().unwrap(), _ => panic!() })'),
    ('the strings of a value', "RegMultiSZStrings<'x, B>", root + '.value("a").unwrap().unwrap().multi_string_data().unwrap()'),
]
def c22_programs():
    P = []
    R = 'h.root_key_node().unwrap()'
    for n, t, e in got(R):
        P.append((n + ' outlives the handles before it', f"fn f<'x, B: SplitByteSlice>(h: &'x Hive<B>) -> {t} {{ {e} }}", 'ok'))
        P.append((n + ' outlives the borrow of the hive', f"fn f<'y, 'x, B: SplitByteSlice>(h: &'y Hive<B>) -> {t} where 'x: 'y {{ {e} }}", 'life'))
        tt = t.replace("'x", "'_").replace('B', "&'static [u8]") if False else t
        P.append((n + ' outlives the hive', f"fn f<'x>(b: &'x [u8]) -> () {{ let k; {{ let h = Hive::new(b).unwrap(); k = {e}; }} let _r = &k; drop(k); }}", 'life'))
        P.append((n + ' is alive while the hive is moved', f"fn f(h: Hive<&[u8]>) {{ let k = {e}; drop(h); let _r = &k; drop(k); }}", 'life'))
        P.append((n + ' is alive while the bytes change', f"fn f(v: &mut Vec<u8>) {{ let h = Hive::new(v.as_slice()).unwrap(); let k = {e}; v[5] = 1; let _r = &k; drop(k); }}", 'life'))
        P.append((n + ' is alive while clear_volatile_subkeys runs', f"fn f(mut h: Hive<&mut [u8]>) {{ let k = {e}; h.clear_volatile_subkeys().unwrap(); let _r = &k; drop(k); }}", 'life'))
        P.append((n + ' is gone before clear_volatile_subkeys runs', f"fn f(mut h: Hive<&mut [u8]>) {{ {{ let k = {e}; let _r = &k; drop(k); }} h.clear_volatile_subkeys().unwrap(); }}", 'ok'))
    # iterators: what they yield does not borrow the iterator, and they can be cloned
    for m, it in (('subkeys', 'KeyNode'), ('values', 'KeyValue')):
        P.append((f'items of {m}() outlive the iterator', f"fn f<'x, B: SplitByteSlice>(k: &KeyNode<'x, B>) -> Vec<{it}<'x, B>> {{ let mut v = Vec::new(); let mut i = k.{m}().unwrap().unwrap(); while let Some(x) = i.next() {{ v.push(x.unwrap()); }} drop(i); v }}", 'ok'))
    P.append(('several keys and values are alive together', "fn f<'x, B: SplitByteSlice>(h: &'x Hive<B>) { let a = h.root_key_node().unwrap(); let b = a.subkey(\"x\").unwrap().unwrap(); let c = b.value(\"v\").unwrap().unwrap(); let d = a.subkeys().unwrap().unwrap(); drop(a); for k in d { let k = k.unwrap(); let _ = k == b; } let _ = c.data(); }", 'ok'))
    for m in ('name().unwrap()', 'class_name().unwrap().unwrap()'):
        n = 'the ' + m.split('(')[0] + ' of a key'
        P.append((n + ' outlives the hive', f"fn f<'x>(b: &'x [u8]) {{ let k; {{ let h = Hive::new(b).unwrap(); let r = h.root_key_node().unwrap(); k = r.{m}; }} let _r = &k; }}", 'life'))
        P.append((n + ' is alive while the bytes change', f"fn f(v: &mut Vec<u8>) {{ let h = Hive::new(v.as_slice()).unwrap(); let r = h.root_key_node().unwrap(); let k = r.{m}; v[5] = 1; let _r = &k; }}", 'life'))
        P.append((n + ' is alive while clear_volatile_subkeys runs', f"fn f(mut h: Hive<&mut [u8]>) {{ let r = h.root_key_node().unwrap(); let k = r.{m}; h.clear_volatile_subkeys().unwrap(); let _r = &k; }}", 'life'))
        P.append((n + ' is usable while its key is', f"fn f<'a, 'x, B: SplitByteSlice>(r: &'a KeyNode<'x, B>) -> NtHiveNameString<'a> {{ r.{m} }}", 'ok'))
    P.append(('the hive outlives its bytes', "fn f() -> Hive<&'static [u8]> { let v = vec![0u8; 4096]; Hive::new(v.as_slice()).unwrap() }", 'life'))
    P.append(('the bytes change under an idle hive', "fn f(v: &mut Vec<u8>) { let h = Hive::new(v.as_slice()).unwrap(); v[5] = 1; let _ = h.root_key_node(); }", 'life'))
    P.append(('the hive is modified through a shared reference', "fn f(h: &Hive<&mut [u8]>) { h.clear_volatile_subkeys().unwrap(); }", {'E0596'}))
    P.append(('a hive over shared bytes is modified', "fn f(h: &mut Hive<&[u8]>) { h.clear_volatile_subkeys().unwrap(); }", {'E0599', 'E0277'}))
    P.append(('a hive is modified after its handles are gone', "fn f(v: &mut [u8]) { let mut h = Hive::new(v).unwrap(); { let k = h.root_key_node().unwrap(); let _ = k.name(); } h.clear_volatile_subkeys().unwrap(); let _ = h.root_key_node(); }", 'ok'))
    P.append(('the bytes are usable after the hive is gone', "fn f(v: &mut Vec<u8>) { { let mut h = Hive::new(v.as_mut_slice()).unwrap(); h.clear_volatile_subkeys().unwrap(); } v[5] = 1; }", 'ok'))
    return P

def c22(tier, cov, T, tree):
    facts, files, dirs, err = build(tree, [], T, 'c22', True)
    if facts is None: return [('anchor', 'nt_hive', 'the library does not compile', err)]
    viol = programs(c22_programs(), files, dirs, P22, T, cov, 'client')
    # the compiler's guarantees hold for code without unsafe and without shared mutability
    viol += unsafe_rule(facts, cov) + state_rule(facts, cov)
    viol += covered(facts, cov, 'std')
    self_test(T, cov, [('unsafe', unsafe_rule, ['unsafe block', 'unsafe fn', 'unsafe impl']), ('state', state_rule, ['Cached', 'Behind'])])
    return viol

# ---------------------------------------------------------------- C23
MACROS = {'zerocopy_derive', 'zerocopy', 'bitflags', 'memoffset', 'core', 'alloc', 'std', 'thiserror_impl', 'thiserror', 'enumn'}
def count(cov, n, bad):
    cov['obligations'] = cov.get('obligations', 0) + n
    cov['discharged'] = cov.get('discharged', 0) + n - bad

def unsafe_rule(f, cov):
    v = [('unsafe', w, k + ' in the library', '') for k, w, e in f['unsafe'] if e not in MACROS]
    for b in f['bodies']:
        if b['expn'] in MACROS: continue
    v += [('unsafe', 'nt_hive', 'foreign items: ' + x, '') for x in f['foreign']]
    count(cov, len(f['unsafe']) + len(f['bodies']), len(v))
    return v

def state_rule(f, cov):
    v = []
    for s in f['statics']:
        for w in s['why']: v.append(('state', s['path'], 'a static with mutable state: ' + w, ''))
    for a in f['adts']:
        for w in a['why'][:3]: v.append(('state', a['path'], 'a type with hidden mutable state or raw pointers: ' + w, ''))
    count(cov, len(f['statics']) + len(f['adts']), len(v))
    return v

OUT = re.compile(r'^(std|core|alloc)::(fs|io|net|env|process|thread|time|os|sync|cell|arch|task|random|backtrace)::')
# std:: paths that are core's or alloc's but print with std's name are told apart by the defining crate
PURE_STD = re.compile(r'panicking|^std::rt::|^std::panic::')
ADDR = re.compile(r'::(addr|expose_provenance|with_exposed_provenance|align_offset|is_aligned|is_aligned_to|expose_addr|offset_from|sub_ptr|byte_offset_from)$|^std::(any::type_name|any::type_id)')
CRATES = {'core', 'alloc', 'zerocopy', 'bitflags', 'thiserror', 'memoffset', 'enumn', 'nt_hive'}
def effect_rule(f, cov):
    v, n = [], 0
    for b in f['bodies']:
        if b['expn'] in MACROS: continue
        for c, p, u in b['refs']:
            n += 1
            if c == 'std':
                if not PURE_STD.search(p): v.append(('effect', b['path'], f'uses {p} of std', ''))
            elif c not in CRATES: v.append(('effect', b['path'], f'calls into {c}, which is not known to be pure: {p}', ''))
            elif OUT.match(p) and c in ('core', 'alloc'): v.append(('effect', b['path'], f'uses {p}', ''))
            elif ADDR.search(p) and c == 'core': v.append(('effect', b['path'], f'depends on an address: {p}', ''))
        for c in b['casts']: v.append(('effect', b['path'], f'depends on an address: {c}', ''))
    count(cov, n, len(v))
    return v

P23 = '''#![allow(unused, dead_code)]
use nt_hive::*; use zerocopy::{SplitByteSlice, SplitByteSliceMut};
fn send<T: Send>() {} fn sync<T: Sync>() {} fn unpin<T: Unpin>() {}
'''
TYPES = ['Hive<B>', "KeyNode<'static, B>", "KeyValue<'static, B>", "KeyValueData<'static, B>", "SubKeyNodes<'static, B>", "LeafKeyNodes<'static, B>", "IndexRootKeyNodes<'static, B>", "KeyValues<'static, B>", "BigDataSlices<'static, B>", "RegMultiSZStrings<'static, B>"]
PLAIN = ["NtHiveNameString<'static>", 'NtHiveError', 'HiveMinorVersion', 'KeyValueDataType']
def c23_programs():
    P = [(f'{t} is Send and Sync when the bytes are', f'fn f<B: SplitByteSlice + Send + Sync + \'static>() {{ send::<{t}>(); sync::<{t}>(); }}', 'ok') for t in TYPES]
    P += [(f'{t} is Send and Sync', f'fn f() {{ send::<{t}>(); sync::<{t}>(); }}', 'ok') for t in PLAIN]
    P.append(('many threads read one hive', '''fn f(h: Hive<&[u8]>) { let k = h.root_key_node().unwrap(); std::thread::scope(|s| { for _ in 0..4 { s.spawn(|| { let _ = k.subkey("a"); let _ = h.validate(); for x in k.subkeys().unwrap().unwrap() { let _ = x.unwrap().name(); } }); } }); }''', 'ok'))
    P.append(('self test: a type that is not Send', 'fn f() { send::<std::rc::Rc<u8>>(); }', {'E0277'}))
    P.append(('self test: a type that is not Sync', 'fn f() { sync::<std::cell::Cell<u8>>(); }', {'E0277'}))
    return P

def c23(tier, cov, T, tree):
    viol = []
    for tag, feats in CONFIGS:
        facts, files, dirs, err = build(tree, feats, T, 'c23' + tag, True)
        if facts is None: return [('anchor', 'nt_hive', f'the library does not compile ({tag})', err)]
        viol += unsafe_rule(facts, cov) + state_rule(facts, cov) + effect_rule(facts, cov) + covered(facts, cov, tag)
    viol += programs(c23_programs(), files, dirs, P23, T, cov, 'threads')
    self_test(T, cov, [('unsafe', unsafe_rule, ['unsafe block', 'unsafe fn', 'unsafe impl']), ('state', state_rule, ['static', 'Cached', 'COUNT', 'TABLE']), ('effect', effect_rule, ['std::env', 'Instant', 'addr'])])
    return viol

def covered(f, cov, tag):
    """the scan must see the library"""
    own = [b for b in f['bodies'] if b['expn'] not in MACROS]
    cov.setdefault('analysed', []).append(f'{tag}: {len(f["bodies"])} bodies ({len(own)} written out), {len(f["adts"])} types, {len(f["statics"])} statics, {sum(len(b["refs"]) for b in f["bodies"])} references to functions')
    cov['functions_total'] = max(cov.get('functions_total', 0), len(f['bodies']))
    cov['functions_of_the_library'] = sorted(b['path'] for b in own)
    if len(own) < 120 or len(f['adts']) < 25: return [('anchor', 'nt_hive', f'the scan sees too little of the library ({len(own)} functions, {len(f["adts"])} types)', '')]
    return []

def self_test(T, cov, rules, key='self_tests'):
    """the rules must find what is planted in /verif/fixtures"""
    facts, files, dirs, err = build(V + '/fixtures', [], T, 'fixture', True)
    if facts is None: raise Fatal('the self-test crate does not compile: ' + err)
    for name, fn, want in rules:
        got = [' '.join(x[:3]) for x in fn(facts, {})]
        for w in want:
            if not any(w in g for g in got): raise Fatal(f'self test: the {name} rule no longer finds {w}: {got[:6]}')
            cov[key] = cov.get(key, 0) + 1

# ---------------------------------------------------------------- C24
def alloc_rule(f, cov):
    """public functions that can reach an allocation give the caller something owned"""
    by = {}
    for b in f['bodies']: by.setdefault(b['path'], []).append(b)
    impls = {}
    for b in f['bodies']:
        if b['trait']: impls.setdefault((b['trait'], b['self']), []).append(b['path'])
    direct, via = {}, {}
    edges = {}
    for b in f['bodies']:
        p = b['path']
        why = sorted({x for c, x, u in b['refs'] if c == 'alloc'} | set(b['alloc']))
        if why: direct.setdefault(p, why[0])
        for l in b['local']:
            m = re.match(r'^(.*) of (.*)$', l)
            if m: edges.setdefault(p, set()).update(impls.get((m.group(1), m.group(2)), []))
            else: edges.setdefault(p, set()).add(l)
    # functions that may allocate
    reach = dict(direct)
    ch = True
    while ch:
        ch = False
        for p, es in edges.items():
            if p in reach: continue
            for e in sorted(es):
                if e in reach: reach[p] = 'calls ' + e; ch = True; break
    v, n = [], 0
    for b in f['bodies']:
        if b['kind'] == 'Closure' or b['expn'] in MACROS: continue
        if not b['public']: continue
        n += 1
        if b['path'] not in reach or b['owned']: continue
        if re.match(r'^std::(fmt|error)::', b['trait']): continue
        path = [b['path']]
        while reach.get(path[-1], '').startswith('calls ') and len(path) < 20: path.append(reach[path[-1]][6:])
        v.append(('alloc', b['path'], 'allocates although it returns nothing owned', ' -> '.join(path) + ': ' + reach[path[-1]]))
    cov['functions_that_may_allocate'] = sorted(p for p in reach if not p.count('::_::'))
    count(cov, n, len(v))
    return v

def nostd_rule(f, cov):
    v, n = [], 0
    for e in f['extern']:
        if e in ('std', 'alloc'): v.append(('no_std', 'nt_hive', f'the crate links {e} with default features off', ''))
    for b in f['bodies']:
        for c, p, u in b['refs']:
            n += 1
            if c in ('std', 'alloc'): v.append(('no_std', b['path'], f'uses {p} of {c} with default features off', ''))
        if b['alloc']: v.append(('no_std', b['path'], f'uses {b["alloc"][0]} with default features off', ''))
    count(cov, n, len(v))
    return v

P24 = '''#![no_std]
#![allow(unused, dead_code)]
use nt_hive::*; use zerocopy::{SplitByteSlice, SplitByteSliceMut};
'''
CORE = [
    ('open and validate', 'fn f(b: &[u8]) -> Result<()> { let h = Hive::new(b)?; let _ = Hive::without_validation(b)?; h.validate()?; let _ = (h.major_version(), h.minor_version()); let _ = h.root_key_node()?; Ok(()) }'),
    ('navigate', 'fn f<B: SplitByteSlice>(k: KeyNode<B>) -> Result<()> { let _ = (k.subkey("a"), k.subpath("a"), k.name(), k.class_name()); if let Some(s) = k.subkeys() { for x in s? { let _: KeyNode<B> = x?; } } Ok(()) }'),
    ('look up values', 'fn f<B: SplitByteSlice>(k: KeyNode<B>) -> Result<()> { let _ = k.value("a"); if let Some(s) = k.values() { for x in s? { let v: KeyValue<B> = x?; let _ = (v.name()?, v.data_size(), v.data_type()?); } } Ok(()) }'),
    ('read data', 'fn f<B: SplitByteSlice>(v: KeyValue<B>) -> Result<usize> { let mut n = 0; match v.data()? { KeyValueData::Small(s) => n += s.len(), KeyValueData::Big(it) => for s in it { n += s?.len(); } } let _: u32 = v.dword_data()?; let _: u64 = v.qword_data()?; Ok(n) }'),
    ('compare names', 'fn f(a: NtHiveNameString, b: NtHiveNameString) -> bool { a == b || a < b || a == "x" || "x" == a || a.len() > 0 && !a.is_empty() }'),
    ('clear volatile subkeys', 'fn f(b: &mut [u8]) -> Result<()> { Hive::new(b)?.clear_volatile_subkeys() }'),
    ('format errors and names', 'fn f(w: &mut dyn core::fmt::Write, e: NtHiveError, n: NtHiveNameString) { let _ = write!(w, "{e} {e:?} {n}"); }'),
]
OWNED = [
    ('owned strings and vectors', 'extern crate alloc; fn f<B: SplitByteSlice>(v: KeyValue<B>, n: NtHiveNameString) -> Result<()> { let _: alloc::vec::Vec<u8> = v.data()?.into_vec()?; let _: alloc::string::String = v.string_data()?; let _: alloc::string::String = n.to_string_lossy(); let _: Option<alloc::string::String> = n.to_string_checked(); for s in v.multi_string_data()? { let _: alloc::string::String = s?; } Ok(()) }'),
]
def features(tree, cov):
    """with default features off no dependency is asked for with std or alloc"""
    p = subprocess.run(['cargo', '+nightly', 'metadata', '--offline', '--format-version', '1', '--no-default-features', '--manifest-path', tree + '/Cargo.toml'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=V)
    if p.returncode != 0: return [('anchor', 'Cargo.toml', 'cargo metadata fails', p.stderr[-500:])]
    m = json.loads(p.stdout)
    nodes = {n['id']: n for n in m['resolve']['nodes']}
    pk = {x['id']: x for x in m['packages']}
    seen, todo, v = set(), [m['resolve']['root']], []
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        for d in nodes[i]['deps']:
            if not any(k['kind'] is None for k in d['dep_kinds']): continue
            # what a macro crate links runs in the compiler
            if any('proc-macro' in t['kind'] for t in pk[d['pkg']]['targets']): continue
            todo.append(d['pkg'])
    for i in sorted(seen):
        fs = set(nodes[i]['features'])
        if fs & {'std', 'alloc'} : v.append(('no_std', pk[i]['name'], 'is built with feature ' + '/'.join(sorted(fs & {'std', 'alloc'})) + ' with default features off', ''))
    cov['dependencies'] = sorted(pk[i]['name'] for i in seen)
    count(cov, len(seen), len(v))
    return v

def c24(tier, cov, T, tree):
    viol = []
    for tag, feats in CONFIGS:
        facts, files, dirs, err = build(tree, feats, T, 'c24' + tag, True)
        if facts is None: viol.append(('no_std' if tag != 'std' else 'anchor', 'nt_hive', f'the library does not compile with features: {tag}', err)); continue
        viol += covered(facts, cov, tag)
        if tag == 'none': viol += nostd_rule(facts, cov)
        else: viol += alloc_rule(facts, cov)
        progs = [(f'{n} ({tag})', c, 'ok') for n, c in CORE]
        if tag == 'none': progs += [(f'{n} ({tag})', c.replace('extern crate alloc;', 'extern crate alloc;'), {'E0599'}) for n, c in OWNED]
        else: progs += [(f'{n} ({tag})', c, 'ok') for n, c in OWNED]
        viol += programs(progs, files, dirs, P24, T, cov, 'features')
    viol += features(tree, cov)
    self_test(T, cov, [('alloc', alloc_rule, ['zero_copy', 'iter_alloc']), ('no_std', nostd_rule, ['links std', 'uses std::'])])
    return viol

# ---------------------------------------------------------------- C25
# what depends on the host; explicitly little- or big-endian conversions do not, and which of them is right is decided by the analysis roots
NATIVE = re.compile(r'::(from|to)_ne_bytes$|::(from|to)_(be|le)$|NativeEndian|::align_to(_mut)?$|::transmute|::transmute_')
def tokens(tree):
    """identifiers of the library's sources, without comments and literals"""
    out = []
    for p in sorted(glob.glob(tree + '/src/**/*.rs', recursive=True)):
        s = open(p).read()
        s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'', ' ', s, flags=re.S)
        out += [(os.path.relpath(p, tree), t) for t in re.findall(r'[A-Za-z_]\w*', s)]
    return out

def layout_rule(f, cov):
    v, n = [], 0
    fb = {a['path'] for a in f['adts'] if a['from_bytes']}
    okint = re.compile(r'^zerocopy::[UI](16|32|64|128|size)<zerocopy::LittleEndian>$|^zerocopy::(byteorder::)?[UI]\w+<zerocopy::(byteorder::)?LittleEndian>$')
    def ok(t):
        t = t.strip()
        m = re.match(r'^\[(.*); [^;]*\]$', t)
        if m: return ok(m.group(1))
        return t in ('u8', 'i8') or okint.match(t) or t in fb or t.startswith('std::marker::PhantomData')
    for a in f['adts']:
        if not a['from_bytes']: continue
        n += 1 + len(a['fields'])
        if a['align'] != 1: v.append(('layout', a['path'], f'a structure made from hive bytes needs an alignment of {a["align"]}', ''))
        for name, t in a['fields']:
            if not ok(t): v.append(('layout', a['path'], f'field {name} made from hive bytes has type {t}, which is not a byte, byte array or little-endian integer', ''))
    for w, t in f['aliases']:
        n += 1
        if re.search(r'native_endian|::(NE|NativeEndian)$', t): v.append(('endian', w, f'names {t}', ''))
    for b in f['bodies']:
        for t in b['views']:
            n += 1
            e = re.match(r'^\[(.*)\]$', t); t = e.group(1) if e else t
            if not (ok(t)): v.append(('layout', b['path'], f'hive bytes are viewed as {t}', ''))
        if b['expn'] in MACROS: continue
        for c, p, u in b['refs']:
            n += 1
            if NATIVE.search(p): v.append(('endian', b['path'], f'uses {p}', ''))
    count(cov, n, len(v))
    return v

def c25(tier, cov, T, tree):
    viol = []
    for tag, feats in CONFIGS:
        facts, files, dirs, err = build(tree, feats, T, 'c25' + tag, True)
        if facts is None: return [('anchor', 'nt_hive', f'the library does not compile ({tag})', err)]
        viol += layout_rule(facts, cov) + covered(facts, cov, tag)
        n = sum(1 for a in facts['adts'] if a['from_bytes'])
        if n < 8: viol.append(('anchor', 'nt_hive', f'only {n} structures made from bytes are left', ''))
    tk = tokens(tree)
    for f, t in sorted(set(tk)):
        if t in ('target_endian', 'target_arch'): viol.append(('endian', f, f'code selected by {t} is not the code analysed', ''))
    count(cov, 1, 0)
    self_test(T, cov, [('layout', layout_rule, ['Aligned', 'names zerocopy', 'BigField', 'from_ne_bytes'])])
    return viol

def run(pid, tier, cov, T, tree):
    os.makedirs(T, exist_ok=True)
    base = {k: cov.pop(k, None) for k in ('functions_of_the_library',)}
    v = globals()[pid.lower()](tier, cov, T, tree)
    if base['functions_of_the_library']: cov['functions_of_the_library'] = sorted(set(base['functions_of_the_library']) | set(cov.get('functions_of_the_library', [])))
    cov['rules'] = sorted(set(cov.get('rules', [])) | {'C22': {'client', 'unsafe', 'state'}, 'C23': {'unsafe', 'state', 'effect', 'threads'}, 'C24': {'alloc', 'no_std', 'features'}, 'C25': {'layout', 'endian'}}[pid])
    return v
