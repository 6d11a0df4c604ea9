"""C20: evaluation, inversion and decoding are deterministic and free of side effects."""
import re
from ..prog import load
from ..report import where
RULE = ('Effect analysis on the call graph of the compiled program (debug and release): from every deterministic public function and every trait implementation, over calls, function items, closures and initialisers of statics, no local function '
        'may call into randomness, clocks, environment, files, network, processes, threads or output, iterate over a randomly seeded table, read a mutable or interior-mutable static (other than one initialised once by a closed initialiser), '
        'turn an address into an integer or contain inline assembly. Types reachable by shared reference contain no interior mutability.')
ROOTS = set('''xgcd_big compute_crt sqrt_floor bsgs ph_dlp_power ph_dlp bidlp new_xy isinfinity to_xy_vartime to_xy to_xz to_xyz set_cond set_neg set_condneg equals new_xz get_xz new j_invariant
get_constant set_xy_nocheck set_xyz_nocheck set_xy set_xyz on_curve point_xy_nocheck point_xyz_nocheck point_xy_vartime point_xyz_vartime add_into addto add sub_into subfrom sub double_from_coords double_into double_self
double double_iter x_dbl_coords mul_into mul mul_big mul_small_into mul_small iter complete_pointX eval points curves extract encode decode trapdoor_eval recover_diagB trapdoor_inverse
get_codomain compute_codomain_constants evaluate_isogeny evaluate_isogeny_chain evaluate_isogeny_chain_for_basis factored_kummer_isogeny sparse_isogeny_prime_power recursive_sparse_isogeny tate_pairing weil_pairing
point_has_factored_order has_factored_order clear_cofactor generate_point_order_factored_D torsion_basis entangled_torsion_basis compute_canonical_kernel isogeny_from_scalar_x_only from_coords coords list hadamard
squared_theta new_from_coords new_from_point null_point precomputation set_double_self double_point product_isogeny_no_strategy product_isogeny get_coeff iszero set_conj conj mul_old set_mul mul_new set_square square
set_half half set_mul2 mul2 set_mul3 mul3 set_mul4 mul4 set_mul8 mul8 set_mul_small set_select select condswap set_invert invert legendre set_sqrt sqrt set_fourth_root fourth_root set_pow set_pow_ext pow pow_small pow_big
pow_ext set_pow_u64 pow_u64 set_pow_u64_vartime pow_u64_vartime hashcode batch_invert from_i32 from_i64 from_u32 from_u64 set_decode_reduce decode_reduce sum_of_products difference_of_products
mont_three_point_ladder recover_xy xdbl xadd'''.split())
EFFECTS = [
 (r'^rand(_core|_chacha|_pcg)?::|^getrandom::|\bRandBigInt\b|\bRandPrime\b|RandomBits|UniformBig|prelude::ThreadRng|as rand(_core)?::(RngCore|Rng|SeedableRng|CryptoRng)|^fastrand|OsRng|StdRng', 'draws randomness'),
 (r'\b_?rdrand|\b_?rdseed|\b_?rdtsc', 'reads a processor counter or generator'),
 (r'^<?&?(mut )?std::time::|SystemTime|Instant\b', 'reads a clock'),
 (r'^<?&?(mut )?std::env::', 'reads the environment'),
 (r'^<?&?(mut )?std::fs::|^<?std::path::Path.*::(exists|metadata|is_file|is_dir|read_dir|canonicalize)', 'accesses files'),
 (r'^<?&?(mut )?std::net::', 'accesses the network'),
 (r'^<?&?(mut )?std::process::(?!abort$)', 'controls processes'),
 (r'^<?&?(mut )?std::io::', 'performs input or output'),
 (r'^<?&?(mut )?std::thread::(current|available_parallelism|sleep|Thread)', 'observes the scheduler'),
 (r'std::thread::LocalKey|thread::local', 'uses thread-local state'),
 (r'std::sync::(poison::)?(mutex::)?Mutex|std::sync::(poison::)?(rwlock::)?RwLock|std::sync::mpsc|std::sync::atomic::|core::sync::atomic::', 'uses shared mutable state'),
 (r'OnceLock::<.*>::(set|take|get_mut)$|OnceCell::<.*>::(set|take|get_mut)$|once_lock::OnceLock.*::(set|take)$', 'sets shared state'),
 (r'hash_map::.*(Iter|Keys|Values|Drain|IntoIter|IterMut|IntoKeys|IntoValues)|HashMap::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if)$|HashSet::<.*>::(iter|drain|retain|difference|union|intersection|symmetric_difference)$|hash_set::.*(Iter|Drain|IntoIter)|<&?(mut )?std::collections::Hash(Map|Set)<.*> as std::iter::IntoIterator>|std::collections::hash::(map|set)::.*(Iter|IntoIterator)', 'iterates over a randomly seeded table'),
 (r'RandomState as std::hash::BuildHasher|RandomState::build_hasher|BuildHasher::hash_one', 'hashes with a random seed'),
 (r'::addr$|expose_provenance|::expose_addr$|ptr_to_int', 'observes an address'),
 (r'fmt::Pointer', 'formats an address'),
]
EFFECTS = [(re.compile(r), w) for r, w in EFFECTS]
CELL = re.compile(r'UnsafeCell|cell::(Ref)?Cell\b|sync::atomic|Mutex|RwLock')
ONCE = re.compile(r'OnceLock|OnceCell|LazyLock|LazyCell|sync::Once\b|lazy_static|once_cell')

def effect(path):
    for r, w in EFFECTS:
        if r.search(path): return w

class Graph:
    def __init__(s, P):
        s.P = P; s.edges = {}; s.facts = {}
    def celltype(s, t, seen=None):
        """name of an interior-mutable component of type t"""
        seen = set() if seen is None else seen
        if t in seen or t not in s.P.ty: return None
        seen.add(t); T = s.P.ty[t]; k = T['t']
        if k == 'adt':
            if CELL.search(T['def']) or ONCE.search(T['def']): return T['name']
            for v in T['v']:
                for f in v['f']:
                    r = s.celltype(f[1], seen)
                    if r: return r
            for a in T['args']:
                if isinstance(a, int):
                    r = s.celltype(a, seen)
                    if r: return r
        elif k == 'tuple':
            for f in T['f']:
                r = s.celltype(f, seen)
                if r: return r
        elif k in ('array', 'slice', 'ref', 'ptr'): return s.celltype(T['e'], seen)
    def analyse(s, f):
        """(successors, direct effects) of a function with a body"""
        if f.id in s.edges: return s.edges[f.id], s.facts[f.id]
        P = s.P; succ = []; bad = []
        def tyref(t, line):
            T = P.ty.get(t)
            if not T: return
            if T['t'] == 'fndef' and T.get('inst'): succ.append((T['inst'], line))
            if T['t'] == 'closure':
                for k in ('inst', 'inst_once'):
                    if T.get(k): succ.append((T[k], line))
        def alloc(i, line, seen):
            if i in seen or i not in P.alloc: return
            seen.add(i); A = P.alloc[i]
            if 'fn' in A: succ.append((A['fn'], line))
            if 'static' in A:
                n = s.celltype(A['ty'])
                if n and not ONCE.search(P.ty[A['ty']]['name']) and f.local: bad.append(('reads the static %s, which contains %s' % (A['static'], n), line))
            a = A.get('a')
            if isinstance(a, dict):
                for o, q in a['p']: alloc(q, line, seen)
        def const(k, line):
            t = k.get('ty')
            if t is not None: tyref(t, line)
            a = k.get('a')
            if isinstance(a, dict):
                for o, q in a['p']:
                    if P.alloc.get(q, {}).get('static') and P.ty[t]['t'] == 'ptr' and P.ty[t].get('mut') and f.local:
                        bad.append(('accesses the mutable static %s' % P.alloc[q]['static'], line))
                    alloc(q, line, set())
        def walk(x, line):
            if isinstance(x, dict):
                if 'k' in x and isinstance(x['k'], dict): const(x['k'], line); return
                for v in x.values(): walk(v, line)
            elif isinstance(x, list):
                if len(x) >= 2 and x[0] == 'closure' and isinstance(x[1], int): tyref(x[1], line)
                if len(x) >= 4 and x[0] == 'cast' and isinstance(x[1], str) and 'Expose' in x[1] and f.local: bad.append(('turns an address into an integer', line))
                for v in x: walk(v, line)
        for t in f.locals: tyref(t, f.span[1])
        for b in f.blocks:
            for st in b['s']: walk(st, st[-1] if st and st[0] == '=' else b['l'])
            t = b['t']
            if t[0] == '?' and 'InlineAsm' in str(t) and f.local: bad.append(('inline assembly', b['l']))
            if t[0] == 'call':
                info = t[1]
                if info['f'] is not None:
                    succ.append((info['f'], b['l']))
                    w = f.local and (effect(info.get('def') or '') or effect(info.get('res') or ''))
                    if w: bad.append(('%s: calls %s' % (w, info.get('res') or info.get('def')), b['l']))
                elif f.local and info.get('def') and effect(info['def']): bad.append(('%s: calls %s' % (effect(info['def']), info['def']), b['l']))
                # a once-initialised value must not depend on the arguments of the first caller
                nm = (info.get('res') or info.get('def') or '')
                if f.local and ONCE.search(nm) and re.search(r'::(get_or_init|get_or_try_init)\b', nm):
                    for a in info.get('args', []):
                        T = P.ty.get(a)
                        if T and T['t'] == 'closure' and T['lay'] and T['lay']['size']: bad.append(('initialises shared state from captured values', b['l']))
                for a in t[2]: walk(a, b['l'])
                if 'ptr' in info: walk(info['ptr'], b['l'])
            else: walk(t, b['l'])
        # function items passed by name to a local function
        for i, l in list(succ):
            g = P.fn.get(i)
            if g is not None and not g.local and f.local:
                w = effect(g.path)
                if w and not any(l == x[1] for x in bad): bad.append(('%s: refers to %s' % (w, g.path), l))
        s.edges[f.id] = succ; s.facts[f.id] = bad
        return succ, bad

def roots(P):
    r = []
    for f in P.fn.values():
        if not f.local or f.blocks is None or 'closure' in f.path: continue
        if any('ThreadRng' in P.ty[t]['name'] or (P.ty[t]['t'] == 'ref' and P.ty[P.ty[t]['e']]['t'] == 'param') for t in f.locals[1:1 + f.argc]) and not f.path.startswith('<'): continue
        n = f.path.rsplit('::', 1)[-1]
        if f.path.startswith('<') or n in ROOTS: r.append(f)
    return r

def run(R_):
    R_.assume += ['num-bigint operations other than its random generation are pure', 'the standard library functions not named by the rule have no effect on results (containers, iterators, formatting to a buffer)']
    total = {}
    for prof in ('debug', 'release'):
        P = load(prof); G = Graph(P); rs = roots(P); seenall = set()
        for f in rs:
            seen = {f.id: None}; st = [f.id]; found = []
            while st:
                i = st.pop(); g = P.fn.get(i)
                if g is None or g.blocks is None: continue
                if not g.local and effect(g.path): continue
                succ, bad = G.analyse(g)
                for w, l in bad:
                    path = []; x = i
                    while x is not None: path.append(P.fn[x].path.replace('festa_rs::', '')); x = seen[x]
                    found.append((w, g, l, ' <- '.join(path)))
                for j, l in succ:
                    if j not in seen: seen[j] = i; st.append(j)
            seenall |= set(seen)
            key = '%s: %s' % (prof, f.path.replace('festa_rs::', ''))
            if found:
                w, g, l, path = found[0]
                R_.bad(key, where(g, l), '%s (%s)' % (w, path))
            else: R_.ok(key, where(f), '%d functions reached' % len(seen))
        R_.floor('%s roots' % prof, len(rs), 260)
        loc = [P.fn[i] for i in seenall if i in P.fn and P.fn[i].local]
        total[prof] = {'roots': len(rs), 'functions reached': len(seenall), 'local': len(loc), 'statics': sorted(a['static'] for a in P.alloc.values() if 'static' in a)}
        # shared references: no interior mutability in the library's own types
        n = 0
        for t, T in sorted(P.ty.items()):
            if T['t'] == 'adt' and T['def'].startswith('festa_rs::'):
                c = G.celltype(t); n += 1
                R_.check(c is None, '%s: type %s' % (prof, T['name']), '', 'values of this type can change through shared references: contains %s' % c)
        R_.floor('%s types' % prof, n, 14)
        fm = [f for f in P.fn.values() if f.local and re.match(r'<festa_rs::festa::SecretKey as std::fmt::\w+>::fmt', f.path)]
        R_.check(not fm, '%s: the secret key has no formatting implementation' % prof, where(fm[0]) if fm else '', 'secret keys can be formatted for output')
    R_.extra.update(level='proof', reach=total)
