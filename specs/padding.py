"""the operations of the other tables on objects whose padding (elements of a register beyond size()) holds arbitrary values"""
import re
from common import *
import arith, compare_ops, unary, loadstore, where, casts, splitconcat, maskred, reduce, minmax, maskconv, access, shifts

MODS = [arith, shifts, compare_ops, unary, where, casts, splitconcat, maskred, reduce, minmax, maskconv, loadstore]


def prelude_dirty(T, abi):
    return prelude(T, abi).replace('static inline V ld(const', 'static inline V ld_(const').replace('static inline M ldm(const', 'static inline M ldm_(const') + '''
constexpr int NP = int(sizeof(V) / sizeof(T));
static inline V ldd(const T* p, const T* pad) {
  T b[NP]; for (int i = 0; i < NP; ++i) b[i] = i < N ? p[i] : pad[i];
  V v; __builtin_memcpy(static_cast<void*>(&v), b, sizeof(V)); return v;
}
template <int S> struct ints; template <> struct ints<1> { using t = signed char; }; template <> struct ints<2> { using t = short; };
template <> struct ints<4> { using t = int; }; template <> struct ints<8> { using t = long; };
static inline M lddm(const bool* p, const bool* pad) {
  M m;
  if constexpr (sizeof(M) == sizeof(V)) {
    using I = typename ints<sizeof(T)>::t;
    I b[NP]; for (int i = 0; i < NP; ++i) b[i] = (i < N ? p[i] : pad[i]) ? I(-1) : I(0);
    __builtin_memcpy(static_cast<void*>(&m), b, sizeof(M));
  } else {
    using U = unsigned long; constexpr int MB = sizeof(M) < 8 ? sizeof(M) : 8;
    U b = 0; for (int i = 0; i < int(8 * MB); ++i) if (i < N ? p[i] : pad[i]) b |= U(U(1) << i);
    __builtin_memcpy(static_cast<void*>(&m), &b, MB);
  }
  return m;
}
#define ld(...) ldd(__VA_ARGS__, _pad + NP * (__COUNTER__ & 3))
#define ldm(...) lddm(__VA_ARGS__, _padm + 64 * (__COUNTER__ & 3))
'''


PADS = [('_pad', 'T', '4 * NP', 'in'), ('_padm', 'bool', '256', 'in')]
SKIP = re.compile(r'\[\](\(|<)|first_selected')      # functions without access to the padding parameters


def partial(target, abi, T):
    """whether simd<T, abi> is a register with more elements than size() (no ABI tag of the library keeps padding in fixed_size objects)"""
    n, w = nlanes(target, abi, T), KIND[T][1] // 8
    return n & (n - 1) != 0 and n * w <= nlanes(target, 'native', T) * w and n * w > 1


def ops_for(T, tier, target, abi):
    if not partial(target, abi, T):
        return []
    o = []
    for m in MODS:
        for op in specops(m, T, tier, target, abi):
            if op.pre or 'ld' not in op.simd or SKIP.search(op.simd):
                continue
            mode = dict(op.mode)
            q = Op(m.__name__ + '.' + op.name, op.params + P(T, *PADS), op.simd, op.ref, op.ret, mode, op.pre, op.lay)
            o.append(q)
    if isint(T):
        for nm, b in (('divides', '/'), ('modulus', '%')):
            # the whole register is written, so that no part of the division is dead; only the elements are compared
            o.append(Op(nm + '_no_trap', P(T, A, B, R) + [('_raw', T, 'NP', 'out')] + P(T, *PADS),
                        'V v = ld(a) %s ld(b); __builtin_memcpy(_raw, &v, sizeof(v)); st(v, r);' % b,
                        loop('r[i] = static_cast<T>(a[i] %s b[i]);' % b), mode={'notrap': True}))
            o.append(Op(nm + '_scalar_no_trap', P(T, B, R) + [('s', T, None, 'in'), ('_raw', T, 'NP', 'out')] + P(T, *PADS),
                        'V v = s %s ld(b); __builtin_memcpy(_raw, &v, sizeof(v)); st(v, r);' % b,
                        loop('r[i] = static_cast<T>(s %s b[i]);' % b), mode={'notrap': True}))
    return o
