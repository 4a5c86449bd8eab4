"""C18: the declarations of assets/ebur128.h against the definitions in src/capi.rs, by the C compiler's type check (no bound).

The signatures of the exported functions and the fields of the handle are read from /repo's current source, written as C and compiled
after the header; the values of the header's enumerations are compared with the ones the contracts prove for the Rust side."""
import os, re, shutil, subprocess

CHANNELS = ('UNUSED LEFT RIGHT CENTER LEFT_SURROUND RIGHT_SURROUND DUAL_MONO MpSC MmSC Mp060 Mm060 Mp090 Mm090 Mp135 Mm135 Mp180 Up000 Up030 Um030 '
            'Up045 Um045 Up090 Um090 Up110 Um110 Up135 Um135 Up180 Tp000 Bp000 Bp045 Bm045').split()
SAME = {'Mp030': 1, 'Mm030': 2, 'Mp000': 3, 'Mp110': 4, 'Mm110': 5}
VALUES = dict([(n, i) for i, n in enumerate(CHANNELS)] + list(SAME.items()))
VALUES.update({'SUCCESS': 0, 'ERROR_NOMEM': 1, 'ERROR_INVALID_MODE': 2, 'ERROR_INVALID_CHANNEL_INDEX': 3, 'ERROR_NO_CHANGE': 4,
               'MODE_M': 1, 'MODE_S': 3, 'MODE_I': 5, 'MODE_LRA': 11, 'MODE_SAMPLE_PEAK': 17, 'MODE_TRUE_PEAK': 49, 'MODE_HISTOGRAM': 64,
               'VERSION_MAJOR': 1, 'VERSION_MINOR': 2, 'VERSION_PATCH': 6})
BASE = {'i32': 'int', 'u32': 'unsigned int', 'c_ulong': 'unsigned long', 'c_long': 'long', 'u64': 'unsigned long', 'i64': 'long', 'usize': 'size_t', 'f64': 'double', 'f32': 'float', 'i16': 'short',
        'c_int': 'int', 'c_uint': 'unsigned int', 'c_double': 'double', 'c_float': 'float', 'c_short': 'short', 'State': 'ebur128_state', '()': 'void', 'size_t': 'size_t'}

def ctype(t):
    t = re.sub(r'\s+', ' ', t.strip())
    m = re.match(r'\*\s*(mut|const) (.*)$', t)
    if m:
        b = ctype(m.group(2))
        if b is None:
            return None
        return b + ' *'  # const or not makes no difference to the ABI
    return BASE.get(t.split('::')[-1].strip())

def strip(t):
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    return re.sub(r'//[^\n]*', '', t)

def check(REPO, B):
    h, c = os.path.join(REPO, 'assets', 'ebur128.h'), os.path.join(REPO, 'src', 'capi.rs')
    r = {'name': 'header', 'engine': 'gcc type check', 'what': 'declarations and constants of assets/ebur128.h against the definitions of src/capi.rs'}
    if not (os.path.exists(h) and os.path.exists(c) and shutil.which('gcc')):
        r['status'] = 'no result: files or compiler missing'
        return [r]
    ht, ct = open(h, errors='replace').read(), strip(open(c, errors='replace').read())
    names = sorted(set(re.findall(r'\b(ebur128_\w+)\s*\(', strip(ht))))
    src, seen, unknown, hidden = ['#include <stddef.h>', '#define const', '#include "%s"' % h], [], [], []
    for m in re.finditer(r'((?:#\[[^\]]*\]\s*)*)pub\s+(?:unsafe\s+)?extern\s+"C"\s+fn\s+(\w+)\s*\(([^)]*)\)\s*(?:->\s*([^{]+?))?\s*\{', ct):
        at, n, ps, ret = m.group(1), m.group(2), m.group(3), m.group(4) or '()'
        if n not in names:
            continue
        ts = [ctype(p.split(':', 1)[1]) for p in ps.split(',') if ':' in p]
        rt = ctype(ret)
        if rt is None or None in ts:
            unknown.append(n)
            continue
        seen.append(n)
        if 'no_mangle' not in at and 'export_name' not in at:
            hidden.append(n)
        src.append('%s %s(%s);' % (rt, n, ', '.join(ts) or 'void'))
    m = re.search(r'#\[repr\(C\)\]\s*(?:#\[[^\]]*\]\s*)*pub\s+struct\s+State\s*\{([^}]*)\}', ct)
    if m:
        fs = [(x.split(':', 1)[0].replace('pub', '').strip(), x.split(':', 1)[1].strip()) for x in m.group(1).split(',') if ':' in x]
        tys = [('void *' if t.startswith('*') or 'Box<' in t or 'NonNull<' in t else ctype(t)) for _, t in fs]
        if None not in tys:
            src.append('struct vx_state { %s };' % ' '.join('%s f%d;' % (t, i) for i, t in enumerate(tys)))
            src.append('_Static_assert(sizeof(struct vx_state) == sizeof(ebur128_state), "size of the handle");')
            for i, n in enumerate(['mode', 'channels', 'samplerate', 'd']):
                if i < len(tys):
                    src.append('_Static_assert(__builtin_offsetof(struct vx_state, f%d) == __builtin_offsetof(ebur128_state, %s), "field %s of the handle");' % (i, n, n))
                    if tys[i] != 'void *':
                        src.append('_Static_assert(__builtin_types_compatible_p(__typeof__(((struct vx_state *)0)->f%d), __typeof__(((ebur128_state *)0)->%s)), "type of field %s of the handle");' % (i, n, n))
    for n, v in sorted(VALUES.items()):
        src.append('_Static_assert((EBUR128_%s) == %d, "value of EBUR128_%s");' % (n, v, n))
    f = os.path.join(B, 'header.c')
    open(f, 'w').write('\n'.join(src) + '\n')
    cmd = ['gcc', '-std=gnu11', '-fsyntax-only', f]
    q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    o = q.stdout.decode('utf8', 'replace')
    r.update(cmd=' '.join(cmd), status='%d functions, %d constants agree' % (len(seen), len(VALUES)), output=o)
    unknown += [n for n in names if n not in seen and n not in unknown]
    if unknown:
        r['status'] += '; not decided: ' + ', '.join(unknown)
    bad = re.findall(r'error: (.*)', o)
    if hidden:
        bad.append('not exported under its name: ' + ', '.join(hidden))
    if bad:
        r['fail'] = 'the C header and the functions behind it disagree: ' + '; '.join(bad[:4])
        r['status'] = 'refused'
        r['input'] = True
    return [r]
