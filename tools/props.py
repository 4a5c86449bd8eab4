"""what decides each property, beyond the tags in the contracts"""
PROPS = {}
def p(i, level, note, **kw):
    PROPS[i] = dict(level=level, note=note, **kw)

SAMPLES = 'the conversions of dasp_sample (to_sample::<f64>, to_sample::<f32>) are uninterpreted functions of the sample'
FLOATS = 'f64/f32 operations are uninterpreted functions of their operands (equal operands give equal results, bit for bit); facts about them that the proof uses (ordering of peaks and bins, scaling, exactness of f32, ranks) are lemmas bit-blasted by the verifier itself, but for commutativity and the order of bit patterns (axioms ax_*)'
ALL = 'Every listed function is verified against its contract for all inputs; '

p('C01', 'proof', ALL + 'new, the setters, change_parameters and the getters are specified by their full effect on the analyzer, and every rejecting path by an unchanged analyzer.')
p('C02', 'proof', ALL + 'absence of overflow, division by zero, out-of-range indices, failing assertions and unwraps is an obligation of every operation in the extracted code, given the data invariant EbuR128::wf, which every operation is proved to establish and to keep. '
  'Not covered by proof: the validity of the pointers given to capi.rs and the raw reads and writes of RollingBuffer, which are given index contracts instead.', trust=[FLOATS])
p('C03', 'proof', ALL + 'add_frames is proved to compute run(configuration, state, frames), and the lemma cut proves run(run(s, p), q) == run(s, p + q) for every cut; peak_calls and tp_calls prove the same of the overall peaks.', trust=[FLOATS, SAMPLES])
p('C04', 'proof', ALL + 'the samples of both layouts are proved to be those of the same sequence of frames, and the accepting conditions of all eight add_frames_* and seed_frames_* to be exact.', trust=[SAMPLES])
p('C05', 'proof', ALL + 'the state after add_frames is proved to be that of run, in which a block is recorded exactly when the remaining distance to the next boundary is used up; the timing theorems over run are lemmas.', trust=[FLOATS])
p('C06', 'proof', ALL + 'window energies are proved to be the weighted sum of squares over exactly the last n frames of the ring, in a fixed order of summation.', trust=[FLOATS])
p('C07', 'proof', ALL + 'coefficients, state update and output of the cascade are proved equal to the specification expression by expression; that the expression is BS.1770 is by inspection of s_coefficients.', trust=[FLOATS, SAMPLES])
p('C08', 'proof', ALL + 'the peak of a call is proved to be max |sample| / full scale per channel, the overall peak the maximum over the calls.', trust=[FLOATS])
p('C09', 'proof', ALL + 'the interpolator is proved to be the 48-tap windowed sinc of its definition, run over each channel alone in every specialisation.', trust=[FLOATS, SAMPLES])
p('C10', 'proof', ALL + 'gating is specified over the sequence of recorded blocks.', trust=[FLOATS])
p('C11', 'proof', ALL + 'the percentiles are specified over the sorted energies at or above the threshold.', trust=[FLOATS])
p('C12', 'proof', ALL + 'the bin of an energy is proved to be the one whose boundaries contain it; that both tables are ordered and have the values of the formula is proved by computation in the verifier on the literals of the source, all 2001 entries.', trust=[FLOATS])
p('C13', 'proof', ALL + 'the queue is specified as the last max blocks of the recorded sequence.')
p('C14', 'proof', ALL + 'the queries over several analyzers are specified over their histories together.', trust=[FLOATS])
p('C15', 'proof', ALL + 'reset and reconfiguration are proved to reach the state of a new analyzer (fresh), over which all queries and add_frames are specified.', trust=[FLOATS])
p('C16', 'proof', ALL + 'every query takes &self and is specified as a function of mode, configuration and state with its exact accepting condition.')
p('C17', 'proof', ALL + 'all four formats reach add_frames through the same three values of a sample; that the conversions scale as stated is decided bit-precisely by Kani for all values of each format, on the dasp_sample the crate builds with.')
p('C18', 'proof', ALL + 'every function of the C interface, with the pointers it is given modelled by what they point to: return code, output parameter, public fields and the effect on the analyzer, with the exact conditions of refusal.', bounded='the whole C interface on real pointers: native search of call sequences')
p('C19', 'proof', ALL + 'with_ftz, Ftz::new and the drop of Ftz are verified with the control register as an explicit argument: the register is restored to whatever it was, the closure runs with flush-to-zero set, and the filtering loops of process and seed are inside such a closure. '
  'A scan of the source on every run shows that no other code names the register.',
  trust=['a local that implements Drop is dropped at the end of its scope and on unwinding (Rust); the extraction writes the drop at the end of the scope out', 'a call of the closure returns or unwinds with the register as it found it (by the scan, only with_ftz reaches the register)',
         'the contracts of _mm_getcsr and _mm_setcsr'],
  bounded='whole calls, with and without a panic while filtering, under every kind of register value: native search')
p('C20', 'proof', ALL + 'seed_frames is proved to move the filter state as add_frames does and to leave all else as it was.', trust=[FLOATS, SAMPLES])
NA = []

import header, os, re, subprocess, shutil, time

# harnesses of kani/ that the contracts of a property rest on; the thorough tier runs all of them for every property
KANI = {
    'C08': ['ax_pos64', 'ax_abs64'],
    'C09': ['ax_pos32', 'ax_abs32', 'from_samples_1_2', 'from_samples_4_6', 'from_samples_8'],
    'C12': ['ax_pos64', 'ax_pos_bits'],
    'C01': ['mode_contains', 'mode_truncate'],
    'C17': ['ax_i16', 'ax_i32', 'float_samples'],
}

def kani(prop, tier, V, B):
    """the assumed axioms, decided by Kani; only a failed assertion is a failure"""
    names = KANI.get(prop, [])
    if tier != 'thorough' and not names:
        return []
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, 'kani'), CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '4']
    if tier != 'thorough':
        for n in names:
            cmd += ['--harness', 'proofs::' + n, ]
        cmd += ['--exact']
    t = time.time()
    try:
        q = subprocess.run(cmd, cwd=os.path.join(V, 'kani'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600 if tier == 'thorough' else 240)
        o = q.stdout.decode('utf8', 'replace')
    except (subprocess.TimeoutExpired, OSError) as x:
        return [{'name': 'kani', 'engine': 'Kani 0.68.0 / CBMC', 'cmd': ' '.join(cmd), 'status': 'no result: %s' % x}]
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', o)
    r = {'name': 'kani', 'engine': 'Kani 0.68.0 / CBMC', 'what': 'axioms and assumed contracts of dependencies, all values of the operands', 'cmd': ' '.join(cmd), 'seconds': round(time.time() - t, 1), 'harnesses': names if tier != 'thorough' else 'all', 'output': o[-6000:]}
    if not m:
        r['status'] = 'no result'
        return [r]
    r['status'] = '%s harnesses discharged, %s failed' % (m.group(1), m.group(2))
    if int(m.group(2)) and re.search(r'VERIFICATION:- FAILED', o) and re.search(r'Failed Checks: assertion failed', o):
        r['fail'] = 'an assumption of the proof does not hold: ' + '; '.join(re.findall(r'Verification failed for - (\S+)', o))[:400]
    return [r]

def smt(V):
    """axioms over IEEE operations stated in SMT-LIB"""
    out = []
    for f in sorted(os.listdir(os.path.join(V, 'smt'))):
        cmd = ['cvc5', '--tlimit=20000', os.path.join(V, 'smt', f)]
        try:
            a = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40).stdout.decode('utf8', 'replace').split()
        except (subprocess.TimeoutExpired, OSError) as x:
            a = ['no', 'result', str(x)]
        r = {'name': 'smt/' + f, 'engine': 'cvc5 1.1.2 (QF_FP)', 'what': open(os.path.join(V, 'smt', f)).readline().strip('; \n'), 'cmd': ' '.join(cmd), 'status': 'discharged' if a == ['unsat'] else ' '.join(a)[:200]}
        if a == ['sat']:
            r['fail'] = 'an assumption of the proof does not hold'
        out.append(r)
    return out

def scan_csr(REPO):
    """code outside of `mod ftz` that names the floating-point control register"""
    bad = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'//[^\n]*', '', t)
            t = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.S)
            for m in re.finditer(r'\bmod\s+ftz\s*\{', t):
                n, i = 1, m.end()
                while n and i < len(t):
                    n += {'{': 1, '}': -1}.get(t[i], 0)
                    i += 1
                t = t[:m.end()] + '\n' * t[m.end():i].count('\n') + t[i:]
                break
            for m in re.finditer(r'_mm_[gs]etcsr|_MM_SET_|\b(?:global_)?asm!|\barch::(?:x86|arm|aarch)|feset\w+|feholdexcept|fedisableexcept|set_fpcr', t):
                bad.append('src/%s:%d: %s' % (os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'src')), t.count('\n', 0, m.start()) + 1, m.group(0)))
    return bad

def suspicion(prop, REPO):
    """reasons, beyond refused obligations, to search natively for longer"""
    return ['names the control register outside of mod ftz: ' + x for x in scan_csr(REPO)] if prop == 'C19' else []

def extra(prop, tier, REPO, V, B):
    return kani(prop, tier, V, B) + smt(V) + (header.check(REPO, B) if prop == 'C18' else [])
