"""C10: symmetric primitives stay inside their buffers: dependence analysis of every scenario (accesses with constant
addresses are decided exactly, data-dependent indexes by the range of bits that may be set) and, for the decoder whose
indexes are guarded by tests of the data, value analysis (Frama-C Eva)."""
import build, common, check_symm, eva
LEVEL = 'other'
DEC = r'''
#include <cry/base64.h>
static char in[LEN ? LEN : 1], out[LEN ? LEN / 4 * 3 + 0 : 1];
int main(void) {
    size_t r;
    fill(in, sizeof in);
    r = cry_base64_decode(LEN >= 4 ? out : (char *)0, LEN ? in : (char *)0, LEN);
    //@ check REACH: \false;
    //@ check length: r == (size_t)-1 || r <= LEN / 4 * 3;
    return 0;
}
'''
def decoder(tier):
    return [dict(name='b64d_%d' % n, text='#define LEN %d\n' % n + DEC, roots=['cry_base64_decode'], timeout=200)
            for n in ((0, 1, 2, 3, 4, 5, 8, 12) if tier == 'quick' else range(0, 21))]
def run(tier):
    res = check_symm.analyse('C10', check_symm.GENS, tier, skip=('cry_base64_decode',))
    n = 0; seen = set(); good = 0
    for j, o, v in eva.run_all(decoder(tier)):
        if o.err or o.unknown or (v.unreached and not v.reached and not v.alarms):
            res.undecided.append('%s: %s' % (j['name'], o.err or (o.unknown and 'unknown function ' + str(o.unknown[0])) or 'never returns')); continue
        n += v.obligations; good += 1
        for r in v.alarms:
            k = (r.func, r.line)
            if k in seen: continue
            seen.add(k); res.findings.append(common.Finding('bounds-value', r.func, common.rel('%s:%d' % (r.file, r.line)), 'may be violated: %s  (case %s)' % (r.text, j['name']), [], 'bounds-value:' + r.func))
        for nm, r in v.failed:
            if nm in seen: continue
            seen.add(nm); res.findings.append(common.Finding('length-value', 'cry_base64_decode', 'src/crypt/base64.c', 'the returned length is neither an error nor at most the size of the decoded data (case %s)' % j['name'], [], 'length-value:cry_base64_decode'))
    res.coverage['decoder_obligations'] = n; res.coverage['decoder_cases'] = good
    res.assumptions.append('Frama-C Eva is sound (base64 decoder only)')
    return res
