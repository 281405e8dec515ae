"""writes MANIFEST.json from properties.jsonl and the technique table below"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'Hypothesis-generated cases run by the library under Jython; '
T = {
    'C01': 'differential against an independent RFC 7539 model; quarter-round/block on raw states',
    'C02': 'stateful histories over several objects against a keystream-position model; round trip',
    'C03': 'differential against exact integer Poly1305; messages constructed to hit chosen accumulator values',
    'C04': 'differential against an independent AEAD model, both APIs, call histories',
    'C05': 'round trip and single-mutation forgeries against the model tag',
    'C06': 'differential against an independent AES-CMAC model; blocks constructed to hit subkey branches',
    'C07': 'differential against an independent RFC 5297 model and round trip; plaintexts constructed for chosen IVs',
    'C08': 'mutation of valid messages (forgeries), oracle: must be rejected',
    'C09': 'differential against integer.to_bytes and bytewise XOR',
    'C10': 'differential against positional notation; round trip',
    'C11': 'programs of group operations against an affine reference; tiny curves completely',
    'C12': 'scalar multiples against a reference on curves of known order; tiny curves completely',
    'C13': 'every published curve against an independently verified table and number-theoretic checks',
    'C14': 'candidate points on/off curve, all x on tiny curves, against the curve equation and Euler criterion',
    'C15': 'programs of group operations and scalar multiples against the Edwards law; tiny curves completely',
    'C16': 'programs, scalar multiples and ladders against the Montgomery group law; tiny curves completely',
    'C17': 'differential against gcd/pow of CPython; coprime and non-coprime by construction',
    'C18': 'differential against a second Jacobi algorithm and squaring; primes of every 2-adicity; small primes completely',
    'C19': 'numbers of known primality (sieve, BPSW, constructed pseudoprimes) against the verdict; small range completely',
    'C20': 'numbers built from known factors against definitions; small range completely',
    'C21': 'expression programs over GF(p) against integers mod p; tiny fields completely',
    'C22': 'polynomials over GF(p) against schoolbook arithmetic',
    'C23': 'complete comparison of the digits, and of generated fractions, with independently computed pi',
    'C24': 'stateful histories against hmac/hashlib models; one-shot differential',
    'C25': 'differential against hashlib.pbkdf2_hmac and an independent PBKDF2 for supplied PRFs',
    'C26': 'differential against hmac over all output lengths; prefix relation',
    'C27': 'differential against an independent Michael; keys/messages constructed for chosen word states',
    'C28': 'stateful packet-number histories against an independent two-phase mixer',
    'C29': 'permutations (all small ones, generated large ones) against a cycle decomposition; S-box tables computed',
    'C30': 'differential against definitions of Walsh transform and distance to affine functions; small sequences completely',
    'C31': 'differential against pow; all bases of small moduli; numbers of known factorization',
    'C32': 'groups of requests made alone and by several threads at once, differential between the two',
    'C33': 'requests made after generated import orders and other requests, differential against their answers otherwise; process state compared before and after',
    'C34': 'batches of generated keys against range, repetition and bit statistics; key agreement against reference scalar multiples',
}
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Generated-input search against an explicit oracle: no violation among the cases counted in the evidence file, '
        'including the boundary classes named there; not a proof. Trusts Jython/Java, Hypothesis and the references in '
        '/verif/ref (setup tests them against published vectors).')
EXTRA = {'C34': ' Keys are random, so bits are judged by statistics with a false alarm probability below 2^-45 per run.',
         'C32': ' The Java virtual machine schedules the threads; interleavings are sampled, not controlled.',
         'C06': ' AES itself (absent from the repository) is the Java AES, compared with an independent Python AES.',
         'C07': ' AES itself is the Java AES.', 'C08': ' AES itself is the Java AES.',
         'C23': ' The digit comparison is complete.', 'C13': ' Finite set of curves, examined completely.'}
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=[], not_applicable=[],
         notes='No hooks: the checks drive the public interface. One process per check, one Jython worker per core.')
for p in props:
    i = p['id']
    m['checks'].append(dict(
        property=i, quick_cmd='python3-vt run.py %s --tier quick' % i,
        thorough_cmd='python3-vt run.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='property-based testing: ' + P + T[i], level='exploration',
        level_note=NOTE + EXTRA.get(i, '')))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
