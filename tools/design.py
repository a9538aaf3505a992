#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_head.md, the properties, the harness annotations and tools/design_tail.md.
import json, glob, re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
'C01': 'construct / resize / modify matrices of every small shape, layout and bias mode with symbolic contents; oracle: the index formula and the flags the documentation gives',
'C02': 'clone, copy, move, compare with symbolic contents and all combinations of modes of both sides, including failing allocation; oracle: element-wise equality with a snapshot',
'C03': 'views over external storage and deformation of owning matrices, through sequences of operations; oracle: address arithmetic on the underlying block',
'C04': 'sanity predicates over every bit pattern of the elements (IEEE semantics in the solver); oracle: the definition spelled as a loop',
'C05': 'all index values of the machine types within the bounds stated, as bit-vectors; oracle: bijection and inverse',
'C06': 'partition functions over all sizes and thread counts within the bounds (bit-vector queries); oracle: the parts are disjoint and cover the range',
'C07': 'the real pool run by a scheduler whose choices are explored exhaustively up to a preemption bound, with lost wake-ups, spurious wake-ups, data races (vector clocks) and deadlocks detected; oracle: every range processed exactly once, results combined, pool reusable and destructible',
'C08': 'as C07 for the background workers: broadcasts, tasks, destruction at every point',
'C09': 'all variants (single-, multi-threaded, per layout) over symbolic matrices in exact real arithmetic; oracle: the sum of the same terms',
'C10': 'as C09; oracle: element-wise definition and frame condition (everything else bit-identical)',
'C11': 'as C09, ties and signs included, since the solver chooses the order of the values',
'C12': 'extraction, gathering, scattering and copying with symbolic contents and all index vectors; oracle: position map',
'C13': 'element-wise kernels; oracle: the defining expression per element, biases unchanged',
'C14': 'matrix products through a reference cblas (`harness/blas.h`) that checks leading dimensions and bounds; oracle: triple loop',
'C15': 'every activation: value against its definition, derivative expressed by the value, and the composition used in training; transcendental functions uninterpreted with their algebraic axioms',
'C16': 'losses and dL/dZ; oracle: symbolic derivative written down per loss, mean over samples',
'C17': 'one step from an arbitrary optimizer state; oracle: the published rule',
'C18': 'column norms, max-norm, DeCov and its gradient; oracle: definition',
'C19': 'the generators with the raw source of randomness replaced by symbolic values (every value it may return); oracle: ranges, moments as functions of the raw values, seeding',
'C20': 'masks with symbolic random numbers; oracle: kept/dropped value per element, affine correction of alpha dropout',
'C21': 'the real buffer with interleaved producers and consumers, all interleavings within the preemption bound',
'C22': 'walks over data sets with symbolic contents and every permutation the generator can return; oracle: each sample once, paired, in the order of the permutation',
'C23': 'normalization with symbolic data; oracle: one affine map applied to all sets, resulting statistics as requested',
'C24': 'bookkeeping helpers driven by sequences of operations with symbolic arguments; oracle: a plain record of what was told',
'C25': 'forwarders, ownership wrappers, tuple walks, option parsing; oracle: recorded calls',
'C26': 'whole networks: fprop, bprop, weight update with all weights and data symbolic; oracle: an independent reference network (`harness/netref.h`) written as textbook loops',
'C27': 'as C26 for packs, tilings and gated packs; oracle: the network of the contained layers',
'C28': 'the grad_works object with every optimizer and regularizer on symbolic weights, gradients and state over several steps; oracle: rules composed in the documented order',
'C29': 'dropout layers and penalised activations in training and inference; oracle: reference network with the recorded mask',
'C30': 'nnet::train() itself, with recording observers; oracle: number and order of calls, batches, the mean loss over the set',
'C31': 'initial weights as functions of symbolic random numbers; oracle: the published scale per scheme',
'C32': 'the LSUV procedure on small networks; statistics collector is the real one; oracle: scale/shift formula, name of the failing layer',
'C33': 'nnet::gradcheck() on networks where central differences are exact; a symbolic error planted into one component through the inspector; oracle: fails iff above the threshold',
'C34': 'every ranged kernel, whole against parts; oracle: the result of the full range, snapshot outside',
'C35': 'the readers run on a file held in memory, header, contents and end of file symbolic or chosen; oracle: the values put in, the error for the first thing wrong, allocation counters',
'C36': 'networks with nested packs are saved to and loaded from an in-memory archive; oracle: contents by path, weights before',
'C37': 'evaluators fed directly with any batches, and inside nnet::train; oracle: argmax and thresholds over plain arrays, the reference network for the weights in force',
}
def annots():
    out = {}
    for f in sorted(glob.glob(R + '/harness/*.cpp')):
        cur = None
        for l in open(f):
            m = re.match(r'//@ (.*)', l)
            if m:
                d = dict(kv.split('=', 1) for kv in m.group(1).split() if '=' in kv); cur = dict(d, file=os.path.basename(f), bounds=''); out.setdefault(d['prop'], []).append(cur)
            m = re.match(r'//@bounds (.*)', l)
            if m and cur is not None: cur['bounds'] = m.group(1).strip()
    return out
A = annots(); o = [open(R + '/tools/design_head.md').read().rstrip(), '', '## Properties and how they are decided', '',
 'For each: what is executed symbolically against which oracle, why tests cannot settle it, and the bounds of every harness (E = entry, in the file named). What lies outside the bounds is not claimed. Cost is the wall time of the quick tier on 8 cores when this was written.', '']
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; ev = R + '/evidence/%s.json' % i; t = ''
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e['coverage']; t = ' Cost %.0f s; about %s obligations.' % (e['wall_s'], c.get('obligations'))
    why = p.get('why_tests_cant', '')
    o += ['### %s %s' % (i, p['title']), '', (HOW.get(i, ' ').strip()[:1].upper() + HOW.get(i, '').strip()[1:]) + '.' + (' Tests: %s.' % why if why else '') + t, '']
    for a in A.get(i, []): o.append('* `%s` (%s%s%s): %s' % (a['entry'], a['file'], ', exact reals' if a.get('mode') == 'real' else '', ', thorough' if a.get('tier') == 'thorough' else '', a['bounds']))
    o.append('')
o.append(open(R + '/tools/design_tail.md').read())
open(R + '/DESIGN.md', 'w').write('\n'.join(o).rstrip() + '\n')
CAUGHT = {}
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d); rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(i, m['property'])))
s = open(R + '/DESIGN.md').read().replace('SEEDTABLE', '\n'.join(rows) + '\n'); open(R + '/DESIGN.md', 'w').write(s)
