#!/usr/bin/env python3
"""Copy /repo/nntl to DST/nntl applying line-preserving rewrites of MSVC-only spellings clang does not accept.
Every rewrite only adds qualification/template arguments; none changes what is computed."""
import os, re, sys, shutil
REPO = os.environ.get('VP_REPO', '/repo')

# names MSVC finds by unqualified lookup in a dependent base, spelled out
QUAL = {
  'loss_addendum/L1.h': {r'bool c = calcOnFprop': 'bool c = bCalcOnFProp', r'bool c = appendToNZGrad': 'bool c = bAppendToNZGrad'},
  'loss_addendum/L2.h': {r'bool c = calcOnFprop': 'bool c = bCalcOnFProp', r'bool c = appendToNZGrad': 'bool c = bAppendToNZGrad'},
  'loss_addendum/DeCov.h': {r'mtx_size_t biggestMtx': '::nntl::math::smatrix_td::mtx_size_t biggestMtx', r'bool c = calcOnFprop': 'bool c = bCalcOnFProp'},
  'loss_addendum/_i_loss_addendum.h': {r'bool c = calcOnFprop': 'bool c = true', r'mtx_size_t biggestMtx': '::nntl::math::smatrix_td::mtx_size_t biggestMtx'},
  'nntl/common_nn_data.h': {r'bool B = bAllowToBlockLearning': 'bool B = common_nn_data<InterfacesT>::bAllowToBlockLearning'},
  'nntl/nnet_evaluator.h': {'train_set_id': '::nntl::DataSetsId::train_set_id', 'test_set_id': '::nntl::DataSetsId::test_set_id'},
  'nntl/training_observer.h': {'train_set_id': '::nntl::DataSetsId::train_set_id', 'test_set_id': '::nntl::DataSetsId::test_set_id'},
  'layer/fully_connected.h': {'bActivationForHidden': '_base_class_t::bActivationForHidden', 'bActivationForOutput': '_base_class_t::bActivationForOutput'},
  'layer/output.h': {'bActivationForHidden': '_base_class_t::bActivationForHidden', 'bActivationForOutput': '_base_class_t::bActivationForOutput'},
  'layer/pack_horizontal_optional.h': {'phl_count': '_base_class_t::phl_count', 'realmtx_t::': '_base_class_t::realmtx_t::'},
  'layer/extender.h': {'mtx_size_t': '::nntl::math::smatrix_td::mtx_size_t'},
  'nntl/nnet.h': {'typename iMath_t::': 'typename _base_class::iMath_t::'},
  'nntl/layers.h': {'typename iMath_t::': 'typename output_layer_t::iMath_t::'},
}

def sub(path, text):
    n = path
    if n.endswith('interface/math/smatrix.h'):
        m = re.search(r'^[ \t]*class smatrix_deform\b', text, re.M)
        if m:
            h, t = text[:m.start()], text[m.start():]
            t = re.sub(r'\bsmatrix(&&?)', r'smatrix<T_>\1', t)
            text = h + t
    text = re.sub(r'enable_if_t<([^;{}\n]*),\s*constexpr\s+', r'enable_if_t<\1, ', text)
    # MSVC takes 'using dependent_base::type;' for a type
    text = re.sub(r'\busing\s+(?!typename\b)((?:[A-Za-z_]\w*(?:<[^;<>]*>)?::)+[A-Za-z_]\w*_t;)', lambda m: 'using ' + ('' if m.group(1).startswith(('std::','nntl::')) else 'typename ') + m.group(1), text)
    if n.endswith('interface/math/mathn.h'):
        text = add_usings(text, '_MathN', os.path.join(REPO, 'nntl/interface/math/smath.h'), '_SMath')
    # names of DataSetsId that MSVC finds in a dependent base
    if '/train_data/' in n and not n.endswith('_i_train_data.h'):
        text = re.sub(r'(?<![\w:.>])(flag_exclude_nothing|train_set_id|test_set_id)\b', r'::nntl::DataSetsId::\1', text)
    text = re.sub(r'(?<!typename )\b(realmtx_t::tag_noBias\(\))', '::nntl::math::tag_noBias()', text)
    text = re.sub(r'\bThresholds_t::(\w+)\s*<', r'Thresholds_t::template \1<', text)
    # x.f<A>(...) on a dependent x
    text = re.sub(r'(\.|->)(\w+)<([\w:, ]+)>\(', r'\1template \2<\3>(', text)
    text = re.sub(r'(?<![\w:])(is_base_of<\s*)(_i_layer_fprop|_i_layer_trainable|_i_layer|_i_layer_gate|_i_train_data)\s*,', lambda m: m.group(1) + m.group(2) + ('<XT, YT>' if m.group(2) == '_i_train_data' else '<real_t>') + ',', text.replace('::std::is_base_of<', '::std:: is_base_of<'))
    text = re.sub(r'template<\s*bool c = is_layer_learnable<self_t>::value\s*>', 'template<typename vp_S = self_t, bool c = is_layer_learnable<vp_S>::value>', text)
    text = re.sub(r'typename StatsFuncT = typename self_t::default_StatsFuncT', 'typename StatsFuncT = default_StatsFuncT', text)
    text = re.sub(r'= self_t::template NormalizerF_tpl<', '= typename _base_class_t::template NormalizerF_tpl<' if n.endswith('transf_train_data.h') else '= NormalizerF_tpl<', text)
    text = text.replace('converter_reduce_data_t<type_t> converter_t', 'typename _i_threads<RealT, range_t>::template converter_reduce_data_t<type_t> converter_t') if n.endswith('threads/workers.h') else text
    text = re.sub(r'(?<!:)\bconverter_reduce_data_tpl<', 'base_class_t::template converter_reduce_data_tpl<', text) if n.endswith('math/mathn.h') else text
    text = re.sub(r'(enable_if_t<[^;{}\n]*,)\s*static\s+void', r'\1 void', text)
    text = text.replace('_base_class_t::_Get_container()', '_base_class_t::c') # the standard name of the member
    text = re.sub(r'static_assert\(false,', 'static_assert(B != B,', text) if n.endswith('common_nn_data.h') else text
    text = re.sub(r'#include "[^"]*_supp/io/matfile.h"', '#include "vp_matfile_stub.h"', text) if n.endswith('nntl/nnet.h') else text
    if n.endswith('train_data/_td_norm.h'):
        text = re.sub(r'(?<!typename )\bdecltype\(fn\)::mtx_update_t', 'typename decltype(fn)::mtx_update_t', text)
        text = re.sub(r'\btypename self_t::mtx_update_t', 'typename FinalT::mtx_update_t', text)
    if n.endswith('layer/_layer_base.h'): text = re.sub(r'(?<=return )get_self\(\)(?=\.)', 'this->get_self()', text)
    if '/layer/' in n: text = re.sub(r'(?<![\w:.>])ErrorCode::(?=\w)', '::nntl::_nnet_errs::ErrorCode::', text)
    for suffix, names in QUAL.items():
        if n.endswith(suffix):
            for a, b in names.items():
                text = re.sub(r'(?<![\w:.>])%s\b' % a, b, text)
    if n.endswith('serialization/serialization.h'):
        m = re.search(r'struct named_struct', text)
        if m:
            e = m.end() + re.search(r'\n[ \t]*\};', text[m.end():]).start()
            b = text[m.end():e]  # noqa
            # inside the struct and its base clause, spell the injected name with its argument
            b = re.sub(r'\bnvp\b(?!\s*<)', 'nvp<T>', b)
            text = text[:m.end()] + b + text[e:]
    return text

def add_usings(text, cls, basefile, base):
    """MSVC looks unqualified names up in dependent bases: spell it out with using-declarations of the base's member types"""
    b = open(basefile, encoding='latin-1', newline='').read()
    m = re.search(r'\bclass\s+%s\s*(:[^{;]*)?\{' % base, b)
    c = re.search(r'\bclass\s+%s\s*:[^{;]*\{' % cls, text)
    if not m or not c: return text
    body = b[m.end():]
    # member declarations at depth 0
    depth, i, flat = 0, 0, []
    for ch in re.sub(r'//[^\n]*|/\*.*?\*/', lambda k: re.sub(r'[^\n]', ' ', k.group(0)), body, flags=re.S):
        if ch == '{': depth += 1
        if ch == '}':
            depth -= 1
            if depth < 0: break
            flat.append('}')
            continue
        if depth == 0: flat.append(ch)
    flat = ''.join(flat)
    types = set(re.findall(r'\btypedef\s[^;]*?\b(\w+)\s*;', flat))
    tpl = set(re.findall(r'template\s*<[^;{}]*>\s*(?:struct|class)\s+(\w+)', flat))
    types |= set(re.findall(r'\b(?:struct|enum|class)\s+(\w+)', flat)) - tpl
    vals = set()
    for e in re.findall(r'\benum\s+\w*\s*\{([^}]*)\}', re.sub(r'//[^\n]*', '', body)):
        vals |= set(re.findall(r'(\w+)\s*(?:=[^,]*)?(?:,|$)', e.strip() + ','))
    own = set(re.findall(r'\b(?:struct|class)\s+(\w+)\s*[:{]', text[c.end():]))
    used = set(re.findall(r'\w+', text[c.end():]))
    already = set(re.findall(r'\busing\s[^;]*::(\w+);', text[c.end():])) | set(re.findall(r'\btypedef\s[^;]*?\b(\w+)\s*;', text[c.end():c.end()+1500]))
    bt = re.search(r'%s\s*<[^>]*>' % base, text[c.start():c.end()]).group(0)
    ins = ''.join(' using typename %s::%s;' % (bt, t) for t in sorted((types & used) - own - already))
    ins += ''.join(' using %s::%s;' % (bt, t) for t in sorted((vals & used) - own - already - types))
    return text[:c.end()] + ins + text[c.end():]

def fixcase(root, inc):
    """Windows file names are case-insensitive"""
    if os.path.exists(os.path.join(root, inc)): return inc
    d, f = os.path.split(inc)
    dd = os.path.join(root, d)
    if os.path.isdir(dd):
        for e in os.listdir(dd):
            if e.lower() == f.lower(): return os.path.join(d, e)
    return inc

SMALL = False
def small(text):
    """tuning thresholds (they only select between equivalent implementations) scaled down so that small matrices reach both sides"""
    def f(m):
        if 'perthread' in m.group(2).lower(): return m.group(0)
        try: v = eval(re.sub(r'//.*', '', m.group(3)), {'__builtins__': {}})
        except Exception: return m.group(0)
        return m.group(1) + m.group(2) + ' = ' + ('5' if v > 16 else m.group(3)) + ';'
    return re.sub(r'(static constexpr \w+ )(\w+)\s*=\s*([^;{}]+);', f, text)

def main(dst):
    src = os.path.join(REPO, 'nntl')
    out = os.path.join(dst, 'nntl')
    if os.path.isdir(out): shutil.rmtree(out)
    for root, dirs, files in os.walk(src):
        d = os.path.join(out, os.path.relpath(root, src))
        os.makedirs(d, exist_ok=True)
        for f in files:
            p = os.path.join(root, f)
            t = open(p, encoding='latin-1', newline='').read().replace('\r\n', '\n')
            t = sub(p, t)
            if SMALL and f.endswith('_thr.h'): t = small(t)
            t = re.sub(r'^(\s*#\s*include\s*")([^"]+)(")', lambda m: m.group(1) + fixcase(root, m.group(2)) + m.group(3), t, flags=re.M)
            open(os.path.join(d, f), 'w', encoding='latin-1', newline='').write(t)
    ext = os.path.join(dst, '_extern')
    if os.path.isdir(ext): shutil.rmtree(ext)
    shutil.copytree(os.path.join(os.path.dirname(os.path.abspath(__file__)), '_extern'), ext)
if __name__ == '__main__':
    SMALL = '--small' in sys.argv
    main(sys.argv[1])
