#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): one-token changes to the headers of a scratch worktree,
each run against the quick checks of the properties the code belongs to.  Survivors are listed for review.
usage: mutate.py WORKTREE OUT.jsonl SEED SECONDS [file-substring]"""
import sys, re, random, subprocess, json, os, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
WT, OUT, SEED, LIMIT = Path(sys.argv[1]), sys.argv[2], int(sys.argv[3]), float(sys.argv[4]); ONLY = sys.argv[5] if len(sys.argv) > 5 else ''
I = WT/'include'
# (file, regex of a line that starts the section, properties tried in this order)
MAP = {
 'activation.hpp': [('', ['C09','C10','C11'])],
 'loss.hpp': [('', ['C18'])],
 'layer.hpp': [('', ['C20','C13'])],
 'model.hpp': [('', ['C21'])],
 'optimizer.hpp': [('', ['C17'])],
 'variable.hpp': [('', ['C16','C17'])],
 'place_holder.hpp': [('', ['C15','C26'])],
 'constant.hpp': [('', ['C09','C24'])],
 'value.hpp': [('', ['C09','C14'])],
 'session.hpp': [('', ['C08','C15'])],
 'complex_operator.hpp': [('', ['C23'])],
 'dataset.hpp': [('', ['C27'])],
 'tensor.hpp': [('', ['C01','C02','C05','C04','C03','C06','C25'])],
 'utils/lzw.hpp': [('', ['C07'])],
 'utils/parallel.hpp': [('', ['C22'])],
 'utils/glob.hpp': [('', ['C26'])], 'utils/range.hpp': [('', ['C26'])], 'utils/view.hpp': [('', ['C26'])], 'utils/stride_iterator.hpp': [('', ['C26'])],
 'utils/for_each.hpp': [('', ['C26'])], 'utils/buffered_allocator.hpp': [('', ['C26'])], 'utils/string.hpp': [('', ['C26'])], 'utils/enumerate.hpp': [('', ['C26'])],
 'utils/lexical_cast.hpp': [('', ['C26'])], 'utils/imageio.hpp': [('', ['C28'])], 'utils/list.hpp': [('', ['C26'])], 'utils/float32.hpp': [('', ['C26'])], 'utils/fmt.hpp': None,
 'operation.hpp': [('', ['C14','C15']), (r'make_argumented_operator_serializer', ['C24']), (r'auto inline broadcast\(', ['C11']), (r'struct plus_context', ['C09','C10']), (r'struct multiplication_context', ['C11','C14']),
    (r'auto constexpr negative', ['C09','C10','C14']), (r'auto constexpr sum_reduce', ['C11']), (r'auto constexpr square', ['C09','C10']), (r'auto inline reshape', ['C11','C13']), (r'auto inline argmax', ['C11']),
    (r'auto transpose', ['C11']), (r'img2col', ['C12','C15']), (r'inline auto drop_out', ['C19']), (r'max_pooling_2d_context', ['C12','C15']), (r'inline auto normalization_batch', ['C19']),
    (r'auto constexpr concatenate', ['C11','C13']), (r'auto maximum', ['C09','C10']), (r'random_normal_like', ['C25','C11']), (r'auto equal\(', ['C09']), (r'zero_padding_2d_context', ['C12','C13']),
    (r'detailed_sliding_2d', ['C19']), (r'struct repeat_context', ['C11','C13','C15']), (r'auto abs\(', ['C09','C10'])],
}
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r'(?<=\w)\*(?=\w)', '+'), (r'(?<=\w)/(?=\w)', '*'), (r'(?<=\w)\+(?=\w)', '-'), (r'(?<=\w)-(?=\w)', '+'), (r' \+= ', ' = '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' /= '), (r' /= ', ' *= '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b1\b(?!\.)', '2'), (r'\b2\b(?!\.)', '1'), (r'\b1\.0\b', '0.0'), (r'\b0\.0\b', '1.0'), (r'\b2\.0\b', '1.0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'std::max\b', 'std::min'), (r'std::min\b', 'std::max'), (r'\brow\b', 'col'), (r'\bcol\b', 'row'), (r'\blhs_', 'rhs_'), (r'\brhs_', 'lhs_'), (r'\[r\]', '[c]'), (r'\binput\b', 'output'), (r'\bbegin\(\)', 'rbegin()'), (r'\bexp\b', 'expm1'), (r'\bsin\b', 'cos'), (r'!(?=\w)', ''), (r'\.deep_copy\(\)', ''), (r'\bdeep_copy\(', '('), (r'\bstride\b', '1'), (r'\bleft\b', 'top'), (r'\bbottom\b', 'right')]
SKIP = re.compile(r'better_assert|static_assert|debug_log|debug_print|#|template|typedef|using |namespace|///|std::cout|std::cerr|serializ|fmt::format|^\s*"|struct |concept|requires|\bnoexcept\b.*=>|operator *<<')
def sites(f):
    lines = (I/f).read_text(errors='replace').split('\n'); sec = MAP[f]; out = []; props = sec[0][1]; off = 0; comment = False
    for n, l in enumerate(lines):
        if l.strip().startswith('#if 0'): off += 1
        elif off and l.strip().startswith('#if'): off += 1
        elif off and l.strip().startswith(('#endif', '#else')): off -= 1 if l.strip().startswith('#endif') or off == 1 else 0
        for rx, p in sec[1:]:
            if re.search(rx, l) and not l.strip().startswith('//'): props = p
        if off or len(l) > 400 or SKIP.search(l) or l.strip().startswith('//') or not l.strip(): continue
        code = l.split('//')[0]
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                q = code[:m.start()].count('"')
                if q % 2: continue
                if ('<' in to or '>' in to) and ('<<' in code or '>>' in code): continue
                new = code[:m.start()] + to + code[m.end():]
                if new != code: out.append((f, n, l, new + l[len(code):], props))
        s = code.strip()
        if s.endswith(';') and not re.match(r'(return|break|auto|const|typename|unsigned|int|long|std::\w+<|T |Tsor|value_type|bool|float|double|using|}|public)', s) and s.count('(') == s.count(')') and s != ';':
            out.append((f, n, l, re.sub(r'\S.*', ';', code), props))
    return out
allsites = []
for f, m in MAP.items():
    if m and (I/f).exists() and ONLY in f: allsites += sites(f)
random.seed(SEED)
# stratify: at most one mutant per line until the lines are used up
byline = {}
for s in allsites: byline.setdefault((s[0], s[1]), []).append(s)
keys = list(byline); random.shuffle(keys)
print(len(allsites), 'mutants on', len(keys), 'lines', flush=True)
end = time.time() + LIMIT
for k in keys:
    if time.time() > end: break
    f, n, old, new, props = random.choice(byline[k])
    p = I/f; text = p.read_text(errors='surrogateescape'); lines = text.split('\n'); assert lines[n] == old or True
    lines[n] = new; p.write_text('\n'.join(lines), errors='surrogateescape')
    res = {}
    try:
        for pr in props:
            r = subprocess.run(['timeout', '880', 'python3', str(V/'run.py'), pr], cwd=V, env=dict(os.environ, VERIF_REPO=str(WT), VERIF_TIER='quick'), capture_output=True, text=True, errors='replace')
            res[pr] = r.returncode
            if r.returncode: break
    finally: p.write_text(text, errors='surrogateescape')
    verdict = 'caught' if 1 in res.values() else 'invalid' if any(res.values()) else 'SURVIVED'
    with open(OUT, 'a') as o: o.write(json.dumps(dict(file=f, line=n+1, old=old.strip(), new=new.strip(), res=res, verdict=verdict)) + '\n')
    print(verdict, f, n+1, res, new.strip()[:110], flush=True)
