"""Generators of CoNLL-U text (valid and in the form the library itself writes, unless asked otherwise)."""

UPOS = ['NOUN', 'VERB', 'ADJ', 'PUNCT', 'ADP', 'DET', 'PRON', 'X', '_']
DEPRELS = ['nsubj', 'obj', 'punct', 'acl:relcl', 'conj', 'det', 'amod', 'dep', 'advcl:in:loc']
FEATS = ['Case=Nom', 'Gender=Fem', 'Number=Sing', 'Person[psor]=1', 'VerbForm=Fin', 'Abbr=Yes']
MISCS = ['Gloss=x', 'Lang=en', 'Translit=abc', 'Bug', 'X=a=b', 'Zz=1', 'aa=2']
CHARS = 'abcdefghijklmnopqrstuvwxyz'
RARE = ['é', 'ß', 'ř', '中', '文', 'ا', '€', '½', '\u00ad', '\U0001F600', '́', "'", '"', '-', '.', '&', '<', '=', '|', '#', '/']


def word(rng, rare=0.1):
    n = rng.randint(1, 6)
    out = ''.join(rng.choice(RARE) if rng.random() < rare else rng.choice(CHARS) for _ in range(n))
    return out


def heads(rng, n, nonproj=0.4):
    """Random tree over 1..n as a list of heads (0 = technical root), projective or not."""
    if n == 0:
        return []
    if rng.random() < nonproj:
        order = list(range(1, n + 1))
        rng.shuffle(order)
        head = [0] * (n + 1)
        for i, w in enumerate(order):
            head[w] = 0 if i == 0 or rng.random() < 0.08 else order[rng.randrange(i)]
        return head[1:]
    head = [0] * (n + 1)

    def fill(lo, hi, parent):          # projective: attach a segment below parent
        if lo > hi:
            return
        while lo <= hi:
            end = rng.randint(lo, hi)
            top = rng.randint(lo, end)
            head[top] = parent
            fill(lo, top - 1, top)
            fill(top + 1, end, top)
            lo = end + 1
    top = rng.randint(1, n)
    head[top] = 0
    fill(1, top - 1, top)
    fill(top + 1, n, top)
    return head[1:]


def some(rng, items, p=0.4):
    return [x for x in items if rng.random() < p]


def tree(rng, n, *, sent_id=None, text=True, empties=0.25, mwts=0.25, deps=0.5, rare=0.1, names=None, max_empty=3, newdoc=None,
         newpar=None, comments=True, attrs=True, sorted_misc=True, nonproj=0.4):
    """Lines of one sentence.  `names` (a function) may supply unique forms."""
    hd = heads(rng, n, nonproj)
    forms = [names() if names else word(rng, rare) for _ in range(n)]
    space = ['No' if rng.random() < 0.2 else '' for _ in range(n)]
    rows = {}
    ids = []
    emps = []
    if rng.random() < empties:
        for _ in range(rng.randint(1, max_empty)):
            emps.append(rng.randint(0, n))
    emps.sort()
    eid = []
    for i in range(n + 1):
        if i:
            ids.append(str(i))
        k = 0
        for e in emps:
            if e == i:
                k += 1
                ids.append(f'{i}.{k}')
                eid.append(f'{i}.{k}')
    mwt = {}
    if rng.random() < mwts and n >= 2:
        i = 1
        while i < n:
            if rng.random() < 0.3:
                j = min(n, i + rng.randint(1, 2))
                mwt[i] = j
                i = j + 1
            else:
                i += 1
    inside = {}
    for i, j in mwt.items():
        for k in range(i, j + 1):
            inside[k] = (i, j)
    allids = ids[:] + ['0']
    use_deps = bool(eid) or rng.random() < deps
    lines = []
    textparts = []
    for x in ids:
        emp = '.' in x
        i = int(x.split('.')[0])
        if not emp and i in mwt:
            misc = ['SpaceAfter=No'] if space[mwt[i] - 1] else []
            glued = bool(misc)
            if not sorted_misc:
                misc += some(rng, MISCS, 0.2)
                rng.shuffle(misc)
            mform = ''.join(forms[i - 1:mwt[i]]) + 'M'
            lines.append('\t'.join([f'{i}-{mwt[i]}', mform] + ['_'] * 7 + ['|'.join(misc) or '_']))
            textparts.append(mform + ('' if glued else ' '))
        feats = sorted(some(rng, FEATS, 0.25), key=str.lower) if attrs else []
        misc = some(rng, MISCS, 0.15) if attrs else []
        if not emp and i not in inside and space[i - 1]:
            misc.append('SpaceAfter=No')
        if sorted_misc:
            misc.sort(key=lambda s: s.split('=')[0].lower())
        else:
            rng.shuffle(misc)
        if not emp and i not in inside:
            textparts.append(forms[i - 1] + ('' if space[i - 1] else ' '))
        if use_deps and (emp or rng.random() < 0.8):
            k = rng.choice([1, 1, 1, 2, 2, 3])
            dd = '|'.join(f'{rng.choice(allids)}:{rng.choice(DEPRELS)}' for _ in range(k))
        else:
            dd = '_'
        form = (names() if names else word(rng, rare)) if emp else forms[i - 1]
        lines.append('\t'.join([x, form, rng.choice([form, word(rng, 0), '_']), rng.choice(UPOS), rng.choice(['_', 'NN', 'Vb-1']),
                                '|'.join(feats) or '_', '_' if emp else str(hd[i - 1]),
                                '_' if emp else ('root' if hd[i - 1] == 0 else rng.choice(DEPRELS)), dd, '|'.join(misc) or '_']))
    head = []
    if newdoc:
        head.append('# newdoc' + ('' if newdoc is True else ' id = ' + newdoc))
    if newpar:
        head.append('# newpar' + ('' if newpar is True else ' id = ' + newpar))
    head.append('# sent_id = ' + (sent_id if sent_id else 's' + str(rng.randint(1, 999))))
    if text:
        head.append('# text = ' + ''.join(textparts).rstrip())
    if comments and rng.random() < 0.3:
        head.append('# note = ' + word(rng, rare))
    return head + lines


def document(rng, trees, sizes=(1, 8), **kw):
    """CoNLL-U text with `trees` sentences with ids s1, s2, ..."""
    out = []
    for i in range(trees):
        out.append('\n'.join(tree(rng, rng.randint(*sizes), sent_id=f's{i + 1}', **kw)) + '\n\n')
    return ''.join(out)


class Names:
    """Supplies unique forms a1, a2, ... so that words can be followed through every history."""

    def __init__(self, prefix):
        self.prefix, self.n = prefix, 0

    def __call__(self):
        self.n += 1
        return f'{self.prefix}{self.n}'
