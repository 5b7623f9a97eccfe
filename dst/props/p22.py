"""P22: a block carries nothing over from one sentence, document or failure to the next."""
import contextlib
import io
import json
import os
import random
import re

from dst import core, gen as G, zygote
from dst.props import p13
from dst.props.p10 import Interrupt

RUNS = {'quick': 3200, 'thorough': 120000}
LISTS = ('ops',)
STATE_RULE = 'one state = (block with parameters, number of documents, kind of failure, another instance in between, outcome classes of the sentences), counted once over all runs'
TIME_UNIT = 'sentences processed (the system has no clock)'
COMPONENTS = {'real': ['all blocks of udapi.block which process a document sentence by sentence', 'udapi.core', 'read.Conllu'], 'stub': ['global random generator (same seed before each sentence)']}
ASSUMPTIONS = ['blocks which are meant to collect, number, split, join or evaluate sentences across a document are not judged', 'the global random generator is in the same state before each sentence',
               'the sentence in which a failure was injected is not judged']
PROBES = ('second-sentence', 'second-document', 'after-own-failure', 'after-injected-failure', 'other-instance', 'removed', 'printed', 'changed', 'logged', 'similar-sentence', 'zones', 'blank', 'report', 'report-of-second')
# Blocks which by design look at several sentences, and those which need other input.
BY_DESIGN = re.compile(r'corefud\.|eval\.|zellig_harris\.|read\.|ud\.SetTranslation$|util\.(Split|SplitSentence|JoinSentence|ResegmentGold|FindBug)$|demo\.Newspeak$|write\.(CorefHtml|Html|OldCorefUD)$|ud\.AddMwt$')
# Words which blocks of a language look for.
WORDS = {'ud.es.AddMwt': ['del', 'al', 'Del', 'verlo', 'dame'], 'ud.fr.AddMwt': ['du', 'des', 'au', 'aux', 'auquel'], 'ud.de.AddMwt': ['zum', 'im', 'am', 'Zur'], 'ud.cs.AddMwt': ['abych', 'kdyby', 'Abychom', 'oč'],
         'ud.ca.AddMwt': ['del', 'al', 'pels'], 'ud.pt.AddMwt': ['da', 'no', 'pelo', 'à'], 'ud.el.AddMwt': ['στο', 'στην', 'στα'], 'ud.la.AddMwt': ['mecum', 'virumque'], 'ud.id.AddMwt': ['bukunya', 'rumahnya']}
GENERAL = ['ud.FixPunct', 'ud.FixChain', 'ud.FixRightheaded', 'ud.FixLeaf', 'ud.FixRoot', 'ud.FixPunctChild', 'ud.FixMultiSubjects', 'ud.FixAdvmodByUpos', 'ud.FixCompoundName', 'ud.FixPseudoCop', 'ud.Basic2Enhanced',
           'ud.AddPunctType', 'ud.MarkBugs', 'ud.Convert1to2', 'ud.ComplyWithText', 'ud.GoeswithFromText', 'ud.JoinToken', 'ud.JoinAsMwt', 'ud.RemoveMwt', 'ud.FixMwtSpace', 'ud.SetSpaceAfter', 'ud.SetSpaceAfterFromText',
           'ud.SplitUnderscoreTokens', 'ud.PrintFixed', 'ud.Lemmatize', *WORDS, 'transform.Proj', 'transform.Deproj', 'transform.Flatten', 'util.Mark', 'util.MarkDiff', 'util.Filter',
           'util.Normalize', 'util.Eval', 'util.See', 'util.MarkMwtBugsAtNodes', 'write.Conllu', 'write.TextModeTrees', 'write.TextModeTreesHtml', 'write.Sdparse', 'write.Tikz', 'write.Vislcg', 'write.Sentences',
           'write.SentencesHtml', 'write.Treex', 'tokenize.Simple', 'tokenize.OnWhitespace']
PARAMS = dict(p13.PARAMS, **{'write.Sentences': [{}, {'if_missing': 'empty'}], 'ud.PrintFixed': [{}, {'only_forms': 1}],
                             'util.Normalize': [{}, {'empty_node_ord': 1, 'sent_id': 0}], 'util.Mark': p13.PARAMS['util.Mark'] + [{'node': 'node.upos=="PUNCT"', 'add': 0}]})
AFTERWARDS = ('ud.MarkBugs',)     # its tests of the whole document mark words of sentences already processed
EXCEPTIONS = ('MemoryError', 'KeyboardInterrupt', 'RuntimeError')
_NAMES = []


def prepare():
    if not _NAMES:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            names = sorted(n for n in zygote.blocks() if not BY_DESIGN.match(n))
        from udapi.core.block import Block
        _NAMES.extend(n for n in names if zygote.blocks()[n].process_document is Block.process_document)


def sentences(text):
    """The sentences of a document as texts; trees of other zones of the same sentence belong to it."""
    out, last = [], None
    for part in text.split('\n\n'):
        if not part.strip():
            continue
        name = re.search(r'(?m)^# sent_id = ([^/\n]*)', part)
        name = name.group(1) if name else None
        if name is not None and name == last:
            out[-1] += part + '\n\n'
        else:
            out.append(part + '\n\n')
        last = name
    return out


def similar(rng, sentence, name):
    """The same sentence once more, with some of its annotation changed."""
    rows = [line.split('\t') for line in sentence.split('\n')]
    for r in rows:
        if r[0].startswith('# sent_id'):
            r[0] = re.sub('= [^/]*', f'= {name}', r[0])
        if len(r) == 10 and '-' not in r[0]:
            if rng.random() < 0.3:
                r[1], r[2], r[3], r[5] = rng.choice(p13.LEXICON)
            if rng.random() < 0.2:
                r[3] = rng.choice(G.UPOS)
            if r[7] not in ('_', 'root') and rng.random() < 0.3:
                r[7] = rng.choice(p13.UDEPRELS)
            if rng.random() < 0.1:
                r[9] = '_'
            if rng.random() < 0.15:
                r[2] = '_'
    return '\n'.join('\t'.join(r) for r in rows if not (r[0].startswith('# text') and rng.random() < 0.7))


def labelled(rng, sentence):
    """The same sentence with labels which some blocks look for."""
    out = []
    deprels = [r[7].split(':')[0] for r in (line.split('\t') for line in sentence.split('\n')) if len(r) == 10 and r[7] != '_'] or ['dep']
    for line in sentence.split('\n'):
        r = line.split('\t')
        if len(r) == 10 and '-' not in r[0] and '.' not in r[0]:
            if rng.random() < 0.3:
                label = rng.choice(['pproj=' + rng.choice(deprels), 'pproj=' + rng.choice(deprels), 'AddMwt=' + r[1].replace(' ', '') + ' ' + rng.choice(['jsi', 'i'])])
                r[9] = label if r[9] == '_' else '|'.join(sorted(r[9].split('|') + [label]))
        out.append('\t'.join(r))
    return '\n'.join(out)


def retold(rng, sentence):
    """The same sentence with a text which differs from its words by spaces, hyphens or letters."""
    lines = sentence.split('\n')
    rows = [r for r in (line.split('\t') for line in lines) if len(r) == 10 and '.' not in r[0]]
    forms, until = [], 0
    for r in rows:
        if '-' in r[0]:
            until = int(r[0].split('-')[1])
            forms.append(r[1])
        elif int(r[0]) > until:
            forms.append(r[1])
    text = ''.join(f + (' ' if rng.random() < 0.8 else '') for f in forms).strip()
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randrange(len(text) + 1)
        text = text[:i] + rng.choice([' ', ' ', '-', '.', '"', 'x', '']) + text[i + rng.choice([0, 0, 1]):]
    lines = [x for x in lines if not x.startswith('# text =')]
    if not text.strip():
        return sentence
    at = max([i for i, x in enumerate(lines) if x.startswith('#')] + [-1]) + 1
    return '\n'.join(lines[:at] + ['# text = ' + text.strip()] + lines[at:])


def distinct(numbers, names):
    return list({i % names: i for i in reversed(numbers)}.values())[::-1]


def gen(rng):
    prepare()
    pool = []
    for d in range(rng.choice([1, 2, 2])):
        pool += sentences(p13.document(rng, False))
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        pool.append(similar(rng, rng.choice(pool), 'x'))
    rng.shuffle(pool)
    names = rng.choice([len(pool), len(pool), max(2, (len(pool) + 1) // 2)])        # sentences of different documents may have the same id
    pool = [re.sub(r'(?m)^# sent_id = [^/\n]*', f'# sent_id = s{i % names + 1}', s) for i, s in enumerate(pool)]
    kinds = [rng.choice(GENERAL) if rng.random() < 0.6 else rng.choice(_NAMES) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < (0.8 if set(kinds) & {'transform.Deproj', 'ud.cs.AddMwt'} else 0.1):
        pool = [labelled(rng, s) for s in pool]
    words = [w for k in kinds for w in WORDS.get(k, [])]
    if words:
        few = rng.sample(words, min(len(words), 2))
        pool = [re.sub(r'(?m)^(\d+)\t[^\t\n]*', lambda m: m.group(1) + '\t' + rng.choice(few) if rng.random() < 0.35 else m.group(0), s) for s in pool]
    if 'ud.Lemmatize' in kinds:
        pool = [re.sub(r'(?m)^(\d+\t[^\t\n]*)\t[^\t\n]*', lambda m: m.group(1) + '\t_' if rng.random() < 0.6 else m.group(0), s) for s in pool]
    if rng.random() < (0.7 if set(kinds) & {'ud.ComplyWithText', 'ud.GoeswithFromText', 'ud.SetSpaceAfterFromText'} else 0.1):
        pool = [s if s.count('# sent_id') > 1 or rng.random() < 0.3 else retold(rng, s) for s in pool]
    ops = []
    for name in kinds:
        docs, left = [], list(range(len(pool)))
        if rng.random() < 0.5:
            rng.shuffle(left)
        while left and len(docs) < 4:
            n = rng.choice([1, 2, 3, 6])
            docs.append(distinct(left[:n], names))
            left = [i for i in left if i not in docs[-1]]
        if rng.random() < 0.2:
            docs.append(distinct(rng.sample(range(len(pool)), min(len(pool), 2)), names))
        op = {'block': name, 'params': rng.choice(PARAMS.get(name, [{}])), 'docs': docs}
        if rng.random() < 0.4:
            d = rng.randrange(len(docs))
            op['fail'] = [d, rng.randrange(len(docs[d])), rng.random(), rng.choice(EXCEPTIONS)]
        if rng.random() < 0.25:
            op['other'] = [rng.choice(PARAMS.get(name, [{}])), rng.randrange(len(docs)), rng.randrange(3), distinct(rng.sample(range(len(pool)), min(len(pool), 2)), names)]
        ops.append(op)
    return {'pool': pool, 'ops': ops}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for i, op in enumerate(plan['ops']):
        for k in ('fail', 'other'):
            if k in op:
                p = cp()
                del p['ops'][i][k]
                yield p
        for j, d in enumerate(op['docs']):
            if len(op['docs']) > 1 and 'fail' not in op and 'other' not in op:
                p = cp()
                del p['ops'][i]['docs'][j]
                yield p
            for k in range(len(d)):
                if len(d) > 1 and 'fail' not in op and 'other' not in op:
                    p = cp()
                    del p['ops'][i]['docs'][j][k]
                    yield p
    used = {s for op in plan['ops'] for d in op['docs'] for s in d} | {s for op in plan['ops'] for s in op.get('other', [0, 0, 0, []])[3]}
    for i in used:
        lines = plan['pool'][i].split('\n')
        for j, line in enumerate(lines):
            cols = line.split('\t')
            if len(cols) == 10 and '.' not in cols[0]:
                for k in (9, 8, 5):
                    if cols[k] != '_':
                        p = cp()
                        p['pool'][i] = '\n'.join(lines[:j] + ['\t'.join(cols[:k] + ['_'] + cols[k + 1:])] + lines[j + 1:])
                        yield p


def load(texts, blank=False):
    from udapi.core.document import Document
    doc = Document()
    doc.from_conllu_string(''.join(texts))
    if blank:       # sentences which are not tokenised yet
        for tree in doc.trees:
            text = tree.get_sentence()
            spaces = (' ', '  ', ' \t', '\u3000')[len(text) % 4]
            tree.text = text.replace(' ', spaces, 1) if len(text) % 5 < 3 else spaces + text
            for node in tree.descendants:
                node.remove(children='rehang')
    return doc


def dump(bundle):
    out = []
    for t in bundle.trees:
        rows = []
        for n in t.descendants_and_empty:
            rows.append([str(n.ord), n.form, n.lemma, n.upos, n.xpos, str(n.feats), None if n.is_empty() else str(n.parent.ord), n.deprel, [[str(d['parent'].ord), d['deprel']] for d in n.deps], str(n.misc)])
        out.append([t.zone, t.sent_id, t.text, t.comment, t.newdoc, t.newpar, rows, [[m.form, m.ord_range, str(m.misc)] for m in t.multiword_tokens]])
    return out


class Watch:
    """One instance of a block and what it does with each sentence."""

    def __init__(self, name, params, sim=None):
        self.block = zygote.blocks()[name](**params)
        self.sim = sim
        self.out = io.StringIO()
        self.messages = []
        self.inner = self.block.process_bundle
        self.block.process_bundle = self.process_bundle
        self.records, self.between, self.fail, self.doc, self.position, self.calls = [], None, None, None, 0, 0
        with contextlib.redirect_stdout(self.out), zygote.logged(self.messages), contextlib.suppress(Exception):
            self.block.process_start()

    def process_bundle(self, bundle):
        if self.between and self.between[0] == self.position:
            self.between[1]()
        a, b, exc = len(self.out.getvalue()), len(self.messages), None
        before = dump(bundle)
        random.seed(7)
        failing = self.fail if self.fail and self.fail[1] == self.position else None
        self.position += 1
        try:
            if failing:
                with Interrupt(self.sim, failing[2], failing[3]) as interrupt:
                    try:
                        self.inner(bundle)
                    finally:
                        self.calls = failing[2] - interrupt.left
            else:
                self.inner(bundle)
        except BaseException as e:
            exc = type(e).__name__
            raise
        finally:
            injected = bool(failing) and interrupt.done
            self.records.append({'exc': exc, 'printed': self.out.getvalue()[a:], 'logged': self.messages[b:], 'tree': None if injected else dump(bundle), 'kept': any(x is bundle for x in self.doc.bundles),
                                 'before': before, 'injected': injected, 'bundle': bundle})

    def run(self, doc, fail=None, between=None):
        self.doc, self.fail, self.between, self.position, self.records = doc, fail, between, 0, []
        a, b = len(self.out.getvalue()), len(self.messages)
        with contextlib.redirect_stdout(self.out), zygote.logged(self.messages):
            try:
                self.block.apply_on_document(doc)
            except (Exception, SystemExit, KeyboardInterrupt):      # pylint: disable=broad-except
                if not self.records or self.records[-1]['exc'] is None:
                    self.records.append({'outside': True})
        self.report = {'printed': self.out.getvalue()[a:], 'logged': self.messages[b:], 'meta': {str(k): str(v) for k, v in doc.meta.items()}}
        return self.records


def apart(function):
    """The result of a function computed in a forked process (nothing is left here)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            data = json.dumps(function()).encode('utf-8', 'surrogatepass')
            while data:
                data = data[os.write(wfd, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    os.waitpid(pid, 0)
    return json.loads(b''.join(chunks).decode('utf-8', 'surrogatepass')) if chunks else None


def plain(record):
    return {k: v for k, v in record.items() if k != 'bundle'}


def execute(plan, sim):
    prepare()
    for op in plan['ops']:
        one(plan, op, sim)


def one(plan, op, sim):
    from udapi.core.block import Block
    pool = plan['pool']
    name, params = op['block'], op['params']
    blank = name.startswith('tokenize.')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            zygote.blocks()[name](**params)
    except Exception:       # pylint: disable=broad-except
        sim.count('not-created:' + name)
        return
    docs = [[s for s in d if s < len(pool)] for d in op['docs']]
    wanted = sorted({s for d in docs for s in d})
    fault = op.get('fail')
    if fault and not (fault[0] < len(docs) and fault[1] < len(docs[fault[0]])):
        fault = None

    def calls():
        """Number of calls of functions of the library while the sentence which will fail is processed."""
        w = Watch(name, params)
        w.run(load([pool[docs[fault[0]][fault[1]]]], blank), [0, 0, 10 ** 9, fault[3]])
        return w.calls

    def lonely():
        """What new blocks do with the sentences, each alone in its document, the last sentence first (in a process which has not seen any)."""
        return [[plain(r) for r in Watch(name, params).run(load([pool[s]], blank))] for s in reversed(wanted)]

    def documents():
        """What new blocks report on each document as a whole."""
        out = []
        for d in reversed(docs):
            w = Watch(name, params)
            w.run(load([pool[s] for s in d], blank))
            out.append(w.report)
        return out[::-1]
    results = apart(lonely)
    if results is None or any(len(r) != 1 or 'outside' in r[0] for r in results):
        sim.count('not-alone:' + name)
        return
    alone = {s: r[0] for s, r in zip(reversed(wanted), results)}
    if blank:
        sim.probe('blank')
    watch = Watch(name, params, sim)
    reports = apart(documents) if type(watch.block).after_process_document is not Block.after_process_document else None
    other = None
    if 'other' in op:
        with contextlib.suppress(Exception):
            other = Watch(name, op['other'][0])
    outcomes, seen = [], 0
    failed = injected = False
    for i, d in enumerate(docs):
        doc = load([pool[s] for s in d], blank)
        between = None
        if other is not None and op['other'][1] == i:
            def nested():
                sim.probe('other-instance')
                sim.fault('another instance of the block in between')
                other.run(load([pool[s] for s in op['other'][3] if s < len(pool)], blank))
            between = (op['other'][2], nested)
        fail = [i, fault[1], 1 + int(fault[2] * (apart(calls) or 1)), fault[3]] if fault and fault[0] == i else None
        records = watch.run(doc, fail, between)
        for k, (s, r) in enumerate(zip(d, records)):
            if 'outside' in r:
                sim.count('outside:' + name)
                return
            context = lambda: f'{name} {params}: sentence {k + 1} of document {i + 1} ({pool[s].split(chr(10))[0]!r} …)'
            sim.time += 1
            seen += 1
            if r['injected']:
                injected = True
                sim.log('injected', name, r['exc'])
                break
            got = json.loads(json.dumps(plain(r)))
            exp = alone[s]
            sim.log(name, i, k, got['exc'], core.h64(got))
            sim.check(got['before'] == exp['before'], 'touched-before', lambda: f'{context()}: was changed before its turn: {p13.first(json.dumps(exp["before"], ensure_ascii=False), json.dumps(got["before"], ensure_ascii=False))}', sig=f'touched-before/{name}')
            sim.check(got['exc'] == exp['exc'], 'outcome', lambda: f'{context()}: {exp["exc"]} alone, {got["exc"]} after others', sig=f'outcome/{name}')
            for what in ('printed', 'tree', 'kept', 'logged'):
                sim.check(got[what] == exp[what], what, lambda: f'{context()}: differs from what a new block does with it alone: {p13.first(json.dumps(exp[what], ensure_ascii=False), json.dumps(got[what], ensure_ascii=False))} (alone and here)', sig=f'{what}/{name}')
            outcomes.append([bool(got['printed']), got['tree'] != got['before'], got['kept'], got['exc']])
            if seen > 1:
                sim.probe('second-sentence')
                sim.nontrivial = True
                if i:
                    sim.probe('second-document')
                if failed:
                    sim.probe('after-own-failure')
                if injected:
                    sim.probe('after-injected-failure')
                if any('# sent_id = ' in pool[s] and pool[q].split('\n1\t')[-1].split('\t')[0] == pool[s].split('\n1\t')[-1].split('\t')[0] for q in wanted if q != s):
                    sim.probe('similar-sentence')
            for key, hit in (('printed', got['printed']), ('changed', got['tree'] != got['before']), ('logged', got['logged']), ('removed', len(got['tree']) < len(got['before']) or not got['kept']), ('zones', len(got['before']) > 1)):
                if hit:
                    sim.probe(key)
            if got['exc']:
                failed = True
                sim.count('failed:' + name + '/' + got['exc'])
        if reports and not any(r.get('exc') or r.get('injected') for r in records) and between is None:
            sim.probe('report')
            if i:
                sim.probe('report-of-second')
            sim.check(json.loads(json.dumps(watch.report)) == reports[i], 'report', lambda: f'{name} {params}: what it reports on document {i + 1} (of {len(docs)}) differs from what a new block reports: {p13.first(json.dumps(reports[i], ensure_ascii=False), json.dumps(watch.report, ensure_ascii=False))} (new and here)', sig=f'report/{name}')
        for r in records if name not in AFTERWARDS else ():
            if 'bundle' in r and not r['injected'] and r['tree'] is not None:
                now = dump(r['bundle'])
                sim.check(now == r['tree'], 'touched-later', lambda: f'{name} {params}: a sentence was changed again later: {p13.first(json.dumps(r["tree"], ensure_ascii=False), json.dumps(now, ensure_ascii=False))}', sig=f'touched-later/{name}')
        if not any(r.get('exc') or r.get('injected') for r in records):
            sim.check(len(records) == len(d), 'visits', lambda: f'{name} {params}: {len(records)} of {len(d)} sentences of document {i + 1} were processed', sig=f'visits/{name}')
    sim.state([name, params, len(docs), fault[3] if injected else None, other is not None, sorted(map(json.dumps, outcomes))[:6]])
