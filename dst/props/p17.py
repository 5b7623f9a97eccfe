"""P17: the answer of the remote parser is applied whole or not at all."""
import contextlib
import copy
import email.parser
import http.client
import io
import json
import re
import sys
import types

from dst import gen as G, net as N, view
from dst.core import Violation, h64

RUNS = {'quick': 6000, 'thorough': 150000}
LISTS = ('steps',)
STATE_RULE = 'one state = (operation with its options, shape of the document, fault, outcome), counted once over all runs'
TIME_UNIT = 'requests (the code has no timers)'
COMPONENTS = {'real': ['udapi.tool.udpipeonline', 'udapi.block.udpipe', 'read.Conllu', 'udapi.core', 'urllib, http.client, email and json of the standard library'],
              'stub': ['the parsing service (segmenter, tokenizer, tagger and parser whose output is a function of the sentence) and its transport',
                       'ufal.udpipe (not installed; only the online variant is simulated)', 'TLS layer']}
ASSUMPTIONS = ['texts have no line breaks, words have no spaces (the service separates sentences and words by them)',
               'the service follows its documented interface: presegmented, ranges, horizontal, plaintext=normalized_spaces',
               'an answer that fits the sentences sent in the number of sentences and words is taken for correct',
               'comments of a newly tokenized sentence may be those of the answer',
               'a block that sends one request per sentence may have processed some of the first sentences when a later request fails',
               'the end of an answer that gives neither its length nor uses chunks cannot be recognised, nor the end of cut headers']
PROBES = ('whole-document', 'resegmented', 'mwt-from-answer', 'kept-mwt', 'kept-empty', 'partly-processed', 'retried', 'two-zones', 'refused', 'words-sent', 'texts-sent')
CONN = ['dns', 'refused', 'timeout', 'reset', 'unreachable']
NETFAULTS = ['conn', 'status', 'eof', 'reset', 'timeout', 'garbage', 'ctrlc', 'redirect']
JSONFAULTS = ['cut', 'null', 'list', 'noresult', 'nomodel', 'html', 'badutf', 'resultnull', 'resultempty', 'number']
FITFAULTS = ['lessword', 'moreword', 'lesssent', 'moresent', 'mergesent', 'badhead', 'neghead', 'selfhead', 'badid']
DROP = ('TokenRange=',)


def prepare():
    try:
        import ufal.udpipe   # noqa
    except ImportError:
        top, mod = types.ModuleType('ufal'), types.ModuleType('ufal.udpipe')
        for name in ('Model', 'Pipeline', 'ProcessingError', 'Sentence'):
            setattr(mod, name, type(name, (), {}))
        top.udpipe = mod
        sys.modules['ufal'], sys.modules['ufal.udpipe'] = top, mod
    import udapi.block.udpipe.base, udapi.block.udpipe.en, udapi.block.udpipe.cs   # noqa
    N.prepare()


# --- plans -----------------------------------------------------------------------------------------------------------------------
def raw_text(rng):
    parts = []
    for _ in range(rng.randint(1, 7)):
        w = re.sub(r'[\s.,]', 'q', G.word(rng, 0.1))
        if rng.random() < 0.15:
            w += 'M'
        parts.append(w + rng.choice(['', '', '', ',', '.', '.']) + rng.choice([' ', ' ', ' ', '  ', '']))
    return ''.join(parts).strip()


def gen(rng):
    zones = rng.choice([[''], [''], ['en'], ['en', 'cs'], ['', 'cs'], ['en', 'cs', 'de_x']])
    kind = rng.choice(['text', 'tree', 'mixed'])
    out = []
    for i in range(rng.randint(1, 4)):
        for z in zones:
            sid = f's{i + 1}' + ('/' + z if z else '')
            if kind == 'text' or kind == 'mixed' and rng.random() < 0.5:
                text = '' if rng.random() < 0.07 else raw_text(rng)
                lines = [f'# sent_id = {sid}', f'# text = {text}', '1' + '\t_' * 5 + '\t0\t_\t_\tEmpty=Yes']
                if rng.random() < 0.2:
                    lines.insert(0, '# newpar')
            else:
                lines = G.tree(rng, rng.randint(1, 6), sent_id=sid, text=rng.random() < 0.8, newdoc='d1' if i == 0 and rng.random() < 0.3 else None)
            out.append('\n'.join(lines) + '\n\n')
    steps = []
    level = rng.choice([0.0, 0.5, 0.9])
    for _ in range(rng.randint(1, 4)):
        steps.append(step(rng, zones, kind, level))
    return {'doc': ''.join(out), 'steps': steps}


def step(rng, zones, kind, level):
    flag = lambda p: rng.random() < p
    op = rng.choices(['tagparse', 'tokenize', 'segment', 'document', 'block', 'models'], [3, 3, 1, 4, 5, 0.5])[0]
    s = {'op': op, 'k': rng.randrange(60), 'tag': flag(0.85), 'parse': flag(0.7), 'reseg': flag(0.35), 'ranges': flag(0.25), 'salt': rng.randrange(1000),
         'tok': flag({'text': 0.9, 'tree': 0.3}.get(kind, 0.6)), 'retry': flag(0.6), 'mode': rng.choice(['length', 'chunked', 'close']),
         'chunks': [rng.choice([0, 0, 1, 50, 1000]) for _ in range(rng.randint(1, 3))], 'fault': None}
    if not s['tag'] and flag(0.6):
        s['parse'] = False
    if op == 'block':
        s['zones'] = rng.choice(['all', 'all', 'all'] + zones + [','.join(zones[:2])])
        s['delete'] = flag(0.4)
        s['cls'] = rng.choice(['Base', 'Base', 'En', 'Cs'])
        if flag(0.1):
            s.update(tok=False, tag=False, parse=False, reseg=True)
    if flag(level):
        f = {'kind': rng.choice(rng.choice([NETFAULTS, JSONFAULTS, FITFAULTS, FITFAULTS])), 'req': 0 if flag(0.6) else rng.randrange(4),
             'frac': rng.choice([0.0, 1.0, rng.random(), rng.random()]), 'name': rng.choice(CONN), 'status': rng.choice([400, 403, 404, 500, 503]),
             'sent': rng.randrange(8)}
        s['fault'] = f
    return s


def simplify(plan):
    blocks = [b for b in plan['doc'].split('\n\n') if b.strip()]
    for i in range(len(blocks)):
        if len(blocks) > 1:
            yield {**plan, 'doc': '\n\n'.join(blocks[:i] + blocks[i + 1:]) + '\n\n'}
    for i, s in enumerate(plan['steps']):
        for k, v in (('fault', None), ('ranges', False), ('reseg', False), ('retry', False), ('mode', 'length'), ('chunks', [0]), ('delete', False), ('zones', 'all'),
                     ('cls', 'Base')):
            if k in s and s[k] != v:
                yield {**plan, 'steps': plan['steps'][:i] + [{**s, k: v}] + plan['steps'][i + 1:]}
        f = s['fault']
        if f and f['req']:
            yield {**plan, 'steps': plan['steps'][:i] + [{**s, 'fault': {**f, 'req': f['req'] - 1}}] + plan['steps'][i + 1:]}


# --- the service -------------------------------------------------------------------------------------------------------------------
def tokens(text):
    """[(form, start, end, parts or None, space after)]"""
    out = []
    for m in re.finditer(r'[^\s.,]+|[.,]', text):
        form = m.group()
        parts = [form[:-1], 'M'] if len(form) > 1 and form.endswith('M') else None
        out.append((form, m.start(), m.end(), parts, m.end() >= len(text) or text[m.end()].isspace()))
    return out


def sentences(data, presegmented):
    """Sentences of a text as (text, tokens with offsets in the whole data)."""
    if presegmented:
        pos = 0
        for line in data.split('\n'):
            toks = [(f, a + pos, b + pos, p, s) for f, a, b, p, s in tokens(line)]
            if toks:
                yield line.strip(), toks
            pos += len(line) + 1
        return
    cur = []
    for t in tokens(data):
        cur.append(t)
        if t[0] == '.':
            yield data[cur[0][1]:cur[-1][2]].replace('\n', ' '), cur
            cur = []
    if cur:
        yield data[cur[0][1]:cur[-1][2]].replace('\n', ' '), cur


def analysis(words, salt, tag, parse):
    """Rows for words: a function of the words of the sentence."""
    n, rows = len(words), []
    seed = h64([words, salt])
    order = sorted(range(n), key=lambda i: h64([seed, i]))
    head = [0] * n
    for j, i in enumerate(order[1:], 1):
        head[i] = order[h64([seed, 'h', i]) % j] + 1
    for i, w in enumerate(words):
        r = h64([seed, 'r', i])
        row = {'form': w, 'lemma': '_', 'upos': None, 'xpos': None, 'feats': '_', 'head': None, 'deprel': None, 'misc': '_'}
        if tag:
            row.update(lemma=w.lower() + str(salt % 3), upos=G.UPOS[r % 8], xpos=[None, 'NN', 'VB'][r // 8 % 3],
                       feats=['_', 'Case=Gen', 'Case=Nom|Number=Plur'][r // 24 % 3])
        if parse:
            row.update(head=head[i], deprel='root' if not head[i] else G.DEPRELS[r // 99 % len(G.DEPRELS)])
        rows.append(row)
    return rows


def analyse_tokens(toks, salt, tag, parse):
    """Rows and multi-word tokens [(first, last, form, misc)] of a tokenized sentence."""
    words, mwts, spaces = [], [], {}
    for form, _, _, parts, space in toks:
        if parts:
            mwts.append((len(words) + 1, len(words) + len(parts), form, '_' if space else 'SpaceAfter=No'))
            words += parts
        else:
            words.append(form)
            if not space:
                spaces[len(words) - 1] = 'SpaceAfter=No'
    if mwts or words:
        last = toks[-1]
    rows = analysis(words, salt, tag, parse)
    for i, misc in spaces.items():
        rows[i]['misc'] = misc
    return rows, mwts


def conllu(rows, mwts, text, sid, first, ranges=None):
    lines = []
    if first:
        lines += ['# generator = UDPipe 2, https://lindat.mff.cuni.cz/services/udpipe', '# udpipe_model = m', '# newdoc']
    lines += ['# newpar'] * (sid % 2) + [f'# sent_id = {sid}']
    if text is not None:
        lines.append(f'# text = {text}')
    starts = {m[0]: m for m in mwts}
    inside = {i for m in mwts for i in range(m[0], m[1] + 1)}
    k = 0

    def rng(misc):
        nonlocal k
        if ranges is None:
            return misc
        k += 1
        extra = f'TokenRange={ranges[k - 1][0]}:{ranges[k - 1][1]}'
        return extra if misc == '_' else misc + '|' + extra
    for i, r in enumerate(rows, 1):
        if i in starts:
            m = starts[i]
            lines.append('\t'.join([f'{m[0]}-{m[1]}', m[2]] + ['_'] * 7 + [rng(m[3])]))
        val = lambda x: '_' if x is None else str(x)
        lines.append('\t'.join([r.get('id', str(i)), r['form'], r['lemma'], val(r['upos']), val(r['xpos']), r['feats'], val(r['head']), val(r['deprel']), '_',
                                r['misc'] if i in inside else rng(r['misc'])]))
    return '\n'.join(lines) + '\n\n'


class Service:
    """The simulated server of one step."""

    def __init__(self, sim, step_, faulty):
        self.sim, self.step, self.fault = sim, step_, step_['fault'] if faulty else None
        self.n = 0
        self.delivered = False
        self.received = []          # (words sent or texts sent, lines)
        self.problem = None

    def deliver(self, what=None):
        self.delivered = True
        self.sim.fault(what or self.fault['kind'])

    def now(self, *kinds):
        return self.fault is not None and self.fault['req'] == self.n - 1 and self.fault['kind'] in kinds

    def connecting(self, host):
        self.n += 1
        if self.now('conn'):
            self.delivered = True
            return self.fault['name']
        return None

    def point(self, what):
        if self.now('ctrlc'):
            self.points = getattr(self, 'points', 0) + 1
            if self.points == 1 + int(self.fault['frac'] * 5):
                self.deliver()
                raise KeyboardInterrupt()

    def serve(self, host, request):
        mode = self.step['mode']

        def reply(obj):
            body = obj if isinstance(obj, bytes) else json.dumps(obj).encode()
            data = N.answer(200, body, length=mode == 'length', chunked=mode == 'chunked', headers=[('Content-Type', 'application/json')])
            if self.now('eof', 'reset', 'timeout'):
                kind = self.fault['kind']
                if kind == 'eof' and mode == 'close':
                    kind = 'reset'
                head = data.index(b'\r\n\r\n') + 4
                at = int(self.fault['frac'] * (len(data) - (6 if mode == 'chunked' else 1)))
                if kind == 'eof' and 0 < at < head:
                    at = head
                self.delivered = True
                return data, {'kind': kind, 'at': at}
            return data, None
        if self.now('status'):
            self.deliver(f"status-{self.fault['status']}")
            return N.answer(self.fault['status'], 'nelze'.encode()), None
        if self.now('garbage'):
            self.deliver()
            return b'SSH-2.0-OpenSSH\r\n', None
        if self.now('redirect'):
            self.deliver()
            return N.answer(302, b'', headers=[('Location', 'http://login.example/')]), None
        if host == 'login.example':
            return N.answer(200, b'<html>Please log in</html>'), None
        if self.now('html'):
            self.deliver()
            return reply(b'<html>It works</html>')
        if request.path.endswith('/models'):
            good = {'models': {'cs': ['tokenizer'], 'en': []}, 'default_model': 'cs'}
            if self.now('noresult', 'nomodel'):
                self.deliver()
                del good['models']
        else:
            params = self.parse(request)
            if params is None:
                return N.answer(400, b'bad request'), None
            good = {'model': params['model'], 'acknowledgements': ['x'], 'result': self.process(params)}
            for kind, key in (('noresult', 'result'), ('nomodel', 'model')):
                if self.now(kind):
                    self.deliver()
                    del good[key]
            if self.now('resultnull'):
                self.deliver()
                good['result'] = None
            if self.now('resultempty') and params.get('output') is None:
                self.deliver()
                good['result'] = ''
        for kind, obj in (('null', None), ('list', ['model', 'x']), ('number', 7)):
            if self.now(kind):
                self.deliver()
                return reply(obj)
        body = json.dumps(good, ensure_ascii=self.step['salt'] % 2 == 0).encode()
        if self.now('cut'):
            self.deliver()
            body = body[:int(self.fault['frac'] * (len(body) - 1))]
        if self.now('badutf'):
            self.deliver()
            body = body[:-2] + b'\xc3\x28"}'
        return reply(body)

    def parse(self, request):
        if request.method != 'POST' or not request.path.endswith('/process'):
            return None
        text = b'Content-Type: ' + request.headers['content-type'].encode() + b'\r\n\r\n' + request.body
        length = request.headers.get('content-length')
        if length is not None and int(length) != len(request.body):
            self.problem = 'Content-Length of the request is wrong'
        msg = email.parser.BytesParser().parsebytes(text)
        params = {}
        for part in msg.get_payload():
            name = part.get_param('name', header='content-disposition')
            try:
                params[name] = part.get_payload(decode=True).decode('utf-8').replace('\r\n', '\n')
            except UnicodeDecodeError:
                self.problem = f'{name} is not in UTF-8'
                return None
        if 'model' not in params or 'data' not in params:
            self.problem = f'parameters {sorted(params)}'
            return None
        return params

    def process(self, params):
        tag, parse, salt = 'tagger' in params, 'parser' in params, self.step['salt']
        data = params['data']
        if parse and not tag:
            self.problem = 'parser without tagger'
        horizontal = params.get('input') == 'horizontal'
        sents = []
        if horizontal:
            for line in data.split('\n'):
                words = line.split(' ')
                if line:
                    self.received.append(['words', line])
                    sents.append([analysis(words, salt, tag, parse), [], None, None])
        elif 'tokenizer' in params:
            opts = params['tokenizer'].split(';')
            pre = 'presegmented' in opts
            for line in data.split('\n'):
                if line.strip():
                    self.received.append(['text', line])
            if params.get('output') == 'plaintext=normalized_spaces':
                return ''.join(' '.join(text.split()) + '\n' for text, _ in sentences(data, pre))
            for text, toks in sentences(data, pre):
                rows, mwts = analyse_tokens(toks, salt, tag, parse)
                sents.append([rows, mwts, text, [t[1:3] for t in toks] if 'ranges' in opts else None])
        else:
            self.problem = f'parameters {sorted(params)}'
        if sents:
            self.spoil(sents, horizontal, parse)
        return ''.join(conllu(rows, mwts, text, i, i == 1, ranges) for i, (rows, mwts, text, ranges) in enumerate(sents, 1))

    def spoil(self, sents, horizontal, parse):
        if self.fault is None:
            return
        reseg = self.step['reseg'] and not horizontal
        i = self.fault['sent'] % len(sents)
        rows = sents[i][0]
        j = int(self.fault['frac'] * (len(rows) - 1)) if rows else 0
        if self.now('lessword') and horizontal and len(rows) > 1:
            self.deliver()
            rows.pop()
            for r in rows:
                if r['head'] is not None and r['head'] > len(rows):
                    r['head'] = 0
        elif self.now('moreword') and horizontal:
            self.deliver()
            rows.append({**rows[-1], 'head': None if rows[-1]['head'] is None else 0})
        elif self.now('lesssent') and not reseg:
            self.deliver()
            del sents[i]
        elif self.now('moresent') and not reseg:
            self.deliver()
            sents.insert(i, copy.deepcopy(sents[i]))
        elif self.now('mergesent') and not reseg and len(sents) > 1 and not sents[1][1] and sents[0][3] is None:
            self.deliver()
            n = len(sents[0][0])
            sents[0][0] += [{**r, 'head': r['head'] + n if r['head'] else r['head']} for r in sents[1][0]]
            del sents[1]
        elif rows and parse and self.now('badhead', 'neghead', 'selfhead'):
            self.deliver()
            rows[j]['head'] = {'badhead': len(rows) + 1 + int(9 * self.fault['frac']), 'neghead': -1, 'selfhead': j + 1}[self.fault['kind']]
        elif rows and self.now('badid'):
            self.deliver()
            rows[j]['id'] = '1x'


# --- the model ----------------------------------------------------------------------------------------------------------------------
def clean(misc):
    return '|'.join(x for x in misc.split('|') if not x.startswith(DROP)) or '_'


def model_of(doc):
    return [{'id': b.bundle_id, 'trees': [view.tree_view(t) for t in b.trees]} for b in doc.bundles]


def children(t):
    kids = {}
    for n in t['nodes']:
        kids.setdefault(n['parent'], []).append(n['ord'])
    t['children'] = kids.get('0', [])
    for n in t['nodes']:
        n['children'] = kids.get(n['ord'], [])


def tagged(t, salt, tag, parse):
    t = copy.deepcopy(t)
    rows = analysis([n['form'] for n in t['nodes']], salt, True, parse)
    for n, r in zip(t['nodes'], rows):
        if tag:
            n.update({k: r[k] for k in ('lemma', 'upos', 'xpos', 'feats')})
        if parse:
            n.update(parent=str(r['head']), deprel=r['deprel'])
    children(t)
    return t


def tokenized(t, text, toks, salt, tag, parse):
    t = copy.deepcopy(t)
    rows, mwts = analyse_tokens(toks, salt, tag, parse)
    t.update(text=text, empty=[], any=list(t.get('any', [])) + ['comment'])
    t['nodes'] = [{**{k: r[k] for k in ('form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc')}, 'ord': str(i), 'parent': str(r['head'] or 0), 'deps': []}
                  for i, r in enumerate(rows, 1)]
    t['mwts'] = [[form, misc, sorted(str(i) for i in range(a, b + 1))] for a, b, form, misc in mwts]
    children(t)
    return t


def fresh(zone, sent_id=None):
    return {'zone': zone, 'sent_id': sent_id, 'text': None, 'comment': '', 'newdoc': None, 'newpar': None, 'json': {}, 'children': [], 'nodes': [], 'empty': [],
            'mwts': [], 'any': ['comment', 'newdoc', 'newpar', 'sent_id']}


def tree_diff(m, v):
    """What differs between a model tree and the view of a real one."""
    m, v = copy.deepcopy(m), copy.deepcopy(v)
    for t in (m, v):
        for n in t['nodes']:
            n['misc'] = clean(n['misc'])
            if n.get('deps') is None:
                n['deps'] = []
        t['mwts'] = sorted([f, clean(mi), ws] for f, mi, ws in t['mwts'])
    for k in v:
        if k not in m.get('any', ()) and m[k] != v[k]:
            if isinstance(v[k], list) and isinstance(m[k], list) and len(v[k]) == len(m[k]):
                pair = next((a, b) for a, b in zip(m[k], v[k]) if a != b)
                return f'{k}: {pair[1]}, expected {pair[0]}'
            return f'{k}: {v[k]}, expected {m[k]}'
    return None


def doc_diff(model, now):
    if len(model) != len(now):
        return f'{len(now)} bundles with trees {[[t["sent_id"] for t in b["trees"]] for b in now]}, expected {[[t["sent_id"] for t in b["trees"]] for b in model]}'
    for m, b in zip(model, now):
        if m['id'] is not None and m['id'] != b['id']:
            return f'bundle {b["id"]}, expected {m["id"]}'
        if len(m['trees']) != len(b['trees']):
            return f'bundle {b["id"]} has {len(b["trees"])} trees, expected {len(m["trees"])}'
        for mt, t in zip(m['trees'], b['trees']):
            d = tree_diff(mt, t)
            if d:
                return f'tree {t["sent_id"]}: {d}'
    return None


def sound(sim, doc):
    """Every object of the document knows where it is."""
    ok = lambda c, msg: sim.check(c, 'consistent-document', msg)
    ids = [b.bundle_id for b in doc.bundles]
    ok(len(set(ids)) == len(ids), lambda: f'bundle ids {ids}')
    ok([b.number for b in doc.bundles] == list(range(1, len(ids) + 1)), lambda: f'bundle numbers {[b.number for b in doc.bundles]}')
    ok(len({id(b) for b in doc.bundles}) == len(ids), lambda: f'a bundle occurs twice: {ids}')
    for b in doc.bundles:
        ok(b.document is doc, lambda: f'{b} does not know its document')
        for t in b.trees:
            name = t.address()
            ok(t.bundle is b and t.document is doc, lambda: f'{name} does not know its bundle')
            ok(t.sent_id == b.bundle_id + ('/' + t.zone if t.zone else ''), lambda: f'tree {t.sent_id} in bundle {b.bundle_id}, zone {t.zone!r}')
            nodes = t.descendants
            ok([n.ord for n in nodes] == list(range(1, len(nodes) + 1)), lambda: f'{name}: ords {[n.ord for n in nodes]}')
            ok(all(n.root is t for n in nodes) and all(n.root is t for n in t.empty_nodes), lambda: f'{name}: a node does not know its root')
            for n in nodes:
                ok(n.parent is not None and any(c is n for c in n.parent.children), lambda: f'{name}: node {n.ord} is not among the children of its parent')
            got = [c for n in [t] + list(nodes) for c in n.children]
            ok(sorted(id(c) for c in got) == sorted(id(n) for n in nodes), lambda: f'{name}: children and nodes do not agree')
            for m in t.multiword_tokens:
                ok(m.root is t, lambda: f'{name}: multi-word token {m.form} does not know its root')
                ok(bool(m.words) and all(w.multiword_token is m and w.root is t for w in m.words), lambda: f'{name}: words of {m.form}')
            ok(all(n.multiword_token is None or any(n.multiword_token is m for m in t.multiword_tokens) for n in nodes), lambda: f'{name}: a word in a lost multi-word token')


def sentence(t):
    """What the text of a tree is."""
    if t['text'] is not None:
        return t['text']
    out, i, mw = '', 0, {int(min(m[2], key=int)): m for m in t['mwts']}
    while i < len(t['nodes']):
        m = mw.get(i + 1)
        form, misc = (m[0], m[1]) if m else (t['nodes'][i]['form'], t['nodes'][i]['misc'])
        i = max(int(x) for x in m[2]) if m else i + 1
        out += form + ('' if 'SpaceAfter=No' in misc.split('|') else ' ')
    return out.rstrip()


def blank(text):
    return not text.strip()


# --- execution ------------------------------------------------------------------------------------------------------------------------
def execute(plan, sim):
    from udapi.core.document import Document
    doc = Document()
    doc.from_conllu_string(plan['doc'])
    if not any(True for _ in doc.trees):
        return
    for s in plan['steps']:
        outcome = run_step(sim, doc, s, True)
        if outcome == 'failed' and s['retry']:
            sim.probe('retried')
            run_step(sim, doc, s, False)
    sim.time = sim.counts.get('requests', 0)


def expected(pre, s, trees):
    """-> (models after 0, 1, ... processed trees; must be refused; requests that are expected as [kind, line])
    or None if the whole operation must be refused without any request."""
    op, tag, parse, reseg, tok, salt = s['op'], s['tag'], s['parse'], s['reseg'], s['tok'], s['salt']
    models, lines = [copy.deepcopy(pre)], []
    if op == 'tagparse':
        bi, ti = trees[s['k'] % len(trees)]
        if not tag and not parse:
            return [models, 'refused', []]
        t = pre[bi]['trees'][ti]
        if not t['nodes']:
            return [models, 'nothing', []]
        m = copy.deepcopy(pre)
        m[bi]['trees'][ti] = tagged(t, salt, tag, parse)
        return [models + [m], None, [['words', ' '.join(n['form'] for n in t['nodes'])]]]
    if op == 'tokenize':
        bi, ti = trees[s['k'] % len(trees)]
        t = pre[bi]['trees'][ti]
        if parse and not tag or t['children']:
            return [models, 'refused', []]
        text = sentence(t)
        if blank(text):
            return [models, 'nothing', []]
        sents = list(sentences(text, not reseg))
        if not sents:
            return None
        m = copy.deepcopy(pre)
        m[bi]['trees'][ti] = tokenized(t, *sents[0], salt, tag, parse)
        s['returned'] = [tokenized(fresh(None), *x, salt, tag, parse) for x in sents]
        return [models + [m], None, [['text', text]]]
    if op == 'document':
        if parse and not tag or reseg and (not tok or any(len(b['trees']) > 1 for b in pre)) or not tok and not tag:
            return [models, 'refused', []]
        return whole(pre, s, trees)
    # block
    if parse and not tag and tok:
        s['maybe'] = True
    sel = [(bi, ti) for bi, ti in trees if s['zones'] == 'all' or pre[bi]['trees'][ti]['zone'] in s['zones'].split(',')]
    single = all(len(b['trees']) == 1 for b in pre)
    if s['zones'] == 'all' and (tok or tag) and (not reseg or tok and single):
        if parse and not tag:
            return [models, 'refused', []]
        s['atomic'] = True
        return whole(pre, s, trees)
    cur, done = copy.deepcopy(pre), []
    where = {id(b): b for b in cur}
    spots = [(cur[bi], ti) for bi, ti in sel]
    extra = {}
    for b, ti in spots:
        t = b['trees'][ti]
        if not (tok or (tag or parse) and not reseg or reseg and not tag and not parse):
            return [models, 'refused', lines]
        news = []
        if tok:
            if parse and not tag or t['children'] and not s['delete']:
                return [models, 'refused', lines]
            text = sentence(t)
            if not blank(text):
                lines.append(['text', text])
                sents = list(sentences(text, not reseg))
                if not sents:
                    return None
                t2 = tokenized(t, *sents[0], salt, tag, parse)
                news = [tokenized(fresh(t['zone']), *x, salt, tag, parse) for x in sents[1:]]
            else:
                t2 = {**copy.deepcopy(t), 'nodes': [], 'mwts': [], 'empty': [] if s['delete'] else t['empty'], 'children': [],
                      'any': list(t.get('any', [])) + ['text']}
        elif not reseg:
            if s['delete']:
                t2 = {**copy.deepcopy(t), 'nodes': [], 'mwts': [], 'empty': [], 'children': []}
            else:
                t2 = tagged(t, salt, tag, parse)
                if t['nodes']:
                    lines.append(['words', ' '.join(n['form'] for n in t['nodes'])])
        else:
            text = sentence(t)
            t2 = copy.deepcopy(t)
            if s['delete']:
                t2.update(nodes=[], mwts=[], empty=[], children=[], text=text)
            lines += [['text', text]] * (not blank(text))
            sents = [' '.join(x.split()) for x, _ in sentences(text, False)]
            if len(sents) > 1:
                t2['text'] = sents[0]
                news = [{**fresh(t['zone']), 'text': x} for x in sents[1:]]
        b['trees'][ti] = t2
        if news:
            b['id'] = None
            for x in b['trees']:
                x['any'] = list(x.get('any', [])) + ['sent_id']
            at = next(i for i, x in enumerate(cur) if x is b) + 1 + extra.get(id(b), 0)
            cur[at:at] = [{'id': None, 'trees': [x]} for x in news]
            extra[id(b)] = extra.get(id(b), 0) + len(news)
        models.append(copy.deepcopy(cur))
    return [models, None if lines else 'nothing', lines]


def whole(pre, s, trees):
    tag, parse, reseg, tok, salt = s['tag'], s['parse'], s['reseg'], s['tok'], s['salt']
    models, m = [copy.deepcopy(pre)], copy.deepcopy(pre)
    if not tok:
        lines = []
        for bi, ti in trees:
            t = pre[bi]['trees'][ti]
            if t['nodes']:
                lines.append(['words', ' '.join(n['form'] for n in t['nodes'])])
                m[bi]['trees'][ti] = tagged(t, salt, tag, parse)
        return [models + [m], None if lines else 'nothing', lines]
    texts = [(bi, ti, sentence(pre[bi]['trees'][ti])) for bi, ti in trees]
    texts = [x for x in texts if not blank(x[2])]
    lines = [['text', x[2]] for x in texts]
    if not lines:
        return [models, 'nothing', []]
    if not reseg:
        for bi, ti, text in texts:
            sents = list(sentences(text, True))
            if not sents:
                return None
            m[bi]['trees'][ti] = tokenized(pre[bi]['trees'][ti], *sents[0], salt, tag, parse)
        return [models + [m], None, lines]
    data = '\n'.join(x[2] for x in texts) + '\n'
    sents = list(sentences(data, False))
    if not sents:
        return None
    zone = pre[texts[0][0]]['trees'][0]['zone']
    m = [{'id': pre[i]['id'] if i < len(pre) else None, 'trees': [tokenized(fresh(zone), *x, salt, tag, parse)]} for i, x in enumerate(sents)]
    return [models + [m], None, lines]


def run_step(sim, doc, s, faulty):
    from udapi.tool.udpipeonline import UDPipeOnline
    import udapi.block.udpipe.base as base, udapi.block.udpipe.en as en, udapi.block.udpipe.cs as cs
    s = dict(s)
    op = s['op']
    service = Service(sim, s, faulty)
    pre = model_of(doc)
    trees = [(bi, ti) for bi, b in enumerate(pre) for ti in range(len(b['trees']))]
    if not trees:
        return 'skip'
    real = list(doc.trees)[s['k'] % len(trees)]
    tool = UDPipeOnline('m', 'http://udpipe.example:8080/api' if s['salt'] % 2 else 'https://udpipe.example/api')
    flags = {'tag': s['tag'], 'parse': s['parse']}
    want = None
    if op in ('segment', 'models'):
        text = sentence(pre[trees[s['k'] % len(trees)][0]]['trees'][trees[s['k'] % len(trees)][1]])
        if op == 'segment' and blank(text):
            return 'skip'
        models, refused, lines = [pre], None, [['text', text]] if op == 'segment' else []
        call = (lambda: tool.segment_text(text)) if op == 'segment' else tool.list_models
        want = [' '.join(x.split()) for x, _ in sentences(text, False)] if op == 'segment' else ['cs', 'en']
    else:
        exp = expected(pre, s, trees)
        if exp is None:
            return 'skip'
        models, refused, lines = exp
        if op == 'tagparse':
            call = lambda: tool.tag_parse_tree(real, **flags)
        elif op == 'tokenize':
            call = lambda: tool.tokenize_tag_parse_tree(real, resegment=s['reseg'], ranges=s['ranges'], **flags)
        elif op == 'document':
            call = lambda: tool.process_document(doc, tokenize=s['tok'], resegment=s['reseg'], ranges=s['ranges'], **flags)
        else:
            cls = {'Base': base.Base, 'En': en.En, 'Cs': cs.Cs}[s['cls']]
            block = cls(online=1, zones=s['zones'], tokenize=s['tok'], resegment=s['reseg'], ranges=s['ranges'], delete_nodes=s['delete'],
                        **({'model': 'm'} if s['cls'] == 'Base' else {}), **flags)
            call = lambda: block.process_document(doc)
    exc = got = None
    err = io.StringIO()
    with N.Net(sim, service.serve, service.connecting, s['chunks'], service.point) as net, contextlib.redirect_stderr(err):
        try:
            got = call()
        except (Exception, KeyboardInterrupt) as e:   # pylint: disable=broad-except
            exc = e
    sim.count('requests', service.n)
    now = model_of(doc)
    what = f"{op} {[k for k in ('tok', 'tag', 'parse', 'reseg', 'ranges', 'delete') if s.get(k)]} {'zones=' + s['zones'] if op == 'block' else ''}"
    sim.log('step', what, service.n, type(exc).__name__, service.delivered)
    sim.check(service.problem is None, 'well-formed-request', lambda: f'{what}: {service.problem}')
    if len(pre[0]['trees']) > 1:
        sim.probe('two-zones')
    outcome = 'failed' if exc is not None else 'done'
    sim.state([what, [[len(t['nodes']) for t in b['trees']] for b in pre], service.delivered and s['fault']['kind'], outcome])
    sound(sim, doc)
    for n in (n for b in now for t in b['trees'] for n in t['nodes']):
        sim.check(n['parent'] is not None, 'consistent-document', lambda: f'{what}: node without parent {n}')
    # what the service got is a beginning of what it was to get
    rec = service.received
    sim.check(rec == lines[:len(rec)], 'sent-exactly', lambda: f'{what}: sent {next((a for a, b in zip(rec, lines + [None] * len(rec)) if a != b), None)}, '
              f'expected {next((b for a, b in zip(rec, lines + [None] * len(rec)) if a != b), None)}')
    for kind, _ in rec:
        sim.probe('words-sent' if kind == 'words' else 'texts-sent')
    if exc is None:
        sim.check(not service.delivered, 'failure-raises', lambda: f"{what}: fault {s['fault']}, yet no exception; result {str(got)[:80]}")
        sim.check(refused != 'refused', 'refusal', lambda: f'{what}: should have been refused')
        sim.check(len(rec) == len(lines), 'sent-exactly', lambda: f'{what}: sent {rec}, expected {lines}')
        diff = doc_diff(models[-1], now)
        sim.check(diff is None, 'answer-applied', lambda: f'{what}: {diff}')
        if want is not None:
            sim.check(got == want, 'answer-returned', lambda: f'{what}: {got}, expected {want}')
        if op == 'tokenize' and refused is None:
            sim.check(isinstance(got, list) and got and got[0] is real and len(got) == len(s['returned']), 'answer-returned',
                      lambda: f'{what}: returned {got}, expected {len(s["returned"])} trees, the first one being {real}')
            for m, t in list(zip(s['returned'], got))[1:]:
                d = tree_diff(m, view.tree_view(t))
                sim.check(d is None, 'answer-returned', lambda: f'{what}: {d}')
        if s['ranges'] and s['tok'] and op in ('tokenize', 'document', 'block') and refused is None and rec:
            toks = [n for b in now for t in b['trees'] for n in t['nodes'] + [{'misc': m[1]} for m in t['mwts']] if 'TokenRange=' in n['misc']]
            sim.check(bool(toks), 'answer-applied', lambda: f'{what}: no TokenRange')
        if rec:
            sim.probe('whole-document') if op == 'document' else None
            sim.probe('resegmented') if s['reseg'] and len(now) > len(pre) else None
            for b in now:
                for t in b['trees']:
                    if t['mwts']:
                        sim.probe('mwt-from-answer' if s['tok'] and op != 'tagparse' else 'kept-mwt')
                    if t['empty']:
                        sim.probe('kept-empty')
            sim.nontrivial = True
        doc.to_conllu_string()
        return 'done'
    if isinstance(exc, (AssertionError, Violation)):
        raise exc
    if refused == 'refused':
        sim.probe('refused')
    if not service.delivered:
        sim.check(refused == 'refused' and isinstance(exc, ValueError), 'unexpected-exception', lambda: f'{what}: {type(exc).__name__}: {exc} (the service answered well)',
                  f'unexpected-exception/{type(exc).__name__}')
    # as it was, or (one request per sentence) some of the first sentences are complete
    some = models[:1] if op != 'block' or s.get('atomic') else models
    diffs = [doc_diff(m, now) for m in some]
    if len(some) > 1 and diffs[0] is not None and None in diffs:
        sim.probe('partly-processed')
    sim.check(None in diffs, 'failure-leaves-document', lambda: f"{what}: {type(exc).__name__} after fault {service.delivered and s['fault']['kind']}, but the document has changed: "
              f"{min((d for d in diffs), key=len) if len(diffs) > 1 else diffs[0]}")
    doc.to_conllu_string()
    return 'failed' if service.delivered else 'refused'
