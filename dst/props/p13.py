"""P13: the outcome depends only on the document and the parameters."""
import json

from dst import core, gen as g, zygote

RUNS = {'quick': 2000, 'thorough': 60000}
LISTS = ('clients', 'schedule')
STATE_RULE = ('one state = (block with parameters, form of the document, way it was interleaved, outcome class), counted once over all runs')
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['all blocks of udapi.block except readers and udpipe', 'udapi.core'], 'stub': ['identity hashes of documents, bundles, nodes, tokens, mentions and entities (seeded)',
                                                                                             'string hashes (PYTHONHASHSEED of the world)', 'global random generator (same seed before each operation)']}
ASSUMPTIONS = ['blocks which cannot be imported without further packages or models are not run', 'entity ids of several documents in one file (GRP) are not generated: their renumbering is defined per process',
               'the global random generator, which some blocks use by design, is in the same state before each operation']
PROBES = ('interleaved', 'nested', 'same-document', 'decoded', 'stored-twice', 'pickled', 'deepcopied', 'file', 'built', 'built-by-calls', 'gc-off', 'gc-often', 'block-failed', 'printed', 'logged', 'changed', 'coref', 'shared-entities')
HASH_SEEDS = (0, 17, 4242)
FORMS = ('lazy', 'lazy', 'decoded', 'stored-twice', 'pickled', 'deepcopied', 'file', 'built')
UDEPRELS = ['nsubj', 'obj', 'iobj', 'csubj', 'ccomp', 'xcomp', 'obl', 'vocative', 'expl', 'dislocated', 'advcl', 'advmod', 'discourse', 'aux', 'cop', 'mark', 'nmod', 'appos', 'nummod', 'acl',
            'amod', 'det', 'clf', 'case', 'conj', 'cc', 'fixed', 'flat', 'compound', 'list', 'parataxis', 'orphan', 'goeswith', 'reparandum', 'punct', 'dep', 'aux:pass', 'nsubj:pass', 'expl:pv', 'acl:relcl']
LEXICON = [('.', '.', 'PUNCT', '_'), (',', ',', 'PUNCT', '_'), ('"', '"', 'PUNCT', '_'), ('(', '(', 'PUNCT', '_'), (')', ')', 'PUNCT', '_'), ('?', '?', 'PUNCT', '_'), ('-', '-', 'PUNCT', '_'),
           ('und', 'und', 'CCONJ', '_'), ('is', 'be', 'AUX', 'Mood=Ind|VerbForm=Fin'), ('byl', 'být', 'AUX', 'VerbForm=Part'), ('will', 'will', 'AUX', 'VerbForm=Fin'), ('the', 'the', 'DET', 'PronType=Art'),
           ('del', 'del', 'ADP', '_'), ('zum', 'zum', 'ADP', '_'), ('aux', 'aux', 'ADP', '_'), ('abych', 'abych', 'SCONJ', '_'), ("don't", 'do', 'AUX', '_'), ('dámelo', 'dar', 'VERB', 'VerbForm=Inf'),
           ('he', 'he', 'PRON', 'Case=Nom|PronType=Prs'), ('which', 'which', 'PRON', 'PronType=Rel'), ('New', 'New', 'PROPN', '_'), ('York', 'York', 'PROPN', '_'), ('two', 'two', 'NUM', 'NumType=Card'),
           ('not', 'not', 'PART', 'Polarity=Neg'), ('in_spite_of', 'in_spite_of', 'ADP', '_'), ('quickly', 'quickly', 'ADV', 'Degree=Pos'), ('se', 'se', 'PRON', 'Reflex=Yes|PronType=Prs'),
           ('of', 'of', 'ADP', '_'), ('that', 'that', 'SCONJ', '_'), ('walks', 'walk', 'VERB', 'Mood=Ind|Number=Sing|Person=3|Tense=Pres|VerbForm=Fin'), ('dogs', 'dog', 'NOUN', 'Number=Plur'),
           ('big', 'big', 'ADJ', 'Degree=Pos'), ('!', '!', 'SYM', '_'), ('10', '10', 'NUM', 'NumForm=Digit'), ('he is', 'he is', 'X', '_'), ('al', 'al', 'ADP', 'Definite=Def'), ('»', '»', 'PUNCT', '_'), ('«', '«', 'PUNCT', '_')]
COREF = ['corefud.' + b for b in ('BridgingClusters', 'ConcatMentionMisc', 'CountGaps', 'Delete', 'FixInterleaved', 'FixParentheses', 'FixToValidate', 'GuessSpan', 'IndexClusters',
                                 'MarkCrossing', 'MarkInterleaved', 'MarkNested', 'MarkPairs', 'MarkSameSubSpan', 'MergeSameSpan', 'MiscStats', 'MoveHead', 'PrintEntities', 'PrintMentions', 'RemoveMisc',
                                 'RemoveNoCorefEntities', 'SingleParent', 'Stats')] + ['write.OldCorefUD', 'write.CorefHtml', 'write.Conllu', 'write.TextModeTrees']
PARAMS = {
    'corefud.Delete': [{}, {'empty': 1}, {'misc': 1, 'empty': 1}], 'corefud.FixInterleaved': [{}, {'same_entity_only': 0}, {'both_discontinuous': 1, 'same_entity_only': 0}, {'crossing_only': 1, 'same_entity_only': 0}, {'nested_same_subspan': 0, 'same_entity_only': 0}],
    'corefud.MarkCrossing': [{}, {'same_entity_only': 1}, {'continuous_only': 1}, {'print_form': 1}], 'corefud.MarkInterleaved': [{}, {'same_entity_only': 1}, {'print_form': 1}],
    'corefud.MarkNested': [{}, {'same_entity_only': 0}, {'same_entity_only': 0, 'multiword_only': 1, 'print_form': 1}], 'corefud.MarkPairs': [{}, {'nested': 1}, {'crossing': 1, 'print_form': 1}, {'interleaved': 1}, {'same_head': 1}],
    'corefud.MarkSameSubSpan': [{}, {'same_entity_only': 1}, {'nested_only': 1}], 'corefud.MergeSameSpan': [{}, {'same_entity_only': 1}], 'corefud.MoveHead': [{}, {'bugs': 'ignore'}, {'bugs': 'mark', 'keep_head_if_possible': 0}],
    'corefud.PrintEntities': [{}, {'aggregate_mentions': 0}, {'print_ranges': 0, 'min_mentions': 2}], 'corefud.PrintMentions': [{}, {'shuffle': 0}, {'print_other_forms': 3}, {'almost_forest': 'only'}, {'html': 1}], 'corefud.RemoveMisc': [{'attrnames': 'Entity,Gloss'}],
    'corefud.Stats': [{}, {'report_basics': 1, 'report_details': 1, 'style': 'tex:'}, {'style': 'human', 'exclude_singletons': 1}], 'corefud.IndexClusters': [{}, {'start': 5}], 'eval.F1': [{'gold_zone': 'gold'}, {'gold_zone': 'gold', 'focus': 'NOUN', 'attributes': 'upos'}],
    'eval.Parsing': [{'gold_zone': 'gold'}], 'transform.Proj': [{}, {'strategy': 'path'}, {'lifting_order': 'shallowest'}, {'strategy': 'headpath'}], 'transform.Deproj': [{}, {'label': 'deprel'}],
    'ud.ComplyWithText': [{}, {'prefer_mwt': 0}, {'fix_text': 0}], 'ud.MarkBugs': [{}, {'tests': 'no-NumType'}], 'ud.FixPunct': [{}, {'check_paired_punct_upos': 1}, {'copy_to_enhanced': 1}], 'ud.FixPseudoCop': [{'lemmas': 'walk,be'}],
    'ud.FixChain': [{}, {'deprels': 'conj,flat'}], 'ud.PrintFixed': [{}, {'only_forms': 1}, {'known_expressions': 'fixed.txt'}, {'known_expressions': 'more.txt'}], 'ud.SetTranslation': [{'file': 'lines.txt'}], 'ud.SplitUnderscoreTokens': [{}, {'deprel': 'fixed'}], 'util.Eval': [{'node': 'print(node.form, [n.ord for n in node.children])'},
                                                                                                                                                  {'node': 'if node.upos == "PUNCT": node.remove(children="rehang")'}, {'coref_mention': 'print(coref_mention.span)'}, {'coref_entity': 'print(coref_entity.eid, len(coref_entity.mentions))'}],
    'util.Filter': [{'keep_subtree': 'node.upos=="NOUN"'}, {'delete_subtree': 'node.upos=="VERB"'}, {'keep_tree_if_node': 'node.upos=="X"'}, {'mark': 'a', 'keep_tree_if_node': 'node.upos=="DET"'}], 'util.FindBug': [{'block': 'ud.es.FixVerbFeats'}, {'block': 'ud.FixPunct'}],
    'util.JoinSentence': [{'misc_name': 'Bug'}, {'misc_name': 'Lang', 'misc_value': 'en'}], 'util.SplitSentence': [{'misc_name': 'Bug'}], 'util.Mark': [{'node': 'node.upos=="NOUN"'}, {'node': 'node.is_leaf()', 'print_stats': 1}], 'util.MarkDiff': [{'gold_zone': 'gold'}, {'gold_zone': 'gold', 'align': 1, 'print_stats': 5}],
    'util.Normalize': [{}, {'sent_id': 1, 'empty_node_ord': 1}], 'util.See': [{'node': 'node.upos=="NOUN"'}, {'node': 'node.is_leaf()', 'n': 2}], 'util.Split': [{'parts': 2}, {'bundles_per_doc': 1}], 'util.Wc': [{}, {'tsv': 1}],
    'write.Conllu': [{}], 'write.TextModeTrees': [{}, {'layout': 'compact'}, {'layout': 'align', 'color': 1}, {'attributes': 'form,feats,misc', 'print_doc_meta': 1, 'marked_only': 0}, {'minimize_cross': 0}], 'write.Tikz': [{}, {'attributes': 'form,upos', 'enhanced': 1}],
    'write.Sdparse': [{}, {'always_ord': 1}], 'write.Sentences': [{}, {'if_missing': 'empty'}, {'newdoc': '===', 'newpar': '--'}], 'demo.Complexity': [{}, {'matches': 1}], 'ud.Google2ud': [{}, {'lang': 'de'}, {'lang': 'ja'}], 'ud.ExGoogle2ud': [{}, {'lang': 'de'}, {'lang': 'ru'}],
    'ud.ca.ElQue': [{}, {'fix': 1}], 'ud.es.ElQue': [{}, {'fix': 1}], 'ud.es.AddMwt': [{}, {'verbpron': 1}], 'ud.la.MarkFeatsBugs': [{}, {'flavio': 1}], 'ud.Convert1to2': [{}, {'skip': 'coord,feats'}], 'tokenize.OnWhitespace': [{}, {'keep_spaces': 1}],
    'corefud.CountGaps': [{}, {'report_per_newdoc': 1}], 'corefud.Link2Cluster': [{'id_attr': 'Gloss', 'ante_attr': 'Lang'}], 'ud.JoinToken': [{'misc_name': 'Bug'}], 'ud.zh.Lemmatize': [{}, {'rewrite': 'all'}],
    'eval.Conll17': [{}], 'eval.Conll18': [{}, {'print_counts': 1}], 'transform.Flatten': [{}, {'oneroot': 1}], 'corefud.RemoveNoCorefEntities': [{}],
}
EXCLUDED = ('corefud.FixEntityAcrossNewdoc',        # numbers documents per process, as loading GRP ids does
            'demo.Newspeak')                        # downloads a model
FILES = {'fixed.txt': 'new york\nof the\nthe dogs\nthe big dogs\n, and\n', 'more.txt': 'new york\nhe is\nwill not\nof that\n. .\n', 'lines.txt': ''.join(f'line {i}\n' for i in range(8))}
_NAMES = []


def prepare():
    zygote.start(HASH_SEEDS)
    if not _NAMES:
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            _NAMES.extend(sorted(b for b in zygote.blocks() if b not in EXCLUDED))


def annotate(rng, text, rich, coref, zones):
    """Richer words and coreference mentions for generated CoNLL-U."""
    rows = [line.split('\t') for line in text.split('\n')]
    if rng.random() < 0.5:
        rows = [r for r in rows if not r[0].startswith('# text')]
    words = [i for i, r in enumerate(rows) if len(r) == 10]
    for i in words:
        r = rows[i]
        if '-' in r[0]:
            continue
        if rng.random() < rich:
            r[1], r[2], r[3], r[5] = rng.choice(LEXICON)
        if r[7] not in ('_', 'root') and rng.random() < rich:
            r[7] = rng.choice(UDEPRELS)
    if rng.random() < 0.3:      # paired punctuation around several words
        for i in words:
            j = i + rng.choice([2, 3, 4, 5])
            if j < len(rows) and len(rows[j]) == 10 and rng.random() < 0.2 and '-' not in rows[i][0] + rows[j][0]:
                opening, closing = rng.choice(['()', '()', '[]', '""', '„“', '«»'])
                for k, form in ((i, opening), (j, closing)):
                    rows[k][1], rows[k][2], rows[k][3], rows[k][5] = form, form, 'PUNCT', '_'
    if coref:
        sentences, current = [], []
        for i, r in enumerate(rows):
            if len(r) == 10:
                if '-' not in r[0]:
                    current.append(i)
            elif current:
                sentences.append(current)
                current = []
        opens, closes, singles, used = {}, {}, {}, set()
        n = 0
        for s in sentences:
            for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
                e = f'e{rng.randint(1, coref)}'
                used.add(e)
                lo = rng.randrange(len(s))
                hi = min(len(s) - 1, lo + rng.choice([0, 0, 1, 2, 3]))
                spans = [(lo, hi)]
                if rng.random() < 0.2 and hi + 2 < len(s):
                    lo2 = rng.randint(hi + 2, len(s) - 1)
                    spans.append((lo2, min(len(s) - 1, lo2 + rng.choice([0, 1]))))
                for k, (a, b) in enumerate(spans):
                    n += 1
                    part = f'[{k + 1}/{len(spans)}]' if len(spans) > 1 else ''
                    body = f'({e}{part}-{rng.choice(["person", "place", ""])}-{rng.randint(1, sum(y - x + 1 for x, y in spans))}-'
                    if a == b:
                        singles.setdefault(s[a], []).append(body + ')')
                    else:
                        opens.setdefault(s[a], []).append((-b, n, body))
                        closes.setdefault(s[b], []).append((-a, -n, f'{e}{part})'))
        for i in set(opens) | set(closes) | set(singles):
            value = ''.join(x[2] for x in sorted(closes.get(i, []))) + ''.join(x[2] for x in sorted(opens.get(i, []))) + ''.join(singles.get(i, []))
            misc = [] if rows[i][9] == '_' else rows[i][9].split('|')
            here = sorted({x[1:x.index('-')].partition('[')[0] for x in [y[2] for y in opens.get(i, [])] + singles.get(i, []) if '[1/' in x or '[' not in x})
            others = sorted(used - set(here[:1]))
            if here and others and rng.random() < 0.3:
                misc.append(f'Bridge={rng.choice(others)}<{here[0]}:part')
            if here and len(others) > 1 and rng.random() < 0.15:
                misc.append('SplitAnte=' + ','.join(f'{a}<{here[0]}' for a in rng.sample(others, 2)))
            rows[i][9] = '|'.join(misc + ['Entity=' + value])
        rows.insert(0, ['# global.Entity = eid-etype-head-other'])
    if zones:
        out, block = [], []
        for r in rows:
            block.append(r)
            if r == ['']:
                if len(block) > 1 and block[0][0].startswith('# global'):
                    out.append(block.pop(0))
                if len(block) > 1:
                    ids = [k for k, x in enumerate(block) if x[0].startswith('# sent_id')]
                    out += block
                    copy = [list(x) for x in block if not x[0].startswith('# global') and not x[0].startswith('# newdoc')]
                    for x in copy:
                        if x[0].startswith('# sent_id'):
                            x[0] += '/gold'
                        if len(x) == 10:
                            x[9] = '|'.join(m for m in x[9].split('|') if m.split('=')[0] not in ('Entity', 'Bridge', 'SplitAnte')) or '_'
                        if len(x) == 10 and rng.random() < 0.2:
                            x[3] = rng.choice(g.UPOS)
                    if ids:
                        out += copy
                block = []
        rows = out
    return '\n'.join('\t'.join(r) for r in rows) + ('\n' if zones else '')


def document(rng, coref):
    text = g.document(rng, rng.choice([1, 1, 2, 3, 5]), sizes=(1, rng.choice([4, 8, 14])), rare=rng.choice([0, 0.1]), comments=rng.random() < 0.5, newdoc=rng.choice([None, None, 'd1']))
    return annotate(rng, text, rng.choice([0, 0.4, 0.8]), rng.choice([2, 4, 8]) if coref else 0, rng.random() < 0.2)


def operation(rng, coref):
    prepare()
    if coref and rng.random() < 0.7:
        name = rng.choice(COREF)
    elif rng.random() < 0.15:
        name = rng.choice(['ud.FixPunct', 'ud.PrintFixed'])
    else:
        name = rng.choice(_NAMES)
    return {'block': name, 'params': rng.choice(PARAMS.get(name, [{}]))}


def gen(rng):
    coref = rng.random() < 0.5
    texts = [document(rng, coref) for _ in range(rng.choice([1, 2, 2]))]
    clients = []
    for c in range(rng.choice([1, 2, 2, 3])):
        clients.append({'doc': rng.randrange(len(texts)), 'ops': [operation(rng, coref) for _ in range(rng.choice([1, 1, 2, 3]))]})
    if len(clients) > 1 and rng.random() < 0.5:
        clients[1]['doc'] = clients[0]['doc']
        if rng.random() < 0.5:
            clients[1]['ops'] = json.loads(json.dumps(clients[0]['ops']))
        elif rng.random() < 0.5:
            clients[1]['ops'] = [{'block': o['block'], 'params': rng.choice(PARAMS.get(o['block'], [{}]))} for o in clients[0]['ops']]
    for c in clients:
        c['form'] = rng.choice(FORMS)
        for o in c['ops']:
            if rng.random() < 0.3 and len(clients) > 1:
                o['nest'] = [rng.randint(1, 3), [rng.randrange(len(clients)) for _ in range(rng.choice([1, 2]))]]
    schedule = [i for i, c in enumerate(clients) for _ in c['ops']]
    rng.shuffle(schedule)
    return {'texts': texts, 'clients': clients, 'schedule': schedule, 'hash': [rng.choice(HASH_SEEDS), rng.choice(HASH_SEEDS)], 'identity': [rng.randrange(1 << 30), rng.randrange(1 << 30)],
            'gc': rng.choice(['on', 'on', 'off', 'often'])}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for i, c in enumerate(plan['clients']):
        for j in range(len(c['ops'])):
            if len(c['ops']) > 1:
                p = cp()
                del p['clients'][i]['ops'][j]
                yield p
            if c['ops'][j].get('nest'):
                p = cp()
                del p['clients'][i]['ops'][j]['nest']
                yield p
        if c['form'] != 'lazy':  # (storing adds missing texts)
            p = cp()
            p['clients'][i]['form'] = 'lazy'
            yield p
    if plan['gc'] != 'on':
        yield dict(cp(), gc='on')
    if plan['hash'][0] != plan['hash'][1]:
        yield dict(cp(), hash=[plan['hash'][0]] * 2)
    if plan['identity'][0] != plan['identity'][1]:
        yield dict(cp(), identity=[plan['identity'][0]] * 2)
    for i, f in enumerate(plan['texts']):
        parts = f.split('\n\n')[:-1]
        if len(parts) > 1:
            for j in range(len(parts)):
                p = cp()
                p['texts'][i] = ''.join(x + '\n\n' for k, x in enumerate(parts) if k != j)
                yield p
        lines = f.split('\n')
        for j, line in enumerate(lines):
            cols = line.split('\t')
            if len(cols) == 10:
                for k in (9, 8, 5):
                    if cols[k] != '_' and '.' not in cols[0]:
                        p = cp()
                        p['texts'][i] = '\n'.join(lines[:j] + ['\t'.join(cols[:k] + ['_'] + cols[k + 1:])] + lines[j + 1:])
                        yield p


def execute(plan, sim):
    clients = [c for c in plan['clients']]
    if not clients:
        return
    solo = []
    for c in clients:
        ops = [{k: v for k, v in o.items() if k != 'nest'} for o in c['ops']]
        req = {'texts': plan['texts'], 'clients': [{'doc': c['doc'], 'form': 'stored' if c['form'] == 'stored-twice' else 'lazy', 'ops': ops}], 'files': FILES, 'schedule': [0] * len(ops), 'identity': plan['identity'][0], 'gc': 'on'}
        solo.append(zygote.ask(plan['hash'][0], req))
    req = {'texts': plan['texts'], 'files': FILES, 'clients': clients, 'schedule': [s % len(clients) for s in plan['schedule']], 'identity': plan['identity'][1], 'gc': plan['gc']}
    both = zygote.ask(plan['hash'][1], req)
    for reply in solo + [both]:
        if 'results' not in reply:
            sim.probe('budget' if 'budget' in reply else 'died')
            sim.log('no-result', sorted(reply))
            return
    if both['built']:
        sim.probe('built-by-calls')
    if both['nested']:
        sim.probe('nested')
    if len(clients) > 1:
        sim.probe('interleaved')
        sim.nontrivial = True
    if plan['hash'][0] != plan['hash'][1] or plan['identity'][0] != plan['identity'][1]:
        sim.fault('other-hashes')
    if len({c['doc'] for c in clients}) < len(clients):
        sim.probe('same-document')
    if plan['gc'] != 'on':
        sim.probe('gc-' + plan['gc'])
        sim.fault('gc-' + plan['gc'])
    if any('Entity=' in t for t in plan['texts']):
        sim.probe('coref')
    for i, c in enumerate(clients):
        sim.probe(c['form'])
        if c['form'] != 'lazy':
            sim.fault('form-' + c['form'])
        before = None
        for j, mixed in enumerate(both['results'][i]):
            alone = solo[i]['results'][0][j]
            op = c['ops'][j]
            context = lambda: f'client {i} (document as {c["form"]}), operation {j}: {op["block"]} {op["params"]}'
            sim.log(i, j, op['block'], alone[0], core.h64(alone[1]), core.h64(alone[2]), core.h64(alone[3]))
            sim.state([op['block'], op['params'], c['form'], alone[0], len(clients) > 1, bool(op.get('nest'))])
            sim.check(mixed[0] == alone[0], 'outcome', lambda: f'{context()}: {alone[0]} alone, {mixed[0]} in the other world', sig=f'outcome/{op["block"]}')
            sim.check(mixed[1] == alone[1], 'printed', lambda: f'{context()}: printed differently: {first(alone[1], mixed[1])}', sig=f'printed/{op["block"]}')
            sim.check(mixed[3] == alone[3], 'logged', lambda: f'{context()}: logged differently: {first(chr(10).join(alone[3]), chr(10).join(mixed[3]))}', sig=f'logged/{op["block"]}')
            sim.check(mixed[2] == alone[2], 'document', lambda: f'{context()}: document differs: {first(str(alone[2]), str(mixed[2]))}', sig=f'document/{op["block"]}')
            if alone[0]:
                sim.probe('block-failed')
                sim.count('failed:' + op['block'] + '/' + alone[0])
            if alone[1]:
                sim.probe('printed')
            if alone[3]:
                sim.probe('logged')
            if before is not None and before != alone[2]:
                sim.probe('changed')
            before = alone[2]
    # Clients that did the same to the same document got the same.
    for i, c in enumerate(clients):
        for j in range(i):
            d = clients[j]
            if c['doc'] == d['doc'] and (c['form'] == 'stored-twice') == (d['form'] == 'stored-twice'):
                for k in range(min(len(both['results'][i]), len(both['results'][j]))):
                    if any(c['ops'][m]['block'] != d['ops'][m]['block'] or c['ops'][m]['params'] != d['ops'][m]['params'] for m in range(k + 1)):
                        break
                    sim.probe('shared-entities')
                    sim.check(both['results'][i][k] == both['results'][j][k], 'twice', lambda: f'clients {j} and {i}: {c["ops"][k]["block"]} gave different results for the same document')


def first(a, b):
    n = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'{a[max(0, n - 60):n + 60]!r} and {b[max(0, n - 60):n + 60]!r}'
