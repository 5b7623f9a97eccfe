"""Writes known_findings.txt: the known: lines below and a fixed: line for every "fix:" commit of /repo (property from FIXES)."""
import os
import subprocess

KNOWN = [
    ('P04', 'coref-decoded-after-new-empty-node', 'known/P04-lazy-coref.json',
     'coreference (Entity=... in MISC) is decoded on first use: an empty node created inside the span of a mention before the first look '
     'becomes a word of the mention, created after the first look it does not'),
    ('P08', 'broken-passed/later-stream-ignored', 'known/P08-later-stream.json',
     'a .xz or .bz2 file of several concatenated streams with damage in a later stream is loaded as if it ended before that stream '
     "(Python's lzma and bz2 modules take the damaged stream for trailing garbage)"),
]
# first words of the commit message -> property
FIXES = [
    ('require_file', 'P18'), ('UDPipeOnline', 'P17'), ('udpipe.Base', 'P17'),
    ('refused move to another tree', 'P03'), ('raw_deps must not be stale', 'P05'), ('ords of empty nodes', 'P01'), ('shift_* must keep empty', 'P02'),
    ('removed nodes must not stay', 'P01'), ('MWT.address()', 'P04'), ('computing tokens and text', 'P04'), ('Root.flatten', 'P02'), ('steal_nodes', 'P02'),
    ('reading coreference must not', 'P04'), ('refused creating or moving of a mention', 'P03'), ('renamed entity', 'P15'),
    ('mentions must stay sorted', 'P15'), ('storing coreference must not', 'P04'), ('attribute maps:', 'P05'), ('refused zone', 'P14'),
    ('refused shifts relative', 'P03'), ('nodes with OrdTuple', 'P04'), ('commas must be escaped', 'P05'), ('node.feats and node.misc can be compared', 'P05'),
    ('children(add_self', 'P04'), ('corefud.PrintMentions must not reset', 'P10'), ('corefud.PrintMentions max_trees', 'P04'),
    ('printing bridging links', 'P04'), ('words of a MWT must be in word order', 'P04'),
    ('zone names must not end', 'P14'), ('sent_id assigned without', 'P14'), ('util.SplitSentence must keep', 'P14'), ('util.Split, segment.Simple', 'P14'),
    ('ids of new bundles', 'P14'), ('spans of mentions with ten', 'P15'),
    ('a reader of an open filehandle', 'P07'), ('read.Conllu: superfluous', 'P07'), ('read.Conllu: trailing spaces', 'P06'),
    ('sentences without sent_id', 'P07'), ('documents starting with a buffered', 'P07'), ('max_docs was not', 'P07'), ('merge=1 must not', 'P07'),
    ('read.AddText failed', 'P06'), ('read.AddSentences never went', 'P07'), ('read.Ccv failed', 'P07'), ('read.Sentences newdoc_if', 'P07'),
    ('read.Conll2012 failed', 'P06'), ('read.Vislcg: superfluous', 'P07'), ('read.Conllu fix_cycles', 'P08'), ('readers must refuse negative', 'P08'),
    ('sentences with empty nodes only', 'P06'), ('files=@filelist', 'P07'), ('write.Conllu must not split', 'P06'), ('read.Conllup must not', 'P07'),
    ('read.AddSentences of an open', 'P07'), ('global.Entity was lost', 'P06'), ('comments such as', 'P06'), ('a reader which has finished', 'P07'),
    ('bundles_per_doc with zone', 'P07'), ('max_docs with merge', 'P07'),
    ('writers must give sys.stdout', 'P10'), ('writers must not close the filehandle', 'P09'), ('eval.* with files', 'P09'),
    ('corefud.PrintMentions must restore', 'P10'), ('write.TextModeTrees must not change', 'P10'), ('node.draw(files', 'P09'), ('overwrite=1 and path must', 'P09'),
    ('blocks must visit each', 'P11'), ('util.Eval must visit', 'P11'), ('ud.RemoveMwt must', 'P11'), ('process_start was not', 'P11'),
    ('coreference blocks must not depend', 'P13'), ('write.Conllu failed if the first comment', 'P06'), ('write.Conllu print_text=0', 'P06'),
    ('splitting a sentence must move also', 'P19'), ('util.SplitSentence', 'P19'), ('util.JoinSentence', 'P19'), ('segment.Merge', 'P19'), ('segment.Simple', 'P19'),
    ('storing coreference left', 'P20'), ('corefud.RemoveNo', 'P20'), ('coreference loaded again', 'P20'), ('corefud.FixInter', 'P20'), ('corefud.FixParen', 'P20'), ('corefud.MergeSame', 'P20'),
    ('corefud.Link2', 'P20'), ('removed nodes stayed in coref', 'P20'), ('corefud.Delete', 'P20'), ('corefud.MoveHead', 'P20'),
    ('if_empty_tree', 'P11'), ('a reader gave an extra', 'P11'), ('find_minimal_common', 'P01'), ('util.Split', 'P19'), ('util.ResegmentGold', 'P19'),
    ('ud.ComplyWithText', 'P21'), ('ud.SetSpaceAfter changed', 'P22'), ('write.TextModeTrees with layout=align lost', 'P22'), ('ud.MarkBugs reported', 'P22'), ('ud.Convert1to2 reported', 'P22'), ('ud.JoinToken', 'P21'), ('ud.SplitUnderscoreTokens', 'P21'), ('ud.SetSpaceAfter', 'P21'), ('ud.GoeswithFromText', 'P21'), ('ud.FixMwtSpace', 'P21'), ('ud.AddMwt', 'P21'),
    ('reading from the standard input (files', 'P10'), ('udapy ended with status 0', 'P12'),
    ('coreference annotation that failed to load', 'P03'), ('corefud.Load strict=0', 'P15'), ('a discontinuous mention must not', 'P15'),
]


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
    lines = ['# known: property=P sig=S replay=PATH what     (a genuine defect that is not repaired; only this signature is not reported)',
             '# fixed: property=P COMMIT what                  (repaired by that commit of /repo; suppresses nothing)']
    lines += [f'known: property={p} sig={s} replay={r} {w}' for p, s, r, w in KNOWN]
    for line in log:
        commit, subject = line.split(' ', 1)
        if not subject.startswith('fix: '):
            continue
        what = subject[5:]
        prop = [p for start, p in FIXES if what.startswith(start)]
        assert prop, what
        lines.append(f'fixed: property={prop[0]} {commit} {what}')
    with open(os.path.join(here, 'known_findings.txt'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


main()
