"""Rewrites section 2 of DESIGN.md (between the markers) from the properties and the checks' docstrings."""
import ast
import json
import pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
OUT = []
why={
'C01':('transition system: state = segmentation of all words, step = merge any pair of maximal weighted count; stops = size / min co-evidence / no pair','incremental heap+index bookkeeping goes wrong only after particular overlaps (aaa, abab) several merges deep; the tests compare one corpus with itself'),
'C02':('equality of the resulting tables over all explored environments','one process has one memory layout and one hash seed'),
'C03':('longest match by definition (try all lengths from the longest), on all reachable vocabularies','needs particular combinations of pieces that are prefixes of one another, and histories on one codec'),
'C04':('maps between ids, pieces and symbols written out by hand','every subset vocabulary and every line, not one round trip'),
'C05':('UTF-8 of the Python codec, byte for byte','all scalar values; all runs of malformed bytes around markers'),
'C06':('selection model: sort, coverage prefix, minimum frequency, size; admits any order among equals','boundary arithmetic of three cuts that interact'),
'C07':('table before saving; encodings before saving','all routes x kinds, levels and composition included'),
'C08':('least set closed under composition that holds the reserved and the frequent types','closure over deep composition, thresholds at every count'),
'C09':('set of all splits computed from the composition tree','reachability over ALL random outcomes can not be sampled'),
'C10':('sequential encoding','order of completion, chunk limits and faults are not controlled by a test'),
'C11':('left fold','order of completion for non-commutative reducers; deadlock and partial results on faults'),
'C12':('the table written; selection and merge models','terms that look like syntax'),
'C13':('per-line model of the library call','alignment of lines with empty, blank and missing final lines'),
'C14':('recount in plain Python; selection and merge models','partition edges, rerun histories'),
'C15':('old model, new model or an error; the model of an undisturbed run','a kill at every file operation and byte, then the next run'),
'C16':('the results of the same calls made alone','schedules and points of interruption are not controlled by a test'),
'D01':('list of records','flush points of a buffer of 2M elements are out of reach for tests; type boundaries'),
'D02':('smallest of the eight integer types that holds the range','boundaries x flush points'),
'D03':('list of records, multiset per pass','all orders; interleaved passes'),
'D04':('old data, new data or an error - nothing else','crash at every single file operation and torn write'),
'D05':('multiset of batchable records, limits','all length multisets and random outcomes'),
'D06':('rows built by hand from the record','all combinations of markers present and required'),
'D07':('records of the last complete attempt of each part','interleavings and retries happen only on clusters'),
'D08':('encodings of each line by the codecs','alignment under filtering, every partitioning'),
'D09':('the definition, position by position','every position of every small matrix; results changed by the caller'),
'D10':('the results of the same reads made alone','schedules and points of interruption are not controlled by a test'),
'E01':('exact fractions over windows','no tests at all'),
'E02':('exact fractions','no tests at all'),
'E03':('merging from scratch after every step','no tests at all; runs of equal symbols'),
'X01':('the definition, character by character','no tests at all; rare syllables'),
'U01':('byte string','line-break-like characters; histories; errors inside a block'),
'U02':('multiset / map / list','operation sequences'),
}
heads={'D01':'\n### Databases and batches\n','E01':'\n### Evaluation tools\n','U01':'\n### Building blocks\n','X01':'\n### Experimental\n'}
for l in open(ROOT / 'properties.jsonl'):
    p=json.loads(l); i=p['id']
    t=ast.parse(open(ROOT / f'mc/checks/{i.lower()}.py').read())
    d=ast.get_docstring(t).split('\n',1)[1].strip()
    A=[ast.literal_eval(n.value) for n in t.body if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','')=='ASSUMPTIONS']
    if i in heads: OUT.append(heads[i])
    OUT.append(f"**{i} {p['title']}.** {d}\n*Oracle*: {why[i][0]}. *Preconditions*: {'; '.join(A[0]) if A else 'none'}. *Beyond tests*: {why[i][1]}.\n")
f = ROOT / 'DESIGN.md'
s = f.read_text()
a, b = s.index('<!-- generated'), s.index('<!-- end generated')
f.write_text(s[:a] + '<!-- generated by tools/mkdesign.py -->\n' + '\n'.join(OUT) + '\n' + s[b:])

MISSED_FIRST = {
    'c02-peek-input': 'input read twice', 'c03-word-by-word': 'blanks other than spaces, pieces that span words',
    'c04-cached-list': 'returned lists changed by the caller', 'c04-unk-run': 'long lines with reserved names',
    'c07-splitlines': 'labels with inner line-break-like characters', 'c10-swallow': 'errors of 16 kinds instead of one',
    'c13-bom': 'lines that start with U+FEFF', 'c14-local-flush': 'texts of thousands of types',
    'c02-long-line-set': 'long lines of equally frequent words', 'c14-short-names': 'lines of 140000 words',
    'd09-cached': 'returned masks changed by the caller', 'e02-negative': 'few wrong entries among many',
    'e03-short-len': 'lines of 33000 and 66000 symbols',
    'u02-size-cached': 'sizes asked between operations', 'e03-empty-last': 'lines with thousands of occurrences of a pair',
    'c01-clock': 'training under a clock that leaps', 'c03-astral': 'joining characters, characters beyond the BMP in all places',
    'c07-load-cached': 'models saved over each other at one path', 'c07-same-parts': 'types of 1 to 7 parts, equal ones among them',
    'c10-long-lines': 'lines of up to 150000 tokens', 'c11-equal-default': 'items that are one and the same object',
    'c14-same-file': 'a file given twice, and by a link', 'd01-array-alias': 'arrays of all pairs of types in one field',
    'd05-many-sents': 'records of up to 70001 tokens', 'x01-nfd': 'lines that begin and end with blanks, joiners, controls',
    'c03-memo-ends': 'lines of 20 to 5000 characters that agree at their ends or in a sample', 'c10-shared-pool': 'two parallel streams consumed in step',
    'd03-sixth-pass': '70 passes over one object', 'c09-deep-left': 'trees of doubled and tripled depth',
    'c02-error-then': 'trainings after 50 kinds of failing trainings', 'c16-lazy-trie': 'threads (new property)', 'c16-swapped-table': 'shrinking into a file while others encode', 'd10-shared-order': 'shuffled databases', 'd10-last-lookup': 'threads (new property)',
}
T = ['Each seed was written from the text of a property, is kept only if the 16 stable tests pass with it and its demonstration',
     'fails with it, and is run against the quick check of its property (none of the checks reads this folder). All are caught;',
     'where a seed was missed at first, the last column says what was added to the explored space because of it.', '',
     '| seed | caught by | needs | missed first, added |', '|---|---|---|---|']
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    T.append(f"| {d.name} | {m['property']} | {m['needs']} | {MISSED_FIRST.get(d.name, '')} |")
s = f.read_text()
a = s.index('## 5. Planted bugs')
e = s.find('\n## 6', a)
f.write_text(s[:a] + '## 5. Planted bugs\n\n' + '\n'.join(T) + '\n' + (s[e:] if e > 0 else ''))
