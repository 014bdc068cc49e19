"""Writes MANIFEST.json: one check per module in mc/checks, the rest not claimed."""
import json
import pathlib
import sys

root = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    'C01': 'explicit-state enumeration of corpora and merge histories; every merge of the real trainer replayed on a recounting model',
    'C02': 'enumeration of visiting orders and training histories on the real code; results compared for equality',
    'C03': 'exhaustive vocabularies x lines replayed against a longest-match model',
    'C04': 'exhaustive vocabularies x lines; model traces replayed on the real codecs',
    'C05': 'exhaustive bytes, id sequences and character blocks against the UTF-8 model',
    'C06': 'exhaustive corpora x cut settings against a selection model',
    'C07': 'exhaustive tables x save/load routes on the real code against a table model',
    'C08': 'exhaustive tables x texts x thresholds against a closure model',
    'C09': 'exhaustive exploration of all random outcomes of the real split function',
    'C10': 'exhaustive completion schedules of a model pool driving the real code; conformance runs on the real pool',
    'C11': 'exhaustive completion schedules and faults of model pools driving the real map-reduce; conformance runs on real pools',
    'C12': 'exhaustive frequency tables and corpora through the real files against the selection and merge models',
    'C13': 'exhaustive small input files through the real command line against the per-line model',
    'C14': 'exhaustive small file sets x partition counts x rerun histories on local Spark against a recount',
    'C15': 'exhaustive crash and fault injection at every file operation of model-writing runs',
    'C16': 'stateless model checking of the real code: all thread schedules up to a preemption bound and all points of interruption of calls on one codec',
    'D01': 'exhaustive record lists x flush points on the real database against a list model',
    'D02': 'exhaustive boundary ranges x flush points against the smallest-type model',
    'D03': 'exhaustive stream lengths x part sizes x modes x shuffle outcomes on the real multi-part database',
    'D04': 'exhaustive crash and fault injection at every file operation of create/overwrite histories',
    'D05': 'exhaustive length multisets x limits x shuffle outcomes on the real batcher',
    'D06': 'exhaustive record contents x options x repeated passes against a row model',
    'D07': 'exhaustive interleavings and retries of real part writers, a fault at every record',
    'D08': 'exhaustive line pairs x settings x partition counts on local Spark against a per-line model',
    'D09': 'exhaustive small token matrices x padding ids x types and repeated calls against the definition',
    'D10': 'stateless model checking of the real code: all thread schedules up to a preemption bound, all interleavings of passes, all points of interruption of reads of one database',
    'E01': 'exhaustive small corpora against a window-counting model',
    'E02': 'exhaustive small corpora and distributions against exact arithmetic',
    'E03': 'explicit-state replay of every merge against recounting from scratch',
    'X01': 'exhaustive strings over character classes through the real converters against the per-character definition',
    'U01': 'exhaustive contents and operation sequences on real files against a byte-string model',
    'U02': 'exhaustive operation sequences up to a depth against reference structures',
}
props = [json.loads(x) for x in open(root / 'properties.jsonl')]
checks, na = [], []
sys.path.insert(0, str(root))
skip = set(sys.argv[1:])
for p in props:
    i = p['id']
    f = root / 'mc' / 'checks' / f'{i.lower()}.py'
    if not f.exists() or i in skip:
        na.append({'property': i, 'reason': 'the check is still being built'})
        continue
    src = f.read_text()
    level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'model_checking'
    note = src.split('"""')[1].strip().split('\n', 1)[1].strip()
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i} --tier quick',
                       thorough_cmd=f'./check.sh {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=TECH[i], level=level,
                       level_note=' '.join(note.split())))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all seams are public module attributes replaced at run time.')
json.dump(m, open(root / 'MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
