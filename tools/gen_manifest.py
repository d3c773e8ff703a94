"""Writes MANIFEST.json from the check modules present and the notes below."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = 'property-based testing (Hypothesis, shrinking) of the real code under Jython: '
T = {
    'C01': 'generated play/undo histories against a reference model of backgammon',
    'C02': 'every single-step question on generated positions against a brute-force rules oracle',
    'C03': 'every multi-step question on generated positions against exhaustive chain search; there-and-back round trip',
    'C04': 'generated turns against an exhaustive search of the largest number of playable dice',
    'C05': 'stateful generation of plays, undos, copies against multisets and lists',
    'C06': 'generated board pairs and edits; metamorphic mirror relation over all rules questions plus absolute oracle',
    'C07': 'model-based state machine of cube, resignation and turn actions, permitted and forbidden ones',
    'C08': 'exhaustive round trip over all locations; generated texts and numbers for rejection',
    'C09': 'round trip, uniqueness and distance over generated boards and bytes against a written-down encoding',
    'C10': 'round trip and differential testing against an independent implementation of the published format; fuzzed ids',
    'C11': 'generated game states printed as FIBS lines by an independent writer, decoded and compared',
    'C12': 'generated game states printed as XGIDs by an independent writer; mutation fuzzing for rejection',
    'C13': 'exhaustive and generated bear-off positions against combinatorial counting; generated databases',
    'C14': 'algebraic laws over generated ratings and match lengths, with an independently written formula',
    'C15': 'fairness laws over generated fields; model-based simulation with a scripted source of luck',
    'C16': 'grammar-based generation of valid records, single-fault mutation for invalid ones, split round trip',
    'C17': 'generated game states against an independently computed picture',
    'C18': 'generated element trees and attributes against a table of the document type',
    'C19': 'generated style sheets and trees against an independent selector matcher',
    'C20': 'generated states, sizes and themes drawn on a recording surface; invariants of the recording',
    'C21': 'grammar-based and mutational fuzzing of wiki text; strict XML parser as oracle',
    'C22': 'fuzzed wiki text with marked special characters; text-preservation oracle and tag whitelist',
    'C23': 'generated documents with their denoted structure, compared with the parsed output; metamorphic block independence',
    'C24': 'generated macro calls against an independent expansion; fuzzed arguments',
    'C25': 'round trip and differential testing against strict XML parsing; generated document edits',
    'C26': 'stateful generation of editor operations against a tree model',
    'C27': 'metamorphic comparison of embedded, split and stand-alone formatting over generated text',
    'C28': 'lines generated from a frozen table of message patterns in generated histories',
    'C29': 'generated session histories against a phase model, several sessions interleaved',
    'C30': 'generated packetisations and subscriber schedules over loopback against a delivery model',
    'C31': 'model-based histories of whole games that are stored, restored and branched',
    'C32': 'generated games told in FIBS messages and followed by a client, against a model of the game and the board lines in between',
}
NA = {
}
LEVEL_NOTE = ('Random search with a fixed seed (VERIF_SEED) over the stated input space with an explicit oracle: a pass means no '
              'counterexample among the cases counted in the evidence file, not a proof. Trusts the oracle in /verif, the '
              'generators\' reach, CPython and the Jython runtime that executes the code.')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')) and i not in NA:
            checks.append(dict(property=i, quick_cmd='python3-vt checks/run.py %s' % i,
                               thorough_cmd='python3-vt checks/run.py %s --thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=PBT + T[i], level='exploration',
                               level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the checks drive the public interface of the unchanged code in a Jython worker '
                   'process (lib/jy/worker.py) and judge the answers in Python 3 (checks/*.py).')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
