"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked with TLC; %s'
TRUST = ('Trusts TLC, the harness interpreter and JSON transport; observes the real crate built from /repo. '
         'Exhaustive within the stated bounds for the model and the replayed behaviours, sampled (seeded) beyond them.')
CLAIMED = {
    'C01': ('replays every TLC behaviour of the stream machine on the real crate and validates recorded streams', 'model_checking'),
    'C02': ('renderings of TLC-generated and random streams validated against the formatter machine and its declarative meaning', 'model_checking'),
    'C03': ('renderings over all depths/units/newlines validated against the formatter machine', 'model_checking'),
    'C04': ('compositions in every supported way validated against building in place', 'model_checking'),
    'C05': ('walked imports validated against the specification of linked positions', 'model_checking'),
    'C06': ('all small layouts of rows from TLC and random ones are compiled in the real macros, renderings validated against the layout machine', 'model_checking'),
    'C07': ('all small layouts of rows from TLC, accepted and rejected, in every construct are compiled by the real macros, diagnostics and renderings validated', 'model_checking'),
    'C08': ('all small templates from TLC and random ones are compiled and run, output and log of evaluated expressions validated against the meaning of templates', 'model_checking'),
    'C09': ('literals written for every text from TLC, every boundary code point and random texts are read by a lexer of the ten languages written in TLA+', 'model_checking'),
    'C10': ('all small programs of nested strings and evaluations from TLC and random ones: what the lexer of the target language reads is the meaning of the stream', 'model_checking'),
    'C11': ('every short sequence of quote operations and random nestings replayed, result compared with the formatter machine', 'model_checking'),
    'C12': ('every history of imports from TLC and random files: references are resolved under the rules of Java and C# as specified', 'model_checking'),
    'C13': ('every history of imports from TLC and random files: declarations read from the real preamble compared with what the specification needs, references resolved', 'model_checking'),
    'C14': ('all histories of the same set of imports from TLC replayed, preambles and references compared', 'model_checking'),
    'C15': ('all small graphs of Nix imports from TLC and random ones: declarations read from real files compared with what the specification says is used', 'model_checking'),
    'C16': ('all short bodies from TLC in files of all languages and configurations, compared with the layout machine of the specification', 'model_checking'),
    'C18': ('all short programs with comments from TLC: rendered lines are read as comments by the specification', 'model_checking'),
    'C19': ('the TLA+ specification reads sequences of tokens as the macros must and its reading is validated against what the real macros accept, report and render', 'model_checking'),
    'C20': ('all short streams from TLC and random ones in languages which record their calls, with every call failing once: calls, arguments and output validated against the machine of calls', 'model_checking'),
    'C21': ('all small layouts of rows from TLC and random templates compiled by the macros with the stable compiler, renderings validated against the specification with offsets for positions', 'model_checking'),
    'C17': ('every fault schedule from TLC replayed against real writers, call by call validation', 'model_checking'),
}
REASON = 'The check is under construction.'
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 bin/check.py setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, lvl = CLAIMED[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='python3 bin/check.py %s --thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=TECH % t, level=lvl, level_note=TRUST))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, REASON)))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
