"""writes MANIFEST.json from the list of properties"""
import json
NOTE = {
 'C01': 'All messages of a few symbolic bytes, alone and after long concrete histories, for 20+ option sets, plus a job in which the option set itself is symbolic (code width 3-9, reserved codes, header, chunk size). Longer symbolic messages are outside.',
 'C02': 'As C01, for nine parameter sets including the standard one and jobs with symbolic window, threshold and lookahead; histories up to 40000 bytes cross the tree rebuild; distances symbolic over ranges.',
 'C03': 'Symbolic messages of up to 7 bytes, and symbolic tails after concrete histories up to 40000 bytes.',
 'C04': 'Both modules are executed symbolically on the same symbolic input and their outputs compared; bounds as C02/C03.',
 'C05': 'Symbolic header bytes and short symbolic bodies, longer concrete bodies with symbolic tails, both versions.',
 'C06': 'All 12 header bytes symbolic at once, every length 0-16.',
 'C07': 'Every byte string of 2-4 bytes per option set, symbolic bytes at chosen places of longer streams; a hang shows as a path that never ends.',
 'C08': 'Arbitrary bytes before the offset in source and sink; offsets up to 60; the streams stand at different places when the call is made.',
 'C09': 'Lengths and offsets from a table, data symbolic.',
 'C10': 'The limit is symbolic around and away from the data length and over all 64-bit values; so is the length a source reports for the size field.',
 'C11': 'Each of the first calls of the source and sink takes an arbitrary count, interrupts included, for windows of calls at several places.',
 'C12': 'Every single call of source and sink may fail, one at a time, chosen symbolically.',
 'C13': 'The compressor against a straightforward LZW encoder, the expander against a straightforward decoder on arbitrary codes.',
 'C14': 'The expanders against a straightforward LZHUF decoder on arbitrary bits at chosen places.',
 'C15': 'Inputs up to 24 bytes fully symbolic (thorough 100), chaining at every cut up to 30 bytes, bursts up to 8 bytes (thorough 10).',
 'C16': 'Up to 9 arbitrary trailing bytes.',
 'C17': 'Every cut of streams of up to 250 bytes with symbolic data.',
 'C19': 'The executable (main.rs with clap, env_logger and the standard library down to the C file calls) against a model of files and standard input; every method, both directions, symbolic answer lines, symbolic data bytes; counterexamples are replayed with the real executable in a scratch directory.',
 'C20': 'A call, another call that may fail at a symbolic place or on symbolic bytes, and the first call again; all codecs and directions, one other call in between.',
 'C21': 'The tokens of the real output are parsed by the reference decoder, encoded again by the reference coder, and compared with every possible match; parameter sets and histories as C02.',
 'C18': 'The two coders alone: symbolic symbols after concrete histories that cross rebuilds and reach the longest codes.',
}
CMD = 'python3 check.py %s --tier %s'
m = dict(version=1,
 setup_cmd='bash setup.sh',
 checks=[dict(property=k, quick_cmd=CMD % (k, 'quick'), thorough_cmd=CMD % (k, 'thorough'), evidence_file='evidence/%s.json' % k,
   technique='symbolic execution of the LLVM IR of /repo with an SMT solver (symx + Z3)', level='model_checking', level_note=v) for k, v in sorted(NOTE.items())],
 not_applicable=[])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
