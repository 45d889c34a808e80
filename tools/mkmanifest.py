#!/usr/bin/env python3
"""Writes MANIFEST.json.  A property without an entry in NOTES goes under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_TRACE = 'TLA+ specification; TLC checks every recorded execution of the code against it'
T_BOTH = 'TLA+ specification explored by TLC; its behaviours drive the code and TLC checks every recorded execution'
COMMON = (' Trusted: TLC, the CommunityModules, the recording harness. It says nothing about inputs that are not executed.')
NOTES = {
 'C01': (T_BOTH, 'Every control state of the lexer machine (TLC, exhaustive) is reached by a shortest text and extended by every character and every pair of the alphabet and by random texts; the tokens, the incremental run and the lazy iterator are compared with the specification. Texts of 10^5 characters are judged as runs of pieces (Long, proved by LongMC).'),
 'C02': (T_BOTH, 'TLC proves the rounding model on all small significands (RoundMC). Literals around every kind of rounding boundary (midpoints and their neighbours, subnormals, overflow, huge exponents, long literals) are judged with exact integer arithmetic in the specification, not with a float library.'),
 'C03': (T_TRACE, 'All 63488 non-surrogate escapes, surrogates alone and in pairs, and malformed escapes at every place.'),
 'C04': (T_BOTH, 'Token sequences generated by TLC from the grammar machine (every control state, extended by every token and pair of tokens) and random texts; result value or error kind is compared. Families of large module systems are judged in closed form (Large, proved by LargeMC).'),
 'C05': (T_BOTH, 'As C04 for the statement machine, with dialect, sharing (as graph identity of the result) and error kind. Families of large module systems are judged in closed form (Large, proved by LargeMC).'),
 'C06': (T_BOTH, 'Loader model over small file systems; enumerated and random file graphs with cycles, missing files, read faults and reused caches; reads, cache and result graph are compared. Families of large module systems are judged in closed form (Large, proved by LargeMC).'),
 'C07': (T_BOTH, 'The specification has its own strict RFC 8259 reader; the text written by the code is read by it and compared with the value graph. Texts and values of 10^5 parts are judged by count, digest and time limit (Bulk).'),
 'C08': (T_BOTH, 'The specification has its own tokenizer and module parser; the text written by the code is parsed by them and compared with the source graph up to isomorphism; the code reads it back as well. Modules with 10^5 constants or nested values are judged by count and time limit (Bulk).'),
 'C09': (T_BOTH, 'Abstract heap with handles; TLC generates operation sequences (all up to a small depth, then random walks), the code executes them, every observation is compared.'),
 'C10': (T_BOTH, 'As C09 with an accounting memory manager: allocation and release events of every executed operation are replayed on the block model.'),
 'C11': (T_BOTH, 'TLC proves the bit encoding for a small word (all pairs of values). Bit patterns of all classes, all types and conversions, equality matrix, iteration with an error at each item.'),
 'C12': (T_BOTH, 'Operands at digit edges and random ones; the exact result is computed by the specification, which TLC compares with its own integers (OracleMC). Integers of up to 65537 digits whose bits change at few places are judged by Sparse (proved by SparseMC).'),
 'C13': (T_BOTH, 'TLC proves long division (quotient-digit estimate and correction) for all operands over small bases (DivideMC). Operands at digit edges, quotient-digit estimation corner cases and random ones; the result is checked by q*b+r=a and 0<=|r|<|b|. Two listed findings. Integers of up to 65537 digits whose bits change at few places are judged by Sparse (proved by SparseMC).'),
 'C14': (T_BOTH, 'Bitwise operations digit by digit on infinite two\'s complement, shifts by edge counts. Integers of up to 65537 digits whose bits change at few places are judged by Sparse (proved by SparseMC).'),
 'C15': (T_BOTH, 'TLC proves digit-wise operations and long division for all operands over small bases. Operands at digit edges and random ones for all operations of BigUint and BigInt. Integers of up to 65537 digits whose bits change at few places are judged by Sparse (proved by SparseMC).'),
 'C16': (T_BOTH, 'TLC proves the rounding model on all small significands (RoundMC). Significands and exponents around every rounding, subnormal and overflow boundary, with and without remainder.'),
 'C17': (T_BOTH, 'TLC proves the merge rules on all small maps; all small lists of maps, random large ones and the character ranges of the code are merged by the code and compared key by key.'),
 'C18': (T_BOTH, 'TLC proves the laws of subsets for small widths; all subsets of 3 bits placed at several positions and random 64-bit ones are compared.'),
 'C19': (T_BOTH, 'TLC proves on all small paths that the normal form names the same file; all small paths and random ones are compared.'),
 'C20': (T_BOTH, 'Model of one run of the converter; all combinations of arguments, extensions, modules and faults are executed in process with a recording file system and with the real binary; sequences of runs that read what earlier ones wrote.'),
 'C21': (T_BOTH, 'TLC proves the layout rules for all small sizes and alignments. Headers and elements of all alignments and sizes; addresses, layouts, contents and drops are recorded and compared.'),
 'C22': (T_BOTH, 'State machine of a call with a failure at each step; TLC proves that nothing is dropped twice and prints all calls in bounds. Each is a process of its own, built with and without overflow checks; drops, reads and the end of the process are compared.'),
 'C23': (T_BOTH, 'State machine of a counter shared by threads; TLC explores all schedules of all small programs and prints the programs. Each is run by real threads in a thousand rounds (and by one thread that takes turns); every distinct result must be that of some schedule, which TLC searches. Schedules of the machine are sampled, not enumerated.'),
 'C24': (T_BOTH, 'State machine of what is known of the outputs; TLC explores all small histories of runs (input, memory manager, new process or not) and prints them. Each is executed with inputs of a pool, a process for each segment; the hashes of all outputs must form a history of the machine.'),
}
PENDING = {k: 'check under construction' for k in NOTES}
def main():
    import re
    src = open(os.path.join(V, 'check.py')).read()
    claimed = {m.upper() for m in re.findall(r'^def (c\d\d)\(', src, re.M)}
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in claimed:
            t, n = NOTES[p]
            checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
                           'technique': t, 'level': 'model_checking', 'level_note': n + COMMON})
        else:
            na.append({'property': p, 'reason': PENDING[p]})
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the harness crate in harness/ uses the public API of nanvm-lib. Genuine defects: known-findings.txt.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
