REN = [(r'static int check_trailing_bits\(', 'static int real_trailing_bits(')]
def S(name, d, **k): return dict(name=name, harness='seq.c', funcs=['parse_seq_hdr'], defs=['U_SEQ'] + d.split(), sed=REN, solver='cvc5', checks='none', unwind=NOPS + 1, bounded='at most %d operating points' % NOPS, **k)
UNITS = []
NOPS = 4
for st in (0, 1):
    for p, n in enumerate(['result', 'consumed', 'timing', 'tools', 'colour', 'points']):
        UNITS.append(S('%s_%s' % (n, ['lax', 'strict'][st]), 'STRICT=%d PART=%d NOPS=%d' % (st, p, NOPS), noreach=p > 0))
UNITS += [
 dict(name='trailing', harness='obu.c', funcs=['check_trailing_bits'], defs=['U_TRAIL', 'MAXSZ=8'], unwind=65, bounded='8 bytes'),
 dict(name='public', harness='obu.c', funcs=['dav1d_parse_sequence_header'], defs=['U_PUB', 'MAXSZ=6'], sed=[(r'(\bint parse_seq_hdr)(?=\()', r'int real_parse_seq_hdr')], unwind=10, bounded='buffers of at most 6 bytes'),
]
ASSUMPTIONS = [
 'bit readers by their contracts (proved in C01): a bit string indexed by position; get_vlc as one value and length per position',
 'headers with more operating points than the stated bound are not covered by the quick tier',
]
