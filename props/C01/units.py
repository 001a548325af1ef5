F = lambda name, d, fn, **k: dict(name=name, harness='getbits.c', mode='dfcc', enforce=fn, flags=['--object-bits','8'], funcs=[fn], defs=[d], **k)
UNITS = [
 F('get_bits', 'U_BITS', 'dav1d_get_bits', unwind=26),
 F('get_sbits', 'U_SBITS', 'dav1d_get_sbits', unwind=26),
 F('get_bit', 'U_BIT', 'dav1d_get_bit', unwind=26),
 dict(name='init', harness='getbits.c', funcs=['dav1d_init_get_bits'], defs=['U_INIT']),
 F('uleb128', 'U_ULEB', 'dav1d_get_uleb128', unwind=26),
 F('uniform', 'U_UNIFORM', 'dav1d_get_uniform', unwind=34),
 F('vlc', 'U_VLC', 'dav1d_get_vlc', unwind=34),
 *[dict(name='subexp%d' % n, harness='getbits.c', mode='dfcc', enforce='dav1d_get_bits_subexp', replace=['dav1d_get_bits', 'dav1d_get_bit'], funcs=['dav1d_get_bits_subexp'], defs=['U_SUBEXP', 'NSUB=%d' % n], unwind=26, flags=['--object-bits','8']) for n in (8, 9, 12)],
]
ASSUMPTIONS = [
 'fewer than 2^31-4096 bits are requested after the end of the buffer (bits_left does not wrap)',
 'buffers are at most 2^31-1 bytes; ns(n) with n < 2^31; subexp with n in {8,9,12}, the values the only caller uses',
]
