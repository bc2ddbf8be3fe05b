#!/usr/bin/env python3
"""Writes harness/src/alike.txt: texts of one or a few characters that some programs take for each other
(the same after case folding and compatibility normalization). One group per line, a text is code points joined by '+'."""
import unicodedata as u, collections
fold = lambda s: u.normalize('NFKC', u.normalize('NFKC', s).casefold())
g = collections.OrderedDict()
for i in range(0x110000):
    if 0xd800 <= i < 0xe000 or u.category(chr(i)) in ('Cn', 'Co'):
        continue
    c = chr(i)
    if 0xac00 <= i < 0xd7a4 and i % 400:
        continue
    k = fold(c)
    s = g.setdefault(k, [])
    s.append(c)
    for f in ('NFD', 'NFKD', 'NFC', 'NFKC'):
        x = u.normalize(f, c)
        if x not in s and len(x) <= 4:
            s.append(x)
    for x in (c.lower(), c.upper(), c.casefold(), k):
        if x not in s and 1 <= len(x) <= 4:
            s.append(x)
canon = collections.OrderedDict()
for i in range(0x110000):
    c = chr(i)
    if 0xd800 <= i < 0xe000 or 0xac00 <= i < 0xd7a4 or 0xf900 <= i < 0xfb00 or 0x2f800 <= i < 0x2fa20 or u.category(c) in ('Cn', 'Co'):
        continue
    canon.setdefault(u.normalize('NFC', u.normalize('NFC', c).casefold()), []).append(c)
for k, s in reversed(canon.items()):
    s = dict.fromkeys(s + [k, u.normalize('NFD', s[0])])
    if len(s) > 1:
        g['canon' + k] = list(s)
        g.move_to_end('canon' + k, last=False)
LOOK = ["' \u2018 \u2019 \u02bc \u00b4 ` \u2032", '" \u201c \u201d \u00ab \u00bb \u2033', '- \u2010 \u2011 \u2012 \u2013 \u2014 \u2212 \u00ad',
        'a \u0430', 'e \u0435', 'o \u043e \u03bf 0', 'p \u0440', 'c \u0441', 'x \u0445 \u00d7', 'A \u0410 \u0391', 'l 1 I |',
        '. \u3002 \u00b7 \u2024', '/ \u2044 \u2215 \\ \u00a6', '\n \r \r\n \n\r \u0085 \u2028 \u2029 \u000b \u000c', '\t \u0020 \u00a0 \u3000 \u200b \ufeff \u0000',
        '\ufffd ? \u001a', '\u0000 \u2400 \u0030']
for i, l in enumerate(LOOK):
    g['look%d' % i] = [x for x in l.split(' ') if x]
    g.move_to_end('look%d' % i, last=False)
with open(__file__.rsplit('/', 2)[0] + '/harness/src/alike.txt', 'w') as f:
    for s in g.values():
        s = [x for x in dict.fromkeys(s) if x and len(x) <= 4]
        if len(s) > 1:
            f.write(' '.join('+'.join('%x' % ord(c) for c in x) for x in s) + '\n')
