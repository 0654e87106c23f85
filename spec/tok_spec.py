"""Lexical grammar of XML 1.0 as the six scanning modes of expat 2.2.9 tokenise it.

A mode is a machine over characters: step(state, c) -> state or decision, eof(state) -> decision
(input ends before the next character), part(state, c) -> decision (input ends inside c).
Decision: D(token, back, after, need): next position = start of the current character - back
characters (after=True: behind the current character); need: the decision is only taken once this many
code units from the current character on are present, otherwise PARTIAL.  Position None: unspecified."""
from collections import namedtuple

D = namedtuple('D', 'tok pos after need')


def dec(tok, back=0, after=False, need=0): return D(tok, back, after, need)
INV = dec('INVALID')
PART = D('PARTIAL', None, False, 0)
PCHAR = D('PARTIAL_CHAR', None, False, 0)


def after(tok): return dec(tok, 0, True)
def here(tok): return dec(tok)

# ---- character classes.  Atoms: 0..127, or (kind, class) with kind n (one unit, not ASCII), L2 L3 L4 (lead of n units);
# class s (name start), c (name, not start), p (plain), x (invalid); or 'malform', 'trail', 'nonxml'
KLEN = {'L2': 2, 'L3': 3, 'L4': 4}
ASCII_BT = {}
for c in range(128): ASCII_BT[c] = 'NONXML' if c < 32 else 'OTHER'
for c, b in [('\t', 'S'), (' ', 'S'), ('\n', 'LF'), ('\r', 'CR'), ('!', 'EXCL'), ('"', 'QUOT'), ('#', 'NUM'), ('%', 'PERCNT'), ('&', 'AMP'), ("'", 'APOS'), ('(', 'LPAR'),
             (')', 'RPAR'), ('*', 'AST'), ('+', 'PLUS'), (',', 'COMMA'), ('-', 'MINUS'), ('.', 'NAME'), ('/', 'SOL'), (':', 'COLON'), (';', 'SEMI'), ('<', 'LT'), ('=', 'EQUALS'),
             ('>', 'GT'), ('?', 'QUEST'), ('[', 'LSQB'), (']', 'RSQB'), ('_', 'NMSTRT'), ('|', 'VERBAR')]: ASCII_BT[ord(c)] = b
for c in range(26):
    for o in (65, 97): ASCII_BT[o + c] = 'HEX' if c < 6 else 'NMSTRT'
for c in range(48, 58): ASCII_BT[c] = 'DIGIT'


def alphabet(unit, ns):
    A = list(range(128)) + [('n', k) for k in 'scp'] + ['malform', 'trail', 'nonxml']
    if unit == 1: A += [(l, k) for l in ('L2', 'L3', 'L4') for k in 'scpx']
    else: A += [('L4', k) for k in 'p']
    return A


class Lex:
    def __init__(s, unit, ns, mode):
        s.unit = unit; s.ns = ns; s.mode = mode
        s.cache = {}
        s.start = getattr(s, 'i_' + mode)

    # classes
    def bt(s, a):
        if isinstance(a, int):
            b = ASCII_BT[a]
            return 'NMSTRT' if b == 'COLON' and not s.ns else b
        if isinstance(a, tuple): return 'NONASCII' if a[0] == 'n' else 'LEAD' + a[0][1]
        return a.upper()

    def size(s, a):
        """bytes"""
        if isinstance(a, tuple) and a[0] != 'n': return KLEN[a[0]]
        return s.unit

    def cls(s, a):
        """character class used by the grammar"""
        if isinstance(a, tuple): return {'s': 'S1', 'c': 'NC', 'p': 'OTHER', 'x': 'BAD'}[a[1]]
        if isinstance(a, str): return 'BAD'
        b = s.bt(a)
        if b == 'NONXML': return 'BAD'
        if b in ('NMSTRT', 'HEX'): return 'S1'
        if b in ('DIGIT', 'NAME', 'MINUS'): return 'NC'
        if b in ('S', 'LF', 'CR'): return 'WS'
        if b == 'COLON': return ':'
        return chr(a)

    # machine
    def step(s, q, a):
        k = (q, a)
        r = s.cache.get(k)
        if r is None:
            r = s.cache[k] = s.go(q, a)
        return r

    def go(s, q, a):
        return getattr(s, 's_' + q[0])(q, a, s.cls(a))

    def eof(s, q):
        f = getattr(s, 'e_' + q[0], None)
        return f(q) if f else PART

    def part(s, q, a):
        f = getattr(s, 'p_' + q[0], None)
        if f: return f(q, a)
        r = s.step(q, a)
        # a character that is refused whatever it is; otherwise wait for the rest of it
        if isinstance(r, D) and q[0] in s.nopart: return r
        return PCHAR
    nopart = {'decl0', 'decl', 'declpc', 'lt!', 'hex0', 'hex', 'ref#', 'refd', 'com-', 'com2', 'sol', 'pie', 'endw', 'attw', 'atteq', 'ave'}

    # ---------- initial states: the first character of a token
    i_content = ('C',); i_prolog = ('P',); i_cdata = ('X',); i_attval = ('A',); i_entval = ('E',); i_ignore = ('G', 0)
    def e_C(s, q): return dec('NONE', None)
    e_P = e_X = e_A = e_E = e_C

    # ---------- content
    def s_C(s, q, a, c):
        if c == '<': return ('lt', 'C')
        if c == '&': return ('ref',)
        if a == 13: return ('ccr', 'TRAILING_CR')
        if a == 10: return after('DATA_NEWLINE')
        if c == ']': return ('crb', 1)
        if c == 'BAD': return INV
        return ('cd', 0)
    def s_ccr(s, q, a, c): return after('DATA_NEWLINE') if a == 10 else here('DATA_NEWLINE')
    def e_ccr(s, q): return D(q[1], None, False, 0)
    def p_ccr(s, q, a): return here('DATA_NEWLINE')
    def s_crb(s, q, a, c):
        if c == ']': return ('crb', 2) if q[1] == 1 else ('cd', 2)
        if c == '>' and q[1] == 2: return INV
        return s.s_cd(('cd', 0), a, c)
    def e_crb(s, q): return D('TRAILING_RSQB', None, False, 0)
    def p_crb(s, q, a): return here('DATA_CHARS')
    def s_cd(s, q, a, c):
        if c == ']': return ('cd', min(2, q[1] + 1))
        if c == '>' and q[1] == 2: return INV
        if c in ('&', '<', 'BAD') or a in (10, 13): return here('DATA_CHARS')
        return ('cd', 0)
    def e_cd(s, q): return dec('DATA_CHARS', q[1])
    def p_cd(s, q, a): return here('DATA_CHARS')

    # ---------- CDATA section
    def s_X(s, q, a, c):
        if c == ']': return ('xrb', 1)
        if a == 13: return ('ccr', 'PARTIAL')
        if a == 10: return after('DATA_NEWLINE')
        if c == 'BAD': return INV
        return ('xd',)
    def s_xrb(s, q, a, c):
        if q[1] == 1:
            if c == ']': return ('xrb', 2)
            return s.s_xd(('xd',), a, c)
        if c == '>': return after('CDATA_SECT_CLOSE')
        return dec('DATA_CHARS', 1)
    def p_xrb(s, q, a): return here('DATA_CHARS') if q[1] == 1 else dec('DATA_CHARS', 1)
    def s_xd(s, q, a, c):
        if c in (']', 'BAD') or a in (10, 13): return here('DATA_CHARS')
        return ('xd',)
    def e_xd(s, q): return here('DATA_CHARS')
    p_xd = p_cd

    # ---------- markup
    def name1(s, q, a, c, nxt):
        """a name start character leads to nxt, anything else None"""
        return nxt if c == 'S1' else None
    def s_lt(s, q, a, c):
        if c == 'S1': return ('tag', 0)
        if c == '!': return ('lt!',)
        if c == '?': return ('pi0',)
        if c == '/': return ('end0',)
        return INV
    def p_lt(s, q, a): return PCHAR
    _lt = {'lt!': 's_ltx'}
    def s_ltx(s, q, a, c):
        if a == 45: return ('com-',)
        if c == '[': return ('cdo', 0)
        return INV
    def s_cdo(s, q, a, c):
        i = q[1]
        if isinstance(a, int) and a == ord('CDATA['[i]):
            return ('cdo', i + 1) if i < 5 else after('CDATA_SECT_OPEN')
        return dec('INVALID', 0, False, 6 - i)
    def p_cdo(s, q, a): return dec('INVALID', 0, False, 6 - q[1])
    def s_com_(s, q, a, c): return ('com',) if a == 45 else INV
    def s_com(s, q, a, c):
        if c == 'BAD': return INV
        return ('com1',) if a == 45 else ('com',)
    def s_com1(s, q, a, c): return ('com2',) if a == 45 else s.s_com(q, a, c)
    def s_com2(s, q, a, c): return after('COMMENT') if c == '>' else INV

    # declarations
    def s_decl0(s, q, a, c):
        if a == 45: return ('com-',)
        if c == '[': return after('COND_SECT_OPEN')
        return ('decl',) if s.bt(a) in ('NMSTRT', 'HEX') else INV
    def s_decl(s, q, a, c):
        if c == 'WS': return here('DECL_OPEN')
        if c == '%': return ('declpc',)
        return ('decl',) if s.bt(a) in ('NMSTRT', 'HEX') else INV
    def s_declpc(s, q, a, c): return dec('INVALID', 1) if c in ('WS', '%') else dec('DECL_OPEN', 1)

    # processing instructions: k = how much of "xml" the target is so far (None: not), up = an upper case letter in it
    def s_pi0(s, q, a, c):
        if c != 'S1': return INV
        return ('pi',) + s.xml(0, False, a)
    def xml(s, k, up, a):
        if k is not None and k < 3 and isinstance(a, int) and chr(a).lower() == 'xml'[k]: return (k + 1, up or chr(a).isupper())
        return (None, False)
    def s_pi(s, q, a, c):
        k, up = q[1], q[2]
        if c in ('S1', 'NC'): return ('pi',) + s.xml(k, up, a)
        if c in ('WS', '?'):
            if k == 3 and up: return INV
            t = 'XML_DECL' if k == 3 else 'PI'
            return ('pib', t) if c == 'WS' else ('pie', t)
        return INV
    def s_pie(s, q, a, c): return after(q[1]) if c == '>' else INV
    def s_pib(s, q, a, c):
        if c == 'BAD': return INV
        return ('pib?', q[1]) if c == '?' else ('pib', q[1])
    def s_pibq(s, q, a, c): return after(q[1]) if c == '>' else s.s_pib(q, a, c)

    # end tags
    def s_end0(s, q, a, c): return ('end',) if c == 'S1' else INV
    def s_end(s, q, a, c):
        if c in ('S1', 'NC', ':'): return ('end',)
        if c == 'WS': return ('endw',)
        return after('END_TAG') if c == '>' else INV
    def s_endw(s, q, a, c): return ('endw',) if c == 'WS' else after('END_TAG') if c == '>' else INV

    # references
    def s_ref(s, q, a, c): return ('refn',) if c == 'S1' else ('ref#',) if c == '#' else INV
    def s_refn(s, q, a, c): return ('refn',) if c in ('S1', 'NC') else after('ENTITY_REF') if c == ';' else INV
    def s_refh(s, q, a, c): return ('hex0',) if a == ord('x') else ('refd',) if s.bt(a) == 'DIGIT' else INV
    def s_refd(s, q, a, c): return ('refd',) if s.bt(a) == 'DIGIT' else after('CHAR_REF') if c == ';' else INV
    def s_hex0(s, q, a, c): return ('hex',) if s.bt(a) in ('DIGIT', 'HEX') else INV
    def s_hex(s, q, a, c): return ('hex',) if s.bt(a) in ('DIGIT', 'HEX') else after('CHAR_REF') if c == ';' else INV

    # start tags.  col: 0 no colon yet, 1 seen
    def s_tag(s, q, a, c):
        if c in ('S1', 'NC'): return q
        if c == ':': return INV if q[1] else ('tagc',)
        if c == 'WS': return ('tagw',)
        return after('START_TAG_NO_ATTS') if c == '>' else ('sol', 'EMPTY_ELEMENT_NO_ATTS') if c == '/' else INV
    def s_tagc(s, q, a, c): return ('tag', 1) if c == 'S1' else INV
    def s_tagw(s, q, a, c):
        if c == 'S1': return ('att', 0)
        if c == 'WS': return q
        return after('START_TAG_NO_ATTS') if c == '>' else ('sol', 'EMPTY_ELEMENT_NO_ATTS') if c == '/' else INV
    def s_sol(s, q, a, c): return after(q[1]) if c == '>' else INV
    def s_att(s, q, a, c):
        if c in ('S1', 'NC'): return q
        if c == ':': return INV if q[1] else ('attc',)
        return ('attw',) if c == 'WS' else ('atteq',) if c == '=' else INV
    def s_attc(s, q, a, c): return ('att', 1) if c == 'S1' else INV
    def s_attw(s, q, a, c): return q if c == 'WS' else ('atteq',) if c == '=' else INV
    def s_atteq(s, q, a, c): return q if c == 'WS' else ('av', c) if c in '"\'' else INV
    def s_av(s, q, a, c):
        if c == q[1]: return ('ave',)
        if c in ('<', 'BAD'): return INV
        return ('avr', q[1], 'ref') if c == '&' else q
    def s_avr(s, q, a, c):
        r = s.go((q[2],), a)
        if isinstance(r, D): return r if r.tok == 'INVALID' else ('av', q[1])
        return ('avr', q[1], r[0])
    def p_avr(s, q, a): return s.part((q[2],), a)
    def s_ave(s, q, a, c):
        return ('avew',) if c == 'WS' else after('START_TAG_WITH_ATTS') if c == '>' else ('sol', 'EMPTY_ELEMENT_WITH_ATTS') if c == '/' else INV
    def s_avew(s, q, a, c): return ('att', 0) if c == 'S1' else s.s_ave(q, a, c)

    # ---------- prolog, DTD
    SIMPLE = {',': 'COMMA', '[': 'OPEN_BRACKET', '(': 'OPEN_PAREN', '|': 'OR', '>': 'DECL_CLOSE'}
    def s_P(s, q, a, c):
        if c in ('"', "'"): return ('lit', c)
        if c == '<': return ('plt',)
        if a == 13: return ('pcr',)
        if c == 'WS': return ('pws',)
        if c == '%': return ('pct',)
        if c in s.SIMPLE: return after(s.SIMPLE[c])
        if c == ']': return ('prb',)
        if c == ')': return ('prp',)
        if c == '#': return ('pnd0',)
        if c == 'S1': return ('nm', 'NAME')
        if c in ('NC', ':'): return ('nm', 'NMTOKEN')
        return INV
    def s_plt(s, q, a, c):
        if c == '!': return ('decl0',)
        if c == '?': return ('pi0',)
        if s.bt(a) in ('NMSTRT', 'HEX', 'NONASCII', 'LEAD2', 'LEAD3', 'LEAD4'): return dec('INSTANCE_START', 1)
        return INV
    def p_plt(s, q, a): return dec('INSTANCE_START', 1)
    # white space: a carriage return at the very end is not taken (it may be half of a line end)
    def e_pcr(s, q): return here('PROLOG_S_NEG')
    def s_pcr(s, q, a, c): return s.s_pws(q, a, c)
    def p_pcr(s, q, a): return here('PROLOG_S')
    def s_pws(s, q, a, c):
        if a == 13: return ('pwcr',)
        return ('pws',) if c == 'WS' else here('PROLOG_S')
    def e_pws(s, q): return here('PROLOG_S')
    def p_pws(s, q, a): return here('PROLOG_S')
    def e_pwcr(s, q): return dec('PROLOG_S', 1)
    def s_pwcr(s, q, a, c): return s.s_pws(q, a, c)
    p_pwcr = p_pws
    def s_pct(s, q, a, c):
        if c == 'S1': return ('per',)
        return here('PERCENT') if c in ('WS', '%') else INV
    def s_per(s, q, a, c): return q if c in ('S1', 'NC') else after('PARAM_ENTITY_REF') if c == ';' else INV
    def e_prb(s, q): return D('CLOSE_BRACKET_NEG', None, False, 0)
    def s_prb(s, q, a, c): return ('prb2',) if c == ']' else here('CLOSE_BRACKET')
    def p_prb(s, q, a): return here('CLOSE_BRACKET')
    def s_prb2(s, q, a, c): return after('COND_SECT_CLOSE') if c == '>' else dec('CLOSE_BRACKET', 1)
    def p_prb2(s, q, a): return dec('CLOSE_BRACKET', 1)
    def e_prp(s, q): return D('CLOSE_PAREN_NEG', None, False, 0)
    def s_prp(s, q, a, c):
        t = {'*': 'ASTERISK', '?': 'QUESTION', '+': 'PLUS'}.get(c)
        if t: return after('CLOSE_PAREN_' + t)
        return here('CLOSE_PAREN') if c in ('WS', '>', ',', '|', ')') else INV
    def p_prp(s, q, a): return INV
    def s_pnd0(s, q, a, c): return ('pnd',) if c == 'S1' else INV
    def s_pnd(s, q, a, c): return q if c in ('S1', 'NC') else here('POUND_NAME') if c in ('WS', ')', '>', '%', '|') else INV
    def e_pnd(s, q): return D('POUND_NAME_NEG', None, False, 0)
    def s_lit(s, q, a, c):
        if c == 'BAD': return INV
        return ('lite',) if c == q[1] else q
    def s_lite(s, q, a, c): return here('LITERAL') if c in ('WS', '>', '%', '[') else INV
    def e_lite(s, q): return D('LITERAL_NEG', None, False, 0)
    def p_lite(s, q, a): return INV
    def s_nm(s, q, a, c):
        t = q[1]
        if c in ('S1', 'NC'): return q
        if c in ('>', ')', ',', '|', '[', '%', 'WS'): return here(t)
        if c == ':': return ('nmc',) if t == 'NAME' else ('nm', 'NMTOKEN')
        n = {'+': 'PLUS', '*': 'ASTERISK', '?': 'QUESTION'}.get(c)
        if n: return INV if t == 'NMTOKEN' else after('NAME_' + n)
        return INV
    def e_nm(s, q): return D(q[1] + '_NEG', None, False, 0)
    def s_nmc(s, q, a, c):
        if c in ('S1', 'NC'): return ('nm', 'PREFIXED_NAME')
        return s.go(('nm', 'NMTOKEN'), a)

    # ---------- attribute and entity values (already known to be complete characters)
    def s_A(s, q, a, c):
        if c == '&': return ('ref',)
        if c == '<': return INV
        if a == 10: return after('DATA_NEWLINE')
        if a == 13: return ('ccr', 'TRAILING_CR')
        if c == 'WS': return after('ATTRIBUTE_VALUE_S')
        return ('ad',)
    def s_ad(s, q, a, c):
        if c == '<': return INV
        return here('DATA_CHARS') if c in ('&', 'WS') else q
    def e_ad(s, q): return here('DATA_CHARS')
    def s_E(s, q, a, c):
        if c == '&': return ('ref',)
        if c == '%': return ('epct',)
        if a == 10: return after('DATA_NEWLINE')
        if a == 13: return ('ccr', 'TRAILING_CR')
        return ('ed',)
    def s_ed(s, q, a, c): return here('DATA_CHARS') if c in ('&', '%') or a in (10, 13) else q
    e_ed = e_ad
    def s_epct(s, q, a, c): return ('per',) if c == 'S1' else INV

    # ---------- ignored sections
    LEVELS = 3
    def s_G(s, q, a, c):
        l = q[1]
        if c == 'BAD': return INV
        return ('Glt', l) if c == '<' else ('Grb', l) if c == ']' else q
    def s_Glt(s, q, a, c): return ('Gex', q[1]) if c == '!' else s.s_G(('G', q[1]), a, c)
    def s_Gex(s, q, a, c):
        if c == '[': return ('G', q[1] + 1) if q[1] < s.LEVELS else None     # deeper nesting: not explored
        return s.s_G(('G', q[1]), a, c)
    def s_Grb(s, q, a, c): return ('Grb2', q[1]) if c == ']' else s.s_G(('G', q[1]), a, c)
    def s_Grb2(s, q, a, c):
        if c == '>': return ('G', q[1] - 1) if q[1] else after('IGNORE_SECT')
        if c == ']': return q
        return s.s_G(('G', q[1]), a, c)


for n, m in {'lt!': 'ltx', 'com-': 'com_', 'pib?': 'pibq', 'ref#': 'refh'}.items(): setattr(Lex, 's_' + n, getattr(Lex, 's_' + m))
