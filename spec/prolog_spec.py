"""The grammar of the document prolog / DTD as a state table, written down from the XML 1.0
productions (and the documented behaviour of the C library the crate ports).  State names are
this file's own.

STATE: lines `TOKEN[:KEYWORD] -> ROLE NEXT`.  `S` = white space (PROLOG_S).  NEXT `.` = stay;
`top` = the subset the declaration sits in.  A keyword is compared with the token's text after
its leading punctuation (`<!` for DECL_OPEN, `#` for POUND_NAME)."""

OFFSET = {'DECL_OPEN': 2, 'POUND_NAME': 1, 'NAME': 0}

TABLE = '''
start:
 S -> NONE misc
 XML_DECL -> XML_DECL misc
 PI -> PI misc
 COMMENT -> COMMENT misc
 BOM -> NONE .
 DECL_OPEN:DOCTYPE -> DOCTYPE_NONE doctype.name
 INSTANCE_START -> INSTANCE_START error
misc:
 S -> NONE .
 PI -> PI .
 COMMENT -> COMMENT .
 BOM -> ? ?
 DECL_OPEN:DOCTYPE -> DOCTYPE_NONE doctype.name
 INSTANCE_START -> INSTANCE_START error
afterdtd:
 S -> NONE .
 PI -> PI .
 COMMENT -> COMMENT .
 INSTANCE_START -> INSTANCE_START error
doctype.name:
 S -> DOCTYPE_NONE .
 NAME -> DOCTYPE_NAME doctype.id
 PREFIXED_NAME -> DOCTYPE_NAME doctype.id
doctype.id:
 S -> DOCTYPE_NONE .
 OPEN_BRACKET -> DOCTYPE_INTERNAL_SUBSET intsubset
 DECL_CLOSE -> DOCTYPE_CLOSE afterdtd
 NAME:SYSTEM -> DOCTYPE_NONE doctype.sys
 NAME:PUBLIC -> DOCTYPE_NONE doctype.pub
doctype.pub:
 S -> DOCTYPE_NONE .
 LITERAL -> DOCTYPE_PUBLIC_ID doctype.sys
doctype.sys:
 S -> DOCTYPE_NONE .
 LITERAL -> DOCTYPE_SYSTEM_ID doctype.open
doctype.open:
 S -> DOCTYPE_NONE .
 OPEN_BRACKET -> DOCTYPE_INTERNAL_SUBSET intsubset
 DECL_CLOSE -> DOCTYPE_CLOSE afterdtd
doctype.close:
 S -> DOCTYPE_NONE .
 DECL_CLOSE -> DOCTYPE_CLOSE afterdtd
intsubset:
 S -> NONE .
 NONE -> NONE .
 DECL_OPEN:ENTITY -> ENTITY_NONE entity.open
 DECL_OPEN:ATTLIST -> ATTLIST_NONE attlist.elem
 DECL_OPEN:ELEMENT -> ELEMENT_NONE element.name
 DECL_OPEN:NOTATION -> NOTATION_NONE notation.name
 PI -> PI .
 COMMENT -> COMMENT .
 PARAM_ENTITY_REF -> PARAM_ENTITY_REF .
 CLOSE_BRACKET -> DOCTYPE_NONE doctype.close
extstart:
 S -> NONE extsubset
 NONE -> NONE extsubset
 XML_DECL -> TEXT_DECL extsubset
 DECL_OPEN:ENTITY -> ENTITY_NONE entity.open
 DECL_OPEN:ATTLIST -> ATTLIST_NONE attlist.elem
 DECL_OPEN:ELEMENT -> ELEMENT_NONE element.name
 DECL_OPEN:NOTATION -> NOTATION_NONE notation.name
 PI -> PI extsubset
 COMMENT -> COMMENT extsubset
 PARAM_ENTITY_REF -> PARAM_ENTITY_REF extsubset
 COND_SECT_OPEN -> NONE cond.kind
extsubset:
 S -> NONE .
 NONE[depth=0] -> NONE .
 DECL_OPEN:ENTITY -> ENTITY_NONE entity.open
 DECL_OPEN:ATTLIST -> ATTLIST_NONE attlist.elem
 DECL_OPEN:ELEMENT -> ELEMENT_NONE element.name
 DECL_OPEN:NOTATION -> NOTATION_NONE notation.name
 PI -> PI .
 COMMENT -> COMMENT .
 PARAM_ENTITY_REF -> PARAM_ENTITY_REF .
 COND_SECT_OPEN -> NONE cond.kind
 COND_SECT_CLOSE[depth>0] -> NONE . depth-1
cond.kind:
 S -> NONE .
 NAME:INCLUDE -> NONE cond.include
 NAME:IGNORE -> NONE cond.ignore
cond.include:
 S -> NONE .
 OPEN_BRACKET -> NONE extsubset depth+1
cond.ignore:
 S -> NONE .
 OPEN_BRACKET -> IGNORE_SECT extsubset
entity.open:
 S -> ENTITY_NONE .
 PERCENT -> ENTITY_NONE entity.pname
 NAME -> GENERAL_ENTITY_NAME entity.gdef
entity.pname:
 S -> ENTITY_NONE .
 NAME -> PARAM_ENTITY_NAME entity.pdef
entity.gdef:
 S -> ENTITY_NONE .
 NAME:SYSTEM -> ENTITY_NONE entity.gsys
 NAME:PUBLIC -> ENTITY_NONE entity.gpub
 LITERAL -> ENTITY_VALUE close.ENTITY_NONE
entity.gpub:
 S -> ENTITY_NONE .
 LITERAL -> ENTITY_PUBLIC_ID entity.gsys
entity.gsys:
 S -> ENTITY_NONE .
 LITERAL -> ENTITY_SYSTEM_ID entity.gend
entity.gend:
 S -> ENTITY_NONE .
 DECL_CLOSE -> ENTITY_COMPLETE top
 NAME:NDATA -> ENTITY_NONE entity.ndata
entity.ndata:
 S -> ENTITY_NONE .
 NAME -> ENTITY_NOTATION_NAME close.ENTITY_NONE
entity.pdef:
 S -> ENTITY_NONE .
 NAME:SYSTEM -> ENTITY_NONE entity.psys
 NAME:PUBLIC -> ENTITY_NONE entity.ppub
 LITERAL -> ENTITY_VALUE close.ENTITY_NONE
entity.ppub:
 S -> ENTITY_NONE .
 LITERAL -> ENTITY_PUBLIC_ID entity.psys
entity.psys:
 S -> ENTITY_NONE .
 LITERAL -> ENTITY_SYSTEM_ID entity.pend
entity.pend:
 S -> ENTITY_NONE .
 DECL_CLOSE -> ENTITY_COMPLETE top
notation.name:
 S -> NOTATION_NONE .
 NAME -> NOTATION_NAME notation.id
notation.id:
 S -> NOTATION_NONE .
 NAME:SYSTEM -> NOTATION_NONE notation.sys
 NAME:PUBLIC -> NOTATION_NONE notation.pub
notation.pub:
 S -> NOTATION_NONE .
 LITERAL -> NOTATION_PUBLIC_ID notation.pubsys
notation.sys:
 S -> NOTATION_NONE .
 LITERAL -> NOTATION_SYSTEM_ID close.NOTATION_NONE
notation.pubsys:
 S -> NOTATION_NONE .
 LITERAL -> NOTATION_SYSTEM_ID close.NOTATION_NONE
 DECL_CLOSE -> NOTATION_NO_SYSTEM_ID top
attlist.elem:
 S -> ATTLIST_NONE .
 NAME -> ATTLIST_ELEMENT_NAME attlist.attr
 PREFIXED_NAME -> ATTLIST_ELEMENT_NAME attlist.attr
attlist.attr:
 S -> ATTLIST_NONE .
 DECL_CLOSE -> ATTLIST_NONE top
 NAME -> ATTRIBUTE_NAME attlist.type
 PREFIXED_NAME -> ATTRIBUTE_NAME attlist.type
attlist.type:
 S -> ATTLIST_NONE .
 NAME:CDATA -> ATTRIBUTE_TYPE_CDATA attlist.default
 NAME:ID -> ATTRIBUTE_TYPE_ID attlist.default
 NAME:IDREF -> ATTRIBUTE_TYPE_IDREF attlist.default
 NAME:IDREFS -> ATTRIBUTE_TYPE_IDREFS attlist.default
 NAME:ENTITY -> ATTRIBUTE_TYPE_ENTITY attlist.default
 NAME:ENTITIES -> ATTRIBUTE_TYPE_ENTITIES attlist.default
 NAME:NMTOKEN -> ATTRIBUTE_TYPE_NMTOKEN attlist.default
 NAME:NMTOKENS -> ATTRIBUTE_TYPE_NMTOKENS attlist.default
 NAME:NOTATION -> ATTLIST_NONE attlist.notation
 OPEN_PAREN -> ATTLIST_NONE attlist.enum
attlist.enum:
 S -> ATTLIST_NONE .
 NMTOKEN -> ATTRIBUTE_ENUM_VALUE attlist.enumsep
 NAME -> ATTRIBUTE_ENUM_VALUE attlist.enumsep
 PREFIXED_NAME -> ATTRIBUTE_ENUM_VALUE attlist.enumsep
attlist.enumsep:
 S -> ATTLIST_NONE .
 CLOSE_PAREN -> ATTLIST_NONE attlist.default
 OR -> ATTLIST_NONE attlist.enum
attlist.notation:
 S -> ATTLIST_NONE .
 OPEN_PAREN -> ATTLIST_NONE attlist.notname
attlist.notname:
 S -> ATTLIST_NONE .
 NAME -> ATTRIBUTE_NOTATION_VALUE attlist.notsep
attlist.notsep:
 S -> ATTLIST_NONE .
 CLOSE_PAREN -> ATTLIST_NONE attlist.default
 OR -> ATTLIST_NONE attlist.notname
attlist.default:
 S -> ATTLIST_NONE .
 POUND_NAME:IMPLIED -> IMPLIED_ATTRIBUTE_VALUE attlist.attr
 POUND_NAME:REQUIRED -> REQUIRED_ATTRIBUTE_VALUE attlist.attr
 POUND_NAME:FIXED -> ATTLIST_NONE attlist.fixed
 LITERAL -> DEFAULT_ATTRIBUTE_VALUE attlist.attr
attlist.fixed:
 S -> ATTLIST_NONE .
 LITERAL -> FIXED_ATTRIBUTE_VALUE attlist.attr
element.name:
 S -> ELEMENT_NONE .
 NAME -> ELEMENT_NAME element.model
 PREFIXED_NAME -> ELEMENT_NAME element.model
element.model:
 S -> ELEMENT_NONE .
 NAME:EMPTY -> CONTENT_EMPTY close.ELEMENT_NONE
 NAME:ANY -> CONTENT_ANY close.ELEMENT_NONE
 OPEN_PAREN -> GROUP_OPEN element.first level=1
element.first:
 S -> ELEMENT_NONE .
 POUND_NAME:PCDATA -> CONTENT_PCDATA element.mixed
 OPEN_PAREN -> GROUP_OPEN element.item level+1
 NAME -> CONTENT_ELEMENT element.sep
 PREFIXED_NAME -> CONTENT_ELEMENT element.sep
 NAME_QUESTION -> CONTENT_ELEMENT_OPT element.sep
 NAME_ASTERISK -> CONTENT_ELEMENT_REP element.sep
 NAME_PLUS -> CONTENT_ELEMENT_PLUS element.sep
element.item:
 S -> ELEMENT_NONE .
 OPEN_PAREN -> GROUP_OPEN element.item level+1
 NAME -> CONTENT_ELEMENT element.sep
 PREFIXED_NAME -> CONTENT_ELEMENT element.sep
 NAME_QUESTION -> CONTENT_ELEMENT_OPT element.sep
 NAME_ASTERISK -> CONTENT_ELEMENT_REP element.sep
 NAME_PLUS -> CONTENT_ELEMENT_PLUS element.sep
element.sep:
 S -> ELEMENT_NONE .
 COMMA -> GROUP_SEQUENCE element.item
 OR -> GROUP_CHOICE element.item
 CLOSE_PAREN[level>1] -> GROUP_CLOSE . level-1
 CLOSE_PAREN_QUESTION[level>1] -> GROUP_CLOSE_OPT . level-1
 CLOSE_PAREN_ASTERISK[level>1] -> GROUP_CLOSE_REP . level-1
 CLOSE_PAREN_PLUS[level>1] -> GROUP_CLOSE_PLUS . level-1
 CLOSE_PAREN[level=1] -> GROUP_CLOSE close.ELEMENT_NONE
 CLOSE_PAREN_QUESTION[level=1] -> GROUP_CLOSE_OPT close.ELEMENT_NONE
 CLOSE_PAREN_ASTERISK[level=1] -> GROUP_CLOSE_REP close.ELEMENT_NONE
 CLOSE_PAREN_PLUS[level=1] -> GROUP_CLOSE_PLUS close.ELEMENT_NONE
element.mixed:
 S -> ELEMENT_NONE .
 CLOSE_PAREN -> GROUP_CLOSE close.ELEMENT_NONE
 CLOSE_PAREN_ASTERISK -> GROUP_CLOSE_REP close.ELEMENT_NONE
 OR -> ELEMENT_NONE element.mixname
element.mixname:
 S -> ELEMENT_NONE .
 NAME -> CONTENT_ELEMENT element.mixsep
 PREFIXED_NAME -> CONTENT_ELEMENT element.mixsep
element.mixsep:
 S -> ELEMENT_NONE .
 CLOSE_PAREN_ASTERISK -> GROUP_CLOSE_REP close.ELEMENT_NONE
 OR -> ELEMENT_NONE element.mixname
close.ENTITY_NONE:
 S -> ENTITY_NONE .
 DECL_CLOSE -> ENTITY_NONE top
close.NOTATION_NONE:
 S -> NOTATION_NONE .
 DECL_CLOSE -> NOTATION_NONE top
close.ELEMENT_NONE:
 S -> ELEMENT_NONE .
 DECL_CLOSE -> ELEMENT_NONE top
'''


def load():
    import re
    T = {}
    cur = None
    for l in TABLE.splitlines():
        if not l.strip(): continue
        if not l.startswith(' '):
            cur = l.strip()[:-1]; T[cur] = {}; continue
        m = re.match(r' (\w+)(?::(\w+))?(?:\[(\w+)([=>])(\d)\])? -> (\S+) (\S+)(?: (\w+)([-+=])(\d))?$', l)
        tok, kw, cv, co, cn, role, nxt, uv, uo, un = m.groups()
        tok = 'PROLOG_S' if tok == 'S' else tok
        T[cur].setdefault((tok, kw), []).append(((cv, co, int(cn)) if cv else None, role, nxt, (uv, uo, int(un)) if uv else None))
    return T


def expect(T, state, tok, kw):
    """state = (name, doc, level, depth) -> (role, next state) or None when unspecified"""
    name, doc, level, depth = state
    if name == 'error': return ('NONE', state)
    v = {'level': level, 'depth': depth}
    for cond, role, nxt, upd in T[name].get((tok, kw), []):
        if cond:
            x = v[cond[0]]
            if not (x == cond[2] if cond[1] == '=' else x > cond[2]): continue
        if role == '?': return None
        if nxt == '.': nxt = name
        if nxt == 'top': nxt = 'intsubset' if doc else 'extsubset'
        if upd:
            v[upd[0]] = upd[2] if upd[1] == '=' else v[upd[0]] + (upd[2] if upd[1] == '+' else -upd[2])
        return (role, (nxt, doc, v['level'] if nxt.startswith('element.') else 0, v['depth']))
    # anything else: inside a declaration of the external subset a parameter entity may be
    # referenced anywhere; everything else is an error
    if not doc and tok == 'PARAM_ENTITY_REF':
        return ('INNER_PARAM_ENTITY_REF', state)
    return ('ERROR', ('error', doc, 0, depth))
