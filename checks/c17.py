import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vf import Part
import ref, gen, image

PROPERTY = 'C17'


def xml_of(e):
    """(name, attributes, pieces) of a dumped tree as XML must show it."""
    return (e[1], {k: str(v) for k, v in e[2]}, [xml_of(c) if isinstance(c, list) else c.strip() for c in e[3]])


def parsed(x):
    kids = [x.text.strip()] if x.text and x.text.strip() else []
    for c in x:
        kids.append(parsed(c))
        if c.tail and c.tail.strip():
            kids.append(c.tail.strip())
    return (x.tag, dict(x.attrib), kids)


def read(ctx, text):
    try:
        text.encode('ascii')
        return ET.fromstring(text)
    except (ET.ParseError, UnicodeError) as e:
        ctx.fail('the XML form is not well formed: %s\n%s' % (e, text[:2000]))


def check(ctx, s, dump, xml):
    try:
        got, player = image.seen(dump)
    except (ValueError, KeyError, TypeError, IndexError) as e:
        ctx.fail('tree out of shape: %r' % e)
    want = image.shown(s)
    for p in sorted(set(got) | set(want), key=repr):
        ctx.eq(got.get(p, []), want.get(p, []), 'shown at %s' % ' '.join(map(str, p)))
    ctx.eq(player, image.actor(s), 'player marked on the action')
    for w in image.NAME:
        ctx.eq(sum(t[2] for v in got.values() for t in v if t[:2] == ('chequer', w)), 15, 'chequers of ' + w)
    x = read(ctx, xml)
    ctx.eq(parsed(x), xml_of(dump), 'XML form')


def tree(ctx, case):
    s, editor = case
    dump, xml, text = ctx.ok('ops_image', 'tree', s, editor)
    ctx.label(image.kind_of(s))
    check(ctx, s, dump, xml)
    ctx.eq(parsed(read(ctx, text)), xml_of(dump), 'text form')
    # mirrored, the picture is mirrored
    m = ref.flip_state(s)
    d2, x2, _ = ctx.ok('ops_image', 'tree', m, editor)
    check(ctx, m, d2, x2)


printable = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=8)
marks = st.text(st.sampled_from('&&<>"\' ;a'), min_size=4, max_size=16)
value = st.one_of(st.tuples(st.sampled_from(('color', 'text', 'image', 'background')), marks),
                  st.tuples(st.sampled_from(('image', 'background', 'color', 'font', 'text')), printable),
                  st.tuples(st.sampled_from(('color', 'text', 'image')), st.sampled_from(('<', '&', '"', '>', "'", 'a"b', '&amp;', ']]>', '<!--', 'a&b', '</board>'))),
                  st.tuples(st.sampled_from(('x', 'y', 'width', 'x_offset', 'max_count')), st.integers(-9999, 9999)),
                  st.tuples(st.sampled_from(('flip', 'fill', 'hide_count')), st.booleans()))


def decorated(ctx, case):
    s, settings = case
    r = ctx.ok('ops_image', 'decorated', s, [(i, k, v) for i, (k, v) in settings])
    dump, xml = r
    if any(isinstance(v, str) and set(v) & set('<&"') for _, (k, v) in settings):
        ctx.label('markup characters')
    elif not settings:
        ctx.trivial()
    try:
        ctx.eq(image.seen(dump)[0], image.shown(s), 'shown')
    except (ValueError, KeyError, TypeError, IndexError) as e:
        ctx.fail('tree out of shape: %r' % e)
    ctx.eq(parsed(read(ctx, xml)), xml_of(dump), 'XML form')


START = dict(ref.DEFAULT)
PARTS = [
    Part('tree', st.tuples(image.states(), st.booleans()), tree, 2500, 60000,
         examples=[(dict(START, game_state=g), e) for g in (0, 1) for e in (False, True)], rule='every case shows a board'),
    Part('styled', st.tuples(image.states(), st.lists(st.tuples(st.integers(0, 60), value), max_size=6)), decorated, 1200, 30000,
         rule='at least one attribute is set'),
]
