"""What HTTP says the payload of a message means: the reference that the
payload pipeline of httpolice is compared with (see checks/c19.py)."""
import codecs
import email
import email.errors
import json
import xml.etree.ElementTree
import zlib
from urllib.parse import parse_qs

import brotli
import defusedxml
import defusedxml.ElementTree


class Unavailable:

    def __init__(self, inner=None):
        self.inner = inner


def okay(x):
    return x is not None and not isinstance(x, Unavailable)


def undo(coding, data):
    if coding == 'gzip':
        return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
    if coding == 'deflate':
        return zlib.decompress(data)
    return brotli.decompress(data)


def decoded(body, codings, say):
    """Content codings are undone in the reverse order of application; there
    is nothing to undo on an empty body."""
    r = body
    for coding in reversed(codings):
        if not okay(r) or not r:
            break
        if coding in ('gzip', 'deflate', 'br'):
            try:
                r = undo(coding, r)
            except Exception:
                say(1037, coding)
                r = Unavailable()
        else:
            if coding != '!':
                say(1036, coding)
            r = Unavailable()
    return r


def charset_of(data, declared):
    try:
        codec = codecs.lookup(declared)
    except (LookupError, UnicodeError):
        return None
    name = codec.name
    if okay(data):
        try:
            data.decode(name)
        except (LookupError, UnicodeError):
            return None
    return name


def text_of(data, charset):
    if not okay(data):
        return data
    if charset is None:
        return Unavailable()
    return data.decode(charset)


def json_of(text, charset, say):
    if not okay(text):
        return None
    try:
        r = json.loads(text)
    except (ValueError, RecursionError):
        say(1038, None)
        return Unavailable()
    if charset not in ('ascii', 'utf-8', None):
        say(1281, None)
    return r


def xml_of(data, say):
    if not okay(data):
        return None
    try:
        return defusedxml.ElementTree.fromstring(data)
    except defusedxml.EntitiesForbidden:
        say(1275, None)
    except (xml.etree.ElementTree.ParseError, LookupError, ValueError):
        say(1039, None)
    return Unavailable()


def multipart_of(data, content_type, say):
    if not okay(data):
        return None
    whole = b'Content-Type: ' + content_type + b'\r\n\r\n' + data
    try:
        parsed = email.message_from_bytes(whole)
    except (ValueError, LookupError, RecursionError):
        return Unavailable()
    for d in parsed.defects:
        if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
            say(1139, None)
        elif isinstance(d, email.errors.StartBoundaryNotFoundDefect):
            say(1140, None)
    if parsed.is_multipart():
        return parsed
    return Unavailable()


def form_of(data, wrong, say):
    if not okay(data):
        return None
    if wrong:
        say(1040, None)
        return Unavailable()
    return parse_qs(data.decode('ascii'))


def meaning(body, codings, charset, kind, full, content_type, wrong, say):
    """(decoded_body, guessed_charset, unicode_body, json, xml, multipart,
    form fields)"""
    data = decoded(body, codings, say)
    cs = charset_of(data, charset)
    text = text_of(data, cs)
    js = xm = mp = form = None
    if full and kind == 'json':
        js = json_of(text, cs, say)
    if full and kind == 'xml':
        xm = xml_of(data, say)
    if full and kind == 'multipart':
        mp = multipart_of(data, content_type, say)
    if full and kind == 'form':
        form = form_of(data, wrong, say)
    return (data, cs, text, js, xm, mp, form)
