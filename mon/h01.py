"""H01 HTTP header values: parsing, comparison, formatting, negotiation"""

import string
from lib import Family
import pyslet.rfc2616_core as core
import pyslet.rfc2616_params as params
import pyslet.rfc2616_headers as hdr
import pyslet.rfc2616 as http
import pyslet.rfc2396 as uri
import pyslet.iso8601 as iso
from pyslet.rfc2616_core import SyntaxError as HSyntaxError
import java.time as jt
from java.time.format import DateTimeFormatter
from java.util import Locale

PROPERTY = 'H01'
SEPS = '()<>@,;:\\"/[]?={} \t'
TOKCHARS = ''.join(chr(i) for i in range(33, 127) if chr(i) not in SEPS)
RFC1123 = DateTimeFormatter.ofPattern("EEE, dd MMM yyyy HH:mm:ss 'GMT'", Locale.ENGLISH)
RFC850 = DateTimeFormatter.ofPattern("EEEE, dd-MMM-yy HH:mm:ss 'GMT'", Locale.ENGLISH)
ASCTIME = DateTimeFormatter.ofPattern("EEE MMM ppd HH:mm:ss yyyy", Locale.ENGLISH)


def token(r, lo=1, hi=8, chars=TOKCHARS):
    return ''.join(r.choice(chars) for i in range(r.randint(lo, hi)))


def mixcase(r, s):
    k = r.randrange(4)
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    if k == 2:
        return s.lower()
    return ''.join(r.choice([c.lower(), c.upper()]) for c in s)


def sp(r, p=0.3):
    """optional implied linear white space"""
    if r.random() > p:
        return ''
    return r.choice([' ', '  ', '\t', ' \t ', '\r\n ', '\r\n\t'])


def anytext(r, lo=0, hi=8):
    return ''.join(r.choice([chr(r.randrange(256)), r.choice(SEPS), r.choice(TOKCHARS), r.choice('aB1')]) for i in range(r.randint(lo, hi)))


def quoted(r, s):
    """one of the many ways to write s as a quoted string"""
    out = ['"']
    for c in s:
        o = ord(c)
        if c in '"\\' or (o < 32 and c != '\t') or o == 127:
            out.append('\\' + c)
        elif o < 128 and r.random() < 0.1:
            out.append('\\' + c)
        else:
            out.append(c)
    out.append('"')
    return ''.join(out)


def value(r, s):
    """s as a token when it can be, or a quoted string"""
    if s and all(c in TOKCHARS for c in s) and r.random() < 0.6:
        return s
    return quoted(r, s)


# ------------------------------------------------------------- words

def fam_words(m, r):
    """tokenising any sequence of tokens, separators, comments and strings"""
    words, src = [], []
    last_tok = False
    keep = r.random() < 0.4
    spaced = []
    for i in range(r.randint(0, 7)):
        k = r.randrange(4)
        pre = sp(r)
        if k == 0:
            if last_tok and not pre:
                pre = ' '
            w = t = token(r)
        elif k == 1:
            w = t = r.choice([c for c in SEPS if c not in '()"\\ \t'])
        elif k == 2:
            s = anytext(r).replace('\r', '').replace('\n', '')
            t = quoted(r, s)
            w = ('"', s)
        else:
            def com(d):
                out = ['(']
                for j in range(r.randint(0, 3)):
                    q = r.randrange(4)
                    if q == 0 and d:
                        out.append(com(d - 1))
                    elif q == 1:
                        out.append('\\' + r.choice('()\\"a'))
                    else:
                        out.append(token(r) + ' ')
                return ''.join(out) + ')'
            w = t = com(2)
        last_tok = k == 0
        if pre:
            spaced.append(core.SP)
        spaced.append(w)
        src.append(pre + t)
        words.append(w)
    tail = sp(r)
    src = ''.join(src) + tail
    m.key((src, keep))
    wp = core.WordParser(src, not keep)
    want = spaced if keep else words
    got = []
    while wp.cWord is not None:
        w = wp.cWord
        if w[:1] == '"':
            m.check(bool(wp.IsQuotedString()) and not wp.IsToken(), 'word-kind', src)
            got.append(('"', wp.ParseQuotedString()))
        elif w in SEPS and len(w) == 1:
            m.check(not wp.IsToken() and wp.IsSeparator(w) and wp.ParseToken() is None, 'word-kind', src)
            got.append(w)
            wp.RequireSeparator(w)
        elif w[0] == '(':
            m.check(not wp.IsToken() and wp.ParseQuotedString() is None, 'word-kind', src)
            got.append(wp.ParseWord())
        else:
            m.check(bool(wp.IsToken()), 'word-kind', src)
            m.eq(bool(wp.IsInteger()), all(c in '0123456789' for c in w), 'integer-word', w)
            got.append(wp.RequireToken())
    if got and got[-1] == core.SP and keep and tail:
        got.pop()
    m.eq(got, want, 'words', repr(src), keep)
    wp.RequireEnd()
    m.raises(HSyntaxError, 'token-at-end', wp.RequireToken)
    m.count('word_lists')
    # quoting
    s = anytext(r, 0, 10)
    m.eq(core.DecodeQuotedString(core.QuoteString(s)), s, 'quote-roundtrip', repr(s))
    q = core.QuoteString(s, force=False)
    plain = bool(s) and all(c in TOKCHARS for c in s)
    m.eq(q[:1] != '"', plain, 'quote-only-tokens', repr(s), repr(q))
    wp = core.WordParser('a=' + q + ';b')
    wp.RequireToken(), wp.RequireSeparator('=')
    v = wp.ParseToken() if wp.IsToken() else wp.ParseQuotedString()
    m.eq(v, s, 'quoted-value', repr(s), repr(q))
    wp.RequireSeparator(';')
    m.eq(wp.RequireToken(), 'b', 'after-quoted-value', repr(s))
    for t in (s, token(r)):
        ok = bool(t) and all(c in TOKCHARS for c in t)
        try:
            core.CheckToken(t)
            got = True
        except ValueError:
            got = False
        if t:
            m.eq(got, ok, 'check-token', repr(t))
    p = core.HTTPParser(s + 'x')
    n = 0
    while n < len(s) and s[n] in TOKCHARS:
        n += 1
    m.eq(p.ParseToken(), ((s[:n] or None) if n < len(s) else s + 'x'), 'parse-token', repr(s))
    c = chr(r.randrange(256))
    o = ord(c)
    m.eq((core.IsCHAR(c), core.IsOCTET(c), core.IsCTL(c), core.IsDIGIT(c), core.IsALPHA(c), core.IsHEX(c), core.IsSEPARATOR(c), core.IsUPALPHA(c), core.IsLOALPHA(c)),
         (o < 128, True, o < 32 or o == 127, c in string.digits, o < 128 and c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', c in string.hexdigits, c in SEPS, 'A' <= c <= 'Z', 'a' <= c <= 'z'), 'char-class', o)
    m.eq((core.IsDIGITS(s), core.IsHEXDIGITS(s)), (bool(s) and all(x in string.digits for x in s), bool(s) and all(x in string.hexdigits for x in s)), 'char-class-string', repr(s))


def fam_badwords(m, r):
    """anything at all is either tokenised or refused with SyntaxError"""
    k = r.randrange(5)
    if k == 0:
        s = token(r, 0) + '"' + token(r, 0, 4) + r.choice(['', '\\', '\\"', '\x01', '\xe9'])
    elif k == 1:
        s = token(r, 0) + '(' * r.randint(1, 3) + token(r, 0, 4) + r.choice(['', ')', '\\', '\\)', '\x7f']) + ''
        if s.count('(') == s.count(')') - s.count('\\)'):
            s += '('
    elif k == 2:
        s = token(r, 0) + r.choice(['\x00', '\x01', '\x7f', '\r', '\n', '\r\n', '\x80', '\xff', '\rx', '\n ', '\r\nx']) + token(r, 0)
    elif k == 3:
        s = '\\' * r.randint(1, 2) + token(r, 0)
    else:
        s = anytext(r, 1, 12)
    m.key(s)
    bad = k in (0, 1, 2)
    parsers = [core.WordParser, http.Challenge.FromString, params.MediaType.FromString, params.EntityTag.FromString, params.ProductToken.FromString,
               params.LanguageTag.FromString, params.FullDate.FromHTTPString, params.HTTPVersion.FromString, params.TransferEncoding.FromString,
               hdr.AcceptList.FromString, hdr.AcceptTokenList.FromString, hdr.AcceptLanguageList.FromString, hdr.AcceptRanges.FromString, hdr.Allow.FromString,
               hdr.CacheControl.FromString, hdr.ContentRange.FromString, params.ProductToken.ListFromString, params.LanguageTag.ListFromString]
    for f in parsers:
        if bad:
            m.raises(HSyntaxError, 'malformed-words', f, s, ctx=str(f))
        else:
            try:
                f(s)
                m.count('accepted')
            except HSyntaxError:
                m.count('refused')
    m.count('bad_words')


# ------------------------------------------------------------- dates

def fam_dates(m, r):
    y = r.choice([r.randint(1990, 2089), r.randint(1, 9999), r.choice([1970, 1999, 2000, 2024, 2038, 9999])])
    t = jt.LocalDateTime.of(y, 1, 1, 0, 0, 0).plusDays(r.randrange(366 if y < 9999 else 365)).withHour(r.randrange(24)).withMinute(r.randrange(60)).withSecond(r.choice([0, 59, r.randrange(60)]))
    f1, f2, f3 = [t.format(f).encode('ascii') for f in (RFC1123, RFC850, ASCTIME)]
    forms = [f1, f3]
    if 1990 <= t.year <= 2089:
        forms.append(f2)
    src = r.choice(forms)
    lowered = mixcase(r, src)
    padded = sp(r, 0.2) + lowered + sp(r, 0.2)
    m.key(padded)
    d = params.FullDate.FromHTTPString(padded)
    c, yy, mo, dd, h, mi, s = d.GetCalendarTimePoint()
    m.eq((c * 100 + yy, mo, dd, h, mi, int(s)), (t.year, t.monthValue, t.dayOfMonth, t.hour, t.minute, t.second), 'date-value', repr(padded))
    m.eq(d.GetZone(), (0, 0), 'date-zone', repr(padded))
    m.eq(str(d), f1, 'date-format', repr(padded))
    m.eq(unicode(d), unicode(f1), 'date-format-unicode', repr(padded))
    ds = [params.FullDate.FromHTTPString(f) for f in forms]
    m.check(all(x == d and hash(x) == hash(d) for x in ds), 'date-forms-equal', repr(padded))
    d2 = params.FullDate.FromHTTPString(str(d))
    m.check(d2 == d, 'date-roundtrip', repr(padded))
    # order
    t2 = t.plusSeconds(r.choice([1, 60, 3600, 86400, r.randint(1, 10 ** 6)]))
    if t2.year <= 9999:
        e = params.FullDate.FromHTTPString(t2.format(RFC1123).encode('ascii'))
        m.check(d < e and not e < d and d != e, 'date-order', repr(padded))
    # a time in another zone is formatted as the instant it is, in GMT
    if 2 < y < 9990:
        zh, zm, zd = r.randrange(13), r.choice([0, 30, 45]), r.choice([-1, 1])
        z = params.FullDate(date=iso.Date(century=t.year // 100, year=t.year % 100, month=t.monthValue, day=t.dayOfMonth),
                            time=iso.Time(hour=t.hour, minute=t.minute, second=t.second, zDirection=zd, zHour=zh, zMinute=zm))
        u = t.minusMinutes(zd * (zh * 60 + zm))
        m.eq(str(z), u.format(RFC1123).encode('ascii'), 'date-zoned-format', str(t), zd, zh, zm)
    # wrong weekday or impossible fields
    bad = r.randrange(7)
    names = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
    wd = t.dayOfWeek.value - 1
    if bad == 0:
        x = names[(wd + r.randint(1, 6)) % 7] + f1[3:]
    elif bad == 1:
        x = f1[:5] + r.choice(['00', '32', '99']) + f1[7:]
    elif bad == 2:
        x = f1[:17] + r.choice(['25:00:00', '10:60:00', '10:10:61', '10:10', '10:10:', '24:00:01']) + ' GMT'
    elif bad == 3:
        x = f1[:-3] + r.choice(['', 'EST', '+0000', 'UTC'])
    elif bad == 4:
        x = f1[:8] + r.choice(['Foo', 'J', '11']) + f1[11:]
    elif bad == 5:
        x = f1 + ' ' + r.choice(['x', '1', ',', 'GMT'])
    else:
        x = r.choice([f1[5:], f1[:-4], f3[:-5], '', f1.replace(':', '.'), '%s, 31 Feb 2020 10:00:00 GMT' % r.choice(names), '%s, 29 Feb 2019 10:00:00 GMT' % r.choice(names)])
    m.raises(HSyntaxError, 'bad-date', params.FullDate.FromHTTPString, x)
    m.count('dates')


# ------------------------------------------------------------- parameters

def rparams(r, hi=3, avoid=('q',)):
    out = {}
    for i in range(r.choice([0, 0, 1, 1, 2, hi])):
        n = r.choice(['charset', 'level', 'Option', 'a', 'X', token(r)])
        if n.lower() in avoid:
            continue
        out[n.lower()] = [n, r.choice(['1', 'utf-8', token(r), 'two words', '', 'q"x\\', anytext(r).replace('\r', '').replace('\n', '')])]
    return out


def wparams(r, ps, lws=True, eqsp=False):
    items = ps.values()
    r.shuffle(items)
    out = ''
    for n, v in items:
        out += (sp(r) if lws else '') + ';' + (sp(r, 0.5) if lws else '') + mixcase(r, n) + (sp(r) if eqsp else '') + '=' + (sp(r) if eqsp else '') + value(r, v)
    return out


def plain(ps):
    return dict((k, v) for k, (n, v) in ps.items())


def values(obj):
    return dict((k, v) for k, (n, v) in obj.parameters.items())


def agree(m, a, b, same, mech, *ctx):
    """equality, order and hash of two values"""
    m.eq(bool(a == b), same, mech + '-eq', *ctx)
    m.eq(bool(a != b), not same, mech + '-ne', *ctx)
    m.eq(cmp(a, b) == 0, same, mech + '-cmp', *ctx)
    m.eq(cmp(a, b), -cmp(b, a), mech + '-antisymmetric', *ctx)
    if same:
        m.eq(hash(a), hash(b), mech + '-hash', *ctx)
        m.eq(len({a: 1, b: 2}), 1, mech + '-key', *ctx)
    else:
        m.eq(len({a: 1, b: 2}), 2, mech + '-key', *ctx)


def fam_media(m, r):
    t, s = r.choice(['text', 'image', 'application', token(r)]), r.choice(['plain', 'x-foo+xml', 'png', token(r)])
    ps = rparams(r)
    src = [sp(r, 0.2) + mixcase(r, t) + '/' + mixcase(r, s) + wparams(r, ps) + sp(r, 0.2) for i in range(2)]
    m.key(src[0])
    a, b = [params.MediaType.FromString(x) for x in src]
    m.eq((a.type.lower(), a.subtype.lower(), values(a)), (t.lower(), s.lower(), plain(ps)), 'media-value', repr(src[0]))
    agree(m, a, b, True, 'media', repr(src))
    c = params.MediaType.FromString(str(a))
    agree(m, a, c, True, 'media-roundtrip', repr(src[0]), repr(str(a)))
    m.check(any(ord(x) > 127 for x in str(a)) or unicode(a) == unicode(str(a)), 'media-unicode', repr(src[0]))
    m.check(a == src[1] and bool(repr(a)), 'media-text', repr(src[0]))
    # a different one
    t2, s2, ps2 = t, s, dict(ps)
    k = r.randrange(4)
    if k == 0:
        t2 += 'x'
    elif k == 1:
        s2 += 'x'
    elif k == 2:
        ps2['zz'] = ['zz', '1']
    else:
        n = r.choice(sorted(ps2) + ['zz'])
        ps2[n] = [n, ps2.get(n, ['', ''])[1] + 'x']
    d = params.MediaType.FromString(t2 + '/' + s2 + wparams(r, ps2))
    agree(m, a, d, False, 'media-other', repr(src[0]), str(d))
    msg = http.HTTPRequest('http://h/')
    msg.SetContentType(a)
    m.check(msg.GetContentType() == a and params.MediaType.FromString(msg.GetHeader('content-type')) == a, 'content-type-header', repr(src[0]))
    msg.SetContentType(None)
    m.check(msg.GetContentType() is None, 'content-type-header')
    # white space is not allowed around the slash or the equals
    tok = token(r)
    for bad in ['%s /%s' % (t, s), '%s/ %s' % (t, s), t, t + '/', '/' + s, '%s/%s; a =b' % (t, s), '%s/%s;a= b' % (t, s), '%s/%s;a' % (t, s), '%s/%s;' % (t, s), '%s/%s;=b' % (t, s), '%s/%s;a=' % (t, s),
                '%s/%s %s' % (t, s, tok), '%s/%s, x' % (t, s), '']:
        if r.random() < 0.4:
            m.raises(HSyntaxError, 'bad-media', params.MediaType.FromString, bad)
    # transfer codings ignore white space and case
    tk = r.choice(['gzip', 'identity', 'chunked', 'x-%s' % token(r)])
    src = [sp(r, 0.2) + mixcase(r, tk) + (wparams(r, ps, True, True) if tk != 'chunked' else '') + sp(r, 0.2) for i in range(2)]
    a, b = [params.TransferEncoding.FromString(x) for x in src]
    m.eq((a.token, values(a)), (tk.lower(), plain(ps) if tk != 'chunked' else {}), 'transfer-value', repr(src[0]))
    agree(m, a, b, True, 'transfer', repr(src))
    agree(m, a, params.TransferEncoding.FromString(str(a)), True, 'transfer-roundtrip', repr(src[0]), repr(str(a)))
    agree(m, a, params.TransferEncoding.FromString(tk + 'y'), False, 'transfer-other', repr(src[0]))
    m.check(cmp(a, src[1]) == 0, 'transfer-string', repr(src))
    for bad in ['', ';a=b', tk + ';a', tk + ' x', tk + '=x', 'chunked;a=b']:
        if r.random() < 0.4:
            m.raises(HSyntaxError, 'bad-transfer', params.TransferEncoding.FromString, bad)
    m.count('media_types')


# ------------------------------------------------------------- tokens with versions

def explode(v):
    """version as a list of components, each a list of alternating numbers
    and strings, by another route"""
    import re
    out = []
    for part in v.split('.'):
        bits = re.findall('[0-9]+|[^0-9]+', part)
        item = [int(b) if b.isdigit() else b for b in bits]
        if item and not isinstance(item[0], (int, long)):
            item.insert(0, -1)
        out.append(item)
    if v.endswith('.'):
        out.pop()
    return out


def vcmp(a, b):
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return -1
        if i >= len(b):
            return 1
        x, y = a[i], b[i]
        for j in range(max(len(x), len(y))):
            if j >= len(x):
                return 1
            if j >= len(y):
                return -1
            c = cmp(x[j], y[j])
            if c:
                return c
    return 0


def rversion(r):
    return '.'.join(''.join(r.choice(['1', '2', '10', '0', '01', 'a', 'b', 'dev', '-', '3', token(r, 1, 2)]) for j in range(r.randint(1, 3))) for i in range(r.randint(1, 4))) + r.choice(['', '', '', '.'])


def sign(n):
    return (n > 0) - (n < 0)


def fam_tokens(m, r):
    # product tokens
    n = r.choice(['Pyslet', 'a', token(r)])
    v, w = rversion(r), rversion(r)
    if r.random() < 0.4:
        w = v + r.choice(['', 'a', '.0', '.1', '1'])
    src = n + sp(r, 0.2) + '/' + sp(r, 0.2) + v
    m.key((src, w))
    a = params.ProductToken.FromString(sp(r, 0.2) + src + sp(r, 0.2))
    m.eq((a.token, a.version, str(a)), (n, v, n + '/' + v), 'product-value', repr(src))
    b = params.ProductToken.FromString(n + '/' + w)
    ea, eb = explode(v), explode(w)
    want = vcmp(ea, eb)
    m.eq(sign(cmp(a, b)), want, 'product-order', v, w)
    m.eq(sign(cmp(b, a)), -want, 'product-order', w, v)
    m.eq([list(x) for x in params.ProductToken.Explode(v)], ea, 'product-explode', v)
    if want == 0:
        m.check(hash(a) == hash(b) and a == b, 'product-hash', v, w)
    m.check(params.ProductToken.FromString(str(a)) == a and bool(repr(a)) and a == str(a), 'product-roundtrip', v)
    c = params.ProductToken.FromString(n)
    m.check(c.version is None and str(c) == n and c < a and c != a, 'product-no-version', src)
    toks = [r.choice([a, b, c, params.ProductToken(token(r), None)]) for i in range(r.randint(0, 4))]
    lst = params.ProductToken.ListFromString(' '.join(str(x) + sp(r, 0.1) for x in toks))
    m.check(len(lst) == len(toks) and all(x == y for x, y in zip(lst, toks)), 'product-list', map(str, toks), map(str, lst))
    for bad in ['', '/', '/1', n + '/', n + '/1 x', n + ';a', n + '/1/2']:
        if r.random() < 0.4:
            m.raises(HSyntaxError, 'bad-product', params.ProductToken.FromString, bad)
    # protocol versions
    x, y = r.choice([0, 1, 1, 2, r.randrange(1000)]), r.choice([0, 1, 9, 10, r.randrange(1000)])
    src = sp(r, 0.1) + mixcase(r, 'HTTP') + sp(r, 0.1) + '/' + sp(r, 0.1) + '0' * r.randrange(3) + str(x) + '.' + '0' * r.randrange(3) + str(y)
    a = params.HTTPVersion.FromString(src)
    m.eq((a.major, a.minor, str(a)), (x, y, 'HTTP/%d.%d' % (x, y)), 'version-value', repr(src))
    x2, y2 = x + r.choice([-1, 0, 0, 1]), y + r.choice([-1, 0, 0, 1])
    if x2 >= 0 and y2 >= 0:
        b = params.HTTPVersion.FromString('HTTP/%d.%d' % (x2, y2))
        m.eq(sign(cmp(a, b)), cmp((x, y), (x2, y2)), 'version-order', src, x2, y2)
        agree(m, a, b, (x, y) == (x2, y2), 'version', src, x2, y2)
    for bad in ['', 'HTTP', 'HTTP/', 'HTTP/1', 'HTTP/1.', 'HTTP/.1', 'HTTP/1.1.1', 'HTTP/a.b', 'HTPP/1.1', 'HTTP 1.1', 'HTTP/1.1 x', 'HTTP/-1.1', '1.1']:
        if r.random() < 0.3:
            m.raises(HSyntaxError, 'bad-version', params.HTTPVersion.FromString, bad)
    # entity tags
    tag = anytext(r).replace('\r', '').replace('\n', '')
    weak = r.random() < 0.5
    src = sp(r, 0.1) + (r.choice('Ww') + sp(r, 0.1) + '/' + sp(r, 0.1) if weak else '') + quoted(r, tag) + sp(r, 0.1)
    a = params.EntityTag.FromString(src)
    m.eq((a.tag, bool(a.weak)), (tag, weak), 'etag-value', repr(src))
    b = params.EntityTag(tag, weak)
    agree(m, a, b, True, 'etag', repr(src))
    agree(m, a, params.EntityTag.FromString(str(a)), True, 'etag-roundtrip', repr(src))
    agree(m, a, params.EntityTag(tag, not weak), False, 'etag-weak', repr(src))
    agree(m, a, params.EntityTag(tag + 'x', weak), False, 'etag-tag', repr(src))
    m.check(a == str(b) and 'True' in repr(params.EntityTag('x', True)) and 'False' in repr(params.EntityTag('x', False)), 'etag-text', repr(src))
    for bad in ['', 'W/', 'W', 'abc', 'W"x"', 'X/"x"', '"x" y', '"x"/"y"', '/"x"', 'W/W/"x"']:
        if r.random() < 0.3:
            m.raises(HSyntaxError, 'bad-etag', params.EntityTag.FromString, bad)
    # language tags
    subs = [token(r, 1, 8, 'abcdefgXYZ') for i in range(r.randint(1, 4))]
    src = '-'.join(mixcase(r, s) for s in subs)
    a = params.LanguageTag.FromString(sp(r, 0.1) + src + sp(r, 0.1))
    b = params.LanguageTag(*[mixcase(r, s) for s in subs])
    m.eq(str(a), src, 'language-text')
    agree(m, a, b, True, 'language', src)
    agree(m, a, params.LanguageTag(*(subs + ['x'])), False, 'language-other', src)
    m.check(a == src.upper() and params.LanguageTag.FromString(str(a)) == a and bool(repr(a)), 'language-string', src)
    low = tuple(s.lower() for s in subs)
    for k in range(len(low) + 1):
        m.check(bool(a.PartialMatch(low[:k])), 'language-prefix', src, k)
    m.check(not a.PartialMatch(low + ('x',)) and not a.PartialMatch((low[0] + 'x',)) and not a.PartialMatch(low[:-1] + (low[-1] + 'x',)), 'language-prefix', src)
    lst = [params.LanguageTag(*[token(r, 1, 4, 'abcXY') for j in range(r.randint(1, 2))]) for i in range(r.randint(1, 4))]
    got = params.LanguageTag.ListFromString((sp(r) + ',' + sp(r)).join(str(x) for x in lst))
    m.check(len(got) == len(lst) and all(x == y for x, y in zip(got, lst)), 'language-list', map(str, lst))
    m.count('tokens')


# ------------------------------------------------------------- negotiation

def qtext(r, q):
    s = ('%.3f' % q)
    k = r.randrange(3)
    if k:
        s = s.rstrip('0')
        if k == 1:
            s = s.rstrip('.')
    return s or '0'


def rq(r):
    return r.choice([0, 1, 1, 0.5, 0.001, 0.999, 0.25, r.randrange(1001) / 1000.0])


def wq(r, q):
    if q == 1 and r.random() < 0.6:
        return ''
    return sp(r) + ';' + sp(r) + r.choice('qQ') + sp(r, 0.1) + '=' + sp(r, 0.1) + qtext(r, q)


def join(r, items):
    out = items[0]
    for i in items[1:]:
        out += sp(r) + ',' + sp(r, 0.6) + (',' + sp(r) if r.random() < 0.05 else '') + i
    if r.random() < 0.05:
        out = r.choice([',' + out, out + ',', out + ' , '])
    return sp(r, 0.1) + out + sp(r, 0.1)


def fam_accept(m, r):
    types = [('text', 'plain'), ('text', 'html'), ('image', 'png'), ('image', 'gif'), ('application', 'xml')]
    vals = ['1', '2', 'utf-8', 'A b']

    def mp(hi=2):
        return dict((n, r.choice(vals)) for n in r.sample(['level', 'charset', 'x'], r.choice([0, 0, 1, hi])))
    rules = []
    for i in range(r.randint(1, 5)):
        t, s = r.choice(types)
        k = r.random()
        if k < 0.15:
            t, s, p = '*', '*', {}
        elif k < 0.35:
            s, p = '*', {}
        else:
            p = mp()
        rules.append((t, s, p, rq(r), {}))
    texts = []
    for t, s, p, q, x in rules:
        qq = wq(r, q)
        if qq and r.random() < 0.2:
            x['ext'] = r.choice(vals)
            qq += ';' + mixcase(r, 'ext') + '=' + value(r, x['ext'])
        texts.append(mixcase(r, t) + '/' + mixcase(r, s) + wparams(r, dict((n, [n, v]) for n, v in p.items())) + qq)
    src = join(r, texts)
    m.key(src)
    al = hdr.AcceptList.FromString(src)
    m.eq(len(al), len(rules), 'accept-length', repr(src))

    def rank(rule):
        t, s, p, q, x = rule
        return (t == '*', t, s == '*', s, -len(p), sorted(p.items()), -q)
    order = sorted(rules, key=rank)
    got = [(a.range.type, a.range.subtype, values(a.range), a.q, dict((k, v[1]) for k, v in a.params.items())) for a in al]
    m.eq([(g[0], g[1], g[2], '%.3f' % g[3]) for g in got], [(o[0], o[1], o[2], '%.3f' % o[3]) for o in order], 'accept-order', repr(src))
    back = hdr.AcceptList.FromString(str(al))
    m.check(len(back) == len(al) and all(x == y and hash(x) == hash(y) for x, y in zip(al, back)), 'accept-roundtrip', repr(src), str(al))
    m.eq([dict((k, v[1]) for k, v in a.params.items()) for a in back], [dict((k, v[1]) for k, v in a.params.items()) for a in al], 'accept-extensions', repr(src), str(al))
    for a, b in zip(al, list(al)[1:]):
        m.check(a <= b and not b < a, 'accept-sorted', repr(src))
        m.check(cmp(a, b) == -cmp(b, a) and ((a == b) <= (hash(a) == hash(b))), 'accept-compare', str(a), str(b))
        m.check(cmp(a.range, b.range) == -cmp(b.range, a.range) and (a.range == b.range) <= (hash(a.range) == hash(b.range)), 'range-compare', str(a), str(b))
    i = r.randrange(len(al))
    one = hdr.AcceptItem.FromString(str(al[i]))
    m.check(one == al[i] and bool(repr(one)) and hdr.MediaRange.FromString(str(al[i].range)) == al[i].range and bool(repr(al[i].range)), 'accept-item', str(al[i]))
    # negotiation
    cands = []
    for i in range(r.randint(0, 5)):
        t, s = r.choice(types)
        cands.append((t, s, mp()))
    mts = [params.MediaType.FromString(mixcase(r, t) + '/' + mixcase(r, s) + wparams(r, dict((n, [n, v]) for n, v in p.items()))) for t, s, p in cands]

    def quality(c):
        t, s, p = c
        for rt, rs, rp, q, x in order:
            if rt != '*' and rt != t:
                continue
            if rs != '*' and rs != s:
                continue
            if all(p.get(n) == v for n, v in rp.items()):
                return q
        return 0
    qs = [quality(c) for c in cands]
    best = max(qs) if qs else 0
    got = al.SelectType(mts)
    if best == 0:
        m.check(got is None, 'negotiate-unacceptable', repr(src), map(str, mts), str(got))
        m.count('unacceptable')
    else:
        m.check(got is mts[qs.index(best)], 'negotiate-best', repr(src), map(str, mts), qs, str(got))
        m.count('selected')
    for a in al:
        for c, mt in zip(cands, mts):
            t, s, p = c
            rp = values(a.range)
            m.eq(bool(a.range.MatchMediaType(mt)), (a.range.type in ('*', t) and a.range.subtype in ('*', s) and all(p.get(n) == v for n, v in rp.items())), 'range-match', str(a.range), str(mt))
    req = http.HTTPRequest('http://h/')
    req.SetAccept(src if r.random() < 0.5 else al)
    m.eq(str(req.GetAccept()), str(al), 'accept-header', repr(src))
    for bad in ['', 'text', 'text/plain;q', 'text/plain;q=', 'text/plain;q=x', 'text/plain;q=-1', 'text/plain;q=0.5.5', 'text/plain x', 'text/', '/plain', 'text/plain;q=0.5;', 'text/plain, x', ';q=1', ',']:
        if r.random() < 0.3:
            m.raises(HSyntaxError, 'bad-accept', hdr.AcceptList.FromString, bad)
    m.count('accept_lists')


def fam_accept_tokens(m, r):
    kind = r.choice(['charset', 'encoding', 'language', 'token'])
    cls = dict(charset=hdr.AcceptCharsetList, encoding=hdr.AcceptEncodingList, language=hdr.AcceptLanguageList, token=hdr.AcceptTokenList)[kind]
    pool = dict(charset=['iso-8859-1', 'utf-8', 'unicode-1-1', 'iso-8859-5', '*'], encoding=['gzip', 'compress', 'identity', '*', 'deflate'],
                language=['en', 'en-gb', 'en-us', 'da', 'fr', 'en-gb-oxford', '*', 'de-ch', 'eng'], token=['a', 'b', '*', 'c1', 'd'])[kind]
    rules = [(r.choice(pool), rq(r)) for i in range(r.randint(1, 5))]
    src = join(r, [mixcase(r, t) + wq(r, q) for t, q in rules])
    m.key((kind, src))
    al = cls.FromString(src)
    m.eq(len(al), len(rules), 'list-length', kind, repr(src))
    m.check(all(isinstance(a, cls.ItemClass) for a in al), 'list-class', kind)
    if kind == 'language':
        def rank(x):
            rg = () if x[0] == '*' else tuple(x[0].split('-'))
            return (-len(rg), rg, -x[1])
    else:
        def rank(x):
            return (x[0] == '*', x[0], -x[1])
    order = sorted(rules, key=rank)
    m.eq([(a.token.lower(), '%.3f' % a.q) for a in al], [(t, '%.3f' % q) for t, q in order], 'list-order', kind, repr(src))
    back = cls.FromString(str(al))
    m.check(len(back) == len(al) and all(x == y and hash(x) == hash(y) for x, y in zip(al, back)), 'list-roundtrip', kind, repr(src), str(al))
    m.eq([(a.token.lower(), '%.3f' % a.q) for a in back], [(t, '%.3f' % q) for t, q in order], 'list-roundtrip-value', kind, repr(src))
    for a, b in zip(al, list(al)[1:]):
        m.check(a <= b and cmp(a, b) == -cmp(b, a) and ((a == b) <= (hash(a) == hash(b))), 'list-compare', kind, str(a), str(b))
        m.eq(a == b, a.token.lower() == b.token.lower() and a.q == b.q, 'list-equality', kind, str(a), str(b))
    one = cls.ItemClass.FromString(str(al[0]))
    m.check(one == al[0] and al[0] == str(al[0]), 'list-item', kind, str(al[0]))
    cpool = [x for x in pool if x != '*'] + (['en-gb-x', 'da-x', 'it'] if kind == 'language' else ['other'])
    cands = [mixcase(r, r.choice(cpool)) for i in range(r.randint(0, 5))]

    def quality(c):
        c = c.lower()
        for t, q in order:
            if t == '*' or t == c or (kind == 'language' and c.startswith(t + '-')):
                return q
        if kind == 'charset' and c == 'iso-8859-1':
            return 1.0
        if kind == 'encoding' and c == 'identity':
            return 1e-9
        return 0
    qs = [quality(c) for c in cands]
    best = max(qs) if qs else 0
    got = al.SelectToken(cands)
    if best == 0:
        m.check(got is None, 'select-unacceptable', kind, repr(src), cands, got)
        m.count('unacceptable')
    else:
        m.eq(got, cands[qs.index(best)], 'select-best', kind, repr(src), cands, qs)
        m.count('selected')
    if kind == 'language':
        tags = map(params.LanguageTag.FromString, cands)
        got = al.SelectLanguage(tags)
        m.check((got is None) if best == 0 else (got is tags[qs.index(best)]), 'select-language', repr(src), cands)
    req = http.HTTPRequest('http://h/')
    if kind == 'charset':
        req.SetAcceptCharset(r.choice([src, al]))
        m.eq(str(req.GetAcceptCharset()), str(al), 'list-header', kind)
    elif kind == 'encoding':
        req.SetAcceptEncoding(r.choice([src, al]))
        m.eq(str(req.GetAcceptEncoding()), str(al), 'list-header', kind)
    for bad in ['a;', 'a;q', 'a;q=', 'a;q=x', 'a;x=1', 'a b', 'a;q=0.1 b', ';q=1', 'a/b', '"a"', 'a;q=-0.1', 'a;q=.5', 'a;q=1e-1']:
        if r.random() < 0.25:
            m.raises(HSyntaxError, 'bad-list', cls.FromString, bad)
    m.count('token_lists')


# ------------------------------------------------------------- other headers

def fam_headers(m, r):
    k = r.randrange(6)
    if k == 0:
        toks = [token(r) for i in range(r.randint(1, 4))]
        toks = [t for t in toks if t.lower() != 'none'] or ['bytes']
        src = [join(r, [mixcase(r, t) for t in toks])]
        shuf = list(toks)
        r.shuffle(shuf)
        src.append(join(r, [mixcase(r, t) for t in shuf]))
        m.key(src)
        a, b = map(hdr.AcceptRanges.FromString, src)
        m.eq([x.lower() for x in a], [t.lower() for t in toks], 'ranges-value', repr(src[0]))
        m.eq((len(a), a[0].lower()), (len(toks), toks[0].lower()), 'ranges-index')
        agree(m, a, b, True, 'ranges', repr(src))
        agree(m, a, hdr.AcceptRanges(*(toks + ['zzz'])), False, 'ranges-other', repr(src))
        agree(m, a, hdr.AcceptRanges.FromString(str(a)), True, 'ranges-roundtrip', repr(src[0]))
        n = hdr.AcceptRanges.FromString(mixcase(r, 'none'))
        m.check(len(n) == 0 and str(n) == 'none' and n == hdr.AcceptRanges() and hash(n) == hash(hdr.AcceptRanges()) and n != a, 'ranges-none')
        for bad in ['', 'none, bytes', 'bytes;x', '"bytes"', 'bytes=1']:
            m.raises(HSyntaxError, 'bad-ranges', hdr.AcceptRanges.FromString, bad)
        msg = http.HTTPResponse(http.HTTPRequest('http://h/'))
        msg.SetAcceptRanges(r.choice([a, src[0]]))
        m.check(msg.GetAcceptRanges() == a, 'ranges-header', repr(src[0]))
    elif k == 1:
        toks = [r.choice(['GET', 'PUT', 'POST', 'HEAD', token(r)]) for i in range(r.randint(0, 4))]
        src = join(r, [mixcase(r, t) for t in toks]) if toks else ''
        shuf = list(toks)
        r.shuffle(shuf)
        m.key(src)
        a = hdr.Allow.FromString(src)
        m.eq(list(a), [t.upper() for t in toks], 'allow-value', repr(src))
        b = hdr.Allow(*shuf)
        agree(m, a, b, True, 'allow', repr(src))
        agree(m, a, hdr.Allow(*(toks + ['ZZZ'])), False, 'allow-other', repr(src))
        agree(m, a, hdr.Allow.FromString(str(a)), True, 'allow-roundtrip', repr(src))
        for t in ['get', 'DELETE', 'Put'] + toks:
            m.eq(bool(a.Allowed(t)), t.upper() in [x.upper() for x in toks], 'allowed', repr(src), t)
        msg = http.HTTPRequest('http://h/')
        msg.SetAllow(r.choice([a, src]))
        m.check(msg.GetAllow() == a, 'allow-header', repr(src))
        msg.SetAllow(None)
        m.check(msg.GetAllow() is None, 'allow-header')
        for bad in ['"GET"', 'GET;', 'GET/PUT', 'GET=1']:
            m.raises(HSyntaxError, 'bad-allow', hdr.Allow.FromString, bad)
    elif k == 2:
        ds = []
        for i in range(r.randint(1, 4)):
            q = r.randrange(5)
            if q == 0:
                d = (r.choice(['no-store', 'no-transform', 'only-if-cached', 'public', 'must-revalidate', 'max-stale', 'no-cache', 'private']), None)
            elif q == 1:
                d = (r.choice(['max-age', 's-maxage', 'min-fresh', 'max-stale']), r.choice([0, 60, 31536000, r.randrange(10 ** 9)]))
            elif q == 2:
                d = (r.choice(['no-cache', 'private']), tuple(token(r) for j in range(r.randint(1, 3))))
            elif q == 3:
                d = ('x-' + token(r).lower(), token(r))
            else:
                d = ('x-' + token(r).lower(), r.choice(['two words', 'a;b', 'q"uote', 'back\\slash', 'caf\xe9', 'a=b']))
            if d[0] not in [x[0] for x in ds]:
                ds.append(d)
        texts = []
        for n, v in ds:
            if v is None:
                t = mixcase(r, n)
            elif isinstance(v, tuple):
                t = mixcase(r, n) + sp(r, 0.1) + '=' + sp(r, 0.1) + '"' + (sp(r).replace('\r\n', '') + ',' + sp(r).replace('\r\n', '')).join(v) + '"'
            elif isinstance(v, str):
                t = mixcase(r, n) + '=' + value(r, v)
            else:
                t = mixcase(r, n) + sp(r, 0.1) + '=' + sp(r, 0.1) + r.choice(['%d', '0%d', '%d']) % v
            texts.append(t)
        src = join(r, texts)
        m.key(src)
        cc = hdr.CacheControl.FromString(src)

        def norm(v):
            return str(v) if isinstance(v, (int, long, str)) else v
        m.eq(len(cc), len(ds), 'cache-length', repr(src))
        for n, v in ds:
            m.check(mixcase(r, n) in cc, 'cache-contains', repr(src), n)
            g = cc[mixcase(r, n)]
            if isinstance(v, (int, long)):
                m.eq(int(g), v, 'cache-seconds', repr(src), n)
            else:
                m.eq(g, v, 'cache-value', repr(src), n)
        m.check('absent-directive' not in cc, 'cache-contains')
        m.raises(KeyError, 'cache-undefined', cc.__getitem__, 'absent-directive')
        built = hdr.CacheControl(*[n if v is None else (n, v) for n, v in ds])
        m.eq([x if type(x) is str else (x[0], norm(x[1])) for x in built], [n if v is None else (n, norm(v)) for n, v in ds], 'cache-built')
        for x in (cc, built):
            back = hdr.CacheControl.FromString(str(x))
            m.eq([y if type(y) is str else (y[0], norm(y[1])) for y in back], [y if type(y) is str else (y[0], norm(y[1])) for y in x], 'cache-roundtrip', repr(src), str(x))
            m.eq(str(back), str(x), 'cache-roundtrip-text', repr(src))
        msg = http.HTTPRequest('http://h/')
        msg.SetCacheControl(r.choice([cc, src]))
        m.eq(str(msg.GetCacheControl()), str(cc), 'cache-header', repr(src))
        for bad in ['', '=1', 'max-age=', 'a b', 'max-age=1 x', '"a"', 'a;b', ',']:
            if r.random() < 0.4:
                m.raises(HSyntaxError, 'bad-cache', hdr.CacheControl.FromString, bad)
    elif k == 3:
        a = r.choice([0, r.randrange(1000), r.randrange(10 ** 9)])
        b = a + r.choice([0, 1, -1, r.randrange(1000)])
        t = r.choice([None, b + 1, b, b + r.randrange(1000) + 1, 0])
        if b < 0 or (t is not None and t < 0):
            return
        star = r.random() < 0.2
        src = sp(r, 0.1) + mixcase(r, 'bytes') + r.choice([' ', '  ', '\t']) + ('*' if star else '%d-%d' % (a, b)) + sp(r, 0.1) + '/' + sp(r, 0.1) + ('*' if t is None else str(t)) + sp(r, 0.1)
        m.key(src)
        c = hdr.ContentRange.FromString(src)
        m.eq((c.firstByte, c.lastByte, c.totalLength), ((None, None) if star else (a, b)) + (t,), 'range-value', repr(src))
        valid = not star and a <= b and (t is None or b < t)
        m.eq(bool(c.IsValid()), valid, 'range-valid', repr(src))
        if not star and a <= b:
            m.eq(len(c), b - a + 1, 'range-len', repr(src))
        else:
            m.raises(ValueError, 'range-len', len, c)
        d = hdr.ContentRange.FromString(str(c))
        m.eq((d.firstByte, d.lastByte, d.totalLength), (c.firstByte, c.lastByte, c.totalLength), 'range-roundtrip', repr(src))
        msg = http.HTTPRequest('http://h/')
        msg.SetContentRange(c)
        m.eq(str(msg.GetContentRange()), str(c), 'range-header', repr(src))
        for bad in ['', 'bytes', 'bytes 1-2', 'bytes 1/2', 'bytes -1/2', 'bytes 1-/2', 'bytes 1-2-3/4', 'items 1-2/3', 'bytes 1-2/x', 'bytes a-b/3', 'bytes 1-2/3 x', 'bytes */', 'bytes 1 - 2/3', 'bytes=1-2/3', 'bytes 1-2/-3']:
            if r.random() < 0.3:
                m.raises(HSyntaxError, 'bad-range', hdr.ContentRange.FromString, bad)
    elif k == 4:
        # header storage
        msg = r.choice([http.HTTPRequest('http://h/'), http.HTTPResponse(http.HTTPRequest('http://h/'))])
        for h in msg.GetHeaderList():
            msg.SetHeader(h, None)
        model = {}
        log = []
        names = [token(r, 1, 3, 'abAB') for i in range(4)]
        for i in range(r.randint(1, 8)):
            n = r.choice(names)
            q = r.randrange(3)
            v = token(r)
            log.append((n, q, v))
            if q == 0:
                msg.SetHeader(n, v)
                model[n.lower()] = v
            elif q == 1:
                msg.SetHeader(n, v, True)
                model[n.lower()] = model[n.lower()] + ', ' + v if n.lower() in model else v
            else:
                msg.SetHeader(n, None)
                model.pop(n.lower(), None)
            m.eq(msg.GetHeaderList(), sorted(model), 'header-list', log)
            for x in names:
                m.eq((msg.GetHeader(mixcase(r, x)), bool(msg.HasHeader(mixcase(r, x)))), (model.get(x.lower()), x.lower() in model), 'header-value', log)
        m.key(log)
        toks = [token(r) for i in range(r.randint(0, 3))]
        msg.SetConnection(toks)
        m.eq(msg.GetConnection(), set(t.lower() for t in toks), 'connection')
        msg.SetContentEncoding(toks)
        m.eq(msg.GetContentEncoding(), [t.lower() for t in toks], 'content-encoding')
        lt = [params.LanguageTag(*[token(r, 1, 4, 'abcXY') for j in range(r.randint(1, 2))]) for i in range(r.randint(0, 4))]
        msg.SetContentLanguage(lt)
        m.eq(map(str, msg.GetContentLanguage()), map(str, lt), 'content-language')
        n = r.choice([0, 1, r.randrange(10 ** 6)])
        msg.SetContentLength(n)
        m.eq(msg.GetContentLength(), n, 'content-length')
        dig = ''.join(chr(r.randrange(256)) for i in range(16))
        msg.SetContentMD5(dig)
        m.eq(msg.GetContentMD5(), dig, 'content-md5')
        u = uri.URIFactory.URI('http://h/' + token(r, 1, 5, 'abc/'))
        msg.SetContentLocation(u)
        m.eq(str(msg.GetContentLocation()), str(u), 'content-location')
        d = params.FullDate.FromHTTPString('Sun, 06 Nov 1994 08:49:%02d GMT' % r.randrange(60))
        msg.SetDate(d)
        m.check(msg.GetDate() == d, 'date-header')
        if isinstance(msg, http.HTTPResponse):
            msg.SetAge(n)
            m.eq(msg.GetAge(), n, 'age')
            e = params.EntityTag(token(r), r.random() < 0.5)
            msg.SetETag(e)
            m.check(msg.GetETag() == e, 'etag-header')
            msg.SetETag(None)
            msg.SetAge(None)
            m.check(msg.GetAge() is None and msg.GetETag() is None and not msg.GetWWWAuthenticate(), 'absent-headers')
        msg.SetConnection([])
        msg.SetContentEncoding([])
        msg.SetContentLanguage([])
        msg.SetContentLength(None)
        msg.SetContentMD5(None)
        msg.SetContentLocation(None)
        msg.SetDate(None)
        m.eq((msg.GetConnection(), msg.GetContentEncoding(), msg.GetContentLanguage(), msg.GetContentLength(), msg.GetContentMD5(), msg.GetContentLocation(), msg.GetDate()),
             (set(), [], [], None, None, None, None), 'absent-headers')
    else:
        # http URL equivalence, RFC 2616 section 3.2.3
        scheme = r.choice(['http', 'https'])
        dp = dict(http=80, https=443)[scheme]
        host = token(r, 1, 5, 'abcdef') + r.choice(['', '.org', '.example.com'])
        port = r.choice([None, None, dp, '', 8080, 80, 443, r.randint(1, 65535)])
        segs = ''.join('/' + token(r, 0, 4, 'abXY~-_.%').replace('%', r.choice(['%7e', '%7E', '%20', '%41', '%2f', '%2F'])) for i in range(r.randint(0, 3)))
        q = r.choice([None, None, 'x=1', 'X%41', ''])

        def spell(c):
            p = port
            if port in (None, '', dp):
                p = r.choice([None, '', dp, '0%d' % dp])
            s = segs
            if s in ('', '/'):
                # the grammar has no query without a path
                s = r.choice(['', '/']) if q is None else '/'
            s = s.replace('%7E', r.choice(['~', '%7e', '%7E'])).replace('%7e', r.choice(['~', '%7E'])).replace('%41', r.choice(['A', '%41']))
            return mixcase(r, scheme) + '://' + mixcase(r, host) + ('' if p is None else ':%s' % p) + s + ('' if q is None else '?' + q)
        a, b = [uri.URIFactory.URI(spell(0)) for i in range(2)]
        m.key((str(a), str(b)))
        m.check(isinstance(a, dict(http=params.HTTPURL, https=params.HTTPSURL)[scheme]), 'url-class', str(a))
        m.check(a.Match(b) and b.Match(a) and str(a.Canonicalize()) == str(b.Canonicalize()), 'url-equivalent', str(a), str(b), str(a.Canonicalize()), str(b.Canonicalize()))
        m.eq(str(a.Canonicalize().Canonicalize()), str(a.Canonicalize()), 'url-canonical-idempotent', str(a))
        effective = dp if port in (None, '') else int(port)
        other = scheme + '://' + host + ':%d' % (effective + 1) + segs
        m.check(not a.Match(uri.URIFactory.URI(other)), 'url-different-port', str(a), other)
        other = dict(http='https', https='http')[scheme] + '://' + host + segs
        m.check(not a.Match(uri.URIFactory.URI(other)), 'url-different-scheme', str(a), other)
        m.check(not a.Match(uri.URIFactory.URI(scheme + '://' + host + 'x' + segs)), 'url-different-host', str(a))
        m.check(not a.Match(uri.URIFactory.URI(scheme + '://' + host + (':%d' % effective) + segs + 'Z')), 'url-different-path', str(a))
        root = a.GetCanonicalRoot()
        m.eq(str(root), scheme + '://' + host + ('' if effective == dp else ':%d' % effective), 'url-root', str(a))
    m.count('headers_%d' % k)


FAMILIES = [
    Family('words', fam_words, 8000, 100000),
    Family('badwords', fam_badwords, 4000, 50000),
    Family('dates', fam_dates, 5000, 60000),
    Family('media', fam_media, 5000, 60000),
    Family('tokens', fam_tokens, 5000, 60000),
    Family('accept', fam_accept, 5000, 60000),
    Family('accepttokens', fam_accept_tokens, 5000, 60000),
    Family('headers', fam_headers, 8000, 100000),
]
