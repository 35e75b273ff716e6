"""Hostile mail, queries and rc files: well-formed structure first, then damage."""
import base64, binascii, bz2, gzip, io, lzma, quopri

TOK = [b"=", b"==", b"=3D", b"=\n", b"= \t\n", b"=\r\n", b"=?", b"?=", b"=?utf-8?q?", b"=?iso-8859-1?b?", b"=?x?", b"<", b">", b"<a@b>", b"\"", b"\\",
       b"\"\\", b"(", b")", b";", b":", b",", b"\n", b"\n\n", b"\r\n", b"\r", b"\t", b"\n ", b"\n\t", b"\0", b"\xff", b"\x80", b"\1\1\1\1\n",
       b"From a@bb.cc Mon Jan  3 10:00:00 2011\n", b"From ", b"\nFrom ", b"--", b"begin 644 x\n", b"end\n", b"`\n", b"Content-Type:", b"boundary=",
       b"filename=", b"name*0*=", b"name*1=", b"*=utf-8''%41%4", b"%", b"%4", b"%zz", b"charset=", b"multipart/mixed", b"message/rfc822", b"text/html",
       b"text/plain", b"base64", b"quoted-printable", b"x-uuencode", b"AAAA", b"A", b"=" * 40, b"a" * 300, b"<b", b"</", b"<!--", b"&#", b"&amp;",
       b"Date: ", b"Message-ID: <", b"References: <x", b"Status: RO\n", b"X-Status: AF\n", b"Subject:", b"To:\n", b"Cc:"]
CT = [b"text/plain", b"text/html", b"multipart/mixed", b"multipart/alternative", b"multipart/signed", b"message/rfc822", b"application/octet-stream",
      b"text/x-foo", b"text", b"/", b"", b"TEXT/PLAIN", b"multipart", b"message/", b"image/png", b"application/pgp"]
CTE = [b"7bit", b"8bit", b"binary", b"base64", b"quoted-printable", b"x-uuencode", b"uuencode", b"x-unknown", b"", b"BASE64", b"Quoted-Printable", b"7-bit", b"q"]


def word(r):
    return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(r.choice([1, 2, 5, 9, 30])))


def text(r, n):
    out = []
    for _ in range(n):
        out.append(word(r) if r.random() < .8 else r.choice(TOK))
        out.append(r.choice([b" ", b" ", b"\n", b"", b"\t"]))
    return b"".join(out)


def uu(r, data, mode=None):
    out = [b"begin 644 %s\n" % word(r)]
    for i in range(0, len(data), 45):
        out.append(binascii.b2a_uu(data[i:i + 45]))
    out.append(b"`\nend\n")
    b = b"".join(out)
    k = r.random()
    if k < .3:
        b = b[:r.randrange(len(b) + 1)]
    elif k < .4:
        b = b.replace(b"\n", b"", 1)
    return b


def encode(r, data, cte):
    c = cte.lower()
    if c == b"base64":
        b = base64.encodebytes(data)
        return b[:r.randrange(len(b) + 1)] if r.random() < .3 else b
    if c == b"quoted-printable":
        b = quopri.encodestring(data)
        if r.random() < .4:
            b += r.choice([b"=", b"=4", b"= ", b"=\t \t", b"=4\n", b"=zz", b"=\n"])
        return b
    if b"uu" in c:
        return uu(r, data)
    return data


def param(r):
    n = r.choice([b"name", b"filename", b"charset", b"boundary", b"x"])
    v = word(r)
    return r.choice([b"%s=%s" % (n, v), b'%s="%s"' % (n, v), b'%s="%s' % (n, v), b"%s*=utf-8'en'%%41%s%%" % (n, v), b"%s*0=%s; %s*1=%s" % (n, v, n, word(r)),
                     b"%s*0*=us-ascii''%s%%20; %s*1*=%s" % (n, v, n, v), b"%s" % n, b"=%s" % v, b"%s= %s" % (n, v), b"%s=%s (comment)" % (n, v),
                     b"%s=\"a\\\"%s\"" % (n, v), b"%s=;" % n, b"%s*10*=%s" % (n, v), b"%s*x=%s" % (n, v), b"%s**=%s" % (n, v), b"%s*99999999999=%s" % (n, v)])


def mime_headers(r, depth):
    ct = r.choice(CT)
    ps = [param(r) for _ in range(r.choice([0, 0, 1, 2, 4]))]
    b = None
    if ct.startswith(b"multipart/") and r.random() < .9:
        b = r.choice([word(r), b"=_" + word(r), b"a b", b"x", b"-", b"--", b"b" * r.choice([1, 10, 70, 300])])
        ps.append(b'boundary="%s"' % b if r.random() < .7 else b"boundary=" + b.replace(b" ", b""))
        if r.random() >= .7:
            b = b.replace(b" ", b"")
    r.shuffle(ps)
    sep = r.choice([b"; ", b";\n\t", b" ;", b";;", b";"])
    h = [b"Content-Type: " + sep.join([ct] + ps)]
    cte = r.choice(CTE) if r.random() < .6 else None
    if cte is not None:
        h.append(b"Content-Transfer-Encoding: " + cte)
    if r.random() < .3:
        h.append(b"Content-Disposition: " + sep.join([r.choice([b"attachment", b"inline", b"", b"x"])] + [param(r) for _ in range(r.choice([0, 1, 2]))]))
    r.shuffle(h)
    return h, ct, b, cte or b""


def entity(r, depth=0):
    """(header lines, body bytes) of a MIME entity."""
    h, ct, b, cte = mime_headers(r, depth)
    if ct.startswith(b"multipart/") and b is not None and depth < 4:
        parts = []
        if r.random() < .3:
            parts.append(text(r, 3))
        for _ in range(r.choice([0, 1, 2, 3])):
            eh, eb = entity(r, depth + 1)
            sep = b"--" + b + r.choice([b"\n", b"\n", b"\n", b"\r\n", b" \n", b""])
            parts.append(sep + (b"\n".join(eh) + b"\n\n" if r.random() < .9 else b"\n") + eb + r.choice([b"\n", b"\n", b""]))
        k = r.random()
        parts.append(b"--" + b + b"--\n" if k < .7 else b"--" + b if k < .8 else b"--" + b + b"--" if k < .9 else b"")
        body = b"".join(parts)
    elif ct == b"message/rfc822":
        body = message(r, depth + 1) if depth < 4 else b""
    else:
        body = text(r, r.choice([0, 1, 5, 40]))
        if ct == b"text/html" and r.random() < .7:
            body = b"<html><body " + word(r) + b"=x>" + body + r.choice([b"</body>", b"<", b"<a href", b"</html>\n", b""])
    return h, encode(r, body, cte)


def addr(r):
    return r.choice([b"%s@%s.org" % (word(r), word(r)), b"%s <%s@x.y>" % (word(r), word(r)), b'"%s" <%s' % (word(r), word(r)), b"=?utf-8?q?%s=20=4?= <x@y>" % word(r),
                     b"=?iso-8859-1?B?%s?= x" % base64.b64encode(word(r)), b"(%s" % word(r), b"", b"undisclosed-recipients:;", b"=?a?b?c?="])


def date(r):
    return r.choice([b"Mon, 3 Jan 2011 10:00:00 +0000", b"3 Jan 2011 10:00:00", b"Mon, 32 Foo 99999999999 99:99:99 +9999", b"3 Jan 11", b"", b"x", b",", b", ", b"Mon,",
                     b"Mon, 3", b"Mon, 3 Jan", b"1 jan -5", b"Thu, 01 Jan 1970 00:00:00 GMT", b"31 Dec 9999", b"99 Dec 2147483648", b"3 Jan 4294967295 00:00",
                     b"-1 Jan 2000", b"0 Jan 0", b"3  Jan   2011", b"Mon, 3\tJan\t2011", b"\xe9\xe9\xe9, \xff 3"])


def message(r, depth=0):
    H = []
    for n, f, p in ((b"From", addr, .9), (b"To", addr, .8), (b"Cc", addr, .5), (b"Subject", lambda r: text(r, r.choice([0, 1, 4, 12])).replace(b"\n", r.choice([b" ", b"\n "])), .9),
                    (b"Date", date, .9), (b"Message-ID", lambda r: r.choice([b"<%s@x>" % word(r), b"<", b"", b">", b"<>", b"<a><b>", word(r)]), .8),
                    (b"In-Reply-To", lambda r: r.choice([b"<%s@x>" % word(r), b"<", b"> <", b"<<a>", b"x <y> z"]), .4),
                    (b"References", lambda r: b" ".join(b"<%s@x>" % word(r) for _ in range(r.choice([0, 1, 5, 60]))), .4),
                    (b"Status", lambda r: r.choice([b"RO", b"O", b"", b"X"]), .2), (b"X-Status", lambda r: r.choice([b"A", b"F", b"AF", b""]), .2),
                    (word(r), lambda r: text(r, 2).replace(b"\n", b""), .3)):
        while r.random() < p:
            v = f(r)
            if r.random() < .1:
                v = v.replace(b" ", b"\n\t")
            H.append(n + r.choice([b": ", b":", b" : ", b":\t", b":\n "]) + v)
            p *= .25
    r.shuffle(H)
    if r.random() < .7:
        eh, body = entity(r, depth)
        H += eh
    else:
        body = text(r, r.choice([0, 1, 10]))
    nl = b"\n"
    m = nl.join(H) + r.choice([b"\n\n", b"\n\n", b"\n\n", b"\n", b""]) + body
    if r.random() < .1:
        m = m.replace(b"\n", b"\r\n")
    return m


def mutate(r, m, n=None):
    m = bytearray(m)
    for _ in range(n if n is not None else r.choice([0, 0, 1, 1, 2, 5])):
        k = r.random()
        i = r.randrange(len(m) + 1)
        if k < .3:
            m[i:i] = r.choice(TOK)
        elif k < .45:
            del m[i:i + r.choice([1, 1, 3, 20, 200])]
        elif k < .6:
            m = m[:i]
        elif k < .75 and m:
            m[min(i, len(m) - 1)] = r.choice([0, 10, 13, 32, 61, 63, 255, r.randrange(256)])
        elif k < .85:
            j = r.randrange(len(m) + 1)
            m[i:i] = m[j:j + r.choice([1, 10, 100])]
        elif k < .95:
            m += r.choice(TOK)
        else:
            m[i:i + 4] = r.choice(TOK)
    return bytes(m)


def hostile_message(r):
    k = r.random()
    if k < .03:
        return b""
    if k < .06:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 10, 500])))
    m = message(r)
    return mutate(r, m)


def hostile_mbox(r, n):
    out = []
    style = r.random()
    for _ in range(n):
        m = hostile_message(r)
        if style < .75:
            sep = r.choice([b"From a@bb.cc Mon Jan  3 10:00:00 2011\n"] * 6 + [b"From - Mon Jan  3 10:00:00 2011\n", b"From x Mon Jan 3 10:00 2011\n", b"From \n", b"From a@bb.cc Mon Jan  3 10:00:00 2011\r\n",
                            b"From  Mon Jan  3 10:00:00 EST 2011\n", b"From a@bb.cc Mon Jan  3 10:00:00 2011", b"From \"a b\"@cc.dd Mon, 3 Jan 2011 10:00:00 PST\n"])
            out.append(sep + m + r.choice([b"\n\n", b"\n", b"\n\n", b""]))
        else:
            out.append(b"\1\1\1\1\n" + m + r.choice([b"\n", b""]) + r.choice([b"\1\1\1\1\n"] * 5 + [b"", b"\1\1\1\1", b"\1\1\1\1\1\n"]))
    return mutate(r, b"".join(out), r.choice([0, 0, 1, 3]))


def compress(r, data, kind, damage=True):
    if kind == "gz":
        o = io.BytesIO()
        with gzip.GzipFile(fileobj=o, mode="wb", mtime=0) as g:
            g.write(data)
        b = o.getvalue()
    elif kind == "bz2":
        b = bz2.compress(data)
    else:
        b = lzma.compress(data)
    if damage and r.random() < .6:
        k = r.random()
        b = bytearray(b)
        if k < .3:
            b = b[:r.randrange(len(b) + 1)]
        elif k < .6 and b:
            for _ in range(r.choice([1, 1, 5])):
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k < .8:
            b += bytes(r.randrange(256) for _ in range(r.choice([1, 20])))
        else:
            b = bytearray(r.choice([b"", b"\x1f\x8b", b"BZh9", b"\xfd7zXZ\0", b"From x\n", data[:50]]))
        b = bytes(b)
    return b


PIECES = list("tcfsbamnpdzFr") + ["/", ",", "~", "^", "=", ":", "-", "+", "=1", "=2", "=3", "=4", "=9", "=31", "=32", "=100", "=99999999999", "=-1", "a", "b", "word", "x" * 31, "x" * 32, "x" * 33,
                                  "x" * 200, "1k", "2M", "99999999999", "-5", "20110103", "jan", "1d-", "3w", "5y", "100000y", "10jan2011-", "31", "2011", "mon", "s", "-s", "r", "-f", "\xe9", " ", ".", "@",
                                  "%", "'", "\"", "<", ">", "[", "]", "*", "?", "\\", "\n", "1234567890123", "0", "00000000", "99991231", "19000101"]


def hostile_query(r):
    k = r.random()
    if k < .25:
        return "d:" + "".join(r.choice(["20110103", "jan", "1d", "3w", "2m", "5y", "10", "31", "2011", "99", "mon", "-", "feb29", "29feb2011", "0", "1", "12", "100000000000y", "13jan", "99999999", "00", " ", "/", "x"])
                              for _ in range(r.choice([1, 2, 3, 5])))
    if k < .4:
        return "z:" + "".join(r.choice(["1", "100", "k", "M", "G", "-", "99999999999999999999", "0", " ", "x", "K", "m"]) for _ in range(r.choice([1, 2, 3, 5])))
    if k < .5:
        return "F:" + "".join(r.choice(["s", "r", "f", "-", "S", "x", "--", "\xff", "/", ","]) for _ in range(r.choice([0, 1, 2, 4])))
    s = "".join(r.choice("tcfsbamnpr") for _ in range(r.choice([0, 1, 1, 2, 5])))
    s = s + ":" if s or r.random() < .1 else s
    return s + "".join(r.choice(PIECES) for _ in range(r.choice([0, 1, 2, 3, 5, 9])))
