"""
C36: created certificates carry exactly the requested identity and serial number.
"""
import contextlib, io, itertools, os, shutil, sys, tempfile

from mc.core import check, same, op

BASE = None

# long name, short name, default, attribute of the distinguished name
FIELDS = [('country', 'C', 'US', 'countryName'), ('state', 's', 'New York', 'stateOrProvinceName'),
          ('city', 'c', 'New York', 'localityName'), ('organization', 'o', 'Divmod LLC', 'organizationName'),
          ('unit', 'u', 'Security', 'organizationalUnitName'), ('hostname', 'h', 'divmod.com', 'commonName'),
          ('email', 'e', 'support@divmod.org', 'emailAddress')]
SHORT = dict((l, s) for l, s, d, a in FIELDS)
SHORT['serial-number'] = 'S'
SHORT['filename'] = 'f'
DEFAULT = dict((l, d) for l, s, d, a in FIELDS)
DEFAULT['serial-number'] = '1'
DEFAULT['filename'] = 'server.pem'
VALUES = {'country': ['GB', 'us'], 'state': ['Bavaria', 'New York City', ' B', 'C=US', 'new york'], 'city': ['Fulda', 'N', 'N ', 'New  York', '0'], 'organization': ['Example = Co', 'a/b, c', ' Spaces ', 'DIVMOD llc', '100%', 'a\\b"c', 'A+B=C,O=D', '#x;y<z>'],
          'unit': ['Web 2.0', "it's", ' Spaces ', '--quiet', 'x' * 60, 'US'], 'hostname': ['example.net', '*.example.net', 'EXAMPLE.net', 'x', ' example.net', 'example.net.', '192.0.2.1'], 'email': ['me@example.net', 'root', 'Me@Example.NET', 'a+b@c', '@'],
          'serial-number': ['7', '123456789012345678901', '255', '010', '0010', '0100', '256', '65536', '4294967296', '100']}

# requests which cannot be satisfied
IMPOSSIBLE = [('country', 'USA'), ('country', 'U'), ('country', ''), ('organization', ''), ('organization', 'M\xfcller'), ('unit', 'x' * 65),
              ('hostname', 'x' * 65), ('state', 'x' * 129), ('city', ''), ('email', '\u4e2d@example.net'), ('serial-number', 'many'),
              ('serial-number', ''), ('serial-number', '0x10'), ('serial-number', '1.5'), ('filename', 'no/such/dir.pem')]


def read(path):
    """
    What the PEM file at path holds, read with cryptography rather than with
    what wrote it.
    """
    from cryptography import x509
    from cryptography.hazmat.primitives import serialization
    with open(path, 'rb') as f:
        data = f.read()
    same(data.count(b'-----BEGIN CERTIFICATE-----'), 1, 'certificates in the file')
    same(data.count(b'PRIVATE KEY-----'), 2, 'lines about private keys in the file')
    begin = b'-----BEGIN CERTIFICATE-----'
    end = b'-----END CERTIFICATE-----'
    i, j = data.index(begin), data.index(end) + len(end)
    cert = x509.load_pem_x509_certificate(data[i:j] + b'\n')
    key = serialization.load_pem_private_key(data[:i] + data[j:], None)
    pub = [k.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)
           for k in (key.public_key(), cert.public_key())]
    same(pub[0], pub[1], 'key of the certificate')
    cert.verify_directly_issued_by(cert)
    names = []
    for n in (cert.subject, cert.issuer):
        names.append(sorted((a.oid._name, a.value) for a in n))
    return pub[0], names[0], names[1], cert.serial_number


def args(opts, style):
    out = []
    for i, (k, v) in enumerate(sorted(opts.items(), reverse=style == 'short')):
        if style == 'long':
            out += ['--' + k, v]
        elif style == 'equals':
            out += ['--%s=%s' % (k, v)]
        elif style == 'short':
            out += ['-' + SHORT[k], v]
        else:
            out += ['-%s%s' % (SHORT[k], v)] if i % 2 else ['--' + k, v]
    return out


def verify(path, opts, out, quiet, ssc):
    want = sorted((a, opts.get(l, d)) for l, s, d, a in FIELDS)
    pub, subject, issuer, serial = read(path)
    same(subject, want, 'subject')
    same(issuer, want, 'issuer')
    same(serial, int(opts.get('serial-number', 1)), 'serial number')
    if quiet:
        same(out, '', 'output when quiet')
    else:
        for _, v in want:
            check(v in out, 'description lacks a field', v, out)
    if ssc is not None:
        with open(path, 'rb') as f:
            same(f.read(), ssc.dumpPEM(), 'file, against the certificate returned')
    return pub


def history(case):
    """
    A sequence of creations in one directory.  Each one is (options given,
    style, quiet, options which make it fail or None).
    """
    before, steps = case
    from epsilon.scripts import certcreate
    top = tempfile.mkdtemp(prefix='t', dir=BASE)
    cwd, argv = os.getcwd(), sys.argv
    os.chdir(top)
    try:
        have = {}
        for name, data in before.items():
            with open(name, 'wb') as f:
                f.write(data)
            have[name] = data
        keys = set()
        for opts, style, quiet, bad in steps:
            op()
            out, err = io.StringIO(), io.StringIO()
            failed = ssc = None
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    if style == 'function':
                        o = certcreate.Options()
                        o.parseOptions([])
                        for k, v in opts.items():
                            o[k] = v
                        o['quiet'] = quiet
                        ssc = certcreate.createSSLCertificate(o)
                    elif style == 'dict':
                        o = dict(DEFAULT, quiet=quiet)
                        o.update(opts)
                        ssc = certcreate.createSSLCertificate(o)
                    else:
                        a = args(opts, 'long' if style == 'argv' else style)
                        if quiet:
                            a.insert(len(a) if style == 'long' else 0, '-q' if style == 'short' else '--quiet')
                        a += bad or []
                        if style == 'argv':
                            sys.argv = ['certcreate'] + a
                            ssc = certcreate.main()
                        else:
                            ssc = certcreate.main(a)
                except SystemExit as e:
                    failed = e
                except Exception as e:
                    failed = e
            name = opts.get('filename', 'server.pem')
            if bad is not None:
                check(isinstance(failed, SystemExit), 'a bad command line was accepted', bad, failed)
                check(failed.code not in (None, 0), 'a bad command line looks like success', bad, failed.code)
            elif any(o in IMPOSSIBLE for o in opts.items()):
                check(failed is not None, 'an impossible request was accepted', opts)
            else:
                check(failed is None, 'creation failed', opts, style, failed)
                k = verify(name, opts, out.getvalue(), quiet, ssc)
                check(k not in keys, 'two creations share a key')
                keys.add(k)
                with open(name, 'rb') as f:
                    have[name] = f.read()
            now = {}
            for n in os.listdir('.'):
                with open(n, 'rb') as f:
                    now[n] = f.read()
            same(sorted(now), sorted(have), 'files in the directory')
            for n in now:
                check(now[n] == have[n], 'a file changed which should not', n, opts)
        return len(keys), sorted((k, v) for s in steps for k, v in s[0].items())
    finally:
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


NAMES = ['my cert.pem', '~cert.pem', '$HOME.pem', '~', 'a=b', 'caf\xe9.pem', '%s.pem', 'no extension', '$$', '*.pem', 'x.pem.bak', '{0}.pem', "a'b.pem"]
STYLES = ['long', 'equals', 'short', 'mixed', 'function', 'dict', 'argv']


def subsets(q):
    names = [f[0] for f in FIELDS] + ['serial-number']
    out = []
    n = 0
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            for variant in range(1 if q else 2):
                opts = dict((k, VALUES[k][variant]) for k in sub)
                for style in [STYLES[n % len(STYLES)]] if q else STYLES:
                    n += 1
                    quiet = bool((n // len(STYLES)) % 2)
                    o = dict(opts)
                    if n % 3:
                        o['filename'] = NAMES[n // 3 % len(NAMES)]
                    out.append(({}, ((o, style, quiet, None),)))
    # every single value in every style, and quiet or not
    for i, style in enumerate(STYLES):
        for k in names:
            for j, v in enumerate(VALUES[k]):
                if q and (i + j) % len(STYLES):
                    continue        # each value in one of the styles
                out.append(({'server.pem': b'x' * 20000}, (({k: v}, style, style in ('long', 'short', 'dict'), None),)))
    return out


def sequences(q):
    A = {}
    B = {'hostname': 'b.example', 'serial-number': '2', 'organization': 'B'}
    C = {'filename': 'other.pem', 'email': 'c@example.net', 'hostname': 'c.example'}
    bads = [['--nonsense'], ['-Z'], ['--hostname'], ['--nonsense=1'], ['--quiet=1'], ['extra']]
    steps = [(A, 'long', False, None), (B, 'short', True, None), (C, 'argv', True, None), (B, 'dict', False, None),
             (C, 'long', True, ['--nonsense']), ({'country': 'USA'}, 'long', True, None), ({'serial-number': 'many'}, 'long', False, None)]
    out = []
    for s in itertools.product(steps, repeat=2 if q else 3):
        out.append(({}, s))
    for k, v in IMPOSSIBLE:
        for i, style in enumerate(STYLES):
            if k == 'serial-number' and style in ('function', 'dict') and q:
                continue
            out.append(({'server.pem': b'old'} if i % 2 else {}, (({k: v}, style, bool(i % 3), None),) + (((B, style, True, None),) if i < 2 else ())))
    for b in bads:
        for before in ({}, {'server.pem': b'old'}, {'other.pem': b'old' * 10000}):
            for o in (A, B, C):
                out.append((before, ((o, 'long', True, b), (o, 'short', False, None))))
    return out


def run(ctx):
    global BASE
    ctx.assumptions += ['the values are ASCII and acceptable to X.509 except for a list of ones which are not',
                        'the certificate is read back with the cryptography package']
    BASE = tempfile.mkdtemp(prefix='mc-c36-')
    try:
        ctx.sweep('options', subsets(ctx.quick), history, parallel=True)
        ctx.sweep('sequences', sequences(ctx.quick), history, parallel=True)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
