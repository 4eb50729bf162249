"""Runs the Python programs of the repository for a harness: one process, many
runs.  Request: 'n' then n strings, each as 'length' and the bytes: the script
(path below the repository), the working directory and the arguments.  Reply:
the exit status, 'length' and stdout, 'length' and stderr.

No network: `requests` is a stand-in that serves files from the directory
`remote` of the working directory, by the last part of the URL."""
import io, os, signal, sys, traceback, types
sys.dont_write_bytecode = True
REPO = os.environ['VERIF_REPO']
IN, OUT = sys.stdin.buffer, sys.stdout.buffer
LIMIT = 10.0  # seconds of CPU for one run


class Endless(BaseException):
    pass


def expired(*_):
    raise Endless('no end after %g s of CPU' % LIMIT)


signal.signal(signal.SIGPROF, expired)
fetched = 0


class Response:
    def __init__(self, path):
        self.ok = os.path.isfile(path)
        self.status_code = 200 if self.ok else 404
        self.content = open(path, 'rb').read() if self.ok else b'<html>404 Not Found</html>\n'
        if os.path.isfile(path + '.status'):  # the server answers with an error
            self.status_code = int(open(path + '.status').read())
            self.ok = self.status_code < 400
        self.text = self.content.decode('utf8', 'replace')
        self.headers = {'Content-Length': str(len(self.content))}

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError(str(self.status_code))

    def iter_content(self, chunk_size=1):
        for i in range(0, len(self.content), chunk_size):
            yield self.content[i:i + chunk_size]


class RequestException(IOError):
    pass


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass


def get(url, **_):
    global fetched
    fetched += 1
    if fetched > 300:
        raise Endless('no end after 300 downloads')
    if os.path.exists(os.path.join(os.getcwd(), 'remote', 'unreachable')):
        raise ConnectionError(url)
    return Response(os.path.join(os.getcwd(), 'remote', os.path.basename(url)))


req = types.ModuleType('requests')
req.get = get
auth = types.ModuleType('requests.auth')
auth.HTTPBasicAuth = lambda *a: None
req.auth = auth
req.exceptions = types.ModuleType('requests.exceptions')
for c in (RequestException, HTTPError, ConnectionError):
    setattr(req, c.__name__, c)
    setattr(req.exceptions, c.__name__, c)
sys.modules['requests.exceptions'] = req.exceptions
sys.modules['requests'], sys.modules['requests.auth'] = req, auth
sys.path.insert(0, os.path.join(REPO, 'script', 'pydoris'))
code = {}


def script(rel):
    if rel not in code:
        p = os.path.join(REPO, rel)
        with open(p, encoding='utf8') as f:
            code[rel] = compile(f.read(), p, 'exec')
    return code[rel]


# files the program left open are written at its end
def done(mod):
    for f in mod.values():
        if isinstance(f, io.IOBase) and f not in (sys.stdout, sys.stderr):
            f.close()


def run(rel, cwd, args):
    global fetched
    fetched = 0
    os.chdir(cwd)
    out, err = io.StringIO(), io.StringIO()
    so, se, av = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr, sys.argv = out, err, [os.path.join(REPO, rel)] + args
    rc = 0
    try:
        signal.setitimer(signal.ITIMER_PROF, LIMIT)
        mod = {'__name__': '__main__', '__file__': os.path.join(REPO, rel), '__builtins__': __builtins__}
        exec(script(rel), mod)
        done(mod)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Endless as e:
        rc = 124
        err.write(str(e))
    except Exception:
        rc = 1
        traceback.print_exc(file=err)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr, sys.argv = so, se, av
    return rc, out.getvalue()[:1 << 20], err.getvalue()[-4000:]


# the same, of a function of a script: returns the repr of what it returns
def call(rel, cwd, fun, args):
    os.chdir(cwd)
    out, err = io.StringIO(), io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    rc, val = 0, ''
    try:
        signal.setitimer(signal.ITIMER_PROF, LIMIT)
        mod = {'__name__': 'module', '__file__': os.path.join(REPO, rel)}
        exec(script(rel), mod)
        if fun not in mod:
            rc = 77
        else:
            val = repr(mod[fun](*eval(args, {'datetime': __import__('datetime')})))
    except Endless as e:
        rc = 124
        err.write(str(e))
    except (Exception, SystemExit):
        rc = 1
        traceback.print_exc(file=err)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr = so, se
    return rc, val, err.getvalue()[-4000:]


while True:
    l = IN.readline()
    if not l:
        break
    a = []
    for _ in range(int(l)):
        n = int(IN.readline())
        a.append(IN.read(n).decode('utf8', 'surrogateescape'))
    r = call(a[1], a[2], a[3], a[4]) if a[0] == 'call' else run(a[1], a[2], a[3:])
    OUT.write(b'%d\n' % r[0])
    for s in r[1:]:
        b = s.encode('utf8', 'surrogateescape')
        OUT.write(b'%d\n' % len(b) + b)
    OUT.flush()
