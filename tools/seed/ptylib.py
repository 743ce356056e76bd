import os, pty, sys, time, select, struct, fcntl, termios
D = os.environ['DEMO_DIR']
class Host:
    """Liso on a pseudo-terminal"""
    def __init__(s, *hist, cols=80, term='xterm'):
        s.out = os.path.join(D, 'responses'); open(s.out, 'w').close()
        s.pid, s.fd = pty.fork()
        if s.pid == 0:
            os.environ['TERM'] = term
            fcntl.ioctl(0, termios.TIOCSWINSZ, struct.pack('HHHH', 24, cols, 0, 0))
            os.execv(os.environ['DEMO'], [os.environ['DEMO'], s.out] + list(hist))
        fcntl.ioctl(s.fd, termios.TIOCSWINSZ, struct.pack('HHHH', 24, cols, 0, 0))
        s.seen = b''
        s.until(lambda: b'READY>' in s.seen, 20)
        s.pump(0.2)
    def pump(s, t):
        end = time.time() + t
        while True:
            r = select.select([s.fd], [], [], max(0, min(0.02, end - time.time())))[0]
            if r:
                try: s.seen += os.read(s.fd, 65536)
                except OSError: pass
            if time.time() >= end: return
    def until(s, f, t):
        end = time.time() + t
        while not f() and time.time() < end: s.pump(0.02)
        return f()
    def key(s, k): os.write(s.fd, k if isinstance(k, bytes) else k.encode()); s.pump(0.15)
    def keys(s, *ks):
        for k in ks: s.key(k)
    def got(s): return [l for l in open(s.out, encoding='utf-8').read().split('\n') if l]
    def wait(s, n, t=5): s.until(lambda: len(s.got()) >= n, t); return s.got()
    def screen(s, cols, rows=24):
        """what the terminal shows: rows of (character, attributes), and the cursor"""
        import unicodedata
        B = (' ', ()); g = [[B] * cols for _ in range(rows)]; x = y = 0; at = {}
        t = s.seen.decode('utf-8', 'replace'); i = 0
        def put(c):
            nonlocal x
            w = 2 if unicodedata.east_asian_width(c) in 'WF' else 0 if unicodedata.combining(c) else 1
            a = tuple(sorted(at.items(), key=str))
            if w == 0: return
            if x < cols: g[y][x] = (c, a)
            if w == 2 and x + 1 < cols: g[y][x + 1] = ('', a)
            x = min(x + w, cols - 1)
        while i < len(t):
            c = t[i]; i += 1
            if c == '\x1b':
                if t[i:i + 1] == '[':
                    j = i + 1
                    while j < len(t) and not '@' <= t[j] <= '~': j += 1
                    a, f = t[i + 1:j], t[j:j + 1]; i = j + 1
                    n = int(a) if a.isdigit() else 1
                    if f == 'A': y = max(0, y - n)
                    elif f == 'B': y = min(rows - 1, y + n)
                    elif f == 'C': x = min(cols - 1, x + n)
                    elif f == 'D': x = max(0, x - n)
                    elif f == 'H': x = y = 0
                    elif f == 'J':
                        if a in ('', '0'):
                            g[y][x:] = [B] * (cols - x)
                            for r in range(y + 1, rows): g[r] = [B] * cols
                        elif a == '2': g = [[B] * cols for _ in range(rows)]
                    elif f == 'K': g[y][x:] = [(' ', tuple((k, v) for k, v in sorted(at.items(), key=str) if k == 'bg'))] * (cols - x)
                    elif f == 'm':
                        q = [int(v) if v else 0 for v in a.replace(':', ';').split(';')]
                        while q:
                            v = q.pop(0)
                            if v == 0: at = {}
                            elif v in (38, 48):
                                m = [v] + (q[:2] if q[:1] == [5] else q[:4]); q = q[len(m) - 1:]; at['fg' if v == 38 else 'bg'] = tuple(m[1:])
                            elif v == 39: at.pop('fg', 0)
                            elif v == 49: at.pop('bg', 0)
                            elif 30 <= v < 38 or 90 <= v < 98: at['fg'] = v
                            elif 40 <= v < 48 or 100 <= v < 108: at['bg'] = v
                            else: at[v] = 1
            elif c == '\r': x = 0
            elif c == '\n':
                if y == rows - 1: g = g[1:] + [[B] * cols]
                else: y += 1
            elif c >= ' ': put(c)
        return g, x, y
def rows(g): return [''.join(c for c, _ in r).rstrip() for r in g]
def until_last(l):
    while l and not l[-1]: l.pop()
    return l
def expect(what, got, want):
    if got != want: print('%s: got %r, expected %r' % (what, got, want)); sys.exit(1)
UP, DOWN, RIGHT, LEFT = b'\x1b[A', b'\x1b[B', b'\x1b[C', b'\x1b[D'
def ctl(c): return bytes([ord(c) & 31])
