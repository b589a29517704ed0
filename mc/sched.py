"""Controlled scheduler of real processes: several runs over one folder, stopped before each access to its files
(system calls, by ptrace), explored in every order. States already seen (contents of the folder and what each run has
been answered so far) are explored once."""
import ctypes
import hashlib
import os
import pickle
import shutil
import signal
import struct
import time

libc = ctypes.CDLL(None, use_errno=True)
libc.ptrace.restype = ctypes.c_long
libc.ptrace.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p]
TRACEME, SYSCALL, SETOPTIONS, INFO = 0, 24, 0x4200, 0x420e
SYSGOOD, EXITKILL = 1, 0x100000

# system calls on a path: number -> (name, indices of (folder, path) arguments)
if os.uname().machine == 'aarch64':
    PATHS = {56: ('open', ((0, 1),)), 437: ('open', ((0, 1),)), 34: ('mkdir', ((0, 1),)), 35: ('unlink', ((0, 1),)), 38: ('rename', ((0, 1), (2, 3))), 276: ('rename', ((0, 1), (2, 3))),
             37: ('link', ((0, 1), (2, 3))), 36: ('symlink', ((1, 2),)), 45: ('truncate', ((None, 0),)), 79: ('stat', ((0, 1),)), 291: ('stat', ((0, 1),)), 48: ('access', ((0, 1),)), 439: ('access', ((0, 1),))}
    FDS = {63: 'read', 67: 'read', 65: 'read', 64: 'write', 68: 'write', 66: 'write', 46: 'truncate', 61: 'list', 32: 'lock'}
    BUF = {63, 67}
else:
    PATHS = {2: ('open', ((None, 0),)), 257: ('open', ((0, 1),)), 437: ('open', ((0, 1),)), 85: ('open', ((None, 0),)), 83: ('mkdir', ((None, 0),)), 258: ('mkdir', ((0, 1),)), 84: ('rmdir', ((None, 0),)),
             82: ('rename', ((None, 0), (None, 1))), 264: ('rename', ((0, 1), (2, 3))), 316: ('rename', ((0, 1), (2, 3))), 87: ('unlink', ((None, 0),)), 263: ('unlink', ((0, 1),)),
             86: ('link', ((None, 0), (None, 1))), 265: ('link', ((0, 1), (2, 3))), 88: ('symlink', ((None, 1),)), 266: ('symlink', ((1, 2),)), 76: ('truncate', ((None, 0),)),
             4: ('stat', ((None, 0),)), 6: ('stat', ((None, 0),)), 262: ('stat', ((0, 1),)), 332: ('stat', ((0, 1),)), 21: ('access', ((None, 0),)), 269: ('access', ((0, 1),)), 439: ('access', ((0, 1),))}
    FDS = {0: 'read', 17: 'read', 19: 'read', 1: 'write', 18: 'write', 20: 'write', 40: 'write', 326: 'write', 77: 'truncate', 217: 'list', 73: 'lock'}
    BUF = {0, 17}
STEPS = 120


class Unavailable(Exception):
    pass


def ptrace(req, pid, addr=0, data=0):
    ctypes.set_errno(0)
    r = libc.ptrace(req, pid, addr, data)
    if r == -1 and ctypes.get_errno():
        raise Unavailable('ptrace: ' + os.strerror(ctypes.get_errno()))
    return r


class Run:
    """One run: a process stopped before its next access to the folder."""

    def __init__(self, task, folder, rank):
        self.folder, self.rank = folder, rank
        self.history, self.op, self.done, self.blocked, self.outcome = [], None, False, False, None
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.alarm(0)
                for s in (signal.SIGALRM, signal.SIGPROF):
                    signal.signal(s, signal.SIG_DFL)
                import gc
                gc.disable()
                os.chdir(folder)
                libc.ptrace(TRACEME, 0, 0, 0)
                os.kill(os.getpid(), signal.SIGSTOP)
                try:
                    out = ('done', task())
                except BaseException as e:
                    out = ('failed', type(e).__name__, str(e)[:200])
                os.write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        self.pipe = r
        self.data = b''
        self.wait()
        ptrace(SETOPTIONS, self.pid, 0, SYSGOOD | EXITKILL)
        self.advance()

    def wait(self):
        _, st = os.waitpid(self.pid, 0)
        if os.WIFEXITED(st) or os.WIFSIGNALED(st):
            self.end(st)
            return None
        return os.WSTOPSIG(st)

    def end(self, st):
        self.done, self.op = True, None
        while True:
            c = os.read(self.pipe, 1 << 16)
            if not c:
                break
            self.data += c
        os.close(self.pipe)
        self.outcome = pickle.loads(self.data) if self.data else ('died', st)

    def info(self):
        buf = ctypes.create_string_buffer(88)
        ptrace(INFO, self.pid, 88, ctypes.addressof(buf))
        return buf.raw

    def memory(self, addr, n):
        with open('/proc/{}/mem'.format(self.pid), 'rb', buffering=0) as f:
            f.seek(addr)
            return f.read(n)

    def text(self, addr):
        out = b''
        while addr and b'\0' not in out and len(out) < 4096:
            c = self.memory(addr + len(out), min(256, 4096 - (addr + len(out)) % 4096))
            if not c:
                break
            out += c
        return os.fsdecode(out.split(b'\0')[0])

    def inside(self, base, path):
        if not path:
            return None
        if not os.path.isabs(path):
            b = ctypes.c_int(base & 0xffffffff).value if base is not None else -100
            path = os.path.join(self.folder if b == -100 else os.readlink('/proc/{}/fd/{}'.format(self.pid, b)), path)
        path = os.path.normpath(path)
        return os.path.relpath(path, self.folder) if (path + '/').startswith(self.folder + '/') else None

    def relevant(self, raw):
        """The access about to be made to the folder, or None."""
        nr, *args = struct.unpack_from('<Q6Q', raw, 24)
        if nr in PATHS:
            name, where = PATHS[nr]
            ps = [self.inside(args[i] if i is not None else None, self.text(args[j])) for i, j in where]
            return None if all(p is None for p in ps) else (name, tuple(ps), nr, args)
        if nr in FDS:
            try:
                p = os.readlink('/proc/{}/fd/{}'.format(self.pid, args[0] & 0xffffffff))
            except OSError:
                return None
            if nr in (40, 326):
                p = os.readlink('/proc/{}/fd/{}'.format(self.pid, args[0 if nr == 40 else 2] & 0xffffffff))
            if (p + '/').startswith(self.folder + '/'):
                return (FDS[nr], (os.path.relpath(p, self.folder),), nr, args)
        return None

    def advance(self):
        """Up to the next access, not made yet."""
        sig = 0
        while True:
            ptrace(SYSCALL, self.pid, 0, sig)
            s = self.wait()
            if s is None:
                return
            sig = 0
            if s != (signal.SIGTRAP | 0x80):
                sig = 0 if s in (signal.SIGTRAP, signal.SIGSTOP) else s
                continue
            raw = self.info()
            if raw[0] == 1:
                op = self.relevant(raw)
                if op:
                    self.op = op
                    return

    def refuse(self, error):
        """The access is not made: the run is answered with an error."""
        if os.uname().machine != 'x86_64':
            raise Unavailable('refusals need x86_64')
        ptrace(6, self.pid, 15 * 8, (1 << 64) - 1)
        ptrace(SYSCALL, self.pid, 0, 0)
        if self.wait() is not None:
            ptrace(6, self.pid, 10 * 8, (1 << 64) - error)
            self.history.append(self.op[:2] + (-error,))
            self.advance()

    def step(self):
        """Make the access, then go up to the next one. False: the access waits for another run."""
        if not self.blocked:
            ptrace(SYSCALL, self.pid, 0, 0)
        if self.op[0] == 'lock':
            for _ in range(100):
                p, st = os.waitpid(self.pid, os.WNOHANG)
                if p:
                    break
                time.sleep(.002)
            else:
                self.blocked = True
                return False
            if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                self.end(st)
                return True
        elif self.wait() is None:
            return True
        self.blocked = False
        raw = self.info()
        got = struct.unpack_from('<q', raw, 24)[0] if raw[0] == 2 else None
        if self.op[0] == 'open':
            got = got if got is not None and got < 0 else 0
        elif self.op[2] in BUF and got and got > 0:
            got = hashlib.sha1(self.memory(self.op[3][1], got)).hexdigest()
        self.history.append(self.op[:2] + (got,))
        self.advance()
        return True

    def kill(self):
        if not self.done:
            try:
                os.kill(self.pid, signal.SIGKILL)
                while True:
                    _, st = os.waitpid(self.pid, 0)
                    if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                        break
            except (ProcessLookupError, ChildProcessError):
                pass
            os.close(self.pipe)
            self.done = True


def contents(folder):
    out = []
    for base, dirs, files in os.walk(folder):
        for d in dirs:
            out.append((os.path.relpath(os.path.join(base, d), folder), None))
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as g:
                out.append((os.path.relpath(p, folder), g.read()))
    return sorted(out, key=lambda e: e[0])


def explore(ctx, prepare, tasks, judge):
    """Every order of the accesses of the tasks (calls made in processes of their own, in the folder) from the folder
    that `prepare` fills; judge(outcomes, schedule) looks at the folder (current directory) in the end."""
    top = os.getcwd()
    folder = os.path.join(os.path.realpath(top), 'shared')
    stack, seen, ends = [[]], set(), 0
    deadline = float(os.environ.get('MC_DEADLINE', 'inf'))
    while stack and ctx.nfails < 20:
        if time.time() > deadline:
            ctx.add('explorations_cut_short')
            break
        prefix = stack.pop()
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
        os.chdir(folder)
        runs = []
        try:
            prepare()
            try:
                for i, t in enumerate(tasks):
                    runs.append(Run(t, folder, i))
            except Unavailable:
                ctx.add('explorations_without_ptrace')       # the machine refuses: nothing is explored, nothing is claimed
                return 0
            made, finished = [], False
            while True:
                ready = [r.rank for r in runs if not r.done and not r.blocked]
                waiting = [r for r in runs if r.blocked]
                if not ready and not waiting:
                    finished = True
                    break
                if len(made) >= len(prefix):
                    def name(p):        # temporary files named after a run have the same name in every execution
                        for r in runs:
                            p = p and p.replace(str(r.pid), '<{}>'.format(r.rank))
                        return p
                    key = hashlib.sha1(repr((sorted(((name(p), c) for p, c in contents(folder)), key=lambda e: e[0]), [([(o, [name(p) for p in ps], g) for o, ps, g in r.history], r.done, r.blocked,
                                             r.op and (r.op[0], [name(p) for p in r.op[1]])) for r in runs])).encode()).digest()
                    if key in seen:
                        break
                    seen.add(key)
                    if len(made) >= STEPS:
                        ctx.add('schedules_cut_short')
                        break
                    for k in ready[1:]:
                        stack.append(made + [k])
                    choice = ready[0] if ready else None
                else:
                    choice = prefix[len(made)]
                if choice is not None:
                    made.append(choice)
                    ctx.transitions += 1
                    runs[choice].step()
                moved = [r for r in waiting if r.step()]
                if choice is None and not moved:
                    ctx.fail('deadlock', 'after {}: every run waits for another'.format(made))
                    break
            if finished:
                ends += 1
                ctx.replays += 1
                judge([r.outcome for r in runs], made, [r.history for r in runs])
        finally:
            for r in runs:
                r.kill()
            os.chdir(top)
    shutil.rmtree(folder, ignore_errors=True)
    ctx.states += len(seen)
    return ends


def trace(task, folder, steps=600, refused=(), look=True):
    """The task run in the folder: each of its accesses with the folder it leaves (what a death just after it leaves, for
    what is not written yet is lost), and the outcome (None: more than so many accesses). Some accesses can be refused
    (rank: error)."""
    top = os.getcwd()
    os.chdir(folder)
    r, out = None, []
    try:
        r = Run(task, folder, 0)
        while not r.done and len(out) < steps:
            if refused and len(out) in refused:
                r.refuse(refused[len(out)])
            elif not r.step():
                return out, ('blocked',)
            if not r.done or r.history and len(r.history) > len(out):
                out.append((r.history[-1], contents(folder) if look else None))
        return out, r.outcome if r.done else None
    finally:
        if r is not None:
            r.kill()
        os.chdir(top)
