"""Online monitor of file-system effects (interpreter audit events).

Everything the code under test creates, opens for writing, renames or removes
is recorded; effects outside the scratch directory of the check are not carried
out at all (the audit hook raises)."""
import os
import sys
import stat

_WRITE = os.O_WRONLY | os.O_RDWR | os.O_APPEND | os.O_CREAT | os.O_TRUNC


class Escape(PermissionError):
    pass


class Monitor:
    def __init__(self):
        self.on = False
        self.events = []
        self.root = os.path.realpath(os.environ.get('HV_SCRATCH', '/nonexistent'))
        self.installed = False

    def install(self):
        if not self.installed:
            self.installed = True
            sys.addaudithook(self.hook)

    def start(self):
        self.install()
        self.events = []
        self.on = True

    def stop(self):
        self.on = False
        return self.events

    def full(self, path, dir_fd=None):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, int):
            try:
                return os.readlink('/proc/self/fd/%d' % path)
            except OSError:
                return '/fd/%d' % path
        path = os.fspath(path)
        if not os.path.isabs(path):
            base = os.getcwd()
            if dir_fd is not None and dir_fd != -1:
                base = os.readlink('/proc/self/fd/%d' % dir_fd)
            path = os.path.join(base, path)
        # resolve the parent only: removing a link does not touch its target
        return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))

    def record(self, kind, path):
        if path.startswith(('/dev/', '/proc/', '/fd/')):
            return
        self.events.append((kind, path))
        if not (path + '/').startswith(self.root + '/'):
            raise Escape('%s %s is outside of the scratch directory' % (kind, path))

    def hook(self, event, args):
        if not self.on:
            return
        try:
            if event == 'open':
                path, mode, flags = args
                if isinstance(path, int) or path is None:
                    return
                if flags is not None and flags & _WRITE and not (flags & os.O_DIRECTORY):
                    p = self.full(path)
                    self.record('write', os.path.realpath(p))
            elif event in ('os.remove', 'os.rmdir'):
                self.record('remove', self.full(args[0], args[1] if len(args) > 1 else None))
            elif event == 'os.mkdir':
                self.record('mkdir', self.full(args[0], args[2] if len(args) > 2 else None))
            elif event == 'os.rename':
                self.record('remove', self.full(args[0], args[2]))
                self.record('write', self.full(args[1], args[3]))
            elif event in ('os.truncate', 'os.chmod', 'os.utime', 'os.chown'):
                self.record('write', self.full(args[0]))
            elif event in ('os.link', 'os.symlink'):
                self.record('write', self.full(args[1]))
            elif event == 'shutil.rmtree':
                self.record('rmtree', self.full(args[0]))
        except Escape:
            raise
        except OSError:
            pass


monitor = Monitor()


def snapshot(root):
    """{relative path: ('d',) / ('l', target) / ('f', content)}"""
    out = {}
    root = os.fspath(root)

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            q = os.path.join(rel, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[q] = ('l', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[q] = ('d',)
                walk(p, q)
            else:
                with open(p, 'rb') as f:
                    out[q] = ('f', f.read())
    if os.path.isdir(root):
        walk(root, '')
    return out


def diff(a, b):
    """what changed between two snapshots"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append('%s disappeared' % k)
        elif k not in a:
            out.append('%s was created' % k)
        elif a[k] != b[k]:
            out.append('%s was changed' % k)
    return out
