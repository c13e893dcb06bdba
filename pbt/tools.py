"""Running the command-line tools of the repository in this process."""
import contextlib
import importlib.machinery
import importlib.util
import io
import logging
import os
import shutil
import sys
import tempfile

from pbt.base import REPO

_loaded = {}


def load(name):
    if name not in _loaded:
        path = os.path.join(REPO, 'tools', name)
        if not os.path.exists(path):
            path += '.py'
        loader = importlib.machinery.SourceFileLoader('tool_' + name, path)
        spec = importlib.util.spec_from_loader('tool_' + name, loader)
        mod = importlib.util.module_from_spec(spec)
        dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            loader.exec_module(mod)
        finally:
            sys.dont_write_bytecode = dont
        _loaded[name] = mod
    return _loaded[name]


def libs():
    """The value of the -l option."""
    import glob
    import re
    uc = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libicuuc.so.[0-9]*'), key=len)[0]
    return '%s#%s#%s' % (uc, uc.replace('libicuuc', 'libicui18n'), re.search(r'\.so\.([0-9]+)$', uc).group(1))


class Exit(Exception):
    """The tool ended with a status other than success."""


def run(name, args, stdin=''):
    """Run a tool, returns what it prints on its standard output."""
    mod = load(name)
    out, err = io.StringIO(), io.StringIO()
    root = logging.getLogger()
    handlers, level, disabled = root.handlers[:], root.level, logging.root.manager.disable
    argv, old_in = sys.argv, sys.stdin
    sys.argv, sys.stdin = [name] + [str(a) for a in args], io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.main()
            except SystemExit as e:
                if e.code:
                    raise Exit('%s ended with %r: %s' % (name, e.code, err.getvalue()[-500:]))
    finally:
        sys.argv, sys.stdin = argv, old_in
        for h in root.handlers[:]:
            if h not in handlers:
                root.removeHandler(h)
        root.setLevel(level)
        logging.disable(disabled)
    return out.getvalue()


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix='lgr-tools-')
    try:
        yield path
    finally:
        shutil.rmtree(path)


def write(folder, name, data):
    path = os.path.join(folder, name)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
    return path
