"""Generated contract packages, each in its own throw-away directory."""
import atexit
import json
import os
import shutil
import tempfile

_root = None
_count = 0
parent = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None     # the check's own directory, if it has one


def state():
    """What the paths of the packages to come depend on."""
    return [root(), _count]


def adopt(st):
    """Go on from such a state, as far as it is possible."""
    global _root, _count
    up = os.path.dirname(st[0])
    try:
        if not os.path.isdir(up):
            os.mkdir(up, 0o755)
            atexit.register(shutil.rmtree, up, True)
        os.mkdir(st[0], 0o700)
    except OSError:
        return
    _root, _count = st
    _made()


def root():
    global _root
    if _root is None:
        _root = tempfile.mkdtemp(prefix='pbt-scores-', dir=parent)
        _made()
    return _root


def _made():
    atexit.register(shutil.rmtree, _root, True)
    if os.geteuid() == 0:
        os.chmod(_root, 0o755)


def number():
    """Another one every time."""
    global _count
    _count += 1
    return _count


def package(source, main='Main', module='main', files=None, name=None, pkg_json=None, subdir=None):
    """Writes a package and returns its path. `files` adds more sources."""
    n = number()
    base = root()
    if subdir:
        base = os.path.join(base, subdir)
    d = os.path.join(base, name or 'sc_%d' % n)
    os.makedirs(d)
    if pkg_json is None:
        pkg_json = {'version': '0.0.1', 'main_module': module, 'main_score': main}
    if pkg_json is not False:
        with open(os.path.join(d, 'package.json'), 'w') as f:
            if isinstance(pkg_json, str):
                f.write(pkg_json)
            else:
                json.dump(pkg_json, f)
    allf = {'__init__.py': ''}
    if source is not None:
        allf[module.replace('.', '/') + '.py'] = source
    allf.update(files or {})
    for k, v in allf.items():
        if v is None:
            continue
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(v)
    return d


def discard(path):
    if _root and path.startswith(_root + os.sep):
        shutil.rmtree(path, True)
